----------------------------- MODULE Trace_Conc -----------------------------
EXTENDS Conc, TraceBase
VARIABLE l
e == Trace[l]
Step ==
  \/ e.op = "reset" /\ ref' = [c \in Calls |-> Unknown] /\ busy' = [t \in Threads |-> 0]
  \/ e.op = "obj"   /\ MakeOK(e.out)
  \/ e.op = "def"   /\ DefOK(e.c, e.out)
  \/ e.op = "alone" /\ AloneOK(e.c, e.out, Fld(e, "r"))
  \/ e.op = "par"   /\ ParOK(e.out)
  \/ e.op = "begin" /\ BeginOK(e.t, e.c)
  \/ e.op = "end"   /\ EndOK(e.t, e.c, e.r)
TraceInit == CInit0 /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
=============================================================================
