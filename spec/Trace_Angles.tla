---------------------------- MODULE Trace_Angles ----------------------------
EXTENDS Angles, TraceBase
VARIABLE l
e == Trace[l]
Step ==
  \/ e.op = "reset" /\ ang' = [h \in Regs |-> NoAng]
  \/ e.op = "aset" /\ ASetOK(e.h, e.prec, RD(e.x))
  \/ e.op = "anorm" /\ e.out = "ok" /\ RFin(e.r) /\ ANormOK(e.h, e.kind, e.out, RD(e.r))
  \/ e.op = "trigo" /\ e.out = "ok" /\ TrigoOK(e.prec, RD(e.x), e.u, e.out, e.c, e.s)
  \/ e.op = "aparse" /\ ParseOK(e.t, e.out, IF Has(e, "r") THEN e.r ELSE "")
TraceInit == AInit /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
=============================================================================
