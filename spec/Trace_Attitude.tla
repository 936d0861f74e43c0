--------------------------- MODULE Trace_Attitude ---------------------------
EXTENDS Attitude, TraceBase
VARIABLE l
e == Trace[l]
QD(t) == Eager([i \in 1..Len(t) |-> RD(t[i])])
Fin(t) == \A i \in 1..Len(t) : RFin(t[i])
Step ==
  \/ e.op = "reset" /\ att' = [h \in Regs |-> NoAtt]
  \/ e.op = "tset" /\ TSetOK(e.h, e.rep, QD(e.v))
  \/ e.op = "tconv" /\ e.out = "ok" /\ Fin(e.v) /\ TConvOK(e.h, e.to, e.out, QD(e.v))
TraceInit == TInit /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
=============================================================================
