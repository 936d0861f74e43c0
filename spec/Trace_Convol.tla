---------------------------- MODULE Trace_Convol ----------------------------
EXTENDS Convol, TraceBase
VARIABLE l
e == Trace[l]
Vs(t) == Eager([i \in 1..Len(t) |-> RD(t[i])])
Step ==
  \/ e.op = "reset" /\ buf' = [cap |-> 0, s |-> <<>>]
  \/ e.op = "cnew" /\ CNewOK(e.cap, e.fill, RD(e.x), e.out)
  \/ e.op = "cpush" /\ CPushOK(e.front, RD(e.x), e.out)
  \/ e.op = "conv" /\ e.out = "ok" /\ RFin(e.r) /\ ConvOK(e.prec, Vs(e.k), RD(e.dt), e.rev, e.out, Vs(e.after), RD(e.r))
  \/ e.op = "conv" /\ e.out # "ok" /\ ConvOK(e.prec, Vs(e.k), RD(e.dt), e.rev, e.out, buf.s, R0)
TraceInit == CInit /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
=============================================================================
