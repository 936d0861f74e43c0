---------------------------- MODULE Trace_BSpline ----------------------------
EXTENDS BSpline, TraceBase
VARIABLE l
e == Trace[l]
Vs(t) == Eager([i \in 1..Len(t) |-> RD(t[i])])
Step ==
  \/ e.op = "reset" /\ spl' = [h \in Regs |-> NoSpl]
  \/ e.op = "spl" /\ e.out = "ok" /\ SplOK(e.h, Vs(e.x), Vs(e.y), e.d, e.out, e.same)
  \/ e.op = "splcopy" /\ SplCopyOK(e.h, e.g, e.out)
  \/ e.op = "splev" /\ e.out = "ok" /\ SplEvalOK(e.h, RD(e.x), e.out, e.r)
TraceInit == BInit /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
=============================================================================
