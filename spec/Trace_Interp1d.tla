--------------------------- MODULE Trace_Interp1d ---------------------------
EXTENDS Interp1dObj, TraceBase
VARIABLE l
e == Trace[l]
Step ==
  \/ e.op = "reset" /\ obj' = [h \in Handles |-> NoObj]
  \/ e.op = "make"  /\ MakeOK(e.h, e.m, e.prec, e.out)
  \/ e.op = "init"  /\ InitObjOK(e.h, DSeq(e.xs), DSeq2(e.ys), e.out)
  \/ e.op \in {"eval", "call"}   /\ EvalObjOK(e.h, e.x, e.out, Fld(e, "r"))
  \/ e.op \in {"evalv", "callv"} /\ EvalVObjOK(e.h, e.x, e.out, Fld(e, "r"))
  \/ e.op = "range" /\ RangeObjOK(e.h, e.lo, e.hi, e.out)
TraceInit == ObjInit /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
=============================================================================
