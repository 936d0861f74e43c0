---------------------------- MODULE Trace_Lut2d ----------------------------
EXTENDS Lut2d, TraceBase
VARIABLE l
e == Trace[l]
r == Fld(e, "r")
Step ==
  \/ e.op = "reset" /\ obj' = [h \in Handles |-> NoObj] /\ tab' = [h \in Handles |-> NoTab]
  \/ e.op = "make"  /\ Make2OK(e.h, e.m, e.prec, e.out)
  \/ e.op = "init"  /\ Init2OK(e.h, DSeqG(e.xs), DSeqG(e.ys), DSeqG(e.data), e.out)
  \/ e.op \in {"eval", "call"}   /\ EvalObj2OK(e.h, e.x, e.y, r, e.out)
  \/ e.op \in {"evalv", "callv"} /\ EvalVObj2OK(e.h, e.p, r, e.out)
  \/ e.op = "range" /\ RangeObj2OK(e.h, r, e.out)
  \/ e.op = "tnew" /\ TNewOK(e.h, e.prec, e.out)
  \/ e.op = "tmethod" /\ TMethodOK(e.h, e.m, e.out)
  \/ e.op = "tsetx" /\ TSetXOK(e.h, DSeqG(e.v), e.out)
  \/ e.op = "tsety" /\ TSetYOK(e.h, DSeqG(e.v), e.out)
  \/ e.op = "tgetx" /\ TGetXOK(e.h, DSeqG(r), e.out)
  \/ e.op = "tgety" /\ TGetYOK(e.h, DSeqG(r), e.out)
  \/ e.op = "tadd" /\ TAddOK(e.h, e.name, DSeqG(e.data), r, e.out)
  \/ e.op = "tcount" /\ TCountOK(e.h, r, e.out)
  \/ e.op = "tsamples" /\ TSamplesOK(e.h, r, e.out)
  \/ e.op = "thas" /\ THasOK(e.h, e.name, r, e.out)
  \/ e.op \in {"teval", "tevalc"} /\ TEvalOK(e.h, e.name, e.x, e.y, r, e.out)
  \/ e.op = "tevalv" /\ TEvalVOK(e.h, e.name, e.p, r, e.out)
TraceInit == L2Init /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
=============================================================================
