---------------------------- MODULE Trace_Lut1d ----------------------------
EXTENDS Lut1d, TraceBase
VARIABLE l
e == Trace[l]
Step ==
  \/ e.op = "reset" /\ tab' = [h \in Handles |-> NoTab]
  \/ e.op = "tnew"  /\ NewOK(e.h, e.m, e.prec, e.out)
  \/ e.op = "tdel"  /\ DelOK(e.h, e.out)
  \/ e.op = "tsetx" /\ SetXOK(e.h, DSeq(e.xs), e.out)
  \/ e.op = "tgetx" /\ GetXOK(e.h, DSeq(Fld(e, "r")), e.out)
  \/ e.op = "tcount" /\ CountOK(e.h, Fld(e, "r"), e.out)
  \/ e.op = "tsamples" /\ SamplesOK(e.h, Fld(e, "r"), e.out)
  \/ e.op = "tadd"  /\ AddOK(e.h, e.name, DSeq2(e.ys), Fld(e, "r"), e.out)
  \/ e.op = "teval" /\ EvalNamedOK(e.h, e.name, e.x, Fld(e, "r"), e.out)
  \/ e.op = "tevalv" /\ EvalNamedVOK(e.h, e.name, e.x, Fld(e, "r"), e.out)
  \/ e.op = "trange" /\ RangeNamedOK(e.h, e.name, Fld(e, "lo"), Fld(e, "hi"), e.out)
  \/ e.op = "tall"  /\ EvalAllOK(e.h, e.x, Fld(e, "r"), e.out)
  \/ e.op = "tallv" /\ EvalAllVOK(e.h, e.x, Fld(e, "r"), e.out)
  \/ e.op \in {"tmovec", "tmovea"} /\ MoveOK(e.h, e.from, e.out)
TraceInit == LutInit /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
=============================================================================
