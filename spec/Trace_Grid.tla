----------------------------- MODULE Trace_Grid -----------------------------
EXTENDS GridObj, TraceBase
VARIABLE l
e == Trace[l]
r == Fld(e, "r")
Step ==
  \/ e.op = "reset" /\ g' = [h \in Handles |-> NoG]
  \/ e.op = "new" /\ NewOK(e.h, e.kind, e.d, e.out)
  \/ e.op = "del" /\ DelOK(e.h, e.out)
  \/ e.op \in {"copy", "assign"} /\ CopyOK(e.h, e.from, e.out)
  \/ e.op = "coord" /\ CoordOK(e.h, DSeqG(e.v), e.out)
  \/ e.op = "var" /\ VarOK(e.h, e.shape, DSeqG(e.data), e.out)
  \/ e.op = "getcoord" /\ GetCoordOK(e.h, e.i, DSeqG(r), e.out)
  \/ e.op = "limits" /\ LimitsOK(e.h, e.i, IF Has(e, "lo") THEN RD(e.lo) ELSE R0, IF Has(e, "hi") THEN RD(e.hi) ELSE R0, e.out)
  \/ e.op \in {"first", "last"} /\ EndOK(e.h, e.i, e.op = "last", IF Has(e, "r") THEN RD(r) ELSE R0, e.out)
  \/ e.op = "dim" /\ DimOK(e.h, r, e.out)
  \/ e.op = "valid" /\ ValidOK(e.h, r, e.out)
  \/ e.op = "interp" /\ InterpOK(e.h, DSeqG(e.p), FALSE, r, e.out)
  \/ e.op = "interpc" /\ InterpOK(e.h, DSeqG(e.p), e.check, r, e.out)
  \/ e.op = "at" /\ AtOK(e.h, e.ix, r, e.out)
  \/ e.op = "nearest" /\ NearestOK(e.h, DSeqG(e.p), r, e.out)
  \/ e.op = "data" /\ DataOK(e.h, DSeqG(e.p), r, e.out)
  \/ e.op = "around" /\ AroundOK(e.h, DSeqG(e.p), r, e.out)
TraceInit == GInit /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
=============================================================================
