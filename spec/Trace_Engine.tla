---------------------------- MODULE Trace_Engine ----------------------------
EXTENDS Engine, TraceBase
VARIABLE l
e == Trace[l]
r == Fld(e, "r")
DD(t) == [i \in 1..Len(t) |-> DSeqG(t[i])]
Step ==
  \/ e.op = "reset" /\ TypesOK("d")
  \/ e.op = "types" /\ TypesOK(e.t)
  \/ e.op = "buf" /\ BufOK(e.k, DSeqG(e.v), e.out)
  \/ e.op = "poke" /\ PokeOK(e.k, e.i, RD(e.x), e.out)
  \/ e.op = "mk" /\ MakeOK(e.h, e.kind, e.cont, e.copy, DD(e.grids), e.k, e.out)
  \/ e.op = "again" /\ AgainOK(e.h, DD(e.grids), e.k, e.out)
  \/ e.op = "drop" /\ DropOK(e.h, e.out)
  \/ e.op = "ask" /\ AskOK(e.h, DSeqG(e.p), e.out, r)
  \/ e.op = "batch" /\ BatchOK(e.h, DD(e.pts), e.out, r)
  \/ e.op = "find" /\ FindOK(e.h, e.i, RD(e.x), e.out, r)
  \/ e.op \in {"vert", "vertb"} /\ VertexOK(e.h, e.cell, e.v, e.out, r)
  \/ e.op = "onecall" /\ OneCallOK(DD(e.grids), e.k, DD(e.pts), e.out, r)
  \/ e.op = "cube" /\ CubeOK(DSeqG(e.f), DSeqG(e.xi), e.out, r)
TraceInit == EInit /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
=============================================================================
