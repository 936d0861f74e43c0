---------------------------- MODULE Trace_Linear ----------------------------
EXTENDS Linear, TraceBase
VARIABLE l
e == Trace[l]
M(t) == Eager([i \in 1..Len(t) |-> [j \in 1..Len(t[i]) |-> RD(t[i][j])]])
Fin(t) == \A i \in 1..Len(t) : \A j \in 1..Len(t[i]) : RFin(t[i][j])
F(k) == IF k \in DOMAIN e THEN M(e[k]) ELSE <<>>
Ok(k) == k \in DOMAIN e /\ Fin(e[k])
Def(op) == e.op = op
Src == F("src")
AllFin == \A k \in (DOMAIN e) \cap {"Q", "R", "P", "L", "U", "S", "V", "X"} : Fin(e[k])
Step ==
  \/ Def("reset") /\ mat' = [h \in Regs |-> <<>>]
  \/ Def("mset") /\ MSetOK(e.h, M(e.A))
  \/ e.op \notin {"reset", "mset"} /\ ~Known(e.h) /\ mat' = (IF "g" \in DOMAIN e THEN [mat EXCEPT ![e.g] = <<>>] ELSE mat)
  \/ /\ e.op \notin {"reset", "mset"} /\ Known(e.h)
     /\ \/ Def("mqr") /\ AllFin /\ QROK(e.prec, e.h, e.full, e.out, Src, F("Q"), F("R"))
        \/ Def("mlu") /\ AllFin /\ LUOK(e.prec, e.h, e.out, Src, F("P"), F("L"), F("U"))
        \/ Def("mchol") /\ AllFin /\ CholOK(e.prec, e.h, e.out, IF e.out = "ok" THEN Src ELSE mat[e.h], F("L"))
        \/ Def("mcup") /\ e.out = "ok" /\ CholUpOK(e.prec, e.h, e.how = "in", M(e.v), RD(e.s), e.out, Src, IF Ok("L") THEN F("L") ELSE <<>>)
        \/ Def("msvd") /\ AllFin /\ SVDOK(e.prec, e.h, e.out, Src, F("U"), F("S"), F("V"))
        \/ Def("minv") /\ e.out = "ok" /\ InverseOK(e.prec, e.h, e.how = "in", e.g, e.out, Src, F("X"))
        \/ Def("mpinv") /\ AllFin /\ e.out = "ok" /\ PinvOK(e.prec, e.h, e.g, RD(e.t), e.out, Src, F("X"))
        \/ Def("msolve") /\ AllFin /\ e.out = "ok" /\ SolveOK(e.prec, e.h, M(e.B), e.out, Src, F("X"))
        \/ Def("mls") /\ AllFin /\ e.out = "ok" /\ LeastOK(e.prec, e.h, M(e.B), e.out, Src, F("X"))
        \/ Def("mlsc") /\ AllFin /\ LeastConOK(e.prec, e.h, M(e.b), M(e.C), M(e.d), e.out, Src, F("X"))
        \/ Def("meig") /\ e.out = "ok" /\ Ok("ev") /\ EigenOK(e.prec, e.h, e.out, Src, F("ev"))
        \/ Def("mtr") /\ e.out = "ok" /\ TransposeOK(e.h, e.how = "in", e.g, e.out, Src, F("X"))
        \/ Def("msym") /\ e.out = "ok" /\ SymOK(e.h, e.up, e.g, e.out, Src, F("X"))
        \/ Def("mexpr") /\ AllFin /\ e.out = "ok" /\ MExprOK(e.prec, e.h, e.g, e.form, RD(e.c), e.out, Src, F("X"))
        \/ Def("mid") /\ e.out = "ok" /\ IdentOK(e.h, e.out, F("X"))
        \/ Def("mnull") /\ e.out = "ok" /\ NullOK(e.h, e.out, F("X"))
        \/ Def("mrand") /\ AllFin /\ e.out = "ok" /\ RandOK(e.h, e.out, F("X"))
        \/ Def("mpart") /\ e.out = "ok" /\ PartOK(e.h, e.what, e.i, e.out, F("X"))
        \/ Def("mput") /\ e.out = "ok" /\ PutAtOK(e.h, e.i, e.j, RD(e.x), e.out, F("X"))
        \/ Def("meq") /\ e.out = "ok" /\ (Known(e.with) => EqOK(e.h, e.with, RD(e.eps), e.out, e.r)) /\ UNCHANGED mat
        \/ Def("mpred") /\ e.out = "ok" /\ PredOK(e.prec, e.h, e.name, RD(e.eps), e.out, e.r)
TraceInit == LInit /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
=============================================================================
