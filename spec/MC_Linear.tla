------------------------------ MODULE MC_Linear ------------------------------
(* Every history of a few operations on two registers of 2x2 matrices with    *)
(* small integer entries; the algebra the specification rests on is checked   *)
(* in every state reached.                                                    *)
EXTENDS Linear, IOUtils, Json, CSV
CONSTANTS MaxLen, Ent
VARIABLE hist
EntSmall == {-1, 0, 2}
EntWide == {-2, -1, 0, 1, 3}
Mats == {<<<<RInt(a), RInt(b)>>, <<RInt(c), RInt(d)>>>> : a \in Ent, b \in Ent, c \in Ent, d \in Ent}
Det2(A) == RSub(RMul(A[1][1], A[2][2]), RMul(A[1][2], A[2][1]))
Inv2(A) == LET d == Det2(A) IN Eager(<<<<RDiv(A[2][2], d), RNeg(RDiv(A[1][2], d))>>, <<RNeg(RDiv(A[2][1], d)), RDiv(A[1][1], d)>>>>)
Init == LInit /\ hist = <<>>
Log(o) == hist' = Append(hist, o)
Other(h) == 3 - h
Set(h, A) == PutM(h, A) /\ Log([op |-> "mset", h |-> h, r |-> 2, c |-> 2, A |-> A[1] \o A[2]])
Into(h, how) == IF how = "in" THEN h ELSE Other(h)
DoTr(h, how) == PutM(Into(h, how), Tr(mat[h])) /\ Log([op |-> "mtr", h |-> h, how |-> how, g |-> Other(h)])
DoInv(h, how) == Det2(mat[h]) # R0 /\ PutM(Into(h, how), Inv2(mat[h])) /\ Log([op |-> "minv", h |-> h, how |-> how, g |-> Other(h)])
DoSym(h, up) == PutM(Other(h), SymFrom(mat[h], up)) /\ Log([op |-> "msym", h |-> h, up |-> up, g |-> Other(h)])
DoId(h) == PutM(h, MId(2)) /\ Log([op |-> "mid", h |-> h])
DoNull(h) == PutM(h, MScale(R0, MId(2))) /\ Log([op |-> "mnull", h |-> h])
DoPut(h, i, j) == PutM(h, [mat[h] EXCEPT ![i][j] = RInt(5)]) /\ Log([op |-> "mput", h |-> h, i |-> i, j |-> j, x |-> RInt(5)])
Next == /\ Len(hist) < MaxLen
        /\ \/ hist = <<>> /\ \E A \in Mats : Set(1, A)
           \/ /\ hist # <<>>
              /\ \E h \in Regs : /\ Known(h)
                                 /\ \/ \E how \in {"in", "free"} : DoTr(h, how)
                                    \/ \E how \in {"in", "get"} : DoInv(h, how)
                                    \/ \E up \in BOOLEAN : DoSym(h, up)
                                    \/ DoId(h) \/ DoNull(h)
                                    \/ \E i \in 1..2 : DoPut(h, i, 1)
View == <<mat, Len(hist)>>
Export == IF Len(hist') = MaxLen THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EXPORT) ELSE TRUE

Live == {h \in Regs : Known(h)}
TrTwice == \A h \in Live : Same(Tr(Tr(mat[h])), mat[h])
RankDet == \A h \in Live : (Det2(mat[h]) # R0) = (Rank(mat[h]) = 2) /\ (Rank(mat[h]) = 0) = (MaxAbs(mat[h]) = R0)
InvLaws == \A h \in Live : Det2(mat[h]) # R0 =>
  LET X == Inv2(mat[h]) IN Same(MMul(mat[h], X), MId(2)) /\ Same(MMul(X, mat[h]), MId(2)) /\ Same(Inv2(X), mat[h]) /\ Same(Inv2(Tr(mat[h])), Tr(X))
SolveLaw == \A h \in Live : Det2(mat[h]) # R0 => LET b == <<<<RInt(3)>>, <<RInt(-7)>>>> IN Same(Solve(mat[h], b), MMul(Inv2(mat[h]), b))
(* positive pivots in order  <=>  positive leading minors (symmetric matrices) *)
PDLaw == \A h \in Live, up \in BOOLEAN : LET A == SymFrom(mat[h], up) IN PD(A) = (RLt(R0, A[1][1]) /\ RLt(R0, Det2(A)))
SymLaw == \A h \in Live, up \in BOOLEAN : Symmetric(SymFrom(mat[h], up)) /\ (Symmetric(mat[h]) => Same(SymFrom(mat[h], up), mat[h]))
(* power sums of the eigenvalues of a 2x2 matrix: tr A^2 = (tr A)^2 - 2 det A *)
PowerSum == \A h \in Live : LET A == mat[h] IN Trace_(MMul(A, A)) = RSub(RSq(Trace_(A)), RMul(R2, Det2(A)))
ConsistentLaw == \A h \in Live : LET A == mat[h] IN Consistent(A, MMul(A, <<<<R1>>, <<R2>>>>))
=============================================================================
