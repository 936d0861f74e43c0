------------------------------- MODULE MC_Tri -------------------------------
(* Validates the exact integral used for the triangle rules: for every small *)
(* lattice triangle and power, it is additive under splitting the triangle,  *)
(* symmetric in the vertices, and gives area and first moment.  Behaviours    *)
(* are exported as calls.                                                     *)
EXTENDS Quad, IOUtils, Json, CSV
CONSTANTS ExportAt
VARIABLES call, done, hist
Pts == {<<RInt(x), RInt(y), R0>> : x \in {0, 1, 3}, y \in {0, 2}}
Lin == {<<RInt(1), RInt(0), R0>>, <<RInt(2), RInt(-1), RInt(3)>>}
Init == /\ QInit /\ done = FALSE /\ hist = <<>>
        /\ \E o \in 1..8, m \in 0..8, p \in Pts, q \in Pts, r \in Pts, a \in Lin :
             m <= o /\ call = [order |-> o, v |-> <<p, q, r>>, t |-> <<[a |-> a, b |-> RInt(1), m |-> m, c |-> <<RInt(1)>>]>>]
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<integ, call>>
        /\ hist' = <<[op |-> "tri", kind |-> "d", order |-> call.order, v |-> call.v[1] \o call.v[2] \o call.v[3], n |-> 1,
                     a |-> call.t[1].a \o <<call.t[1].b>>, m |-> call.t[1].m, c |-> <<RInt(1), R0>>]>>
View == <<call, done>>
Export == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EXPORT)
X(v) == TriExact(call.t, v, 1)
Mid(p, q) == [i \in 1..3 |-> RMul(RHalf, RAdd(p[i], q[i]))]
Additive == LET v == call.v  m == Mid(v[1], v[2]) IN RNear(X(v), RAdd(X(<<v[1], m, v[3]>>), X(<<m, v[2], v[3]>>)), RDec("1e-40"))
Symmetric == LET v == call.v IN X(v) = X(<<v[2], v[1], v[3]>>) /\ X(v) = X(<<v[3], v[1], v[2]>>)
Moments == LET v == call.v
               A == RDiv(RAbs(RSub(RMul(RSub(v[2][1], v[1][1]), RSub(v[3][2], v[1][2])), RMul(RSub(v[3][1], v[1][1]), RSub(v[2][2], v[1][2])))), R2)
               ls == LVals(call.t[1], v)
           IN /\ call.t[1].m = 0 => X(v) = A
              /\ call.t[1].m = 1 => X(v) = RDiv(RMul(A, RSum(ls)), RInt(3))
=============================================================================
