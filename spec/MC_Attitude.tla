---------------------------- MODULE MC_Attitude ----------------------------
(* Orientations with rational half-angle tangents, exactly: the quaternion    *)
(* of the half angles (as the library composes it) and the matrix of the      *)
(* whole angles denote the same rotation; every chain of conversions keeps it. *)
EXTENDS Attitude, IOUtils, Json, CSV
CONSTANTS MaxLen
VARIABLES tr, hist
(* (cos, sin) of quarter angles: the angle itself has four times that argument *)
Quarter == {<<R1, R0>>, <<RFrac(4, 5), RFrac(3, 5)>>, <<RFrac(12, 13), RFrac(-5, 13)>>, <<RFrac(24, 25), RFrac(7, 25)>>, <<RFrac(40, 41), RFrac(-9, 41)>>}
Dbl(a) == <<RSub(RSq(a[1]), RSq(a[2])), RMul(R2, RMul(a[1], a[2]))>>
QX(h) == <<h[1], h[2], R0, R0>>
QY(h) == <<h[1], R0, h[2], R0>>
QZ(h) == <<h[1], R0, R0, h[2]>>
QMul(a, b) == <<RSub(RSub(RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RMul(a[3], b[3])), RMul(a[4], b[4])),
                RAdd(RSub(RAdd(RMul(a[1], b[2]), RMul(a[2], b[1])), RMul(a[4], b[3])), RMul(a[3], b[4])),
                RAdd(RAdd(RSub(RMul(a[1], b[3]), RMul(a[2], b[4])), RMul(a[3], b[1])), RMul(a[4], b[2])),
                RAdd(RSub(RAdd(RMul(a[1], b[4]), RMul(a[2], b[3])), RMul(a[3], b[2])), RMul(a[4], b[1]))>>
HalfQ(r, p, y) == QMul(QZ(y), QMul(QY(p), QX(r)))          \* r, p, y: (cos, sin) of half angles
(* the closed form of eulerAnglesZYXToQuaternion *)
ClosedQ(r, p, y) ==
  LET M(a, b, c) == RMul(a, RMul(b, c)) IN
  <<RAdd(M(r[1], p[1], y[1]), M(r[2], p[2], y[2])), RSub(M(r[2], p[1], y[1]), M(r[1], p[2], y[2])),
    RAdd(M(r[1], p[2], y[1]), M(r[2], p[1], y[2])), RSub(M(r[1], p[1], y[2]), M(r[2], p[2], y[1]))>>
Init == TInit /\ tr = <<>> /\ hist = <<>>
Set(a, b, c) == /\ hist = <<>> /\ tr' = <<Dbl(a), Dbl(b), Dbl(c)>>
                /\ att' = [att EXCEPT ![1] = [rep |-> "quat", m |-> OfCS(Dbl(Dbl(a)), Dbl(Dbl(b)), Dbl(Dbl(c))), tol |-> R0, cur |-> <<>>, own |-> R0]]
                /\ hist' = <<[op |-> "tset", h |-> 1, rep |-> "quat", q |-> HalfQ(Dbl(a), Dbl(b), Dbl(c))]>>
Conv(to) == hist # <<>> /\ hist[Len(hist)] # [op |-> "tconv", h |-> 1, to |-> to] /\ att' = [att EXCEPT ![1].rep = to] /\ UNCHANGED tr /\ hist' = Append(hist, [op |-> "tconv", h |-> 1, to |-> to])
Next == Len(hist) < MaxLen /\ ((\E a, b, c \in Quarter : Set(a, b, c)) \/ (\E to \in {"euler", "quat", "matrix"} : to # att[1].rep /\ Conv(to)))
Export == IF Len(hist') = MaxLen THEN CSVWrite("%1$s", <<ToJson([k \in 1..Len(hist') |-> IF k = 1 THEN [op |-> "tset", h |-> 1, rep |-> "quat", q |-> [i \in 1..4 |-> RSig(hist'[1].q[i], 50)]] ELSE hist'[k]])>>, IOEnv.EXPORT) ELSE TRUE
Compose == hist # <<>> => HalfQ(tr[1], tr[2], tr[3]) = ClosedQ(tr[1], tr[2], tr[3])
SameRotation == hist # <<>> => MDist(OfQuat(HalfQ(tr[1], tr[2], tr[3])), att[1].m) = R0 \/ RLe(MDist(OfQuat(HalfQ(tr[1], tr[2], tr[3])), att[1].m), RPow(R2, -190))
Proper == hist # <<>> => MMul(att[1].m, MTr(att[1].m)) = Id3 /\ Det(att[1].m) = R1
DoubleCover == hist # <<>> => LET q == HalfQ(tr[1], tr[2], tr[3]) IN OfQuat(q) = OfQuat([i \in 1..4 |-> RNeg(q[i])])
(* reading the angles back: tangents of roll and yaw, sine of pitch *)
ReadBack == hist # <<>> =>
  LET m == att[1].m  r == Dbl(tr[1]) p == Dbl(tr[2]) y == Dbl(tr[3]) IN
  /\ RNeg(m[3][1]) = p[2] /\ RMul(m[3][2], r[1]) = RMul(m[3][3], r[2]) /\ RMul(m[2][1], y[1]) = RMul(m[1][1], y[2])
  /\ CosP(m) = RAbs(p[1]) \/ RNear(CosP(m), RAbs(p[1]), RPow(R2, -190))
=============================================================================
