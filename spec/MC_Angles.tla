----------------------------- MODULE MC_Angles -----------------------------
(* The normalisation algorithms (truncated remainder, then a correction) on  *)
(* every multiple of Step degrees in [-Span, Span], in every order.          *)
EXTENDS Angles, IOUtils, Json, CSV
CONSTANTS Span, Step, MaxLen
VARIABLE hist
Trunc(a) == IF RLt(a, R0) THEN RNeg(RFloor(RNeg(a))) ELSE RFloor(a)
Fmod(a, P) == RSub(a, RMul(P, Trunc(RDiv(a, P))))
Mod(a, P) == LET f == Fmod(a, P)  g == IF RLt(f, R0) THEN RAdd(f, P) ELSE f IN IF RLt(g, P) THEN g ELSE R0
Norm(kind, a) ==
  LET P == Period(kind)  H == RMul(RHalf, P) IN
  IF Signed(kind) THEN LET m == Mod(RAdd(a, H), P) IN RSub(IF RLe(m, R0) THEN RAdd(m, P) ELSE m, H) ELSE Mod(a, P)
Angle(n) == RFrac(n * Step, 4)
Init == AInit /\ hist = <<>>
Start(n) == hist = <<>> /\ ASetOK(1, "d", Angle(n)) /\ hist' = <<[op |-> "aset", h |-> 1, x |-> Angle(n)]>>
Normalise(kind) == hist # <<>> /\ ang' = [ang EXCEPT ![1].x = Norm(kind, ang[1].x), ![1].k = @ + 1]
                   /\ hist' = Append(hist, [op |-> "anorm", h |-> 1, kind |-> kind])
Next == Len(hist) < MaxLen /\ ((hist = <<>> /\ \E n \in -Span..Span : Start(n)) \/ (\E k \in {"mod360", "0_360", "180"} : Normalise(k)))
Export == IF Len(hist') = MaxLen THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EXPORT) ELSE TRUE
Last == hist[Len(hist)]
Ranged == Len(hist) > 1 => InRange(Last.kind, "d", ang[1].x)
Congr == Len(hist) > 1 => Congruent(Last.kind, "i", ang[1].first, ang[1].x, 1)
(* the same kind twice changes nothing; the two intervals differ by 0 or a period *)
Idem == Len(hist) > 1 => Norm(Last.kind, ang[1].x) = ang[1].x
Agree == Len(hist) > 0 => LET a == ang[1].x  s == Norm("180", a)  u == Norm("0_360", a) IN u = (IF RLt(s, R0) THEN RAdd(s, RInt(360)) ELSE s)
Range1 == Len(hist) = 1 => InRange("PI", "d", Norm("PI", ang[1].x)) /\ InRange("0_2PI", "d", Norm("0_2PI", ang[1].x))
=============================================================================
