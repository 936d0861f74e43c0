------------------------------ MODULE MC_Planar ------------------------------
(* Projections by angles with rational cosine and sine, exactly; every        *)
(* sequence of in-place and copying operations on two registers.              *)
EXTENDS Planar, IOUtils, Json, CSV
CONSTANTS MaxLen
VARIABLES hist, last
Vals == {<<RInt(3), RInt(-4)>>, <<RInt(-5), RInt(1)>>}
(* quarter turns and a 3-4-5 angle; d is the angle in degrees given to the code, none for the last *)
Dirs == {[c |-> R0, s |-> R1, d |-> 90], [c |-> RInt(-1), s |-> R0, d |-> 180], [c |-> R0, s |-> RInt(-1), d |-> -90], [c |-> R1, s |-> R0, d |-> 360]}
Skew == [c |-> RFrac(3, 5), s |-> RFrac(4, 5)]
P(kind, v, a) == IF kind = "L2N" THEN ToNED(v, a.c, a.s) ELSE ToLocal(v, a.c, a.s)
Init == PInit /\ hist = <<>> /\ last = [kind |-> "none"]
Log(o) == hist' = Append(hist, o) /\ UNCHANGED reg
Set(h, v) == vec' = [vec EXCEPT ![h] = v] /\ last' = [kind |-> "none"] /\ Log([op |-> "vset", h |-> h, x |-> v[1], y |-> v[2]])
(* the target g may be the operand itself *)
Project(h, kind, how, g, a) ==
  LET t == IF how = "in" THEN h ELSE g IN
  /\ vec' = [vec EXCEPT ![t] = P(kind, vec[h], a)] /\ last' = [kind |-> kind, src |-> vec[h], dst |-> P(kind, vec[h], a), a |-> a]
  /\ Log([op |-> "vproj", h |-> h, kind |-> kind, how |-> how, g |-> g, a |-> RInt(a.d), u |-> "DEG"])
(* the lever arm is given, or is one of the vectors: the target or the velocity itself included *)
Transport(h, how, g, q, w) ==
  LET t == IF how = "in" THEN h ELSE g
      p == IF q = 0 THEN <<RInt(2), RInt(-1)>> ELSE vec[q] IN
  /\ vec' = [vec EXCEPT ![t] = Moved(vec[h], p, w, "RADS")] /\ last' = [kind |-> "none"]
  /\ Log([op |-> "vtrans", h |-> h, how |-> how, g |-> g, p |-> q, px |-> p[1], py |-> p[2], w |-> w, fu |-> "RADS"])
Next == /\ Len(hist) < MaxLen
        /\ \/ hist = <<>> /\ \E v \in Vals : Set(1, v)
           \/ /\ hist # <<>>
              /\ \E h \in Regs : \/ \E k \in {"L2N", "N2L"}, how \in {"in", "out", "free"}, g \in Regs, a \in Dirs : (how = "in" => g = h) /\ Project(h, k, how, g, a)
                                 \/ \E how \in {"in", "out", "free"}, g \in Regs, q \in {0} \cup Regs : (how = "in" => g = h) /\ Transport(h, how, g, q, RInt(3))
View == <<vec, last, Len(hist)>>
Export == IF Len(hist') = MaxLen THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EXPORT) ELSE TRUE
Inv(k) == IF k = "L2N" THEN "N2L" ELSE "L2N"
Dirs2 == Dirs \cup {[c |-> Skew.c, s |-> Skew.s, d |-> 0]}
(* the two projections are inverse to each other, keep lengths, and compose like the angles *)
Inverse == last.kind # "none" => P(Inv(last.kind), last.dst, last.a) = last.src /\ N2(last.dst) = N2(last.src)
Compose == last.kind # "none" => \A a \in Dirs2, b \in Dirs2 :
  P("L2N", P("L2N", last.src, a), b) = P("L2N", last.src, [c |-> RSub(RMul(a.c, b.c), RMul(a.s, b.s)), s |-> RAdd(RMul(a.s, b.c), RMul(a.c, b.s)), d |-> 0])
(* transport there and back with the opposite rate *)
TransBack == \A h \in Regs : LET p == <<RInt(2), RInt(7)>> IN Moved(Moved(vec[h], p, RInt(5), "RADS"), p, RInt(-5), "RADS") = vec[h]
=============================================================================
