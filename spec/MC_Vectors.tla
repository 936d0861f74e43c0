----------------------------- MODULE MC_Vectors -----------------------------
(* Every history of a few operations on two registers of two-element vectors *)
(* with small values, and the laws of the generators over small arguments.   *)
EXTENDS Vectors, IOUtils, Json, CSV
CONSTANT MaxLen
VARIABLES hist, last
Two == {<<RInt(a), RInt(b)>> : a \in {-1, 0, 2}, b \in {-1, 0, 2}}
Map(f, v, w) == Eager([i \in 1..Len(v) |-> Bin(f, v[i], w[i])])
Init == SVInit /\ hist = <<>> /\ last = <<>>
Log(o) == hist' = Append(hist, o)
Put(h, v) == sv' = [sv EXCEPT ![h] = v]
Set(h, v) == Put(h, v) /\ last' = <<>> /\ Log([op |-> "sset", h |-> h, v |-> v])
DoBin(f, h, g, o) == /\ Len(sv[h]) = Len(sv[g]) /\ (f = "Divide" => \A i \in 1..Len(sv[g]) : sv[g][i] # R0)
                     /\ Put(o, Map(f, sv[h], sv[g])) /\ last' = <<f, sv[h], sv[g]>> /\ Log([op |-> "sbin", f |-> f, h |-> h, g |-> g, o |-> o])
DoIn(f, h, c) == Put(h, Eager([i \in 1..Len(sv[h]) |-> InPlace(f, sv[h][i], c)])) /\ last' = <<>> /\ Log([op |-> "sinp", f |-> f, h |-> h, c |-> c])
DoAddS(h, o) == Put(o, Eager([i \in 1..Len(sv[h]) |-> RAdd(sv[h][i], RInt(3))])) /\ last' = <<>> /\ Log([op |-> "sadds", h |-> h, c |-> RInt(3), o |-> o])
Next == /\ Len(hist) < MaxLen
        /\ \/ hist = <<>> /\ \E v \in Two : Set(1, v)
           \/ Len(hist) = 1 /\ \E v \in Two : Set(2, v)
           \/ /\ Len(hist) > 1
              /\ \/ \E f \in {"Add", "Minus", "Mult", "Divide"}, h \in Regs, g \in Regs, o \in Regs : DoBin(f, h, g, o)
                 \/ \E h \in Regs : DoIn("Scale", h, RHalf) \/ DoIn("Negate", h, R0) \/ DoIn("Pow", h, R2) \/ \E o \in Regs : DoAddS(h, o)
View == <<sv, last, Len(hist)>>
Export == IF Len(hist') = MaxLen THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EXPORT) ELSE TRUE
(* laws of the element-wise operations *)
Laws == last # <<>> => LET f == last[1]  v == last[2]  w == last[3] IN
  /\ f = "Add" => Map("Add", w, v) = Map(f, v, w) /\ Map("Minus", Map(f, v, w), w) = v /\ RSum(Map(f, v, w)) = RAdd(RSum(v), RSum(w))
  /\ f = "Divide" => Map("Mult", Map(f, v, w), w) = v
NegTwice == \A h \in Regs : Eager([i \in 1..Len(sv[h]) |-> InPlace("Negate", InPlace("Negate", sv[h][i], R0), R0)]) = sv[h]
(* generators: ends, equal steps, and the range of arange *)
SmallA == {RInt(-2), R0, RFrac(1, 3)}
SmallD == {R1, RFrac(7, 2), RInt(4)}
ASSUME \A a \in SmallA, d \in SmallD, n \in 2..6 :
         /\ LinAt(a, RAdd(a, d), n, 1) = a /\ LinAt(a, RAdd(a, d), n, n) = RAdd(a, d)
         /\ \A i \in 2..n : RSub(LinAt(a, RAdd(a, d), n, i), LinAt(a, RAdd(a, d), n, i - 1)) = RDiv(d, RInt(n - 1))
ASSUME \A a \in SmallA, d \in SmallD, s \in {RFrac(1, 2), R1, RFrac(2, 3), RInt(5)} :
         LET c == Ceil(RDiv(d, s)) IN RLt(RMul(RInt(c - 1), s), d) /\ RLe(d, RMul(RInt(c), s))
(* a door is the difference of two steps: height inside, half at the edges, none outside *)
ASSUME \A x \in {RInt(k) : k \in -3..3} : RSub(Step01(x, RInt(-1)), Step01(x, RInt(2))) = (IF x \in {RInt(-1), RInt(2)} THEN RHalf ELSE IF RLt(RInt(-1), x) /\ RLt(x, R2) THEN R1 ELSE R0)
=============================================================================
