----------------------------- MODULE MC_Arrays -----------------------------
(* Every history of a few in-place operations on two registers, and the laws *)
(* of the questions asked at every state.                                     *)
EXTENDS Arrays, IOUtils, Json, CSV
CONSTANTS MaxLen, N
VARIABLE hist
Vals == {RInt(-2), R0, RInt(1)}
Init == AInit0 /\ hist = <<>>
Log(o) == hist' = Append(hist, o)
Put(h, v) == vec' = [vec EXCEPT ![h] = v]
Next == /\ Len(hist) < MaxLen
        /\ \/ hist = <<>> /\ \E v \in [1..N -> Vals] : LET w == Eager([i \in 1..N |-> v[i]]) IN Put(1, w) /\ Log([op |-> "vset", h |-> 1, v |-> w])
           \/ Len(hist) = 1 /\ \E a \in Vals : LET w == Eager([i \in 1..N |-> RAdd(a, RInt(i))]) IN Put(2, w) /\ Log([op |-> "vset", h |-> 2, v |-> w])
           \/ /\ Len(hist) > 1
              /\ \E h \in Regs : \/ \E up \in BOOLEAN : Put(h, IF up THEN Sorted(vec[h]) ELSE Backward(Sorted(vec[h]))) /\ Log([op |-> "vsort", h |-> h, up |-> up])
                                 \/ Put(h, Backward(vec[h])) /\ Log([op |-> "vrev", h |-> h])
                                 \/ Put(h, Const(N, R0)) /\ Log([op |-> "vnull", h |-> h])
                                 \/ Put(h, Const(N, R1)) /\ Log([op |-> "vones", h |-> h])
                                 \/ \E i \in 1..N : Put(h, [vec[h] EXCEPT ![i] = RInt(5)]) /\ Log([op |-> "vput", h |-> h, i |-> i, x |-> RInt(5)])
                                 \/ \E g \in Regs \ {h} : Put(g, vec[h]) /\ Log([op |-> "vcopy", h |-> h, g |-> g])
View == <<vec, Len(hist)>>
Export == IF Len(hist') = MaxLen THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EXPORT) ELSE TRUE
Count(v, y) == Len(SelectSeq(v, LAMBDA z : z = y))
SortLaws == \A h \in Regs : LET s == Sorted(vec[h]) IN
  /\ \A i \in 2..Len(s) : RLe(s[i - 1], s[i])
  /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(vec[h], s[i])
  /\ Backward(Backward(vec[h])) = vec[h] /\ Sorted(Backward(vec[h])) = s
Algebra == LET a == vec[1]  b == vec[2] IN Len(a) = N /\ Len(b) = N =>
  /\ Tr(Outer(a, b)) = Outer(b, a)
  /\ MMul(<<a>>, Tr(<<b>>)) = <<<<RDot(a, b)>>>>
  /\ Outer(a, b) = MMul(Tr(<<a>>), <<b>>)
  /\ RLe(RSq(RDot(a, b)), RMul(Sq(a), Sq(b)))
  /\ RLe(RSq(RMaxSeq(a)), Sq(a)) /\ RLe(Sq(a), RMul(RInt(N), RSq(RMaxSeq(a))))
=============================================================================
