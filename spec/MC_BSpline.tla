----------------------------- MODULE MC_BSpline -----------------------------
(* Splines through every small sample set: they take the sample values, the   *)
(* B-splines sum to one, polynomials up to the degree are reproduced, degree  *)
(* one is the broken line.                                                    *)
EXTENDS BSpline, IOUtils, Json, CSV
CONSTANT MaxLen
VARIABLE hist
Xs == {<<R0, R1>>, <<R0, R1, RInt(3)>>, <<RInt(-2), R0, R1, RInt(3)>>, <<RInt(-2), RInt(-1), R1, R2, RInt(5)>>}
Ys(n) == {[i \in 1..n |-> RInt(IF i = 1 THEN a ELSE IF i = n THEN b ELSE c)] : a \in {0, 2}, b \in {-1, 3}, c \in {0, 1}}
Ts(x) == LET n == Len(x) a == x[1] w == RSub(x[n], x[1]) IN {x[i] : i \in 1..n} \cup {RAdd(a, RMul(RFrac(j, 8), w)) : j \in {1, 3, 5, 6}}
Init == BInit /\ hist = <<>>
Log(o) == hist' = Append(hist, o)
New(h, x, y, d, how) == spl' = [spl EXCEPT ![h] = Make(x, y, d)] /\ Log([op |-> "spl", h |-> h, d |-> d, how |-> how, x |-> x, y |-> y])
Copy(h, g) == spl[h].x # <<>> /\ spl' = [spl EXCEPT ![g] = spl[h]] /\ Log([op |-> "splcopy", h |-> h, g |-> g])
(* every query point at once *)
Ask(h) == spl[h].x # <<>> /\ UNCHANGED spl /\ Log([op |-> "ask", h |-> h, x |-> spl[h].x])
Next == /\ Len(hist) < MaxLen
        /\ \/ /\ hist = <<>> /\ \E x \in Xs, d \in 1..4, how \in {"std", "eigen"} : \E y \in Ys(Len(x)) : New(1, x, Eager(y), d, how)
           \/ hist # <<>> /\ (Copy(1, 2) \/ New(1, <<R0, R1, RInt(3)>>, <<R1, R1, R2>>, 2, "std") \/ (\E h \in Regs : Ask(h)))
View == <<spl, Len(hist)>>
Export == IF Len(hist') = MaxLen THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EXPORT) ELSE TRUE
Live == {h \in Regs : spl[h].x # <<>>}
Takes == \A h \in Live : \A i \in 1..Len(spl[h].x) : Value(spl[h], spl[h].x[i]) = spl[h].y[i]
One == \A h \in Live : \A t \in Ts(spl[h].x) : RSum(Basis(spl[h].k, spl[h].d, t)) = R1
Repro == hist # <<>> /\ Len(hist) = 1 => \A h \in Live : LET s == spl[h] p(t) == RAdd(RInt(2), RSub(RPow(t, s.d), RMul(RInt(3), t)))
                              q == Make(s.x, Eager([i \in 1..Len(s.x) |-> p(s.x[i])]), s.d) IN \A t \in Ts(s.x) : Value(q, t) = p(t)
Broken == \A h \in Live : spl[h].d = 1 => \A t \in Ts(spl[h].x), i \in 1..(Len(spl[h].x) - 1) :
  RLe(spl[h].x[i], t) /\ RLe(t, spl[h].x[i+1]) => LET s == spl[h] IN
     Value(s, t) = RAdd(s.y[i], RMul(RSub(s.y[i+1], s.y[i]), RDiv(RSub(t, s.x[i]), RSub(s.x[i+1], s.x[i]))))
=============================================================================
