------------------------------ MODULE Interp1d ------------------------------
(* What a one-dimensional interpolator built from samples (xs, ys) under a  *)
(* given out-of-range method must return.                                   *)
(*   xs : sequence of at least two strictly increasing rationals            *)
(*   ys : sequence of samples of the same length; a sample is a sequence of *)
(*        components (1 for real series, 2 for complex ones)                *)
EXTENDS Rat

WellFormed(xs, ys) ==
  /\ Len(xs) >= 2 /\ Len(ys) = Len(xs)
  /\ \A i \in 1..Len(xs)-1 : RLt(xs[i], xs[i+1])
(* samples that can never be accepted *)
Misfit(xs, ys) == Len(xs) = 0 \/ Len(ys) # Len(xs) \/ \E i \in 1..Len(xs)-1 : RLt(xs[i+1], xs[i])

RECURSIVE BisectGE(_, _, _, _)
(* least index k in lo..hi with x <= xs[k], given x <= xs[hi] *)
BisectGE(xs, x, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF RLe(x, xs[m]) THEN BisectGE(xs, x, lo, m) ELSE BisectGE(xs, x, m+1, hi)

(* index of the left node of the segment that decides the value at x:       *)
(* the segment containing x, else the nearest end segment                   *)
Seg(xs, x) ==
  LET n == Len(xs) IN
  IF RLe(x, xs[1]) THEN 1
  ELSE IF RLt(xs[n], x) THEN n - 1
  ELSE LET k == BisectGE(xs, x, 1, n) IN k - 1

(* the straight line through samples i and i+1, component c, at x *)
Line(xs, ys, i, c, x) ==
  LET dx == RSub(xs[i+1], xs[i]) IN
  RAdd(ys[i][c], RDiv(RMul(RSub(ys[i+1][c], ys[i][c]), RSub(x, xs[i])), dx))

Comps(ys) == Len(ys[1])
LinearAt(xs, ys, x) == LET i == Seg(xs, x) IN [c \in 1..Comps(ys) |-> Line(xs, ys, i, c, x)]

InRange(xs, x) == RLe(xs[1], x) /\ RLe(x, xs[Len(xs)])
Clamp(xs, x) == RMax(xs[1], RMin(xs[Len(xs)], x))

Methods == {"LINEAR", "EXTRAPOLATE", "SATURATE"}
(* the specified response: a value, or termination of the program *)
Response(m, xs, ys, x) ==
  IF InRange(xs, x) THEN [kind |-> "value", v |-> LinearAt(xs, ys, x)]
  ELSE IF m = "LINEAR" THEN [kind |-> "die", v |-> <<>>]
  ELSE IF m = "SATURATE" THEN [kind |-> "value", v |-> LinearAt(xs, ys, Clamp(xs, x))]
  ELSE [kind |-> "value", v |-> LinearAt(xs, ys, x)]

(* Rounding allowance: 64 units of roundoff of the largest intermediate of   *)
(* any reasonable arrangement of the formula.                                *)
Allow(prec, xs, ys, i, c, x) ==
  LET dx == RSub(xs[i+1], xs[i])
      my == RAdd(RAbs(ys[i][c]), RAbs(ys[i+1][c]))
      mx == RAdd(RAbs(x), RAdd(RAbs(xs[i]), RAbs(xs[i+1])))
      all == IF Comps(ys) = 1 THEN my
             ELSE RAdd(RAdd(RAbs(ys[i][1]), RAbs(ys[i+1][1])), RAdd(RAbs(ys[i][2]), RAbs(ys[i+1][2])))
  IN RAdd(RMul(RMul(RInt(64), IF prec = "f" THEN EpsF ELSE EpsD),
                    RAdd(all, RDiv(RMul(all, mx), dx))),
          RPow(R2, IF prec = "f" THEN -120 ELSE -1000))

(* recorded result r (sequence of double texts) agrees with the value at x   *)
AgreesAt(prec, xs, ys, x, r) ==
  LET i == Seg(xs, x) IN
  /\ Len(r) = Comps(ys)
  /\ \A c \in 1..Comps(ys) : RFin(r[c]) /\ RNear(RD(r[c]), Line(xs, ys, i, c, x), Allow(prec, xs, ys, i, c, x))

(* recorded outcome (out, r) of one scalar evaluation at the recorded x      *)
EvalOK(prec, m, xs, ys, xt, out, r) ==
  IF xt = "nan" \/ (m = "EXTRAPOLATE" /\ ~RFin(xt)) THEN out = "ok"
  ELSE IF ~RFin(xt) THEN
         IF m = "LINEAR" THEN out = "exit1"
         ELSE out = "ok" /\ AgreesAt(prec, xs, ys, IF xt = "inf" THEN xs[Len(xs)] ELSE xs[1], r)
  ELSE LET x == RD(xt) IN
    IF InRange(xs, x) THEN out = "ok" /\ AgreesAt(prec, xs, ys, x, r)
    ELSE IF m = "LINEAR" THEN out = "exit1"
    ELSE out = "ok" /\ AgreesAt(prec, xs, ys, IF m = "SATURATE" THEN Clamp(xs, x) ELSE x, r)

(* recorded outcome of an evaluation on a vector of points: pointwise        *)
EvalVecOK(prec, m, xs, ys, xts, out, rs) ==
  LET dies == m = "LINEAR" /\ \E k \in 1..Len(xts) : xts[k] # "nan" /\ (~RFin(xts[k]) \/ ~InRange(xs, RD(xts[k]))) IN
  IF dies THEN out = "exit1"
  ELSE /\ out = "ok"
       /\ Len(rs) = Len(xts)
       /\ \A k \in 1..Len(xts) : EvalOK(prec, m, xs, ys, xts[k], "ok", rs[k])

DSeq(t) == [i \in 1..Len(t) |-> RD(t[i])]
DSeq2(t) == [i \in 1..Len(t) |-> DSeq(t[i])]
=============================================================================
