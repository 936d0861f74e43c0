------------------------------- MODULE BSpline -------------------------------
(* Interpolating splines.  A spline of degree d through n samples (n > d) is  *)
(* the combination of the n B-splines on the clamped knot vector whose inner  *)
(* knots are the means of d consecutive abscissae, that takes the sample      *)
(* values; with fewer samples the degree is n - 1.                            *)
EXTENDS Dense
CONSTANT Regs
VARIABLE spl      \* spl[h] = [x, y, d, k, c]
NoSpl == [x |-> <<>>, y |-> <<>>, d |-> 0, k |-> <<>>, c |-> <<>>]
BInit == spl = [h \in Regs |-> NoSpl]
Mean(x, j, d) == RDiv(RSum(SubSeq(x, j, j + d - 1)), RInt(d))
Knots(x, d) == LET n == Len(x) IN Eager([i \in 1..(n + d + 1) |-> IF i <= d + 1 THEN x[1] ELSE IF i > n THEN x[n] ELSE Mean(x, i - d, d)])
(* the B-splines of degree d at t (the last piece is closed on the right) *)
RECURSIVE Raise(_, _, _, _, _)
Raise(b, k, t, p, d) ==
  IF p > d THEN b
  ELSE Raise(Eager([i \in 1..(Len(b) - 1) |->
         RAdd(IF k[i + p] = k[i] THEN R0 ELSE RMul(RDiv(RSub(t, k[i]), RSub(k[i + p], k[i])), b[i]),
              IF k[i + p + 1] = k[i + 1] THEN R0 ELSE RMul(RDiv(RSub(k[i + p + 1], t), RSub(k[i + p + 1], k[i + 1])), b[i + 1]))]), k, t, p + 1, d)
Basis(k, d, t) ==
  LET m == Len(k)  top == k[m]
      lastp == CHOOSE i \in 1..(m - 1) : k[i] # k[i + 1] /\ k[i + 1] = top
      b0 == Eager([i \in 1..(m - 1) |-> IF t = top THEN (IF i = lastp THEN R1 ELSE R0) ELSE IF RLe(k[i], t) /\ RLt(t, k[i + 1]) THEN R1 ELSE R0])
  IN Raise(b0, k, t, 1, d)
Coeffs(x, y, d, k) == LET n == Len(x) IN
  LET A == Eager([i \in 1..n |-> Basis(k, d, x[i])])  s == Solve(A, Eager([i \in 1..n |-> <<y[i]>>])) IN Eager([i \in 1..n |-> s[i][1]])
Make(x, y, deg) == LET d == IF Len(x) - 1 < deg THEN Len(x) - 1 ELSE deg  k == Knots(x, d) IN [x |-> x, y |-> y, d |-> d, k |-> k, c |-> Coeffs(x, y, d, k)]
Value(s, t) == RDot(s.c, Basis(s.k, s.d, t))

SplOK(h, x, y, deg, out, same) == out = "ok" /\ same /\ spl' = [spl EXCEPT ![h] = Make(x, y, deg)]
SplCopyOK(h, g, out) == out = "ok" /\ spl' = [spl EXCEPT ![g] = spl[h]]
SplEvalOK(h, t, out, r) ==
  LET s == spl[h]  v == Value(s, t)  big == RAdd(RMaxSeq(s.c), RMaxSeq(s.y))
      span == RAdd(R1, RDiv(RAdd(RAbs(s.x[1]), RAbs(s.x[Len(s.x)])), RSub(s.x[Len(s.x)], s.x[1]))) IN
  out = "ok" /\ UNCHANGED spl /\ RFin(r) /\ RNear(RD(r), v, RMul(RDec("1e-11"), RMul(span, big)))
=============================================================================
