-------------------------------- MODULE Poly --------------------------------
(* Polynomials as sequences of rational coefficients c[1] + c[2] x + ...     *)
(* (tensor products for two and three variables), and Chebyshev expansions.  *)
EXTENDS Rat
RECURSIVE PEvalFrom(_, _, _)
PEvalFrom(c, x, i) == IF i = Len(c) THEN c[i] ELSE RAdd(c[i], RMul(x, PEvalFrom(c, x, i + 1)))
PEval(c, x) == IF c = <<>> THEN R0 ELSE PEvalFrom(c, x, 1)
PDiff(c) == Eager([i \in 1..(Len(c) - 1) |-> RMul(RInt(i), c[i + 1])])
PDEval(c, x) == PEval(PDiff(c), x)
(* Sum |c_i| |x|^i: the size that rounding errors are measured against *)
PAbs(c, x) == PEval([i \in 1..Len(c) |-> RAbs(c[i])], RAbs(x))
PDAbs(c, x) == PDEval([i \in 1..Len(c) |-> RAbs(c[i])], RAbs(x))

PAdd(p, q) == LET n == IF Len(p) > Len(q) THEN Len(p) ELSE Len(q)
                  G(s, i) == IF i <= Len(s) THEN s[i] ELSE R0
              IN Eager([i \in 1..n |-> RAdd(G(p, i), G(q, i))])
PScale(a, p) == Eager([i \in 1..Len(p) |-> RMul(a, p[i])])
PShift(p) == <<R0>> \o p

(* complex numbers as pairs *)
CAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
CMul(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
RECURSIVE CPEvalFrom(_, _, _)
CPEvalFrom(c, z, i) == IF i = Len(c) THEN <<c[i], R0>> ELSE CAdd(<<c[i], R0>>, CMul(z, CPEvalFrom(c, z, i + 1)))
CPEval(c, z) == IF c = <<>> THEN <<R0, R0>> ELSE CPEvalFrom(c, z, 1)

(* values T_0(u) .. T_n(u) and derivatives T'_0(u) .. T'_n(u), index shifted by one *)
TSeq(n, u) ==
  LET F[k \in 0..n] == IF k = 0 THEN <<R1>> ELSE IF k = 1 THEN <<R1, u>>
                       ELSE LET s == F[k - 1] IN Append(s, RSub(RMul(RMul(R2, u), s[k]), s[k - 1]))
  IN F[n]
(* T'_{k} = 2 T_{k-1} + 2 u T'_{k-1} - T'_{k-2} *)
TDSeq(n, u) ==
  LET t == TSeq(n, u)
      F[k \in 0..n] == IF k = 0 THEN <<R0>> ELSE IF k = 1 THEN <<R0, R1>>
                       ELSE LET s == F[k - 1] IN Append(s, RSub(RAdd(RMul(R2, t[k]), RMul(RMul(R2, u), s[k])), s[k - 1]))
  IN F[n]
(* T_k as a polynomial: T_0 = 1, T_1 = x, T_k = 2 x T_{k-1} - T_{k-2} *)
TPolys(n) ==
  LET F[k \in 0..n] == IF k = 0 THEN << <<R1>> >> ELSE IF k = 1 THEN << <<R1>>, <<R0, R1>> >>
                       ELSE LET s == F[k - 1] IN Append(s, PAdd(PScale(R2, PShift(s[k])), PScale(RInt(-1), s[k - 1])))
  IN F[n]
TPolyTable == TPolys(40)
TPoly(n) == TPolyTable[n + 1]
=============================================================================
