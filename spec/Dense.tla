------------------------------- MODULE Dense -------------------------------
(* Matrices (sequences of rows) over exact rationals and exact elimination.   *)
EXTENDS RatFun
Rows(A) == Len(A)
Cols(A) == Len(A[1])
Tr(A) == Eager([j \in 1..Cols(A) |-> [i \in 1..Rows(A) |-> A[i][j]]])
MMul(A, B) == LET T == Tr(B) IN Eager([i \in 1..Rows(A) |-> [j \in 1..Len(T) |-> RDot(A[i], T[j])]])
MSub(A, B) == Eager([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> RSub(A[i][j], B[i][j])]])
MAdd(A, B) == Eager([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> RAdd(A[i][j], B[i][j])]])
MScale(c, A) == Eager([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> RMul(c, A[i][j])]])
MId(n) == Eager([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN R1 ELSE R0]])
MDiag(v) == Eager([i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE R0]])
Flat(A) == Eager([k \in 1..(Rows(A) * Cols(A)) |-> A[1 + ((k - 1) \div Cols(A))][1 + ((k - 1) % Cols(A))]])
MaxAbs(A) == RMaxSeq(Flat(A))
NInf(A) == RMaxSeq([i \in 1..Rows(A) |-> RSumAbs(A[i])])
Fro2(A) == LET f == Flat(A) IN RDot(f, f)
Same(A, B) == Rows(A) = Rows(B) /\ Cols(A) = Cols(B) /\ \A i \in 1..Rows(A) : A[i] = B[i]
Shape(A, m, n) == Len(A) = m /\ \A i \in 1..m : Len(A[i]) = n
Square(A) == Rows(A) = Cols(A)
Small(A, tol) == RLe(MaxAbs(A), tol)
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Upper(A) == \A i \in 1..Rows(A), j \in 1..Cols(A) : j < i => A[i][j] = R0
Lower(A) == \A i \in 1..Rows(A), j \in 1..Cols(A) : i < j => A[i][j] = R0
Symmetric(A) == Square(A) /\ \A i \in 1..Rows(A), j \in 1..Rows(A) : A[i][j] = A[j][i]

(* ---- exact elimination ---------------------------------------------------- *)
PivotRow(A, c) == LET F[i \in 1..Len(A)] == IF i = 1 THEN 1 ELSE LET b == F[i-1] IN IF RLt(RAbs(A[b][c]), RAbs(A[i][c])) THEN i ELSE b IN F[Len(A)]
Without(A, k) == [i \in 1..(Len(A) - 1) |-> IF i < k THEN A[i] ELSE A[i + 1]]
Reduce(A, p, c) == Eager([i \in 1..Len(A) |-> LET f == RDiv(A[i][c], p[c]) IN IF f = R0 THEN A[i] ELSE [j \in 1..Len(p) |-> RSub(A[i][j], RMul(f, p[j]))]])
RECURSIVE Echelon(_, _, _, _)
Echelon(A, c, n, piv) ==
  IF Len(A) = 0 \/ c > n THEN piv
  ELSE LET k == PivotRow(A, c) IN
       IF A[k][c] = R0 THEN Echelon(A, c + 1, n, piv)
       ELSE Echelon(Reduce(Without(A, k), A[k], c), c + 1, n, Append(piv, RAbs(A[k][c])))
Pivots(A) == Echelon(A, 1, Cols(A), <<>>)
Rank(A) == Len(Pivots(A))
(* no pivot is negligible (those that are exactly zero apart) *)
WellScaled(A) == LET p == Pivots(A)  m == RMul(RDec("1e-7"), MaxAbs(A)) IN \A i \in 1..Len(p) : RLe(m, p[i])
Regular(A) == Square(A) /\ LET p == Pivots(A) IN Len(p) = Rows(A) /\ \A i \in 1..Len(p) : RLe(RMul(RDec("1e-7"), MaxAbs(A)), p[i])
Strong(A) == LET p == Pivots(A) IN Len(p) = Min2(Rows(A), Cols(A)) /\ \A i \in 1..Len(p) : RLe(RMul(RDec("1e-2"), MaxAbs(A)), p[i])
Hcat(A, B) == Eager([i \in 1..Rows(A) |-> A[i] \o B[i]])
Consistent(A, B) == Rank(Hcat(A, B)) = Rank(A)
(* exact solution of a regular system, one right-hand side, by Gauss-Jordan *)
RECURSIVE Jordan(_, _, _)
Jordan(A, done, c) ==     \* A: rows still to use, done: rows with their pivots in columns 1..c-1
  IF Len(A) = 0 THEN done
  ELSE LET k == PivotRow(A, c)  p == [j \in 1..Len(A[k]) |-> RDiv(A[k][j], A[k][c])]
           q == Eager(p) IN Jordan(Reduce(Without(A, k), q, c), Append(Reduce(done, q, c), q), c + 1)
Solve(A, b) == LET n == Rows(A)  d == Jordan(Hcat(A, b), <<>>, 1) IN Eager([i \in 1..n |-> <<d[i][n + 1]>>])
(* Schur complements of a symmetric matrix, up to the first that is not positive *)
RECURSIVE Schur(_, _)
Schur(A, piv) ==
  IF Len(A) = 0 THEN piv
  ELSE LET d == A[1][1] IN
       IF RLe(d, R0) THEN Append(piv, d)
       ELSE Schur(Eager([i \in 1..(Len(A) - 1) |-> [j \in 1..(Len(A) - 1) |-> RSub(A[i + 1][j + 1], RDiv(RMul(A[i + 1][1], A[1][j + 1]), d))]]), Append(piv, d))
PD(A) == LET p == Schur(A, <<>>) IN Len(p) = Rows(A) /\ RLt(R0, p[Len(p)])
Shift(A, s) == MAdd(A, MScale(s, MId(Rows(A))))
(* characteristic polynomial, highest power first (Faddeev-LeVerrier) *)
RECURSIVE Leverrier(_, _, _, _)
Leverrier(B, M, k, c) ==
  LET n == Rows(B)  BM == MMul(B, M)  ck == RDiv(RNeg(RSum([i \in 1..n |-> BM[i][i]])), RInt(k)) IN
  IF k = n THEN Append(c, ck) ELSE Leverrier(B, MAdd(BM, MScale(ck, MId(n))), k + 1, Append(c, ck))
CharPoly(B) == Leverrier(B, MId(Rows(B)), 1, <<R1>>)
(* Routh's criterion: every root of the polynomial has a negative real part *)
RECURSIVE Routh(_, _)
Routh(p, q) ==            \* two consecutive rows of the table, of the same length; trailing zeros allowed
  IF RLe(p[1], R0) THEN FALSE
  ELSE IF Len(p) = 1 \/ \A i \in 1..Len(q) : q[i] = R0 THEN \A i \in 2..Len(p) : p[i] = R0
  ELSE IF RLe(q[1], R0) THEN FALSE
  ELSE LET m == Len(p)  f == RDiv(p[1], q[1]) IN
       Routh(q, Eager([i \in 1..m |-> IF i = m THEN R0 ELSE RSub(p[i + 1], RMul(f, q[i + 1]))]))
Stable(c) == LET n == Len(c)  m == (n + 1) \div 2 IN
  IF n = 2 THEN RLt(R0, c[2])
  ELSE RLt(R0, c[n]) /\ Routh(Eager([i \in 1..m |-> c[2 * i - 1]]), Eager([i \in 1..m |-> IF 2 * i <= n THEN c[2 * i] ELSE R0]))
(* every eigenvalue of A has a real part greater than -s *)
RightOf(A, s) == Stable(CharPoly(MScale(RInt(-1), Shift(A, s))))
=============================================================================
