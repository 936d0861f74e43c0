------------------------------- MODULE Linear -------------------------------
(* Dense linear algebra by its defining equations, over exact rationals.     *)
(* Registers hold matrices (sequences of rows); in-place operations replace  *)
(* the register, the others leave it alone.  A result is right when it       *)
(* satisfies the equation that defines it up to a backward-error bound.      *)
EXTENDS Dense
CONSTANT Regs
VARIABLE mat      \* mat[h]: matrix of rationals, <<>> when nothing is known about the register

(* ---- bounds ---------------------------------------------------------------- *)
UnitL(prec) == IF prec = "f" THEN EpsF ELSE EpsD
DimN(A) == Max2(Rows(A), Cols(A))
Bw(prec, A) == RMul(RMul(RInt(16 * DimN(A) * DimN(A)), UnitL(prec)), NInf(A))      \* backward error of a factorisation
Orth(prec, n) == RMul(RInt(16 * n * n), UnitL(prec))
TinyL(prec) == RPow(R2, IF prec = "f" THEN -110 ELSE -900)
Defprec(prec) == IF prec = "f" THEN RDec("1e-5") ELSE RDec("1e-12")

LInit == mat = [h \in Regs |-> <<>>]
Known(h) == Len(mat[h]) > 0
PutM(h, A) == mat' = [mat EXCEPT ![h] = A]
MSetOK(h, A) == PutM(h, A)

(* ---- decompositions (C18); src is the register after the call ---------------- *)
Kept(h, src) == Same(src, mat[h]) /\ UNCHANGED mat
QROK(prec, h, full, out, src, Q, R) ==
  LET A == mat[h]  m == Rows(A)  n == Cols(A)  k == IF full THEN m ELSE n IN
  IF m < n THEN UNCHANGED mat /\ out = "abort"
  ELSE /\ out = "ok" /\ Kept(h, src)
       /\ Shape(Q, m, k) /\ Shape(R, n, n) /\ Upper(R)
       /\ Small(MSub(MMul(Tr(Q), Q), MId(k)), Orth(prec, m))
       /\ Small(MSub(MMul(Eager([i \in 1..m |-> SubSeq(Q[i], 1, n)]), R), A), RAdd(TinyL(prec), Bw(prec, A)))
Permutation(P) == /\ \A i \in 1..Rows(P) : (\A j \in 1..Rows(P) : P[i][j] \in {R0, R1}) /\ RSum(P[i]) = R1
                  /\ \A j \in 1..Rows(P) : RSum([i \in 1..Rows(P) |-> P[i][j]]) = R1
AbsM(A) == Eager([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> RAbs(A[i][j])]])
LUOK(prec, h, out, src, P, L, U) ==
  LET A == mat[h]  n == Rows(A) IN
  IF ~Square(A) THEN UNCHANGED mat /\ out = "abort"
  ELSE /\ out = "ok" /\ Kept(h, src)
       /\ Shape(P, n, n) /\ Shape(L, n, n) /\ Shape(U, n, n)
       /\ Permutation(P) /\ Lower(L) /\ Upper(U)
       /\ \A i \in 1..n : L[i][i] = R1 /\ \A j \in 1..(i - 1) : RLe(RAbs(L[i][j]), RAdd(R1, RMul(RInt(4), UnitL(prec))))
       /\ Small(MSub(MMul(P, A), MMul(L, U)), RAdd(TinyL(prec), RAdd(Bw(prec, A), RMul(RInt(8), Bw(prec, MMul(AbsM(L), AbsM(U)))))))
(* refused unless square, symmetric and positive definite; either answer within rounding of the boundary *)
Asym(A) == Fro2(MSub(A, Tr(A)))
CholOK(prec, h, out, src, L) ==
  LET A == mat[h]  n == Rows(A)  d == RMul(RInt(4), Bw(prec, A))
      refuse == ~Square(A) \/ RLt(RMul(RSq(RMul(RInt(2), Defprec(prec))), Fro2(A)), Asym(A)) \/ ~PD(Shift(A, d)) IN
  /\ Kept(h, src)
  /\ refuse => out = "throw"
  /\ (~refuse /\ Symmetric(A) /\ PD(Shift(A, RNeg(d)))) => out = "ok"
  /\ out = "ok" => /\ Shape(L, n, n) /\ Lower(L) /\ \A i \in 1..n : RLe(R0, L[i][i])
                   /\ Small(MSub(MMul(L, Tr(L)), A), RAdd(TinyL(prec), RAdd(d, RSqrt(RMul(RInt(4), Asym(A)), 60))))
  /\ out \in {"ok", "throw"}
(* factor of A + s v v^T, A symmetric positive definite and staying so; in place the register becomes the factor *)
CholUpOK(prec, h, inplace, v, s, out, src, L) ==
  LET A == mat[h]  n == Rows(A)  B == MAdd(A, MScale(s, MMul(v, Tr(v))))
      scale == RAdd(NInf(A), RMul(RAbs(s), NInf(MMul(v, Tr(v)))))
      d == RMul(RMul(RInt(64 * n * n), UnitL(prec)), scale)
      ok == Symmetric(A) /\ PD(Shift(A, RNeg(RMul(RDec("1e-3"), MaxAbs(A))))) /\ PD(Shift(B, RNeg(RMul(RDec("1e-3"), scale)))) IN
  /\ out = "ok"
  /\ IF inplace THEN PutM(h, IF ok THEN L ELSE <<>>) ELSE Kept(h, src)
  /\ ok => /\ Shape(L, n, n) /\ Lower(L) /\ Small(MSub(MMul(L, Tr(L)), B), RAdd(TinyL(prec), RMul(RInt(64), d)))
SVDOK(prec, h, out, src, U, S_, V) ==
  LET A == mat[h]  m == Rows(A)  n == Cols(A)  k == Min2(m, n) IN
  /\ out = "ok" /\ Kept(h, src)
  /\ Shape(U, m, k) /\ Shape(V, n, k) /\ Shape(S_, k, 1)
  /\ \A i \in 1..k : RLe(R0, S_[i][1]) /\ (i > 1 => RLe(S_[i][1], S_[i-1][1]))
  /\ Small(MSub(MMul(Tr(U), U), MId(k)), RMul(R2, Orth(prec, m))) /\ Small(MSub(MMul(Tr(V), V), MId(k)), RMul(R2, Orth(prec, n)))
  /\ Small(MSub(MMul(MMul(U, MDiag([i \in 1..k |-> S_[i][1]])), Tr(V)), A), RAdd(TinyL(prec), RMul(RInt(4), Bw(prec, A))))

(* ---- inverses and solvers (C19) ------------------------------------------------ *)
InvTol(prec, A, X) == LET c == RMul(NInf(A), NInf(X)) IN RMul(RMul(RInt(16 * Rows(A)), UnitL(prec)), RMul(c, RMax(c, R1)))
InverseOK(prec, h, inplace, g, out, src, X) ==
  LET A == mat[h] IN
  /\ out = "ok"
  /\ IF inplace THEN PutM(h, IF Regular(A) THEN X ELSE <<>>) ELSE Same(src, A) /\ PutM(g, IF Regular(A) THEN X ELSE <<>>)
  /\ Regular(A) => /\ Shape(X, Rows(A), Rows(A))
                   /\ Small(MSub(MMul(A, X), MId(Rows(A))), InvTol(prec, A, X)) /\ Small(MSub(MMul(X, A), MId(Rows(A))), InvTol(prec, A, X))
(* Moore-Penrose inverse of A with the singular values not exceeding t dropped *)
PinvOK(prec, h, g, t, out, src, X) ==
  LET A == mat[h]  AX == MMul(A, X)  XA == MMul(X, A)  k == Min2(Rows(A), Cols(A))
      c == RAdd(R1, RMul(NInf(A), RAdd(NInf(X), NInf(Tr(X)))))
      e == RMul(RMul(RInt(32 * DimN(A) * DimN(A)), UnitL(prec)), RMul(c, c)) IN
  /\ out = "ok" /\ Same(src, A) /\ Shape(X, Cols(A), Rows(A)) /\ PutM(g, X)
  /\ Small(MSub(AX, Tr(AX)), e) /\ Small(MSub(XA, Tr(XA)), e)
  /\ Small(MSub(MMul(XA, X), X), RMul(e, RAdd(R1, NInf(X))))
  /\ LET D == MSub(MMul(AX, A), A)  lim == RAdd(RMul(t, RDec("1.001")), RMul(e, NInf(A)))
     IN RLe(Fro2(D), RMul(RInt(k), RSq(lim)))
  /\ RLt(R0, t) => RLe(RMul(Fro2(X), RSq(t)), RMul(RInt(k), RSq(RAdd(R1, RDec("1e-3")))))
SolTol(prec, A, X, B) == RAdd(TinyL(prec), RMul(RMul(RInt(64 * DimN(A) * DimN(A)), UnitL(prec)), RAdd(RMul(NInf(A), MaxAbs(X)), MaxAbs(B))))
SolveOK(prec, h, B, out, src, X) ==
  LET A == mat[h] IN
  /\ out = "ok" /\ Kept(h, src) /\ Shape(X, Cols(A), Cols(B))
  /\ (WellScaled(A) /\ Consistent(A, B)) => Small(MSub(MMul(A, X), B), SolTol(prec, A, X, B))
(* the residual is orthogonal to the columns of A *)
Full(A) == WellScaled(A) /\ Rank(A) = Min2(Rows(A), Cols(A))
LeastOK(prec, h, B, out, src, X) ==
  LET A == mat[h] IN
  /\ out = "ok" /\ Kept(h, src) /\ Shape(X, Cols(A), Cols(B))
  /\ WellScaled(A) => Small(MMul(Tr(A), MSub(MMul(A, X), B)), RMul(RAdd(R1, NInf(Tr(A))), SolTol(prec, A, X, B)))
  \* of all minimisers, the shortest: in the row space (fewer rows than columns)
  /\ (Full(A) /\ Rows(A) < Cols(A)) =>
       LET G == MMul(A, Tr(A)) IN
       Regular(G) => LET W(j) == Solve(G, Eager([i \in 1..Rows(A) |-> <<B[i][j]>>])) IN
         \A j \in 1..Cols(B) : LET x == MMul(Tr(A), W(j)) IN \A i \in 1..Cols(A) : RNear(X[i][j], x[i][1], RMul(RDec("1e-4"), RAdd(MaxAbs(x), TinyL(prec))))
(* minimise |A x - b| subject to C x = d: the gradient is a combination of the rows of C *)
LeastConOK(prec, h, b, C, d, out, src, x) ==
  LET A == mat[h]  m == Rows(A)  n == Cols(A)  p == Rows(C) IN
  IF ~(n > p /\ m > n) THEN UNCHANGED mat /\ out = "abort"
  ELSE /\ out = "ok" /\ Kept(h, src) /\ Shape(x, n, 1)
       /\ LET CC == MMul(C, Tr(C)) IN
          (Strong(CC) /\ Strong(A)) =>
            LET r == MSub(MMul(A, x), b)  gr == MMul(Tr(A), r)  lam == Solve(CC, MMul(C, gr))
                sz == RAdd(RMul(NInf(A), MaxAbs(x)), RAdd(MaxAbs(b), MaxAbs(d)))
                tol == RMul(RMul(RInt(64 * m * m), UnitL(prec)), RMul(RInt(1000), sz)) IN
            /\ Small(MSub(MMul(C, x), d), RMul(RAdd(R1, NInf(C)), tol))
            /\ Small(MSub(gr, MMul(Tr(C), lam)), RMul(RAdd(R1, RMul(NInf(Tr(A)), RInt(4))), tol))
(* eigenvalues: the sums of their powers are the traces of the powers *)
CMul(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
CPow(a, k) == LET F[i \in 0..k] == IF i = 0 THEN <<R1, R0>> ELSE LET s == F[i-1] IN Eager(CMul(s, a)) IN F[k]
MPows(A, k) == LET F[i \in 1..k] == IF i = 1 THEN <<A>> ELSE LET s == F[i-1] IN Append(s, MMul(s[i-1], A)) IN F[k]
Trace_(A) == RSum([i \in 1..Rows(A) |-> A[i][i]])
EigenOK(prec, h, out, src, ev) ==
  LET A == mat[h]  n == Rows(A)  P == MPows(A, n)
      nf == RSqrt(RAdd(Fro2(A), TinyL(prec)), 60) IN
  /\ out = "ok" /\ Kept(h, src) /\ Len(ev) = n
  /\ \A k \in 1..n :
       LET t == RAdd(TinyL(prec), RMul(RMul(RInt(64 * k * n * n), UnitL(prec)), RPow(RMul(nf, RDec("1.001")), k)))
           q == Eager([i \in 1..n |-> CPow(ev[i], k)]) IN
       /\ RNear(RSum([i \in 1..n |-> q[i][1]]), Trace_(P[k]), t)
       /\ RNear(RSum([i \in 1..n |-> q[i][2]]), R0, t)

(* ---- manipulation and predicates (C27) -------------------------------------------- *)
ExactOK(h, inplace, g, out, src, X, Y) == out = "ok" /\ Same(X, Y) /\ IF inplace THEN PutM(h, X) ELSE Same(src, mat[h]) /\ PutM(g, X)
TransposeOK(h, inplace, g, out, src, X) == ExactOK(h, inplace, g, out, src, X, Tr(mat[h]))
SymFrom(A, up) == Eager([i \in 1..Rows(A) |-> [j \in 1..Rows(A) |-> IF (i <= j) = up THEN A[i][j] ELSE A[j][i]]])
SymOK(h, up, g, out, src, X) == ExactOK(h, FALSE, g, out, src, X, SymFrom(mat[h], up))
IdentOK(h, out, X) == out = "ok" /\ Same(X, Eager([i \in 1..Rows(mat[h]) |-> [j \in 1..Cols(mat[h]) |-> IF i = j THEN R1 ELSE R0]])) /\ PutM(h, X)
NullOK(h, out, X) == out = "ok" /\ Same(X, Eager([i \in 1..Rows(mat[h]) |-> [j \in 1..Cols(mat[h]) |-> R0]])) /\ PutM(h, X)
RandOK(h, out, X) == (* any entries from -1 to 1 *)
  /\ out = "ok" /\ Len(X) = Rows(mat[h]) /\ \A i \in 1..Len(X) : Len(X[i]) = Cols(mat[h]) /\ \A j \in 1..Len(X[i]) : RLe(RAbs(X[i][j]), R1)
  /\ PutM(h, X)
PartOK(h, what, i, out, X) ==
  LET A == mat[h] IN
  /\ out = "ok" /\ UNCHANGED mat
  /\ Same(X, CASE what = "col" -> Eager([k \in 1..Rows(A) |-> <<A[k][i]>>]) [] what = "row" -> <<A[i]>>
               [] what = "diag" -> Eager([k \in 1..Min2(Rows(A), Cols(A)) |-> <<A[k][k]>>]) [] what = "all" -> A
               [] what = "dims" -> <<<<RInt(Rows(A)), RInt(Cols(A))>>>>)
PutAtOK(h, i, j, v, out, X) == out = "ok" /\ Same(X, [mat[h] EXCEPT ![i][j] = v]) /\ PutM(h, X)
(* a matrix made of an algebraic expression of register h, stored in register g *)
ExprM(form, c, A) == CASE form = "scale" -> MScale(c, A) [] form = "sum" -> MAdd(A, MScale(c, Tr(A))) [] form = "tr" -> Tr(A) [] form = "prod" -> MScale(c, MMul(A, A))
MExprOK(prec, h, g, form, c, out, src, X) ==
  \E B \in {ExprM(form, c, mat[h])} : \E C \in {ExprM(form, RAbs(c), AbsM(mat[h]))} :
  /\ out = "ok" /\ (g # h => Same(src, mat[h])) /\ Shape(X, Rows(B), Cols(B))
  /\ \A i \in 1..Rows(B) : \A j \in 1..Cols(B) : RNear(X[i][j], B[i][j], IF form = "tr" THEN R0 ELSE RAdd(TinyL(prec), RMul(RMul(IF form = "prod" THEN RInt(Rows(B) + 2) ELSE R2, UnitL(prec)), C[i][j])))
  /\ PutM(g, X)
(* relative closeness in the Frobenius norm; free within a hair of the threshold *)
Approx(d2, m2, eps, r) == LET lim == RMul(RSq(eps), m2) IN (RLt(d2, RMul(lim, RDec("0.998"))) \/ d2 = R0 => r) /\ (RLt(RMul(lim, RDec("1.002")), d2) => ~r)
EqOK(h, g, eps, out, r) == out = "ok" /\ UNCHANGED mat /\ Approx(Fro2(MSub(mat[h], mat[g])), RMin(Fro2(mat[h]), Fro2(mat[g])), eps, r)
IsSymOK(prec, h, r) == LET A == mat[h] IN IF ~Square(A) THEN ~r ELSE Approx(Asym(A), Fro2(A), Defprec(prec), r)
IsIdOK(h, eps, r) ==
  LET A == mat[h]  d == MaxAbs(MSub(A, Eager([i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> IF i = j THEN R1 ELSE R0]]))) IN
  (Square(A) /\ RLe(d, RMul(RDec("0.85"), eps)) => r) /\ (RLt(RMul(RDec("1.01"), eps), d) => ~r)
IsOrthoOK(prec, h, r) == LET A == mat[h] IN IF ~Square(A) THEN ~r
  ELSE LET d == MaxAbs(MSub(MMul(Tr(A), A), MId(Rows(A)))) IN (RLe(d, RMul(RDec("0.4"), Defprec(prec))) => r) /\ (RLt(RMul(RDec("2.5"), Defprec(prec)), d) => ~r)
IsPsdOK(prec, h, eps, r) == LET A == mat[h] IN IF ~Square(A) THEN ~r
  ELSE IF Symmetric(A) THEN LET m == RMul(RInt(64), Bw(prec, A)) IN (PD(Shift(A, RSub(eps, m))) => r) /\ (~PD(Shift(A, RAdd(eps, m))) => ~r)
  (* otherwise it speaks of the real parts of the eigenvalues, which are less well conditioned *)
  ELSE LET m == RMul(RDec(IF prec = "f" THEN "0.1" ELSE "0.02"), NInf(A)) IN (RightOf(A, RSub(eps, m)) => r) /\ (~RightOf(A, RAdd(eps, m)) => ~r)
PredOK(prec, h, name, eps, out, r) ==
  /\ out = "ok" /\ UNCHANGED mat
  /\ CASE name = "symmetric" -> IsSymOK(prec, h, r) [] name = "square" -> r = Square(mat[h]) [] name = "identity" -> IsIdOK(h, eps, r)
       [] name = "orthogonal" -> IsOrthoOK(prec, h, r) [] name = "psd" -> IsPsdOK(prec, h, eps, r)
=============================================================================
