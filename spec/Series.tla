------------------------------- MODULE Series -------------------------------
(* Power series and Chebyshev series of one to three variables over closed   *)
(* ([lo,hi]) or half-open ([lo,+inf)) axes.                                   *)
(* Coefficients form a tensor t[k][i][j], k along z, i along x, j along y;    *)
(* missing dimensions have one coefficient.                                   *)
EXTENDS Poly, FiniteSets
CONSTANTS Handles
VARIABLES pser,   \* handle -> [ax, b]                   power series objects
          cser,   \* handle -> [ax, n, c, done]          Chebyshev objects: axes, orders, the function's expansion, computed?
          cij     \* slot -> matrix of coefficients in x, y at some z
svars == <<pser, cser, cij>>

(* ---- axes ---- *)
UnitOf(a, x) == IF a.k = "c" THEN RDiv(RMul(R2, RSub(x, RMul(RHalf, RAdd(a.lo, a.hi)))), RSub(a.hi, a.lo))
                ELSE RSub(R1, RDiv(RMul(R2, a.lo), x))
JacOf(a, x) == IF a.k = "c" THEN RDiv(R2, RSub(a.hi, a.lo)) ELSE RDiv(RMul(R2, a.lo), RSq(x))
(* condition of the unit coordinate with respect to rounding *)
Kappa(a, x) == IF a.k = "c" THEN RDiv(RAdd(RAbs(x), RAdd(RAbs(a.lo), RAbs(a.hi))), RAbs(RSub(a.hi, a.lo)))
               ELSE RAdd(R1, RMul(R2, RAbs(RDiv(a.lo, x))))
U(ax, x, d) == IF d <= Len(ax) THEN RSig(UnitOf(ax[d], x[d]), 220) ELSE R0

(* ---- bases ---- *)
PowSeq(n, u) == [i \in 1..n |-> RPow(u, i - 1)]
PowDSeq(n, u) == [i \in 1..n |-> IF i = 1 THEN R0 ELSE RMul(RInt(i - 1), RPow(u, i - 2))]
ChebSeq(n, u) == TSeq(n - 1, u)
ChebDSeq(n, u) == TDSeq(n - 1, u)
Basis(kind, deriv, n, u) == IF kind = "pow" THEN (IF deriv THEN PowDSeq(n, u) ELSE PowSeq(n, u))
                            ELSE (IF deriv THEN ChebDSeq(n, u) ELSE ChebSeq(n, u))
Contract(t, bx, by, bz) ==
  RSum([k \in 1..Len(t) |-> RMul(bz[k], RSum([i \in 1..Len(t[k]) |-> RMul(bx[i], RDot(by, t[k][i]))]))])
(* value (d = 0) or derivative along axis d in unit coordinates u *)
EvalUnit(kind, t, u, d) ==
  Contract(t, Basis(kind, d = 1, Len(t[1]), u[1]), Basis(kind, d = 2, Len(t[1][1]), u[2]), Basis(kind, d = 3, Len(t), u[3]))
EvalAt(kind, t, ax, x, d) ==
  LET v == EvalUnit(kind, t, <<U(ax, x, 1), U(ax, x, 2), U(ax, x, 3)>>, d) IN IF d = 0 THEN v ELSE RMul(v, JacOf(ax[d], x[d]))

SumAbs(t) == RSum([k \in 1..Len(t) |-> RSum([i \in 1..Len(t[k]) |-> RSumAbs(t[k][i])])])
Dims(t) == <<Len(t[1]), Len(t[1][1]), Len(t)>>

(* ---- tolerances ---- *)
Clip1(v) == RMax(R1, RAbs(v))
AllowPow(t, ax, x, u, d) ==
  LET n == Dims(t)
      size == RMul(SumAbs(t), RMul(RPow(Clip1(u[1]), n[1]), RMul(RPow(Clip1(u[2]), n[2]), RPow(Clip1(u[3]), n[3]))))
      cond == RAdd(R1, RSum([a \in 1..Len(ax) |-> RMul(RInt(n[a]), Kappa(ax[a], x[a]))]))
      base == RMul(RMul(RInt(16 * (n[1] + n[2] + n[3] + 4)), EpsD), RMul(size, cond))
  IN RAdd(RPow(R2, -900), IF d = 0 THEN base ELSE RMul(base, RMul(RInt(n[d] * n[d]), RAbs(JacOf(ax[d], x[d])))))
(* Chebyshev: c is the expansion of the function, n the orders, u inside [-1,1] *)
AllowCheb(c, ax, x, d) ==
  LET m == Dims(c)
      cond == RAdd(R1, RSum([a \in 1..Len(ax) |-> RMul(RInt(m[a] * m[a]), Kappa(ax[a], x[a]))]))
      base == RMul(RMul(RInt(64 * (m[1] + 2) * (m[2] + 2) * (m[3] + 2)), EpsD), RMul(SumAbs(c), cond))
  IN RAdd(RPow(R2, -900), IF d = 0 THEN base ELSE RMul(base, RMul(RInt(m[d] * m[d] * 4), RAbs(JacOf(ax[d], x[d])))))

(* ---- what the Chebyshev series of order n of Sum c_m T_m is: on the n+1    *)
(* nodes T_m coincides with plus or minus one T_j, j <= n, or vanishes.      *)
FoldIdx(m, n) == LET N == n + 1  r == m % (2 * N) IN IF r = N THEN -1 ELSE IF r < N THEN r ELSE 2 * N - r
FoldSgn(m, n) == LET N == n + 1  r == m % (2 * N)  q == m \div (2 * N) IN (IF q % 2 = 0 THEN 1 ELSE -1) * (IF r < N THEN 1 ELSE -1)
FoldSeq(s, n) == Eager([j \in 1..n+1 |-> RSum([m \in 1..Len(s) |-> IF FoldIdx(m - 1, n) = j - 1 THEN RMul(RInt(FoldSgn(m - 1, n)), s[m]) ELSE R0])])
(* apply a map of coefficient sequences along one axis of a tensor *)
AlongY(t, F(_)) == Eager([k \in 1..Len(t) |-> [i \in 1..Len(t[k]) |-> F(t[k][i])]])
AlongX(t, F(_)) == Eager([k \in 1..Len(t) |->
  LET cols == Eager([j \in 1..Len(t[k][1]) |-> F([i \in 1..Len(t[k]) |-> t[k][i][j]])]) IN [i \in 1..Len(cols[1]) |-> [j \in 1..Len(cols) |-> cols[j][i]]]])
AlongZ(t, F(_)) ==
  LET s == Eager([i \in 1..Len(t[1]) |-> [j \in 1..Len(t[1][1]) |-> F([k \in 1..Len(t) |-> t[k][i][j]])]])
  IN Eager([k \in 1..Len(s[1][1]) |-> [i \in 1..Len(t[1]) |-> [j \in 1..Len(t[1][1]) |-> s[i][j][k]]]])
OrderOf(n, d) == IF d <= Len(n) THEN n[d] ELSE 0
Fold(c, n) == LET fx(s) == FoldSeq(s, OrderOf(n, 1)) fy(s) == FoldSeq(s, OrderOf(n, 2)) fz(s) == FoldSeq(s, OrderOf(n, 3))
              IN AlongZ(AlongY(AlongX(c, fx), fy), fz)
(* Chebyshev coefficients to power coefficients *)
ToPowSeq(s) ==
  LET F[r \in 1..Len(s)] == IF r = 1 THEN <<s[1]>> ELSE PAdd(F[r - 1], PScale(s[r], TPoly(r - 1)))
  IN F[Len(s)]
ToPow(a) == AlongZ(AlongY(AlongX(a, ToPowSeq), ToPowSeq), ToPowSeq)
ZeroSeq(n) == [i \in 1..n |-> R0]
ZeroTen(n) == [k \in 1..OrderOf(n, 3)+1 |-> [i \in 1..OrderOf(n, 1)+1 |-> ZeroSeq(OrderOf(n, 2)+1)]]
(* the coefficients a Chebyshev object holds *)
Held(o) == IF o.done THEN Fold(o.c, o.n) ELSE ZeroTen(o.n)

(* ---- actions ---- *)
NoP == [ax |-> <<>>, b |-> <<>>]
NoC == [ax |-> <<>>, n |-> <<>>, c |-> <<>>, done |-> FALSE]
SInit == pser = [h \in Handles |-> NoP] /\ cser = [h \in Handles |-> NoC] /\ cij = [h \in Handles |-> <<>>]

PNewOK(h, ax, b, out) == out = "ok" /\ pser' = [pser EXCEPT ![h] = [ax |-> ax, b |-> b]] /\ UNCHANGED <<cser, cij>>
UV(ax, x) == <<U(ax, x, 1), U(ax, x, 2), U(ax, x, 3)>>
PNear(h, x, d, r) == LET o == pser[h] IN RNear(RD(r), EvalAt("pow", o.b, o.ax, x, d), AllowPow(o.b, o.ax, x, UV(o.ax, x), d))
PEvalOK(h, x, d, out, r) == out = "ok" /\ UNCHANGED svars /\ PNear(h, x, d, r)
PUnitOK(h, u, out, r) ==
  LET o == pser[h]  v == u \o [i \in 1..3-Len(u) |-> R0]
      idax == [a \in 1..Len(u) |-> [k |-> "c", lo |-> RInt(-1), hi |-> R1]]
  IN out = "ok" /\ UNCHANGED svars /\ RNear(RD(r), EvalUnit("pow", o.b, v, 0), AllowPow(o.b, idax, u, v, 0))
PJointOK(h, x, out, r) == out = "ok" /\ UNCHANGED svars /\ Len(r) = 3 /\ \A d \in 0..2 : PNear(h, x, d, r[d + 1])
(* the limit z -> +inf is the unit coordinate 1 *)
PInfOK(h, x, d, out, r) ==
  LET o == pser[h]  u == <<U(o.ax, x, 1), U(o.ax, x, 2), R1>>
      v == EvalUnit("pow", o.b, u, d)
      ax2 == <<o.ax[1], o.ax[2]>>
      t == AllowPow(o.b, ax2, x, u, d)
  IN out = "ok" /\ UNCHANGED svars /\ RNear(RD(r), IF d = 0 THEN v ELSE RMul(v, JacOf(o.ax[d], x[d])), t)
CijExact(b, zu) == [i \in 1..Len(b[1]) |-> [j \in 1..Len(b[1][1]) |-> PEval([k \in 1..Len(b) |-> b[k][i][j]], zu)]]
PCijOK(h, s, zu, kz, out, r) ==
  LET o == pser[h]  c == CijExact(o.b, zu)
      tol(i, j) == RAdd(RPow(R2, -900), RMul(RMul(RInt(16 * (Len(o.b) + 2)), EpsD),
                     RMul(RAdd(R1, RMul(RInt(Len(o.b)), kz)), RMul(RSum([k \in 1..Len(o.b) |-> RAbs(o.b[k][i][j])]), RPow(Clip1(zu), Len(o.b))))))
  IN /\ out = "ok" /\ UNCHANGED <<pser, cser>>
     /\ Len(r) = Len(c)
     /\ \A i \in 1..Len(c) : Len(r[i]) = Len(c[i]) /\ \A j \in 1..Len(c[i]) : RNear(RD(r[i][j]), c[i][j], tol(i, j))
     /\ cij' = [cij EXCEPT ![s] = [i \in 1..Len(r) |-> [j \in 1..Len(r[i]) |-> RD(r[i][j])]]]
(* evaluation at a predefined z uses the stored coefficients *)
PzNear(h, s, x, d, r) ==
  LET o == pser[h]  ax == <<o.ax[1], o.ax[2]>>  t == <<cij[s]>>
  IN RNear(RD(r), EvalAt("pow", t, ax, x, d), AllowPow(t, ax, x, <<U(ax, x, 1), U(ax, x, 2), R0>>, d))
PzOK(h, s, x, d, out, r) == out = "ok" /\ UNCHANGED svars /\ cij[s] # <<>> /\ PzNear(h, s, x, d, r)
PzJointOK(h, s, x, out, r) == out = "ok" /\ UNCHANGED svars /\ cij[s] # <<>> /\ Len(r) = 3 /\ \A d \in 0..2 : PzNear(h, s, x, d, r[d + 1])
TypeName(ax) == IF ax[2].k = "o" THEN "PowerSeries3dYZOpenedXClosed" ELSE IF ax[3].k = "o" THEN "PowerSeries3dZOpenedXYClosed" ELSE "PowerSeries3dClosed"
PParamOK(h, b, lo, hi, n, type, out) ==
  LET o == pser[h] IN
  /\ out = "ok" /\ UNCHANGED svars /\ b = o.b /\ lo = [a \in 1..3 |-> o.ax[a].lo]
  /\ \A a \in 1..Len(hi) : o.ax[a].k = "c" /\ hi[a] = o.ax[a].hi
  /\ Len(hi) = Cardinality({a \in 1..3 : o.ax[a].k = "c"})
  /\ n = [a \in 1..3 |-> Dims(o.b)[a] - 1] /\ type = TypeName(o.ax)

CNewOK(h, ax, n, c, out) == out = "ok" /\ cser' = [cser EXCEPT ![h] = [ax |-> ax, n |-> n, c |-> c, done |-> FALSE]] /\ UNCHANGED <<pser, cij>>
(* computing the coefficients is idempotent *)
CCompOK(h, out) == out = "ok" /\ cser' = [cser EXCEPT ![h].done = TRUE] /\ UNCHANGED <<pser, cij>>
CEvalOK(h, x, d, out, r) ==
  LET o == cser[h] IN out = "ok" /\ UNCHANGED svars /\ RNear(RD(r), EvalAt("cheb", Held(o), o.ax, x, d), AllowCheb(o.c, o.ax, x, d))
MaxConv == 18
ConvRefused(o) == \E d \in 1..Len(o.n) : o.n[d] > MaxConv
BNear(o, r) ==
  LET b == ToPow(Held(o))
      kap == RAdd(R1, RSum([a \in 1..Len(o.ax) |-> RMul(RInt(Dims(o.c)[a] * Dims(o.c)[a]),
               IF o.ax[a].k = "c" THEN RDiv(RMul(R2, RAdd(RAbs(o.ax[a].lo), RAbs(o.ax[a].hi))), RAbs(RSub(o.ax[a].hi, o.ax[a].lo))) ELSE RInt(3))]))
      n == Dims(b)
      grow == RMul(RPow(RDec("2.5"), n[1]), RMul(RPow(RDec("2.5"), n[2]), RPow(RDec("2.5"), n[3])))
      tol == RAdd(RPow(R2, -900), RMul(RMul(RInt(64 * (n[1] + 2) * (n[2] + 2) * (n[3] + 2)), EpsD), RMul(grow, RMul(SumAbs(o.c), kap))))
  IN /\ Len(r) = Len(b)
     /\ \A k \in 1..Len(b) : Len(r[k]) = Len(b[k]) /\ \A i \in 1..Len(b[k]) : Len(r[k][i]) = Len(b[k][i])
          /\ \A j \in 1..Len(b[k][i]) : RNear(RD(r[k][i][j]), b[k][i][j], tol)
CBOK(h, out, r) == UNCHANGED svars /\ IF ConvRefused(cser[h]) THEN out \in {"exit0", "exit1", "throw", "abort"} ELSE out = "ok" /\ BNear(cser[h], r)
Ten(r) == [k \in 1..Len(r) |-> [i \in 1..Len(r[k]) |-> [j \in 1..Len(r[k][i]) |-> RD(r[k][i][j])]]]
PFromOK(h, g, out, r) ==
  IF ConvRefused(cser[g]) THEN out \in {"exit0", "exit1", "throw", "abort"} /\ UNCHANGED svars
  ELSE out = "ok" /\ BNear(cser[g], r) /\ pser' = [pser EXCEPT ![h] = [ax |-> cser[g].ax, b |-> Ten(r)]] /\ UNCHANGED <<cser, cij>>
=============================================================================
