-------------------------------- MODULE Quad --------------------------------
(* Quadrature: the composite trapezoidal rule on samples or on a function,   *)
(* the integrator object that caches its result, and the exactness of the    *)
(* triangle rules.                                                            *)
EXTENDS Poly, FiniteSets
CONSTANTS Handles
VARIABLES integ    \* handle -> [prec, src, data, a, b, n, m]

TrapzU(ys, dx) == RMul(dx, RSub(RSum(ys), RMul(RHalf, RAdd(ys[1], ys[Len(ys)]))))
TrapzX(xs, ys) == RSum([i \in 1..Len(xs)-1 |-> RMul(RHalf, RMul(RSub(xs[i+1], xs[i]), RAdd(ys[i], ys[i+1])))])

NoInt == [prec |-> "d", src |-> "none", data |-> <<>>, a |-> R0, b |-> R0, n |-> 0, m |-> "TRAPEZOIDAL"]
QInit == integ = [h \in Handles |-> NoInt]
Step_(o) == RDiv(RSub(o.b, o.a), RInt(o.n - 1))
Samples(o) == IF o.src = "vec" THEN o.data ELSE [i \in 1..o.n |-> PEval(o.data, RAdd(o.a, RMul(RInt(i - 1), Step_(o))))]
Integral(o) == TrapzU(Samples(o), Step_(o))

Unit(prec) == IF prec = "f" THEN EpsF ELSE EpsD
Tiny(prec) == RPow(R2, IF prec = "f" THEN -120 ELSE -1000)
AllowInt(o) ==
  LET X == RMax(RAbs(o.a), RAbs(o.b))
      size == IF o.src = "vec" THEN RMaxSeq(o.data) ELSE RAdd(PAbs(o.data, X), RMul(X, PDAbs(o.data, X)))
      w == RAdd(RAbs(RSub(o.b, o.a)), RMul(Unit(o.prec), X))
      \* the function form walks to the nodes by repeated addition of the step
  IN RAdd(Tiny(o.prec), RMul(RMul(RMul(RInt(8 * (o.n + 8)), Unit(o.prec)), w), size))
AllowTrapz(prec, xs, ys, dx) ==
  RAdd(Tiny(prec), RMul(RMul(RInt(4 * (Len(ys) + 8)), Unit(prec)), RMul(dx, RSumAbs(ys))))

New(h, o) == integ' = [integ EXCEPT ![h] = o]
NewVecOK(h, prec, a, b, ys, out) == out = "ok" /\ New(h, [prec |-> prec, src |-> "vec", data |-> ys, a |-> a, b |-> b, n |-> Len(ys), m |-> "TRAPEZOIDAL"])
NewFunOK(h, prec, a, b, n, c, out) == out = "ok" /\ New(h, [prec |-> prec, src |-> "fun", data |-> c, a |-> a, b |-> b, n |-> n, m |-> "TRAPEZOIDAL"])
CopyOK(h, g, out) == out = "ok" /\ New(h, integ[g])
SetMinOK(h, v, out) == out = "ok" /\ integ' = [integ EXCEPT ![h].a = v]
SetMaxOK(h, v, out) == out = "ok" /\ integ' = [integ EXCEPT ![h].b = v]
SetMethodOK(h, m, out) == out = "ok" /\ integ' = [integ EXCEPT ![h].m = m]
(* what Get answers depends on the present limits, method and integrand only *)
GetOK(h, out, r) ==
  /\ integ[h].src # "none" /\ UNCHANGED integ
  /\ IF integ[h].m = "NEWTON_COTES" THEN out = "throw"
     ELSE out = "ok" /\ RNear(RD(r), Integral(integ[h]), AllowInt(integ[h]))
ParamOK(h, a, b, m, out) == out = "ok" /\ UNCHANGED integ /\ RD(a) = integ[h].a /\ RD(b) = integ[h].b /\ m = integ[h].m

TrapzUOK(prec, ys, dx, out, r) ==
  out = "ok" /\ RNear(RD(r), TrapzU(ys, dx), AllowTrapz(prec, <<>>, ys, RAbs(dx))) /\ UNCHANGED integ
TrapzXOK(prec, xs, ys, out, r) ==
  /\ out = "ok" /\ UNCHANGED integ
  /\ LET w == RAdd(RMaxSeq([i \in 1..Len(xs)-1 |-> RSub(xs[i+1], xs[i])]), RMul(Unit(prec), RMaxSeq(xs)))
     IN RNear(RD(r), TrapzX(xs, ys), AllowTrapz(prec, xs, ys, w))

(* ---- triangles: integral over the triangle of Sum c (a.x + b)^m --------- *)
Cross(u, v) == <<RSub(RMul(u[2], v[3]), RMul(u[3], v[2])), RSub(RMul(u[3], v[1]), RMul(u[1], v[3])), RSub(RMul(u[1], v[2]), RMul(u[2], v[1]))>>
VSub(u, v) == [i \in 1..3 |-> RSub(u[i], v[i])]
Area2(v) == RSqrt(LET c == Cross(VSub(v[2], v[1]), VSub(v[3], v[1])) IN RDot(c, c), 200)   \* twice the area
(* complete homogeneous symmetric polynomial of degree m in three values *)
H2(m, p, q) == RSum([i \in 1..m+1 |-> RMul(RPow(p, i - 1), RPow(q, m - i + 1))])
H3(m, l) == RSum([i \in 1..m+1 |-> RMul(RPow(l[3], i - 1), H2(m - i + 1, l[1], l[2]))])
LVals(t, v) == [k \in 1..3 |-> RAdd(RDot(t.a, v[k]), t.b)]
(* exact: integral of l^m = 2 A h_m(l1, l2, l3) / ((m+1)(m+2)) *)
TermInt(t, v, A2) == RDiv(RMul(A2, H3(t.m, LVals(t, v))), RInt((t.m + 1) * (t.m + 2)))
TriExact(ts, v, comp) == LET A2 == Area2(v) IN RSum([i \in 1..Len(ts) |-> RMul(ts[i].c[comp], TermInt(ts[i], v, A2))])
TermSize(t, v) == RPow(RMaxSeq([k \in 1..3 |-> RAdd(RSum([j \in 1..3 |-> RAbs(RMul(t.a[j], v[k][j]))]), RAbs(t.b))]), t.m)
TriAllow(ts, v, comp) ==
  LET e == RAdd(RSumAbs(VSub(v[2], v[1])), RSumAbs(VSub(v[3], v[1])))
      big == RMaxSeq(v[1] \o v[2] \o v[3])
      A2 == RAdd(Area2(v), RMul(RMul(RInt(64), EpsD), RMul(e, RAdd(e, big))))
      s == RSum([i \in 1..Len(ts) |-> RMul(RAbs(ts[i].c[comp]), RMul(RInt(ts[i].m + 4), TermSize(ts[i], v)))])
      degen == RMul(RMul(RInt(64), EpsD), RMul(e, RAdd(e, big)))
  IN RAdd(RMul(RMul(RDec("4e-13"), A2), s), RMul(degen, s))
MaxOrder == 8
TriOK(order, v, ts, out, r) ==
  /\ UNCHANGED integ
  /\ IF order < 1 \/ order > MaxOrder THEN out \in {"exit0", "exit1", "abort", "throw"}
     ELSE /\ out = "ok"
          /\ (\A i \in 1..Len(ts) : ts[i].m <= order) =>
               /\ Len(r) = Len(ts[1].c)
               /\ \A c \in 1..Len(r) : RNear(RD(r[c]), TriExact(ts, v, c), TriAllow(ts, v, c))

(* ---- a store of tables: the k-th one given is the one of order k; answers are asked from the last to the first *)
TablesOK(al, be, we, out, s, ra, rb, rw) ==
  LET n == Len(al)  Back(t) == [i \in 1..n |-> t[n + 1 - i]] IN
  /\ UNCHANGED integ /\ out = "ok"
  /\ s = [i \in 1..n+1 |-> i - 1] /\ ra = Back(al) /\ rb = Back(be) /\ rw = Back(we)

(* ---- Horner ---------------------------------------------------------------- *)
HornerOK(c, x, deriv, out, r) ==
  LET p == IF deriv THEN PDiff(c) ELSE c
      ax == IF Len(x) = 1 THEN RAbs(x[1]) ELSE RAdd(RAbs(x[1]), RAbs(x[2]))
      tol == RAdd(Tiny("d"), RMul(RMul(RInt(16 * (Len(c) + 1)), EpsD), PAbs(p, ax)))
  IN /\ UNCHANGED integ /\ out = "ok" /\ Len(r) = Len(x)
     /\ IF Len(x) = 1 THEN RNear(RD(r[1]), PEval(p, x[1]), tol)
        ELSE LET v == CPEval(p, x) IN RNear(RD(r[1]), v[1], tol) /\ RNear(RD(r[2]), v[2], tol)

QD(t) == [i \in 1..Len(t) |-> RD(t[i])]
QD2(t) == [i \in 1..Len(t) |-> QD(t[i])]
=============================================================================
