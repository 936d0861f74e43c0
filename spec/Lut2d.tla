------------------------------- MODULE Lut2d -------------------------------
(* Bilinear interpolators and the table of named two-dimensional series.      *)
EXTENDS Grid, FiniteSets
CONSTANTS Handles
VARIABLES obj, tab
NoObj == [live |-> FALSE, prec |-> "d", xs |-> <<>>, ys |-> <<>>, data |-> <<>>]
NoTab == [live |-> FALSE, prec |-> "d", m |-> "LINEAR", xs |-> <<>>, ys |-> <<>>, ser |-> <<>>]
L2Init == obj = [h \in Handles |-> NoObj] /\ tab = [h \in Handles |-> NoTab]

Complete(xs, ys, data) == Len(xs) >= 2 /\ Len(ys) >= 2 /\ Increasing(xs) /\ Increasing(ys) /\ Len(data) = Len(xs) * Len(ys)
TooShort(xs, ys, data) == Len(xs) >= 2 /\ Len(ys) >= 2 /\ Increasing(xs) /\ Increasing(ys) /\ Len(data) < Len(xs) * Len(ys)
Disordered(xs) == \E i \in 1..Len(xs)-1 : RLt(xs[i+1], xs[i])
Misfit(xs, ys, data) == TooShort(xs, ys, data) \/ Disordered(xs) \/ Disordered(ys)

Bil(o, x, y) == MultiLinear(<<o.xs, o.ys>>, o.data, <<x, y>>)
Spread(g, x) == (* 1 + sum of the coordinate magnitudes over the width of the cell of x *)
  LET n == Len(g)
      k == IF RLe(g[n], x) THEN n - 1 ELSE LastLE(g, x, 1, n)
  IN RAdd(R1, RDiv(RAdd(RAbs(x), RAdd(RAbs(g[k]), RAbs(g[k+1]))), RSub(g[k+1], g[k])))
(* like CellMag, but a coordinate on the last node belongs to the last cell *)
CellMag2(o, x, y) ==
  LET cell(g, t) == LET n == Len(g) IN IF RLe(g[n], t) THEN n - 1 ELSE LastLE(g, t, 1, n)
      i == cell(o.xs, x) j == cell(o.ys, y) ny == Len(o.ys)
      D(a, b) == RAbs(o.data[(a-1) * ny + b])
      ii == IF i > 1 THEN i - 1 ELSE i
      jj == IF j > 1 THEN j - 1 ELSE j
  IN RSum([k \in 1..((i+1-ii+1) * (j+1-jj+1)) |-> D(ii + ((k-1) \div (j+1-jj+1)), jj + ((k-1) % (j+1-jj+1)))])
(* a node lies on two cells; the library may use either, so use the wider allowance of the two *)
Spread2(g, x) ==
  LET n == Len(g)
      k == IF RLe(g[n], x) THEN n - 1 ELSE LastLE(g, x, 1, n)
  IN IF k > 1 /\ g[k] = x
     THEN RMax(Spread(g, x), RAdd(R1, RDiv(RAdd(RAbs(x), RAdd(RAbs(g[k-1]), RAbs(g[k]))), RSub(g[k], g[k-1]))))
     ELSE Spread(g, x)
Tol2(o, x, y) ==
  RAdd(RMul(RMul(RInt(64), IF o.prec = "f" THEN EpsF ELSE EpsD),
            RMul(CellMag2(o, x, y), RMul(Spread2(o.xs, x), Spread2(o.ys, y)))),
       RPow(R2, IF o.prec = "f" THEN -100 ELSE -1000))
Refused == {"abort", "throw", "exit1"}
Eval2OK(o, xt, yt, r, out) ==
  LET x == RD(xt) y == RD(yt) IN
  IF Inside(<<o.xs, o.ys>>, <<x, y>>)
  THEN out = "ok" /\ RFin(r) /\ RNear(RD(r), Bil(o, x, y), Tol2(o, x, y))
  ELSE out \in Refused                     \* never a value outside the samples
EvalV2OK(o, ps, rs, out) ==
  IF \E k \in 1..Len(ps) : ~Inside(<<o.xs, o.ys>>, <<RD(ps[k][1]), RD(ps[k][2])>>) THEN out \in Refused
  ELSE out = "ok" /\ Len(rs) = Len(ps) /\ \A k \in 1..Len(ps) : Eval2OK(o, ps[k][1], ps[k][2], rs[k], "ok")

(* ---- single interpolators ---- *)
Make2OK(h, m, prec, out) ==
  /\ UNCHANGED tab
  /\ IF m = "LINEAR" THEN out = "ok" /\ obj' = [obj EXCEPT ![h] = [NoObj EXCEPT !.live = TRUE, !.prec = prec]]
     ELSE out \in Refused /\ UNCHANGED obj
Init2OK(h, xs, ys, data, out) ==
  /\ obj[h].live /\ UNCHANGED tab
  /\ IF Misfit(xs, ys, data) THEN out \in Refused /\ obj' = [obj EXCEPT ![h].xs = <<>>, ![h].ys = <<>>, ![h].data = <<>>]
     ELSE /\ Complete(xs, ys, data) /\ out = "ok"
          /\ obj' = [obj EXCEPT ![h].xs = xs, ![h].ys = ys, ![h].data = data]
Keep2 == UNCHANGED <<obj, tab>>
EvalObj2OK(h, x, y, r, out) == obj[h].xs # <<>> /\ Keep2 /\ Eval2OK(obj[h], x, y, r, out)
EvalVObj2OK(h, ps, rs, out) == obj[h].xs # <<>> /\ Keep2 /\ EvalV2OK(obj[h], ps, rs, out)
RangeObj2OK(h, r, out) == obj[h].xs # <<>> /\ Keep2 /\ out = "ok"
  /\ DSeqG(r) = <<obj[h].xs[1], obj[h].xs[Len(obj[h].xs)], obj[h].ys[1], obj[h].ys[Len(obj[h].ys)]>>

(* ---- tables ---- *)
Names(h) == DOMAIN tab[h].ser
TNewOK(h, prec, out) == out = "ok" /\ UNCHANGED obj /\ tab' = [tab EXCEPT ![h] = [NoTab EXCEPT !.live = TRUE, !.prec = prec]]
TMethodOK(h, m, out) == tab[h].live /\ out = "ok" /\ UNCHANGED obj /\ tab' = [tab EXCEPT ![h].m = m]
TSetXOK(h, v, out) == tab[h].live /\ out = "ok" /\ UNCHANGED obj /\ tab' = [tab EXCEPT ![h].xs = v]
TSetYOK(h, v, out) == tab[h].live /\ out = "ok" /\ UNCHANGED obj /\ tab' = [tab EXCEPT ![h].ys = v]
TGetXOK(h, r, out) == tab[h].live /\ out = "ok" /\ Keep2 /\ r = tab[h].xs
TGetYOK(h, r, out) == tab[h].live /\ out = "ok" /\ Keep2 /\ r = tab[h].ys
TCountOK(h, r, out) == tab[h].live /\ out = "ok" /\ Keep2 /\ r = Cardinality(Names(h))
TSamplesOK(h, r, out) == tab[h].live /\ out = "ok" /\ Keep2 /\ r = Len(tab[h].xs) * Len(tab[h].ys)
THasOK(h, nm, r, out) == tab[h].live /\ out = "ok" /\ Keep2 /\ r = (nm \in Names(h))
TAddOK(h, nm, data, r, out) ==
  /\ tab[h].live /\ tab[h].xs # <<>> /\ tab[h].ys # <<>> /\ UNCHANGED obj
  /\ IF nm \in Names(h) THEN out = "ok" /\ r = FALSE /\ UNCHANGED tab
     ELSE IF tab[h].m # "LINEAR" THEN out \in Refused /\ UNCHANGED tab        \* a failed insertion leaves no trace
     ELSE IF Misfit(tab[h].xs, tab[h].ys, data) THEN out \in Refused /\ UNCHANGED tab
     ELSE /\ Complete(tab[h].xs, tab[h].ys, data)
          /\ out = "ok" /\ r = TRUE
          /\ tab' = [tab EXCEPT ![h].ser = (nm :> [prec |-> tab[h].prec, xs |-> tab[h].xs, ys |-> tab[h].ys, data |-> data]) @@ @]
TEvalOK(h, nm, x, y, r, out) ==
  /\ tab[h].live /\ Keep2
  /\ IF nm \notin Names(h) THEN out = "throw" ELSE Eval2OK(tab[h].ser[nm], x, y, r, out)
TEvalVOK(h, nm, ps, rs, out) ==
  /\ tab[h].live /\ Keep2
  /\ IF nm \notin Names(h) THEN out = "throw" ELSE EvalV2OK(tab[h].ser[nm], ps, rs, out)
=============================================================================
