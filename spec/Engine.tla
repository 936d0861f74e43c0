------------------------------- MODULE Engine -------------------------------
(* The N-dimensional interpolation engines under the regular grids           *)
(* (thirdparty/linterp.h): multilinear ("M") and simplicial ("S"), over their *)
(* own copy of the samples or over the caller's array, with one sample per   *)
(* node or, for functions with jumps across the grid lines, one per side of  *)
(* each node and axis.                                                       *)
EXTENDS Grid, FiniteSets
CONSTANTS Handles, Bufs
VARIABLES prec, buf, en
NoEng == [kind |-> "none", d |-> 0, cont |-> TRUE, copy |-> TRUE, coords |-> <<>>, data |-> <<>>, src |-> 0]
EInit == prec = "d" /\ buf = [k \in Bufs |-> <<>>] /\ en = [h \in Handles |-> NoEng]
LiveE(h) == en[h].kind # "none"
EpsE == IF prec = "f" THEN EpsF ELSE EpsD
TinyE == RPow(R2, IF prec = "f" THEN -120 ELSE -1000)
(* the samples an engine works on: those of its copy, or the caller's as they are now *)
Dat(h) == IF en[h].copy THEN en[h].data ELSE buf[en[h].src]
RefTo(k) == {h \in Handles : LiveE(h) /\ ~en[h].copy /\ en[h].src = k}
FShape(coords, cont) == [i \in 1..Len(coords) |-> IF cont THEN Len(coords[i]) ELSE 2 * Len(coords[i])]

(* where x lies on an axis: the entries of the sample array on both sides (0-based), and the weight of the upper *)
Spot(c, x, cont) ==
  LET n == Len(c) IN
  IF RLt(x, c[1]) THEN [lo |-> 0, hi |-> 0, w |-> R0, c |-> -1]
  ELSE IF RLe(c[n], x) THEN LET t == IF cont THEN n - 1 ELSE 2 * n - 1 IN [lo |-> t, hi |-> t, w |-> R0, c |-> n - 1]
  ELSE LET k == LastLE(c, x, 1, n) - 1 IN
       [lo |-> IF cont THEN k ELSE 2 * k + 1, hi |-> IF cont THEN k + 1 ELSE 2 * k + 2, w |-> RDiv(RSub(x, c[k+1]), RSub(c[k+2], c[k+1])), c |-> k]
Spots(coords, p, cont) == [i \in 1..Len(coords) |-> Spot(coords[i], p[i], cont)]
(* tensor product of linear interpolations *)
RECURSIVE MLin(_, _, _, _, _)
MLin(sh, data, sp, k, base) ==
  IF k > Len(sh) THEN data[base + 1]
  ELSE LET a == MLin(sh, data, sp, k+1, base * sh[k] + sp[k].lo) IN
       IF sp[k].lo = sp[k].hi THEN a
       ELSE LET b == MLin(sh, data, sp, k+1, base * sh[k] + sp[k].hi) IN RAdd(a, RMul(sp[k].w, RSub(b, a)))
(* from the lower corner of the cell to the upper one, along the axes in decreasing order of the weights: *)
(* linear on each of the d! simplices of that kind                                                        *)
RECURSIVE Walk(_, _, _, _, _, _)
Walk(sh, data, sp, rem, ix, acc) ==
  IF rem = {} THEN acc
  ELSE LET j == CHOOSE i \in rem : \A k \in rem : RLe(sp[k].w, sp[i].w)
           jx == [ix EXCEPT ![j] = sp[j].hi]
       IN Walk(sh, data, sp, rem \ {j}, jx, RAdd(acc, RMul(sp[j].w, RSub(AtIndex(sh, data, jx), AtIndex(sh, data, ix)))))
Simplicial(sh, data, sp) == LET lo == [i \in 1..Len(sh) |-> sp[i].lo] IN Walk(sh, data, sp, 1..Len(sh), lo, AtIndex(sh, data, lo))
ValueOf(kind, coords, data, cont, p) ==
  LET sh == FShape(coords, cont)  sp == Spots(coords, p, cont) IN IF kind = "M" THEN MLin(sh, data, sp, 1, 0) ELSE Simplicial(sh, data, sp)
RECURSIVE SumA(_, _, _, _, _)
SumA(sh, data, sp, k, base) ==
  IF k > Len(sh) THEN RAbs(data[base + 1])
  ELSE LET a == SumA(sh, data, sp, k+1, base * sh[k] + sp[k].lo) IN
       IF sp[k].lo = sp[k].hi THEN a ELSE RAdd(a, SumA(sh, data, sp, k+1, base * sh[k] + sp[k].hi))
TolE(coords, data, cont, p) == RAdd(TinyE, RMul(RMul(RInt(64), EpsE), SumA(FShape(coords, cont), data, Spots(coords, p, cont), 1, 0)))
ValueOK(kind, coords, data, cont, p, r) == RFin(r) /\ RNear(RD(r), ValueOf(kind, coords, data, cont, p), TolE(coords, data, cont, p))
AllOK(kind, coords, data, cont, pts, r) == (* a batch: pts has one sequence per axis *)
  LET n == Len(pts[1]) IN Len(r) = n /\ \A i \in 1..n : ValueOK(kind, coords, data, cont, [k \in 1..Len(coords) |-> pts[k][i]], r[i])

KeepE == UNCHANGED <<prec, buf, en>>
TypesOK(t) == prec' = t /\ buf' = [k \in Bufs |-> <<>>] /\ en' = [h \in Handles |-> NoEng]
(* the caller's arrays; one that an engine refers to is written in place only *)
BufOK(k, v, out) == RefTo(k) = {} /\ out = "ok" /\ buf' = [buf EXCEPT ![k] = v] /\ UNCHANGED <<prec, en>>
PokeOK(k, i, v, out) == i < Len(buf[k]) /\ out = "ok" /\ buf' = [buf EXCEPT ![k][i + 1] = v] /\ UNCHANGED <<prec, en>>
Fits(coords, cont, n) == n = Prod(FShape(coords, cont), 1)
Engine(kind, cont, copy, coords, k) ==
  [kind |-> kind, d |-> Len(coords), cont |-> cont, copy |-> copy, coords |-> coords, data |-> IF copy THEN buf[k] ELSE <<>>, src |-> k]
MakeOK(h, kind, cont, copy, coords, k, out) ==
  /\ UNCHANGED <<prec, buf>>
  /\ IF Fits(coords, cont, Len(buf[k])) THEN out = "ok" /\ en' = [en EXCEPT ![h] = Engine(kind, cont, copy, coords, k)]
     ELSE out = "throw" /\ UNCHANGED en
(* a second initialization replaces the first *)
AgainOK(h, coords, k, out) ==
  /\ LiveE(h) /\ Len(coords) = en[h].d /\ Fits(coords, en[h].cont, Len(buf[k])) /\ out = "ok"
  /\ UNCHANGED <<prec, buf>> /\ en' = [en EXCEPT ![h] = Engine(@.kind, @.cont, @.copy, coords, k)]
DropOK(h, out) == LiveE(h) /\ out = "ok" /\ en' = [en EXCEPT ![h] = NoEng] /\ UNCHANGED <<prec, buf>>
AskOK(h, p, out, r) == LiveE(h) /\ KeepE /\ out = "ok" /\ ValueOK(en[h].kind, en[h].coords, Dat(h), en[h].cont, p, r)
BatchOK(h, pts, out, r) == LiveE(h) /\ KeepE /\ out = "ok" /\ AllOK(en[h].kind, en[h].coords, Dat(h), en[h].cont, pts, r)
(* the cell of a coordinate: -1 before the first node, the number of cells from the last node on *)
FindOK(h, i, x, out, r) == LiveE(h) /\ KeepE /\ out = "ok" /\ r = Spot(en[h].coords[i + 1], x, TRUE).c
(* the sample at a vertex of a cell; beyond the ends, the end itself whatever the vertex *)
SideIx(n, cont, c, v) ==
  IF c < 0 THEN 0 ELSE IF c >= n - 1 THEN (IF cont THEN n - 1 ELSE 2 * n - 1) ELSE (IF cont THEN c + v ELSE 1 + 2 * c + v)
VertexOK(h, cell, v, out, r) ==
  /\ LiveE(h) /\ KeepE /\ out = "ok" /\ RFin(r)
  /\ RD(r) = AtIndex(FShape(en[h].coords, en[h].cont), Dat(h), [i \in 1..en[h].d |-> SideIx(Len(en[h].coords[i]), en[h].cont, cell[i], v[i])])
(* simplicial interpolation of the caller's arrays in one call *)
OneCallOK(coords, k, pts, out, r) == Fits(coords, TRUE, Len(buf[k])) /\ KeepE /\ out = "ok" /\ AllOK("S", coords, buf[k], TRUE, pts, r)
(* multilinear interpolation in the unit cube, from its 2^n vertices *)
CubeOK(f, xi, out, r) ==
  LET n == Len(xi)  sp == [i \in 1..n |-> [lo |-> 0, hi |-> 1, w |-> xi[i]]]  sh == [i \in 1..n |-> 2] IN
  /\ KeepE /\ out = "ok" /\ RFin(r)
  /\ RNear(RD(r), MLin(sh, f, sp, 1, 0), RAdd(TinyE, RMul(RMul(RInt(64), EpsE), SumA(sh, f, sp, 1, 0))))
=============================================================================
