-------------------------------- MODULE Grid --------------------------------
(* Functions sampled on a regular grid of any dimension.                     *)
(*   coords : sequence (one per dimension) of increasing coordinate sequences *)
(*   data   : samples in row-major order (the last dimension runs fastest)    *)
EXTENDS Rat
RECURSIVE LastLE(_, _, _, _)
(* greatest index k in lo..hi with g[k] <= x, given g[lo] <= x *)
LastLE(g, x, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2 IN IF RLe(g[m], x) THEN LastLE(g, x, m, hi) ELSE LastLE(g, x, lo, m-1)

(* position of x along one dimension: nodes lo, hi (1-based) and weight of hi; *)
(* outside the grid the nearest end node alone counts                          *)
Place(g, x) ==
  LET n == Len(g) IN
  IF RLe(x, g[1]) THEN [lo |-> 1, hi |-> 1, w |-> R0]
  ELSE IF RLe(g[n], x) THEN [lo |-> n, hi |-> n, w |-> R0]
  ELSE LET k == LastLE(g, x, 1, n) IN [lo |-> k, hi |-> k+1, w |-> RDiv(RSub(x, g[k]), RSub(g[k+1], g[k]))]

Places(coords, p) == [i \in 1..Len(coords) |-> Place(coords[i], p[i])]
RECURSIVE ML(_, _, _, _, _)
ML(coords, data, pl, k, base) ==
  IF k > Len(coords) THEN data[base + 1]
  ELSE LET n == Len(coords[k])
           a == ML(coords, data, pl, k+1, base * n + (pl[k].lo - 1))
       IN IF pl[k].lo = pl[k].hi THEN a
          ELSE LET b == ML(coords, data, pl, k+1, base * n + (pl[k].hi - 1))
               IN RAdd(a, RMul(pl[k].w, RSub(b, a)))
MultiLinear(coords, data, p) == ML(coords, data, Places(coords, p), 1, 0)

RECURSIVE SA(_, _, _, _, _)
SA(coords, data, pl, k, base) ==
  IF k > Len(coords) THEN RAbs(data[base + 1])
  ELSE LET n == Len(coords[k])
           a == SA(coords, data, pl, k+1, base * n + (pl[k].lo - 1))
       IN IF pl[k].lo = pl[k].hi THEN a ELSE RAdd(a, SA(coords, data, pl, k+1, base * n + (pl[k].hi - 1)))
(* sum of the magnitudes of the samples at the corners of the cell of p *)
CellMag(coords, data, p) == SA(coords, data, Places(coords, p), 1, 0)

Inside(coords, p) == \A i \in 1..Len(coords) : RLe(coords[i][1], p[i]) /\ RLe(p[i], coords[i][Len(coords[i])])
Increasing(g) == \A i \in 1..Len(g)-1 : RLt(g[i], g[i+1])
RECURSIVE Prod(_, _)
Prod(shape, k) == IF k > Len(shape) THEN 1 ELSE shape[k] * Prod(shape, k+1)
Shape(coords) == [i \in 1..Len(coords) |-> Len(coords[i])]
RECURSIVE Off(_, _, _, _)
Off(shape, ix, k, base) == IF k > Len(shape) THEN base ELSE Off(shape, ix, k+1, base * shape[k] + ix[k])
(* sample with 0-based indices ix *)
AtIndex(shape, data, ix) == data[Off(shape, ix, 1, 0) + 1]
DSeqG(t) == [i \in 1..Len(t) |-> RD(t[i])]
=============================================================================
