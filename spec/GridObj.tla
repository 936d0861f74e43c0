------------------------------ MODULE GridObj ------------------------------
(* The life of RegularGridInterpolator and RegularGridNearest objects.       *)
(* kind: "id"/"if" interpolators over double/float, "nd"/"ni"/"nf"/"nk" nearest- *)
(* node finders.                                                             *)
EXTENDS Grid, FiniteSets
CONSTANTS Handles
VARIABLES g    \* handle -> [kind, d, coords, data, valid]
NoG == [kind |-> "none", d |-> 0, coords |-> <<>>, data |-> <<>>, valid |-> FALSE]
GInit == g = [h \in Handles |-> NoG]
IsInterp(k) == k \in {"id", "if"}
Eps(k) == IF k = "if" THEN EpsF ELSE EpsD
KeepG == UNCHANGED g
Live(h) == g[h].kind # "none"
NewOK(h, k, d, out) == out = "ok" /\ g' = [g EXCEPT ![h] = [NoG EXCEPT !.kind = k, !.d = d]]
DelOK(h, out) == Live(h) /\ out = "ok" /\ g' = [g EXCEPT ![h] = NoG]
(* copies are independent: afterwards both objects evolve on their own *)
CopyOK(h, f, out) == Live(f) /\ out = "ok" /\ g' = [g EXCEPT ![h] = g[f]]
CoordOK(h, v, out) ==
  /\ Live(h)
  /\ IF Len(g[h].coords) = g[h].d THEN out = "exit1" /\ KeepG             \* too many dimensions
     ELSE IF IsInterp(g[h].kind) /\ ~Increasing(v) THEN out = "throw" /\ KeepG   \* refused, nothing added
     ELSE out = "ok" /\ g' = [g EXCEPT ![h].coords = Append(@, v)]
VarOK(h, shape, data, out) ==
  /\ Live(h) /\ Len(data) = Prod(shape, 1)
  /\ IF Len(g[h].coords) < g[h].d THEN out = "exit1" /\ KeepG             \* grid incomplete
     ELSE IF shape # Shape(g[h].coords) THEN IsInterp(g[h].kind) /\ out = "throw" /\ KeepG   \* refused, previous variable stays
     ELSE out = "ok" /\ g' = [g EXCEPT ![h].data = data, ![h].valid = TRUE]
GetCoordOK(h, i, r, out) ==
  /\ Live(h) /\ KeepG
  /\ IF i >= g[h].d THEN out = "exit1" ELSE i < Len(g[h].coords) /\ out = "ok" /\ r = g[h].coords[i+1]
LimitsOK(h, i, lo, hi, out) ==
  /\ Live(h) /\ KeepG
  /\ IF i >= g[h].d THEN out = "exit1"
     ELSE i < Len(g[h].coords) /\ out = "ok" /\ lo = g[h].coords[i+1][1] /\ hi = g[h].coords[i+1][Len(g[h].coords[i+1])]
EndOK(h, i, last, r, out) == (* one end of an axis *)
  /\ Live(h) /\ KeepG
  /\ IF i >= g[h].d THEN out = "exit1"
     ELSE i < Len(g[h].coords) /\ out = "ok" /\ r = g[h].coords[i+1][IF last THEN Len(g[h].coords[i+1]) ELSE 1]
DimOK(h, r, out) == Live(h) /\ KeepG /\ out = "ok" /\ r = g[h].d
ValidOK(h, r, out) == (* a nearest-node finder may call itself valid earlier *)
  Live(h) /\ KeepG /\ out = "ok" /\ (IF IsInterp(g[h].kind) THEN r = g[h].valid ELSE g[h].valid => r)

Tol(h, p) == RAdd(RMul(RMul(RInt(64), Eps(g[h].kind)), CellMag(g[h].coords, g[h].data, p)), RPow(R2, IF g[h].kind = "if" THEN -120 ELSE -1000))
InterpOK(h, p, check, r, out) ==
  /\ g[h].valid /\ IsInterp(g[h].kind) /\ KeepG
  /\ IF check /\ ~Inside(g[h].coords, p) THEN out = "throw"
     ELSE out = "ok" /\ RFin(r) /\ RNear(RD(r), MultiLinear(g[h].coords, g[h].data, p), Tol(h, p))
AtOK(h, ix, r, out) ==
  /\ g[h].valid /\ IsInterp(g[h].kind) /\ KeepG /\ out = "ok" /\ RFin(r) /\ RD(r) = AtIndex(Shape(g[h].coords), g[h].data, ix)

(* ---- nearest node ---- *)
Dist(a, b) == RAbs(RSub(a, b))
(* "simple" numbers (multiples of 2^-10 below 2^20), for which the midpoint test is exact in any arrangement *)
Simple(x) == RRound(x, 10) = x /\ RLt(RAbs(x), RPow(R2, 10))
CEps(kind) == IF kind = "nf" THEN EpsF ELSE EpsD
(* node k (1-based) is a nearest node of x on axis c; an exact tie goes to the upper node *)
Closer(kind, x, a, b, strict) ==
  IF Simple(x) /\ Simple(a) /\ Simple(b)
  THEN IF strict THEN RLt(Dist(x, a), Dist(x, b)) ELSE RLe(Dist(x, a), Dist(x, b))
  ELSE RLe(Dist(x, a), RAdd(Dist(x, b), RMul(RMul(RInt(8), CEps(kind)), RSum(<<RAbs(x), RAbs(a), RAbs(b)>>))))
AxisNearest(kind, c, x, k) ==
  IF RLt(x, c[1]) THEN k = 1
  ELSE IF RLe(c[Len(c)], x) THEN k = Len(c)
  ELSE /\ k \in 1..Len(c)
       /\ k > 1 => Closer(kind, x, c[k], c[k-1], FALSE)
       /\ k < Len(c) => Closer(kind, x, c[k], c[k+1], TRUE)
NodeOK(h, nd) == (* a reported node is a node of the grid: indices, coordinates and sample belong together *)
  /\ Len(nd.ix) = g[h].d /\ Len(nd.co) = g[h].d
  /\ \A i \in 1..g[h].d : nd.ix[i] \in 0..Len(g[h].coords[i])-1 /\ RD(nd.co[i]) = g[h].coords[i][nd.ix[i]+1]
  /\ RD(nd.val) = AtIndex(Shape(g[h].coords), g[h].data, nd.ix)
NearestOK(h, p, nd, out) ==
  /\ g[h].valid /\ ~IsInterp(g[h].kind) /\ KeepG /\ out = "ok"
  /\ NodeOK(h, nd)
  /\ \A i \in 1..g[h].d : AxisNearest(g[h].kind, g[h].coords[i], p[i], nd.ix[i] + 1)
RECURSIVE NearSets(_, _, _)
NearSets(h, p, k) == IF k > g[h].d THEN {<<>>}
  ELSE {<<i - 1>> \o t : i \in {j \in 1..Len(g[h].coords[k]) : AxisNearest(g[h].kind, g[h].coords[k], p[k], j)}, t \in NearSets(h, p, k+1)}
DataOK(h, p, r, out) ==
  /\ g[h].valid /\ ~IsInterp(g[h].kind) /\ KeepG /\ out = "ok"
  /\ \E ix \in NearSets(h, p, 1) : RD(r) = AtIndex(Shape(g[h].coords), g[h].data, ix)

(* ---- the nodes around a point: the 2^d corners of its cell, first dimension slowest; *)
(*      beyond the grid (and on its upper end) the end node, on both sides              *)
Bit(v, d, k) == (v \div (2 ^ (d - k))) % 2
AroundIx(h, p, v) == [k \in 1..g[h].d |->
   LET pl == Place(g[h].coords[k], p[k])
       c == g[h].coords[k]
       lo == IF p[k] = c[1] /\ Len(c) > 1 THEN 1 ELSE pl.lo
       hi == IF p[k] = c[1] /\ Len(c) > 1 THEN 2 ELSE pl.hi
   IN (IF Bit(v, g[h].d, k) = 1 THEN hi ELSE lo) - 1]
AroundOK(h, p, r, out) ==
  /\ g[h].valid /\ ~IsInterp(g[h].kind) /\ KeepG /\ out = "ok"
  /\ Len(r) = 2 ^ g[h].d
  /\ \A v \in 0..(2 ^ g[h].d) - 1 : NodeOK(h, r[v+1]) /\ r[v+1].ix = AroundIx(h, p, v)
=============================================================================
