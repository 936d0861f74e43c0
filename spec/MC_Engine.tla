----------------------------- MODULE MC_Engine -----------------------------
(* Every short history of the caller's array and two engines over it, one    *)
(* with its own copy of the samples and one reading the caller's, and every  *)
(* point of a lattice around the grid.                                       *)
EXTENDS Engine, IOUtils, Json, CSV
CONSTANTS Kinds, Conts, MaxLen, ExportAt
VARIABLES hist, last
I(s) == [i \in 1..Len(s) |-> RInt(s[i])]
GridSets == {<<I(<<0, 2, 3>>)>>, <<I(<<0, 2>>), I(<<-1, 0, 2>>)>>, <<I(<<0, 1>>), I(<<5>>)>>, <<I(<<0, 2>>), I(<<0, 2>>), I(<<-1, 1>>)>>}
Sized(n) == {[i \in 1..n |-> RInt((i * i * 3) % 7)], [i \in 1..n |-> RInt(2 - i)]}
Sizes == {Prod(FShape(c, t), 1) : c \in GridSets, t \in Conts}
Axis == {RInt(-2), R0, RHalf, RInt(1), RInt(2), RInt(4)}
Log(o) == hist' = Append(hist, o)
None == [k |-> "none"]
Init == EInit /\ hist = <<[op |-> "types", t |-> "d"]>> /\ last = None
Fill(k, v) == buf[k] = <<>> /\ BufOK(k, v, "ok") /\ Log([op |-> "buf", k |-> k, v |-> v]) /\ last' = None
Poke(k, i) == i < Len(buf[k]) /\ buf[k][i + 1] # RInt(9) /\ PokeOK(k, i, RInt(9), "ok") /\ Log([op |-> "poke", k |-> k, i |-> i, x |-> RInt(9)]) /\ last' = None
Make(h, kind, cont, copy, c, k) ==
  /\ ~LiveE(h) /\ buf[k] # <<>> /\ MakeOK(h, kind, cont, copy, c, k, IF Fits(c, cont, Len(buf[k])) THEN "ok" ELSE "throw")
  /\ Log([op |-> "mk", h |-> h, kind |-> kind, cont |-> cont, copy |-> copy, k |-> k, grids |-> c]) /\ last' = None
Again(h, c, k) == LiveE(h) /\ c # en[h].coords /\ AgainOK(h, c, k, "ok") /\ Log([op |-> "again", h |-> h, k |-> k, grids |-> c]) /\ last' = None
Drop(h) == LiveE(h) /\ DropOK(h, "ok") /\ Log([op |-> "drop", h |-> h]) /\ last' = None
Ask(h, p) == /\ LiveE(h) /\ KeepE /\ Log([op |-> "ask", h |-> h, p |-> p])
             /\ last' = [k |-> "val", o |-> en[h], data |-> Dat(h), p |-> p, v |-> ValueOf(en[h].kind, en[h].coords, Dat(h), en[h].cont, p)]
Points(d) == [1..d -> Axis]
Next == /\ Len(hist) < MaxLen
        /\ \/ \E k \in Bufs : \/ \E n \in Sizes : \E v \in Sized(n) : Fill(k, v)
                              \/ \E i \in {0, 3} : Poke(k, i)
           \/ \E h \in Handles :
             \/ \E kind \in Kinds, cont \in Conts, copy \in BOOLEAN, c \in GridSets, k \in Bufs : Make(h, kind, cont, copy, c, k)
             \/ \E c \in GridSets, k \in Bufs : Again(h, c, k)
             \/ Drop(h)
             \/ Len(hist) >= MaxLen - 1 /\ LiveE(h) /\ \E p \in Points(en[h].d) : Ask(h, p)
View == <<buf, en, last, Len(hist)>>
Export == IF Len(hist') = ExportAt /\ last'.k = "val" THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EXPORT) ELSE TRUE

O == last.o
Val(kind, p) == ValueOf(kind, O.coords, last.data, O.cont, p)
Asked == last.k = "val"
FitInv == \A h \in Handles : LiveE(h) => Fits(en[h].coords, en[h].cont, Len(Dat(h)))
Within == Asked => (\E i \in 1..Len(last.data) : RLe(last.data[i], last.v)) /\ (\E i \in 1..Len(last.data) : RLe(last.v, last.data[i]))
(* with one sample per node, points beyond the grid have the value of the nearest point of it *)
Clamped == Asked /\ O.cont =>
  last.v = Val(O.kind, [i \in 1..O.d |-> RMax(O.coords[i][1], RMin(O.coords[i][Len(O.coords[i])], last.p[i]))])
(* along one axis the two methods are the same; so they are wherever all the other coordinates are at nodes *)
Node(i) == last.p[i] \in {O.coords[i][k] : k \in 1..Len(O.coords[i])} \/ RLt(last.p[i], O.coords[i][1]) \/ RLt(O.coords[i][Len(O.coords[i])], last.p[i])
SameOnEdges == Asked /\ Cardinality({i \in 1..O.d : ~Node(i)}) <= 1 => Val("M", last.p) = Val("S", last.p)
(* both reproduce affine functions inside the grid *)
Aff(x) == RSum([i \in 1..Len(x) |-> RMul(RInt(2 * i - 3), x[i])])
RECURSIVE IxOf(_, _, _)
IxOf(sh, n, k) == IF k = 0 THEN <<>> ELSE Append(IxOf(sh, n \div sh[k], k - 1), n % sh[k])
AffData == LET sh == Shape(O.coords) IN [n \in 1..Prod(sh, 1) |-> LET ix == IxOf(sh, n - 1, O.d) IN Aff([i \in 1..O.d |-> O.coords[i][ix[i] + 1]])]
AffineExact == Asked /\ Inside(O.coords, last.p) =>
  /\ ValueOf("M", O.coords, AffData, TRUE, last.p) = Aff(last.p) /\ ValueOf("S", O.coords, AffData, TRUE, last.p) = Aff(last.p)
(* samples given twice, the same on both sides of every node, are the samples given once *)
Twice(sh) == LET s2 == [i \in 1..Len(sh) |-> 2 * sh[i]] IN
  [n \in 1..Prod(s2, 1) |-> LET ix == IxOf(s2, n - 1, Len(sh)) IN last.data[Off(sh, [i \in 1..Len(sh) |-> ix[i] \div 2], 1, 0) + 1]]
NoJump == Asked /\ O.cont => last.v = ValueOf(O.kind, O.coords, Twice(Shape(O.coords)), FALSE, last.p)
=============================================================================
