------------------------------ MODULE MC_Grid ------------------------------
EXTENDS GridObj, IOUtils, Json, CSV
CONSTANTS Kinds, Dims, MaxLen, ExportAt
VARIABLES hist, last
vars == <<g, hist, last>>
I(s) == [i \in 1..Len(s) |-> RInt(s[i])]
CoordChoices == {I(<<0, 2>>), I(<<-1, 0, 2>>)}
BadCoord == I(<<1, 1>>)
Samples(n) == {[i \in 1..n |-> RInt((i * i * 3) % 7)], [i \in 1..n |-> RInt(2 - i)]}
Axis == {RInt(-2), RInt(0), RFrac(1, 2), RInt(1), RInt(2), RInt(3)}
Log(o) == hist' = Append(hist, o)
None == [k |-> "none"]
Init == GInit /\ hist = <<>> /\ last = None
Over == hist # <<>> /\ "fatal" \in DOMAIN hist[Len(hist)]
Full(h) == Len(g[h].coords) = g[h].d
New(h, k, d) == ~Live(h) /\ NewOK(h, k, d, "ok") /\ Log([op |-> "new", h |-> h, kind |-> k, d |-> d]) /\ last' = None
Coord(h, v) == /\ Live(h) /\ ~Full(h) /\ CoordOK(h, v, IF IsInterp(g[h].kind) /\ ~Increasing(v) THEN "throw" ELSE "ok")
               /\ Log([op |-> "coord", h |-> h, v |-> v]) /\ last' = None
TooMany(h) == Live(h) /\ Full(h) /\ CoordOK(h, I(<<0, 1>>), "exit1") /\ Log([op |-> "coord", h |-> h, v |-> I(<<0, 1>>), fatal |-> 1]) /\ last' = None
TooFew(h) == Live(h) /\ ~Full(h) /\ LET sh == [i \in 1..g[h].d |-> 2] IN
               VarOK(h, sh, [i \in 1..Prod(sh, 1) |-> R1], "exit1") /\ Log([op |-> "var", h |-> h, ft |-> 0, shape |-> sh, data |-> [i \in 1..Prod(sh, 1) |-> R1], fatal |-> 1]) /\ last' = None
Var(h, data) == Live(h) /\ Full(h) /\ VarOK(h, Shape(g[h].coords), data, "ok")
                /\ Log([op |-> "var", h |-> h, ft |-> 0, shape |-> Shape(g[h].coords), data |-> data]) /\ last' = None
BadVar(h) == Live(h) /\ Full(h) /\ IsInterp(g[h].kind) /\ LET sh == [i \in 1..g[h].d |-> 4] data == [i \in 1..Prod(sh, 1) |-> RInt(9)] IN
                VarOK(h, sh, data, "throw") /\ Log([op |-> "var", h |-> h, ft |-> 0, shape |-> sh, data |-> data]) /\ last' = None
Copy(op, h, f) == /\ h # f /\ Live(f) /\ (op = "assign" => Live(h) /\ g[h].kind = g[f].kind /\ g[h].d = g[f].d) /\ (op = "copy" => ~Live(h))
                  /\ CopyOK(h, f, "ok") /\ Log([op |-> op, h |-> h, from |-> f]) /\ last' = None
Del(h) == Live(h) /\ DelOK(h, "ok") /\ Log([op |-> "del", h |-> h]) /\ last' = None
Ask(h, p) == /\ g[h].valid /\ KeepG
             /\ IF IsInterp(g[h].kind)
                THEN \/ Log([op |-> "interp", h |-> h, p |-> p]) /\ last' = [k |-> "val", o |-> g[h], p |-> p, v |-> MultiLinear(g[h].coords, g[h].data, p)]
                     \/ Log([op |-> "interpc", h |-> h, check |-> TRUE, p |-> p])
                        /\ last' = IF Inside(g[h].coords, p) THEN [k |-> "val", o |-> g[h], p |-> p, v |-> MultiLinear(g[h].coords, g[h].data, p)] ELSE None
                ELSE /\ last' = [k |-> "near", h |-> h, p |-> p]
                     /\ \/ Log([op |-> "nearest", h |-> h, p |-> p]) \/ Log([op |-> "around", h |-> h, p |-> p]) \/ Log([op |-> "data", h |-> h, p |-> p])
Points(d) == [1..d -> Axis]
Next == /\ Len(hist) < MaxLen /\ ~Over
        /\ \E h \in Handles :
             \/ \E k \in Kinds, d \in Dims : New(h, k, d)
             \/ \E v \in CoordChoices \cup (IF IsInterp(g[h].kind) THEN {BadCoord} ELSE {}) : Coord(h, v)
             \/ TooMany(h) \/ TooFew(h) \/ BadVar(h) \/ Del(h)
             \/ Live(h) /\ Full(h) /\ \E data \in Samples(Prod(Shape(g[h].coords), 1)) : data # g[h].data /\ Var(h, data)
             \/ \E f \in Handles : Copy("copy", h, f) \/ Copy("assign", h, f)
             \/ Len(hist) >= MaxLen - 1 /\ g[h].valid /\ \E p \in Points(g[h].d) : Ask(h, p)
             \/ Len(hist) >= MaxLen - 1 /\ Live(h) /\ IsInterp(g[h].kind) /\ KeepG /\ last' = None /\ Log([op |-> "valid", h |-> h])
View == <<g, last, Len(hist), Over>>
Export == IF Len(hist') = ExportAt THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EXPORT) ELSE TRUE

ValidIff == \A h \in Handles : g[h].valid <=> (g[h].data # <<>>)
ShapeFits == \A h \in Handles : g[h].valid => Full(h) /\ Len(g[h].data) = Prod(Shape(g[h].coords), 1)
Monotone == \A h \in Handles : IsInterp(g[h].kind) => \A i \in 1..Len(g[h].coords) : Increasing(g[h].coords[i])
DataSet(o) == {o.data[i] : i \in 1..Len(o.data)}
Convex == last.k = "val" => (\E s \in DataSet(last.o) : RLe(s, last.v)) /\ (\E s \in DataSet(last.o) : RLe(last.v, s))
ClampInv == last.k = "val" => LET o == last.o q == [i \in 1..o.d |-> RMax(o.coords[i][1], RMin(o.coords[i][Len(o.coords[i])], last.p[i]))]
   IN last.v = MultiLinear(o.coords, o.data, q)
NodeExact == last.k = "val" => LET o == last.o IN
   (\A i \in 1..o.d : \E k \in 1..Len(o.coords[i]) : o.coords[i][k] = last.p[i]) =>
     last.v = AtIndex(Shape(o.coords), o.data, [i \in 1..o.d |-> (CHOOSE k \in 1..Len(o.coords[i]) : o.coords[i][k] = last.p[i]) - 1])
(* exactly one node is nearest per axis for simple coordinates (ties included) *)
NearestUnique == last.k = "near" => Cardinality(NearSets(last.h, last.p, 1)) = 1
(* inside the grid the surrounding nodes bracket the point, and the nearest node is one of them *)
AroundBrackets == last.k = "near" => LET o == g[last.h] n == 2 ^ o.d IN
   /\ \A k \in 1..o.d : RLe(o.coords[k][1], last.p[k]) /\ RLe(last.p[k], o.coords[k][Len(o.coords[k])]) =>
        /\ RLe(o.coords[k][AroundIx(last.h, last.p, 0)[k] + 1], last.p[k]) /\ RLe(last.p[k], o.coords[k][AroundIx(last.h, last.p, n-1)[k] + 1])
   /\ \E v \in 0..n-1 : AroundIx(last.h, last.p, v) \in NearSets(last.h, last.p, 1)
=============================================================================
