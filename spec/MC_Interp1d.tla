---------------------------- MODULE MC_Interp1d ----------------------------
(* Exhaustive model: every history of make / initialise / evaluate over a    *)
(* small lattice of samples and query points.                                *)
EXTENDS Interp1dObj, IOUtils, Json, CSV
CONSTANTS Nodes, Vals, Queries, MaxLen, ExportAt
NodesA == {-1, 0, 2}
ValsA == {-1, 3}
QueriesA == {-4, -2, -1, 0, 1, 3, 4, 5}
VARIABLES last, hist
vars == <<obj, last, hist>>
NodeR == {RInt(n) : n \in Nodes}
ValR  == {RInt(n) : n \in Vals}
QueryR == {RFrac(n, 2) : n \in Queries}
Sorted(S) == {s \in UNION {[1..k -> S] : k \in 2..Cardinality(S)} : \A i \in 1..Len(s)-1 : RLt(s[i], s[i+1])}
XSeqs == Sorted(NodeR)
YSeqs(n) == {[i \in 1..n |-> <<f[i]>>] : f \in [1..n -> ValR]}
None == [kind |-> "none", v |-> <<>>]

Init == ObjInit /\ last = [h |-> 0, x |-> R0, resp |-> None] /\ hist = <<>>
Log(o) == hist' = Append(hist, o)
Make(h, m) ==
  /\ obj[h].m = "none" /\ MakeOK(h, m, "d", "ok") /\ last' = [last EXCEPT !.resp = None]
  /\ Log([op |-> "make", h |-> h, m |-> m])
Initialise(h, xs, ys) ==
  /\ obj[h].m # "none" /\ InitObjOK(h, xs, ys, "ok") /\ last' = [last EXCEPT !.resp = None]
  /\ Log([op |-> "init", h |-> h, xs |-> xs, ys |-> ys])
Evaluate(h, x) ==
  /\ Ready(h) /\ last.resp.kind # "die"
  /\ last' = [h |-> h, x |-> x, resp |-> Response(obj[h].m, obj[h].xs, obj[h].ys, x)]
  /\ UNCHANGED obj
  /\ Log([op |-> "eval", h |-> h, x |-> x])
Next == /\ Len(hist) < MaxLen /\ last.resp.kind # "die"
        /\ \E h \in Handles :
             \/ \E m \in Methods : Make(h, m)
             \/ \E xs \in XSeqs : \E ys \in YSeqs(Len(xs)) : Initialise(h, xs, ys)
             \/ \E x \in QueryR : Evaluate(h, x)
View == <<obj, last, Len(hist)>>
Export == IF ExportAt = 0 \/ Len(hist') = ExportAt THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EXPORT) ELSE TRUE

(* ---- properties of the specified behaviour ---- *)
O == obj[last.h]
HasVal == last.resp.kind = "value"
V == last.resp.v[1]
N == Len(O.xs)
NodeExact == HasVal => \A i \in 1..N : last.x = O.xs[i] => V = O.ys[i][1]
Between == HasVal /\ InRange(O.xs, last.x) =>
  \E i \in 1..N-1 : /\ RLe(O.xs[i], last.x) /\ RLe(last.x, O.xs[i+1])
                    /\ RLe(RMin(O.ys[i][1], O.ys[i+1][1]), V) /\ RLe(V, RMax(O.ys[i][1], O.ys[i+1][1]))
Collinear == HasVal /\ InRange(O.xs, last.x) =>
  \E i \in 1..N-1 : /\ RLe(O.xs[i], last.x) /\ RLe(last.x, O.xs[i+1])
                    /\ RMul(RSub(V, O.ys[i][1]), RSub(O.xs[i+1], O.xs[i])) = RMul(RSub(O.ys[i+1][1], O.ys[i][1]), RSub(last.x, O.xs[i]))
LinearDies == last.resp.kind = "die" <=> (last.resp.kind # "none" /\ O.m = "LINEAR" /\ ~InRange(O.xs, last.x))
SaturateEnd == HasVal /\ O.m = "SATURATE" /\ ~InRange(O.xs, last.x) => V = IF RLt(last.x, O.xs[1]) THEN O.ys[1][1] ELSE O.ys[N][1]
ExtrapolateEnd == HasVal /\ O.m = "EXTRAPOLATE" /\ ~InRange(O.xs, last.x) =>
  LET i == IF RLt(last.x, O.xs[1]) THEN 1 ELSE N-1 IN
  RMul(RSub(V, O.ys[i][1]), RSub(O.xs[i+1], O.xs[i])) = RMul(RSub(O.ys[i+1][1], O.ys[i][1]), RSub(last.x, O.xs[i]))
=============================================================================
