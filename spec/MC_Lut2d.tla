----------------------------- MODULE MC_Lut2d -----------------------------
EXTENDS Lut2d, IOUtils, Json, CSV
CONSTANTS NameSet, MaxLen, ExportAt
VARIABLES hist, last
vars == <<obj, tab, hist, last>>
I(s) == [i \in 1..Len(s) |-> RInt(s[i])]
GridChoices == {I(<<0, 2>>), I(<<-1, 0, 2>>)}
DataOf(n) == {[i \in 1..n |-> RInt((i * i) % 5)], [i \in 1..n |-> RInt(3 - 2*i)]}
Pts == {<<RInt(0), RInt(0)>>, <<RInt(1), RInt(2)>>, <<RInt(2), RInt(1)>>, <<RFrac(1, 2), RFrac(3, 2)>>, <<RInt(-1), RInt(1)>>}
Log(o) == hist' = Append(hist, o)
None == [k |-> "none"]
Init == L2Init /\ hist = <<>> /\ last = None
Over == hist # <<>> /\ "fatal" \in DOMAIN hist[Len(hist)]
New(h) == ~tab[h].live /\ TNewOK(h, "d", "ok") /\ Log([op |-> "tnew", h |-> h]) /\ last' = None
Method(h, m) == tab[h].m # m /\ TMethodOK(h, m, "ok") /\ Log([op |-> "tmethod", h |-> h, m |-> m]) /\ last' = None
SetX(h, v) == v # tab[h].xs /\ TSetXOK(h, v, "ok") /\ Log([op |-> "tsetx", h |-> h, v |-> v]) /\ last' = None
SetY(h, v) == v # tab[h].ys /\ TSetYOK(h, v, "ok") /\ Log([op |-> "tsety", h |-> h, v |-> v]) /\ last' = None
(* a successful or refused (duplicate, short, unsupported) insertion *)
Add(h, nm, d) ==
  /\ \/ TAddOK(h, nm, d, nm \notin Names(h), "ok")
     \/ TAddOK(h, nm, d, FALSE, "throw")
  /\ Log([op |-> "tadd", h |-> h, name |-> nm, data |-> d]) /\ last' = None
Ask(h, nm, p) ==
  /\ tab[h].live /\ Keep2
  /\ IF nm \in Names(h) /\ ~Inside(<<tab[h].ser[nm].xs, tab[h].ser[nm].ys>>, p)
     THEN Log([op |-> "teval", h |-> h, name |-> nm, x |-> p[1], y |-> p[2], fatal |-> 1]) /\ last' = None
     ELSE /\ Log([op |-> "teval", h |-> h, name |-> nm, x |-> p[1], y |-> p[2]])
          /\ last' = IF nm \in Names(h) THEN [k |-> "val", o |-> tab[h].ser[nm], p |-> p, v |-> Bil(tab[h].ser[nm], p[1], p[2])] ELSE None
Next == /\ Len(hist) < MaxLen /\ ~Over
        /\ \E h \in Handles :
             \/ New(h)
             \/ tab[h].live /\ \/ \E m \in {"LINEAR", "SATURATE"} : Method(h, m)
                               \/ \E v \in GridChoices : SetX(h, v) \/ SetY(h, v)
                               \/ tab[h].xs # <<>> /\ tab[h].ys # <<>> /\ \E nm \in NameSet :
                                    \E d \in DataOf(Len(tab[h].xs) * Len(tab[h].ys)) \cup DataOf(3) : Add(h, nm, d)
                               \/ Names(h) # {} /\ Len(hist) >= MaxLen - 1 /\ \E nm \in NameSet : \E p \in Pts : Ask(h, nm, p)
                               \/ Len(hist) >= MaxLen - 1 /\ Keep2 /\ last' = None /\ (Log([op |-> "tcount", h |-> h]) \/ \E nm \in NameSet : Log([op |-> "thas", h |-> h, name |-> nm]))
View == <<tab, last, Len(hist), Over>>
Export == IF Len(hist') = ExportAt THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EXPORT) ELSE TRUE

SeriesComplete == \A h \in Handles : \A nm \in Names(h) : Complete(tab[h].ser[nm].xs, tab[h].ser[nm].ys, tab[h].ser[nm].data)
(* the value lies within the corner values; it is the sample on nodes; it is linear along each axis *)
Cells(o, p) == {c \in (1..Len(o.xs)-1) \X (1..Len(o.ys)-1) :
   RLe(o.xs[c[1]], p[1]) /\ RLe(p[1], o.xs[c[1]+1]) /\ RLe(o.ys[c[2]], p[2]) /\ RLe(p[2], o.ys[c[2]+1])}
D(o, i, j) == o.data[(i-1) * Len(o.ys) + j]
Convex == last.k = "val" => \A c \in Cells(last.o, last.p) :
   LET S == {D(last.o, c[1]+a, c[2]+b) : a \in {0,1}, b \in {0,1}} IN (\E s \in S : RLe(s, last.v)) /\ (\E s \in S : RLe(last.v, s))
NodeExact == last.k = "val" => \A i \in 1..Len(last.o.xs), j \in 1..Len(last.o.ys) :
   (last.p = <<last.o.xs[i], last.o.ys[j]>>) => last.v = D(last.o, i, j)
(* the textbook bilinear formula agrees with the nested one, whichever cell containing p is used *)
Textbook == last.k = "val" => \A c \in Cells(last.o, last.p) :
   LET o == last.o x1 == o.xs[c[1]] x2 == o.xs[c[1]+1] y1 == o.ys[c[2]] y2 == o.ys[c[2]+1] x == last.p[1] y == last.p[2]
       area == RMul(RSub(x2, x1), RSub(y2, y1))
   IN RMul(last.v, area) = RSum(<<RMul(D(o, c[1], c[2]), RMul(RSub(x2, x), RSub(y2, y))), RMul(D(o, c[1], c[2]+1), RMul(RSub(x2, x), RSub(y, y1))),
                                 RMul(D(o, c[1]+1, c[2]), RMul(RSub(x, x1), RSub(y2, y))), RMul(D(o, c[1]+1, c[2]+1), RMul(RSub(x, x1), RSub(y, y1)))>>)
SeriesStable == [][\A h \in Handles : \A nm \in Names(h) : nm \in DOMAIN tab'[h].ser /\ tab'[h].ser[nm] = tab[h].ser[nm]]_vars
=============================================================================
