----------------------------- MODULE MC_Lut1d -----------------------------
EXTENDS Lut1d, IOUtils, Json, CSV
CONSTANTS NameSet, MaxLen, ExportAt
VARIABLES hist
vars == <<tab, hist>>
I(s) == [i \in 1..Len(s) |-> RInt(s[i])]
XChoices == {I(<<0, 2>>), I(<<-1, 0, 2>>)}
YChoices(n) == IF n = 2 THEN {<<<<RInt(0)>>, <<RInt(4)>>>>, <<<<RInt(3)>>, <<RInt(-1)>>>>}
                        ELSE {<<<<RInt(0)>>, <<RInt(4)>>, <<RInt(-2)>>>>}
Queries == {RInt(0), RInt(1), RInt(-1), RInt(3)}
Log(o) == hist' = Append(hist, o)
Init == LutInit /\ hist = <<>>
Fatal(h, name, x) == name \in Names(h) /\ tab[h].m = "LINEAR" /\ ~InRange(S(h, name).xs, x)
Over == hist # <<>> /\ "fatal" \in DOMAIN hist[Len(hist)]
New(h, m) == ~tab[h].live /\ NewOK(h, m, "d", "ok") /\ Log([op |-> "tnew", h |-> h, m |-> m])
SetX(h, xs) == xs # tab[h].xs /\ SetXOK(h, xs, "ok") /\ Log([op |-> "tsetx", h |-> h, xs |-> xs])
Add(h, nm, ys) == AddOK(h, nm, ys, nm \notin Names(h), "ok") /\ Log([op |-> "tadd", h |-> h, name |-> nm, ys |-> ys])
Move(op, h, g) == h # g /\ (op = "tmovea" => tab[h].live) /\ (op = "tmovec" => ~tab[h].live) /\ MoveOK(h, g, "ok")
                  /\ Log([op |-> op, h |-> h, from |-> g])
Read(h) == tab[h].live /\ Keep /\
  \/ \E nm \in NameSet : \E x \in Queries : Log(IF Fatal(h, nm, x) THEN [op |-> "teval", h |-> h, name |-> nm, x |-> x, fatal |-> 1]
                                                 ELSE [op |-> "teval", h |-> h, name |-> nm, x |-> x])
  \/ \E x \in Queries : Log(IF \E nm \in Names(h) : Fatal(h, nm, x) THEN [op |-> "tall", h |-> h, x |-> x, fatal |-> 1]
                            ELSE [op |-> "tall", h |-> h, x |-> x])
  \/ Log([op |-> "tcount", h |-> h])
Next == /\ Len(hist) < MaxLen /\ ~Over
        /\ \E h \in Handles :
             \/ \E m \in Methods : New(h, m)
             \/ tab[h].live /\ \E xs \in XChoices : SetX(h, xs)
             \/ tab[h].live /\ tab[h].xs # <<>> /\ \E nm \in NameSet : \E ys \in YChoices(Len(tab[h].xs)) : Add(h, nm, ys)
             \/ \E g \in Handles : tab[g].live /\ (Move("tmovec", h, g) \/ Move("tmovea", h, g))
             \/ Len(hist) >= MaxLen - 1 /\ Read(h)
View == <<tab, Len(hist), Over>>
Export == IF Len(hist') = ExportAt THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EXPORT) ELSE TRUE

SeriesWellFormed == \A h \in Handles : \A nm \in Names(h) : WellFormed(S(h, nm).xs, S(h, nm).ys)
DeadEmpty == \A h \in Handles : ~tab[h].live => Names(h) = {}
(* a series never changes as long as the table it is in is neither replaced nor moved *)
SeriesStable == [][\A h \in Handles : \A nm \in Names(h) :
                     (tab'[h].live /\ ~(\E g \in Handles : g # h /\ tab[g].live /\ ~tab'[g].live)) =>
                        nm \in DOMAIN tab'[h].ser /\ tab'[h].ser[nm] = S(h, nm)]_vars
(* nothing is lost or invented by a move *)
MoveConserves == [][\A h, g \in Handles : h # g /\ tab[g].live /\ ~tab'[g].live /\ tab'[h].live =>
                     (tab'[h] = tab[g] \/ tab'[h] = tab[h])]_vars
=============================================================================
