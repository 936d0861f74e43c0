------------------------------- MODULE Lut1d -------------------------------
(* LookupTable1D: named series over abscissae; every series remembers the    *)
(* abscissae in force when it was added.                                     *)
EXTENDS Interp1d, FiniteSets
CONSTANTS Handles
VARIABLES tab     \* handle -> [live, m, prec, xs, ser : name -> [xs, ys]]

NoTab == [live |-> FALSE, m |-> "none", prec |-> "d", xs |-> <<>>, ser |-> <<>>]
EmptyFcn == <<>>
LutInit == tab = [h \in Handles |-> NoTab]
Names(h) == DOMAIN tab[h].ser
Keep == UNCHANGED tab

NewOK(h, m, prec, out) ==
  out = "ok" /\ tab' = [tab EXCEPT ![h] = [live |-> TRUE, m |-> m, prec |-> prec, xs |-> <<>>, ser |-> EmptyFcn]]
DelOK(h, out) == tab[h].live /\ out = "ok" /\ tab' = [tab EXCEPT ![h] = NoTab]
SetXOK(h, xs, out) == tab[h].live /\ out = "ok" /\ tab' = [tab EXCEPT ![h].xs = xs]     \* existing series keep theirs
GetXOK(h, r, out) == tab[h].live /\ out = "ok" /\ r = tab[h].xs /\ Keep
CountOK(h, r, out) == tab[h].live /\ out = "ok" /\ r = Cardinality(Names(h)) /\ Keep
SamplesOK(h, r, out) == tab[h].live /\ out = "ok" /\ r = Len(tab[h].xs) /\ Keep

AddOK(h, name, ys, r, out) ==
  /\ tab[h].live /\ tab[h].xs # <<>>
  /\ IF name \in Names(h)
     THEN out = "ok" /\ r = FALSE /\ Keep                  \* refused: the first series of that name stays
     ELSE IF tab[h].m \notin Methods
     THEN out = "exit1" /\ Keep                            \* unsupported method
     ELSE IF ~WellFormed(tab[h].xs, ys)
     THEN out \in {"abort", "throw"} /\ Keep
     ELSE out = "ok" /\ r = TRUE
          /\ tab' = [tab EXCEPT ![h].ser = (name :> [xs |-> tab[h].xs, ys |-> ys]) @@ @]

S(h, name) == tab[h].ser[name]
EvalNamedOK(h, name, x, r, out) ==
  /\ tab[h].live /\ Keep
  /\ IF name \notin Names(h) THEN out = "throw"
     ELSE EvalOK(tab[h].prec, tab[h].m, S(h, name).xs, S(h, name).ys, x, out, r)
EvalNamedVOK(h, name, x, r, out) ==
  /\ tab[h].live /\ Keep
  /\ IF name \notin Names(h) THEN out = "throw"
     ELSE EvalVecOK(tab[h].prec, tab[h].m, S(h, name).xs, S(h, name).ys, x, out, r)
RangeNamedOK(h, name, lo, hi, out) ==
  /\ tab[h].live /\ Keep
  /\ IF name \notin Names(h) THEN out = "throw"
     ELSE out = "ok" /\ RD(lo) = S(h, name).xs[1] /\ RD(hi) = S(h, name).xs[Len(S(h, name).xs)]

(* evaluating all series at once: one entry per series, each as Eval would give; *)
(* r is the sequence of recorded <<name, value>> pairs in the order of iteration *)
EntryNames(r) == {r[k][1] : k \in 1..Len(r)}
DiesAt(h, nm, x) == tab[h].m = "LINEAR" /\ x # "nan" /\ (~RFin(x) \/ ~InRange(S(h, nm).xs, RD(x)))
EvalAllOK(h, x, r, out) ==
  /\ tab[h].live /\ Keep
  /\ IF \E nm \in Names(h) : DiesAt(h, nm, x) THEN out = "exit1"
     ELSE /\ out = "ok" /\ EntryNames(r) = Names(h) /\ Len(r) = Cardinality(Names(h))
          /\ \A k \in 1..Len(r) : EvalOK(tab[h].prec, tab[h].m, S(h, r[k][1]).xs, S(h, r[k][1]).ys, x, "ok", r[k][2])
EvalAllVOK(h, x, r, out) ==
  /\ tab[h].live /\ Keep
  /\ IF \E nm \in Names(h) : \E j \in 1..Len(x) : DiesAt(h, nm, x[j]) THEN out = "exit1"
     ELSE /\ out = "ok" /\ EntryNames(r) = Names(h) /\ Len(r) = Cardinality(Names(h))
          /\ \A k \in 1..Len(r) : EvalVecOK(tab[h].prec, tab[h].m, S(h, r[k][1]).xs, S(h, r[k][1]).ys, x, "ok", r[k][2])

(* moving transfers everything, the method included; the source is given up *)
MoveOK(h, g, out) ==
  /\ tab[g].live /\ out = "ok"
  /\ tab' = IF h = g THEN tab ELSE [tab EXCEPT ![h] = tab[g], ![g] = NoTab]
=============================================================================
