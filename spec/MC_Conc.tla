------------------------------ MODULE MC_Conc ------------------------------
(* Every interleaving of a few threads that evaluate a shared table: a call    *)
(* first locates the interval, then combines its two ends, and other threads'  *)
(* steps may come in between.  What a thread needs in between is its own       *)
(* (Hint = FALSE); with Hint = TRUE the interval found last is kept in the      *)
(* object instead, as a cache would, and Pure and Untouched fail.               *)
EXTENDS Conc, IOUtils, Json, CSV
CONSTANTS PerThread, Hint
VARIABLES table, at, got, hist
vars == <<ref, busy, table, at, got, hist>>
Xs == <<0, 2, 4, 6>>
T0 == [ys |-> <<1, 4, -2, 3>>, last |-> 1]
Point(c) == 2 * c - 1                                  \* call c asks for the value at 1, 3, 5
Cell(x) == CHOOSE i \in 1..3 : Xs[i] <= x /\ x < Xs[i + 1]
Combine(tab, x, i) == tab.ys[i] * (Xs[i + 1] - x) + tab.ys[i + 1] * (x - Xs[i])   \* twice the value: cells have length 2
Val(c) == <<RInt(Combine(T0, Point(c), Cell(Point(c))))>>
Tok(r) == r                                            \* results are kept as numbers here
Init == /\ CInit0 /\ table = T0 /\ at = [t \in Threads |-> 0] /\ got = [t \in Threads |-> <<>>] /\ hist = <<>>
Alone == \E c \in Calls : /\ Quiet /\ ref[c] = Unknown /\ (\A d \in Calls : d < c => ref[d] # Unknown)
                          /\ ref' = [ref EXCEPT ![c] = Val(c)] /\ UNCHANGED <<busy, table, at, got, hist>>
Count(t) == Len(SelectSeq(hist, LAMBDA h : h.t = t))
Begin(t, c) == /\ \A d \in Calls : ref[d] # Unknown
               /\ Count(t) < PerThread /\ BeginOK(t, c) /\ hist' = Append(hist, [t |-> t, c |-> c]) /\ UNCHANGED <<table, at, got>>
Locate(t) == /\ busy[t] # 0 /\ at[t] = 0
             /\ at' = [at EXCEPT ![t] = Cell(Point(busy[t]))]
             /\ table' = IF Hint THEN [table EXCEPT !.last = Cell(Point(busy[t]))] ELSE table
             /\ UNCHANGED <<ref, busy, got, hist>>
Finish(t) == /\ busy[t] # 0 /\ at[t] # 0
             /\ \E i \in {IF Hint THEN table.last ELSE at[t]} :
                  got' = [got EXCEPT ![t] = Append(@, [c |-> busy[t], r |-> <<RInt(Combine(table, Point(busy[t]), i))>>])]
             /\ at' = [at EXCEPT ![t] = 0] /\ busy' = [busy EXCEPT ![t] = 0] /\ UNCHANGED <<ref, table, hist>>
Next == Alone \/ \E t \in Threads : Locate(t) \/ Finish(t) \/ \E c \in Calls : Begin(t, c)
Pure == \A t \in Threads : \A i \in 1..Len(got[t]) : Same(ref[got[t][i].c], got[t][i].r)
Untouched == table = T0
Typed == busy \in [Threads -> Calls \cup {0}]
AllBegun == \A t \in Threads : Len(SelectSeq(hist', LAMBDA h : h.t = t)) = PerThread
Export == IF hist' # hist /\ AllBegun THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EXPORT) ELSE TRUE
=============================================================================
