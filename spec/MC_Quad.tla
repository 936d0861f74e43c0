------------------------------ MODULE MC_Quad ------------------------------
(* Exhaustive model of the caching integrator: every history of changing     *)
(* limits and method and asking for the value.  The object keeps a cached    *)
(* result and a validity flag, as the implementation does; the value it      *)
(* hands out must always be the one its present state asks for.              *)
EXTENDS Quad, IOUtils, Json, CSV
CONSTANTS Lims, MaxLen, ExportAt
LimsA == {-1, 0, 2}
VARIABLES cache, last, hist
Data == {<<"vec", <<RInt(1), RInt(3)>>>>, <<"vec", <<RInt(2), RInt(-1), RInt(5)>>>>,
         <<"fun", <<RInt(1), RInt(-2)>>>>, <<"fun", <<R0, R0, RInt(1)>>>>}
None == [kind |-> "none", v |-> R0]
Init == QInit /\ cache = [h \in Handles |-> [valid |-> FALSE, v |-> R0]] /\ last = [h |-> 0, resp |-> None] /\ hist = <<>>
Log(o) == hist' = Append(hist, o)
Quiet == last' = [last EXCEPT !.resp = None]
Invalidate(h) == cache' = [cache EXCEPT ![h].valid = FALSE]
Live(h) == integ[h].src # "none"
Create(h, d, a, b) ==
  /\ ~Live(h) /\ Invalidate(h) /\ Quiet
  /\ IF d[1] = "vec" THEN NewVecOK(h, "d", a, b, d[2], "ok") /\ Log([op |-> "inewv", h |-> h, a |-> a, b |-> b, y |-> d[2]])
     ELSE NewFunOK(h, "d", a, b, 3, d[2], "ok") /\ Log([op |-> "inewf", h |-> h, a |-> a, b |-> b, n |-> 3, c |-> d[2]])
ChangeMin(h, v) == Live(h) /\ SetMinOK(h, v, "ok") /\ Invalidate(h) /\ Quiet /\ Log([op |-> "isetmin", h |-> h, v |-> v])
ChangeMax(h, v) == Live(h) /\ SetMaxOK(h, v, "ok") /\ Invalidate(h) /\ Quiet /\ Log([op |-> "isetmax", h |-> h, v |-> v])
ChangeMethod(h, m) == Live(h) /\ SetMethodOK(h, m, "ok") /\ Invalidate(h) /\ Quiet /\ Log([op |-> "isetm", h |-> h, m |-> m])
Copy(h, g) == Live(g) /\ h # g /\ CopyOK(h, g, "ok") /\ cache' = [cache EXCEPT ![h] = cache[g]] /\ Quiet /\ Log([op |-> "icopy", h |-> h, from |-> g])
Get(h) ==
  /\ Live(h) /\ UNCHANGED integ /\ Log([op |-> "iget", h |-> h])
  /\ IF cache[h].valid THEN UNCHANGED cache /\ last' = [h |-> h, resp |-> [kind |-> "value", v |-> cache[h].v]]
     ELSE IF integ[h].m = "NEWTON_COTES" THEN UNCHANGED cache /\ last' = [h |-> h, resp |-> [kind |-> "throw", v |-> R0]]
     ELSE LET v == Integral(integ[h]) IN cache' = [cache EXCEPT ![h] = [valid |-> TRUE, v |-> v]] /\ last' = [h |-> h, resp |-> [kind |-> "value", v |-> v]]
LimR == {RInt(n) : n \in Lims}
Next == /\ Len(hist) < MaxLen
        /\ \E h \in Handles :
             \/ \E d \in Data : Create(h, d, RInt(0), RInt(2))
             \/ \E v \in LimR : ChangeMin(h, v) \/ ChangeMax(h, v)
             \/ \E m \in {"TRAPEZOIDAL", "NEWTON_COTES"} : ChangeMethod(h, m)
             \/ \E g \in Handles : Copy(h, g)
             \/ Get(h)
View == <<integ, cache, last, Len(hist)>>
Export == IF ExportAt = 0 \/ Len(hist') = ExportAt THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EXPORT) ELSE TRUE

O == integ[last.h]
Fresh == last.resp.kind = "value" => O.m = "TRAPEZOIDAL" /\ last.resp.v = Integral(O)
Refused == last.resp.kind = "throw" <=> (last.resp.kind # "none" /\ O.m = "NEWTON_COTES")
(* exchanging the limits changes the sign; a linear integrand is integrated exactly *)
Antisym == last.resp.kind = "value" /\ O.src = "fun" => RNeg(last.resp.v) = Integral([O EXCEPT !.a = O.b, !.b = O.a])
LinearExact == last.resp.kind = "value" /\ O.src = "fun" /\ Len(O.data) = 2 =>
  last.resp.v = RAdd(RMul(O.data[1], RSub(O.b, O.a)), RMul(RHalf, RMul(O.data[2], RSub(RSq(O.b), RSq(O.a)))))
UniformIsGeneral == last.resp.kind = "value" =>
  last.resp.v = TrapzX([i \in 1..O.n |-> RAdd(O.a, RMul(RInt(i - 1), Step_(O)))], Samples(O))
=============================================================================
