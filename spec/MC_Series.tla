------------------------------ MODULE MC_Series ------------------------------
(* Exhaustive model of series objects: create, (re)compute, convert,          *)
(* evaluate, over a small lattice; checks that the specified Chebyshev series *)
(* is the interpolant of its function on the nodes and that power and         *)
(* Chebyshev forms and derivatives are consistent.                            *)
EXTENDS Series, IOUtils, Json, CSV
CONSTANTS MaxLen, Kind, Dim
VARIABLES last, hist
C == [k |-> "c", lo |-> RInt(-1), hi |-> RInt(3)]
O == [k |-> "o", lo |-> RInt(2), hi |-> R0]
Axes == IF Dim = 1 THEN {<<C>>, <<O>>} ELSE IF Dim = 2 THEN {<<C, C>>, <<O, O>>, <<C, O>>} ELSE {<<C, C, C>>, <<C, O, O>>, <<C, C, O>>}
Pt(a) == IF a.k = "c" THEN {RFrac(1, 2), RInt(3)} ELSE {RInt(2), RInt(8)}
Points(ax) == IF Dim = 1 THEN {<<p>> : p \in Pt(ax[1])} ELSE IF Dim = 2 THEN {<<p, q>> : p \in Pt(ax[1]), q \in Pt(ax[2])}
              ELSE {<<p, q, r>> : p \in Pt(ax[1]), q \in Pt(ax[2]), r \in Pt(ax[3])}
Rows(n) == {[i \in 1..n |-> RInt(i * i - 3)], [i \in 1..n |-> IF i = n THEN R1 ELSE R0]}
(* tensors: nz x nx x ny *)
Tensors == IF Dim = 1 THEN {<<[i \in 1..n |-> <<r[i]>>]>> : n \in {1, 2, 5}, r \in Rows(5)}
           ELSE IF Dim = 2 THEN {<<[i \in 1..nx |-> [j \in 1..ny |-> RInt(i * 2 - j * j + 1)]]>> : nx \in {1, 3}, ny \in {2, 4}}
           ELSE {[k \in 1..nz |-> [i \in 1..nx |-> [j \in 1..ny |-> RInt(i * 2 - j * j + 3 * k)]]] : nx \in {1, 3}, ny \in {2}, nz \in {2, 3}}
Orders == IF Dim = 1 THEN {<<n>> : n \in 0..3} ELSE IF Dim = 2 THEN {<<n, m>> : n \in {0, 2}, m \in {1, 2}} ELSE {<<1, 1, 1>>, <<2, 1, 0>>, <<0, 1, 2>>}
None == [kind |-> "none", x |-> <<>>, d |-> 0, v |-> R0]
Init == SInit /\ last = None /\ hist = <<>>
Log(o) == hist' = Append(hist, o)
Flat(t) == LET F[k \in 0..Len(t)] == IF k = 0 THEN <<>> ELSE F[k-1] \o (LET G[i \in 0..Len(t[k])] == IF i = 0 THEN <<>> ELSE G[i-1] \o t[k][i] IN G[Len(t[k])]) IN F[Len(t)]
TJ(t) == [n |-> <<Len(t), Len(t[1]), Len(t[1][1])>>, v |-> Flat(t)]
MakeP(ax, b) == pser[1].ax = <<>> /\ cser[1].ax = <<>> /\ PNewOK(1, ax, b, "ok") /\ last' = None /\ Log([op |-> "pnew", h |-> 1, ax |-> ax, t |-> TJ(b)])
MakeC(ax, n, c) == pser[1].ax = <<>> /\ cser[1].ax = <<>> /\ CNewOK(1, ax, n, c, "ok") /\ last' = None /\ Log([op |-> "cnew", h |-> 1, ax |-> ax, n |-> n, t |-> TJ(c)])
Comp == cser[1].ax # <<>> /\ CCompOK(1, "ok") /\ last' = None /\ Log([op |-> "ccomp", h |-> 1])
Conv == /\ cser[1].done /\ pser' = [pser EXCEPT ![1] = [ax |-> cser[1].ax, b |-> ToPow(Held(cser[1]))]] /\ UNCHANGED <<cser, cij>>
        /\ last' = None /\ Log([op |-> "pfrom", h |-> 1, from |-> 1])
DName == <<"val", "dx", "dy", "dz">>
EvP(x, d) == /\ pser[1].ax # <<>> /\ d <= Dim /\ UNCHANGED svars
             /\ last' = [kind |-> "pow", x |-> x, d |-> d, v |-> EvalAt("pow", pser[1].b, pser[1].ax, x, d)]
             /\ Log([op |-> "p" \o DName[d + 1], h |-> 1, x |-> x])
EvC(x, d) == /\ cser[1].ax # <<>> /\ d <= Dim /\ UNCHANGED svars
             /\ last' = [kind |-> "cheb", x |-> x, d |-> d, v |-> EvalAt("cheb", Held(cser[1]), cser[1].ax, x, d)]
             /\ Log([op |-> "c" \o DName[d + 1], h |-> 1, x |-> x])
(* an evaluation changes nothing (SInit/UNCHANGED), so exploration stops after it *)
Next == /\ Len(hist) < MaxLen /\ last.kind = "none"
        /\ \/ Kind = "p" /\ \E ax \in Axes, b \in Tensors : MakeP(ax, b)
           \/ Kind = "c" /\ \E ax \in Axes, n \in Orders, c \in Tensors : MakeC(ax, n, c)
           \/ Comp \/ Conv
           \/ \E d \in 0..3 : \/ pser[1].ax # <<>> /\ \E x \in Points(pser[1].ax) : EvP(x, d)
                              \/ cser[1].ax # <<>> /\ \E x \in Points(cser[1].ax) : EvC(x, d)
View == <<pser, cser, cij, last, Len(hist)>>
Export == IF last'.kind # "none" THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EXPORT) ELSE TRUE

(* ---- properties ---- *)
(* the remainder of polynomial division by T_{n+1}; zero iff it vanishes on all nodes *)
RECURSIVE Rem(_, _)
Rem(p, q) == IF Len(p) < Len(q) THEN p
  ELSE LET f == RDiv(p[Len(p)], q[Len(q)])  s == Len(p) - Len(q)
           r == [i \in 1..Len(p)-1 |-> IF i <= s THEN p[i] ELSE RSub(p[i], RMul(f, q[i - s]))]
       IN Rem(r, q)
Interpolates == Dim = 1 /\ cser[1].done /\ last.kind = "none" =>
  LET o == cser[1]  col(t) == [i \in 1..Len(t[1]) |-> t[1][i][1]]
      diff == PAdd(ToPowSeq(col(o.c)), PScale(RInt(-1), ToPowSeq(col(Held(o)))))
      r == Rem(diff, TPoly(o.n[1] + 1))
  IN \A i \in 1..Len(r) : r[i] = R0
(* polynomials of degree within the order are reproduced *)
Reproduces == cser[1].done /\ (\A d \in 1..3 : Dims(cser[1].c)[d] <= OrderOf(cser[1].n, d) + 1) /\ last.kind = "cheb" =>
  last.v = EvalAt("cheb", cser[1].c, cser[1].ax, last.x, last.d)
(* the converted power series is the same function *)
SameFunction == cser[1].done /\ pser[1].ax # <<>> /\ last.kind = "pow" => RNear(last.v, EvalAt("cheb", Held(cser[1]), cser[1].ax, last.x, last.d), RDec("1e-50"))
(* derivative of a power series: exact divided difference (p(u+h)-p(u))/h has p'(u) as its constant term *)
DerivIsLimit == last.kind = "pow" /\ last.d > 0 =>
  LET o == pser[1]  u == UV(o.ax, last.x)  h == RPow(R2, -60)
      v == [u EXCEPT ![last.d] = RAdd(@, h)]
      dd == RMul(RDiv(RSub(EvalUnit("pow", o.b, v, 0), EvalUnit("pow", o.b, u, 0)), h), JacOf(o.ax[last.d], last.x[last.d]))
  IN RNear(dd, last.v, RDec("1e-10"))
ASSUME \A ax \in Axes : \A a \in 1..Len(ax) : UnitOf(ax[a], ax[a].lo) = RInt(-1) /\ (ax[a].k = "c" => UnitOf(ax[a], ax[a].hi) = R1)
=============================================================================
