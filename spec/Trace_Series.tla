---------------------------- MODULE Trace_Series ----------------------------
EXTENDS Series, TraceBase
VARIABLE l
e == Trace[l]
Ax(a) == [i \in 1..Len(a) |-> [k |-> a[i].k, lo |-> RD(a[i].lo), hi |-> RD(a[i].hi)]]
SD(t) == [i \in 1..Len(t) |-> RD(t[i])]
R == IF Has(e, "r") THEN e.r ELSE "nan"
RS == IF Has(e, "r") THEN e.r ELSE <<>>
D == IF e.op \in {"pval", "cval", "pinf", "pvalz"} THEN 0 ELSE IF e.op \in {"pdx", "cdx", "pdxinf", "pdxz"} THEN 1 ELSE IF e.op \in {"pdy", "cdy", "pdyinf", "pdyz"} THEN 2 ELSE 3
Step ==
  \/ e.op = "reset" /\ pser' = [h \in Handles |-> NoP] /\ cser' = [h \in Handles |-> NoC] /\ cij' = [h \in Handles |-> <<>>]
  \/ e.op = "pnew" /\ PNewOK(e.h, Ax(e.ax), Ten(e.b), e.out)
  \/ e.op \in {"pval", "pdx", "pdy", "pdz"} /\ PEvalOK(e.h, SD(e.x), D, e.out, R)
  \/ e.op = "pvalu" /\ PUnitOK(e.h, SD(e.x), e.out, R)
  \/ e.op \in {"pinf", "pdxinf", "pdyinf"} /\ PInfOK(e.h, SD(e.x), D, e.out, R)
  \/ e.op = "pjoint" /\ PJointOK(e.h, SD(e.x), e.out, RS)
  \/ e.op = "pcij" /\ LET a == pser[e.h].ax[3] IN PCijOK(e.h, e.s, RSig(UnitOf(a, RD(e.z)), 220), Kappa(a, RD(e.z)), e.out, RS)
  \/ e.op = "pcijinf" /\ PCijOK(e.h, e.s, R1, R0, e.out, RS)
  \/ e.op \in {"pvalz", "pdxz", "pdyz"} /\ PzOK(e.h, e.s, SD(e.x), D, e.out, R)
  \/ e.op = "pjointz" /\ PzJointOK(e.h, e.s, SD(e.x), e.out, RS)
  \/ e.op = "pparam" /\ e.out = "ok" /\ PParamOK(e.h, Ten(e.b), SD(e.lo), SD(e.hi), e.n, e.type, e.out)
  \/ e.op = "cnew" /\ CNewOK(e.h, Ax(e.ax), e.n, Ten(e.c), e.out)
  \/ e.op = "ccomp" /\ CCompOK(e.h, e.out)
  \/ e.op \in {"cval", "cdx", "cdy", "cdz"} /\ CEvalOK(e.h, SD(e.x), D, e.out, R)
  \/ e.op = "cb" /\ CBOK(e.h, e.out, RS)
  \/ e.op = "pfrom" /\ PFromOK(e.h, e.from, e.out, IF Has(e, "b") THEN e.b ELSE <<>>)
TraceInit == SInit /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
=============================================================================
