---------------------------- MODULE Trace_Special ----------------------------
EXTENDS Special, TraceBase
VARIABLE l
e == Trace[l]
r == IF Has(e, "r") THEN e.r ELSE ""
z == IF Has(e, "r") THEN e.r ELSE <<"", "">>
Step ==
  \/ e.op = "reset" /\ rec' = [h \in Regs |-> NoRec]
  \/ e.op = "bes" /\ BesOK(e.prec, e.f, e.d, e.o, RD(e.x), e.out, r)
  \/ e.op = "hank" /\ HankOK(e.prec, e.d, e.o, RD(e.x), e.out, z)
  \/ e.op = "eint" /\ ExpIntOK(e.prec, e.f, RD(e.x), e.out, r)
  \/ e.op = "struve" /\ StruveOK(e.prec, e.f, RD(e.x), e.out, r)
  \/ e.op = "gam" /\ GammaOK(e.prec, RD(e.x), e.out, r)
  \/ e.op = "fact" /\ FactOK(e.prec, e.n, e.out, r)
  \/ e.op = "leg" /\ LegOK(e.prec, e.d, e.n, RD(e.x), e.out, r)
  \/ e.op = "cheb" /\ ChebOK(e.prec, e.f, e.n, RD(e.x), e.out, r)
  \/ e.op = "recnew" /\ RecNewOK(e.h, RD(e.x), e.out)
  \/ e.op = "recnext" /\ e.out = "ok" /\ RecNextOK(e.prec, e.h, e.out, r)
TraceInit == SpInit /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
=============================================================================
