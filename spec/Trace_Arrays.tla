---------------------------- MODULE Trace_Arrays ----------------------------
EXTENDS Arrays, TraceBase
VARIABLE l
e == Trace[l]
all == IF Has(e, "all") THEN e.all ELSE [h \in Regs |-> <<>>]
Step ==
  \/ e.op = "reset" /\ vec' = [h \in Regs |-> <<>>]
  \/ e.op = "vset" /\ VSetOK(e.h, ValsA(e.v), e.out, all)
  \/ e.op = "vnew" /\ VSetOK(e.h, Const(e.n, R0), e.out, all)
  \/ e.op = "vput" /\ VPutOK(e.h, e.i, RD(e.x), e.out, all)
  \/ e.op = "vnull" /\ VFillOK(e.h, R0, e.out, all)
  \/ e.op = "vones" /\ VFillOK(e.h, R1, e.out, all)
  \/ e.op = "vsort" /\ VSortOK(e.h, e.up, e.out, all)
  \/ e.op = "vrev" /\ VRevOK(e.h, e.out, all)
  \/ e.op = "vrand" /\ e.out = "ok" /\ VRandOK(e.h, e.out, all)
  \/ e.op = "vcopy" /\ VCopyOK(e.h, e.g, e.out, all)
  \/ e.op = "vexpr" /\ VExprOK(e.prec, e.h, e.g, e.form, RD(e.c), e.out, all)
  \/ e.op = "vat" /\ e.out = "ok" /\ VAtOK(e.h, e.out, all, e.r)
  \/ e.op = "veq" /\ VEqOK(e.h, e.g, RD(e.eps), e.out, all, Has(e, "r") /\ e.r)
  \/ e.op = "vinf" /\ e.out = "ok" /\ VInfOK(e.h, e.out, all, e.r)
  \/ e.op = "vsq" /\ e.out = "ok" /\ VOuterOK(e.prec, e.h, e.h, e.out, all, e.A)
  \/ e.op = "vouter" /\ e.out = "ok" /\ VOuterOK(e.prec, e.h, e.g, e.out, all, e.A)
  \/ e.op = "vdiag" /\ e.out = "ok" /\ VDiagOK(e.prec, e.h, e.out, all, e.A)
  \/ e.op = "vtr" /\ e.out = "ok" /\ VTrOK(e.prec, e.h, e.out, all, e.A)
  \/ e.op = "vinner" /\ e.out = "ok" /\ VInnerOK(e.prec, e.h, e.g, e.out, all, e.r)
  \/ e.op = "vnorm" /\ e.out = "ok" /\ VNormOK(e.prec, e.h, e.out, all)
  \/ e.op = "vunit" /\ e.out = "ok" /\ VUnitOK(e.prec, e.h, e.out, all, e.r)
  \/ e.op = "vproj" /\ e.out = "ok" /\ VProjOK(e.prec, e.h, e.axis, e.deg, e.out, all, e.r)
TraceInit == AInit0 /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
=============================================================================
