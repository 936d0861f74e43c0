---------------------------- MODULE Trace_Vectors ----------------------------
EXTENDS Vectors, TraceBase
VARIABLE l
e == Trace[l]
All == IF "all" \in DOMAIN e THEN e.all ELSE <<>>
R == IF "r" \in DOMAIN e THEN e.r ELSE "none"
RS == IF "r" \in DOMAIN e THEN e.r ELSE <<>>
Step ==
  \/ e.op = "reset" /\ sv' = [h \in Regs |-> <<>>]
  \/ e.op = "sset" /\ SSetOK(e.h, e.v, e.out, All)
  \/ e.op = "sbin" /\ BinOK(e.prec, e.f, e.h, e.g, e.o, e.out, All)
  \/ e.op = "sadds" /\ AddScalarOK(e.prec, e.h, RD(e.c), e.o, e.out, All)
  \/ e.op = "ssum" /\ SumOK(e.prec, e.h, e.out, R)
  \/ e.op = "sinp" /\ InPlaceOK(e.prec, e.f, e.h, RD(e.c), e.out, All)
  \/ e.op = "lin" /\ LinspaceOK(e.prec, RD(e.a), RD(e.b), e.n, e.out, RS)
  \/ e.op = "log" /\ LogspaceOK(e.prec, RD(e.a), RD(e.b), e.n, RD(e.base), e.out, RS)
  \/ e.op = "arange" /\ ArangeOK(e.prec, RD(e.a), RD(e.b), RD(e.s), e.out, RS)
  \/ e.op = "sinc" /\ SincOK(e.prec, e.h, e.o, e.out, All)
  \/ e.op = "sincr" /\ SincRangeOK(e.prec, RD(e.a), RD(e.b), e.n, e.out, RS)
  \/ e.op = "heaviside" /\ HeavisideOK(e.prec, e.h, RD(e.s), e.o, e.out, All)
  \/ e.op = "door" /\ DoorOK(e.prec, e.h, RD(e.a), RD(e.b), RD(e.height), e.o, e.out, All)
  \/ e.op = "dirac" /\ DiracOK(e.prec, e.h, RD(e.s), RD(e.height), e.o, e.out, All)
  \/ e.op = "ramp" /\ RampOK(e.prec, e.h, RD(e.a), RD(e.b), RD(e.yl), RD(e.yr), e.o, e.out, All)
  \/ e.op = "cplx" /\ CplxOK(e.prec, e.f, e.z, e.out, RS)
  \/ e.op = "sgn" /\ SgnOK(RDec(e.x), e.out, R)
  \/ e.op = "sat" /\ SaturateOK(RDec(e.x), RDec(e.a), RDec(e.b), e.out, IF e.out = "ok" THEN RDec(e.r) ELSE R0)
  \/ e.op = "sgnd" /\ SgnOK(RD(e.x), e.out, R)
  \/ e.op = "satd" /\ SaturateOK(RD(e.x), RD(e.a), RD(e.b), e.out, IF e.out = "ok" THEN RD(e.r) ELSE R0)
  \/ e.op = "sgnsqrt" /\ SgnSqrtOK(e.prec, RD(e.x), e.out, R)
  \/ e.op = "close" /\ e.out = "ok" /\ IsCloseOK(e.prec, RD(e.a), RD(e.b), RD(e.rtol), RD(e.atol), e.out, e.r)
  \/ e.op = "closev" /\ IsCloseVOK(e.prec, Vals(e.a), Vals(e.b), RD(e.rtol), RD(e.atol), e.out, IF e.out = "ok" THEN e.r ELSE FALSE)
  \/ e.op = "aclose" /\ AssertCloseOK(e.prec, RD(e.a), RD(e.b), RD(e.rtol), RD(e.atol), e.out)
  \/ e.op = "aclosev" /\ AssertCloseVOK(e.prec, Vals(e.a), Vals(e.b), RD(e.rtol), RD(e.atol), e.out)
  \/ e.op = "parity" /\ e.out = "ok" /\ ParityOK(e.n, e.out, e.odd, e.even)
TraceInit == SVInit /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
=============================================================================
