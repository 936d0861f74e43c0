----------------------------- MODULE Trace_Units -----------------------------
EXTENDS Units, TraceBase
VARIABLE l
e == Trace[l]
Step ==
  \/ e.op = "reset" /\ reg' = [h \in Regs |-> NoReg]
  \/ e.op = "uset" /\ SetOK(e.h, e.prec, e.dim, e.u, RD(e.x))
  \/ e.op = "uconv" /\ e.out = "ok" /\ ConvertOK(e.h, e.to, e.out, e.r)
  \/ e.op = "cvel" /\ e.out = "ok" /\ ConvVelOK(e.prec, RD(e.x), e.a, e.b, e.out, e.r)
  \/ e.op = "cfreq" /\ e.out = "ok" /\ ConvFreqOK(e.prec, RD(e.x), e.a, e.b, e.out, e.r)
  \/ e.op = "named" /\ e.out = "ok" /\ NamedOK(e.f, e.prec, RD(e.x), e.out, e.r)
  \/ e.op = "uvec" /\ e.out = "ok" /\ VecOK(e.f, e.prec, e.v, e.copy, Fld(e, "src"), e.out, e.r)
  \/ e.op = "const" /\ e.out = "ok" /\ ConstOK(e.c, e.r)
TraceInit == UInit /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
=============================================================================
