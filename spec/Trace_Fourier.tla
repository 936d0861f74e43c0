---------------------------- MODULE Trace_Fourier ----------------------------
EXTENDS Fourier, TraceBase
VARIABLE l
e == Trace[l]
Vs(t) == Eager([i \in 1..Len(t) |-> RD(t[i])])
Zs(t) == Eager([i \in 1..Len(t) |-> <<RD(t[i][1]), RD(t[i][2])>>])
FinS(t) == \A i \in 1..Len(t) : RFin(t[i])
FinZ(t) == \A i \in 1..Len(t) : RFin(t[i][1]) /\ RFin(t[i][2])
Step ==
  \/ e.op = "reset" /\ fft' = [h \in Regs |-> F0] /\ UNCHANGED reg
  \/ /\ e.op # "reset" /\ e.out = "ok"
     /\ \/ e.op = "fnew" /\ FNewOK(e.h, e.out)
        \/ e.op = "fhalf" /\ FHalfOK(e.h, e.on, e.out)
        \/ e.op = "fscale" /\ FScaleOK(e.h, e.on, e.out)
        \/ e.op = "ffwd" /\ FinZ(e.F) /\ ForwardOK(e.prec, e.h, Vs(e.v), e.out, Zs(e.F))
        \/ e.op = "ffwdf" /\ FinZ(e.F) /\ ForwardOK(e.prec, e.h, Vs(e.v), e.out, Zs(e.F)) /\ FreqsOK(e.prec, e.h, Len(e.v), RD(e.fs), e.u, e.out, e.r)
        \/ e.op = "finv" /\ FinS(e.v) /\ InverseOK(e.prec, e.h, Zs(e.F), e.out, Vs(e.v))
        \/ e.op = "ffreq" /\ FreqsOK(e.prec, e.h, e.n, RD(e.fs), e.u, e.out, e.r)
        \/ e.op = "pow2" /\ Pow2OK(e.p, e.out, e.r)
TraceInit == FInit /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
=============================================================================
