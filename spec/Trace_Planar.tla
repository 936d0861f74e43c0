---------------------------- MODULE Trace_Planar ----------------------------
EXTENDS Planar, TraceBase
VARIABLE l
e == Trace[l]
Step ==
  \/ e.op = "reset" /\ vec' = [h \in Regs |-> <<R0, R0>>] /\ UNCHANGED reg
  \/ /\ e.op \notin {"reset"} /\ e.out = "ok"
     /\ \/ e.op = "vset" /\ SetVOK(e.h, e.x, e.y, e.out, e.all)
        \/ e.op = "vexpr" /\ ExprVOK(e.prec, e.h, e.g, e.form, RD(e.c), e.out, e.all)
        \/ e.op = "vnull" /\ NullOK(e.h, e.out, e.all)
        \/ e.op = "vlocal" /\ FromLocalOK(e.prec, e.h, RD(e.x), RD(e.y), RD(e.a), e.u, e.out, e.all)
        \/ e.op = "vproj" /\ ProjOK(e.prec, e.h, e.kind, e.how, e.g, RD(e.a), e.u, e.out, e.all)
        \/ e.op = "vaxis" /\ AxisOK(e.prec, e.h, e.axis, RD(e.a), e.u, e.out, e.r)
        \/ e.op = "vned" /\ NEDVelOK(e.prec, RD(e.x), RD(e.y), RD(e.a), e.u, e.vi, e.vo, e.out, e.r)
        \/ e.op = "vtrans" /\ TransOK(e.prec, e.h, e.how, e.g, IF e.p = 0 THEN <<RD(e.px), RD(e.py)>> ELSE vec[e.p], RD(e.w), e.fu, e.out, e.all)
        \/ e.op = "vinf" /\ InfOK(e.h, e.out, e.r)
        \/ e.op = "veq" /\ EqualOK(e.h, e.g, RD(e.eps), e.out, e.r)
TraceInit == PInit /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
=============================================================================
