----------------------------- MODULE Trace_Quad -----------------------------
EXTENDS Quad, TraceBase
VARIABLE l
e == Trace[l]
Terms(ts) == [i \in 1..Len(ts) |-> [a |-> QD(ts[i].a), b |-> RD(ts[i].b), m |-> ts[i].m, c |-> QD(ts[i].c)]]
Step ==
  \/ e.op = "reset" /\ integ' = [h \in Handles |-> NoInt]
  \/ e.op = "inewv" /\ NewVecOK(e.h, e.prec, RD(e.a), RD(e.b), QD(e.y), e.out)
  \/ e.op = "inewf" /\ NewFunOK(e.h, e.prec, RD(e.a), RD(e.b), e.n, QD(e.c), e.out)
  \/ e.op = "icopy" /\ CopyOK(e.h, e.from, e.out)
  \/ e.op = "isetmin" /\ SetMinOK(e.h, RD(e.v), e.out)
  \/ e.op = "isetmax" /\ SetMaxOK(e.h, RD(e.v), e.out)
  \/ e.op = "isetm" /\ SetMethodOK(e.h, e.m, e.out)
  \/ e.op = "iget" /\ GetOK(e.h, e.out, IF Has(e, "r") THEN e.r ELSE "nan")
  \/ e.op = "iparam" /\ e.out = "ok" /\ ParamOK(e.h, e.a, e.b, e.m, e.out)
  \/ e.op = "trapzu" /\ e.out = "ok" /\ TrapzUOK(e.prec, QD(e.y), RD(e.dx), e.out, e.r)
  \/ e.op = "trapzd" /\ e.out = "ok" /\ TrapzUOK(e.prec, QD(e.y), R1, e.out, e.r)
  \/ e.op = "trapzx" /\ e.out = "ok" /\ TrapzXOK(e.prec, QD(e.x), QD(e.y), e.out, e.r)
  \/ e.op = "tri" /\ TriOK(e.order, QD2(e.v), Terms(e.t), e.out, Fld(e, "r"))
  \/ e.op = "qtab" /\ e.out = "ok" /\ TablesOK(e.al, e.be, e.we, e.out, e.s, e.ra, e.rb, e.rw)
  \/ e.op \in {"horner", "hornerd"} /\ HornerOK(QD(e.c), QD(e.x), e.op = "hornerd", e.out, Fld(e, "r"))
TraceInit == QInit /\ l = 1
TraceNext == l <= Len(Trace) /\ Step /\ l' = l + 1
=============================================================================
