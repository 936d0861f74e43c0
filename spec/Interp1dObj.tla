---------------------------- MODULE Interp1dObj ----------------------------
(* The life of 1-D interpolator objects: made with a method by the factory,  *)
(* (re)initialised with samples any number of times, evaluated in any order. *)
EXTENDS Interp1d, FiniteSets
CONSTANTS Handles
VARIABLES obj      \* handle -> [m, prec, xs, ys]; xs = <<>> before Initialize

NoObj == [m |-> "none", prec |-> "d", xs |-> <<>>, ys |-> <<>>]
ObjInit == obj = [h \in Handles |-> NoObj]

MakeOK(h, m, prec, out) ==
  IF m \in Methods
  THEN out = "ok" /\ obj' = [obj EXCEPT ![h] = [m |-> m, prec |-> prec, xs |-> <<>>, ys |-> <<>>]]
  ELSE out = "exit1" /\ UNCHANGED obj          \* unsupported method: the program terminates with a failure

InitObjOK(h, xs, ys, out) ==
  /\ obj[h].m \in Methods
  /\ IF WellFormed(xs, ys)
     THEN out = "ok" /\ obj' = [obj EXCEPT ![h].xs = xs, ![h].ys = ys]   \* replaces everything given before
     ELSE /\ out \in {"abort", "throw"} \/ (out = "ok" /\ ~Misfit(xs, ys))
          /\ obj' = [obj EXCEPT ![h].xs = <<>>, ![h].ys = <<>>]

Ready(h) == obj[h].xs # <<>>
EvalObjOK(h, x, out, r)  == Ready(h) /\ EvalOK(obj[h].prec, obj[h].m, obj[h].xs, obj[h].ys, x, out, r) /\ UNCHANGED obj
EvalVObjOK(h, x, out, r) == Ready(h) /\ EvalVecOK(obj[h].prec, obj[h].m, obj[h].xs, obj[h].ys, x, out, r) /\ UNCHANGED obj
RangeObjOK(h, lo, hi, out) == Ready(h) /\ out = "ok" /\ RD(lo) = obj[h].xs[1] /\ RD(hi) = obj[h].xs[Len(obj[h].xs)] /\ UNCHANGED obj
=============================================================================
