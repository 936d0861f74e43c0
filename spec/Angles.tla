------------------------------- MODULE Angles -------------------------------
(* Normalisation of angles.  A register holds an angle; normalising replaces *)
(* it by the congruent angle in a half-open interval of one period.          *)
EXTENDS RatFun
CONSTANT Regs
VARIABLE ang      \* ang[h] = [x, first, k, prec]: present value, value set, normalisations since
Kinds == {"mod2pi", "mod360", "0_360", "180", "0_2PI", "PI"}
Deg(kind) == kind \in {"mod360", "0_360", "180"}
Signed(kind) == kind \in {"180", "PI"}
TwoPiF == RD("0x1.921fb6p+2")       \* 2 pi in single precision
Period(kind) == IF Deg(kind) THEN RInt(360) ELSE RMul(R2, PiD)
UnitA(prec) == IF prec = "f" THEN EpsF ELSE IF prec = "d" THEN EpsD ELSE R0
(* single precision: the library's 2 pi rounds up, and either end of a signed interval may be reached by rounding *)
InRange(kind, prec, r) ==
  LET P == IF ~Deg(kind) /\ prec = "f" THEN TwoPiF ELSE Period(kind)  H == RMul(RHalf, P) IN
  IF Signed(kind) THEN RLe(r, H) /\ (IF prec = "f" /\ ~Deg(kind) THEN RLe(RNeg(H), r) ELSE RLt(RNeg(H), r))
  ELSE RLe(R0, r) /\ RLt(r, P)
Congruent(kind, prec, a, r, k) ==
  LET P == Period(kind)  d == RDiv(RSub(a, r), P)
  IN RLe(RMul(P, RAbs(RSub(d, RNint(d)))), RMul(RMul(RInt(4 * k), UnitA(prec)), RAdd(RAbs(a), P)))
NoAng == [x |-> R0, first |-> R0, k |-> 0, prec |-> "none"]
AInit == ang = [h \in Regs |-> NoAng]
ASetOK(h, prec, x) == ang' = [ang EXCEPT ![h] = [x |-> x, first |-> x, k |-> 1, prec |-> prec]]
(* congruent to the value before and, in degrees or radians alike, to the one first set *)
ANormOK(h, kind, out, r) ==
  LET o == ang[h] IN
  /\ out = "ok" /\ o.prec # "none" /\ (o.prec = "i" => Deg(kind))
  /\ InRange(kind, o.prec, r) /\ Congruent(kind, o.prec, o.x, r, 1)
  /\ InRange(kind, o.prec, o.x) /\ kind \in {"mod2pi", "mod360", "0_360", "0_2PI"} => r = o.x     \* already normal: unchanged
  /\ ang' = [ang EXCEPT ![h].x = r, ![h].k = o.k + 1]
TrigoOK(prec, a, unit, out, c, s) ==
  LET x == IF unit = "DEG" THEN RDiv(RMul(a, RPi), RInt(180)) ELSE a
      tol == RMul(RMul(RInt(4), UnitA(prec)), RAdd(R1, RAbs(x)))
  IN out = "ok" /\ UNCHANGED ang /\ RNear(RD(c), RCos(x), tol) /\ RNear(RD(s), RSin(x), tol)
ParseOK(t, out, r) == UNCHANGED ang /\ IF t \in {"DEG", "RAD"} THEN out = "ok" /\ r = t ELSE out \in {"exit1", "abort", "throw"}
=============================================================================
