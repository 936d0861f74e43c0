----------------------------- MODULE MC_Special -----------------------------
(* The defining series satisfy the identities that tie the functions         *)
(* together (Wronskians, recurrences, derivatives, functional equations) at   *)
(* every order and argument of a finite set; the three-term recurrence runs   *)
(* from every argument.  Every point and every run is replayed.               *)
EXTENDS Special, IOUtils, Json, CSV
CONSTANTS Nums, Den8, MaxO, MaxN
VARIABLES hist, pt
X(n) == RFrac(n, Den8)
Init == SpInit /\ hist = <<>> /\ pt = [f |-> "none"]
Ask(f, o, n) == hist = <<>> /\ pt' = [f |-> f, o |-> o, n |-> n] /\ UNCHANGED rec /\ hist' = <<[op |-> "ask", f |-> f, o |-> o, x |-> X(n)]>>
Start(n) == hist = <<>> /\ LET x == RMul(X(n), RFrac(1, 8)) IN RecNewOK(1, x, "ok") /\ hist' = <<[op |-> "recnew", h |-> 1, x |-> x]>> /\ UNCHANGED pt
Advance == hist # <<>> /\ hist[1].op = "recnew" /\ Len(hist) <= MaxN /\ UNCHANGED pt
           /\ LET q == rec[1] IN rec' = [rec EXCEPT ![1] = [@ EXCEPT !.n = @ + 1, !.t = RSub(RMul(RMul(R2, q.x), q.t), q.s), !.s = q.t]]
           /\ hist' = Append(hist, [op |-> "recnext", h |-> 1])
Next == \/ \E n \in Nums : (\E o \in 0..MaxO : Ask("bes", o, n)) \/ Ask("eint", 0, n) \/ Ask("struve", 0, n) \/ Ask("gam", 0, n) \/ (\E o \in 0..MaxO : Ask("poly", o, n)) \/ Start(n)
        \/ Advance
Export == IF hist'[1].op = "ask" \/ Len(hist') = MaxN + 1 THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EXPORT) ELSE TRUE
Eps == RPow(R2, -75)
Same(a, b) == RNear(a, b, RMul(Eps, RAdd(RAbs(a), RAbs(b))))
SameTo(a, b, size) == RNear(a, b, RMul(Eps, size))
At(f) == pt.f = f
x == X(pt.n)
(* J_{v+1} Y_v - J_v Y_{v+1} = 2 / (pi x);  I_v K_{v+1} + I_{v+1} K_v = 1 / x *)
Wronski == At("bes") => LET o == pt.o IN
  LET a == RMul(JJ(o + 2, x), YY(o, x))  b == RMul(JJ(o, x), YY(o + 2, x)) IN
  /\ SameTo(RSub(a, b), RDiv(R2, RMul(RPi, x)), RAdd(RAbs(a), RAbs(b)))
  /\ Same(RAdd(RMul(II(o, x), KK(o + 2, x)), RMul(II(o + 2, x), KK(o, x))), RDiv(R1, x))
(* f_{v-1} + f_{v+1} = (2 v / x) f_v and the modified form *)
Recurrence == At("bes") => LET o == pt.o  k == RDiv(RInt(o), x) IN
  /\ \A f \in {"J", "Y"} : LET a == Bes(f, o - 2, x)  b == Bes(f, o + 2, x) IN SameTo(RAdd(a, b), RMul(k, Bes(f, o, x)), RAdd(RAbs(a), RAbs(b)))
  /\ LET a == II(o - 2, x)  b == II(o + 2, x) IN SameTo(RSub(a, b), RMul(k, II(o, x)), RAdd(a, b))
  /\ LET a == KK(o - 2, x)  b == KK(o + 2, x) IN SameTo(RSub(b, a), RMul(k, KK(o, x)), RAdd(a, b))
H == RPow(R2, -40)
Diff(a, b) == RDiv(RSub(a, b), RMul(R2, H))
Rough(a, b, size) == RNear(a, b, RMul(RPow(R2, -56), size))
Derivative == At("bes") => \A f \in {"J", "Y", "I", "K"} :
  LET v == Bes(f, pt.o, RAdd(x, H))  w == Bes(f, pt.o, RSub(x, H)) IN Rough(Diff(v, w), BesD(f, pt.o, x), RMul(RInt(64), RAdd(RAbs(v), RAdd(RAbs(BesD(f, pt.o, x)), RAbs(Bes(f, pt.o + 2, x))))))
(* Ei' = e^x / x, E1' = -e^-x / x, and the two expansions of e^-x Ei(x) meet *)
ExpInt == At("eint") =>
  /\ ~Far(x) => Rough(Diff(EiV(RAdd(x, H)), EiV(RSub(x, H))), RDiv(RExp(x), x), RMul(RInt(64), RDiv(RExp(x), x)))
  /\ ~Far(x) => Rough(Diff(E1V(RAdd(x, H)), E1V(RSub(x, H))), RNeg(RDiv(RExp(RNeg(x)), x)), RMul(RInt(64), RDiv(RExp(RNeg(x)), x)))
  /\ Same(EiV(x), RMul(RExp(x), EiE(x)))
Meet == LET y == RInt(46)  a == RDiv(EAsy(R1, R1, y, 1), y)  b == EiE(y) IN
  RNear(a, b, RMul(RPow(R2, -60), b)) /\ RNear(KAsy(4, RInt(36)), KK(4, RInt(36)), RMul(RPow(R2, -60), KK(4, RInt(36))))
StruveI == At("struve") => Rough(Diff(Struve(0, RAdd(x, H)), Struve(0, RSub(x, H))), StruveD(x), RInt(64))
GammaI == At("gam") => Same(GamV(RAdd(x, R1)), RMul(x, GamV(x))) /\ Same(RMul(GamV(x), GamV(RAdd(x, RHalf))), RMul(RMul(RExp(RMul(RSub(R1, RMul(R2, x)), RLn2)), SqrtPi), GamV(RMul(R2, x))))
GammaF == \A n \in {1, 5, 12} : Same(GamV(RInt(n)), FactR(n - 1))
(* the differential equations fix the derivative; T_n(1) = P_n(1) = 1 *)
Poly == At("poly") => LET n == pt.o  y == RMul(x, RFrac(1, 8))  c == Cheb(n, y)  s == Leg(n, y) IN
  /\ Cheb(n, R1)[1] = R1 /\ Leg(n, R1)[1] = R1
  /\ RMul(RSub(R1, RSq(y)), c[3]) = RMul(RInt(n), RSub(IF n = 0 THEN R1 ELSE c[2], RMul(y, c[1]))) \/ n = 0
  /\ RMul(RSub(R1, RSq(y)), s[3]) = RMul(RInt(n), RSub(s[2], RMul(y, s[1])))
Runs == rec[1].n > 1 => rec[1].t = Cheb(rec[1].n, rec[1].x)[1] /\ rec[1].s = Cheb(rec[1].n - 1, rec[1].x)[1]
ASSUME Meet /\ GammaF
=============================================================================
