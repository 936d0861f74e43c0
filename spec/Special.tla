------------------------------- MODULE Special -------------------------------
(* Special functions by their defining series over exact rationals: Bessel    *)
(* functions of integer and half-integer order, Hankel functions, exponential *)
(* integrals, Struve functions, gamma function, Legendre and Chebyshev        *)
(* polynomials.  Orders of Bessel functions are given doubled (o = 2 nu).     *)
EXTENDS RatFun
CONSTANT Regs
VARIABLE rec      \* rec[h]: three-term recurrence in progress [x, n, t, s]: t = T_n(x), s = T_{n-1}(x)
NoRec == [x |-> R0, n |-> 0, t |-> R1, s |-> R0]
SpInit == rec = [h \in Regs |-> NoRec]
Odd(o) == o % 2 = 1
Sign(k) == IF k % 2 = 0 THEN R1 ELSE RInt(-1)
Bits(x) == 240 + 4 * RToInt(RAbs(x))
SqrtPi == RSqrtS(RPi)
RECURSIVE FactR(_)
FactR(n) == IF n <= 1 THEN R1 ELSE RMul(RInt(n), FactR(n - 1))

(* ---- Bessel functions ------------------------------------------------------- *)
(* Gamma(o/2 + 1) *)
RECURSIVE GamHalf(_)
GamHalf(o) == IF o = 0 THEN R1 ELSE IF o = -1 THEN SqrtPi ELSE IF o > 0 THEN RMul(RFrac(o, 2), GamHalf(o - 2)) ELSE RDiv(GamHalf(o + 2), RFrac(o + 2, 2))
HalfPow(x, o) == LET z == RMul(RHalf, x) IN IF Odd(o) THEN RMul(RPow(z, (o - 1) \div 2), RSqrtS(z)) ELSE RPow(z, o \div 2)
(* <<sum of t_k, sum of t_k (H_k + H_{n+k})>> with t_0 = 1, t_k = t_{k-1} s u / (k (nu + k)) *)
RECURSIVE BSer(_, _, _, _, _, _, _, _)
BSer(acc, ach, t, h, su, k, o, bits) ==
  IF RLe(RAbs(t), RPow(R2, -230)) THEN <<acc, ach>>
  ELSE LET v == RSig(RDiv(RMul(t, su), RFrac(k * (o + 2 * k), 2)), bits)
           g == RSig(RAdd(h, RAdd(RFrac(1, k), RFrac(2, o + 2 * k))), bits)
       IN BSer(RAdd(acc, v), RSig(RAdd(ach, RMul(v, g)), bits), v, g, su, k + 1, o, bits)
RECURSIVE Harm(_)
Harm(n) == IF n = 0 THEN R0 ELSE RAdd(RFrac(1, n), Harm(n - 1))
Series(x, o, s) == LET h == IF Odd(o) \/ o < 0 THEN R0 ELSE Harm(o \div 2) IN BSer(R1, h, R1, h, RMul(s, RSq(RMul(RHalf, x))), 1, o, Bits(x))
Lead(x, o) == RDiv(HalfPow(x, o), GamHalf(o))
RECURSIVE JJ(_, _), II(_, _)
JJ(o, x) == IF o < 0 /\ ~Odd(o) THEN RMul(Sign((-o) \div 2), JJ(-o, x)) ELSE IF x = R0 THEN (IF o = 0 THEN R1 ELSE R0) ELSE RSig(RMul(Lead(x, o), Series(x, o, RInt(-1))[1]), 400)
II(o, x) == IF o < 0 /\ ~Odd(o) THEN II(-o, x) ELSE IF x = R0 THEN (IF o = 0 THEN R1 ELSE R0) ELSE RSig(RMul(Lead(x, o), Series(x, o, R1)[1]), 400)
(* sum over k < n of s^k (n-k-1)!/k! (x/2)^(2k-n) *)
Polar(x, n, s) == RSum(Eager([i \in 1..n |-> LET k == i - 1 IN RMul(RMul(RPow(s, k), RDiv(FactR(n - 1 - k), FactR(k))), RPow(RMul(RHalf, x), 2 * k - n))]))
LnG(x) == RAdd(RLn(RMul(RHalf, x)), RGamma)
RECURSIVE YY(_, _), KK(_, _)
YY(o, x) ==
  IF Odd(o) THEN RMul(Sign(((o - 1) \div 2) + 1), JJ(-o, x))
  ELSE IF o < 0 THEN RMul(Sign((-o) \div 2), YY(-o, x))
  ELSE LET n == o \div 2  ss == Series(x, o, RInt(-1))  q == Lead(x, o) IN
       RDiv(RSub(RSub(RMul(R2, RMul(LnG(x), RMul(q, ss[1]))), Polar(x, n, R1)), RMul(q, ss[2])), RPi)
RECURSIVE Asy(_, _, _, _, _)
Asy(acc, t, o, x, k) == LET v == RSig(RDiv(RMul(t, RInt((o * o) - (2 * k - 1) * (2 * k - 1))), RMul(RInt(8 * k), x)), 200) IN
  IF RLe(RAbs(v), RPow(R2, -120)) \/ (k > o /\ RLe(RAbs(t), RAbs(v))) THEN acc ELSE Asy(RAdd(acc, v), v, o, x, k + 1)
KAsy(o, x) == RMul(RMul(RSqrtS(RDiv(RPi, RMul(R2, x))), RExp(RNeg(x))), Asy(R1, R1, o, x, 1))
KK(o, x) ==
  IF o < 0 THEN KK(-o, x) ELSE IF Odd(o) \/ RLt(RInt(36), x) THEN KAsy(o, x)
  ELSE LET n == o \div 2  ss == Series(x, o, R1)  q == Lead(x, o) IN
       RAdd(RMul(RHalf, Polar(x, n, RInt(-1))), RMul(Sign(n), RSub(RMul(RHalf, RMul(q, ss[2])), RMul(LnG(x), RMul(q, ss[1])))))
Bes(f, o, x) == CASE f = "J" -> JJ(o, x) [] f = "Y" -> YY(o, x) [] f = "I" -> II(o, x) [] f = "K" -> KK(o, x)
BesD(f, o, x) == LET a == Bes(f, o - 2, x)  b == Bes(f, o + 2, x) IN
  RMul(RHalf, CASE f = "J" -> RSub(a, b) [] f = "Y" -> RSub(a, b) [] f = "I" -> RAdd(a, b) [] f = "K" -> RNeg(RAdd(a, b)))
UnitP(prec) == IF prec = "f" THEN EpsF ELSE EpsD
Floor0(prec) == RPow(R2, IF prec = "f" THEN -120 ELSE -1000)
(* the size of the neighbouring orders bounds what rounding can do, near a zero too *)
BesTol(prec, f, o, x) == RAdd(Floor0(prec), RMul(RMul(RInt(IF prec = "f" THEN 32 ELSE 512), UnitP(prec)),
   IF x = R0 THEN R1 ELSE RAdd(RAbs(Bes(f, o, x)), RAdd(RAbs(Bes(f, o - 2, x)), RAbs(Bes(f, o + 2, x))))))
ValTol(prec, f, o, x, v) == IF f \in {"I", "K"} THEN RAdd(Floor0(prec), RMul(RMul(RInt(IF prec = "f" THEN 16 ELSE 256), UnitP(prec)), RAbs(v))) ELSE BesTol(prec, f, o, x)
BesIs(prec, f, d, o, x, r) == RFin(r) /\ IF d THEN RNear(RD(r), BesD(f, o, x), BesTol(prec, f, o, x)) ELSE LET v == Bes(f, o, x) IN RNear(RD(r), v, ValTol(prec, f, o, x, v))
InDomain(f, o, x) == RLt(R0, x) \/ (f \in {"J", "I"} /\ ~Odd(o))
(* outside the domain: never a value *)
BesOK(prec, f, d, o, x, out, r) == UNCHANGED rec /\ IF InDomain(f, o, x) THEN out = "ok" /\ BesIs(prec, f, d, o, x, r) ELSE out # "ok" /\ out # "sanitizer"
(* J + i Y *)
HankOK(prec, d, o, x, out, z) == UNCHANGED rec /\ IF RLt(R0, x) THEN out = "ok" /\ BesIs(prec, "J", d, o, x, z[1]) /\ BesIs(prec, "Y", d, o, x, z[2]) ELSE out # "sanitizer"

(* ---- exponential integrals ----------------------------------------------------- *)
(* sum of x^k / (k k!), k >= 1 *)
RECURSIVE ESer(_, _, _, _, _)
ESer(acc, t, x, k, bits) == LET v == RSig(RDiv(RMul(t, x), RInt(k)), bits) IN
  IF RLe(RAbs(v), RPow(R2, -230)) THEN acc ELSE ESer(RAdd(acc, RSig(RDiv(v, RInt(k)), bits)), v, x, k + 1, bits)
(* sum of s^k k! / x^k up to the smallest term *)
RECURSIVE EAsy(_, _, _, _)
EAsy(acc, t, sx, k) == LET v == RSig(RDiv(RMul(t, RInt(k)), sx), 260) IN
  IF RLe(RAbs(v), RPow(R2, -140)) \/ RLe(RAbs(t), RAbs(v)) THEN acc ELSE EAsy(RAdd(acc, v), v, sx, k + 1)
Far(x) == RLt(RInt(46), RAbs(x))
ESum(x) == RAdd(RAdd(RGamma, RLn(RAbs(x))), ESer(R0, R1, x, 1, Bits(x)))       \* Ei(x), x # 0
EiE(x) == IF Far(x) THEN RDiv(EAsy(R1, R1, x, 1), x) ELSE RMul(RExp(RNeg(x)), ESum(x))      \* e^-x Ei(x)
EiV(x) == IF Far(x) THEN RMul(RExp(x), EiE(x)) ELSE ESum(x)
E1V(x) == RNeg(EiV(RNeg(x)))
Refused(out) == out # "ok" /\ out # "sanitizer"
NearK(prec, r, v, k, size) == RFin(r) /\ RNear(RD(r), v, RAdd(Floor0(prec), RMul(RMul(RInt(k), UnitP(prec)), size)))
ExpIntOK(prec, f, x, out, r) ==
  /\ UNCHANGED rec
  /\ CASE f = "Ei" -> IF x = R0 THEN Refused(out) ELSE LET v == EiV(x) IN out = "ok" /\ NearK(prec, r, v, 64, RAdd(RAbs(v), IF RLt(RAbs(x), R1) THEN RAbs(RSub(x, RFrac(3, 8))) ELSE R0))
       [] f = "Ei_approximation" ->
            IF RLe(x, R0) THEN Refused(out)
            ELSE IF RLt(x, RDec("1.01e-8")) /\ Refused(out) THEN TRUE      \* arguments that are almost zero may be refused
            ELSE LET v == EiV(x) IN out = "ok" /\ NearK(prec, r, v, 256, RAdd(RAbs(v), IF RLt(x, R1) THEN R1 ELSE R0))
       [] f = "expEi" -> IF x = R0 THEN Refused(out) ELSE LET v == EiE(x) IN out = "ok" /\ NearK(prec, r, v, 64, RAdd(RAbs(v), IF RLt(RAbs(x), R1) THEN R1 ELSE R0))
       [] f = "E1" -> IF RLe(x, R0) THEN Refused(out) ELSE LET v == E1V(x) IN out = "ok" /\ NearK(prec, r, v, 64, v)
       [] f = "E1_approximation" ->
            IF RLe(x, R0) THEN Refused(out)
            ELSE IF RLt(x, RDec("1.01e-8")) /\ Refused(out) THEN TRUE
            ELSE LET v == E1V(x) IN out = "ok" /\ NearK(prec, r, v, 128, v)

(* ---- Struve functions ------------------------------------------------------------ *)
RECURSIVE SSer(_, _, _, _, _, _)
SSer(acc, t, x2, k, o, bits) == LET v == RSig(RNeg(RDiv(RMul(t, x2), RInt(IF o = 0 THEN (2 * k + 1) * (2 * k + 1) ELSE (2 * k + 1) * (2 * k + 3)))), bits) IN
  IF RLe(RAbs(v), RPow(R2, -230)) THEN acc ELSE SSer(RAdd(acc, v), v, x2, k + 1, o, bits)
Struve(o, x) == LET x2 == RSq(x)  t == IF o = 0 THEN x ELSE RDiv(x2, RInt(3)) IN IF x = R0 THEN R0 ELSE RMul(RDiv(R2, RPi), SSer(t, t, x2, 1, o, Bits(x)))
StruveD(x) == RSub(RDiv(R2, RPi), Struve(1, x))
(* the published approximations are good to 2e-8 and 4e-8 *)
StruveOK(prec, f, x, out, r) ==
  /\ UNCHANGED rec
  /\ IF RLt(x, R0) THEN Refused(out)
     ELSE out = "ok" /\ RFin(r) /\ RNear(RD(r), CASE f = "H0" -> Struve(0, x) [] f = "H1" -> Struve(1, x) [] f = "H0d" -> StruveD(x),
                                         RAdd(RDec(IF f = "H0" THEN "2e-8" ELSE "4e-8"), RMul(RInt(64), UnitP(prec))))

(* ---- gamma function, factorial ------------------------------------------------------ *)
Stirling == Eager(<<RFrac(1, 12), RFrac(-1, 360), RFrac(1, 1260), RFrac(-1, 1680), RFrac(1, 1188), RFrac(-691, 360360), RFrac(1, 156), RFrac(-3617, 122400),
              RFrac(43867, 244188), RFrac(-174611, 125400), RFrac(77683, 5796), RFrac(-236364091, 1506960)>>)
GamBig(y) == RMul(RSqrtS(RDiv(RTwoPi, y)), RExp(RAdd(RMul(y, RSub(RLn(y), R1)), RSum(Eager([k \in 1..12 |-> RMul(Stirling[k], RPow(y, 1 - 2 * k))])))))
RECURSIVE Rising(_, _)
Rising(x, n) == IF n = 0 THEN R1 ELSE S(RMul(x, Rising(RAdd(x, R1), n - 1)))
GamV(x) == LET n == 32 - RToInt(x)  m == IF n > 0 THEN n ELSE 0 IN RDiv(GamBig(RAdd(x, RInt(m))), Rising(x, m))
IsInt(x) == RFloor(x) = x
GammaOK(prec, x, out, r) == UNCHANGED rec /\ IF RLe(x, R0) /\ IsInt(x) THEN Refused(out) ELSE IF RLt(RInt(172), x) THEN Refused(out) ELSE LET v == GamV(x) IN out = "ok" /\ NearK(prec, r, v, 128, RAbs(v))
FactOK(prec, n, out, r) == UNCHANGED rec /\ IF n < 0 \/ n > 170 THEN Refused(out) ELSE LET v == FactR(n) IN out = "ok" /\ NearK(prec, r, v, 8, v)

(* ---- orthogonal polynomials ------------------------------------------------------------ *)
(* <<p_n, p_{n-1}, p_n', p_{n-1}'>> *)
RECURSIVE LegR(_, _, _, _)
LegR(s, x, k, n) ==
  IF k >= n THEN s
  ELSE LegR(Eager(<<RDiv(RSub(RMul(RMul(RInt(2 * k + 1), x), s[1]), RMul(RInt(k), s[2])), RInt(k + 1)), s[1], RAdd(s[4], RMul(RInt(2 * k + 1), s[1])), s[3]>>), x, k + 1, n)
Leg(n, x) == IF n = 0 THEN <<R1, R0, R0, R0>> ELSE LegR(<<x, R1, R1, R0>>, x, 1, n)
RECURSIVE ChebR(_, _, _, _)
ChebR(s, x, k, n) ==
  IF k >= n THEN s
  ELSE ChebR(Eager(<<RSub(RMul(RMul(R2, x), s[1]), s[2]), s[1], RSub(RAdd(RMul(R2, s[1]), RMul(RMul(R2, x), s[3])), s[4]), s[3]>>), x, k + 1, n)
Cheb(n, x) == IF n = 0 THEN <<R1, x, R0, R1>> ELSE ChebR(<<x, R1, R1, R0>>, x, 1, n)
LegOK(prec, d, n, x, out, r) ==
  /\ UNCHANGED rec
  /\ IF RLt(R1, RAbs(x)) THEN Refused(out)
     ELSE LET s == Leg(n, x) IN out = "ok" /\ NearK(prec, r, IF d THEN s[3] ELSE s[1], 8 * (n + 4), IF d THEN RInt(1 + n * n) ELSE R1)
ChebTol(n, x, s) == RAdd(RAbs(s[1]), RAdd(R1, RAbs(RMul(x, s[3]))))
ChebOK(prec, f, n, x, out, r) ==
  /\ UNCHANGED rec /\ out = "ok"
  /\ CASE f = "T" -> LET s == Cheb(n, x) IN NearK(prec, r, s[1], 8 * (n + 4), ChebTol(n, x, s))
       [] f = "Tshift" -> LET y == RSub(RMul(R2, x), R1)  s == Cheb(n, y) IN NearK(prec, r, s[1], 8 * (n + 4), RAdd(ChebTol(n, y, s), RMul(RAdd(R1, RAbs(x)), RAbs(s[3]))))
       [] f = "Td" -> LET s == Cheb(n, x) IN NearK(prec, r, s[3], 8 * (n + 4), RMul(RInt(1 + n * n), RAdd(R1, RAdd(RAbs(s[1]), RAbs(s[3])))))
(* the recurrence, from T_0 and T_1 of a register *)
RecNewOK(h, x, out) == out = "ok" /\ rec' = [rec EXCEPT ![h] = [x |-> x, n |-> 1, t |-> x, s |-> R1]]
RecNextOK(prec, h, out, r) ==
  LET q == rec[h]  v == RSub(RMul(RMul(R2, q.x), q.t), q.s)  c == Cheb(q.n + 1, q.x) IN
  /\ out = "ok" /\ NearK(prec, r, v, 4, RAdd(RMul(R2, RAbs(RMul(q.x, q.t))), RAbs(q.s)))
  /\ NearK(prec, r, c[1], 16 * (q.n + 4), RMul(RInt(q.n + 1), ChebTol(q.n + 1, q.x, c)))
  /\ rec' = [rec EXCEPT ![h] = [@ EXCEPT !.n = @ + 1, !.t = RD(r), !.s = q.t]]
=============================================================================
