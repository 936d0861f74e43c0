------------------------------- MODULE RatFun -------------------------------
(* Elementary functions of rationals to about Prec bits (relative to the     *)
(* larger of 1 and the value, unless stated otherwise), by power series over  *)
(* exact rational arithmetic rounded to WBits significant bits.               *)
EXTENDS Rat
Prec == 180
WBits == 260
Tiny == RPow(R2, -(Prec + 20))
S(a) == RSig(a, WBits)
RPi == RDec("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798214808651328230664709384460955058223172535940812848111745")
RTwoPi == RMul(R2, RPi)
RLn2 == RDec("0.693147180559945309417232121458176568075500134360255254120680009493393621969694715605863326996418687147517185713230837653246")
RGamma == RDec("0.577215664901532860606512090082402431042159335939923598805767234884867726777664670936947063291746749514631447249807082480960504")
(* nearest integer *)
RNint(a) == RFloor(RAdd(a, RHalf))

(* sum of t, t*F(1), t*F(1)*F(2), ... with F(k) = num / Den(f, k) *)
Den(f, k) == IF f = "sin" THEN (2 * k) * (2 * k + 1) ELSE IF f = "cos" THEN (2 * k - 1) * (2 * k) ELSE k
RECURSIVE Hyp(_, _, _, _, _)
Hyp(acc, t, num, k, f) ==
  IF RLe(RAbs(t), Tiny) THEN acc
  ELSE LET u == S(RDiv(RMul(t, num), RInt(Den(f, k)))) IN Hyp(RAdd(acc, u), u, num, k + 1, f)
Reduce2Pi(x) == RSub(x, RMul(RNint(RDiv(x, RTwoPi)), RTwoPi))
RSin(x) == LET r == S(Reduce2Pi(x)) IN S(Hyp(r, r, RNeg(S(RSq(r))), 1, "sin"))
RCos(x) == LET r == S(Reduce2Pi(x)) IN S(Hyp(R1, R1, RNeg(S(RSq(r))), 1, "cos"))
(* e^x, relative accuracy *)
RExp(x) == LET k == RNint(RDiv(x, RLn2))  r == S(RSub(x, RMul(k, RLn2))) IN S(RMul(RPow(R2, RToInt(k)), Hyp(R1, R1, r, 1, "exp")))
(* odd series  z + s z^3/3 + z^5/5 + ... (s = 1: atanh, s = -1: atan) *)
RECURSIVE OddSer(_, _, _, _)
OddSer(acc, p, z2, k) == IF RLe(RAbs(p), Tiny) THEN acc
                         ELSE LET q == S(RMul(p, z2)) IN OddSer(RAdd(acc, S(RDiv(q, RInt(2 * k + 1)))), q, z2, k + 1)
(* ln x, x > 0: x = m 2^e with m in [2/3, 4/3] *)
RECURSIVE Scale2(_, _)
Scale2(m, e) == IF RLt(RFrac(4, 3), m) THEN Scale2(RMul(m, RHalf), e + 1) ELSE IF RLt(m, RFrac(2, 3)) THEN Scale2(RMul(m, R2), e - 1) ELSE <<m, e>>
RLn(x) == LET me == Scale2(x, 0)  z == S(RDiv(RSub(me[1], R1), RAdd(me[1], R1)))
          IN S(RAdd(RMul(RInt(me[2]), RLn2), RMul(R2, OddSer(z, z, S(RSq(z)), 1))))
RPowR(b, x) == IF RLe(b, R0) THEN R0 ELSE RExp(RMul(x, RLn(b)))
RSqrtS(x) == IF x = R0 THEN R0 ELSE RSqrt(x, WBits)
AtanHalf(z) == S(RDiv(z, RAdd(R1, RSqrtS(RAdd(R1, RSq(z))))))
AtanUnit(z) == LET w == AtanHalf(AtanHalf(z)) IN RMul(RInt(4), OddSer(w, w, RNeg(S(RSq(w))), 1))
RAtan(x) == IF RLe(RAbs(x), R1) THEN S(AtanUnit(x))
            ELSE LET h == RMul(RHalf, RPi) IN IF RLt(R0, x) THEN S(RSub(h, AtanUnit(S(RDiv(R1, x))))) ELSE S(RSub(RNeg(h), AtanUnit(S(RDiv(R1, x)))))
(* angle of (x, y) in ]-pi, pi]; 0 for the origin *)
RAtan2(y, x) == IF RLt(R0, x) THEN RAtan(RDiv(y, x))
                ELSE IF x = R0 THEN (IF y = R0 THEN R0 ELSE IF RLt(R0, y) THEN RMul(RHalf, RPi) ELSE RNeg(RMul(RHalf, RPi)))
                ELSE IF RLt(y, R0) THEN RSub(RAtan(RDiv(y, x)), RPi) ELSE RAdd(RAtan(RDiv(y, x)), RPi)
RAsin(x) == RAtan2(x, RSqrtS(RSub(R1, RSq(x))))
(* the double-precision constants of the library *)
PiD == RD("0x1.921fb54442d18p+1")
=============================================================================
