----------------------------- MODULE MC_RatFun ------------------------------
(* Identities of the elementary functions on a lattice of arguments.         *)
EXTENDS RatFun
VARIABLE x
Pts == {RFrac(n, d) : n \in {-1000, -37, -12, -5, -3, -1, 0, 1, 2, 3, 7, 22, 355, 100000}, d \in {1, 2, 7, 113}}
Init == x \in Pts
Next == UNCHANGED x
T == RPow(R2, -150)
Near(a, b) == RNear(a, b, RMul(T, RAdd(R1, RAbs(b))))
Trig == /\ Near(RAdd(RSq(RSin(x)), RSq(RCos(x))), R1)
        /\ Near(RSin(RMul(R2, x)), RMul(R2, RMul(RSin(x), RCos(x))))
        /\ Near(RSin(RAdd(x, RPi)), RNeg(RSin(x)))
        /\ Near(RCos(RSub(RMul(RHalf, RPi), x)), RSin(x))
ExpLn == LET a == RAbs(x) IN a # R0 => /\ Near(RExp(RLn(a)), a) /\ Near(RLn(RMul(a, RInt(10))), RAdd(RLn(a), RLn(RInt(10))))
                                       /\ (RLt(a, RInt(60)) => Near(RMul(RExp(x), RExp(RNeg(x))), R1))
Inverse == LET a == RAtan(x) IN /\ Near(RMul(x, RCos(a)), RSin(a)) /\ RLt(RAbs(a), RMul(RHalf, RPi))
                                /\ Near(RSq(RSqrtS(RAbs(x))), RAbs(x))
                                /\ Near(RAtan2(RSin(x), RCos(x)), Reduce2Pi(x))
ASSUME Near(RMul(RInt(4), RAtan(R1)), RPi) /\ Near(RLn(R2), RLn2) /\ Near(RSq(RExp(RHalf)), RExp(R1))
ASSUME RNear(PiD, RPi, RDec("1.3e-16"))
=============================================================================
