------------------------------- MODULE Vectors -------------------------------
(* Vectors of samples: generation, element-wise arithmetic, elementary        *)
(* functions of samples, scalar helpers.  Registers hold the exact values of  *)
(* vectors; in-place operations replace one register, the others fill their   *)
(* target and leave every other register alone.                               *)
EXTENDS RatFun
CONSTANT Regs
VARIABLE sv       \* sv[h]: sequence of rationals
UnitV(prec) == IF prec = "f" THEN EpsF ELSE EpsD
TinyV(prec) == RPow(R2, IF prec = "f" THEN -120 ELSE -1000)
(* one operation, correctly rounded to within k units *)
NearR(prec, r, x, k) == RFin(r) /\ RNear(RD(r), x, RAdd(TinyV(prec), RMul(RMul(RInt(k), UnitV(prec)), RAbs(x))))
NearA(prec, r, x, scale) == RFin(r) /\ RNear(RD(r), x, RAdd(TinyV(prec), RMul(UnitV(prec), scale)))
SVInit == sv = [h \in Regs |-> <<>>]
Vals(t) == Eager([i \in 1..Len(t) |-> RD(t[i])])
FinV(t) == \A i \in 1..Len(t) : RFin(t[i])
(* all: every register after the call *)
FrameV(all, changed) == \A h \in Regs : h \notin changed => Len(all[h]) = Len(sv[h]) /\ Vals(all[h]) = sv[h]
PutV(all, h) == FinV(all[h]) /\ sv' = [sv EXCEPT ![h] = Vals(all[h])]
SSetOK(h, v, out, all) == out = "ok" /\ all[h] = v /\ FrameV(all, {h}) /\ PutV(all, h)

(* ---- element-wise arithmetic ------------------------------------------------ *)
Bin(f, a, b) == CASE f = "Add" -> RAdd(a, b) [] f = "Minus" -> RSub(a, b) [] f = "Mult" -> RMul(a, b) [] f = "Divide" -> RDiv(a, b)
BinOK(prec, f, h, g, o, out, all) ==
  IF Len(sv[h]) # Len(sv[g]) THEN out = "abort" /\ UNCHANGED sv
  ELSE /\ out = "ok" /\ Len(all[o]) = Len(sv[h])
       /\ \A i \in 1..Len(sv[h]) : NearR(prec, all[o][i], Bin(f, sv[h][i], sv[g][i]), 1)
       /\ FrameV(all, {o}) /\ PutV(all, o)
AddScalarOK(prec, h, c, o, out, all) ==
  /\ out = "ok" /\ Len(all[o]) = Len(sv[h]) /\ \A i \in 1..Len(sv[h]) : NearR(prec, all[o][i], RAdd(sv[h][i], c), 1)
  /\ FrameV(all, {o}) /\ PutV(all, o)
SumOK(prec, h, out, r) == out = "ok" /\ UNCHANGED sv /\ NearA(prec, r, RSum(sv[h]), RMul(RInt(Len(sv[h]) + 1), RSumAbs(sv[h])))
InPlace(f, a, c) == CASE f = "Scale" -> RMul(a, c) [] f = "Negate" -> RNeg(a)
                      [] f = "Pow" -> IF RFloor(c) = c THEN RPow(a, RToInt(c)) ELSE RPowR(a, c)
InPlaceOK(prec, f, h, c, out, all) ==
  /\ out = "ok" /\ Len(all[h]) = Len(sv[h]) /\ \A i \in 1..Len(sv[h]) : NearR(prec, all[h][i], InPlace(f, sv[h][i], c), IF f = "Pow" THEN 4 ELSE 1)
  /\ FrameV(all, {h}) /\ PutV(all, h)

(* ---- generation --------------------------------------------------------------- *)
LinAt(a, b, n, i) == RAdd(a, RDiv(RMul(RInt(i - 1), RSub(b, a)), RInt(n - 1)))
LinspaceOK(prec, a, b, n, out, r) ==
  /\ UNCHANGED sv
  /\ IF n < 2 \/ RLt(b, a) THEN out = "abort"
     ELSE /\ out = "ok" /\ Len(r) = n /\ FinV(r)
          /\ RD(r[1]) = a /\ RD(r[n]) = b
          /\ \A i \in 1..n : NearA(prec, r[i], LinAt(a, b, n, i), RMul(RInt(4), RAdd(RAbs(a), RAbs(b))))
          /\ \A i \in 2..n : RLe(RD(r[i-1]), RD(r[i]))
LogspaceOK(prec, a, b, n, base, out, r) ==
  /\ UNCHANGED sv
  /\ IF n < 2 \/ RLt(b, a) THEN out = "abort"
     ELSE /\ out = "ok" /\ Len(r) = n
          /\ LET ln == RLn(base)  amp == RAdd(R1, RMul(RAbs(ln), RAdd(RAbs(a), RAbs(b)))) IN
             \A i \in 1..n : LET x == RExp(RMul(LinAt(a, b, n, i), ln)) IN NearA(prec, r[i], x, RMul(RInt(8), RMul(amp, x)))
(* start, start + step, ... strictly below stop; one element more or less when stop is reached to within rounding *)
Ceil(x) == -RToInt(RNeg(x))
ArangeOK(prec, a, b, s, out, r) ==
  /\ UNCHANGED sv
  /\ IF ~RLt(a, b) \/ ~RLt(R0, s) THEN out = "abort"
     ELSE LET q == RDiv(RSub(b, a), s)  n == RNint(q)  n0 == RToInt(n)
              slack == RMul(RMul(RInt(4), UnitV(prec)), RSum(<<R1, RMul(q, RInt(2)), RDiv(RAdd(RAbs(a), RAbs(b)), s)>>))
          IN /\ out = "ok"
             /\ (IF RNear(q, n, slack) THEN Len(r) \in {n0, n0 + 1} ELSE Len(r) = Ceil(q))    \* the number of steps and the points are rounded
             /\ \A i \in 1..Len(r) : NearA(prec, r[i], RAdd(a, RMul(RInt(i - 1), s)), RMul(RInt(4), RAdd(RAbs(a), RAbs(b))))
             /\ \A i \in 1..Len(r) : RLt(RD(r[i]), b)                                 \* stop itself is excluded, however the steps round

(* ---- functions of samples -------------------------------------------------------- *)
SincAt(x) == IF x = R0 THEN R1 ELSE RDiv(RSin(x), x)
Step01(x, s) == IF RLt(x, s) THEN R0 ELSE IF x = s THEN RHalf ELSE R1
FunLen(o, n, out, all) == out = "ok" /\ Len(all[o]) = n /\ FrameV(all, {o}) /\ PutV(all, o)
SincNear(prec, r, x) == NearA(prec, r, SincAt(x), RMul(RInt(8), RMax(RAbs(SincAt(x)), RDiv(R1, RAdd(R1, RAbs(x))))))
SincOK(prec, h, o, out, all) == FunLen(o, Len(sv[h]), out, all) /\ \A i \in 1..Len(sv[h]) : SincNear(prec, all[o][i], sv[h][i])
(* on n equally spaced points *)
SincRangeOK(prec, a, b, n, out, r) ==
  /\ UNCHANGED sv /\ out = "ok" /\ Len(r) = n
  /\ \A i \in 1..n : LET x == LinAt(a, b, n, i) IN NearA(prec, r[i], SincAt(x), RMul(RInt(16), RAdd(R1, RAdd(RAbs(a), RAbs(b)))))
HeavisideOK(prec, h, s, o, out, all) == FunLen(o, Len(sv[h]), out, all) /\ \A i \in 1..Len(sv[h]) : RD(all[o][i]) = Step01(sv[h][i], s)
DoorOK(prec, h, a, b, height, o, out, all) ==
  FunLen(o, Len(sv[h]), out, all) /\ \A i \in 1..Len(sv[h]) : NearR(prec, all[o][i], RMul(height, RSub(Step01(sv[h][i], a), Step01(sv[h][i], b))), 1)
(* the samples less than half a step away from the impulse; either answer within rounding of half a step *)
DiracOK(prec, h, at, height, o, out, all) ==
  LET x == sv[h]  half == RMul(RHalf, RSub(x[2], x[1])) IN
  /\ FunLen(o, Len(x), out, all)
  /\ \A i \in 1..Len(x) :
       LET d == RAbs(RSub(x[i], at))  m == RMul(RMul(RInt(2), UnitV(prec)), RAdd(RAbs(x[i]), RAdd(RAbs(at), RAdd(RAbs(x[1]), RAbs(x[2]))))) IN
       /\ RD(all[o][i]) \in {R0, height}
       /\ RLt(d, RSub(half, m)) => RD(all[o][i]) = height
       /\ RLt(RAdd(half, m), d) => RD(all[o][i]) = R0
RampOK(prec, h, a, b, yl, yr, o, out, all) ==
  LET x == sv[h]  n == Len(x) IN
  IF ~(RLe(a, b) /\ RLe(x[1], a) /\ RLe(b, x[n])) THEN out = "abort" /\ UNCHANGED sv
  ELSE /\ FunLen(o, n, out, all)
       /\ \A i \in 1..n :
            IF RLe(x[i], a) THEN RD(all[o][i]) = yl
            ELSE IF RLt(b, x[i]) THEN RD(all[o][i]) = yr
            ELSE LET sl == RDiv(RSub(yr, yl), RSub(b, a)) IN
                 NearA(prec, all[o][i], RAdd(yl, RMul(sl, RSub(x[i], a))),
                       RMul(RInt(8), RAdd(RAdd(RAbs(yl), RAbs(yr)), RMul(RMul(RAdd(R1, RDiv(RAdd(RAbs(yl), RAbs(yr)), RAdd(RAbs(RSub(yr, yl)), TinyV(prec)))), RAbs(sl)), RAdd(RAbs(x[i]), RAbs(a))))))

(* ---- complex samples ---------------------------------------------------------------- *)
CplxOK(prec, f, z, out, r) ==
  /\ UNCHANGED sv /\ out = "ok" /\ Len(r) = Len(z)
  /\ \A i \in 1..Len(z) :
       LET x == RD(z[i][1])  y == RD(z[i][2]) IN
       CASE f = "Real" -> RD(r[i]) = x [] f = "Imag" -> RD(r[i]) = y
         [] f = "Amplitude" -> NearR(prec, r[i], RSqrtS(RAdd(RSq(x), RSq(y))), 4)
         [] f = "PhaseRAD" -> NearR(prec, r[i], RAtan2(y, x), 4)
         [] f = "PhaseDEG" -> NearR(prec, r[i], RDiv(RMul(RInt(180), RAtan2(y, x)), RPi), 6)

(* ---- scalar helpers -------------------------------------------------------------------- *)
Sgn(x) == IF RLt(x, R0) THEN -1 ELSE IF x = R0 THEN 0 ELSE 1
SgnOK(x, out, r) == UNCHANGED sv /\ out = "ok" /\ r = Sgn(x)
SaturateOK(x, a, b, out, r) == UNCHANGED sv /\ out = "ok" /\ r = (IF RLt(b, x) THEN b ELSE IF RLt(x, a) THEN a ELSE x)
SgnSqrtOK(prec, x, out, r) == UNCHANGED sv /\ out = "ok" /\ NearR(prec, r, RMul(RInt(Sgn(x)), RSqrtS(RAbs(x))), 2)
(* |a - b| <= atol + rtol |b|; free within rounding of the threshold *)
CloseR(prec, a, b, rtol, atol, r) ==
  LET d == RAbs(RSub(a, b))  t == RAdd(atol, RMul(rtol, RAbs(b)))  m == RMul(RMul(RInt(4), UnitV(prec)), RAdd(t, RAdd(RAbs(a), RAbs(b)))) IN
  (RLt(d, RSub(t, m)) \/ d = R0 => r) /\ (RLt(RAdd(t, m), d) => ~r)
IsCloseOK(prec, a, b, rtol, atol, out, r) == UNCHANGED sv /\ out = "ok" /\ CloseR(prec, a, b, rtol, atol, r)
(* all pairs close *)
IsCloseVOK(prec, a, b, rtol, atol, out, r) ==
  /\ UNCHANGED sv
  /\ IF Len(a) # Len(b) THEN out = "abort"
     ELSE /\ out = "ok"
          /\ r => \A i \in 1..Len(a) : CloseR(prec, a[i], b[i], rtol, atol, TRUE)
          /\ ~r => \E i \in 1..Len(a) : CloseR(prec, a[i], b[i], rtol, atol, FALSE)
(* the asserting forms answer by aborting *)
AssertCloseVOK(prec, a, b, rtol, atol, out) == out \in {"ok", "abort"} /\ IF Len(a) # Len(b) THEN out = "abort" /\ UNCHANGED sv ELSE IsCloseVOK(prec, a, b, rtol, atol, "ok", out = "ok")
AssertCloseOK(prec, a, b, rtol, atol, out) == UNCHANGED sv /\ out \in {"ok", "abort"} /\ CloseR(prec, a, b, rtol, atol, out = "ok")
ParityOK(n, out, odd, even) == UNCHANGED sv /\ out = "ok" /\ odd = (n % 2 = 1) /\ even = (n % 2 = 0)
=============================================================================
