------------------------------- MODULE Fourier -------------------------------
(* Discrete Fourier transforms by definition.  An object has two switches:    *)
(* half spectrum and scaling of the inverse; it answers according to the      *)
(* switches in force, whatever lengths it was used with before.               *)
EXTENDS Units
VARIABLE fft      \* fft[h] = [half, scaled]
UnitF(prec) == IF prec = "f" THEN EpsF ELSE EpsD
F0 == [half |-> FALSE, scaled |-> TRUE]
FInit == fft = [h \in Regs |-> F0] /\ UInit
(* e^(2 pi i k / n), exact for quarter turns; kept to 130 bits *)
Root(n, k) == CASE k = 0 -> <<R1, R0>> [] 4 * k = n -> <<R0, R1>> [] 2 * k = n -> <<RInt(-1), R0>> [] 4 * k = 3 * n -> <<R0, RInt(-1)>>
                [] OTHER -> LET a == RDiv(RMul(RTwoPi, RInt(k)), RInt(n)) IN <<RSig(RCos(a), 130), RSig(RSin(a), 130)>>
Cs0(n) == LET w == Eager([k \in 1..n |-> Root(n, k - 1)]) IN <<Eager([k \in 1..n |-> w[k][1]]), Eager([k \in 1..n |-> w[k][2]])>>
Table == Eager([n \in 1..20 |-> Cs0(n)])       \* evaluated once
Cs(n) == IF n <= 20 THEN Table[n] ELSE Cs0(n)
(* sum over j of v[j] e^(-2 pi i j k / n), as <<re, im>>, for k = 0..m-1 *)
Dft(v, m) ==
  LET n == Len(v)  w == Cs(n)  ix(j, k) == 1 + (((j - 1) * (k - 1)) % n) IN
  Eager([k \in 1..m |-> <<RDot(v, [j \in 1..n |-> w[1][ix(j, k)]]), RNeg(RDot(v, [j \in 1..n |-> w[2][ix(j, k)]]))>>])
Bins(n, half) == IF half THEN (n \div 2) + 1 ELSE n
(* real part of the inverse transform of a full spectrum, not divided by the length *)
InvRe(F) ==
  LET n == Len(F)  w == Cs(n)  ix(j, k) == 1 + (((j - 1) * (k - 1)) % n)
      re == Eager([k \in 1..n |-> F[k][1]])  im == Eager([k \in 1..n |-> F[k][2]]) IN
  Eager([j \in 1..n |-> RSub(RDot(re, [k \in 1..n |-> w[1][ix(j, k)]]), RDot(im, [k \in 1..n |-> w[2][ix(j, k)]]))])
Conj(z) == <<z[1], RNeg(z[2])>>
(* the full spectrum (even length) that a half spectrum stands for *)
Extend(F) == LET m == Len(F)  n == 2 * (m - 1) IN
  Eager([k \in 1..n |-> IF k = 1 \/ k = m THEN <<F[k][1], R0>> ELSE IF k < m THEN F[k] ELSE Conj(F[n + 2 - k])])
Full(F, half) == IF half THEN Extend(F) ELSE F
(* how far F is from being the spectrum of real samples *)
CDist(a, b) == RAdd(RAbs(RSub(a[1], b[1])), RAbs(RSub(a[2], b[2])))
Skew(F, half) == LET n == Len(F) IN
  IF half THEN RAdd(RAbs(F[1][2]), RAbs(F[n][2]))
  ELSE RMaxSeq([k \in 1..n |-> CDist(F[k], Conj(F[1 + ((n + 1 - k) % n)]))])
SizeF(F) == RSum([k \in 1..Len(F) |-> RAdd(RAbs(F[k][1]), RAbs(F[k][2]))])
TolF(prec, n, size) == RAdd(RPow(R2, IF prec = "f" THEN -100 ELSE -900), RMul(RMul(RInt(8 + 2 * n), UnitF(prec)), size))

FNewOK(h, out) == out = "ok" /\ fft' = [fft EXCEPT ![h] = F0] /\ UNCHANGED reg
FHalfOK(h, on, out) == out = "ok" /\ fft' = [fft EXCEPT ![h].half = on] /\ UNCHANGED reg
FScaleOK(h, on, out) == out = "ok" /\ fft' = [fft EXCEPT ![h].scaled = on] /\ UNCHANGED reg
(* "\E X \in {e}" evaluates e once *)
ForwardOK(prec, h, v, out, F) ==
  LET n == Len(v)  m == Bins(n, fft[h].half)  t == TolF(prec, n, RSumAbs(v)) IN
  /\ out = "ok" /\ UNCHANGED <<fft, reg>> /\ Len(F) = m
  /\ \E X \in {Dft(v, m)} : \A k \in 1..m : RNear(F[k][1], X[k][1], t) /\ RNear(F[k][2], X[k][2], t)
InverseOK(prec, h, F, out, v) ==
  LET half == fft[h].half  G == Full(F, half)  n == Len(G)  sk == Skew(F, half)  size == SizeF(F)
      c == IF fft[h].scaled THEN RFrac(1, n) ELSE R1
      t == RMul(c, RAdd(TolF(prec, n, RMul(R2, size)), RMul(RInt(n), sk))) IN
  /\ out = "ok" /\ UNCHANGED <<fft, reg>> /\ Len(v) = n
  /\ RLe(sk, RMul(RDec("1e-4"), RAdd(size, R1))) => \E x \in {InvRe(G)} : \A j \in 1..n : RNear(v[j], RMul(c, x[j]), t)
FreqsOK(prec, h, n, fs, u, out, r) ==
  /\ out = "ok" /\ UNCHANGED <<fft, reg>> /\ Len(r) = Bins(n, fft[h].half)
  /\ \A k \in 1..Len(r) :
       LET f == RDiv(RMul(RInt(k - 1), fs), RInt(n)) IN
       IF u = "S" THEN k > 1 => LET x == RDiv(R1, f) IN RFin(r[k]) /\ RNear(RD(r[k]), x, RMul(RMul(RInt(8 + 2 * n), UnitF(prec)), x))
       ELSE RFin(r[k]) /\ LET x == Conv("freq", f, "HERTZ", u) IN RNear(RD(r[k]), x, RMul(RMul(RInt(8 + 2 * n), UnitF(prec)), Conv("freq", fs, "HERTZ", u)))
Pow2OK(p, out, r) == out = "ok" /\ UNCHANGED <<fft, reg>> /\ r = 2 ^ p
=============================================================================
