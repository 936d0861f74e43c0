------------------------------- MODULE Convol -------------------------------
(* A signal history of bounded length (newest first when pushed at the front) *)
(* and its convolution with a kernel by the trapezoidal rule.                 *)
EXTENDS Rat
VARIABLE buf      \* [cap, s]
UnitC(prec) == IF prec = "f" THEN EpsF ELSE EpsD
CInit == buf = [cap |-> 0, s |-> <<>>]
Last(s) == s[Len(s)]
Cut(s) == SubSeq(s, 1, Len(s) - 1)
PushF(b, x) == IF b.cap = 0 THEN b ELSE [b EXCEPT !.s = <<x>> \o (IF Len(b.s) = b.cap THEN Cut(b.s) ELSE b.s)]
PushB(b, x) == IF b.cap = 0 THEN b ELSE [b EXCEPT !.s = Append(IF Len(b.s) = b.cap THEN Tail(b.s) ELSE b.s, x)]
TrapSum(y, dt) == IF Len(y) < 2 THEN R0 ELSE RMul(dt, RSub(RSum(y), RMul(RHalf, RAdd(y[1], Last(y)))))
Integrand(k, s, rev) == LET n == Len(k) IN Eager([i \in 1..n |-> RMul(k[i], IF rev THEN s[i] ELSE s[n + 1 - i])])
Conv(k, s, dt, rev) == TrapSum(Integrand(k, s, rev), dt)
CNewOK(cap, fill, x, out) == out = "ok" /\ buf' = [cap |-> cap, s |-> Eager([i \in 1..fill |-> x])]
CPushOK(front, x, out) == out = "ok" /\ buf' = (IF front THEN PushF(buf, x) ELSE PushB(buf, x))
(* the history is left as it was; a history shorter than the kernel is refused *)
ConvOK(prec, k, dt, rev, out, after, r) ==
  /\ UNCHANGED buf
  /\ IF Len(buf.s) < Len(k) THEN out = "abort"
     ELSE /\ out = "ok" /\ after = buf.s
          /\ Len(k) >= 2 => RNear(r, Conv(k, buf.s, dt, rev), RAdd(RPow(R2, IF prec = "f" THEN -110 ELSE -900), RMul(RMul(RInt(4 + 2 * Len(k)), UnitC(prec)), RMul(RAbs(dt), RSumAbs(Integrand(k, buf.s, rev))))))
=============================================================================
