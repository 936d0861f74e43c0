-------------------------------- MODULE Rat --------------------------------
(* Exact rational numbers of unbounded size.                               *)
(*                                                                         *)
(* A rational is represented by the canonical string of its reduced        *)
(* fraction ("n" or "n/d", hexadecimal), so equality of rationals is TLA+   *)
(* equality.  The operators are realised by java/RatOverrides.java (TLC's   *)
(* own integers are 32 bits wide).  Each definition below states the value  *)
(* the override computes, in terms of the mathematical reading              *)
(* Val(r) \in the rationals.  TLC never evaluates these bodies.             *)
EXTENDS Integers, Sequences, TLC
LOCAL Over(name) == Assert(FALSE, "TLC override missing for " \o name)
RInt(n)      == Over("RInt")    \* the integer n
RFrac(n, d)  == Over("RFrac")   \* n / d, n and d integers
RDec(s)      == Over("RDec")    \* decimal literal, exactly
RFin(s)      == Over("RFin")    \* the recorded IEEE double s ("%a" text) is finite
RD(s)        == Over("RD")      \* exact value of the recorded finite IEEE double s
RAdd(a, b)   == Over("RAdd")
RSub(a, b)   == Over("RSub")
RMul(a, b)   == Over("RMul")
RDiv(a, b)   == Over("RDiv")    \* b # 0
RNeg(a)      == Over("RNeg")
RAbs(a)      == Over("RAbs")
RLe(a, b)    == Over("RLe")     \* a <= b, BOOLEAN
RLt(a, b)    == Over("RLt")     \* a < b, BOOLEAN
RFloor(a)    == Over("RFloor")  \* greatest integer <= a, as a rational
RToInt(a)    == Over("RToInt")  \* the same, as a TLC integer
RRound(a, k) == Over("RRound")  \* multiple of 2^-k nearest to a
RSig(a, k)   == Over("RSig")    \* a rounded to k significant bits
RPow(a, k)   == Over("RPow")    \* a^k, k an integer
RSqrt(a, k)  == Over("RSqrt")   \* square root rounded down to about k significant bits, a >= 0
RSum(s)      == Over("RSum")    \* sum of a sequence
RDot(s, t)   == Over("RDot")    \* inner product of two sequences of equal length
RShow(a)     == Over("RShow")   \* decimal text, for messages

R0 == RInt(0)
R1 == RInt(1)
R2 == RInt(2)
RHalf == RFrac(1, 2)
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMaxSeq(s) == Over("RMaxSeq") \* greatest absolute value of a sequence, 0 if empty
RSq(a) == RMul(a, a)
RNear(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)
Eager(v) == v                   \* overridden: evaluates a (nested) sequence once
RSumAbs(s) == RSum([i \in 1..Len(s) |-> RAbs(s[i])])
(* unit roundoff of double and float *)
EpsD == RPow(R2, -52)
EpsF == RPow(R2, -23)
=============================================================================
