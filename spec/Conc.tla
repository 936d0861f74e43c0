-------------------------------- MODULE Conc --------------------------------
(* Objects that are only read, by any number of threads.  A call made by a     *)
(* thread that is alone fixes the result of that call; however calls of        *)
(* several threads overlap afterwards, and whoever called what before, each    *)
(* call ends with the result it has alone.  Nothing else is kept: reading      *)
(* leaves no trace in the object.                                              *)
EXTENDS Rat
CONSTANTS Threads, Calls
VARIABLES ref,   \* call -> result when made alone, or Unknown
          busy   \* thread -> the call it is in, or 0
Unknown == <<"unknown">>
CInit0 == ref = [c \in Calls |-> Unknown] /\ busy = [t \in Threads |-> 0]
Quiet == \A t \in Threads : busy[t] = 0
(* results are sequences of numbers, or the one-element sequence "throw" *)
SameNum(a, b) ==
  IF a = b THEN TRUE
  ELSE IF a = "throw" \/ b = "throw" THEN FALSE
  ELSE IF RFin(a) /\ RFin(b) THEN RNear(RD(a), RD(b), RMul(RPow(R2, -30), RAdd(R1, RAbs(RD(a)))))
  ELSE FALSE
Same(r, s) == Len(r) = Len(s) /\ \A i \in 1..Len(r) : SameNum(r[i], s[i])
(* a new object, a new call on it *)
MakeOK(out) == out = "ok" /\ Quiet /\ UNCHANGED <<ref, busy>>
DefOK(c, out) == out = "ok" /\ Quiet /\ c \in Calls /\ ref' = [ref EXCEPT ![c] = Unknown] /\ UNCHANGED busy
AloneOK(c, out, r) ==
  /\ out = "ok" /\ Quiet /\ c \in Calls /\ UNCHANGED busy
  /\ \/ ref[c] = Unknown /\ ref' = [ref EXCEPT ![c] = r]
     \/ ref[c] # Unknown /\ Same(ref[c], r) /\ UNCHANGED ref
(* threads are started together: the run of all of them ended without an unsynchronised conflict *)
ParOK(out) == out = "ok" /\ Quiet /\ UNCHANGED <<ref, busy>>
BeginOK(t, c) == t \in Threads /\ c \in Calls /\ busy[t] = 0 /\ ref[c] # Unknown /\ busy' = [busy EXCEPT ![t] = c] /\ UNCHANGED ref
EndOK(t, c, r) == t \in Threads /\ c \in Calls /\ busy[t] = c /\ Same(ref[c], r) /\ busy' = [busy EXCEPT ![t] = 0] /\ UNCHANGED ref
=============================================================================
