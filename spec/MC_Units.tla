------------------------------ MODULE MC_Units ------------------------------
(* Every chain of conversions between all units of a dimension, through the  *)
(* pivot unit as the library does it.                                        *)
EXTENDS Units, IOUtils, Json, CSV
CONSTANTS MaxLen
VARIABLES x, first, hist
Values == {RInt(1), RInt(-3), RFrac(5, 2), RInt(40)}
Init == UInit /\ x = R0 /\ first = <<>> /\ hist = <<>>
Start(dim, u, v) == /\ hist = <<>> /\ SetOK(1, "d", dim, u, v) /\ x' = v /\ first' = <<u, v>>
                    /\ hist' = <<[op |-> "uset", h |-> 1, dim |-> dim, u |-> u, x |-> v]>>
Pivot(dim, v, u) == IF dim = "vel" THEN Conv("vel", v, u, "MS") ELSE Conv("freq", v, u, "HERTZ")
Unpivot(dim, v, u) == IF dim = "vel" THEN Conv("vel", v, "MS", u) ELSE Conv("freq", v, "HERTZ", u)
Convert(to) == /\ hist # <<>> /\ x' = Unpivot(reg[1].dim, Pivot(reg[1].dim, x, reg[1].unit), to) /\ UNCHANGED first
               /\ reg' = [reg EXCEPT ![1].unit = to, ![1].k = @ + 1]
               /\ hist' = Append(hist, [op |-> "uconv", h |-> 1, to |-> to])
Next == /\ Len(hist) < MaxLen
        /\ \/ \E v \in Values : (\E u \in VelUnits : Start("vel", u, v)) \/ (\E u \in FreqUnits : Start("freq", u, v))
           \/ hist # <<>> /\ \E to \in (IF reg[1].dim = "vel" THEN VelUnits ELSE FreqUnits) : Convert(to)
Export == IF Len(hist') = MaxLen THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EXPORT) ELSE TRUE
(* the quantity never changes; coming back to the first unit gives the first number *)
Preserved == hist # <<>> => Quantity(reg[1].dim, x, reg[1].unit) = reg[1].q
RoundTrip == hist # <<>> /\ reg[1].unit = first[1] => x = first[2]
(* a period is the inverse of the frequency: larger frequency, shorter period; signs are kept *)
Monotone == hist # <<>> => (RLt(R0, x) <=> RLt(R0, first[2]))
=============================================================================
