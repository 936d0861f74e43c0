------------------------------ MODULE MC_Convol ------------------------------
EXTENDS Convol, IOUtils, Json, CSV
CONSTANT MaxLen
VARIABLE hist
Ks == {<<R1, R0>>, <<R0, R1>>, <<R2, RInt(-1), RInt(3)>>}
Init == CInit /\ hist = <<>>
Log(o) == hist' = Append(hist, o)
New(cap, fill) == buf' = [cap |-> cap, s |-> Eager([i \in 1..fill |-> RInt(7)])] /\ Log([op |-> "cnew", cap |-> cap, fill |-> fill, x |-> RInt(7)])
Push(front, x) == buf' = (IF front THEN PushF(buf, x) ELSE PushB(buf, x)) /\ Log([op |-> "cpush", front |-> front, x |-> x])
Ask(k, rev) == Len(buf.s) >= Len(k) /\ UNCHANGED buf /\ Log([op |-> "conv", k |-> k, dt |-> RHalf, rev |-> rev])
Next == /\ Len(hist) < MaxLen
        /\ \/ hist = <<>> /\ \E c \in 2..3, f \in {0, 2, 3} : f <= c /\ New(c, f)
           \/ /\ hist # <<>>
              /\ \/ \E fr \in BOOLEAN, x \in {RInt(-1), RInt(4)} : Push(fr, x)
                 \/ \E k \in Ks, rev \in BOOLEAN : Ask(k, rev)
View == <<buf, Len(hist)>>
Export == IF Len(hist') = MaxLen THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EXPORT) ELSE TRUE
Bounded == Len(buf.s) <= buf.cap
(* a unit kernel picks the newest sample (half weight at an end); the two orders read the same window *)
Picks == Len(buf.s) >= 2 => Conv(<<R1, R0>>, buf.s, R2, TRUE) = buf.s[1] /\ Conv(<<R1, R0>>, buf.s, R2, FALSE) = buf.s[2]
Mirror == \A k \in Ks : Len(buf.s) >= Len(k) => Conv(k, buf.s, R1, FALSE) = Conv([i \in 1..Len(k) |-> k[Len(k) + 1 - i]], buf.s, R1, TRUE)
=============================================================================
