------------------------------ MODULE TraceBase ------------------------------
(* Reading a recorded trace.  A trace module EXTENDS this one and the        *)
(* component's specification, keeps the cursor l and advances it by one when *)
(* the specification has an action that explains event Trace[l].             *)
EXTENDS Naturals, Sequences, TLC, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
Has(e, k) == k \in DOMAIN e
Fld(e, k) == IF k \in DOMAIN e THEN e[k] ELSE <<>>
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
