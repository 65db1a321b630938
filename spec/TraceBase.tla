------------------------------ MODULE TraceBase ------------------------------
(* Reading a recorded execution, and the verdict on it.                       *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* One state per consumed line plus the initial state.
Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Trace)>>)

Range(f) == {f[x] : x \in DOMAIN f}
Has(r, k) == k \in DOMAIN r
EmptyFcn == [x \in {} |-> 0]
=============================================================================
