------------------------------ MODULE TraceAgree ------------------------------
EXTENDS Agree, Json, IOUtils
Events == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Chunks == 8
N == Len(Events)
VARIABLES chunk, l
Init == chunk \in 1..Chunks /\ l = chunk
Accepts(e) == e.ok = 0 /\ Agree(e.k, e.rs)
Next == /\ l <= N
        /\ LET e == Events[l] IN IF Accepts(e) THEN TRUE ELSE PrintT(<<"REJECT", e.i, e.op>>)
        /\ l' = l + Chunks
        /\ UNCHANGED chunk
Done == TLCGet("distinct") = N + Chunks
=============================================================================
