------------------------------ MODULE TracePure ------------------------------
(* An event: everything observed of one call with one set of operands, made      *)
(* alone in several orders and from several threads at once.                     *)
EXTENDS Pure, Json, IOUtils
Events == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Chunks == 8
N == Len(Events)
VARIABLES chunk, l
tvars == <<chunk, l>>
TInit == chunk \in 1..Chunks /\ l = chunk /\ Init
Phases == {1, 2, 3, 4}
Accepts(e) == /\ e.ok = 0
              /\ \A k \in 1..Len(e.obs) : e.obs[k].case = e.i
              /\ {e.obs[k].phase : k \in 1..Len(e.obs)} = Phases
              /\ Pure(e.obs)
TNext == /\ l <= N
         /\ LET e == Events[l] IN IF Accepts(e) THEN TRUE ELSE PrintT(<<"REJECT", e.i, e.op>>)
         /\ l' = l + Chunks
         /\ UNCHANGED <<chunk, cell, memory, pc, object, obs>>
Done == TLCGet("distinct") = N + Chunks
=============================================================================
