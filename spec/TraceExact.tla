------------------------------ MODULE TraceExact -----------------------------
(* Accepts a recorded run of the implementation step by step.  An event is     *)
(* one application of an operation of Klein.tla; it is accepted iff what the   *)
(* implementation returned is the result the specification assigns.           *)
EXTENDS Klein, Json, IOUtils
Events == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Chunks == 8
N == Len(Events)
OpIndex == [n \in {ExactOps[i].n : i \in 1..Len(ExactOps)} |->
              CHOOSE i \in 1..Len(ExactOps) : ExactOps[i].n = n]

VARIABLES chunk, l
vars == <<chunk, l>>
Init == chunk \in 1..Chunks /\ l = chunk
Accepts(e) == LET o == ExactOps[OpIndex[e.op]]
              IN /\ e.ok = 0 /\ Defined(o, e.a)
                 /\ IF Inexact(o) THEN Near(o, e.a, e.r) ELSE e.r = Result(o, e.a)
Step == /\ l <= N
        /\ LET e == Events[l]
           IN \/ Accepts(e)
              \/ /\ ~Accepts(e)
                 /\ PrintT(<<"REJECT", e.i, e.op, Result(ExactOps[OpIndex[e.op]], e.a)>>)
        /\ l' = l + Chunks
        /\ UNCHANGED chunk
Next == Step
Done == TLCGet("distinct") = N + Chunks
=============================================================================
