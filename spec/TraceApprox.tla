------------------------------ MODULE TraceApprox -----------------------------
(* Accepts a recorded run of the relational operations, step by step.         *)
EXTENDS Approx, Json, IOUtils
Events == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Chunks == 8
N == Len(Events)
OpIndex == [n \in {AllApprox[i].n : i \in 1..Len(AllApprox)} |->
              CHOOSE i \in 1..Len(AllApprox) : AllApprox[i].n = n]
\* operand in fixed point: a/den, times pi if flagged; den 0 = the norm of a
Operand(a, den, pi) ==
  LET v == IF den = 0 THEN Unit([j \in 1..Len(a) |-> a[j] * ONE])
           ELSE [j \in 1..Len(a) |-> FRat(a[j], den)]
  IN TLCEval(IF pi = 1 THEN [j \in 1..Len(v) |-> FMul(v[j], PI)] ELSE v)
Operands(e) == TLCEval([t \in 1..Len(e.a) |-> Operand(e.a[t], e.den[t], e.pi[t])])

VARIABLES chunk, l
vars == <<chunk, l>>
Init == chunk \in 1..Chunks /\ l = chunk
Accepts(e) == e.ok = 0 /\ Accept(AllApprox[OpIndex[e.op]], Operands(e), e.r)
Step == /\ l <= N
        /\ LET e == Events[l]
               ok == TLCEval(Accepts(e))
           IN \/ ok
              \/ ~ok /\ PrintT(<<"REJECT", e.i, e.op>>)
        /\ l' = l + Chunks
        /\ UNCHANGED chunk
Next == Step
Done == TLCGet("distinct") = N + Chunks
=============================================================================
