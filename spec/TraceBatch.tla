------------------------------ MODULE TraceBatch ------------------------------
(* Follows every recorded program step by step: after each application the      *)
(* whole recorded array must be the one the model reaches.                      *)
EXTENDS Batch, Json, IOUtils
Progs == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES prog, pc, mem
Init == /\ prog \in 1..Len(Progs)
        /\ pc = 0
        /\ mem = Progs[prog].mem
Next == LET p == Progs[prog]
        IN /\ pc < Len(p.steps)
           /\ LET st == p.steps[pc + 1]
                  a == AfterApp(p.M, p.T, mem, st)
                  ok == p.ok = 0 /\ Legal(st, Len(mem)) /\ p.after[pc + 1] = a
              IN /\ IF ok THEN TRUE ELSE PrintT(<<"REJECT", p.i, pc + 1>>)
                 /\ mem' = a
                 /\ pc' = IF ok THEN pc + 1 ELSE Len(p.steps)
           /\ UNCHANGED prog
=============================================================================
