------------------------------ MODULE TraceMachine ----------------------------
(* Follows recorded runs of the machine: after every instruction the whole      *)
(* recorded register file must be the model's.  On the way the composition      *)
(* property is checked on every history reached.                                *)
EXTENDS Machine, Json, IOUtils
Progs == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
RECURSIVE FileOf(_, _)
FileOf(b, k) == IF k = 0 THEN ZeroFile ELSE [FileOf(b, k - 1) EXCEPT ![b[k].T][b[k].d] = b[k].v]
RECURSIVE GhostOf(_, _)
GhostOf(b, k) == IF k = 0 THEN ZeroGhost
                 ELSE IF b[k].T \in MotionT THEN [GhostOf(b, k - 1) EXCEPT ![b[k].T][b[k].d] = <<[T |-> b[k].T, v |-> b[k].v]>>]
                 ELSE GhostOf(b, k - 1)
VARIABLES prog, pc, file, ghost, last
Init == /\ prog \in 1..Len(Progs)
        /\ pc = 0
        /\ file = FileOf(Progs[prog].boot, Len(Progs[prog].boot))
        /\ ghost = GhostOf(Progs[prog].boot, Len(Progs[prog].boot))
        /\ last = <<"scalar", 1>>
\* the recorded registers: only the ones that changed against the previous dump
Agrees(p, k, f) == \A q \in 1..Len(p.dump[k]) : f[p.dump[k][q].T][p.dump[k][q].d] = p.dump[k][q].v
Next == LET p == Progs[prog]
        IN /\ pc < Len(p.steps)
           /\ LET i == p.steps[pc + 1]
                  nf == Exec(file, i)
                  \* every register the model changed must have been seen to change, and no other
                  same == /\ Agrees(p, pc + 1, nf)
                          /\ nf[TypeOf(i)][i.d] = file[TypeOf(i)][i.d]
                             \/ \E q \in 1..Len(p.dump[pc + 1]) : p.dump[pc + 1][q].T = TypeOf(i) /\ p.dump[pc + 1][q].d = i.d
                  ok == p.ok = 0 /\ Legal(file, i) /\ same
              IN /\ IF ok THEN TRUE ELSE PrintT(<<"REJECT", p.i, pc + 1>>)
                 /\ file' = nf
                 /\ ghost' = ExecGhost(file, ghost, i)
                 /\ last' = <<TypeOf(i), i.d>>
                 /\ pc' = IF ok THEN pc + 1 ELSE Len(p.steps)
           /\ UNCHANGED prog
Composed == last[1] \in MotionT => ActsAsFactors(last[1], file[last[1]][last[2]], ghost[last[1]][last[2]])
=============================================================================
