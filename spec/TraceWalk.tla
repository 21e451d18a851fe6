------------------------------- MODULE TraceWalk ------------------------------
(* Follows recorded walks: after every step the changed register against the    *)
(* step's product, every Every steps all registers against the closed form.     *)
EXTENDS Walk, Json, IOUtils
CONSTANT Every
Walks == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES w, pc, s, c
Fixed(T, v) == FToMV(T, [j \in 1..Len(v) |-> v[j] * ONE])
Over(T, v, n) == FToMV(T, [j \in 1..Len(v) |-> FRat(v[j], n)])
Start(k) == TLCEval([M |-> Over("motor", Walks[k].from.M, Walks[k].from.n), R |-> Over("rotor", Walks[k].from.R, Walks[k].from.n), T |-> Over("trans", Walks[k].from.T, Walks[k].from.n), P |-> Fixed("point", Walks[k].P), Q |-> Fixed("plane", Walks[k].Q), L |-> Fixed("line", Walks[k].L)])
Gens(k) == [g \in DOMAIN GenT |-> FToMV(GenT[g], Walks[k].gens[g])]
GensOK(k) == /\ Walks[k].ok = 0
             /\ \A g \in DOMAIN GenT : /\ InRange(Walks[k].gens[g], 2)
                                       /\ CloseMV(Gens(k)[g], FExp(LogOf(g, Walks[k].v, Walks[k].den, 1)), 64)
Init == /\ w \in 1..Len(Walks)
        /\ pc = 0
        /\ s = Start(w)
        /\ c = [d \in Regs |-> 0]
Next == /\ pc < Len(Walks[w].steps)
        /\ LET k == Walks[w]
               z == k.dump[pc + 1]
               o == AllWalkOps[WOpNo[k.steps[pc + 1]]]
               ok == /\ pc > 0 \/ GensOK(w)
                     /\ k.ok = 0 /\ InRange(z, 16) /\ Holds(o, s, Gens(w), z)
               ns == TLCEval([s EXCEPT ![o.d] = FToMV(RegT[o.d], z)])
               nc == [c EXCEPT ![o.d] = Count(o, @)]
               last == pc + 1 = Len(k.steps) \/ (pc + 1) % Every = 0
               far == ~ok \/ k.kind = "mix" \/ ~last \/ \A d \in Regs : Power(k.kind, k.v, k.den, d, nc[d], pc + 1, ns[d], Start(w)[d])
               \* only a value beyond the range of the fixed point needs the question
               gone == ~ok /\ k.ok = 0 /\ ~InRange(z, 14) /\ (pc > 0 \/ GensOK(w)) /\ Leaves(o, s, Gens(w))
           IN /\ IF (ok /\ far) \/ gone THEN TRUE ELSE PrintT(<<"REJECT", k.i, pc + 1>>)
              /\ s' = IF ok THEN ns ELSE s
              /\ c' = nc
              /\ pc' = IF ok /\ far THEN pc + 1 ELSE Len(k.steps)
        /\ UNCHANGED w
=============================================================================
