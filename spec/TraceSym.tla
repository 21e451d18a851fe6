------------------------------- MODULE TraceSym -------------------------------
(* Follows recorded runs of the symbolic machine.                               *)
EXTENDS SymMachine, Json, IOUtils
Progs == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES prog, pc, regs
Init == /\ prog \in 1..Len(Progs)
        /\ pc = 0
        /\ regs = InitRegs
Next == LET p == Progs[prog]
        IN /\ pc < Len(p.steps)
           /\ LET i == p.steps[pc + 1]
                  nr == Exec(p.sig, regs, i)
                  e == IF p.ok = 1 THEN p.res[pc + 1] ELSE << >>
                  ok == /\ p.ok = 1
                        /\ IF KindOf(i.op) = "none" THEN Observed(regs, i, e)
                           ELSE /\ \A q \in 1..Len(e) : Shows(p.sig, nr, e[q])
                                /\ \E q \in 1..Len(e) : e[q][1] = KindOf(i.op) /\ e[q][2] = i.d
              IN /\ IF ok THEN TRUE ELSE PrintT(<<"REJECT", p.i, pc + 1>>)
                 /\ regs' = nr
                 /\ pc' = IF ok THEN pc + 1 ELSE Len(p.steps)
           /\ UNCHANGED prog
\* what the representation promises, in every state reached
Canonical == /\ \A k \in 1..NM : \A v \in DOMAIN regs.m[k] : regs.m[k][v] # 0
             /\ \A k \in 1..NM : \A m \in DOMAIN regs.p[k] : regs.p[k][m] # 0 /\ \A v \in DOMAIN m : m[v] # 0
             /\ \A k \in 1..NX : \A b \in DOMAIN regs.x[k] : DOMAIN regs.x[k][b] # {}
\* laws of the ring and of the algebra, at the values the history reached
Can(p, q) == ExactMul(p, q) /\ Cardinality(DOMAIN p) * Cardinality(DOMAIN q) <= 12
Ring(p, q, r) == /\ PolyAdd(p, q) = PolyAdd(q, p)
                 /\ PolyAdd(p, PolyNeg(p)) = Empty
                 /\ Can(p, q) => PolyMul(p, q) = PolyMul(q, p)
                 /\ Can(p, PolyAdd(q, r)) /\ Can(p, q) /\ Can(p, r) => PolyMul(p, PolyAdd(q, r)) = PolyAdd(PolyMul(p, q), PolyMul(p, r))
CanMV(x, y) == MVExactMul(x, y) /\ Cardinality(DOMAIN x) * Cardinality(DOMAIN y) <= 9
Algebra(sg, x, y) == /\ MVRev(MVRev(x)) = x
                     /\ CanMV(x, y) => \A op \in {"mul", "ext"} : MVRev(MVProd(op, sg, x, y)) = MVProd(op, sg, MVRev(y), MVRev(x))
Laws == LET sg == Progs[prog].sig
            k == IF pc = 0 THEN "none" ELSE KindOf(Progs[prog].steps[pc].op)
        IN /\ k = "p" => Ring(regs.p[1], regs.p[2], regs.p[3])
           /\ k = "x" => Algebra(sg, regs.x[1], regs.x[2])
=============================================================================
