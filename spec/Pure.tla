--------------------------------- MODULE Pure ---------------------------------
(* Calls of a library from several threads.  A call has two steps: it begins     *)
(* (its operand lands in working storage) and it returns a result computed from  *)
(* that storage.  What a call returns is told by the observations made; they     *)
(* agree exactly if every result is a function of the operands.                   *)
(*   Kind = "local"    working storage belongs to the call                       *)
(*          "shared"   one storage for all calls (a static buffer)               *)
(*          "lazy"     a result kept from the first call of an operand, found by  *)
(*                     part of the operand only                                  *)
(*          "owned"    storage of the call, but the operand is written too        *)
(* Agreement holds for "local" and must be refuted for the others: the checks     *)
(* run all four, so that the property is known to tell them apart.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Kind, Threads, Values, Calls
NoneV == -1
VARIABLES cell,     \* working storage
          memory,   \* results kept, by the part of the operand they are found by
          pc,       \* the operand each thread is computing with
          object,   \* the operands themselves, shared by all threads
          obs       \* what was seen: case, result, operand before and after
vars == <<cell, memory, pc, object, obs>>
Cell(t) == IF Kind = "shared" THEN 0 ELSE t
Part(v) == v \div 2
F(v) == 7 * v + 3
Init == /\ cell = [t \in 0..Threads |-> NoneV] /\ memory = [p \in 0..Values |-> NoneV]
        /\ pc = [t \in 1..Threads |-> NoneV] /\ object = [v \in 0..(Values - 1) |-> v] /\ obs = << >>
Begin(t, v) == /\ pc[t] = NoneV /\ Len(obs) + Cardinality({u \in 1..Threads : pc[u] # NoneV}) < Calls
               /\ pc' = [pc EXCEPT ![t] = v] /\ cell' = [cell EXCEPT ![Cell(t)] = object[v]]
               /\ UNCHANGED <<memory, object, obs>>
Return(t) == /\ pc[t] # NoneV
             /\ LET v == pc[t]
                    p == Part(v)
                    r == IF Kind = "lazy" /\ memory[p] # NoneV THEN memory[p] ELSE F(cell[Cell(t)])
                    after == IF Kind = "owned" THEN v + 1 ELSE object[v]
                IN /\ obs' = Append(obs, [case |-> v, res |-> r, before |-> object[v], after |-> after])
                   /\ memory' = [memory EXCEPT ![p] = r]
                   /\ object' = [object EXCEPT ![v] = after]
             /\ pc' = [pc EXCEPT ![t] = NoneV] /\ UNCHANGED cell
\* another run of the program: what a library keeps is lost, what was seen is not.  (Without
\* this a result kept too generously is never noticed: it is always the same wrong one.)
Restart == /\ \A t \in 1..Threads : pc[t] = NoneV
           /\ obs # << >>
           /\ cell' = [t \in 0..Threads |-> NoneV] /\ memory' = [p \in 0..Values |-> NoneV]
           /\ object' = [v \in 0..(Values - 1) |-> v]
           /\ UNCHANGED <<pc, obs>>
Next == Restart \/ \E t \in 1..Threads : Return(t) \/ \E v \in 0..(Values - 1) : Begin(t, v)
(* the judgement, on a sequence of observations *)
SameCase(o, q) == o.res = q.res /\ o.before = q.before
Undisturbed(o) == o.before = o.after
Pure(os) == /\ \A k \in 1..Len(os) : Undisturbed(os[k])
            /\ \A k \in 1..Len(os) : \A j \in 1..(k - 1) : os[k].case = os[j].case => SameCase(os[k], os[j])
Agreement == Pure(obs)
===============================================================================
