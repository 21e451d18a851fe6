------------------------------ MODULE BatchSteps ------------------------------
(* Why in-place application is safe: an element consists of Parts registers;    *)
(* for every result register the loop reads the operand registers it needs, in  *)
(* any order and possibly again, and then writes the result register.  Memory   *)
(* holds symbolic values: <<"v", k, q>> is the original part q of element k,    *)
(* <<"f", g>> a result computed from the values g that were read.               *)
(* If all reads of an element precede its writes, every placement the API       *)
(* permits is right; a register written before the last read of its element     *)
(* makes in-place application wrong (and only that).                            *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Parts, M, ReadFirst
Regs == 1..Parts
Needs(p) == IF p = 1 THEN {1} ELSE Regs
Reads == UNION {{<<p, q>> : q \in Needs(p)} : p \in Regs}
VARIABLES n, src, dst, mem, k, got, todo, wrote
vars == <<n, src, dst, mem, k, got, todo, wrote>>
Orig == [e \in 1..M |-> [p \in Regs |-> <<"v", e, p>>]]
Init == /\ n \in 0..M /\ src \in 0..M /\ dst \in 0..M
        /\ src + n <= M /\ dst + n <= M
        /\ src = dst \/ src + n <= dst \/ dst + n <= src
        /\ mem = Orig /\ k = 0 /\ got = [r \in Reads |-> <<"none">>]
        /\ todo = Reads /\ wrote = {}
Read == /\ k < n
        /\ \E r \in todo : /\ got' = [got EXCEPT ![r] = mem[src + k + 1][r[2]]]
                           /\ todo' = todo \ {r}
        /\ UNCHANGED <<n, src, dst, mem, k, wrote>>
Write == /\ k < n
         /\ \E p \in Regs \ wrote :
              /\ \A q \in Needs(p) : <<p, q>> \notin todo
              /\ ReadFirst => todo = {}
              /\ mem' = [mem EXCEPT ![dst + k + 1][p] = <<"f", [q \in Needs(p) |-> got[<<p, q>>]]>>]
              /\ wrote' = wrote \cup {p}
         /\ UNCHANGED <<n, src, dst, k, got, todo>>
Advance == /\ k < n /\ wrote = Regs
           /\ k' = k + 1 /\ todo' = Reads /\ wrote' = {}
           /\ got' = [r \in Reads |-> <<"none">>]
           /\ UNCHANGED <<n, src, dst, mem>>
Next == Read \/ Write \/ Advance
Expected(e) == IF e - dst \in 1..n
               THEN [p \in Regs |-> <<"f", [q \in Needs(p) |-> <<"v", e - dst + src, q>>]>>]
               ELSE Orig[e]
Right == k = n => mem = [e \in 1..M |-> Expected(e)]
Disjoint == src # dst
RightIfDisjoint == Disjoint => Right
=============================================================================
