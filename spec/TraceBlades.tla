------------------------------ MODULE TraceBlades ------------------------------
(* Recorded rows of the multiplication tables of algebras of any signature.     *)
EXTENDS Sym, Json, IOUtils
Rows == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES l, at
Init == l \in 1..Len(Rows) /\ at = 0
Code(r) == r[2] * (r[1] + 1)           \* a signed blade as the library encodes it, 0 if it vanishes
N_(s) == s[1] + s[2] + s[3]
PGA3(s) == s = <<3, 0, 1>>
Right(e) ==
  /\ e.ok = 1
  /\ e.pss = 2^N_(e.sig) - 1
  /\ e.rev = (IF RevSign(Grade(N_(e.sig), e.a)) = 1 THEN 0 ELSE 1)
  /\ \A x \in {e.eqs[k] : k \in 1..Len(e.eqs)} : x[4] = (IF <<x[1], x[2], x[3]>> = e.sig THEN 1 ELSE 0)
  /\ PGA3(e.sig) => e.dual = Code(SymJ(e.a))
Wrong(e) == {k \in 1..e.n : LET b == e.b + k - 1
                            IN ~ (/\ e.mul[k] = Code(SymGP(e.sig, e.a, b))
                                  /\ e.ext[k] = Code(SymExt(e.sig, e.a, b))
                                  /\ e.dot[k] = Code(SymDot(e.sig, e.a, b))
                                  /\ PGA3(e.sig) => e.reg[k] = Code(SymReg(e.sig, e.a, b)))}
Next == LET e == Rows[l]
            w == IF Right(e) THEN Wrong(e) ELSE {0}
        IN /\ at = 0
           /\ at' = 1
           /\ UNCHANGED l
           /\ IF w = {} THEN TRUE ELSE PrintT(<<"REJECT", e.i, CHOOSE k \in w : TRUE>>)
=============================================================================
