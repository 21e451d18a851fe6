------------------------------- MODULE TraceLong ------------------------------
(* The recorded array, given as stretches that repeat with the period of the   *)
(* operand array, must be the array after the application.                      *)
EXTENDS Batch, Json, IOUtils
Progs == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES l
\* positions count from 0; residue classes suffice within a part where nothing changes but the phase
Before(e, k) == e.mem[1 + (k % e.p)]
RECURSIVE Covers(_, _, _)
Covers(segs, j, at) == IF j > Len(segs) THEN at ELSE IF segs[j].from # at THEN -1 ELSE Covers(segs, j + 1, at + segs[j].len)
OK(e) ==
  LET img == TLCEval([c \in 1..e.p |-> Apply(e.M, e.T, e.v, e.mem[c])])
      want(k) == IF k >= e.dst /\ k < e.dst + e.n THEN img[1 + ((k - e.dst + e.src) % e.p)] ELSE Before(e, k)
      got(s, k) == s.first[1 + ((k - s.from) % e.p)]
  IN /\ e.ok = 0 /\ Legal(e, e.m)
     /\ Covers(e.segs, 1, 0) = e.m
     /\ \A j \in 1..Len(e.segs) : LET s == e.segs[j] IN \A k \in s.from..(s.from + s.len - 1) : got(s, k) = want(k)
Init == l = 0
Next == /\ l < Len(Progs)
        /\ l' = l + 1
        /\ IF OK(Progs[l + 1]) THEN TRUE ELSE PrintT(<<"REJECT", Progs[l + 1].i, 0>>)
Done == TLCGet("distinct") = Len(Progs) + 1
=============================================================================
