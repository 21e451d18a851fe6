------------------------------- MODULE TraceLang -------------------------------
(* Recorded answers of the parser.                                              *)
EXTENDS Lang, Json, IOUtils
Rows == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES l, at
Init == l \in 1..Len(Rows) /\ at = 0
Right(e) ==
  IF Len(e.text) = 0 /\ e.huge = 1 THEN e.r \in {"ok", "err"}
  ELSE IF TextDepth(e.text) > 100 THEN e.r \in {"ok", "err"}
  ELSE LET x == Value(e.text, e.sig)
       IN IF ~x.ok THEN e.r = "err"
          ELSE /\ e.r = "ok"
               /\ x.ex => e.v = MVSeq(x.v) /\ (PrintableMV(x.v) => e.s = MVStr(x.v))
Next == LET e == Rows[l]
        IN /\ at = 0
           /\ at' = 1
           /\ UNCHANGED l
           /\ IF Right(e) THEN TRUE ELSE PrintT(<<"REJECT", e.i, Value(e.text, e.sig).ok>>)
=============================================================================
