------------------------------- MODULE TraceShell ------------------------------
(* Shell sessions: the state is how far the script and the recorded streams     *)
(* have been followed; one action per kind of line.                             *)
EXTENDS Lang, Json, IOUtils
Runs == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES run, pos, out, mix, errs, phase
vars == <<run, pos, out, mix, errs, phase>>
R == Runs[run]
L == R.lines[pos]
Init == run \in 1..Len(Runs) /\ pos = 1 /\ out = 0 /\ mix = 0 /\ errs = 0 /\ phase = "run"
\* the next line on standard output, and in the merged stream, is t
Says(t) == /\ out < Len(R.out) /\ R.out[out + 1] = t
           /\ mix < Len(R.mix) /\ R.mix[mix + 1] = t
SaysSome == out < Len(R.out) /\ R.out[out + 1] # << >> /\ mix < Len(R.mix) /\ R.mix[mix + 1] = R.out[out + 1]
Complains == errs < Len(R.err) /\ mix < Len(R.mix) /\ R.mix[mix + 1] = R.err[errs + 1] /\ R.err[errs + 1] # << >>
\* a line with one number, of which the answer is a multiple: what is answered for seven,
\* with the number in the place of the seven
NumStarts(t) == {k \in 1..Len(t) : Numeric(t[k]) /\ (k = 1 \/ ~(Alnum(t[k - 1]) \/ t[k - 1] = 46))}
Decimal(t) ==
  LET S == NumStarts(t)
  IN IF Cardinality(S) # 1 THEN [ok |-> FALSE, s |-> << >>]
     ELSE LET a == CHOOSE k \in S : TRUE
              b == NumEnd(t, a)
              x == Value(SubSeq(t, 1, a - 1) \o <<55>> \o SubSeq(t, b, Len(t)), ShellSig)
              y == Value(SubSeq(t, 1, a - 1) \o <<57>> \o SubSeq(t, b, Len(t)), ShellSig)
              num == DecShow(SubSeq(t, a, b - 1))
          IN IF ~num.ok \/ num.s = <<49>> \/ ~x.ok \/ ~x.ex \/ ~y.ok \/ ~y.ex THEN [ok |-> FALSE, s |-> << >>]
             ELSE IF ~PrintableMV(x.v) \/ ~PrintableMV(y.v) THEN [ok |-> FALSE, s |-> << >>]
             ELSE LET w == MVStr(x.v)
                      sev == {k \in 1..Len(w) : w[k] = 55}
                      k0 == CHOOSE k \in sev : TRUE
                  IN IF Cardinality(sev) # 1 THEN [ok |-> FALSE, s |-> << >>]
                     ELSE IF MVStr(y.v) # [w EXCEPT ![k0] = 57] THEN [ok |-> FALSE, s |-> << >>]
                     ELSE [ok |-> TRUE, s |-> SubSeq(w, 1, k0 - 1) \o num.s \o SubSeq(w, k0 + 1, Len(w))]
\* the kinds of line
Answer == pos <= Len(R.lines) /\ Kind(L) = "expr" /\ LET x == Value(L, ShellSig)
   IN x.ok /\ (IF x.ex /\ PrintableMV(x.v) THEN Says(MVStr(x.v))
               ELSE IF x.ex THEN SaysSome ELSE LET d == Decimal(L) IN IF d.ok THEN Says(d.s) ELSE SaysSome) /\ out' = out + 1 /\ mix' = mix + 1 /\ UNCHANGED errs
Refuse == pos <= Len(R.lines) /\ Kind(L) = "expr" /\ ~Value(L, ShellSig).ok /\ Complains /\ errs' = errs + 1 /\ mix' = mix + 1 /\ UNCHANGED out
Echo == pos <= Len(R.lines) /\ Kind(L) = "comment" /\ Says(L) /\ out' = out + 1 /\ mix' = mix + 1 /\ UNCHANGED errs
Blank == pos <= Len(R.lines) /\ Kind(L) = "blank" /\ Says(<< >>) /\ out' = out + 1 /\ mix' = mix + 1 /\ UNCHANGED errs
Silent == pos <= Len(R.lines) /\ Kind(L) = "command" /\ UNCHANGED <<out, mix, errs>>
Finished == pos = Len(R.lines) + 1 /\ out = Len(R.out) /\ mix = Len(R.mix) /\ errs = Len(R.err) /\ R.rc = 0 /\ UNCHANGED <<out, mix, errs>>
Next ==
  /\ phase = "run"
  /\ UNCHANGED run
  /\ IF ENABLED (Answer \/ Refuse \/ Echo \/ Blank \/ Silent)
     THEN (Answer \/ Refuse \/ Echo \/ Blank \/ Silent) /\ pos' = pos + 1 /\ UNCHANGED phase
     ELSE IF ENABLED Finished THEN phase' = "done" /\ UNCHANGED <<pos, out, mix, errs>>
     ELSE PrintT(<<"REJECT", R.i, pos>>) /\ phase' = "rejected" /\ UNCHANGED <<pos, out, mix, errs>>
=============================================================================
