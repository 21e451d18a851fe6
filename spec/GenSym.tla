-------------------------------- MODULE GenSym --------------------------------
(* Programs for the symbolic machine, kept within exact single precision and    *)
(* moderate size by replacing instructions whose result would grow too large.   *)
EXTENDS SymMachine, Rand, Json, IOUtils
CONSTANTS Seed, N, Length, Mode
Names == <<<<97>>, <<98>>, <<97, 98>>, <<65>>, <<98, 49>>, <<120>>, <<101>>, <<97, 97>>>>
\* in the second form units are so small that sums come very near to zero without reaching it
Coefs == IF D = 16 THEN <<16, -16, 16, -16, 32, -32, 8, -8, 48, 4, -80, 1, 0, 160, -24, 16>>
         ELSE <<D, -D, D, -D, 2 * D, -2 * D, D \div 2, 1, -1, D + 1, -1 - D, D - 1, 1 - D, 0, 3, D \div 128>>
PolyMix == <<"mpush", "mpush", "mpush", "mmul", "mimul", "mclr", "mcpy", "cmp", "cmp", "deg",
             "ppush", "ppush", "ppush", "ppush", "ppush", "padd", "padd", "piadd", "piadd", "pmul", "pmul", "pimul", "pimul",
             "pneg", "pnegr", "padd", "pmul", "pimul">>
MVMix == <<"mpush", "mpush", "mpush", "mmul", "ppush", "ppush", "ppush", "ppush", "pclr", "pmul", "pneg",
           "xpush", "xpush", "xpush", "xpush", "xpush", "xpush", "xneg", "xnegr", "xrev", "xrevr",
           "xadd", "xadd", "xiadd", "xiadd", "xisub", "xisub", "xmul", "xmul", "xext", "xreg", "xdot",
           "ximul", "ximul", "xiext", "xireg", "xidot", "xreg", "xireg", "xext", "xdot">>
Sigs == <<<<3, 0, 1>>, <<3, 0, 1>>, <<3, 0, 1>>, <<3, 0, 1>>, <<2, 0, 0>>, <<3, 0, 0>>, <<1, 3, 0>>, <<4, 1, 0>>, <<0, 2, 0>>,
          <<2, 0, 1>>, <<1, 1, 2>>, <<0, 0, 3>>, <<2, 2, 1>>, <<3, 1, 1>>, <<1, 0, 0>>, <<5, 2, 1>>, <<3, 3, 3>>>>
IsPGA(sg) == sg = <<3, 0, 1>>
\* every sixth program may grow: many factors, far apart exponents, many terms
Wide(k) == k % 6 = 1
MonOK(k, m) == IF Wide(k) THEN Cardinality(DOMAIN m) <= 8 /\ \A v \in DOMAIN m : Abs(m[v]) <= 200000
               ELSE Cardinality(DOMAIN m) <= 4 /\ \A v \in DOMAIN m : Abs(m[v]) <= 6
PolyOK(k, p) == Cardinality(DOMAIN p) <= (IF Wide(k) THEN 48 ELSE 9) /\ Small(p) /\ \A m \in DOMAIN p : MonOK(k, m)
MVOK(k, x) == Cardinality(DOMAIN x) <= (IF Wide(k) THEN 24 ELSE 10) /\ \A b \in DOMAIN x : PolyOK(k, x[b])
Terms(x) == FoldSet(LAMBDA b, acc : acc + Cardinality(DOMAIN x[b]), 0, DOMAIN x)
Allowed(k, sg, r, i) ==
  CASE i.op \in {"pmul"} -> ExactMul(r.p[i.s], r.p[i.t]) /\ Cardinality(DOMAIN r.p[i.s]) * Cardinality(DOMAIN r.p[i.t]) <= (IF Wide(k) THEN 90 ELSE 30)
    [] i.op \in {"pimul"} -> ExactMul(r.p[i.d], r.p[i.s]) /\ Cardinality(DOMAIN r.p[i.s]) * Cardinality(DOMAIN r.p[i.d]) <= (IF Wide(k) THEN 90 ELSE 30)
    [] i.op \in {"xmul", "xext", "xdot", "xreg"} ->
         MVExactMul(r.x[i.s], r.x[i.t]) /\ Terms(r.x[i.s]) * Terms(r.x[i.t]) <= (IF Wide(k) THEN 120 ELSE 40) /\ (i.op = "xreg" => IsPGA(sg))
    [] i.op \in {"ximul", "xiext", "xidot", "xireg"} ->
         MVExactMul(r.x[i.d], r.x[i.s]) /\ Terms(r.x[i.s]) * Terms(r.x[i.d]) <= (IF Wide(k) THEN 120 ELSE 40) /\ (i.op = "xireg" => IsPGA(sg))
    [] OTHER -> TRUE
ResultOK(k, i, v) == CASE KindOf(i.op) = "m" -> MonOK(k, v) [] KindOf(i.op) = "p" -> PolyOK(k, v)
                    [] KindOf(i.op) = "x" -> MVOK(k, v) [] OTHER -> TRUE
Clear == [m |-> "mclr", p |-> "pclr", x |-> "xclr"]
\* an empty source says little: mostly fill it instead
Starved(r, i) ==
  CASE i.op \in {"padd", "pmul"} -> IF IsEmpty(r.p[i.s]) THEN <<"p", i.s>> ELSE IF IsEmpty(r.p[i.t]) THEN <<"p", i.t>> ELSE <<"none">>
    [] i.op \in {"piadd", "pneg", "pnegr", "xpush"} -> IF IsEmpty(r.p[i.s]) THEN <<"p", i.s>> ELSE <<"none">>
    [] i.op \in {"pimul"} -> IF IsEmpty(r.p[i.s]) THEN <<"p", i.s>> ELSE IF IsEmpty(r.p[i.d]) THEN <<"p", i.d>> ELSE <<"none">>
    [] i.op \in {"xadd", "xmul", "xext", "xreg", "xdot"} -> IF Terms(r.x[i.s]) < 2 THEN <<"x", i.s>> ELSE IF Terms(r.x[i.t]) < 2 THEN <<"x", i.t>> ELSE <<"none">>
    [] i.op \in {"xneg", "xnegr", "xrev", "xrevr", "xiadd", "xisub"} -> IF Terms(r.x[i.s]) < 2 THEN <<"x", i.s>> ELSE <<"none">>
    [] i.op \in {"ximul", "xiext", "xireg", "xidot"} -> IF Terms(r.x[i.s]) < 2 THEN <<"x", i.s>> ELSE IF Terms(r.x[i.d]) < 2 THEN <<"x", i.d>> ELSE <<"none">>
    [] OTHER -> <<"none">>
RECURSIVE Prog(_, _, _, _, _)
Prog(s, i, sg, r, k) ==
  IF k = 0 THEN << >>
  ELSE LET j == 20 * k
           n == 2^(sg[1] + sg[2] + sg[3])
           op == Pick(s, i, j, IF Mode = "poly" THEN PolyMix ELSE MVMix)
           nr == IF KindOf(op) = "x" THEN NX ELSE NM
           c0 == IF op = "mpush" THEN Pick(s, i, j + 5, IF Wide(i) /\ Rnd(s, i, j + 15, 3) = 0 THEN <<16, 17, -16, 128, 127, 256, 300, -300, 1000, 32768, -65536, 100>> ELSE <<1, 1, 2, -1, -1, 3, 0, -2>>)
                 ELSE IF op = "xpush" THEN Rnd(s, i, j + 5, n)
                 ELSE Pick(s, i, j + 5, Coefs)
           c == [op |-> op, d |-> 1 + Rnd(s, i, j + 1, nr), s |-> 1 + Rnd(s, i, j + 2, IF op = "xpush" THEN NM ELSE nr),
                 t |-> 1 + Rnd(s, i, j + 3, nr), v |-> Pick(s, i, j + 4, IF Mode = "poly" \/ Wide(i) THEN Names ELSE SubSeq(Names, 1, 3)), c |-> c0]
           st == Starved(r, c)
           full == {q \in 1..NM : ~IsEmpty(r.p[q])}
           pk(S) == CHOOSE q \in S : TRUE
           fillp(q) == [c EXCEPT !.op = "ppush", !.d = q, !.s = 1 + Rnd(s, i, j + 7, NM), !.c = Pick(s, i, j + 8, Coefs)]
           fill == IF st[1] = "p" THEN fillp(st[2])
                   ELSE IF full = {} THEN fillp(1 + Rnd(s, i, j + 9, NM))
                   ELSE LET r0 == 1 + Rnd(s, i, j + 11, NM)
                        IN [c EXCEPT !.op = "xpush", !.d = st[2], !.s = IF r0 \in full THEN r0 ELSE pk(full), !.c = Rnd(s, i, j + 10, n)]
           c2 == IF st[1] # "none" /\ Rnd(s, i, j + 6, 8) > 0 THEN fill ELSE c
           ok2 == Allowed(i, sg, r, c2) /\ (KindOf(c2.op) = "none" \/ ResultOK(i, c2, Effect(sg, r, c2)))
           ins == IF ok2 THEN c2 ELSE [c2 EXCEPT !.op = Clear[KindOf(c2.op)]]
           nx == Exec(sg, r, ins)
       IN <<ins>> \o Prog(s, i, sg, nx, k - 1)
\* programs that first build large values and then put each of them through every operation
RichMV == <<"xneg", "xnegr", "xrev", "xrevr", "xadd", "xiadd", "xisub", "xmul", "xext", "xreg", "xdot", "ximul", "xiext", "xireg", "xidot">>
RichPoly == <<"pneg", "pnegr", "padd", "piadd", "pmul", "pimul">>
RichProg(s, i, sg) ==
  LET n == 2^(sg[1] + sg[2] + sg[3])
      R(j, k) == Rnd(s, i, 5000 + j, k)
      I(op, d, a, b, v, c) == [op |-> op, d |-> d, s |-> a, t |-> b, v |-> v, c |-> c]
      nm(k) == Names[1 + ((k + R(1, 8)) % 8)]
      unit(j) == IF R(j, 2) = 0 THEN D ELSE IF D = 16 /\ R(j, 4) = 1 THEN 2 * D ELSE -D
      mon(d, k) == <<I("mclr", d, d, d, nm(0), 1), I("mpush", d, d, d, nm(k), Pick(s, i, 5010 + k, <<1, 1, 2, -1, 3>>))>>
      mons == mon(1, 0) \o mon(2, 1) \o mon(3, 2) \o mon(4, 3)
      \* p1 a sum of up to four monomials, p2 a sum of others, p3 their product, p4 the rest
      sum(d, ms, j) == <<I("pclr", d, d, d, nm(0), 1)>> \o [k \in 1..Len(ms) |-> I("ppush", d, ms[k], ms[k], nm(0), unit(20 + j + k))]
      p1 == sum(1, <<1, 2, 3, 4>>, 0)
      remon == mon(1, 4) \o mon(2, 5) \o mon(3, 6)
      p2 == sum(2, <<1, 2, 3>>, 10)
      p3 == <<I("pmul", 3, 1, 2, nm(0), 1)>> \o (IF R(2, 2) = 0 THEN <<I("ppush", 3, 1, 1, nm(0), D), I("ppush", 3, 2, 2, nm(0), -D)>> ELSE << >>)
      p4 == sum(4, <<1>>, 20)
      build == mons \o p1 \o remon \o p2 \o p3 \o p4
      big == IF R(3, 3) = 0 THEN <<I("pmul", 1, 3, 1, nm(0), 1)>> ELSE << >>     \* 48 terms
      rot == R(4, 15)
      x1 == <<I("xclr", 1, 1, 1, nm(0), 1)>> \o [k \in 1..6 |-> I("xpush", 1, IF k % 3 = 0 THEN 4 ELSE IF k % 3 = 1 THEN 3 ELSE 2, 1, nm(0), R(40 + k, n))]
      x2 == <<I("xclr", 2, 1, 1, nm(0), 1)>> \o [k \in 1..3 |-> I("xpush", 2, IF k = 1 THEN 2 ELSE 4, 1, nm(0), R(50 + k, n))]
      copy == <<I("xclr", 3, 1, 1, nm(0), 1), I("xiadd", 3, 1, 1, nm(0), 1)>>
      use(op) == IF op = "xreg" /\ ~IsPGA(sg) THEN << >>
                 ELSE IF op = "xireg" /\ ~IsPGA(sg) THEN << >>
                 ELSE IF op \in {"xneg", "xnegr", "xrev", "xrevr"} THEN <<I(op, 3, 1, 1, nm(0), 1)>>
                 ELSE IF op \in {"xiadd", "xisub", "ximul", "xiext", "xireg", "xidot"} THEN copy \o <<I(op, 3, 2, 2, nm(0), 1)>>
                 ELSE IF R(60, 2) = 0 THEN <<I(op, 3, 1, 2, nm(0), 1)>> ELSE <<I(op, 3, 2, 1, nm(0), 1)>>
      usep(op) == IF op \in {"piadd", "pimul"} THEN <<I("pclr", 4, 1, 1, nm(0), 1), I("piadd", 4, 3, 3, nm(0), 1), I(op, 4, 2, 2, nm(0), 1)>>
                  ELSE IF op \in {"pneg", "pnegr"} THEN <<I(op, 4, IF big = << >> THEN 3 ELSE 1, 3, nm(0), 1)>>
                  ELSE <<I(op, 4, 3, 2, nm(0), 1)>>
      cat(f(_), q) == FoldSeq(LAMBDA op, acc : acc \o f(op), << >>, q)
      \* monomials that share most of their factors, compared with each other
      base == [k \in 1..6 |-> I("mpush", 1, 1, 1, nm(k - 1), Pick(s, i, 5100 + k, <<1, 1, 1, 2, -1>>))]
      share == <<I("mclr", 1, 1, 1, nm(0), 1)>> \o base \o <<I("mcpy", 2, 1, 1, nm(0), 1), I("mcpy", 3, 1, 1, nm(0), 1), I("mcpy", 4, 1, 1, nm(0), 1),
                 I("mpush", 1, 1, 1, nm(6), 1), I("mpush", 2, 2, 2, nm(7), 1), I("mpush", 3, 3, 3, nm(R(70, 6)), 1), I("mpush", 4, 4, 4, nm(6), 2), I("mpush", 4, 4, 4, nm(R(71, 6)), -1)>>
               \o [k \in 1..12 |-> I("cmp", 1, 1 + ((k - 1) % 4), 1 + ((((k - 1) % 4) + 1 + ((k - 1) \div 4)) % 4), nm(0), 1)]
               \o sum(4, <<1, 2, 3, 4>>, 60) \o <<I("padd", 3, 4, 3, nm(0), 1), I("pmul", 2, 4, 4, nm(0), 1), I("mmul", 3, 1, 2, nm(0), 1), I("deg", 3, 3, 3, nm(0), 1)>>
  IN IF Mode = "poly" THEN share \o build \o big \o cat(usep, RichPoly)
     ELSE build \o x1 \o x2 \o cat(use, [k \in 1..15 |-> RichMV[1 + ((k + rot) % 15)]]) \o <<I("xisub", 3, 3, 3, nm(0), 1)>>
Program(s, i) == LET sg == IF Mode = "poly" THEN <<3, 0, 1>> ELSE Pick(s, i, 9991, Sigs)
                 IN [sig |-> sg, steps |-> IF i % 12 = 5 THEN RichProg(s, i, sg) ELSE Prog(s, i, sg, InitRegs, Length)]
VARIABLE done
Init == done = FALSE
Next == ~done /\ ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> Program(Seed, i)]) /\ done' = TRUE
=============================================================================
