--------------------------------- MODULE Walk ---------------------------------
(* Long histories of small motions.  Registers: a motor M, a rotor R, a         *)
(* translator T, a point P, a plane Q, a line L.  The generators m, r, t are    *)
(* the exponentials of one small line, its real part and its ideal part.  A     *)
(* step composes a register with a generator (on either side, or dividing by    *)
(* it), puts M together from R and T, normalizes, or moves P, Q or L.  Walks     *)
(* that mix the generators set off from a rotation and translation of any size. *)
(* Every step is the product it stands for; and when all steps use one          *)
(* generator, a register that went through c of them is the exponential of c    *)
(* times its logarithm, and an object that was moved c times is the original    *)
(* moved by that.                                                               *)
EXTENDS Approx
RegT == [M |-> "motor", R |-> "rotor", T |-> "trans", P |-> "point", Q |-> "plane", L |-> "line"]
Regs == DOMAIN RegT
GenT == [m |-> "motor", r |-> "rotor", t |-> "trans"]
\* <<name, register, form, generator>>
WOp(n, d, f, g) == [n |-> n, d |-> d, f |-> f, g |-> g]
MovesBy(g) == << WOp(g \o "(P)", "P", "act", g), WOp(g \o "(Q)", "Q", "act", g), WOp(g \o "(L)", "L", "act", g) >>
ComposeM(g) == << WOp(g \o "*M", "M", "left", g), WOp("M*" \o g, "M", "right", g), WOp("M/" \o g, "M", "over", g) >>
NormM == << WOp("nM", "M", "norm", "") >>
NormR == << WOp("nR", "R", "norm", "") >>
ByM == ComposeM("m") \o MovesBy("m") \o NormM
ByR == ComposeM("r") \o << WOp("r*R", "R", "left", "r"), WOp("R*r", "R", "right", "r"), WOp("R/r", "R", "over", "r") >>
       \o MovesBy("r") \o NormM \o NormR
ByT == ComposeM("t") \o << WOp("t*T", "T", "left", "t"), WOp("T*t", "T", "right", "t"), WOp("T/t", "T", "over", "t") >>
       \o MovesBy("t") \o NormM
Joint == << WOp("R*T", "M", "RT", ""), WOp("T*R", "M", "TR", ""), WOp("R*M", "M", "RM", ""), WOp("M*R", "M", "MR", ""),
            WOp("T*M", "M", "TM", ""), WOp("M*T", "M", "MT", "") >>
WalkOps == [m |-> ByM, r |-> ByR, t |-> ByT, mix |-> ByM \o ByR \o ByT \o Joint]
AllWalkOps == WalkOps["mix"]
WOpNo == [n \in {AllWalkOps[k].n : k \in 1..Len(AllWalkOps)} |-> CHOOSE k \in 1..Len(AllWalkOps) : AllWalkOps[k].n = n]

\* registers s and generators g hold multivectors; z is the new content of register o.d
Tol(o, s, z) == 24 + (L1(z) + MaxAbs([b \in 1..16 |-> s[o.d][b - 1]])) \div 2^19
Holds(o, s, g, z) ==
  LET Z == FToMV(RegT[o.d], z)  X == s[o.d]  t == Tol(o, s, z)
      same(Y) == CloseMV(Z, Y, t)
  IN CASE o.f = "left"  -> same(FGP(g[o.g], X))
       [] o.f = "right" -> same(FGP(X, g[o.g]))
       [] o.f = "over"  -> CloseMV(FGP(Z, g[o.g]), X, 2 * t)
       [] o.f = "act"   -> same(FGP(FGP(g[o.g], X), Rev(g[o.g])))
       [] o.f = "norm"  -> LET q == FGP(Rev(X), X)
                           IN \* the norm is close to one, the first correction suffices
                              /\ Close(q[0], ONE, ONE \div 1024)
                              /\ CloseMV(FGP(Z, [b \in Blade |-> IF b = 0 THEN ONE + (q[0] - ONE) \div 2 ELSE IF b = 15 THEN q[15] \div 2 ELSE 0]), X, 2 * t)
       [] o.f = "RT" -> same(FGP(s.R, s.T))  [] o.f = "TR" -> same(FGP(s.T, s.R))
       [] o.f = "RM" -> same(FGP(s.R, s.M))  [] o.f = "MR" -> same(FGP(s.M, s.R))
       [] o.f = "TM" -> same(FGP(s.T, s.M))  [] o.f = "MT" -> same(FGP(s.M, s.T))
\* a step whose product is too large for the fixed point of this walk: the walk is followed no further
Leaves(o, s, g) ==
  LET X == s[o.d]
      W == CASE o.f = "left"  -> FGP(g[o.g], X)
             [] o.f = "right" -> FGP(X, g[o.g])
             [] o.f = "over"  -> FGP(X, Rev(g[o.g]))
             [] o.f = "act"   -> FGP(FGP(g[o.g], X), Rev(g[o.g]))
             [] o.f = "norm"  -> X
             [] o.f = "RT" -> FGP(s.R, s.T)  [] o.f = "TR" -> FGP(s.T, s.R)
             [] o.f = "RM" -> FGP(s.R, s.M)  [] o.f = "MR" -> FGP(s.M, s.R)
             [] o.f = "TM" -> FGP(s.T, s.M)  [] o.f = "MT" -> FGP(s.M, s.T)
  IN \E b \in Blade : Abs(W[b]) > 15 * ONE
Count(o, c) == IF o.f \in {"left", "right", "act"} THEN c + 1 ELSE IF o.f = "over" THEN c - 1 ELSE c
\* the logarithm of the generator of a one-generator walk, times c
LogOf(kind, v, den, c) ==
  LET x == FToMV("line", [j \in 1..6 |-> FRat(c * v[j], den)])
  IN CASE kind = "m" -> x
       [] kind = "r" -> TLCEval([b \in Blade |-> IF b \in {6, 10, 12} THEN x[b] ELSE 0])
       [] kind = "t" -> TLCEval([b \in Blade |-> IF b \in {6, 10, 12} THEN 0 ELSE x[b]])
\* register d after n steps, c of them its own
Power(kind, v, den, d, c, n, now, start) ==
  LET G == FExp(LogOf(kind, v, den, c))
      m == MaxAbs([b \in 1..16 |-> now[b - 1]])
      t == 160 + 4 * n + n * (m \div 2^20)
  IN IF d \in {"M", "R", "T"} THEN CloseMV(now, G, t) ELSE CloseMV(now, FGP(FGP(G, start), Rev(G)), t)
=============================================================================
