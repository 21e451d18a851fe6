------------------------------- MODULE GenApprox ------------------------------
(* Cases for the relational operations.  An operand component is the rational  *)
(* a/den (times pi if flagged), times 2^x where x is invisible to the          *)
(* specification because the operation is homogeneous in it; the result is     *)
(* reported divided by 2^rx.                                                  *)
EXTENDS Approx, Cases, Json, IOUtils
CONSTANTS Group, Seed, N
Tiny(ks) == SelectSeq(TinyOps, LAMBDA o : o.k \in ks)
OpsOf == [inv |-> InvOps \o DivOps, gppt |-> PointGP, norm |-> NormOps, sdiv |-> SDivOps,
          sqrt |-> SqrtOps, exp |-> ExpOps, log |-> LogOps, ctor |-> CtorOps,
          euler |-> EulerOps, metric |-> MetricOps, capi |-> CapiAOps,
          texp |-> Tiny({"texp"}), tlog |-> Tiny({"tlog"}), tsqrt |-> Tiny({"tsqrt"}), tctor |-> Tiny({"trotoraa", "tscrew"}),
          teuler |-> Tiny({"teuler", "taseuler"}),
          tactr |-> SelectSeq(Tiny({"tact"}), LAMBDA o : o.n \in {"tiny_act_rotor_" \o t : t \in {"plane", "branch", "line", "point", "dir"}}),
          tglsl |-> SelectSeq(TinyOps, LAMBDA o : o.n \in {"tiny_glsl_rotor_plane", "tiny_glsl_motor_plane", "tiny_glsl_rotor_point", "tiny_glsl_motor_point", "tiny_glsl_motor_origin"}),
          tcapi |-> SelectSeq(TinyOps, LAMBDA o : o.n \in {"tiny_c_rotate_point", "tiny_c_rotate_line", "tiny_c_rotate_plane", "tiny_c_motor_point", "tiny_c_motor_line", "tiny_c_motor_plane"}),
          tactm |-> SelectSeq(Tiny({"tact", "tacto"}), LAMBDA o : o.n \in {"tiny_act_motor_" \o t : t \in {"plane", "line", "point", "dir", "origin"}}),
          tactx |-> SelectSeq(Tiny({"tact"}), LAMBDA o : o.n \in {k \o m \o "_point" : k \in {"tiny_mat4_", "tiny_mat3_"}, m \in {"rotor", "motor"}}),
       any |-> InvOps \o DivOps \o NormOps \o SDivOps \o SqrtOps \o ExpOps \o LogOps \o CtorOps \o EulerOps \o MetricOps \o CapiAOps]

A(v, den) == [v |-> v, den |-> den, pi |-> 0]
SqI(v) == LET f(i) == v[i] * v[i] IN IF Len(v) = 3 THEN f(1) + f(2) + f(3) ELSE f(1) + f(2) + f(3) + f(4)

\* ---- every fourth case shares something with the one before
Kin(i) == IF i % 4 = 3 THEN i - 1 ELSE i
\* ---- rational unit objects
QSq(r) == FromMV("rotor", GP(ToMV("rotor", r), ToMV("rotor", r)))
SmallRotor(s, i, slot) ==
  LET m == Rnd(s, i, 100 * slot + 59, 16)
  IN CASE m = 0 -> <<20, 1, 0, 0>>                       \* small angle
       [] m = 1 -> <<50, 1, -2, 1>>
       [] m = 2 -> <<1, 1, 0, 0>>                        \* half turn after squaring
       [] m = 3 -> <<3, 2, -2, 1>>                       \* half turn about a general axis
       [] m = 4 -> <<1, 0, 0, 0>>
       [] m = 5 -> <<300, 1, -1, 1>>
       [] m = 6 -> <<0, 0, 1, 0>>                        \* minus one
       [] m = 7 -> Pick(s, i, 100 * slot + 58, << <<41, 29, -29, 0>>, <<99, 70, 0, 70>>, <<26, 15, 15, -15>>, <<97, 56, -56, 56>>,
                                                  <<7, 5, 0, 5>>, <<17, 0, 12, 12>> >>)   \* almost a half turn
       [] m = 14 -> Pick(s, i, 100 * slot + 58, << <<5, 1, 0, 0>>, <<6, 1, 0, 0>>, <<8, 1, 1, 1>>, <<10, 1, -1, 0>>, <<9, -1, 0, 1>>,
                                                   <<7, 0, 0, -1>>, <<12, 1, 2, 1>>, <<4, 0, 1, 0>> >>)   \* squares and negated squares near a full turn
       [] OTHER -> RandRotor(s, i, slot)
UnitQ(s, i, slot) == LET r == SmallRotor(s, i, slot) IN A(QSq(r), SqI(r))
\* translation <<t>>/4 after the unit rotation q
UnitM(s, i, slot) ==
  LET q == UnitQ(s, Kin(i), slot)
      t == RandTrans(s, i, slot)
      T == [b \in Blade |-> IF b = 0 THEN 4 ELSE ToMV("trans", t)[b]]
  IN A(FromMV("motor", GP(T, ToMV("rotor", q.v))), 4 * q.den)
UnitBranch(s, i, slot) ==
  Pick(s, i, slot, << A(<<1,0,0>>,1), A(<<0,-1,0>>,1), A(<<0,0,1>>,1), A(<<1,2,2>>,3), A(<<-2,1,2>>,3),
                      A(<<2,3,6>>,7), A(<<3,0,-4>>,5), A(<<-1,4,8>>,9), A(<<4,-4,7>>,9), A(<<-6,6,7>>,11) >>)
UnitLine(s, i, slot) ==  \* unit branch u and moment m with u.m = 0 or not (screw pitch in the line)
  LET u == UnitBranch(s, i, slot)
      p == [j \in 1..3 |-> Rnd(s, i, 100 * slot + 30 + j, 9) - 4]
      w == u.v
      m == << p[2] * w[3] - p[3] * w[2], p[3] * w[1] - p[1] * w[3], p[1] * w[2] - p[2] * w[1] >>
  IN A(m \o w, u.den)

\* ---- generic normalizable operands over quarters
NZ(v, from, n, s, i) == IF \A j \in from..(from + n - 1) : v[j] = 0
                        THEN [v EXCEPT ![from + Rnd(s, i, 333, n)] = 5] ELSE v
\* real part not much smaller than the rest
Lift(v, from, n, s, i) == LET w == NZ(v, from, n, s, i)
                              q == Slice(w, from, n)
                          IN IF MaxAbs(q) < 3 THEN [j \in 1..Len(v) |-> IF j \in from..(from + n - 1) THEN 3 * w[j] ELSE w[j]] ELSE w
\* of norm one, or off by one part in 64, 256 or 1024
OffUnit(q, s, i, slot) ==
  LET K == IF q.den > 2000 THEN 1 ELSE Pick(s, i, 780 + slot, <<1, 64, 256, 1024, 64, 256, 1024>>)
      m == IF K = 1 THEN 1 ELSE IF Rnd(s, i, 784 + slot, 2) = 0 THEN K + 1 ELSE K - 1
  IN A([j \in 1..Len(q.v) |-> m * q.v[j]], K * q.den)
UnitLike(T, s, i, slot) ==
  LET d == UnitBranch(s, i, slot)
      v == RandPlain(s, i, slot, T)
  IN CASE T = "plane" -> A(<<v[1]>> \o d.v, d.den)
       [] T = "point" -> A(<<4, v[2], v[3], v[4]>>, 4)
       [] T = "line"  -> UnitLine(s, i, slot)
       [] T = "motor" -> UnitM(s, i, slot)
       [] T = "rotor" -> UnitQ(s, i, slot)
       [] T = "trans" -> A(RandTrans(s, i, slot), 4)
       [] OTHER -> d
AsIs(T, s, i, slot) ==
  LET v == RandPlain(s, i, slot, T)
  IN CASE T = "plane" -> A(Lift(v, 2, 3, s, i), 4)
       [] T = "point" -> A(Lift(v, 1, 1, s, i), 4)
       [] T = "line"  -> A(Lift(v, 4, 3, s, i), 4)
       [] T = "motor" -> LET w == Rnd(s, i, 777, 4)
                             g == FromMV("motor", GP(ToMV("trans", RandTrans(s, i, slot)), ToMV("rotor", Lift(RandRotor(s, i, slot), 1, 4, s, i))))
                             K == Pick(s, i, 778, <<64, 256, 1024, 4096>>)
                             at == 5 + Rnd(s, i, 779, 4)
                         IN IF w = 0 THEN A(Lift(v, 1, 4, s, i), 4)
                            \* a motion up to a small pseudoscalar
                            ELSE IF w = 1 /\ MaxAbs(g) < 64 THEN A([j \in 1..8 |-> K * g[j] + (IF j = at THEN Pick(s, i, 776, <<1, -1, 2, -3>>) ELSE 0)], 4 * K)
                            ELSE A(g, 4)
       [] T = "trans" -> A(RandTrans(s, i, slot), 2)
       [] OTHER -> A(Lift(v, 1, Len(v), s, i), 4)
Norml(T, s, i, slot) ==
  IF T # "trans" /\ Rnd(s, i, 787 + slot, 5) = 0 THEN OffUnit(UnitLike(T, s, i, slot), s, i, slot) ELSE AsIs(T, s, i, slot)
AnyV(T, s, i, slot) == A(IF T = "motor" THEN RandRigid(s, i, slot) ELSE RandPlain(s, i, slot, T), 4)
\* small enough for its quotient by another to fit in fixed point
ToDivide(T, s, i) == LET a == AnyV(T, s, i, 1)
                     IN IF \A j \in 1..Len(a.v) : SAbs(a.v[j]) <= (IF T = "motor" THEN 60 ELSE 200) THEN a
                        ELSE IF T = "motor" THEN A([j \in 1..8 |-> IF j <= 4 THEN (a.v[j] % 7) - 3 ELSE 0], 4) ELSE A(RandPlain(s, i, 1, T), 4)

ExpDen == <<1, 2, 4, 5, 7, 16, 40, 90, 250, 600>>      \* down to rotations by a thousandth
AngleDen == <<1, 2, 3, 4, 6, 7>>
RandAngle(s, i, slot, lim) ==   \* multiples of pi/den, or plain rationals
  IF Rnd(s, i, 54 + slot, 6) = 0 THEN A(<<Rnd(s, i, 51 + slot, 41) - 20>>, Pick(s, i, 55 + slot, <<50, 200, 500>>))   \* small
  ELSE IF Rnd(s, i, 50 + slot, 3) = 0 THEN A(<<Rnd(s, i, 51 + slot, 2 * 3 * lim + 1) - 3 * lim>>, 3)
  ELSE LET d == Pick(s, i, 52 + slot, AngleDen)
       IN [v |-> <<Rnd(s, i, 53 + slot, ((2 * d * lim) \div 3) + 1) - ((d * lim) \div 3)>>, den |-> d, pi |-> 1]

\* not close to a full turn
AwayFromFull(q, f) == q.v[1] * 1000 > -f * q.den
UnitAway(gen(_, _, _), s, i, slot, f) ==
  LET q == gen(s, i, slot) IN IF AwayFromFull(q, f) THEN q
                              ELSE [q EXCEPT !.v = [j \in 1..Len(q.v) |-> -q.v[j]]]
\* ... unless it does not rotate at all
AwayOrMinusOne(gen(_, _, _), s, i, slot, f) ==
  LET q == gen(s, i, slot) IN IF q.v[2] = 0 /\ q.v[3] = 0 /\ q.v[4] = 0 THEN q ELSE UnitAway(gen, s, i, slot, f)
\* flip sign at random to have negative scalars as well
Flip(q, s, i) == IF Rnd(s, Kin(i), 444, 2) = 0 THEN q ELSE [q EXCEPT !.v = [j \in 1..Len(q.v) |-> -q.v[j]]]
UnitQF(s, i, slot) == Flip(UnitQ(s, i, slot), s, i)
UnitMF(s, i, slot) == Flip(UnitM(s, i, slot), s, i)

ScalarDiv(o, s, i) ==
  IF o.k \in {"sdivc", "idivc"} /\ i % 3 = 0 THEN A(<<Pick(s, i, 60, <<1, -1, 3, -5, 7>>)>>, 1)   \* times 2^15: see Hid
  ELSE IF o.k \in {"sdivc", "idivc"} THEN A(<<Pick(s, i, 61, <<1, 2, 3, -1, -3, 5, 7, -6, 9>>)>>, 1)
  ELSE A(<<Pick(s, i, 62, <<1, 2, 3, -4, 5, 7, -9, 11, 6, -1>>)>>, Pick(s, i, 63, <<1, 2, 3, 4>>))

\* roll, pitch, yaw by rational half angles, the pitch close to (and beyond) the poles
HalfAng == << <<1, 0, 1>>, <<4, 3, 5>>, <<12, 5, 13>>, <<3, 4, 5>>, <<15, -8, 17>>, <<5, -12, 13>>, <<0, 1, 1>>, <<7, -24, 25>> >>
PolePitch == << <<20, 21, 29>>, <<21, 20, 29>>, <<55, 48, 73>>, <<48, 55, 73>>, <<72, 65, 97>>, <<65, 72, 97>>, <<120, 119, 169>>,
                <<119, 120, 169>>, <<4, 3, 5>>, <<697, 696, 985>>, <<45, 28, 53>>, <<105, 88, 137>>, <<91, 60, 109>>, <<77, 36, 85>> >>
NearPole(s, i) ==
  LET h(p, j) == LET v == Pick(s, i, j, p) IN v
      r == h(HalfAng, 71)  p == h(PolePitch, 72)  y == h(HalfAng, 73)
      sg == IF Rnd(s, i, 74, 2) = 0 THEN 1 ELSE -1
      m(v) == ToMV("rotor", v)
  IN A(FromMV("rotor", GP(GP(m(<<r[1], r[2], 0, 0>>), m(<<p[1], 0, sg * p[2], 0>>)), m(<<y[1], 0, 0, y[2]>>))), r[3] * p[3] * y[3])
\* motors and rotors close to the identity, as first-order data
NearId(T, s, i) ==
  LET v == NZ(RandPlain(s, i, 1, "line"), 4, 3, s, i)
      q == GP(ToMV("line", v), ToMV("line", v))[15] \div 2
  IN IF T = "rotor" THEN A(<<16, 4 * v[4], 4 * v[5], 4 * v[6]>>, 16)
     ELSE A(<<16, 4 * v[4], 4 * v[5], 4 * v[6], 4 * v[1], 4 * v[2], 4 * v[3], q>>, 16)
\* an object along one axis: what a small motion does to it shows by itself in the other components
AlongAxis(T, s, i) ==
  LET k == 1 + Rnd(s, i, 56, 3)
      a == Pick(s, i, 57, <<4, -4, 6, -9, 12, 3>>)
      b == Pick(s, i, 58, <<0, 4, -2, 7, 8>>)
      ax(c) == [j \in 1..3 |-> IF j = k THEN c ELSE 0]
  IN CASE T \in {"plane", "point"} -> A(<<b>> \o ax(IF b # 0 /\ T = "point" /\ Rnd(s, i, 59, 3) = 0 THEN 0 ELSE a), 4)
       [] T = "line" -> A(ax(b) \o ax(a), 4)
       [] OTHER -> A(ax(a), 4)
SmallQ(s, i, j) == A(<<Rnd(s, i, j, 37) - 18>>, 4)
EulerSpecial == << <<0,0,0>>, <<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<0,2,0>>, <<1,2,0>>, <<0,2,1>>, <<2,2,1>>, <<0,-2,0>>,
                   <<1,-2,0>>, <<0,-2,1>>, <<2,0,2>>, <<1,0,1>>, <<2,1,2>>, <<1,1,1>>, <<-1,1,-1>>, <<2,0,0>>, <<0,0,2>>, <<1,-1,3>>, <<3,1,-2>> >>
Args(o, s, i) ==
  CASE o.k = "texp" -> <<IF o.a[1] = "line" THEN A(NZ(RandPlain(s, i, 1, "line"), 4, 3, s, i), 4)
                         ELSE A(NZ(RandPlain(s, i, 1, "branch"), 1, 3, s, i), 4)>>
    [] o.k \in {"tlog", "tsqrt"} -> <<NearId(o.a[1], s, i)>>
    [] o.k = "taseuler" -> <<NearId("rotor", s, i)>>
    [] o.k = "tact" -> <<NearId(o.a[1], s, i),
                         \* 3x4 matrices take the weight for one
                         IF o.n \in {"tiny_mat3_rotor_point", "tiny_mat3_motor_point"} THEN [AlongAxis("point", s, i) EXCEPT !.v[1] = 4] ELSE AlongAxis(o.r, s, i)>>
    [] o.k = "tacto" -> <<NearId("motor", s, i)>>
    [] o.k = "trotoraa" -> <<SmallQ(s, i, 51), Norml("dir", s, i, 2)>>
    [] o.k = "tscrew" -> <<IF Rnd(s, i, 50, 9) = 0 THEN A(<<0>>, 1) ELSE SmallQ(s, i, 51), SmallQ(s, i, 52), UnitLine(s, i, 3)>>
    [] o.k = "teuler" -> <<SmallQ(s, i, 51), SmallQ(s, i, 52), SmallQ(s, i, 53)>>
    [] o.k = "inv" -> <<Norml(o.r, s, i, 1)>>
    [] o.k \in {"div", "divpt", "gppt"} /\ i % 16 = 6 /\ o.a[1] = o.a[2] -> LET q == Norml(o.a[1], s, i, 2) IN <<q, q>>
    [] o.k \in {"div"} -> <<ToDivide(o.a[1], s, i), Norml(o.a[2], s, i, 2)>>
    [] o.k \in {"divpt", "gppt"} -> <<Norml("point", s, i, 1), Norml("point", s, i, 2)>>
    [] o.k \in {"norm", "dirctor"} -> <<Norml(o.r, s, i, 1)>>
    [] o.k \in {"sdiv", "sdivc", "idiv", "idivc"} -> <<ToDivide(o.a[1], s, i), ScalarDiv(o, s, i)>>
    [] o.k = "sqrt" /\ o.r = "rotor" -> <<UnitAway(UnitQF, s, i, 1, 999)>>
    [] o.k = "sqrt" /\ o.r = "motor" -> <<UnitAway(UnitMF, s, i, 1, 990)>>
    [] o.k = "sqrt" /\ o.r = "trans" -> <<A(RandTrans(s, i, 1), 2)>>
    [] o.k = "sqrtb" -> <<UnitBranch(s, i, 1)>>
    [] o.k = "exp" /\ o.a[1] = "line" -> <<A(RandPlain(s, i, 1, "line"), Pick(s, i, 64, ExpDen))>>
    [] o.k = "exp" /\ o.a[1] = "branch" -> <<IF i % 20 = 1 THEN A(<<0, 0, 0>>, 1) ELSE A(RandPlain(s, i, 1, "branch"), Pick(s, i, 64, ExpDen))>>
    [] o.k = "exp" -> <<A(RandPlain(s, i, 1, o.a[1]), 4)>>
    [] o.k = "log" /\ o.a[1] = "rotor" -> <<AwayOrMinusOne(UnitQF, s, i, 1, 1000)>>
    [] o.k = "log" /\ o.a[1] = "motor" -> <<AwayOrMinusOne(UnitMF, s, i, 1, 990)>>
    [] o.k = "log" -> <<A(RandTrans(s, i, 1), 2)>>
    [] o.k = "rotoraa" -> <<RandAngle(s, i, 1, Pick(s, i, 49, <<6, 6, 18>>)), Norml("dir", s, i, 2)>>
    [] o.k = "transdd" -> <<A(<<Rnd(s, i, 65, 41) - 20>>, 4), Norml("dir", s, i, 2)>>
    [] o.k = "screw" -> <<RandAngle(s, i, 1, Pick(s, i, 49, <<6, 6, 18>>)), A(<<Rnd(s, i, 65, 17) - 8>>, 4), UnitLine(s, i, 3)>>
    [] o.k = "euler" -> IF i <= Len(EulerSpecial) THEN [j \in 1..3 |-> [v |-> <<EulerSpecial[i][j]>>, den |-> 4, pi |-> 1]]
                        ELSE LET l == Pick(s, i, 49, <<3, 3, 3, 10>>) IN <<RandAngle(s, i, 1, l), RandAngle(s, i, 4, l), RandAngle(s, i, 8, l)>>
    [] o.k = "aseuler" -> IF i % 6 = 0
                          THEN <<Flip(A(Pick(s, i, 66, << <<1,0,1,0>>, <<1,0,-1,0>>, <<1,1,1,1>>, <<1,1,1,-1>>, <<1,-1,1,1>>, <<1,-1,1,-1>>,
                                                     <<1,1,-1,1>>, <<1,1,-1,-1>>, <<1,1,0,0>>, <<0,1,1,0>>, <<0,0,1,1>>, <<1,0,0,1>>, <<0,1,0,1>> >>), 0), s, i)>>
                          ELSE IF i % 2 = 0 THEN <<Flip(NearPole(s, i), s, i)>>
                          ELSE <<UnitQF(s, i, 1)>>
    [] o.k \in {"normval", "sqnormval"} /\ o.a[1] # "ideal" /\ i % 5 = 2 -> <<OffUnit(UnitLike(o.a[1], s, i, 1), s, i, 1)>>
    [] o.k \in {"normval", "sqnormval"} -> <<IF i % 7 = 0 THEN A(ZeroV(o.a[1]), 1) ELSE AnyV(o.a[1], s, i, 1)>>
    [] o.k = "dist" -> <<A(RandPlain(s, i, 1, "dir"), 4), IF i % 9 = 0 THEN A(RandPlain(s, i, 1, "dir"), 4) ELSE A(RandPlain(s, i, 2, "dir"), 4)>>
    [] o.k = "distpp" -> <<A(RandPlain(s, i, 1, "dir"), 4), Norml("plane", s, i, 2)>>
    \* nearly parallel, of one norm and distance from the origin
    [] o.k = "cospl" /\ i % 4 = 1 ->
         LET n == Pick(s, i, 51, <<30, 60, 100, 140, 200>>)
             c == Rnd(s, i, 52, n)
             d == Rnd(s, i, 53, 5) * n - 2 * n
             g == IF Rnd(s, i, 54, 2) = 0 THEN 1 ELSE -1
             w(x, y) == CASE Rnd(s, i, 55, 3) = 0 -> <<d, x, y, c>> [] Rnd(s, i, 55, 3) = 1 -> <<d, x, c, g * y>> [] OTHER -> <<d, c, g * x, y>>
         IN <<A(w(n, n + 1), n), A(w(n + 1, n), n)>>
    [] o.k = "cospl" -> <<Norml("plane", s, i, 1), Norml("plane", s, i, 2)>>
    [] o.k = "cosln" -> <<Norml("line", s, i, 1), Norml("line", s, i, 2)>>

\* ---- hidden scaling: exponent per operand and weight of e0
Hid(o, s, i) ==
  LET on == i % 2 = 0
      e(t) == IF on THEN Pick(s, i, 970 + t, <<0, 3, -5, 12, -13, 20, -20>>) ELSE 0
      k0 == IF on THEN Pick(s, i, 980, <<0, 6, -7, 12>>) ELSE 0
      n == Len(o.a)
      Lan(T, c, k) == [j \in 1..Dim(T) |-> c + k * W0(T, j)]
      Cst(T, c) == [j \in 1..Dim(T) |-> c]
      H2(x, rx) == [x |-> x, rx |-> rx]
      \* close to the identity: real part times 2^-k, ideal part times 2^-m, pseudoscalar both
      tk == -Pick(s, i, 990, IF o.k \in {"teuler", "taseuler"} THEN <<20, 22, 24, 30>> ELSE IF o.k \in {"tact", "tacto"} THEN <<22, 23, 25, 30>> ELSE <<13, 15, 18, 21, 25, 30>>)
      tm == IF o.k \in {"tact", "tacto"} THEN tk ELSE Pick(s, i, 991, <<tk, tk, 0, 6, -5>>)
      Tn(T) == CASE T = "motor" -> <<0, tk, tk, tk, tm, tm, tm, tk + tm>>
                 [] T = "rotor" -> <<0, tk, tk, tk>>
                 [] T = "line" -> <<tm, tm, tm, tk, tk, tk>>
                 [] T = "branch" -> <<tk, tk, tk>>
                 [] T = "dir" -> <<tk, tk, tk>>
  IN CASE o.k \in {"texp", "tlog", "tsqrt", "taseuler"} -> H2(<<Tn(o.a[1])>>, Tn(o.r))
       [] o.k = "tact" -> LET X == Args(o, s, i)[2].v IN H2(<<Tn(o.a[1]), Cst(o.r, 0)>>, [j \in 1..Len(X) |-> IF X[j] # 0 THEN 0 ELSE tk])
       [] o.k = "tacto" -> H2(<<Tn("motor")>>, <<0, tk, tk, tk>>)
       [] o.k = "trotoraa" -> H2(<<<<tk>>, Cst("dir", e(2))>>, Tn("rotor"))
       [] o.k = "tscrew" -> H2(<<<<tk>>, <<tk>>, Cst("line", 0)>>, <<0, tk, tk, tk, tk, tk, tk, 2 * tk>>)
       [] o.k = "teuler" -> H2(<<<<tk>>, <<tk>>, <<tk>>>>, Tn("rotor"))
       [] o.k = "inv" -> LET c == IF o.r = "trans" THEN 0 ELSE e(1) IN H2(<<Lan(o.r, c, k0)>>, Lan(o.r, -c, k0))
       [] o.k = "div" -> LET c1 == IF o.a[1] = "trans" THEN 0 ELSE e(1)  c2 == IF o.a[2] = "trans" THEN 0 ELSE e(2)
                         IN H2(<<Lan(o.a[1], c1, k0), Lan(o.a[2], c2, k0)>>, Lan(o.r, c1 - c2, k0))
       [] o.k \in {"divpt", "gppt"} -> H2(<<Lan("point", e(1), k0), Lan("point", e(2), k0)>>, Lan("trans", 0, k0))
       [] o.k = "norm" -> IF o.r = "dir" THEN H2(<<Cst("dir", e(1))>>, Cst("dir", 0))
                          ELSE H2(<<Lan(o.r, e(1), k0)>>, Lan(o.r, 0, k0))
       [] o.k = "dirctor" -> H2(<<Cst("dir", e(1))>>, Cst("dir", 0))
       [] o.k \in {"sdiv", "idiv"} -> H2(<<Lan(o.r, e(1), k0), <<e(2)>>>>, Lan(o.r, e(1) - e(2), k0))
       [] o.k \in {"sdivc", "idivc"} -> LET b == IF i % 3 = 0 THEN 15 ELSE 0 IN H2(<<Lan(o.r, e(1), k0), <<b>>>>, Lan(o.r, e(1) - b, k0))
       [] o.k \in {"sqrt", "sqrtb", "exp", "log"} -> H2(<<Lan(o.a[1], 0, k0)>>, Lan(o.r, 0, k0))
       [] o.k = "rotoraa" -> H2(<<<<0>>, Cst("dir", e(1))>>, Cst("rotor", 0))
       [] o.k = "transdd" -> H2(<<<<e(1)>>, Cst("dir", e(2))>>, Cst("trans", e(1)))
       [] o.k = "screw" -> H2(<<<<0>>, <<k0>>, Lan("line", 0, k0)>>, Lan("motor", 0, k0))
       [] o.k = "euler" -> H2(<<<<0>>, <<0>>, <<0>>>>, Cst("rotor", 0))
       [] o.k = "aseuler" -> H2(<<Cst("rotor", 0)>>, Cst("dir", 0))
       [] o.k = "normval" -> H2(<<IF o.a[1] = "ideal" THEN Cst("ideal", e(1)) ELSE Lan(o.a[1], e(1), k0)>>, <<e(1)>>)
       [] o.k = "sqnormval" -> H2(<<IF o.a[1] = "ideal" THEN Cst("ideal", e(1)) ELSE Lan(o.a[1], e(1), k0)>>, <<2 * e(1)>>)
       [] o.k = "dist" -> H2(<<Cst("dir", k0), Cst("dir", k0)>>, <<k0>>)
       [] o.k = "distpp" -> H2(<<Cst("dir", k0), Lan("plane", e(1), k0)>>, <<k0>>)
       [] o.k \in {"cospl", "cosln"} -> H2(<<Lan(o.a[1], e(1), k0), Lan(o.a[2], e(2), k0)>>, <<0>>)

\* an operand, or one half of it, from the case before
Shares(o) == o.k \notin {"tact", "tacto", "sdiv", "sdivc", "idiv", "idivc", "aseuler", "taseuler"}
Mixed(o, s, i) ==
  LET a == Args(o, s, i - 1)
      b == Args(o, s, i)
      w == Rnd(s, i, 995, 2)
      T == o.a[1]
      join(k) == <<[a[1] EXCEPT !.v = IF w = 0 THEN SubSeq(b[1].v, 1, k) \o SubSeq(a[1].v, k + 1, Dim(T))
                                     ELSE SubSeq(a[1].v, 1, k) \o SubSeq(b[1].v, k + 1, Dim(T))]>>
  IN IF Len(a) > 1 THEN (IF w = 0 THEN [b EXCEPT ![1] = a[1]] ELSE [a EXCEPT ![1] = b[1]])
     ELSE IF T = "line" /\ a[1].den = b[1].den THEN join(3)
     ELSE IF T = "plane" /\ w = 0 /\ a[1].den = b[1].den THEN join(1)
     ELSE b
MkCase(o, s, i) ==
  LET kin == i % 4 = 3 /\ Shares(o)
      g == IF kin THEN Mixed(o, s, i) ELSE Args(o, s, i)
      h == Hid(o, s, IF kin THEN i - 1 ELSE i)
      \* den 0 stands for the norm of the vector
  IN [op |-> o.n, a |-> [t \in 1..Len(g) |-> g[t].v], den |-> [t \in 1..Len(g) |-> g[t].den],
      pi |-> [t \in 1..Len(g) |-> g[t].pi], x |-> h.x, rx |-> h.rx]
Ops == OpsOf[Group]
RECURSIVE AllCases(_)
AllCases(k) == IF k = 0 THEN << >> ELSE AllCases(k - 1) \o [i \in 1..N |-> MkCase(Ops[k], Seed + 97 * k, i)]
VARIABLE done
Init == done = FALSE
Next == /\ ~done
        /\ ndJsonSerialize(IOEnv.OUT, AllCases(Len(Ops)))
        /\ done' = TRUE
=============================================================================
