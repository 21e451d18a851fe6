-------------------------------- MODULE Approx --------------------------------
(* The operations that go through reciprocals, square roots and trigonometry.  *)
(* Each is specified by the relation its result must satisfy (an inverse times *)
(* the operand is one, a square root squared is the operand, ...), evaluated   *)
(* in fixed point with an explicit tolerance.                                 *)
EXTENDS Fix, Rand

\* [n: driver operation, k: kind of relation, a: operand types, r: result type]
AOp(n, k, a, r) == [n |-> n, k |-> k, a |-> a, r |-> r]
OverT(k, ts) == [i \in 1..Len(ts) |-> AOp(k \o "_" \o ts[i], k, <<ts[i]>>, ts[i])]

InvOps  == OverT("inv", <<"plane", "point", "line", "branch", "rotor", "motor", "trans">>)
DivOps == <<
  AOp("div_plane_plane", "div", <<"plane", "plane">>, "motor"),
  AOp("div_point_point", "divpt", <<"point", "point">>, "trans"),
  AOp("div_branch_branch", "div", <<"branch", "branch">>, "rotor"),
  AOp("div_rotor_rotor", "div", <<"rotor", "rotor">>, "rotor"),
  AOp("div_trans_trans", "div", <<"trans", "trans">>, "trans"),
  AOp("div_line_line", "div", <<"line", "line">>, "motor"),
  AOp("div_motor_rotor", "div", <<"motor", "rotor">>, "motor"),
  AOp("div_motor_trans", "div", <<"motor", "trans">>, "motor"),
  AOp("div_motor_motor", "div", <<"motor", "motor">>, "motor") >>
PointGP == << AOp("gp_point_point", "gppt", <<"point", "point">>, "trans") >>
NormOps == OverT("norm", <<"plane", "point", "dir", "line", "branch", "rotor", "motor">>)
           \o << AOp("dirctor", "dirctor", <<"dir">>, "dir") >>
SDivT  == <<"plane", "point", "dir", "line", "ideal", "branch", "rotor", "trans", "motor", "dual">>
SDivI  == <<"plane", "point", "dir", "line", "ideal", "branch", "rotor", "trans", "motor">>
SDivOver(k, ts) == [i \in 1..Len(ts) |-> AOp(k \o "_" \o ts[i], k, <<ts[i], "scalar">>, ts[i])]
SDivOps == SDivOver("sdiv", SDivT) \o SDivOver("sdivc", SDivI)      \* a / 1.5f, a / 3
           \o SDivOver("idiv", SDivT) \o SDivOver("idivc", SDivI)   \* a /= 1.5f, a /= 3
SqrtOps == << AOp("sqrt_rotor", "sqrt", <<"rotor">>, "rotor"),
              AOp("sqrt_branch", "sqrtb", <<"branch">>, "rotor"),
              AOp("sqrt_trans", "sqrt", <<"trans">>, "trans"),
              AOp("sqrt_motor", "sqrt", <<"motor">>, "motor") >>
ExpOps  == << AOp("exp_line", "exp", <<"line">>, "motor"),
              AOp("exp_branch", "exp", <<"branch">>, "rotor"),
              AOp("exp_ideal", "exp", <<"ideal">>, "trans") >>
LogOps  == << AOp("log_motor", "log", <<"motor">>, "line"),
              AOp("log_rotor", "log", <<"rotor">>, "branch"),
              AOp("log_trans", "log", <<"trans">>, "ideal") >>
CtorOps == << AOp("ctor_rotor", "rotoraa", <<"scalar", "dir">>, "rotor"),
              AOp("ctor_trans", "transdd", <<"scalar", "dir">>, "trans"),
              AOp("ctor_motor", "screw", <<"scalar", "scalar", "line">>, "motor") >>
EulerOps == << AOp("euler_rotor", "euler", <<"scalar", "scalar", "scalar">>, "rotor"),
               AOp("as_euler", "aseuler", <<"rotor">>, "dir") >>
MetricOps == << AOp("normof_plane", "normval", <<"plane">>, "scalar"),
                AOp("normof_line", "normval", <<"line">>, "scalar"),
                AOp("normof_branch", "normval", <<"branch">>, "scalar"),
                AOp("normof_ideal", "normval", <<"ideal">>, "scalar"),
                AOp("sqnorm_line", "sqnormval", <<"line">>, "scalar"),
                AOp("sqnorm_branch", "sqnormval", <<"branch">>, "scalar"),
                AOp("sqnorm_ideal", "sqnormval", <<"ideal">>, "scalar"),
                AOp("dist_points", "dist", <<"dir", "dir">>, "scalar"),
                AOp("dist_point_plane", "distpp", <<"dir", "plane">>, "scalar"),
                AOp("cos_planes", "cospl", <<"plane", "plane">>, "scalar"),
                AOp("cos_lines", "cosln", <<"line", "line">>, "scalar") >>
CapiAOps == << AOp("c_motor_log", "log", <<"motor">>, "line"), AOp("c_line_exp", "exp", <<"line">>, "motor") >>
\* the same functions close to the identity, where the bivector part alone carries the motion:
\* operands and results are scaled so that relative accuracy of that part is what is observed
TinyOps == <<
  AOp("tiny_exp_line",   "texp",  <<"line">>,   "motor"),
  AOp("tiny_exp_branch", "texp",  <<"branch">>, "rotor"),
  AOp("tiny_log_motor",  "tlog",  <<"motor">>,  "line"),
  AOp("tiny_log_rotor",  "tlog",  <<"rotor">>,  "branch"),
  AOp("tiny_sqrt_motor", "tsqrt", <<"motor">>,  "motor"),
  AOp("tiny_sqrt_rotor", "tsqrt", <<"rotor">>,  "rotor"),
  AOp("tiny_ctor_rotor", "trotoraa", <<"scalar", "dir">>, "rotor"),
  AOp("tiny_ctor_motor", "tscrew", <<"scalar", "scalar", "line">>, "motor"),
  AOp("tiny_euler_rotor", "teuler", <<"scalar", "scalar", "scalar">>, "rotor"),
  AOp("tiny_as_euler",   "taseuler", <<"rotor">>, "dir"),
  AOp("tiny_act_rotor_plane", "tact", <<"rotor", "plane">>, "plane"),
  AOp("tiny_act_rotor_branch", "tact", <<"rotor", "branch">>, "branch"),
  AOp("tiny_act_rotor_line", "tact", <<"rotor", "line">>, "line"),
  AOp("tiny_act_rotor_point", "tact", <<"rotor", "point">>, "point"),
  AOp("tiny_act_rotor_dir", "tact", <<"rotor", "dir">>, "dir"),
  AOp("tiny_act_motor_plane", "tact", <<"motor", "plane">>, "plane"),
  AOp("tiny_act_motor_line", "tact", <<"motor", "line">>, "line"),
  AOp("tiny_act_motor_point", "tact", <<"motor", "point">>, "point"),
  AOp("tiny_act_motor_dir", "tact", <<"motor", "dir">>, "dir"),
  AOp("tiny_act_motor_origin", "tacto", <<"motor">>, "point"),
  AOp("tiny_glsl_rotor_plane", "tact", <<"rotor", "plane">>, "plane"),
  AOp("tiny_glsl_motor_plane", "tact", <<"motor", "plane">>, "plane"),
  AOp("tiny_glsl_rotor_point", "tact", <<"rotor", "point">>, "point"),
  AOp("tiny_glsl_motor_point", "tact", <<"motor", "point">>, "point"),
  AOp("tiny_c_rotate_point", "tact", <<"rotor", "point">>, "point"),
  AOp("tiny_c_rotate_line", "tact", <<"rotor", "line">>, "line"),
  AOp("tiny_c_rotate_plane", "tact", <<"rotor", "plane">>, "plane"),
  AOp("tiny_c_motor_point", "tact", <<"motor", "point">>, "point"),
  AOp("tiny_c_motor_line", "tact", <<"motor", "line">>, "line"),
  AOp("tiny_c_motor_plane", "tact", <<"motor", "plane">>, "plane"),
  AOp("tiny_glsl_motor_origin", "tacto", <<"motor">>, "point"),
  AOp("tiny_mat4_rotor_point", "tact", <<"rotor", "point">>, "point"),
  AOp("tiny_mat4_motor_point", "tact", <<"motor", "point">>, "point"),
  AOp("tiny_mat3_rotor_point", "tact", <<"rotor", "point">>, "point"),
  AOp("tiny_mat3_motor_point", "tact", <<"motor", "point">>, "point") >>
TinyK == {TinyOps[i].k : i \in 1..Len(TinyOps)}
AllApprox == TinyOps \o CapiAOps \o InvOps \o DivOps \o PointGP \o NormOps \o SDivOps \o SqrtOps \o ExpOps
             \o LogOps \o CtorOps \o EulerOps \o MetricOps

-----------------------------------------------------------------------------
Slice(v, from, n) == [i \in 1..n |-> v[from + i - 1]]
\* the components whose squares make up the norm
RealPart(T, v) ==
  CASE T = "plane" -> Slice(v, 2, 3)
    [] T = "line"  -> Slice(v, 4, 3)
    [] T = "motor" -> Slice(v, 1, 4)
    [] OTHER -> v
BigTol(m) == 64 + (m \div 2^18)             \* relative 2^-18 of the magnitude m
Tol2(x, z) == 64 + (FMul(L1(x) \div 256, L1(z)) \div 1024)
One == FE(0)
InRange(r, lim) == \A i \in 1..Len(r) : Abs(r[i]) < lim * ONE

IsStudy(x, t) == \A b \in Blade \ {0, 15} : Close(x[b], 0, t)

InvOK(T, x, z) == LET X == FToMV(T, x)  Z == FToMV(T, z)  t == Tol2(x, z) + L1(x) \div 2^18
                      \* the square of a point is negative: its inverse as a projective object
                      \* has the reciprocal weight, up to the sign
                      u == IF T = "point" THEN Scale(-1, One) ELSE One
                  IN CloseMV(FGP(X, Z), u, t) /\ CloseMV(FGP(Z, X), u, t)
DivOK(o, a, b, z) ==
  LET Z == FToMV(o.r, z)  B == FToMV(o.a[2], b)  A == FToMV(o.a[1], a)
  IN CloseMV(FGP(Z, B), A, 2 * Tol2(z, b) + L1(b) \div 2^18 + L1(a) \div 2^16)
\* a quotient of points is the translation carrying the second to the first (twice)
DivPtOK(a, b, z) ==
  LET Z == FToMV("trans", z)  B == FToMV("point", b)  A == FToMV("point", a)
  IN CloseMV(FScale(a[1], FGP(Z, B)), FScale(b[1], A),
             2 * Tol2(z, b) + FMul(L1(b), L1(a)) \div 2^16 + 64)
\* z = a b / <a b>
GPPtOK(a, b, z) ==
  LET x == FGP(FToMV("point", a), FToMV("point", b))
      Z == FToMV("trans", z)
  IN CloseMV(FScale(x[0], Z), x, 64 + FMul(L1(a), L1(b)) \div 2^16 + FMul(Abs(x[0]), L1(z)) \div 2^16)

UnitPart(T, z) == Close(SumSq(RealPart(T, z), Len(RealPart(T, z))), ONE, 96)
NormOK(T, x, z) ==
  CASE T = "point" -> \A i \in 1..4 : Close(FMul(z[i], x[1]), x[i], 64 + L1(x) \div 32768)
    [] T \in {"line", "motor"} ->
         LET X == FToMV(T, x)  Z == FToMV(T, z)
             zz == FGP(Rev(Z), Z)
             s == FGP(Rev(Z), X)
             t == BigTol(FMul(L1(z), L1(z)))
             t2 == Tol2(x, z)
         IN /\ Close(zz[0], ONE, t) /\ Close(zz[15], 0, t)
            /\ IsStudy(s, t2) /\ s[0] > 0
            \* and the same for the other side: same object, not merely same orbit
            /\ CloseMV(FGP(Z, [b \in Blade |-> IF b \in {0, 15} THEN s[b] ELSE 0]), X, 2 * t2)
    [] OTHER -> LET n == FNorm(RealPart(T, x))
                IN \A i \in 1..Len(x) : Close(FMul(z[i], n), x[i], 64 + L1(x) \div 32768)

SDivOK(x, s, z) == \A i \in 1..Len(x) : Close(FMul(z[i], s), x[i], 48 + Abs(x[i]) \div 65536 + Abs(s) \div 2^18)

\* the short root: a unit object whose square is m
SqrtOK(T, m, z) ==
  LET Z == FToMV(T, z)  M == FToMV(T, m)
      t == 96 + FMul(L1(z), L1(z)) \div 2^16
      zz == FGP(Rev(Z), Z)
  IN /\ CloseMV(FGP(Z, Z), M, t)
     /\ Close(zz[0], ONE, t) /\ Close(zz[15], 0, t)
     /\ Z[0] >= -t
\* rotations by less than a radian need no squaring here, and are held to more
ExpTol(T, x, z) == IF MaxAbs(IF T = "line" THEN Slice(x, 4, 3) ELSE x) <= ONE \div 2 THEN 24 + L1(z) \div 2^18
                   ELSE 128 + L1(z) \div 2^15
ExpOK(o, x, z) == CloseMV(FToMV(o.r, z), FExp(FToMV(o.a[1], x)), ExpTol(o.a[1], x, z))
LogOK(o, m, z) ==
  /\ LET E_ == FExp(FToMV(o.r, z))
         M == FToMV(o.a[1], m)
         t == ExpTol(o.r, z, m) + ExpTol(o.r, z, z)
     IN \/ CloseMV(E_, M, t)
        \* no rotation and scalar part -1: no bivector of principal angle generates it, its
        \* negation acts the same and does have a logarithm
        \/ /\ o.r # "ideal" /\ m[1] < 0 /\ m[2] = 0 /\ m[3] = 0 /\ m[4] = 0
           /\ CloseMV(E_, Scale(-1, M), t)
  /\ o.r = "ideal" \/ FNorm(RealPart(o.r, z)) <= PI + 64

\* ---- constructors
BranchMV(v) == FToMV("branch", v)
FDivN(x, n) == \* x / n for fixed x, n with |x| <= n (digits of the quotient)
  LET s == IF x < 0 THEN -1 ELSE 1
      m == Abs(x)
  IN IF n = 0 THEN 0 ELSE s * ((m \div n) * ONE + DivBits(m % n, n, 0, 22))
Unit(d) == LET n == FNorm(d) IN [i \in 1..Len(d) |-> FDivN(d[i], n)]
RotorAaOK(ang, d, z) ==
  LET u == Unit(d)
  IN CloseMV(FToMV("rotor", z), FExp(BranchMV([i \in 1..3 |-> FMul(ang \div 2, u[i])])), 128)
TransDdOK(dist, d, z) ==
  LET u == Unit(d)
  IN \A i \in 1..3 : Close(z[i], -FMul(dist \div 2, u[i]), 64 + Abs(dist) \div 65536)
\* exp((-ang/2 + dist/2 e0123) l), l a unit line (so that ang may be reduced by two full
\* turns, which keeps the error of the exponential's repeated squaring small)
ScrewOK(ang, dist, l, z) ==
  LET a == LET r == ang % (4 * PI) IN IF r > 2 * PI THEN r - 4 * PI ELSE r
      d == [b \in Blade |-> IF b = 0 THEN -(a \div 2) ELSE IF b = 15 THEN dist \div 2 ELSE 0]
      e == FExp(FGP(d, FToMV("line", l)))
  IN CloseMV(FToMV("motor", z), e, 192 + L1(z) \div 2^15)

\* ---- Euler angles <<roll, pitch, yaw>> about e23, e31, e12; roll applied first
FromEuler(ea) ==
  LET ex(v) == FExp(BranchMV(v))
  IN FGP(FGP(ex(<<ea[1] \div 2, 0, 0>>), ex(<<0, ea[2] \div 2, 0>>)), ex(<<0, 0, ea[3] \div 2>>))
EulerOK(ea, z) == CloseMV(FToMV("rotor", z), FromEuler(ea), 192)
SinPitch(q) == 2 * (FMul(q[1], q[3]) - FMul(q[2], q[4]))
AsEulerOK(q, ea) ==
  LET near == Abs(SinPitch(q)) > ONE - ONE \div 4000
      t == IF near THEN ONE \div 40 ELSE 256
      m == FromEuler(ea)
      Q == FToMV("rotor", q)
  IN /\ InRange(ea, 7)
     /\ Abs(ea[2]) <= PI \div 2 + 64
     /\ CloseMV(m, Q, t) \/ CloseMV(m, Scale(-1, Q), t)

\* ---- metric
NormValOK(T, x, z) == LET n == FNorm(RealPart(T, x)) IN Close(z[1], n, 64 + n \div 32768)
SqNormValOK(T, x, z) == LET v == RealPart(T, x)
                            n == SumSq(v, Len(v)) IN Close(z[1], n, 64 + n \div 65536)
Diff(u, v) == [i \in 1..Len(u) |-> u[i] - v[i]]
DistOK(p, q, z) == LET n == FNorm(Diff(p, q)) IN Close(z[1], n, 96 + (L1(p) + L1(q)) \div 2^16)
RECURSIVE Dot_(_, _, _)
Dot_(u, v, k) == IF k = 0 THEN 0 ELSE FMul(u[k], v[k]) + Dot_(u, v, k - 1)
DotF(u, v) == Dot_(u, v, Len(u))
\* signed distance of the point at p to the plane, in units of the plane's norm
DistPPOK(p, pl, z) ==
  LET n == FNorm(RealPart("plane", pl))
  IN Close(FMul(Abs(z[1]), n), Abs(DotF(p, RealPart("plane", pl)) + pl[1]), 128 + L1(pl) \div 2^15 + FMul(L1(p), L1(pl)) \div 2^16)
\* a.b = |a||b| cos
CosOK(T, a, b, z) ==
  LET u == RealPart(T, a)  v == RealPart(T, b)
      sg == IF T = "line" THEN -1 ELSE 1
      n == FMul(FNorm(u), FNorm(v))
  IN Close(FMul(z[1], n), sg * DotF(u, v), 48 + n \div 2^17)

\* ---- close to the identity: exp(x) is 1 + x, with the pseudoscalar x^2/2 as leading order
NearOne(x) == LET q == FGP(x, x)[15] IN [b \in Blade |-> IF b = 0 THEN ONE ELSE IF b = 15 THEN q \div 2 ELSE x[b]]
Grade2Of(x) == [b \in Blade |-> IF b \in {0, 15} THEN 0 ELSE x[b]]
TinyResult(o, x) ==
  CASE o.k = "texp" -> FromMV(o.r, NearOne(FToMV(o.a[1], x[1])))
    [] o.k = "tlog" -> FromMV(o.r, Grade2Of(FToMV(o.a[1], x[1])))
    [] o.k = "tsqrt" -> LET X == FToMV(o.a[1], x[1])
                        IN FromMV(o.r, [b \in Blade |-> IF b = 0 THEN ONE ELSE IF b = 15 THEN X[b] \div 4 ELSE X[b] \div 2])
    [] o.k = "trotoraa" -> LET u == Unit(x[2]) IN <<ONE>> \o [i \in 1..3 |-> FMul(x[1][1] \div 2, u[i])]
    [] o.k = "tscrew" ->
         LET d == [b \in Blade |-> IF b = 0 THEN -(x[1][1] \div 2) ELSE IF b = 15 THEN x[2][1] \div 2 ELSE 0]
         IN FromMV("motor", NearOne(Grade2Of(FGP(d, FToMV("line", x[3])))))
    [] o.k = "teuler" -> <<ONE, x[1][1] \div 2, x[2][1] \div 2, x[3][1] \div 2>>
    [] o.k = "taseuler" -> <<2 * x[1][2], 2 * x[1][3], 2 * x[1][4]>>
\* X + BX - XB: where X has a component, that one; elsewhere what the motion brings in
    [] o.k \in {"tact", "tacto"} ->
         LET B == Grade2Of(FToMV(o.a[1], x[1]))
             X == IF o.k = "tacto" THEN FToMV("point", <<ONE, 0, 0, 0>>) ELSE FToMV(o.r, x[2])
             D == TLCEval(LET p == FGP(B, X)  q == FGP(X, B) IN [b \in Blade |-> p[b] - q[b]])
             z0 == FromMV(o.r, X)
             z1 == FromMV(o.r, D)
         IN [i \in 1..Len(z0) |-> IF z0[i] # 0 THEN z0[i] ELSE z1[i]]
TinyOK(o, x, z) == LET w == TinyResult(o, x)
                   IN \A i \in 1..Len(z) : Close(z[i], w[i], (IF o.k \in {"tact", "tacto"} THEN 512 + L1(w) \div 2^13 ELSE 96 + L1(w) \div 2^16))

(* ------------------------------ acceptance -------------------------------- *)
Third(r, k, n) == Slice(r, (k - 1) * n + 1, n)
Accept(o, x, r) ==
  LET z == r
      n == Dim(o.r)
  IN CASE o.k = "inv" ->   \* in place, copying
            Len(r) = 2 * n /\ \A c \in 1..2 : InRange(Third(r, c, n), 200) /\ InvOK(o.r, x[1], Third(r, c, n))
       [] o.k = "norm" ->  \* in place, copying, twice
            Len(r) = 3 * n /\ \A c \in 1..3 : InRange(Third(r, c, n), 200) /\ NormOK(o.r, x[1], Third(r, c, n))
       [] OTHER ->
            /\ Len(r) = n
            /\ InRange(r, 200)
            /\ CASE o.k \in TinyK -> TinyOK(o, x, z)
                 [] o.k = "div" -> DivOK(o, x[1], x[2], z)
                 [] o.k = "divpt" -> DivPtOK(x[1], x[2], z)
                 [] o.k = "gppt" -> GPPtOK(x[1], x[2], z)
                 [] o.k = "dirctor" -> NormOK("dir", x[1], z)
                 [] o.k \in {"sdiv", "sdivc", "idiv", "idivc"} -> SDivOK(x[1], x[2][1], z)
                 [] o.k = "sqrt" -> SqrtOK(o.r, x[1], z)
                 [] o.k = "sqrtb" -> SqrtOK("rotor", <<0>> \o x[1], z)
                 [] o.k = "exp" -> ExpOK(o, x[1], z)
                 [] o.k = "log" -> LogOK(o, x[1], z)
                 [] o.k = "rotoraa" -> RotorAaOK(x[1][1], x[2], z)
                 [] o.k = "transdd" -> TransDdOK(x[1][1], x[2], z)
                 [] o.k = "screw" -> ScrewOK(x[1][1], x[2][1], x[3], z)
                 [] o.k = "euler" -> EulerOK(<<x[1][1], x[2][1], x[3][1]>>, z)
                 [] o.k = "aseuler" -> AsEulerOK(x[1], z)
                 [] o.k = "normval" -> NormValOK(o.a[1], x[1], z)
                 [] o.k = "sqnormval" -> SqNormValOK(o.a[1], x[1], z)
                 [] o.k = "dist" -> DistOK(x[1], x[2], z)
                 [] o.k = "distpp" -> DistPPOK(x[1], x[2], z)
                 [] o.k = "cospl" -> CosOK("plane", x[1], x[2], z)
                 [] o.k = "cosln" -> CosOK("line", x[1], x[2], z)
=============================================================================
