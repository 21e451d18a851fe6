-------------------------------- MODULE Klein --------------------------------
(* The entity types of Klein as components ("lanes") of multivectors, the     *)
(* Poincare dual as Klein documents it, and the meaning of every exact        *)
(* operation of the public API.                                               *)
EXTENDS GA

(* A lane is <<blade mask, sign>>: e31 = -e13, e032 = -e023, e021 = -e012.    *)
e_   == <<0, 1>>
e0   == <<1, 1>>   e1  == <<2, 1>>   e2  == <<4, 1>>   e3  == <<8, 1>>
e01  == <<3, 1>>   e02 == <<5, 1>>   e03 == <<9, 1>>
e12  == <<6, 1>>   e31 == <<10, -1>> e23 == <<12, 1>>
e123 == <<14, 1>>  e032 == <<13, -1>> e013 == <<11, 1>> e021 == <<7, -1>>
e0123 == <<15, 1>>
Neg_(lane) == <<lane[1], -lane[2]>>

\* Component order: that of the constructors / accessors of the C++ types.
Lanes == [
  plane  |-> <<e0, e1, e2, e3>>,
  point  |-> <<e123, e032, e013, e021>>,
  dir    |-> <<e032, e013, e021>>,
  line   |-> <<e01, e02, e03, e23, e31, e12>>,
  ideal  |-> <<e01, e02, e03>>,
  branch |-> <<e23, e31, e12>>,
  rotor  |-> <<e_, e23, e31, e12>>,
  trans  |-> <<e01, e02, e03>>,          \* the scalar part 1 is implicit
  motor  |-> <<e_, e23, e31, e12, e01, e02, e03, e0123>>,
  dual   |-> <<e_, e0123>>,
  scalar |-> <<e_>>,
  \* reader sets: the same objects seen through the aliases of the accessors
  planeA  |-> <<e1, e2, e3, e0>>,
  pointA  |-> <<e032, e013, e021, e123>>,
  lineA   |-> <<Neg_(e01), Neg_(e02), Neg_(e03), Neg_(e23), Neg_(e31), Neg_(e12)>>,
  idealA  |-> <<Neg_(e01), Neg_(e02), Neg_(e03)>>,
  branchA |-> <<Neg_(e12), e12, Neg_(e31), e31, Neg_(e23), e23>>,
  rotorA  |-> <<Neg_(e23), Neg_(e31), Neg_(e12)>>,
  transA  |-> <<e_, Neg_(e01), Neg_(e02), Neg_(e03)>>,
  \* column-major 4x4: four columns of rows x y z w
  mat     |-> <<e032, e013, e021, e123, e032, e013, e021, e123, e032, e013, e021, e123, e032, e013, e021, e123>>,
  motorA  |-> <<Neg_(e23), Neg_(e31), Neg_(e12), Neg_(e01), Neg_(e02), Neg_(e03)>> ]

Types  == DOMAIN Lanes
Dim(T) == Len(Lanes[T])
Support(T) == {Lanes[T][i][1] : i \in 1..Dim(T)}

LaneAt == [T \in Types |-> [b \in Blade |->
            IF b \in Support(T) THEN CHOOSE i \in 1..Dim(T) : Lanes[T][i][1] = b ELSE 0]]

ToMV(T, v) == TLCEval([b \in Blade |->
   LET i == LaneAt[T][b]
   IN IF i # 0 THEN Lanes[T][i][2] * v[i]
      ELSE IF T = "trans" /\ b = 0 THEN 1 ELSE 0])
FromMV(T, x) == [i \in 1..Dim(T) |-> Lanes[T][i][2] * x[Lanes[T][i][1]]]
\* x lies in type T, nothing is lost by FromMV
Fits(T, x) == \A b \in Blade :
   \/ b \in Support(T)
   \/ x[b] = (IF T = "trans" /\ b = 0 THEN 1 ELSE 0)

(* The dual coordinate map J as documented: planes and points keep their      *)
(* component list, lines swap real and ideal parts, 1 <-> e0123.              *)
JPairs == { <<e0, e123>>, <<e1, e032>>, <<e2, e013>>, <<e3, e021>>,
            <<e01, e23>>, <<e02, e31>>, <<e03, e12>>, <<e_, e0123>> }
JMap == [b \in Blade |->
   LET p == CHOOSE q \in JPairs : b \in {q[1][1], q[2][1]}
       s == p[1][2] * p[2][2]
   IN IF p[1][1] = b THEN <<p[2][1], s>> ELSE <<p[1][1], s>>]
\* e_b |-> s e_b'  hence the coefficient of b in J x is s times that of b'
J(x) == TLCEval([b \in Blade |-> JMap[b][2] * x[JMap[b][1]]])
Reg(x, y) == J(Ext(J(x), J(y)))

Lanewise(Op(_, _), v, w) == [i \in 1..Len(v) |-> Op(v[i], w[i])]

(* ------------------------------ the operations ---------------------------- *)
\* [n: name, a: operand types, r: result type, f: meaning, d: degree in each operand]
Op(n, a, r, f, d) == [n |-> n, a |-> a, r |-> r, f |-> f, d |-> d]

GPOps == <<
  Op("gp_plane_plane",   <<"plane", "plane">>,   "motor",  "gp", <<1, 1>>),
  Op("gp_plane_point",   <<"plane", "point">>,   "motor",  "gp", <<1, 1>>),
  Op("gp_point_plane",   <<"point", "plane">>,   "motor",  "gp", <<1, 1>>),
  Op("gp_branch_branch", <<"branch", "branch">>, "rotor",  "gp", <<1, 1>>),
  Op("gp_line_line",     <<"line", "line">>,     "motor",  "gp", <<1, 1>>),
  Op("gp_rotor_rotor",   <<"rotor", "rotor">>,   "rotor",  "gp", <<1, 1>>),
  Op("gp_dual_line",     <<"dual", "line">>,     "line",   "gp", <<1, 1>>),
  Op("gp_line_dual",     <<"line", "dual">>,     "line",   "gp", <<1, 1>>),
  Op("gp_rotor_trans",   <<"rotor", "trans">>,   "motor",  "gp", <<1, 0>>),
  Op("gp_trans_rotor",   <<"trans", "rotor">>,   "motor",  "gp", <<0, 1>>),
  Op("gp_trans_trans",   <<"trans", "trans">>,   "trans",  "gp", <<0, 0>>),
  Op("gp_rotor_motor",   <<"rotor", "motor">>,   "motor",  "gp", <<1, 1>>),
  Op("gp_motor_rotor",   <<"motor", "rotor">>,   "motor",  "gp", <<1, 1>>),
  Op("gp_trans_motor",   <<"trans", "motor">>,   "motor",  "gp", <<0, 1>>),
  Op("gp_motor_trans",   <<"motor", "trans">>,   "motor",  "gp", <<1, 0>>),
  Op("gp_motor_motor",   <<"motor", "motor">>,   "motor",  "gp", <<1, 1>>) >>

ExtOps == <<
  Op("ext_plane_plane",  <<"plane", "plane">>,  "line",  "ext", <<1, 1>>),
  Op("ext_plane_branch", <<"plane", "branch">>, "point", "ext", <<1, 1>>),
  Op("ext_branch_plane", <<"branch", "plane">>, "point", "ext", <<1, 1>>),
  Op("ext_plane_ideal",  <<"plane", "ideal">>,  "point", "ext", <<1, 1>>),
  Op("ext_ideal_plane",  <<"ideal", "plane">>,  "point", "ext", <<1, 1>>),
  Op("ext_plane_line",   <<"plane", "line">>,   "point", "ext", <<1, 1>>),
  Op("ext_line_plane",   <<"line", "plane">>,   "point", "ext", <<1, 1>>),
  Op("ext_plane_point",  <<"plane", "point">>,  "dual",  "ext", <<1, 1>>),
  Op("ext_point_plane",  <<"point", "plane">>,  "dual",  "ext", <<1, 1>>),
  Op("ext_branch_ideal", <<"branch", "ideal">>, "dual",  "ext", <<1, 1>>),
  Op("ext_ideal_branch", <<"ideal", "branch">>, "dual",  "ext", <<1, 1>>),
  Op("ext_line_line",    <<"line", "line">>,    "dual",  "ext", <<1, 1>>),
  Op("ext_line_ideal",   <<"line", "ideal">>,   "dual",  "ext", <<1, 1>>),
  Op("ext_ideal_line",   <<"ideal", "line">>,   "dual",  "ext", <<1, 1>>),
  Op("ext_line_branch",  <<"line", "branch">>,  "dual",  "ext", <<1, 1>>),
  Op("ext_branch_line",  <<"branch", "line">>,  "dual",  "ext", <<1, 1>>) >>

RegOps == <<
  Op("reg_point_point",  <<"point", "point">>,  "line",  "reg", <<1, 1>>),
  Op("reg_point_line",   <<"point", "line">>,   "plane", "reg", <<1, 1>>),
  Op("reg_line_point",   <<"line", "point">>,   "plane", "reg", <<1, 1>>),
  Op("reg_point_branch", <<"point", "branch">>, "plane", "reg", <<1, 1>>),
  Op("reg_branch_point", <<"branch", "point">>, "plane", "reg", <<1, 1>>),
  Op("reg_point_ideal",  <<"point", "ideal">>,  "plane", "reg", <<1, 1>>),
  Op("reg_ideal_point",  <<"ideal", "point">>,  "plane", "reg", <<1, 1>>),
  Op("reg_plane_point",  <<"plane", "point">>,  "dual",  "reg", <<1, 1>>),
  Op("reg_point_plane",  <<"point", "plane">>,  "dual",  "reg", <<1, 1>>) >>

DotOps == <<
  Op("dot_plane_plane",  <<"plane", "plane">>, "scalar", "dot", <<1, 1>>),
  Op("dot_plane_line",   <<"plane", "line">>,  "plane",  "dot", <<1, 1>>),
  Op("dot_line_plane",   <<"line", "plane">>,  "plane",  "dot", <<1, 1>>),
  Op("dot_plane_ideal",  <<"plane", "ideal">>, "plane",  "dot", <<1, 1>>),
  Op("dot_ideal_plane",  <<"ideal", "plane">>, "plane",  "dot", <<1, 1>>),
  Op("dot_plane_point",  <<"plane", "point">>, "line",   "dot", <<1, 1>>),
  Op("dot_point_plane",  <<"point", "plane">>, "line",   "dot", <<1, 1>>),
  Op("dot_line_line",    <<"line", "line">>,   "scalar", "dot", <<1, 1>>),
  Op("dot_point_line",   <<"point", "line">>,  "plane",  "dot", <<1, 1>>),
  Op("dot_line_point",   <<"line", "point">>,  "plane",  "dot", <<1, 1>>),
  Op("dot_point_point",  <<"point", "point">>, "scalar", "dot", <<1, 1>>) >>

RotorSwOps == <<
  Op("sw_rotor_plane",  <<"rotor", "plane">>,  "plane",  "sw", <<2, 1>>),
  Op("sw_rotor_branch", <<"rotor", "branch">>, "branch", "sw", <<2, 1>>),
  Op("sw_rotor_line",   <<"rotor", "line">>,   "line",   "sw", <<2, 1>>),
  Op("sw_rotor_point",  <<"rotor", "point">>,  "point",  "sw", <<2, 1>>),
  Op("sw_rotor_dir",    <<"rotor", "dir">>,    "dir",    "sw", <<2, 1>>) >>

TransSwOps == <<
  Op("sw_trans_plane", <<"trans", "plane">>, "plane", "sw", <<0, 1>>),
  Op("sw_trans_line",  <<"trans", "line">>,  "line",  "sw", <<0, 1>>),
  Op("sw_trans_point", <<"trans", "point">>, "point", "sw", <<0, 1>>) >>

MotorSwOps == <<
  Op("sw_motor_plane", <<"motor", "plane">>, "plane", "sw", <<2, 1>>),
  Op("sw_motor_line",  <<"motor", "line">>,  "line",  "sw", <<2, 1>>),
  Op("sw_motor_point", <<"motor", "point">>, "point", "sw", <<2, 1>>),
  Op("sw_motor_dir",   <<"motor", "dir">>,   "dir",   "sw", <<2, 1>>),
  Op("sw_motor_origin", <<"motor">>,         "point", "sworigin", <<2>>) >>

\* the same through the overloads for arrays (K11 has their aliasing and lengths)
ArraySwOps(T) == << Op("swa_" \o T \o "_plane", <<T, "plane">>, "plane", "sw", <<2, 1>>),
                    Op("swa_" \o T \o "_line",  <<T, "line">>,  "line",  "sw", <<2, 1>>),
                    Op("swa_" \o T \o "_point", <<T, "point">>, "point", "sw", <<2, 1>>),
                    Op("swa_" \o T \o "_dir",   <<T, "dir">>,   "dir",   "sw", <<2, 1>>) >>

ReflOps == <<
  Op("refl_plane_plane", <<"plane", "plane">>, "plane", "refl", <<2, 1>>),
  Op("refl_plane_line",  <<"plane", "line">>,  "line",  "refl", <<2, 1>>),
  Op("refl_plane_point", <<"plane", "point">>, "point", "refl", <<2, 1>>) >>

ProjOps == <<
  Op("proj_point_line",  <<"point", "line">>,  "point", "projmeet", <<1, 2>>),
  Op("proj_point_plane", <<"point", "plane">>, "point", "projmeet", <<1, 2>>),
  Op("proj_line_plane",  <<"line", "plane">>,  "line",  "projmeet", <<1, 2>>),
  Op("proj_plane_point", <<"plane", "point">>, "plane", "projdot",  <<1, 2>>),
  Op("proj_line_point",  <<"line", "point">>,  "line",  "projdot",  <<1, 2>>),
  Op("proj_plane_line",  <<"plane", "line">>,  "plane", "projdot",  <<1, 2>>) >>

Unary(pre, f, ts) == [i \in 1..Len(ts) |-> Op(pre \o ts[i], <<ts[i]>>, ts[i], f, <<1>>)]

DualOps == <<
  Op("dual_plane",  <<"plane">>,  "point",  "dual", <<1>>),
  Op("dual_point",  <<"point">>,  "plane",  "dual", <<1>>),
  Op("dual_line",   <<"line">>,   "line",   "dual", <<1>>),
  Op("dual_ideal",  <<"ideal">>,  "branch", "dual", <<1>>),
  Op("dual_branch", <<"branch">>, "ideal",  "dual", <<1>>),
  Op("dual_dual",   <<"dual">>,   "dual",   "dual", <<1>>) >>
  \o Unary("rev_", "rev", <<"ideal", "branch", "line", "point", "rotor", "motor">>)
  \o Unary("neg_", "neg", <<"ideal", "branch", "line", "rotor", "motor", "dir">>)
  \o Unary("neg_", "negtail", <<"plane", "point">>)

(* Entities as vectors: sums, scalings, readers.  Every form offered is its own *)
(* operation; translators keep their implicit scalar part 1.                    *)
VecT  == <<"plane", "point", "dir", "line", "ideal", "branch", "rotor", "trans", "motor", "dual">>
VecTI == SelectSeq(VecT, LAMBDA t : t # "dual")
OverT2(pre, f, ts, d) == [i \in 1..Len(ts) |-> Op(pre \o ts[i], <<ts[i], ts[i]>>, ts[i], f, d)]
OverTS(pre, f, ts, d) == [i \in 1..Len(ts) |-> Op(pre \o ts[i], <<ts[i], "scalar">>, ts[i], f, d)]
ReadT == <<"plane", "point", "line", "ideal", "branch", "rotor", "trans", "motor">>
VecOps == OverT2("add_", "vadd", VecT, <<1, 1>>) \o OverT2("iadd_", "vadd", VecT, <<1, 1>>)
          \o OverT2("sub_", "vsub", VecT, <<1, 1>>) \o OverT2("isub_", "vsub", VecT, <<1, 1>>)
          \o OverTS("mulf_", "smul", VecT, <<1, 1>>) \o OverTS("fmul_", "smul", VecT, <<1, 1>>)
          \o OverTS("imulf_", "smul", VecT, <<1, 1>>)
          \o OverTS("muli_", "smul", VecTI, <<1, 0>>) \o OverTS("intmul_", "smul", VecTI, <<1, 0>>)
          \o OverTS("imuli_", "smul", VecTI, <<1, 0>>)
          \o [i \in 1..Len(ReadT) |-> Op("read_" \o ReadT[i], <<ReadT[i]>>, ReadT[i] \o "A", "conv",
                                         <<IF ReadT[i] = "trans" THEN 0 ELSE 1>>)]
          \o [i \in 1..Len(VecTI) |-> Op("copy_" \o VecTI[i], <<VecTI[i], VecTI[i]>>, VecTI[i], "second", <<1, 1>>)]

(* Conversions, component constructors, assignments between types.              *)
ConvOps == <<
  Op("motor_of_rotor",  <<"rotor">>,  "motor", "conv", <<1>>),
  Op("motor_of_trans",  <<"trans">>,  "motor", "conv", <<0>>),
  Op("motor_set_rotor", <<"motor", "rotor">>, "motor", "setconv", <<0, 1>>),
  Op("motor_set_trans", <<"motor", "trans">>, "motor", "setconv", <<0, 0>>),
  Op("motor_set_motor", <<"motor", "motor">>, "motor", "setconv", <<0, 1>>),
  Op("motor_comp",      <<"motor">>,  "motor", "conv", <<1>>),
  Op("motor_load",      <<"motor", "motor">>, "motor", "setconv", <<0, 1>>),
  Op("line_of_ideal",   <<"ideal">>,  "line",  "conv", <<1>>),
  Op("line_of_branch",  <<"branch">>, "line",  "conv", <<1>>),
  Op("line_comp",       <<"line">>,   "line",  "conv", <<1>>),
  Op("plane_comp",      <<"plane">>,  "plane", "conv", <<1>>),
  Op("plane_ptr",       <<"plane">>,  "plane", "conv", <<1>>),
  Op("plane_load",      <<"plane", "plane">>, "plane", "setconv", <<0, 1>>),
  Op("point_load",      <<"point", "point">>, "point", "setconv", <<0, 1>>),
  Op("rotor_load",      <<"rotor", "rotor">>, "rotor", "setconv", <<0, 1>>),
  Op("trans_load",      <<"trans", "trans">>, "trans", "setconv", <<0, 0>>),
  Op("point_xyz",       <<"dir">>,    "point", "addorigin", <<0>>),
  Op("point_origin",    <<"scalar">>, "point", "origin", <<0>>),
  Op("dir_ptr",         <<"dir">>,    "dir",   "conv", <<1>>),
  Op("ideal_comp",      <<"ideal">>,  "ideal", "conv", <<1>>),
  Op("branch_comp",     <<"branch">>, "branch", "conv", <<1>>) >>

(* Matrices: column c holds the image of the c-th homogeneous unit column        *)
(* (x, y, z, w); applying the matrix object is applying the motion.              *)
MatOps == <<
  Op("mat4_rotor", <<"rotor">>, "mat", "mat", <<2>>),
  Op("mat4_motor", <<"motor">>, "mat", "mat", <<2>>),
  Op("mat3_rotor", <<"rotor">>, "mat", "umat", <<2>>),
  Op("mat3_motor", <<"motor">>, "mat", "umat", <<2>>),
  Op("mat4_rotor_app", <<"rotor", "pointA">>, "pointA", "sw",  <<2, 1>>),
  Op("mat4_motor_app", <<"motor", "pointA">>, "pointA", "sw",  <<2, 1>>),
  Op("mat3_rotor_app", <<"rotor", "pointA">>, "pointA", "usw", <<2, 1>>),
  Op("mat3_motor_app", <<"motor", "pointA">>, "pointA", "usw", <<2, 1>>) >>

(* The shader library.                                                          *)
GlslOps == <<
  Op("glsl_mul_rotor",  <<"rotor", "rotor">>, "rotor", "gp", <<1, 1>>),
  Op("glsl_mul_trans",  <<"trans", "trans">>, "trans", "gp", <<0, 0>>),
  Op("glsl_mul_motor",  <<"motor", "motor">>, "motor", "gp", <<1, 1>>),
  Op("glsl_rotor_plane", <<"rotor", "plane">>, "plane", "sw", <<2, 1>>),
  Op("glsl_motor_plane", <<"motor", "plane">>, "plane", "sw", <<2, 1>>),
  Op("glsl_rotor_point", <<"rotor", "point">>, "point", "sw", <<2, 1>>),
  Op("glsl_motor_point", <<"motor", "point">>, "point", "sw", <<2, 1>>),
  Op("glsl_motor_origin", <<"motor">>, "point", "sworigin", <<2>>) >>

(* The C interface; compositions apply the second argument after the first.      *)
CapiOps == <<
  Op("c_plane_init", <<"planeA">>, "plane", "conv", <<1>>),
  Op("c_line_init",  <<"line">>, "line", "conv", <<1>>),
  Op("c_point_init", <<"dir">>, "point", "addorigin", <<0>>),
  Op("c_reflect_point", <<"plane", "point">>, "point", "refl", <<2, 1>>),
  Op("c_reflect_line",  <<"plane", "line">>,  "line",  "refl", <<2, 1>>),
  Op("c_reflect_plane", <<"plane", "plane">>, "plane", "refl", <<2, 1>>),
  Op("c_rotate_point", <<"rotor", "point">>, "point", "sw", <<2, 1>>),
  Op("c_rotate_line",  <<"rotor", "line">>,  "line",  "sw", <<2, 1>>),
  Op("c_rotate_plane", <<"rotor", "plane">>, "plane", "sw", <<2, 1>>),
  Op("c_translate_point", <<"trans", "point">>, "point", "sw", <<0, 1>>),
  Op("c_translate_line",  <<"trans", "line">>,  "line",  "sw", <<0, 1>>),
  Op("c_translate_plane", <<"trans", "plane">>, "plane", "sw", <<0, 1>>),
  Op("c_motor_point", <<"motor", "point">>, "point", "sw", <<2, 1>>),
  Op("c_motor_line",  <<"motor", "line">>,  "line",  "sw", <<2, 1>>),
  Op("c_motor_plane", <<"motor", "plane">>, "plane", "sw", <<2, 1>>),
  Op("c_compose_rotors", <<"rotor", "rotor">>, "rotor", "pg", <<1, 1>>),
  Op("c_compose_translators", <<"trans", "trans">>, "trans", "pg", <<0, 0>>),
  Op("c_compose_rotor_translator", <<"rotor", "trans">>, "motor", "pg", <<1, 0>>),
  Op("c_compose_translator_rotor", <<"trans", "rotor">>, "motor", "pg", <<0, 1>>),
  Op("c_compose_motors", <<"motor", "motor">>, "motor", "pg", <<1, 1>>) >>

(* ------------------------------- their meaning ---------------------------- *)
Binary(f, x, y) ==
  CASE f = "gp"   -> GP(x, y)
    [] f = "ext"  -> Ext(x, y)
    [] f = "reg"  -> Reg(x, y)
    [] f = "dot"  -> Dot(x, y)
    [] f = "pg"   -> GP(y, x)
    [] f \in {"sw", "usw"} -> Sandwich(x, y)
    [] f = "refl" -> GP(GP(x, y), x)
    [] f = "projmeet" -> Ext(Dot(x, y), y)
    [] f = "projdot"  -> Dot(Dot(x, y), y)

OriginMV == E(14)

MVUnary(f, x) ==
  CASE f = "dual" -> J(x)
    [] f = "rev"  -> Rev(x)
    [] f = "neg"  -> Scale(-1, x)
    [] f = "conv" -> x
    [] f = "addorigin" -> Add(x, OriginMV)
    [] f = "origin" -> OriginMV
    [] f = "sworigin" -> Sandwich(x, OriginMV)

MatOf(m) ==
  LET col == [c \in 1..4 |-> FromMV("pointA", Sandwich(m, ToMV("pointA", [j \in 1..4 |-> IF j = c THEN 1 ELSE 0])))]
  IN [k \in 1..16 |-> col[1 + ((k - 1) \div 4)][1 + ((k - 1) % 4)]]

Result(o, v) ==
  IF o.f = "negtail" THEN <<v[1][1], -v[1][2], -v[1][3], -v[1][4]>>
  ELSE IF o.f = "vadd" THEN Lanewise(LAMBDA a, b : a + b, v[1], v[2])
  ELSE IF o.f = "vsub" THEN Lanewise(LAMBDA a, b : a - b, v[1], v[2])
  ELSE IF o.f = "smul" THEN [i \in 1..Len(v[1]) |-> v[1][i] * v[2][1]]
  ELSE IF o.f \in {"mat", "umat"} THEN MatOf(ToMV(o.a[1], v[1]))
  ELSE IF o.f = "second" THEN v[2]
  ELSE IF o.f = "setconv" THEN FromMV(o.r, ToMV(o.a[2], v[2]))
  ELSE IF Len(o.a) = 2
       THEN FromMV(o.r, Binary(o.f, ToMV(o.a[1], v[1]), ToMV(o.a[2], v[2])))
       ELSE FromMV(o.r, MVUnary(o.f, ToMV(o.a[1], v[1])))

ExactOps == GPOps \o ExtOps \o RegOps \o DotOps \o RotorSwOps \o TransSwOps
            \o MotorSwOps \o ArraySwOps("rotor") \o ArraySwOps("motor") \o ReflOps \o ProjOps \o DualOps \o VecOps \o ConvOps
            \o MatOps \o GlslOps \o CapiOps

\* The Study condition: m ~m has no pseudoscalar part, i.e. m is a scaled rigid motion
Study(v) == v[1] * v[8] = v[2] * v[5] + v[3] * v[6] + v[4] * v[7]
MotorNorm2(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3] + v[4] * v[4]

(* Operations that go through the hardware reciprocal: their result is reported *)
(* in fixed point 2^-QB and may be off by a relative 2^-17.                       *)
Inexact(o) == o.n \in {"sw_trans_plane", "c_translate_plane"}
QB == 12
RECURSIVE MaxAbs(_)
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
MaxAbs(v) == IF v = << >> THEN 0 ELSE Max2(Abs(Head(v)), MaxAbs(Tail(v)))
Near(o, v, r) ==
  LET s == Result(o, v)
      m == MaxAbs(v[2]) * (1 + 8 * MaxAbs(v[1]))
  IN \A i \in 1..Len(s) : Abs(r[i]) < 2^30 /\ Abs(r[i] - s[i] * 2^QB) <= 2 + m \div 32

\* promised for unit operands only; the model passes twice the operand, the case halves it
UnitOp(o) == o.f \in {"sworigin", "umat", "usw"}
\* inputs on which the operation promises its meaning
Defined(o, v) ==
  CASE o.a[1] = "motor" /\ (o.f \in {"sw", "mat"} \/ UnitOp(o)) -> Study(v[1])
    [] OTHER -> TRUE
=============================================================================
