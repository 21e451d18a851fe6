// Operations that go through reciprocals, roots and trigonometry.
#include "kd.hpp"
using namespace kln;

#define INV(T) OP("inv_" #T, { typedef T_##T X; X a = mk<X>(in); X b = a; a.invert(); rd(a, out); seen(b); rd(b.inverse(), out); seen(b); })
#define NORM(T) OP("norm_" #T, { typedef T_##T X; X a = mk<X>(in); X b = a; X c = a; a.normalize(); rd(a, out); \
    seen(b); rd(b.normalized(), out); seen(b); c.normalize(); c.normalize(); rd(c, out); })
typedef plane T_plane; typedef point T_point; typedef line T_line; typedef branch T_branch; typedef rotor T_rotor;
typedef motor T_motor; typedef translator T_trans; typedef direction T_dir; typedef ideal_line T_ideal; typedef dual T_dual;

#ifdef G_INV
INV(plane) 
INV(point) 
INV(line) 
INV(branch) 
INV(rotor) 
INV(motor) 
INV(trans)
OP2("div_plane_plane", plane, plane, a / b)
OP2("div_point_point", point, point, a / b)
OP2("div_branch_branch", branch, branch, a / b)
OP2("div_rotor_rotor", rotor, rotor, a / b)
OP2("div_trans_trans", translator, translator, a / b)
OP2("div_line_line", line, line, a / b)
OP2("div_motor_rotor", motor, rotor, a / b)
OP2("div_motor_trans", motor, translator, a / b)
OP2("div_motor_motor", motor, motor, a / b)
#endif
#ifdef G_GPPT
OP2("gp_point_point", point, point, a * b)
#endif
#ifdef G_NORM
NORM(plane)
NORM(point)
NORM(dir)
NORM(line)
NORM(branch)
NORM(rotor)
NORM(motor)
OP("dirctor_dir", { rd(direction(in[0], in[1], in[2]), out); })
OP("dirctor", { rd(direction(in[0], in[1], in[2]), out); })
#endif
#ifdef G_SDIV
#define SDIV(T) OP("sdiv_" #T, { typedef T_##T X; X a = mk<X>(in); float s = in[Ty<X>::dim()]; seen(a); rd(a / s, out); seen(a); })
#define SDIVC(T) OP("sdivc_" #T, { typedef T_##T X; X a = mk<X>(in); int s = static_cast<int>(in[Ty<X>::dim()]); seen(a); rd(a / s, out); seen(a); })
#define IDIV(T) OP("idiv_" #T, { typedef T_##T X; X a = mk<X>(in); float s = in[Ty<X>::dim()]; X& r = (a /= s); if (&r == &a) rd(r, out); })
#define IDIVC(T) OP("idivc_" #T, { typedef T_##T X; X a = mk<X>(in); int s = static_cast<int>(in[Ty<X>::dim()]); X& r = (a /= s); if (&r == &a) rd(r, out); })
SDIV(plane) 
SDIVC(plane) 
IDIV(plane) 
IDIVC(plane)
SDIV(point) 
SDIVC(point) 
IDIV(point) 
IDIVC(point)
SDIV(dir) 
SDIVC(dir) 
IDIV(dir) 
IDIVC(dir)
SDIV(line) 
SDIVC(line) 
IDIV(line) 
IDIVC(line)
SDIV(ideal) 
SDIVC(ideal) 
IDIV(ideal) 
IDIVC(ideal)
SDIV(branch) 
SDIVC(branch) 
IDIV(branch) 
IDIVC(branch)
SDIV(rotor) 
SDIVC(rotor) 
IDIV(rotor) 
IDIVC(rotor)
SDIV(trans) 
SDIVC(trans) 
IDIV(trans) 
IDIVC(trans)
SDIV(motor) 
SDIVC(motor) 
IDIV(motor) 
IDIVC(motor)
SDIV(dual) 
IDIV(dual)
#endif
#ifdef G_SQRT
OP1("sqrt_rotor", rotor, sqrt(a))
OP1("sqrt_branch", branch, sqrt(a))
OP1("sqrt_trans", translator, sqrt(a))
OP1("sqrt_motor", motor, sqrt(a))
#endif
#ifdef G_EXP
OP1("exp_line", line, exp(a))
OP1("exp_branch", branch, exp(a))
OP1("exp_ideal", ideal_line, exp(a))
#endif
#ifdef G_LOG
OP1("log_motor", motor, log(a))
OP1("log_rotor", rotor, log(a))
OP1("log_trans", translator, log(a))
#endif
#ifdef G_CTOR
OP("ctor_rotor", { rd(rotor(in[0], in[1], in[2], in[3]), out); })
OP("ctor_trans", { rd(translator(in[0], in[1], in[2], in[3]), out); })
OP("ctor_motor", { rd(motor(in[0], in[1], mk<line>(in + 2)), out); })
#endif
#ifdef G_EULER
OP("euler_rotor", { euler_angles ea; ea.roll = in[0]; ea.pitch = in[1]; ea.yaw = in[2]; rd(rotor(ea), out); })
OP("as_euler", { rotor r = mk<rotor>(in); seen(r); euler_angles ea = r.as_euler_angles(); seen(r);
    out.push_back(ea.roll); out.push_back(ea.pitch); out.push_back(ea.yaw); })
#endif
#ifdef G_METRIC
OP("normof_plane", { plane a = mk<plane>(in); seen(a); out.push_back(a.norm()); seen(a); })
OP("normof_line", { line a = mk<line>(in); seen(a); out.push_back(a.norm()); seen(a); })
OP("normof_branch", { branch a = mk<branch>(in); seen(a); out.push_back(a.norm()); seen(a); })
OP("normof_ideal", { ideal_line a = mk<ideal_line>(in); seen(a); out.push_back(a.ideal_norm()); seen(a); })
OP("sqnorm_line", { line a = mk<line>(in); seen(a); out.push_back(a.squared_norm()); seen(a); })
OP("sqnorm_branch", { branch a = mk<branch>(in); seen(a); out.push_back(a.squared_norm()); seen(a); })
OP("sqnorm_ideal", { ideal_line a = mk<ideal_line>(in); seen(a); out.push_back(a.squared_ideal_norm()); seen(a); })
OP("dist_points", { point p(in[0], in[1], in[2]); point q(in[3], in[4], in[5]); out.push_back((p & q).norm()); })
OP("dist_point_plane", { point p(in[0], in[1], in[2]); plane q = mk<plane>(in + 3); out.push_back((q.normalized() ^ p).e0123()); })
OP("cos_planes", { plane p = mk<plane>(in); plane q = mk<plane>(in + 4); out.push_back(p.normalized() | q.normalized()); })
OP("cos_lines", { line p = mk<line>(in); line q = mk<line>(in + 6); out.push_back(p.normalized() | q.normalized()); })
#endif

#ifdef G_ACTR
OP2("act_rotor_plane", rotor, T_plane, a(b))
OP2("act_rotor_branch", rotor, T_branch, a(b))
OP2("act_rotor_line", rotor, T_line, a(b))
OP2("act_rotor_point", rotor, T_point, a(b))
OP2("act_rotor_dir", rotor, T_dir, a(b))
#endif
#ifdef G_ACTM
OP2("act_motor_plane", motor, T_plane, a(b))
OP2("act_motor_line", motor, T_line, a(b))
OP2("act_motor_point", motor, T_point, a(b))
OP2("act_motor_dir", motor, T_dir, a(b))
OP1("act_motor_origin", motor, a(origin{}))
#endif
#ifdef G_ACTX
// components (e123, e032, e013, e021) are (w, x, y, z)
template <typename M> void column(M const& m, float const* p, VF& out)
{
    float b[4];
    _mm_storeu_ps(b, m(_mm_set_ps(p[0], p[3], p[2], p[1])));
    out.push_back(b[3]);
    for (int i = 0; i < 3; ++i) out.push_back(b[i]);
}
OP("mat4_rotor_point", { column(mk<rotor>(in).as_mat4x4(), in + 4, out); })
OP("mat4_motor_point", { column(mk<motor>(in).as_mat4x4(), in + 8, out); })
OP("mat3_rotor_point", { column(mk<rotor>(in).as_mat3x4(), in + 4, out); })
OP("mat3_motor_point", { column(mk<motor>(in).as_mat3x4(), in + 8, out); })
#endif

#ifndef KD_NOMAIN
int main() { return kd_main(); }
#endif
