// Products, applications, projections, duals: the operations whose results are
// polynomials of the operands.
#include "kd.hpp"
using namespace kln;

#if defined(G_GP) || defined(G_ALL)
OP2("gp_plane_plane", plane, plane, a * b)
OP2("gp_plane_point", plane, point, a * b)
OP2("gp_point_plane", point, plane, a * b)
OP2("gp_branch_branch", branch, branch, a * b)
OP2("gp_line_line", line, line, a * b)
OP2("gp_rotor_rotor", rotor, rotor, a * b)
OP2("gp_dual_line", dual, line, a * b)
OP2("gp_line_dual", line, dual, a * b)
OP2("gp_rotor_trans", rotor, translator, a * b)
OP2("gp_trans_rotor", translator, rotor, a * b)
OP2("gp_trans_trans", translator, translator, a * b)
OP2("gp_rotor_motor", rotor, motor, a * b)
OP2("gp_motor_rotor", motor, rotor, a * b)
OP2("gp_trans_motor", translator, motor, a * b)
OP2("gp_motor_trans", motor, translator, a * b)
OP2("gp_motor_motor", motor, motor, a * b)
OP2("gp_point_point", point, point, a * b)
#endif
#if defined(G_EXT) || defined(G_ALL)
OP2("ext_plane_plane", plane, plane, a ^ b)
OP2("ext_plane_branch", plane, branch, a ^ b)
OP2("ext_branch_plane", branch, plane, a ^ b)
OP2("ext_plane_ideal", plane, ideal_line, a ^ b)
OP2("ext_ideal_plane", ideal_line, plane, a ^ b)
OP2("ext_plane_line", plane, line, a ^ b)
OP2("ext_line_plane", line, plane, a ^ b)
OP2("ext_plane_point", plane, point, a ^ b)
OP2("ext_point_plane", point, plane, a ^ b)
OP2("ext_branch_ideal", branch, ideal_line, a ^ b)
OP2("ext_ideal_branch", ideal_line, branch, a ^ b)
OP2("ext_line_line", line, line, a ^ b)
OP2("ext_line_ideal", line, ideal_line, a ^ b)
OP2("ext_ideal_line", ideal_line, line, a ^ b)
OP2("ext_line_branch", line, branch, a ^ b)
OP2("ext_branch_line", branch, line, a ^ b)
#endif
#if defined(G_REG) || defined(G_ALL)
OP2("reg_point_point", point, point, a & b)
OP2("reg_point_line", point, line, a & b)
OP2("reg_line_point", line, point, a & b)
OP2("reg_point_branch", point, branch, a & b)
OP2("reg_branch_point", branch, point, a & b)
OP2("reg_point_ideal", point, ideal_line, a & b)
OP2("reg_ideal_point", ideal_line, point, a & b)
OP2("reg_plane_point", plane, point, a & b)
OP2("reg_point_plane", point, plane, a & b)
#endif
#if defined(G_DOT) || defined(G_ALL)
OP2("dot_plane_plane", plane, plane, a | b)
OP2("dot_plane_line", plane, line, a | b)
OP2("dot_line_plane", line, plane, a | b)
OP2("dot_plane_ideal", plane, ideal_line, a | b)
OP2("dot_ideal_plane", ideal_line, plane, a | b)
OP2("dot_plane_point", plane, point, a | b)
OP2("dot_point_plane", point, plane, a | b)
OP2("dot_line_line", line, line, a | b)
OP2("dot_point_line", point, line, a | b)
OP2("dot_line_point", line, point, a | b)
OP2("dot_point_point", point, point, a | b)
#endif
// the middle element of an array
template <typename A, typename B> static B among(A const& a, B const& b) { B in[3] = {b, b, b}, out[3]; a(in, out, 3); return out[1]; }
#if defined(G_SWR) || defined(G_ALL)
OP2("sw_rotor_plane", rotor, plane, a(b))
OP2("sw_rotor_branch", rotor, branch, a(b))
OP2("sw_rotor_line", rotor, line, a(b))
OP2("sw_rotor_point", rotor, point, a(b))
OP2("sw_rotor_dir", rotor, direction, a(b))
OP2("swa_rotor_plane", rotor, plane, among(a, b))
OP2("swa_rotor_line", rotor, line, among(a, b))
OP2("swa_rotor_point", rotor, point, among(a, b))
OP2("swa_rotor_dir", rotor, direction, among(a, b))
#endif
#if defined(G_SWT) || defined(G_ALL)
OP2("sw_trans_plane", translator, plane, a(b))
OP2("sw_trans_line", translator, line, a(b))
OP2("sw_trans_point", translator, point, a(b))
#endif
#if defined(G_SWM) || defined(G_ALL)
OP2("sw_motor_plane", motor, plane, a(b))
OP2("sw_motor_line", motor, line, a(b))
OP2("sw_motor_point", motor, point, a(b))
OP2("sw_motor_dir", motor, direction, a(b))
OP2("swa_motor_plane", motor, plane, among(a, b))
OP2("swa_motor_line", motor, line, among(a, b))
OP2("swa_motor_point", motor, point, among(a, b))
OP2("swa_motor_dir", motor, direction, among(a, b))
OP1("sw_motor_origin", motor, a(origin{}))
#endif
#if defined(G_REFL) || defined(G_ALL)
OP2("refl_plane_plane", plane, plane, a(b))
OP2("refl_plane_line", plane, line, a(b))
OP2("refl_plane_point", plane, point, a(b))
#endif
#if defined(G_PROJ) || defined(G_ALL)
OP2("proj_point_line", point, line, project(a, b))
OP2("proj_point_plane", point, plane, project(a, b))
OP2("proj_line_plane", line, plane, project(a, b))
OP2("proj_plane_point", plane, point, project(a, b))
OP2("proj_line_point", line, point, project(a, b))
OP2("proj_plane_line", plane, line, project(a, b))
#endif
#if defined(G_DUAL) || defined(G_ALL)
OP1("dual_plane", plane, !a)
OP1("dual_point", point, !a)
OP1("dual_line", line, !a)
OP1("dual_ideal", ideal_line, !a)
OP1("dual_branch", branch, !a)
OP1("dual_dual", dual, !a)
OP1("rev_ideal", ideal_line, ~a)
OP1("rev_branch", branch, ~a)
OP1("rev_line", line, ~a)
OP1("rev_point", point, ~a)
OP1("rev_rotor", rotor, ~a)
OP1("rev_motor", motor, ~a)
OP1("neg_ideal", ideal_line, -a)
OP1("neg_branch", branch, -a)
OP1("neg_line", line, -a)
OP1("neg_rotor", rotor, -a)
OP1("neg_motor", motor, -a)
OP1("neg_dir", direction, -a)
OP1("neg_plane", plane, -a)
OP1("neg_point", point, -a)
#endif
#if defined(G_VEC) || defined(G_ALL)
// compound forms must return the object itself
#ifdef KD_MACHINE   // on the register itself
#define SAME(name, A, B, stmt) MOP(name, B b = reg<B>(t); A& a = reg<A>(d); a = A(reg<A>(s)); A* q = &(stmt); if (q != &a) std::abort();)
#else
#define SAME(name, A, B, stmt) OP(name, { OPERANDS2(A, B) bool two = static_cast<void*>(&a) != static_cast<void*>(&b); \
    if (two) seen(b); A* q = &(stmt); if (q == &a) rd(a, out); if (two) seen(b); })
#endif
#define VEC(T, A) OP2("add_" T, A, A, a + b) OP2("sub_" T, A, A, a - b) \
    SAME("iadd_" T, A, A, a += b) SAME("isub_" T, A, A, a -= b) \
    OP2("mulf_" T, A, float, a * b) OP2("fmul_" T, A, float, b * a) SAME("imulf_" T, A, float, a *= b)
#define VECI(T, A) OP2("muli_" T, A, float, a * static_cast<int>(b)) OP2("intmul_" T, A, float, static_cast<int>(b) * a) \
    SAME("imuli_" T, A, float, a *= static_cast<int>(b)) \
    OP("copy_" T, { A a = mk<A>(in); A b = mk<A>(in + Ty<A>::dim()); seen(b); A c(b); a = c; rd(a, out); seen(b); })
#define RD(T, A, stmts) OP("read_" T, { A a = mk<A>(in); stmts })
#define W(x) out.push_back(a.x());
VEC("plane", plane) 
VECI("plane", plane)
VEC("point", point) 
VECI("point", point)
VEC("dir", direction) 
VECI("dir", direction)
VEC("line", line) 
VECI("line", line)
VEC("ideal", ideal_line) 
VECI("ideal", ideal_line)
VEC("branch", branch) 
VECI("branch", branch)
VEC("rotor", rotor) 
VECI("rotor", rotor)
VEC("trans", translator) 
VECI("trans", translator)
VEC("motor", motor) 
VECI("motor", motor)
VEC("dual", dual)
RD("plane", plane, W(x) W(y) W(z) W(d))
RD("point", point, W(x) W(y) W(z) W(w))
RD("line", line, W(e10) W(e20) W(e30) W(e32) W(e13) W(e21))
RD("ideal", ideal_line, W(e10) W(e20) W(e30))
RD("branch", branch, W(e21) W(z) W(e13) W(y) W(e32) W(x))
RD("rotor", rotor, W(e32) W(e13) W(e21))
RD("trans", translator, W(scalar) W(e10) W(e20) W(e30))
RD("motor", motor, W(e32) W(e13) W(e21) W(e10) W(e20) W(e30))
#endif
#if defined(G_CONV) || defined(G_ALL)
OP1("motor_of_rotor", rotor, motor(a))
OP1("motor_of_trans", translator, motor(a))
OP("motor_set_rotor", { motor a = mk<motor>(in); rotor b = mk<rotor>(in + 8); seen(b); motor* q = &(a = b); if (q == &a) rd(a, out); seen(b); })
OP("motor_set_trans", { motor a = mk<motor>(in); translator b = mk<translator>(in + 8); seen(b); motor* q = &(a = b); if (q == &a) rd(a, out); seen(b); })
OP("motor_set_motor", { motor a = mk<motor>(in); motor b = mk<motor>(in + 8); seen(b); motor* q = &(a = b); if (q == &a) rd(a, out); seen(b); })
OP("motor_comp", { rd(motor(in[0], in[1], in[2], in[3], in[4], in[5], in[6], in[7]), out); })
// buffer order: scalar e23 e31 e12, then e0123 e01 e02 e03 (the two halves of the object)
OP("motor_load", { motor a = mk<motor>(in); float const* v = in + 8;
    float buf[8] = {v[0], v[1], v[2], v[3], v[7], v[4], v[5], v[6]}; a.load(buf); rd(a, out); })
OP1("line_of_ideal", ideal_line, line(a))
OP1("line_of_branch", branch, line(a))
OP("line_comp", { rd(line(in[0], in[1], in[2], in[3], in[4], in[5]), out); })
OP("plane_comp", { rd(plane(in[1], in[2], in[3], in[0]), out); })
OP("plane_ptr", { float buf[4] = {in[0], in[1], in[2], in[3]}; rd(plane(buf), out); })
OP("plane_load", { plane a = mk<plane>(in); float buf[4] = {in[4], in[5], in[6], in[7]}; a.load(buf); rd(a, out); })
OP("point_load", { point a = mk<point>(in); float buf[4] = {in[4], in[5], in[6], in[7]}; a.load(buf); rd(a, out); })
OP("rotor_load", { rotor a = mk<rotor>(in); float buf[4] = {in[4], in[5], in[6], in[7]}; a.load_normalized(buf); rd(a, out); })
OP("trans_load", { translator a = mk<translator>(in); float buf[4] = {0.f, in[3], in[4], in[5]}; a.load_normalized(buf); rd(a, out); })
OP("point_xyz", { rd(point(in[0], in[1], in[2]), out); })
OP("point_origin", { origin o; point p = o; rd(p, out); })
OP("dir_ptr", { float buf[4] = {0.f, in[0], in[1], in[2]}; rd(direction(buf), out); })
OP("ideal_comp", { rd(ideal_line(in[0], in[1], in[2]), out); })
OP("branch_comp", { rd(branch(in[0], in[1], in[2]), out); })
#endif
#if defined(G_MAT) || defined(G_ALL)
// leave recognizable garbage where the matrix will be built
__attribute__((noinline)) void poison()
{
    float volatile junk[512];
    for (int i = 0; i < 512; ++i) junk[i] = __builtin_nanf("");
}
template <typename M, typename T> __attribute__((noinline)) void matrix(M (T::*f)() const, T const& t, VF& out)
{
    M* m = new M;
    for (int i = 0; i < 16; ++i) m->data[i] = __builtin_nanf("");
    poison();
    seen(t);
    *m = (t.*f)();
    seen(t);
    for (int i = 0; i < 16; ++i) out.push_back(m->data[i]);
    delete m;
}
template <typename M> void apply(M const& m, float const* v, VF& out)
{
    float b[4];
    _mm_storeu_ps(b, m(_mm_loadu_ps(v)));
    for (int i = 0; i < 4; ++i) out.push_back(b[i]);
}
OP("mat4_rotor", { matrix(&rotor::as_mat4x4, mk<rotor>(in), out); })
OP("mat4_motor", { matrix(&motor::as_mat4x4, mk<motor>(in), out); })
OP("mat3_rotor", { matrix(&rotor::as_mat3x4, mk<rotor>(in), out); })
OP("mat3_motor", { matrix(&motor::as_mat3x4, mk<motor>(in), out); })
OP("mat4_rotor_app", { apply(mk<rotor>(in).as_mat4x4(), in + 4, out); })
OP("mat4_motor_app", { apply(mk<motor>(in).as_mat4x4(), in + 8, out); })
OP("mat3_rotor_app", { apply(mk<rotor>(in).as_mat3x4(), in + 4, out); })
OP("mat3_motor_app", { apply(mk<motor>(in).as_mat3x4(), in + 8, out); })
#endif

#if !defined(KD_MACHINE) && !defined(KD_NOMAIN)
int main() { return kd_main(); }
#endif
