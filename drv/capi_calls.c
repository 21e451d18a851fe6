/* The C interface called from C. Components in the order of Lanes in Klein.tla. */
#include <string.h>
#include "klein.h"

static __m128 v4(float a, float b, float c, float d) { return _mm_set_ps(d, c, b, a); }
static kln_plane plane(float const* f) { kln_plane r; r.p0 = v4(f[0], f[1], f[2], f[3]); return r; }
static kln_point point(float const* f) { kln_point r; r.p3 = v4(f[0], f[1], f[2], f[3]); return r; }
static kln_rotor rotor(float const* f) { kln_rotor r; r.p1 = v4(f[0], f[1], f[2], f[3]); return r; }
static kln_translator trans(float const* f) { kln_translator r; r.p2 = v4(0.f, f[0], f[1], f[2]); return r; }
static kln_line line(float const* f)
{
    kln_line r;
    r.p1 = v4(0.f, f[3], f[4], f[5]);
    r.p2 = v4(0.f, f[0], f[1], f[2]);
    return r;
}
static kln_motor motor(float const* f)
{
    kln_motor r;
    r.p1 = v4(f[0], f[1], f[2], f[3]);
    r.p2 = v4(f[7], f[4], f[5], f[6]);
    return r;
}
static void oplane(kln_plane a, float* o) { _mm_storeu_ps(o, a.p0); }
static void opoint(kln_point a, float* o) { _mm_storeu_ps(o, a.p3); }
static void orotor(kln_rotor a, float* o) { _mm_storeu_ps(o, a.p1); }
static void otrans(kln_translator a, float* o)
{
    float t[4];
    _mm_storeu_ps(t, a.p2);
    o[0] = t[1]; o[1] = t[2]; o[2] = t[3];
}
static void oline(kln_line a, float* o)
{
    float t[4];
    _mm_storeu_ps(t, a.p2);
    o[0] = t[1]; o[1] = t[2]; o[2] = t[3];
    _mm_storeu_ps(t, a.p1);
    o[3] = t[1]; o[4] = t[2]; o[5] = t[3];
}
static void omotor(kln_motor a, float* o)
{
    float t[4];
    _mm_storeu_ps(o, a.p1);
    _mm_storeu_ps(t, a.p2);
    o[4] = t[1]; o[5] = t[2]; o[6] = t[3]; o[7] = t[0];
}
#ifdef KD_OPERANDS   /* a changed operand spoils the result */
#define KEEP(a) char a##_was[sizeof a]; memcpy(a##_was, &a, sizeof a);
#define KEPT(a) if (memcmp(a##_was, &a, sizeof a)) memset(o, 255, 8 * sizeof *o);
#else
#define KEEP(a)
#define KEPT(a)
#endif
#define C2(name, A, na, B, R) void name##_call(float const* f, float* o) { kln_##A a; kln_##B b; a = A(f); b = B(f + na); KEEP(a) KEEP(b) o##R(kln_##name(&a, &b), o); KEPT(a) KEPT(b) }
/* equal operands of one type are passed as one object */
#define C2S(name, A, na, R) void name##_call(float const* f, float* o) { kln_##A a; kln_##A b; a = A(f); b = A(f + na); KEEP(a) KEEP(b) o##R(kln_##name(&a, memcmp(f, f + na, na * sizeof *f) ? &b : &a), o); KEPT(a) KEPT(b) }
#define kln_trans kln_translator
void plane_init_call(float const* f, float* o) { kln_plane a; kln_plane_init(&a, f[0], f[1], f[2], f[3]); oplane(a, o); }
void line_init_call(float const* f, float* o) { kln_line a; kln_line_init(&a, f[0], f[1], f[2], f[3], f[4], f[5]); oline(a, o); }
void point_init_call(float const* f, float* o) { kln_point a; kln_point_init(&a, f[0], f[1], f[2]); opoint(a, o); }
C2(reflect_point, plane, 4, point, point)
C2(reflect_line, plane, 4, line, line)
C2S(reflect_plane, plane, 4, plane)
C2(rotate_point, rotor, 4, point, point)
C2(rotate_line, rotor, 4, line, line)
C2(rotate_plane, rotor, 4, plane, plane)
C2(translate_point, trans, 3, point, point)
C2(translate_line, trans, 3, line, line)
C2(translate_plane, trans, 3, plane, plane)
C2(motor_point, motor, 8, point, point)
C2(motor_line, motor, 8, line, line)
C2(motor_plane, motor, 8, plane, plane)
C2S(compose_rotors, rotor, 4, rotor)
C2S(compose_translators, trans, 3, trans)
C2(compose_rotor_translator, rotor, 4, trans, motor)
C2(compose_translator_rotor, trans, 3, rotor, motor)
C2S(compose_motors, motor, 8, motor)
void motor_log_call(float const* f, float* o) { kln_motor a; a = motor(f); KEEP(a) oline(motor_log(&a), o); KEPT(a) }
void line_exp_call(float const* f, float* o) { kln_line a; a = line(f); KEEP(a) omotor(line_exp(&a), o); KEPT(a) }
