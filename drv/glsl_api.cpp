// The shader library compiled as C++ through the repository's own shim.
#include <cstddef>
#include <cstdint>
#include <cmath>
#include <glsl_shim.hpp>
#include <klein.glsl>
#undef in
#undef out
#include "glsl_api.hpp"

static vec4 v4(float a, float b, float c, float d) { return vec4{a, b, c, d}; }
static kln_rotor rotor(float const* f) { kln_rotor r; r.p1 = v4(f[0], f[1], f[2], f[3]); return r; }
static kln_translator trans(float const* f) { kln_translator r; r.p2 = v4(0.f, f[0], f[1], f[2]); return r; }
static kln_motor motor(float const* f)
{
    kln_motor r;
    r.p1 = v4(f[0], f[1], f[2], f[3]);
    r.p2 = v4(f[7], f[4], f[5], f[6]);
    return r;
}
static kln_plane plane(float const* f) { kln_plane r; r.p0 = v4(f[0], f[1], f[2], f[3]); return r; }
static kln_point point(float const* f) { kln_point r; r.p3 = v4(f[0], f[1], f[2], f[3]); return r; }
static void put(vec4 const& v, float* o) { o[0] = v.x; o[1] = v.y; o[2] = v.z; o[3] = v.w; }

void glsl_mul_rotor(float const* a, float* o) { put(kln_mul(rotor(a), rotor(a + 4)).p1, o); }
void glsl_mul_trans(float const* a, float* o)
{
    float t[4];
    put(kln_mul(trans(a), trans(a + 3)).p2, t);
    o[0] = t[1]; o[1] = t[2]; o[2] = t[3];
}
void glsl_mul_motor(float const* a, float* o)
{
    kln_motor m = kln_mul(motor(a), motor(a + 8));
    float t[4];
    put(m.p1, o);
    put(m.p2, t);
    o[4] = t[1]; o[5] = t[2]; o[6] = t[3]; o[7] = t[0];
}
void glsl_rotor_plane(float const* a, float* o) { put(kln_apply(rotor(a), plane(a + 4)).p0, o); }
void glsl_motor_plane(float const* a, float* o) { put(kln_apply(motor(a), plane(a + 8)).p0, o); }
void glsl_rotor_point(float const* a, float* o) { put(kln_apply(rotor(a), point(a + 4)).p3, o); }
void glsl_motor_point(float const* a, float* o) { put(kln_apply(motor(a), point(a + 8)).p3, o); }
void glsl_motor_origin(float const* a, float* o) { put(kln_apply(motor(a)).p3, o); }
