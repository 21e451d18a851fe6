#include "kd.hpp"
#include "glsl_api.hpp"
#define G(name, dim) OP(#name, { float o[8]; name(in, o); for (int i = 0; i < dim; ++i) out.push_back(o[i]); })
G(glsl_mul_rotor, 4)
G(glsl_mul_trans, 3)
G(glsl_mul_motor, 8)
G(glsl_rotor_plane, 4)
G(glsl_motor_plane, 4)
G(glsl_rotor_point, 4)
G(glsl_motor_point, 4)
G(glsl_motor_origin, 4)
#ifndef KD_NOMAIN
int main() { return kd_main(); }
#endif
