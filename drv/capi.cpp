// Names and result sizes of the C interface calls (made in capi_calls.c).
#include "kd.hpp"
#define C(name, dim) extern "C" void name##_call(float const*, float*); \
    OP("c_" #name, { float o[8]; name##_call(in, o); for (int i = 0; i < dim; ++i) out.push_back(o[i]); })
C(plane_init, 4)
C(line_init, 6)
C(point_init, 4)
C(reflect_point, 4)
C(reflect_line, 6)
C(reflect_plane, 4)
C(rotate_point, 4)
C(rotate_line, 6)
C(rotate_plane, 4)
C(translate_point, 4)
C(translate_line, 6)
C(translate_plane, 4)
C(motor_point, 4)
C(motor_line, 6)
C(motor_plane, 4)
C(compose_rotors, 4)
C(compose_translators, 3)
C(compose_rotor_translator, 8)
C(compose_translator_rotor, 8)
C(compose_motors, 8)
C(motor_log, 6)
C(line_exp, 8)
#ifndef KD_NOMAIN
int main() { return kd_main(); }
#endif
