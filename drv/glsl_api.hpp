#pragma once
void glsl_mul_rotor(float const*, float*);
void glsl_mul_trans(float const*, float*);
void glsl_mul_motor(float const*, float*);
void glsl_rotor_plane(float const*, float*);
void glsl_motor_plane(float const*, float*);
void glsl_rotor_point(float const*, float*);
void glsl_motor_point(float const*, float*);
void glsl_motor_origin(float const*, float*);
