#pragma once
#include "emu_types.h"
typedef double2 cuDoubleComplex;
typedef float2 cuFloatComplex;
typedef float2 cuComplex;
static inline cuDoubleComplex make_cuDoubleComplex(double a, double b) { cuDoubleComplex r = {a, b}; return r; }
static inline cuFloatComplex make_cuFloatComplex(float a, float b) { cuFloatComplex r = {a, b}; return r; }
static inline double cuCreal(cuDoubleComplex a) { return a.x; }
static inline double cuCimag(cuDoubleComplex a) { return a.y; }
static inline float cuCrealf(cuFloatComplex a) { return a.x; }
static inline float cuCimagf(cuFloatComplex a) { return a.y; }
static inline cuDoubleComplex cuCmul(cuDoubleComplex a, cuDoubleComplex b) { return make_cuDoubleComplex(a.x * b.x - a.y * b.y, a.x * b.y + a.y * b.x); }
static inline cuFloatComplex cuCmulf(cuFloatComplex a, cuFloatComplex b) { return make_cuFloatComplex(a.x * b.x - a.y * b.y, a.x * b.y + a.y * b.x); }
static inline cuDoubleComplex cuCdiv(cuDoubleComplex a, cuDoubleComplex b) { double n = b.x * b.x + b.y * b.y; return make_cuDoubleComplex((a.x * b.x + a.y * b.y) / n, (a.y * b.x - a.x * b.y) / n); }
static inline cuFloatComplex cuCdivf(cuFloatComplex a, cuFloatComplex b) { float n = b.x * b.x + b.y * b.y; return make_cuFloatComplex((a.x * b.x + a.y * b.y) / n, (a.y * b.x - a.x * b.y) / n); }
static inline cuDoubleComplex cuCadd(cuDoubleComplex a, cuDoubleComplex b) { return make_cuDoubleComplex(a.x + b.x, a.y + b.y); }
static inline cuDoubleComplex cuCsub(cuDoubleComplex a, cuDoubleComplex b) { return make_cuDoubleComplex(a.x - b.x, a.y - b.y); }
