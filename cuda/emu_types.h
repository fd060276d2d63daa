#pragma once
#include <stdint.h>
struct double2 { double x, y; };
struct float2 { float x, y; };
struct double3 { double x, y, z; };
struct float3 { float x, y, z; };
struct double4 { double x, y, z, w; };
struct float4 { float x, y, z, w; };
struct int2 { int x, y; };
struct int3 { int x, y, z; };
struct uint3 { unsigned int x, y, z; };
struct dim3 { unsigned int x, y, z; };
static inline double2 make_double2(double a, double b) { double2 r = {a, b}; return r; }
static inline float2 make_float2(float a, float b) { float2 r = {a, b}; return r; }
static inline double3 make_double3(double a, double b, double c) { double3 r = {a, b, c}; return r; }
static inline float3 make_float3(float a, float b, float c) { float3 r = {a, b, c}; return r; }
