// Lets the CUDA sources be compiled as C++: one thread of a block is one call of the kernel.
// Kernels of sources that share memory between threads run as a team (the threads of a block take
// turns at barriers); the others one thread after the other.
#pragma once
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <type_traits>
#include <utility>
#include "cuda_runtime_api.h"
#include "emu_types.h"
#define __CUDACC__ 1
#define __CUDA_ARCH__ 700
#define __global__
#define __device__
#define __host__
#define __constant__ static const
#define __shared__
#define __forceinline__ inline
#define __launch_bounds__(...)
#define __align__(n)
struct EmuReg
{
    const char* name; void (*run)(const void**); int team; EmuReg* next;
    EmuReg(const char* n, void (*r)(const void**), int t);
};
extern "C" {
extern uint3 emu_thread[4096], emu_block[4096];
extern dim3 emu_bdim, emu_gdim;
extern char* emu_smem;
int emu_tid(void);
void emu_barrier(void);
void* emu_shared(int k, size_t n);
}
#define threadIdx (emu_thread[emu_tid()])
#define blockIdx (emu_block[emu_tid()])
#define blockDim emu_bdim
#define gridDim emu_gdim
static const int warpSize = 32;
static inline void __syncthreads() { emu_barrier(); }
void emu_lock(void);
void emu_unlock(void);
template<typename T, typename U> static inline T atomicAdd(T* p, U v) { emu_lock(); const T o = *p; *p = (T) (o + (T) v); emu_unlock(); return o; }
// 64-bit words hold the bits of doubles in all callers.
static inline unsigned long long atomicCAS(unsigned long long* p, unsigned long long c, unsigned long long v)
{
    emu_lock();
    const unsigned long long o = *p; double a, b;
    memcpy(&a, &o, 8); memcpy(&b, &c, 8);
    if (a == b) *p = v;
    emu_unlock();
    return o;
}
template<typename T> static inline T atomicCAS(T* p, T c, T v) { emu_lock(); const T o = *p; if (o == c) *p = v; emu_unlock(); return o; }
static inline unsigned long long __double_as_longlong(double d) { unsigned long long r; memcpy(&r, &d, 8); return r; }
static inline double __longlong_as_double(unsigned long long d) { double r; memcpy(&r, &d, 8); return r; }
static inline void sincospi(double x, double* s, double* c) { *s = std::sin(M_PI * x); *c = std::cos(M_PI * x); }
static inline void emu_sincos(double x, double* s, double* c) { *s = std::sin(x); *c = std::cos(x); }
static inline void emu_sincos(float x, float* s, float* c) { *s = std::sin(x); *c = std::cos(x); }
#define sincos emu_sincos
#define sincosf emu_sincos
template<typename T> static inline T __ldg(const T* p) { return *p; }
static inline double rsqrt(double x) { return 1 / std::sqrt(x); }
template<typename T, typename U, typename = typename std::enable_if<!std::is_same<T, U>::value>::type> static inline typename std::common_type<T, U>::type min(T a, U b) { typedef typename std::common_type<T, U>::type C; return (C) b < (C) a ? (C) b : (C) a; }
template<typename T, typename U, typename = typename std::enable_if<!std::is_same<T, U>::value>::type> static inline typename std::common_type<T, U>::type max(T a, U b) { typedef typename std::common_type<T, U>::type C; return (C) a < (C) b ? (C) b : (C) a; }
static inline int __double2int_rn(double x) { return (int) std::rint(x); }
static inline int __float2int_rn(float x) { return (int) std::rint(x); }
static inline int __double2int_rd(double x) { return (int) std::floor(x); }
static inline int __float2int_rd(float x) { return (int) std::floor(x); }
static inline int __double2int_ru(double x) { return (int) std::ceil(x); }
static inline int __float2int_ru(float x) { return (int) std::ceil(x); }
static inline int __double2int_rz(double x) { return (int) x; }
static inline int __float2int_rz(float x) { return (int) x; }
static inline double __dmul_rn(double a, double b) { return a * b; }
static inline double __dadd_rn(double a, double b) { return a + b; }
static inline double __dsub_rn(double a, double b) { return a - b; }
static inline float __fmul_rn(float a, float b) { return a * b; }
static inline float __fadd_rn(float a, float b) { return a + b; }
static inline float __fsub_rn(float a, float b) { return a - b; }
static inline std::complex<double> operator*(const std::complex<float>& a, double b) { return std::complex<double>(a.real() * b, a.imag() * b); }
static inline std::complex<double> operator*(double b, const std::complex<float>& a) { return a * b; }
static inline std::complex<float> operator*(const std::complex<float>& a, int b) { return a * (float) b; }
using std::min; using std::max; using std::abs; using std::isnan; using std::isinf;
static inline double atomic_fmax(double a, double b) { return a > b ? a : b; }
// Memory the threads of a warp share in lockstep: all of them read, then all of them write.
template<typename T> struct EmuWarp
{
    T* p;
    struct Ref
    {
        T* p;
        operator T() const { emu_barrier(); return *p; }
        static int sum(int a, int b) { return (int) ((unsigned) a + (unsigned) b); }
        template<typename U> static U sum(U a, U b) { return a + b; }
        void operator+=(T r) { const T v = sum(*p, r); emu_barrier(); *p = v; } // (unused lanes may overflow)
    };
    EmuWarp(T* q) : p(q) {}
    Ref operator[](int64_t i) { Ref r = {p + i}; return r; }
};
template<typename... A, size_t... I> static inline void emu_call(void (*k)(A...), const void** a, std::index_sequence<I...>)
{
    k(*(typename std::remove_const<typename std::remove_reference<A>::type>::type*) a[I]...);
}
template<typename... A> static inline void emu_call(void (*k)(A...), const void** a) { emu_call(k, a, std::make_index_sequence<sizeof...(A)>()); }
template<auto K> static void emu_run(const void** a) { emu_call(K, a); }
#include "ska-sdp-func/utility/sdp_device_wrapper.h"
#undef SDP_CUDA_KERNEL
#define SDP_CUDA_KERNEL(...) static EmuReg M_CAT(r_, __LINE__)(#__VA_ARGS__, &emu_run<&__VA_ARGS__>, EMU_TEAM);
#ifndef EMU_TEAM
#define EMU_TEAM 0
#endif
