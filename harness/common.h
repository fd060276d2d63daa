// Shared by the harnesses.
#pragma once
#include "symrt.h"
#include "ska-sdp-func/utility/sdp_mem.h"
#include "ska-sdp-func/utility/sdp_errors.h"
#include <stdio.h>
static bool arr_cpu; // arrays that stay on the CPU when the others are on the GPU
#ifdef ARR_GPU
#define ARR_LOC (arr_cpu || CFG(cpu, 0) ? SDP_MEM_CPU : SDP_MEM_GPU)
#else
#define ARR_LOC SDP_MEM_CPU
#endif
#define CFG(n, d) sym_cfg(#n, d)
// Name helper without printf.
struct Nm
{
    char b[64];
    Nm(const char* s, int i = -1, int j = -1, int k = -1, int l = -1)
    {
        int p = 0; while (*s && p < 40) b[p++] = *s++;
        int v[4] = {i, j, k, l};
        for (int q = 0; q < 4 && v[q] >= 0; ++q)
        {
            b[p++] = '_';
            char t[12]; int n = 0, x = v[q];
            do { t[n++] = (char) ('0' + x % 10); x /= 10; } while (x);
            while (n) b[p++] = t[--n];
        }
        b[p] = 0;
    }
    operator const char*() const { return b; }
};
template<typename T> struct SymT;
template<> struct SymT<double> { static double get(const char* n, double lo, double hi) { return sym_double(n, lo, hi); } enum { type = SDP_MEM_DOUBLE }; };
template<> struct SymT<float> { static float get(const char* n, double lo, double hi) { return sym_float(n, lo, hi); } enum { type = SDP_MEM_FLOAT }; };
template<> struct SymT<int> { static int get(const char* n, double lo, double hi) { return sym_int(n, (int) lo, (int) hi); } enum { type = SDP_MEM_INT }; };
template<> struct SymT<cd> { static cd get(const char* n, double lo, double hi) { double r = sym_double(n, lo, hi), i = sym_double(n, lo, hi); return cd(r, i); } enum { type = SDP_MEM_COMPLEX_DOUBLE }; };
template<> struct SymT<cf> { static cf get(const char* n, double lo, double hi) { float r = sym_float(n, lo, hi), i = sym_float(n, lo, hi); return cf(r, i); } enum { type = SDP_MEM_COMPLEX_FLOAT }; };
template<typename T> static inline T sym(const char* n, double lo = -2, double hi = 2) { return SymT<T>::get(n, lo, hi); }
// A memory handle over an array in the harness with arbitrary element strides.
// order 0: C-contiguous; 1: Fortran order; 2: C order with padded rows and a
// doubled innermost stride (non-contiguous view).
template<typename T> struct Arr
{
    sdp_Mem* mem; T* data; int nd; int64_t shape[8], str[8]; int64_t n, alloc;
    void init(int nd_, const int64_t* sh, int order, sdp_Error* st)
    {
        nd = nd_; n = 1;
        for (int i = 0; i < nd; ++i) { shape[i] = sh[i]; n *= sh[i]; }
        int64_t s = order == 2 ? 2 : 1;
        if (order == 1) for (int i = 0; i < nd; ++i) { str[i] = s; s *= shape[i]; }
        else for (int i = nd - 1; i >= 0; --i) { str[i] = s; s *= (order == 2 ? shape[i] + 1 : shape[i]); }
        alloc = s > 0 ? s : 1;
        data = (T*) malloc((size_t) alloc * sizeof(T));
        if (order == 0) mem = sdp_mem_create_wrapper(data, (sdp_MemType) SymT<T>::type, (sdp_MemLocation) ARR_LOC, nd, shape, 0, st);
        else { int64_t b[8]; for (int i = 0; i < nd; ++i) b[i] = str[i] * (int64_t) sizeof(T); mem = sdp_mem_create_wrapper(data, (sdp_MemType) SymT<T>::type, (sdp_MemLocation) ARR_LOC, nd, shape, b, st); }
    }
    Arr(sdp_Error* st, int order, int64_t a) { int64_t s[] = {a}; init(1, s, order, st); }
    Arr(sdp_Error* st, int order, int64_t a, int64_t b) { int64_t s[] = {a, b}; init(2, s, order, st); }
    Arr(sdp_Error* st, int order, int64_t a, int64_t b, int64_t c) { int64_t s[] = {a, b, c}; init(3, s, order, st); }
    Arr(sdp_Error* st, int order, int64_t a, int64_t b, int64_t c, int64_t d) { int64_t s[] = {a, b, c, d}; init(4, s, order, st); }
    T& operator()(int64_t i) { return data[i * str[0]]; }
    T& operator()(int64_t i, int64_t j) { return data[i * str[0] + j * str[1]]; }
    T& operator()(int64_t i, int64_t j, int64_t k) { return data[i * str[0] + j * str[1] + k * str[2]]; }
    T& operator()(int64_t i, int64_t j, int64_t k, int64_t l) { return data[i * str[0] + j * str[1] + k * str[2] + l * str[3]]; }
    T& lin(int64_t e) // logical element, C order
    {
        int64_t o = 0;
        for (int i = nd - 1; i >= 0; --i) { o += (e % shape[i]) * str[i]; e /= shape[i]; }
        return data[o];
    }
    void fillSym(const char* nm, double lo = -2, double hi = 2) { for (int64_t e = 0; e < n; ++e) lin(e) = sym<T>(Nm(nm, (int) e), lo, hi); }
    void fill(T v) { for (int64_t e = 0; e < n; ++e) lin(e) = v; }
    void protect() { sym_protect(data, alloc * (int64_t) sizeof(T)); }
    void release() { sdp_mem_ref_dec(mem); sym_unprotect(data, alloc * (int64_t) sizeof(T)); free(data); }
};
