// Harness interface.  In the symbolic run these are interpreted by symse; in a
// native replay they read the solver's counterexample from a file.
#pragma once
#include <complex>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cmath>
extern "C" {
double sym_double(const char* name, double lo, double hi);
float sym_float(const char* name, double lo, double hi);
int sym_int(const char* name, int lo, int hi);          // mathematical integer
int64_t sym_i64(const char* name, int64_t lo, int64_t hi);
int sym_choice(const char* name, int lo, int hi);       // one path per feasible value
int64_t sym_bv64(const char* name);                     // bit-vector
int32_t sym_bv32(const char* name);
void sym_assume(bool c);
void sym_check(bool c, const char* id);
void sym_near(double a, double b, const char* id);
void sym_nearf(float a, float b, const char* id);
void sym_tol(double rel);
void sym_atol(double abs);
void sym_log_start(void);                      // keep log messages from here on
int sym_log_count(void);
int sym_log_args(int rec);
int sym_log_len(int rec, int arg);             // length of a string argument, -1 if it is none
int sym_log_char(int rec, int arg, int pos);
double sym_log_double(int rec, int arg);
int sym_cfg(const char* name, int dflt);
void sym_reach(const char* name);
void sym_protect(const void* p, int64_t n);
void sym_unprotect(const void* p, int64_t n);
void sym_leak_begin(void);
void sym_leak_check(void);
int64_t sym_alloc_size(const void* p);
void sym_poison(void* p, int64_t n);
int sym_concrete(int v);
void sym_threads(int n);
void sym_gpu(int kind, int size);                      // teams are threads of GPU kernels: 1, sharing memory: 2
void sym_atomic(int on);                               // the accesses that follow are atomic
void sym_chunk(int n);                                  // the chunk size of dynamically scheduled loops
void sym_sched(int on);                                 // let every order in which threads take locks be explored
void sym_pin(int on);                                   // settle integers from reals early when only one value is possible
int sym_is_symbolic(void);
void sym_print(const char* n, double v);
void harness(void);
}
typedef std::complex<double> cd;
typedef std::complex<float> cf;
static inline void near_c(const cd& a, const cd& b, const char* id) { sym_near(a.real(), b.real(), id); sym_near(a.imag(), b.imag(), id); }
static inline void near_c(const cf& a, const cf& b, const char* id) { sym_nearf(a.real(), b.real(), id); sym_nearf(a.imag(), b.imag(), id); }
static inline void near_c(double a, double b, const char* id) { sym_near(a, b, id); }
static inline void near_c(float a, float b, const char* id) { sym_nearf(a, b, id); }
