// Native replay runtime: reads inputs from the file given on the command line.
#include "symrt.h"
#include <cstdio>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <malloc.h>
static std::map<std::string, std::string> g_in;
static std::map<std::string, long> g_cfg;
static std::map<std::string, int> g_cnt;
static double g_rtol = 1e-6, g_at = 1e-9;
static int g_fail = 0;
static bool g_random = false;
static unsigned long g_seed = 12345;
static double rnd() { g_seed = g_seed * 6364136223846793005UL + 1442695040888963407UL; return (double) ((g_seed >> 11) & ((1UL << 53) - 1)) / 9007199254740992.0; }
struct Prot { const char* p; std::vector<char> copy; };
static std::vector<Prot> g_prot;
#ifdef SYM_WRAP
static std::map<void*, size_t>* g_live; static bool g_track = false; bool g_in_track = false;
#else
bool g_in_track = false;
#endif
struct Untracked { bool o; Untracked() : o(g_in_track) { g_in_track = true; } ~Untracked() { g_in_track = o; } };
static std::string uniq(const char* n) { int k = g_cnt[n]++; return k == 0 ? std::string(n) : std::string(n) + "#" + std::to_string(k); }
static void fail(const char* id, const char* what) { printf("REPLAY-FAIL %s %s\n", id, what); fflush(stdout); g_fail = 1; }
extern "C" {
double sym_double(const char* name, double lo, double hi)
{
    Untracked un;
    std::string k = uniq(name);
    auto it = g_in.find(k);
    double v = it != g_in.end() ? strtod(it->second.c_str(), 0) : g_random ? lo + (hi - lo) * rnd() : 0.5 * (lo + hi);
    if (v < lo) v = lo; if (v > hi) v = hi;
    return v;
}
float sym_float(const char* name, double lo, double hi) { return (float) sym_double(name, lo, hi); }
int64_t sym_i64(const char* name, int64_t lo, int64_t hi)
{
    Untracked un;
    std::string k = uniq(name);
    auto it = g_in.find(k);
    return it != g_in.end() ? strtoll(it->second.c_str(), 0, 10) : g_random ? lo + (int64_t) ((double) (hi - lo + 1) * rnd()) : lo;
}
int sym_int(const char* name, int lo, int hi) { return (int) sym_i64(name, lo, hi); }
int sym_choice(const char* name, int lo, int hi) { return (int) sym_i64(name, lo, hi); }
int64_t sym_bv64(const char* name) { return sym_i64(name, -5, 20); }
int32_t sym_bv32(const char* name) { return (int32_t) sym_i64(name, -5, 20); }
void sym_assume(bool c) { if (!c) { printf("REPLAY-ASSUME\n"); fflush(stdout); _Exit(77); } }
void sym_check(bool c, const char* id) { if (!c) fail(id, "assertion false"); }
static void nearv(double a, double b, double rt, double at, const char* id)
{
    if (std::isnan(a) && std::isnan(b)) return;
    if (a == b) return;
    double m = std::max(std::fabs(a), std::fabs(b));
    if (std::fabs(a - b) <= rt * m + at) return;
    char buf[128]; snprintf(buf, sizeof buf, "code %.12g reference %.12g", a, b);
    fail(id, buf);
}
void sym_near(double a, double b, const char* id) { nearv(a, b, g_rtol, g_at, id); }
void sym_nearf(float a, float b, const char* id) { nearv(a, b, std::max(g_rtol, 1e-3), std::max(g_at, 1e-4), id); }
void sym_tol(double r) { g_rtol = std::max(1e-6, r * 100); }
void sym_atol(double a) { g_at = std::max(1e-9, a * 100); }
int sym_cfg(const char* name, int d) { auto it = g_cfg.find(name); return it == g_cfg.end() ? d : (int) it->second; }
void sym_reach(const char*) {}
static bool same(const Prot& q) { return memcmp(q.p, q.copy.data(), q.copy.size()) == 0; }
void sym_protect(const void* p, int64_t n) { if (!p || n <= 0) return; Untracked u; Prot q; q.p = (const char*) p; q.copy.assign(q.p, q.p + n); g_prot.push_back(q); }
void sym_unprotect(const void* p, int64_t)
{
    Untracked u;
    for (size_t i = 0; i < g_prot.size(); ++i)
        if (g_prot[i].p == p) { if (!same(g_prot[i])) fail("prot", "protected input changed"); g_prot.erase(g_prot.begin() + (long) i); break; }
}
#ifdef SYM_WRAP
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void __real_free(void*); void* __real_realloc(void*, size_t);
static void rec(void* p, size_t n) { if (p && g_track && !g_in_track) { g_in_track = true; (*g_live)[p] = n; g_in_track = false; } }
static void unrec(void* p) { if (p && g_track && !g_in_track) { g_in_track = true; g_live->erase(p); g_in_track = false; } }
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); rec(p, n); return p; }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); rec(p, a * b); return p; }
void __wrap_free(void* p) { unrec(p); __real_free(p); }
void* __wrap_realloc(void* q, size_t n) { unrec(q); void* p = __real_realloc(q, n); rec(p, n); return p; }
void sym_leak_begin(void) { g_live = new std::map<void*, size_t>; g_track = true; }
void sym_leak_check(void) { if (g_track && !g_live->empty()) { char b[64]; snprintf(b, sizeof b, "%d blocks leaked", (int) g_live->size()); g_track = false; fail("leak", b); } }
#else
void sym_leak_begin(void) {}
void sym_leak_check(void) {}
#endif
int64_t sym_alloc_size(const void* p) { return p ? (int64_t) malloc_usable_size((void*) p) : 0; }
void sym_poison(void* p, int64_t n) { memset(p, 0xA5, (size_t) n); }
int sym_concrete(int v) { return v; }
#ifndef SYM_SHIM
void sym_threads(int) {}
void sym_sched(int) {}
#endif
int g_sym_gpu = 0;
void sym_gpu(int kind, int) { g_sym_gpu = kind; }
void sym_atomic(int) {}
void sym_pin(int) {}
int sym_is_symbolic(void) { return 0; }
void sym_print(const char* n, double v) { fprintf(stderr, "print %s: %.15g\n", n, v); }
}
#ifdef SYM_WRAP
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
int main(int argc, char** argv)
{
    if (argc > 1)
    {
        std::ifstream f(argv[1]); std::string line;
        while (std::getline(f, line))
        {
            size_t p = line.rfind(' ');
            if (p == std::string::npos) continue;
            if (line.compare(0, 7, "config ") == 0) { std::string r = line.substr(7); size_t q = r.find(' '); g_cfg[r.substr(0, q)] = atol(r.c_str() + q + 1); }
            else if (line.compare(0, 7, "random ") == 0) { g_random = true; g_seed = (unsigned long) atol(line.c_str() + 7); }
            else g_in[line.substr(0, p)] = line.substr(p + 1);
        }
    }
    harness();
    for (auto& q : g_prot) if (!same(q)) fail("prot", "protected input changed");
    if (!g_fail) { printf("REPLAY-PASS\n"); fflush(stdout); }
    fflush(stdout);
    _Exit(g_fail ? 3 : 0);
}
