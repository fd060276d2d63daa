// A small OpenMP runtime on pthreads for clang's __kmpc_* calls, used to replay counterexamples.
// Baton mode (default): threads take turns exactly as the symbolic executor schedules them, with the
// recorded "sched" choices at locks. Free mode (SYM_SHIM_FREE): threads really run concurrently
// (for ThreadSanitizer).
#include "symrt.h"
#include "omp/omp.h"
#include <cstdarg>
#include <pthread.h>
#include <unistd.h>
#include <vector>
extern "C" int g_sym_gpu;
typedef int32_t i32;
typedef void (*micro)(i32*, i32*, ...);
struct WS { int64_t lb, ub, st, ch, next; };
struct Tm
{
    int n = 1; bool serial = false;
    pthread_mutex_t mu; pthread_cond_t cv; int holder = 0;
    std::vector<int> st; // 0 run, 1 barrier, 2 done
    pthread_barrier_t bar;
    micro f; std::vector<void*> args;
};
static int g_chunk = 0, g_max = 4, g_push = 0, g_sched = 0;
static thread_local int t_tid = 0, t_locks = 0; static thread_local Tm* t_team = 0; static thread_local WS t_ws;
#ifdef SYM_SHIM_FREE
static const bool FREE = true;
#else
static const bool FREE = false;
#endif
static void callMicro(micro f, i32 g, std::vector<void*>& a)
{
    i32 b = g;
    a.resize(40);
    f(&b, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19],
            a[20], a[21], a[22], a[23], a[24], a[25], a[26], a[27], a[28], a[29], a[30], a[31], a[32], a[33], a[34], a[35], a[36], a[37], a[38], a[39]);
}
static void waitTurn(Tm* t, int me) { while (t->holder != me) pthread_cond_wait(&t->cv, &t->mu); }
// The next thread to run when the holder cannot go on.
static void passOn(Tm* t, int cur)
{
    for (int k = 1; k <= t->n; ++k) { const int c = (cur + k) % t->n; if (t->st[c] == 0) { t->holder = c; pthread_cond_broadcast(&t->cv); return; } }
    bool bar = false;
    for (int i = 0; i < t->n; ++i) if (t->st[i] == 1) { t->st[i] = 0; bar = true; }
    if (bar) { passOn(t, t->n - 1); return; }
    t->holder = -1; pthread_cond_broadcast(&t->cv);
}
struct Start { Tm* t; int i; };
static void* worker(void* p)
{
    Start s = *(Start*) p; delete (Start*) p;
    t_tid = s.i; t_team = s.t; t_locks = 0;
    if (!FREE) { pthread_mutex_lock(&s.t->mu); waitTurn(s.t, s.i); pthread_mutex_unlock(&s.t->mu); }
    std::vector<void*> a = s.t->args;
    callMicro(s.t->f, s.i, a);
    if (!FREE) { pthread_mutex_lock(&s.t->mu); s.t->st[s.i] = 2; passOn(s.t, s.i); pthread_mutex_unlock(&s.t->mu); }
    return 0;
}
extern "C" {
void sym_threads(int n) { g_max = n; }
void sym_chunk(int n) { g_chunk = n; }
void sym_sched(int on) { g_sched = on; }
void __kmpc_fork_call(void*, i32 argc, micro f, ...)
{
    Tm t; t.f = f;
    va_list ap; va_start(ap, f);
    for (int i = 0; i < argc; ++i) t.args.push_back(va_arg(ap, void*));
    va_end(ap);
    t.n = g_push > 0 ? g_push : g_max; g_push = 0;
    if (t_team && !(g_sym_gpu && t_team->n == 1))
    {
        Tm* o = t_team; const int tid = t_tid; const WS w = t_ws;
        t.n = 1; t.serial = true; t_team = &t; t_tid = 0;
        std::vector<void*> a = t.args;
        callMicro(f, 0, a);
        t_team = o; t_tid = tid; t_ws = w;
        return;
    }
    pthread_mutex_init(&t.mu, 0); pthread_cond_init(&t.cv, 0); pthread_barrier_init(&t.bar, 0, (unsigned) t.n);
    t.st.assign((size_t) t.n, 0);
    std::vector<pthread_t> th((size_t) t.n);
    for (int i = 0; i < t.n; ++i) pthread_create(&th[(size_t) i], 0, worker, new Start{&t, i});
    for (int i = 0; i < t.n; ++i) pthread_join(th[(size_t) i], 0);
}
i32 __kmpc_global_thread_num(void*) { return t_tid; }
int omp_get_thread_num(void) { return t_tid; }
int omp_get_num_threads(void) { return t_team ? t_team->n : 1; }
int omp_get_max_threads(void) { return g_max; }
int omp_get_num_procs(void) { return g_max; }
int omp_in_parallel(void) { return t_team != 0; }
double omp_get_wtime(void) { return 0; }
void omp_set_num_threads(int) {}
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
void omp_set_max_active_levels(int) {}
void __kmpc_push_num_threads(void*, i32, i32 n) { g_push = n; }
void __kmpc_serialized_parallel(void*, i32) {}
void __kmpc_end_serialized_parallel(void*, i32) {}
static void initStatic(int64_t sched, int32_t* last, int64_t& lb, int64_t& ub, int64_t& stride, int64_t incr, int64_t chunk)
{
    const int nt = t_team ? t_team->n : 1, tid = t_tid;
    const int64_t L = lb, U = ub;
    int64_t trip = incr > 0 ? (U - L) / incr + 1 : (L - U) / (-incr) + 1;
    if ((incr > 0 && U < L) || (incr < 0 && U > L)) trip = 0;
    *last = 0;
    if (sched == 33)
    {
        if (chunk < 1) chunk = 1;
        lb = L + tid * chunk * incr; ub = L + (tid + 1) * chunk * incr - incr; stride = nt * chunk * incr;
        *last = trip > 0 && ((trip - 1) / chunk) % nt == tid;
        return;
    }
    const int64_t sm = trip / nt, ex = trip % nt, lo = tid * sm + (tid < ex ? tid : ex), cnt = sm + (tid < ex ? 1 : 0);
    if (cnt == 0) { lb = L + trip * incr; ub = lb - incr; }
    else { lb = L + lo * incr; ub = lb + (cnt - 1) * incr; *last = lo + cnt == trip; }
    stride = trip * incr;
}
#define STATIC(SUF, T) void __kmpc_for_static_init_##SUF(void*, i32, i32 sched, i32* last, T* lb, T* ub, T* st, T incr, T chunk) \
    { int64_t a = (int64_t) *lb, b = (int64_t) *ub, s = 0; initStatic(sched, last, a, b, s, (int64_t) incr, (int64_t) chunk); *lb = (T) a; *ub = (T) b; *st = (T) s; }
STATIC(4, int32_t) STATIC(8, int64_t)
void __kmpc_for_static_init_4u(void*, i32, i32 sched, i32* last, uint32_t* lb, uint32_t* ub, int32_t* st, int32_t incr, int32_t chunk)
{ int64_t a = *lb, b = *ub, s = 0; initStatic(sched, last, a, b, s, incr, chunk); *lb = (uint32_t) a; *ub = (uint32_t) b; *st = (int32_t) s; }
void __kmpc_for_static_init_8u(void*, i32, i32 sched, i32* last, uint64_t* lb, uint64_t* ub, int64_t* st, int64_t incr, int64_t chunk)
{ int64_t a = (int64_t) *lb, b = (int64_t) *ub, s = 0; initStatic(sched, last, a, b, s, incr, chunk); *lb = (uint64_t) a; *ub = (uint64_t) b; *st = s; }
void __kmpc_for_static_fini(void*, i32) {}
#define DISPATCH(SUF, T, S) void __kmpc_dispatch_init_##SUF(void*, i32, i32, T lb, T ub, S st, S ch) { WS w; w.lb = (int64_t) lb; w.ub = (int64_t) ub; w.st = st; w.ch = g_chunk > 0 ? g_chunk : ch < 1 ? 1 : ch; w.next = t_tid; t_ws = w; } \
    i32 __kmpc_dispatch_next_##SUF(void*, i32, i32* last, T* lb, T* ub, S* st) \
    { WS& w = t_ws; int64_t lo = w.lb + w.next * w.ch * w.st, hi = lo + (w.ch - 1) * w.st; if (w.st > 0 ? lo > w.ub : lo < w.ub) return 0; \
      *last = 0; if (w.st > 0 ? hi >= w.ub : hi <= w.ub) { hi = w.ub; *last = 1; } *lb = (T) lo; *ub = (T) hi; *st = (S) w.st; w.next += t_team ? t_team->n : 1; return 1; }
DISPATCH(4, int32_t, int32_t) DISPATCH(4u, uint32_t, int32_t) DISPATCH(8, int64_t, int64_t) DISPATCH(8u, uint64_t, int64_t)
void __kmpc_dispatch_fini_4(void*, i32) {} void __kmpc_dispatch_fini_4u(void*, i32) {} void __kmpc_dispatch_fini_8(void*, i32) {} void __kmpc_dispatch_fini_8u(void*, i32) {}
void __kmpc_dispatch_deinit(void*, i32) {}
void __kmpc_barrier(void*, i32)
{
    Tm* t = t_team;
    if (!t || t->serial) return;
    if (FREE) { pthread_barrier_wait(&t->bar); return; }
    pthread_mutex_lock(&t->mu); t->st[(size_t) t_tid] = 1; passOn(t, t_tid); waitTurn(t, t_tid); pthread_mutex_unlock(&t->mu);
}
// Locks and critical sections spin on their own memory, so that nothing else orders the threads.
static void spin(void* k) { while (__atomic_exchange_n((int*) k, 1, __ATOMIC_ACQUIRE)) usleep(1); }
static void unspin(void* k) { __atomic_store_n((int*) k, 0, __ATOMIC_RELEASE); }
void __kmpc_critical(void*, i32, void* k) { if (FREE) spin(k); t_locks++; }
void __kmpc_end_critical(void*, i32, void* k) { t_locks--; if (FREE) unspin(k); }
void __kmpc_critical_with_hint(void* a, i32 b, void* k, uint32_t) { __kmpc_critical(a, b, k); }
void omp_init_lock(omp_lock_t* l) { *(int*) l = 0; }
void omp_destroy_lock(omp_lock_t*) {}
void omp_set_lock(omp_lock_t* l)
{
    if (FREE) { spin(l); return; }
    Tm* t = t_team;
    if (g_sched && t && !t->serial && t_locks == 0)
    {
        std::vector<int> oth;
        for (int i = 0; i < t->n; ++i) if (i != t_tid && t->st[(size_t) i] == 0) oth.push_back(i);
        if (!oth.empty())
        {
            const int k = sym_choice("sched", 0, (int) oth.size());
            if (k > 0 && k <= (int) oth.size()) { pthread_mutex_lock(&t->mu); t->holder = oth[(size_t) k - 1]; pthread_cond_broadcast(&t->cv); waitTurn(t, t_tid); pthread_mutex_unlock(&t->mu); }
        }
    }
    t_locks++;
}
void omp_unset_lock(omp_lock_t* l) { if (FREE) unspin(l); else t_locks--; }
int omp_test_lock(omp_lock_t* l) { omp_set_lock(l); return 1; }
i32 __kmpc_single(void*, i32) { return t_tid == 0; }
void __kmpc_end_single(void*, i32) {}
i32 __kmpc_master(void*, i32) { return t_tid == 0; }
void __kmpc_end_master(void*, i32) {}
i32 __kmpc_masked(void*, i32, i32) { return t_tid == 0; }
void __kmpc_end_masked(void*, i32) {}
static int g_redkey;
i32 __kmpc_reduce_nowait(void*, i32, i32, size_t, void*, void (*)(void*, void*), void*) { __kmpc_critical(0, 0, &g_redkey); return 1; }
void __kmpc_end_reduce_nowait(void*, i32, void*) { __kmpc_end_critical(0, 0, &g_redkey); }
i32 __kmpc_reduce(void* a, i32 b, i32 c, size_t d, void* e, void (*f)(void*, void*), void* g) { return __kmpc_reduce_nowait(a, b, c, d, e, f, g); }
void __kmpc_end_reduce(void* a, i32 b, void* c) { __kmpc_end_reduce_nowait(a, b, c); __kmpc_barrier(a, b); }
void __kmpc_flush(void*) {}
}
