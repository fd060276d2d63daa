// Runs kernels: every block in turn, its threads one after the other, or as a team.
#include "emu_types.h"
#include "cufft.h"
#include "omp.h"
#include "symrt.h"
#include <cmath>
#include <cstdlib>
#include <cstring>
#include "ska-sdp-func/utility/sdp_device_wrapper.h"
#include "ska-sdp-func/utility/private_device_wrapper.h"
struct EmuReg
{
    const char* name; void (*run)(const void**); int team; EmuReg* next;
    EmuReg(const char* n, void (*r)(const void**), int t);
};
static EmuReg* emu_list = 0;
EmuReg::EmuReg(const char* n, void (*r)(const void**), int t) : name(n), run(r), team(t), next(emu_list) { emu_list = this; }
extern "C" {
uint3 emu_thread[4096], emu_block[4096];
dim3 emu_bdim, emu_gdim;
char* emu_smem = 0;
int emu_launches = 0;
static int emu_in_team = 0;
int emu_tid(void) { return emu_in_team ? omp_get_thread_num() : 0; }
void emu_barrier(void)
{
    if (!emu_in_team) return;
    #pragma omp barrier
}
}
#if defined(SYM_SHIM_FREE)
#include <pthread.h>
static pthread_mutex_t emu_mutex = PTHREAD_MUTEX_INITIALIZER;
void emu_lock(void) { pthread_mutex_lock(&emu_mutex); }
void emu_unlock(void) { pthread_mutex_unlock(&emu_mutex); }
#else
void emu_lock(void) { sym_atomic(1); }
void emu_unlock(void) { sym_atomic(0); }
#endif
static char* emu_static = 0;
extern "C" void* emu_shared(int k, size_t n) { if (k >= 16 || n > 8192) abort(); return emu_static + k * 8192; }
static bool same(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return *a == *b; }
extern "C" void sdp_launch_cuda_kernel(const char* name, const uint64_t nb[3], const uint64_t nt[3], uint64_t shared, sdp_CudaStream*, const void** args, sdp_Error* status)
{
    if (*status) return;
    if (!name) { *status = SDP_ERR_INVALID_ARGUMENT; return; }
    EmuReg* k = emu_list;
    while (k && !same(k->name, name)) k = k->next;
    const uint64_t threads = nt[0] * nt[1] * nt[2];
    if (!k || threads == 0 || threads > 1024 || nb[0] * nb[1] * nb[2] == 0 || shared > 49152) { *status = SDP_ERR_RUNTIME; return; }
    emu_launches++;
    emu_bdim.x = (unsigned) nt[0]; emu_bdim.y = (unsigned) nt[1]; emu_bdim.z = (unsigned) nt[2];
    emu_gdim.x = (unsigned) nb[0]; emu_gdim.y = (unsigned) nb[1]; emu_gdim.z = (unsigned) nb[2];
    void (*const run)(const void**) = k->run;
    const int bdx = (int) emu_bdim.x, bdy = (int) emu_bdim.y, n = (int) threads;
    const int64_t gdx = (int64_t) nb[0], gdy = (int64_t) nb[1], blocks = gdx * gdy * (int64_t) nb[2];
    // Kernels that share no memory: as many blocks at once as fit; others block by block.
    int64_t step = k->team ? 1 : blocks;
    while (step * n > 1024) step = (step + 1) / 2;
    for (int64_t b0 = 0; b0 < blocks; b0 += step)
    {
        const int now = (int) (b0 + step < blocks ? step : blocks - b0);
        for (int b = 0; b < now; ++b) for (int t = 0; t < n; ++t)
        {
            // Higher threads first: a warp that reduces to its lowest thread without barriers then gives the same maximum as in lockstep.
            const int i = n - 1 - t; const int64_t c = b0 + b;
            uint3& th = emu_thread[b * n + t]; uint3& bl = emu_block[b * n + t];
            th.x = (unsigned) (i % bdx); th.y = (unsigned) (i / bdx % bdy); th.z = (unsigned) (i / bdx / bdy);
            bl.x = (unsigned) (c % gdx); bl.y = (unsigned) (c / gdx % gdy); bl.z = (unsigned) (c / gdx / gdy);
        }
        emu_smem = shared ? (char*) malloc((size_t) shared) : 0;
        emu_static = k->team ? (char*) malloc(16 * 8192) : 0;
        sym_gpu(k->team ? 2 : 1, n);
        emu_in_team = 1;
        #pragma omp parallel num_threads(now * n)
        {
            run(args);
        }
        emu_in_team = 0;
        sym_gpu(0, 0);
        free(emu_smem); emu_smem = 0; free(emu_static); emu_static = 0;
    }
}
extern "C" void sdp_cuda_set_device(int) {}
extern "C" sdp_CudaStream* sdp_cuda_stream_create() { return (sdp_CudaStream*) calloc(1, sizeof(sdp_CudaStream)); }
extern "C" void sdp_cuda_stream_destroy(sdp_CudaStream* s) { free(s); }
extern "C" void sdp_cuda_stream_synchronize(sdp_CudaStream*) {}

// cuFFT.
struct Plan { int used, rank, n[3], in[3], is, id, on[3], os, od, type, batch; };
static Plan plans[16];
cufftResult cufftPlanMany(cufftHandle* h, int rank, int* n, int* in, int is, int id, int* on, int os, int od, cufftType type, int batch)
{
    if (rank < 1 || rank > 3 || batch < 1) return CUFFT_INVALID_VALUE;
    int p = 0;
    while (plans[p].used) if (++p == 16) return CUFFT_INVALID_PLAN;
    Plan& q = plans[p];
    q.used = 1; q.rank = rank; q.is = is; q.id = id; q.os = os; q.od = od; q.type = type; q.batch = batch;
    for (int i = 0; i < rank; ++i)
    {
        if (n[i] < 1) { q.used = 0; return CUFFT_INVALID_VALUE; }
        q.n[i] = n[i]; q.in[i] = in ? in[i] : n[i]; q.on[i] = on ? on[i] : n[i];
    }
    if (!in) { q.is = 1; q.id = 1; for (int i = 0; i < rank; ++i) q.id *= n[i]; } // the documented meaning of NULL
    if (!on) { q.os = 1; q.od = 1; for (int i = 0; i < rank; ++i) q.od *= n[i]; }
    *h = p + 1;
    return CUFFT_SUCCESS;
}
template<typename C, typename T> static cufftResult exec(int h, C* in, C* out, int dir, int type)
{
    if (h < 1 || h > 16 || !plans[h - 1].used) return CUFFT_INVALID_PLAN;
    const Plan& q = plans[h - 1];
    if (q.type != type) return CUFFT_INVALID_TYPE;
    int64_t tot = 1;
    for (int i = 0; i < q.rank; ++i) tot *= q.n[i];
    C* a = (C*) malloc((size_t) tot * sizeof(C)), *b = (C*) malloc((size_t) tot * sizeof(C));
    for (int k = 0; k < q.batch; ++k)
    {
        for (int64_t e = 0; e < tot; ++e)
        {
            int64_t r = e, off = 0, m = 1;
            for (int d = q.rank - 1; d >= 0; --d) { off += (r % q.n[d]) * m; r /= q.n[d]; m *= q.in[d]; }
            a[e] = in[(int64_t) k * q.id + off * q.is];
        }
        int64_t s = 1;
        for (int d = q.rank - 1; d >= 0; --d)
        {
            const int n = q.n[d];
            for (int64_t e = 0; e < tot; ++e)
            {
                const int64_t f = e / s % n, base = e - f * s;
                T re = 0, im = 0;
                for (int j = 0; j < n; ++j)
                {
                    const int64_t t = (f * j) % n;
                    double c = std::cos(2 * M_PI * (double) t / n), w = dir * std::sin(2 * M_PI * (double) t / n);
                    if (4 * t % n == 0) { const int64_t g = 4 * t / n; c = g == 0 ? 1 : g == 2 ? -1 : 0; w = g == 1 ? dir : g == 3 ? -dir : 0; }
                    re += a[base + j * s].x * (T) c - a[base + j * s].y * (T) w;
                    im += a[base + j * s].x * (T) w + a[base + j * s].y * (T) c;
                }
                b[e].x = re; b[e].y = im;
            }
            C* t = a; a = b; b = t;
            s *= n;
        }
        for (int64_t e = 0; e < tot; ++e)
        {
            int64_t r = e, off = 0, m = 1;
            for (int d = q.rank - 1; d >= 0; --d) { off += (r % q.n[d]) * m; r /= q.n[d]; m *= q.on[d]; }
            out[(int64_t) k * q.od + off * q.os] = a[e];
        }
    }
    free(a); free(b);
    return CUFFT_SUCCESS;
}
cufftResult cufftExecC2C(cufftHandle h, cufftComplex* i, cufftComplex* o, int d) { return exec<cufftComplex, float>(h, i, o, d, CUFFT_C2C); }
cufftResult cufftExecZ2Z(cufftHandle h, cufftDoubleComplex* i, cufftDoubleComplex* o, int d) { return exec<cufftDoubleComplex, double>(h, i, o, d, CUFFT_Z2Z); }
cufftResult cufftDestroy(cufftHandle h) { if (h < 1 || h > 16 || !plans[h - 1].used) return CUFFT_INVALID_PLAN; plans[h - 1].used = 0; return CUFFT_SUCCESS; }
