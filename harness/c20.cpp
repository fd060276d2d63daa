// C20: the w-stacking gridder and degridder handle every visibility once, in its own w-plane and sub-grid.
// The w-tower kernel is replaced by one whose effect is known; everything around it is the real code.
#include "common.h"
#include "ska-sdp-func/grid_data/sdp_grid_wstack_wtower.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.h"
#include "ska-sdp-func/utility/sdp_timer.h"
#define PI 3.14159265358979323846
struct sdp_GridderWtowerUVW { int image_size, subgrid_size; double theta, w_step; int busy; };
static double W(double w) { return 3 + 0.5 * w; }
static int g_fail;
extern "C" {
sdp_GridderWtowerUVW* sdp_gridder_wtower_uvw_create(int image_size, int subgrid_size, double theta, double w_step, double shear_u, double shear_v, int support, int oversampling, int w_support, int w_oversampling, sdp_Error* status)
{
    sdp_GridderWtowerUVW* p = (sdp_GridderWtowerUVW*) malloc(sizeof(sdp_GridderWtowerUVW));
    p->image_size = image_size; p->subgrid_size = subgrid_size; p->theta = theta; p->w_step = w_step; p->busy = 0;
    sym_check(shear_u == 0.25 && shear_v == -0.5 && support == 2 && oversampling == 3 && w_support == 4 && w_oversampling == 5, "kernel-parameters");
    if (g_fail == 2) *status = SDP_ERR_MEM_COPY_FAILURE;
    return p;
}
void sdp_gridder_wtower_uvw_free(sdp_GridderWtowerUVW* p) { free(p); }
int sdp_gridder_wtower_uvw_num_w_planes(const sdp_GridderWtowerUVW*, int) { return 1; }
int sdp_gridder_wtower_uvw_image_size(const sdp_GridderWtowerUVW* p) { return p->image_size; }
int sdp_gridder_wtower_uvw_subgrid_size(const sdp_GridderWtowerUVW* p) { return p->subgrid_size; }
double sdp_gridder_wtower_uvw_w_step(const sdp_GridderWtowerUVW* p) { return p->w_step; }
sdp_Timers* sdp_timers_create(const char*, sdp_TimerType, int) { return 0; }
void sdp_timers_free(sdp_Timers*) {}
sdp_TimerNode* sdp_timers_create_set(sdp_Timers*, const char*, int, sdp_TimerNode*) { return 0; }
sdp_TimerNode* sdp_timers_pop(sdp_Timers*, int, sdp_TimerNode*) { return 0; }
sdp_TimerNode* sdp_timers_pop_push(sdp_Timers*, const char*, int, sdp_TimerNode*) { return 0; }
sdp_TimerNode* sdp_timers_push(sdp_Timers*, const char*, int, sdp_TimerNode*) { return 0; }
sdp_TimerNode* sdp_timers_root(sdp_Timers*) { return 0; }
void sdp_timers_report(const sdp_Timers*, const char*, const char*, int) {}
}
template<typename C> static void touch(sdp_GridderWtowerUVW* p) { p->busy++; }
// Degridding takes the middle cell of the sub-grid's transform: the sum of its pixels.
template<typename C> static void kdegrid(sdp_GridderWtowerUVW* p, const sdp_Mem* sg, const sdp_Mem* s0, const sdp_Mem* s1, sdp_Mem* vis, int64_t r0, int64_t r1)
{
    touch<C>(p);
    const C* g = (const C*) sdp_mem_data_const(sg); const int* a = (const int*) sdp_mem_data_const(s0), * b = (const int*) sdp_mem_data_const(s1);
    C* v = (C*) sdp_mem_data(vis);
    const int64_t nc = sdp_mem_shape_dim(vis, 1), n = sdp_mem_shape_dim(sg, 0) * sdp_mem_shape_dim(sg, 1);
    C t(0, 0);
    for (int64_t e = 0; e < n; ++e) t += g[e];
    for (int64_t r = r0; r < r1; ++r) for (int c = a[r]; c < b[r]; ++c) v[r * nc + c] += t;
}
template<typename C> static void kgrid(sdp_GridderWtowerUVW* p, sdp_Mem* sg, const sdp_Mem* s0, const sdp_Mem* s1, const sdp_Mem* vis, int64_t r0, int64_t r1)
{
    touch<C>(p);
    C* g = (C*) sdp_mem_data(sg); const int* a = (const int*) sdp_mem_data_const(s0), * b = (const int*) sdp_mem_data_const(s1);
    const C* v = (const C*) sdp_mem_data_const(vis);
    const int64_t nc = sdp_mem_shape_dim(vis, 1), n = sdp_mem_shape_dim(sg, 0) * sdp_mem_shape_dim(sg, 1);
    C t(0, 0);
    for (int64_t r = r0; r < r1; ++r) for (int c = a[r]; c < b[r]; ++c) t += v[r * nc + c];
    for (int64_t e = 0; e < n; ++e) g[e] += t;
}
template<typename C> static void kcorrect(sdp_Mem* f, double w)
{
    C* g = (C*) sdp_mem_data(f);
    const int64_t n = sdp_mem_shape_dim(f, 0) * sdp_mem_shape_dim(f, 1);
    for (int64_t e = 0; e < n; ++e) g[e] *= W(w);
}
// Offsets the kernel must be told for each row and channel.
static double g_f0, g_df;
static int* g_want; static int64_t g_nc;
static void offsets(const sdp_Mem* s0, const sdp_Mem* s1, int64_t r0, int64_t r1, int ou, int ov, int ow, double f0, double df)
{
    sym_check(f0 == g_f0 && df == g_df, "kernel-frequency");
    const int* a = (const int*) sdp_mem_data_const(s0), * b = (const int*) sdp_mem_data_const(s1);
    bool ok = true;
    for (int64_t r = r0; r < r1; ++r) for (int c = a[r]; c < b[r]; ++c) { const int* w = g_want + 3 * (r * g_nc + c); ok &= w[0] == ou && w[1] == ov && w[2] == ow; }
    sym_check(ok, "own-sub-grid");
}
static bool dbl(const sdp_Mem* m) { return sdp_mem_type(m) == SDP_MEM_COMPLEX_DOUBLE; }
extern "C" {
void sdp_gridder_wtower_uvw_degrid(sdp_GridderWtowerUVW* p, const sdp_Mem* sg, int ou, int ov, int ow, double f0, double df, const sdp_Mem*, const sdp_Mem* s0, const sdp_Mem* s1, sdp_Mem* vis, int64_t r0, int64_t r1, sdp_Error* status)
{
    if (*status) return;
    if (g_fail == 1) { *status = SDP_ERR_MEM_COPY_FAILURE; return; }
    offsets(s0, s1, r0, r1, ou, ov, ow, f0, df);
    if (dbl(vis)) kdegrid<cd>(p, sg, s0, s1, vis, r0, r1); else kdegrid<cf>(p, sg, s0, s1, vis, r0, r1);
}
void sdp_gridder_wtower_uvw_grid(sdp_GridderWtowerUVW* p, const sdp_Mem* vis, const sdp_Mem*, const sdp_Mem* s0, const sdp_Mem* s1, double f0, double df, sdp_Mem* sg, int ou, int ov, int ow, int64_t r0, int64_t r1, sdp_Error* status)
{
    if (*status) return;
    if (g_fail == 1) { *status = SDP_ERR_MEM_COPY_FAILURE; return; }
    offsets(s0, s1, r0, r1, ou, ov, ow, f0, df);
    if (dbl(vis)) kgrid<cd>(p, sg, s0, s1, vis, r0, r1); else kgrid<cf>(p, sg, s0, s1, vis, r0, r1);
}
void sdp_gridder_wtower_uvw_degrid_correct(sdp_GridderWtowerUVW*, sdp_Mem* f, int ou, int ov, int ow, sdp_Error* status)
{
    if (*status) return;
    sym_check(ou == 0 && ov == 0, "correction-offset");
    if (dbl(f)) kcorrect<cd>(f, ow); else kcorrect<cf>(f, ow);
}
void sdp_gridder_wtower_uvw_grid_correct(sdp_GridderWtowerUVW* p, sdp_Mem* f, int ou, int ov, int ow, sdp_Error* status) { sdp_gridder_wtower_uvw_degrid_correct(p, f, ou, ov, ow, status); }
}
static double re(double x) { return x; }
static double im(double) { return 0; }
template<typename T> static double re(const std::complex<T>& x) { return x.real(); }
template<typename T> static double im(const std::complex<T>& x) { return x.imag(); }
static void same(double x, double a, double, const char* id) { near_c(cd(x, 0), cd(a, 0), id); }
template<typename T> static void same(const std::complex<T>& x, double a, double b, const char* id) { near_c(x, std::complex<T>(a, b), id); }
static void put(double& x, double a, double) { x = a; }
template<typename T> static void put(std::complex<T>& x, double a, double b) { x = std::complex<T>(a, b); }
template<typename S, typename U, typename V> static void run()
{
    // Image of 8 cells, sub-grids of 4 of which 2 are used: u, v in steps of 2 cells.
    const int gridding = CFG(grid, 0), n = 8, sgs = 4, nr = CFG(nr, 1), nc = CFG(nc, 1), wide = CFG(wide, 0), nt = CFG(nt, 1), big = nr * nc > 40;
    const double theta = 0.5, wstep = 4, frac = CFG(frac, 0) ? 0.0 : 0.5, height = 2;
    const int eff = 2;
    const double f0 = CFG(down, 0) ? 2 * 299792458.0 : 299792458.0, df = (CFG(down, 0) ? -299792458.0 : 299792458.0) / (nc > 3 ? 1024 : 2);
    sym_threads(CFG(th, 2)); sym_sched(CFG(sched, 0));
    sdp_Error st = SDP_SUCCESS;
    Arr<U> uvw(&st, CFG(order, 0), nr, 3);
    Arr<V> vis(&st, 0, nr, nc);
    Arr<S> img(&st, 0, n, n);
    g_f0 = f0; g_df = df; g_nc = nc;
    g_want = (int*) malloc(sizeof(int) * 3 * nr * nc);
    const double lim[3] = {5.9, 5.9, 18};
    for (int r = 0; r < nr; ++r) for (int d = 0; d < 3; ++d)
        uvw(r, d) = (d == wide && (r == 0 || CFG(all, 1))) ? sym<U>(Nm("uvw", r, d), -lim[d], lim[d]) : CFG(same, 0) ? U(d == 2 && r == 1 ? 6.2 : 0.3 + 0.1 * r) : U((r * (d == 0 ? 3 : d == 1 ? 5 : 7) % 5 - 2) * (d < 2 ? 1.03 : 3.1) + 0.11);
    if (big) { for (int e = 0; e < vis.n; ++e) vis.lin(e) = V((e * 7) % 13 - 5, e % 3); }
    else vis.fillSym("vis");
    if (big) { for (int e = 0; e < n * n; ++e) put(img.lin(e), (e * 7) % 13 - 5, e % 3); }
    else img.fillSym("img");
    V* v0 = (V*) malloc(sizeof(V) * vis.n); S* i0 = (S*) malloc(sizeof(S) * n * n);
    for (int e = 0; e < vis.n; ++e) v0[e] = vis.lin(e);
    for (int e = 0; e < n * n; ++e) i0[e] = img.lin(e);
    for (int r = 0; r < nr; ++r) for (int d = 0; d < 3; ++d)
    {
        // The sub-grid (or plane) each channel belongs to.
        const double step = d < 2 ? eff / theta : height * wstep;
        for (int c = 0; c < nc; ++c)
        {
            const double x = (double) uvw(r, d) * (f0 + c * df) / 299792458.0 / step;
            int64_t k;
            if (d == wide && (r == 0 || CFG(all, 1)))
            {
                const int m = d < 2 ? 2 : 3;
                k = sym_choice("k", -m, m);
                // Not within rounding of a boundary.
                sym_assume(x > k - 0.499999); sym_assume(x < k + 0.499999);
            }
            else k = (int64_t) floor(x + 0.5);
            g_want[3 * (r * nc + c) + d] = (int) (k * (d < 2 ? eff : height));
        }
    }
    uvw.protect(); if (gridding) vis.protect(); else img.protect();
    if (gridding) sdp_grid_wstack_wtower_grid_all(vis.mem, f0, df, uvw.mem, sgs, theta, wstep, 0.25, -0.5, 2, 3, 4, 5, frac, height, CFG(verb, 0), img.mem, nt, &st);
    else sdp_grid_wstack_wtower_degrid_all(img.mem, f0, df, uvw.mem, sgs, theta, wstep, 0.25, -0.5, 2, 3, 4, 5, frac, height, CFG(verb, 0), vis.mem, nt, &st);
    sym_check(st == SDP_SUCCESS, "status");
    sym_tol(sizeof(V) == 8 ? 1e-4 : 1e-8); sym_atol(sizeof(V) == 8 ? 1e-4 : 1e-8);
    if (gridding)
    {
        // Every visibility once, at the middle of its sub-grid, corrected for its plane.
        double* acc = (double*) malloc(sizeof(double) * 2 * n * n);
        for (int e = 0; e < 2 * n * n; ++e) acc[e] = 0;
        // Visibilities with the same offsets are added first.
        bool* done = (bool*) malloc(nr * nc);
        for (int e = 0; e < nr * nc; ++e) done[e] = false;
        for (int e = 0; e < nr * nc; ++e)
        {
            if (done[e]) continue;
            const int* w = g_want + 3 * e;
            double a = 0, b = 0;
            for (int q = e; q < nr * nc; ++q)
            {
                const int* x = g_want + 3 * q;
                if (x[0] != w[0] || x[1] != w[1] || x[2] != w[2]) continue;
                done[q] = true; a += (double) v0[q].real(); b += (double) v0[q].imag();
            }
            for (int l = 0; l < n; ++l) for (int m = 0; m < n; ++m)
            {
                const double p = 2 * PI * ((l - n / 2) * w[0] + (m - n / 2) * w[1]) / n, cr = cos(p) * W(w[2]), ci = sin(p) * W(w[2]);
                acc[2 * (l * n + m)] += a * cr - b * ci; acc[2 * (l * n + m) + 1] += a * ci + b * cr;
            }
        }
        for (int e = 0; e < n * n; ++e) same(img.lin(e), acc[2 * e], acc[2 * e + 1], "image");
        free(acc); free(done);
    }
    else
    {
        bool all = true;
        for (int e = 0; e < nr * nc; ++e)
        {
            const int* w = g_want + 3 * e;
            double a = 0, b = 0;
            int same = -1;
            for (int q = e - 1; q >= 0 && same < 0; --q) { const int* x = g_want + 3 * q; if (x[0] == w[0] && x[1] == w[1] && x[2] == w[2]) same = q; }
            if (same >= 0) 
            {
                if (big) all = all && vis.lin(e) == vis.lin(same); else near_c(vis.lin(e), vis.lin(same), "visibility");
                continue;
            }
            for (int l = 0; l < n; ++l) for (int m = 0; m < n; ++m)
            {
                const double p = -2 * PI * ((l - n / 2) * w[0] + (m - n / 2) * w[1]) / n, cr = cos(p) * W(w[2]), ci = sin(p) * W(w[2]);
                const double x = re(i0[l * n + m]), y = im(i0[l * n + m]);
                a += x * cr - y * ci; b += x * ci + y * cr;
            }
            near_c(vis.lin(e), V(a, b), "visibility");
        }
        sym_check(all, "visibility-like-the-others");
    }
    uvw.release(); vis.release(); img.release(); free(v0); free(i0); free(g_want);
}
static void call(int gridding, sdp_Mem* img, double f0, double df, sdp_Mem* uvw, int sgs, double theta, double wstep, double frac, double height, sdp_Mem* vis, int nt, sdp_Error* st)
{
    if (gridding) sdp_grid_wstack_wtower_grid_all(vis, f0, df, uvw, sgs, theta, wstep, 0.25, -0.5, 2, 3, 4, 5, frac, height, 0, img, nt, st);
    else sdp_grid_wstack_wtower_degrid_all(img, f0, df, uvw, sgs, theta, wstep, 0.25, -0.5, 2, 3, 4, 5, frac, height, 0, vis, nt, st);
}
// Arguments that do not fit are refused; no visibilities are no reason to fail; a kernel's error is passed on.
static void odd()
{
    const int what = CFG(what, 0), gridding = CFG(grid, 0);
    sym_threads(2);
    sdp_Error st = SDP_SUCCESS;
    int64_t is[3] = {8, 8, 1}, us[3] = {2, 3, 1}, vs[3] = {2, 2, 1};
    int id = 2, ud = 2, vd = 2, sgs = 4, expect = 1;
    double theta = 0.5, wstep = 4, frac = 0.5, height = 2;
    sdp_MemType it = SDP_MEM_COMPLEX_DOUBLE, ut = SDP_MEM_DOUBLE, vt = SDP_MEM_COMPLEX_DOUBLE;
    if (what == 1) is[0] = 7;
    if (what == 2) is[1] = 9;
    if (what == 3) us[1] = 2;
    if (what == 4) us[0] = 1;
    if (what == 5) vs[0] = 3;
    if (what == 6) id = 3;
    if (what == 7) ud = 3;
    if (what == 8) vd = 3;
    if (what == 9) it = SDP_MEM_INT;
    if (what == 10) ut = SDP_MEM_COMPLEX_DOUBLE;
    if (what == 11) vt = SDP_MEM_DOUBLE;
    if (what == 12) sgs = 10;
    if (what == 13) sgs = 0;
    if (what == 14) theta = 0;
    if (what == 15) wstep = 0;
    if (what == 16) height = 0;
    if (what == 17) frac = 0.2;
    if (what == 18) frac = -0.5;
    if (what == 19) frac = 1.5;
    if (what == 20) ut = SDP_MEM_INT;
    if (what == 21) id = 1;
    if (what == 22) vs[0] = us[0] = 0, expect = 0;
    if (what == 23) vs[1] = 0, expect = 0;
    if (what == 24) g_fail = 1, expect = 2;
    if (what == 25) g_fail = 2, expect = 2;
    sdp_Mem* g = sdp_mem_create(it, SDP_MEM_CPU, id, is, &st), * u = sdp_mem_create(ut, SDP_MEM_CPU, ud, us, &st), * v = sdp_mem_create(vt, SDP_MEM_CPU, vd, vs, &st);
    sdp_mem_clear_contents(u, &st); sdp_mem_clear_contents(v, &st);
    sdp_mem_clear_contents(g, &st);
    sdp_Mem* out = gridding ? g : v;
    if (what == 0) sdp_mem_set_read_only(out, 1);
    if (expect == 0) ((double*) sdp_mem_data(g))[5] = 7;
    g_want = (int*) malloc(sizeof(int) * 12); g_nc = 2; g_f0 = 3e8; g_df = 1e6;
    for (int e = 0; e < 12; ++e) g_want[e] = 0;
    sym_check(st == SDP_SUCCESS, "made");
    const bool keep = expect == 1 || (expect == 0 && !gridding);
    const sdp_Mem* hold = keep ? out : gridding ? v : g;
    if (sdp_mem_num_elements(hold)) sym_protect(sdp_mem_data_const(hold), 8);
    call(gridding, g, g_f0, g_df, u, sgs, theta, wstep, frac, height, v, 2, &st);
    if (sdp_mem_num_elements(hold)) sym_unprotect(sdp_mem_data_const(hold), 8);
    if (expect == 0)
    {
        sym_check(st == SDP_SUCCESS, "nothing-to-do");
        sym_check(((double*) sdp_mem_data(g))[5] == (gridding ? 0 : 7), "cleared");
    }
    else if (expect == 1) sym_check(st != SDP_SUCCESS, "refused");
    else sym_check(st == SDP_ERR_MEM_COPY_FAILURE, "passed-on");
    sdp_mem_free(g); sdp_mem_free(u); sdp_mem_free(v); free(g_want);
}
extern "C" void harness(void)
{
    sym_pin(1);
    if (CFG(op, 0) == 9) { odd(); return; }
    const int t = CFG(type, 0);
    if (t == 0) run<cd, double, cd>();
    else if (t == 1) run<cf, double, cf>();
    else if (t == 2) run<cf, float, cf>();
    else run<double, double, cd>();
}
