// C30: multi-scale CLEAN keeps its books consistent and stops when it should.
#include "clean.h"
#include "ska-sdp-func/clean/sdp_ms_clean_cornwell.h"
// Kernel of one scale, m x m pixels, middle at m / 2.
static void kernel(int scale, int m, double* k)
{
    const double s2 = 2 * (3.0 / 16.0 * scale) * (3.0 / 16.0 * scale);
    for (int x = 0; x < m; ++x) for (int y = 0; y < m; ++y)
    {
        const double d = (x - m / 2) * (x - m / 2) + (y - m / 2) * (y - m / 2);
        k[x * m + y] = scale == 0 ? (d == 0 ? 1.0 : 0.0) : exp(-d / s2) / (PI * s2);
    }
}
static double* arr(int n) { double* p = (double*) malloc(n * sizeof(double)); for (int i = 0; i < n; ++i) p[i] = 0; return p; }
template<typename F> static void run()
{
    const int n = CFG(n, 2), m = 2 * n, N = n * n, M = m * m, cycles = CFG(cycles, 2), what = CFG(what, 1), ns = CFG(ns, 2), fl = sizeof(F) == 4;
    const double thr0 = CFG(thr, 0) / 8.0, gain = CFG(gain, 2) / 16.0, tie = fl ? 1e-3 : 1e-4;
    const int scales[4] = {CFG(sc0, 0), CFG(sc1, 4), CFG(sc2, 8), 2};
    sdp_Error st = SDP_SUCCESS;
    Arr<F> dirty(&st, 0, n, n), psf(&st, 0, m, m), cb(&st, 0, 4), model(&st, 0, n, n), res(&st, 0, n, n), sky(&st, 0, n, n);
    Arr<int> list(&st, 0, ns);
    for (int i = 0; i < ns; ++i) list.lin(i) = scales[i];
    for (int e = 0; e < psf.n; ++e) psf.lin(e) = e == n * m + n ? F(1) : what & 2 ? sym<F>(Nm("psf", e), -0.5, 0.5) : F(((e * 7 + 3) % 11 - 5) / 16.0);
    for (int e = 0; e < N; ++e) dirty.lin(e) = (what & 1) && e % CFG(every, 1) == 0 ? sym<F>(Nm("dirty", e), -4, 4) : F(((e * 5 + 2) % 7) / 4.0);
    const F g = what & 4 ? sym<F>("gain", 0.0625, 1) : F(gain), thr = what & 8 ? sym<F>("threshold", -2, 3) : F(thr0);
    cb.lin(0) = F(CFG(sx, 3) / 2.0); cb.lin(1) = F(CFG(sy, 3) / 2.0); cb.lin(2) = F(CFG(deg, 30)); cb.lin(3) = F(m);
    model.fill(-7); res.fill(-7); sky.fill(-7);
    // The books, kept from the definition.  Ties are left out.
    double* k[4], * sp[4][4], * r[4], * c = arr(N), * b = arr(M), * t = arr(M), * pd = arr(M), * dd = arr(N), cp[4];
    for (int e = 0; e < M; ++e) pd[e] = psf.lin(e);
    for (int e = 0; e < N; ++e) dd[e] = dirty.lin(e);
    for (int s = 0; s < ns; ++s) { k[s] = arr(M); kernel(scales[s], m, k[s]); }
    for (int s = 0; s < ns; ++s)
    {
        r[s] = arr(N);
        for (int e = 0; e < N; ++e) r[s][e] = same(dd, n, k[s], m, e / n, e % n);
        for (int e = 0; e < M; ++e) t[e] = same(pd, m, k[s], m, e / m, e % m);
        for (int p = 0; p < ns; ++p) { sp[s][p] = arr(M); for (int e = 0; e < M; ++e) sp[s][p][e] = same(t, m, k[p], m, e / m, e % m); }
        cp[s] = 0;
        for (int e = 0; e < M; ++e) if (sp[s][s][e] > cp[s]) cp[s] = sp[s][s][e];
    }
    for (int q = 0; q < cycles; ++q)
    {
        const int w = sym_choice(Nm("peak", q), -1, ns * N - 1), S = w / N, at = w % N;
        if (w < 0)
        {
            // No flux above zero: nothing is subtracted any more.
            for (int s = 0; s < ns; ++s) for (int e = 0; e < N; ++e) sym_assume(r[s][e] < -tie);
            break;
        }
        sym_assume(r[S][at] > tie);
        for (int s = 0; s < ns; ++s) for (int e = 0; e < N; ++e) if (s != S || e != at) sym_assume(r[s][e] / cp[s] < r[S][at] / cp[S] - tie);
        sym_assume(r[S][at] > thr + tie || r[S][at] < thr - tie);
        if (r[S][at] < thr) break;
        const double f = (double) g * (r[S][at] / cp[S]);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
        {
            const int o = (n + i - at / n) * m + n + j - at % n;
            c[i * n + j] += f * k[S][o];
            for (int s = 0; s < ns; ++s) r[s][i * n + j] -= f * sp[s][S][o];
        }
    }
    dirty.protect(); psf.protect(); cb.protect(); list.protect();
    sym_leak_begin();
    sdp_ms_clean_cornwell(dirty.mem, psf.mem, cb.mem, list.mem, (double) g, (double) thr, cycles, model.mem, res.mem, sky.mem, &st);
    sym_leak_check();
    sym_check(st == SDP_SUCCESS, "status");
    sym_tol(fl ? 1e-3 : 1e-9); sym_atol(fl ? 1e-3 : 1e-9);
    beam((double) cb.lin(0), (double) cb.lin(1), (double) cb.lin(2), m, b);
    for (int e = 0; e < N; ++e)
    {
        near_c(model.lin(e), (F) c[e], "components");
        near_c(res.lin(e), (F) r[0][e], "residual");
        near_c(sky.lin(e), (F) (same(c, n, b, m, e / n, e % n) + r[0][e]), "sky-model");
    }
    for (int s = 0; s < ns; ++s) { free(k[s]); free(r[s]); for (int p = 0; p < ns; ++p) free(sp[s][p]); }
    free(c); free(b); free(t); free(pd); free(dd);
    dirty.release(); psf.release(); cb.release(); list.release(); model.release(); res.release(); sky.release();
}
// Delta functions only: the residual is the dirty image less the components convolved with the PSF.
static void aligned()
{
    const int n = 3, m = 6;
    sdp_Error st = SDP_SUCCESS;
    Arr<double> dirty(&st, 0, n, n), psf(&st, 0, m, m), cb(&st, 0, 4), model(&st, 0, n, n), res(&st, 0, n, n), sky(&st, 0, n, n);
    Arr<int> list(&st, 0, 1);
    list.lin(0) = 0;
    psf.fill(0); psf(n, n) = 1; dirty.fill(0);
    dirty(1, 1) = sym_double("flux", 1, 4);
    cb.lin(0) = cb.lin(1) = 0.5; cb.lin(2) = 0; cb.lin(3) = m;
    sdp_ms_clean_cornwell(dirty.mem, psf.mem, cb.mem, list.mem, 1.0, 0.5, 1, model.mem, res.mem, sky.mem, &st);
    sym_check(st == SDP_SUCCESS, "status");
    for (int e = 0; e < n * n; ++e) sym_near(res.lin(e), dirty.lin(e) - model.lin(e), "residual-is-dirty-less-model");
    dirty.release(); psf.release(); cb.release(); list.release(); model.release(); res.release(); sky.release();
}
static void refuse()
{
    const int what = CFG(what, 0);
    sdp_Error st = SDP_SUCCESS;
    int64_t sh[7][2] = {{3, 3}, {6, 6}, {4, 1}, {2, 1}, {3, 3}, {3, 3}, {3, 3}};
    int nd[7] = {2, 2, 1, 1, 2, 2, 2};
    sdp_MemType t[7]; for (int i = 0; i < 7; ++i) t[i] = i == 3 ? SDP_MEM_INT : SDP_MEM_DOUBLE;
    if (what < 7) sh[what][0] -= what == 3 ? 2 : 1;
    else if (what < 14) { if (what == 9 || what == 10) nd[what - 7] = 2; else sh[what - 7][1]--; }
    else if (what < 21) t[what - 14] = SDP_MEM_FLOAT;
    else if (what == 21) for (int i = 0; i < 7; ++i) t[i] = i == 3 ? SDP_MEM_INT : SDP_MEM_COMPLEX_DOUBLE;
    else if (what == 22) for (int i = 0; i < 7; ++i) t[i] = SDP_MEM_INT;
    else if (what == 23) sh[0][0] = sh[0][1] = sh[1][0] = sh[1][1] = sh[4][0] = sh[4][1] = sh[5][0] = sh[5][1] = sh[6][0] = sh[6][1] = 0;
    else if (what == 24) sh[1][0] = sh[1][1] = 3;
    else if (what == 25) sh[1][0] = sh[1][1] = 5;
    sdp_Mem* m[7];
    for (int i = 0; i < 7; ++i)
    {
        if (what >= 30 && what < 37 && i == what - 30)
        {
            int64_t b[2], s = 2 * sdp_mem_type_size(t[i]);
            for (int d = nd[i] - 1; d >= 0; --d) { b[d] = s; s *= sh[i][d]; }
            m[i] = sdp_mem_create_wrapper(calloc(1, s), t[i], SDP_MEM_CPU, nd[i], sh[i], b, &st);
        }
        else { m[i] = sdp_mem_create(t[i], SDP_MEM_CPU, nd[i], sh[i], &st); sdp_mem_clear_contents(m[i], &st); }
    }
    if (t[2] == SDP_MEM_DOUBLE) { double* p = (double*) sdp_mem_data(m[2]); p[0] = p[1] = 1; }
    if (what >= 40 && what < 43) sdp_mem_set_read_only(m[what - 36], 1);
    if (what == 44) st = SDP_ERR_RUNTIME;
    void* d[7]; int64_t nb[7];
    for (int i = 0; i < 7; ++i)
    {
        nb[i] = sdp_mem_type_size(t[i]) * sdp_mem_num_elements(m[i]); d[i] = sdp_mem_data(m[i]);
        if (what >= 30 && what < 37 && i == what - 30) nb[i] *= 2;
        if (nb[i]) sym_protect(d[i], nb[i]);
    }
    sym_leak_begin();
    sdp_ms_clean_cornwell(m[0], m[1], m[2], m[3], 0.25, 0.5, 2, m[4], m[5], m[6], &st);
    sym_leak_check();
    sym_check(what == 44 ? st == SDP_ERR_RUNTIME : st != SDP_SUCCESS, "refused");
    for (int i = 0; i < 7; ++i) { if (nb[i]) sym_unprotect(d[i], nb[i]); if (what >= 30 && what < 37 && i == what - 30) free(d[i]); sdp_mem_free(m[i]); }
}
extern "C" void harness(void)
{
    switch (CFG(op, 0))
    {
    case 0: if (CFG(type, 0)) run<float>(); else run<double>(); break;
    case 1: aligned(); break;
    default: refuse();
    }
}
