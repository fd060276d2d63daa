// C29: Hogbom CLEAN keeps its books and stops when it should.
#include "clean.h"
#include "ska-sdp-func/clean/sdp_hogbom_clean.h"
template<typename F> static void run()
{
    const int n = CFG(n, 2), m = 2 * n, cycles = CFG(cycles, 2), what = CFG(what, 0), size = CFG(size, 3), fl = sizeof(F) == 4;
    const double thr0 = CFG(thr, 0) / 8.0, gain = CFG(gain, 2) / 16.0;
    sdp_Error st = SDP_SUCCESS;
    Arr<F> dirty(&st, 0, n, n), psf(&st, 0, m, m), model(&st, 0, n, n), res(&st, 0, n, n), sky(&st, 0, n, n);
    arr_cpu = true; Arr<F> cb(&st, 0, 4); arr_cpu = false;
    // A lop-sided PSF with its peak at the middle pixel.
    for (int e = 0; e < psf.n; ++e)
        psf.lin(e) = e == n * m + n ? F(1) : what & 2 ? sym<F>(Nm("psf", e), -0.75, 0.75) : F(((e * 7 + 3) % 11 - 5) / 8.0);
    for (int e = 0; e < n * n; ++e) dirty.lin(e) = (what & 1) && e % CFG(every, 1) == 0 ? sym<F>(Nm("dirty", e), -4, 4) : F(((e * 5 + 2) % 7) / 4.0);
    const F g = what & 4 ? sym<F>("gain", 0.0625, 1) : F(gain), thr = what & 8 ? sym<F>("threshold", -2, 3) : F(thr0);
    cb.lin(0) = F(CFG(sx, 3) / 2.0); cb.lin(1) = F(CFG(sy, 3) / 2.0); cb.lin(2) = F(CFG(deg, 30)); cb.lin(3) = F(size);
    model.fill(-7); res.fill(-7); sky.fill(-7);
    // The books, kept from the definition.  Ties are left out.
    double* r = (double*) malloc(n * n * sizeof(double)), * c = (double*) malloc(n * n * sizeof(double)), * b = (double*) malloc(size * size * sizeof(double));
    for (int e = 0; e < n * n; ++e) { r[e] = dirty.lin(e); c[e] = 0; }
    for (int k = 0; k < cycles; ++k)
    {
        const int at = sym_choice(Nm("peak", k), 0, n * n - 1);
        for (int e = 0; e < n * n; ++e) if (e != at) sym_assume(r[e] < r[at] - 1e-4);
        sym_assume(r[at] > thr + 1e-4 || r[at] < thr - 1e-4);
        if (r[at] < thr) break;
        const double f = (double) g * r[at];
        c[at] += f;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r[i * n + j] -= f * psf(n + i - at / n, n + j - at % n);
    }
    dirty.protect(); psf.protect(); cb.protect();
    sym_leak_begin();
    sdp_hogbom_clean(dirty.mem, psf.mem, cb.mem, (double) g, (double) thr, cycles, model.mem, res.mem, sky.mem, &st);
    sym_leak_check();
    sym_check(st == SDP_SUCCESS, "status");
    sym_tol(fl ? 1e-4 : 1e-9); sym_atol(fl ? 1e-4 : 1e-9);
    beam((double) cb.lin(0), (double) cb.lin(1), (double) cb.lin(2), size, b);
    for (int e = 0; e < n * n; ++e)
    {
        near_c(model.lin(e), (F) c[e], "components");
        near_c(res.lin(e), (F) r[e], "residual");
        near_c(sky.lin(e), (F) (same(c, n, b, size, e / n, e % n) + r[e]), "sky-model");
    }
    dirty.release(); psf.release(); cb.release(); model.release(); res.release(); sky.release();
    free(r); free(c); free(b);
}
// A single component is restored where it is.
static void centred()
{
    const int n = 3, m = 6, size = CFG(size, 3);
    sdp_Error st = SDP_SUCCESS;
    Arr<double> dirty(&st, 0, n, n), psf(&st, 0, m, m), model(&st, 0, n, n), res(&st, 0, n, n), sky(&st, 0, n, n);
    arr_cpu = true; Arr<double> cb(&st, 0, 4); arr_cpu = false;
    psf.fill(0); psf(n, n) = 1; dirty.fill(0);
    dirty(1, 1) = sym_double("flux", 1, 4);
    cb.lin(0) = cb.lin(1) = 0.5; cb.lin(2) = 0; cb.lin(3) = size;
    sdp_hogbom_clean(dirty.mem, psf.mem, cb.mem, 1.0, 0.5, 3, model.mem, res.mem, sky.mem, &st);
    sym_check(st == SDP_SUCCESS, "status");
    sym_check(model(1, 1) == dirty(1, 1), "component");
    for (int e = 0; e < n * n; ++e) if (e != 4) sym_check(sky.lin(e) < sky(1, 1) - 0.25, "restored-in-place");
    dirty.release(); psf.release(); cb.release(); model.release(); res.release(); sky.release();
}
// Arguments that do not fit are refused, and nothing is written.
static void refuse()
{
    const int what = CFG(what, 0);
    sdp_Error st = SDP_SUCCESS;
    int64_t sh[6][2] = {{3, 3}, {6, 6}, {4, 1}, {3, 3}, {3, 3}, {3, 3}};
    int nd[6] = {2, 2, 1, 2, 2, 2}, cycles = 2;
    double gain = 0.25, size = 3;
    sdp_MemType t[6]; for (int i = 0; i < 6; ++i) t[i] = SDP_MEM_DOUBLE;
    if (what < 6) sh[what][0]--;
    else if (what < 12) { if (what == 8) nd[2] = 2; else sh[what - 6][1]--; }
    else if (what < 18) t[what - 12] = SDP_MEM_FLOAT;
    else if (what == 18) for (int i = 0; i < 6; ++i) t[i] = SDP_MEM_COMPLEX_DOUBLE;
    else if (what == 19) for (int i = 0; i < 6; ++i) t[i] = SDP_MEM_INT;
    else if (what == 20) cycles = 0;
    else if (what == 21) gain = 0;
    else if (what == 22) size = 0;
    else if (what == 23) size = -3;
    else if (what == 24) sh[0][0] = sh[0][1] = sh[1][0] = sh[1][1] = sh[3][0] = sh[3][1] = sh[4][0] = sh[4][1] = sh[5][0] = sh[5][1] = 0;
    else if (what == 25) size = 40000;
    sdp_Mem* m[6];
    for (int i = 0; i < 6; ++i)
    {
        if (what >= 30 && what < 36 && i == what - 30)
        {
            int64_t b[2], s = 16;
            for (int d = nd[i] - 1; d >= 0; --d) { b[d] = s; s *= sh[i][d]; }
            m[i] = sdp_mem_create_wrapper(calloc(1, s), t[i], SDP_MEM_CPU, nd[i], sh[i], b, &st);
        }
        else { m[i] = sdp_mem_create(t[i], SDP_MEM_CPU, nd[i], sh[i], &st); sdp_mem_clear_contents(m[i], &st); }
    }
    if (t[2] == SDP_MEM_DOUBLE) { double* p = (double*) sdp_mem_data(m[2]); p[0] = p[1] = 1; if (sdp_mem_num_elements(m[2]) == 4 && what != 32) p[3] = size; }
    else if (t[2] == SDP_MEM_FLOAT) { float* p = (float*) sdp_mem_data(m[2]); p[0] = p[1] = 1; p[3] = 3; }
    if (what >= 40 && what < 43) sdp_mem_set_read_only(m[what - 37], 1);
    if (what == 44) st = SDP_ERR_RUNTIME;
    const sdp_Error before = st;
    sym_check(st == (what == 44 ? SDP_ERR_RUNTIME : SDP_SUCCESS), "made");
    void* d[6]; int64_t nb[6];
    for (int i = 0; i < 6; ++i)
    {
        nb[i] = sdp_mem_type_size(t[i]) * sdp_mem_num_elements(m[i]); d[i] = sdp_mem_data(m[i]);
        if (what >= 30 && what < 36 && i == what - 30) nb[i] *= 2;
        if (nb[i]) sym_protect(d[i], nb[i]);
    }
    sym_leak_begin();
    sdp_hogbom_clean(m[0], m[1], m[2], gain, 0.5, cycles, m[3], m[4], m[5], &st);
    sym_leak_check();
    sym_check(what == 44 ? st == before : st != SDP_SUCCESS, "refused");
    for (int i = 0; i < 6; ++i) { if (nb[i]) sym_unprotect(d[i], nb[i]); if (what >= 30 && what < 36 && i == what - 30) free(d[i]); sdp_mem_free(m[i]); }
}
extern "C" void harness(void)
{
    switch (CFG(op, 0))
    {
    case 0: if (CFG(type, 0)) run<float>(); else run<double>(); break;
    case 1: centred(); break;
    default: refuse();
    }
}
