// C38: the w-tower height search, its worst-case image and its accuracy measure.
// op 0: the search, with a free error for every number of w-planes; op 1: one accuracy measurement, end to end;
// op 2: the worst-case image for every field of view.
#include "common.h"
#define sdp_gridder_rms_diff real_rms_diff
#include "ska-sdp-func/grid_data/sdp_gridder_utils.cpp"
#undef sdp_gridder_rms_diff
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_height.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.h"
#define PI 3.14159265358979323846

struct sdp_GridderWtowerUVW { int n, m, k, o, kw, ow; double theta, ws, hu, hv; };
static sdp_GridderWtowerUVW K;
static int made, freed, fail_create, n_rms, n_degrid, n_correct, last_iw, fail_at;
static double err[32], fov, frac, WS;
static int KMAX, NS, OP, fe;
static cd fac[4];
static sdp_Mem *m_vis; static double w_last;

extern "C" {
sdp_GridderWtowerUVW* sdp_gridder_wtower_uvw_create(int n, int m, double theta, double ws, double hu, double hv, int k, int o, int kw, int ow, sdp_Error* st)
{
    if (*st) return 0;
    sym_check(n == K.n && m == K.m && k == K.k && o == K.o && kw == K.kw && ow == K.ow, "kernel-sizes-as-given");
    sym_check(theta == K.theta && ws == K.ws && hu == K.hu && hv == K.hv, "kernel-steps-as-given");
    made++;
    if (fail_create) { *st = SDP_ERR_INVALID_ARGUMENT; return 0; }
    return &K;
}
void sdp_gridder_wtower_uvw_free(sdp_GridderWtowerUVW* p) { if (p) { sym_check(p == &K, "kernel-freed"); freed++; } }
int sdp_gridder_wtower_uvw_image_size(const sdp_GridderWtowerUVW* p) { return p->n; }
int sdp_gridder_wtower_uvw_subgrid_size(const sdp_GridderWtowerUVW* p) { return p->m; }
double sdp_gridder_wtower_uvw_theta(const sdp_GridderWtowerUVW* p) { return p->theta; }
double sdp_gridder_wtower_uvw_shear_u(const sdp_GridderWtowerUVW* p) { return p->hu; }
double sdp_gridder_wtower_uvw_shear_v(const sdp_GridderWtowerUVW* p) { return p->hv; }

static void corner(int c, int& i, int& j)
{
    const int h = K.n / 2;
    const int a[4] = {h + fe, h - fe, h + fe, h - fe - 1}, b[4] = {h + fe, h - fe, h - fe - 1, h + fe};
    i = a[c]; j = b[c];
}
static const double FLUX[4] = {0.3, 0.2, 0.3, 0.2};

void sdp_gridder_wtower_uvw_degrid_correct(sdp_GridderWtowerUVW* p, sdp_Mem* facet, int ol, int om, int wo, sdp_Error* st)
{
    if (*st) return;
    n_correct++;
    sym_check(p == &K && ol == 0 && om == 0 && wo == 0, "image-corrected-at-its-centre");
    if (OP != 1) return;
    cd* f = (cd*) sdp_mem_data(facet);
    for (int c = 0; c < 4; ++c) { int i, j; corner(c, i, j); f[i * K.n + j] = f[i * K.n + j] * fac[c]; }
}
void sdp_gridder_wtower_uvw_degrid(sdp_GridderWtowerUVW* p, const sdp_Mem* sub, int ou, int ov, int ow, double f0, double df,
        const sdp_Mem* uvws, const sdp_Mem* s, const sdp_Mem* e, sdp_Mem* vis, int64_t r0, int64_t r1, sdp_Error* st)
{
    if (*st) return;
    n_degrid++;
    const double C = 299792458.0;
    sym_check(p == &K && ou == 0 && ov == 0 && ow == 0, "subgrid-at-the-centre");
    sym_check(f0 == C && df == C, "one-metre-wavelength");
    const int ns = NS ? NS : 3;
    sym_check(sdp_mem_shape_dim(uvws, 0) == ns * ns && sdp_mem_shape_dim(vis, 0) == ns * ns && sdp_mem_shape_dim(vis, 1) == 1, "number-of-samples");
    sym_check(r0 <= 0 && (r1 < 0 || r1 >= ns * ns), "every-sample");
    const double* u = (const double*) sdp_mem_data_const(uvws);
    cd* v = (cd*) sdp_mem_data(vis);
    const double w = u[2];
    last_iw = -1; w_last = w;
    const double fr = frac == 0.0 ? 2.0 / 3.0 : frac, a = K.m * fr / K.theta / 2, q = 2 * a / (ns - 1);
    for (int i = 0; i < ns; ++i) for (int j = 0; j < ns; ++j)
    {
        const int r = i * ns + j;
        sym_check(((const int*) sdp_mem_data_const(s))[r] == 0 && ((const int*) sdp_mem_data_const(e))[r] == 1, "every-sample");
        if (OP == 1)
        {
            sym_near(u[r * 3], -a + j * q, "samples-span-the-subgrid-fraction");
            sym_near(u[r * 3 + 1], -a + i * q, "samples-span-the-subgrid-fraction");
            sym_near(u[r * 3 + 2], w, "samples-at-one-w");
            sym_check(v[r].real() == 0 && v[r].imag() == 0, "prediction-starts-empty");
            v[r] = sym<cd>(Nm("vis", n_degrid, r));
        }
    }
    m_vis = vis;
    if (OP == 0)
    {
        for (int i = 0; i < 32; ++i) if (w == i * WS) last_iw = i;
        sym_check(last_iw >= 0, "whole-number-of-planes");
        return;
    }
    // The sub-grid: the low-frequency part of the corrected image, back in image space.
    const int N = K.n, M = K.m;
    const cd* sg = (const cd*) sdp_mem_data_const(sub);
    sym_atol(1e-9);
    for (int c = 0; c < M; ++c) for (int d = 0; d < M; ++d)
    {
        double re = 0, im = 0;
        for (int k = 0; k < 4; ++k)
        {
            int i, j; corner(k, i, j);
            double wr = 0, wi = 0;
            for (int x = 0; x < M; ++x) for (int y = 0; y < M; ++y)
            {
                const double ph = 2 * PI * (((x - M / 2) * (c - M / 2) + (y - M / 2) * (d - M / 2)) / (double) M
                    - ((x - M / 2) * (i - N / 2) + (y - M / 2) * (j - N / 2)) / (double) N);
                wr += cos(ph); wi += sin(ph);
            }
            wr *= FLUX[k] / (M * M); wi *= FLUX[k] / (M * M);
            re += wr * fac[k].real() - wi * fac[k].imag();
            im += wr * fac[k].imag() + wi * fac[k].real();
        }
        sym_near(sg[c * M + d].real(), re, "subgrid-is-the-central-part-of-the-image");
        sym_near(sg[c * M + d].imag(), im, "subgrid-is-the-central-part-of-the-image");
    }
}
double sdp_gridder_rms_diff(const sdp_Mem* a, const sdp_Mem* b, sdp_Error* st)
{
    if (*st) return 0;
    n_rms++;
    if (fail_at && n_rms == fail_at) { *st = SDP_ERR_RUNTIME; return 0; }
    if (OP == 0) { sym_check(last_iw >= 0 && n_degrid == n_rms && n_correct == n_rms, "one-measurement-per-step"); return last_iw < KMAX ? err[last_iw] : 1e6; }
    sym_check(a == m_vis || b == m_vis, "prediction-compared");
    const sdp_Mem* ref = a == m_vis ? b : a;
    const cd* v = (const cd*) sdp_mem_data_const(ref);
    const int ns = NS ? NS : 3;
    const double fr = frac == 0.0 ? 2.0 / 3.0 : frac, sz = K.m * fr / K.theta / 2, q = 2 * sz / (ns - 1);
    sym_atol(1e-9);
    for (int i = 0; i < ns; ++i) for (int j = 0; j < ns; ++j)
    {
        double re = 0, im = 0;
        for (int k = 0; k < 4; ++k)
        {
            int x, y; corner(k, x, y);
            const double l = (x - K.n / 2) * K.theta / K.n, m = (y - K.n / 2) * K.theta / K.n;
            const double hb = K.hu * l + K.hv * m - 1, ha = K.hu * K.hu + K.hv * K.hv + 1;
            const double n = (sqrt(hb * hb - ha * (l * l + m * m)) + hb) / ha;
            const double ph = 2 * PI * ((-sz + j * q) * l + (-sz + i * q) * m + w_last * n);
            re += FLUX[k] * cos(ph); im -= FLUX[k] * sin(ph);
        }
        sym_near(v[i * ns + j].real(), re, "reference-is-the-direct-transform");
        sym_near(v[i * ns + j].imag(), im, "reference-is-the-direct-transform");
    }
    return n_rms == 1 ? 0.25 : 3.0;
}
}

static void image()
{
    const int n = CFG(n, 12);
    sdp_Error st = SDP_SUCCESS;
    Arr<cd> img(&st, CFG(order, 0), n, n);
    img.fillSym("img");
    const double theta = CFG(theta, 25) / 100.0, f = sym_double("fov", 0, 0.4);
    int e = 0;
    const double x = n / theta * f / 2;
    for (int i = 1; i < 2 * n; ++i) { sym_assume(fabs(x - i) > 1e-9); if (x > i) e = i; }
    while (e > 0 && n % e == 0) e--;
    sdp_gridder_worst_case_image(theta, f, img.mem, &st);
    if (e <= 0 || e + 1 > n / 2) { sym_check(st != SDP_SUCCESS, "fov-that-does-not-fit-refused"); img.release(); return; }
    sym_check(st == SDP_SUCCESS, "status");
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
    {
        const int a = i - n / 2, b = j - n / 2;
        const double v = a == e && b == e ? 0.3 : a == -e && b == -e ? 0.2 : a == e && b == -e - 1 ? 0.3 : a == -e - 1 && b == e ? 0.2 : 0;
        sym_near(img(i, j).real(), v, "sources-in-the-corners-of-the-field");
        sym_near(img(i, j).imag(), 0, "sources-in-the-corners-of-the-field");
    }
    img.release();
}

extern "C" void harness(void)
{
    OP = CFG(op, 0);
    if (OP == 2) { image(); return; }
    K.n = CFG(n, 8); K.m = CFG(m, 4); K.k = 4; K.o = 3; K.kw = 5; K.ow = 7; K.hu = CFG(shear, 0) / 10.0; K.hv = -0.3 * K.hu; K.theta = CFG(theta, 20) / 100.0;
    NS = CFG(ns, 0); frac = CFG(frac, 0) / 10.0; fe = CFG(fe, 3); fov = K.theta * (fe + 0.5) * 2 / K.n;
    made = freed = n_rms = n_degrid = n_correct = 0; fail_create = CFG(fc, 0); fail_at = CFG(fa, 0);
    sdp_Error st = SDP_SUCCESS;
    double target;
    if (OP == 0)
    {
        WS = K.ws = CFG(ws, 10); KMAX = CFG(k, 8);
        for (int i = 0; i < KMAX; ++i)
        {
            err[i] = sym_double(Nm("err", i), 0.001, 10);
            if (i) sym_assume(err[i] >= err[i - 1]);
        }
        target = CFG(deflt, 0) ? 0.0 : sym_double("target", 0.001, 10);
    }
    else
    {
        K.ws = sym_double("w_step", 0.01, 100); target = CFG(deflt, 0) ? 0.0 : 1.0;
        for (int c = 0; c < 4; ++c) fac[c] = sym<cd>(Nm("factor", c));
    }
    sym_leak_begin();
    const double h = sdp_gridder_determine_max_w_tower_height(K.n, K.m, K.theta, K.ws, K.hu, K.hv, K.k, K.o, K.kw, K.ow, fov, frac, NS, target, &st);
    sym_leak_check();
    if (fail_create) { sym_check(st == SDP_ERR_INVALID_ARGUMENT && h == 0 && !n_degrid, "failure-passed-on"); return; }
    sym_check(made == 1 && freed == 1, "one-kernel-made-and-freed");
    if (fail_at && n_rms >= fail_at) { sym_check(st == SDP_ERR_RUNTIME && n_rms == fail_at, "failure-passed-on"); return; }
    sym_check(st == SDP_SUCCESS, "status");
    if (OP == 1) 
    {
        bool whole = false;
        for (int i = 0; i < 8; ++i) whole = whole || w_last == i * K.ws;
        sym_check(whole && n_rms > 1, "measured-at-whole-planes");
        return;
    }
    const double t = CFG(deflt, 0) ? 2 * err[0] : target;
    // The expected number of planes, without a branch per error.
    double want = 0;
    for (int i = 1; i < KMAX; ++i) if (err[i] < t) want = 2.0 * i;
    sym_check(h == want, "greatest-height-below-the-target-error");
}
