// C16 (op 0, 1): the direct gridder's degridding and gridding are the plan's Fourier sums over the tapered image.
// C18 (op 2, 3): the corrections of the direct and the w-tower gridder use the plan's own kernels, and undo each other's w-phase.
#include "common.h"
#include "ska-sdp-func/grid_data/sdp_gridder_direct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.h"
#include "ska-sdp-func/fourier_transforms/sdp_pswf.h"
#define C_0 299792458.0
#define PI 3.14159265358979323846
template<typename T> struct Re { static double r(T v) { return v; } static double i(T) { return 0; } enum { cpx = 0 }; };
template<> struct Re<cd> { static double r(cd v) { return v.real(); } static double i(cd v) { return v.imag(); } enum { cpx = 1 }; };
template<> struct Re<cf> { static double r(cf v) { return v.real(); } static double i(cf v) { return v.imag(); } enum { cpx = 1 }; };

static double n_of(double l, double m, double hu, double hv)
{
    const double b = hu * l + hv * m - 1, a = hu * hu + hv * hv + 1;
    return (sqrt(b * b - a * (l * l + m * m)) + b) / a;
}

template<typename I, typename V>
static void direct(bool grid)
{
    typedef std::complex<V> C;
    const int n = CFG(n, 2), size = CFG(size, 8), sup = CFG(sup, 4), nr = CFG(nr, 1), nc = CFG(nc, 2);
    sdp_Error st = SDP_SUCCESS;
    const double theta = CFG(theta, 20) / 100.0, hu = CFG(shear, 0) / 10.0, hv = -0.3 * hu, ws = sym_double("w_step", 0.5, 20);
    sdp_GridderDirect* p = sdp_gridder_direct_create(size, n, theta, ws, hu, hv, sup, &st);
    sym_check(st == SDP_SUCCESS, "status");
    sym_check(sdp_gridder_direct_image_size(p) == size && sdp_gridder_direct_subgrid_size(p) == n && sdp_gridder_direct_support(p) == sup, "plan-sizes");
    sym_check(sdp_gridder_direct_theta(p) == theta && sdp_gridder_direct_w_step(p) == ws, "plan-steps");
    sym_check(sdp_gridder_direct_shear_u(p) == hu && sdp_gridder_direct_shear_v(p) == hv, "plan-shear");
    Arr<I> img(&st, CFG(order, 0), n, n);
    Arr<V> uvw(&st, 0, nr, 3);
    Arr<int> s(&st, 0, nr), e(&st, 0, nr);
    Arr<C> vis(&st, 0, nr, nc);
    Arr<double> pw(&st, 0, n);
    sdp_generate_pswf(0, sup * (PI / 2), pw.mem, &st);
    pw(0) = 1e-15;
    uvw.fillSym("uvw", -100, 100); vis.fillSym("vis");
    for (int i = 0; i < n * n; ++i)
        if (i < CFG(free, 2) || grid) img.lin(i) = sym<I>(Nm("img", i)); else img.lin(i) = i % 3 ? I(0.25 * i) : I(0);
    for (int i = 0; i < nr; ++i) { s(i) = 0; e(i) = nc; }
    I *oi = (I*) malloc(sizeof(I) * n * n); C *ov = (C*) malloc(sizeof(C) * nr * nc);
    for (int i = 0; i < n * n; ++i) oi[i] = img.lin(i);
    for (int i = 0; i < nr * nc; ++i) ov[i] = vis.lin(i);
    uvw.protect(); s.protect(); e.protect(); if (grid) vis.protect(); else img.protect();
    const int ou = CFG(ou, 3), ov_ = CFG(ov, -2), ow = CFG(ow, 4);
    const double f0 = 1.5e8, df = sym_double("df", 0, 1e6);
    if (grid) sdp_gridder_direct_grid(p, vis.mem, uvw.mem, s.mem, e.mem, f0, df, img.mem, ou, ov_, ow, &st);
    else sdp_gridder_direct_degrid(p, img.mem, ou, ov_, ow, f0, df, uvw.mem, s.mem, e.mem, vis.mem, &st);
    sym_check(st == SDP_SUCCESS, "status");
    sym_atol(1e-7);
    double ar[16], ai[16];
    for (int k = 0; k < 16; ++k) ar[k] = ai[k] = 0;
    for (int r = 0; r < nr; ++r) for (int c = 0; c < nc; ++c)
    {
        double re = ov[r * nc + c].real(), im = ov[r * nc + c].imag();
        const double il = (f0 + c * df) / C_0;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
        {
            const double l = (i - n / 2) * theta / n, m = (j - n / 2) * theta / n;
            const double ph = 2 * PI * ((uvw(r, 0) * il - ou / theta) * l + (uvw(r, 1) * il - ov_ / theta) * m + (uvw(r, 2) * il - ow * ws) * n_of(l, m, hu, hv));
            const double t = pw(i) * pw(j), f = Re<I>::r(oi[i * n + j]) * t, vr = ov[r * nc + c].real(), vi = ov[r * nc + c].imag();
            re += f * cos(ph); im -= f * sin(ph);
            ar[i * n + j] += t * (vr * cos(ph) - vi * sin(ph)); ai[i * n + j] += t * (vr * sin(ph) + vi * cos(ph));
        }
        if (!grid) { sym_near(vis(r, c).real(), re, "direct-degrid"); sym_near(vis(r, c).imag(), im, "direct-degrid"); }
    }
    if (grid) for (int k = 0; k < n * n; ++k)
    {
        sym_near(Re<I>::r(img.lin(k)), Re<I>::r(oi[k]) + ar[k], "direct-grid");
        if (Re<I>::cpx) sym_near(Re<I>::i(img.lin(k)), Re<I>::i(oi[k]) + ai[k], "direct-grid");
    }
    img.release(); uvw.release(); s.release(); e.release(); vis.release(); pw.release(); free(oi); free(ov);
    sdp_gridder_direct_free(p);
}

template<typename T>
static void correct(int op)
{
    const int size = CFG(size, 6), nl = CFG(nl, 3), nm = CFG(nm, 2), sup = CFG(sup, 8), wsup = op == 3 ? CFG(wsup, 4) : 0, fwd = CFG(fwd, 0);
    sdp_Error st = SDP_SUCCESS;
    const double theta = CFG(theta, 20) / 100.0, hu = CFG(shear, 1) / 10.0, hv = -0.2 * hu, ws = CFG(ws, 10);
    sdp_GridderDirect* d = 0; sdp_GridderWtowerUVW* w = 0;
    const int o = CFG(over, 3), wo_ = CFG(wover, 5), sg = CFG(sg, 4);
    if (op == 2) d = sdp_gridder_direct_create(size, sg, theta, ws, hu, hv, sup, &st);
    else
    {
        w = sdp_gridder_wtower_uvw_create(size, sg, theta, ws, hu, hv, sup, o, wsup, wo_, &st);
        sym_check(st == SDP_SUCCESS, "status");
        sym_check(sdp_gridder_wtower_uvw_image_size(w) == size && sdp_gridder_wtower_uvw_subgrid_size(w) == sg && sdp_gridder_wtower_uvw_support(w) == sup, "plan-sizes");
        sym_check(sdp_gridder_wtower_uvw_oversampling(w) == o && sdp_gridder_wtower_uvw_w_oversampling(w) == wo_ && sdp_gridder_wtower_uvw_w_support(w) == wsup, "plan-sizes");
        sym_check(sdp_gridder_wtower_uvw_theta(w) == theta && sdp_gridder_wtower_uvw_w_step(w) == ws, "plan-steps");
        sym_check(sdp_gridder_wtower_uvw_shear_u(w) == hu && sdp_gridder_wtower_uvw_shear_v(w) == hv, "plan-shear");
    }
    Arr<T> f(&st, CFG(order, 0), nl, nm);
    f.fillSym("f");
    T* old = (T*) malloc(sizeof(T) * nl * nm);
    for (int e = 0; e < nl * nm; ++e) old[e] = f.lin(e);
    const int lo_l = -(size / 2) + nl / 2, hi_l = size - size / 2 - nl + nl / 2, lo_m = -(size / 2) + nm / 2, hi_m = size - size / 2 - nm + nm / 2;
    const int ol = sym_choice("offset_l", lo_l, hi_l), om = sym_choice("offset_m", lo_m, hi_m), wo = CFG(wo, 3);
    if (op == 2 && fwd) sdp_gridder_direct_grid_correct(d, f.mem, ol, om, wo, &st);
    else if (op == 2) sdp_gridder_direct_degrid_correct(d, f.mem, ol, om, wo, &st);
    else if (fwd) sdp_gridder_wtower_uvw_grid_correct(w, f.mem, ol, om, wo, &st);
    else sdp_gridder_wtower_uvw_degrid_correct(w, f.mem, ol, om, wo, &st);
    sym_check(st == SDP_SUCCESS, "status");
    sdp_Pswf* p = sdp_pswf_create(0, sup * (PI / 2)), *pw = sdp_pswf_create(0, wsup * (PI / 2));
    sym_tol(1e-6); sym_atol(1e-6);
    for (int i = 0; i < nl; ++i) for (int j = 0; j < nm; ++j)
    {
        const int pl = i - nl / 2 + ol, pm = j - nm / 2 + om;
        const double n = n_of(pl * theta / size, pm * theta / size, hu, hv), nx = fabs(2 * ws * n);
        double t = (2 * pl == -size ? 1e-15 : sdp_pswf_evaluate(p, 2.0 * pl / size)) * (2 * pm == -size ? 1e-15 : sdp_pswf_evaluate(p, 2.0 * pm / size));
        if (wsup > 0 && nx < 1) t *= sdp_pswf_evaluate(pw, nx);
        const double ph = Re<T>::cpx ? 2 * PI * ws * wo * n : 0, c = cos(ph), s = fwd ? sin(ph) : -sin(ph);
        const double r = Re<T>::r(old[i * nm + j]), q = Re<T>::i(old[i * nm + j]);
        sym_near(Re<T>::r(f(i, j)) * t, r * c - q * s, "plan-correct");
        sym_near(Re<T>::i(f(i, j)) * t, r * s + q * c, "plan-correct");
    }
    sdp_pswf_free(p); sdp_pswf_free(pw);
    f.release(); free(old);
    if (d) sdp_gridder_direct_free(d);
    if (w) sdp_gridder_wtower_uvw_free(w);
}

extern "C" void harness(void)
{
    const int op = CFG(op, 0), t = CFG(type, 0);
    if (op < 2)
    {
        if (op == 1) { if (t == 0) direct<cd, double>(true); else direct<cf, float>(true); }
        else switch (t) { case 0: direct<cd, double>(false); break; case 1: direct<cf, float>(false); break; default: direct<double, double>(false); }
        return;
    }
    switch (t) { case 0: correct<cd>(op); break; case 1: correct<cf>(op); break; default: correct<double>(op); }
}
