// C18: grid correction divides by the separable PSWF (and w-taper); w-correction rotates by the w-phase.
#include "common.h"
#include "ska-sdp-func/grid_data/sdp_gridder_grid_correct.h"
#include "ska-sdp-func/fourier_transforms/sdp_pswf.h"
#define PI 3.14159265358979323846
template<typename T> struct Re { static double r(T v) { return v; } static double i(T) { return 0; } };
template<> struct Re<cd> { static double r(cd v) { return v.real(); } static double i(cd v) { return v.imag(); } };
template<> struct Re<cf> { static double r(cf v) { return v.real(); } static double i(cf v) { return v.imag(); } };

static double n_of(double l, double m, double hu, double hv)
{
    const double b = hu * l + hv * m - 1, a = hu * hu + hv * hv + 1;
    return (sqrt(b * b - a * (l * l + m * m)) + b) / a;
}

template<typename T>
static void run()
{
    const int n = CFG(n, 6), nl = CFG(nl, 4), nm = CFG(nm, 3), op = CFG(op, 0);
    sdp_Error st = SDP_SUCCESS;
    Arr<T> f(&st, CFG(order, 0), nl, nm);
    f.fillSym("f");
    T* old = (T*) malloc(sizeof(T) * nl * nm);
    for (int e = 0; e < nl * nm; ++e) old[e] = f.lin(e);
    const double theta = CFG(theta, 20) / 100.0, hu = CFG(shear, 0) / 10.0, hv = -0.2 * hu;
    // Facet offsets that keep the facet inside the image.
    const int lo_l = -(n / 2) + nl / 2, hi_l = n - n / 2 - nl + nl / 2, lo_m = -(n / 2) + nm / 2, hi_m = n - n / 2 - nm + nm / 2;
    const int ol = sym_choice("offset_l", lo_l, hi_l), om = sym_choice("offset_m", lo_m, hi_m);
    if (op == 0)
    {
        const int support = CFG(support, 8), wsup = CFG(wsup, 4);
        const double ws = CFG(ws, 10) * 1.0;
        sdp_gridder_grid_correct_pswf(n, theta, ws, hu, hv, support, wsup, f.mem, ol, om, &st);
        sym_check(st == SDP_SUCCESS, "status");
        sdp_Pswf* p = sdp_pswf_create(0, support * (PI / 2)), *pw = sdp_pswf_create(0, wsup * (PI / 2));
        for (int i = 0; i < nl; ++i) for (int j = 0; j < nm; ++j)
        {
            const int pl = i - nl / 2 + ol, pm = j - nm / 2 + om;
            double a = sdp_pswf_evaluate(p, 2.0 * pl / n), b = sdp_pswf_evaluate(p, 2.0 * pm / n), w = 1;
            if (2 * pl == -n) a = 1e-15; // no usable value at the edge: end correction
            if (2 * pm == -n) b = 1e-15;
            if (wsup > 0)
            {
                const double nx = fabs(2 * ws * n_of(pl * theta / n, pm * theta / n, hu, hv));
                if (nx < 1) w = sdp_pswf_evaluate(pw, nx);
            }
            sym_tol(1e-6);
            sym_near(Re<T>::r(f(i, j)) * (a * b * w), Re<T>::r(old[i * nm + j]), "grid-correct-pswf");
            sym_near(Re<T>::i(f(i, j)) * (a * b * w), Re<T>::i(old[i * nm + j]), "grid-correct-pswf");
        }
        sdp_pswf_free(p); sdp_pswf_free(pw);
    }
    f.release(); free(old);
}

template<typename T>
static void wstack()
{
    const int n = CFG(n, 6), nl = CFG(nl, 3), nm = CFG(nm, 2);
    sdp_Error st = SDP_SUCCESS;
    Arr<T> f(&st, CFG(order, 0), nl, nm);
    f.fillSym("f");
    T* old = (T*) malloc(sizeof(T) * nl * nm);
    for (int e = 0; e < nl * nm; ++e) old[e] = f.lin(e);
    const double theta = CFG(theta, 20) / 100.0, hu = CFG(shear, 0) / 10.0, hv = -0.2 * hu;
    const int ol = sym_choice("offset_l", -1, 2), om = sym_choice("offset_m", -2, 1), wo = sym_choice("w_offset", -2, 3);
    const double ws = sym_double("w_step", 0.5, 20);
    const int inv = CFG(inv, 0);
    sdp_gridder_grid_correct_w_stack(n, theta, ws, hu, hv, f.mem, ol, om, wo, inv, &st);
    sym_check(st == SDP_SUCCESS, "status");
    sym_atol(1e-6);
    for (int i = 0; i < nl; ++i) for (int j = 0; j < nm; ++j)
    {
        const int pl = i - nl / 2 + ol, pm = j - nm / 2 + om;
        const double ph = 2 * PI * ws * wo * n_of(pl * theta / n, pm * theta / n, hu, hv);
        const double c = cos(ph), s = inv ? sin(ph) : -sin(ph), r = old[i * nm + j].real(), q = old[i * nm + j].imag();
        sym_near(f(i, j).real(), r * c - q * s, "w-correct");
        sym_near(f(i, j).imag(), r * s + q * c, "w-correct");
    }
    f.release(); free(old);
}

extern "C" void harness(void)
{
    const int t = CFG(type, 0);
    if (CFG(op, 0) == 1) { if (t == 0) wstack<cd>(); else wstack<cf>(); return; }
    switch (t) { case 0: run<cd>(); break; case 1: run<cf>(); break; case 2: run<double>(); break; default: run<float>(); }
}
