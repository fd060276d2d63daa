// C21: kernels, w-patterns and w-steps obey their formulae.
#include "common.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
#include "ska-sdp-func/fourier_transforms/sdp_pswf.h"
#define PI 3.14159265358979323846

static double n_of(double l, double m, double hu, double hv)
{
    const double b = hu * l + hv * m - 1, a = hu * hu + hv * hv + 1;
    return (sqrt(b * b - a * (l * l + m * m)) + b) / a;
}

template<typename T> static void kernel()
{
    const int s = CFG(s, 4), ov = CFG(ov, 3), pswf = CFG(pswf, 0);
    sdp_Error st = SDP_SUCCESS;
    Arr<T> w(&st, CFG(order, 0), s), k(&st, CFG(order2, 0), ov + 1, s);
    k.fill((T) 77);
    sym_tol(sizeof(T) == 4 ? 1e-4 : 1e-9);
    sym_atol(sizeof(T) == 4 ? 1e-4 : 1e-9);
    if (!pswf)
    {
        w.fillSym("w"); w.protect();
        sdp_gridder_make_kernel(w.mem, k.mem, &st);
    }
    else
    {
        const int sup = CFG(sup, 4);
        sdp_Pswf* p = sdp_pswf_create(0, sup * (PI / 2));
        for (int i = 0; i < s; ++i)
        {
            const int q = i - s / 2;
            w(i) = (T) (2 * q == -s ? 1e-15 : sdp_pswf_evaluate(p, 2.0 * q / s));
        }
        sdp_pswf_free(p);
        sdp_gridder_make_pswf_kernel(sup, k.mem, &st);
    }
    sym_check(st == SDP_SUCCESS, "status");
    for (int r = 0; r <= ov; ++r)
        for (int x = 0; x < s; ++x)
        {
            const double u = (x - s / 2) + (double) (ov - r) / ov;
            double v = 0;
            for (int q = 0; q < s; ++q) v += w(q) * cos(2 * PI * u * (q - s / 2) / s);
            sym_near(k(r, x), v / s, "oversampled-kernel");
        }
    k.release(); w.release();
}

static void pattern()
{
    const int n = CFG(n, 4), dn0 = CFG(dn0, 0), dn1 = CFG(dn1, 0);
    sdp_Error st = SDP_SUCCESS;
    Arr<cd> p(&st, CFG(order, 0), n + dn0, n + dn1);
    p.fill(cd(7, 8));
    const double theta = CFG(theta, 20) / 100.0, hu = CFG(shear, 0) / 10.0, hv = -0.3 * hu;
    const double ws = sym_double("w_step", -30, 30);
    sdp_gridder_make_w_pattern(n, theta, hu, hv, ws, p.mem, &st);
    if (dn0 || dn1)
    {
        // A pattern of the wrong shape: refused or confined to the array.
        if (st != SDP_SUCCESS) for (int e = 0; e < (n + dn0) * (n + dn1); ++e) sym_check(p.lin(e) == cd(7, 8), "refused-untouched");
        p.release();
        return;
    }
    sym_check(st == SDP_SUCCESS, "status");
    sym_atol(1e-7);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
    {
        const double ph = 2 * PI * ws * n_of((i - n / 2) * theta / n, (j - n / 2) * theta / n, hu, hv);
        sym_near(p(i, j).real(), cos(ph), "w-pattern");
        sym_near(p(i, j).imag(), sin(ph), "w-pattern");
    }
    p.release();
}

static void wstep()
{
    const double theta = sym_double("theta", 0.05, 0.5);
    const double fov = CFG(fov, 15) / 100.0, hu = CFG(hu, 0) / 10.0, hv = CFG(hv, 0) / 10.0;
    const double x0 = CFG(x0, 0) ? sym_double("x0", 0.1, 0.9) : 0;
    const double r = sdp_gridder_determine_w_step(theta, fov, hu, hv, x0);
    double mn = 0;
    for (int a = -1; a <= 1; a += 2) for (int b = -1; b <= 1; b += 2)
    {
        const double v = n_of(a * fov / 2, b * fov / 2, hu, hv);
        if (v < mn) mn = v;
    }
    // 1 / theta_n, where theta_n * x0 is the full range of n at the farthest corner.
    sym_tol(1e-9);
    if (x0 == 0) sym_near(r * (-2 * mn) * theta, fov, "w-step"); else sym_near(r * (-2 * mn), x0, "w-step");
}

// Symbolic shear along one axis.
static void wstep_sym()
{
    const double fov = 0.25, hu = sym_double("hu", 0.02, 0.3), h = fov / 2;
    const double r = sdp_gridder_determine_w_step(0.5, fov, hu, 0.0, 0.25);
    // Farthest corner: l has the sign of hu.
    sym_tol(1e-9);
    double n1 = n_of(h, h, hu, 0), n2 = n_of(-h, h, hu, 0);
    sym_near(r * (-2 * (n1 < n2 ? n1 : n2)), 0.25, "w-step");
}

extern "C" void harness(void)
{
    const int op = CFG(op, 0);
    if (op == 0) { if (CFG(type, 0) == 0) kernel<double>(); else kernel<float>(); }
    else if (op == 1) pattern();
    else if (op == 2) wstep();
    else wstep_sym();
}
