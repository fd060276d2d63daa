// C26: prolate spheroidal wave functions: coefficients solve the spheroidal equation, evaluation sums them, generated tables sample it.
#include "common.h"
#include "ska-sdp-func/fourier_transforms/sdp_pswf.h"
#define PI 3.14159265358979323846
template<typename T> struct Re { static double r(T v) { return v; } static double i(T) { return 0; } };
template<> struct Re<cd> { static double r(cd v) { return v.real(); } static double i(cd v) { return v.imag(); } };
template<> struct Re<cf> { static double r(cf v) { return v.real(); } static double i(cf v) { return v.imag(); } };

// Coefficients: residual of the spheroidal differential equation over all x.
static void ode(double c)
{
    sdp_Pswf* p = sdp_pswf_create(0, c);
    sdp_Error st = SDP_SUCCESS;
    const double* a = (const double*) sdp_mem_data_const(sdp_pswf_coeff(p, SDP_MEM_CPU, &st));
    sym_check(st == SDP_SUCCESS && sdp_pswf_par_c(p) == c && sdp_pswf_par_m(p) == 0, "parameters");
    const int K = (int) (c + 20) / 2 + 12;
    // With y = 1 - x^2: 4y(1-y) S'' + (4 - 6y) S' + (lambda - c^2 + c^2 y) S = 0.
    // The eigenvalue, from the equation for the largest coefficient.
    int b = 1;
    for (int k = 1; k + 1 < K; ++k) if (fabs(a[k]) > fabs(a[b])) b = k;
    const double lam = c * c + 4.0 * b * (b - 1) + 6.0 * b - (4.0 * (b + 1) * (b + 1) * a[b + 1] + c * c * a[b - 1]) / a[b];
    const double y = sym_double("y", 0, 1);
    double res = 0, yk = 1, s = 0, sp = 0;
    for (int k = 0; k < K; ++k)
    {
        double co = (lam - c * c - 4.0 * k * (k - 1) - 6.0 * k) * a[k];
        if (k + 1 < K) co += 4.0 * (k + 1) * (k + 1) * a[k + 1];
        if (k > 0) co += c * c * a[k - 1];
        res += co * yk; s += a[k] * yk; yk *= y;
        sp += a[k];
    }
    sym_atol(1e-9 * (1 + c * c)); sym_tol(1e-9);
    sym_near(res, 0.0, "spheroidal-equation");
    sym_near(sp, 1.0, "normalised-at-zero"); // y = 1
    sym_check(s > 0, "lowest-mode-has-no-zero");
    sdp_pswf_free(p);
}

static void evaluate(int m, double c)
{
    sdp_Pswf* p = sdp_pswf_create(m, c);
    sdp_Error st = SDP_SUCCESS;
    const double* a = (const double*) sdp_mem_data_const(sdp_pswf_coeff(p, SDP_MEM_CPU, &st));
    const int far = sym_choice("range", 0, 2);
    const double x = far == 0 ? sym_double("x", -1, 1) : far == 1 ? sym_double("x", 1, 50) : sym_double("x", -50, -1);
    if (!far) sym_assume(x > -1 && x < 1);
    const double v = sdp_pswf_evaluate(p, x);
    if (far) sym_check(v == 0, "zero-outside");
    else
    {
        const double y = 1 - x * x;
        double s = 0, yk = 1;
        const int K = (int) (c + 40) / 2 + 4;
        for (int k = 0; k < K; ++k, yk *= y) s += a[k] * yk;
        for (int k = 0; k < m / 2; ++k) s *= y;
        sym_atol(1e-12); sym_tol(1e-12);
        sym_near(v, s, "evaluate-sums-series");
    }
    sdp_pswf_free(p);
}

template<typename T>
static void generate()
{
    const int m = CFG(m, 0), mode = sym_choice("mode", 0, 2);
    const double c = CFG(c2, 8) * (PI / 2);
    const int n = sym_choice("size", 1, CFG(nmax, 9)), end = mode == 2 ? 0 : sym_choice("end", 0, 1);
    sdp_Error st = SDP_SUCCESS;
    sdp_Pswf* p = sdp_pswf_create(m, c);
    Arr<T> o(&st, CFG(order, 0), n);
    o.fill(T(7));
    if (mode == 0) sdp_pswf_generate(p, o.mem, 0, end, &st);
    else if (mode == 1) sdp_pswf_generate(p, 0, n, end, &st);
    else sdp_generate_pswf(m, c, o.mem, &st);
    sym_check(st == SDP_SUCCESS, "status");
    const double* cached = mode == 1 ? (const double*) sdp_mem_data_const(sdp_pswf_values(p, SDP_MEM_CPU, &st)) : 0;
    if (mode == 1) sym_check(sdp_mem_shape_dim(sdp_pswf_values(p, SDP_MEM_CPU, &st), 0) == n, "cached-size");
    sym_tol(1e-7); sym_atol(1e-12);
    for (int i = 0; i < n; ++i)
    {
        double e = sdp_pswf_evaluate(p, 2.0 * (i - n / 2) / n);
        if (end && n % 2 == 0 && i == 0) e = 1e-15;
        const double v = cached ? cached[i] : Re<T>::r(o(i));
        if (e < 1e-10) sym_check(v - e < 1e-18 && e - v < 1e-18, "edge-value"); else sym_near(v, e, "generated-value");
        if (!cached) sym_check(Re<T>::i(o(i)) == 0, "real");
    }
    // Regenerating with another size replaces the table.
    if (mode == 1)
    {
        sdp_pswf_generate(p, 0, n + 1, 0, &st);
        sym_check(st == SDP_SUCCESS && sdp_mem_shape_dim(sdp_pswf_values(p, SDP_MEM_CPU, &st), 0) == n + 1, "regenerated");
    }
    sdp_pswf_generate(p, o.mem, n, 0, &st); // both given: refused
    sym_check(st == SDP_ERR_INVALID_ARGUMENT, "refuse-both");
    sdp_pswf_free(p);
    o.release();
}

extern "C" void harness(void)
{
    const int t = CFG(type, 0), op = CFG(op, 0);
    if (op == 0) { ode(CFG(c2, 8) * (PI / 2)); return; }
    if (op == 1) { evaluate(CFG(m, 0), CFG(c2, 8) * (PI / 2)); return; }
    switch (t) { case 0: generate<cd>(); break; case 1: generate<cf>(); break; case 2: generate<double>(); break; default: generate<float>(); }
}
