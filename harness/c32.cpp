// C32: element patterns are the response of each point's own direction, at the selected output elements only.
#include "common.h"
#include "ska-sdp-func/station_beam/sdp_element_dipole.h"
#include "ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.h"
#include <cmath>
#include "ska-sdp-func/math/sdp_legendre_polynomial.h"
#define PI 3.14159265358979323846
// Fields of a dipole along x.
static void field(double kl, double th, double ph, double& et, double& ep)
{
    const double u = cos(ph) * sin(th), d = 1 - u * u;
    if (d == 0) { et = ep = 0; return; }
    const double f = (cos(kl * u) - cos(kl)) / d;
    et = -f * cos(ph) * cos(th); ep = f * sin(ph);
}
template<typename F> static void dipole()
{
    typedef std::complex<F> C;
    const int np = CFG(np, 2), pol = CFG(pol, 0), stride = CFG(stride, pol ? 4 : 1), off = CFG(off, 0), npol = pol ? 4 : 1, rows = CFG(rows, 3), pick = CFG(pick, 0);
    const double f = CFG(f, 0) ? 299792458.0 * 2 : 299792458.0 / 4, len = CFG(len, 0) ? 0.75 : 0.5;
    sym_threads(2);
    sdp_Error st = SDP_SUCCESS;
    Arr<F> th(&st, 0, np), ph(&st, 0, np);
    Arr<C>* outp = pol == 0 ? new Arr<C>(&st, 0, rows) : pol == 1 ? new Arr<C>(&st, 0, rows, 4) : new Arr<C>(&st, 0, rows, 2, 2);
    Arr<C>& out = *outp;
    // Directions from the zenith to the horizon and below.
    for (int i = 0; i < np; ++i)
    {
        if (pick == 0) { th.lin(i) = sym<F>(Nm("theta", i), 0, 3); ph.lin(i) = sym<F>(Nm("phi", i), -4, 7); }
        else if (pick == 1) { th.lin(i) = F(0.25 + 0.5 * i); ph.lin(i) = sym<F>(Nm("phi", i), -4, 7); }
        else if (pick == 3) { th.lin(i) = F(0.25 + 0.5 * i); ph.lin(i) = F(-0.5 + 1.25 * i); }
        else { th.lin(i) = sym<F>(Nm("theta", i), 0, 3); ph.lin(i) = F(-0.5 + 1.25 * i); }
        sym_assume(1 - cos((double) ph.lin(i)) * cos((double) ph.lin(i)) * sin((double) th.lin(i)) * sin((double) th.lin(i)) > 0.01);
        sym_assume(1 - sin((double) ph.lin(i)) * sin((double) ph.lin(i)) * sin((double) th.lin(i)) * sin((double) th.lin(i)) > 0.01);
    }
    const double kl = (double) (F) (len * PI * f / 299792458.0);
    // A sum of squares is not negative.
    if (!pol) for (int i = 0; i < np; ++i)
    {
        double et, ep, yt, yp;
        field(kl, (double) th.lin(i), (double) ph.lin(i), et, ep); field(kl, (double) th.lin(i), (double) ph.lin(i) + PI / 2, yt, yp);
        sym_assume(et * et + ep * ep + yt * yt + yp * yp >= 0);
    }
    out.fillSym("out");
    C* o0 = (C*) malloc(sizeof(C) * out.n);
    for (int e = 0; e < out.n; ++e) o0[e] = out.lin(e);
    th.protect(); ph.protect();
    sdp_element_beam_dipole(np, th.mem, ph.mem, f, len, stride, off, out.mem, &st);
    sym_check(st == SDP_SUCCESS, "status");
    sym_tol(sizeof(F) == 4 ? 1e-4 : 1e-9); sym_atol(sizeof(F) == 4 ? 1e-3 : 1e-9);
    for (int e = 0; e < out.n; ++e)
    {
        bool hit = false;
        for (int i = 0; i < np; ++i)
        {
            double et, ep;
            if (pol && e == i * stride + off) { field(kl, (double) th.lin(i), (double) ph.lin(i), et, ep); near_c(out.lin(e), C((F) et, 0), "theta-component"); hit = true; }
            if (pol && e == i * stride + off + 1) { field(kl, (double) th.lin(i), (double) ph.lin(i), et, ep); near_c(out.lin(e), C((F) ep, 0), "phi-component"); hit = true; }
            if (!pol && e == i * stride + off)
            {
                // Not negative, and its square is half the power of both dipoles.
                double yt, yp;
                field(kl, (double) th.lin(i), (double) ph.lin(i), et, ep);
                field(kl, (double) th.lin(i), (double) ph.lin(i) + PI / 2, yt, yp);
                const double a = (double) out.lin(e).real();
                sym_check((double) out.lin(e).imag() == 0, "real");
                near_c(a * a, (et * et + ep * ep + yt * yt + yp * yp) / 2, "power");
                sym_check(a >= 0, "amplitude"); hit = true;
            }
        }
        if (!hit) near_c(out.lin(e), o0[e], "others-kept");
    }
    th.release(); ph.release(); out.release(); free(o0); delete outp;
}
// Directions for which the pattern is decided by hand.
static void axis()
{
    sdp_Error st = SDP_SUCCESS;
    Arr<double> th(&st, 0, 3), ph(&st, 0, 3);
    Arr<cd> out(&st, 0, 3, 4);
    th.lin(0) = 0; ph.lin(0) = 0; th.lin(1) = PI / 2; ph.lin(1) = 0; th.lin(2) = 0; ph.lin(2) = PI / 2;
    out.fill(cd(5, 5));
    const double f = 299792458.0, len = sym<double>("length", 0.25, 2);
    sdp_element_beam_dipole(3, th.mem, ph.mem, f, len, 4, 2, out.mem, &st);
    sym_check(st == SDP_SUCCESS, "status"); sym_atol(1e-9);
    near_c(out(0, 2), cd(cos(len * PI) - 1, 0), "zenith"); near_c(out(0, 3), cd(0, 0), "zenith");
    near_c(out(2, 2), cd(0, 0), "zenith"); near_c(out(2, 3), cd(1 - cos(len * PI), 0), "zenith");
    near_c(out(0, 0), cd(5, 5), "others-kept"); near_c(out(1, 1), cd(5, 5), "others-kept");
    th.release(); ph.release(); out.release();
}
// Associated Legendre functions with the Condon-Shortley phase: P / sin, and dP/dcos * sin.
static void legendre(int l, int m, double c, double s, double& p, double& q)
{
    const double s2 = s * s;
    switch (l * 10 + m)
    {
    case 10: p = 0; q = s; break; // m = 0 needs only the derivative
    case 11: p = -1; q = c; break;
    case 20: p = 0; q = 3 * c * s; break;
    case 21: p = -3 * c; q = -3 * (1 - 2 * c * c); break;
    case 22: p = 3 * s; q = -6 * c * s; break;
    case 30: p = 0; q = 0.5 * (15 * c * c - 3) * s; break;
    case 31: p = -1.5 * (5 * c * c - 1); q = -1.5 * (11 * c - 15 * c * c * c); break;
    case 32: p = 15 * c * s; q = 15 * s * (1 - 3 * c * c); break;
    case 33: p = -15 * s2; q = 45 * c * s2; break;
    }
}
template<typename F> static void wave()
{
    typedef std::complex<F> C;
    const int np = CFG(np, 1), lmax = CFG(l, 2), off = CFG(off, 1), rows = CFG(rows, 3), two = CFG(two, 0), ncf = 4 * ((lmax + 1) * (lmax + 1) - 1), fix = CFG(fix, 0);
    sym_threads(2);
    sdp_Error st = SDP_SUCCESS;
    Arr<F> th(&st, 0, np), px(&st, 0, np), py(&st, 0, np);
    Arr<C> al(&st, 0, ncf / 4, 4);
    Arr<C>* outp = two ? new Arr<C>(&st, 0, rows, 2, 2) : new Arr<C>(&st, 0, rows, 4);
    Arr<C>& out = *outp;
    for (int i = 0; i < np; ++i)
    {
        th.lin(i) = fix == 2 ? F(1e-7) : fix ? F(0.4 + 0.7 * i) : F(0.2 + 0.35 * sym_choice("theta", 0, 7));
        px.lin(i) = sym<F>(Nm("phi_x", i), -4, 7); py.lin(i) = sym<F>(Nm("phi_y", i), -4, 7);
    }
    al.fillSym("alpha"); out.fillSym("out");
    C* o0 = (C*) malloc(sizeof(C) * out.n);
    for (int e = 0; e < out.n; ++e) o0[e] = out.lin(e);
    th.protect(); px.protect(); py.protect(); al.protect();
    sdp_element_beam_spherical_wave_harp(np, th.mem, px.mem, py.mem, lmax, al.mem, off, out.mem, &st);
    sym_check(st == SDP_SUCCESS, "status");
    sym_tol(sizeof(F) == 4 ? 1e-4 : 1e-9); sym_atol(sizeof(F) == 4 ? 1e-3 : 1e-8);
    for (int e = 0; e < rows; ++e)
    {
        const int i = e - off;
        for (int q = 0; q < 4; ++q) if (i < 0 || i >= np) near_c(out.lin(4 * e + q), o0[4 * e + q], "others-kept");
        if (i < 0 || i >= np) continue;
        const double t = (double) th.lin(i) < 1e-5 ? 1e-5 : (double) th.lin(i), c = cos(t), s = sin(t);
        for (int xy = 0; xy < 2; ++xy)
        {
            const double ph = xy ? (double) py.lin(i) : (double) px.lin(i);
            double er[2] = {0, 0}, ei[2] = {0, 0}; // theta, phi
            for (int l = 1; l <= lmax; ++l) for (int m = -l; m <= l; ++m)
            {
                const int am = m < 0 ? -m : m;
                double fact = 1, p, q;
                for (int k = l - am + 1; k <= l + am; ++k) fact *= k;
                legendre(l, am, c, s, p, q);
                const double nf = sqrt((2 * l + 1) / (4 * PI * l * (l + 1)) / fact);
                // exp(i m phi) times the coefficients; electric and magnetic parts.
                const double cr = nf * cos(m * ph), ci = nf * sin(m * ph);
                const C te = al((l * l - 1) + l + m, 2 * xy), tm = al((l * l - 1) + l + m, 2 * xy + 1);
                const double qr = -cr * q, qi = -ci * q, dr = -ci * p * m, di = cr * p * m;
                const double ar = te.real(), ai = te.imag(), br = tm.real(), bi = tm.imag();
                er[0] += dr * br - di * bi + qr * ar - qi * ai; ei[0] += dr * bi + di * br + qr * ai + qi * ar;
                er[1] += qr * br - qi * bi - (dr * ar - di * ai); ei[1] += qr * bi + qi * br - (dr * ai + di * ar);
            }
            near_c(out.lin(4 * e + 2 * xy), C((F) er[1], (F) ei[1]), "phi-component");
            near_c(out.lin(4 * e + 2 * xy + 1), C((F) er[0], (F) ei[0]), "theta-component");
        }
    }
    th.release(); px.release(); py.release(); al.release(); out.release(); free(o0); delete outp;
}
// The Legendre functions as polynomials in cos and sin, which are free here.
static void functions()
{
    const int l = CFG(l, 2);
    const double c = sym<double>("c", -1, 1), s = sym<double>("s", 0.1, 1);
    // Legendre polynomial of degree l by its explicit sum, differentiated m times.
    double q[16];
    for (int k = 0; k < 16; ++k) q[k] = 0;
    for (int k = 0; 2 * k <= l; ++k)
    {
        double t = k % 2 ? -1 : 1;
        for (int j = 1; j <= 2 * l - 2 * k; ++j) t *= j;
        for (int j = 1; j <= k; ++j) t /= j;
        for (int j = 1; j <= l - k; ++j) t /= j;
        for (int j = 1; j <= l - 2 * k; ++j) t /= j;
        for (int j = 0; j < l; ++j) t /= 2;
        q[l - 2 * k] = t;
    }
    double sm = 1;
    for (int m = 0; m <= l; ++m)
    {
        double a, b, d, z[3], Q = 0, D = 0, cp = 1;
        for (int k = 0; k <= l; ++k) { Q += q[k] * cp; if (k < 15) D += (k + 1) * q[k + 1] * cp; cp *= c; }
        sdp_legendre2<double>(l, m, c, s, a, b, d);
        sym_tol(1e-8); sym_atol(1e-8);
        near_c(a, sm * Q, "legendre"); near_c(b, sm / s * Q, "legendre-over-sine"); near_c(d, sm / s * ((1 - c * c) * D - m * c * Q), "legendre-derivative");
        sdp_legendre2<double>(l, m, 1.0, 0.0, z[0], z[1], z[2]);
        near_c(z[0], m ? 0.0 : 1.0, "pole"); sym_check(z[1] == 0 && z[2] == 0, "pole");
        for (int k = 0; k < 15; ++k) q[k] = -(k + 1) * q[k + 1];
        sm *= s;
    }
}
// Arrays that do not fit are refused.
static void refuse()
{
    const int what = CFG(what, 0), harp = CFG(harp, 0);
    sdp_Error st = SDP_SUCCESS;
    // theta, phi (x), phi y, coefficients, output
    int64_t sh[5][3] = {{2, 1, 1}, {2, 1, 1}, {2, 1, 1}, {8, 4, 1}, {3, 4, 1}};
    int nd[5] = {1, 1, 1, 2, 2}, n = 2, off = harp ? 1 : 7, stride = 4, l = 2;
    const sdp_MemType C = SDP_MEM_COMPLEX_DOUBLE, D = SDP_MEM_DOUBLE;
    sdp_MemType t[5] = {D, D, D, C, C};
    if (what >= 0 && what < 5) sh[what][0]--;
    if (what >= 5 && what < 10) t[what - 5] = t[what - 5] == C ? SDP_MEM_COMPLEX_FLOAT : SDP_MEM_FLOAT;
    if (what == 10) off++;
    if (what == 11) off = -1;
    if (what == 12) n = -1;
    if (what == 13) n = 3;
    if (what == 14) stride = harp ? 4 : -1;
    if (what == 15) stride = 5;
    if (what == 16) l = 3;
    if (what == 17) l = -1;
    if (what == 18) t[4] = D;
    if (what == 19) { sh[4][1] = 3; if (!harp) off = 12; }
    sdp_Mem* m[5];
    for (int i = 0; i < 5; ++i)
    {
        if (what >= 20 && i == what - 20)
        {
            int64_t b[3], s = 2 * sdp_mem_type_size(t[i]);
            for (int d = nd[i] - 1; d >= 0; --d) { b[d] = s; s *= sh[i][d]; }
            m[i] = sdp_mem_create_wrapper(calloc(1, s), t[i], SDP_MEM_CPU, nd[i], sh[i], b, &st);
        }
        else { m[i] = sdp_mem_create(t[i], SDP_MEM_CPU, nd[i], sh[i], &st); sdp_mem_clear_contents(m[i], &st); }
    }
    if (what == 25) sdp_mem_set_read_only(m[4], 1);
    sym_check(st == SDP_SUCCESS, "made");
    sym_protect(sdp_mem_data(m[4]), 8 * sdp_mem_num_elements(m[4]));
    if (harp) sdp_element_beam_spherical_wave_harp(n, m[0], m[1], m[2], l, m[3], off, m[4], &st);
    else sdp_element_beam_dipole(n, m[0], m[1], 3e8, 0.5, stride, off, m[4], &st);
    sym_unprotect(sdp_mem_data(m[4]), 8 * sdp_mem_num_elements(m[4]));
    sym_check(st != SDP_SUCCESS, "refused");
    for (int i = 0; i < 5; ++i) { if (what >= 20 && i == what - 20) free(sdp_mem_data(m[i])); sdp_mem_free(m[i]); }
}
extern "C" void harness(void)
{
    switch (CFG(op, 0) * 10 + CFG(type, 0))
    {
    case 0: dipole<double>(); break;
    case 1: dipole<float>(); break;
    case 10: wave<double>(); break;
    case 11: wave<float>(); break;
    case 20: axis(); break;
    case 30: functions(); break;
    default: refuse();
    }
}
