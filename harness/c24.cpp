// C24: FFT plans compute the unnormalised DFT over the last axes of each batch element.
#include "common.h"
#include "ska-sdp-func/fourier_transforms/sdp_fft.h"
#define PI 3.14159265358979323846
static cd tw(int64_t k, int64_t n, int sign)
{
    k %= n;
    if (k < 0) k += n;
    double c = cos(2 * PI * (double) k / (double) n), s = sin(2 * PI * (double) k / (double) n);
    if (4 * k % n == 0) { const int q = (int) (4 * k / n); c = q == 0 ? 1 : q == 2 ? -1 : 0; s = q == 1 ? 1 : q == 3 ? -1 : 0; }
    return cd(c, sign * s);
}
template<typename C> static sdp_Mem* mem(C* p, int nd, const int64_t* sh, sdp_Error* st)
{
    return sdp_mem_create_wrapper(p, (sdp_MemType) SymT<C>::type, SDP_MEM_CPU, nd, sh, 0, st);
}
// DFT of element k of one batch, over nf axes of sizes n0, n1, n2 (1 for absent ones).
template<typename C> static cd dft(const C* x, const int64_t* n, const int64_t* k, int sign, int centred)
{
    double re = 0, im = 0;
    for (int64_t a = 0; a < n[0]; ++a) for (int64_t b = 0; b < n[1]; ++b) for (int64_t c = 0; c < n[2]; ++c)
    {
        const int64_t h0 = centred ? n[0] / 2 : 0, h1 = centred ? n[1] / 2 : 0, h2 = centred ? n[2] / 2 : 0;
        const cd t0 = tw((a - h0) * (k[0] - h0), n[0], sign), t1 = tw((b - h1) * (k[1] - h1), n[1], sign), t2 = tw((c - h2) * (k[2] - h2), n[2], sign);
        const double r1 = t0.real() * t1.real() - t0.imag() * t1.imag(), i1 = t0.real() * t1.imag() + t0.imag() * t1.real();
        const double r = r1 * t2.real() - i1 * t2.imag(), i = r1 * t2.imag() + i1 * t2.real();
        const C v = x[(a * n[1] + b) * n[2] + c];
        re += v.real() * r - v.imag() * i; im += v.real() * i + v.imag() * r;
    }
    return cd(re, im);
}
template<typename C> static void run()
{
    const int nd = CFG(nd, 1), nf = CFG(nf, 1), fwd = CFG(fwd, 1), inplace = CFG(inplace, 0), op = CFG(op, 0), other = CFG(other, 0);
    const int64_t sh[3] = {CFG(s0, 4), CFG(s1, 3), CFG(s2, 2)};
    int64_t total = 1, per = 1, n[3] = {1, 1, 1};
    for (int i = 0; i < nd; ++i) total *= sh[i];
    for (int i = 0; i < nf; ++i) { n[3 - nf + i] = sh[nd - nf + i]; per *= sh[nd - nf + i]; }
    sdp_Error st = SDP_SUCCESS;
    C* x = (C*) malloc(sizeof(C) * total), * y = (C*) malloc(sizeof(C) * total), * keep = (C*) malloc(sizeof(C) * total);
    for (int e = 0; e < total; ++e) { keep[e] = x[e] = sym<C>(Nm("x", e)); y[e] = C(-7, 9); }
    sym_leak_begin();
    sdp_Mem* in = mem(x, nd, sh, &st), * out = inplace ? sdp_mem_ref_inc(in) : mem(y, nd, sh, &st);
    sdp_Fft* plan = 0;
    if (other)
    {
        // The plan is made with other arrays of the same form, which are gone when it is used.
        sdp_Mem* a = sdp_mem_create((sdp_MemType) SymT<C>::type, SDP_MEM_CPU, nd, sh, &st);
        sdp_Mem* b = sdp_mem_create((sdp_MemType) SymT<C>::type, SDP_MEM_CPU, nd, sh, &st);
        plan = sdp_fft_create(a, b, nf, fwd, &st);
        sdp_mem_free(a); sdp_mem_free(b);
    }
    else plan = sdp_fft_create(in, out, nf, fwd, &st);
    sym_check(st == SDP_SUCCESS && plan != 0, "plan");
    for (int e = 0; e < total; ++e) sym_check(x[e] == keep[e], "plan-leaves-data");
    const int sign = fwd ? -1 : 1;
    if (op == 0)
    {
        if (!inplace) sym_protect(x, sizeof(C) * total);
        sdp_fft_exec(plan, in, out, &st);
        if (!inplace) sym_unprotect(x, sizeof(C) * total);
    }
    else sdp_fft_exec_shift(plan, in, op == 2, &st);
    sym_check(st == SDP_SUCCESS, "status");
    const C* r = inplace ? x : y;
    sym_tol(1e-6);
    for (int64_t e = 0; e < total; ++e)
    {
        const int64_t b = e / per, q = e % per, k[3] = {q / (n[1] * n[2]), q / n[2] % n[1], q % n[2]};
        cd want = dft(keep + b * per, n, k, sign, op != 0);
        if (op == 2) want = cd(want.real() / (double) (per), want.imag() / (double) per);
        near_c(cd(r[e].real(), r[e].imag()), want, "fft");
    }
    if (op == 0)
    {
        // The opposite plan brings the data back after normalisation.
        sdp_Fft* back = sdp_fft_create(out, out, nf, !fwd, &st);
        sdp_fft_exec(back, out, out, &st);
        if (nd == 2 && nf == 2) { sdp_fft_norm(out, &st); per = 1; }
        sym_check(st == SDP_SUCCESS, "status-back");
        for (int64_t e = 0; e < total; ++e) near_c(cd(r[e].real() / per, r[e].imag() / per), cd(keep[e].real(), keep[e].imag()), "fft-inverse");
        sdp_fft_free(back);
    }
    sdp_fft_free(plan);
    sdp_mem_free(in); sdp_mem_free(out);
    sym_leak_check();
    free(x); free(y); free(keep);
}
// Plans refuse arrays other than they were made for, and plans are not made for unsuitable arrays.
static void refuse()
{
    const int what = CFG(what, 0);
    sdp_Error st = SDP_SUCCESS;
    cd x[24], y[24]; cf z[24];
    for (int e = 0; e < 24; ++e) { x[e] = sym<cd>(Nm("x", e)); y[e] = cd(3, e); z[e] = cf(1, 2); }
    const int64_t sh[2] = {4, 3}, sq[2] = {3, 4}, big[2] = {4, 4}, three[3] = {2, 2, 3}, str[2] = {16, 64};
    sym_leak_begin();
    sdp_Mem* a = mem(x, 2, sh, &st), * b = mem(y, 2, sh, &st), * bad = 0, * goodin = a, * badin = a;
    int nf = 2, create = 1;
    switch (what)
    {
    case 0: bad = mem(y, 2, sq, &st); break;
    case 1: bad = mem(y, 2, big, &st); break;
    case 2: bad = mem(y, 3, three, &st); break;
    case 3: bad = mem(z, 2, sh, &st); create = 0; break;
    case 4: bad = mem(y, 2, sh, &st); sdp_mem_set_read_only(bad, 1); break;
    case 5: bad = sdp_mem_create_wrapper(y, SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_CPU, 2, sh, str, &st); break;
    case 6: bad = sdp_mem_create_wrapper(y, SDP_MEM_DOUBLE, SDP_MEM_CPU, 2, sh, 0, &st); break;
    case 7: bad = sdp_mem_create_wrapper(y, SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_GPU, 2, sh, 0, &st); break;
    case 8: bad = mem(y, 2, sh, &st); nf = 3; break;
    case 9: bad = mem(y, 2, sh, &st); nf = 0; break;
    case 10: bad = mem(y, 2, big, &st); badin = mem(x, 2, big, &st); create = 0; break;
    case 11: bad = mem(y, 2, sq, &st); badin = mem(x, 2, sq, &st); create = 0; break;
    case 12: bad = mem(z, 2, sh, &st); badin = mem(z + 12, 2, sh, &st); create = 0; break;
    default: bad = mem(y, 3, three, &st); badin = mem(x, 3, three, &st); create = 0; break;
    }
    sym_check(st == SDP_SUCCESS, "setup");
    sym_protect(x, sizeof x); sym_protect(y, sizeof y); sym_protect(z, sizeof z);
    if (create)
    {
        sdp_Error s2 = SDP_SUCCESS;
        sdp_Fft* p = sdp_fft_create(badin, bad, nf, 1, &s2);
        sym_check(s2 != SDP_SUCCESS, "unsuitable-plan-refused");
        sdp_fft_free(p);
    }
    if (nf == 2)
    {
        sdp_Fft* p = sdp_fft_create(goodin, b, 2, 1, &st);
        sym_check(st == SDP_SUCCESS, "plan");
        sdp_fft_exec(p, badin, bad, &st);
        sym_check(st != SDP_SUCCESS, "mismatch-refused");
        sdp_fft_free(p);
    }
    sdp_fft_free(0);
    if (badin != a) sdp_mem_free(badin);
    sdp_mem_free(a); sdp_mem_free(b); sdp_mem_free(bad);
    sym_leak_check();
    sym_unprotect(x, sizeof x); sym_unprotect(y, sizeof y); sym_unprotect(z, sizeof z);
}
extern "C" void harness(void)
{
    if (CFG(op, 0) == 9) refuse();
    else if (CFG(type, 0)) run<cf>();
    else run<cd>();
}
