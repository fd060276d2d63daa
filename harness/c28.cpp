// C28: FFT convolution equals the direct linear convolution, cropped to the centre of the first input.
#include "common.h"
#include "ska-sdp-func/numeric_functions/sdp_fft_convolution.h"
template<typename C> static sdp_Mem* mem(C* p, int nd, const int64_t* sh, sdp_Error* st)
{
    return sdp_mem_create_wrapper(p, (sdp_MemType) SymT<C>::type, SDP_MEM_CPU, nd, sh, 0, st);
}
template<typename C> static void run()
{
    const int64_t n1 = CFG(n1, 3), n2 = CFG(n2, 2);
    const int64_t s1[2] = {n1, n1}, s2[2] = {n2, n2};
    sdp_Error st = SDP_SUCCESS;
    C* a = (C*) malloc(sizeof(C) * n1 * n1), * b = (C*) malloc(sizeof(C) * n2 * n2), * o = (C*) malloc(sizeof(C) * n1 * n1);
    for (int e = 0; e < n1 * n1; ++e) { a[e] = sym<C>(Nm("a", e)); o[e] = sym<C>(Nm("o", e)); }
    for (int e = 0; e < n2 * n2; ++e) b[e] = sym<C>(Nm("b", e));
    sdp_Mem* ma = mem(a, 2, s1, &st), * mb = mem(b, 2, s2, &st), * mo = mem(o, 2, s1, &st);
    sym_protect(a, sizeof(C) * n1 * n1); sym_protect(b, sizeof(C) * n2 * n2);
    sym_leak_begin();
    sdp_fft_convolution(ma, mb, mo, &st);
    sym_leak_check();
    sym_check(st == SDP_SUCCESS, "status");
    sym_tol(1e-6);
    const int64_t h = (n2 - 1) / 2;
    for (int64_t i = 0; i < n1; ++i) for (int64_t j = 0; j < n1; ++j)
    {
        double re = 0, im = 0;
        for (int64_t p = 0; p < n1; ++p) for (int64_t q = 0; q < n1; ++q)
        {
            const int64_t r = i + h - p, s = j + h - q;
            if (r < 0 || s < 0 || r >= n2 || s >= n2) continue;
            const C x = a[p * n1 + q], y = b[r * n2 + s];
            re += (double) x.real() * y.real() - (double) x.imag() * y.imag();
            im += (double) x.real() * y.imag() + (double) x.imag() * y.real();
        }
        near_c(cd(o[i * n1 + j].real(), o[i * n1 + j].imag()), cd(re, im), "convolution");
    }
    sym_unprotect(a, sizeof(C) * n1 * n1); sym_unprotect(b, sizeof(C) * n2 * n2);
    sdp_mem_free(ma); sdp_mem_free(mb); sdp_mem_free(mo); free(a); free(b); free(o);
}
// Arrays that do not match are refused and the output is left alone.
static void bad()
{
    const int what = CFG(what, 0);
    sdp_Error st = SDP_SUCCESS;
    int64_t sh[3][3] = {{3, 3, 1}, {2, 2, 1}, {3, 3, 1}}; int nd[3] = {2, 2, 2};
    int ty[3] = {SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_COMPLEX_DOUBLE};
    if (what == 1) sh[0][1] = 2;
    if (what == 2) sh[1][1] = 1;
    if (what == 3) sh[2][0] = 2;
    if (what == 4) { sh[2][0] = 2; sh[2][1] = 2; }
    if (what == 5) sh[2][1] = 4;
    if (what == 6) ty[1] = SDP_MEM_COMPLEX_FLOAT;
    if (what == 7) ty[2] = SDP_MEM_COMPLEX_FLOAT;
    if (what == 8) ty[0] = ty[1] = ty[2] = SDP_MEM_DOUBLE;
    if (what == 9) nd[0] = nd[2] = 1;
    if (what == 10) nd[1] = 3;
    if (what == 11) ty[1] = SDP_MEM_DOUBLE;
    if (what == 12) nd[2] = 3;
    sdp_Mem* m[3];
    for (int i = 0; i < 3; ++i) { m[i] = sdp_mem_create((sdp_MemType) ty[i], SDP_MEM_CPU, nd[i], sh[i], &st); }
    cd keep[32] = {}; const size_t bytes = sdp_mem_num_elements(m[2]) * sdp_mem_type_size((sdp_MemType) ty[2]);
    memset(sdp_mem_data(m[2]), 0, bytes); (void) keep;
    const int ro = what == 0 ? 2 : -1;
    if (ro >= 0) sdp_mem_set_read_only(m[ro], 1);
    sym_protect(sdp_mem_data(m[2]), bytes);
    sym_leak_begin();
    sdp_fft_convolution(m[0], m[1], m[2], &st);
    sym_leak_check();
    sym_unprotect(sdp_mem_data(m[2]), bytes);
    sym_check(st != SDP_SUCCESS, "refused");
    for (int i = 0; i < 3; ++i) sdp_mem_free(m[i]);
}
extern "C" void harness(void)
{
    if (CFG(op, 0) == 9) bad();
    else if (CFG(type, 0)) run<cf>(); else run<cd>();

}
