// C31: the station beam is the weighted sum over elements of response times phasor, at the requested points only.
#include "common.h"
#include "ska-sdp-func/station_beam/sdp_station.h"
static void call(double k, sdp_Mem* w, sdp_Mem* x, sdp_Mem* y, sdp_Mem* z, int o, int n, sdp_Mem* px, sdp_Mem* py, sdp_Mem* pz, sdp_Mem* idx, sdp_Mem* eb, int oo, sdp_Mem* out, int norm, int ex, int ey, sdp_Error* st)
{
    sdp_station_beam_aperture_array(k, w, x, y, z, o, n, px, py, pz, idx, eb, oo, out, norm, ex, ey, st);
}
template<typename F> static void run()
{
    typedef std::complex<F> C;
    const int ne = CFG(ne, 3), np = CFG(np, 2), tot = CFG(tot, 4), off = CFG(off, 1), ooff = CFG(ooff, 1), otot = CFG(otot, 4), pol = CFG(pol, 0), data = CFG(data, 0), norm = CFG(norm, 0),
        ex = CFG(ex, 1), ey = CFG(ey, 1), flat = CFG(flat, 0), npol = pol ? 4 : 1, nresp = data == 2 ? 2 : ne;
    const double k = CFG(k, 0) ? 2.5 : 0.75;
    sym_threads(CFG(th, 2));
    sdp_Error st = SDP_SUCCESS;
    Arr<C> w(&st, 0, ne);
    Arr<F> x(&st, 0, ne), y(&st, 0, ne), z(&st, 0, ne), px(&st, 0, tot), py(&st, 0, tot), pz(&st, 0, tot);
    Arr<C>* outp = pol == 0 ? new Arr<C>(&st, 0, otot) : pol == 1 ? new Arr<C>(&st, 0, otot, 4) : new Arr<C>(&st, 0, otot, 2, 2);
    Arr<C>* ebp = pol == 0 ? new Arr<C>(&st, 0, nresp, np) : pol == 1 ? new Arr<C>(&st, 0, nresp, np, 4) : new Arr<C>(&st, 0, nresp, np, 2, 2);
    Arr<C>& out = *outp; Arr<C>& eb = *ebp;
    Arr<int> idx(&st, 0, ne);
    int* map = (int*) malloc(sizeof(int) * ne);
    for (int e = 0; e < ne; ++e) map[e] = idx.lin(e) = data == 2 ? sym_choice("index", 0, nresp - 1) : e;
    w.fillSym("w"); x.fillSym("x"); y.fillSym("y"); z.fillSym("z"); px.fillSym("px"); py.fillSym("py"); pz.fillSym("pz"); out.fillSym("out"); eb.fillSym("eb");
    C* o0 = (C*) malloc(sizeof(C) * out.n);
    for (int e = 0; e < out.n; ++e) o0[e] = out.lin(e);
    w.protect(); x.protect(); y.protect(); z.protect(); px.protect(); py.protect(); pz.protect(); eb.protect(); idx.protect();
    call(k, w.mem, x.mem, y.mem, z.mem, off, np, px.mem, py.mem, flat ? NULL : pz.mem, data == 2 ? idx.mem : NULL, data ? eb.mem : NULL, ooff, out.mem, norm, ex, ey, &st);
    sym_check(st == SDP_SUCCESS, "status");
    sym_tol(sizeof(F) == 4 ? 1e-4 : 1e-9); sym_atol(sizeof(F) == 4 ? 1e-4 : 1e-9);
    for (int e = 0; e < otot; ++e) for (int q = 0; q < npol; ++q)
    {
        const int i = e - ooff;
        if (i < 0 || i >= np || (pol && !(q < 2 ? ex : ey))) { near_c(out.lin(e * npol + q), o0[e * npol + q], "others-kept"); continue; }
        double re = 0, im = 0;
        for (int a = 0; a < ne; ++a)
        {
            const double ph = k * ((double) x.lin(a) * (double) px.lin(off + i) + (double) y.lin(a) * (double) py.lin(off + i) + (flat ? 0 : (double) z.lin(a) * (double) pz.lin(off + i)));
            const double c = cos(ph), s = sin(ph), wr = w.lin(a).real(), wi = w.lin(a).imag();
            double tr = wr * c - wi * s, ti = wr * s + wi * c;
            if (data)
            {
                const C g = eb.lin((map[a] * np + i) * npol + q);
                const double gr = g.real(), gi = g.imag(), t = tr * gr - ti * gi;
                ti = tr * gi + ti * gr; tr = t;
            }
            re += tr; im += ti;
        }
        if (norm) { re /= ne; im /= ne; }
        near_c(out.lin(e * npol + q), C((F) re, (F) im), "beam");
    }
    w.release(); x.release(); y.release(); z.release(); px.release(); py.release(); pz.release(); eb.release(); idx.release(); out.release();
    free(map); free(o0); delete outp; delete ebp;
}
// Arrays that do not fit are refused.
static void refuse()
{
    const int what = CFG(what, 0);
    sdp_Error st = SDP_SUCCESS;
    // weights, x, y, z, px, py, pz, index, element beam, output
    int64_t sh[10][3] = {{3, 1, 1}, {3, 1, 1}, {3, 1, 1}, {3, 1, 1}, {4, 1, 1}, {4, 1, 1}, {4, 1, 1}, {3, 1, 1}, {2, 3, 4}, {4, 4, 1}};
    int nd[10] = {1, 1, 1, 1, 1, 1, 1, 1, 3, 2}, o = 1, n = 3, oo = 1;
    const sdp_MemType C = SDP_MEM_COMPLEX_DOUBLE, D = SDP_MEM_DOUBLE;
    sdp_MemType t[10] = {C, D, D, D, D, D, D, SDP_MEM_INT, C, C};
    if (what >= 1 && what <= 10) sh[what - 1][0]--;
    if (what >= 11 && what <= 20) t[what - 11] = (t[what - 11] == C ? SDP_MEM_COMPLEX_FLOAT : SDP_MEM_FLOAT);
    if (what == 21) o = 2;
    if (what == 22) o = -1;
    if (what == 23) oo = 2;
    if (what == 24) oo = -1;
    if (what == 25) n = -1;
    if (what == 26) t[0] = D;
    if (what == 27) t[8] = D;
    if (what == 28) t[9] = D;
    if (what == 29) t[9] = C, sh[9][0] = 16, nd[9] = 1, sh[8][0] = sh[8][2] = 1; // scalar output, responses for one index only
    sdp_Mem* m[10];
    for (int i = 0; i < 10; ++i)
    {
        // Coordinate arrays that are not contiguous.
        if (what >= 30 && i == what - 30)
        {
            int64_t b[3], s = 2 * sdp_mem_type_size(t[i]);
            for (int d = nd[i] - 1; d >= 0; --d) { b[d] = s; s *= sh[i][d]; }
            m[i] = sdp_mem_create_wrapper(calloc(1, s), t[i], SDP_MEM_CPU, nd[i], sh[i], b, &st);
        }
        else { m[i] = sdp_mem_create(t[i], SDP_MEM_CPU, nd[i], sh[i], &st); sdp_mem_clear_contents(m[i], &st); }
    }
    // The last element uses response 1 of the two.
    if (t[7] == SDP_MEM_INT && sh[7][0] == 3) ((int*) sdp_mem_data(m[7]))[what == 37 ? 4 : 2] = 1;
    if (what == 40) ((int*) sdp_mem_data(m[7]))[1] = -1;
    if (what == 41) ((int*) sdp_mem_data(m[7]))[1] = 2;
    if (what == 42) sdp_mem_set_read_only(m[9], 1);
    sym_check(st == SDP_SUCCESS, "made");
    sym_protect(sdp_mem_data(m[9]), 8 * sdp_mem_num_elements(m[9]));
    call(2.5, m[0], m[1], m[2], m[3], o, n, m[4], m[5], m[6], what == 43 ? NULL : m[7], m[8], oo, m[9], 0, 1, 1, &st);
    sym_unprotect(sdp_mem_data(m[9]), 8 * sdp_mem_num_elements(m[9]));
    sym_check(st != SDP_SUCCESS, "refused");
    for (int i = 0; i < 10; ++i) { if (what >= 30 && i == what - 30) free(sdp_mem_data(m[i])); sdp_mem_free(m[i]); }
}
extern "C" void harness(void)
{
    if (CFG(op, 0) == 9) refuse();
    else if (CFG(type, 0)) run<float>();
    else run<double>();
}
