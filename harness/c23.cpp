// C23: custom-kernel degridding gathers each visibility from its own cells.
#include "common.h"
#include "ska-sdp-func/grid_data/sdp_degrid_uvw_custom.h"
static int64_t fdiv(int64_t a, int64_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
static void run()
{
    const int nt = CFG(nt, 1), nb = CFG(nb, 1), nc = CFG(nc, 1), np = CFG(np, 1), N = CFG(n, 6), M = CFG(m, N), Z = CFG(z, 2), K = CFG(k, 2), KW = CFG(kw, 2), O = CFG(o, 3), OW = CFG(ow, 2), conj = CFG(conj, 0), wide = CFG(wide, 0);
    sdp_Error st = SDP_SUCCESS;
    Arr<cd> g(&st, 0, nc * Z, M, N, np), vis(&st, 0, nt, nb, nc, np);
    const int64_t gs[5] = {nc, Z, M, N, np};
    sdp_mem_ref_dec(g.mem);
    g.mem = sdp_mem_create_wrapper(g.data, SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_CPU, 5, gs, 0, &st);
    Arr<double> uvw(&st, 0, nt, nb, 3), ku(&st, 0, O, K), kw(&st, 0, OW, KW);
    uvw.fillSym("uvw", -100, 100); g.fillSym("g"); ku.fillSym("ku"); kw.fillSym("kw"); vis.fillSym("vis");
    cd* old = (cd*) malloc(sizeof(cd) * vis.n);
    for (int e = 0; e < vis.n; ++e) old[e] = vis.lin(e);
    // Exactly representable scaling.
    const double theta = 0.5, wstep = 4, f0 = 299792458.0, df = CFG(down, 0) ? -149896229.0 : 299792458.0;
    const int nv = nt * nb * nc;
    int64_t I[8][3];
    for (int v = 0; v < nv; ++v) for (int d = 0; d < 3; ++d)
    {
        // Nearest step of the oversampled kernel.
        const int os = d < 2 ? O : OW;
        const double s = (f0 + (v % nc) * df) / 299792458.0, x = uvw.lin(v / nc * 3 + d) * s * (d < 2 ? theta : 1.0 / wstep) * os;
        int64_t i;
        if (v > 0) { const int c = d ? sym_concrete(I[v][0] == I[0][0]) : sym_choice(Nm("place", v, d), 0, 1); i = d < 2 ? (c ? I[0][d] : -O / 2) : (c ? I[0][d] : 1); }
        else if (d == 2) i = wide == 2 ? sym_choice("iz", -4 * OW - 1, 3 * OW) : sym_choice("iz", 0, wide ? 0 : OW - 1);
        else if (d == 1 && wide == 0) i = sym_choice("iy", 1 - O, O > 2 ? 0 : 1);
        else if (d == 1 && wide == 2) i = 1;
        else if (d == 0 && wide == 2) i = sym_choice("ix", 0, 1);
        else i = sym_choice(d ? "iy" : "ix", -(N / 2 + 1) * O - 1, (N / 2 + 1) * O + 1);
        I[v][d] = i;
        sym_assume(x > i - 0.499999); sym_assume(x < i + 0.499999);
    }
    uvw.protect(); g.protect(); ku.protect(); kw.protect();
    sdp_degrid_uvw_custom(g.mem, uvw.mem, ku.mem, kw.mem, theta, wstep, f0, df, conj, vis.mem, &st);
    sym_check(st == SDP_SUCCESS, "status");
    for (int v = 0; v < nv; ++v)
    {
        int64_t home[3], fr[3];
        for (int d = 0; d < 3; ++d)
        {
            // The home cell is the first one not below the position; the kernel row counts back from it.
            const int os = d < 2 ? O : OW;
            home[d] = -fdiv(-I[v][d], os);
            fr[d] = home[d] * os - I[v][d];
            home[d] += d < 2 ? N / 2 : 0;
        }
        const int h = K / 2;
        const bool in = home[0] > h && home[0] < N - h && home[1] > h && home[1] < M - h;
        for (int p = 0; p < np; ++p)
        {
            const cd o = vis.lin(v * np + p);
            if (!in) { near_c(o, old[v * np + p], "outside-left-alone"); continue; }
            double re = 0, im = 0;
            for (int z = 0; z < KW; ++z) for (int y = 0; y < K; ++y) for (int x = 0; x < K; ++x)
            {
                const cd q = g.lin((((((v % nc) * Z + z) * M) + home[1] - h + y) * N + home[0] - h + x) * np + p);
                const double k = kw(fr[2], z) * ku(fr[1], y) * ku(fr[0], x);
                re += k * q.real(); im += k * q.imag();
            }
            near_c(o, cd(re, conj ? -im : im), "visibility");
        }
    }
    uvw.release(); g.release(); ku.release(); kw.release(); vis.release(); free(old);
}
// Arrays that do not fit are refused before anything is read or written.
static void refuse()
{
    const int what = CFG(what, 0);
    sdp_Error st = SDP_SUCCESS;
    int64_t gs[5] = {1, 2, 6, 6, 1}, us[3] = {1, 1, 3}, ks[2] = {2, 2}, ws[2] = {2, 2}, vs[4] = {1, 1, 1, 1};
    sdp_MemType t[5] = {SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_DOUBLE, SDP_MEM_DOUBLE, SDP_MEM_DOUBLE, SDP_MEM_COMPLEX_DOUBLE};
    int kd = 2, wd = 2, gd = 5;
    if (what == 1) ws[1] = 3;
    if (what == 2) gs[0] = 2;
    if (what == 3) gs[4] = 2;
    if (what == 4) us[2] = 2;
    if (what == 5) us[1] = 2;
    if (what == 6) kd = 1;
    if (what == 7) wd = 1;
    if (what == 8) gd = 4;
    if (what >= 9 && what < 14) t[what - 9] = (what == 9 || what == 13) ? SDP_MEM_COMPLEX_FLOAT : SDP_MEM_FLOAT;
    if (what == 14) ks[0] = 0;
    if (what == 15) ws[0] = 0;
    sdp_Mem* g = sdp_mem_create(t[0], SDP_MEM_CPU, gd, gs, &st), * u = sdp_mem_create(t[1], SDP_MEM_CPU, 3, us, &st), * k = sdp_mem_create(t[2], SDP_MEM_CPU, kd, ks, &st),
        * w = sdp_mem_create(t[3], SDP_MEM_CPU, wd, ws, &st), * v = sdp_mem_create(t[4], SDP_MEM_CPU, 4, vs, &st);
    sdp_mem_clear_contents(g, &st); sdp_mem_clear_contents(u, &st); sdp_mem_clear_contents(k, &st); sdp_mem_clear_contents(w, &st); sdp_mem_clear_contents(v, &st);
    if (what == 0) sdp_mem_set_read_only(v, 1);
    sym_check(st == SDP_SUCCESS, "made");
    sym_protect(sdp_mem_data(v), 8);
    sdp_degrid_uvw_custom(g, u, k, w, 0.5, 4, 1e8, 1e6, 0, v, &st);
    sym_unprotect(sdp_mem_data(v), 8);
    sym_check(st != SDP_SUCCESS, "refused");
    sdp_mem_free(g); sdp_mem_free(u); sdp_mem_free(k); sdp_mem_free(w); sdp_mem_free(v);
}
extern "C" void harness(void)
{
    sym_pin(1);
    if (CFG(op, 0) == 9) refuse(); else run();
}
