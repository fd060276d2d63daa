// C10: grid-based weighting uses the right cell and never leaves the grid.
#include "common.h"
#include "ska-sdp-func/visibility/sdp_weighting.h"
template<typename W> static void run()
{
    const int nt = CFG(nt, 1), nb = CFG(nb, 2), nc = CFG(nc, 1), np = CFG(np, 1), G = CFG(g, 4), briggs = CFG(briggs, 0), h = G / 2;
    sdp_Error st = SDP_SUCCESS;
    Arr<double> uvw(&st, 0, nt, nb, 3), fr(&st, 0, nc);
    Arr<W> grid(&st, 0, G, G, np), in(&st, 0, nt, nb, nc, np), out(&st, 0, nt, nb, nc, np);
    // Exactly representable scaling: no rounding at the cell edges.
    const double mx = 4.0;
    for (int c = 0; c < nc; ++c) fr(c) = 299792458.0 * (c ? 0.5 : 1.0);
    uvw.fillSym("uvw", -40, 40);
    in.fillSym("in", 0.25, 4);
    const int pre = CFG(pre, 0);
    for (int e = 0; e < G * G * np; ++e) grid.lin(e) = (W) (pre ? 0.5 * (e % 3) : 0);
    double* ref = (double*) malloc(sizeof(double) * G * G * np);
    for (int e = 0; e < G * G * np; ++e) ref[e] = grid.lin(e);
    out.fill((W) 77);
    int iu[8], iv[8], n = 0;
    for (int t = 0; t < nt; ++t) for (int b = 0; b < nb; ++b) for (int c = 0; c < nc; ++c, ++n)
    {
        // The first visibility goes anywhere; later ones to selected places.
        const int k = n == 0 ? 0 : sym_choice(Nm("place", n), 0, CFG(places, 3));
        if (n == 0) { iu[n] = sym_choice("iu", -1, G); iv[n] = sym_choice("iv", -1, G); }
        else if (k == 0) { iu[n] = iu[0]; iv[n] = iv[0]; }
        else if (k == 1) { iu[n] = 1; iv[n] = G - 1; }
        else if (k == 2) { iu[n] = -1; iv[n] = 1; }
        else { iu[n] = G - 1; iv[n] = G; }
        const double s = (c ? 0.5 : 1.0) / mx * h;
        for (int d = 0; d < 2; ++d)
        {
            const int i = d ? iv[n] : iu[n];
            const double x = uvw(t, b, d) * s + h;
            if (i >= 0) sym_assume(x >= i);
            if (i < G) sym_assume(x < i + 1);
        }
        // Visibilities of the same cell fall inside it: anywhere.
        const bool ins = iu[n] >= 0 && iu[n] < G && iv[n] >= 0 && iv[n] < G;
        if (ins) for (int p = 0; p < np; ++p) ref[(iu[n] * G + iv[n]) * np + p] += in(t, b, c, p);
    }
    uvw.protect(); fr.protect(); in.protect();
    const double r = CFG(r, 0) / 2.0;
    if (briggs) sdp_weighting_briggs(uvw.mem, fr.mem, mx, r, grid.mem, in.mem, out.mem, &st);
    else sdp_weighting_uniform(uvw.mem, fr.mem, mx, grid.mem, in.mem, out.mem, &st);
    sym_check(st == SDP_SUCCESS, "status");
    for (int e = 0; e < G * G * np; ++e) sym_near(grid.lin(e), ref[e], "grid-of-weights");
    double sw = 0, sw2 = 0;
    n = 0;
    for (int v = 0; v < nt * nb * nc; ++v)
        if (iu[v] >= 0 && iu[v] < G && iv[v] >= 0 && iv[v] < G)
            for (int p = 0; p < np; ++p) { const double w = ref[(iu[v] * G + iv[v]) * np + p]; sw += w; sw2 += w * w; }
    const double num = 25.0 / pow(10.0, 2 * r);
    if (sizeof(W) == 4) sym_tol(1e-5);
    for (int v = 0; v < nt * nb * nc; ++v) for (int p = 0; p < np; ++p)
    {
        const double o = out.lin(v * np + p);
        if (!(iu[v] >= 0 && iu[v] < G && iv[v] >= 0 && iv[v] < G)) { sym_near(o, 77, "outside-left-alone"); continue; }
        const double w = ref[(iu[v] * G + iv[v]) * np + p];
        if (briggs) sym_near(o * (sw2 + num * sw * w), in.lin(v * np + p) * sw2, "briggs-weight");
        else sym_near(o * w, 1.0, "uniform-weight");
    }
    uvw.release(); fr.release(); grid.release(); in.release(); out.release(); free(ref);
}
extern "C" void harness(void)
{
    if (CFG(type, 0) == 0) run<double>(); else run<float>();
}
