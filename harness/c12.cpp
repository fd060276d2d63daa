// C12: tile counting and bucket sorting conserve every visibility.
#include "common.h"
#include "ska-sdp-func/visibility/sdp_tiled_functions.h"
static int64_t fdiv(int64_t a, int64_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
template<typename T, typename C> static void run()
{
    const int nt = CFG(nt, 1), nb = CFG(nb, 2), nc = CFG(nc, 1), N = CFG(n, 10), S = CFG(sup, 1), indexed = CFG(indexed, 0), h = N / 2;
    const int64_t tu = CFG(tu, 4), tv = CFG(tv, 2), ntu = (N + tu - 1) / tu, ntv = (N + tv - 1) / tv, num_tiles = ntu * ntv;
    const int64_t ou = h - (h / tu) * tu - tu / 2, ov = h - (h / tv) * tv - tv / 2;
    sdp_Error st = SDP_SUCCESS;
    Arr<T> uvw(&st, 0, nt, nb, 3), fr(&st, 0, nc), w(&st, 0, nt, nb, nc, 1);
    Arr<C> vis(&st, 0, nt, nb, nc, 1);
    const int nv = nt * nb * nc;
    // Exactly representable scaling.
    const double cell = 1.0 / N;
    for (int c = 0; c < nc; ++c) fr(c) = (T) (299792458.0 * (c ? 0.5 : 1.0));
    uvw.fillSym("uvw", -40, 40); w.fillSym("w", 0.25, 4); vis.fillSym("vis");
    // Distinct weights tell the visibilities apart.
    for (int v = 1; v < nv; ++v) sym_assume(w.lin(v) > w.lin(v - 1) + 0.125);
    int iu[8], iv[8], n = 0;
    for (int t = 0; t < nt; ++t) for (int b = 0; b < nb; ++b) for (int c = 0; c < nc; ++c, ++n)
    {
        const int k = n == 0 ? 0 : sym_choice(Nm("place", n), 0, CFG(places, 2));
        if (n == 0)
        {
            const int full = CFG(full, 1);
            iu[n] = full ? sym_choice("iu", -1, N) : sym_choice("iu", 0, 3) * N / 4 + 1;
            iv[n] = full == 2 ? sym_choice("iv", -1, N) : sym_choice("iv", 0, 3) * N / 4;
        }
        else if (k == 0) { iu[n] = iu[0]; iv[n] = iv[0]; }
        else if (k == 1) { iu[n] = N - 1 - S; iv[n] = S; }
        else { iu[n] = S; iv[n] = N / 2; }
        const double s = (double) fr(c) / 299792458.0;
        for (int d = 0; d < 2; ++d)
        {
            const int i = d ? iv[n] : iu[n];
            const double x = uvw(t, b, d) * s + h;
            if (i >= 0) sym_assume(x > i - 0.499999);
            if (i < N) sym_assume(x < i + 0.499999);
        }
    }
    Arr<int> off(&st, 0, num_tiles + 1), num(&st, 0, num_tiles), skip(&st, 0, 1);
    off.fill(99); num.fill(98); skip.fill(97);
    int total = -5;
    uvw.protect(); fr.protect(); vis.protect(); w.protect();
    sdp_count_and_prefix_sum(uvw.mem, fr.mem, vis.mem, N, tu, tv, cell, S, &total, off.mem, num.mem, skip.mem, &st);
    sym_check(st == SDP_SUCCESS, "status");
    // Tiles overlapped by the kernel footprint of each visibility.
    int skipped = 0, sum = 0, want[64]; bool in[8][64];
    for (int t = 0; t < num_tiles; ++t) want[t] = 0;
    for (int v = 0; v < nv; ++v)
    {
        const bool fits = iu[v] - S >= 0 && iu[v] + S < N && iv[v] - S >= 0 && iv[v] + S < N;
        if (!fits) ++skipped;
        for (int t = 0; t < num_tiles; ++t)
        {
            const int64_t u0 = ou + (t % ntu) * tu, v0 = ov + (t / ntu) * tv;
            in[v][t] = fits && iu[v] + S >= u0 && iu[v] - S < u0 + tu && iv[v] + S >= v0 && iv[v] - S < v0 + tv;
            want[t] += in[v][t];
        }
        if (fits)
        {
            // Every cell of the footprint is in one of the tiles.
            const int64_t a = fdiv(iu[v] + S - ou, tu), b = fdiv(iv[v] + S - ov, tv), c = fdiv(iu[v] - S - ou, tu), d = fdiv(iv[v] - S - ov, tv);
            sym_check(a < ntu && b < ntv && c >= 0 && d >= 0, "tiles-cover-footprint");
        }
    }
    sym_check(skip(0) == skipped, "skipped");
    for (int t = 0; t < num_tiles; ++t)
    {
        sym_check(num(t) == want[t], "count");
        sym_check(off(t) == sum, "offset");
        sum += want[t];
    }
    sym_check(off(num_tiles) == sum && total == sum, "total");
    num.protect();
    Arr<T> su(&st, 0, sum), sv(&st, 0, sum), sw(&st, 0, sum); Arr<C> sx(&st, 0, sum); Arr<int> stl(&st, 0, sum), si(&st, 0, sum);
    su.fill(50); sv.fill(51); sw.fill(52); sx.fill(C(53, 54)); stl.fill(55); si.fill(56);
    if (indexed) sdp_tiled_indexing(uvw.mem, fr.mem, N, tu, tv, cell, S, nc, nb, nt, stl.mem, su.mem, sv.mem, si.mem, off.mem, &st);
    else sdp_bucket_sort(uvw.mem, fr.mem, vis.mem, w.mem, N, tu, tv, cell, S, su.mem, sv.mem, sw.mem, stl.mem, sx.mem, off.mem, &st);
    sym_check(st == SDP_SUCCESS, "status-sort");
    if (sizeof(T) == 4) sym_tol(1e-5);
    int at = 0;
    for (int t = 0; t < num_tiles; ++t)
    {
        // The entries of a bucket may come in any order.
        bool used[8] = {};
        for (int e = at; e < at + want[t]; ++e)
        {
            sym_check(stl(e) == (int) ((t / ntu) * 32768 + t % ntu), "tile-label");
            bool found = false;
            for (int v = 0; v < nv && !found; ++v)
            {
                if (used[v] || !in[v][t]) continue;
                bool same;
                if (indexed) same = si(e) == v;
                else same = sx(e).real() == vis.lin(v).real() && sx(e).imag() == vis.lin(v).imag() && sw(e) == w.lin(v);
                if (!same) continue;
                found = used[v] = true;
                const double s = (double) fr(v % nc) / 299792458.0;
                sym_near(su(e), uvw.lin(v / nc * 3) * s, "sorted-u");
                sym_near(sv(e), uvw.lin(v / nc * 3 + 1) * s, "sorted-v");
            }
            sym_check(found, "bucket-holds-visibility");
        }
        at += want[t];
    }
    uvw.release(); fr.release(); vis.release(); w.release(); off.release(); num.release(); skip.release();
    su.release(); sv.release(); sw.release(); sx.release(); stl.release(); si.release();
}
extern "C" void harness(void)
{
    sym_pin(1);
    if (CFG(type, 0) == 0) run<double, cd>(); else run<float, cf>();
}
