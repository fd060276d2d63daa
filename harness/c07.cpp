// C07: direct Fourier prediction computes the measurement equation.
#include "common.h"
#include "ska-sdp-func/visibility/sdp_dft.h"
template<typename V> struct Rl { typedef double t; };
template<> struct Rl<cf> { typedef float t; };
template<typename V> static void run()
{
    const int nt = CFG(nt, 2), nb = CFG(nb, 2), nc = CFG(nc, 2), np = CFG(np, 4), ns = CFG(ns, 2), ver = CFG(ver, 0);
    sdp_Error st = SDP_SUCCESS;
    Arr<double> dir(&st, 0, ns, 3), uvwl(&st, 0, nt, nb, nc, 3), uvw(&st, 0, nt, nb, 3);
    Arr<cd> flux(&st, 0, ns, nc, np);
    Arr<V> vis(&st, 0, nt, nb, nc, np), vis2(&st, 0, nt, nb, nc, np);
    const double f0 = ver == 0 ? 0 : CFG(symf, 1) ? sym_double("f0", 1e8, 2e8) : 1.25e8, df = ver == 0 ? 0 : CFG(symf, 1) ? sym_double("df", -1e6, 1e7) : 3e5;
    dir.fillSym("dir", -1, 1); flux.fillSym("flux");
    uvw.fillSym("uvw", -1000, 1000);
    if (ver == 0) uvwl.fillSym("uvwl", -500, 500);
    else for (int t = 0; t < nt; ++t) for (int b = 0; b < nb; ++b) for (int c = 0; c < nc; ++c) for (int d = 0; d < 3; ++d)
        uvwl(t, b, c, d) = uvw(t, b, d) * ((f0 + c * df) / 299792458.0);
    vis.fill(V(9, 9)); vis2.fill(V(9, 9));
    dir.protect(); flux.protect(); uvwl.protect(); uvw.protect();
    if (ver == 0 || ver == 2) sdp_dft_point_v00(dir.mem, flux.mem, uvwl.mem, ver == 2 ? vis2.mem : vis.mem, &st);
    if (ver >= 1) sdp_dft_point_v01(dir.mem, flux.mem, uvw.mem, f0, df, vis.mem, &st);
    sym_check(st == SDP_SUCCESS, "status");
    sym_atol(sizeof(V) == 8 ? 1e-3 : 1e-6);
    for (int t = 0; t < nt; ++t) for (int b = 0; b < nb; ++b) for (int c = 0; c < nc; ++c)
    {
        double cs[8], sn[8];
        for (int s = 0; s < ns; ++s)
        {
            const double ph = -2 * M_PI * (ver == 0
                ? dir(s, 0) * uvwl(t, b, c, 0) + dir(s, 1) * uvwl(t, b, c, 1) + dir(s, 2) * uvwl(t, b, c, 2)
                : (f0 + c * df) / 299792458.0 * (dir(s, 0) * uvw(t, b, 0) + dir(s, 1) * uvw(t, b, 1) + dir(s, 2) * uvw(t, b, 2)));
            cs[s] = cos(ph); sn[s] = sin(ph);
        }
        for (int p = 0; p < np; ++p)
        {
            double re = 0, im = 0;
            for (int s = 0; s < ns; ++s)
            {
                const cd f = flux(s, c, p);
                re += f.real() * cs[s] - f.imag() * sn[s];
                im += f.real() * sn[s] + f.imag() * cs[s];
            }
            sym_near(vis(t, b, c, p).real(), re, "dft-real");
            sym_near(vis(t, b, c, p).imag(), im, "dft-imag");
            if (ver == 2)
            {
                sym_near(vis(t, b, c, p).real(), vis2(t, b, c, p).real(), "v00-equals-v01");
                sym_near(vis(t, b, c, p).imag(), vis2(t, b, c, p).imag(), "v00-equals-v01");
            }
        }
    }
    dir.release(); uvwl.release(); uvw.release(); flux.release(); vis.release(); vis2.release();
}
extern "C" void harness(void)
{
    if (CFG(type, 0) == 0) run<cd>(); else run<cf>();
}
