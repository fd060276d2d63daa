// C09: phase rotation of visibilities multiplies each by its own unit phasor.
#include "common.h"
#include "ska-sdp-func/visibility/sdp_phase_rotate.h"
#include "ska-sdp-func/utility/sdp_sky_coord.h"
template<typename C, typename T> static void run()
{
    const int nt = CFG(nt, 2), nb = CFG(nb, 2), nc = CFG(nc, 3), np = CFG(np, 4), symdir = CFG(symdir, 0);
    sdp_Error st = SDP_SUCCESS;
    Arr<T> uvw(&st, 0, nt, nb, 3);
    Arr<C> vin(&st, 0, nt, nb, nc, np), vout(&st, 0, nt, nb, nc, np);
    uvw.fillSym("uvw", -1000, 1000); vin.fillSym("v");
    vout.fill(C(9, 9));
    const double ra0 = symdir ? sym_double("ra0", 0, 6.3) : 1.2, dec0 = symdir ? sym_double("dec0", -1.6, 1.6) : 0.4;
    const double ra1 = symdir ? sym_double("ra1", 0, 6.3) : 1.5, dec1 = symdir ? sym_double("dec1", -1.6, 1.6) : -0.3;
    const double f0 = CFG(symf, 0) ? sym_double("f0", 1e8, 2e8) : 1.4e8, df = CFG(symf, 0) ? sym_double("df", -1e6, 1e7) : 7e5;
    sdp_SkyCoord* c0 = sdp_sky_coord_create("icrs", ra0, dec0, 0), *c1 = sdp_sky_coord_create("icrs", ra1, dec1, 0);
    uvw.protect(); vin.protect();
    sdp_phase_rotate_vis(c0, c1, f0, df, uvw.mem, vin.mem, vout.mem, &st);
    sym_check(st == SDP_SUCCESS, "status");
    sym_atol(sizeof(T) == 4 ? 1e-2 : 1e-6);
    const double da = ra1 - ra0;
    const double l = cos(dec1) * sin(da);
    const double m = cos(dec0) * sin(dec1) - sin(dec0) * cos(dec1) * cos(da);
    const double n = sin(dec0) * sin(dec1) + cos(dec0) * cos(dec1) * cos(da);
    for (int t = 0; t < nt; ++t) for (int b = 0; b < nb; ++b) for (int c = 0; c < nc; ++c)
    {
        const double k = 2 * M_PI * ((f0 + c * df) / 299792458.0);
        const double ph = k * (-uvw(t, b, 0) * l - uvw(t, b, 1) * m + uvw(t, b, 2) * (1 - n));
        const double cs = cos(ph), sn = sin(ph);
        for (int p = 0; p < np; ++p)
        {
            const C i = vin(t, b, c, p), o = vout(t, b, c, p);
            const double x = i.real(), y = i.imag(), a = o.real(), d = o.imag();
            sym_near(a, x * cs - y * sn, "phasor-real");
            sym_near(d, x * sn + y * cs, "phasor-imag");
            if (t == 0 && b == 0) sym_near(a * a + d * d, x * x + y * y, "amplitude");
        }
    }
    sdp_sky_coord_free(c0); sdp_sky_coord_free(c1);
    uvw.release(); vin.release(); vout.release();
}
extern "C" void harness(void)
{
    if (CFG(type, 0) == 0) run<cd, double>(); else run<cf, float>();
}
