// C08: phase-centre rotation of uvw.
#include "common.h"
#include "ska-sdp-func/visibility/sdp_phase_rotate.h"
#include "ska-sdp-func/utility/sdp_sky_coord.h"
template<typename T> static void run()
{
    const int nt = CFG(nt, 2), nb = CFG(nb, 2), inplace = CFG(inplace, 0);
    sdp_Error st = SDP_SUCCESS;
    Arr<T> in(&st, 0, nt, nb, 3), out(&st, 0, nt, nb, 3);
    in.fillSym("uvw", -1000, 1000); out.fill((T) 9);
    double* r = (double*) malloc(sizeof(double) * nt * nb * 3);
    for (int e = 0; e < nt * nb * 3; ++e) r[e] = in.lin(e);
    const int mode = CFG(mode, 0);
    const double ra0 = sym_double("ra0", 0, 6.3), dec0 = mode == 4 ? 0 : mode == 6 ? 0.4 : sym_double("dec0", -1.6, 1.6);
    const double ra1 = mode == 1 || mode == 3 ? ra0 : sym_double("ra1", 0, 6.3), dec1 = mode == 1 || mode == 2 ? dec0 : sym_double("dec1", -1.6, 1.6);
    sdp_SkyCoord* c0 = sdp_sky_coord_create("icrs", ra0, dec0, 0), *c1 = sdp_sky_coord_create("icrs", ra1, dec1, 0);
    if (!inplace) in.protect();
    Arr<T>& o = inplace ? in : out;
    sdp_phase_rotate_uvw(c0, c1, in.mem, o.mem, &st);
    sym_check(st == SDP_SUCCESS, "status");
    if (sizeof(T) == 4) sym_tol(1e-5);
    const double a = -(ra1 - ra0), d = dec1 - dec0, sa = sin(a), ca = cos(a), sd = sin(d), cd_ = cos(d);
    for (int k = 0; k < nt * nb; ++k)
    {
        const double u = r[3 * k], v = r[3 * k + 1], w = r[3 * k + 2];
        const double x = o.lin(3 * k), y = o.lin(3 * k + 1), z = o.lin(3 * k + 2);
        if (mode == 0)
        {
            // Rotation by a about v, then by d about u.
            const double u1 = ca * u + sa * w, w1 = -sa * u + ca * w;
            sym_near(x, u1, "rotated-u");
            sym_near(y, cd_ * v - sd * w1, "rotated-v");
            sym_near(z, sd * v + cd_ * w1, "rotated-w");
            sym_near(x * x + y * y + z * z, u * u + v * v + w * w, "length");
            if (k) sym_near(x * o.lin(0) + y * o.lin(1) + z * o.lin(2), u * r[0] + v * r[1] + w * r[2], "scalar-product");
        }
        else if (mode == 1) // same centre
        {
            sym_near(x, u, "identity"); sym_near(y, v, "identity"); sym_near(z, w, "identity");
        }
        else if (mode >= 4)
        {
            // The w axis of the result is the direction of the new centre as
            // seen from the old one (as used to rotate visibilities).
            const double l = cos(dec1) * -sa;
            const double m = cos(dec0) * sin(dec1) - sin(dec0) * cos(dec1) * ca;
            const double n = sin(dec0) * sin(dec1) + cos(dec0) * cos(dec1) * ca;
            sym_near(z, u * l + v * m + w * n, mode == 4 ? "new-w-axis" : "new-w-axis-any-dec");
        }
    }
    if (mode == 2 || mode == 3) // one angle only: rotating back restores the input
    {
        Arr<T> back(&st, 0, nt, nb, 3);
        sdp_phase_rotate_uvw(c1, c0, o.mem, back.mem, &st);
        sym_check(st == SDP_SUCCESS, "status");
        for (int e = 0; e < nt * nb * 3; ++e) sym_near(back.lin(e), r[e], "undo");
        back.release();
    }
    sdp_sky_coord_free(c0); sdp_sky_coord_free(c1);
    in.release(); out.release(); free(r);
}
extern "C" void harness(void)
{
    if (CFG(type, 0) == 0) run<double>(); else run<float>();
}
