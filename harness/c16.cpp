// C16: image_to_flmn, dft and idft are the stated direct Fourier sums.
#include "common.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
#define C_0 299792458.0
#define PI 3.14159265358979323846

template<typename T> struct Re { static double r(T v) { return v; } };
template<> struct Re<cd> { static double r(cd v) { return v.real(); } };
template<> struct Re<cf> { static double r(cf v) { return v.real(); } };

static double n_of(double l, double m, double hu, double hv)
{
    // Root of n^2 (hu^2+hv^2+1) - 2 n (hu l + hv m - 1) + l^2 + m^2 = 0 near 0.
    const double b = hu * l + hv * m - 1, a = hu * hu + hv * hv + 1;
    return (sqrt(b * b - a * (l * l + m * m)) + b) / a;
}

template<typename I, typename D>
static void flmn()
{
    const int nx = CFG(nx, 2), ny = CFG(ny, 2);
    sdp_Error st = SDP_SUCCESS;
    Arr<I> img(&st, CFG(order, 0), nx, ny);
    Arr<D> lmn(&st, CFG(order2, 0), nx * ny, 3);
    Arr<double> flux(&st, CFG(order2, 0), nx * ny);
    Arr<double> tp(&st, CFG(order, 0), nx > ny ? nx : ny);
    img.fillSym("img"); tp.fillSym("tp"); lmn.fill(D(-5)); flux.fill(-6.0);
    img.protect(); tp.protect();
    const double theta = sym_double("theta", 0.01, 0.5);
    const double hu = CFG(shear, 0) ? 0.1 : 0.0, hv = CFG(shear, 0) ? -0.3 : 0.0;
    const int wf = CFG(flux, 1), wt = CFG(taper, 1);
    sdp_gridder_image_to_flmn(img.mem, theta, hu, hv, wt ? tp.mem : 0, wf ? flux.mem : 0, lmn.mem, &st);
    sym_check(st == SDP_SUCCESS, "status");
    int k = 0;
    for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j)
    {
        if (wf && img(i, j) == I(0)) continue;
        const double l = (i - nx / 2) * theta / nx, m = (j - ny / 2) * theta / ny;
        if (wf) sym_near(flux(k), Re<I>::r(img(i, j)) * (wt ? tp(i) * tp(j) : 1.0), "flmn-flux");
        sym_near(lmn(k, 0), l, "flmn-l"); sym_near(lmn(k, 1), m, "flmn-m"); sym_near(lmn(k, 2), n_of(l, m, hu, hv), "flmn-n");
        ++k;
    }
    for (; k < nx * ny; ++k) sym_check(flux(k) == -6.0 && lmn(k, 0) == D(-5), "flmn-tail-untouched");
    img.release(); lmn.release(); flux.release(); tp.release();
}

template<typename D, typename V>
static void dft(bool inverse)
{
    typedef std::complex<V> C;
    const int nr = CFG(nr, 2), nch = CFG(nch, 2), nx = CFG(nx, 2), ns = inverse ? nx * nx : CFG(ns, 2);
    sdp_Error st = SDP_SUCCESS;
    Arr<V> uvw(&st, CFG(order, 0), nr, 3);
    Arr<int> s(&st, CFG(order2, 0), nr), e(&st, CFG(order2, 0), nr);
    Arr<double> flux(&st, CFG(order2, 0), ns), tp(&st, CFG(order2, 0), nx);
    Arr<D> lmn(&st, CFG(order2, 0), ns, 3);
    Arr<C> vis(&st, CFG(order, 0), nr, nch);
    Arr<C> img(&st, CFG(order, 0), nx, nx);
    uvw.fillSym("uvw", -100, 100); flux.fillSym("flux"); tp.fillSym("tp"); vis.fillSym("vis"); img.fillSym("img");
    for (int k = 0; k < ns; ++k) for (int j = 0; j < 3; ++j)
        lmn(k, j) = CFG(symlmn, 1) && k == ns - 1 ? sym<D>(Nm("lmn", k, j), -0.5, 0.5) : (D) (0.01 * (k + 1) * (j + 1) - 0.02);
    const int wl = CFG(limits, 1);
    for (int i = 0; i < nr; ++i) { s(i) = wl ? sym_choice(Nm("start", i), 0, 1) : 0; e(i) = wl ? sym_choice(Nm("end", i), 0, 1) * nch : nch; }
    C *ov = (C*) malloc(sizeof(C) * nr * nch), *oi = (C*) malloc(sizeof(C) * nx * nx);
    for (int k = 0; k < nr * nch; ++k) ov[k] = vis.lin(k);
    for (int k = 0; k < nx * nx; ++k) oi[k] = img.lin(k);
    uvw.protect(); s.protect(); e.protect(); flux.protect(); tp.protect(); lmn.protect();
    const double theta = CFG(theta0, 0) ? 0.0 : 0.25, ws = sym_double("w_step", 0.5, 3), f0 = 1.5e8, df = sym_double("df", 0, 1e6);
    const int offu = CFG(offu, 3), offv = CFG(offv, -2), offw = CFG(offw, 4);
    const double du = theta > 0 ? offu / theta : 0, dv = theta > 0 ? offv / theta : 0, dw = theta > 0 ? offw * ws : 0;
    if (inverse) { vis.protect(); sdp_gridder_idft(uvw.mem, vis.mem, wl ? s.mem : 0, wl ? e.mem : 0, lmn.mem, CFG(taper, 1) ? tp.mem : 0, offu, offv, offw, theta, ws, f0, df, img.mem, &st); }
    else sdp_gridder_dft(uvw.mem, wl ? s.mem : 0, wl ? e.mem : 0, flux.mem, lmn.mem, offu, offv, offw, theta, ws, f0, df, vis.mem, &st);
    sym_check(st == SDP_SUCCESS, "status");
    sym_atol(1e-7);
    if (!inverse)
        for (int i = 0; i < nr; ++i) for (int c = 0; c < nch; ++c)
        {
            double re = ov[i * nch + c].real(), im = ov[i * nch + c].imag();
            if (!wl || s(i) < e(i))
                for (int k = 0; k < ns; ++k)
                {
                    const double il = (f0 + c * df) / C_0;
                    const double ph = 2 * PI * ((uvw(i, 0) * il - du) * lmn(k, 0) + (uvw(i, 1) * il - dv) * lmn(k, 1) + (uvw(i, 2) * il - dw) * lmn(k, 2));
                    re += flux(k) * cos(ph); im -= flux(k) * sin(ph);
                }
            sym_near(vis(i, c).real(), re, "dft"); sym_near(vis(i, c).imag(), im, "dft");
        }
    else
        for (int k = 0; k < ns; ++k)
        {
            double re = 0, im = 0;
            for (int i = 0; i < nr; ++i) for (int c = 0; c < nch; ++c)
            {
                if (wl && s(i) >= e(i)) continue;
                const double il = (f0 + c * df) / C_0;
                const double ph = 2 * PI * ((uvw(i, 0) * il - du) * lmn(k, 0) + (uvw(i, 1) * il - dv) * lmn(k, 1) + (uvw(i, 2) * il - dw) * lmn(k, 2));
                const C v = vis(i, c);
                re += v.real() * cos(ph) - v.imag() * sin(ph); im += v.real() * sin(ph) + v.imag() * cos(ph);
            }
            const double t = CFG(taper, 1) ? tp(k / nx) * tp(k % nx) : 1.0;
            sym_near(img(k / nx, k % nx).real(), oi[k].real() + t * re, "idft"); sym_near(img(k / nx, k % nx).imag(), oi[k].imag() + t * im, "idft");
        }
    uvw.release(); s.release(); e.release(); flux.release(); tp.release(); lmn.release(); vis.release(); img.release(); free(ov); free(oi);
}

extern "C" void harness(void)
{
    const int t = CFG(type, 0);
    switch (CFG(op, 0))
    {
    case 0:
        switch (t) { case 0: flmn<double, double>(); break; case 1: flmn<float, float>(); break; case 2: flmn<cd, double>(); break; case 3: flmn<cf, float>(); break; default: flmn<cf, double>(); }
        break;
    default:
        if (t == 0) dft<double, double>(CFG(op, 0) == 2); else dft<float, float>(CFG(op, 0) == 2);
    }
}
