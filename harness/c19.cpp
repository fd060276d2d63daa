// C19: the w-tower gridder and degridder place each visibility with its own kernel.
#include "common.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
#define PI 3.14159265358979323846
static int64_t fdiv(int64_t a, int64_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
static double n_of(double l, double m, double hu, double hv)
{
    const double b = hu * l + hv * m - 1, a = hu * hu + hv * hv + 1;
    return (sqrt(b * b - a * (l * l + m * m)) + b) / a;
}
template<typename S, typename U, typename V> static void run()
{
    const int gridding = CFG(grid, 0), n = CFG(n, 6), K = CFG(k, 2), O = CFG(o, 2), KW = CFG(kw, 2), OW = CFG(ow, 2);
    const int nr = CFG(nr, 1), nc = CFG(nc, 1), wide = CFG(wide, 0), rows = CFG(rows, 0), sel = CFG(sel, 0);
    const int off[3] = {CFG(ou, 0), CFG(ov, 0), CFG(owp, 0)};
    const double hu = CFG(shear, 0) / 10.0, hv = -0.3 * hu;
    // Exactly representable scaling.
    const double theta = 0.5, wstep = 4, f0 = CFG(down, 0) ? 2 * 299792458.0 : 299792458.0, df = CFG(down, 0) ? -299792458.0 / 2 : 299792458.0;
    sdp_Error st = SDP_SUCCESS;
    sdp_GridderWtowerUVW* plan = sdp_gridder_wtower_uvw_create(2 * n, n, theta, wstep, hu, hv, K, O, KW, OW, &st);
    Arr<double> ku(&st, 0, O + 1, K), kw(&st, 0, OW + 1, KW);
    sdp_gridder_make_pswf_kernel(K, ku.mem, &st);
    sdp_gridder_make_pswf_kernel(KW, kw.mem, &st);
    sym_check(st == SDP_SUCCESS, "plan");
    Arr<U> uvw(&st, CFG(order, 0), nr, 3);
    Arr<V> vis(&st, CFG(order, 0), nr, nc);
    Arr<S> img(&st, 0, n, n);
    Arr<int> s0(&st, 0, nr), s1(&st, 0, nr);
    for (int r = 0; r < nr; ++r) for (int d = 0; d < 3; ++d)
        uvw(r, d) = (d == wide || wide == 3) ? sym<U>(Nm("uvw", r, d), -200, 200) : U((off[d] + (d == 2 ? 0.4 : d ? -0.1 : 0.15) + 0.03 * r) / (d < 2 ? theta : 0.25));
    vis.fillSym("vis");
    if (gridding || CFG(symimg, 0)) img.fillSym("img");
    else for (int e = 0; e < n * n; ++e) img.lin(e) = S((e * 7 + 3) % 11 - 4, (e * 5 + 1) % 13 - 6);
    for (int r = 0; r < nr; ++r)
    {
        s0(r) = sel ? sym_choice(Nm("start", r), 0, nc) : 0;
        s1(r) = sel ? sym_choice(Nm("end", r), 0, nc) : nc;
    }
    V* ov = (V*) malloc(sizeof(V) * vis.n);
    S* oi = (S*) malloc(sizeof(S) * n * n);
    for (int e = 0; e < vis.n; ++e) ov[e] = vis.lin(e);
    for (int e = 0; e < n * n; ++e) oi[e] = img.lin(e);
    const int nv = nr * nc;
    int64_t I[8][3], H[8];
    for (int v = 0; v < nv; ++v) for (int d = 0; d < 3; ++d)
    {
        // Nearest step of the oversampled kernel, relative to the sub-grid.
        const int os = d < 2 ? O : OW;
        const double s = (f0 + (v % nc) * df) / 299792458.0, x = ((double) uvw(v / nc, d) * s * (d < 2 ? theta : 1.0 / wstep) - off[d]) * os;
        if (d != wide && wide != 3)
        {
            // A fixed position, not near a rounding tie or plane boundary.
            I[v][d] = (int64_t) floor(x + 0.5);
            if (d == 2) H[v] = (int64_t) floor(x / OW);
            continue;
        }
        int64_t lo, hi;
        if (v % nc > 0)
        {
            // Later channels follow the first one along the same line.
            const double q = s / ((f0 + 0 * df) / 299792458.0);
            const double c = (I[v - v % nc][d] + off[d] * os) * q - off[d] * os;
            lo = (int64_t) floor(c - 0.5 * q); hi = (int64_t) ceil(c + 0.5 * q);
        }
        else { lo = d == 2 ? -OW * (nc > 1 ? 0 : 1) - 1 : -(n / 2 + 1) * O; hi = d == 2 ? OW * (nc > 1 ? 0 : 1) + 1 : (n / 2 + 1) * O; }
        const int64_t i = sym_choice(d == 0 ? "ix" : d == 1 ? "iy" : "iz", (int) lo, (int) hi);
        I[v][d] = i;
        sym_assume(x > i - 0.499999); sym_assume(x < i + 0.499999);
        if (d == 2)
        {
            // Not within rounding of a w-plane boundary; just below one, the last kernel row of the plane below counts.
            H[v] = fdiv(i, OW);
            if (i % OW == 0)
            {
                const int up = sym_choice("up", 0, 1);
                sym_assume(up ? x > i + 1e-6 : x < i - 1e-6);
                if (!up) H[v]--;
            }
        }
    }
    uvw.protect(); s0.protect(); s1.protect();
    if (gridding) vis.protect(); else img.protect();
    const int64_t r0 = rows ? sym_choice("r0", 0, nr) : -1, r1 = rows ? sym_choice("r1", 0, nr + (rows == 2)) : -1;
    if (gridding) sdp_gridder_wtower_uvw_grid(plan, vis.mem, uvw.mem, s0.mem, s1.mem, f0, df, img.mem, off[0], off[1], off[2], r0, r1, &st);
    else sdp_gridder_wtower_uvw_degrid(plan, img.mem, off[0], off[1], off[2], f0, df, uvw.mem, s0.mem, s1.mem, vis.mem, r0, r1, &st);
    sym_check(st == SDP_SUCCESS, "status");
    sym_tol(sizeof(S) == 8 ? 1e-3 : 1e-7); sym_atol(sizeof(S) == 8 ? 1e-3 : 1e-7);
    double* acc = (double*) malloc(sizeof(double) * 2 * n * n);
    for (int e = 0; e < 2 * n * n; ++e) acc[e] = 0;
    const int h = n / 2;
    bool up_used = false;
    for (int v = 0; v < nv; ++v)
    {
        const int r = v / nc, c = v % nc;
        int64_t home[3], fr[3];
        for (int d = 0; d < 3; ++d)
        {
            const int os = d < 2 ? O : OW;
            home[d] = d < 2 ? fdiv(I[v][d], os) : H[v]; fr[d] = I[v][d] - home[d] * os;
        }
        // First cell under the kernel.
        const int64_t cu = home[0] + h - K / 2 + 1, cv = home[1] + h - K / 2 + 1;
        const bool used = c >= s0(r) && c < s1(r) && (r0 < 0 || (r >= r0 && r < r1)) && cu >= 0 && cu + K <= n && cv >= 0 && cv + K <= n;
        if (!gridding && !used) { near_c(vis(r, c), ov[v], "visibility-left-alone"); continue; }
        if (!used) continue;
        // The last row of the w-kernel: for offsets rounded up to the next plane.
        if (fr[2] == OW) up_used = true;
        double vr = 0, vi = 0;
        const double a = (double) ov[v].real(), b = (double) ov[v].imag();
        for (int l = 0; l < n; ++l) for (int m = 0; m < n; ++m)
        {
            const double nn = n_of((l - h) * theta / n, (m - h) * theta / n, hu, hv);
            // The weight of this visibility in the image pixel.
            double pr = 0, pi = 0, ur = 0, ui = 0, wr = 0, wi = 0;
            for (int q = 0; q < K; ++q)
            {
                const double pu = 2 * PI * (l - h) * (cu + q - h) / n, pv = 2 * PI * (m - h) * (cv + q - h) / n;
                ur += ku(fr[0], q) * cos(pu); ui += ku(fr[0], q) * sin(pu);
                wr += ku(fr[1], q) * cos(pv); wi += ku(fr[1], q) * sin(pv);
            }
            const double xr = ur * wr - ui * wi, xi = ur * wi + ui * wr;
            for (int q = 0; q < KW; ++q)
            {
                const double p = 2 * PI * wstep * nn * (double) (home[2] + 1 - KW / 2 + q);
                pr += kw(fr[2], q) * cos(p); pi += kw(fr[2], q) * sin(p);
            }
            const double tr = xr * pr - xi * pi, ti = xr * pi + xi * pr;
            if (gridding) { acc[2 * (l * n + m)] += a * tr - b * ti; acc[2 * (l * n + m) + 1] += a * ti + b * tr; }
            else { const double gr = (double) oi[l * n + m].real(), gi = (double) oi[l * n + m].imag(); vr += gr * tr + gi * ti; vi += gi * tr - gr * ti; }
        }
        if (!gridding) near_c(vis(r, c), V((ov[v].real() + vr), (ov[v].imag() + vi)), fr[2] == OW ? "visibility-rounded-up" : "visibility");
    }
    if (gridding) for (int e = 0; e < n * n; ++e) near_c(img.lin(e), S(oi[e].real() + acc[2 * e], oi[e].imag() + acc[2 * e + 1]), up_used ? "pixel-rounded-up" : "pixel");
    sdp_gridder_wtower_uvw_free(plan);
    uvw.release(); vis.release(); img.release(); s0.release(); s1.release(); ku.release(); kw.release(); free(ov); free(oi); free(acc);
}
// Arrays that do not fit are refused before anything is read or written.
static void refuse()
{
    const int what = CFG(what, 0), gridding = CFG(grid, 0);
    sdp_Error st = SDP_SUCCESS;
    sdp_GridderWtowerUVW* plan = sdp_gridder_wtower_uvw_create(12, 6, 0.5, 4, 0, 0, 2, 2, 2, 2, &st);
    int64_t is[3] = {6, 6, 1}, us[3] = {2, 3, 1}, as[2] = {2, 1}, bs[2] = {2, 1}, vs[3] = {2, 1, 1};
    int id = 2, ud = 2, ad = 1, bd = 1, vd = 2;
    sdp_MemType it = SDP_MEM_COMPLEX_DOUBLE, ut = SDP_MEM_DOUBLE, at = SDP_MEM_INT, bt = SDP_MEM_INT, vt = SDP_MEM_COMPLEX_DOUBLE;
    if (what == 1) is[0] = 5;
    if (what == 2) is[1] = 7;
    if (what == 3) us[1] = 2;
    if (what == 4) us[0] = 3;
    if (what == 5) as[0] = 1;
    if (what == 6) bs[0] = 1;
    if (what == 7) vs[0] = 1;
    if (what == 8) id = 3;
    if (what == 9) ud = 3;
    if (what == 10) ad = 2;
    if (what == 11) bd = 2;
    if (what == 12) vd = 3;
    if (what == 13) it = SDP_MEM_FLOAT;
    if (what == 14) ut = SDP_MEM_INT;
    if (what == 15) at = SDP_MEM_FLOAT;
    if (what == 16) bt = SDP_MEM_CHAR;
    if (what == 17) vt = SDP_MEM_DOUBLE;
    if (what == 18) vt = SDP_MEM_COMPLEX_FLOAT, ut = SDP_MEM_INT;
    sdp_Mem* g = sdp_mem_create(it, SDP_MEM_CPU, id, is, &st), * u = sdp_mem_create(ut, SDP_MEM_CPU, ud, us, &st), * a = sdp_mem_create(at, SDP_MEM_CPU, ad, as, &st),
        * b = sdp_mem_create(bt, SDP_MEM_CPU, bd, bs, &st), * v = sdp_mem_create(vt, SDP_MEM_CPU, vd, vs, &st);
    sdp_mem_clear_contents(g, &st); sdp_mem_clear_contents(u, &st); sdp_mem_clear_contents(a, &st); sdp_mem_clear_contents(b, &st); sdp_mem_clear_contents(v, &st);
    // Every row selects channel 0.
    if (bt == SDP_MEM_INT) for (int r = 0; r < bs[0]; ++r) ((int*) sdp_mem_data(b))[r] = 1;
    sdp_Mem* out = gridding ? g : v;
    if (what == 0) sdp_mem_set_read_only(out, 1);
    sym_check(st == SDP_SUCCESS, "made");
    sym_protect(sdp_mem_data(out), 8);
    if (gridding) sdp_gridder_wtower_uvw_grid(plan, v, u, a, b, 3e8, 1e6, g, 0, 0, 0, -1, -1, &st);
    else sdp_gridder_wtower_uvw_degrid(plan, g, 0, 0, 0, 3e8, 1e6, u, a, b, v, -1, -1, &st);
    sym_unprotect(sdp_mem_data(out), 8);
    sym_check(st != SDP_SUCCESS, "refused");
    sdp_mem_free(g); sdp_mem_free(u); sdp_mem_free(a); sdp_mem_free(b); sdp_mem_free(v);
    sdp_gridder_wtower_uvw_free(plan);
}
extern "C" void harness(void)
{
    sym_pin(1);
    if (CFG(op, 0) == 9) { refuse(); return; }
    const int t = CFG(type, 0);
    if (t == 0) run<cd, double, cd>();
    else if (t == 1) run<cf, double, cf>();
    else run<cf, float, cf>();
}
