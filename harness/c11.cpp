// C11: flagging decisions follow the documented per-sample rules.
#include "common.h"
#include "ska-sdp-func/visibility/sdp_flagger.h"
static double order_stat(const double* a, int n) // median: element n/2 in order
{
    double s[16];
    for (int i = 0; i < n; ++i)
    {
        int j = i;
        while (j > 0 && s[j - 1] > a[i]) { s[j] = s[j - 1]; --j; }
        s[j] = a[i];
    }
    return s[n / 2];
}
static double med_dev(const double* a, int n, double m)
{
    double d[16];
    for (int i = 0; i < n; ++i) d[i] = a[i] > m ? a[i] - m : m - a[i];
    return order_stat(d, n);
}
static bool beyond(double med, double dev, double v, double thr)
{
    if (dev == 0) return v == med ? 0 > thr : 10000000 > thr;
    // (a score within rounding of the threshold may go either way)
    const double z = 0.6795 * (v - med), h = thr * dev;
    sym_assume((z > h + 1e-6) | (z < h - 1e-6));
    sym_assume((z > 1e-6 - h) | (z < -h - 1e-6));
    return z > h || z < -h;
}
template<typename C> static void run()
{
    const int nt = CFG(nt, 2), nb = CFG(nb, 1), nc = CFG(nc, 3), np = CFG(np, 1), step = CFG(step, 1), win = CFG(win, 0), hist = CFG(hist, 2);
    const int sb = CFG(sb, 0), sp = CFG(sp, 0), mask = CFG(mask, 1), pat = CFG(pat, 0);
    const double alpha = 0.5, tm = CFG(tm, 20) / 10.0, tv = CFG(tv, 20) / 10.0, tb = CFG(tb, 20) / 10.0;
    sdp_Error st = SDP_SUCCESS;
    Arr<C> vis(&st, 0, nt, nb, nc, np);
    Arr<int> fl(&st, 0, nt, nb, nc, np);
    const int sh = CFG(shift, -1); // every amplitude of one time sample moves together
    const double off = sh >= 0 ? sym_double("shift", 0, 40) : 0;
    double* amp = (double*) malloc(sizeof(double) * nt * nb * nc * np);
    for (int t = 0, e = 0; t < nt; ++t) for (int b = 0; b < nb; ++b) for (int c = 0; c < nc; ++c) for (int p = 0; p < np; ++p, ++e)
    {
        static const int v[] = {8, 10, 9, 11, 8, 12, 7, 9, 10, 8, 13, 9, 8};
        static const int q[] = {8, 8, 8, 8};
        const int k = t * nc + c;
        const bool s = b == sb && p == sp && k < 31 && (mask >> k & 1);
        double x = pat == 1 ? q[k % 4] : v[(3 * b + 5 * p + k + pat) % 13];
        if (s) x = sym_double(Nm("amp", t, c), 1, 40);
        else if (t == sh && b == sb && p == sp) x = x + off;
        // Along one of the four half axes, so that the amplitude is exact.
        const int dir = (t + c + b) % 4;
        const double re = dir == 0 ? x : dir == 2 ? -x : 0, im = dir == 1 ? x : dir == 3 ? -x : 0;
        vis(t, b, c, p) = C(re, im);
        amp[e] = x;
        fl(t, b, c, p) = e % 3 == 1 ? 5 : 0;
    }
    vis.protect();
    int* want = (int*) malloc(sizeof(int) * nt * nb * nc * np);
    for (int e = 0; e < nt * nb * nc * np; ++e) want[e] = fl.lin(e);
    sdp_flagger_dynamic_threshold(vis.mem, fl.mem, alpha, tm, tv, tb, step, win, hist, &st);
    sym_check(st == SDP_SUCCESS, "status");
#define A(t, c) amp[(((t) * nb + b) * nc + (c)) * np + p]
#define W(t, c) want[(((t) * nb + b) * nc + (c)) * np + p]
    const int n = nc / step;
    for (int b = 0; b < nb; ++b) for (int p = 0; p < np; ++p)
    {
        double score[16], meds[16];
        for (int t = 0; t < nt; ++t)
        {
            double s[16], d[16];
            for (int i = 0; i < n; ++i) s[i] = A(t, i * step);
            const double med = order_stat(s, n), dev = med_dev(s, n, med);
            meds[t] = med;
            const int h = t + 1 < hist ? t + 1 : hist;
            for (int i = 0; i < h; ++i) d[i] = meds[t - i];
            const double mm = order_stat(d, h), md = med_dev(d, h, mm);
            const bool broad = t > 0 && beyond(mm, md, med, tb);
            for (int c = 0; c < nc; ++c)
                if (broad || beyond(med, dev, A(t, c), tm))
                    for (int k = -win; k <= win; ++k) if (c + k >= 0 && c + k < nc) W(t, c + k) = 1;
            if (t == 0) continue;
            for (int c = 0; c < nc; ++c)
            {
                const double ch = A(t, c) > A(t - 1, c) ? A(t, c) - A(t - 1, c) : A(t - 1, c) - A(t, c);
                score[c] = t == 1 ? ch : alpha * ch + (1 - alpha) * score[c];
            }
            for (int i = 0; i < n; ++i) s[i] = score[i * step];
            // The scatter of the scores is taken about the median amplitude.
            const double mv = order_stat(s, n), dv = med_dev(s, n, med);
            for (int c = 0; c < nc; ++c)
                if (beyond(mv, dv, score[c], tv))
                    for (int k = -win; k <= win; ++k) if (c + k >= 0 && c + k < nc) W(t, c + k) = W(t - 1, c + k) = 1;
        }
    }
    for (int e = 0; e < nt * nb * nc * np; ++e) sym_check(fl.lin(e) == want[e], "flags");
    vis.release(); fl.release(); free(want); free(amp);
}
extern "C" void harness(void)
{
    if (CFG(type, 0) == 0) run<cd>(); else run<cf>();
}
