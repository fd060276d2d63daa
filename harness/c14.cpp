// C14: uvw bounds are the tight envelope of the unflagged data; sum_diff is the exact sum.
#include "common.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
#define C_0 299792458.0

template<typename T>
static void bounds()
{
    const int nr = CFG(nr, 2), nch = CFG(nch, 3);
    sdp_Error st = SDP_SUCCESS;
    Arr<T> uvw(&st, CFG(order, 0), nr, 3);
    Arr<int> s(&st, CFG(order2, 0), nr), e(&st, CFG(order2, 0), nr);
    for (int i = 0; i < nr; ++i)
    {
        for (int j = 0; j < 3; ++j)
            uvw(i, j) = j == CFG(axis, 0) ? sym<T>(Nm("uvw", i, j), -300, 300) : (T) (i * 7 - 10 * j);
        s(i) = sym_choice(Nm("start", i), 0, nch); e(i) = sym_choice(Nm("end", i), 0, nch);
    }
    uvw.protect(); s.protect(); e.protect();
    const double f0 = sym_double("f0", 1e8, 2e8), df = sym_double("df", 0, 1e6);
    double mn[3] = {7, 7, 7}, mx[3] = {-7, -7, -7};
    sdp_gridder_uvw_bounds_all(uvw.mem, f0, df, s.mem, e.mem, mn, mx, &st);
    sym_check(st == SDP_SUCCESS, "status");
    bool any = false;
    for (int i = 0; i < nr; ++i) if (s(i) < e(i)) any = true;
    sym_atol(1e-9);
    const int j = CFG(axis, 0);
    if (!any)
    {
        for (int k = 0; k < 3; ++k) sym_check(mn[k] == INFINITY && mx[k] == -INFINITY, "bounds-empty");
    }
    else
    {
        double rmn = 0, rmx = 0; bool first = true;
        for (int i = 0; i < nr; ++i)
            for (int c = s(i); c < e(i); ++c)
            {
                if (c != s(i) && c != e(i) - 1) continue; // linear in c: extremes at the ends
                const double v = (double) uvw(i, j) * (f0 + c * df) / C_0;
                if (first || v < rmn) rmn = v;
                if (first || v > rmx) rmx = v;
                first = false;
            }
        sym_near(mn[j], rmn, "bounds-min");
        sym_near(mx[j], rmx, "bounds-max");
    }
    uvw.release(); s.release(); e.release();
}

static void sumdiff()
{
    const int n = CFG(nr, 3);
    sdp_Error st = SDP_SUCCESS;
    Arr<int> a(&st, CFG(order, 0), n), b(&st, CFG(order2, 0), n);
    for (int i = 0; i < n; ++i) { a(i) = sym_int(Nm("a", i), 0, 1000000000); b(i) = sym_int(Nm("b", i), 0, 1000000000); }
    a.protect(); b.protect();
    const int s = sym_choice("start_row", 0, n), e = sym_choice("end_row", 0, n);
    int64_t r = -77, ref = 0;
    sdp_gridder_sum_diff(a.mem, b.mem, &r, s, e, &st);
    sym_check(st == SDP_SUCCESS, "status");
    for (int i = s; i < e; ++i) ref += (int64_t) a(i) - (int64_t) b(i);
    sym_check(r == ref, "sum-diff");
    a.release(); b.release();
}

extern "C" void harness(void)
{
    if (CFG(op, 0) == 0) { if (CFG(type, 0)) bounds<float>(); else bounds<double>(); }
    else sumdiff();
}
