// C13: channel clamping keeps exactly the channels whose coordinate lies in the range.
#include "common.h"
#include "ska-sdp-func/utility/sdp_mem_view.h"
#include "ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h"

static const double MARGIN = 1e-4;

// Assumptions on the chosen channel come before the call, so that a path
// explores one channel and one expectation.
static void assume_side(int mode, const double* uc, const double* mn, const double* mx, int nd)
{
    if (mode == 1) for (int d = 0; d < nd; ++d) { sym_assume(uc[d] > mn[d] + MARGIN); sym_assume(uc[d] < mx[d] - MARGIN); }
    else
    {
        const int d = (mode - 2) >> 1;
        if (mode & 1) sym_assume(uc[d] > mx[d] + MARGIN); else sym_assume(uc[d] < mn[d] - MARGIN);
    }
}

template<typename T>
static void run()
{
    const int op = CFG(op, 0), nch = CFG(nch, 3), nr = CFG(nr, 1), dim = CFG(dim, 0);
    const double f0 = CFG(f0, 150) * 1e6, df = CFG(df, 200) * 1e3;
    sdp_Error st = SDP_SUCCESS;
    Arr<T> uvw(&st, CFG(order, 0), nr, 3);
    Arr<int> si(&st, CFG(order2, 0), nr), ei(&st, CFG(order2, 0), nr), so(&st, CFG(order2, 0), nr), eo(&st, CFG(order2, 0), nr);
    const int row = CFG(row, 0);
    for (int i = 0; i < nr; ++i)
    {
        for (int j = 0; j < 3; ++j) uvw(i, j) = (T) (10 * i - 20 * j + 5);
        si(i) = 0; ei(i) = nch; so(i) = -8; eo(i) = -9;
    }
    double mn[2], mx[2];
    if (CFG(cmm, 0)) { mn[0] = -40; mx[0] = CFG(cmm, 0) == 2 ? sym_double("max_u", -39, 69) : 25; }
    else { mn[0] = sym_double("min_u", -500, 500); mx[0] = sym_double("max_u", -500, 500); }
    sym_assume(mn[0] < mx[0]);
    const int nd = op == 1 ? 2 : 1;
    if (nd == 2) { mn[1] = CFG(minv, -20); mx[1] = CFG(maxv, 30); }
    for (int d = 0; d < nd; ++d)
    {
        if (CFG(zero, 0) && d == 0) uvw(row, dim) = 0;
        else
        {
            const T u = sym<T>(Nm("u", d), -300, 300);
            if (CFG(neg, 0)) sym_assume(u < -0.1); else sym_assume(u > 0.1);
            uvw(row, dim + d) = u;
        }
    }
    si(row) = CFG(si, 0); ei(row) = CFG(ei, nch);
    const int r0 = CFG(r0, -1), r1 = CFG(r1, -1);
    const int c = sym_choice("channel", 0, nch - 1), mode = sym_choice("expect", 1, op == 3 ? 2 : 1 + 2 * nd);
    double uc[2];
    for (int d = 0; d < nd; ++d) uc[d] = uvw(row, dim + d) * (f0 + c * df) / 299792458.0;
    const double top = CFG(cmm, 0) ? 70 : op == 3 ? sym_double("top", -500, 500) : 0;
    if (op == 3)
    {
        sym_assume(top > mx[0]);
        if (mode == 1) { sym_assume(uc[0] > mn[0] + MARGIN); sym_assume(uc[0] < top - MARGIN); }
    }
    else assume_side(mode, uc, mn, mx, nd);
    if (op == 0 || op == 1 || op == 2)
    {
        uvw.protect(); si.protect(); ei.protect();
        int64_t s64 = si(row), e64 = ei(row);
        if (op == 0) sdp_gridder_clamp_channels_single(uvw.mem, dim, f0, df, si.mem, ei.mem, mn[0], mx[0], so.mem, eo.mem, r0, r1, &st);
        else if (op == 1) sdp_gridder_clamp_channels_uv(uvw.mem, f0, df, si.mem, ei.mem, mn[0], mx[0], mn[1], mx[1], so.mem, eo.mem, r0, r1, &st);
        else { sdp_gridder_clamp_channels_inline(uvw(row, dim), f0, df, &s64, &e64, mn[0], mx[0]); so(row) = (int) s64; eo(row) = (int) e64; }
        sym_check(st == SDP_SUCCESS, "status");
        if (op != 2)
            for (int i = 0; i < nr; ++i)
                if (r0 >= 0 && (i < r0 || i >= r1)) sym_check(so(i) == -8 && eo(i) == -9, "clamp-other-rows");
        if (!(r0 >= 0 && (row < r0 || row >= r1)))
        {
            const bool in = (so(row) <= c) & (c < eo(row));
            sym_check(so(row) <= eo(row), "clamp-order");
            if (c < si(row) || c >= ei(row)) sym_check(!in, "clamp-input-range");
            else if (mode == 1) sym_check(in, "clamp-inside-kept");
            else sym_check(!in, "clamp-outside-dropped");
        }
    }
    else
    {
        // Adjacent ranges [a, b) and [b, d) share no channel and miss none.
        Arr<int> s2(&st, 0, nr), e2(&st, 0, nr);
        sdp_gridder_clamp_channels_single(uvw.mem, dim, f0, df, si.mem, ei.mem, mn[0], mx[0], so.mem, eo.mem, -1, -1, &st);
        sdp_gridder_clamp_channels_single(uvw.mem, dim, f0, df, si.mem, ei.mem, mx[0], top, s2.mem, e2.mem, -1, -1, &st);
        sym_check(st == SDP_SUCCESS, "status");
        const bool a = (so(row) <= c) & (c < eo(row)), b = (s2(row) <= c) & (c < e2(row));
        sym_check(!(a & b), "clamp-no-overlap");
        if (mode == 1 && c >= si(row) && c < ei(row)) sym_check(a | b, "clamp-no-gap");
        s2.release(); e2.release();
    }
    uvw.release(); si.release(); ei.release(); so.release(); eo.release();
}

// Coordinates and limits that are exact in floating point: lower limit inclusive, upper exclusive.
template<typename T>
static void exact()
{
    const int op = CFG(op, 10) - 10, nch = CFG(nch, 4), dim = CFG(dim, 0);
    const double c0 = 299792458.0, f0 = c0, df = CFG(df4, 1) * c0 / 4;
    sdp_Error st = SDP_SUCCESS;
    Arr<T> uvw(&st, 0, 2, 3);
    Arr<int> si(&st, 0, 2), ei(&st, 0, 2), so(&st, 0, 2), eo(&st, 0, 2);
    for (int j = 0; j < 6; ++j) uvw.lin(j) = (T) (j - 7);
    const int nd = op == 1 ? 2 : 1;
    double mn[2], mx[2];
    for (int d = 0; d < nd; ++d)
    {
        uvw(1, dim + d) = (T) (4 * (d == CFG(fixd, -1) ? CFG(fixv, 0) : sym_choice(Nm("u", d), -2, 2)));
        mn[d] = sym_int(Nm("min", d), -20, 20);
        mx[d] = sym_int(Nm("max", d), -20, 20);
        sym_assume(mn[d] < mx[d]);
    }
    for (int i = 0; i < 2; ++i) { si(i) = CFG(si, 0); ei(i) = CFG(ei, nch); }
    uvw.protect(); si.protect(); ei.protect();
    int64_t s64 = si(1), e64 = ei(1);
    if (op == 0) sdp_gridder_clamp_channels_single(uvw.mem, dim, f0, df, si.mem, ei.mem, mn[0], mx[0], so.mem, eo.mem, 1, 2, &st);
    else if (op == 1) sdp_gridder_clamp_channels_uv(uvw.mem, f0, df, si.mem, ei.mem, mn[0], mx[0], mn[1], mx[1], so.mem, eo.mem, 1, 2, &st);
    else { sdp_gridder_clamp_channels_inline(uvw(1, dim), f0, df, &s64, &e64, mn[0], mx[0]); so(1) = (int) s64; eo(1) = (int) e64; }
    sym_check(st == SDP_SUCCESS, "status");
    for (int c = 0; c < nch; ++c)
    {
        bool want = c >= si(1) && c < ei(1);
        for (int d = 0; d < nd; ++d)
        {
            const double u = uvw(1, dim + d) * (1 + CFG(df4, 1) * c / 4.0);
            want = want & (u >= mn[d]) & (u < mx[d]);
        }
        sym_check(((so(1) <= c) & (c < eo(1))) == want, "clamp-exact");
    }
    uvw.release(); si.release(); ei.release(); so.release(); eo.release();
}
extern "C" void harness(void)
{
    if (CFG(op, 0) >= 10) { if (CFG(type, 0)) exact<float>(); else exact<double>(); return; } if (CFG(type, 0)) run<float>(); else run<double>();
}
