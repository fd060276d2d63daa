// C15: sub-grid addition, cut-out and shift are the stated cyclic index maps.
#include "common.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"

static int64_t mod(int64_t a, int64_t n) { int64_t r = a % n; return r < 0 ? r + n : r; }

template<typename T, typename R>
static void run()
{
    const int gu = CFG(gu, 4), gv = CFG(gv, 5), su = CFG(su, 3), sv = CFG(sv, 2), op = CFG(op, 0);
    sdp_Error st = SDP_SUCCESS;
    if (op == 2)
    {
        const int w = CFG(gu, 3);
        Arr<T> s(&st, CFG(order, 0), w, sv, sv);
        s.fillSym("s");
        T* old = (T*) malloc(sizeof(T) * s.n);
        for (int e = 0; e < s.n; ++e) old[e] = s.lin(e);
        sdp_gridder_shift_subgrids(s.mem, &st);
        sym_check(st == SDP_SUCCESS, "status");
        for (int k = 0; k < w - 1; ++k)
            for (int e = 0; e < sv * sv; ++e)
                near_c(s.lin(k * sv * sv + e), old[(k + 1) * sv * sv + e], "shift-plane");
        for (int e = 0; e < sv * sv; ++e) near_c(s.lin((w - 1) * sv * sv + e), old[(w - 1) * sv * sv + e], "shift-last-kept");
        s.release(); free(old);
        return;
    }
    Arr<T> g(&st, CFG(order, 0), gu, gv), s(&st, CFG(order2, 0), su, sv);
    g.fillSym("g");
    s.fillSym("s");
    T* og = (T*) malloc(sizeof(T) * g.n);
    for (int e = 0; e < g.n; ++e) og[e] = g.lin(e);
    const int ru = CFG(ru, 2 * gu + 1), rv = CFG(rv, 2 * gv + 1);
    const int ou = sym_choice("offset_u", -ru, ru), ov = sym_choice("offset_v", -rv, rv);
    if (op == 0)
    {
        s.protect();
        const R f = sym<R>("factor");
        sdp_gridder_subgrid_add(g.mem, ou, ov, s.mem, f, &st);
        sym_check(st == SDP_SUCCESS, "status");
        for (int i = 0; i < su; ++i)
            for (int j = 0; j < sv; ++j)
                og[mod(i + gu / 2 - su / 2 - ou, gu) * gv + mod(j + gv / 2 - sv / 2 - ov, gv)] += s(i, j) * f;
        for (int e = 0; e < g.n; ++e) near_c(g.lin(e), og[e], "grid-after-add");
    }
    else
    {
        g.protect();
        sdp_gridder_subgrid_cut_out(g.mem, ou, ov, s.mem, &st);
        sym_check(st == SDP_SUCCESS, "status");
        for (int i = 0; i < su; ++i)
            for (int j = 0; j < sv; ++j)
                near_c(s(i, j), og[mod(i + gu / 2 - su / 2 + ou, gu) * gv + mod(j + gv / 2 - sv / 2 + ov, gv)], "cut-out");
    }
    g.release(); s.release(); free(og);
}

extern "C" void harness(void)
{
    switch (CFG(type, 0))
    {
    case 0: run<cd, double>(); break;
    case 1: run<cf, float>(); break;
    case 2: if (CFG(op, 0) != 2) run<double, double>(); else run<cd, double>(); break;
    default: if (CFG(op, 0) != 2) run<float, float>(); else run<cf, float>(); break;
    }
}
