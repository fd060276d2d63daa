// C27: SwiFTly steps are the documented linear maps of their inputs.
#include "common.h"
#include "ska-sdp-func/fourier_transforms/sdp_swiftly.h"
#include "ska-sdp-func/fourier_transforms/sdp_pswf.h"
#define PI 3.14159265358979323846
static int64_t N, yN, xM, m;
static double* win; // PSWF over the facet, yN values
static int md(int64_t a, int64_t b) { return (int) (((a % b) + b) % b); }
static int64_t dv(int64_t a, int64_t b) { int64_t q = a / b; return a % b < 0 ? q - 1 : q; } // floor
static cd ex(int64_t num, int64_t den) // exp(2 pi i num / den)
{
    num = md(num, den);
    if (4 * num % den == 0) { const int q = (int) (4 * num / den); return cd(q == 0 ? 1 : q == 2 ? -1 : 0, q == 1 ? 1 : q == 3 ? -1 : 0); }
    return cd(cos(2 * PI * num / den), sin(2 * PI * num / den));
}
static cd mul(cd a, cd b) { return cd(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
static double fb(int64_t i) { return i == 0 ? win[0] : 1 / win[i]; }
static double fn(int64_t i) { return win[(yN / 2) % (N / xM) + i * (N / xM)]; }

// One-dimensional reference maps: row of in (length ni) to row of out (no).
// Fourier transform of n values, sign s.
static void dft(cd* a, int n, int s, double f)
{
    cd* t = (cd*) malloc(sizeof(cd) * n);
    for (int k = 0; k < n; ++k)
    {
        cd v(0, 0);
        for (int j = 0; j < n; ++j) v += mul(a[j], ex((int64_t) s * j * k, n));
        t[k] = cd(v.real() * f, v.imag() * f);
    }
    for (int k = 0; k < n; ++k) a[k] = t[k];
    free(t);
}
// Grid position of the i-th entry of a contribution.
static int contrib_pos(int64_t off, int i)
{
    const int64_t s = off / (N / yN) - m / 2; // offsets are multiples where this is used for values
    return md(s + md(i - s, m), yN);
}
static void ref1(int op, const cd* in, int ni, cd* out, int no, int64_t off)
{
    cd* w = (cd*) malloc(sizeof(cd) * 64);
    if (op == 0) // prepare facet
    {
        for (int k = 0; k < yN; ++k) w[k] = cd(0, 0);
        for (int j = 0; j < ni; ++j) w[md(off - ni / 2 + j, yN)] = in[j] * fb(yN / 2 - ni / 2 + j);
        dft(w, (int) yN, 1, 1.0 / yN);
        for (int k = 0; k < yN; ++k) out[k] = w[k];
    }
    else if (op == 1) // extract from facet
    {
        for (int i = 0; i < m; ++i) w[i] = in[contrib_pos(off, i)];
        dft(w, (int) m, -1, 1);
        for (int k = 0; k < m; ++k) out[k] = w[k];
    }
    else if (op == 2) // add to subgrid: out is accumulated
    {
        const int64_t f = dv(off, N / xM);
        for (int i = 0; i < m; ++i) out[md(xM / 2 + f + i - m / 2, xM)] += in[md(i + f + m / 2, m)] * fn(i);
    }
    else if (op == 3) // finish subgrid
    {
        for (int i = 0; i < no; ++i)
        {
            cd v(0, 0);
            for (int k = 0; k < xM; ++k) v += mul(in[k], ex((k - xM / 2) * (i - no / 2 + off), xM));
            out[i] = cd(v.real() / xM, v.imag() / xM);
        }
    }
    else if (op == 4) // prepare subgrid
    {
        for (int k = 0; k < xM; ++k)
        {
            cd v(0, 0);
            for (int i = 0; i < xM; ++i) v += mul(in[i], ex(-(k - xM / 2) * (i - xM / 2 + off), xM));
            out[k] = v;
        }
    }
    else if (op == 5) // extract from subgrid
    {
        const int64_t f = dv(off, N / xM);
        for (int i = 0; i < m; ++i) w[md(i + f + m / 2, m)] = in[md(xM / 2 + f + i - m / 2, xM)] * fn(i);
        dft(w, (int) m, 1, 1.0 / m);
        for (int k = 0; k < m; ++k) out[k] = w[k];
    }
    else if (op == 6) // add to facet: out is accumulated
    {
        for (int i = 0; i < m; ++i) out[contrib_pos(off, i)] += in[i];
    }
    else // finish facet
    {
        for (int k = 0; k < yN; ++k) w[k] = in[k];
        dft(w, (int) yN, -1, 1);
        for (int j = 0; j < no; ++j) out[j] = w[md(off - no / 2 + j, yN)] * fb(yN / 2 - no / 2 + j);
    }
    free(w);
}
static int64_t offset(const char* n, int64_t unit, int few = 0)
{
    if (few == 2) return (sym_choice(n, 0, 2) + N / unit / 2 - 1) * unit; // contributions that wrap around the sub-grid
    if (few) return sym_choice(n, -1, 2) * unit;
    // Every offset of a cycle, moved by whole images.
    const int64_t step = CFG(any, 0) ? 1 : unit;
    const int64_t k = sym_choice(n, (int) (-N / step / 2 - 1), (int) (N / step / 2 + 1));
    return step * k + N * (CFG(wrap, 0) ? (CFG(op, 0) == 4 ? 3 : 1000003) * CFG(wrap, 0) : 0);
}
static int in_len(int op) { return op == 0 ? CFG(n, 4) : op == 1 || op == 7 ? (int) yN : op == 2 || op == 6 ? (int) m : (int) xM; }
static int out_len(int op) { return op == 0 || op == 6 ? (int) yN : op == 1 || op == 5 ? (int) m : op == 3 && CFG(inplace, 0) == 0 ? CFG(n, 4) : op == 7 ? CFG(n, 4) : (int) xM; }
static void call(sdp_SwiFTly* s, int op, sdp_Mem* in, sdp_Mem* out, int64_t off, sdp_Error* st)
{
    if (op == 0) sdp_swiftly_prepare_facet(s, in, out, off, st);
    else if (op == 1) sdp_swiftly_extract_from_facet(s, in, out, off, st);
    else if (op == 2) sdp_swiftly_add_to_subgrid(s, in, out, off, st);
    else if (op == 3) { if (in == out) sdp_swiftly_finish_subgrid_inplace(s, in, off, st); else sdp_swiftly_finish_subgrid(s, in, out, off, st); }
    else if (op == 4) sdp_swiftly_prepare_subgrid_inplace(s, in, off, st);
    else if (op == 5) sdp_swiftly_extract_from_subgrid(s, in, out, off, st);
    else if (op == 6) sdp_swiftly_add_to_facet(s, in, out, off, st);
    else sdp_swiftly_finish_facet(s, in, out, off, st);
}
static void call2(sdp_SwiFTly* s, int op, sdp_Mem* in, sdp_Mem* out, int64_t o0, int64_t o1, sdp_Error* st)
{
    if (op == 2) sdp_swiftly_add_to_subgrid_2d(s, in, out, o0, o1, st);
    else if (op == 3) sdp_swiftly_finish_subgrid_inplace_2d(s, in, o0, o1, st);
    else if (op == 4) sdp_swiftly_prepare_subgrid_inplace_2d(s, in, o0, o1, st);
    else sdp_swiftly_extract_from_subgrid_2d(s, in, out, o0, o1, st);
}
static bool is_inplace(int op) { return op == 4 || (op == 3 && CFG(inplace, 0)); }
// Offsets of subgrids go by N/yN and of facets by N/xM.
static int64_t unit(int op) { return op == 1 || op == 6 ? N / yN : op == 2 || op == 5 ? N / xM : 1; }

static void one(sdp_SwiFTly* s)
{
    const int op = CFG(op, 0), rows = CFG(rows, 2), ni = in_len(op), no = out_len(op), ord = CFG(order, 0), oo = CFG(oorder, ord);
    sdp_Error st = SDP_SUCCESS;
    const int64_t off = offset("offset", unit(op));
    Arr<cd> in(&st, ord, rows, ni), out(&st, oo, rows, no);
    in.fillSym("in");
    const bool ip = is_inplace(op);
    cd* ref = (cd*) malloc(sizeof(cd) * (rows * no + 1));
    cd* row = (cd*) malloc(sizeof(cd) * 64);
    if (op == 2 || op == 6) out.fillSym("out"); else out.fill(cd(7, 7));
    for (int r = 0; r < rows; ++r)
    {
        for (int j = 0; j < no; ++j) ref[r * no + j] = out(r, j);
        for (int j = 0; j < ni; ++j) row[j] = in(r, j);
        ref1(op, row, ni, ref + r * no, no, off);
    }
    if (!ip && op != 7) in.protect();
    sym_leak_begin();
    call(s, op, in.mem, ip ? in.mem : out.mem, off, &st);
    sym_leak_check();
    sym_check(st == SDP_SUCCESS, "status");
    if (!CFG(any, 0)) for (int r = 0; r < rows; ++r) for (int j = 0; j < no; ++j) near_c(ip ? in(r, j) : out(r, j), ref[r * no + j], "step-value");
    in.release(); out.release(); free(ref); free(row);
}
static void two(sdp_SwiFTly* s)
{
    const int op = CFG(op, 2), ni = in_len(op), no = out_len(op), ord = CFG(order, 0), oo = CFG(oorder, ord), L = 16;
    sdp_Error st = SDP_SUCCESS;
    const int64_t o0 = offset("offset0", unit(op)), o1 = offset("offset1", unit(op), CFG(few, 0));
    Arr<cd> in(&st, ord, ni, ni), out(&st, oo, no, no);
    in.fillSym("in");
    const bool ip = is_inplace(op);
    if (op == 2) out.fillSym("out"); else out.fill(cd(7, 7));
    // Two one-dimensional steps.
    cd* t = (cd*) malloc(sizeof(cd) * L * L); cd* ref = (cd*) malloc(sizeof(cd) * L * L); cd* a = (cd*) malloc(sizeof(cd) * 64); cd* b = (cd*) malloc(sizeof(cd) * 64);
    for (int i = 0; i < ni; ++i)
    {
        for (int j = 0; j < ni; ++j) a[j] = in(i, j);
        for (int j = 0; j < no; ++j) t[i * L + j] = cd(0, 0);
        ref1(op, a, ni, t + i * L, no, o1);
    }
    for (int j = 0; j < no; ++j)
    {
        for (int i = 0; i < ni; ++i) a[i] = t[i * L + j];
        for (int i = 0; i < no; ++i) b[i] = op == 2 ? out(i, j) : cd(0, 0);
        ref1(op, a, ni, b, no, o0);
        for (int i = 0; i < no; ++i) ref[i * L + j] = b[i];
    }
    if (!ip) in.protect();
    sym_leak_begin();
    call2(s, op, in.mem, ip ? in.mem : out.mem, o0, o1, &st);
    sym_leak_check();
    sym_check(st == SDP_SUCCESS, "status");
    if (!CFG(any, 0)) for (int i = 0; i < no; ++i) for (int j = 0; j < no; ++j) near_c(ip ? in(i, j) : out(i, j), ref[i * L + j], "step-value-2d");
    in.release(); out.release(); free(t); free(ref); free(a); free(b);
}
// Shapes that do not fit, a wrong type or a read-only output: refused, nothing written.
static void refuse(sdp_SwiFTly* s)
{
    const int op = CFG(op, 0), d2 = CFG(two, 0), ni = in_len(op), no = out_len(op), rows = d2 ? ni : 2, orows = d2 ? no : 2;
    sdp_Error st = SDP_SUCCESS;
    const bool ip = is_inplace(op);
    const int what = sym_choice("what", 0, 9);
    int a = rows, b = ni, c = orows, d = no;
    const int64_t ym = yN + 1;
    if (what == 0) { if (op == 0) b = (int) ym; else b = ni + 1; }
    else if (what == 1) { if (op == 0) sym_assume(false); b = ni - 1; }
    else if (what == 2) { if (ip) sym_assume(false); d = op == 7 ? (int) ym : op == 3 ? (int) xM + 1 : no + 1; }
    else if (what == 3) { if (ip || op == 7 || op == 3) sym_assume(false); d = no - 1; }
    else if (what == 4) { if (ip && !d2) sym_assume(false); a = rows - 1; }
    else if (what == 5) { if (ip) sym_assume(false); c = orows - 1; }
    else if (what == 8) { if (ip && !d2) sym_assume(false); a = rows + 1; }
    else if (what == 9) { if (ip) sym_assume(false); c = orows + 1; }
    if (what == 6) // single precision
    {
        const int w = ip ? 0 : sym_choice("which", 0, 1);
        if (w == 0) { Arr<cf> in(&st, 0, a, b); Arr<cd> out(&st, 0, c, d); in.fillSym("in"); out.fillSym("out"); in.protect(); out.protect();
            if (d2) call2(s, op, in.mem, ip ? in.mem : out.mem, 0, 0, &st); else call(s, op, in.mem, ip ? in.mem : out.mem, 0, &st); in.release(); out.release(); }
        else { Arr<cd> in(&st, 0, a, b); Arr<cf> out(&st, 0, c, d); in.fillSym("in"); out.fillSym("out"); in.protect(); out.protect();
            if (d2) call2(s, op, in.mem, out.mem, 0, 0, &st); else call(s, op, in.mem, out.mem, 0, &st); in.release(); out.release(); }
        sym_check(st != SDP_SUCCESS, "wrong-type-refused");
        return;
    }
    Arr<cd> in(&st, 0, a, b), out(&st, 0, c, d);
    in.fillSym("in"); out.fillSym("out");
    if (what == 7) { sdp_mem_set_read_only(ip ? in.mem : out.mem, 1); }
    in.protect(); out.protect();
    if (d2) call2(s, op, in.mem, ip ? in.mem : out.mem, 0, 0, &st); else call(s, op, in.mem, ip ? in.mem : out.mem, 0, &st);
    sym_check(st != SDP_SUCCESS, "misfit-refused");
    in.release(); out.release();
}
static void create()
{
    sdp_Error st = SDP_SUCCESS;
    // Sizes for the divisibility rules.
    const int64_t a = CFG(image, 0) ? CFG(image, 0) : sym_choice("image", -1, 0), b = sym_choice("facet", -2, 12), c = sym_choice("subgrid", -2, 12);
    const double W = CFG(w4, 8) / 4.0;
    const bool ok = a > 0 && b > 0 && c > 0 && a % b == 0 && a % c == 0 && (b * c) % a == 0 && b % 2 == 0 && c % 2 == 0;
    sym_leak_begin();
    sdp_SwiFTly* s = sdp_swiftly_create(a, b, c, W, &st);
    sym_check((st == SDP_SUCCESS) == ok && (s != 0) == ok, "create-accepts-fitting-sizes");
    if (s) sym_check(sdp_swiftly_get_image_size(s) == a && sdp_swiftly_get_facet_size(s) == b && sdp_swiftly_get_subgrid_size(s) == c, "plan-sizes");
    sdp_swiftly_free(s);
    sym_leak_check();
    sdp_swiftly_free(0);
}
extern "C" void harness(void)
{
    if (CFG(mode, 0) == 3) { create(); return; }
    N = CFG(N, 16); yN = CFG(y, 8); xM = CFG(x, 8); m = xM * yN / N;
    sdp_Error st = SDP_SUCCESS;
    const double W = CFG(w4, 8) / 4.0;
    Arr<double> w(&st, 0, yN);
    sdp_generate_pswf(0, W * (PI / 2), w.mem, &st);
    win = w.data;
    sdp_SwiFTly* s = sdp_swiftly_create(N, yN, xM, W, &st);
    sym_check(st == SDP_SUCCESS && s != 0, "created");
    if (CFG(mode, 0) == 0) one(s); else if (CFG(mode, 0) == 1) two(s); else refuse(s);
    sdp_swiftly_free(s);
    w.release();
}
