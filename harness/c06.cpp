// C06: arguments that do not fit are refused before any data is touched.
// C34 (leak=1): with the same calls, what every call allocates is freed.
// C37 (gpu=1): with arrays in GPU memory.
// C33 (race=n): the same fitting calls with n threads, every array over its full size.
#include "sweep.h"
extern "C" void harness(void)
{
    const int id = CFG(fn, 0);
    if (id >= NCASE) { sym_check(true, "no-such-entry"); return; }
    const Case& c = TABLE[id];
    parse(c.arrays);
    if (CFG(gpu, 0)) { t_loc = SDP_MEM_GPU; const char* h = "hogbom"; int k = 0; while (h[k] && c.name[k] == h[k]) ++k; if (!h[k]) t_host = 2; }
    const bool leak = CFG(leak, 0);
    t_verb = leak ? 2 : 0;
#ifdef SWEEP_RACE
    sym_threads(t_thr = 1); sym_chunk(1);
#endif
    sdp_Error st = SDP_SUCCESS;
    if (leak) sym_leak_begin();
    if (c.setup) c.setup(&st);
    sym_check(st == SDP_SUCCESS, "setup");
    sdp_Mem* m[14];
    // One thing about one array is wrong; or nothing is.
    const int a = sym_choice("array", -1, (c.accept && c.accept[0] == '!') || CFG(race, 0) || CFG(fit, 0) ? -1 : narr - 1);
    bool outs = c.accept && c.accept[0] == '!';
    const int what = a < 0 ? 0 : sym_choice("what", 0, 6);
    if (leak) sym_assume(what != 5 && what != 6);
    bool skip = false; int which = -1;
    int64_t gap[6] = {0}, span = 0; // strides of an array with gaps
    double* before = 0;
    if (what == 6) // the same call with contiguous arrays first
    {
        sym_assume(arr[a].nd > 0);
        for (int i = 0; i < narr; ++i) { make_right(i, &st); m[i] = arr[i].mem; }
        c.call(m, &st);
        sym_check(st == SDP_SUCCESS, "fitting-arguments-accepted");
        before = snapshot();
        for (int i = 0; i < narr; ++i) drop(i);
    }
#ifdef SWEEP_RACE
    for (int i = 0; i < narr; ++i) { make_right(i, &st); m[i] = arr[i].mem; }
    c.call(m, &st);
    double* alone = snapshot();
    const double ret = t_ret; const int64_t cnt = t_count; t_ret = 0; t_count = 0;
    for (int i = 0; i < narr; ++i) drop(i);
    sym_threads(t_thr = CFG(race, 2));
#endif
    for (int i = 0; i < narr; ++i)
    {
        One& o = arr[i];
        if (i != a) { make_right(i, &st); continue; }
        if (what == 0) // the type
        {
            static const int ty[] = {SDP_MEM_CHAR, SDP_MEM_INT, SDP_MEM_FLOAT, SDP_MEM_DOUBLE, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE};
            const int t = ty[sym_choice("type", 0, 5)];
            sym_assume(t != mtype(o.type));
            if (leak) sym_assume(t == (mtype(o.type) ^ SDP_MEM_COMPLEX) || t == SDP_MEM_CHAR || t == (o.type == 'z' ? SDP_MEM_COMPLEX_FLOAT : o.type == 'd' ? SDP_MEM_FLOAT : SDP_MEM_INT));
            which = t == SDP_MEM_CHAR ? 0 : t == SDP_MEM_INT ? 1 : t == SDP_MEM_FLOAT ? 2 : t == SDP_MEM_DOUBLE ? 3 : t == SDP_MEM_COMPLEX_FLOAT ? 4 : 5;
            skip = accepted(c.accept, i, 't', which);
            make(i, t, location(i), o.nd, o.dim, total(i), &st);
        }
        else if (what == 1) // the size of one dimension: any other size
        {
            const int d = o.nd ? sym_choice("dim", 0, o.nd - 1) : 0;
            sym_assume(o.nd > 0);
            skip = !shared(i, d) || accepted(c.accept, i, 's', d); which = d;
            int64_t sh[6];
            for (int k = 0; k < o.nd; ++k) sh[k] = o.dim[k];
            sh[d] = sym_int("size", 0, 12);
            sym_assume(sh[d] != o.dim[d]);
            if (CFG(gpu, 0)) sym_assume(sh[d] > 0);
            if (skip) sym_assume(sh[d] <= o.dim[d] + 2);
            if (leak) sym_assume(sh[d] == 0 || sh[d] == o.dim[d] - 1 || sh[d] == o.dim[d] + 1);
            if (!skip && accepted(c.accept, i, 'g', d)) { skip = sym_choice("larger", 0, 1); sym_assume(skip == (sh[d] > o.dim[d])); } // larger is allowed
            if (accepted(c.accept, i, 'z', d)) sym_assume(sh[d] > 0);        // empty is allowed
            if (accepted(c.accept, i, 'o', d)) sym_assume(sh[d] != 1);       // one is allowed
            make(i, mtype(o.type), location(i), o.nd, sh, (total(i) / o.dim[d]) * 12, &st);
        }
        else if (what == 2) // the number of dimensions
        {
            const int nd = sym_choice("dims", 1, 6);
            sym_assume(nd != o.nd);
            if (leak) sym_assume(nd == o.nd + 1 || nd == o.nd - 1);
            skip = accepted(c.accept, i, 'n', nd); which = nd;
            int64_t sh[6];
            const int lead = sym_choice("lead", 0, 1); // dimensions of size one in front, or behind
            for (int k = 0; k < nd; ++k) sh[k] = 1;
            if (nd < o.nd) for (int k = 0; k < nd; ++k) sh[k] = lead ? o.dim[k + o.nd - nd] : o.dim[k];
            else for (int k = 0; k < o.nd; ++k) sh[lead ? k + nd - o.nd : k] = o.dim[k];
            make(i, mtype(o.type), location(i), nd, sh, total(i), &st);
        }
        else if (what == 3) // the location
        {
            sym_assume(!accepted(c.accept, i, 'l', -1) && (t_loc == SDP_MEM_CPU || (narr > 1 && id != 42)));
            make(i, mtype(o.type), location(i) == SDP_MEM_CPU ? SDP_MEM_GPU : SDP_MEM_CPU, o.nd, o.dim, total(i), &st);
        }
        else if (what == 6) // elements that are not next to each other
        {
            const int order = o.nd > 1 ? sym_choice("order", 0, 1) : 0;
            skip = true;
            span = layout(i, order, gap);
            make(i, mtype(o.type), location(i), o.nd, o.dim, span, &st, gap);
        }
        else if (what == 5) // an input that repeats itself along one dimension
        {
            sym_assume(!o.out && o.nd > 0);
            const int d = o.nd > 1 ? sym_choice("dim", 0, o.nd - 1) : 0;
            sym_assume(o.dim[d] > 1);
            skip = true;
            int64_t sh[6], str[6], n = 1;
            for (int k = o.nd - 1; k >= 0; --k) { sh[k] = o.dim[k]; str[k] = k == d ? 0 : n * esize(mtype(o.type)); if (k != d) n *= o.dim[k]; }
            make(i, mtype(o.type), location(i), o.nd, sh, n, &st, str);
        }
        else // an output that may not be written
        {
            sym_assume(o.out);
            sym_assume(!accepted(c.accept, i, 'w', -1));
            make_right(i, &st);
            sdp_mem_set_read_only(o.mem, 1);
        }
    }
    // Arrays of another kind that are documented to work, or a size that is not tied to any other: nothing outside the arrays is touched.
    const bool lenient = skip || leak;
    sym_check(st == SDP_SUCCESS, "arrays");
    for (int i = 0; i < narr; ++i) { m[i] = arr[i].mem; if (!CFG(tri, 0) && (outs || (a >= 0 && !lenient) || !arr[i].out)) sym_protect(arr[i].data, arr[i].bytes); }
    c.call(m, &st);
    if (leak) {}
    else if (a < 0) { if (c.accept && c.accept[0] == '!') sym_check(st != SDP_SUCCESS, "bad-numbers-refused"); else sym_check(st == SDP_SUCCESS, "fitting-arguments-accepted"); }
    else if (what == 6)
    {
        if (st == SDP_SUCCESS) { compare(before); gaps_intact(a, span, gap); }
        free(before);
    }
    else if (lenient) {}
    else if (what == 0) sym_check(st != SDP_SUCCESS, Nm("wrong-type-refused", a, which));
    else if (what == 1) sym_check(st != SDP_SUCCESS, Nm("wrong-size-refused", a, which));
    else if (what == 2) sym_check(st != SDP_SUCCESS, Nm("wrong-dimensions-refused", a, which));
    else if (what == 3) sym_check(st != SDP_SUCCESS, Nm("wrong-location-refused", a, which));
    else sym_check(st != SDP_SUCCESS, Nm("read-only-output-refused", a, which));
#ifdef SWEEP_RACE
    compare(alone, "same-result-with-threads"); free(alone);
    sym_near(t_ret, ret, "same-value-with-threads"); sym_check(t_count == cnt, "same-count-with-threads");
#endif
    for (int i = 0; i < narr; ++i) drop(i);
    if (c.done) c.done(&st);
    if (leak) sym_leak_check();
}
