// C06: numbers that cannot be used are refused, and whatever the numbers are,
// no memory is touched outside the arguments.
#include "sweep.h"
static int num(const char* name, int lo, int hi) { return sym_choice(name, lo, hi); }
static sdp_Mem* arr2(int type, int a, int b, sdp_Error* st)
{
    const int64_t s[] = {a, b};
    sdp_Mem* m = sdp_mem_create((sdp_MemType) type, SDP_MEM_CPU, b < 0 ? 1 : 2, s, st);
    sdp_mem_clear_contents(m, st);
    return m;
}
extern "C" void harness(void)
{
    const int fn = CFG(fn, 0);
    sdp_Error st = SDP_SUCCESS;
    const bool leak = CFG(leak, 0); // C34: whatever the numbers, what is allocated is freed
    if (leak) sym_leak_begin();
    if (fn == 0)
    {
        const int sg = num("subgrid", -2, 4), sup = num("support", -1, 4);
        sdp_GridderDirect* p = sdp_gridder_direct_create(8, sg, 0.25, 4, 0, 0, sup, &st);
        if (sg <= 0 || sup < 0) sym_check(st != SDP_SUCCESS, "refused"); else sym_check(st == SDP_SUCCESS, "accepted");
        if (st == SDP_SUCCESS)
        {
            sdp_Mem* im = arr2(SDP_MEM_COMPLEX_DOUBLE, 8, 8, &st);
            sdp_gridder_direct_degrid_correct(p, im, num("iu", -5, 5), 1, 0, &st);
            sdp_mem_free(im);
        }
        sdp_gridder_direct_free(p);
    }
    else if (fn == 1)
    {
        const int which = num("which", 0, 3);
        const int sg = num("subgrid", -2, which ? 4 : 6);
        const int sup = which == 0 ? num("sup", -1, 4) : 2, ov = which == 1 ? num("over", -1, 3) : 2, ws = which == 2 ? num("wsup", -1, 4) : 2, wo = which == 3 ? num("wover", -1, 3) : 2;
        sdp_GridderWtowerUVW* p = sdp_gridder_wtower_uvw_create(8, sg, 0.25, 4, 0, 0, sup, ov, ws, wo, &st);
        if (sg <= 0 || sg % 2 || sup <= 0 || ov <= 0 || ws <= 0 || wo <= 0) sym_check(st != SDP_SUCCESS, "refused"); else if (sup % 2 == 0 && ws % 2 == 0 && sup <= sg) sym_check(st == SDP_SUCCESS, "accepted");
        if (st == SDP_SUCCESS)
        {
            sdp_Mem* im = arr2(SDP_MEM_COMPLEX_DOUBLE, sg, sg, &st), *uvw = arr2(SDP_MEM_DOUBLE, 1, 3, &st), *vis = arr2(SDP_MEM_COMPLEX_DOUBLE, 1, 1, &st);
            sdp_Mem* sc = arr2(SDP_MEM_INT, 1, -1, &st), *ec = arr2(SDP_MEM_INT, 1, -1, &st);
            ((int*) sdp_mem_data(ec))[0] = 1;
            sdp_gridder_wtower_uvw_grid(p, vis, uvw, sc, ec, 1e8, 1e6, im, 0, 0, 0, 0, 5, &st);
            sdp_mem_free(im); sdp_mem_free(uvw); sdp_mem_free(vis); sdp_mem_free(sc); sdp_mem_free(ec);
        }
        sdp_gridder_wtower_uvw_free(p);
    }
    else if (fn == 2)
    {
        const int a = num("a", -2, 3), b = num("b", -2, 3);
        sdp_FunctionExampleA* p = sdp_function_example_a_create_plan(a, b, 1, &st);
        if (st == SDP_SUCCESS)
        {
            const int64_t s[] = {9};
            sdp_Mem* o = sdp_mem_create(SDP_MEM_FLOAT, SDP_MEM_CPU, 1, s, &st);
            sdp_function_example_a_exec(p, o, &st);
            sdp_mem_free(o);
        }
        sdp_function_example_a_free_plan(p);
    }
    else if (fn == 3) // any image and field of view
    {
        const int n = num("n", 0, 9);
        sdp_Mem* im = arr2(SDP_MEM_COMPLEX_DOUBLE, n, n, &st);
        static const double f[] = {-0.1, 0, 0.01, 0.05, 0.1, 0.15, 0.2, 0.24, 0.25, 0.3, 0.5, 5};
        sdp_gridder_worst_case_image(0.25, f[num("fov", 0, 11)], im, &st);
        sdp_mem_free(im);
    }
    else if (fn == 4 || fn == 5 || fn == 6) // any rows
    {
        sdp_Mem* uvw = arr2(SDP_MEM_DOUBLE, 3, 3, &st);
        sdp_Mem* c[4]; for (int i = 0; i < 4; ++i) c[i] = arr2(SDP_MEM_INT, 3, -1, &st);
        const int r0 = num("r0", -2, 5), r1 = num("r1", -2, 5);
        if (fn == 4) sdp_gridder_clamp_channels_single(uvw, num("dim", -1, 3), 1e8, 1e6, c[0], c[1], -0.5, 0.5, c[2], c[3], r0, r1, &st);
        else if (fn == 5) sdp_gridder_clamp_channels_uv(uvw, 1e8, 1e6, c[0], c[1], -0.5, 0.5, -0.5, 0.5, c[2], c[3], r0, r1, &st);
        else sdp_gridder_sum_diff(c[0], c[1], &t_count, r0, r1, &st);
        sdp_mem_free(uvw); for (int i = 0; i < 4; ++i) sdp_mem_free(c[i]);
    }
    else if (fn == 7 || fn == 8) // any offset
    {
        sdp_Mem* g = arr2(SDP_MEM_COMPLEX_DOUBLE, 4, 5, &st), *s = arr2(SDP_MEM_COMPLEX_DOUBLE, 2, 3, &st);
        const int u = num("u", -9, 9), v = num("v", -9, 9);
        if (fn == 7) sdp_gridder_subgrid_add(g, u, v, s, 1, &st);
        else sdp_gridder_subgrid_cut_out(g, u, v, s, &st);
        sdp_mem_free(g); sdp_mem_free(s);
    }
    else if (fn == 9) // any sizes of SwiFTly
    {
        const int which = num("which", 0, 2);
        const int N = which == 0 ? num("N", -1, 16) : 16, y = which == 1 ? num("y", -1, 16) : 8, x = which == 2 ? num("x", -1, 16) : 8;
        sdp_SwiFTly* p = sdp_swiftly_create(N, y, x, 2, &st);
        if (st == SDP_SUCCESS)
        {
            sdp_Mem* a = arr2(SDP_MEM_COMPLEX_DOUBLE, 1, 2, &st), *b = arr2(SDP_MEM_COMPLEX_DOUBLE, 1, y, &st);
            sdp_swiftly_prepare_facet(p, a, b, 2, &st);
            sdp_mem_free(a); sdp_mem_free(b);
        }
        sdp_swiftly_free(p);
    }
    else if (fn == 10) // beams: any number of points, stride and offset
    {
        const int64_t n = 3;
        const int t = num("kind", 0, 2);
        sdp_Mem* th = sdp_mem_create(SDP_MEM_DOUBLE, SDP_MEM_CPU, 1, &n, &st), *ph = sdp_mem_create(SDP_MEM_DOUBLE, SDP_MEM_CPU, 1, &n, &st);
        for (int i = 0; i < 3; ++i) { ((double*) sdp_mem_data(th))[i] = 0.5; ((double*) sdp_mem_data(ph))[i] = 0.25; }
        sdp_Mem* o = arr2(SDP_MEM_COMPLEX_DOUBLE, 3, t ? 4 : 1, &st);
        sdp_element_beam_dipole(num("points", -1, 4), th, ph, 1e8, 0.5, num("stride", -1, 5), num("offset", -2, 5), o, &st);
        sdp_mem_free(th); sdp_mem_free(ph); sdp_mem_free(o);
    }
    else if (fn == 11) // kernels
    {
        const int sup = num("sup", -2, 5), ov = num("ov", 0, 3), w = num("w", 0, 5);
        sdp_Mem* k = arr2(SDP_MEM_DOUBLE, ov, w, &st);
        sdp_gridder_make_pswf_kernel(sup, k, &st);
        sdp_mem_free(k);
    }
    else if (fn == 12) // FFT
    {
        const int nd = num("nd", 1, 2);
        const int64_t s[] = {num("n", 0, 3), nd == 1 ? 1 : num("m", 0, 2)};
        sdp_Mem* a = sdp_mem_create(SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_CPU, nd, s, &st);
        sdp_Fft* f = sdp_fft_create(a, a, num("fft", -1, 3), num("fwd", 0, 1), &st);
        if (num("shift", 0, 1)) sdp_fft_exec_shift(f, a, 1, &st); else sdp_fft_exec(f, a, a, &st);
        sdp_fft_free(f); sdp_mem_free(a);
    }
    else sym_check(true, "none");
    if (leak) sym_leak_check();
}
