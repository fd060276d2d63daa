// C37: with arrays in GPU memory, every function gives what it gives with arrays in CPU memory.
#define SWEEP_RACE
#include "sweep.h"
extern "C" int emu_launches;
static bool same(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return *a == *b; }
static const char* const KERNELS[] = {"fft_norm", "fft_phase", "fft_exec_shift", "vector_add", "clamp_single", "degrid_custom", "clamp_uv", "direct_grid_correct", "grid_correct_w_stack", "grid_correct_pswf", "direct_degrid_correct", "accumulate_scaled", "util_idft", "shift_subgrids", "scale_inv", "subgrid_add", "subgrid_cut_out", "uvw_bounds", "sum_diff", "dipole", "wtower_degrid", "wtower_grid_correct", "wtower_grid", "wtower_degrid_correct", "fft_convolution", "station", "dft_v01", "dft_v00", "rotate_uvw", "rotate_vis", "briggs", "uniform", "count_tiles", "hogbom", "bucket_sort", "tiled_indexing", "fft_create", "fft_exec", "rms_diff"};
extern "C" void harness(void)
{
    const int id = CFG(fn, 0);
    if (id >= NCASE) { sym_check(true, "no-such-entry"); return; }
    const Case& c = TABLE[id];
    parse(c.arrays);
    if (CFG(flt, 0)) for (int i = 0; i < narr; ++i) arr[i].type = arr[i].type == 'd' ? 'f' : arr[i].type == 'z' ? 'c' : arr[i].type;
    if (CFG(sym, 0) > narr || (CFG(sym, 0) && (arr[CFG(sym, 0) - 1].hasfill || arr[CFG(sym, 0) - 1].type == 'i'))) { sym_check(true, "no-such-array"); return; }
    if (same(c.name, "hogbom")) t_host = 2; // the beam parameters stay on the CPU
    // Functions without kernels refuse GPU arrays.
    bool kernel = false;
    for (int k = 0; k < (int) (sizeof(KERNELS) / sizeof(KERNELS[0])); ++k) kernel |= same(c.name, KERNELS[k]);
    sdp_Error st = SDP_SUCCESS;
    sdp_Mem* m[14];
    double* res = 0; double ret = 0, out[6]; int64_t cnt = 0; int num = 0;
    if (CFG(flt, 0)) { t_cplx = SDP_MEM_COMPLEX_FLOAT; sym_tol(1e-4); }
    for (int gpu = 0; gpu < 2; ++gpu)
    {
        t_loc = gpu ? SDP_MEM_GPU : SDP_MEM_CPU;
        t_ret = 0; t_count = 0; t_int = 0;
        for (int k = 0; k < 6; ++k) t_out[k] = 0;
        if (c.setup) c.setup(&st);
        if (gpu && st != SDP_SUCCESS) { sym_check(true, Nm("no-plan", id)); return; }
        sym_check(st == SDP_SUCCESS, "setup");
        for (int i = 0; i < narr; ++i)
        {
            const int64_t n = total(i) > 0 ? total(i) : 1;
            make(i, mtype(arr[i].type), location(i), arr[i].nd, arr[i].dim, n, &st);
            m[i] = arr[i].mem;
        }
        sym_check(st == SDP_SUCCESS, "arrays");
        if (gpu && !kernel) for (int i = 0; i < narr; ++i) sym_protect(arr[i].data, arr[i].bytes);
        c.call(m, &st);
        if (!gpu)
        {
            if (st != SDP_SUCCESS) { sym_check(true, "not-on-the-cpu"); return; }
            res = snapshot(); ret = t_ret; cnt = t_count; num = t_int;
            for (int k = 0; k < 6; ++k) out[k] = t_out[k];
        }
        else
        {
            if (!kernel) { sym_check(st != SDP_SUCCESS, "refused-without-kernel"); return; }
            sym_check(st == SDP_SUCCESS, "runs-on-the-gpu");
            sym_check(true, Nm(emu_launches ? "kernels-ran" : "no-kernel-ran", id));
            compare(res, "same-result-on-the-gpu");
            sym_near(t_ret, ret, "same-value-on-the-gpu");
            for (int k = 0; k < 6; ++k) sym_near(t_out[k], out[k], Nm("same-number-on-the-gpu", k));
            sym_check(t_count == cnt && t_int == num, "same-count-on-the-gpu");
        }
        if (c.done) c.done(&st);
        for (int i = 0; i < narr; ++i) drop(i);
    }
}
