// A table of the processing functions with arrays that fit together, and the
// ways in which they can be made not to fit.
#pragma once
#include "common.h"
#include "ska-sdp-func/clean/sdp_hogbom_clean.h"
#include "ska-sdp-func/clean/sdp_ms_clean_cornwell.h"
#include "ska-sdp-func/examples/sdp_function_example_a.h"
#include "ska-sdp-func/examples/sdp_vector_add.h"
#include "ska-sdp-func/fourier_transforms/sdp_fft.h"
#include "ska-sdp-func/fourier_transforms/sdp_pswf.h"
#include "ska-sdp-func/fourier_transforms/sdp_swiftly.h"
#include "ska-sdp-func/grid_data/sdp_degrid_uvw_custom.h"
#include "ska-sdp-func/grid_data/sdp_grid_wstack_wtower.h"
#include "ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h"
#include "ska-sdp-func/grid_data/sdp_gridder_direct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_grid_correct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
#include "ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_height.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.h"
#include "ska-sdp-func/numeric_functions/sdp_fft_convolution.h"
#include "ska-sdp-func/station_beam/sdp_element_dipole.h"
#include "ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.h"
#include "ska-sdp-func/station_beam/sdp_station.h"
#include "ska-sdp-func/utility/sdp_sky_coord.h"
#include "ska-sdp-func/visibility/sdp_dft.h"
#include "ska-sdp-func/visibility/sdp_flagger.h"
#include "ska-sdp-func/visibility/sdp_opt_weighting.h"
#include "ska-sdp-func/visibility/sdp_phase_rotate.h"
#include "ska-sdp-func/visibility/sdp_tiled_functions.h"
#include "ska-sdp-func/visibility/sdp_weighting.h"

// Array descriptions: "[>]type[dims][=fill]"; '>' marks an output.  Types:
// d f z c i = double, float, complex double, complex float, int.  Dimensions
// are numbers or letters; a letter stands for the same size wherever it is.
typedef void (*SetupFn)(sdp_Error*);
typedef void (*CallFn)(sdp_Mem** m, sdp_Error* st);
struct Case { const char* name; const char* arrays; CallFn call; const char* accept; SetupFn setup; SetupFn done; };
static const int LET[26] = {/*a*/1, /*b*/3, /*c*/2, /*d*/4, /*e*/5, /*f*/2, /*g*/8, /*h*/6, /*i*/3, /*j*/4, /*k*/5, /*l*/7, /*m*/6, /*n*/4, /*o*/3, /*p*/1, /*q*/4, /*r*/3, /*s*/2, /*t*/2, /*u*/5, /*v*/9, /*w*/3, /*x*/8, /*y*/16, /*z*/12};
struct One
{
    char type; bool out; int nd; int64_t dim[6]; char let[6]; double fill; bool hasfill;
    sdp_Mem* mem; char* data; int64_t bytes;
};
static One arr[14];
static int narr;
static int64_t now[14][6]; // the strides of each array
static int esize(int t) { return t == SDP_MEM_CHAR ? 1 : t == SDP_MEM_INT || t == SDP_MEM_FLOAT ? 4 : t == SDP_MEM_COMPLEX_DOUBLE ? 16 : 8; }
static int mtype(char c) { return c == 'd' ? SDP_MEM_DOUBLE : c == 'f' ? SDP_MEM_FLOAT : c == 'z' ? SDP_MEM_COMPLEX_DOUBLE : c == 'c' ? SDP_MEM_COMPLEX_FLOAT : c == 'b' ? SDP_MEM_CHAR : SDP_MEM_INT; }
static void parse(const char* s)
{
    narr = 0;
    while (*s)
    {
        if (*s == ' ') { ++s; continue; }
        One& o = arr[narr++];
        o.out = false; o.hasfill = false; o.nd = 0; o.fill = 0;
        if (*s == '>') { o.out = true; ++s; }
        o.type = *s++;
        if (*s == '[')
        {
            ++s;
            while (*s != ']')
            {
                if (*s == ',') { ++s; continue; }
                if (*s >= 'a' && *s <= 'z') { o.let[o.nd] = *s; o.dim[o.nd++] = LET[*s - 'a']; ++s; }
                else { int v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); o.let[o.nd] = 0; o.dim[o.nd++] = v; }
            }
            ++s;
        }
        if (*s == '=') { ++s; o.hasfill = true; bool neg = *s == '-'; if (neg) ++s; double v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); o.fill = neg ? -v : v; }
    }
}
static bool shared(int a, int d) // the dimension is tied to another one, or to a number
{
    const char l = arr[a].let[d];
    if (!l) return true;
    for (int i = 0; i < narr; ++i) for (int j = 0; j < arr[i].nd; ++j) if ((i != a || j != d) && arr[i].let[j] == l) return true;
    return false;
}
// Element e of array a, of its kind.
static void put(int a, int type, int64_t e, double re, double im)
{
    char* p = arr[a].data + e * esize(type);
    if (type == SDP_MEM_DOUBLE) *(double*) p = re;
    else if (type == SDP_MEM_FLOAT) *(float*) p = (float) re;
    else if (type == SDP_MEM_INT) *(int*) p = re > 1000 ? 1000 : (int) re;
    else if (type == SDP_MEM_CHAR) *p = re > 100 ? 100 : (char) re;
    else if (type == SDP_MEM_COMPLEX_DOUBLE) { ((double*) p)[0] = re; ((double*) p)[1] = im; }
    else { ((float*) p)[0] = (float) re; ((float*) p)[1] = (float) im; }
}
static int64_t total(int a) { int64_t n = 1; for (int i = 0; i < arr[a].nd; ++i) n *= arr[a].dim[i]; return n; }
// Element number e (in row-major order) of array a with the given strides in bytes: its offset.
static int64_t where(int a, int64_t e, const int64_t* strides)
{
    int64_t off = 0;
    for (int k = arr[a].nd - 1; k >= 0; --k) { off += (e % arr[a].dim[k]) * strides[k]; e /= arr[a].dim[k]; }
    return off;
}
// Creates the handle of array a: `extra` more elements of every dimension are allocated for a dimension of unknown size.
static void make(int a, int type, int loc, int nd, const int64_t* shape, int64_t alloc, sdp_Error* st, const int64_t* strides = 0)
{
    arr[a].bytes = strides ? (alloc * esize(type) + 7) / 8 * 8 : alloc * 16;
    arr[a].data = (char*) malloc((size_t) arr[a].bytes);
    for (int64_t i = 0; i < arr[a].bytes; i += 8) *(double*) (arr[a].data + i) = 0;
    const int64_t ne = strides ? total(a) : alloc;
#ifdef SWEEP_RACE
    // Free data in array number `sym` - 1, the same ones in both calls.
    static double* free_data = 0;
    if (CFG(sym, 0) == a + 1 && !arr[a].hasfill && arr[a].type != 'i')
    {
        const bool first = free_data == 0;
        if (first) free_data = (double*) malloc((size_t) (2 * alloc) * sizeof(double));
        for (int64_t e = 0; e < alloc; ++e)
        {
            if (first && e >= CFG(n, 1000)) { free_data[2 * e] = 0.25 + 0.5 * (double) (e % 5); free_data[2 * e + 1] = 0.125 * (double) (e % 3); } // the usual value
            else if (first) { free_data[2 * e] = sym_double(Nm("re", e), -2, 2); free_data[2 * e + 1] = arr[a].type == 'z' || arr[a].type == 'c' ? sym_double(Nm("im", e), -2, 2) : 0; }
            put(a, type, e, free_data[2 * e], free_data[2 * e + 1]);
        }
    }
    else
#endif
    for (int64_t e = 0; e < ne; ++e) put(a, type, strides ? where(a, e, strides) / esize(type) : e, arr[a].hasfill ? arr[a].fill : 0.25 + 0.5 * (double) (e % 5), arr[a].hasfill ? 0 : 0.125 * (double) (e % 3));
    for (int64_t k = nd - 1, n = esize(type); k >= 0; --k) { now[a][k] = strides ? strides[k] : n; n *= shape[k]; }
    arr[a].mem = sdp_mem_create_wrapper(arr[a].data, (sdp_MemType) type, (sdp_MemLocation) loc, nd, shape, strides, st);
}
static void drop(int a) { sdp_mem_ref_dec(arr[a].mem); sym_unprotect(arr[a].data, arr[a].bytes); free(arr[a].data); }
static int t_loc = SDP_MEM_CPU, t_cplx = SDP_MEM_COMPLEX_DOUBLE; // where arrays are and what plans are made for
static int t_host = -1;                                          // an array that stays on the CPU
static int location(int a) { return a == t_host ? SDP_MEM_CPU : t_loc; }
static void make_right(int a, sdp_Error* st) { make(a, mtype(arr[a].type), location(a), arr[a].nd, arr[a].dim, total(a) > 0 ? total(a) : 1, st); }
#include "sweep_table.h"
static const int NCASE = (int) (sizeof(TABLE) / sizeof(TABLE[0]));
// "0t1.2n" : array 0 may have another type, array 1 another size in dimension 2 (s), another number of dimensions (n), location (l), writability (w).
static bool accepted(const char* s, int a, char what, int dim)
{
    for (; s && *s; ++s)
    {
        if (*s == ' ' || *s == '!') continue;
        int n = 0; while (*s >= '0' && *s <= '9') n = n * 10 + (*s++ - '0');
        const char c = *s;
        int d = -1;
        if (s[1] >= '0' && s[1] <= '9') d = *++s - '0';
        if (n == a && c == what && (d < 0 || d == dim)) return true;
    }
    return false;
}

// Strides of array a with gaps between its elements (in units of bytes); returns the number of elements it spans.
static int64_t layout(int a, int order, int64_t* strides)
{
    int64_t n = order ? 1 : 2; // column order, or row order with every other element used
    for (int k = 0; k < arr[a].nd; ++k)
    {
        const int d = order ? k : arr[a].nd - 1 - k;
        strides[d] = n * esize(mtype(arr[a].type));
        n *= arr[a].dim[d];
    }
    return n;
}
static double get(int a, int64_t off, int part)
{
    const char* p = arr[a].data + off;
    const int t = mtype(arr[a].type);
    if (t == SDP_MEM_DOUBLE) return part ? 0 : *(const double*) p;
    if (t == SDP_MEM_FLOAT) return part ? 0 : *(const float*) p;
    if (t == SDP_MEM_INT) return part ? 0 : *(const int*) p;
    if (t == SDP_MEM_COMPLEX_DOUBLE) return ((const double*) p)[part];
    return ((const float*) p)[part];
}
static double* snapshot()
{
    int64_t n = 0;
    for (int i = 0; i < narr; ++i) if (arr[i].out) n += 2 * total(i);
    double* b = (double*) malloc((size_t) (n ? n : 1) * sizeof(double));
    n = 0;
    for (int i = 0; i < narr; ++i) if (arr[i].out)
        for (int64_t e = 0; e < total(i); ++e) for (int part = 0; part < 2; ++part) b[n++] = get(i, where(i, e, now[i]), part);
    return b;
}
static void compare(const double* b, const char* what = "same-result-in-another-layout")
{
    int64_t n = 0;
    for (int i = 0; i < narr; ++i) if (arr[i].out)
        for (int64_t e = 0; e < total(i); ++e) for (int part = 0; part < 2; ++part)
            sym_near(get(i, where(i, e, now[i]), part), b[n++], Nm(what, i, (int) e));
}
static bool used(int a, int64_t off, const int64_t* strides)
{
    for (int64_t e = 0; e < total(a); ++e) if (where(a, e, strides) == off) return true;
    return false;
}
static void gaps_intact(int a, int64_t span, const int64_t* strides)
{
    const int64_t w = esize(mtype(arr[a].type));
    for (int64_t off = 0; off < span * w; off += w) if (!used(a, off, strides))
        for (int part = 0; part < 2; ++part) sym_check(get(a, off, part) == 0, Nm("gaps-intact", a, (int) (off / w)));
}
