// C05: nothing happens once an error status is set.
#include "common.h"
#include "ska-sdp-func/clean/sdp_hogbom_clean.h"
#include "ska-sdp-func/clean/sdp_ms_clean_cornwell.h"
#include "ska-sdp-func/examples/sdp_function_example_a.h"
#include "ska-sdp-func/examples/sdp_vector_add.h"
#include "ska-sdp-func/fourier_transforms/sdp_fft.h"
#include "ska-sdp-func/fourier_transforms/sdp_pswf.h"
#include "ska-sdp-func/fourier_transforms/sdp_swiftly.h"
#include "ska-sdp-func/grid_data/sdp_degrid_uvw_custom.h"
#include "ska-sdp-func/grid_data/sdp_grid_wstack_wtower.h"
#include "ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h"
#include "ska-sdp-func/grid_data/sdp_gridder_direct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_grid_correct.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
#include "ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft.h"
#include "ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_height.h"
#include "ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.h"
#include "ska-sdp-func/numeric_functions/sdp_fft_convolution.h"
#include "ska-sdp-func/station_beam/sdp_element_dipole.h"
#include "ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.h"
#include "ska-sdp-func/station_beam/sdp_station.h"
#include "ska-sdp-func/utility/sdp_data_model_checks.h"
#include "ska-sdp-func/visibility/sdp_dft.h"
#include "ska-sdp-func/visibility/sdp_flagger.h"
#include "ska-sdp-func/visibility/sdp_opt_weighting.h"
#include "ska-sdp-func/visibility/sdp_phase_rotate.h"
#include "ska-sdp-func/visibility/sdp_tiled_functions.h"
#include "ska-sdp-func/visibility/sdp_weighting.h"
// Freed memory: any access is reported.
static char* gone;
// An argument of each type: numbers are arbitrary, handles and arrays are invalid addresses.
template<typename T> struct Val { T v; Val(sdp_Error*) : v((T) sym_int("number", 0, 4)) {} T get() { return v; } };
template<> struct Val<double> { double v; Val(sdp_Error*) : v(sym_double("number", -1000, 1000)) {} double get() { return v; } };
template<> struct Val<float> { float v; Val(sdp_Error*) : v(sym_float("number", -1000, 1000)) {} float get() { return v; } };
template<> struct Val<int> { int v; Val(sdp_Error*) : v(sym_int("number", -1000, 1000)) {} int get() { return v; } };
template<> struct Val<int64_t> { int64_t v; Val(sdp_Error*) : v(sym_i64("number", -1000000, 1000000)) {} int64_t get() { return v; } };
template<typename T> struct Val<T*> { Val(sdp_Error*) {} T* get() { return (T*) gone; } };
template<> struct Val<const char*> { Val(sdp_Error*) {} const char* get() { return "x"; } };
template<> struct Val<sdp_Error*> { sdp_Error* p; Val(sdp_Error* s) : p(s) {} sdp_Error* get() { return p; } };
template<typename T> struct Val<T&> { T v; Val(sdp_Error*) : v((T) 3) {} T& get() { return v; } ~Val() { sym_check(v == (T) 3, "result-variable-left-alone"); } };
template<typename T> static bool zero(T v) { return v == (T) 0; }
template<typename R> struct Run
{
    template<typename... A> static void go(R (*f)(A...), Val<A>... a) { sym_leak_begin(); (void) f(a.get()...); sym_leak_check(); }
};
static int count = 0;
template<typename R, typename... A> static void entry(int pick, R (*f)(A...))
{
    if (pick != count++) return;
    gone = (char*) malloc(4096); free(gone);
    // Any error there is, and any other non-zero value.
    sdp_Error st = (sdp_Error) sym_int("status", -200, 200);
    sym_assume(st != SDP_SUCCESS);
    const sdp_Error before = st;
    Run<R>::template go<A...>(f, Val<A>(&st)...);
    sym_check(st == before, "status-left-as-it-was");
}
extern "C" void harness(void)
{
    const int lo = CFG(lo, 0);
    const int p = sym_choice("function", lo, lo + 9);
#define F(f) entry(p, f);
#include "c05_list.h"
    sym_assume(p < count);
}
