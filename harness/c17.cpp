// C17: element-wise array operations do exactly the stated arithmetic on every element.
#include "common.h"
#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
#include "ska-sdp-func/fourier_transforms/sdp_fft.h"

template<typename T> struct Re { static double r(T v) { return v; } static double i(T) { return 0; } };
template<> struct Re<cd> { static double r(cd v) { return v.real(); } static double i(cd v) { return v.imag(); } };
template<> struct Re<cf> { static double r(cf v) { return v.real(); } static double i(cf v) { return v.imag(); } };
template<typename T> static cd c(T v) { return cd(Re<T>::r(v), Re<T>::i(v)); }
template<typename T> static void cmp(T v, cd ref, const char* id)
{
    sym_near(Re<T>::r(v), ref.real(), id);
    sym_near(Re<T>::i(v), ref.imag(), id);
}
static cd ipow(cd z, int e)
{
    return e == 0 ? cd(1, 0) : e == 1 ? z : std::pow(z, e);
}
// Concrete, non-trivial divisors/multipliers for the general power, where the
// library goes through complex logarithms.
static cd konst(int i, int j) { static const double t[] = {1.5, -2.0, 0.5, 3.0, -1.25}; return cd(t[(i + 2 * j) % 5], t[(2 * i + j + 1) % 5]); }

template<typename O, typename A>
static void accum(bool withreal)
{
    const int e = CFG(exp, 1), nx = CFG(nx, 2), ny = CFG(ny, 3), o = CFG(order, 0);
    sdp_Error st = SDP_SUCCESS;
    Arr<O> out(&st, o, nx, ny);
    Arr<A> in1(&st, CFG(order2, 0), nx, ny);
    Arr<cd> in2(&st, CFG(order2, 0), nx, ny);
    out.fillSym("out"); in1.fillSym("a");
    if (e == 0 || e == 1) in2.fillSym("b");
    else for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) in2(i, j) = konst(i, j);
    cd* ref = (cd*) malloc(sizeof(cd) * nx * ny);
    for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j)
        ref[i * ny + j] = withreal ? cd(Re<O>::r(out(i, j)) + Re<A>::r(in1(i, j)), 0)
            : c(out(i, j)) + (CFG(null2, 0) ? c(in1(i, j)) : c(in1(i, j)) * ipow(in2(i, j), e));
    in1.protect(); in2.protect();
    sdp_gridder_accumulate_scaled_arrays(out.mem, in1.mem, CFG(null2, 0) ? 0 : in2.mem, e, &st);
    sym_check(st == SDP_SUCCESS, "status");
    for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) cmp(out(i, j), ref[i * ny + j], "accumulate-scaled");
    out.release(); in1.release(); in2.release(); free(ref);
}

template<typename O, typename A>
static void scale()
{
    const int e = CFG(exp, 1), nx = CFG(nx, 2), ny = CFG(ny, 3), o = CFG(order, 0);
    sdp_Error st = SDP_SUCCESS;
    Arr<O> out(&st, o, nx, ny);
    Arr<A> in1(&st, CFG(order2, 0), nx, ny);
    Arr<cd> in2(&st, CFG(order2, 0), nx, ny);
    out.fill(O(9)); in1.fillSym("a");
    for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j)
        in2(i, j) = e == 1 && i == 0 && j == 0 ? cd(sym_double("br", 0.5, 3), sym_double("bi", -2, 2)) : konst(i, j);
    in1.protect(); in2.protect();
    sdp_gridder_scale_inv_array(out.mem, in1.mem, in2.mem, e, &st);
    sym_check(st == SDP_SUCCESS, "status");
    for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) // out * in2^e == in1
        cmp(c(out(i, j)) * ipow(in2(i, j), e), c(in1(i, j)), "scale-inverse");
    out.release(); in1.release(); in2.release();
}

template<typename A, typename B>
static void resid(bool rms)
{
    const int nx = CFG(nx, 2), ny = CFG(ny, 3);
    sdp_Error st = SDP_SUCCESS;
    Arr<A> a(&st, CFG(order, 0), nx, ny), out(&st, CFG(order2, 0), nx, ny);
    Arr<B> b(&st, CFG(order2, 0), nx, ny);
    a.fillSym("a"); b.fillSym("b"); out.fill(A(5));
    a.protect(); b.protect();
    if (!rms)
    {
        sdp_gridder_residual(a.mem, b.mem, out.mem, &st);
        sym_check(st == SDP_SUCCESS, "status");
        for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) cmp(out(i, j), c(a(i, j)) - c(b(i, j)), "residual");
    }
    else
    {
        const double r = sdp_gridder_rms_diff(a.mem, b.mem, &st);
        sym_check(st == SDP_SUCCESS, "status");
        double s = 0;
        for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) { cd d = c(a(i, j)) - c(b(i, j)); s += d.real() * d.real() + d.imag() * d.imag(); }
        sym_check(r >= 0, "rms-sign");
        sym_near(r * r, s / (nx * ny), "rms");
    }
    a.release(); b.release(); out.release();
}

template<typename T>
static void count()
{
    const int nx = CFG(nx, 2), ny = CFG(ny, 2);
    sdp_Error st = SDP_SUCCESS;
    Arr<T> a(&st, CFG(order, 0), nx, ny);
    a.fillSym("a");
    a.protect();
    const int64_t n = sdp_gridder_count_nonzero_pixels(a.mem, &st);
    sym_check(st == SDP_SUCCESS, "status");
    int64_t k = 0;
    for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) if (Re<T>::r(a(i, j)) != 0 || Re<T>::i(a(i, j)) != 0) ++k;
    sym_check(n == k, "count-nonzero");
    a.release();
}

template<typename T>
static void norm(bool phase)
{
    const int nx = CFG(nx, 3), ny = CFG(ny, 4);
    sdp_Error st = SDP_SUCCESS;
    Arr<T> a(&st, CFG(order, 0), nx, ny);
    a.fillSym("a");
    T* old = (T*) malloc(sizeof(T) * nx * ny);
    for (int e = 0; e < nx * ny; ++e) old[e] = a.lin(e);
    if (phase) sdp_fft_phase(a.mem, &st); else sdp_fft_norm(a.mem, &st);
    sym_check(st == SDP_SUCCESS, "status");
    for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j)
        cmp(a(i, j), c(old[i * ny + j]) * (phase ? ((i + j) % 2 ? -1.0 : 1.0) : 1.0 / (nx * ny)), phase ? "fft-phase" : "fft-norm");
    a.release(); free(old);
}

extern "C" void harness(void)
{
    const int ty = CFG(type, 0);
    switch (CFG(op, 0))
    {
    case 0:
        switch (ty)
        {
        case 0: accum<cd, cd>(false); break;
        case 1: accum<cf, cf>(false); break;
        case 2: accum<cd, cf>(false); break;
        case 3: accum<cf, cd>(false); break;
        case 4: accum<cd, double>(false); break;
        case 5: accum<cf, float>(false); break;
        case 6: accum<cd, float>(false); break;
        case 7: accum<cf, double>(false); break;
        case 8: accum<double, cd>(true); break;
        case 9: accum<float, cf>(true); break;
        case 10: accum<double, cf>(true); break;
        default: accum<float, cd>(true); break;
        }
        break;
    case 1:
        switch (ty) { case 0: scale<cd, double>(); break; case 1: scale<cf, float>(); break; case 2: scale<cd, cd>(); break; default: scale<cf, cf>(); break; }
        break;
    case 2: case 3:
        switch (ty)
        {
        case 0: resid<cd, cd>(CFG(op, 0) == 3); break;
        case 1: resid<cf, cf>(CFG(op, 0) == 3); break;
        case 2: resid<cd, cf>(CFG(op, 0) == 3); break;
        case 3: resid<double, double>(CFG(op, 0) == 3); break;
        case 4: resid<float, float>(CFG(op, 0) == 3); break;
        default: resid<double, float>(CFG(op, 0) == 3); break;
        }
        break;
    case 4:
        switch (ty) { case 0: count<cd>(); break; case 1: count<cf>(); break; case 2: count<double>(); break; default: count<float>(); break; }
        break;
    default:
        if (ty == 0) norm<cd>(CFG(op, 5) == 6); else norm<cf>(CFG(op, 5) == 6);
    }
}
