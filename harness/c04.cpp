// C04: a typed view is granted only for a matching block, and indexes it by its strides.
#include "common.h"
#include "ska-sdp-func/utility/sdp_mem_view.h"
static const sdp_MemType types[] = {SDP_MEM_CHAR, SDP_MEM_INT, SDP_MEM_FLOAT, SDP_MEM_DOUBLE, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE};
template<typename V, int N> struct At;
template<typename V> struct At<V, 1> { template<typename W> static void* a(W& v, const int64_t* i) { return (void*) &v(i[0]); } };
template<typename V> struct At<V, 2> { template<typename W> static void* a(W& v, const int64_t* i) { return (void*) &v(i[0], i[1]); } };
template<typename V> struct At<V, 3> { template<typename W> static void* a(W& v, const int64_t* i) { return (void*) &v(i[0], i[1], i[2]); } };
template<typename V> struct At<V, 4> { template<typename W> static void* a(W& v, const int64_t* i) { return (void*) &v(i[0], i[1], i[2], i[3]); } };
template<typename V> struct At<V, 5> { template<typename W> static void* a(W& v, const int64_t* i) { return (void*) &v(i[0], i[1], i[2], i[3], i[4]); } };

template<typename T, int N, int C> struct Want { typedef T E; };
template<typename T, int N> struct Want<T, N, 1> { typedef const T E; };

template<typename T, int N, int C> static void one(sdp_MemType want)
{
    typedef typename Want<T, N, C>::E E;
    const int nd = sym_choice("num_dims", 1, 5), ty = sym_choice("type", 0, 5), gpu = sym_choice("gpu", 0, 1), ro = sym_choice("read_only", 0, 1);
    int64_t sh[5], st[5], str[5];
    for (int i = 0; i < nd; ++i) { static const int sides[] = {7, 5, 3, 4, 2}; sh[i] = sides[(i + ty) % 5]; str[i] = sym_i64(Nm("stride", i), 2000, 3000); }
    static const int sizes[] = {1, 4, 4, 8, 8, 16};
    for (int i = 0; i < nd; ++i) st[i] = str[i] * sizes[ty];
    sdp_Error err = SDP_SUCCESS, pre = (sdp_Error) sym_choice("earlier_status", -1, 0);
    char* buf = (char*) malloc(16);
    sdp_Mem* m = sdp_mem_create_wrapper(buf, types[ty], gpu ? SDP_MEM_GPU : SDP_MEM_CPU, nd, sh, st, &err);
    sdp_mem_set_read_only(m, ro);
    sdp_MemViewCpu<E, N> v;
    err = pre;
    sdp_mem_check_and_view((typename Want<sdp_Mem, N, C>::E*) m, &v, &err);
    const bool ok = pre == SDP_SUCCESS && nd == N && types[ty] == want && !gpu && (C || !ro);
    sym_check((err == SDP_SUCCESS) == ok, "granted-iff-matching");
    if (pre != SDP_SUCCESS) sym_check(err == pre, "status-kept");
    if (pre == SDP_SUCCESS && types[ty] != want) sym_check(err == SDP_ERR_DATA_TYPE, "type-status");
    else if (pre == SDP_SUCCESS && nd != N) sym_check(err == SDP_ERR_INVALID_ARGUMENT, "dims-status");
    else if (pre == SDP_SUCCESS && gpu) sym_check(err == SDP_ERR_MEM_LOCATION, "location-status");
    for (int i = 0; i < N; ++i)
    {
        sym_check(v.shape[i] == (ok ? sh[i] : 0), "view-shape");
        sym_check(v.stride[i] == (ok ? str[i] : 0), "view-stride");
    }
    sdp_mem_free(m);
    // No block at all.
    err = SDP_SUCCESS;
    sdp_mem_check_and_view((typename Want<sdp_Mem, N, C>::E*) 0, &v, &err);
    sym_check(err != SDP_SUCCESS, "null-refused");
    free(buf);
}
template<typename T, int C> static void dims(sdp_MemType want)
{
    switch (CFG(nd, 2)) { case 1: one<T, 1, C>(want); break; case 2: one<T, 2, C>(want); break; case 3: one<T, 3, C>(want); break; case 4: one<T, 4, C>(want); break; default: one<T, 5, C>(want); }
}
// Every element through the view is the block's element, for several layouts.
template<typename T, int N, int C> static void elements()
{
    typedef typename Want<T, N, C>::E E;
    sdp_Error st = SDP_SUCCESS;
    int64_t sh[5];
    static const int sides[] = {3, 2, 4, 2, 2};
    for (int i = 0; i < N; ++i) sh[i] = sides[(i + CFG(rot, 0)) % 5];
    Arr<T> a(&st, 0, 1);
    a.release();
    a.init(N, sh, CFG(order, 0), &st);
    a.fillSym("a");
    sdp_MemViewCpu<E, N> v;
    sdp_mem_check_and_view((typename Want<sdp_Mem, N, C>::E*) a.mem, &v, &st);
    sym_check(st == SDP_SUCCESS, "granted");
    const sdp_MemViewCpu<E, N>& cv = v;
    for (int64_t e = 0; e < a.n; ++e)
    {
        int64_t idx[5], r = e;
        for (int i = N - 1; i >= 0; --i) { idx[i] = r % sh[i]; r /= sh[i]; }
        sym_check(At<E, N>::a(v, idx) == (void*) &a.lin(e), "element-address");
        sym_check(At<E, N>::a(cv, idx) == (void*) &a.lin(e), "const-element-address");
    }
    a.release();
}
template<typename T, int C> static void edims()
{
    switch (CFG(nd, 2)) { case 1: elements<T, 1, C>(); break; case 2: elements<T, 2, C>(); break; case 3: elements<T, 3, C>(); break; case 4: elements<T, 4, C>(); break; default: elements<T, 5, C>(); }
}
// The stand-alone shape, size, type and contiguity checks.
static void helpers()
{
    int64_t sh[2] = {sym_choice("s0", 0, 2), sym_choice("s1", 0, 2)}, ex[2] = {sym_i64("e0", 0, 5), sym_i64("e1", 0, 5)}, sh2[3] = {1, 3, 2};
    int64_t st[2] = {8 * sym_i64("st0", 0, 6), 8 * sym_i64("st1", 0, 2)};
    sdp_Error err = SDP_SUCCESS, pre = (sdp_Error) sym_choice("earlier_status", -1, 0);
    double buf[4];
    sdp_Mem* m = sdp_mem_create_wrapper(buf, SDP_MEM_DOUBLE, SDP_MEM_CPU, 2, sh, st, &err);
    sdp_Mem* q = sdp_mem_create_wrapper(buf, SDP_MEM_FLOAT, SDP_MEM_CPU, 3, sh2, 0, &err);
    bool ok = true;
    err = pre;
    const int which = sym_choice("which", 0, 7), d = sym_int("dim", 0, 3), nd = sym_int("expected_dims", 0, 4);
    switch (which)
    {
    case 0: sdp_mem_check_shape(m, nd, ex, &err); ok = nd == 2 && sh[0] == ex[0] && sh[1] == ex[1]; break;
    case 1: sdp_mem_check_num_dims(m, nd, &err); ok = nd == 2; break;
    case 2: sdp_mem_check_dim_size(m, d, ex[0], &err); ok = (d == 0 ? sh[0] : d == 1 ? sh[1] : 0) == ex[0]; break;
    case 3: sdp_mem_check_c_contiguity(m, &err); ok = st[1] == 8 && st[0] == 8 * sh[1]; break;
    case 4: sdp_mem_check_shape_dim(m, d, ex[0], &err); ok = d < 2 && (d == 0 ? sh[0] : sh[1]) == ex[0]; break;
    case 5: { const int d2 = sym_choice("dim2", 0, 2); sym_assume(d < 2); sdp_mem_check_same_shape(m, d, q, d2, &err); ok = (d == 0 ? sh[0] : sh[1]) == sh2[d2]; break; }
    case 6: { const int ty = sym_int("type", 0, 40); sdp_mem_check_type(m, (sdp_MemType) ty, &err); ok = ty == SDP_MEM_DOUBLE; break; }
    default: sdp_mem_check_writeable(m, &err); break;
    }
    if (pre != SDP_SUCCESS) sym_check(err == pre, "status-kept"); else sym_check((err == SDP_SUCCESS) == ok, "refused-iff-different");
    sdp_mem_free(m); sdp_mem_free(q);
}
extern "C" void harness(void)
{
    if (CFG(op, 0) == 1) { helpers(); return; }
    if (CFG(op, 0) == 2) { if (CFG(type, 3) == 3) { CFG(cst, 0) ? edims<double, 1>() : edims<double, 0>(); } else { CFG(cst, 0) ? edims<cf, 1>() : edims<cf, 0>(); } return; }
    const int c = CFG(cst, 0);
    switch (CFG(type, 3))
    {
    case 1: c ? dims<int, 1>(SDP_MEM_INT) : dims<int, 0>(SDP_MEM_INT); break;
    case 2: c ? dims<float, 1>(SDP_MEM_FLOAT) : dims<float, 0>(SDP_MEM_FLOAT); break;
    case 3: c ? dims<double, 1>(SDP_MEM_DOUBLE) : dims<double, 0>(SDP_MEM_DOUBLE); break;
    case 4: c ? dims<cf, 1>(SDP_MEM_COMPLEX_FLOAT) : dims<cf, 0>(SDP_MEM_COMPLEX_FLOAT); break;
    default: c ? dims<cd, 1>(SDP_MEM_COMPLEX_DOUBLE) : dims<cd, 0>(SDP_MEM_COMPLEX_DOUBLE); break;
    }
}
