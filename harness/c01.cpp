// C01: a memory handle describes the storage it owns or wraps; sizes that cannot be represented are refused.
#include "common.h"
#include "ska-sdp-func/utility/sdp_mem.h"
static const sdp_MemType types[] = {SDP_MEM_CHAR, SDP_MEM_INT, SDP_MEM_FLOAT, SDP_MEM_DOUBLE, SDP_MEM_COMPLEX_FLOAT, SDP_MEM_COMPLEX_DOUBLE};
static const int sizes[] = {1, 4, 4, 8, 8, 16};

static void props(const sdp_Mem* m, int t, int has_data)
{
    sym_check(sdp_mem_type(m) == types[t] && sdp_mem_type_size(types[t]) == sizes[t], "type");
    sym_check(sdp_mem_is_floating_point(m) == (has_data && (t == 2 || t == 3)), "floating-point");
    sym_check(sdp_mem_is_complex(m) == (has_data && t >= 4), "complex");
    sym_check(sdp_mem_is_double(m) == (has_data && (t == 3 || t == 5)), "double");
    sym_check(sdp_mem_location(m) == SDP_MEM_CPU, "location");
    sym_check(!sdp_mem_is_read_only(m) == (has_data != 0), "new-block-writable");
}

// Shapes of the usual size: owned (stride == 0) or wrapped with symbolic strides.
static void small(int t)
{
    const int nd = CFG(nd, 2), wrap = CFG(wrap, 0);
    int64_t sh[4], st[4], n = 1;
    for (int i = 0; i < nd; ++i) sh[i] = sym_choice(Nm("shape", i), 0, CFG(max, 3));
    for (int i = 0; i < nd; ++i) n *= sh[i];
    sdp_Error err = SDP_SUCCESS;
    char* buf = (char*) malloc(64);
    int64_t e = sizes[t];
    for (int i = nd - 1; i >= 0; --i) { st[i] = e; e *= sh[i]; }
    bool cc = true;
    if (wrap)
    {
        for (int i = 0; i < nd; ++i)
        {
            const int64_t k = sizes[t] * sym_i64(Nm("stride", i), -40, 40);
            if (k != st[i]) cc = false;
            st[i] = k;
        }
    }
    sdp_Mem* m = wrap ? sdp_mem_create_wrapper(buf, types[t], SDP_MEM_CPU, nd, sh, st, &err) : sdp_mem_create(types[t], SDP_MEM_CPU, nd, sh, &err);
    sym_check(err == SDP_SUCCESS && m, "created");
    const int has = wrap || n > 0;
    props(m, t, has);
    sym_check(sdp_mem_num_dims(m) == nd, "num-dims");
    sym_check(sdp_mem_num_elements(m) == (has ? n : 0), "num-elements");
    for (int i = -1; i <= nd; ++i)
    {
        const bool in = i >= 0 && i < nd;
        sym_check(sdp_mem_shape_dim(m, i) == (in ? sh[i] : 0), "shape");
        sym_check(sdp_mem_stride_bytes_dim(m, i) == (in ? st[i] : 0), "stride");
        sym_check(sdp_mem_stride_elements_dim(m, i) * sizes[t] == (in ? st[i] : 0), "stride-elements");
    }
    if (nd > 0) sym_check(sdp_mem_is_c_contiguous(m) == (has && cc), "contiguous");
    sym_check(sdp_mem_is_complex4(m) == (has && t >= 4 && ((nd > 1 && sh[nd - 1] == 4) || (nd > 2 && sh[nd - 1] == 2 && sh[nd - 2] == 2))), "complex4");
    // Element (i,j,..) of an owned block is inside the allocation.
    if (!wrap && n > 0)
    {
        int64_t off = 0;
        for (int i = 0; i < nd; ++i) { int64_t k = sym_i64(Nm("idx", i), 0, 3); sym_assume(k < sh[i]); off += k * sdp_mem_stride_bytes_dim(m, i); }
        sym_check(off >= 0 && off + sizes[t] <= sym_alloc_size(sdp_mem_data(m)), "element-inside-allocation");
        for (int64_t b = 0; b < n * sizes[t]; ++b) sym_check(((const char*) sdp_mem_data_const(m))[b] == 0, "new-block-is-zero");
    }
    else if (wrap) sym_check(sdp_mem_data(m) == buf, "wrapped-pointer");
    // Matching: equal to an alias; not to one that differs in shape or type.
    sdp_Mem* a = sdp_mem_create_alias(m);
    sym_check(sdp_mem_is_matching(m, a, 1) && sdp_mem_data(a) == sdp_mem_data(m), "alias-matches");
    sdp_Mem* b = sdp_mem_create_wrapper(buf, types[(t + 1) % 6], SDP_MEM_CPU, nd, sh, st, &err);
    sym_check(!sdp_mem_is_matching(m, b, 0), "type-mismatch-seen");
    if (nd > 0)
    {
        const int d = sym_choice("dim", 0, nd - 1);
        sh[d]++;
        sdp_Mem* c = sdp_mem_create_wrapper(buf, types[t], SDP_MEM_CPU, nd, sh, st, &err);
        sym_check(!sdp_mem_is_matching(m, c, 0), "shape-mismatch-seen");
        sh[d]--; st[d] += sizes[t];
        sdp_Mem* f = sdp_mem_create_wrapper(buf, types[t], SDP_MEM_CPU, nd, sh, st, &err);
        sym_check(!sdp_mem_is_matching(m, f, 0), "stride-mismatch-seen");
        sdp_mem_free(c); sdp_mem_free(f);
    }
    sdp_Mem* g = sdp_mem_create_wrapper(buf, types[t], SDP_MEM_GPU, nd, sh, st, &err);
    sym_check(!sdp_mem_is_matching(m, g, 1), "location-mismatch-seen");
    // Reference counting: two owners, storage lives until the second release.
    sdp_mem_ref_inc(m);
    sdp_mem_free(a); sdp_mem_free(b); sdp_mem_free(g);
    sdp_mem_ref_dec(m);
    props(m, t, has);
    sdp_mem_ref_dec(m);
    free(buf);
}

// Any 64-bit shape: created exactly as large as its shape says, or refused.
static void huge(int t)
{
    const int nd = CFG(nd, 1);
    static const int pw[] = {0, 2, 20, 31, 32, 33, 60, 62};
    int64_t sh[3];
    for (int i = 0; i < nd; ++i) sh[i] = sym_bv64(Nm("shape", i));
    if (nd > 1) sh[1] = ((int64_t) 1 << (CFG(all, 0) ? sym_choice("log2_shape_1", 0, 62) : pw[sym_choice("power", 0, 7)])) - CFG(minus, 0);
    sdp_Error err = SDP_SUCCESS;
    sdp_Mem* m = sdp_mem_create(types[t], SDP_MEM_CPU, nd, sh, &err);
    bool bad = false;
    for (int i = 0; i < nd; ++i) if (sh[i] < 0) bad = true;
    if (!bad)
    {
        int64_t left = INT64_MAX / sizes[t];
        // The constant dimension first, so that only it divides.
        if (nd > 1 && sh[1] > left) bad = true; // the stride of dimension 0
        if (nd > 1 && sh[1] > 0) left /= sh[1];
        if (sh[0] > left) bad = true;
    }
    if (bad) sym_check(err != SDP_SUCCESS && sdp_mem_data(m) == 0, "unrepresentable-size-refused");
    else if (err == SDP_SUCCESS)
    {
        const int64_t n = nd > 1 ? sh[0] * sh[1] : sh[0];
        if (n > 0) sym_check(sym_alloc_size(sdp_mem_data(m)) == n * sizes[t], "allocation-matches-shape");
        sym_check(sdp_mem_num_elements(m) == n, "num-elements");
        sym_check(sdp_mem_shape_dim(m, 0) == sh[0], "shape");
    }
    else sym_check(err == SDP_ERR_MEM_ALLOC_FAILURE && sdp_mem_data(m) == 0, "allocation-failure-reported");
    sdp_mem_free(m);
}

static void misc()
{
    sdp_Error err = SDP_SUCCESS;
    // A scalar.
    sdp_Mem* s = sdp_mem_create(SDP_MEM_DOUBLE, SDP_MEM_CPU, 0, 0, &err);
    sym_check(err == SDP_SUCCESS && sdp_mem_num_elements(s) == 1 && sym_alloc_size(sdp_mem_data(s)) == 8, "scalar");
    sdp_mem_set_read_only(s, 1); sym_check(sdp_mem_is_read_only(s) == 1, "read-only");
    sdp_mem_set_read_only(s, 0); sym_check(sdp_mem_is_read_only(s) == 0, "not-read-only");
    sdp_mem_free(s);
    const int64_t sh[] = {2, 3};
    const int ty = sym_int("type", 0, 40);
    const bool known = ty == SDP_MEM_CHAR || ty == SDP_MEM_INT || ty == SDP_MEM_FLOAT || ty == SDP_MEM_DOUBLE || ty == SDP_MEM_COMPLEX_FLOAT || ty == SDP_MEM_COMPLEX_DOUBLE;
    sdp_Mem* v = sdp_mem_create((sdp_MemType) ty, SDP_MEM_CPU, 2, sh, &err);
    sym_check((err == SDP_SUCCESS) == (known || ty == SDP_MEM_VOID), "unknown-type-refused");
    if (!known) sym_check(sdp_mem_data(v) == 0 && sdp_mem_num_elements(v) == 0, "no-data");
    sdp_mem_free(v);
    err = SDP_SUCCESS;
    sdp_Mem* g = sdp_mem_create(SDP_MEM_FLOAT, (sdp_MemLocation) sym_int("loc", 1, 5), 2, sh, &err);
    sym_check(err == SDP_ERR_MEM_LOCATION && sdp_mem_data(g) == 0, "location-refused");
    sdp_mem_free(g);
    // No handle.
    sym_check(sdp_mem_data(0) == 0 && sdp_mem_num_dims(0) == 0 && sdp_mem_num_elements(0) == 0 && sdp_mem_shape_dim(0, 0) == 0 &&
        sdp_mem_type(0) == SDP_MEM_VOID && sdp_mem_is_read_only(0) == 1 && sdp_mem_is_c_contiguous(0) == 0 && sdp_mem_ref_inc(0) == 0, "null-handle");
    sdp_mem_free(0);
}

extern "C" void harness(void)
{
    const int op = CFG(op, 0), t = CFG(type, 0);
    if (op == 0) small(t); else if (op == 1) huge(t); else misc();
}
