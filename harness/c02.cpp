// C02: slices and aliases address exactly the parent's elements; anything else is refused.
#include "common.h"
#include "ska-sdp-func/utility/sdp_mem.h"
template<typename T> static void run()
{
    const int nd = CFG(nd, 2), ns = CFG(ns, 2), order = CFG(order, 0), full = CFG(full, 0);
    int64_t sh[3] = {CFG(d0, 3), CFG(d1, 2), CFG(d2, 2)}, off[3], ss[3];
    sdp_Error st = SDP_SUCCESS;
    Arr<T>* pp = nd == 1 ? new Arr<T>(&st, order, sh[0]) : nd == 2 ? new Arr<T>(&st, order, sh[0], sh[1]) : new Arr<T>(&st, order, sh[0], sh[1], sh[2]);
    Arr<T>& p = *pp;
    p.fillSym("p");
    const int ro = CFG(ro, 0);
    sdp_mem_set_read_only(p.mem, ro);
    const bool big = full != 0; // any 64-bit request: only acceptance is examined
    for (int i = 0; i < nd; ++i) off[i] = big ? sym_bv64(Nm("offset", i)) : sym_choice(Nm("offset", i), -1, (int) sh[i] + 1);
    for (int i = 0; i < ns; ++i) ss[i] = big ? sym_bv64(Nm("size", i)) : sym_choice(Nm("size", i), -1, (int) sh[i + nd - ns] + 1);
    bool ok = true;
    for (int i = 0; i < nd; ++i) if (off[i] < 0 || off[i] >= sh[i]) ok = false;
    for (int i = 0; i < ns; ++i) if (ss[i] < 0 || ss[i] > sh[i + nd - ns]) ok = false;
    if (ok) for (int i = 0; i < ns; ++i) if (off[i + nd - ns] + ss[i] > sh[i + nd - ns]) ok = false;
    sdp_Mem* s = sdp_mem_create_wrapper_for_slice(p.mem, off, ns, ss, &st);
    sym_check((st == SDP_SUCCESS) == ok, "accepted-iff-inside");
    if (ok && s)
    {
        sym_check(sdp_mem_type(s) == sdp_mem_type(p.mem) && sdp_mem_num_dims(s) == ns && sdp_mem_location(s) == SDP_MEM_CPU, "metadata");
        sym_check(sdp_mem_is_read_only(s) == ro, "read-only-kept");
        int64_t n = 1;
        bool cc = true; int64_t e = sizeof(T);
        for (int i = ns - 1; i >= 0; --i)
        {
            sym_check(sdp_mem_shape_dim(s, i) == ss[i], "shape");
            sym_check(sdp_mem_stride_bytes_dim(s, i) == sdp_mem_stride_bytes_dim(p.mem, i + nd - ns), "stride");
            if (sdp_mem_stride_bytes_dim(s, i) != e) cc = false;
            n *= ss[i]; e *= ss[i];
        }
        sym_check(sdp_mem_num_elements(s) == n, "num-elements");
        if (ns) sym_check(sdp_mem_is_c_contiguous(s) == cc, "contiguous");
        // Every element of the slice is the parent's element, by address.
        if (!big) for (int64_t el = 0; el < n; ++el)
        {
            int64_t r = el, po = 0, so = 0;
            for (int i = nd - 1; i >= 0; --i)
            {
                int64_t k = 0;
                if (i >= nd - ns) { const int j = i - (nd - ns); k = r % ss[j]; r /= ss[j]; so += k * sdp_mem_stride_bytes_dim(s, j); }
                po += (off[i] + k) * p.str[i];
            }
            sym_check((char*) sdp_mem_data(s) + so == (char*) (p.data + po), "same-element");
        }
    }
    sdp_mem_free(s);
    // An alias shares everything.
    sdp_Mem* a = sdp_mem_create_alias(p.mem);
    sym_check(sdp_mem_data(a) == p.data && sdp_mem_is_matching(a, p.mem, 1) && sdp_mem_is_read_only(a) == ro && sdp_mem_num_elements(a) == p.n, "alias");
    sdp_mem_free(a);
    // Too many dimensions, or an earlier error, is refused.
    int64_t o4[4] = {0, 0, 0, 0}, s4[4] = {1, 1, 1, 1};
    st = SDP_SUCCESS;
    sdp_Mem* t = sdp_mem_create_wrapper_for_slice(p.mem, o4, nd + 1, s4, &st);
    sym_check(st == SDP_ERR_INVALID_ARGUMENT && t == 0, "too-many-dimensions-refused");
    p.release(); delete pp;
}
extern "C" void harness(void)
{
    switch (CFG(type, 0)) { case 0: run<double>(); break; case 1: run<cf>(); break; default: run<int>(); }
}
