// C03: copies, conversions, clearing and setting touch exactly the requested elements.
#include "common.h"
#include "ska-sdp-func/utility/sdp_mem.h"
template<typename T> struct Re { static double r(T v) { return v; } static double i(T) { return 0; } };
template<> struct Re<cd> { static double r(cd v) { return v.real(); } static double i(cd v) { return v.imag(); } };
template<> struct Re<cf> { static double r(cf v) { return v.real(); } static double i(cf v) { return v.imag(); } };
template<typename T> static void same(T a, T b, const char* id)
{
    sym_check(Re<T>::r(a) == Re<T>::r(b) && Re<T>::i(a) == Re<T>::i(b), id);
}
template<typename T> static Arr<T>* mk(sdp_Error* st, int order)
{
    const int nd = CFG(nd, 2);
    return nd == 1 ? new Arr<T>(st, order, CFG(d0, 3)) : nd == 2 ? new Arr<T>(st, order, CFG(d0, 3), CFG(d1, 2)) : new Arr<T>(st, order, CFG(d0, 3), CFG(d1, 2), CFG(d2, 2));
}
// Sub-array view of a parent: every outside byte is observed.
template<typename T> static void run()
{
    const int op = CFG(op, 0), order = CFG(order, 0), nd = CFG(nd, 2);
    sdp_Error st = SDP_SUCCESS;
    Arr<T>* p = mk<T>(&st, order);
    // Fill the whole allocation, gaps too.
    T* old = (T*) malloc(sizeof(T) * p->alloc);
    for (int64_t i = 0; i < p->alloc; ++i) { p->data[i] = sym<T>(Nm("a", (int) i)); old[i] = p->data[i]; }
    if (op == 0) // deep copy
    {
        sdp_Mem* c = sdp_mem_create_copy(p->mem, SDP_MEM_CPU, &st);
        sym_check(st == SDP_SUCCESS && sdp_mem_data(c) != (void*) p->data, "copied");
        sym_check(sdp_mem_type(c) == sdp_mem_type(p->mem) && sdp_mem_num_dims(c) == nd && sdp_mem_num_elements(c) == p->n, "metadata");
        for (int64_t e = 0; e < p->n; ++e)
        {
            int64_t r = e, o = 0;
            for (int i = nd - 1; i >= 0; --i) { sym_check(sdp_mem_shape_dim(c, i) == p->shape[i], "shape"); o += (r % p->shape[i]) * sdp_mem_stride_elements_dim(c, i); r /= p->shape[i]; }
            same(((const T*) sdp_mem_data_const(c))[o], p->lin(e), "copy-element");
        }
        sdp_mem_free(c);
        for (int64_t i = 0; i < p->alloc; ++i) same(p->data[i], old[i], "source-unchanged");
    }
    else if (op == 1) // part of one block into another
    {
        Arr<T>* d = mk<T>(&st, 0);
        T* dold = (T*) malloc(sizeof(T) * d->alloc);
        for (int64_t i = 0; i < d->alloc; ++i) { d->data[i] = sym<T>(Nm("b", (int) i)); dold[i] = d->data[i]; }
        const int od = sym_choice("offset_dst", 0, (int) d->n), os = sym_choice("offset_src", 0, (int) p->n);
        const int m = sym_choice("num", 0, (int) (d->n - od < p->n - os ? d->n - od : p->n - os));
        if (sym_choice("async", 0, 1)) sdp_mem_copy_contents_async(d->mem, p->mem, od, os, m, 0, &st);
        else sdp_mem_copy_contents(d->mem, p->mem, od, os, m, &st);
        sym_check(st == SDP_SUCCESS, "status");
        for (int i = 0; i < d->n; ++i) same(d->data[i], i >= od && i < od + m ? old[os + i - od] : dold[i], "copied-portion");
        for (int64_t i = 0; i < p->alloc; ++i) same(p->data[i], old[i], "source-unchanged");
        free(dold); d->release(); delete d;
    }
    else if (op == 2) // clear a portion (contiguous), or everything (any layout)
    {
        const int s = sym_choice("start", 0, (int) p->n), m = sym_choice("num", 0, (int) p->n - s);
        if (order == 0) sdp_mem_clear_portion(p->mem, s, m, &st); else sdp_mem_clear_contents(p->mem, &st);
        sym_check(st == SDP_SUCCESS, "status");
        for (int64_t i = 0; i < p->alloc; ++i)
        {
            bool in = order == 0 ? i >= s && i < s + m : false;
            if (order) for (int64_t e = 0; e < p->n; ++e) if (&p->lin(e) == p->data + i) in = true;
            same(p->data[i], in ? T(0) : old[i], "cleared-exactly");
        }
    }
    else if (op == 3) // set value
    {
        const int v = sym_int("value", -100, 100);
        sdp_mem_set_value(p->mem, v, &st);
        sym_check(st == SDP_SUCCESS, "status");
        for (int64_t i = 0; i < p->alloc; ++i)
        {
            bool in = false;
            for (int64_t e = 0; e < p->n; ++e) if (&p->lin(e) == p->data + i) in = true;
            same(p->data[i], in ? T(v) : old[i], "set-exactly");
        }
    }
    else // slice copy: the view covers only part of the rows
    {
        int64_t off[3] = {0, 0, 0}, sh[3] = {p->shape[0], nd > 1 ? p->shape[1] : 1, nd > 2 ? p->shape[2] : 1};
        for (int i = 0; i < nd; ++i) { off[i] = sym_choice(Nm("offset", i), 0, (int) sh[i] - 1); sh[i] = sym_choice(Nm("size", i), 1, (int) (sh[i] - off[i])); }
        sdp_Mem* s = sdp_mem_create_wrapper_for_slice(p->mem, off, nd, sh, &st);
        sdp_Mem* c = sdp_mem_create_copy(s, SDP_MEM_CPU, &st);
        sym_check(st == SDP_SUCCESS, "status");
        const int64_t n = sdp_mem_num_elements(c);
        for (int64_t e = 0; e < n; ++e)
        {
            int64_t r = e, o = 0, q = 0;
            for (int i = nd - 1; i >= 0; --i) { const int64_t k = r % sh[i]; r /= sh[i]; o += k * sdp_mem_stride_elements_dim(c, i); q += (off[i] + k) * p->str[i]; }
            same(((const T*) sdp_mem_data_const(c))[o], p->data[q], "slice-copy-element");
        }
        sdp_mem_free(c);
        sdp_mem_clear_contents(s, &st);
        for (int64_t e = 0; e < p->n; ++e)
        {
            int64_t r = e; bool in = true;
            for (int i = nd - 1; i >= 0; --i) { const int64_t k = r % p->shape[i]; r /= p->shape[i]; if (k < off[i] || k >= off[i] + sh[i]) in = false; }
            same(p->lin(e), in ? T(0) : old[&p->lin(e) - p->data], "slice-cleared-exactly");
        }
        sdp_mem_free(s);
    }
    free(old); p->release(); delete p;
}
template<typename A, typename B> static void convert()
{
    sdp_Error st = SDP_SUCCESS;
    Arr<A>* p = mk<A>(&st, CFG(order, 0));
    p->fillSym("a");
    p->protect();
    sdp_Mem* c = sdp_mem_convert_precision(p->mem, (sdp_MemType) SymT<B>::type, &st);
    if (CFG(order, 0) != 0) { sym_check(st == SDP_ERR_INVALID_ARGUMENT, "non-contiguous-refused"); }
    else
    {
        sym_check(st == SDP_SUCCESS && sdp_mem_type(c) == SymT<B>::type && sdp_mem_num_elements(c) == p->n && sdp_mem_num_dims(c) == p->nd, "converted");
        for (int i = 0; i < p->nd; ++i) sym_check(sdp_mem_shape_dim(c, i) == p->shape[i], "shape");
        sym_tol(1e-6);
        for (int64_t e = 0; e < p->n; ++e) { const B v = ((const B*) sdp_mem_data_const(c))[e]; sym_near(Re<B>::r(v), Re<A>::r(p->data[e]), "value"); sym_near(Re<B>::i(v), Re<A>::i(p->data[e]), "value"); }
    }
    sdp_mem_free(c);
    st = SDP_SUCCESS;
    if (SymT<A>::type != SDP_MEM_INT)
    {
        sdp_Mem* x = sdp_mem_convert_precision(p->mem, SDP_MEM_INT, &st);
        sym_check(st != SDP_SUCCESS, "unsupported-type-refused");
        sdp_mem_free(x);
    }
    st = SDP_SUCCESS;
    p->release(); delete p;
}
// Scaling by a real factor (contiguous blocks).
template<typename T> static void scale()
{
    sdp_Error st = SDP_SUCCESS;
    Arr<T>* p = mk<T>(&st, 0);
    p->fillSym("a");
    T* old = (T*) malloc(sizeof(T) * p->n);
    for (int i = 0; i < p->n; ++i) old[i] = p->data[i];
    const double f = sym_double("factor", -3, 3);
    sdp_mem_scale_real(p->mem, f, &st);
    sym_check(st == SDP_SUCCESS, "status");
    sym_tol(1e-6);
    for (int i = 0; i < p->n; ++i) { sym_near(Re<T>::r(p->data[i]), Re<T>::r(old[i]) * f, "scaled"); sym_near(Re<T>::i(p->data[i]), Re<T>::i(old[i]) * f, "scaled"); }
    free(old); p->release(); delete p;
}
extern "C" void harness(void)
{
    const int t = CFG(type, 0), op = CFG(op, 0);
    if (op == 5)
    {
        switch (t) { case 0: convert<double, float>(); break; case 1: convert<float, double>(); break; case 2: convert<cd, cf>(); break; case 3: convert<cf, cd>(); break; case 4: convert<double, double>(); break; default: convert<cf, cf>(); }
        return;
    }
    if (op == 6) { switch (t) { case 0: scale<double>(); break; case 1: scale<float>(); break; case 2: scale<cd>(); break; default: scale<cf>(); } return; }
    switch (t) { case 0: run<double>(); break; case 1: run<float>(); break; case 2: run<cd>(); break; case 3: run<cf>(); break; default: run<int>(); }
}
