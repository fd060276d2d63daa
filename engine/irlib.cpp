// Library functions used by the code under test that are interpreted from
// source in the symbolic run.
#include <cstddef>
#include <cstdlib>
#include <cstring>
extern "C" void qsort(void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*))
{
    // Insertion sort.
    char* b = (char*) base;
    char* t = (char*) malloc(sz);
    for (size_t i = 1; i < n; ++i)
    {
        memcpy(t, b + i * sz, sz);
        size_t j = i;
        while (j > 0 && cmp(b + (j - 1) * sz, t) > 0) { memcpy(b + j * sz, b + (j - 1) * sz, sz); --j; }
        memcpy(b + j * sz, t, sz);
    }
    free(t);
}
#ifdef SYM_STRINGS
// The members of the C++ library that live in its binary.
#include <string>
template class std::basic_string<char>;
#include <bits/stl_tree.h>
namespace std
{
// A search tree is kept correct without being kept balanced: which of the two
// cannot be seen by its users (other than in time).
static void min_max(_Rb_tree_node_base& h)
{
    _Rb_tree_node_base* p = h._M_parent;
    while (p->_M_left) p = p->_M_left;
    h._M_left = p; p = h._M_parent;
    while (p->_M_right) p = p->_M_right;
    h._M_right = p;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept
{
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (p == &h) h._M_parent = x;
    else if (left) p->_M_left = x;
    else p->_M_right = x;
    min_max(h);
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept
{
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; // the header
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
}
#endif
