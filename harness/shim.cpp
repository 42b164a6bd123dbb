// The few parts of the C++ run-time library that the harnesses need, for targets whose toolchain has only a C compiler:
// their C++ code is compiled by clang with the headers of the host's library and linked with this file.
#include <cstdlib>
#include <cstdio>
#include <new>
#include <map>
#include <string>
#include <vector>
#include <functional>

void *operator new(std::size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, std::size_t) noexcept { free(p); }
void operator delete[](void *p, std::size_t) noexcept { free(p); }
void *operator new(std::size_t n, std::align_val_t a) { std::size_t k = (std::size_t)a; void *p = aligned_alloc(k, (n + k) / k * k); if (!p) abort(); return p; }
void operator delete(void *p, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { free(p); }
extern "C" void __cxa_pure_virtual() { abort(); }

namespace std {
template class basic_string<char>;
#define STOP(name, ...) void name(__VA_ARGS__) { fprintf(stderr, #name "\n"); abort(); }
STOP(__throw_length_error, const char *) STOP(__throw_logic_error, const char *) STOP(__throw_out_of_range, const char *)
STOP(__throw_out_of_range_fmt, const char *, ...) STOP(__throw_bad_alloc) STOP(__throw_bad_array_new_length) STOP(__throw_bad_function_call)
STOP(__throw_invalid_argument, const char *)

// Ordered trees, without rebalancing: the harnesses keep only small maps and sets.
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw()
{
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw()
{
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
}
