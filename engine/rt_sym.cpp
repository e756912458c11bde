// Bitcode runtime for symex: libc, libstdc++ and LLVM out-of-line functions
// that the code under test needs.  Each is written from its documented
// contract; native replay runs against the real libraries instead.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <map>
#include <string>
#include <cerrno>
#include "vp.h"
extern "C" {
void vp_abort(const char *);
#define WEAK __attribute__((weak, used, noinline))
}
// ---- libstdc++
namespace std {
WEAK void __throw_length_error(const char *) { vp_abort("length_error"); __builtin_unreachable(); }
WEAK void __throw_logic_error(const char *) { vp_abort("logic_error"); __builtin_unreachable(); }
WEAK void __throw_out_of_range(const char *) { vp_abort("out_of_range"); __builtin_unreachable(); }
WEAK void __throw_out_of_range_fmt(const char *, ...) { vp_abort("out_of_range"); __builtin_unreachable(); }
WEAK void __throw_bad_alloc() { vp_abort("bad_alloc"); __builtin_unreachable(); }
WEAK void __throw_bad_array_new_length() { vp_abort("bad_array_new_length"); __builtin_unreachable(); }
WEAK void __throw_bad_function_call() { vp_abort("bad_function_call"); __builtin_unreachable(); }
WEAK void __throw_invalid_argument(const char *) { vp_abort("invalid_argument"); __builtin_unreachable(); }
WEAK void __throw_bad_optional_access() { vp_abort("bad_optional"); __builtin_unreachable(); }
WEAK void __glibcxx_assert_fail(const char *, int, const char *, const char *) { vp_abort("glibcxx assert"); __builtin_unreachable(); }

// A plain (unbalanced) binary search tree honouring the header invariants.
WEAK void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  h._M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
static _Rb_tree_node_base *rb_inc(_Rb_tree_node_base *x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static _Rb_tree_node_base *rb_dec(_Rb_tree_node_base *x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
WEAK _Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept { return rb_inc(x); }
WEAK const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return rb_inc(const_cast<_Rb_tree_node_base *>(x)); }
WEAK _Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept { return rb_dec(x); }
WEAK const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return rb_dec(const_cast<_Rb_tree_node_base *>(x)); }
WEAK _Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept {
  auto repl = [&](_Rb_tree_node_base *o, _Rb_tree_node_base *n) {
    if (h._M_parent == o) h._M_parent = n;
    else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n;
    else o->_M_parent->_M_right = n;
    if (n) n->_M_parent = o->_M_parent;
  };
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else {
    _Rb_tree_node_base *y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    repl(z, y);
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  if (!h._M_parent) { h._M_left = h._M_right = &h; }
  else {
    _Rb_tree_node_base *l = h._M_parent, *r = h._M_parent;
    while (l->_M_left) l = l->_M_left;
    while (r->_M_right) r = r->_M_right;
    h._M_left = l; h._M_right = r;
  }
  return z;
}
}
#include <system_error>
namespace std { namespace _V2 {
alignas(16) static char vp_syscat[64], vp_gencat[64];
const error_category &system_category() noexcept { return *reinterpret_cast<const error_category *>(vp_syscat); }
const error_category &generic_category() noexcept { return *reinterpret_cast<const error_category *>(vp_gencat); }
}}

// std::list's out-of-line parts.
#include <list>
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
} }
