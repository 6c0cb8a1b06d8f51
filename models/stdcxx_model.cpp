// The out-of-line parts of the C++ standard library the containers need, so that the real
// header-only container code is what gets executed.
#include <string>
#include <map>
#include <list>
#include <unordered_map>
#include "vf.h"
template class std::basic_string<char>;
namespace std { namespace __detail {
// one bucket up to 64 elements: small hash containers become association lists (any iteration order is legal)
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { return n <= 64 ? 1 : n | 1; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const { return e + i <= 64 || e + i <= b ? std::make_pair(false, (size_t)0) : std::make_pair(true, 4 * (e + i) + 1); }
void _List_node_base::_M_hook(_List_node_base* p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* first, _List_node_base* last) noexcept { if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; _List_node_base* t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 31 + c[i]; return h; }
// unbalanced binary search tree: same observable contents and order as a red-black tree
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw() { x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; } else { p->_M_right = x; if (p == header._M_right) header._M_right = x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw() { _Rb_tree_node_base*& root = header._M_parent; _Rb_tree_node_base*& lm = header._M_left; _Rb_tree_node_base*& rm = header._M_right;
  _Rb_tree_node_base* y = z; _Rb_tree_node_base* x = 0; if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; }
  else { if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { _Rb_tree_node_base* t = x; while (t->_M_left) t = t->_M_left; lm = t; } }
    if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { _Rb_tree_node_base* t = x; while (t->_M_right) t = t->_M_right; rm = t; } } }
  return z; }
}
extern "C" const char* engpar_version_c() { return "vf"; }
const char* engpar_version() { return "vf"; }
// dynamic_cast along a chain of single bases (the only inheritance the library casts along)
extern "C" char _ZTVN10__cxxabiv120__si_class_type_infoE[];
extern "C" void* __dynamic_cast(const void* sub, const void* src, const void* dst, long hint) {
  void** vt = *(void***)sub; long top = ((long*)vt)[-2]; void** ti = (void**)vt[-1]; char* whole = (char*)sub + top;
  for (int d = 0; d < 8; d++) { if ((const void*)ti == dst) return whole; if ((char*)ti[0] != _ZTVN10__cxxabiv120__si_class_type_infoE + 2 * sizeof(void*)) return 0; ti = (void**)ti[2]; }
  return 0; }
