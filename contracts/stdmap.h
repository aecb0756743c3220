// Definitions of the four functions of libstdc++'s std::map / std::set that live in the library binary.
// The contracts of the real ones (in-order successor and predecessor, insertion at a leaf, removal keeping the order)
// are met by a plain search tree: balance has no observable effect except on cost.
#pragma once
#ifdef VF_SYM
#include <map>
namespace std {
using _B = _Rb_tree_node_base;
static inline _B* vf_inc(_B* x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } _B* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
static inline _B* vf_dec(_B* x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { _B* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } _B* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
__attribute__((used)) _B* _Rb_tree_increment(_B* x) throw() { return vf_inc(x); }
__attribute__((used)) const _B* _Rb_tree_increment(const _B* x) throw() { return vf_inc(const_cast<_B*>(x)); }
__attribute__((used)) _B* _Rb_tree_decrement(_B* x) throw() { return vf_dec(x); }
__attribute__((used)) const _B* _Rb_tree_decrement(const _B* x) throw() { return vf_dec(const_cast<_B*>(x)); }
// the header is red and its parent is the root; every other node is black, so that the header is told apart
__attribute__((used)) void _Rb_tree_insert_and_rebalance(const bool left, _B* x, _B* p, _B& h) throw() { x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
__attribute__((used)) _B* _Rb_tree_rebalance_for_erase(_B* const z, _B& h) throw() {
  if (h._M_left == z) h._M_left = (z->_M_parent == &h && !z->_M_right) ? &h : vf_inc(z); if (h._M_right == z) h._M_right = (z->_M_parent == &h && !z->_M_left) ? &h : vf_dec(z);
  _B* y; if (!z->_M_left) y = z->_M_right; else if (!z->_M_right) y = z->_M_left; else { _B* s = z->_M_right; while (s->_M_left) s = s->_M_left; if (s->_M_parent != z) { s->_M_parent->_M_left = s->_M_right; if (s->_M_right) s->_M_right->_M_parent = s->_M_parent; s->_M_right = z->_M_right; s->_M_right->_M_parent = s; } s->_M_left = z->_M_left; s->_M_left->_M_parent = s; y = s; }
  _B* p = z->_M_parent; if (p == &h) h._M_parent = y; else if (p->_M_left == z) p->_M_left = y; else p->_M_right = y; if (y) y->_M_parent = p; return z; }
}
#endif
