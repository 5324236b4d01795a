#define _GLIBCXX_ASSERTIONS 1
#include <string>
#undef _GLIBCXX_ASSERTIONS
// Bodies of the libstdc++ functions that are not in headers (compiled to bitcode, linked by symx only).
// Red-black tree and list functions keep the documented contract of the originals; the tree is kept as a
// plain (unbalanced) binary search tree: balancing is not observable through std::map.
#include <cstddef>
#include <stdexcept>
#include <new>
#include <bits/stl_tree.h>
#include <bits/stl_list.h>

namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
	if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
	else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
	return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
	if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
	else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
	else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
	return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
	x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
	if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
	else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
	_Rb_tree_node_base*& root = h._M_parent; _Rb_tree_node_base*& lm = h._M_left; _Rb_tree_node_base*& rm = h._M_right;
	_Rb_tree_node_base* y = z; _Rb_tree_node_base* x = 0; _Rb_tree_node_base* xp = 0;
	if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
	if (y != z) {
		z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
		if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
		if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
		y->_M_parent = z->_M_parent; y = z;
	} else {
		xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
		if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
		if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { _Rb_tree_node_base* q = x; while (q->_M_left) q = q->_M_left; lm = q; } }
		if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { _Rb_tree_node_base* q = x; while (q->_M_right) q = q->_M_right; rm = q; } }
	}
	return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) throw() { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() throw() { _List_node_base* n = this->_M_next; _List_node_base* p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) throw() { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base* const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
}
void __throw_length_error(const char* s) { throw std::length_error(s); }
void __throw_logic_error(const char* s) { throw std::logic_error(s); }
void __throw_out_of_range(const char* s) { throw std::out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw std::out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw std::invalid_argument(s); }
void __throw_bad_alloc() { throw std::bad_alloc(); }
void __throw_bad_array_new_length() { throw std::bad_alloc(); }
void __throw_bad_cast() { throw std::logic_error("bad_cast"); }
}
extern "C" {
#define CT(n) void n(void*, const char*) {}
#define DT(n) void n(void*) {}
CT(_ZNSt13runtime_errorC1EPKc) CT(_ZNSt13runtime_errorC2EPKc) CT(_ZNSt11logic_errorC1EPKc) CT(_ZNSt11logic_errorC2EPKc) CT(_ZNSt12length_errorC1EPKc) CT(_ZNSt12out_of_rangeC1EPKc) CT(_ZNSt16invalid_argumentC1EPKc)
CT(_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE) CT(_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE) CT(_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE)
CT(_ZNSt13runtime_errorC2ERKS_) CT(_ZNSt13runtime_errorC1ERKS_)
DT(_ZNSt13runtime_errorD2Ev) DT(_ZNSt13runtime_errorD1Ev) DT(_ZNSt11logic_errorD2Ev) DT(_ZNSt11logic_errorD1Ev) DT(_ZNSt12length_errorD1Ev) DT(_ZNSt12out_of_rangeD1Ev) DT(_ZNSt16invalid_argumentD1Ev)
DT(_ZNSt9bad_allocD1Ev) DT(_ZNSt9bad_allocD2Ev) DT(_ZNSt9exceptionD2Ev) DT(_ZNSt9exceptionD1Ev)
const char* _ZNKSt9exception4whatEv(void*) { return "std::exception"; }
}
template class std::basic_string<char>;
