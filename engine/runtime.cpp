// libstdc++ pieces whose definitions live in the shared library, given as real code so that
// the symbolic executor can interpret them.
#include <string>
#include <map>
#include <list>
#include <unordered_map>
#include <algorithm>
#include <cmath>
template class std::basic_string<char>;
extern "C" char __libc_single_threaded;
char __libc_single_threaded = 1;      // harnesses are single threaded: reference counts need no atomics

namespace std {
static _Rb_tree_node_base *inc(_Rb_tree_node_base *x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { auto *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x;
}
static _Rb_tree_node_base *dec(_Rb_tree_node_base *x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { auto *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
    else { auto *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec(const_cast<_Rb_tree_node_base *>(x)); }
// unbalanced insertion/erasure: iteration order, the only observable, is the same
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
    _Rb_tree_node_base *&root = h._M_parent, *&lm = h._M_left, *&rm = h._M_right;
    _Rb_tree_node_base *y = z, *x = 0;
    if (!y->_M_left) x = y->_M_right;
    else if (!y->_M_right) x = y->_M_left;
    else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) { if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
    } else {
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { auto *q = x; while (q->_M_left) q = q->_M_left; lm = q; } }
        if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { auto *q = x; while (q->_M_right) q = q->_M_right; rm = q; } }
    }
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
    if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
static const unsigned long primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (unsigned long p : primes) if (p >= n) { _M_next_resize = p; return p; } return n | 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > _M_next_resize) { size_t want = ne + ni; if (!_M_next_resize) want = want > 11 ? want : 11; if (want >= nb) { size_t w = want + 1 > nb * 2 ? want + 1 : nb * 2; return {true, _M_next_bkt(w)}; } _M_next_resize = nb; return {false, 0}; }
    return {false, 0};
}
}
}
