// C++ runtime pieces that live in libstdc++.so, for the symbolic program only.
#include <string>
#include <map>
#include <set>
#include <vector>
template class std::basic_string<char>;
namespace std {
// red-black tree support, insertion only
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw()
{
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
static void turn(_Rb_tree_node_base *x, bool left, _Rb_tree_node_base *&root)
{
    _Rb_tree_node_base *y = left ? x->_M_right : x->_M_left, *in = left ? y->_M_left : y->_M_right; if (left) x->_M_right = in; else x->_M_left = in;
    if (in) in->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
    if (left) y->_M_left = x; else y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw()
{
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    _Rb_tree_node_base *&root = h._M_parent;
    while (x != root && x->_M_parent->_M_color == _S_red) {
        _Rb_tree_node_base *g = x->_M_parent->_M_parent; bool l = x->_M_parent == g->_M_left; _Rb_tree_node_base *u = l ? g->_M_right : g->_M_left;
        if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = u->_M_color = _S_black; g->_M_color = _S_red; x = g; continue; }
        if (x == (l ? x->_M_parent->_M_right : x->_M_parent->_M_left)) { x = x->_M_parent; turn(x, l, root); }
        x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; turn(g, !l, root);
    }
    root->_M_color = _S_black;
}
}
extern "C" int __cxa_guard_acquire(uint64_t *g) { return !*(char *)g; }
extern "C" void __cxa_guard_release(uint64_t *g) { *(char *)g = 1; }
extern "C" void __cxa_guard_abort(uint64_t *) { }
