// definitions of library functions that live in libstdc++.so, for the symbolic engine (compiled from the installed headers)
#include <string>
template class std::basic_string<char>;
#include <bits/stl_tree.h>
// std::map/std::set node linking (libstdc++.so tree.cc): the same search tree without the rebalancing, which only affects cost
namespace std {
typedef _Rb_tree_node_base* BP;
static BP inc_(BP x)
{
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    BP y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
static BP dec_(BP x)
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    BP y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
BP _Rb_tree_increment(BP x) throw() { return inc_(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc_(const_cast<BP>(x)); }
BP _Rb_tree_decrement(BP x) throw() { return dec_(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec_(const_cast<BP>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, BP x, BP p, _Rb_tree_node_base& h) throw()
{
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;  // header stays red
    if (left)
    {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    }
    else
    {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
BP _Rb_tree_rebalance_for_erase(BP const z, _Rb_tree_node_base& h) throw()
{
    if (h._M_left == z) h._M_left = inc_(z);
    if (h._M_right == z) h._M_right = dec_(z);
    BP r;
    if (!z->_M_left) r = z->_M_right;
    else if (!z->_M_right) r = z->_M_left;
    else
    {
        r = z->_M_right;
        while (r->_M_left) r = r->_M_left;
        if (r->_M_parent != z)
        {
            r->_M_parent->_M_left = r->_M_right;
            if (r->_M_right) r->_M_right->_M_parent = r->_M_parent;
            r->_M_right = z->_M_right; z->_M_right->_M_parent = r;
        }
        r->_M_left = z->_M_left; z->_M_left->_M_parent = r;
    }
    BP p = z->_M_parent;
    if (p == &h) h._M_parent = r; else if (p->_M_left == z) p->_M_left = r; else p->_M_right = r;
    if (r) r->_M_parent = p;
    return z;
}
}
