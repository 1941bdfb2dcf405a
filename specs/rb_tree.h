// Verifier-only stand-in for the four out-of-line red-black tree primitives of
// libstdc++ (they live in libstdc++.so, so no IR is available).  Same search
// tree, without rebalancing; the in-order sequence is what callers rely on.
// Trusted: "libstdc++ _Rb_tree primitives keep the in-order sequence".
#pragma once
#include <map>
#ifndef LV_NATIVE
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left)
            x = x->_M_left;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) {
        x = y;
        y = y->_M_parent;
    }
    return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw()
{
    return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
    // the header is the only red node whose grandparent is itself
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
        return x->_M_right;
    if (x->_M_left) {
        x = x->_M_left;
        while (x->_M_right)
            x = x->_M_right;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) {
        x = y;
        y = y->_M_parent;
    }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw()
{
    return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
}
void _Rb_tree_insert_and_rebalance(const bool left,
                                   _Rb_tree_node_base* x,
                                   _Rb_tree_node_base* p,
                                   _Rb_tree_node_base& header) throw()
{
    x->_M_parent = p;
    x->_M_left = x->_M_right = nullptr;
    x->_M_color              = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &header) {
            header._M_parent = x;
            header._M_right  = x;
        } else if (p == header._M_left)
            header._M_left = x;
    } else {
        p->_M_right = x;
        if (p == header._M_right)
            header._M_right = x;
    }
}
} // namespace std
#endif
