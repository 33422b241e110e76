// Model of the four out-of-line red-black-tree helpers of libstdc++: an
// (unbalanced) binary search tree with the same header-node protocol.  The
// balancing is not observable through std::map.
#include <map>
namespace std {
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p,
                                   _Rb_tree_node_base &h) noexcept {
  x->_M_parent = p;
  x->_M_left = 0;
  x->_M_right = 0;
  x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) {
      h._M_parent = x;
      h._M_right = x;
    } else if (p == h._M_left)
      h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right)
      h._M_right = x;
  }
  h._M_color = _S_red;
  h._M_parent->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left)
      x = x->_M_left;
    return x;
  }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right) {
    x = y;
    y = y->_M_parent;
  }
  if (x->_M_right != y)
    x = y;
  return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() {
  return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x));
}
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
    return x->_M_right;
  if (x->_M_left) {
    x = x->_M_left;
    while (x->_M_right)
      x = x->_M_right;
    return x;
  }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) {
    x = y;
    y = y->_M_parent;
  }
  return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() {
  return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x));
}
} // namespace std
