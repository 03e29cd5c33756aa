// Verification-only bodies for out-of-line libstdc++ runtime routines whose
// source is not in headers: ordered tree links (no rebalancing: the in-order
// sequence, which is all std::map/std::set observe, is the same) and hash sizes.
#include <bits/stl_tree.h>
#include <unordered_map>
#include <cstring>
namespace std {
static _Rb_tree_node_base* v_inc(_Rb_tree_node_base* x)
{
  if (x->_M_right != 0) {
    x = x->_M_right;
    while (x->_M_left != 0) x = x->_M_left;
  } else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
static _Rb_tree_node_base* v_dec(_Rb_tree_node_base* x)
{
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left != 0) {
    _Rb_tree_node_base* y = x->_M_left;
    while (y->_M_right != 0) y = y->_M_right;
    x = y;
  } else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    x = y;
  }
  return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return v_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return v_inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return v_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return v_dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
  _Rb_tree_node_base* y = z; _Rb_tree_node_base* x = 0;
  if (y->_M_left == 0) x = y->_M_right;
  else if (y->_M_right == 0) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left != 0) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
    }
    if (h._M_parent == z) h._M_parent = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    return z;
  }
  if (x) x->_M_parent = y->_M_parent;
  if (h._M_parent == z) h._M_parent = x;
  else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
  else z->_M_parent->_M_right = x;
  if (h._M_left == z) { if (z->_M_right == 0) h._M_left = z->_M_parent; else { _Rb_tree_node_base* q = x; while (q->_M_left) q = q->_M_left; h._M_left = q; } }
  if (h._M_right == z) { if (z->_M_left == 0) h._M_right = z->_M_parent; else { _Rb_tree_node_base* q = x; while (q->_M_right) q = q->_M_right; h._M_right = q; } }
  return z;
}
namespace __detail {
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { std::size_t b = 13; while (b < n) b = 2 * b + 1; _M_next_resize = b; return b; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t n_bkt, std::size_t n_elt, std::size_t n_ins) const
{
  if (n_elt + n_ins > _M_next_resize) { return {true, _M_next_bkt(n_elt + n_ins > n_bkt * 2 ? n_elt + n_ins : n_bkt * 2)}; }
  return {false, 0};
}
}
}
