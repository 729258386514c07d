// force-included before everything
#ifndef VP_PRE_H
#define VP_PRE_H
#if defined(VP_STRINGS) && defined(__VP_SYM__)
// instantiate the string class instead of linking it
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <cassert>
#include <limits>
#include <algorithm>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <iostream>
#include <fstream>
#include <sstream>
#include <memory>
#include <numeric>
#include <functional>
#include <utility>
#include <iomanip>
#include <ctime>
#include <chrono>
#include <array>
#include <unordered_map>
#include "vp.h"
#ifdef __VP_SYM__
// libstdc++'s out-of-line red-black tree functions, as plain (unbalanced) binary trees: same ordering semantics
namespace std {
  inline _Rb_tree_node_base *vp_inc( _Rb_tree_node_base *x ) {
    if( x->_M_right ) { x = x->_M_right; while( x->_M_left ) x = x->_M_left; return x; }
    _Rb_tree_node_base *y = x->_M_parent;
    while( x == y->_M_right ) { x = y; y = y->_M_parent; }
    if( x->_M_right != y ) x = y;
    return x;
  }
  __attribute__((used)) _Rb_tree_node_base *_Rb_tree_increment( _Rb_tree_node_base *x ) throw() { return vp_inc( x ); }
  __attribute__((used)) const _Rb_tree_node_base *_Rb_tree_increment( const _Rb_tree_node_base *x ) throw() { return vp_inc( const_cast< _Rb_tree_node_base* >( x ) ); }
  inline _Rb_tree_node_base *vp_dec( _Rb_tree_node_base *x ) {
    if( x->_M_color == _S_red && x->_M_parent->_M_parent == x ) return x->_M_right;
    if( x->_M_left ) { x = x->_M_left; while( x->_M_right ) x = x->_M_right; return x; }
    _Rb_tree_node_base *y = x->_M_parent;
    while( x == y->_M_left ) { x = y; y = y->_M_parent; }
    return y;
  }
  __attribute__((used)) _Rb_tree_node_base *_Rb_tree_decrement( _Rb_tree_node_base *x ) throw() { return vp_dec( x ); }
  __attribute__((used)) const _Rb_tree_node_base *_Rb_tree_decrement( const _Rb_tree_node_base *x ) throw() { return vp_dec( const_cast< _Rb_tree_node_base* >( x ) ); }
  __attribute__((used)) void _Rb_tree_insert_and_rebalance( const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h ) throw() {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black; // header stays red
    if( left ) {
      p->_M_left = x;
      if( p == &h ) { h._M_parent = x; h._M_right = x; }
      else if( p == h._M_left ) h._M_left = x;
    } else {
      p->_M_right = x;
      if( p == h._M_right ) h._M_right = x;
    }
  }
}
#endif
#endif
