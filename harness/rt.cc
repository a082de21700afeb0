// Parts of libstdc++ that live in the shared library, as bitcode (used by the symbolic run only).
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <cstdint>
#include <cstddef>
#include <string>
template class std::allocator<char>;
template class std::basic_string<char>;
#include <system_error>
namespace std {
const char * exception::what() const noexcept { return "exception"; }
const char * runtime_error::what() const noexcept { return "error"; }
const char * logic_error::what() const noexcept { return "error"; }
inline namespace _V2 {
struct Category : error_category { const char * name() const noexcept override { return "system"; } string message( int ) const override { return "error"; } };
alignas( Category ) static char category[ sizeof( Category ) ];
const error_category & system_category() noexcept { static bool made; if ( !made ) { made = true; new ( category ) Category; } return *(const error_category *) category; }
}
namespace __detail {
void _List_node_base::_M_hook( _List_node_base * p ) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer( _List_node_base * f, _List_node_base * l ) noexcept { if ( this != l ) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto * t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
static const size_t primes[] = { 2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411, 57557 };
size_t _Prime_rehash_policy::_M_next_bkt( size_t n ) const { for ( size_t p : primes ) if ( p >= n ) { _M_next_resize = p; return p; } return 57557; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash( size_t nb, size_t ne, size_t ni ) const { if ( ne + ni > _M_next_resize || nb < ne + ni ) { size_t k = _M_next_bkt( ne + ni > 11 ? ( ne + ni ) * 2 : 11 ); if ( k > nb ) return { true, k }; } return { false, 0 }; }
}
static _Rb_tree_node_base * inc( _Rb_tree_node_base * x ) { if ( x->_M_right ) { x = x->_M_right; while ( x->_M_left ) x = x->_M_left; return x; } auto * y = x->_M_parent; while ( x == y->_M_right ) { x = y; y = y->_M_parent; } if ( x->_M_right != y ) x = y; return x; }
static _Rb_tree_node_base * decr( _Rb_tree_node_base * x ) { if ( x->_M_color == _S_red && x->_M_parent->_M_parent == x ) return x->_M_right; if ( x->_M_left ) { auto * y = x->_M_left; while ( y->_M_right ) y = y->_M_right; return y; } auto * y = x->_M_parent; while ( x == y->_M_left ) { x = y; y = y->_M_parent; } return y; }
_Rb_tree_node_base * _Rb_tree_increment( _Rb_tree_node_base * x ) throw() { return inc( x ); }
const _Rb_tree_node_base * _Rb_tree_increment( const _Rb_tree_node_base * x ) throw() { return inc( const_cast<_Rb_tree_node_base*>( x ) ); }
_Rb_tree_node_base * _Rb_tree_decrement( _Rb_tree_node_base * x ) throw() { return decr( x ); }
const _Rb_tree_node_base * _Rb_tree_decrement( const _Rb_tree_node_base * x ) throw() { return decr( const_cast<_Rb_tree_node_base*>( x ) ); }
void _Rb_tree_insert_and_rebalance( const bool left, _Rb_tree_node_base * x, _Rb_tree_node_base * p, _Rb_tree_node_base & h ) throw()
{ // unbalanced insertion: the same abstract container
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if ( left ) { p->_M_left = x; if ( p == &h ) { h._M_parent = x; h._M_right = x; } else if ( p == h._M_left ) h._M_left = x; }
  else { p->_M_right = x; if ( p == h._M_right ) h._M_right = x; }
}
_Rb_tree_node_base * _Rb_tree_rebalance_for_erase( _Rb_tree_node_base * const z, _Rb_tree_node_base & h ) throw()
{
  _Rb_tree_node_base * y = z, * x = nullptr;
  if ( !y->_M_left ) x = y->_M_right; else if ( !y->_M_right ) x = y->_M_left; else { y = y->_M_right; while ( y->_M_left ) y = y->_M_left; x = y->_M_right; }
  auto replace = [&]( _Rb_tree_node_base * o, _Rb_tree_node_base * n ) { if ( h._M_parent == o ) h._M_parent = n; else if ( o->_M_parent->_M_left == o ) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if ( n ) n->_M_parent = o->_M_parent; };
  if ( y != z ) { if ( y != z->_M_right ) { replace( y, x ); y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } replace( z, y ); y->_M_left = z->_M_left; z->_M_left->_M_parent = y; }
  else { replace( z, x ); if ( h._M_left == z ) { if ( !z->_M_right ) h._M_left = z->_M_parent; else { auto * m = x; while ( m->_M_left ) m = m->_M_left; h._M_left = m; } } if ( h._M_right == z ) { if ( !z->_M_left ) h._M_right = z->_M_parent; else { auto * m = x; while ( m->_M_right ) m = m->_M_right; h._M_right = m; } } }
  return z;
}
size_t _Hash_bytes( const void * p, size_t n, size_t seed ) { const unsigned char * c = (const unsigned char*) p; size_t h = seed; for ( size_t i = 0; i < n; i++ ) h = ( h ^ c[ i ] ) * 0x100000001b3ull; return h; }
}
