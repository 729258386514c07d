// stand-in for the third-party expression library: an expression "E<i>" evaluates vp_expr( i, .. ) (defined by the harness) on what is bound to it
#ifndef VP_EXPRTK
#define VP_EXPRTK
#include <string>
#include <cstddef>
template< typename T > void vp_expr( int i_id, T *i_crds[3], T *io_q, std::size_t i_nQ );
namespace exprtk {
struct parser_error { struct type { struct { std::size_t position; } token; int mode; std::string diagnostic; }; static std::string to_str( int ) { return std::string(); } };
template< typename T > struct symbol_table {
  T *crds[3]; T *q; std::size_t nQ; bool consts;
  symbol_table(): q(0), nQ(0), consts(false) { crds[0] = crds[1] = crds[2] = 0; }
  bool add_variable( std::string const &s, T &v ) { if( s.size() != 1 || s[0] < 'x' || s[0] > 'z' || crds[s[0]-'x'] ) return false; crds[s[0]-'x'] = &v; return true; }
  bool add_vector( std::string const &s, T *v, std::size_t n ) { if( s.size() != 1 || s[0] != 'q' || q || n == 0 ) return false; q = v; nQ = n; return true; }
  bool add_constants() { consts = true; return true; }
};
template< typename T > struct expression {
  symbol_table< T > *st; int id;
  expression(): st(0), id(-1) {}
  void register_symbol_table( symbol_table< T > &s ) { st = &s; }
  T value() const { if( id >= 0 ) vp_expr< T >( id, st->crds, st->q, st->nQ ); return 0; }
};
template< typename T > struct parser {
  bool compile( std::string const &s, expression< T > &e ) {
    if( !e.st ) return false;
    if( s.size() == 2 && s[0] == 'E' ) e.id = s[1] - '0';
    else if( s.size() == 5 && s[0] == '0' ) e.id = -1; // dummy
    else return false;
    return true;
  }
  std::size_t error_count() const { return 0; }
  parser_error::type get_error( std::size_t ) const { return parser_error::type(); }
};
}
#endif
