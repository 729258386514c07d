// Native replay runtime: feeds the solver's concrete inputs to the same harness, compiled natively.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <new>
static std::vector< std::pair< std::string, std::string > > g_in;
static size_t g_pos = 0;
static bool g_allow = false;
static std::string next( char const *n ) {
  if( g_pos >= g_in.size() ) { printf( "REPLAY-DIVERGED no input for %s\n", n ); exit( 3 ); }
  std::string base = g_in[g_pos].first.substr( 0, g_in[g_pos].first.find( '#' ) );
  if( base != n ) { printf( "REPLAY-DIVERGED want %s have %s\n", n, base.c_str() ); exit( 3 ); }
  return g_in[g_pos++].second;
}
extern "C" {
uint64_t vp_u64( char const *n, uint64_t, uint64_t ) { return strtoull( next(n).c_str(), 0, 10 ); }
bool vp_bool( char const *n ) { return strtoull( next(n).c_str(), 0, 10 ) != 0; }
double vp_f64( char const *n, double, double ) { return strtod( next(n).c_str(), 0 ); }
float vp_f32( char const *n, float, float ) { return strtof( next(n).c_str(), 0 ); }
uint64_t vp_concrete( uint64_t v ) { return v; }
void vp_assume( bool c ) { if( !c ) { printf( "REPLAY-ASSUME-FALSE\n" ); exit( 4 ); } }
// known findings of the job do not end the replay of another violation
static bool known( char const *l ) {
  char const *k = getenv( "VP_KNOWN" );
  while( k && *k ) {
    char const *e = strchr( k, '\n' );
    size_t n = e ? size_t(e-k) : strlen( k );
    if( strlen( l ) == n && strncmp( k, l, n ) == 0 ) return true;
    k = e ? e+1 : nullptr;
  }
  return false;
}
void vp_fail( char const *l ) { if( known( l ) ) return; printf( "REPLAY-FAILED %s\n", l ); fflush( stdout ); _Exit( 42 ); }
void vp_assert_( bool c, char const *l ) { if( !c ) vp_fail( l ); }
void vp_close_( double a, double b, double t, char const *l ) { if( !(std::fabs( a-b ) <= t*0.5) ) { printf( "%.17g vs %.17g\n", a, b ); vp_fail( l ); } }
void vp_same_( double a, double b, char const *l ) { if( !(a == b || (a!=a && b!=b)) ) vp_fail( l ); }
void vp_samef_( float a, float b, char const *l ) { if( !(a == b || (a!=a && b!=b)) ) vp_fail( l ); }
void vp_reach( char const * ) {}
void vp_end() { exit( 0 ); }
void vp_allow_abort( int o ) { g_allow = o; }
void vp_check_failed( char const *l ) { if( g_allow ) exit( 0 ); printf( "REPLAY-FAILED check %s\n", l ); fflush( stdout ); _Exit( 43 ); }
void vp_dbg( char const *, uint64_t ) {}
void vp_dbgf( char const *, double ) {}
void vp_entry();
}
int main( int argc, char **argv ) {
  FILE *f = fopen( argv[1], "r" );
  if( !f ) return 5;
  char nm[512], val[512];
  while( fscanf( f, "%511s %511s", nm, val ) == 2 ) g_in.push_back( { nm, val } );
  fclose( f );
  vp_entry();
  printf( "REPLAY-OK\n" );
  return 0;
}
