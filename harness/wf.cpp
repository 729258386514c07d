// wave field output: selection of elements, VTK files, directories
#include "vp.h"
#include <cmath>
#include <cerrno>
#include <cstdio>
#include <limits>
#include <vector>
#include <string>
#include <set>
#include <map>
#include <fstream>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <sys/types.h>
#include <sys/stat.h>
#include <unistd.h>
#include "constants.hpp"
#include "io/logging.h"
#undef EDGE_LOG_FATAL
#define EDGE_LOG_FATAL if( vp_check_failed( "fatal error" ), true ) std::cerr
// in-memory directories: normalized absolute-or-relative paths; the parent has to exist
static std::vector< std::string > *g_dirs; static int g_race = 0, g_errno = 0;
static std::string norm( char const *p ) { std::string r; bool abs = p[0] == '/'; if( abs ) r = "/"; std::string c; for( std::size_t i=0;; i++ ) { if( p[i] == '/' || p[i] == 0 ) { if( c.size() && c != "." ) { if( r.size() && r[r.size()-1] != '/' ) r += "/"; r += c; } c.clear(); if( !p[i] ) break; } else c += p[i]; } return r; }
static bool has( std::string const &n ) { if( n == "" || n == "/" ) return true; for( std::size_t i=0; i<g_dirs->size(); i++ ) if( (*g_dirs)[i] == n ) return true; return false; }
static std::string parent( std::string const &n ) { std::string r; std::size_t l = 0; bool f = false; for( std::size_t i=0; i<n.size(); i++ ) if( n[i] == '/' ) { l = i; f = true; } if( !f ) return ""; if( l == 0 ) return "/"; for( std::size_t i=0; i<l; i++ ) r += n[i]; return r; }
static int vpf_stat( char const *p, struct stat * ) { if( p[0] == 0 ) return -1; return has( norm( p ) ) ? 0 : -1; }
static int vpf_mkdir( char const *p, int ) {
  std::string n = norm( p );
  if( g_race && !has( n ) && has( parent( n ) ) ) { g_race--; g_dirs->push_back( n ); } // another rank was faster
  if( has( n ) ) { g_errno = EEXIST; return -1; }
  if( !has( parent( n ) ) ) { g_errno = ENOENT; return -1; }
  g_dirs->push_back( n ); return 0;
}
static int vpf_fsync( int ) { return 0; }
#undef errno
#define errno g_errno
#define stat(p,s) vpf_stat(p,s)
#define mkdir vpf_mkdir
#define fsync vpf_fsync
#include "io/FileSystem.hpp"
#undef stat
#undef mkdir
#undef fsync
// recorded file: characters, printed integers and floats, binary words
struct Tok { char k; int c; float f; uint32_t w; };
struct Rec { std::string name; std::vector< Tok > t; bool open; };
static std::vector< Rec > *g_files;
static Tok g_num[2]; // numbers printed into a string
static FILE *vpf_open( char const *n, char const * ) {
  g_files->push_back( Rec() ); Rec &r = g_files->back(); r.name = n; r.open = true;
  std::string d = parent( norm( n ) ); vp_assert( has( d ), "the directory of the file exists" );
  return (FILE*) (std::size_t) g_files->size();
}
static int vpf_close( FILE * ) { g_files->back().open = false; return 0; }
static void put( char k, int c, float f, uint32_t w ) { Tok t; t.k = k; t.c = c; t.f = f; t.w = w; g_files->back().t.push_back( t ); }
static int vpf_printf( FILE *, char const *s ) { vp_assert( g_files->back().open, "file is open" ); for( ; *s; s++ ) { if( *s == 1 ) g_files->back().t.push_back( g_num[0] ); else put( 'c', *s, 0, 0 ); } return 0; }
static std::size_t vpf_write( void const *p, std::size_t s, std::size_t n, FILE * ) { vp_assert( s == 4 && n == 1 && g_files->back().open, "binary words" ); uint32_t w; std::memcpy( &w, p, 4 ); put( 'w', 0, 0, w ); return 1; }
static void app( char *&o, char const *s ) { while( *s ) *o++ = *s++; }
static void appi( char *&o, int v ) { char b[12]; int n = 0; v = (int) vp_concrete( (uint64_t) (unsigned) v ); if( v == 0 ) b[n++] = '0'; while( v ) { b[n++] = '0' + v % 10; v /= 10; } while( n ) *o++ = b[--n]; }
// formats of the writer: numbers followed by a blank only are kept as numbers
static int vpf_s( char *o, char const *f, int a ) { if( !std::strcmp( f, "%d " ) ) { g_num[0].k = 'i'; g_num[0].c = a; o[0] = 1; o[1] = ' '; o[2] = 0; return 2; } for( ; *f; f++ ) if( *f == '%' ) { f++; appi( o, a ); } else *o++ = *f; *o = 0; return 1; }
static int vpf_s( char *o, char const *, double a ) { g_num[0].k = 'f'; g_num[0].f = (float) a; o[0] = 1; o[1] = ' '; o[2] = 0; return 2; }
static int vpf_s( char *o, char const *f, int a, int b ) { int k = 0; for( ; *f; f++ ) if( *f == '%' ) { f++; appi( o, k++ ? b : a ); } else *o++ = *f; *o = 0; return 1; }
static int vpf_s( char *o, char const *f, char const *a ) { for( ; *f; f++ ) if( *f == '%' ) { f++; app( o, a ); } else *o++ = *f; *o = 0; return 1; }
static int vpf_s( char *o, char const *f, char const *a, int b ) { int k = 0; for( ; *f; f++ ) if( *f == '%' ) { f++; if( k++ ) appi( o, b ); else app( o, a ); } else *o++ = *f; *o = 0; return 1; }
static int vpf_s( char *o, char const *f, char const *a, int b, int c ) { int k = 0; for( ; *f; f++ ) if( *f == '%' ) { f++; if( k == 0 ) app( o, a ); else appi( o, k == 1 ? b : c ); k++; } else *o++ = *f; *o = 0; return 1; }
static int vpf_s( char *, char const *, int, int, int ) { vp_assert( false, "other writers" ); return 0; }
template< typename A > static void vpf_p( A ) {}
template< typename A, typename B > static void vpf_p( A, B ) {}
#define fopen vpf_open
#define fclose vpf_close
#define fprintf vpf_printf
#define fwrite vpf_write
#define sprintf vpf_s
#define printf vpf_p
static char const *vpf_strstr( char const *a, char const *b ) { for( ; *a; a++ ) { char const *x = a, *y = b; while( *y && *x == *y ) { x++; y++; } if( !*y ) return a; } return NULL; }
static char *vpf_strcpy( char *a, char const *b ) { char *r = a; while( ( *a++ = *b++ ) ) {} return r; }
#define strstr vpf_strstr
#define strcpy vpf_strcpy
#include "submodules/visit_writer/visit_writer.cpp"
#undef fopen
#undef fclose
#undef fprintf
#undef fwrite
#undef sprintf
#undef printf
#undef strstr
#undef strcpy
#include "io/Vtk.cpp"
#include "io/WaveField.cpp"
namespace edge { namespace parallel { int g_rank = 0; int g_nRanks = 16; int g_thread = 0; int g_nThreads = 1; std::string g_rankStr = "0"; int_gid g_gidDummy; } }
using namespace edge;
#define NV C_ENT[T_SDISC.ELEMENT].N_VERTICES
#ifndef NEL
#define NEL 3
#endif
#define NVE (NEL+(int)NV-1)
// reader of legacy VTK files
static std::size_t g_p; static Rec *g_r; static bool g_bin;
static bool blank( Tok const &t ) { return t.k == 'c' && ( t.c == ' ' || t.c == '\n' ); }
static void skip() { while( g_p < g_r->t.size() && blank( g_r->t[g_p] ) ) g_p++; }
static void word( char const *s ) { // keyword
  skip(); for( ; *s; s++, g_p++ ) { vp_assert( g_p < g_r->t.size() && g_r->t[g_p].k == 'c' && g_r->t[g_p].c == *s, "keywords and sizes of the file" ); }
  vp_assert( g_p == g_r->t.size() || blank( g_r->t[g_p] ), "keywords and sizes are separated" );
}
static void num( int v ) { char b[16], *o = b; appi( o, v ); *o = 0; word( b ); }
static void eol() { vp_assert( g_p < g_r->t.size() && g_r->t[g_p].k == 'c' && g_r->t[g_p].c == '\n', "header lines end" ); g_p++; }
static int rdInt() { if( !g_bin ) skip(); vp_assert( g_p < g_r->t.size() && g_r->t[g_p].k == ( g_bin ? 'w' : 'i' ), "integer of the file" ); Tok &t = g_r->t[g_p++]; return g_bin ? (int) __builtin_bswap32( t.w ) : t.c; }
static void rdFloat( float v, char const *l ) {
  if( !g_bin ) skip(); vp_assert( g_p < g_r->t.size() && g_r->t[g_p].k == ( g_bin ? 'w' : 'f' ), "real value of the file" ); Tok &t = g_r->t[g_p++];
  if( g_bin ) { uint32_t w; std::memcpy( &w, &v, 4 ); vp_assert( __builtin_bswap32( t.w ) == w, l ); } else vp_assert( t.f == v, l );
}
extern "C" void vp_entry() {
  std::vector< std::string > dirs; g_dirs = &dirs;
  std::vector< Rec > files; files.reserve( 8 ); g_files = &files;
#if CASE == 0
  // directories
  unsigned n = vp_pick( "len", 1, PLEN ); std::string p;
  for( unsigned i=0; i<n; i++ ) p += vp_pick( "char", 0, 1 ) ? '/' : 'a';
  g_race = vp_pick( "race", 0, 2 );
  if( vp_pick( "exists", 0, 1 ) ) dirs.push_back( p[0] == '/' ? "/a" : "a" );
  io::FileSystem::createDir( p );
  std::string full = norm( p.c_str() );
  vp_assert( has( full ), "directory exists after its creation" );
  for( std::size_t i=0; i<dirs.size(); i++ ) { std::string f = full; bool ok = dirs[i] == "a" || dirs[i] == "/a"; while( f != "" && f != "/" ) { ok = ok || f == dirs[i]; f = parent( f ); } vp_assert( ok, "only the directory and its parents are created" ); }
#else
  parallel::g_rank = vp_pick( "rank", 0, 1 ) ? 12 : 0; parallel::g_rankStr = parallel::g_rank ? "12" : "0";
  g_bin = BIN;
  t_vertexChars vc[NVE]; std::memset( vc, 0, sizeof(vc) ); t_elementChars ec[NEL]; std::size_t elVe[NEL][NV];
  real_base dofs[NEL][N_QUANTITIES][N_ELEMENT_MODES][N_CRUNS];
  for( int v=0; v<NVE; v++ ) for( int d=0; d<3; d++ ) vc[v].coords[d] = BIN ? 0.5 + v*3+d : vp_f64( "crd", -100, 100 );
  for( int e=0; e<NEL; e++ ) { ec[e].spType = vp_u64( "spType", 0, 15 ); for( unsigned v=0; v<NV; v++ ) elVe[e][v] = BIN ? 300*e+v : vp_u64( "ve", 0, NVE-1 ); /* binary: distinct ids of several bytes (only written) */ }
  int_spType sp = std::numeric_limits< int_spType >::max();
  bool all = vp_pick( "all", 0, 1 ); if( !all ) sp = vp_u64( "sp", 0, 15 );
  std::vector< int > pr; for( int e=0; e<NEL; e++ ) { bool p = all || ( ec[e].spType & sp ) == sp; if( vp_concrete( p ) ) pr.push_back( e ); }
  { io::WaveField wf( BIN ? "vtk_binary" : "vtk_ascii", vp_pick( "abs", 0, 1 ) ? "/o/p/wf" : "o/wf", NVE, NEL, vc, ec, elVe, dofs, sp );
    for( int s=0; s<2; s++ ) {
      for( int e=0; e<NEL; e++ ) for( int q=0; q<N_QUANTITIES; q++ ) for( int m=0; m<(int)N_ELEMENT_MODES; m++ ) for( int c=0; c<N_CRUNS; c++ ) dofs[e][q][m][c] = BIN ? -1.25 - ((((s*NEL+e)*N_QUANTITIES+q)*2+(m>0))*N_CRUNS+c) : m < 2 ? vp_f64( "dof", -100, 100 ) : 0;
      wf.write( s );
      vp_assert( files.size() == ( pr.size() ? s+1u : 0u ), "one file per step if there is something to write" );
      if( pr.size() == 0 ) continue;
      Rec &r = files.back(); g_r = &r; g_p = 0;
      std::string nm = parent( norm( r.name.c_str() ) ); std::string rk = parallel::g_rankStr;
      vp_assert( nm == "o/" + rk || nm == "/o/p/" + rk, "file is in the directory of the rank" );
      vp_assert( r.name.substr( nm.size()+1 ) == "wf_" + rk + ( s ? "_1.vtk" : "_0.vtk" ) && !r.open, "file name with rank and step" );
      word( "#" ); word( "vtk" ); word( "DataFile" ); word( "Version" ); word( "2.0" ); eol();
      while( g_p < r.t.size() && !( r.t[g_p].k == 'c' && r.t[g_p].c == '\n' ) ) g_p++;
      word( g_bin ? "BINARY" : "ASCII" ); eol();
      word( "DATASET" ); word( "UNSTRUCTURED_GRID" ); eol();
      word( "POINTS" ); num( NVE ); word( "float" ); eol();
      for( int v=0; v<NVE; v++ ) for( int d=0; d<3; d++ ) rdFloat( vc[v].coords[d], "coordinates of the vertices" );
      word( "CELLS" ); num( pr.size() ); num( pr.size()*(NV+1) ); eol();
      for( unsigned i=0; i<pr.size(); i++ ) { vp_assert( rdInt() == (int) NV, "number of vertices" ); for( unsigned v=0; v<NV; v++ ) vp_assert( rdInt() == (int) elVe[pr[i]][v], "vertices of the printed elements" ); }
      word( "CELL_TYPES" ); num( pr.size() ); eol();
      for( unsigned i=0; i<pr.size(); i++ ) vp_assert( rdInt() == ( T_SDISC.ELEMENT == LINE ? 3 : T_SDISC.ELEMENT == TRIA3 ? 5 : T_SDISC.ELEMENT == QUAD4R ? 9 : T_SDISC.ELEMENT == HEX8R ? 12 : 10 ), "VTK type of the elements" );
      word( "CELL_DATA" ); num( pr.size() ); eol();
      for( int c=0; c<N_CRUNS; c++ ) for( int q=0; q<N_QUANTITIES; q++ ) {
        std::string var = "crun_" + std::string( 1, '0'+c ) + "_var_" + std::string( 1, '0'+q );
        if( c == 0 && q == 0 ) { word( "SCALARS" ); word( var.c_str() ); word( "float" ); eol(); word( "LOOKUP_TABLE" ); word( "default" ); eol(); }
        else { if( c*N_QUANTITIES+q == 1 ) { word( "FIELD" ); word( "FieldData" ); num( N_CRUNS*N_QUANTITIES-1 ); eol(); } word( var.c_str() ); num( 1 ); num( pr.size() ); word( "float" ); eol(); }
        for( unsigned i=0; i<pr.size(); i++ ) rdFloat( dofs[pr[i]][q][0][c], "first mode of the printed elements, per quantity and fused simulation" );
      }
      skip();
      // remaining: empty point data only
      if( g_p < r.t.size() ) { word( "POINT_DATA" ); num( NVE ); skip(); vp_assert( g_p == r.t.size(), "nothing else is written" ); }
    }
  }
#endif
  vp_reach( "end" );
}
