// receiver output of the solver: location, sampling in time, buffering and files
#include "vp.h"
#include <cmath>
#include <limits>
#include <vector>
#include <string>
#include <set>
#include <fstream>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <functional>
#include <array>
#include "constants.hpp"
#include "io/logging.h"
#undef EDGE_CHECK
#undef EDGE_CHECK_EQ
#undef EDGE_CHECK_NE
#undef EDGE_CHECK_LT
#undef EDGE_CHECK_LE
#undef EDGE_CHECK_GT
#define EDGE_CHECK(c) if( !(c) ) vp_check_failed( #c ); else if( false ) std::cerr
#define EDGE_CHECK_EQ(a,b) EDGE_CHECK( (a) == (b) )
#define EDGE_CHECK_NE(a,b) EDGE_CHECK( (a) != (b) )
#define EDGE_CHECK_LT(a,b) EDGE_CHECK( (a) < (b) )
#define EDGE_CHECK_LE(a,b) EDGE_CHECK( (a) <= (b) )
#define EDGE_CHECK_GT(a,b) EDGE_CHECK( (a) > (b) )
// recording files
struct Tok { bool num; double v; std::string s; };
struct File { std::string path; std::vector< Tok > t; };
static std::vector< File > *g_files;
struct VpNum { double v; };
namespace std {
  template< typename D > struct vp_out {
    std::vector< Tok > b; File *f = nullptr;
    std::vector< Tok > & o() { return f ? f->t : b; }
    D & me() { return *(D*) this; }
    D & operator<<( std::string const &s ) { o().push_back( Tok{ false, 0, s } ); return me(); }
    D & operator<<( char const *s ) { o().push_back( Tok{ false, 0, s } ); return me(); }
    D & operator<<( char s ) { o().push_back( Tok{ false, 0, std::string( 1, s ) } ); return me(); }
    D & operator<<( VpNum v ) { o().push_back( Tok{ true, v.v, "" } ); return me(); }
    D & operator<<( double v ) { o().push_back( Tok{ true, v, "" } ); return me(); }
    D & operator<<( float v ) { o().push_back( Tok{ true, v, "" } ); return me(); }
    D & operator<<( std::vector< Tok > const &v ) { for( std::size_t i=0; i<v.size(); i++ ) o().push_back( v[i] ); return me(); }
    D & operator<<( std::ios_base & (*)( std::ios_base & ) ) { return me(); }
    D & operator<<( std::ostream & (*)( std::ostream & ) ) { o().push_back( Tok{ false, 0, "\n" } ); return me(); }
  };
  struct vp_ostringstream : vp_out< vp_ostringstream > { std::vector< Tok > str() const { return b; } };
  struct vp_ofstream : vp_out< vp_ofstream > {
    vp_ofstream() {}
    vp_ofstream( std::string const &p, std::ios_base::openmode m = std::ios_base::out ) { open( p, m ); }
    void open( std::string const &p, std::ios_base::openmode m = std::ios_base::out ) {
      for( std::size_t i=0; i<g_files->size(); i++ ) if( (*g_files)[i].path == p ) f = &(*g_files)[i];
      if( !f ) { g_files->push_back( File() ); f = &g_files->back(); f->path = p; }
      if( !( m & std::ios_base::app ) ) f->t.clear();
    }
    bool is_open() const { return f; } bool good() const { return f; } void close() { f = nullptr; } void flush() {}
  };
  inline std::string vp_to_string( int v ) { return std::to_string( v ); }
  inline std::string vp_to_string( unsigned int v ) { return std::to_string( v ); }
  inline std::string vp_to_string( unsigned long v ) { return std::to_string( v ); }
  inline VpNum vp_to_string( double v ) { return VpNum{ v }; }
  inline VpNum vp_to_string( float v ) { return VpNum{ v }; }
}
#define EDGE_FILE_SYSTEM_HPP_
namespace edge { namespace io { struct FileSystem { static void createDir( std::string const & ) {} }; } }
#include "linalg/Matrix.h"
#include "linalg/Mappings.hpp"
#include "linalg/Geom.hpp"
#include "dg/Basis.h"
#include "dg/QuadratureEval.hpp"
#include "data/SparseEntities.hpp"
#include "io/Receivers.h"
#define ofstream vp_ofstream
#define ostringstream vp_ostringstream
#define stringstream vp_ostringstream
#define to_string vp_to_string
#define PP_EDGE_VERSION "v"
#include "io/Receivers.cpp"
#undef ofstream
#undef ostringstream
#undef stringstream
#undef to_string
#include "submodules/FastGL/fastgl.cpp"
namespace edge { namespace pre { namespace dg {
double const *g_massRaw;
extern std::size_t const g_massSize;
std::size_t const g_massSize = 1;
} } }
#include "dg/Basis.cpp"
namespace edge { namespace parallel { int g_rank = 3; int g_nRanks = 4; int g_thread = 0; int g_nThreads = 1; std::string g_rankStr; } }
static bool *g_own; static unsigned g_nOwn; static double g_dist[4];
void edge::parallel::Distributed::min( std::size_t n, double *v, unsigned short *o ) { vp_assert( n <= g_nOwn, "ownership is agreed on for all receivers" ); for( std::size_t i=0; i<n; i++ ) { g_dist[i] = v[i]; o[i] = g_own[i]; } }

static unsigned const NV = C_ENT[T_SDISC.ELEMENT].N_VERTICES, ND = N_DIM;
#if defined PP_T_ELEMENTS_LINE
#define NE 3
static double const VC[][3] = {{0,0,0},{1,0,0},{3,0,0},{3.5,0,0}};
static std::size_t const EV[NE*2] = {0,1, 1,2, 2,3};
#elif defined PP_T_ELEMENTS_QUAD4R
#define NE 3
static double const VC[][3] = {{0,0,0},{2,0,0},{2,1,0},{0,1,0},{3,0,0},{3,1,0},{0,3,0},{2,3,0}};
static std::size_t const EV[NE*4] = {0,1,2,3, 1,4,5,2, 3,2,7,6};
#elif defined PP_T_ELEMENTS_TRIA3
#define NE 3
static double const VC[][3] = {{0,0,0},{2,0,0},{0,1,0},{2,2,0},{3,0.5,0}};
static std::size_t const EV[NE*3] = {0,1,2, 1,3,2, 3,1,4};
#elif defined PP_T_ELEMENTS_TET4
#define NE 2
static double const VC[][3] = {{0,0,0},{2,0,0},{0,1,0},{0,0,1},{2,2,2}};
static std::size_t const EV[NE*4] = {0,1,2,3, 1,2,3,4};
#elif defined PP_T_ELEMENTS_HEX8R
#define NE 2
static double const VC[][3] = {{0,0,0},{2,0,0},{2,1,0},{0,1,0},{0,0,1},{2,0,1},{2,1,1},{0,1,1},{3,0,0},{3,1,0},{3,0,1},{3,1,1}};
static std::size_t const EV[NE*8] = {0,1,2,3,4,5,6,7, 1,8,9,2,5,10,11,6};
#endif
#ifndef EFIRST
#define EFIRST 0
#endif
static double vc( unsigned e, unsigned v, unsigned d ) { return VC[ EV[e*NV+v] ][d]; }
// reference coordinates of a point (affine elements)
static void ref( unsigned e, double const *p, double *r ) {
  double J[3][3] = {{1,0,0},{0,1,0},{0,0,1}}, b[3] = {0,0,0};
  unsigned ax[3] = { 1, NV == 4 && ND == 2 ? 3u : NV == 8 ? 3u : 2u, NV == 8 ? 4u : 3u };
  for( unsigned d=0; d<ND; d++ ) { b[d] = p[d]-vc( e, 0, d ); for( unsigned a=0; a<ND; a++ ) J[d][a] = vc( e, ax[a], d ) - vc( e, 0, d ); }
  double c[3][3]; for( int i=0; i<3; i++ ) for( int j=0; j<3; j++ ) c[i][j] = J[(i+1)%3][(j+1)%3]*J[(i+2)%3][(j+2)%3] - J[(i+1)%3][(j+2)%3]*J[(i+2)%3][(j+1)%3];
  double det = J[0][0]*c[0][0]+J[0][1]*c[0][1]+J[0][2]*c[0][2];
  for( int a=0; a<3; a++ ) r[a] = ( c[0][a]*b[0] + c[1][a]*b[1] + c[2][a]*b[2] )/det;
}
struct Row { std::vector< double > v; };
static void rows( File &f, std::vector< Row > &o, double *prj, double *spec ) {
  std::size_t i = 0; bool head = true; o.clear(); Row r; unsigned np = 0, ns = 0, md = 0; std::vector< bool > none;
  for( ; i<f.t.size(); i++ ) {
    Tok &t = f.t[i];
    if( head ) {
      if( t.num ) { if( md == 1 && ns<3 ) spec[ns++] = t.v; if( md == 2 && np<3 ) prj[np++] = t.v; }
      else if( t.s.compare( 0, 11, "# specified" ) == 0 ) md = 1;
      else if( t.s.compare( 0, 11, "# projected" ) == 0 ) md = 2;
      else if( t.s.compare( 0, 5, "time," ) == 0 ) head = false;
      continue;
    }
    if( t.num ) r.v.push_back( t.v );
    else if( t.s == "\n" ) { o.push_back( r ); r.v.clear(); }
    else vp_assert( t.s == ",", "values are separated by commas" );
  }
  vp_assert( !head && np == 3 && ns == 3, "files have a header" );
  vp_assert( r.v.size() == 0, "rows are complete" );
}
static double A( unsigned e, unsigned q, unsigned m, unsigned c ) { return 1+((q*7+m*5+c*3+e*2)%11); }
static double B( unsigned e, unsigned q, unsigned m, unsigned c ) { return 1+((q*3+m*7+c*5+e)%5); }
struct Pt { double x[3]; };
extern "C" void vp_entry() {
  g_files = new std::vector< File >; g_files->reserve( 8 );
  edge::dg::Basis *no = nullptr; (void) no;
  unsigned NR = NRECV;
  static bool own[4]; for( unsigned r=0; r<NR; r++ ) own[r] = r < SYMOWN ? vp_bool( "own" ) : true; g_own = own; g_nOwn = NR;
  static double crd[4][3];
  // concrete receivers: interior points of elements EFIRST, 1, 1
  for( unsigned r=0; r<NR; r++ ) { unsigned e = r == 0 ? EFIRST : r == 2 ? NE-1 : 1; for( unsigned d=0; d<ND; d++ ) { crd[r][d] = 0; for( unsigned v=0; v<NV; v++ ) crd[r][d] += vc( e, v, d )*( NV == (1u<<ND) && ND > 1 ? 1.0/NV : ( v == 0 ? ( r == 3 ? 0.5 : 0.25 ) : ( r == 3 ? 0.5 : 0.75 )/(NV-1) ) ); } }
  if( SYMPT ) for( unsigned d=0; d<ND; d++ ) {
    crd[0][d] = vp_f64( "pt", -1, 4 );
#ifdef PZ
    if( d == 2 ) vp_assume( crd[0][d] == PZ );
#endif
  }
  static t_vertexChars ch[16]; for( unsigned v=0; v<sizeof(VC)/sizeof(VC[0]); v++ ) for( unsigned d=0; d<3; d++ ) ch[v].coords[d] = VC[v][d];
  std::size_t nIn[2] = { 1, NE-1 }, nSe[2] = { 0, 0 };
  if( NE == 3 ) { nIn[1] = 1; nSe[SETG] = 1; }
  double freq = SYMT ? vp_f64( "freq", 0.4, 3 ) : 0.75;
  std::string names[4] = { "a", "b", "c", "d" };
  std::vector< Pt > loc( NR ); std::vector< unsigned > nOut( NE, 0 ); std::vector< int > el( NR, -1 );
  double T = 0; unsigned nSp = 0;
  {
    edge::io::Receivers rc;
    rc.init( T_SDISC.ELEMENT, 2, nIn, nSe, NR, "o", names, crd, freq, EV, ch, 8, 0 );
    std::vector< int_el > en; rc.getEnRecv( en ); nSp = en.size();
    for( unsigned i=0; i<nSp; i++ ) vp_assert( en[i] >= 0 && en[i] < NE && ( i == 0 || en[i-1] < en[i] ), "elements with receivers are unique and ascending" );
    // files and locations
    for( unsigned r=0; r<NR; r++ ) {
      std::string p = std::string( "o/3/" )+names[r]+".csv"; File *f = nullptr;
      for( std::size_t i=0; i<g_files->size(); i++ ) if( (*g_files)[i].path == p ) f = &(*g_files)[i];
      vp_assert( ( f != nullptr ) == own[r], "every receiver owned by this rank has its file" );
      if( !f ) continue;
      std::vector< Row > rw; double sp[3], *x = loc[r].x; rows( *f, rw, x, sp );
      vp_assert( rw.size() == 0, "no output before the first time step" );
      for( unsigned d=0; d<ND; d++ ) vp_assert( sp[d] == crd[r][d], "specified coordinates are recorded" );
      // closest point of the mesh: inside of an element with receiver, no vertex of any element is closer along its direction
      double d2 = 0; for( unsigned d=0; d<ND; d++ ) d2 += (x[d]-crd[r][d])*(x[d]-crd[r][d]);
      for( unsigned i=0; i<nSp; i++ ) {
        double rf[3]; ref( en[i], x, rf ); bool ok = true; double s = 0; double const E = 1e-7;
        for( unsigned d=0; d<ND; d++ ) { ok = ok & ( rf[d] >= -E ) & ( rf[d] <= 1+E ); s += rf[d]; }
        if( NV == ND+1 ) ok = ok & ( s <= 1+E );
        for( unsigned v=0; v<NV; v++ ) { double g = 0; for( unsigned d=0; d<ND; d++ ) g += ( crd[r][d]-x[d] )*( vc( en[i], v, d )-x[d] ); ok = ok & ( g <= E ); }
        if( SYMPT ) { vp_assert( nSp == 1 && ok, "receiver is at the closest point of its element" ); el[r] = en[i]; }
        else if( ok && el[r] < 0 ) el[r] = en[i];
      }
      vp_assert( el[r] >= 0, "receiver is in an element with receivers" );
      // other elements are not closer: their closest points are at least as far away
#if SYMPT
      if( r == 0 ) {
        for( unsigned e=0; e<NE; e++ ) if( int(e) != el[r] ) {
          char const *L = "no point of the mesh is closer than the receiver's location";
          double const *p = crd[r];
#if defined PP_T_ELEMENTS_QUAD4R || defined PP_T_ELEMENTS_HEX8R || defined PP_T_ELEMENTS_LINE
          double q2 = 0;
          for( unsigned d=0; d<ND; d++ ) { double lo = vc( e, 0, d ), hi = vc( e, NV == 8 ? 6 : NV == 4 ? 2 : 1, d ), t = 0; if( p[d] < lo ) t = lo-p[d]; else if( p[d] > hi ) t = p[d]-hi; q2 += t*t; }
          vp_assert( d2 <= q2+1e-6, L );
#elif defined PP_T_ELEMENTS_TRIA3
          bool in = true; double rf[3]; ref( e, p, rf );
          if( rf[0] >= 0 && rf[1] >= 0 && rf[0]+rf[1] <= 1 ) vp_assert( d2 <= 1e-6, L );
          for( unsigned k=0; k<3; k++ ) {
            double a[2], b[2], t = 0, l = 0, q2 = 0;
            for( unsigned d=0; d<2; d++ ) { a[d] = vc( e, k, d ); b[d] = vc( e, (k+1)%3, d )-a[d]; l += b[d]*b[d]; t += b[d]*( p[d]-a[d] ); }
            t /= l; if( t < 0 ) t = 0; else if( t > 1 ) t = 1;
            for( unsigned d=0; d<2; d++ ) q2 += ( p[d]-a[d]-t*b[d] )*( p[d]-a[d]-t*b[d] );
            vp_assert( d2 <= q2+1e-6, L );
          }
#else
          // vertices, midpoints of edges, centroids of faces and of the element
          for( unsigned m=1; m<(1u<<NV); m++ ) {
            double c[3] = {0,0,0}, n = 0, q2 = 0; for( unsigned v=0; v<NV; v++ ) if( m & (1u<<v) ) { n++; for( unsigned d=0; d<3; d++ ) c[d] += vc( e, v, d ); }
            for( unsigned d=0; d<3; d++ ) q2 += ( p[d]-c[d]/n )*( p[d]-c[d]/n );
            vp_assert( d2 <= q2+1e-6, L );
          }
#endif
        }
      }
#endif
    }
    // time steps
    unsigned th = SYMT ? vp_pick( "flush", 4, 6 ) : 3;
    for( unsigned st=0; st<NST; st++ ) {
      double dt = SYMT ? vp_f64( "dt", 0.5, 1.5 ) : 1;
      for( unsigned i=0; i<nSp; i++ ) for( unsigned k=0; k<8; k++ ) {
        double rel = rc.getRecvTimeRel( i, T, dt );
        if( !( rel >= 0 ) ) break;
        vp_assert( rel <= dt, "requested time is within the time step" );
        static real_base D[N_QUANTITIES][N_ELEMENT_MODES][N_CRUNS];
        for( unsigned q=0; q<N_QUANTITIES; q++ ) for( unsigned m=0; m<N_ELEMENT_MODES; m++ ) for( unsigned c=0; c<N_CRUNS; c++ ) D[q][m][c] = A( en[i], q, m, c )+B( en[i], q, m, c )*( T+rel );
        rc.writeRecvAll( i, D ); nOut[en[i]]++;
      }
      T += dt;
      rc.flushIf( th );
    }
  }
  double const TO = TOL.TIME;
  for( unsigned r=0; r<NR; r++ ) {
    if( !own[r] ) continue;
    std::string p = std::string( "o/3/" )+names[r]+".csv"; File *f = nullptr;
    for( std::size_t i=0; i<g_files->size(); i++ ) if( (*g_files)[i].path == p ) f = &(*g_files)[i];
    std::vector< Row > rw; double sp[3], pr[3]; rows( *f, rw, pr, sp );
    unsigned n = rw.size();
    // every output time in the simulated interval exactly once
    vp_assert( n > 0 && (n-1)*freq <= T, "no output beyond the simulated time" );
    vp_assert( n*freq >= T-2*TO, "no output time is left out" );
    double rf[3]; ref( el[r], loc[r].x, rf );
    for( unsigned k=0; k<n; k++ ) {
      vp_assert( rw[k].v.size() == 1+N_QUANTITIES*N_CRUNS, "rows have the time and all quantities" );
      vp_close( rw[k].v[0], k*freq, 1e-8, "outputs are at the multiples of the sampling interval" );
      for( unsigned q=0; q<N_QUANTITIES; q++ ) for( unsigned c=0; c<N_CRUNS; c++ ) {
        double s = 0; for( unsigned m=0; m<N_ELEMENT_MODES; m++ ) s += edge::dg::Basis::evalBasis( m, T_SDISC.ELEMENT, rf[0], rf[1], rf[2] )*( A( el[r], q, m, c )+B( el[r], q, m, c )*( k*freq ) );
        vp_close( rw[k].v[1+q*N_CRUNS+c], s, 1e-5, "values are the wave field at the receiver and the output time" );
      }
    }
  }
  vp_reach( "end" );
}
