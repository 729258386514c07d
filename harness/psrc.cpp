// kinematic point sources: integration of sampled time series, assignment to elements, application
#include "vp.h"
#include <cmath>
#include <limits>
#include <vector>
#include <string>
#include <cstring>
#include <iostream>
#include <algorithm>
#include <functional>
#include <array>
#include "constants.hpp"
#include "io/logging.h"
#undef EDGE_CHECK
#undef EDGE_CHECK_EQ
#undef EDGE_CHECK_NE
#undef EDGE_CHECK_LT
#undef EDGE_CHECK_LE
#undef EDGE_CHECK_GT
#undef EDGE_CHECK_GE
#define EDGE_CHECK(c) if( !(c) ) vp_check_failed( #c ); else if( false ) std::cerr
#define EDGE_CHECK_EQ(a,b) EDGE_CHECK( (a) == (b) )
#define EDGE_CHECK_NE(a,b) EDGE_CHECK( (a) != (b) )
#define EDGE_CHECK_LT(a,b) EDGE_CHECK( (a) < (b) )
#define EDGE_CHECK_LE(a,b) EDGE_CHECK( (a) <= (b) )
#define EDGE_CHECK_GT(a,b) EDGE_CHECK( (a) > (b) )
#define EDGE_CHECK_GE(a,b) EDGE_CHECK( (a) >= (b) )
#include "linalg/Series.hpp"
// integral of the piecewise linear function over [a,b]: na outside of the samples
static double integ( unsigned n, double dx, double xs, double const *v, double a, double b, double na ) {
  double s = 0, xe = xs+(n-1)*dx;
  if( a < xs ) s += na*( ( b < xs ? b : xs )-a );
  if( b > xe ) s += na*( b-( a > xe ? a : xe ) );
  for( unsigned k=0; k+1<n; k++ ) {
    double l = xs+k*dx, r = l+dx; if( a > l ) l = a; if( b < r ) r = b;
    if( l < r ) { double m = ( l+r )*0.5-( xs+k*dx ); s += ( r-l )*( v[k]+( v[k+1]-v[k] )*( m/dx ) ); }
  }
  return s;
}
#ifndef CASE
#define CASE 0
#endif
#if CASE == 0
extern "C" void vp_entry() {
  unsigned const n = NPTS; double v[n][2], w[2][n];
  double dx = DX, xs = XS, na = vp_f64( "na", -4, 4 );
  for( unsigned k=0; k<n; k++ ) for( unsigned s=0; s<2; s++ ) w[s][k] = v[k][s] = vp_f64( "v", -8, 8 );
  double a = vp_f64( "a", XS-2*DX, XS+(NPTS+1)*DX ), b = vp_f64( "b", XS-2*DX, XS+(NPTS+1)*DX );
  vp_assume( a <= b );
  double o[2]; o[0] = o[1] = 77;
  edge::linalg::Series< 2 >::integrate( dx, xs, n, v, a, b, o, na );
  for( unsigned s=0; s<2; s++ ) vp_close( o[s], integ( n, dx, xs, w[s], a, b, na ), 1e-6, "integral of the piecewise linear time series" );
  vp_reach( "end" );
}
#else
#include "hdf5.h"
#include "data/Dynamic.cpp"
#include "linalg/Mappings.hpp"
#include "linalg/Geom.hpp"
#include "dg/Basis.h"
#include "dg/QuadratureEval.hpp"
#include "impl/seismic/setups/PointSources.hpp"
#include "submodules/FastGL/fastgl.cpp"
namespace edge { namespace pre { namespace dg { double const *g_massRaw; extern std::size_t const g_massSize; std::size_t const g_massSize = 1; } } }
#include <fstream>
#include <sstream>
#include "dg/Basis.cpp"
namespace edge { namespace parallel { int g_rank = 0; int g_nRanks = 2; int g_thread = 0; int g_nThreads = 1; std::string g_rankStr; } }
static bool g_own[2][4]; static unsigned g_call;
void edge::parallel::Distributed::min( std::size_t n, double *v, unsigned short *o ) { for( std::size_t i=0; i<n; i++ ) o[i] = g_own[g_call][i]; g_call++; }
#define NC N_CRUNS
static unsigned const NV = C_ENT[T_SDISC.ELEMENT].N_VERTICES, ND = N_DIM;
#if defined PP_T_ELEMENTS_TRIA3
static double const VC[][3] = {{0,0,0},{2,0,0},{0,1,0},{2,2,0},{4,0.5,0}};
static std::size_t const EV[3][3] = {{0,1,2}, {1,3,2}, {3,1,4}};
static double const OUT[3] = { -1, 0.25, 0 }; static double const PRJ[3] = { 0, 0.25, 0 };
static unsigned const NQ = 5;
#else
static double const VC[][3] = {{0,0,0},{2,0,0},{0,1,0},{0,0,1},{2,2,2},{-2,-1,0}};
static std::size_t const EV[3][4] = {{0,1,2,3}, {1,2,3,4}, {0,2,5,3}};
static double const OUT[3] = { 0.5, 0.25, -1 }; static double const PRJ[3] = { 0.5, 0.25, 0 };
static unsigned const NQ = 9;
#endif
static double vc( unsigned e, unsigned v, unsigned d ) { return VC[ EV[e][v] ][d]; }
static double ref( unsigned e, double const *p, double *r ) {
  double J[3][3] = {{1,0,0},{0,1,0},{0,0,1}}, b[3] = {0,0,0};
  for( unsigned d=0; d<ND; d++ ) { b[d] = p[d]-vc( e, 0, d ); for( unsigned a=0; a<ND; a++ ) J[d][a] = vc( e, a+1, d ) - vc( e, 0, d ); }
  double c[3][3]; for( int i=0; i<3; i++ ) for( int j=0; j<3; j++ ) c[i][j] = J[(i+1)%3][(j+1)%3]*J[(i+2)%3][(j+2)%3] - J[(i+1)%3][(j+2)%3]*J[(i+2)%3][(j+1)%3];
  double det = J[0][0]*c[0][0]+J[0][1]*c[0][1]+J[0][2]*c[0][2];
  for( int a=0; a<3; a++ ) r[a] = ( c[0][a]*b[0] + c[1][a]*b[1] + c[2][a]*b[2] )/det;
  return det;
}
#define MAXS 3
static double g_pts[NC][MAXS*3], g_scas[NC][MAXS*9], g_tp[NC][MAXS*2], g_ptr[NC][MAXS+1], g_ts[NC][MAXS*4];
vp_h5ds vp_h5[NC*5]; int vp_h5n;
struct Ch { int_spType spType; };
extern "C" void vp_entry() {
  static char const *fn[2] = { "f0.h5", "f1.h5" };
  std::string paths[NC]; unsigned ns[NC], el[NC][MAXS]; double x[NC][MAXS][3];
  bool none = NONE ? vp_bool( "undefined" ) : false;
  for( unsigned c=0; c<NC; c++ ) {
    paths[c] = c+1 == NC && none ? "" : fn[c]; ns[c] = c == 0 ? NS0 : 1; unsigned off = 0;
    for( unsigned s=0; s<ns[c]; s++ ) {
      g_own[c][s] = OWN ? vp_bool( "own" ) : true;
      unsigned k = vp_pick( "element", 0, 3 ); el[c][s] = k < 3 ? k : 0; // 3: outside, closest to element 0
      for( unsigned d=0; d<3; d++ ) {
        double p = 0, wt = 0; for( unsigned v=0; v<NV; v++ ) { double w = 1+((v+2*s+c)%4); p += w*vc( el[c][s], v, d ); wt += w; }
        double q = float( p/wt );
        x[c][s][d] = k < 3 ? q : PRJ[d];
        if( d < ND ) g_pts[c][s*ND+d] = k < 3 ? q : OUT[d];
      }
      for( unsigned q=0; q<NQ; q++ ) g_scas[c][s*NQ+q] = 1+((q*3+s*5+c*2)%7);
      g_tp[c][s*2] = 0.25*s-0.5*c; g_tp[c][s*2+1] = s == 1 ? 0.25 : 0.5;
      g_ptr[c][s] = off; unsigned n = 2+(s+c)%2; for( unsigned i=0; i<n; i++ ) g_ts[c][off+i] = 1+((i*i*3+s*2+c)%5);
      off += n;
    }
    g_ptr[c][ns[c]] = off;
    vp_h5ds t[5] = { { fn[c], "points", H5T_FLOAT, 2, { ns[c], ND }, g_pts[c] }, { fn[c], "scalings", H5T_FLOAT, 2, { ns[c], NQ }, g_scas[c] }, { fn[c], "time_parameters", H5T_FLOAT, 2, { ns[c], 2 }, g_tp[c] },
                     { fn[c], "time_pointers", H5T_INTEGER, 1, { ns[c]+1, 0 }, g_ptr[c] }, { fn[c], "time_series", H5T_FLOAT, 1, { off, 0 }, g_ts[c] } };
    for( int i=0; i<5; i++ ) vp_h5[vp_h5n++] = t[i];
  }
  static t_vertexChars ch[8]; for( unsigned v=0; v<sizeof(VC)/sizeof(VC[0]); v++ ) for( unsigned d=0; d<3; d++ ) ch[v].coords[d] = VC[v][d];
  int_spType const SP = t_spTypeElastic::SOURCE, OTH = RECEIVER;
  static Ch ce[3]; for( unsigned e=0; e<3; e++ ) ce[e].spType = e == 1 ? OTH : 0;
  double mI[N_ELEMENT_MODES]; for( unsigned m=0; m<N_ELEMENT_MODES; m++ ) mI[m] = 2+m;
  static edge::data::Dynamic mem;
  static edge::seismic::setups::PointSources< double, std::size_t, T_SDISC.ELEMENT, PP_ORDER, NC > ps;
  bool ok = ps.init( paths, SP, std::size_t( 3 ), EV, ch, mI, ce, mem );
  vp_assert( ok == !none, "sources are initialized if a file is given for every simulation" );
  bool has[3]; unsigned nSp = 0;
  for( unsigned e=0; e<3; e++ ) { has[e] = false; for( unsigned c=0; c<NC; c++ ) for( unsigned s=0; s<ns[c]; s++ ) has[e] = has[e] || ( ok && g_own[c][s] && el[c][s] == e );
    vp_assert( ce[e].spType == ( ( e == 1 ? OTH : 0 ) | ( has[e] ? SP : 0 ) ), "exactly the elements with owned sources are flagged" ); nSp += has[e]; }
  static double D[3][N_QUANTITIES][N_ELEMENT_MODES][NC], O[3][N_QUANTITIES][N_ELEMENT_MODES][NC];
  for( unsigned e=0; e<3; e++ ) for( unsigned q=0; q<NQ; q++ ) for( unsigned m=0; m<N_ELEMENT_MODES; m++ ) for( unsigned c=0; c<NC; c++ ) O[e][q][m][c] = D[e][q][m][c] = 1+((e*5+q*3+m*2+c)%7);
  double t1 = SYMT ? vp_f64( "t1", -1, 1.5 ) : 0.125, dt = SYMT ? vp_f64( "dt", 0, 1 ) : 0.75, t2 = t1+dt;
  // one call per part of the source elements
  unsigned sp = ok ? vp_pick( "split", 0, nSp ) : 0;
  ps.apply( sp, nSp-sp, t1, t2, D );
  for( unsigned e=0, i=0; e<3; e++ ) { for( unsigned q=0; q<NQ; q++ ) for( unsigned m=0; m<N_ELEMENT_MODES; m++ ) for( unsigned c=0; c<NC; c++ ) if( has[e] ? i < sp : true ) vp_assert( D[e][q][m][c] == O[e][q][m][c], "only the sources of the given elements are applied" ); i += has[e]; }
  ps.apply( 0, sp, t1, t2, D );
  if( ok ) for( unsigned c=0; c<NC; c++ ) for( unsigned s=0; s<ns[c]; s++ ) if( g_own[c][s] ) {
    double rf[3], det = ref( el[c][s], x[c][s], rf ), vs[4]; unsigned o = g_ptr[c][s], n = unsigned( g_ptr[c][s+1] )-o;
    for( unsigned i=0; i<n; i++ ) vs[i] = g_ts[c][o+i];
    double in = integ( n, g_tp[c][s*2+1], g_tp[c][s*2], vs, t1, t2, 0 );
    for( unsigned m=0; m<N_ELEMENT_MODES; m++ ) {
      double w = edge::dg::Basis::evalBasis( m, T_SDISC.ELEMENT, rf[0], rf[1], rf[2] )*mI[m]/det;
      for( unsigned q=0; q<NQ; q++ ) O[el[c][s]][q][m][c] += in*w*g_scas[c][s*NQ+q];
    }
  }
  for( unsigned e=0; e<3; e++ ) for( unsigned q=0; q<NQ; q++ ) for( unsigned m=0; m<N_ELEMENT_MODES; m++ ) for( unsigned c=0; c<NC; c++ )
    vp_close( D[e][q][m][c], O[e][q][m][c], 1e-4, "DOFs get the integrated, scaled sources of their element and simulation" );
  vp_reach( "end" );
}
#endif
