// assembly of star matrices and flux solvers on meshes: seismic (CASE 0,1) and advection (CASE 2,3)
#include "vp.h"
#include <cmath>
#include <limits>
#include <algorithm>
#include <iostream>
// the assembly's own sanity checks are not evaluated, its results are compared to the oracle
#include "io/logging.h"
#undef EDGE_CHECK
#define EDGE_CHECK(c) if( false ) std::cerr
#define private public
#if CASE < 2
#include "impl/seismic/common.hpp"
#include "impl/seismic/setups/Elasticity.cpp"
#include "impl/seismic/setups/ViscoElasticity.cpp"
#include "linalg/Mappings.hpp"
#include "linalg/Matrix.h"
#include "impl/seismic/solvers/AderDgInit.hpp"
#else
#include "linalg/Mappings.hpp"
#include "linalg/Matrix.h"
#include "impl/advection/solvers/common.hpp"
#endif
#undef private
using namespace edge;
#define EL T_SDISC.ELEMENT
#define DIM PP_N_DIM
#define NF (C_ENT[EL].N_FACES)
#define NV (C_ENT[EL].N_VERTICES)
#define NONE std::numeric_limits<std::size_t>::max()
#define NFA (2*NF-1)
// two elements, 0 is inner, 1 is send; face 0 is shared by both
static std::size_t elFa[2][NF], faEl[NFA][2], elVe[2][NV], elFaEl[2][NF];
static t_vertexChars ve[2*NV]; static t_faceChars fa[NFA]; static t_elementChars elc[2];
static t_bgPars bg[2][1], bgRe[2];
static unsigned short recvFa[2]; static std::size_t recvEl[2];
static double det[2], ji[2][DIM][DIM];
static unsigned pos[NFA][2];          // local position of the faces in the elements
static int comm[NFA];                 // entry in the communication structure
static double P( char const *n ) { return vp_f64( n, 0.5, 8 ); }
static void mat( t_bgPars &b ) {
#if CASE < 2
  b.rho=P("rho"); b.lam=P("lam"); b.mu=P("mu");
#else
  b.a = vp_f64( "a", -8, 8 );
#if DIM > 1
  b.b = vp_f64( "b", -8, 8 );
#endif
#if DIM > 2
  b.c = vp_f64( "c", -8, 8 );
#endif
#endif
}
// vertices relative to vertex 0, which span the element
static int sp( int d ) {
  if( EL == LINE ) return 1;
  if( EL == QUAD4R ) return d ? 3 : 1;
  if( EL == HEX8R ) return d==0 ? 1 : d==1 ? 3 : 4;
  return d+1;
}
static void geom( int e, bool sym ) {
  double J[DIM][DIM];
  bool cart = EL == LINE || EL == QUAD4R || EL == HEX8R;
  for( int i=0; i<DIM; i++ ) for( int j=0; j<DIM; j++ ) {
    if( sym && ( !cart || i==j ) ) J[i][j] = i==j ? vp_f64( "jac", 0.5, 4 ) : vp_f64( "jac", -2, 2 );
    else J[i][j] = cart && i!=j ? 0 : i==j ? 3+e : ( (i+2*j+e)%3 ) - 1;
  }
#if DIM == 1
  det[e] = J[0][0]; vp_assume( det[e] > 0.125 ); ji[e][0][0] = 1/det[e];
#elif DIM == 2
  det[e] = J[0][0]*J[1][1] - J[0][1]*J[1][0]; vp_assume( det[e] > 0.125 );
  ji[e][0][0] = J[1][1]/det[e]; ji[e][1][1] = J[0][0]/det[e]; ji[e][0][1] = -J[0][1]/det[e]; ji[e][1][0] = -J[1][0]/det[e];
#else
  det[e] = 0; for( int j=0; j<3; j++ ) det[e] += J[0][j]*( J[1][(j+1)%3]*J[2][(j+2)%3] - J[1][(j+2)%3]*J[2][(j+1)%3] );
  vp_assume( det[e] > 0.125 );
  for( int i=0; i<3; i++ ) for( int j=0; j<3; j++ )
    ji[e][j][i] = ( J[(i+1)%3][(j+1)%3]*J[(i+2)%3][(j+2)%3] - J[(i+1)%3][(j+2)%3]*J[(i+2)%3][(j+1)%3] ) / det[e];
#endif
  // J maps to the physical element; rows: physical dimensions, columns: reference dimensions
  for( unsigned v=0; v<NV; v++ ) { elVe[e][v] = e ? 2*NV-1-v : v; }
  double o[3]; for( int d=0; d<DIM; d++ ) o[d] = sym ? vp_f64( "origin", -4, 4 ) : d-2*e;
  for( unsigned v=0; v<NV; v++ ) for( int d=0; d<DIM; d++ ) {
    double x = o[d];
    for( int k=0; k<DIM; k++ ) {
      bool use = cart ? ( k==0 ? (v%4==1||v%4==2) : k==1 ? (v%4>=2) : v>=4 ) : (int)v == k+1;
      if( use ) x += J[d][k];
    }
    ve[elVe[e][v]].coords[d] = x;
  }
}
static void topo() {
  unsigned p0 = vp_pick( "pos0", 0, NF-1 ), p1 = vp_pick( "pos1", 0, NF-1 ); bool sw = NF > 3 && CASE == 1 ? ( p0 ^ ( p1 >> 1 ) ) & 1 : vp_pick( "left", 0, 1 );
  // ids of the faces: the shared one comes at an arbitrary position
  unsigned sh = ( ( p0+p1+sw ) & 1 ) * ( NFA-1 );
  unsigned nx = 0; int nc = 0; bool co = ( p1 + sw ) & 1, bd = CASE == 2 ? 0 : vp_pick( "bnd", 0, 1 );
  for( int e=0; e<2; e++ ) for( unsigned f=0; f<NF; f++ ) {
    if( f == ( e ? p1 : p0 ) ) { elFa[e][f] = sh; pos[sh][e] = f; faEl[sh][e!=sw] = e; comm[sh] = -1; fa[sh].spType = RECEIVER|LIMIT; elFaEl[e][f] = !e; continue; }
    if( nx == sh ) nx++;
    unsigned g = nx++; elFa[e][f] = g; pos[g][e] = f; faEl[g][0] = e; faEl[g][1] = NONE; elFaEl[e][f] = NONE; comm[g] = -1;
    bool free = false;
    if( e == 1 && nc < ( NF > 2 ? 2 : 1 ) ) { comm[g] = NF>2 ? (co ? 1-nc : nc) : 0; recvEl[comm[g]] = e; recvFa[comm[g]] = f; nc++; fa[g].spType = RECEIVER; }
    else {
#if CASE < 2
      free = ( g+bd ) & 1;
      fa[g].spType = ( free ? FREE_SURFACE : OUTFLOW ) | LIMIT;
#else
      fa[g].spType = OUTFLOW | LIMIT;
#endif
    }
  }
}
#define NREC (NF>2 ? 2 : 1)
#if CASE < 2
typedef seismic::setups::Elasticity E; typedef seismic::common CO; typedef seismic::setups::ViscoElasticity V;
#if DIM == 2
#define NQ 5
#define NS 3
#else
#define NQ 9
#define NS 6
#endif
typedef seismic::solvers::AderDgInit< EL, SPARSE > AI;
static double fsE0[2][NF][NQ*NQ], fsE1[2][NF][NQ*NQ], fsA0[2][NF][NS*NQ], fsA1[2][NF][NS*NQ];
static double stE[2][DIM][AI::TL_N_ENS_STAR_E], stA[2][DIM][AI::TL_N_ENS_STAR_A];
#else
static double fs[2][NF*2];
#endif
extern "C" void vp_entry() {
#if CASE == 0
  for( int e=0; e<2; e++ ) { geom( e, true ); mat( bg[e][0] ); }
  AI::initStar( std::size_t(2), elVe, ve, bg[0], stE, VISCO ? stA : nullptr );
  for( int e=0; e<2; e++ ) {
    double s[DIM][AI::TL_N_ENS_STAR_E], a[DIM][AI::TL_N_ENS_STAR_A];
    double t[DIM][DIM]; for( int i=0; i<DIM; i++ ) for( int j=0; j<DIM; j++ ) t[i][j] = ji[e][j][i]; // t[k][d]: derivative of reference coordinate d w.r.t. x_k
    E::star( bg[e][0].rho, bg[e][0].lam, bg[e][0].mu, t, s ); V::star( t, a );
    for( int d=0; d<DIM; d++ ) {
      for( unsigned i=0; i<AI::TL_N_ENS_STAR_E; i++ ) vp_close( stE[e][d][i], s[d][i], 1e-9, "elastic star matrices use the material and the inverse Jacobian of the element" );
      if( VISCO ) for( unsigned i=0; i<AI::TL_N_ENS_STAR_A; i++ ) vp_close( stA[e][d][i], a[d][i], 1e-9, "anelastic star matrices use the inverse Jacobian of the element" );
    }
  }
  vp_reach( "end" );
#elif CASE == 1
  topo();
  geom( 0, DIM==2 ); geom( 1, DIM==2 );
  mat( bg[0][0] ); mat( bg[1][0] ); for( int c=0; c<NREC; c++ ) mat( bgRe[c] );
  for( unsigned g=0; g<NFA; g++ ) {
    fa[g].area = P( "area" );
#if DIM == 2
    double x = g%4==0 ? 3 : g%4==1 ? -4 : g%4==2 ? -5 : 12, y = g%4==0 ? 4 : g%4==1 ? 3 : g%4==2 ? -12 : 5, r = g%4<2 ? 5 : 13;
    if( g == 0 && VISCO == 0 ) { x = vp_f64( "nx", -1, 1 ); y = vp_f64( "ny", -1, 1 ); r = 1; }
    fa[g].outNormal[0] = x/r; fa[g].outNormal[1] = y/r;
#else
    // signed permutations of an orthonormal frame
    static int const q[3][3] = { {1,2,2}, {2,1,-2}, {2,-2,1} };
    for( int d=0; d<3; d++ ) { int k = (d+g)%3; double s = g & 1 ? -1 : 1; fa[g].outNormal[d] = s*q[0][k]/3.; fa[g].tangent0[d] = s*q[1][k]/3.; fa[g].tangent1[d] = q[2][k]/3.; }
#endif
  }
  double (*oE[2])[NF][NQ*NQ] = { fsE0, fsE1 }; double (*oA[2])[NF][NS*NQ] = { VISCO ? fsA0 : nullptr, VISCO ? fsA1 : nullptr };
  AI::initFs( std::size_t(1), std::size_t(1), std::size_t(NFA), std::size_t(NREC), recvFa, recvEl, faEl, elVe, elFa, ve, fa, elc, bg[0], bgRe, oE, oA );
  for( int e=0; e<2; e++ ) for( unsigned f=0; f<NF; f++ ) {
    unsigned g = elFa[e][f]; double s = faEl[g][0] == (std::size_t)e ? 1 : -1;
    t_bgPars o = bg[e][0], n = comm[g]>=0 ? bgRe[comm[g]] : faEl[g][1] != NONE ? bg[!e][0] : o;
    bool fr = ( fa[g].spType & FREE_SURFACE ) == FREE_SURFACE;
    double T[NQ][NQ], I[NQ][NQ], A[NS][NS], rE[2][NQ*NQ], rA[2][NS*NQ], sc = -fa[g].area / det[e] * ( EL == TET4 ? 2 : 1 );
#if DIM == 2
    CO::setupTrafo2d( s*fa[g].outNormal[0], s*fa[g].outNormal[1], T ); CO::setupTrafoInv2d( s*fa[g].outNormal[0], s*fa[g].outNormal[1], I );
#else
    double *m = fa[g].outNormal, *u = fa[g].tangent0, *w = fa[g].tangent1;
    CO::setupTrafo3d( s*m[0], s*m[1], s*m[2], u[0], u[1], u[2], w[0], w[1], w[2], T ); CO::setupTrafoInv3d( s*m[0], s*m[1], s*m[2], u[0], u[1], u[2], w[0], w[1], w[2], I );
#endif
    for( int i=0; i<NS; i++ ) for( int j=0; j<NS; j++ ) A[i][j] = T[i][j];
    if( VISCO < 2 ) E::fs( o.rho, n.rho, o.lam, n.lam, o.mu, n.mu, T, I, rE[0], rE[1], fr );
    if( VISCO ) V::fs( o.rho, n.rho, o.lam, n.lam, o.mu, n.mu, A, I, rA[0], rA[1], fr );
    for( int i=0; i<NQ*NQ && VISCO < 2; i++ ) {
      vp_close( fsE0[e][f][i], sc*rE[0][i], 1e-9, "own flux solver: outward normal, own and neighboring material, scaled by area and volume" );
      vp_close( fsE1[e][f][i], sc*rE[1][i], 1e-9, "neighboring flux solver: outward normal, own and neighboring material, scaled by area and volume" );
    }
    if( VISCO ) for( int i=0; i<NS*NQ; i++ ) {
      vp_close( fsA0[e][f][i], sc*rA[0][i], 1e-9, "own anelastic flux solver" );
      vp_close( fsA1[e][f][i], sc*rA[1][i], 1e-9, "neighboring anelastic flux solver" );
    }
  }
  vp_reach( "end" );
#elif CASE == 2
  topo();
  geom( 0, EL != TET4 ); geom( 1, EL != TET4 );
  mat( bg[0][0] ); mat( bg[1][0] ); for( int c=0; c<NREC; c++ ) mat( bgRe[c] );
  for( unsigned g=0; g<NFA; g++ ) {
    fa[g].area = P( "area" );
    for( int d=0; d<DIM; d++ ) fa[g].outNormal[d] = g == ( NFA-1 )*( elFa[0][pos[0][0]] != 0 ) || d == 0 ? vp_f64( "n", -1, 1 ) : ( (int)( g+d ) % 3 - 1 ) * 0.5;
  }
  for( int e=0; e<2; e++ ) for( unsigned f=0; f<2*NF; f++ ) fs[e][f] = 7;
  advection::solvers::common::setupSolvers( 1, 1, NFA, NREC, recvFa, recvEl, elVe, faEl, elFa, elFaEl, ve, fa, bg, bgRe, fs );
  for( int e=0; e<2; e++ ) for( unsigned f=0; f<NF; f++ ) {
    unsigned g = elFa[e][f]; double s = faEl[g][0] == (std::size_t)e ? 1 : -1;
    bool nb = comm[g] >= 0 || faEl[g][1] != NONE;
    t_bgPars o = bg[e][0], n = comm[g]>=0 ? bgRe[comm[g]] : bg[!e][0];
    double a[2] = { o.a*fa[g].outNormal[0], n.a*fa[g].outNormal[0] };
#if DIM > 1
    a[0] += o.b*fa[g].outNormal[1]; a[1] += n.b*fa[g].outNormal[1];
#endif
#if DIM > 2
    a[0] += o.c*fa[g].outNormal[2]; a[1] += n.c*fa[g].outNormal[2];
#endif
    double sc = fa[g].area / det[e] * ( EL == TET4 ? 2 : 1 );
    double own = s*a[0] > 0 ? -s*a[0]*sc : 0, nei = nb && s*a[1] < 0 ? -s*a[1]*sc : 0;
    vp_close( fs[e][f], own, 1e-9, "own flux solver: outgoing speed, scaled by area and volume" );
    vp_close( fs[e][NF+f], nei, 1e-9, "neighboring flux solver: incoming speed of the neighbor, scaled by area and volume" );
  }
  vp_reach( "end" );
#elif CASE == 3
  int const N = DIM == 1 ? 2 : 3;
  double sm = 0, dt[3], mi, av, ma; t_elementChars c[3]; t_bgPars b[3][1];
  for( int e=0; e<N; e++ ) {
    c[e].inDia = P( "dia" ); mat( b[e][0] ); double s = b[e][0].a*b[e][0].a;
#if DIM > 1
    s += b[e][0].b*b[e][0].b;
#endif
#if DIM > 2
    s += b[e][0].c*b[e][0].c;
#endif
    vp_assume( s > 0.25 ); vp_assume( b[e][0].a > 0.25 || b[e][0].a < -0.25 );
    double sp = std::sqrt( s );
#if DIM == 1
    sp = b[e][0].a > 0 ? b[e][0].a : -b[e][0].a;
#endif
    dt[e] = SCALE_CFL * c[e].inDia / sp / ( 2*ORDER-1 ); sm += dt[e]/N;
  }
  advection::solvers::common::getTimeStepStatistics( N, c, b, mi, av, ma );
  for( int e=0; e<N; e++ ) vp_assert( mi <= dt[e]+1e-9 && ma >= dt[e]-1e-9, "time step statistics bound the elements' time steps" );
  vp_assert( mi >= dt[0]-1e-9 || mi >= dt[1]-1e-9 || ( N>2 && mi >= dt[N-1]-1e-9 ), "minimum is attained" );
  vp_assert( ma <= dt[0]+1e-9 || ma <= dt[1]+1e-9 || ( N>2 && ma <= dt[N-1]+1e-9 ), "maximum is attained" );
  vp_close( av, sm, 1e-9, "average time step" );
  vp_reach( "end" );
#endif
}
