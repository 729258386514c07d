// ADER-DG kernels against matrix-free reference formulas. KIND 0: vanilla, 1: LIBXSMM dense single, 2: LIBXSMM fused (sparse)
// SYM 0: symbolic DOFs, time step and relaxation frequencies; SYM 1: additionally symbolic solver matrices
#include "vp.h"
#include <cmath>
#include <limits>
#include <vector>
#include <algorithm>
#include <iostream>
#include "constants.hpp"
#include "io/logging.h"
#undef EDGE_CHECK
#undef EDGE_CHECK_EQ
#undef EDGE_CHECK_NE
#define EDGE_CHECK(c) if( false ) std::cerr
#define EDGE_CHECK_EQ(a,b) if( (a) != (b) ) vp_check_failed( #a " == " #b ); else if( false ) std::cerr
#define EDGE_CHECK_NE(a,b) if( false ) std::cerr
#include "data/Dynamic.cpp"
#include "linalg/Matrix.h"
using namespace edge;
#define EL T_SDISC.ELEMENT
#define DIM PP_N_DIM
#define ORD PP_ORDER
#define R real_base
#define NM CE_N_ELEMENT_MODES( EL, ORD )
#define NMF CE_N_ELEMENT_MODES( C_ENT[EL].TYPE_FACES, ORD )
#define NF C_ENT[EL].N_FACES
#define NFN CE_N_FLUXN_MATRICES( EL )
#define CR PP_N_CRUNS
// reference matrices: integer entries, hierarchical sparsity
static R g_st[DIM][NM][NM], g_stT[DIM][NM][NM], g_fL[NF][NM][NMF], g_fN[NFN][NM][NMF], g_fT[NF][NMF][NM];
static unsigned g_rnd = 1;
static int rnd() { g_rnd = ( g_rnd * 1103515245u + 12345u ) & 0x7fffffffu; int v = (int)( ( g_rnd >> 16 ) % 7 ) - 3; return v == 0 ? 4 : v; }
static int deg( unsigned m ) { int d = 0; while( (int) CE_N_ELEMENT_MODES( EL, d+1 ) <= (int) m ) d++; return d; }
static void basis() {
  bool h = EL == TRIA3 || EL == TET4;
  for( int d=0; d<DIM; d++ ) for( unsigned i=0; i<NM; i++ ) for( unsigned j=0; j<NM; j++ ) {
    bool z = h ? deg(j) >= deg(i) : ( (i+j+d) % 3 == 0 );
    int v = z ? 0 : rnd(); if( v && (i*3+j+d)%5 == 0 ) v = h && deg(i) - deg(j) > 1 ? 0 : v;
    g_stT[d][i][j] = v; g_st[d][j][i] = z ? 0 : rnd();
  }
  for( unsigned f=0; f<NF; f++ ) for( unsigned i=0; i<NM; i++ ) for( unsigned j=0; j<NMF; j++ ) { g_fL[f][i][j] = (f+i+2*j)%4==1 ? 0 : rnd(); g_fT[f][j][i] = (f+2*i+j)%4==1 ? 0 : rnd(); }
  for( unsigned f=0; f<NFN; f++ ) for( unsigned i=0; i<NM; i++ ) for( unsigned j=0; j<NMF; j++ ) g_fN[f][i][j] = (f+2*i+j)%3==1 ? 0 : rnd();
}
// stand-in of the basis: hands out the reference matrices
#define BASIS_HPP
namespace edge { namespace dg { class Basis { public: Basis( t_entityType, unsigned short ) {}
  template< typename T > void getStiffMm1Dense( unsigned, T *o, bool t ) const { for( int i=0; i<DIM*(int)NM*(int)NM; i++ ) o[i] = t ? g_stT[0][0][i] : g_st[0][0][i]; }
  template< typename T > void getFluxDense( T *l, T *n, T *t ) const {
    for( int i=0; i<(int)NF*(int)NM*(int)NMF; i++ ) { l[i] = g_fL[0][0][i]; t[i] = g_fT[0][0][i]; }
    for( int i=0; i<(int)NFN*(int)NM*(int)NMF; i++ ) n[i] = g_fN[0][0][i];
  } }; } }
#define private public
#define protected public
#ifdef PP_T_EQUATIONS_ADVECTION
#include "impl/advection/kernels/TimePred.hpp"
#include "impl/advection/kernels/VolInt.hpp"
#include "impl/advection/kernels/SurfInt.hpp"
#else
#include "impl/seismic/common.hpp"
#if KIND == 2
#include "parallel/global.h"
int edge::parallel::g_nThreads = 1;
#include "impl/seismic/setups/ViscoElasticity.cpp"
#endif
#include "impl/seismic/kernels/Kernels.hpp"
#endif
#undef private
#undef protected
static R sym( char const *n ) {
#if PP_PRECISION == 32
  return vp_f32( n, -8, 8 );
#else
  return vp_f64( n, -8, 8 );
#endif
}
#define CL(a,b,l) vp_close( (a), (b), 1e-9, l )
#ifndef PP_T_EQUATIONS_ADVECTION
#define RM N_RELAXATION_MECHANISMS
#define RMX (RM>0?RM:1)
#define QE CE_N_QTS_E( DIM )
#define QM CE_N_QTS_M( DIM )
static R sE[DIM][QE*QE], sA[DIM][QM*DIM], src[RMX][QM*QM];       // dense reference
#if KIND == 2
static R pE[DIM][CE_N_ENS_STAR_E_SP(DIM)], pA[DIM][CE_N_ENS_STAR_A_SP(DIM)], pS[RMX][CE_N_ENS_SRC_A_SP(DIM)];
#else
#define pE sE
#define pA sA
#define pS src
#endif
static R q[QE][NM][CR], qA[RMX][QM][NM][CR], scr[QE][NM][CR], derE[ORD][QE][NM][CR], derA[RMX][ORD][QM][NM][CR], tE[QE][NM][CR], tA[RMX][QM][NM][CR];
static R rE[ORD][QE][NM][CR], rA[RMX][ORD][QM][NM][CR], rfs[RMX];
static R cst( char const *n ) { return SYM ? sym( n ) : R( rnd() ); }
static R dof( char const *n ) { return SYM == 2 ? R( rnd() ) : sym( n ); }
// quantities: normal stresses, shear stresses (xy, yz, xz), velocities
static bool nzE( int i, int j ) {
  if( i >= (int) QM ) { int t = i; i = j; j = t; }
  if( i >= (int) QM || j < (int) QM ) return false;
  int v = j - QM;
  if( i < DIM ) return true; // normal stress depends on all velocities through the inverse Jacobian
  int s = i - DIM; return v == s || v == (s+1)%DIM;
}
static bool nzEu( int i, int j ) { // velocity equation: only stresses of the same row of the stress tensor
  if( i < (int) QM ) return nzE( i, j );
  if( j >= (int) QM ) return false;
  int v = i - QM; if( j < DIM ) return j == v; int s = j - DIM; return DIM == 2 ? true : ( v == s || v == (s+1)%3 );
}
static bool nzA( int i, int j ) { if( i < DIM ) return i == j; int s = i - DIM; return DIM == 2 ? true : ( j == s || j == (s+1)%3 ); }
static bool nzS( int i, int j ) { return ( i < DIM && j < DIM ) || i == j; }
static void mats() {
  for( int d=0; d<DIM; d++ ) { int n=0; for( int i=0; i<(int)QE; i++ ) for( int j=0; j<(int)QE; j++ ) { bool z = ( KIND == 2 || SYM ) && !nzEu(i,j); R v = z ? R(0) : cst( "starE" ); sE[d][i*QE+j] = v; if( KIND == 2 && !z ) ((R*)pE[d])[n++] = v; } }
  if( RM > 0 ) {
    for( int d=0; d<DIM; d++ ) { int n=0; for( int i=0; i<(int)QM; i++ ) for( int j=0; j<DIM; j++ ) { bool z = ( KIND == 2 || SYM ) && !nzA(i,j); R v = z ? R(0) : cst( "starA" ); sA[d][i*DIM+j] = v; if( KIND == 2 && !z ) ((R*)pA[d])[n++] = v; } }
    for( int m=0; m<RM; m++ ) { int n=0; for( int i=0; i<(int)QM; i++ ) for( int j=0; j<(int)QM; j++ ) { bool z = ( KIND == 2 || SYM ) && !nzS(i,j); R v = z ? R(0) : cst( "srcA" ); src[m][i*QM+j] = v; if( KIND == 2 && !z ) ((R*)pS[m])[n++] = v; } }
  }
  for( int m=0; m<RMX; m++ ) rfs[m] = RM == 1 ? sym( "rfs" ) : R( 3+2*m );
}
static void dofs( R (*e)[NM][CR], R (*a)[QM][NM][CR] ) {
  for( unsigned i=0; i<QE; i++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) e[i][m][c] = dof( "dofsE" );
  if( RM > 0 ) for( int r=0; r<RM; r++ ) for( unsigned i=0; i<QM; i++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) a[r][i][m][c] = dof( "dofsA" );
}
#if KIND == 0
typedef seismic::kernels::TimePredVanilla< R, RM, EL, ORD, ORD, CR > TP; typedef seismic::kernels::VolIntVanilla< R, RM, EL, ORD, CR > VI; typedef seismic::kernels::SurfIntVanilla< R, RM, EL, ORD, CR > SI;
#elif KIND == 1
typedef seismic::kernels::TimePredSingle< R, RM, EL, ORD, ORD > TP; typedef seismic::kernels::VolIntSingle< R, RM, EL, ORD > VI; typedef seismic::kernels::SurfIntSingle< R, RM, EL, ORD > SI;
#else
typedef seismic::kernels::TimePredFused< R, RM, EL, ORD, ORD, CR > TP; typedef seismic::kernels::VolIntFused< R, RM, EL, ORD, CR > VI; typedef seismic::kernels::SurfIntFused< R, RM, EL, ORD, CR > SI;
#endif
// q * m, m is NM x n
template< int N > static void mulR( int nq, R const (*a)[NM][CR], R const (*m)[N], R (*o)[N][CR] ) {
  for( int i=0; i<nq; i++ ) for( int j=0; j<N; j++ ) for( int c=0; c<CR; c++ ) { R s = 0; for( unsigned k=0; k<NM; k++ ) if( m[k][j] != 0 ) s += a[i][k][c] * m[k][j]; o[i][j][c] = s; }
}
static R pre[3][QE][NM][CR], t2[QE][NM][CR];
static R fsE[NF][QE*QE], fsA[NF][QM*QE], sf[2][QE][NMF][CR], fi[QE][NMF][CR], w[QE][NMF][CR], up[QE][NM][CR], upA[QM][NM][CR], g1[QE][NM][CR], g1A[RMX][QM][NM][CR];
#endif
extern "C" void vp_entry() {
  basis();
  data::Dynamic dyn;
#ifndef PP_T_EQUATIONS_ADVECTION
  mats();
#if KIND == 2
  for( int i=0; i<4; i++ ) for( int j=0; j<4; j++ ) Eigen::vpRec().x[i][j] = 0.01*(1+i+j); // any anelastic coefficients: only the pattern is used
#endif
#if CASE == 0
  R dt = sym( "dt" ); dofs( q, qA );
  for( int k=0; k<ORD; k++ ) for( unsigned i=0; i<QE; i++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) derE[k][i][m][c] = 17;
  for( unsigned i=0; i<QE; i++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) { scr[i][m][c] = 19; tE[i][m][c] = 23; }
  int sg = DECAY;
#if DECAY == 1
  // sign of the relaxation term, see the decay jobs
  if( RM > 0 && ORD > 1 ) {
    static R pq[QE][NM][CR], pqA[RMX][QM][NM][CR], prf[RMX];
    for( int r=0; r<RMX; r++ ) { prf[r] = 1; for( unsigned i=0; i<QM; i++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) pqA[r][i][m][c] = 1; }
    TP pr( prf, dyn );
    pr.ck( 1, pE, pA, pS, pq, pqA, scr, derE, derA, tE, tA );
    sg = derA[0][1][0][0][0] < 0 ? -1 : 1;
  }
#endif
  TP tp( RM ? rfs : nullptr, dyn );
  tp.ck( dt, pE, RM ? pA : nullptr, RM ? pS : nullptr, q, RM ? qA : nullptr, scr, derE, RM ? derA : nullptr, tE, RM ? tA : nullptr );
  for( unsigned i=0; i<QE; i++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) { rE[0][i][m][c] = q[i][m][c]; CL( derE[0][i][m][c], q[i][m][c], "zeroth derivatives are the DOFs" ); }
  if( RM > 0 ) for( int r=0; r<RM; r++ ) for( unsigned i=0; i<QM; i++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) rA[r][0][i][m][c] = qA[r][i][m][c];
  for( int k=1; k<ORD; k++ ) {
    static R an[QM][NM][CR];
    for( unsigned i=0; i<QM; i++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) an[i][m][c] = 0;
    for( unsigned i=0; i<QE; i++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) rE[k][i][m][c] = 0;
    for( int d=0; d<DIM; d++ ) {
      static R s[QE][NM][CR]; mulR< NM >( QE, rE[k-1], g_stT[d], s );
      for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) {
        for( unsigned i=0; i<QE; i++ ) for( unsigned j=0; j<QE; j++ ) rE[k][i][m][c] -= sE[d][i*QE+j] * s[j][m][c];
        if( RM > 0 ) for( unsigned i=0; i<QM; i++ ) for( unsigned j=0; j<DIM; j++ ) an[i][m][c] -= sA[d][i*DIM+j] * s[QM+j][m][c];
      }
    }
    if( RM > 0 ) for( int r=0; r<RM; r++ ) for( unsigned i=0; i<QM; i++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) {
      for( unsigned j=0; j<QM; j++ ) rE[k][i][m][c] += src[r][i*QM+j] * rA[r][k-1][j][m][c];
      rA[r][k][i][m][c] = rfs[r] * ( an[i][m][c] + sg * rA[r][k-1][i][m][c] );
    }
    for( unsigned i=0; i<QE; i++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) CL( derE[k][i][m][c], rE[k][i][m][c], "time derivatives of the elastic DOFs satisfy the semi-discrete equations" );
    if( RM > 0 ) for( int r=0; r<RM; r++ ) for( unsigned i=0; i<QM; i++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) CL( derA[r][k][i][m][c], rA[r][k][i][m][c], DECAY == 1 ? "time derivatives of the anelastic DOFs satisfy the recursion of the predictor" : "memory variables relax in the predictor as in the volume integration" );
  }
#if DECAY == 1
  R pt[3] = { sym("t"), 0, 2 };
  TP::evalTimePrediction( 3, pt, derE, pre );
  TP::integrate( dt, derE, t2 );
  for( unsigned i=0; i<QE; i++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) {
    R a = 0, s = dt, e[3] = {0,0,0}, z[3] = {1,1,1};
    for( int k=0; k<ORD; k++ ) { a += s * rE[k][i][m][c]; s = s * dt / (k+2); for( int p=0; p<3; p++ ) { e[p] += z[p] * rE[k][i][m][c]; z[p] = z[p] * pt[p] / (k+1); } }
    CL( tE[i][m][c], a, "time integrated elastic DOFs are the integral of the Taylor expansion" );
    CL( t2[i][m][c], a, "integration of the derivatives is the integral of the Taylor expansion" );
    for( int p=0; p<3; p++ ) CL( pre[p][i][m][c], e[p], "evaluation of the time prediction is the Taylor expansion" );
  }
  if( RM > 0 ) for( int r=0; r<RM; r++ ) for( unsigned i=0; i<QM; i++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) {
    R a = 0, s = dt; for( int k=0; k<ORD; k++ ) { a += s * rA[r][k][i][m][c]; s = s * dt / (k+2); }
    CL( tA[r][i][m][c], a, "time integrated anelastic DOFs are the integral of the Taylor expansion" );
  }
#endif
#elif CASE == 1
  static R t[QE][NM][CR], ta[RMX][QM][NM][CR];
  dofs( q, qA ); dofs( t, ta );
  for( unsigned i=0; i<QE; i++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) { scr[i][m][c] = 19; tE[i][m][c] = q[i][m][c]; }
  if( RM > 0 ) for( int r=0; r<RM; r++ ) for( unsigned i=0; i<QM; i++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) tA[r][i][m][c] = qA[r][i][m][c];
  VI vi( RM ? rfs : nullptr, dyn );
  vi.apply( pE, RM ? pA : nullptr, RM ? pS : nullptr, t, RM ? ta : nullptr, tE, RM ? tA : nullptr, scr );
  static R an[QM][NM][CR];
  for( int d=0; d<DIM; d++ ) {
    static R s[QE][NM][CR]; mulR< NM >( QE, t, g_st[d], s );
    for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) {
      for( unsigned i=0; i<QE; i++ ) for( unsigned j=0; j<QE; j++ ) q[i][m][c] += sE[d][i*QE+j] * s[j][m][c];
      if( RM > 0 ) for( unsigned i=0; i<QM; i++ ) for( unsigned j=0; j<DIM; j++ ) an[i][m][c] += sA[d][i*DIM+j] * s[QM+j][m][c];
    }
  }
  if( RM > 0 ) for( int r=0; r<RM; r++ ) for( unsigned i=0; i<QM; i++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) {
    for( unsigned j=0; j<QM; j++ ) q[i][m][c] += src[r][i*QM+j] * ta[r][j][m][c];
    CL( tA[r][i][m][c], qA[r][i][m][c] + rfs[r] * ( an[i][m][c] - ta[r][i][m][c] ), "anelastic DOFs are updated with volume and relaxation terms" );
  }
  for( unsigned i=0; i<QE; i++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) CL( tE[i][m][c], q[i][m][c], "elastic DOFs are updated with the volume integral and sources" );
#else
  static R t[QE][NM][CR], ta[RMX][QM][NM][CR];
  dofs( q, qA ); for( unsigned i=0; i<QE; i++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) { t[i][m][c] = dof( "tDofs" ); g1[i][m][c] = q[i][m][c]; }
  if( RM > 0 ) for( int r=0; r<RM; r++ ) for( unsigned i=0; i<QM; i++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) g1A[r][i][m][c] = qA[r][i][m][c];
  for( unsigned f=0; f<NF; f++ ) { for( unsigned e=0; e<QE*QE; e++ ) fsE[f][e] = SYM && f==1 ? cst( "fsE" ) : R( rnd() ); for( unsigned e=0; e<QM*QE; e++ ) fsA[f][e] = RM == 0 ? R(0) : SYM && f==1 ? cst( "fsA" ) : R( rnd() ); }
  for( int s=0; s<2; s++ ) for( unsigned i=0; i<QE; i++ ) for( unsigned m=0; m<NMF; m++ ) for( int c=0; c<CR; c++ ) sf[s][i][m][c] = 19;
  SI si( RM ? rfs : nullptr, dyn );
#if CASE == 2
  si.local( fsE, RM ? fsA : nullptr, t, g1, RM ? g1A : nullptr, sf, q, t );
  unsigned f0 = 0, f1 = NF; bool nb = false; unsigned fm = 0;
#else
  // neighboring contribution
  unsigned f0 = vp_pick( "fa", 0, NF-1 ), f1 = f0+1, v = vp_pick( "vId", 0, NFN/NF ), fn = vp_pick( "fId", 0, NF-1 );
  bool nb = v < NFN/NF, ext = vp_pick( "ext", 0, 1 ); unsigned fm = nb ? v*NF+fn : f0;
  unsigned short vid = nb ? v : std::numeric_limits< unsigned short >::max(), fid = nb ? fn : std::numeric_limits< unsigned short >::max();
  if( ext ) { si.neighFluxInt( f0, vid, fid, t, fi, q ); }
  si.neigh( f0, vid, fid, fsE[f0], RM ? fsA[f0] : nullptr, ext ? nullptr : t, ext ? fi : nullptr, g1, RM ? upA : nullptr, sf, q );
#endif
  static R uA[QM][NM][CR];
  for( unsigned f=f0; f<f1; f++ ) {
    mulR< NMF >( QE, t, nb ? g_fN[fm] : g_fL[f], w );
    for( unsigned i=0; i<QE; i++ ) for( unsigned m=0; m<NMF; m++ ) for( int c=0; c<CR; c++ ) {
      R a = 0, b = 0; for( unsigned j=0; j<QE; j++ ) { a += fsE[f][i*QE+j] * w[j][m][c]; if( RM > 0 && i < QM ) b += fsA[f][i*QE+j] * w[j][m][c]; }
      for( unsigned n=0; n<NM; n++ ) { if( g_fT[f][m][n] == 0 ) continue; q[i][n][c] += a * g_fT[f][m][n]; if( RM > 0 && i < QM ) uA[i][n][c] += b * g_fT[f][m][n]; }
    }
  }
  for( unsigned i=0; i<QE; i++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) CL( g1[i][m][c], q[i][m][c], "elastic DOFs are updated with the surface integral" );
#if CASE == 3
  if( RM > 0 ) {
    for( unsigned i=0; i<QM; i++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) CL( upA[i][m][c], uA[i][m][c], "anelastic update is the surface integral without frequencies" );
    si.scatterUpdateA( upA, g1A );
  }
#endif
  if( RM > 0 ) for( int r=0; r<RM; r++ ) for( unsigned i=0; i<QM; i++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) CL( g1A[r][i][m][c], qA[r][i][m][c] + rfs[r] * uA[i][m][c], "anelastic DOFs are updated with the surface integral scaled by the frequencies" );
#endif
#else
  // advection
  static R q[NM][CR], der[ORD][NM][CR], tI[NM][CR], t2[NM][CR], st[DIM], ref[ORD][NM][CR], io[1][NM][CR], fs[NF], w[NMF][CR];
  R dt = sym( "dt" ); for( int d=0; d<DIM; d++ ) st[d] = sym( "star" );
  for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) q[m][c] = sym( "dofs" );
  for( unsigned f=0; f<NF; f++ ) fs[f] = sym( "fs" );
#if CASE == 0
  advection::kernels::TimePred< R, EL, ORD, ORD, CR > tp( dyn );
  tp.ck( dt, st, q, der, tI );
  advection::kernels::TimePred< R, EL, ORD, ORD, CR >::integrate( dt, der, t2 );
  for( int k=0; k<ORD; k++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) {
    R s = 0; if( k==0 ) s = q[m][c]; else for( int d=0; d<DIM; d++ ) { R z = 0; for( unsigned n=0; n<NM; n++ ) z += ref[k-1][n][c] * g_stT[d][n][m]; s -= st[d] * z; }
    ref[k][m][c] = s; CL( der[k][m][c], s, "time derivatives satisfy the semi-discrete equations" );
  }
  for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) { R a = 0, s = dt; for( int k=0; k<ORD; k++ ) { a += s * ref[k][m][c]; s = s * dt / (k+2); }
    CL( tI[m][c], a, "time integrated DOFs are the integral of the Taylor expansion" ); CL( t2[m][c], a, "integration of the derivatives is the integral of the Taylor expansion" ); }
#elif CASE == 1
  advection::kernels::VolInt< R, EL, ORD, CR > vi( dyn );
  for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) { t2[m][c] = io[0][m][c] = sym( "io" ); }
  vi.apply( st, &q, io );
  for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) { R s = t2[m][c]; for( int d=0; d<DIM; d++ ) for( unsigned n=0; n<NM; n++ ) s += st[d] * q[n][c] * g_st[d][n][m]; CL( io[0][m][c], s, "DOFs are updated with the volume integral" ); }
#else
  advection::kernels::SurfInt< R, EL, ORD, CR > si( dyn );
  for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) { t2[m][c] = io[0][m][c] = sym( "io" ); }
#if CASE == 2
  si.local( fs, &q, io );
  unsigned f0 = 0, f1 = NF; bool nb = false; unsigned fm = 0;
#else
  unsigned f0 = vp_pick( "fa", 0, NF-1 ), f1 = f0+1, v = vp_pick( "vId", 0, NFN/NF ), fn = vp_pick( "fId", 0, NF-1 );
  bool nb = v < NFN/NF; unsigned fm = nb ? v*NF+fn : f0;
  unsigned short vid = nb ? v : std::numeric_limits< unsigned short >::max(), fid = nb ? fn : std::numeric_limits< unsigned short >::max();
  si.neigh( f0, vid, fid, fs[f0], &q, io );
#endif
  for( unsigned f=f0; f<f1; f++ ) for( unsigned j=0; j<NMF; j++ ) for( int c=0; c<CR; c++ ) {
    R a = 0; for( unsigned n=0; n<NM; n++ ) a += q[n][c] * ( nb ? g_fN[fm][n][j] : g_fL[f][n][j] );
    for( unsigned n=0; n<NM; n++ ) t2[n][c] += fs[f] * a * g_fT[f][j][n];
  }
  for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) CL( io[0][m][c], t2[m][c], "DOFs are updated with the surface integral" );
#endif
#endif
  vp_reach( "end" );
}
