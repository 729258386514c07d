// sub-cell limiter: admissibility, projections, sub-grid and Lax-Friedrichs solver of the sub-cells
#include "vp.h"
#include <cmath>
#include <limits>
#include <vector>
#include <string>
#include <iostream>
#include <algorithm>
#include "constants.hpp"
#include "io/logging.h"
#undef EDGE_CHECK
#undef EDGE_CHECK_EQ
#undef EDGE_CHECK_NE
#undef EDGE_CHECK_LT
#undef EDGE_CHECK_GT
#undef EDGE_CHECK_LE
#define EDGE_CHECK(c) if( !(c) ) vp_check_failed( #c ); else if( false ) std::cerr
#define EDGE_CHECK_EQ(a,b) EDGE_CHECK( (a) == (b) )
#define EDGE_CHECK_NE(a,b) EDGE_CHECK( (a) != (b) )
#define EDGE_CHECK_LT(a,b) EDGE_CHECK( (a) < (b) )
#define EDGE_CHECK_LE(a,b) EDGE_CHECK( (a) <= (b) )
#define EDGE_CHECK_GT(a,b) EDGE_CHECK( (a) > (b) )
#include "linalg/Matrix.h"
#include "linalg/Geom.hpp"
#include "impl/seismic/common.hpp"
#include "sc/Detections.hpp"
#include "sc/Kernels.hpp"
#include "sc/SubGrid.hpp"
#include "sc/Steering.hpp"
#include "sc/ibnd/SuperCell.hpp"
#include "impl/seismic/sc/Boundary.hpp"
#include "impl/seismic/sc/Llf.hpp"
using namespace edge;
typedef double D; typedef unsigned short US; typedef unsigned long L;
#define EL T_SDISC.ELEMENT
#define DIM PP_N_DIM
#define NQ (DIM == 2 ? 5 : 9)
#define NC N_CRUNS
#define NSF CE_N_SUB_FACES( EL, ORDER )
#define NSC CE_N_SUB_CELLS( EL, ORDER )
#define NMD CE_N_ELEMENT_MODES( EL, ORDER )
#define NV C_ENT[EL].N_VERTICES
#define NFE C_ENT[EL].N_FACES
#define NVF C_ENT[EL].N_FACE_VERTICES
#define CL(a,b,l) vp_close( (a), (b), 1e-8, l )
static L const NO = std::numeric_limits< L >::max();
#define Q2 2
#if CASE != 4
#define Q2 2
static D mn( D a, D b ) { return a < b ? a : b; }
static D mx( D a, D b ) { return a > b ? a : b; }
#endif
#if CASE == 1
// products of the DOFs with the matrix of the kernel, for every fused simulation
static int used;
struct Mm { struct K { int id; void operator()( D const *a, D const *b, D *c ) const {
  static int const in[4] = { NMD, NMD, NSC, NSF }, out[4] = { NSC, NSF, NMD, NMD }; int n = in[id], m = out[id]; used = id;
  for( int q=0; q<Q2; q++ ) for( int j=0; j<m; j++ ) for( int r=0; r<NC; r++ ) { D s = 0; for( int k=0; k<n; k++ ) s += a[(q*n+k)*NC+r]*b[k*m+j]; c[(q*m+j)*NC+r] = s; } } };
  K m_kernels[1][4]; Mm() { for( int i=0; i<4; i++ ) m_kernels[0][i].id = i; } };
#endif
#if CASE == 4
namespace edge { namespace data { Dynamic::~Dynamic() {}
void *Dynamic::allocate( std::size_t s, std::size_t, bool, bool ) { return std::malloc( s ); } } }
struct Fa { D outNormal[3], tangent0[3], tangent1[3], area; }; struct Ec { D volume; }; struct Ve { D coords[3]; }; struct Bg { D lam, mu, rho; };
// jacobian of the elastic wave equations in direction of n
static void flux( Bg const &m, D const *n, D const *q, D *g ) {
  D s[3][3], v[3], f[3][3], w[3], u = 0;
  for( int i=0; i<3; i++ ) { v[i] = 0; for( int j=0; j<3; j++ ) s[i][j] = f[i][j] = 0; }
  if( DIM == 2 ) { s[0][0] = q[0]; s[1][1] = q[1]; s[0][1] = s[1][0] = q[2]; v[0] = q[3]; v[1] = q[4]; }
  else { s[0][0] = q[0]; s[1][1] = q[1]; s[2][2] = q[2]; s[0][1] = s[1][0] = q[3]; s[1][2] = s[2][1] = q[4]; s[0][2] = s[2][0] = q[NQ>5?5:0]; for( int d=0; d<3; d++ ) v[d] = q[NQ>5?6+d:0]; }
  for( int a=0; a<DIM; a++ ) u += v[a]*n[a];
  for( int a=0; a<DIM; a++ ) { w[a] = 0; for( int b=0; b<DIM; b++ ) { w[a] -= s[a][b]*n[b]/m.rho; f[a][b] = -( a == b ? m.lam*u : 0 ) - m.mu*( v[a]*n[b] + v[b]*n[a] ); } }
  if( DIM == 2 ) { g[0] = f[0][0]; g[1] = f[1][1]; g[2] = f[0][1]; g[3] = w[0]; g[4] = w[1]; }
  else { g[0] = f[0][0]; g[1] = f[1][1]; g[2] = f[2][2]; g[3] = f[0][1]; g[4] = f[1][2]; g[NQ>5?5:0] = f[0][2]; for( int d=0; d<3; d++ ) g[NQ>5?6+d:0] = w[d]; }
}
#endif
extern "C" void vp_entry() {
#if CASE == 0
  // discrete maximum principle: candidate within the extrema of the neighborhood, with tolerance
  enum { NE = 4 }; D cur[NE][2][Q2][NC], can[2][Q2][NC];
  for( int e=0; e<NE; e++ ) for( int x=0; x<2; x++ ) for( int q=0; q<Q2; q++ ) for( int c=0; c<NC; c++ ) cur[e][x][q][c] = vp_f64( "extrema", -1e6, 1e6 );
  for( int x=0; x<2; x++ ) for( int q=0; q<Q2; q++ ) for( int c=0; c<NC; c++ ) can[x][q][c] = vp_f64( "candidate", -1e6, 1e6 );
  bool adm[NC]; L ids[NFE]; int n = 0, face = VIAFACE;
  if( face ) { for( unsigned f=0; f<NFE; f++ ) { L v = f == 0 ? vp_pick( "neigh", 0, 4 ) : f == 1 ? vp_pick( "neigh1", 3, 4 ) : f; ids[f] = v == 4 ? NO : v; } n = NFE; }
  else { n = (int) vp_pick( "neighbors", 0, 3 ); for( int i=0; i<n; i++ ) ids[i] = i == 0 ? vp_pick( "neigh", 1, 3 ) : i == 1 ? 2 : 3; }
  for( int c=0; c<NC; c++ ) adm[c] = vp_bool( "old" );
  if( face ) sc::Detections< EL, Q2, NC >::dmpFa( cur[0], cur, can, ids, adm ); else sc::Detections< EL, Q2, NC >::dmpVe( cur[0], cur, can, (US) n, ids, adm );
  for( int c=0; c<NC; c++ ) {
    bool ok = true;
    for( int q=0; q<Q2; q++ ) {
      D lo = cur[0][0][q][c], hi = cur[0][1][q][c];
      for( int i=0; i<n; i++ ) if( ids[i] != NO ) { lo = mn( lo, cur[ids[i]][0][q][c] ); hi = mx( hi, cur[ids[i]][1][q][c] ); }
      D tol = mx( 0.0001, 0.001 * ( hi - lo ) );
      ok = ok & ( can[0][q][c] >= lo - tol ) & ( can[1][q][c] <= hi + tol );
    }
    vp_assert( adm[c] == ok, "admissible: candidate does not exceed the extrema of the neighborhood" );
  }
#elif CASE == 1
  Mm mm; D dg[Q2][NMD][NC], sg[Q2][NSC][NC], su[Q2][NSF][NC], mS[NMD][NSC], mF[NMD][NSF], mG[NSC][NMD], o[Q2][NSC][NC], oF[Q2][NSF][NC], oM[Q2][NMD][NC]; bool adm[NC];
  for( int q=0; q<Q2; q++ ) for( int c=0; c<NC; c++ ) { for( int i=0; i<NMD; i++ ) dg[q][i][c] = vp_f64( "dg", -8, 8 ); for( int i=0; i<NSC; i++ ) { sg[q][i][c] = vp_f64( "sub-cell", -8, 8 ); o[q][i][c] = 99; } for( int i=0; i<NSF; i++ ) { su[q][i][c] = vp_f64( "sub-face", -8, 8 ); oF[q][i][c] = 99; } }
  for( int i=0; i<NMD; i++ ) for( int j=0; j<NSC; j++ ) { mS[i][j] = ( ( i*7 + j*3 ) % 11 - 5 ) * 0.25; mG[j][i] = ( ( i*5 + j*2 ) % 13 - 6 ) * 0.125; }
  for( int i=0; i<NMD; i++ ) for( int j=0; j<NSF; j++ ) mF[i][j] = ( ( i*3 + j*5 ) % 7 - 3 ) * 0.5;
  for( int c=0; c<NC; c++ ) adm[c] = vp_bool( "admissible" );
  typedef sc::Kernels< EL, ORDER, Q2, NC > K;
  bool nul = vp_pick( "null", 0, 1 );
  K::scatterReplace( mm, dg, mS, sg, adm, o );
  K::scatterReplaceFa( mm, dg, mF, su, nul ? nullptr : adm, oF );
  for( int q=0; q<Q2; q++ ) for( int c=0; c<NC; c++ ) {
    for( int j=0; j<NSC; j++ ) { D s = 0; for( int i=0; i<NMD; i++ ) s += dg[q][i][c]*mS[i][j]; if( adm[c] ) CL( o[q][j][c], s, "sub-cells of admissible solutions: projection of the DG solution" ); else vp_assert( o[q][j][c] == sg[q][j][c], "sub-cells of limited solutions are kept" ); }
    for( int j=0; j<NSF; j++ ) { D s = 0; for( int i=0; i<NMD; i++ ) s += dg[q][i][c]*mF[i][j]; if( nul || adm[c] ) CL( oF[q][j][c], s, "sub-cells at the face of admissible solutions: projection of the DG solution" ); else vp_assert( oF[q][j][c] == su[q][j][c], "sub-cells at the face of limited solutions are kept" ); }
  }
  K::gather( mm, sg, mG, oM );
  for( int q=0; q<Q2; q++ ) for( int c=0; c<NC; c++ ) for( int i=0; i<NMD; i++ ) { D s = 0; for( int j=0; j<NSC; j++ ) s += sg[q][j][c]*mG[j][i]; CL( oM[q][i][c], s, "DG solution of the sub-cells" ); }
  // surface DOFs: of the sub-cells at the face, from the view of the adjacent element; only for limited solutions
  US fs[NFE][NSF], ad[NVF][NSF], vId[NFE]; D dst[NFE][Q2][NSF][NC]; D (*p[NFE])[Q2][NSF][NC];
  for( unsigned f=0; f<NFE; f++ ) { vId[f] = f < 2 ? vp_pick( "vId", 0, NVF-1 ) : ( f % NVF ); p[f] = ( f == 1 && nul ) ? nullptr : &dst[f]; for( int i=0; i<NSF; i++ ) { fs[f][i] = ( f*2 + i*4 + 1 ) % NSC; for( int q=0; q<Q2; q++ ) for( int c=0; c<NC; c++ ) dst[f][q][i][c] = 50+c; } }
  for( unsigned v=0; v<NVF; v++ ) for( int i=0; i<NSF; i++ ) ad[v][i] = v % 2 ? ( i + v ) % NSF : ( NSF - 1 - i + v/2 ) % NSF;
  K::gatherSurfDofs( sg, fs, ad, vId, p, adm );
  for( unsigned f=0; f<NFE; f++ ) for( int i=0; i<NSF; i++ ) for( int q=0; q<Q2; q++ ) for( int c=0; c<NC; c++ ) { D e = 50+c; if( p[f] != nullptr && !adm[c] ) e = sg[q][ fs[f][ ad[vId[f]][i] ] ][c]; vp_assert( dst[f][q][i][c] == e, "sub-cells sent to the adjacent element" ); }
  D lo[Q2][NC], hi[Q2][NC];
  K::dgExtrema( mm, dg, mS, o, lo, hi );
  for( int q=0; q<Q2; q++ ) for( int c=0; c<NC; c++ ) {
    bool atL = false, atH = false, in = true; for( int j=0; j<NSC; j++ ) { D s = 0; for( int i=0; i<NMD; i++ ) s += dg[q][i][c]*mS[i][j]; CL( o[q][j][c], s, "projection of the DG solution" ); in = in & ( lo[q][c] <= o[q][j][c] ) & ( o[q][j][c] <= hi[q][c] ); atL = atL | ( lo[q][c] == o[q][j][c] ); atH = atH | ( hi[q][c] == o[q][j][c] ); }
    vp_assert( in & atL & atH, "extrema of the DG solution: sharp bounds of its sub-cells" );
  }
#elif CASE == 2
  // rotation of the limiter's data with the number of time steps
  unsigned long n = vp_u64( "steps", 0, ~0ul - 1 ); US a[4], b[4], x[2], y[2];
  sc::Steering::getAdmIds( n, a ); sc::Steering::getAdmIds( n+1, b );
  bool perm = true; for( int i=0; i<4; i++ ) for( int j=0; j<i; j++ ) perm = perm & ( a[i] != a[j] ); for( int i=0; i<4; i++ ) perm = perm & ( a[i] < 4 );
  vp_assert( perm, "admissibility: previous, candidate and limited solution do not overlap" );
  vp_assert( a[2] == b[0], "admissibility: limited solution is the previous solution of the next time step" );
  vp_assert( a[3] == b[1], "admissibility: second copy of the limited solution is the place of the next candidate" );
  sc::Steering::getExtIds( n, x ); sc::Steering::getExtIds( n+1, y );
  vp_assert( x[0] < 2 && x[1] < 2 && x[0] != x[1] && x[1] == y[0], "extrema: new solution is the previous solution of the next time step" );
  sc::Steering::getDofsIds( n, x ); sc::Steering::getDofsIds( n+1, y );
  vp_assert( x[0] < 2 && x[1] < 2 && x[0] != x[1] && x[1] == y[0], "DOFs: new solution is the previous solution of the next time step" );
  // reset: as if no step was done
  bool ad[4][NC]; bool (*pa[4])[NC] = { ad, ad+1, ad+2, ad+3 }, (*qa[4])[NC]; std::memcpy( qa, pa, sizeof(pa) ); unsigned long k = vp_pick( "done", 0, 5 );
  US ia[4], ix[2], z[4]; sc::Steering::getAdmIds( k, ia ); sc::Steering::getExtIds( k, ix ); sc::Steering::getAdmIds( 0ul, z );
  sc::Steering::resetAdm( k, pa ); for( int i=0; i<4; i++ ) vp_assert( pa[z[i]] == qa[ia[i]], "reset of the admissibility" );
  D ex[2][2][Q2][NC]; D (*pe[2])[2][Q2][NC] = { ex, ex+1 }, (*qe[2])[2][Q2][NC] = { ex, ex+1 }; sc::Steering::resetExt( k, pe );
  sc::Steering::getExtIds( 0ul, y ); for( int i=0; i<2; i++ ) vp_assert( pe[y[i]] == qe[ix[i]], "reset of the extrema" );
  D (*sd[2][NFE])[Q2][NSF][NC]; D (*(*pd[2])[NFE])[Q2][NSF][NC] = { &sd[0], &sd[1] }, (*(*qd[2])[NFE])[Q2][NSF][NC] = { &sd[0], &sd[1] };
  sc::Steering::resetDofs( k, pd ); sc::Steering::getDofsIds( k, ix ); sc::Steering::getDofsIds( 0ul, y ); for( int i=0; i<2; i++ ) vp_assert( pd[y[i]] == qd[ix[i]], "reset of the DOFs" );
  // counters of the limited elements
  enum { NP = 5, NL = 4 }; L li[NP]; unsigned cnt[NL][NC]; for( int i=0; i<NL; i++ ) for( int c=0; c<NC; c++ ) cnt[i][c] = 7+i; for( int i=0; i<NP; i++ ) li[i] = i == 4 ? 3 : NO; L l0 = vp_pick( "l0", 0, 2 ), l1 = vp_pick( "l1", 0, 2 ); li[1] = l0; li[3] = l1;
  L f0 = vp_pick( "first", 0, NP ), sz = vp_pick( "size", 0, NP ); vp_assume( f0 + sz <= NP ); sc::Steering::resetLimSync( f0, sz, li, cnt );
  for( L i=0; i<NL; i++ ) { bool hit = false; for( L j=f0; j<f0+sz; j++ ) hit |= li[j] == i; for( int c=0; c<NC; c++ ) vp_assert( cnt[i][c] == ( hit ? 0u : 7u+i ), "counters of the region's limited elements are reset" ); }
#elif CASE == 3
  // closest sub-cell
  enum { NSV = CE_N_SUB_VERTICES( EL, ORDER ) }; struct Sv { D coords[DIM]; }; Sv sv[NSV]; int scv[NSC][NV]; D pt[DIM];
  for( int i=0; i<NSV; i++ ) for( int d=0; d<DIM; d++ ) sv[i].coords[d] = ( ( i*5 + d*3 ) % 7 ) / 8.0;
  for( int i=0; i<NSC; i++ ) for( unsigned v=0; v<NV; v++ ) scv[i][v] = ( i*2 + v*3 ) % NSV;
  for( int d=0; d<DIM; d++ ) pt[d] = vp_f64( "pt", -1, 2 );
  int got = vp_concrete( sc::SubGrid< EL, ORDER >::template ptSc< int, D, Sv >( pt, scv, sv ) ); vp_assert( got >= 0 && got < NSC, "a sub-cell is found" );
  D di[NSC]; for( int i=0; i<NSC; i++ ) { di[i] = 0; for( unsigned v=0; v<NV; v++ ) for( int d=0; d<DIM; d++ ) { D x = sv[scv[i][v]].coords[d]; di[i] += x*x - 2*x*pt[d]; } }
  if( got >= 0 && got < NSC ) for( int i=0; i<NSC; i++ ) vp_assert( di[got] <= di[i] + 1e-9, "closest sub-cell" );
  // sub-grid of the faces: sub-vertices are numbered once and link to those of the volume
  enum { NFV = CE_N_SUB_VERTICES( C_ENT[EL].TYPE_FACES, ORDER ) }; US all[NSC+NFE*NSF][NV], loc[NFE][NSF][NVF], ori[NFE][NFV]; std::memset( all, 0, sizeof(all) );
  for( unsigned f=0; f<NFE; f++ ) for( int s=0; s<NSF; s++ ) for( unsigned v=0; v<NVF; v++ ) all[NSC+f*NSF+s][v] = v < 2 ? vp_pick( "sv", 0, f == 0 && s == 0 ? 3 : 0 ) + f*3 + s + v*2 : 0;
  for( unsigned f=0; f<NFE; f++ ) for( int s=0; s<NSF; s++ ) for( unsigned v=0; v<NVF; v++ ) all[NSC+f*NSF+s][v] = ( all[NSC+f*NSF+s][v] % NFV ) * 2 + f;
  sc::SubGrid< EL, ORDER >::faSg( all, loc, ori );
  for( unsigned f=0; f<NFE; f++ ) {
    for( int s=0; s<NSF; s++ ) for( unsigned v=0; v<NVF; v++ ) { US x = loc[f][s][v]; vp_assert( x < NFV, "local sub-vertex exists" ); if( x < NFV ) vp_assert( ori[f][x] == all[NSC+f*NSF+s][v], "local sub-vertex is linked to the sub-vertex of the volume" ); }
    for( int i=0; i<NFV; i++ ) for( int j=0; j<i; j++ ) vp_assert( ori[f][i] != ori[f][j] || ori[f][i] == std::numeric_limits< US >::max(), "every sub-vertex is stored once" );
  }
  // outflow: ghost sub-cells of this face, and no others, are empty
  US ss[NSC+NFE*NSF][NFE]; std::memset( ss, 0, sizeof(ss) ); D g[NQ][NSC+NFE*NSF][NC], h[NQ][NSC+NFE*NSF][NC]; int sp[NFE];
  for( unsigned f=0; f<NFE; f++ ) { sp[f] = vp_pick( "bc", 0, f < 2 ? 2 : 0 ); sp[f] = sp[f] == 0 ? 0 : sp[f] == 1 ? OUTFLOW : OUTFLOW | 1024; }
  for( int q=0; q<NQ; q++ ) for( unsigned i=0; i<NSC+NFE*NSF; i++ ) for( int c=0; c<NC; c++ ) g[q][i][c] = h[q][i][c] = vp_f64( "q", -8, 8 );
  seismic::sc::Boundary< EL, ORDER, NC >::apply( ss, sp, g );
  for( int q=0; q<NQ; q++ ) for( unsigned i=0; i<NSC+NFE*NSF; i++ ) for( int c=0; c<NC; c++ ) { bool out = i >= NSC && sp[( i - NSC ) / NSF] != 0; vp_assert( g[q][i][c] == ( out ? 0 : h[q][i][c] ), "outflow: nothing enters through the face" ); }
  // super-cells: both sub-cells get their average, everything else is kept
  sc::ibnd::t_stCol< TET4, 2 > st; enum { N3 = CE_N_SUB_CELLS( TET4, 2 ), NST = sc::ibnd::t_stCol< TET4, 2 >::TL_N_ST }; D u[2][N3][NC], w[2][N3][NC]; bool isU[N3] = { false };
  for( int s=0; s<NST; s++ ) { st.sc[s][0] = s*5 + 1; st.sc[s][1] = s*7 + 2 + ( s == 1 ? 1 : 0 ); }
  for( int q=0; q<2; q++ ) for( int i=0; i<N3; i++ ) for( int c=0; c<NC; c++ ) u[q][i][c] = w[q][i][c] = vp_f64( "u", -8, 8 );
  sc::ibnd::SuperCell< TET4, 2, 2, NC >::applyFa( st, u );
  for( int q=0; q<2; q++ ) for( int c=0; c<NC; c++ ) { for( int s=0; s<NST; s++ ) for( int k=0; k<2; k++ ) { isU[st.sc[s][k]] = true; CL( u[q][st.sc[s][k]][c], 0.5*( w[q][st.sc[s][0]][c] + w[q][st.sc[s][1]][c] ), "average of the super-cell" ); } for( int i=0; i<N3; i++ ) if( !isU[i] ) vp_assert( u[q][i][c] == w[q][i][c], "other sub-cells are kept" ); }
#else
  static Bg const mat[3] = { {4,2,2}, {6,3,0.75}, {9,8,1} }; static D const cp[3] = { 2, 4, 5 };
#if DIM2
  static D const fr[4][3][3] = { { {1,0,0}, {0,1,0}, {0,0,0} }, { {0,-1,0}, {1,0,0}, {0,0,0} }, { {0.6,0.8,0}, {-0.8,0.6,0}, {0,0,0} }, { {-0.8,0.6,0}, {-0.6,-0.8,0}, {0,0,0} } };
#else
  static D const fr[4][3][3] = { { {1,0,0}, {0,1,0}, {0,0,1} }, { {2/3.,1/3.,2/3.}, {-2/3.,2/3.,1/3.}, {-1/3.,-2/3.,2/3.} }, { {0,-0.6,0.8}, {1,0,0}, {0,0.8,0.6} }, { {-0.6,0.8,0}, {0,0,1}, {0.8,0.6,0} } };
#endif
  enum { NE = 3, NL = 2, NT = EL == TET4 ? 6 : NFE }; Fa fa[NE*NFE]; Ec ec[NE]; Ve ve[NV]; Bg bg[NE]; L lpEl[NL] = { 2, 1 }, elVe[NE][NV], elFa[NE][NFE], nb[NE][NFE]; int mi[NE];
  int m0 = (int) vp_pick( "materials", 0, 2 ), f0 = ( m0 + (int) vp_pick( "frame", 0, NFR ) ) % 4; L lp = vp_pick( "lp", 0, 1 );
  static D const vc[4][3] = { {0,0,0}, {2,0,0}, {0,2,0}, {0,0,2} };
  for( unsigned v=0; v<NV; v++ ) for( int d=0; d<3; d++ ) ve[v].coords[d] = vc[v][d];
  for( int e=0; e<NE; e++ ) { mi[e] = ( m0 + e ) % 3; bg[e] = mat[mi[e]]; ec[e].volume = 0.5 + 0.25*e; for( unsigned v=0; v<NV; v++ ) elVe[e][v] = v;
    for( unsigned f=0; f<NFE; f++ ) { int i = e*NFE+f; elFa[e][f] = i; nb[e][f] = f == 2 ? NO : (L) ( ( e + 1 + f%2 ) % 3 ); fa[i].area = 1 + 0.25*( i % 5 ); for( int d=0; d<3; d++ ) { fa[i].outNormal[d] = fr[(f0+i)%4][0][d]; fa[i].tangent0[d] = fr[(f0+i)%4][1][d]; fa[i].tangent1[d] = fr[(f0+i)%4][2][d]; } } }
  typedef seismic::sc::Llf< D, EL, ORDER, NC > S; S s; data::Dynamic dm; s.alloc( (L) NL, dm ); L from = ( m0 + f0 + lp ) % 3;
  s.init( (L) 0, from, lpEl, elVe, elFa, nb, ve, fa, ec, bg ); s.init( from, (L) NL-from, lpEl, elVe, elFa, nb, ve, fa, ec, bg );
  L e = lpEl[lp];
  // sub-faces of all types
  US ss[NSC+NFE*NSF][NFE], ty[NSC][NFE]; std::memset( ss, 0, sizeof(ss) ); bool nu[NFE]; int sh = NSC == 1 ? (int) vp_pick( "types", 0, 4 ) : 0; for( unsigned f=0; f<NFE; f++ ) nu[f] = f == 0 ? vp_pick( "net_updates", 0, 1 ) : f == 2;
  for( int i=0; i<NSC; i++ ) for( unsigned f=0; f<NFE; f++ ) { ty[i][f] = ( NFE*i + f + sh*4 ) % ( 2*NFE + 2*NT ); ss[i][f] = ty[i][f] < 2*NFE || NSC == 1 ? NSC + ( ty[i][f] % NFE ) * NSF + i % NSF : ( i + 1 + f ) % NSC; }
  D q[NQ][NSC+NFE*NSF][NC], o[NQ][NSC][NC], dt = 0.375;
  for( int k=0; k<NQ; k++ ) for( unsigned i=0; i<NSC+NFE*NSF; i++ ) for( int c=0; c<NC; c++ ) q[k][i][c] = vp_f64( "q", -1, 1 );
  s.tsSc( dt, lp, ss, ty, nu, q, o );
  D n[NT][3], ar[NT];
  for( int t=0; t<NT; t++ ) {
    if( t < (int) NFE ) { D sg = ( nb[e][t] != NO && e > nb[e][t] ) ? -1 : 1; for( int d=0; d<3; d++ ) n[t][d] = sg * fa[elFa[e][t]].outNormal[d]; ar[t] = fa[elFa[e][t]].area; }
    // faces within the refined tet: unit tet of length 2
    else { D r2 = 1.4142135623730951; D m[2][3] = { {1/r2,1/r2,0}, {1/r2,0,1/r2} }; for( int d=0; d<3; d++ ) n[t][d] = m[t-NFE][d]; ar[t] = 2*r2; }
  }
  for( int c=0; c<NC; c++ ) for( int i=0; i<NSC; i++ ) {
    D r[NQ]; for( int k=0; k<NQ; k++ ) r[k] = q[k][i][c];
    for( unsigned f=0; f<NFE; f++ ) {
      int t = ty[i][f]; US ad = ss[i][f]; D a[NQ], b[NQ], g[NQ], h[NQ]; for( int k=0; k<NQ; k++ ) { a[k] = q[k][i][c]; b[k] = q[k][ad][c]; }
      if( t < (int) NFE && nu[t] ) { for( int k=0; k<NQ; k++ ) r[k] += b[k]; continue; }
      bool dgs = t < (int) (2*NFE), left = dgs ? t < (int) NFE : t < (int) (2*NFE+NT); int id = dgs ? t % NFE : ( t - 2*NFE ) % NT; L eo = dgs && nb[e][id] != NO ? nb[e][id] : e;
      D sg = left ? 1 : -1, nn[3]; for( int d=0; d<3; d++ ) nn[d] = sg * n[id][d];
      D v = cp[mi[e]] > cp[mi[eo]] ? cp[mi[e]] : cp[mi[eo]], sc = dt * ( ar[id] / NSF ) / ( ec[e].volume / NSC );
      flux( bg[e], nn, a, g ); flux( bg[eo], nn, b, h );
      for( int k=0; k<NQ; k++ ) r[k] -= sc * 0.5 * ( g[k] + h[k] + v * ( a[k] - b[k] ) );
    }
    for( int k=0; k<NQ; k++ ) CL( o[k][i][c], r[k], "sub-cell: Lax-Friedrichs fluxes through all of its faces" );
  }
  // fluxes through the face of the element
  D z[2][NQ][NSF][NC], up[NQ][NSF][NC]; for( int f=0; f<(int) NFE; f++ ) { for( int x=0; x<2; x++ ) for( int k=0; k<NQ; k++ ) for( int i=0; i<NSF; i++ ) for( int c=0; c<NC; c++ ) z[x][k][i][c] = q[k][( x*NSF + i ) % ( NSC+NFE*NSF )][c];
  s.nuFaSf( dt, lp, (US) f, z, up ); L eo = nb[e][f] != NO ? nb[e][f] : e;
  for( int i=0; i<NSF; i++ ) for( int c=0; c<NC; c++ ) {
    D a[NQ], b[NQ], g[NQ], h[NQ]; for( int k=0; k<NQ; k++ ) { a[k] = z[0][k][i][c]; b[k] = z[1][k][i][c]; }
    D v = cp[mi[e]] > cp[mi[eo]] ? cp[mi[e]] : cp[mi[eo]], sc = dt * ( ar[f] / NSF ) / ( ec[e].volume / NSC ); flux( bg[e], n[f], a, g ); flux( bg[eo], n[f], b, h );
    for( int k=0; k<NQ; k++ ) CL( up[k][i][c], -sc * 0.5 * ( g[k] + h[k] + v * ( a[k] - b[k] ) ), "net updates through the face of the element" );
  } }
#endif
  vp_reach( "end" );
}
