// Riemann solvers of the internal boundary (rupture faces)
#include "vp.h"
#include <cmath>
#include <limits>
#include <vector>
#include <string>
#include <iostream>
#include <algorithm>
#include "constants.hpp"
#include "io/logging.h"
#undef EDGE_CHECK
#undef EDGE_CHECK_EQ
#undef EDGE_CHECK_NE
#undef EDGE_CHECK_LT
#define EDGE_CHECK(c) if( !(c) ) vp_check_failed( #c ); else if( false ) std::cerr
#define EDGE_CHECK_EQ(a,b) EDGE_CHECK( (a) == (b) )
#define EDGE_CHECK_NE(a,b) EDGE_CHECK( (a) != (b) )
#define EDGE_CHECK_LT(a,b) EDGE_CHECK( (a) < (b) )
#include "linalg/Matrix.h"
#include "linalg/Geom.hpp"
#include "impl/seismic/common.hpp"
#include "sc/ibnd/InternalBoundary.type"
#include "impl/seismic/solvers/InternalBoundary.hpp"
using namespace edge;
using namespace edge::seismic::solvers;
typedef double D;
#define EL T_SDISC.ELEMENT
#define DIM PP_N_DIM
#define NQ (DIM == 2 ? 5 : 9)
#define NC N_CRUNS
#define NSF CE_N_SUB_FACES( EL, ORDER )
#define NSC CE_N_SUB_CELLS( EL, ORDER )
#define NV C_ENT[EL].N_VERTICES
#define NFE C_ENT[EL].N_FACES
#define CL(a,b,l) vp_close( (a), (b), 1e-8, l )
typedef std::size_t L; typedef unsigned long long S;
struct Fa { S spType; D outNormal[3], tangent0[3], tangent1[3], area; };
struct Ec { S spType; D volume; };
struct Bg { D lam, mu, rho; };
struct Id { template< typename T, typename F > static void perturb( unsigned short sf, T, T const ms[NQ][NC], F *f, T l[NQ][NC], T r[NQ][NC], bool per[NC] ) {
  for( int q=0; q<NQ; q++ ) for( int c=0; c<NC; c++ ) { l[q][c] = r[q][c] = ms[q][c]; f[sf*NQ*NC+q*NC+c] = ms[q][c]; per[c] = ( sf + c ) % 2; } } };
struct Mm { struct K { void operator()( D const *a, D const *b, D *c ) const { unsigned n = NSF*NC; for( unsigned i=0; i<NQ; i++ ) for( unsigned j=0; j<n; j++ ) { D s = 0; for( unsigned k=0; k<NQ; k++ ) s += a[i*NQ+k]*b[k*n+j]; c[i*n+j] = s; } } }; K m_kernels[8][8]; };
// stress tensor and velocities of the quantities
static void tens( D const *q, D t[3][3], D v[3] ) {
  for( int i=0; i<3; i++ ) { v[i] = 0; for( int j=0; j<3; j++ ) t[i][j] = 0; }
  if( DIM == 2 ) { t[0][0] = q[0]; t[1][1] = q[1]; t[0][1] = t[1][0] = q[2]; v[0] = q[3]; v[1] = q[4]; }
  else { t[0][0] = q[0]; t[1][1] = q[1]; t[2][2] = q[2]; t[0][1] = t[1][0] = q[3]; t[1][2] = t[2][1] = q[4]; t[0][2] = t[2][0] = q[5]; v[0] = q[6]; v[1] = q[7]; v[2] = q[8]; }
}
static D dot( D const *a, D const *b ) { D s = 0; for( int d=0; d<DIM; d++ ) s += a[d]*b[d]; return s; }
extern "C" void vp_entry() {
#if CASE == 1
  // links of the internal boundary faces to the faces of their elements
  enum { NF = 4, NE = 3 };
  struct Cf { S spType; }; Cf cf[NF]; Ec ce[NE]; L faEl[NF][2], elFa[NE][NFE]; unsigned short vId[NE][NFE];
  S sp = vp_u64( "sp", 1, 7 );
  for( int e=0; e<NE; e++ ) for( unsigned f=0; f<NFE; f++ ) { elFa[e][f] = 100 + e*8 + f; vId[e][f] = std::numeric_limits< unsigned short >::max(); }
  unsigned short lo[NF][2], vv[NF];
  for( int f=0; f<NF; f++ ) {
    cf[f].spType = vp_u64( "spType", 0, 7 );
    int l = f % NE, r = ( f + 1 + f / NE ) % NE; if( f == 3 ) { l = 2; r = 0; }
    // every face uses different local faces of its elements
    lo[f][0] = ( f + vp_pick( "rot", 0, f == 0 ? NFE-1 : 0 ) ) % NFE; lo[f][1] = ( lo[f][0] + 1 ) % NFE;
    if( f > 0 ) { while( elFa[l][lo[f][0]] < 100 ) lo[f][0] = ( lo[f][0] + 1 ) % NFE; while( elFa[r][lo[f][1]] < 100 ) lo[f][1] = ( lo[f][1] + 1 ) % NFE; }
    faEl[f][0] = l; faEl[f][1] = r; elFa[l][lo[f][0]] = f; elFa[r][lo[f][1]] = f;
    vv[f] = (unsigned short) vp_u64( "vId", 0, NV-1 ); int un = (int) vp_pick( "unknown", 0, f == 0 ? 2 : 0 );
    if( un != 1 ) vId[l][lo[f][0]] = vv[f]; if( un != 2 ) vId[r][lo[f][1]] = vv[f];
  }
  sc::ibnd::t_bfChars< S > bf[NF+1];
  for( int i=0; i<=NF; i++ ) { bf[i].spType = 77; bf[i].vIdFaElR = 66; bf[i].fIdBfEl[0] = bf[i].fIdBfEl[1] = 55; }
  InternalBoundaryTypes< EL >::initFaces( (L) NF, (L) NE, sp, cf, ce, faEl, elFa, vId, bf );
  int n = 0;
  for( int f=0; f<NF; f++ ) if( vp_concrete( ( cf[f].spType & sp ) == sp ) ) {
    vp_assert( bf[n].spType == cf[f].spType, "sparse type of the boundary face" );
    vp_assert( bf[n].fIdBfEl[0] == lo[f][0] && bf[n].fIdBfEl[1] == lo[f][1], "local faces of the adjacent elements" );
    vp_assert( bf[n].vIdFaElR == vv[f], "vertex id of the adjacent elements" ); n++;
  }
  vp_assert( bf[n].spType == 77 && bf[n].vIdFaElR == 66, "only faces of the internal boundary are stored" );
#else
  // materials by impedance: (lam, mu, rho) with rational wave speeds
  static Bg const mat[4] = { {4,2,2}, {6,3,1.5*0.5}, {1,0.5*3,1}, {8,16,0.625*1.6} };
  static D const cps[4] = { 2, 4, 2, 6.324555320336759 }, css[4] = { 1, 2, 1.224744871391589, 4 };
  // orthonormal frames
#if DIM2
  static D const fr[4][3][3] = { { {1,0,0}, {0,1,0}, {0,0,0} }, { {0,-1,0}, {1,0,0}, {0,0,0} }, { {0.6,0.8,0}, {-0.8,0.6,0}, {0,0,0} }, { {-0.8,0.6,0}, {-0.6,-0.8,0}, {0,0,0} } };
#else
  static D const fr[4][3][3] = { { {1,0,0}, {0,1,0}, {0,0,1} }, { {2/3.,1/3.,2/3.}, {-2/3.,2/3.,1/3.}, {-1/3.,-2/3.,2/3.} }, { {0,-0.6,0.8}, {1,0,0}, {0,0.8,0.6} }, { {-0.6,0.8,0}, {0,0,1}, {0.8,0.6,0} } };
#endif
  enum { NF = 3, NE = 4 };
  Fa fa[NF]; Ec ec[NE]; Bg bg[NE]; L faEl[NF][2], elVe[NE][NV]; std::memset( elVe, 0, sizeof(elVe) );
  static S const pat[4][NF] = { {6,7,6}, {6,3,7}, {4,6,14}, {7,6,2} }; int pt = (int) vp_pick( "pattern", 0, 3 ); S sp = 6;
  int m0 = (int) vp_pick( "materials", 0, M3 ), f0 = (int) vp_pick( "frame", 0, 3 );
  int mi[NE]; for( int e=0; e<NE; e++ ) { mi[e] = ( m0 + e + e/3 ) % 3; bg[e] = mat[mi[e]]; ec[e].volume = 0.5 * (e+1); ec[e].spType = 0; }
  for( int f=0; f<NF; f++ ) { fa[f].spType = pat[pt][f]; fa[f].area = 1 + 0.25*f; for( int d=0; d<3; d++ ) { fa[f].outNormal[d] = fr[(f0+f)%4][0][d]; fa[f].tangent0[d] = fr[(f0+f)%4][1][d]; fa[f].tangent1[d] = fr[(f0+f)%4][2][d]; } faEl[f][0] = f; faEl[f][1] = ( f + 1 + f/2*2 ) % NE; }
  // boundary conditions: material of the other side
  int bc = pt == 0 ? 1 : pt == 3 ? 2 : 0; if( bc ) faEl[0][bc-1] = std::numeric_limits< L >::max();
  D sol[NF][4][NQ][NQ]; std::memset( sol, 0, sizeof(sol) );
  int pref = (int) vp_pick( "preferred", 0, 2 );
  D bc_[DIM][DIM]; std::memset( bc_, 0, sizeof(bc_) );
#if DIM2
  { D x = pref == 1 ? 0.28 : -0.28, y = pref == 1 ? 0.96 : -0.96; bc_[0][0] = x; bc_[0][1] = y; bc_[1][0] = -y; bc_[1][1] = x; }
#else
  { D s = pref == 1 ? 1 : -1; D b[3][3] = { {s*6/7.,s*2/7.,s*3/7.}, {-s*3/7.,s*6/7.,s*2/7.}, {-2/7.,-3/7.,6/7.} }; std::memcpy( bc_, b, sizeof(bc_) ); }
#endif
  InternalBoundarySolvers< EL, ORDER >::init( (L) NF, sp, faEl, elVe, fa, ec, bg, sol, pref ? bc_ : nullptr );
  int n = 0;
  for( int f=0; f<NF; f++ ) {
    if( ( fa[f].spType & sp ) != sp ) continue;
    D (*so)[NQ][NQ] = sol[n++];
    L e[2] = { faEl[f][0], faEl[f][1] }; for( int s=0; s<2; s++ ) if( e[s] == std::numeric_limits< L >::max() ) e[s] = faEl[f][1-s];
    D q[2][NQ][NSF][NC], up[2][NQ][NSF][NC], msv[NSF*NQ*NC]; bool per[NSF][NC];
    for( int s=0; s<2; s++ ) for( int k=0; k<NQ; k++ ) for( unsigned i=0; i<NSF; i++ ) for( int c=0; c<NC; c++ ) q[s][k][i][c] = vp_f64( "q", -1, 1 );
    Mm mm; D dt = 0.375;
    InternalBoundary< EL, NQ, ORDER, NC >::template netUpdates< D, Mm, Id, D >( so[0], so[1], so[2], so[3], q[0], q[1], up[0], up[1], per, mm, dt, msv );
    D const *nrm = fa[f].outNormal;
    for( unsigned i=0; i<NSF; i++ ) for( int c=0; c<NC; c++ ) {
      vp_assert( per[i][c] == ( ( i + c ) % 2 ), "perturbation flags of the sub-faces" );
      D t[2][3][3], v[2][3], tr[2][3];
      for( int s=0; s<2; s++ ) { D p[NQ]; for( int k=0; k<NQ; k++ ) p[k] = q[s][k][i][c]; tens( p, t[s], v[s] ); for( int d=0; d<3; d++ ) { tr[s][d] = 0; for( int g=0; g<DIM; g++ ) tr[s][d] += t[s][d][g]*nrm[g]; } }
      // traction and velocity in between: continuous over the face, left state + left-going waves, right state + right-going waves
      D vs[3], ts[3], vn[2], tn[2]; for( int s=0; s<2; s++ ) { vn[s] = dot( v[s], nrm ); tn[s] = dot( tr[s], nrm ); }
      D zp[2], zs[2]; for( int s=0; s<2; s++ ) { zp[s] = bg[e[s]].rho * cps[mi[e[s]]]; zs[s] = bg[e[s]].rho * css[mi[e[s]]]; }
      D vnS = ( zp[0]*vn[0] + zp[1]*vn[1] + tn[1] - tn[0] ) / ( zp[0] + zp[1] ), tnS = tn[0] + zp[0] * ( vnS - vn[0] );
      for( int d=0; d<3; d++ ) {
        D w[2], x[2]; for( int s=0; s<2; s++ ) { w[s] = v[s][d] - vn[s]*nrm[d]; x[s] = tr[s][d] - tn[s]*nrm[d]; }
        D wS = ( zs[0]*w[0] + zs[1]*w[1] + x[1] - x[0] ) / ( zs[0] + zs[1] ), xS = x[0] + zs[0] * ( wS - w[0] );
        if( d < DIM ) { vs[d] = wS + vnS*nrm[d]; ts[d] = xS + tnS*nrm[d]; } else vs[d] = ts[d] = 0;
      }
      // fluxes of the element's material in direction of the face's normal
      for( int s=0; s<2; s++ ) {
        Bg const &m = bg[e[s]]; D sc = ( s ? 1 : -1 ) * dt * ( fa[f].area / NSF ) / ( ec[e[s]].volume / NSC );
        D fl[3][3], fv[3], us = 0; for( int d=0; d<DIM; d++ ) us += vs[d]*nrm[d];
        for( int a=0; a<DIM; a++ ) { fv[a] = -ts[a] / m.rho; for( int b=0; b<DIM; b++ ) fl[a][b] = -( a == b ? m.lam * us : 0 ) - m.mu * ( vs[a]*nrm[b] + vs[b]*nrm[a] ); }
        D g[NQ]; if( DIM == 2 ) { g[0] = fl[0][0]; g[1] = fl[1][1]; g[2] = fl[0][1]; g[3] = fv[0]; g[4] = fv[1]; }
        else { g[0] = fl[0][0]; g[1] = fl[1][1]; g[NQ>5?2:0] = fl[2][2]; g[3] = fl[0][1]; g[4] = fl[1][2]; g[NQ>5?5:0] = fl[0][2]; g[NQ>5?6:0] = fv[0]; g[NQ>5?7:0] = fv[1]; g[NQ>5?8:0] = fv[2]; }
        for( int k=0; k<NQ; k++ ) CL( up[s][k][i][c], sc * g[k], "net update is the flux of the exact state at the face" );
      }
    }
  }
  for( ; n<NF; n++ ) for( int k=0; k<4; k++ ) for( int i=0; i<NQ; i++ ) for( int j=0; j<NQ; j++ ) vp_assert( sol[n][k][i][j] == 0, "only faces of the internal boundary have solvers" );
#endif
  vp_reach( "end" );
}
