// mappings, geometry, quadrature and DG bases of the solver
#include "vp.h"
#include <cmath>
#include <limits>
#include <vector>
#include <algorithm>
#include <functional>
#include <iostream>
#include "constants.hpp"
#include "io/logging.h"
#undef EDGE_CHECK
#undef EDGE_CHECK_EQ
#undef EDGE_CHECK_NE
#undef EDGE_CHECK_LT
#undef EDGE_CHECK_LE
#undef EDGE_CHECK_GT
#define EDGE_CHECK(c) if( !(c) ) vp_check_failed( #c ); else if( false ) std::cerr
#define EDGE_CHECK_EQ(a,b) EDGE_CHECK( (a) == (b) )
#define EDGE_CHECK_NE(a,b) EDGE_CHECK( (a) != (b) )
#define EDGE_CHECK_LT(a,b) EDGE_CHECK( (a) < (b) )
#define EDGE_CHECK_LE(a,b) EDGE_CHECK( (a) <= (b) )
#define EDGE_CHECK_GT(a,b) EDGE_CHECK( (a) > (b) )
#include "linalg/Matrix.h"
#include "linalg/Mappings.hpp"
#if CASE == 5
#include "linalg/Geom.hpp"
#endif
#if CASE == 2 || CASE == 3 || CASE == 4
#include "submodules/FastGL/fastgl.cpp"
#include <array>
#include <string>
#include <fstream>
#include <sstream>
#include "dg/Basis.h"
#include "dg/QuadraturePoints.h"
#include "dg/QuadratureEval.hpp"
namespace edge { namespace pre { namespace dg {
double const *g_massRaw;
#ifdef ORD
extern std::size_t const g_massSize;
std::size_t const g_massSize = CE_N_ELEMENT_MODES( T_SDISC.ELEMENT, ORD ) * CE_N_ELEMENT_MODES( T_SDISC.ELEMENT, ORD );
#else
extern std::size_t const g_massSize;
std::size_t const g_massSize = 1;
#endif
} } }
#include "dg/Basis.cpp"
#endif
using namespace edge;
using namespace edge::linalg;
#define EL T_SDISC.ELEMENT
#define DIM PP_N_DIM
#define NV C_ENT[EL].N_VERTICES
#define NF C_ENT[EL].N_FACES
typedef double D;
static double sym( char const *n, double b = 4 ) { return vp_f64( n, -b, b ); }
#define CL(a,b,l) vp_close( (a), (b), 1e-9, l )
// vertices of the reference elements, see the documentation of the element types
static int const RV[5][3][8] = { { {0,1}, {}, {} }, { {0,1,1,0}, {0,0,1,1}, {} }, { {0,1,0}, {0,0,1}, {} }, { {0,1,1,0,0,1,1,0}, {0,0,1,1,0,0,1,1}, {0,0,0,0,1,1,1,1} }, { {0,1,0,0}, {0,0,1,0}, {0,0,0,1} } };
// vertices of the faces
static int const FV[5][6][4] = { { {0}, {1} }, { {0,1}, {1,2}, {2,3}, {3,0} }, { {0,1}, {1,2}, {2,0} }, { {0,3,2,1}, {0,1,5,4}, {1,2,6,5}, {3,7,6,2}, {0,4,7,3}, {4,5,6,7} }, { {0,2,1}, {0,1,3}, {0,3,2}, {1,2,3} } };
#define TI (EL==LINE?0:EL==QUAD4R?1:EL==TRIA3?2:EL==HEX8R?3:4)
static D ve[3][8];      // [dim][vertex]
static D raw[3*8], jac[9], det;
static bool simplex() { return EL == TRIA3 || EL == TET4; }
static void vertices() {
#if CASE == 5 && defined(FIXED)
  { static D const t[3][4] = { {-1,2,-2,1}, {-2,1,3,0}, {1,-1,0,3} }, tr[2][3] = { {-1,2,-2}, {-2,1,3} };
    for( int d=0; d<DIM; d++ ) for( int v=0; v<(int)NV; v++ ) ve[d][v] = EL == TET4 ? t[d][v] : tr[d%2][v%3];
    for( int d=0; d<FIXED; d++ ) ve[d][NV-1] = sym( "ve" ); }
  if( false ) {}
#else
  if( simplex() ) { for( int d=0; d<DIM; d++ ) for( int v=0; v<(int)NV; v++ ) ve[d][v] = sym( "ve" ); }
#endif
  else for( int d=0; d<DIM; d++ ) { D o = sym( "o" ), s = vp_f64( "s", 0.25, 4 ); for( int v=0; v<(int)NV; v++ ) ve[d][v] = o + s * RV[TI][d][v]; }
  for( int d=0; d<DIM; d++ ) for( int v=0; v<(int)NV; v++ ) raw[d*NV+v] = ve[d][v];
  if( EL == TRIA3 ) det = (ve[0][1]-ve[0][0])*(ve[1][2]-ve[1][0]) - (ve[0][2]-ve[0][0])*(ve[1][1]-ve[1][0]);
  else if( EL == TET4 ) {
    D a[3], b[3], c[3]; for( int d=0; d<3; d++ ) { a[d] = ve[d][1]-ve[d][0]; b[d] = ve[d][2]-ve[d][0]; c[d] = ve[d][3]-ve[d][0]; }
    det = a[0]*(b[1]*c[2]-b[2]*c[1]) - a[1]*(b[0]*c[2]-b[2]*c[0]) + a[2]*(b[0]*c[1]-b[1]*c[0]);
  }
  else { det = 1; for( int d=0; d<DIM; d++ ) { int v = d == 0 ? 1 : d == 1 ? 3 : 4; det = det * (ve[d][v]-ve[d][0]); } }
  if( simplex() ) vp_assume( det > 0.125 );
}
// affine map by definition
static void aff( D const *xi, D *x ) {
  for( int d=0; d<DIM; d++ ) { x[d] = ve[d][0]; for( int e=0; e<DIM; e++ ) { int v = simplex() ? e+1 : e == 0 ? 1 : e == 1 ? 3 : 4; x[d] += xi[e] * (ve[d][v]-ve[d][0]); } }
}
#if CASE == 2 || CASE == 3
// integral of x^a y^b z^c over the reference element
static D fac( int n ) { D r = 1; for( int i=2; i<=n; i++ ) r *= i; return r; }
static D mono( int a, int b, int c ) { return EL == TRIA3 ? fac(a)*fac(b)/fac(a+b+2) : EL == TET4 ? fac(a)*fac(b)*fac(c)/fac(a+b+c+3) : D(1)/((a+1)*(DIM>1?b+1:1)*(DIM>2?c+1:1)); }
static D pw( D x, int n ) { D r = 1; for( int i=0; i<n; i++ ) r *= x; return r; }
#endif
extern "C" void vp_entry() {
#if CASE == 0
  // mappings between reference and physical elements
  vertices();
  D xi[3], x[3], y[3], back[3], t[3];
  for( int d=0; d<DIM; d++ ) xi[d] = sym( "xi", 2 );
  Mappings::refToPhy( EL, raw, xi, x ); aff( xi, y );
  for( int d=0; d<DIM; d++ ) CL( x[d], y[d], "reference to physical coordinates is the affine map of the element" );
  Mappings::evalJac( EL, raw, jac );
  D h = sym( "h", 2 );
  for( int e=0; e<DIM; e++ ) {
    for( int d=0; d<DIM; d++ ) t[d] = xi[d] + ( d == e ? h : 0 );
    Mappings::refToPhy( EL, raw, t, y );
    for( int d=0; d<DIM; d++ ) CL( y[d], x[d] + h * jac[e*DIM+d], "Jacobian is the derivative of the mapping" );
  }
  for( int v=0; v<(int)NV; v++ ) {
    for( int d=0; d<DIM; d++ ) { t[d] = RV[TI][d][v]; CL( C_REF_ELEMENT.VE.ENT[EL][d*NV+v], t[d], "vertices of the reference element" ); }
    Mappings::refToPhy( EL, raw, t, y );
    for( int d=0; d<DIM; d++ ) CL( y[d], ve[d][v], "reference vertices map to the element's vertices" );
  }
  if( EL != LINE ) {
    Mappings::phyToRef( EL, raw, x, back );
    for( int d=0; d<DIM; d++ ) CL( back[d], xi[d], "physical to reference coordinates inverts the mapping" );
  }
  if( DIM == 2 ) { D m[2][2], mi[2][2]; for( int i=0; i<4; i++ ) m[0][i] = jac[i]; CL( Matrix::det( m ), det, "determinant" ); Matrix::inv( m, mi );
    for( int i=0; i<2; i++ ) for( int j=0; j<2; j++ ) { D s = 0; for( int k=0; k<2; k++ ) s += m[i][k]*mi[k][j]; CL( s, i==j, "inverse of the Jacobian" ); } }
  if( DIM == 3 ) { D m[3][3], mi[3][3]; for( int i=0; i<9; i++ ) m[0][i] = jac[i]; CL( Matrix::det( m ), det, "determinant" ); Matrix::inv( m, mi );
    for( int i=0; i<3; i++ ) for( int j=0; j<3; j++ ) { D s = 0; for( int k=0; k<3; k++ ) s += m[i][k]*mi[k][j]; CL( s, i==j, "inverse of the Jacobian" ); } }
#elif CASE == 1
  // face coordinates: every face of two elements which share it, every orientation
  unsigned short f = vp_concrete( vp_u64( "face", 0, NF-1 ) ), g = vp_concrete( vp_u64( "neighFace", 0, NF-1 ) ), o = DIM == 3 && EL == TET4 ? vp_concrete( vp_u64( "orientation", 0, 2 ) ) : 0;
  vertices();
  D chi[2] = { 0, 0 }, chN[2] = { 0, 0 }, xi[3], x[3], y[3], nv[3][4];
  for( int d=0; d<DIM-1; d++ ) chi[d] = sym( "chi", 1 );
  Mappings::faToVolRef( f, EL, chi, xi );
  aff( xi, x );
  int const *fv = FV[TI][f];
  for( int d=0; d<DIM; d++ ) {
    D p0 = ve[d][fv[0]]; y[d] = p0;
    if( DIM > 1 ) y[d] += chi[0] * ( ve[d][fv[1]] - p0 );
    if( DIM > 2 ) y[d] += chi[1] * ( ve[d][fv[EL==TET4?2:3]] - p0 );
    CL( x[d], y[d], "face coordinates start at the first and point to the next (last) vertex of the face" );
  }
  if( DIM > 1 ) {
    // vertices of the face as seen by the neighbor: reversed, starting at the shared vertex
    Mappings::faLocToFaNei( EL, chi, chN, EL == TET4 ? o : std::numeric_limits< unsigned short >::max() );
    int n = EL == TET4 ? 3 : EL == HEX8R ? 4 : 2;
    if( EL == TET4 ) for( int d=0; d<DIM; d++ ) for( int i=0; i<n; i++ ) nv[d][(o+i)%n] = ve[d][fv[(n-i)%n]];
    else if( EL == HEX8R ) for( int d=0; d<DIM; d++ ) for( int i=0; i<n; i++ ) nv[d][i] = ve[d][fv[(n-i)%n]];
    else for( int d=0; d<DIM; d++ ) for( int i=0; i<n; i++ ) nv[d][i] = ve[d][fv[1-i]];
    for( int d=0; d<DIM; d++ ) {
      y[d] = nv[d][0] + chN[0] * ( nv[d][1] - nv[d][0] );
      if( DIM > 2 ) y[d] += chN[1] * ( nv[d][n-1] - nv[d][0] );
      CL( x[d], y[d], "both elements see the same physical point of their shared face" );
    }
    // volume coordinates of the neighbor
    D xN[3]; Mappings::faToVolRef( g, EL, chN, xN );
    D nb[3][8]; for( int d=0; d<DIM; d++ ) for( int v=0; v<(int)NV; v++ ) nb[d][v] = sym( "nei" );
    for( int i=0; i<n; i++ ) for( int d=0; d<DIM; d++ ) nb[d][FV[TI][g][i]] = nv[d][i];
    if( simplex() ) for( int d=0; d<DIM; d++ ) { D s = nb[d][0]; for( int e=0; e<DIM; e++ ) s += xN[e] * ( nb[d][e+1] - nb[d][0] ); CL( s, x[d], "volume coordinates of the neighbor hit the same physical point" ); }
  }
#elif CASE == 2
  // quadrature: exact for every polynomial, physical points and weights are those of the mapping
  D c0[3*8]; for( int d=0; d<3; d++ ) for( int v=0; v<(int)NV; v++ ) c0[d*NV+v] = C_REF_ELEMENT.VE.ENT[EL][d*NV+v];
  for( unsigned q=1; q<=QO; q++ ) {
    std::vector< D > px, py, pz, w, qx, qy, qz, u;
    dg::QuadraturePoints::getQpts( EL, q, c0, px, py, pz, w );
    vp_assert( w.size() == CE_N_QUAD_POINTS( EL, q ), "number of quadrature points" );
    int mx = EL == TRIA3 ? 2*q-2 : EL == TET4 ? 2*q-3 : 2*q-1; // collapsed coordinates lose a degree per direction
    if( EL == TET4 && q == 1 ) continue; // collapsed rule with a single point is not exact, and not used
    D si = 0, se = 0;
    for( int a=0; a<=mx; a++ ) for( int b=0; b<=(DIM>1?mx:0); b++ ) for( int c=0; c<=(DIM>2?mx:0); c++ ) {
      if( simplex() ? a+b+c > mx : a+b+c > (int) MAXT ) continue;
      D co = sym( "co", 1 ), s = 0;
      for( unsigned i=0; i<w.size(); i++ ) s += w[i] * pw( px[i], a ) * ( DIM>1 ? pw( py[i], b ) : 1 ) * ( DIM>2 ? pw( pz[i], c ) : 1 );
      si += co * s; se += co * mono( a, b, c );
    }
    vp_close( si, se, 1e-9, "quadrature integrates every polynomial of its degree exactly" );
    if( q == PH ) {
      vertices();
      for( int i=0; i<3*8; i++ ) raw[i] = i < (int)(DIM*NV) ? raw[i] : 0;
      dg::QuadraturePoints::getQpts( EL, q, raw, qx, qy, qz, u );
      for( unsigned i=0; i<w.size(); i++ ) {
        D xi[3] = { px[i], DIM > 1 ? py[i] : 0, DIM > 2 ? pz[i] : 0 }, x[3];
        aff( xi, x );
        CL( qx[i], x[0], "quadrature points of an element are mapped reference points" );
        if( DIM > 1 ) CL( qy[i], x[1], "quadrature points of an element are mapped reference points" );
        if( DIM > 2 ) CL( qz[i], x[2], "quadrature points of an element are mapped reference points" );
        CL( u[i], w[i] * det, "quadrature weights of an element are scaled by its determinant" );
      }
    }
  }
#elif CASE == 3
  // basis functions
  unsigned const NM = CE_N_ELEMENT_MODES( EL, ORD );
  D xi[3] = { 0, 0, 0 };
  for( int d=0; d<DIM; d++ ) xi[d] = vp_f64( "xi", 0, 1 );
  if( simplex() ) for( int d=1; d<DIM; d++ ) vp_assume( xi[d] < 0.875 );
  if( EL == TET4 ) vp_assume( xi[1] + xi[2] < 0.875 );
  static D st[5] = { 1.0/12, -8.0/12, 0, 8.0/12, -1.0/12 };
  for( unsigned m=0; m<NM; m++ ) {
    real_base v = dg::Basis::evalBasis( m, EL, xi[0], xi[1], xi[2], -1, ORD ), v2 = dg::Basis::evalBasis( m, EL, xi, -1, ORD );
    CL( v, v2, "both evaluations agree" );
    for( int d=0; d<DIM; d++ ) {
      // exact for polynomials of degree four
      D s = 0;
      for( int k=-2; k<=2; k++ ) { if( k == 0 ) continue; D t[3] = { xi[0], xi[1], xi[2] }; t[d] = t[d] + 0.0625 * k; s += st[k+2] * dg::Basis::evalBasis( m, EL, t[0], t[1], t[2], -1, ORD ); }
      D dv = dg::Basis::evalBasis( m, EL, xi[0], xi[1], xi[2], EL == LINE ? 1 : d, ORD );
      vp_close( dv, s * 16, 1e-7, "derivative of the basis is the derivative of the basis function" );
    }
  }
  // hierarchy
  if( simplex() || EL == LINE ) for( unsigned m=0; m<NM; m++ ) CL( dg::Basis::evalBasis( m, EL, xi[0], xi[1], xi[2], -1, ORD ), dg::Basis::evalBasis( m, EL, xi[0], xi[1], xi[2], -1, ORD+1 ), "bases of higher orders extend those of lower orders" );
#elif CASE == 4
  // evaluation and projection with the reference element's quadrature
  unsigned const NM = CE_N_ELEMENT_MODES( EL, ORD );
  static real_base mass[NM*NM];
  // mass matrix: orthogonal basis
  { std::vector< D > px, py, pz, w; D c0[3*8]; for( int d=0; d<3; d++ ) for( int v=0; v<(int)NV; v++ ) c0[d*NV+v] = C_REF_ELEMENT.VE.ENT[EL][d*NV+v];
    dg::QuadraturePoints::getQpts( EL, ORD+1, c0, px, py, pz, w );
    for( unsigned i=0; i<NM; i++ ) for( unsigned j=0; j<NM; j++ ) {
      D s = 0; for( unsigned k=0; k<w.size(); k++ ) s += w[k] * dg::Basis::evalBasis( i, EL, px[k], py[k], pz[k], -1, ORD ) * dg::Basis::evalBasis( j, EL, px[k], py[k], pz[k], -1, ORD );
      if( i == j ) { vp_assert( s > 1e-4, "mass matrix is positive" ); mass[i*NM+j] = s; }
      else { CL( s, 0, "basis is orthogonal" ); mass[i*NM+j] = 0; }
    } }
  pre::dg::g_massRaw = mass;
  dg::Basis b( EL, ORD );
  real_base dofs[NM], out[NM], inv[NM*NM];
  for( unsigned m=0; m<NM; m++ ) dofs[m] = sym( "dof", 1 );
  for( unsigned q = simplex() ? ( EL == TET4 ? ORD+1 : ORD+1 ) : ORD; q<=ORD+1; q++ ) {
    unsigned nq = CE_N_QUAD_POINTS( EL, q );
    std::vector< real_base > ev( nq );
    std::vector< D > q1, q2, q3, qw; D c0[3*8]; for( int d=0; d<3; d++ ) for( int v=0; v<(int)NV; v++ ) c0[d*NV+v] = C_REF_ELEMENT.VE.ENT[EL][d*NV+v];
    dg::QuadraturePoints::getQpts( EL, q, c0, q1, q2, q3, qw );
    for( unsigned i=0; i<nq; i++ ) {
      ev[i] = b.modal2refPtVal( q, i, dofs );
      D s = 0, pt[3] = { q1[i], q2[i], q3[i] };
      for( unsigned m=0; m<NM; m++ ) s += dofs[m] * dg::Basis::evalBasis( m, EL, pt[0], pt[1], pt[2], -1, ORD );
      CL( ev[i], s, "evaluation at the quadrature points" );
    }
    b.qpts2modal( &ev[0], q, out );
    for( unsigned m=0; m<NM; m++ ) CL( out[m], dofs[m], "projection reproduces every polynomial of the basis" );
  }
  real_mesh pt[3] = { 0, 0, 0 }; for( int d=0; d<DIM; d++ ) pt[d] = vp_f64( "pt", 0, 0.25 );
  D s = 0; for( unsigned m=0; m<NM; m++ ) s += dofs[m] * dg::Basis::evalBasis( m, EL, pt[0], pt[1], pt[2], -1, ORD );
  CL( b.modal2ptval( pt, dofs ), s, "evaluation at a point" );
  b.getMassInvDense( NM, inv, true );
  for( unsigned i=0; i<NM; i++ ) for( unsigned j=0; j<NM; j++ ) { D t = 0; for( unsigned k=0; k<NM; k++ ) t += inv[i*NM+k] * mass[k*NM+j]; CL( t, i==j, "inverse mass matrix" ); }
  // face quadrature: points of both sides coincide physically
#if PP_N_DIM > 1
  {
    unsigned const NO = CE_N_FACE_VERTEX_OPTS( EL ), NQ = CE_N_FACE_QUAD_POINTS( EL, ORD );
    static real_mesh fp[(NO+1)*NF][NQ][DIM]; static real_base fw[NQ], fb[(NO+1)*NF][NQ][NM];
    dg::QuadratureEval< EL, ORD, ORD >::faces( fp, fw, fb );
    D sw = 0; for( unsigned i=0; i<NQ; i++ ) sw += fw[i];
    CL( sw, EL == TET4 ? 0.5 : 1, "face weights sum up to the reference face's size" );
    unsigned f = vp_concrete( vp_u64( "face", 0, NF-1 ) ), g = EL == HEX8R ? ( f == 0 ? 5 : f == 5 ? 0 : f == 1 ? 3 : f == 3 ? 1 : f == 2 ? 4 : 2 ) : vp_concrete( vp_u64( "neighFace", 0, NF-1 ) ), o = vp_concrete( vp_u64( "orientation", 0, NO-1 ) );
    int n = C_ENT[EL].N_FACE_VERTICES; D nb[3][8], fv[3][4];
    vertices();
    for( unsigned i=0; i<NQ; i++ ) {
      D x[3], xi[3]; for( int d=0; d<DIM; d++ ) xi[d] = fp[f][i][d]; aff( xi, x );
      D xn[3]; for( int d=0; d<DIM; d++ ) xn[d] = fp[NF+g*NO+o][i][d];
      if( simplex() ) {
        // neighbor with its vertices of face g equal to those of face f: reversed, starting at the orientation
        for( int d=0; d<DIM; d++ ) { for( int v=0; v<(int)NV; v++ ) nb[d][v] = 1+v; for( int k=0; k<n; k++ ) nb[d][FV[TI][g][(o+k)%n]] = ve[d][FV[TI][f][n==2?1-k:(n-k)%n]]; }
        for( int d=0; d<DIM; d++ ) { D s = nb[d][0]; for( int e=0; e<DIM; e++ ) s += xn[e] * ( nb[d][e+1] - nb[d][0] ); CL( s, x[d], "face quadrature points of both elements coincide" ); }
      }
      for( unsigned m=0; m<NM; m++ ) { CL( fb[f][i][m], dg::Basis::evalBasis( m, EL, fp[f][i], -1, ORD ), "basis at the face quadrature points" ); CL( fb[NF+g*NO+o][i][m], dg::Basis::evalBasis( m, EL, fp[NF+g*NO+o][i], -1, ORD ), "basis at the neighboring face quadrature points" ); }
      real_base dq[NM][2], e2[2]; if( i == 0 ) { for( unsigned m=0; m<NM; m++ ) for( int c=0; c<2; c++ ) dq[m][c] = sym( "dq", 1 );
        dg::QuadratureEval< EL, ORD, ORD, 2 >::evalBasis( fb[f][i], dq, e2 );
        for( int c=0; c<2; c++ ) { D t = 0; for( unsigned m=0; m<NM; m++ ) t += dq[m][c] * fb[f][i][m]; CL( e2[c], t, "fused evaluation of the basis" ); } }
    }
  }
#endif
#elif CASE == 5
  // geometry of the solver
  vertices();
  D p[3]; for( int d=0; d<DIM; d++ ) p[d] = sym( "p", 8 );
  D vol = det / ( EL == TET4 ? 6 : EL == TRIA3 ? 2 : 1 );
  if( simplex() ) CL( Geom::volume( EL, raw ), vol, "volume" );
#if EQINS
  unsigned short in = Geom::inside( EL, raw, p );
  // barycentric coordinates
  D xi[3]; Mappings::phyToRef( EL, raw, p, xi );
  bool io = true, oo = false;
  D la = 1; for( int d=0; d<DIM; d++ ) { la -= xi[d]; }
  for( int d=0; d<DIM; d++ ) { D lo = xi[d], hi = simplex() ? 1 : 1 - xi[d]; vp_assume( lo > 0.01 || lo < -0.01 ); vp_assume( hi > 0.01 || hi < -0.01 ); io = io && lo > 0 && hi > 0; oo = oo || lo < 0 || hi < 0; }
  if( simplex() ) { vp_assume( la > 0.01 || la < -0.01 ); io = io && la > 0; oo = oo || la < 0; }
  vp_assert( ( in == 1 ) == io, "points are inside if all barycentric coordinates are positive" );
  vp_assert( ( in == 0 ) == oo, "points are outside if a barycentric coordinate is negative" );
#endif
#endif
  vp_reach( "end" );
}
