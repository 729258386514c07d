// initial DOFs and error norms
#include "vp.h"
#include <cmath>
#include <limits>
#include <vector>
#include <array>
#include <string>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <functional>
#include <iostream>
#include "constants.hpp"
#include "io/logging.h"
#undef EDGE_CHECK
#undef EDGE_CHECK_EQ
#undef EDGE_CHECK_NE
#undef EDGE_CHECK_LT
#undef EDGE_CHECK_LE
#undef EDGE_CHECK_GT
#undef EDGE_CHECK_GE
#define EDGE_CHECK(c) if( !(c) ) vp_check_failed( #c ); else if( false ) std::cerr
#define EDGE_CHECK_EQ(a,b) EDGE_CHECK( (a) == (b) )
#define EDGE_CHECK_NE(a,b) EDGE_CHECK( (a) != (b) )
#define EDGE_CHECK_LT(a,b) EDGE_CHECK( (a) < (b) )
#define EDGE_CHECK_LE(a,b) EDGE_CHECK( (a) <= (b) )
#define EDGE_CHECK_GT(a,b) EDGE_CHECK( (a) > (b) )
#define EDGE_CHECK_GE(a,b) EDGE_CHECK( (a) >= (b) )
#include "submodules/FastGL/fastgl.cpp"
#include "dg/Basis.h"
#include "dg/QuadraturePoints.h"
#define ORD ORDER
#define NM CE_N_ELEMENT_MODES( T_SDISC.ELEMENT, ORD )
namespace edge { namespace pre { namespace dg {
double const *g_massRaw;
extern std::size_t const g_massSize;
std::size_t const g_massSize = NM*NM;
} } }
#include "dg/Basis.cpp"
#include "setups/InitialDofs.hpp"
using namespace edge;
#define EL T_SDISC.ELEMENT
#define DIM PP_N_DIM
#define NV C_ENT[EL].N_VERTICES
#ifndef NQ
#define NQ 2
#endif
#define NC N_CRUNS
#define NE 3
typedef double D;
#define CL(a,b,l) vp_close( (a), (b), 1e-9, l )
static double sym( char const *n, double b = 1 ) { return vp_f64( n, -b, b ); }
static bool simplex() { return EL == TRIA3 || EL == TET4; }
#define TI (EL==LINE?0:EL==QUAD4R?1:EL==TRIA3?2:EL==HEX8R?3:4)
static int const RV[5][3][8] = { { {0,1}, {}, {} }, { {0,1,1,0}, {0,0,1,1}, {} }, { {0,1,0}, {0,0,1}, {} }, { {0,1,1,0,0,1,1,0}, {0,0,1,1,0,0,1,1}, {0,0,0,0,1,1,1,1} }, { {0,1,0,0}, {0,0,1,0}, {0,0,0,1} } };
// polynomials of degree below the order: monomials with exponents ex
static int ex[32][3], nMono;
static D co[NC][NQ][32];
static bool unset[NC][NQ];
static D pw( D x, int n ) { D r = 1; for( int i=0; i<n; i++ ) r *= x; return r; }
static D poly( int c, int q, D const *x ) { D s = 0; for( int m=0; m<nMono; m++ ) { D t = co[c][q][m]; for( int d=0; d<DIM; d++ ) t *= pw( x[d], ex[m][d] ); s += t; } return s; }
template<> void vp_expr< double >( int i, double *c[3], double *q, std::size_t n ) {
  vp_assert( i >= 0 && i < NC, "expression of a fused simulation" );
  vp_assert( n == NQ && q, "all quantities are bound" );
  D x[3] = {0,0,0};
  for( int d=0; d<3; d++ ) { vp_assert( ( c[d] != 0 ) == ( d < DIM ), "all coordinates are bound" ); if( d < DIM ) x[d] = *c[d]; }
  for( int k=0; k<NQ; k++ ) if( !unset[i][k] ) q[k] = poly( i, k, x );
}
struct VeChars { D coords[3]; };
struct ElChars { int_spType spType; };
static VeChars ve[NE*8];
static std::size_t elVe[NE][8 < NV ? 8 : NV];
static void aff( int e, D const *xi, D *x ) {
  for( int d=0; d<DIM; d++ ) { D o = ve[elVe[e][0]].coords[d]; x[d] = o; for( int k=0; k<DIM; k++ ) { int v = simplex() ? k+1 : k == 0 ? 1 : k == 1 ? 3 : 4; x[d] += xi[k] * ( ve[elVe[e][v]].coords[d] - o ); } }
}
static D fac( int n ) { D r = 1; for( int i=2; i<=n; i++ ) r *= i; return r; }
static D mono( int a, int b, int c ) { return EL == TRIA3 ? fac(a)*fac(b)/fac(a+b+2) : EL == TET4 ? fac(a)*fac(b)*fac(c)/fac(a+b+c+3) : D(1)/((a+1)*(DIM>1?b+1:1)*(DIM>2?c+1:1)); }
template<> void vp_expr< float >( int, float *[3], float *, std::size_t ) { vp_assert( false, "single precision expression" ); }
#include "data/Expression.cpp"
extern "C" void vp_entry() {
  // geometry: affine elements sharing vertices in a rotated numbering
  static D const off[NE][3] = { {0,0,0}, {2,-1,1}, {-1,1,-2} };
  static D const tr[3][3] = { {1,0.5,-0.25}, {-0.5,1,0.25}, {0.25,-0.5,0.5} };
  for( int e=0; e<NE; e++ ) for( int v=0; v<(int)NV; v++ ) {
    std::size_t id = ((e*5+v*3) % (NE*NV) + NE*NV) % (NE*NV);
    // unique ids
    id = (std::size_t) ( (NE-1-e) * NV + ( v + e ) % NV );
    elVe[e][v] = id;
    for( int d=0; d<DIM; d++ ) {
      D x = off[e][d];
      for( int k=0; k<DIM; k++ ) x += ( simplex() ? tr[d][k] : d == k ? 0.5 + 0.25*d : 0 ) * (e+1)/2.0 * RV[TI][k][v];
      ve[id].coords[d] = x;
    }
  }
#ifdef SYMG
  { D o = vp_f64( "shift", -2, 2 ); for( int v=0; v<(int)NV; v++ ) ve[elVe[1][v]].coords[0] += o; }
#endif
  int deg = simplex() ? ORD-1 : ORD-1;
  for( int a=0; a<=deg; a++ ) for( int b=0; b<=(DIM>1?deg:0); b++ ) for( int c=0; c<=(DIM>2?deg:0); c++ ) if( !simplex() || a+b+c <= deg ) { ex[nMono][0] = a; ex[nMono][1] = b; ex[nMono][2] = c; nMono++; }
  for( int c=0; c<NC; c++ ) for( int q=0; q<NQ; q++ ) for( int m=0; m<nMono; m++ ) co[c][q][m] = sym( "co" );
  // mass matrix of the basis
  static real_base mass[NM*NM];
  std::vector< D > px, py, pz, w; D c0[3*8]; for( int d=0; d<3; d++ ) for( int v=0; v<(int)NV; v++ ) c0[d*NV+v] = C_REF_ELEMENT.VE.ENT[EL][d*NV+v];
  dg::QuadraturePoints::getQpts( EL, ORD+1, c0, px, py, pz, w );
  for( unsigned i=0; i<NM; i++ ) { D s = 0; for( unsigned k=0; k<w.size(); k++ ) { D p = dg::Basis::evalBasis( i, EL, px[k], py[k], pz[k], -1, ORD ); s += w[k] * p * p; } mass[i*NM+i] = s; }
  pre::dg::g_massRaw = mass;
  dg::Basis b( EL, ORD );
  std::string ex_[NC]; for( int c=0; c<NC; c++ ) { ex_[c] = "E0"; ex_[c][1] = '0' + c; }
  typedef setups::InitialDofs< EL, ORD, NQ, NC > I;
  static D dofs[NE][NQ][NM][NC];
  std::size_t first = vp_u64( "first", 0, NE ), size = vp_u64( "size", 0, NE );
  vp_assume( first + size <= NE );
  first = vp_concrete( first ); size = vp_concrete( size );
#if CASE == 0
  static D old[NE][NQ][NM][NC];
  for( int e=0; e<NE; e++ ) for( int q=0; q<NQ; q++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<NC; c++ ) { D t = vp_f64( "old", -1, 1 ); dofs[e][q][m][c] = old[e][q][m][c] = t; }
  int u = vp_pick( "unset", 0, NC*NQ );
  for( int c=0; c<NC; c++ ) for( int q=0; q<NQ; q++ ) unset[c][q] = u == c*NQ+q;
  if( u == 1 ) { ex_[0] = ""; for( int q=0; q<NQ; q++ ) unset[0][q] = true; }
  I::dg( first, size, ex_, b, elVe, ve, dofs );
  for( std::size_t e=0; e<NE; e++ ) {
    if( e < first || e >= first+size ) { for( int q=0; q<NQ; q++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<NC; c++ ) vp_assert( dofs[e][q][m][c] == old[e][q][m][c], "other elements keep their DOFs" ); continue; }
    // unisolvent lattice
    for( int i=0; i<=deg; i++ ) for( int j=0; j<=(DIM>1?deg:0); j++ ) for( int k=0; k<=(DIM>2?deg:0); k++ ) {
      if( simplex() && i+j+k > deg ) continue;
      D h = 0.75/deg, xi[3] = { 0.125+h*i, DIM > 1 ? 0.0625+h*j : 0, DIM > 2 ? 0.03125+h*k : 0 }, x[3];
      aff( (int)e, xi, x );
      for( int c=0; c<NC; c++ ) for( int q=0; q<NQ; q++ ) {
        D s = 0; for( unsigned m=0; m<NM; m++ ) s += dofs[e][q][m][c] * dg::Basis::evalBasis( m, EL, xi[0], xi[1], xi[2], -1, ORD );
        CL( s, unset[c][q] ? 0 : poly( c, q, x ), "initial DOFs represent the given function" );
      }
    }
  }
#else
  // error norms: the numerical solution is the projection of a second set of polynomials given in reference coordinates
  static D nu[NE][NQ][NC][32];
  for( int e=0; e<NE; e++ ) for( int q=0; q<NQ; q++ ) for( int c=0; c<NC; c++ ) for( unsigned m=0; m<NM; m++ ) dofs[e][q][m][c] = sym( "dof" );
#ifdef DEFINITE
  // differences of constant sign (linear functions: at the vertices), one to two elements
  vp_assume( size <= 1 || ( first == 0 && size == 2 ) );
  for( std::size_t e=first; e<first+size; e++ ) for( int v=0; v<(int)NV; v++ ) {
    D xi[3] = {0,0,0}, x[3]; for( int d=0; d<DIM; d++ ) xi[d] = RV[TI][d][v]; aff( (int)e, xi, x );
    for( int q=0; q<NQ; q++ ) for( int c=0; c<NC; c++ ) { D d = -poly( c, q, x ); for( unsigned m=0; m<NM; m++ ) d += dofs[e][q][m][c] * dg::Basis::evalBasis( m, EL, xi[0], xi[1], xi[2], -1, ORD ); vp_assume( e % 2 ? d < -0.001 : d > 0.001 ); }
  }
#endif
  double l1[NQ][NC], l2[NQ][NC], li[NQ][NC];
  ElChars ec[NE];
  I::err( first, size, ex_, b, elVe, ve, ec, dofs, l1, l2, li );
  for( int q=0; q<NQ; q++ ) for( int c=0; c<NC; c++ ) {
    D s2 = 0, s1 = 0, mx = 0; bool above = size > 0;
    for( std::size_t e=first; e<first+size; e++ ) {
      D det = 1; { D o[3] = {0,0,0}, p[3][3], xo[3]; aff( (int)e, o, xo ); for( int d=0; d<DIM; d++ ) { D u[3] = {0,0,0}; u[d] = 1; aff( (int)e, u, p[d] ); for( int k=0; k<DIM; k++ ) p[d][k] -= xo[k]; }
        det = DIM == 1 ? p[0][0] : DIM == 2 ? p[0][0]*p[1][1]-p[0][1]*p[1][0] : p[0][0]*(p[1][1]*p[2][2]-p[1][2]*p[2][1]) - p[0][1]*(p[1][0]*p[2][2]-p[1][2]*p[2][0]) + p[0][2]*(p[1][0]*p[2][1]-p[1][1]*p[2][0]); }
      vp_assert( det > 0, "orientation of the mesh" );
      // difference at the quadrature points of the reference element
      for( unsigned k=0; k<w.size(); k++ ) {
        D xi[3] = { px[k], DIM > 1 ? py[k] : 0, DIM > 2 ? pz[k] : 0 }, x[3]; aff( (int)e, xi, x );
        D d = -poly( c, q, x ); for( unsigned m=0; m<NM; m++ ) d += dofs[e][q][m][c] * dg::Basis::evalBasis( m, EL, xi[0], xi[1], xi[2], -1, ORD );
#ifdef DEFINITE
        D a = e % 2 ? -d : d;
        if( EL != TET4 ) vp_assert( a <= li[q][c] + 1e-9, "Linf error bounds the difference" );
#else
        D a = d < 0 ? -d : d;
        if( a > mx ) mx = a;
#endif
        s2 += w[k] * det * d * d; s1 += w[k] * det * a;
      }
#ifdef DEFINITE
      for( int v=0; v<(int)NV; v++ ) { D xi[3] = {0,0,0}, x[3]; for( int d=0; d<DIM; d++ ) xi[d] = RV[TI][d][v]; aff( (int)e, xi, x );
        D d = -poly( c, q, x ); for( unsigned m=0; m<NM; m++ ) d += dofs[e][q][m][c] * dg::Basis::evalBasis( m, EL, xi[0], xi[1], xi[2], -1, ORD ); if( e % 2 ) d = -d; above = above && d < li[q][c] - 1e-9; }
#endif
    }
    CL( l2[q][c], s2, "squared L2 error" );
    CL( l1[q][c], s1, "L1 error" );
#ifdef DEFINITE
    if( EL != TET4 ) vp_assert( !above, "Linf error is not above the difference" );
    if( size == 0 ) CL( li[q][c], 0, "Linf error" );
#else
    CL( li[q][c], mx, "Linf error" );
#endif
  }
#endif
  vp_reach( "end" );
}
