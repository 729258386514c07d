// geometry of the solver: diameters, tangents, outer normals, sub-faces, rotations, half-spaces and domains
#include "vp.h"
#include <cmath>
#include <limits>
#include <vector>
#include <string>
#include <algorithm>
#include <functional>
#include <iostream>
#include "constants.hpp"
#include "io/logging.h"
#undef EDGE_CHECK
#undef EDGE_CHECK_EQ
#undef EDGE_CHECK_NE
#undef EDGE_CHECK_LT
#undef EDGE_CHECK_LE
#undef EDGE_CHECK_GT
#define EDGE_CHECK(c) if( !(c) ) vp_check_failed( #c ); else if( false ) std::cerr
#define EDGE_CHECK_EQ(a,b) EDGE_CHECK( (a) == (b) )
#define EDGE_CHECK_NE(a,b) EDGE_CHECK( (a) != (b) )
#define EDGE_CHECK_LT(a,b) EDGE_CHECK( (a) < (b) )
#define EDGE_CHECK_LE(a,b) EDGE_CHECK( (a) <= (b) )
#define EDGE_CHECK_GT(a,b) EDGE_CHECK( (a) > (b) )
#include "linalg/Matrix.h"
#include "linalg/Mappings.hpp"
#include "linalg/Geom.hpp"
#include "linalg/HalfSpace.hpp"
#include "linalg/Domain.hpp"
using namespace edge;
using namespace edge::linalg;
typedef double R;
#ifndef SYM
#define SYM 1
#endif
// generic concrete vertices with SYM symbolic coordinates, starting at SOFF
#ifndef SOFF
#define SOFF 0
#endif
static int g_c = 0;
static R co( R v ) { int i = g_c++; if( i >= SOFF && i < SOFF+SYM ) return vp_f64( "x", -4, 4 ); return v; }
static R dot( R const *a, R const *b, int n=3 ) { R s = 0; for( int i=0; i<n; i++ ) s += a[i]*b[i]; return s; }
static R const BASE[4][3] = {{0.25,-0.5,0.75},{1.5,0.25,-0.25},{-0.5,1.25,0.5},{0.5,0.75,2}};
static R p[8][3];
static void verts( int n, int d ) { for( int v=0; v<n; v++ ) for( int i=0; i<3; i++ ) p[v][i] = i < d ? co( BASE[(v+VP_PARAM)%4][i] ) : 0; }
static void soa( int n, int d, R *o ) { for( int i=0; i<d; i++ ) for( int v=0; v<n; v++ ) o[i*n+v] = p[v][i]; }
static void sub( R const *a, R const *b, R *o ) { for( int i=0; i<3; i++ ) o[i] = a[i]-b[i]; }
static void cr( R const *a, R const *b, R *o ) { for( int i=0; i<3; i++ ) o[i] = a[(i+1)%3]*b[(i+2)%3]-a[(i+2)%3]*b[(i+1)%3]; }
static R area2( int a, int b, int c, R *n ) { R e[3], f[3]; sub( p[b], p[a], e ); sub( p[c], p[a], f ); cr( e, f, n ); return dot( n, n ); }
extern "C" void vp_entry() {
  R ve[32], n[3], t0[3], t1[3], e0[3], e1[3], w[3];
#if CASE == 0
  // in-diameter of triangles
  verts( 3, 2 ); soa( 3, 2, ve ); R a4 = area2( 0, 1, 2, n );
  vp_assume( a4 > 0.01 );
  R per = 0; for( int k=0; k<3; k++ ) { sub( p[(k+1)%3], p[k], e0 ); per += std::sqrt( dot( e0, e0 ) ); }
  R ar = n[2] < 0 ? -n[2]/2 : n[2]/2;
  R d = Geom::inDia( TRIA3, ve );
  vp_close( d*per, 4*ar, 1e-6, "in-diameter of a triangle is four times the area over the perimeter" );
  vp_close( Geom::volume( TRIA3, ve ), ar, 1e-6, "area of a triangle" );
#elif CASE == 1
  // in-diameter of tets
  verts( 4, 3 ); soa( 4, 3, ve );
  R s = std::sqrt( area2( 0, 1, 2, n ) )+std::sqrt( area2( 0, 1, 3, t0 ) )+std::sqrt( area2( 0, 2, 3, t1 ) )+std::sqrt( area2( 1, 2, 3, w ) );
  sub( p[3], p[0], e0 ); R v6 = dot( n, e0 ); vp_assume( v6 > 0.01 || v6 < -0.01 ); if( v6 < 0 ) v6 = -v6;
  R d = Geom::inDia( TET4, ve );
  vp_close( d*s, 2*v6, 1e-6, "in-diameter of a tet is six times the volume over the surface" );
  vp_close( Geom::volume( TET4, ve )*6, v6, 1e-6, "volume of a tet" );
#elif CASE == 2
  // tangents and outer normal of a triangle in 3D, volume
  verts( 4, 3 ); soa( 3, 3, ve ); R a4 = area2( 0, 1, 2, w ); sub( p[1], p[0], e0 ); sub( p[2], p[0], e1 );
  vp_assume( a4 > 0.01 ); vp_assume( dot( e0, e0 ) > 0.01 );
  Geom::computeTangents( TRIA3, ve, t0, t1 );
  vp_close( dot( t0, t0 ), 1, 1e-6, "first tangent has length one" ); vp_close( dot( t1, t1 ), 1, 1e-6, "second tangent has length one" );
  vp_close( dot( t0, t1 ), 0, 1e-6, "tangents are orthogonal" ); vp_close( dot( t1, w ), 0, 1e-6, "second tangent is in the plane" );
  R c[3]; cr( t0, e0, c ); for( int i=0; i<3; i++ ) vp_close( c[i], 0, 1e-6, "first tangent is along the first edge" );
  vp_assert( dot( t0, e0 ) > 0 && dot( t1, e1 ) > 0, "tangents point from the first to the other vertices" );
#elif CASE == 3
  verts( 4, 3 ); soa( 3, 3, ve ); R a4 = area2( 0, 1, 2, w ); sub( p[1], p[0], e0 ); sub( p[3], p[0], e1 ); R h = dot( w, e1 );
  vp_assume( a4 > 0.01 && ( h > 0.01 || h < -0.01 ) && dot( e0, e0 ) > 0.01 );
  Geom::computeOutPtNormal( TRIA3, ve, p[3], n );
  R sg = h > 0 ? -1 : 1, l = std::sqrt( a4 );
  for( int i=0; i<3; i++ ) vp_close( n[i]*l, sg*w[i], 1e-5, "outer normal of a triangle" );
  vp_close( Geom::volume( TRIA3, ve, 3 )*2, l, 1e-5, "area of a triangle in 3D" );
#elif CASE == 4
  // lines
  verts( 3, 2 ); p[0][2] = 0.5; p[1][2] = -1; soa( 2, 3, ve ); sub( p[1], p[0], e0 ); R l2 = e0[0]*e0[0]+e0[1]*e0[1]; vp_assume( l2 > 0.01 );
  sub( p[2], p[0], e1 ); R h = e0[0]*e1[1]-e0[1]*e1[0]; vp_assume( h > 0.01 || h < -0.01 );
  Geom::computeTangents( LINE, ve, t0, t1 );
  for( int i=0; i<3; i++ ) { vp_close( t0[i], p[1][i]-p[0][i], 1e-6, "tangent of a line connects its vertices" ); vp_same( t1[i], 0, "lines have a single tangent" ); }
  Geom::computeOutPtNormal( LINE, ve, p[2], n );
  vp_close( n[0]*n[0]+n[1]*n[1], 1, 1e-6, "outer normal of a line has length one" );
  vp_close( n[0]*e0[0]+n[1]*e0[1], 0, 1e-6, "outer normal of a line is orthogonal to it" );
  vp_assert( n[0]*e1[0]+n[1]*e1[1] < 0 && n[2] == 0, "outer normal of a line points away from the given point" );
  R vv = Geom::volume( LINE, ve, 2 ); vp_close( vv*vv, l2, 1e-5, "length of a line" );
#elif CASE == 5
  // additional faces of the tetrahedral sub-grid
  verts( 4, 3 ); soa( 4, 3, ve ); R nn[3]; area2( 0, 1, 2, nn ); sub( p[3], p[0], e0 ); R v6 = dot( nn, e0 ); vp_assume( v6 > 0.05 || v6 < -0.05 );
  R ar = -1; unsigned short ty = TYP; Geom::sfAdd( TET4, ty, ve, n, t0, t1, ar );
  // face vertices
  R f[3][3]; for( int i=0; i<3; i++ ) { f[0][i] = p[1][i]; f[1][i] = ty == 0 ? p[2][i] : p[2][i]+p[1][i]-p[0][i]; f[2][i] = p[2][i]+p[3][i]-p[0][i]; }
  for( int v=0; v<3; v++ ) for( int i=0; i<3; i++ ) ve[v] = 0;
  sub( f[1], f[0], e0 ); sub( f[2], f[0], e1 ); cr( e0, e1, w ); R a4 = dot( w, w ); vp_assume( a4 > 0.01 && dot( e0, e0 ) > 0.01 );
  R q[3]; sub( p[0], f[0], q ); R l = std::sqrt( a4 ), sg = dot( w, q ) > 0 ? -1 : 1;
  for( int i=0; i<3; i++ ) vp_close( n[i]*l, sg*w[i], 1e-5, "sub-face normal points away from the first vertex" );
  vp_close( ar*ar*4, a4, 1e-5, "area of the sub-face" );
  vp_close( dot( t0, t0 ), 1, 1e-6, "first tangent of the sub-face has length one" ); vp_close( dot( t1, t1 ), 1, 1e-6, "second tangent of the sub-face has length one" );
  vp_close( dot( t0, t1 ), 0, 1e-6, "tangents of the sub-face are orthogonal" ); vp_close( dot( t0, w ), 0, 1e-6, "first tangent is in the sub-face" ); vp_close( dot( t1, w ), 0, 1e-6, "second tangent is in the sub-face" );
#elif CASE == 6
  // rotation of one vector to another
  R a[3], b[3], rm[3][3]; for( int i=0; i<3; i++ ) a[i] = co( BASE[1+VP_PARAM%2][i] ); for( int i=0; i<3; i++ ) b[i] = co( BASE[3][i] );
  R la = std::sqrt( dot( a, a ) ), lb = std::sqrt( dot( b, b ) ); vp_assume( la > 0.1 && lb > 0.1 ); R ab = dot( a, b ); vp_assume( ab > -0.9*la*lb );
  GeomTs< 3 >::rotMat( a, b, rm );
  for( int i=0; i<3; i++ ) vp_close( dot( rm[i], a )*lb, b[i]*la, 1e-5, "rotation maps the first to the second direction" );
  for( int i=0; i<3; i++ ) for( int j=0; j<=i; j++ ) vp_close( dot( rm[i], rm[j] ), i == j, 1e-5, "rotation is orthogonal" );
  cr( rm[0], rm[1], w ); for( int i=0; i<3; i++ ) vp_close( w[i], rm[2][i], 1e-5, "rotation keeps the orientation" );
#elif CASE == 7
  // half-spaces and their intersections
  R o[2][3], m[2][3], x[3], l[2]; bool in[2], out[2];
  Domain< R, ND, HalfSpace > dom;
  for( int i=0; i<3; i++ ) x[i] = vp_f64( "pt", -8, 8 );
  R const N[6][3] = {{3,0,0},{-2,0,0},{0,2,0},{3,4,0},{-1,2,2},{2,-6,3}}, L[6] = {3,2,2,5,3,7};
  vp_assert( dom.inside( x ), "everything is inside of an empty domain" );
  unsigned np = vp_pick( "spaces", 1, 2 );
  for( unsigned k=0; k<np; k++ ) {
    unsigned z = vp_pick( "normal", 0, ND == 1 ? 1 : ND == 2 ? 3 : 5 ); l[k] = L[z]; R d = 0;
    for( int i=0; i<ND; i++ ) { o[k][i] = vp_f64( "origin", -4, 4 ); m[k][i] = N[z][i]; d += m[k][i]*( x[i]-o[k][i] ); }
    HalfSpace< R, ND > hs( o[k], m[k] ); in[k] = d >= 0; out[k] = d < -2e-6*l[k];
    R orig[3]; for( int i=0; i<ND; i++ ) orig[i] = o[k][i];
    bool r = hs.inside( x );
    vp_assert( ( !in[k] || r ) && ( !out[k] || !r ), "a point is inside of a half-space if it is on the side of the normal or on the plane" );
    vp_assert( hs.inside( orig ), "the origin is inside of its half-space" );
    bool t = hs.inside( x, R( 0.5 ) ); vp_assert( ( t || !( d > 0.500001*l[k] ) ) && ( !t || !( d < 0.499999*l[k] ) ), "tolerance is the distance to the plane" );
    dom.add( hs );
  }
  bool ai = in[0] && ( np < 2 || in[1] ), ao = out[0] || ( np == 2 && out[1] ), r = dom.inside( x );
  vp_assert( ( !ai || r ) && ( !ao || !r ), "a domain is the intersection of its half-spaces" );
  dom.clear(); vp_assert( dom.inside( x ), "a cleared domain is empty" );
#elif CASE == 8
  R a[3], b[3], s2 = 0, s3 = 0; for( int i=0; i<3; i++ ) { a[i] = vp_f64( "a", -4, 4 ); b[i] = vp_f64( "b", -4, 4 ); }
  vp_close( Geom::sprod1( a, b ), a[0]*b[0], 1e-7, "scalar product" ); vp_close( Geom::sprod2( a, b ), a[0]*b[0]+a[1]*b[1], 1e-7, "scalar product" ); vp_close( Geom::sprod3( a, b ), dot( a, b ), 1e-7, "scalar product" );
  cr( a, b, w ); Geom::cross3( a, b, n ); for( int i=0; i<3; i++ ) vp_close( n[i], w[i], 1e-7, "cross product" );
  R d[3]; sub( a, b, d ); R g = GeomT< 3 >::norm( a, b ); vp_assert( g >= 0, "distances are not negative" ); vp_close( g*g, dot( d, d ), 1e-6, "distance of two points" );
  g = GeomTs< 3 >::norm( a, b ); vp_close( g*g, dot( d, d ), 1e-6, "distance of two points" );
  g = GeomT< 2 >::norm( a, b ); vp_close( g*g, dot( d, d, 2 ), 1e-6, "distance of two points" );
  g = Geom::norm3( a ); vp_assert( g >= 0, "norms are not negative" ); vp_close( g*g, dot( a, a ), 1e-6, "norm of a vector" );
  g = Geom::norm2( a ); vp_close( g*g, dot( a, a, 2 ), 1e-6, "norm of a vector" );
  vp_close( GeomT< 3 >::sprod( a, b ), dot( a, b ), 1e-7, "scalar product" ); g = GeomT< 3 >::normL2( a ); vp_close( g*g, dot( a, a ), 1e-6, "norm of a vector" );
  vp_assume( dot( a, a, 2 ) > 0.01 && a[0] != 0 );
  for( int i=0; i<3; i++ ) n[i] = a[i]; Geom::normalize3( n ); g = Geom::norm3( a ); for( int i=0; i<3; i++ ) vp_close( n[i]*g, a[i], 1e-6, "normalization keeps the direction" );
  for( int i=0; i<3; i++ ) n[i] = a[i]; Geom::normalize2( n ); g = Geom::norm2( a ); for( int i=0; i<2; i++ ) vp_close( n[i]*g, a[i], 1e-6, "normalization keeps the direction" );
  n[0] = a[0]; Geom::normalize1( n ); vp_assert( n[0] == ( a[0] > 0 ? 1 : -1 ), "normalization keeps the direction" );
#endif
  vp_reach( "end" );
}
