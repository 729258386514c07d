// EDGEcut: extrusion of the surface mesh to a closed volume
#include "vp.h"
#include <cmath>
#include <limits>
#include <vector>
#include <string>
#include <tuple>
#include <algorithm>
#include <cstring>
#include <ostream>
#include <sstream>
#define EDGE_CUT_LOGGING_HPP
struct VpNo { template< typename T > VpNo & operator<<( T const & ) { return *this; } };
#define VPC(c) if( !(c) ) vp_check_failed( #c ); else if( false ) VpNo()
#define EDGE_CUT_CHECK(c) VPC( c )
#define EDGE_CUT_CHECK_EQ(a,b) VPC( (a) == (b) )
#define EDGE_CUT_CHECK_NE(a,b) VPC( (a) != (b) )
#define EDGE_CUT_CHECK_LT(a,b) VPC( (a) <  (b) )
#define EDGE_CUT_CHECK_GT(a,b) VPC( (a) >  (b) )
#define EDGE_CUT_CHECK_LE(a,b) VPC( (a) <= (b) )
#define EDGE_CUT_CHECK_GE(a,b) VPC( (a) >= (b) )
#ifndef PP_EDGE_VERSION
#define PP_EDGE_VERSION "v"
#endif
// recording streams: numbers only; "3 " in front of a triangle and " 0\n" behind the sizes are text
namespace std {
struct vp_os {
  vector< double > v;
  vp_os & operator<<( char const * ) { return *this; }
  vp_os & operator<<( string const & ) { return *this; }
  vp_os & operator<<( unsigned long x ) { v.push_back( (double) x ); return *this; }
  vp_os & operator<<( double x ) { v.push_back( x ); return *this; }
  vp_os & operator<<( vp_os const &o ) { for( size_t i=0; i<o.v.size(); i++ ) v.push_back( o.v[i] ); return *this; }
  vp_os const & str() const { return *this; }
};
}
#define ostream vp_os
#define stringstream vp_os
#define ofstream vp_os
#include "mesh/Extrude.cpp"
#undef ostream
#undef stringstream
typedef double D; typedef std::size_t Z;
struct Pt { D x, y, z; };
struct Surf { Z n, t; std::vector< Pt > p; std::vector< Z > i; };
static bool rd( std::vp_os const &o, Surf &s ) {
  if( o.v.size() < 2 ) return false; s.n = vp_concrete( (Z) o.v[0] ); s.t = vp_concrete( (Z) o.v[1] );
  if( o.v.size() != 2 + 3*s.n + 3*s.t ) return false;
  for( Z i=0; i<s.n; i++ ) { Pt p = { o.v[2+3*i], o.v[3+3*i], o.v[4+3*i] }; s.p.push_back( p ); }
  for( Z i=0; i<3*s.t; i++ ) s.i.push_back( vp_concrete( (Z) o.v[2+3*s.n+i] ) );
  return true;
}
extern "C" void vp_entry() {
  // cells of the coarse mesh, spacing of the fine one
  int lev = LEV, ref = 1 << lev; int cx = (int) vp_pick( "cx", CLO, CHI ), cy = (int) vp_pick( "cy", CLO, CHI ), sp = (int) vp_pick( "spacing", 0, 2 );
  Z nx = cx*ref + 1, ny = cy*ref + 1; std::vector< D > xs( nx ), ys( ny );
  xs[0] = -2; for( Z i=1; i<nx; i++ ) xs[i] = xs[i-1] + ( 1 + 0.25 * ( ( i * ( sp + 1 ) ) % 3 ) ) / ref;
  ys[0] =  5; for( Z i=1; i<ny; i++ ) ys[i] = ys[i-1] + ( sp == 2 && (int) i > ref ? 0.5 : 1 + 0.125 * ( ( i * sp ) % 4 ) ) / ref;
  std::vector< D > zs( nx*ny ); D (*crd)[3] = new D[nx*ny][3]; D zt = -3;
  for( Z i=0; i<nx*ny; i++ ) zs[i] = i % 7 == 3 || i == 0 || i+1 == nx*ny || i+1 == ny ? vp_f64( "z", -0.4, 0.4 ) : 0.05 * ( i % 5 );
  // arbitrary order of the vertices
  Z st = ( nx*ny ) % 2 ? 2 : 1, of = vp_pick( "offset", 0, 2 );
  for( Z i=0; i<nx*ny; i++ ) { Z k = ( i*st + of ) % ( nx*ny ); crd[i][0] = xs[k/ny]; crd[i][1] = ys[k%ny]; crd[i][2] = zs[k]; }
  edge_cut::mesh::Extrude ex( nx*ny, crd, zt, (unsigned short) lev );
  std::vp_os o[6]; ex.writeOff( o[0], o[1], o[2], o[3], o[4], o[5] );
  Surf s[6]; for( int k=0; k<6; k++ ) { bool ok = rd( o[k], s[k] ); vp_assert( ok, "numbers of points and triangles match the header" ); if( !ok ) return; }
  // every vertex: position in the grid and depth
  std::vector< Pt > ve; std::vector< Z > id[6]; std::vector< std::vector< Z > > at( nx*ny );
  for( int k=0; k<6; k++ ) for( Z i=0; i<s[k].n; i++ ) {
    Pt p = s[k].p[i]; Z gx = nx, gy = ny; for( Z g=0; g<nx; g++ ) if( vp_concrete( p.x == xs[g] ) ) gx = g; for( Z g=0; g<ny; g++ ) if( vp_concrete( p.y == ys[g] ) ) gy = g;
    bool on = gx < nx && gy < ny; vp_assert( on, "points keep their horizontal position" ); if( !on ) return;
    bool pos = k == 0 ? gx == 0 : k == 1 ? gx+1 == nx : k == 2 ? gy == 0 : k == 3 ? gy+1 == ny : true; vp_assert( pos, "sides are at the boundary of the surface" );
    if( k == 4 ) vp_assert( p.z == zt, "bottom is at the target depth" );
    if( k == 5 ) vp_assert( p.z == zs[gx*ny+gy], "top is the surface" );
    Z v = ve.size(); std::vector< Z > &l = at[gx*ny+gy]; for( Z j=0; j<l.size(); j++ ) if( vp_concrete( std::abs( ve[l[j]].z - p.z ) < 1e-9 ) ) v = l[j];
    if( v == ve.size() ) { ve.push_back( p ); l.push_back( v ); } id[k].push_back( v );
  }
  // distance of the layers
  D dm = 1e9; for( int i=0; i<cx; i++ ) dm = std::min( dm, xs[(i+1)*ref] - xs[i*ref] ); for( int i=0; i<cy; i++ ) dm = std::min( dm, ys[(i+1)*ref] - ys[i*ref] );
  for( int k=0; k<4; k++ ) { Z nc = k < 2 ? cy+1 : cx+1; for( Z i=0; i<s[k].n; i++ ) { if( i >= nc ) { D d = s[k].p[i-nc].z - s[k].p[i].z; vp_assert( d > 0 && d <= dm + 1e-9, "layers are not thicker than the smallest cell of the coarse mesh" ); } if( i + nc >= s[k].n ) vp_assert( std::abs( s[k].p[i].z - zt ) < 1e-9, "sides reach the target depth" ); } }
  // closed and consistently oriented: every edge of a triangle is shared with exactly one other, in opposite direction
  Z nv = ve.size(); std::vector< unsigned char > ed( nv*nv, 0 ); bool in = true, two = true, nd = true; D area = 0; bool up = true, down = true;
  for( int k=0; k<6; k++ ) for( Z t=0; t<s[k].t; t++ ) {
    Z v[3]; for( int j=0; j<3; j++ ) { if( s[k].i[3*t+j] >= s[k].n ) { in = false; v[j] = 0; } else v[j] = id[k][s[k].i[3*t+j]]; }
    nd &= v[0] != v[1] && v[1] != v[2] && v[0] != v[2]; for( int j=0; j<3; j++ ) { unsigned char &e = ed[v[j]*nv+v[(j+1)%3]]; if( e ) two = false; e = 1; }
    if( k >= 4 ) { D a = 0.5 * ( ( ve[v[1]].x-ve[v[0]].x )*( ve[v[2]].y-ve[v[0]].y ) - ( ve[v[2]].x-ve[v[0]].x )*( ve[v[1]].y-ve[v[0]].y ) ); if( k == 5 ) { area += a; up &= a > 0; } else down &= a < 0; }
  }
  vp_assert( in, "triangles refer to existing points" ); vp_assert( nd, "triangles have three different corners" );
  bool cl = true; for( Z a=0; a<nv; a++ ) for( Z b=0; b<nv; b++ ) if( ed[a*nv+b] != ed[b*nv+a] ) cl = false;
  vp_assert( two, "no two triangles share an edge in the same direction" ); vp_assert( cl, "the six surfaces are closed" );
  vp_assert( up && down, "normals of top and bottom point outwards" );
  vp_close( area, ( xs[nx-1]-xs[0] )*( ys[ny-1]-ys[0] ), 1e-9, "triangles of the top cover the surface once" );
  Z used = 0; for( Z a=0; a<nv; a++ ) { bool u = false; for( Z b=0; b<nv; b++ ) u |= ed[a*nv+b]; used += u; }
#if LEV == 0
  vp_assert( used == nv, "every point is used" );
#endif
  vp_reach( "end" );
}
