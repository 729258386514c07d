// edge_v geometry: volumes, centroids, normals, tangents, in-diameters
#include "vp.h"
#include "constants.h"
#include "geom/Generic.cpp"
#include "geom/Line.cpp"
#include "geom/Tria3.cpp"
#include "geom/Quad4r.cpp"
#include "geom/Tet4.cpp"
#include "geom/Hex8r.cpp"
#include "geom/Geom.cpp"
using namespace edge_v;
static double dot( double const *a, double const *b ) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static void sub( double const *a, double const *b, double *c ) { for( int d=0; d<3; d++ ) c[d]=a[d]-b[d]; }
static void cross( double const *a, double const *b, double *c ) { c[0]=a[1]*b[2]-a[2]*b[1]; c[1]=a[2]*b[0]-a[0]*b[2]; c[2]=a[0]*b[1]-a[1]*b[0]; }
static double F( char const *n ) { return vp_f64( n, -4, 4 ); }
// checks n,t0,t1: orthonormal, right-handed, n orthogonal to the face's edges, pointing away from the normal point
static void frame( t_entityType ty, double (*v)[3], int nv, double *np ) {
  double n[3], t[2][3];
  geom::Geom::normal( ty, v, np, n );
  geom::Geom::tangents( ty, v, np, t );
  double e[3], w[3]; sub( np, v[0], w );
  vp_close( dot(n,n), 1, 1e-6, "normal has unit length" );
  vp_close( dot(t[0],t[0]), 1, 1e-6, "first tangent has unit length" );
  vp_close( dot(n,t[0]), 0, 1e-6, "first tangent orthogonal to normal" );
  for( int i=1; i<nv; i++ ) { sub( v[i], v[0], e ); vp_close( dot(n,e), 0, 1e-6, "normal orthogonal to face" ); }
  if( ty != LINE ) {
    vp_close( dot(t[1],t[1]), 1, 1e-6, "second tangent has unit length" );
    vp_close( dot(n,t[1]), 0, 1e-6, "second tangent orthogonal to normal" );
    vp_close( dot(t[0],t[1]), 0, 1e-6, "tangents orthogonal" );
    double c[3]; cross( t[0], t[1], c );
    for( int d=0; d<3; d++ ) vp_close( c[d], n[d], 1e-6, "right-handed face-aligned system" );
  }
  else {
    vp_close( n[0]*t[0][1]-n[1]*t[0][0], 1, 1e-6, "right-handed face-aligned system" );
    for( int d=0; d<3; d++ ) vp_close( t[1][d], 0, 1e-9, "2d: no second tangent" );
  }
  vp_assert( dot(n,w) <= 1e-9, "normal points away from the normal point" );
  vp_reach( "end" );
}
extern "C" void vp_entry() {
#if CASE == 0   // line: length, normal, tangent
  double v[2][3] = { {F("x0"),F("y0"),0}, {F("x1"),F("y1"),0} }, np[3] = {F("px"),F("py"),0};
  double dx=v[1][0]-v[0][0], dy=v[1][1]-v[0][1];
  vp_assume( dx*dx+dy*dy > 0.01 );
  double l = geom::Geom::volume( LINE, v );
  vp_assert( l >= 0, "length non-negative" );
  vp_close( l*l, dx*dx+dy*dy, 1e-6, "length" );
  frame( LINE, v, 2, np );
#elif CASE == 1 || CASE == 2  // tria / quad face in 3d; first vertex translated to the origin (differences only), full symbolic edges
  double a[3] = {F("ax"),F("ay"),F("az")}, b[3] = {F("bx"),F("by"),F("bz")};
  double o[3] = {F("ox"),0,0};
  double v[4][3], np[3] = {F("px"),F("py"),F("pz")};
  for( int d=0; d<3; d++ ) { v[0][d]=o[d]; v[1][d]=o[d]+a[d]; v[2][d]=o[d]+b[d]; v[3][d] = o[d]+a[d]+b[d]; }
  double c[3]; cross( a, b, c );
  vp_assume( dot(c,c) > 0.01 );
  vp_assume( dot(a,a) > 0.01 );
#if CASE == 1
  double l = geom::Geom::volume( TRIA3, v );
  vp_assert( l >= 0, "area non-negative" );
  vp_close( 4*l*l, dot(c,c), 1e-6, "triangle area" );
  frame( TRIA3, v, 3, np );
#else
  // rectangle: edges orthogonal; vertices stored around or in sorted-id order
  double l = geom::Geom::volume( QUAD4R, v );
  vp_close( l*l, dot(c,c), 1e-6, "quad area" );
  frame( QUAD4R, v, 4, np );
#endif
#elif CASE == 3 // tria incircle diameter and area in 2d
  double v[3][3] = { {F("x0"),F("y0"),0}, {F("x1"),F("y1"),0}, {F("x2"),F("y2"),0} };
  double c = (v[1][0]-v[0][0])*(v[2][1]-v[0][1])-(v[1][1]-v[0][1])*(v[2][0]-v[0][0]);
  vp_assume( c > 0.01 || c < -0.01 );
  double ar = geom::Geom::volume( TRIA3, v ), di = geom::Geom::inDiameter( TRIA3, v );
  double p = 0; for( int i=0; i<3; i++ ) p += geom::Line::length( (i<2) ? &v[i] : (double(*)[3]) (double[2][3]) { {v[2][0],v[2][1],0},{v[0][0],v[0][1],0} } );
  vp_close( di * p, 4*ar, 1e-6, "incircle diameter times perimeter is four times the area" );
  vp_reach( "end" );
#elif CASE == 4 // tet volume and in-diameter
  double a[3] = {F("ax"),F("ay"),F("az")}, b[3] = {F("bx"),F("by"),F("bz")}, e[3] = {F("ex"),F("ey"),F("ez")}, o[3] = {F("ox"),F("oy"),F("oz")};
  double v[4][3];
  for( int d=0; d<3; d++ ) { v[0][d]=o[d]; v[1][d]=o[d]+a[d]; v[2][d]=o[d]+b[d]; v[3][d]=o[d]+e[d]; }
  double c[3]; cross( a, b, c ); double dt = dot( c, e );
  vp_assume( dt > 0.01 || dt < -0.01 );
  double vol = geom::Geom::volume( TET4, v );
  vp_close( 6*vol, dt > 0 ? dt : -dt, 1e-6, "tet volume is a sixth of the parallelepiped" );
  vp_reach( "end" );
#elif CASE == 5
  // tet in-diameter, concrete base triangle, free apex
  double v[4][3] = { {0,0,0}, {2,0,0}, {0.5,1.5,0}, {F("x"),F("y"),vp_f64("z",0.5,4)} };
  double vol = geom::Geom::volume( TET4, v ), di = geom::Geom::inDiameter( TET4, v ), s = 0;
  int fa[4][3] = {{0,1,2},{0,1,3},{0,2,3},{1,2,3}};
  for( int f=0; f<4; f++ ) { double w[3][3]; for( int i=0;i<3;i++ ) for( int d=0;d<3;d++ ) w[i][d]=v[fa[f][i]][d]; s += geom::Geom::volume( TRIA3, w ); }
  vp_close( di*s, 6*vol, 1e-6, "insphere diameter times surface is six times the volume" );
  vp_reach( "end" );
#elif CASE == 6
  // axis-aligned quad / hex: volume and in-diameter, vertices in any order
  double x[2],y[2],z[2]; double h[3];
  x[0]=F("x"); y[0]=F("y"); z[0]=F("z"); for( int d=0; d<3; d++ ) h[d]=vp_f64( "h", 0.1, 4 );
  x[1]=x[0]+h[0]; y[1]=y[0]+h[1]; z[1]=z[0]+h[2];
  unsigned r = vp_pick( "rot", 0, 7 );
  double v[8][3]; int c[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}};
  for( int i=0; i<8; i++ ) { int k=i^r; v[i][0]=x[c[k][0]]; v[i][1]=y[c[k][1]]; v[i][2]=z[c[k][2]]; }
  vp_close( geom::Geom::volume( HEX8R, v ), h[0]*h[1]*h[2], 1e-6, "hex volume" );
  double m = h[0] < h[1] ? h[0] : h[1]; if( h[2] < m ) m = h[2];
  vp_close( geom::Geom::inDiameter( HEX8R, v ), m, 1e-6, "hex in-diameter" );
  vp_reach( "end" );
#elif CASE == 7
  double x0=F("x"), y0=F("y"), hx=vp_f64("h",0.1,4), hy=vp_f64("h",0.1,4);
  unsigned r = vp_pick( "rot", 0, 3 ); bool cw = vp_pick( "cw", 0, 1 );
  double w[4][2] = {{x0,y0},{x0+hx,y0},{x0+hx,y0+hy},{x0,y0+hy}}, v[4][3];
  for( int i=0; i<4; i++ ) { int k = cw ? (r+4-i)%4 : (r+i)%4; v[i][0]=w[k][0]; v[i][1]=w[k][1]; v[i][2]=0; }
  double a = geom::Geom::volume( QUAD4R, v );
  vp_close( a*a, hx*hy*hx*hy, 1e-6, "quad area" ); vp_assert( a >= 0, "area non-negative" );
  vp_close( geom::Geom::inDiameter( QUAD4R, v ), hx < hy ? hx : hy, 1e-6, "quad in-diameter" );
  vp_reach( "end" );
#elif CASE == 8
  t_entityType tys[5] = { LINE, QUAD4R, TRIA3, HEX8R, TET4 };
  unsigned i = vp_pick( "type", 0, 4 ); unsigned n = CE_N_VES( tys[i] );
  double v[8][3], cen[3], s[3]={0,0,0};
  for( unsigned k=0; k<n; k++ ) for( int d=0; d<3; d++ ) { v[k][d]=F("v"); s[d]+=v[k][d]; }
  for( int d=0; d<3; d++ ) cen[d] = vp_f64( "before", -10, 10 );
  geom::Geom::centroid( tys[i], v, cen );
  for( int d=0; d<3; d++ ) vp_close( cen[d]*n, s[d], 1e-6, "centroid is the mean of the vertices" );
  vp_reach( "end" );
#elif CASE == 9 || CASE == 10 // vertex/face normalization of triangles (9) and tets (10), free coordinates; input faces in ascending order of their vertices
  const int N = CASE == 9 ? 3 : 4;
  static const int in9[4][3] = {{0,1,9},{0,2,9},{1,2,9},{9,9,9}}, in10[4][3] = {{0,1,2},{0,1,3},{0,2,3},{1,2,3}};
  static const int ref9[4][3] = {{0,1,9},{1,2,9},{2,0,9},{9,9,9}}, ref10[4][3] = {{0,2,1},{0,1,3},{0,3,2},{1,2,3}};
  auto in = CASE == 9 ? in9 : in10; auto ref = CASE == 9 ? ref9 : ref10;
  double v[4][3]; t_idx ve[4], fa[4], el[4];
  for( int i=0; i<N; i++ ) for( int d=0; d<3; d++ ) v[i][d] = CASE == 9 && d == 2 ? 0 : F("v");
  double x[3][3]; for( int i=1; i<N; i++ ) sub( v[i], v[0], x[i-1] );
  double c[3], det;
  if( N == 3 ) det = x[0][0]*x[1][1]-x[0][1]*x[1][0]; else { cross( x[0], x[1], c ); det = dot( c, x[2] ); }
  vp_assume( det > 0.1 || det < -0.1 );
  for( int i=0; i<N; i++ ) { ve[i] = 10*i+5; fa[i] = 100+i; el[i] = 200+i; }
  geom::Geom::normVesFas( CASE == 9 ? TRIA3 : TET4, v, ve, fa, el );
  int lo[4]; bool seen[4] = {};
  for( int i=0; i<N; i++ ) { lo[i] = (ve[i]-5)/10; vp_assert( lo[i] < N && ve[i] == (t_idx) 10*lo[i]+5 && !seen[lo[i]], "vertices are permuted" ); seen[lo[i]] = true; }
  double y[3][3]; for( int i=1; i<N; i++ ) sub( v[lo[i]], v[lo[0]], y[i-1] );
  double d2; if( N == 3 ) d2 = y[0][0]*y[1][1]-y[0][1]*y[1][0]; else { cross( y[0], y[1], c ); d2 = dot( c, y[2] ); }
  vp_assert( d2 > 0, "normalized element is counter-clockwise (right-handed)" );
  for( int f=0; f<N; f++ ) {
    int id = -1;
    for( int g=0; g<N; g++ ) { bool eq = true; for( int i=0; i<N-1; i++ ) { bool h=false; for( int j=0; j<N-1; j++ ) h = h || lo[ref[f][i]] == in[g][j]; eq = eq && h; } if( eq ) id = g; }
    vp_assert( fa[f] == (t_idx) 100+id && el[f] == (t_idx) 200+id, "faces and face-neighbors follow the reference element" );
  }
  vp_reach( "end" );
#elif CASE == 11 // rectangular elements: normalization for any rotation of the input, free extents
  double x0=F("x"), y0=F("y"), z0=F("z"), h[3]; for( int d=0; d<3; d++ ) h[d]=vp_f64("h",0.1,4);
  unsigned r = vp_pick( "rot", 0, 3 );
  double w[4][2] = {{x0,y0},{x0+h[0],y0},{x0+h[0],y0+h[1]},{x0,y0+h[1]}}, v[4][3]; (void) z0;
  // faces 0..3 of the input are given by their vertices in ascending order of the ids
  t_idx ve[4]; for( int i=0; i<4; i++ ) { int k=(r+i)%4; ve[i] = 7+i; v[i][0]=w[k][0]; v[i][1]=w[k][1]; v[i][2]=0; }
  // ascending: (0,1), (0,3), (1,2), (2,3)
  t_idx fa[4] = {100,103,101,102}, el[4] = {200,203,201,202};
  geom::Geom::normVesFas( QUAD4R, v, ve, fa, el );
  for( int i=0; i<4; i++ ) { unsigned k = (i+4-r)%4; vp_assert( ve[i] == 7+k, "vertices start at the lower-left corner, counter-clockwise" );
    vp_assert( fa[i] == 100+k && el[i] == 200+k, "faces and face-neighbors follow the reference element" ); }
  vp_reach( "end" );
#elif CASE == 12 || CASE == 13 // local face and vertex ids in the adjacent tet: any shared face, any vertex order; 13: periodic (matching by coordinates)
  static const int ref[4][3] = {{0,2,1},{0,1,3},{0,3,2},{1,2,3}};
  unsigned fa0 = vp_pick( "fa", 0, 3 ), pm = vp_pick( "perm", 0, 23 );
  t_idx const MX = std::numeric_limits< t_idx >::max();
  t_idx pool[4], ve[8] = {0,1,2,3}; const int off = CASE == 13 ? 5 : 0;
  for( int i=0; i<3; i++ ) pool[i] = ve[ref[fa0][i]] + off;
  pool[3] = CASE == 13 ? 9 : 4;
  { unsigned q = pm; t_idx l[4] = {pool[0],pool[1],pool[2],pool[3]}; int n = 4; for( int i=0; i<4; i++ ) { unsigned k = q % n; q /= n; ve[4+i] = l[k]; for( int j=k; j<n-1; j++ ) l[j] = l[j+1]; n--; } }
  unsigned fa1 = 9; for( unsigned f=0; f<4; f++ ) { bool ok = true; for( int i=0; i<3; i++ ) ok = ok && ve[4+ref[f][i]] != pool[3]; if( ok ) fa1 = f; }
  t_idx ad[8] = {MX,MX,MX,MX,MX,MX,MX,MX}; ad[fa0] = 1; ad[4+fa1] = 0;
  double crd[10][3] = {}; 
#if CASE == 13
  unsigned di = vp_pick( "dir", 0, 2 ); double D = vp_f64( "shift", 2, 4 );
  int n = 0;
  for( int i=0; i<3; i++ ) { t_idx v = ve[ref[fa0][i]]; crd[v][di] = 0; crd[v][(di+1)%3] = F("a"); crd[v][(di+2)%3] = F("b"); for( int d=0; d<3; d++ ) crd[v+5][d] = crd[v][d]; crd[v+5][di] = D; }
  for( int i=0; i<3; i++ ) for( int j=0; j<i; j++ ) { t_idx a = ve[ref[fa0][i]], b = ve[ref[fa0][j]]; double x = crd[a][(di+1)%3]-crd[b][(di+1)%3], y = crd[a][(di+2)%3]-crd[b][(di+2)%3]; vp_assume( x > 0.1 || x < -0.1 || y > 0.1 || y < -0.1 ); }
  // remaining vertices: behind the face of the first tet, between the planes for the second one
  for( int v=0; v<4; v++ ) { bool f = false; for( int i=0; i<3; i++ ) f = f || ve[ref[fa0][i]] == (t_idx) v; if( !f ) { crd[v][di] = 0.5; crd[v][(di+1)%3] = 9; crd[v][(di+2)%3] = 9; } }
  { double w = vp_f64( "w", 0.3, 1.7 ); crd[9][di] = w; crd[9][(di+1)%3] = F("c"); crd[9][(di+2)%3] = F("d"); 
    // no further vertex in one axis-aligned line other than the shift direction
    for( int i=0; i<3; i++ ) { t_idx a = ve[ref[fa0][i]]; (void) a; } }
#endif
  unsigned short fid = 99, vid = 99, fa = fa0; t_idx el = 0;
  geom::Geom::getFaIdsAd( TET4, 1, 0, &el, &fa, ad, &fid );
  vp_assert( fid == fa1, "local face id in the adjacent element" );
  geom::Geom::getVeIdsAd( TET4, 1, 0, &el, &fa, ve, ad, CASE == 13 ? crd : nullptr, &vid );
  vp_assert( vid < 3 && ve[4+ref[fa1][vid]] == ve[ref[fa0][0]] + off, "local vertex id in the adjacent element is the face's first vertex" );
  vp_reach( "end" );
#endif
}
