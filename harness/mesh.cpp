// edge_v mesh: topology built from element-vertex connectivity (the Gmsh reader is replaced by symbolic connectivity)
#include "vp.h"
#include "constants.h"
#include <tuple>
#include "io/Gmsh.h"
#include "geom/Generic.cpp"
#include "geom/Line.cpp"
#include "geom/Tria3.cpp"
#include "geom/Quad4r.cpp"
#include "geom/Tet4.cpp"
#include "geom/Hex8r.cpp"
#include "geom/Geom.cpp"
#include "mesh/Mesh.cpp"
using namespace edge_v;
static t_idx const MX = std::numeric_limits< t_idx >::max();
#if ELT == 2
#define ELTY QUAD4R
static const int RF[4][4] = {{0,1,9,9},{1,2,9,9},{2,3,9,9},{3,0,9,9}};
#elif ELT == 3
#define ELTY TRIA3
static const int RF[3][4] = {{0,1,9,9},{1,2,9,9},{2,0,9,9}};
#elif ELT == 4
#define ELTY HEX8R
static const int RF[6][4] = {{0,3,2,1},{0,1,5,4},{1,2,6,5},{3,7,6,2},{0,4,7,3},{4,5,6,7}};
#else
#define ELTY TET4
static const int RF[4][4] = {{0,2,1,9},{0,1,3,9},{0,3,2,9},{1,2,3,9}};
#endif
static const int NEV = CE_N_VES( ELTY ), NEF = CE_N_FAS( ELTY ), NFV = CE_N_VES( CE_T_FA( ELTY ) );
static t_idx g_nVes, g_nEls;
static t_idx g_elVe[16*8];
static double g_crd[32][3];
static int g_grs[3]; static t_idx g_nGrs = 0; static t_idx g_grN[3]; static t_idx g_grVe[3][32*4];
io::Gmsh::Gmsh() {}
io::Gmsh::~Gmsh() {}
t_entityType io::Gmsh::getElType() const { return ELTY; }
t_idx io::Gmsh::nVes() const { return g_nVes; }
t_idx io::Gmsh::nEls() const { return g_nEls; }
t_idx io::Gmsh::nPhysicalGroupsFa() const { return g_nGrs; }
int const * io::Gmsh::getPhysicalGroupsFa() const { return g_grs; }
t_idx io::Gmsh::nFas( int g ) const { for( t_idx i=0; i<g_nGrs; i++ ) if( g_grs[i]==g ) return g_grN[i]; return 0; }
void io::Gmsh::getVeCrds( double (*o)[3] ) const { for( t_idx v=0; v<g_nVes; v++ ) for( int d=0; d<3; d++ ) o[v][d]=g_crd[v][d]; }
void io::Gmsh::getElVe( t_idx * o ) const { for( t_idx i=0; i<g_nEls*NEV; i++ ) o[i]=g_elVe[i]; }
void io::Gmsh::getElFaVe( t_idx * o ) const {
  for( t_idx e=0; e<g_nEls; e++ ) for( int f=0; f<NEF; f++ ) for( int v=0; v<NFV; v++ ) o[(e*NEF+f)*NFV+v] = g_elVe[e*NEV+RF[f][v]];
}
void io::Gmsh::getFaVe( int g, t_idx * o ) const { for( t_idx i=0; i<g_nGrs; i++ ) if( g_grs[i]==g ) for( t_idx k=0; k<g_grN[i]*NFV; k++ ) o[k]=g_grVe[i][k]; }

static bool has( t_idx const *a, int n, t_idx x ) { for( int i=0; i<n; i++ ) if( a[i]==x ) return true; return false; }
static bool sameSet( t_idx const *a, t_idx const *b, int n ) { for( int i=0; i<n; i++ ) if( !has(b,n,a[i]) ) return false; return true; }
// face-vertices of an element's input face
static void faVes( t_idx e, int f, t_idx *o ) { for( int v=0; v<NFV; v++ ) o[v] = g_elVe[e*NEV+RF[f][v]]; }

static void checkMesh( mesh::Mesh & m, bool per ) {
  vp_assert( m.nVes() == g_nVes && m.nEls() == g_nEls, "entity counts" );
  t_idx nFa = m.nFas();
  // expected number of distinct faces
  t_idx cnt = 0;
  for( t_idx e=0; e<g_nEls; e++ ) for( int f=0; f<NEF; f++ ) {
    t_idx a[4]; faVes( e, f, a ); bool first = true;
    for( t_idx e2=0; e2<e; e2++ ) for( int f2=0; f2<NEF; f2++ ) { t_idx b[4]; faVes( e2, f2, b ); if( sameSet(a,b,NFV) ) first=false; }
    cnt += first;
  }
  vp_assert( nFa == cnt, "one face per distinct vertex set" );
  for( t_idx f=0; f<nFa; f++ ) {
    t_idx const *fv = m.getFaVe()+f*NFV, *fe = m.getFaEl()+f*2;
    for( int v=0; v<NFV; v++ ) { vp_assert( fv[v] < g_nVes, "face vertex in range" ); if( v ) vp_assert( fv[v-1] < fv[v], "face vertices ascending" ); }
    for( t_idx g=0; g<f; g++ ) vp_assert( !sameSet( fv, m.getFaVe()+g*NFV, NFV ), "no duplicate faces" );
    vp_assert( fe[0] < g_nEls, "face has a first element" );
    for( int v=0; v<NFV; v++ ) vp_assert( has( m.getElVe()+fe[0]*NEV, NEV, fv[v] ), "first element owns the face's vertices" );
    if( fe[1] != MX ) {
      vp_assert( fe[1] < g_nEls, "second element in range" );
      bool own = true; for( int v=0; v<NFV; v++ ) own = own && has( m.getElVe()+fe[1]*NEV, NEV, fv[v] );
      if( !per ) { vp_assert( own && fe[0] < fe[1], "second element owns the face's vertices, elements ascending" ); }
    }
    // sparse type
    t_sparseType ex = 0;
    for( t_idx g=0; g<g_nGrs; g++ ) for( t_idx k=0; k<g_grN[g]; k++ ) if( sameSet( fv, g_grVe[g]+k*NFV, NFV ) ) { ex |= g_grs[g]; break; }
    vp_assert( m.getSpTypeFa()[f] == ex, "face carries exactly the types of its physical groups" );
  }
  for( t_idx e=0; e<g_nEls; e++ ) {
    t_idx const *ev = m.getElVe()+e*NEV, *ef = m.getElFa()+e*NEF, *ee = m.getElFaEl()+e*NEF;
    vp_assert( sameSet( ev, g_elVe+e*NEV, NEV ) && sameSet( g_elVe+e*NEV, ev, NEV ), "element vertices are a permutation of the input" );
    for( int f=0; f<NEF; f++ ) {
      vp_assert( ef[f] < nFa, "element face in range" );
      t_idx a[4]; for( int v=0; v<NFV; v++ ) a[v] = ev[RF[f][v]];
      vp_assert( sameSet( a, m.getFaVe()+ef[f]*NFV, NFV ), "i-th face of the element is the reference element's i-th face" );
      t_idx const *fe = m.getFaEl()+ef[f]*2;
      if( !per ) {
        vp_assert( fe[0] == e || fe[1] == e, "face knows its element" );
        vp_assert( ee[f] == ( fe[0] == e ? fe[1] : fe[0] ), "face neighbor is the other element of the face" );
      }
      // true neighbor by vertex sets
      if( !per ) {
        t_idx nb = MX;
        for( t_idx e2=0; e2<g_nEls; e2++ ) if( e2 != e ) for( int f2=0; f2<NEF; f2++ ) { t_idx b[4]; faVes( e2, f2, b ); if( sameSet(a,b,NFV) ) nb = e2; }
        vp_assert( ee[f] == nb, "face neighbor shares the face" );
      }
      if( ee[f] != MX ) {
        // local ids in the neighbor
        unsigned short fa=f, fid=99, vid=99;
        m.getFaIdsAd( 1, e, new t_idx(0), &fa, &fid );
        vp_assert( fid < NEF && m.getElFaEl()[ee[f]*NEF+fid] == e, "neighbor's local face id points back" );
        if( !per ) vp_assert( m.getElFa()[ee[f]*NEF+fid] == ef[f], "neighbor's local face id is the shared face" );
        if( ELTY == TET4 && !per ) {
          m.getVeIdsAd( 1, e, new t_idx(0), &fa, &vid );
          vp_assert( vid < 3 && m.getElVe()[ee[f]*NEV+RF[fid][vid]] == ev[RF[f][0]], "neighbor's vertex id matches the face's first vertex" );
        }
      }
    }
    double const (*c)[3] = m.getVeCrds();
    double x[3][3]; int o3[3] = {1, ELTY==QUAD4R||ELTY==HEX8R ? 3 : 2, ELTY==HEX8R ? 4 : 3};
    for( int k=0; k<CE_N_DIS(ELTY); k++ ) for( int d=0; d<3; d++ ) x[k][d] = c[ev[o3[k]]][d]-c[ev[0]][d];
    double det = CE_N_DIS(ELTY) == 2 ? x[0][0]*x[1][1]-x[0][1]*x[1][0] :
      x[0][0]*(x[1][1]*x[2][2]-x[1][2]*x[2][1]) - x[0][1]*(x[1][0]*x[2][2]-x[1][2]*x[2][0]) + x[0][2]*(x[1][0]*x[2][1]-x[1][1]*x[2][0]);
    vp_assert( det > 0, "element is stored counter-clockwise (right-handed)" );
    if( ELTY == QUAD4R || ELTY == HEX8R ) {
      // first vertex is the lower-left-front corner, faces axis-aligned
      for( int v=1; v<NEV; v++ ) for( int d=0; d<CE_N_DIS(ELTY); d++ ) vp_assert( c[ev[0]][d] <= c[ev[v]][d], "first vertex is the minimum corner" );
    }
  }
}
extern "C" void vp_entry() {
#if MODE == 0
  // arbitrary conforming connectivity on NV vertices, NE elements
  g_nVes = NV; g_nEls = NE;
#if ELT == 3
  static const double cs[2][5][3] = {{{0,0,0},{3,0.5,0},{1,2,0},{-1,1.5,0},{0.25,-2,0}},{{0,0,0},{1,2,0},{3,0.5,0},{0.25,-2,0},{-1,1.5,0}}};
#else
  static const double cs[2][5][3] = {{{0,0,0},{3,0.5,0.25},{1,2,0.5},{0.5,0.75,3},{-1,-1.5,1.25}},{{0,0,0},{1,2,0.5},{3,0.5,0.25},{-1,-1.5,1.25},{0.5,0.75,3}}};
#endif
  unsigned w = vp_pick( "crds", 0, 1 );
  for( int v=0; v<NV; v++ ) for( int d=0; d<3; d++ ) g_crd[v][d] = cs[w][v][d];
#ifdef SYMCRD
  { unsigned sv = vp_pick( "symv", 0, NV-1 ); g_crd[sv][0]=vp_f64("x",-8,8); g_crd[sv][1]=vp_f64("y",-8,8); if( ELT == 5 ) g_crd[sv][2] = vp_f64("z",-8,8); }
#endif
  for( int e=0; e<NE; e++ ) {
    unsigned mask = vp_pick( "verts", 0, (1u<<NV)-1 ); int n=0; t_idx vs[8];
    for( int v=0; v<NV; v++ ) if( mask>>v & 1 ) { if( n < 8 ) vs[n]=v; n++; }
    vp_assume( n == NEV );
    unsigned r = e < NPERM ? vp_pick( "rot", 0, NEV-1 ) : 0; bool sw = e < NPERM ? vp_pick( "swap", 0, 1 ) : e&1;
    if( sw ) { t_idx t=vs[0]; vs[0]=vs[1]; vs[1]=t; }
    for( int v=0; v<NEV; v++ ) g_elVe[e*NEV+v] = vs[(v+r)%NEV];
    for( int e2=0; e2<e; e2++ ) vp_assume( !sameSet( g_elVe+e*NEV, g_elVe+e2*NEV, NEV ) );
#ifdef SYMCRD
    double x0=g_crd[vs[1]][0]-g_crd[vs[0]][0], y0=g_crd[vs[1]][1]-g_crd[vs[0]][1], x1=g_crd[vs[2]][0]-g_crd[vs[0]][0], y1=g_crd[vs[2]][1]-g_crd[vs[0]][1];
    double dt = x0*y1-x1*y0;
    if( ELT == 5 ) {
      double z0=g_crd[vs[1]][2]-g_crd[vs[0]][2], z1=g_crd[vs[2]][2]-g_crd[vs[0]][2], x2=g_crd[vs[3]][0]-g_crd[vs[0]][0], y2=g_crd[vs[3]][1]-g_crd[vs[0]][1], z2=g_crd[vs[3]][2]-g_crd[vs[0]][2];
      dt = dt*z2 - (x0*z1-x1*z0)*y2 + (y0*z1-y1*z0)*x2;
    }
    vp_assume( dt > 0.1 || dt < -0.1 );
#endif
  }
  // conformity: at most two elements per face
  for( int e=0; e<NE; e++ ) for( int f=0; f<NEF; f++ ) {
    t_idx a[4]; faVes( e, f, a ); int c=0;
    for( int e2=0; e2<NE; e2++ ) for( int f2=0; f2<NEF; f2++ ) { t_idx b[4]; faVes( e2, f2, b ); c += sameSet(a,b,NFV); }
    vp_assume( c <= 2 );
  }
  // physical groups: 101 on up to two faces of the last element (any vertex order), 4 on one face of the first one
#ifdef GROUPS
  g_nGrs = 2; g_grs[0] = 101; g_grs[1] = 4; g_grN[0] = 2; g_grN[1] = 1;
  { unsigned f0 = vp_pick( "gf", 0, NEF-1 ), f1 = (f0+1)%NEF; t_idx a[4];
    faVes( NE-1, f0, a ); for( int v=0; v<NFV; v++ ) g_grVe[0][v] = a[NFV-1-v];
    faVes( NE-1, f1, a ); for( int v=0; v<NFV; v++ ) g_grVe[0][NFV+v] = a[v];
    unsigned f2 = vp_pick( "gf", 0, NEF-1 );
    faVes( 0, f2, a ); for( int v=0; v<NFV; v++ ) g_grVe[1][v] = a[(v+1)%NFV]; }
#endif
  io::Gmsh g; mesh::Mesh m( g );
  checkMesh( m, false );
  vp_reach( "end" );
#elif MODE == 1
  // structured grid of rectangles/hexes (optionally periodic), symbolic spacings, permuted vertex ids and element order
  double h[3][6];
  int n[3] = {NX,NY,NZ};
  for( int d=0; d<CE_N_DIS(ELTY); d++ ) { h[d][0] = vp_f64("o",-3,3); for( int i=0; i<n[d]; i++ ) h[d][i+1] = h[d][i] + vp_f64("h",0.5,3); }
  int dz = CE_N_DIS(ELTY) == 3 ? NZ+1 : 1, ez = CE_N_DIS(ELTY) == 3 ? NZ : 1;
  g_nVes = (NX+1)*(NY+1)*dz; g_nEls = NX*NY*ez;
  // vertex id permutation: affine map, element permutation: rotation
  unsigned mul = vp_pick( "mul", 0, 3 ); t_idx ms[4] = {1, g_nVes-1, 5, 7}; t_idx mu = ms[mul];
  unsigned off = vp_pick( "off", 0, 2 ), eo = vp_pick( "eo", 0, g_nEls-1 );
  auto vid = [&]( int i, int j, int k ) { return ( (i+(NX+1)*(j+(NY+1)*k))*mu+off ) % g_nVes; };
  for( int k=0; k<dz; k++ ) for( int j=0; j<=NY; j++ ) for( int i=0; i<=NX; i++ ) { t_idx v=vid(i,j,k); g_crd[v][0]=h[0][i]; g_crd[v][1]=h[1][j]; g_crd[v][2] = dz > 1 ? h[2][k] : 0; }
  static const int c[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}};
  for( int k=0; k<ez; k++ ) for( int j=0; j<NY; j++ ) for( int i=0; i<NX; i++ ) {
    t_idx e = ( i+NX*(j+NY*k) + eo ) % g_nEls;
    for( int v=0; v<NEV; v++ ) g_elVe[e*NEV+v] = vid(i+c[v][0],j+c[v][1],k+c[v][2]);
  }
  bool per = false;
#ifdef PERIODIC
  per = true; g_nGrs=1; g_grs[0]=106; g_grN[0]=0;
  for( t_idx e=0; e<g_nEls; e++ ) for( int f=0; f<NEF; f++ ) {
    t_idx a[4]; faVes( e, f, a ); int cn=0;
    for( t_idx e2=0; e2<g_nEls; e2++ ) for( int f2=0; f2<NEF; f2++ ) { t_idx b[4]; faVes( e2, f2, b ); cn += sameSet(a,b,NFV); }
    if( cn == 1 ) { for( int v=0; v<NFV; v++ ) g_grVe[0][g_grN[0]*NFV+v]=a[v]; g_grN[0]++; }
  }
  io::Gmsh g; mesh::Mesh m( g, 106 );
#else
  io::Gmsh g; mesh::Mesh m( g );
#endif
  checkMesh( m, per );
#ifdef PERIODIC
  static const int dir2[4][2] = {{0,-1},{1,0},{0,1},{-1,0}};
  static const int dir3[6][3] = {{0,0,-1},{0,-1,0},{1,0,0},{0,1,0},{-1,0,0},{0,0,1}};
  for( int k=0; k<ez; k++ ) for( int j=0; j<NY; j++ ) for( int i=0; i<NX; i++ ) {
    t_idx e = ( i+NX*(j+NY*k) + eo ) % g_nEls;
    for( int f=0; f<NEF; f++ ) {
      int dx = dz > 1 ? dir3[f][0] : dir2[f][0], dy = dz > 1 ? dir3[f][1] : dir2[f][1], dk = dz > 1 ? dir3[f][2] : 0;
      t_idx nb = ( (i+dx+NX)%NX + NX*( (j+dy+NY)%NY + NY*((k+dk+ez)%ez) ) + eo ) % g_nEls;
      vp_assert( m.getElFaEl()[e*NEF+f] == nb, "periodic neighbor is the element on the opposite side" );
      t_idx fa = m.getElFa()[e*NEF+f]; t_idx const *fe = m.getFaEl()+fa*2;
      vp_assert( (fe[0] == e && fe[1] == nb) || (fe[0] == nb && fe[1] == e), "periodic face connects both elements" );
    }
  }
#endif
  // geometry of the faces and elements through the mesh
  double const (*nm)[3] = m.getNormalsFa(); double const (*cen)[3] = m.getCentroidsEl(); double const *vol = m.getVolumesEl();
  for( t_idx f=0; f<m.nFas(); f++ ) {
    t_idx e = m.getFaEl()[f*2];
    double w = 0; for( int d=0; d<3; d++ ) w += nm[f][d] * ( g_crd[m.getFaVe()[f*NFV]][d] - cen[e][d] );
    vp_assert( w > 0, "face normal points out of the first element" );
  }
  double tot = 0; for( t_idx e=0; e<g_nEls; e++ ) tot += vol[e];
  double ex = 1; for( int d=0; d<CE_N_DIS(ELTY); d++ ) ex *= h[d][n[d]]-h[d][0];
  (void) tot; (void) ex;
  vp_reach( "end" );
#endif
}
