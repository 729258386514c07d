// sparse entities and data layouts
#include "vp.h"
#include "constants.hpp"
#include "data/SparseEntities.hpp"
#include "data/DataLayout.hpp"
#include "data/Dynamic.h"
#include "data/Dynamic.cpp"
#include "data/EntityLayout.cpp"
using namespace edge;
typedef data::SparseEntities SE;
struct Ch { unsigned spType; };
typedef int_el L;
static const L X = std::numeric_limits< L >::max();
#ifndef N
#define N 4
#endif
#ifndef K
#define K 2
#endif
static void types( Ch *c, int n ) { for( int i=0; i<n; i++ ) c[i].spType = vp_u64( "sp", 0, 7 ); }
extern "C" void vp_entry() {
#if CASE == 0
  Ch c[N], d[N]; types( c, N ); unsigned t = vp_u64( "type", 0, 7 ), u = vp_u64( "type1", 0, 7 );
  bool m[N], w[N]; L cnt = 0; L pre[N+1]; pre[0] = 0;
  for( int i=0; i<N; i++ ) { m[i] = ( c[i].spType & t ) == t; w[i] = ( c[i].spType & u ) == u; if( m[i] ) cnt++; pre[i+1] = cnt; }
  L n = SE::nSp( L(N), t, c );
  vp_assert( n == cnt, "number of sparse entities" );
  // any split in regions: inner tg0, tg1, send tg0, tg1
  std::size_t s[4], r[4]; std::size_t left = N;
  for( int i=0; i<3; i++ ) { s[i] = vp_pick( "size", 0, N ); vp_assume( s[i] <= left ); left -= s[i]; }
  s[3] = left;
  SE::denseToSparse( 2, t, c, s, s+2, r, r+2 );
  std::size_t f = 0;
  for( int i=0; i<4; i++ ) { vp_assert( r[i] == (std::size_t) (pre[f+s[i]]-pre[f]), "sparse entities per time region" ); f += s[i]; }
  L ss[3] = { (L) s[1], (L) s[2], (L) s[3] }, fi[3], sz[3];
  SE::subRgnsSpId( (L) s[0], 3u, ss, t, c, fi, sz );
  f = s[0];
  for( int i=0; i<3; i++ ) { vp_assert( fi[i] == pre[f] && sz[i] == pre[f+ss[i]]-pre[f], "first sparse id and size of the sub-regions" ); f += ss[i]; }
  vp_reach( "end" );
#elif CASE == 1
  Ch c[N], d[N]; types( c, N ); unsigned t = vp_u64( "type", 0, 7 ), u = vp_u64( "type1", 0, 7 );
  bool m[N], w[N]; for( int i=0; i<N; i++ ) { m[i] = ( c[i].spType & t ) == t; w[i] = ( c[i].spType & u ) == u; d[i] = c[i]; }
  L de[N+1], sp[N+1]; for( int i=0; i<=N; i++ ) de[i] = sp[i] = 77;
  SE::linkSpDe( L(N), t, c, de ); SE::linkSpSp( L(N), t, u, c, sp );
  L a=0, b=0;
  for( int i=0; i<N; i++ ) {
    if( m[i] ) { vp_assert( de[a] == i, "sparse entity links to its dense entity" ); vp_assert( sp[a] == ( w[i] ? b : X ), "sparse entity links to its id in the other sparse type" ); a++; }
    if( w[i] ) b++;
  }
  vp_assert( de[a] == 77 && sp[a] == 77, "no entries beyond the sparse entities" );
  SE::inherit( L(N), t, u, d );
  for( int i=0; i<N; i++ ) vp_assert( d[i].spType == ( m[i] ? c[i].spType | u : c[i].spType ), "inherit sets exactly the child type of the parent's entities" );
  vp_reach( "end" );
#elif CASE == 2
  // propagation through adjacency: N from-entities, K adjacent ids each in [0,3) or undefined
  const int M = 3;
  Ch c[N], d[M], e[M], g[M]; types( c, N ); types( d, M ); for( int i=0; i<M; i++ ) e[i] = g[i] = d[i];
  unsigned t = vp_u64( "type", 0, 7 ), u = vp_u64( "type1", 0, 7 );
  L ad[N*K], raw[N*K]; L *ptr[N+1]; int n = 0;
  for( int i=0; i<N; i++ ) { ptr[i] = raw+n; for( int j=0; j<K; j++ ) { L x = vp_pick( "ad", 0, M ); ad[i*K+j] = x == M ? X : x; if( x != M ) raw[n++] = x; } }
  ptr[N] = raw+n;
  SE::propAdj( L(N), (unsigned short) K, ad, t, u, c, e );
  SE::propAdj( L(N), ptr, t, u, c, g );
  for( int x=0; x<M; x++ ) {
    bool h = false; for( int i=0; i<N; i++ ) for( int j=0; j<K; j++ ) if( ad[i*K+j] == x && ( c[i].spType & t ) == t ) h = true;
    vp_assert( e[x].spType == ( h ? d[x].spType | u : d[x].spType ), "propagation (flat) reaches exactly the adjacent entities of the sparse ones" );
    vp_assert( g[x].spType == ( h ? d[x].spType | u : d[x].spType ), "propagation (dynamic) reaches exactly the adjacent entities of the sparse ones" );
  }
  vp_reach( "end" );
#elif CASE == 3
  const int M = 3;
  Ch c[N], d[M]; types( d, M ); types( c, N ); unsigned t = vp_u64( "type", 0, 7 ), u = vp_u64( "type1", 0, 7 );
  L ad[N*K], raw[N*K]; L *ptr[N+1]; int n = 0;
  for( int i=0; i<N; i++ ) { ptr[i] = raw+n; for( int j=0; j<K; j++ ) { L x = vp_pick( "ad", 0, M ); ad[i*K+j] = x == M ? X : x; if( x != M ) raw[n++] = x; } }
  ptr[N] = raw+n;
  L id[M], q = 0; for( int x=0; x<M; x++ ) id[x] = ( d[x].spType & u ) == u ? q++ : X;
  L o[N*K+1]; for( int i=0; i<=N*K; i++ ) o[i] = 77;
#if SUB == 0
  // single sparse type
  SE::linkSpAdjSst( L(N), (unsigned short) K, ad, u, d, o );
  L s = 0;
  for( int i=0; i<N; i++ ) {
    bool h = false; for( int j=0; j<K; j++ ) if( ad[i*K+j] != X && id[ad[i*K+j]] != X ) h = true;
    if( h ) { for( int j=0; j<K; j++ ) vp_assert( o[s*K+j] == ( ad[i*K+j] == X ? X : id[ad[i*K+j]] ), "links of entities with sparse neighbours" ); s++; }
  }
  vp_assert( s == N || o[s*K] == 77, "no links beyond" );
#elif SUB == 1
  SE::linkSpAdjDst( L(N), (unsigned short) K, ad, t, u, c, d, o );
  L s = 0;
  for( int i=0; i<N; i++ ) if( ( c[i].spType & t ) == t ) { for( int j=0; j<K; j++ ) vp_assert( o[s*K+j] == ( ad[i*K+j] == X ? X : id[ad[i*K+j]] ), "links of sparse from-entities" ); s++; }
  vp_assert( s == N || o[s*K] == 77, "no links beyond" );
#else
  L nr, np; L *op[N+2]; for( int i=0; i<N+2; i++ ) op[i] = nullptr;
  SE::nLinkSpAdjDst( L(N), ptr, t, u, c, d, nr, np );
  SE::linkSpAdjDst( L(N), ptr, t, u, c, d, o, op );
  L s = 0, r = 0;
  for( int i=0; i<N; i++ ) if( ( c[i].spType & t ) == t ) {
    vp_assert( op[s] == o+r, "pointers (dynamic)" );
    for( L *p=ptr[i]; p<ptr[i+1]; p++ ) if( id[*p] != X ) { vp_assert( o[r] == id[*p], "links (dynamic)" ); r++; }
    s++;
  }
  vp_assert( op[s] == o+r && nr == r && np == s && o[r] == 77, "sizes and ghost entry (dynamic)" );
#endif
  vp_reach( "end" );
#elif CASE == 4
  // sizesToLayout: regions partition the entities
  const int T = 2; t_enLayout l; l.timeGroups.resize( T ); l.nEnts = 55;
  std::size_t ns[T];
  for( int g=0; g<T; g++ ) {
    ns[g] = vp_pick( "regions", 0, 2 ); l.timeGroups[g].send.resize( ns[g] ); l.timeGroups[g].receive.resize( ns[g] );
    l.timeGroups[g].inner.size = vp_u64( "inner", 0, 1000000 ); l.timeGroups[g].inner.first = 99; l.timeGroups[g].nEntsOwn = 9; l.timeGroups[g].nEntsNotOwn = 9;
    for( unsigned r=0; r<ns[g]; r++ ) { l.timeGroups[g].send[r].size = vp_u64( "send", 0, 1000000 ); l.timeGroups[g].receive[r].size = vp_u64( "recv", 0, 1000000 ); l.timeGroups[g].send[r].first = 7; }
  }
  data::EntityLayout::sizesToLayout( l );
  L o = 0;
  for( int g=0; g<T; g++ ) { vp_assert( l.timeGroups[g].inner.first == o, "inner regions follow each other" ); o += l.timeGroups[g].inner.size; }
  for( int g=0; g<T; g++ ) {
    L own = l.timeGroups[g].inner.size;
    for( unsigned r=0; r<ns[g]; r++ ) { vp_assert( l.timeGroups[g].send[r].first == o, "send regions follow the inner regions" ); o += l.timeGroups[g].send[r].size; own += l.timeGroups[g].send[r].size; }
    vp_assert( l.timeGroups[g].nEntsOwn == own, "number of owned entities" );
  }
  vp_assert( l.nEnts == o, "number of entities" );
  vp_reach( "end" );
#elif CASE == 5
  // flexible data: disjoint, complete, in documented order
  Ch c[N]; types( c, N ); unsigned ty[2] = { (unsigned) vp_u64( "type", 0, 7 ), (unsigned) vp_u64( "type1", 0, 7 ) };
  std::size_t b = vp_pick( "base", 0, 2 ), sz[2] = { vp_pick( "size", 0, 2 ), vp_pick( "size", 0, 2 ) };
  data::Dynamic mem;
  double **p = mem.flex< double >( L(N), 2, b, ty, sz, c );
  double *x = p[0];
  for( int i=0; i<N; i++ ) { vp_assert( p[i] == x, "base data" ); x += b; }
  for( int s=0; s<2; s++ ) for( int i=0; i<N; i++ ) {
    bool m = ( c[i].spType & ty[s] ) == ty[s];
    vp_assert( p[N*(s+1)+i] == ( m ? x : nullptr ), "data of the sparse types" );
    if( m ) x += sz[s];
  }
  vp_assert( p[3*N] == x, "ghost pointer" );
  for( double *y = p[0]; y < x; y++ ) *y = 1; // all of it has been allocated
  vp_reach( "end" );
#elif CASE == 6
  // adjacency dependent data: 2 inner, 1+1 send (two regions), 1+1 receive; chain with any sparse flags
  const int A = 2; t_enLayout l; l.timeGroups.resize( 1 ); t_timeGroup &g = l.timeGroups[0];
  L nIn = NIN, s0 = vp_pick( "send", 1, SMAX ), s1 = NS1, r0 = vp_pick( "recv", 1, SMAX ), r1 = NR1;
  g.inner.first = 0; g.inner.size = nIn; g.send.resize( 2 ); g.receive.resize( 2 );
  g.send[0].first = nIn; g.send[0].size = s0; g.send[1].first = nIn+s0; g.send[1].size = s1;
  g.receive[0].first = nIn+s0+s1; g.receive[0].size = r0; g.receive[1].first = nIn+s0+s1+r0; g.receive[1].size = r1;
  g.nEntsOwn = nIn+s0+s1; g.nEntsNotOwn = r0+r1; l.nEnts = g.nEntsOwn+g.nEntsNotOwn;
  bool use = USE;
  const int E = 9; L n = l.nEnts; L ad[E*A]; L sp[E];
  for( L i=0; i<n; i++ ) {
    sp[i] = use && vp_bool( "sparse" ) ? i : X;
    for( int a=0; a<A; a++ ) {
      // inner entities are adjacent to owned ones, receive entities to send entities, send entities to anything
      L lo = 0, hi = n; if( i < nIn ) hi = g.nEntsOwn; if( i >= g.nEntsOwn ) { lo = nIn; hi = g.nEntsOwn; }
      if( a == 0 ) { L x = vp_pick( "ad", lo, hi ); ad[i*A+a] = x == hi ? X : x; }
      else ad[i*A+a] = i >= g.nEntsOwn ? X : ( i+1 < hi ? i+1 : X );
    }
  }
  double raw[E*A+1]; double *p[E][A]; std::vector< std::vector< unsigned char * > > se, re;
  data::DataLayout::adj( (unsigned short) A, ad, l, raw, p, se, re, use ? sp : nullptr );
  // oracle: inner, remaining send, send per region, receive per region
  double *x = raw; vp_assert( se.size() == 1 && re.size() == 1 && se[0].size() == 3 && re[0].size() == 3, "communication pointers per region plus ghost" );
#define WANT(i,a) ( ad[(i)*A+(a)] != X && !( use && sp[i] == X && sp[ad[(i)*A+(a)]] == X ) )
  for( L i=0; i<nIn; i++ ) for( int a=0; a<A; a++ ) { if( WANT(i,a) ) { vp_assert( p[i][a] == x, "inner data" ); x++; } else vp_assert( p[i][a] == nullptr, "no data without (sparse) adjacency" ); }
  for( int ps=0; ps<2; ps++ ) for( int r=0; r<2; r++ ) {
    if( ps ) vp_assert( se[0][r] == (unsigned char *) x, "start of the send data" );
    for( L i=g.send[r].first; i<g.send[r].first+g.send[r].size; i++ ) for( int a=0; a<A; a++ ) {
      bool in = ad[i*A+a] >= g.receive[r].first && ad[i*A+a] < g.receive[r].first+g.receive[r].size;
      if( !WANT(i,a) ) vp_assert( p[i][a] == nullptr, "no data without (sparse) adjacency" );
      else if( in == ( ps == 1 ) ) { vp_assert( p[i][a] == x, "send data is consecutive per region" ); x++; }
    }
  }
  vp_assert( se[0][2] == (unsigned char *) x, "end of the send data" );
  for( int r=0; r<2; r++ ) {
    vp_assert( re[0][r] == (unsigned char *) x, "start of the receive data" );
    for( L i=g.receive[r].first; i<g.receive[r].first+g.receive[r].size; i++ ) for( int a=0; a<A; a++ ) { if( WANT(i,a) ) { vp_assert( p[i][a] == x, "receive data is consecutive per region" ); x++; } else vp_assert( p[i][a] == nullptr, "no data without (sparse) adjacency" ); }
  }
  vp_assert( re[0][2] == (unsigned char *) x, "end of the receive data" );
  vp_reach( "end" );
#endif
}
