// edge_v partitioning: dual graph and weights handed to METIS, priorities and counts derived from METIS' answer (an arbitrary one)
#include "vp.h"
#include "constants.h"
#include <metis.h>
#define EDGE_V_MESH_MESH_H
using namespace edge_v;
#ifndef NTG
#define NTG 3
#endif
namespace edge_v { namespace mesh { struct Mesh {
  t_idx const *a; t_idx n;
  t_entityType getTypeEl() const { return ELTY; } t_idx nEls() const { return n; } t_idx const *getElFaEl() const { return a; }
}; } }
#include "mesh/Partition.cpp"
static t_idx const MX = std::numeric_limits< t_idx >::max();
static bool g_ad[NELS][NELS]; static unsigned short *g_tg; static unsigned g_pa[NELS]; static bool g_called = false;
extern "C" int METIS_SetDefaultOptions( idx_t *o ) { for( int i=0; i<METIS_NOPTIONS; i++ ) o[i] = -1; return METIS_OK; }
extern "C" int METIS_PartGraphKway( idx_t *nv, idx_t *nc, idx_t *xa, idx_t *an, idx_t *vw, idx_t *vs, idx_t *aw, idx_t *np, real_t*, real_t*, idx_t*, idx_t *ob, idx_t *pa ) {
  vp_assert( *nv == NELS && *np == NPA && xa[0] == 0, "graph sizes" );
  unsigned short mx = 0; for( int e=0; e<NELS; e++ ) if( g_tg[e] > mx ) mx = g_tg[e];
  for( int e=0; e<NELS; e++ ) {
    bool s[NELS] = {};
    vp_assert( vw[e] == 1 << (mx-g_tg[e]), "vertex weight is the relative update frequency" );
    for( idx_t i=xa[e]; i<xa[e+1]; i++ ) {
      idx_t j = vp_concrete( an[i] );
      vp_assert( j >= 0 && j < NELS && !s[j] && g_ad[e][j], "edges of the dual graph are the face adjacencies" ); s[j] = true;
      unsigned short mi = g_tg[e] < g_tg[j] ? g_tg[e] : g_tg[j];
      vp_assert( aw[i] == 1 << (mx-mi), "edge weight is the communication frequency of the two adjacent elements" );
    }
    for( int j=0; j<NELS; j++ ) vp_assert( s[j] == g_ad[e][j], "dual graph complete" );
  }
  for( int e=0; e<NELS; e++ ) pa[e] = g_pa[e];
  *ob = 0; g_called = true;
  return METIS_OK;
}
extern "C" void vp_entry() {
  unsigned short const nFa = CE_N_FAS( ELTY );
  t_idx ad[NELS*8]; for( int i=0; i<NELS*8; i++ ) ad[i] = MX;
  unsigned short deg[NELS] = {}, tg[NELS]; g_tg = tg;
  for( t_idx i=0; i<NELS; i++ ) for( t_idx j=i+1; j<NELS; j++ ) {
    bool a = deg[i] < nFa && deg[j] < nFa && vp_pick( "adj", 0, 1 ); g_ad[i][j] = g_ad[j][i] = a;
    if( a ) { unsigned short fi = i&1 ? nFa-1-deg[i] : deg[i], fj = j&1 ? nFa-1-deg[j] : deg[j]; ad[i*nFa+fi]=j; ad[j*nFa+fj]=i; deg[i]++; deg[j]++; }
  }
  for( int e=0; e<NELS; e++ ) tg[e] = vp_u64( "tg", 0, NTG-1 );
  for( int e=0; e<NELS; e++ ) g_pa[e] = vp_u64( "pa", 0, NPA-1 );
  { bool l = false; for( int e=0; e<NELS; e++ ) l = l || g_pa[e] == NPA-1; vp_assume( l ); }
  mesh::Mesh me; me.a = ad; me.n = NELS;
  mesh::Partition pt( me, tg );
  vp_assert( pt.nPas() == 1 && pt.nPaEls()[0] == NELS, "single partition by default" );
  for( int e=0; e<NELS; e++ ) vp_assert( pt.getElPa()[e] == 0, "single partition by default" );
  for( int e=0; e<NELS; e++ ) for( int f=0; f<NELS; f++ ) vp_assert( ( pt.getElPr()[e] < pt.getElPr()[f] ) == ( tg[e] < tg[f] ), "single partition: ordered by time group" );
  pt.kWay( NPA );
  vp_assert( g_called, "METIS is called" );
  vp_assert( pt.nPas() == NPA, "number of partitions" );
  t_idx sum = 0;
  for( int p=0; p<NPA; p++ ) { t_idx c = 0; for( int e=0; e<NELS; e++ ) c += g_pa[e] == (unsigned) p; vp_assert( pt.nPaEls()[p] == c, "number of elements per partition" ); sum += c; }
  bool se[NELS];
  for( int e=0; e<NELS; e++ ) { vp_assert( pt.getElPa()[e] == g_pa[e], "partition of the element" ); se[e] = false; for( int j=0; j<NELS; j++ ) se[e] = se[e] || ( g_ad[e][j] && g_pa[e] != g_pa[j] ); }
  // priorities order the elements by partition, inner before send elements, time group
  for( int e=0; e<NELS; e++ ) for( int f=0; f<NELS; f++ ) {
    bool lt = g_pa[e] < g_pa[f] || ( g_pa[e] == g_pa[f] && ( ( !se[e] && se[f] ) || ( se[e] == se[f] && tg[e] < tg[f] ) ) );
    vp_assert( ( pt.getElPr()[e] < pt.getElPr()[f] ) == lt, "priorities: partition, inner before send, time group" );
  }
  vp_reach( "end" );
}
