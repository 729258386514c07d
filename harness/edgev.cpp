// the solver's view of an annotated mesh
#include "vp.h"
#include <cmath>
#include <limits>
#include <vector>
#include <algorithm>
#include <iostream>
#include <cstring>
#include "constants.hpp"
#include "io/logging.h"
#undef EDGE_CHECK
#undef EDGE_CHECK_EQ
#undef EDGE_CHECK_NE
#undef EDGE_CHECK_LT
#undef EDGE_CHECK_GT
#define EDGE_CHECK(c) if( !(c) ) vp_check_failed( #c ); else if( false ) std::cerr
#define EDGE_CHECK_EQ(a,b) EDGE_CHECK( (a) == (b) )
#define EDGE_CHECK_NE(a,b) EDGE_CHECK( (a) != (b) )
#define EDGE_CHECK_LT(a,b) EDGE_CHECK( (a) < (b) )
#define EDGE_CHECK_GT(a,b) EDGE_CHECK( (a) > (b) )
namespace edge { namespace parallel { int g_rank = 0, g_nRanks = 1, g_nThreads = 1; } }
#include "edge_v/edge_v.h"
edge_v::Ann edge_v::g_ann;
#include "data/EntityLayout.h"
#include "data/EntityLayout.cpp"
#include "mesh/EdgeV.cpp"
using namespace edge;
typedef std::size_t L; typedef unsigned short US;
#define A edge_v::g_ann
static L const NO = std::numeric_limits< L >::max();
static US const NOS = std::numeric_limits< US >::max();
extern "C" void vp_entry() {
  // time groups: per group inner and send elements, reordered by group, inner elements first
  A.lts = LTS; A.nTgs = A.lts ? NTG : 1; A.ty = edge_v::TRIA3; L const NFA = 3;
  A.mpi = MPI; parallel::g_nRanks = MPI ? 3 : 1; parallel::g_rank = 1;
  L tgOf[8]; A.nEls = 0; L nIn = 0;
  for( int se=0; se<2; se++ ) for( L t=0; t<A.nTgs; t++ ) { L n = se && !MPI ? 0 : !se && MPI ? ( t == 1 ? 0 : 1 ) : vp_pick( "n", 0, NMAX ); ( se ? A.nSe : A.nIn )[t] = n; for( L i=0; i<n; i++ ) tgOf[A.nEls++] = t; if( !se ) nIn += n; }
  if( !A.lts ) vp_assume( MPI == 0 );
  vp_assume( A.nEls >= 1 && A.nEls <= MAXEL ); if( MPI ) vp_assume( A.nEls > nIn );
  A.rel[0] = 1; for( L t=1; t<A.nTgs; t++ ) A.rel[t] = 2*A.rel[t-1]; A.rel[A.nTgs] = std::numeric_limits< double >::max();
  // adjacency: local elements with time steps at most one group apart, boundaries, remote elements
  L nCh = 0, chRk[6], chTg[6], chAd[6]; static L adTg[8][3]; // group of the adjacent element, NO at boundaries
  A.nFas = 0;
  A.nCo = 0;
  L fs = MPI ? 0 : vp_pick( "fs", 0, 2 ), es = MPI ? A.nEls-1 : vp_pick( "es", 0, A.nEls-1 );
  for( L e=0; e<A.nEls; e++ ) for( L f=0; f<NFA; f++ ) {
    L x = e*NFA+f; A.elFaEl[x] = NO; adTg[e][f] = NO; A.veAd[x] = vp_u64( "veAd", 0, 2 ); A.faAd[x] = vp_u64( "faAd", 0, 2 );
    // one face has an arbitrary neighbor, one face of the other elements a fixed one if possible
    if( f == fs && e == es ) {
      L k = vp_pick( "adj", 0, A.nEls );
      if( k < A.nEls ) { vp_assume( tgOf[k] + 1 >= tgOf[e] && tgOf[k] <= tgOf[e] + 1 ); A.elFaEl[x] = k; adTg[e][f] = tgOf[k]; }
    }
    else if( f == (fs+e)%3 && ( !MPI || f == 0 ) ) for( L j=0; j<A.nEls; j++ ) { L k = (e+j+1)%A.nEls; if( tgOf[k] + 1 >= tgOf[e] && tgOf[k] <= tgOf[e] + 1 ) { A.elFaEl[x] = k; adTg[e][f] = tgOf[k]; break; } }
  }
#if MPI
  // communication structure: channels sorted by (group, rank, adjacent group); send pairs are those of the channels
  nCh = vp_pick( "nCh", 1, NCHX ); static bool used[8][3];
  L co = 0;
  for( L c=0; c<nCh; c++ ) {
    chTg[c] = vp_pick( "chTg", 0, A.nTgs-1 ); chAd[c] = vp_pick( "chAd", chTg[c] > 0 ? chTg[c]-1 : 0, chTg[c]+1 < A.nTgs ? chTg[c]+1 : A.nTgs-1 ); chRk[c] = c == 0 ? 0 : 2;
    // free send faces of the group
    L cand[16], nCa = 0; for( L e=nIn; e<A.nEls; e++ ) for( L f=1; f<3; f++ ) if( tgOf[e] == chTg[c] && !used[e][f] ) cand[nCa++] = e*NFA+f;
    vp_assume( nCa >= 1 );
    L n = c == 0 && nCa > 1 ? vp_pick( "nCo", 1, 2 ) : 1;
    A.cs[1+c*4] = chTg[c]; A.cs[1+c*4+1] = chRk[c]; A.cs[1+c*4+2] = chAd[c]; A.cs[1+c*4+3] = n;
    for( L i=0; i<n; i++ ) {
      L k = i == 0 ? vp_pick( "pair", 0, nCa-1 ) : 0; if( i == 1 ) while( used[cand[k]/NFA][cand[k]%NFA] ) k++;
      L e = cand[k]/NFA, f = cand[k]%NFA;
      A.elFaEl[e*NFA+f] = NO; used[e][f] = true; adTg[e][f] = chAd[c];
      A.sendEl[co] = e; A.sendFa[co] = f; A.recvEl[co] = vp_u64( "recvEl", 0, 100 ); A.recvFa[co] = vp_u64( "recvFa", 0, 2 ); A.sendVe[co] = vp_u64( "sendVe", 0, 2 ); A.sendFi[co] = vp_u64( "sendFi", 0, 2 );
      co++;
    }
  }
  A.nCo = co; A.cs[0] = nCh; A.nCs = 1+4*nCh;
#endif
  A.nVes = 3; A.nFas = 4; A.nData = 2;
  for( L i=0; i<A.nVes; i++ ) A.spVe[i] = vp_u64( "spVe", 0, 255 );
  for( L i=0; i<A.nFas; i++ ) A.spFa[i] = vp_u64( "spFa", 0, 255 );
  for( L i=0; i<A.nEls; i++ ) A.spEl[i] = vp_u64( "spEl", 0, 255 );
  A.data[0] = 3; A.data[1] = 4;
  {
    mesh::EdgeV m( "mesh", "supplement", 0 );
    // layout
    vp_assert( m.nTgs() == A.nTgs, "number of time groups" );
    vp_assert( m.nEls() == A.nEls && m.nVes() == A.nVes && m.nFas() == A.nFas, "size of the mesh" );
    if( A.lts ) { vp_assert( m.nElsIn() == nIn && m.nElsSe() == A.nEls-nIn, "number of inner and send elements" ); for( L t=0; t<A.nTgs; t++ ) { vp_assert( m.nTgElsIn()[t] == A.nIn[t] && m.nTgElsSe()[t] == A.nSe[t], "elements per time group" ); vp_assert( m.getRelDt()[t] == A.rel[t], "relative time steps" ); } }
    else vp_assert( m.nElsIn() == A.nEls && m.nElsSe() == 0 && m.nTgElsIn()[0] == A.nEls && m.nTgElsSe()[0] == 0 && m.getRelDt()[0] == 1, "meshes without annotation use global time stepping" );
    t_enLayout la = m.getElLayout();
    vp_assert( la.nEnts == A.nEls && la.timeGroups.size() == A.nTgs, "layout covers all elements" );
    if( A.lts ) { L i = 0, s = nIn; for( L t=0; t<A.nTgs; t++ ) {
      vp_assert( (L) la.timeGroups[t].inner.size == A.nIn[t] && (L) la.timeGroups[t].inner.first == i, "inner elements of the time group" ); i += A.nIn[t];
      vp_assert( la.timeGroups[t].send.size() == 1 && (L) la.timeGroups[t].send[0].size == A.nSe[t] && (L) la.timeGroups[t].send[0].first == s, "send elements of the time group" ); s += A.nSe[t];
      vp_assert( (L) la.timeGroups[t].nEntsOwn == A.nIn[t] + A.nSe[t] && la.timeGroups[t].nEntsNotOwn == 0, "owned elements of the time group" ); } }
    // LTS types and sparse types
    static t_elementChars ec[8]; static t_vertexChars vc[4]; static t_faceChars fc[4]; L old[8];
    for( L e=0; e<A.nEls; e++ ) ec[e].spType = old[e] = vp_u64( "old", 0, 255 ) << 40 << 16;
    for( L i=0; i<A.nVes; i++ ) vc[i].spType = 1 << 9; for( L i=0; i<A.nFas; i++ ) fc[i].spType = 1 << 10;
    m.setLtsTypes( ec );
    m.setSpTypes( vc, fc, ec );
    for( L i=0; i<A.nVes; i++ ) vp_assert( vc[i].spType == ( A.spVe[i] | 1 << 9 ), "sparse types of the vertices" );
    for( L i=0; i<A.nFas; i++ ) vp_assert( fc[i].spType == ( A.spFa[i] | 1 << 10 ), "sparse types of the faces" );
    for( L e=0; e<A.nEls; e++ ) {
      long long ex = (long long) old[e] | A.spEl[e];
      for( L f=0; f<NFA; f++ ) {
        L a = adTg[e][f] == NO ? tgOf[e] : adTg[e][f]; int r = a == tgOf[e] ? 0 : tgOf[e] < a ? 1 : 2;
        ex |= C_LTS_AD[f][ r == 0 ? AD_EQ : r == 1 ? AD_LT : AD_GT ] | C_LTS_EL[ r == 0 ? EL_INT_EQ : r == 1 ? EL_INT_LT : EL_INT_GT ];
      }
      vp_assert( ec[e].spType == ex, "LTS relations and offered data of the element follow the time groups of itself and all adjacent elements" );
    }
    // vertex and face ids
    static US ve[24], fa[24];
    m.setSeVeFaIdsAd( ve, fa );
    for( L e=0; e<A.nEls; e++ ) for( L f=0; f<NFA; f++ ) {
      US v = NOS, g = NOS; L x = e*NFA+f;
      if( A.elFaEl[x] != NO ) { v = A.veAd[x]; g = A.faAd[x]; }
      for( L c=0; c<A.nCo; c++ ) if( A.sendEl[c] == e && A.sendFa[c] == f ) { v = A.sendVe[c]; g = A.sendFi[c]; }
      vp_assert( ve[x] == v, "ids of the shared vertices" ); vp_assert( fa[x] == g, "ids of the shared faces" );
    }
    // arrays of the mesh
    { edge_v::io::Gmsh g; edge_v::mesh::Mesh x( g, 0 );
      vp_assert( m.getFaVe() == x.getFaVe() && m.getFaEl() == x.getFaEl() && m.getElVe() == x.getElVe() && m.getElFa() == x.getElFa() && m.getElFaEl() == x.getElFaEl(), "connectivity of the mesh" );
      vp_assert( m.getVeCrds() == x.getVeCrds() && m.getNormalsFa() == x.getNormalsFa() && m.getTangentsFa() == x.getTangentsFa() && m.getAreasFa() == x.getAreasFa() && m.getVolumesEl() == x.getVolumesEl() && m.getInDiasEl() == x.getInDiasEl(), "geometry of the mesh" ); }
#if MPI
    vp_assert( m.nCommElFa() == A.nCo, "number of communicating faces" );
    for( L c=0; c<A.nCo; c++ ) vp_assert( m.getSendFa()[c] == A.sendFa[c] && m.getSendEl()[c] == A.sendEl[c] && m.getRecvFa()[c] == A.recvFa[c] && m.getRecvEl()[c] == A.recvEl[c], "communicating faces and elements" );
    for( L c=0; c<A.nCs; c++ ) vp_assert( m.getCommStruct()[c] == A.cs[c], "communication structure" );
#endif
    // raw data
    float d[2] = { 0, 0 };
    vp_assert( m.nVas( "/data" ) == 2, "number of values" ); m.getData( "/data", d ); vp_assert( d[0] == 3 && d[1] == 4, "values" );
    vp_assert( m.nVas( "/none" ) == NO, "missing data" );
  }
  vp_reach( "end" );
}
