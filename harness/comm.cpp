// edge_v communication structures: complete, matching on both sides
#include "vp.h"
#include "constants.h"
#include "mesh/Communication.cpp"
using namespace edge_v;
#ifndef NTG
#define NTG 2
#endif
static t_idx const MX = std::numeric_limits< t_idx >::max();
extern "C" void vp_entry() {
  unsigned short const nFa = CE_N_FAS( ELTY );
  t_idx nPaEls[NPA], elPa[NELS], first[NPA+1]; t_idx rem = NELS;
  first[0] = 0;
  for( int p=0; p<NPA; p++ ) { nPaEls[p] = p == NPA-1 ? rem : vp_pick( "npa", 1, rem-(NPA-1-p) ); rem -= nPaEls[p]; first[p+1] = first[p]+nPaEls[p]; for( t_idx e=first[p]; e<first[p+1]; e++ ) elPa[e]=p; }
  // symmetric face adjacency; neighbors are attached from the front or from the back
  t_idx ad[NELS*8]; for( int i=0; i<NELS*8; i++ ) ad[i] = MX;
  unsigned short deg[NELS] = {}; bool comm[NELS] = {};
  for( t_idx i=0; i<NELS; i++ ) for( t_idx j=i+1; j<NELS; j++ ) {
    if( elPa[i] == elPa[j] && !( INNER ) ) continue;
    bool a = deg[i] < nFa && deg[j] < nFa && vp_pick( "adj", 0, 1 );
    if( a ) { unsigned short fi = i&1 ? nFa-1-deg[i] : deg[i], fj = j&1 ? nFa-1-deg[j] : deg[j]; ad[i*nFa+fi]=j; ad[j*nFa+fj]=i; deg[i]++; deg[j]++;
      if( elPa[i] != elPa[j] ) comm[i]=comm[j]=true; }
  }
  // connected mesh: every partition has a face to another one
  for( int p=0; p<NPA; p++ ) { bool c = false; for( t_idx e=first[p]; e<first[p+1]; e++ ) c = c || comm[e]; vp_assume( c ); }
  unsigned short tg[NELS];
  for( int e=0; e<NELS; e++ ) tg[e] = vp_u64( "tg", 0, NTG-1 );
  // elements are sorted by partition, inner before communicating, time group
  for( int e=1; e<NELS; e++ ) if( elPa[e] == elPa[e-1] ) { vp_assume( !( comm[e-1] && !comm[e] ) ); if( comm[e] == comm[e-1] ) vp_assume( tg[e-1] <= tg[e] ); }

  mesh::Communication co( NTG, ELTY, NELS, ad, NPA, nPaEls, tg );

  for( int p=0; p<NPA; p++ ) {
    t_idx cIn[NTG] = {}, cSe[NTG] = {}, cr = 0;
    for( t_idx e=first[p]; e<first[p+1]; e++ ) { for( int t=0; t<NTG; t++ ) { cIn[t] += tg[e]==t && !comm[e]; cSe[t] += tg[e]==t && comm[e]; } for( int f=0; f<nFa; f++ ) cr += ad[e*nFa+f] != MX && elPa[ad[e*nFa+f]] != (t_idx) p; }
    for( int t=0; t<NTG; t++ ) vp_assert( co.nGroupElsIn(p)[t] == cIn[t] && co.nGroupElsSe(p)[t] == cSe[t], "inner and send element counts per time group" );
    vp_assert( co.nSeRe(p) == cr, "one entry per face between partitions" );
    t_idx const *s = co.getStruct( p );
    t_idx nCh = vp_concrete( s[0] ), pos = 0;
    bool done[NELS*8] = {};
    for( t_idx c=0; c<nCh; c++ ) {
      t_idx const *ch = s+1+c*4;
      t_idx rp = vp_concrete( ch[1] ), n = vp_concrete( ch[3] ), lt = vp_concrete( ch[0] ), rt = vp_concrete( ch[2] );
      vp_assert( rp < NPA && rp != (t_idx) p && n > 0, "channel to another partition" );
      if( c ) vp_assert( ch[-4] < lt || ( ch[-4] == lt && ( ch[-3] < rp || ( ch[-3] == rp && ch[-2] < rt ) ) ), "channels unique, ordered by local time group, remote partition, remote time group" );
      // matching channel of the peer
      t_idx const *q = co.getStruct( rp ); t_idx nq = vp_concrete( q[0] ), qpos = 0; int hit = -1; t_idx qoff = 0;
      for( t_idx d=0; d<nq; d++ ) { t_idx const *k = q+1+d*4; if( k[0] == rt && k[1] == (t_idx) p && k[2] == lt ) { vp_assert( hit < 0 && k[3] == n, "peer's channel has the same number of faces" ); hit = d; qoff = qpos; } qpos += vp_concrete( k[3] ); }
      vp_assert( hit >= 0, "peer has the matching channel" );
      for( t_idx i=0; i<n; i++ ) {
        t_idx e = vp_concrete( co.getSendEl(p)[pos+i] + first[p] ); unsigned short f = vp_concrete( co.getSendFa(p)[pos+i] );
        vp_assert( e >= first[p] && e < first[p+1] && f < nFa, "send entry is local" );
        t_idx a = ad[e*nFa+f];
        vp_assert( a != MX && elPa[a] == rp && tg[e] == lt && tg[a] == rt, "send entry belongs to its channel" );
        vp_assert( !done[e*nFa+f], "every face is sent once" ); done[e*nFa+f] = true;
        // i-th message entry arrives at the peer's i-th receive entry: the face on the other side
        t_idx re = vp_concrete( co.getRecvEl(rp)[qoff+i] + first[rp] ); unsigned short rf = vp_concrete( co.getRecvFa(rp)[qoff+i] );
        vp_assert( re == a && rf < nFa && ad[re*nFa+rf] == e, "i-th sent face is the peer's i-th received face" );
      }
      pos += n;
    }
    vp_assert( pos == cr, "channels cover all faces between partitions" );
  }
  vp_reach( "end" );
}
