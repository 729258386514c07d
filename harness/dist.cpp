// distributed memory: message structure, buffers and pointers
#include "vp.h"
#include "constants.hpp"
#include "io/logging.h"
#include "parallel/global.h"
namespace edge { namespace parallel { int g_nThreads = 1, g_thread = 0, g_nRanks = 1, g_rank = 0; char g_threadStr[10]; std::string g_rankStr; } }
#define protected public
#include "parallel/Distributed.h"
#undef protected
#include "parallel/Distributed.cpp"
#include "data/Dynamic.cpp"
using namespace edge;
typedef std::size_t Z;
struct D : public parallel::Distributed {
  D() : parallel::Distributed( 0, nullptr ) {}
  void beginSends( bool, unsigned short ) {} void beginRecvs( bool, unsigned short ) {} void comm() {}
  bool finSends( bool, unsigned short ) const { return true; } bool finRecvs( bool, unsigned short ) const { return true; }
};
#ifndef NTG
#define NTG 3
#endif
#define NF 2
#define NEL 4
extern "C" void vp_entry() {
#if CASE == 0
  // two ranks, mirrored communication structures
  Z nby = vp_pick( "bytes", 1, 2 ); unsigned short nb = vp_pick( "buffers", 1, 2 );
  Z nch = vp_pick( "channels", 0, NCH ); Z cs[2][1+4*NCH]; cs[0][0] = cs[1][0] = nch;
  unsigned short sf[2][NCH*2], rf[2][NCH*2]; Z se[2][NCH*2], re[2][NCH*2]; Z tot = 0; Z fst[NCH+1];
  for( Z c=0; c<nch; c++ ) {
    Z a = vp_pick( "tg", 0, NTG-1 ), b = vp_pick( "tgAd", 0, NTG-1 ), n = vp_pick( "faces", 1, 2 );
    // one channel per pair of time groups
    for( Z d=0; d<c; d++ ) vp_assume( !( cs[0][1+4*d] == a && cs[0][1+4*d+2] == b ) );
    cs[0][1+4*c] = a; cs[0][1+4*c+1] = 1; cs[0][1+4*c+2] = b; cs[0][1+4*c+3] = n;
    cs[1][1+4*c] = b; cs[1][1+4*c+1] = 0; cs[1][1+4*c+2] = a; cs[1][1+4*c+3] = n;
    fst[c] = tot; tot += n;
  }
  fst[nch] = tot;
  // faces: distinct (element,face) pairs per rank, rank 1 in its own numbering
  for( int r=0; r<2; r++ ) for( Z i=0; i<tot; i++ ) { Z k = r == 0 ? i : NEL*NF-1-i; se[r][i] = k/NF; sf[r][i] = k%NF; Z q = r == 0 ? NEL*NF-1-i : i; re[r][i] = q/NF; rf[r][i] = q%NF; }
  D d[2]; data::Dynamic dm[2];
  for( int r=0; r<2; r++ ) d[r].init( NTG, NF, NEL, nby, cs[r], sf[r], se[r], rf[r], re[r], nb, dm[r] );
  vp_assert( d[0].nCommBuffers() == nb, "number of communication buffers" );
  for( int r=0; r<2; r++ ) {
    Z so = 0, ro = 0;
    for( Z c=0; c<nch; c++ ) {
      vp_assert( d[r].m_sendMsgs[c].size == d[1-r].m_recvMsgs[c].size, "sizes of send and matching receive agree" );
      vp_assert( d[r].m_sendMsgs[c].tag == d[1-r].m_recvMsgs[c].tag, "tags of send and matching receive agree" );
      for( Z e=0; e<c; e++ ) vp_assert( d[r].m_sendMsgs[c].tag != d[r].m_sendMsgs[e].tag && d[r].m_recvMsgs[c].tag != d[r].m_recvMsgs[e].tag, "tags of different messages differ" );
      vp_assert( d[r].m_sendMsgs[c].rank == 1-r && d[r].m_recvMsgs[c].rank == 1-r, "rank of the messages" );
      Z tl = cs[r][1+4*c], tr = cs[r][1+4*c+2], n = cs[r][1+4*c+3];
      vp_assert( d[r].m_sendMsgs[c].offL == so && d[r].m_recvMsgs[c].offL == ro, "messages are consecutive in the buffers" );
      Z ss = n*nby*( tl > tr ? 2 : 1 ), rs = n*nby*( tl < tr ? 2 : 1 );
      vp_assert( d[r].m_sendMsgs[c].size == ss && d[r].m_recvMsgs[c].size == rs, "time predictions for smaller time steps take twice the size" );
      for( Z g=0; g<NTG; g++ ) for( int lt=0; lt<2; lt++ ) {
        vp_assert( d[r].checkSendTgLt( c, lt, g ) == ( g == tl && ( tl >= tr || lt ) ), "sends of the time group" );
        vp_assert( d[r].checkRecvTgLt( c, lt, g ) == ( g == tl && ( tl >= tr || lt ) ), "receives of the time group" );
      }
      for( Z i=fst[c]; i<fst[c+1]; i++ ) {
        for( int p=0; p<nb; p++ ) {
          unsigned char *x = d[r].getSendPtrs()[p][ se[r][i]*NF+sf[r][i] ];
          vp_assert( x == d[r].m_sendBuffers + p*d[r].m_sendBufferSize + so + (i-fst[c])*( ss/n ), "send data of the face lies in its message" );
          for( Z b=0; b<ss/n; b++ ) x[b] = 1;
        }
        for( int p=0; p<( nb == 2 ? 4 : 1 ); p++ ) {
          unsigned char *x = d[r].getRecvPtrs()[p][ re[r][i]*NF+rf[r][i] ];
          int q = tl >= tr ? p%2 : p/2;
          vp_assert( x == d[r].m_recvBuffers + q*d[r].m_recvBufferSize + ro + (i-fst[c])*( rs/n ), "receive data of the face lies in its message" );
          for( Z b=0; b<rs/n; b++ ) x[b] = 2;
        }
      }
      so += ss; ro += rs;
    }
    vp_assert( d[r].m_sendBufferSize == so && d[r].m_recvBufferSize == ro, "sizes of the buffers" );
    for( Z k=0; k<NEL*NF; k++ ) {
      bool s = false, v = false; for( Z i=0; i<tot; i++ ) { if( se[r][i]*NF+sf[r][i] == k ) s = true; if( re[r][i]*NF+rf[r][i] == k ) v = true; }
      for( int p=0; p<nb; p++ ) if( !s ) vp_assert( d[r].getSendPtrs()[p][k] == nullptr, "no pointers for faces which do not communicate" );
      for( int p=0; p<( nb == 2 ? 4 : 1 ); p++ ) if( !v ) vp_assert( d[r].getRecvPtrs()[p][k] == nullptr, "no pointers for faces which do not communicate" );
    }
  }
  vp_reach( "end" );
#elif CASE == 1
  // double buffering: n-th send/receive since the synchronization
  D d; data::Dynamic dm; Z cs[1] = { 0 }; d.init( 2, NF, 1, 1, cs, nullptr, nullptr, nullptr, nullptr, 2, dm );
  d.m_nSendsSync[0]++; vp_assert( d.m_nSendsSync[0] == 0, "first send has number 0" ); d.m_nRecvsSync[1]++; vp_assert( d.m_nRecvsSync[1] == 0, "first receive has number 0" );
  Z n = vp_u64( "step", 0, 1000 ); unsigned short l, lt, ge, rl, rg;
  // larger group 1 (steps k), smaller group 0 (steps 2k,2k+1)
  d.m_nSendsSync[0] = n; d.sendCommBuffers2( 0, l, lt, ge );
  vp_assert( l == n%2, "local buffer alternates" );
  d.m_nRecvsSync[0] = n; d.recvCommBuffers2( 0, rl, rg );
  vp_assert( rg == ge, "same time steps: remote buffer of the n-th send is the local buffer of the n-th receive" );
  if( n%2 == 1 ) { unsigned short a, b; d.m_nRecvsSync[1] = n/2; d.recvCommBuffers2( 1, a, b ); vp_assert( lt == b, "sends to larger time steps: buffer of the matching receive" ); }
  else vp_assert( lt == std::numeric_limits< unsigned short >::max(), "no send to larger time steps in even steps" );
  { unsigned short a, b, c, e, f; d.m_nSendsSync[1] = n/2; d.sendCommBuffers2( 1, a, b, c ); vp_assert( c == rl, "sends to smaller time steps: buffer of the matching receive" ); }
  d.reset(); for( int g=0; g<2; g++ ) { d.m_nSendsSync[g]++; d.m_nRecvsSync[g]++; vp_assert( d.m_nSendsSync[g] == 0 && d.m_nRecvsSync[g] == 0, "reset" ); }
  vp_reach( "end" );
#elif CASE == 2
  double v[3]; unsigned short m[3]; for( int i=0; i<3; i++ ) { v[i] = vp_f64( "value", -10, 10 ); m[i] = 7; }
  parallel::Distributed::min( 3, v, m ); for( int i=0; i<3; i++ ) vp_assert( m[i] == 1, "single rank holds the minima" );
  vp_reach( "end" );
#endif
}
