// work packages: load balancing and status of the work regions
#undef PP_USE_OMP
#define EDGE_MONITOR_TIMER_HPP
#include "vp.h"
#include <vector>
#include <map>
#include <limits>
namespace edge { namespace monitor { struct Timer { double e = 0; int s = 0; void start() { s = 1; } void end() { e += vp_f64( "elapsed", 0, 10 ); s = 0; } double elapsed() const { return e; } void reset() { e = 0; } }; } }
#include "constants.hpp"
#include "data/SparseEntities.hpp"
#define private public
#include "parallel/LoadBalancing.h"
#include "parallel/Shared.h"
#undef private
#include "parallel/LoadBalancing.cpp"
#include "parallel/Shared.cpp"
namespace edge { namespace parallel { int g_nThreads = 1, g_thread = 0, g_nRanks = 1, g_rank = 0; char g_threadStr[10]; std::string g_rankStr; } }
using namespace edge;
struct Ch { unsigned spType; };
#ifndef NW
#define NW 2
#endif
#ifndef NE
#define NE 4
#endif
static Ch ch[NE]; static int_spType ty[2] = { 1, 2 };
#define SP(t,i) ( ( ch[i].spType & ty[t] ) == (unsigned) ty[t] )
static void sparse() {
#ifdef SPARSE
  for( int i=0; i<NE; i++ ) ch[i].spType = vp_pick( "sp", 0, 3 );
#else
  for( int i=0; i<NE; i++ ) ch[i].spType = (i*3+1)%4;
#endif
}
// work packages partition the region
static void part( parallel::LoadBalancing &lb, unsigned rg, std::size_t first, std::size_t size ) {
  int_el f, s, sp[2]; std::size_t x = first;
  for( int w=0; w<NW; w++ ) {
    lb.getWrkTd( rg, w, f, s, sp );
    f = vp_concrete( f ); s = vp_concrete( s );
    vp_assert( f == (int_el) x, "work packages are consecutive" );
    vp_assert( s >= 0 && x+s <= first+size, "work package within the region" );
    if( x+s > first+size ) return;
    for( int t=0; t<2; t++ ) { int n = 0; for( std::size_t i=0; i<x; i++ ) if( SP(t,i) ) n++; vp_assert( sp[t] == n, "first sparse entity of the work package" ); }
    x += s;
  }
  vp_assert( x == first+size, "work packages cover the region" );
}
extern "C" void vp_entry() {
#if CASE == 0
  // registration and two re-balancing steps
  sparse(); parallel::LoadBalancing lb; lb.init( NW );
  std::size_t a = vp_pick( "split", 0, NE ), z = vp_pick( "end", 0, NE ); vp_assume( a <= z );
  lb.regWrkRgn( 0, a, z-a, 2, ty, ch ); part( lb, 0, a, z-a );
  unsigned ps = vp_pick( "pos", 0, 1 );
  lb.regWrkRgn( ps, 0, a, 2, ty, ch ); part( lb, 1-ps, a, z-a ); part( lb, ps, 0, a );
  for( int i=0; i<BAL; i++ ) {
    for( int w=0; w<NW; w++ ) { lb.startClock( 1-ps, w ); lb.stopClock( 1-ps, w ); }
    lb.balance(); part( lb, 1-ps, a, z-a ); part( lb, ps, 0, a );
    for( int w=0; w<NW; w++ ) vp_assert( lb.m_wrkRgns[1-ps].wrkPkgs[w].timer.elapsed() == 0, "clocks are reset" );
  }
  vp_reach( "end" );
#elif CASE == 1
  // priorities and statuses, NR regions with any priorities, any sequence of operations
  sparse(); parallel::Shared sh; parallel::g_thread = 0; parallel::g_nThreads = NW; sh.m_nWrks = NW; sh.m_wrkOff = 0; sh.m_balancing.init( NW );
  int pr[NR]; for( int r=0; r<NR; r++ ) { pr[r] = vp_pick( "prio", 0, NR-1 ); sh.regWrkRgn( (unsigned short)(10+r), (unsigned short)(20+r), 30u+r, r, 1, pr[r], 2, ty, ch ); }
  int st[NR][NW]; for( int r=0; r<NR; r++ ) for( int w=0; w<NW; w++ ) st[r][w] = parallel::Shared::WAI;
  for( int o=0; o<OPS; o++ ) {
    unsigned k = vp_pick( "op", 0, 2 );
    if( k == 0 ) { // start a region
      unsigned r = vp_pick( "region", 0, NR-1 ); bool ok = true; for( int w=0; w<NW; w++ ) ok = ok && ( st[r][w] == parallel::Shared::WAI || st[r][w] == parallel::Shared::FIN );
      vp_assume( ok );
      sh.setStatusAll( parallel::Shared::RDY, 30+r ); for( int w=0; w<NW; w++ ) st[r][w] = parallel::Shared::RDY;
    }
    else if( k == 1 ) { // worker asks for work
      int w = vp_pick( "worker", 0, NW-1 ); parallel::g_thread = w; unsigned short tg, sp; unsigned id; int_el f, s, en[8];
      int best = -1; for( int r=0; r<NR; r++ ) if( st[r][w] == parallel::Shared::RDY && ( best < 0 || pr[r] > pr[best] ) ) best = r;
      bool g = sh.getWrkTd( tg, sp, id, f, s, en );
      vp_assert( g == ( best >= 0 ), "work is found if and only if a region is ready for the worker" );
      if( !g ) { vp_assert( id == std::numeric_limits< unsigned int >::max() && f == std::numeric_limits< int_el >::max() && s == std::numeric_limits< int_el >::max(), "invalid ids without work" ); vp_assume( false ); }
      int r = id-30; vp_assert( r >= 0 && r < NR, "valid region" ); if( r < 0 || r >= NR ) return;
      vp_assert( st[r][w] == parallel::Shared::RDY && pr[r] == pr[best], "ready region of highest priority" );
      vp_assert( tg == 10+r && sp == 20+r && f == r+w && s == ( w == 0 ? 1 : 0 ), "time group, step and entities of the region" );
      sh.setStatusTd( parallel::Shared::IPR, id ); st[r][w] = parallel::Shared::IPR;
    }
    else { // worker finishes
      int w = vp_pick( "worker", 0, NW-1 ); unsigned r = vp_pick( "region", 0, NR-1 ); vp_assume( st[r][w] == parallel::Shared::IPR );
      parallel::g_thread = w; sh.setStatusTd( parallel::Shared::FIN, 30+r ); st[r][w] = parallel::Shared::FIN;
    }
    for( int r=0; r<NR; r++ ) { bool fin = true; for( int w=0; w<NW; w++ ) fin = fin && st[r][w] == parallel::Shared::FIN; vp_assert( sh.getStatusAll( parallel::Shared::FIN, 30+r ) == fin, "a region is finished once all workers finished it" ); }
  }
  sh.resetStatus( parallel::Shared::WAI ); for( int r=0; r<NR; r++ ) vp_assert( sh.getStatusAll( parallel::Shared::WAI, 30+r ), "reset of all regions" );
  vp_reach( "end" );
#elif CASE == 2
  // first touch: every entry initialized exactly once, by one worker
  parallel::Shared sh; int nw = vp_pick( "workers", 1, 4 ); sh.m_nWrks = nw; int off = vp_pick( "separate", 0, 1 ); sh.m_wrkOff = -off;
  std::size_t n = vp_pick( "entries", 0, 9 ); int *arr = new int[11]; for( int i=0; i<11; i++ ) arr[i] = 7;
  std::size_t tot = 0;
  for( int t=0; t<nw+off; t++ ) {
    parallel::g_thread = t; vp_assert( sh.isWrk() == ( t >= off ) && sh.isSched() == ( t == 0 ) && sh.isComm() == ( t == 0 ), "roles of the threads" );
    sh.numaInit( n, arr );
    std::size_t z = 0; for( std::size_t i=0; i<11; i++ ) if( arr[i] == 0 ) { z++; vp_assert( i < n, "no entries beyond the array" ); arr[i] = 1; }
    tot += z; vp_assert( t < off ? z == 0 : ( z == n/nw || z == n/nw+1 ), "equal shares of the workers" );
  }
  vp_assert( tot == n, "all entries initialized once" );
  std::size_t in[2], se[2]; n = 0; for( int i=0; i<2; i++ ) { in[i] = vp_pick( "inner", 0, 2 ); se[i] = vp_pick( "send", 0, 1 ); n += in[i]+se[i]; }
  for( int i=0; i<11; i++ ) arr[i] = 7;
  double *va = new double[13]; for( int i=0; i<13; i++ ) va[i] = 7;
  for( int t=0; t<nw+off; t++ ) { parallel::g_thread = t; sh.numaInit( 2, in, se, 2, va ); }
  for( std::size_t i=0; i<13; i++ ) vp_assert( ( va[i] == 0 ) == ( i < 2*n ), "all values of all groups initialized" );
  vp_reach( "end" );
#endif
}
