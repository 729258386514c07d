// scheduling of the (local) time stepping: real Manager, man_sched.inc and TimeGroupStatic;
// workers and messages finish in any order
#define EDGE_DATA_INTERNAL_HPP
#define EDGE_IO_RECEIVERS_H
#define EDGE_PARALLEL_SHARED_H
#define EDGE_PARALLEL_DISTRIBUTED_H
#include "vp.h"
#include "constants.hpp"
#include <vector>
#include <limits>
#include <algorithm>
#ifndef NT
#define NT 2
#endif
#ifndef FULL
#define FULL 0
#endif
#ifndef K0
#define K0 4
#endif
#ifndef W0
#define W0 0
#endif
#ifndef KMAX
#define KMAX (K0+8*(1<<(NT-1))*(FULL+1))
#endif
static unsigned short const NC = N_ENTRIES_CONTROL_FLOW;
#if defined PP_T_EQUATIONS_SEISMIC
#define SRC 1
#define NE 4
#define NR 6
#elif defined PP_T_EQUATIONS_ADVECTION
#define SRC 0
#define NE 2
#define NR 4
#else
#define NR 2
#endif
typedef unsigned char U;
static U L[NT][NR], F[NT][NR], S[NT], SF[NT], R[NT], RF[NT], NS[NT], rounds;
namespace edge { namespace data { struct Internal {}; } namespace io { struct Receivers { void flushIf() {} }; } }
static void onLaunch( unsigned g, unsigned r );
static void onRound();
namespace edge { namespace parallel {
  struct Shared {
    typedef enum { RDY, IPR, FIN, WAI } t_status;
    bool isSched() { return true; } bool isComm() { return true; } bool isWrk() { return true; }
    bool getWrkTd( unsigned short &, unsigned short &, unsigned int &, int_el &, int_el &, int_el * ) { return false; }
    void setStatusTd( t_status, unsigned int ) {}
    bool getStatusAll( t_status s, unsigned id ) {
      unsigned g = id/NC, r = id%NC; vp_assert( g < NT && r < NR && s == FIN, "status of a work region" );
      return L[g][r] > 0 && L[g][r] == F[g][r];
    }
    void setStatusAll( t_status s, unsigned id ) {
      unsigned g = id/NC, r = id%NC; vp_assert( g < NT && r < NR && s == RDY, "only existing work regions are started" );
      vp_assert( L[g][r] == F[g][r], "a work region is only started again after all workers finished it" );
      onLaunch( g, r ); L[g][r]++;
    }
    void resetStatus( t_status s ) { vp_assert( s == WAI, "regions wait initially" ); }
    void balance() {}
  };
  struct Distributed {
    void comm() { onRound(); }
    void reset() {}
#ifdef NE
    void beginSends( bool lt, unsigned short g ) {
      unsigned n = S[g];
      vp_assert( n < NS[g] && SF[g] == n && F[g][1] == n+1, "data is sent once per step, after its computation" );
      vp_assert( lt == ( n%2 == 1 ), "data for larger time steps is sent every second step" ); S[g]++;
    }
    void beginRecvs( bool lt, unsigned short g ) {
      unsigned n = R[g];
      vp_assert( n < NS[g] && RF[g] == n && F[g][NE+1] == n, "one receive per step, posted after the previous data was used" );
      vp_assert( lt == ( n%2 == 0 ), "data of larger time steps is received every second step" ); R[g]++;
    }
    bool finSends( bool lt, unsigned short g ) const { vp_assert( S[g] == SF[g] || lt == ( (S[g]-1)%2 == 1 ), "matching check of the sends" ); return S[g] == SF[g]; }
    bool finRecvs( bool lt, unsigned short g ) const { vp_assert( R[g] == RF[g] || lt == ( (R[g]-1)%2 == 0 ), "matching check of the receives" ); return R[g] == RF[g]; }
#endif
  };
} }
#include "time/Manager.h"
#include "time/TimeGroupStatic.cpp"
#include "time/Manager.cpp"
using namespace edge;
static time::TimeGroupStatic *tg[NT];
static void onLaunch( unsigned g, unsigned r ) {
  unsigned n = L[g][r];
  vp_assert( n < NS[g], "no work beyond the synchronization point" );
  vp_assert( tg[g]->getUpdatesSync() == n, "work belongs to the current time step" );
#ifdef NE
  if( r < 2 ) {
    vp_assert( F[g][NE] == n && F[g][NE+1] == n, "prediction starts after the previous update" );
    if( g > 0 ) vp_assert( F[g-1][NE] == 2*n && F[g-1][NE+1] == 2*n, "prediction is not overwritten before its use in the group with smaller time steps" );
    if( g < NT-1 && n%2 == 0 ) vp_assert( 2*F[g+1][NE] == n && 2*F[g+1][NE+1] == n, "prediction is not overwritten before its use in the group with larger time steps" );
    if( r == 1 ) vp_assert( SF[g] == n, "prediction is not overwritten before it was sent" );
  }
  else if( r < NE ) vp_assert( F[g][r-2] == n+1, "sources follow the prediction" );
  else {
    vp_assert( F[g][0] == n+1 && F[g][1] == n+1 && L[g][0] == n+1 && L[g][1] == n+1, "update follows the predictions of the group" );
    if( SRC ) vp_assert( F[g][r-2] == n+1, "update follows the sources" );
    if( g > 0 ) for( int q=0; q<2; q++ ) vp_assert( F[g-1][q] == 2*(n+1) && L[g-1][q] == 2*(n+1), "update uses both predictions of the group with smaller time steps" );
    if( g < NT-1 ) for( int q=0; q<2; q++ ) vp_assert( F[g+1][q] == n/2+1 && L[g+1][q] == n/2+1, "update uses the prediction of the group with larger time steps" );
    if( r == NE+1 ) vp_assert( RF[g] == n+1, "update follows the receive" );
  }
#else
  if( r == 0 ) vp_assert( F[g][1] == n, "net-updates follow the previous update" );
  else vp_assert( F[g][0] == n+1, "update follows the net-updates" );
#endif
}
// any subset of the outstanding work and messages finishes
static void onRound() {
  bool all = rounds < W0 || rounds >= W0+K0; rounds++;
  vp_assert( rounds <= KMAX, "synchronization point is reached" );
  if( rounds > KMAX ) vp_assume( false );
  for( unsigned g=0; g<NT; g++ ) {
    for( unsigned r=0; r<NR; r++ ) { bool b = all ? true : vp_bool( "fin" ); F[g][r] = b ? L[g][r] : F[g][r]; }
    { bool b = all ? true : vp_bool( "sent" ); SF[g] = b ? S[g] : SF[g]; }
    { bool b = all ? true : vp_bool( "received" ); RF[g] = b ? R[g] : RF[g]; }
  }
}
extern "C" void vp_entry() {
#ifdef TGS
  // any fundamental time step and simulated time
  double dt = vp_f64( "dt", 0.001, 100 ), T = vp_f64( "time", 0, 1000 );
  double dm = dt*( 1 << (NT-1) ); unsigned full = vp_pick( "full", 0, FULL );
  vp_assume( T >= full*dm && T < (full+1)*dm );
  data::Internal in; std::vector< time::TimeGroupStatic > v; v.reserve( NT );
  for( int g=0; g<NT; g++ ) v.push_back( time::TimeGroupStatic( NT, g, in, 1, nullptr, nullptr ) );
  double pr[NT];
  for( int g=0; g<NT; g++ ) { v[g].setUp( dt, T ); vp_assert( !v[g].finished(), "time step required" ); pr[g] = 0; }
  unsigned n = ( full+1 ) << (NT-1);
  for( unsigned i=0; i<n; i++ ) for( int g=0; g<NT; g++ ) if( (i+1)%(1<<g) == 0 ) {
    unsigned k = (i+1) >> g;
    vp_assert( v[g].lastTimeStep() == ( i+1 == n ), "last time step" );
    v[g].updateTsInfo();
    double c = v[g].getCovSimTime(); vp_assert( c >= pr[g], "time advances" ); vp_assert( c-pr[g] <= dt*(1<<g), "time step does not exceed that of the group" ); pr[g] = c;
    vp_assert( v[g].getUpdatesSync() == k && v[g].getUpdatesPer() == k, "number of updates" );
    vp_assert( v[g].finished() == ( i+1 == n ), "finished at the synchronization point only" );
    if( g > 0 ) vp_assert( v[g-1].getCovSimTime() == c, "two time steps of a group cover one of the next group" );
  }
  for( int g=0; g<NT; g++ ) vp_assert( v[g].getCovSimTime() == T, "the requested time is covered" );
  // second synchronization interval
  for( int g=0; g<NT; g++ ) { v[g].setUp( dt, T ); vp_assert( v[g].getUpdatesSync() == 0 && !v[g].finished(), "counters start from zero" ); vp_assert( v[g].nTimePredInner()+v[g].nTimePredSend()+v[g].nDofUpInner()+v[g].nDofUpSend()+v[g].nSendSync()+v[g].nRecvSync() == 0, "counters start from zero" ); }
  vp_reach( "end" ); return;
#else
  data::Internal in; parallel::Shared sh; parallel::Distributed di; io::Receivers re;
  std::vector< time::TimeGroupStatic > v; v.reserve( NT );
  for( int g=0; g<NT; g++ ) { v.push_back( time::TimeGroupStatic( NT, g, in, 1, nullptr, nullptr ) ); NS[g] = ( FULL+1 ) << (NT-1-g); }
  for( int g=0; g<NT; g++ ) tg[g] = &v[g];
  time::Manager m( 1.0, sh, di, v, re );
  double T = ( FULL + 0.75 )*( 1 << (NT-1) );
  for( int i=0; i<SYNCS; i++ ) {
    rounds = 0; for( int g=0; g<NT; g++ ) { S[g] = SF[g] = R[g] = RF[g] = 0; for( int r=0; r<NR; r++ ) L[g][r] = F[g][r] = 0; }
    m.simulate( T );
    for( int g=0; g<NT; g++ ) {
      for( int r=0; r<NR; r++ ) vp_assert( F[g][r] == NS[g] && L[g][r] == NS[g], "all regions were executed in every time step" );
#ifdef NE
      vp_assert( S[g] == NS[g] && SF[g] == NS[g] && R[g] == NS[g] && RF[g] == NS[g], "all messages were sent and received" );
#endif
      vp_assert( v[g].getUpdatesSync() == NS[g], "number of updates" );
      vp_assert( v[g].getUpdatesPer() == (i+1)*NS[g], "total number of updates" );
      vp_assert( v[g].getCovSimTime() == T*(i+1), "covered simulation time" );
    }
  }
  vp_reach( "end" );
#endif
}
