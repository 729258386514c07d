// time steps of the ADER-DG solvers in local time stepping, at boundaries, in distributed memory and with receivers
// element 0: unused, element 1: the element of interest, element 2+f: neighbor at face f
#include "vp.h"
#include <cmath>
#include <limits>
#include <vector>
#include <algorithm>
#include <iostream>
#include <cstdlib>
#include <cstring>
#include "constants.hpp"
#include "io/logging.h"
#undef EDGE_CHECK
#undef EDGE_CHECK_EQ
#undef EDGE_CHECK_NE
#define EDGE_CHECK(c) if( false ) std::cerr
#define EDGE_CHECK_EQ(a,b) if( (a) != (b) ) vp_check_failed( #a " == " #b ); else if( false ) std::cerr
#define EDGE_CHECK_NE(a,b) if( false ) std::cerr
#include "data/Dynamic.cpp"
#include "linalg/Matrix.h"
#include "parallel/global.h"
#include "dgmats.h"
int edge::parallel::g_nThreads = 1;
namespace edge { namespace parallel { t_scratchMem *g_scratchMem = nullptr; } }
#include "mesh/common.hpp"
#define PP_USE_MPI 1
#define private public
#define protected public
#ifdef PP_T_EQUATIONS_ADVECTION
#include "impl/advection/kernels/TimePred.hpp"
#include "impl/advection/kernels/VolInt.hpp"
#include "impl/advection/kernels/SurfInt.hpp"
#include "impl/advection/solvers/AderDg.hpp"
#else
#include "impl/seismic/common.hpp"
#include "impl/seismic/setups/ViscoElasticity.cpp"
#include "impl/seismic/solvers/AderDg.hpp"
#endif
#undef private
#undef protected
typedef std::size_t L;
static R sym( char const *n ) { return vp_f64( n, -8, 8 ); }
#define CL(a,b,l) vp_close( (a), (b), 1e-9, l )
#define NEL (2+NF)
#ifdef PP_T_EQUATIONS_ADVECTION
#define QE 1
#define QM 1
#define RM 0
#define NMS NM
#else
#define RM N_RELAXATION_MECHANISMS
#define QE CE_N_QTS_E( DIM )
#define QM CE_N_QTS_M( DIM )
#define NMS NMF
#endif
#define RMX (RM>0?RM:1)
typedef R Dof[QE][NM][CR];
typedef R Ano[RMX][QM][NM][CR];
static Dof dE[NEL], xE[NEL], tI[3][NEL], first[NEL], T[NEL], H[NEL], S[NEL], tmp;
static Ano dA[NEL], xA[NEL];
static R sb[NEL][NF][2*QE][NMS][CR];             // send buffers
static t_elementChars elC[NEL]; static t_faceChars faC[NEL*NF];
static L elFa[NEL][NF], elFaEl[NEL][NF];
static unsigned short fId[NEL][NF], vId[NEL][NF];
static R (*tDa[3][NEL])[NM][CR], (**tD[3])[NM][CR];
static R (*snd[NEL*NF])[NMS][CR]; static R const (*rcv[NEL*NF])[NMS][CR];
static int rel[NF];                              // -1: element has a smaller time step than the neighbor, 1: a greater
static int kind[NF];                             // 0: local, 1: remote, 2: free surface, 3: outflow
static void fresh( int e ) {
  for( unsigned q=0; q<QE; q++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) dE[e][q][m][c] = xE[e][q][m][c] = ( FEW && ( q+m+c+e ) % FEW ) ? R( rnd() ) : sym( "dofs" );
  if( RM > 0 ) for( int r=0; r<RM; r++ ) for( unsigned q=0; q<QM; q++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) dA[e][r][q][m][c] = xA[e][r][q][m][c] = ( FEW && ( q+m+c+e ) % FEW ) ? R( rnd() ) : sym( "dofsA" );
}
static void same( Dof a, Dof b, char const *l ) { for( unsigned q=0; q<QE; q++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) CL( a[q][m][c], b[q][m][c], l ); }
static void sameA( Ano a, Ano b, char const *l ) { if( RM > 0 ) for( int r=0; r<RM; r++ ) for( unsigned q=0; q<QM; q++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) CL( a[r][q][m][c], b[r][q][m][c], l ); }
static bool isRe[NEL]; static int nOut[NEL], done[NEL]; static double outT[NEL][2]; static unsigned reEl[NEL];
#define RE0 5
#ifdef PP_T_EQUATIONS_ADVECTION
typedef advection::solvers::AderDg< R, EL, ORD, ORD, CR > Solver;
static Solver *so;
static R st[NEL][DIM], fs[NEL][NF*2];
static R der[NEL][ORD][NM][CR];
static void setup( data::Dynamic &dyn ) {
  so = new Solver( dyn );
  for( unsigned e=1; e<NEL; e++ ) { for( int d=0; d<DIM; d++ ) st[e][d] = rnd(); for( unsigned f=0; f<2*NF; f++ ) fs[e][f] = rnd(); }
}
static void predict( int e, double dt ) { so->m_time->ck( dt, st[e], xE[e][0], der[e], T[e][0] ); so->m_time->integrate( R(0.5*dt), der[e], H[e][0] ); }
static void localRef( int e ) { so->m_volInt->apply( st[e], T[e], xE+e ? xE[e] : nullptr ); so->m_surfInt->local( fs[e], T[e], xE[e] ); }
static void neighRef( int e, unsigned f, Dof t, bool bnd ) {
  unsigned short no = std::numeric_limits< unsigned short >::max();
  so->m_surfInt->neigh( f, bnd ? no : vId[e][f], bnd ? no : fId[e][f], fs[e][NF+f], t, xE[e] );
}
static void endNeighRef( int ) {}
static void local( int e, int n, bool first, double dt ) { so->local( L(e), L(n), first, dt, elC, st, fs, dE, tD, snd ); }
static void neigh( int e, int n, bool first ) { so->neigh( L(e), L(n), first, faC, elC, fs, elFa, elFaEl, fId, vId, tD, dE, rcv ); }
#define BND OUTFLOW
#else
typedef seismic::solvers::AderDg< R, RM, EL, ORD, ORD, CR, (CR>1) > Solver;
typedef seismic::kernels::Kernels< R, RM, EL, ORD, ORD, CR > Kern;
static Solver *so; static Kern *ke;
static R stE[NEL][DIM][Solver::TL_N_ENS_STAR_E], stA[NEL][DIM][Solver::TL_N_ENS_STAR_A], src[NEL*RMX][Solver::TL_N_ENS_SRC_A], fsE[2][NEL][NF][Solver::TL_N_ENS_FS_E], fsA[2][NEL][NF][Solver::TL_N_ENS_FS_A];
static R der[NEL][ORD][QE][NM][CR], derA[RMX][ORD][QM][NM][CR], scr[2][QE][NM][CR], sf[2][QE][NMF][CR], upA[QM][NM][CR], pv[1][QE][NM][CR];
static Ano TA[NEL];
static t_scratchMem scratch;
static void setup( data::Dynamic &dyn ) {
  static R rf[2] = { 2, 5 };
  so = (Solver*) malloc( sizeof( Solver ) );
  so->m_kernels = new Kern( RM ? rf : nullptr, dyn );
  ke = new Kern( RM ? rf : nullptr, dyn );
  for( unsigned e=1; e<NEL; e++ ) {
    for( int i=0; i<DIM*Solver::TL_N_ENS_STAR_E; i++ ) stE[e][0][i] = rnd();
    for( int i=0; i<DIM*Solver::TL_N_ENS_STAR_A; i++ ) stA[e][0][i] = rnd();
    for( int r=0; r<RM; r++ ) for( int i=0; i<Solver::TL_N_ENS_SRC_A; i++ ) src[e*RM+r][i] = rnd();
    for( int s=0; s<2; s++ ) for( unsigned f=0; f<NF; f++ ) { for( int i=0; i<Solver::TL_N_ENS_FS_E; i++ ) fsE[s][e][f][i] = rnd(); for( int i=0; i<Solver::TL_N_ENS_FS_A; i++ ) fsA[s][e][f][i] = rnd(); }
  }
  so->m_starE = stE; so->m_starA = RM ? stA : nullptr; so->m_srcA = RM ? src : nullptr;
  for( int s=0; s<2; s++ ) { so->m_fsE[s] = fsE[s]; so->m_fsA[s] = RM ? fsA[s] : nullptr; }
  parallel::g_scratchMem = &scratch;
}
static void predict( int e, double dt ) {
  ke->m_time.ck( dt, stE[e], RM ? stA[e] : nullptr, src + e*RM, xE[e], xA[e], scr[0], der[e], derA, T[e], TA[e] );
  ke->m_time.integrate( R(0.5*dt), der[e], H[e] );
}
static void localRef( int e ) {
  ke->m_volInt.apply( stE[e], RM ? stA[e] : nullptr, src + e*RM, T[e], TA[e], xE[e], xA[e], scr[0] );
  ke->m_surfInt.local( fsE[0][e], RM ? fsA[0][e] : nullptr, T[e], xE[e], xA[e], sf, xE[e], T[e] );
}
static void neighRef( int e, unsigned f, Dof t, bool bnd ) {
  unsigned short no = std::numeric_limits< unsigned short >::max();
  ke->m_surfInt.neigh( f, bnd ? no : vId[e][f], bnd ? no : fId[e][f], fsE[1][e][f], RM ? fsA[1][e][f] : nullptr, t, nullptr, xE[e], upA, sf, t );
}
static void endNeighRef( int e ) { if( RM ) { ke->m_surfInt.scatterUpdateA( upA, xA[e] ); } for( unsigned q=0; q<QM; q++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) upA[q][m][c] = 0; }
// monitor of the receivers
double edge::io::Receivers::getRecvTimeRel( int_el s, double, double ) {
  vp_assert( s >= RE0 && s < RE0+(int)NEL && reEl[s-RE0] > 0, "receivers are queried by their sparse id" );
  int e = reEl[s-RE0];
  return done[e] < nOut[e] ? outT[e][done[e]] : -std::numeric_limits< double >::max();
}
void edge::io::Receivers::writeRecvAll( int_el s, real_base const v[N_QUANTITIES][N_ELEMENT_MODES][N_CRUNS] ) {
  vp_assert( s >= RE0 && s < RE0+(int)NEL && reEl[s-RE0] > 0, "receivers are written by their sparse id" );
  int e = reEl[s-RE0]; R t = outT[e][done[e]];
  ke->m_time.evalTimePrediction( 1, &t, der[e], pv );
  for( unsigned q=0; q<QE; q++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) CL( v[q][m][c], pv[0][q][m][c], "receivers get the time prediction of their element at the output time" );
  done[e]++;
}
static char reMem[sizeof( io::Receivers )];
static void local( int e, int n, bool first, double dt ) {
  so->local( L(e), L(n), first, 1.0, dt, L(RE0), elC, vId, dE, (R (*)[NM][CR]) dA[0][0], tD, snd, *(io::Receivers*) reMem );
}
static void neigh( int e, int n, bool first ) { so->neigh( L(e), L(n), first, faC, elC, elFa, elFaEl, fId, vId, tD, dE, (R (*)[NM][CR]) dA[0][0], rcv ); }
#define BND FREE_SURFACE
#endif
static double const DT = 0.25;
static double dtOf( int e ) { if( e == 1 ) return DT; int r = rel[e-2]; return r == 0 ? DT : r < 0 ? 2*DT : DT/2; }
static void stepLocal( int e, bool firstTs ) {
  fresh( e );
  double dt = dtOf( e );
  predict( e, dt );
  localRef( e );
  int n = 0;
  if( isRe[e] ) { for( unsigned i=0; i<NEL; i++ ) reEl[i] = 0; reEl[0] = e; done[e] = 0; nOut[e] = OUTS; for( int i=0; i<OUTS; i++ ) { outT[e][i] = vp_f64( "outT", 0, 0.25 ); } }
  local( e, 1, firstTs, dt );
  if( isRe[e] ) vp_assert( done[e] == nOut[e], "every requested receiver output is written" );
  same( dE[e], xE[e], "local update: volume and local surface integral of the time prediction" );
  sameA( dA[e], xA[e], "local update of the memory variables" );
  same( tI[0][e], T[e], "time integrated DOFs" );
}
// time integrated DOFs of element n, as required by an element of the given relation
static void add( Dof a, Dof b, Dof o ) { for( unsigned q=0; q<QE; q++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) o[q][m][c] = a[q][m][c] + b[q][m][c]; }
static void sub( Dof a, Dof b, Dof o ) { for( unsigned q=0; q<QE; q++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) o[q][m][c] = a[q][m][c] - b[q][m][c]; }
static void ref( int e, unsigned f, int ne, int r, bool firstTs ) {
  if( r == 0 ) memcpy( tmp, T[ne], sizeof( tmp ) );
  else if( r > 0 ) memcpy( tmp, S[ne], sizeof( tmp ) ); // two smaller steps of the neighbor
  else if( firstTs ) memcpy( tmp, H[ne], sizeof( tmp ) );
  else sub( T[ne], H[ne], tmp );
  neighRef( e, f, tmp, false );
}
// outflow faces of the neighbors
static void outs( int e, unsigned g ) { if( BND == OUTFLOW ) for( unsigned h=0; h<NF; h++ ) if( h != g ) neighRef( e, h, T[e], true ); }
static void check( int e ) { same( dE[e], xE[e], "neighboring contribution covers exactly the element's time step" ); sameA( dA[e], xA[e], "neighboring contribution to the memory variables" ); }
extern "C" void vp_entry() {
  basis();
  data::Dynamic dyn;
  unsigned const f0 = vp_pick( "face", 0, NF-1 );
  unsigned const c0 = MULTI ? 1 : vp_pick( "relation", 0, 6 ); // <, =, > local; <, =, > remote; boundary
  for( unsigned f=0; f<NF; f++ ) {
    unsigned c = f == f0 ? c0 : MULTI ? ( f == ( f0+1 ) % NF ? 6 : 1 ) : ( f-f0+NF+OTH ) % 7;
    kind[f] = c < 3 ? 0 : c < 6 ? 1 : ( f == f0 && OTH % 2 ) || f % 2 ? 2 : 3;
    rel[f] = c < 6 ? (int)(c % 3) - 1 : 0;
    int e = 2+f; unsigned g = ( f+1 ) % NF;
#ifdef HEXG
    g = f == 0 ? 5 : f == 5 ? 0 : f == 1 ? 3 : f == 3 ? 1 : f == 2 ? 4 : 2;
#endif
    // connectivity: faces f of the element and g of the neighbor match
    for( unsigned h=0; h<NF; h++ ) { elFaEl[e][h] = 0; elFa[e][h] = e*NF+h; faC[e*NF+h].spType = OUTFLOW; fId[e][h] = vId[e][h] = 0; elC[e].spType |= C_LTS_AD[h][AD_EQ]; }
    elFa[1][f] = NF+f; elFaEl[1][f] = kind[f] == 0 ? L(e) : std::numeric_limits< L >::max();
    faC[NF+f].spType = kind[f] == 2 ? BND : kind[f] == 3 ? OUTFLOW : 0;
    elFa[e][g] = NF+f; elFaEl[e][g] = kind[f] == 0 ? 1 : std::numeric_limits< L >::max();
    fId[1][f] = g; fId[e][g] = f; vId[1][f] = vId[e][g] = (f+VID) % CE_N_FACE_VERTEX_OPTS( EL );
    elC[1].spType |= C_LTS_AD[f][ rel[f] == 0 ? AD_EQ : rel[f] < 0 ? AD_LT : AD_GT ];
    elC[e].spType &= ~C_LTS_AD[g][AD_EQ]; elC[e].spType |= C_LTS_AD[g][ rel[f] == 0 ? AD_EQ : rel[f] < 0 ? AD_GT : AD_LT ];
    elC[1].spType |= C_LTS_EL[ rel[f] == 0 ? EL_INT_EQ : rel[f] < 0 ? EL_INT_LT : EL_INT_GT ];
    elC[e].spType |= C_LTS_EL[ rel[f] == 0 ? EL_INT_EQ : rel[f] < 0 ? EL_INT_GT : EL_INT_LT ];
    if( kind[f] == 1 ) { snd[1*NF+f] = sb[1][f]; snd[e*NF+g] = sb[e][g]; rcv[1*NF+f] = (R const (*)[NMS][CR]) sb[e][g]; rcv[e*NF+g] = (R const (*)[NMS][CR]) sb[1][f]; }
  }
  for( int i=0; i<3; i++ ) tD[i] = tDa[i];
  // stale data in all buffers; no buffers for data which isn't requested
  for( unsigned e=0; e<NEL; e++ ) {
    tDa[0][e] = tI[0][e];
    tDa[1][e] = ( elC[e].spType & C_LTS_EL[EL_INT_LT] ) ? tI[1][e] : nullptr; tDa[2][e] = ( elC[e].spType & C_LTS_EL[EL_INT_GT] ) ? tI[2][e] : nullptr;
    for( int i=0; i<3; i++ ) for( unsigned q=0; q<QE; q++ ) for( unsigned m=0; m<NM; m++ ) for( int c=0; c<CR; c++ ) tI[i][e][q][m][c] = rnd();
  }
#ifndef PP_T_EQUATIONS_ADVECTION
  { unsigned e = OUTS > 0 && !MULTI ? 1+vp_pick( "receiver", 0, 1 )*(1+f0) : 0; if( OUTS > 0 && !MULTI ) { isRe[e] = true; elC[e].spType |= RECEIVER; } }
#endif
  setup( dyn );
#ifndef PP_T_EQUATIONS_ADVECTION
  endNeighRef( 1 );
#endif
#if MULTI
  // ranges of elements of an equal time step: only the range is updated, receivers are counted over the elements
  unsigned lo = 1 + vp_pick( "lo", 0, 1 ), hi = NEL - vp_pick( "hi", 0, 1 );
  unsigned n = 0; double dt = DT;
  for( unsigned e=1; e<NEL; e++ ) {
    fresh( e );
    if( e < lo || e >= hi ) continue;
    predict( e, dt ); localRef( e );
#ifndef PP_T_EQUATIONS_ADVECTION
    isRe[e] = vp_pick( "isRe", 0, 1 ); if( isRe[e] ) { reEl[n++] = e; elC[e].spType |= RECEIVER; nOut[e] = vp_pick( "nOut", 0, 1 ) ? 2 : 0; for( int i=0; i<nOut[e]; i++ ) outT[e][i] = 0.125 * i; }
#endif
  }
  local( lo, hi-lo, true, dt );
  for( unsigned e=1; e<NEL; e++ ) { vp_assert( done[e] == nOut[e], "every requested receiver output is written" ); same( dE[e], xE[e], "local update of exactly the elements in the range" ); sameA( dA[e], xA[e], "local update of the memory variables" ); }
  neigh( lo, hi-lo, true );
  for( unsigned e=lo; e<hi; e++ ) {
    if( e > 1 ) { if( kind[e-2] == 0 ) { memcpy( tmp, 1 >= lo ? T[1] : tI[0][1], sizeof( tmp ) ); neighRef( e, fId[1][e-2], tmp, false ); } if( kind[e-2] == 0 ) outs( e, fId[1][e-2] ); else if( BND == OUTFLOW ) for( unsigned h=0; h<NF; h++ ) { if( elFa[e][h] == L( e*NF+h ) || kind[e-2] > 1 ) neighRef( e, h, T[e], true ); } }
    else for( unsigned f=0; f<NF; f++ ) {
      if( kind[f] == 2 || ( BND == OUTFLOW && kind[f] == 3 ) ) neighRef( 1, f, T[1], true );
      else if( kind[f] == 0 ) { memcpy( tmp, 2+f < hi ? T[2+f] : tI[0][2+f], sizeof( tmp ) ); neighRef( 1, f, tmp, false ); }
    }
    endNeighRef( e );
  }
  for( unsigned e=1; e<NEL; e++ ) if( e == 1 || kind[e-2] == 0 ) check( e );
  vp_reach( "end" ); return;
#endif
  // greater neighbors predict first, smaller ones perform two steps per step of the element
  for( unsigned f=0; f<NF; f++ ) if( kind[f] < 2 && rel[f] < 0 ) stepLocal( 2+f, ( f % 2 ) == 0 );
  for( int s=0; s<2; s++ ) {
    for( unsigned f=0; f<NF; f++ ) if( kind[f] < 2 && rel[f] == 0 ) stepLocal( 2+f, s == 0 );
    stepLocal( 1, s == 0 );
    if( s == 0 ) memcpy( S[1], T[1], sizeof( S[1] ) ); else add( S[1], T[1], S[1] );
    // smaller neighbors
    for( unsigned f=0; f<NF; f++ ) if( kind[f] < 2 && rel[f] > 0 ) {
      int e = 2+f; unsigned g = fId[1][f];
      for( int t=0; t<2; t++ ) {
        stepLocal( e, t == 0 );
        if( t == 0 ) memcpy( S[e], T[e], sizeof( S[e] ) ); else add( S[e], T[e], S[e] );
        neigh( e, 1, t == 0 );
        ref( e, g, 1, -1, t == 0 ); outs( e, g );
        endNeighRef( e );
        check( e );
      }
    }
    // the element itself
    neigh( 1, 1, s == 0 );
    for( unsigned f=0; f<NF; f++ ) {
      if( kind[f] == 2 || ( BND == OUTFLOW && kind[f] == 3 ) ) neighRef( 1, f, T[1], true );
      else if( kind[f] < 2 ) ref( 1, f, 2+f, rel[f], s == 0 );
    }
    endNeighRef( 1 );
    check( 1 );
    // neighbors of an equal time step
    for( unsigned f=0; f<NF; f++ ) if( kind[f] < 2 && rel[f] == 0 ) { neigh( 2+f, 1, s == 0 ); ref( 2+f, fId[1][f], 1, 0, s == 0 ); outs( 2+f, fId[1][f] ); endNeighRef( 2+f ); check( 2+f ); }
  }
  for( unsigned f=0; f<NF; f++ ) if( kind[f] < 2 && rel[f] < 0 ) { neigh( 2+f, 1, ( f % 2 ) == 0 ); ref( 2+f, fId[1][f], 1, 1, true ); outs( 2+f, fId[1][f] ); endNeighRef( 2+f ); check( 2+f ); }
  vp_reach( "end" );
}
