// linear slip weakening friction law of the internal boundary
#include "vp.h"
#include <cmath>
#include <limits>
#include <vector>
#include <string>
#include <iostream>
#include <algorithm>
#include "constants.hpp"
#include "io/logging.h"
#include "impl/seismic/solvers/FrictionLaws.type"
#include "impl/seismic/solvers/FrictionLaws.hpp"
using namespace edge;
using namespace edge::seismic::solvers;
typedef double D;
#define DIM PP_N_DIM
#define NC N_CRUNS
#define NQ (DIM == 2 ? 5 : 9)
#define ND (DIM-1)
#define NSF 2
#define CL(a,b,l) vp_close( (a), (b), 1e-9, l )
// shear stresses and tangential velocities in the face-aligned quantities
static int const SH[2][2] = { {2,-1}, {3,5} }, VE[2][2] = { {4,-1}, {7,8} };
struct Fa { t_LinSlipWeakGlobal< D, NC > *gl; t_LinSlipWeakFace< D > *fa; t_LinSlipWeakSubFace< D, DIM, NC > (*sf)[NSF]; };
static D sym( char const *n, D b = 4 ) { return vp_f64( n, -b, b ); }
static D ab( D a ) { return a < 0 ? -a : a; }
extern "C" void vp_entry() {
  t_LinSlipWeakGlobal< D, NC > gl; t_LinSlipWeakFace< D > fa; t_LinSlipWeakSubFace< D, DIM, NC > sf[NSF], old[NSF];
  std::memset( sf, 0, sizeof(sf) ); std::memset( old, 0, sizeof(old) );
  fa.lEqM = vp_pick( "lEqM", 0, 1 );
#if PARAMS
  fa.csDmuM = vp_f64( "csM", 0.0625, 4 ); fa.csDmuP = vp_f64( "csP", 0.0625, 4 );
#else
  fa.csDmuM = 0.75; fa.csDmuP = 1.5;
#endif
  for( int c=0; c<NC; c++ ) {
#if PARAMS
    gl.mus[c] = vp_f64( "mus", 0, 1 ); gl.mud[c] = vp_f64( "mud", 0, 1 ); gl.dcInv[c] = vp_f64( "dcInv", 0, 4 ); vp_assume( gl.mud[c] <= gl.mus[c] );
#else
    gl.mus[c] = 0.75 + 0.125*c; gl.mud[c] = 0.25; gl.dcInv[c] = 2 + c;
#endif
  }
  for( int s=0; s<NSF; s++ ) for( int c=0; c<NC; c++ ) {
    D sn = sym( "sn0" ), co = sym( "co0", 1 ), mf = PARAMS ? vp_f64( "muf", 0, 1 ) : 0.5 + 0.125*c, dd[2], ss[2];
    for( int d=0; d<ND; d++ ) { ss[d] = sym( "ss0" ); dd[d] = vp_f64( "dd", 0, 4 ); }
    sf[s].sn0[c] = old[s].sn0[c] = sn; sf[s].co0[c] = old[s].co0[c] = co; sf[s].muf[c] = old[s].muf[c] = mf;
    for( int d=0; d<ND; d++ ) { sf[s].ss0[d][c] = old[s].ss0[d][c] = ss[d]; sf[s].dd[d][c] = old[s].dd[d][c] = dd[d]; }
    sf[s].st[c] = old[s].st[c] = 1 + s; sf[s].ss0A[c] = old[s].ss0A[c] = 7;
    for( int d=0; d<ND; d++ ) { sf[s].sr[d][c] = old[s].sr[d][c] = 2 + s; sf[s].tr[d][c] = old[s].tr[d][c] = 3 + s; }
  }
  D ms[NQ][NC], mL[NQ][NC], mR[NQ][NC]; bool per[NC];
  for( int q=0; q<NQ; q++ ) for( int c=0; c<NC; c++ ) ms[q][c] = sym( "ms" );
#ifdef DIRS
  { static int const dir[6][2] = { {3,4}, {-3,4}, {4,-3}, {-4,-3}, {5,0}, {0,-5} }; int k = vp_pick( "dir", 0, NC > 1 ? 1 : 5 ), fix = vp_pick( "fixed", 0, NC-1 );
    for( int c=0; c<NC; c++ ) { bool fx = NC > 1 && c == fix; D r = fx ? 1.5 : vp_f64( "size", 0, 2 ), j = fx ? 0.125 : vp_f64( "slip", 0, 1 );
      // several simulations: one of them is fixed
      if( fx ) { for( int s=0; s<NSF; s++ ) { sf[s].sn0[c] = old[s].sn0[c] = -3 - s; sf[s].co0[c] = old[s].co0[c] = -0.25; } for( int q=0; q<NQ; q++ ) ms[q][c] = 0.25*q - 1; }
      for( int s=0; s<NSF; s++ ) for( int d=0; d<2; d++ ) { sf[s].ss0[d][c] = old[s].ss0[d][c] = d ? -2 : 1; sf[s].dd[d][c] = old[s].dd[d][c] = j * std::abs( dir[k][d] ); }
      for( int d=0; d<2; d++ ) ms[SH[1][d]][c] = r * dir[k][d] - ( d ? -2 : 1 ); } }
#endif
  D dt = PARAMS ? vp_f64( "dt", 0.015625, 1 ) : 0.5;
  Fa fd; fd.gl = &gl; fd.fa = &fa; fd.sf = &sf;
  unsigned short id = (unsigned short) vp_pick( "subface", 0, NSF-1 );
  FrictionLaws< DIM, NC >::perturb( id, dt, ms, &fd, mL, mR, per );
  D (*mm)[NC] = fa.lEqM ? mL : mR, (*mp)[NC] = fa.lEqM ? mR : mL;
  for( int c=0; c<NC; c++ ) {
    t_LinSlipWeakSubFace< D, DIM, NC > &n = sf[id], &o = old[id];
    D st = -( o.muf[c] * ( o.sn0[c] + ms[0][c] ) + o.co0[c] ); if( st < 0 ) st = 0;
    CL( n.st[c], st, "strength is friction times compressive normal stress plus cohesion" );
    // trial shear stress
    D tt[2] = {0,0}, t2 = 0; for( int d=0; d<ND; d++ ) { tt[d] = o.ss0[d][c] + ms[SH[ND-1][d]][c]; t2 += tt[d]*tt[d]; }
    bool fail = t2 > st*st;
    vp_assert( per[c] == fail || ab( t2 - st*st ) < 1e-9, "the fault fails exactly if the shear stress exceeds the strength" );
    bool locked = !per[c];
    D f2 = 0, dot = 0, cr = 0;
    for( int d=0; d<ND; d++ ) {
      int s = SH[ND-1][d], v = VE[ND-1][d];
      vp_assert( mm[s][c] == mp[s][c], "shear stress is continuous over the fault" );
      CL( n.tr[d][c], mm[s][c] + o.ss0[d][c], "traction is the total shear stress" );
      if( locked ) vp_assert( mm[s][c] == ms[s][c] && mm[v][c] == ms[v][c] && mp[v][c] == ms[v][c] && n.sr[d][c] == 0, "nothing changes if the fault is locked" );
      f2 += n.tr[d][c] * n.tr[d][c]; dot += n.tr[d][c] * tt[d]; if( ND == 2 ) cr += ( d ? -1 : 1 ) * n.tr[d][c] * tt[1-d];
      D df = mm[s][c] - ms[s][c];
      CL( mm[v][c], ms[v][c] - fa.csDmuM * df, "velocity of the minus side" );
      CL( mp[v][c], ms[v][c] + fa.csDmuP * df, "velocity of the plus side" );
      CL( n.sr[d][c], mp[v][c] - mm[v][c], "slip rate is the jump of the velocities" );
      CL( n.dd[d][c], o.dd[d][c] + ab( n.sr[d][c] ) * dt, "slip is the integral of the slip rate" );
      // friction opposes the jump: the jump reduces the trial stress
      if( ND == 1 ) vp_assert( locked || ( tt[d] > 0 ? n.sr[d][c] <= 1e-9 : n.sr[d][c] >= -1e-9 ), "slip releases stress" );
    }
#if DIM2
    if( !locked ) { vp_assert( ab( ab( n.tr[0][c] ) - st ) < 1e-9, "traction of a failing fault is its strength" ); vp_assert( n.tr[0][c] * tt[0] >= -1e-9, "traction of a failing fault points in the direction of the shear stress" ); }
    D sl = n.dd[0][c];
    D mf = gl.mus[c] - ( gl.mus[c] - gl.mud[c] ) * sl * gl.dcInv[c]; if( mf < gl.mud[c] ) mf = gl.mud[c];
    CL( n.muf[c], mf, "friction coefficient weakens linearly with slip" );
#else
    if( !locked ) { CL( f2, st*st, "traction of a failing fault is its strength" ); vp_assert( dot >= -1e-9, "traction of a failing fault points in the direction of the shear stress" ); CL( cr, 0, "traction of a failing fault is parallel to the shear stress" ); }
    // friction: linear in the norm of the slip, bounded by the dynamic friction
    D s2 = n.dd[0][c]*n.dd[0][c] + n.dd[1][c]*n.dd[1][c], w = ( gl.mus[c] - gl.mud[c] ) * gl.dcInv[c];
    vp_assert( n.muf[c] >= gl.mud[c] && n.muf[c] <= gl.mus[c] + 1e-9, "friction coefficient is between dynamic and static" );
    D x = gl.mus[c] - n.muf[c]; // = w * |slip| if not at the dynamic friction
    if( n.muf[c] > gl.mud[c] ) CL( x*x, w*w*s2, "friction coefficient weakens linearly with slip" );
    else vp_assert( w*w*s2 >= (gl.mus[c]-gl.mud[c])*(gl.mus[c]-gl.mud[c]) - 1e-9, "friction coefficient weakens linearly with slip" );
#endif
    for( int q=0; q<NQ; q++ ) { bool ch = false; for( int d=0; d<ND; d++ ) ch = ch || q == SH[ND-1][d] || q == VE[ND-1][d]; if( !ch ) vp_assert( mL[q][c] == ms[q][c] && mR[q][c] == ms[q][c], "other quantities of the middle states are kept" ); }
    vp_assert( n.sn0[c] == o.sn0[c] && n.co0[c] == o.co0[c] && n.ss0[0][c] == o.ss0[0][c] && n.ss0A[c] == o.ss0A[c], "initial stresses are kept" );
    t_LinSlipWeakSubFace< D, DIM, NC > &a = sf[1-id], &b = old[1-id];
    bool same = a.muf[c] == b.muf[c] && a.st[c] == b.st[c] && a.sn0[c] == b.sn0[c];
    for( int d=0; d<ND; d++ ) same = same && a.tr[d][c] == b.tr[d][c] && a.sr[d][c] == b.sr[d][c] && a.dd[d][c] == b.dd[d][c] && a.ss0[d][c] == b.ss0[d][c];
    vp_assert( same, "other sub-faces are kept" );
  }
  vp_reach( "end" );
}
