// shallow water: f-wave solver and finite volume scheme
#include "vp.h"
#include <cmath>
#include "constants.hpp"
#include "impl/swe/solvers/FiniteVolume.hpp"
using namespace edge;
typedef swe::solvers::Fwave< 1 > FW;
static void nus( double const q[2][2], double const b[2], double o[2][2], double g ) {
  double hL[1]={q[0][0]}, hR[1]={q[1][0]}, uL[1]={q[0][1]}, uR[1]={q[1][1]}, l[2][1], r[2][1];
  for( int i=0; i<2; i++ ) l[i][0]=r[i][0]=777;
  FW::nusN( hL, hR, uL, uR, b[0], b[1], l, r, g );
  for( int i=0; i<2; i++ ) { o[0][i]=l[i][0]; o[1][i]=r[i][0]; }
}
struct ElC { double volume, inDia; };
struct FaC { double outNormal[3]; double area; int spType; };
static double H() { return vp_f64( "h", 0.5, 4 ); }
static double M() { return vp_f64( "hu", -4, 4 ); }
extern "C" void vp_entry() {
#if CASE == 0
  // conservation and wave speeds
  double q[2][2] = {{H(),M()},{H(),M()}}, b[2] = {vp_f64("b",-4,4),vp_f64("b",-4,4)}, o[2][2], g = vp_f64( "g", 1, 16 );
  nus( q, b, o, g );
  double hL=q[0][0], hR=q[1][0], uL=q[0][1]/hL, uR=q[1][1]/hR;
  vp_close( o[0][0]+o[1][0], q[1][1]-q[0][1], 1e-6, "height updates sum up to the momentum jump (conservation)" );
  vp_close( o[0][1]+o[1][1], q[1][1]*uR-q[0][1]*uL + 0.5*g*(hR*hR-hL*hL) + 0.5*g*(hR+hL)*(b[1]-b[0]), 1e-5, "momentum updates sum up to the flux jump and bathymetry source" );
  double sL=std::sqrt(hL), sR=std::sqrt(hR), ur=(sL*uL+sR*uR)/(sL+sR), cr=std::sqrt( g*0.5*(hL+hR) );
  double l0=uL-std::sqrt(g*hL), l1=uR+std::sqrt(g*hR);
  if( ur-cr < l0 ) l0=ur-cr;
  if( ur+cr > l1 ) l1=ur+cr;
  if( l0 >= 0 ) { vp_assert( o[0][0] == 0 && o[0][1] == 0, "no left-going wave in supercritical flow" ); }
  else if( l1 <= 0 ) { vp_assert( o[1][0] == 0 && o[1][1] == 0, "no right-going wave in supercritical flow" ); }
  else {
    vp_close( o[0][1], l0*o[0][0], 1e-5, "left wave travels with the left Einfeldt speed" );
    vp_close( o[1][1], l1*o[1][0], 1e-5, "right wave travels with the right Einfeldt speed" );
  }
  vp_reach( "end" );
#elif CASE == 1
  // well-balanced: lake at rest; and constant states
  double hL=H(), hR=H(), g = vp_f64( "g", 1, 16 ), bL=vp_f64("b",-4,4), o[2][2];
  double q[2][2] = {{hL,0},{hR,0}}, b[2] = {bL,bL+hL-hR};
  nus( q, b, o, g );
  for( int i=0; i<4; i++ ) vp_close( o[i/2][i%2], 0, 1e-9, "lake at rest stays at rest" );
  double m = M(), q2[2][2] = {{hL,m},{hL,m}}, b2[2] = {bL,bL};
  nus( q2, b2, o, g );
  for( int i=0; i<4; i++ ) vp_close( o[i/2][i%2], 0, 1e-9, "constant states are preserved" );
  vp_reach( "end" );
#elif CASE == 2
  // mirror symmetry
  double q[2][2] = {{H(),M()},{H(),M()}}, b[2] = {vp_f64("b",-4,4),vp_f64("b",-4,4)}, o[2][2], p[2][2];
  double r[2][2] = {{q[1][0],-q[1][1]},{q[0][0],-q[0][1]}}, c[2] = {b[1],b[0]};
  nus( q, b, o, 9.80665 ); nus( r, c, p, 9.80665 );
  vp_close( o[0][0], p[1][0], 1e-6, "mirrored problem: height" );   vp_close( o[1][0], p[0][0], 1e-6, "mirrored problem: height" );
  vp_close( o[0][1], -p[1][1], 1e-6, "mirrored problem: momentum" ); vp_close( o[1][1], -p[0][1], 1e-6, "mirrored problem: momentum" );
  vp_reach( "end" );
#elif CASE == 3
  // 1D, two cells; faces 0..2, boundary conditions at the ends (reflecting: closed basin, outflow: constant extrapolation)
  typedef swe::solvers::FiniteVolume< LINE, 1 > FV;
  double q[2][2][1][1], q0[2][2], b[2][1][1], nu[3][2][2][1]; ElC ec[2]; FaC fc[3];
  unsigned dry = vp_pick( "dry", 0, 3 ); bool out = BND;
  for( int e=0; e<2; e++ ) {
    bool d = dry>>e & 1; b[e][0][0] = d ? vp_f64( "bd", 0, 3 ) : vp_f64( "b", -4, -0.01 ); q[e][0][0][0] = q0[e][0] = d ? 0 : H(); q[e][1][0][0] = q0[e][1] = d ? 0 : M();
    ec[e].volume = ec[e].inDia = 1<<e;
  }
  int fe[3][2] = {{0,-1},{0,1},{1,-1}}, ef[2][2] = {{0,1},{1,2}};
  for( int f=0; f<3; f++ ) { fc[f].outNormal[0] = f ? 1 : -1; fc[f].outNormal[1]=fc[f].outNormal[2]=0; fc[f].area = 1; fc[f].spType = f != 1 ? ( out ? 105 : 101 ) : 0; }
  for( int i=0; i<12; i++ ) (&nu[0][0][0][0])[i] = vp_f64( "garbage", -1, 1 );
  FV::nusN( 0, 3, fe, fc, q, b, nu );
  double dt = 0.125;
  FV::update( 0, 2, dt, fe, ef, fc, ec, nu, q );
  double m = 0; for( int e=0; e<2; e++ ) m += ec[e].volume*(q[e][0][0][0]-q0[e][0]);
  if( !out ) vp_close( m, 0, 1e-6, "closed basin: water volume is conserved" );
  else {
    for( int s=0; s<2; s++ ) for( int i=0; i<2; i++ ) vp_close( nu[s ? 2 : 0][0][i][0], 0, 1e-9, "outflow boundaries create no waves" );
    if( dry == 0 ) vp_close( m, dt*( q0[0][1]-q0[1][1] ), 1e-6, "open basin: change of the water volume is in- minus outflow" );
  }
  for( int e=0; e<2; e++ ) if( dry>>e & 1 ) vp_assert( q[e][0][0][0] == 0 && q[e][1][0][0] == 0, "dry cells stay untouched" );
  vp_reach( "end" );
#elif CASE == 4
  // lake at rest on a mesh with dry cells (2D: 2x1 quads), reflecting everywhere, any wet bathymetry
  typedef swe::solvers::FiniteVolume< QUAD4R, 2 > FV;
  double q[2][3][1][2], q0[2][2], b[2][1][1], nu[7][2][2][2]; ElC ec[2]; FaC fc[7];
  unsigned dry = vp_pick( "dry", 0, 2 ); double lvl = vp_f64( "level", -0.5, 0 );
  for( int e=0; e<2; e++ ) {
    bool d = dry>>e & 1; b[e][0][0] = d ? vp_f64( "bd", 0, 3 ) : vp_f64( "b", -4, -1 );
    for( int c=0; c<2; c++ ) { q[e][0][0][c] = q0[e][c] = d ? 0 : lvl-b[e][0][0]; q[e][1][0][c] = 0; q[e][2][0][c] = 0; }
    ec[e].volume = 2; ec[e].inDia = 1;
  }
  int fe[7][2] = {{0,-1},{0,1},{0,-1},{0,-1},{1,-1},{1,-1},{1,-1}}, ef[2][4] = {{0,1,2,3},{4,5,6,1}};
  double n[7][2] = {{0,-1},{1,0},{0,1},{-1,0},{0,-1},{1,0},{0,1}};
  for( int f=0; f<7; f++ ) { fc[f].outNormal[0]=n[f][0]; fc[f].outNormal[1]=n[f][1]; fc[f].outNormal[2]=0; fc[f].area = n[f][0] != 0 ? 1 : 2; fc[f].spType = f==1 ? 0 : 101; }
  FV::nusN( 0, 7, fe, fc, q, b, nu );
  FV::update( 0, 2, 0.25, fe, ef, fc, ec, nu, q );
  for( int e=0; e<2; e++ ) for( int c=0; c<2; c++ ) { vp_close( q[e][0][0][c], q0[e][c], 1e-9, "lake at rest: water height constant" ); for( int d=1; d<3; d++ ) vp_close( q[e][d][0][c], 0, 1e-9, "lake at rest: no momentum" ); }
  vp_reach( "end" );
#elif CASE == 5
  // 2D: a quad with reflecting faces keeps its water volume and mirrors act on the normal momentum only
  typedef swe::solvers::FiniteVolume< QUAD4R, 1 > FV;
  double q[1][3][1][1], q0[3], b[1][1][1], nu[4][2][2][1]; ElC ec[1]; FaC fc[4];
  b[0][0][0] = vp_f64( "b", -4, -1 ); q[0][0][0][0] = q0[0] = H(); for( int d=1; d<3; d++ ) q[0][d][0][0] = q0[d] = M(); ec[0].volume = 2; ec[0].inDia = 1;
  int fe[4][2] = {{0,-1},{0,-1},{0,-1},{0,-1}}, ef[1][4] = {{0,1,2,3}};
  double n[4][2] = {{0,-1},{1,0},{0,1},{-1,0}};
  for( int f=0; f<4; f++ ) { fc[f].outNormal[0]=n[f][0]; fc[f].outNormal[1]=n[f][1]; fc[f].outNormal[2]=0; fc[f].area = n[f][0] != 0 ? 1 : 2; fc[f].spType = 101; }
  FV::nusN( 0, 4, fe, fc, q, b, nu );
  FV::update( 0, 1, 0.25, fe, ef, fc, ec, nu, q );
  vp_close( q[0][0][0][0], q0[0], 1e-6, "closed basin: water volume is conserved" );
  for( int d=1; d<3; d++ ) {
    // reflecting pair of faces: -2 hu^2/h cancels between opposite faces, the pressure terms cancel
    double c = std::sqrt( 9.80665*q0[0] ), u = q0[d]/q0[0], f = 0;
    for( int s=-1; s<2; s+=2 ) { double un = s*u, l0 = un < 0 ? un-c : -c; f += s*( -s*q0[d] )*l0; }
    vp_close( q[0][d][0][0], q0[d] - 0.25/2*( d==1 ? 1 : 2 )*f, 1e-6, "reflecting walls: normal momentum" );
  }
  vp_reach( "end" );
#elif CASE == 7
  // update: any net-updates, any (unit) normals, both sides of the faces
  typedef swe::solvers::FiniteVolume< QUAD4R, 2 > FV;
  double q[2][3][1][2], q0[2][3][2], nu[7][2][2][2]; ElC ec[2]; FaC fc[7];
  int fe[7][2] = {{0,-1},{0,1},{0,-1},{0,-1},{1,-1},{1,-1},{1,-1}}, ef[2][4] = {{0,1,2,3},{4,5,6,1}};
  if( vp_pick( "swap", 0, 1 ) ) { fe[1][0]=1; fe[1][1]=0; }
  for( int e=0; e<2; e++ ) { ec[e].volume = 2; ec[e].inDia = 1; for( int d=0; d<3; d++ ) for( int c=0; c<2; c++ ) q[e][d][0][c] = q0[e][d][c] = M(); }
  for( int f=0; f<7; f++ ) { fc[f].outNormal[0]=vp_f64("nx",-1,1); fc[f].outNormal[1]=vp_f64("ny",-1,1); fc[f].outNormal[2]=0; fc[f].area = vp_f64("area",0.1,2); fc[f].spType = f==1 ? 0 : 101; }
  for( int i=0; i<56; i++ ) (&nu[0][0][0][0])[i] = vp_f64( "nu", -1, 1 );
  double dt = 0.25;
  FV::update( 0, 2, dt, fe, ef, fc, ec, nu, q );
  for( int e=0; e<2; e++ ) for( int c=0; c<2; c++ ) {
    double r[3] = { q0[e][0][c], q0[e][1][c], q0[e][2][c] };
    for( int k=0; k<4; k++ ) { int f = ef[e][k], s = fe[f][0] != e; double w = dt/ec[e].volume*fc[f].area; r[0] -= w*nu[f][s][0][c]; for( int d=0; d<2; d++ ) r[1+d] -= w*fc[f].outNormal[d]*nu[f][s][1][c]; }
    for( int d=0; d<3; d++ ) vp_close( q[e][d][0][c], r[d], 1e-9, "cells are updated with the net-updates of their side of the faces, scaled with dt*area/volume and rotated to x-y" );
  }
  vp_reach( "end" );
#elif CASE == 8
  // nusN: single face, any unit normal; matches the 1D Riemann problem in normal direction (dry neighbours act as walls)
  typedef swe::solvers::FiniteVolume< QUAD4R, 1 > FV;
  double q[2][3][1][1], b[2][1][1], nu[1][2][2][1]; FaC fc[1]; int fe[1][2] = {{0,1}};
  unsigned dry = vp_pick( "dry", 0, 3 );
  double n[2] = { NX, NY };
  fc[0].outNormal[0]=n[0]; fc[0].outNormal[1]=n[1]; fc[0].outNormal[2]=0; fc[0].area=1; fc[0].spType=0;
  for( int e=0; e<2; e++ ) {
    bool d = dry>>e & 1; b[e][0][0] = d ? vp_f64( "bd", 0, 3 ) : vp_f64( "b", -4, -0.01 ); q[e][0][0][0] = d ? 0 : H();
    for( int i=1; i<3; i++ ) q[e][i][0][0] = d ? 0 : M();
  }
  for( int i=0; i<4; i++ ) (&nu[0][0][0][0])[i] = vp_f64( "garbage", -1, 1 );
  FV::nusN( 0, 1, fe, fc, q, b, nu );
  double p[2][2], bb[2], o[2][2] = {{0,0},{0,0}};
  for( int e=0; e<2; e++ ) { int x = dry>>e & 1 ? 1-e : e; p[e][0] = q[x][0][0][0]; p[e][1] = ( n[0]*q[x][1][0][0] + n[1]*q[x][2][0][0] )*( x == e ? 1 : -1 ); bb[e] = b[x][0][0]; }
  if( dry != 3 ) nus( p, bb, o, 9.80665 );
  for( int e=0; e<2; e++ ) for( int i=0; i<2; i++ ) vp_close( nu[0][e][i][0], dry>>e & 1 ? 0 : o[e][i], 1e-6, "net-updates are those of the normal Riemann problem, dry cells get none" );
  vp_reach( "end" );
#elif CASE == 6
  // CFL time step
  typedef swe::solvers::FiniteVolume< ELTY, NN > FV;
  const int D = C_ENT[ELTY].N_DIM;
  double q[NN][D+1][1][NN]; ElC ec[NN]; double mi, av, ma;
  for( int e=0; e<NN; e++ ) { for( int c=0; c<NN; c++ ) { q[e][0][0][c] = H(); for( int d=0; d<D; d++ ) q[e][1+d][0][c] = M(); } ec[e].inDia = vp_f64( "dia", 0.1, 4 ); ec[e].volume = 1; }
  FV::getTimeStepStatistics( NN, ec, q, mi, av, ma );
  vp_assert( mi > 0 && mi <= av + 1e-9 && av <= ma + 1e-9, "minimum, average and maximum time step are ordered" );
  double dirs[6][2] = {{1,0},{-1,0},{0,1},{0,-1},{0.6,0.8},{0.8,-0.6}}; unsigned di = D > 1 ? vp_pick( "dir", 0, 5 ) : vp_pick( "dir", 0, 1 ); double nx = dirs[di][0], ny = dirs[di][1];
  for( int e=0; e<NN; e++ ) for( int c=0; c<NN; c++ ) {
    double h=q[e][0][0][c], un = nx*q[e][1][0][c]; if( D > 1 ) un += ny*q[e][D][0][c];
    un /= h;
    vp_assert( mi*( un + std::sqrt( 9.80665*h ) )*D <= 0.9*ec[e].inDia*(1+1e-9)+1e-9, "no wave crosses more than the CFL fraction of the in-diameter in the minimum time step" );
  }
  vp_reach( "end" );
#endif
}
