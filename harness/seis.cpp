// seismic: velocities, Jacobians, star matrices, transformations and flux solvers
#include "vp.h"
#include <cmath>
#include <limits>
#include <algorithm>
#define private public
#include "impl/seismic/common.hpp"
#include "impl/seismic/setups/Elasticity.cpp"
#if CASE >= 10
#include "impl/seismic/setups/ViscoElasticity.cpp"
typedef edge::seismic::setups::ViscoElasticity VE;
#endif
#undef private
using namespace edge;
typedef seismic::setups::Elasticity EL;
typedef seismic::common CO;
static double P( char const *n ) { return vp_f64( n, 0.5, 8 ); }
#if DIM == 2
#define NQ 5
#define VX 3
static int const TR[3] = {0,2,-1};     // components of the traction
static int const ST[2][2] = {{0,2},{2,1}};
#else
#define NQ 9
#define VX 6
static int const TR[3] = {0,3,5};
static int const ST[3][3] = {{0,3,5},{3,1,4},{5,4,2}};
#endif
// elastic wave equations in index notation: s_ij,t = lam d_ij v_k,k + mu (v_i,j + v_j,i), rho v_i,t = s_ij,j; q_t + sum_d A_d q_,d = 0
static void jac( double rho, double lam, double mu, double A[DIM][NQ][NQ] ) {
  for( int d=0; d<DIM; d++ ) for( int i=0; i<NQ; i++ ) for( int j=0; j<NQ; j++ ) A[d][i][j] = 0;
  for( int d=0; d<DIM; d++ ) {
    for( int i=0; i<DIM; i++ ) { A[d][ST[i][i]][VX+d] -= lam; A[d][VX+i][ST[i][d]] -= 1/rho; }
    for( int i=0; i<DIM; i++ ) for( int j=i; j<DIM; j++ ) { if( d == j ) A[d][ST[i][j]][VX+i] -= mu; if( d == i ) A[d][ST[i][j]][VX+j] -= mu; }
  }
}
#if DIM == 2
#define NNZ 10
#else
#define NNZ 24
#endif
extern "C" void vp_entry() {
#if CASE == 0
  // star matrices and Jacobians
  double rho=P("rho"), lam=P("lam"), mu=P("mu"), ji[DIM][DIM], A[DIM][NQ][NQ], J[DIM][NQ][NQ], D[DIM][NQ*NQ], S[DIM][NNZ];
  for( int i=0; i<DIM; i++ ) for( int j=0; j<DIM; j++ ) ji[i][j] = vp_f64( "ji", -4, 4 );
  for( int d=0; d<DIM; d++ ) { for( int i=0; i<NQ*NQ; i++ ) { D[d][i] = J[d][i/NQ][i%NQ] = 7; } for( int i=0; i<NNZ; i++ ) S[d][i] = 7; }
  jac( rho, lam, mu, A );
  CO::getJac( rho, lam, mu, J[0][0], DIM );
  EL::star( rho, lam, mu, ji, D ); EL::star( rho, lam, mu, ji, S );
  for( int d=0; d<DIM; d++ ) {
    unsigned nz = 0;
    for( int i=0; i<NQ; i++ ) for( int j=0; j<NQ; j++ ) {
      vp_close( J[d][i][j], A[d][i][j], 1e-9, "Jacobians are those of the elastic wave equations" );
      double s = 0; bool z = true; for( int k=0; k<DIM; k++ ) s += ji[k][d]*A[k][i][j];
      vp_close( D[d][i*NQ+j], s, 1e-9, "star matrices map the Jacobians to the reference element" );
      // structural non-zeros in row-major order
      for( int k=0; k<DIM; k++ ) { double B[DIM][NQ][NQ]; jac( 1, 1, 1, B ); if( B[k][i][j] != 0 ) z = false; }
      if( !z ) { vp_close( S[d][nz], s, 1e-9, "compressed star matrices: structural non-zeros in row-major order" ); nz++; }
    }
    vp_assert( nz == NNZ, "number of non-zeros" );
  }
  vp_reach( "end" );
#elif CASE == 1
  // flux solvers in face-aligned coordinates: solution of the Riemann problem
  double rho[2]={P("rho"),P("rho")}, lam[2]={P("lam"),P("lam")}, mu[2]={ACO ? 0 : P("mu"), ACO ? 0 : P("mu")}, I[NQ][NQ], f[2][NQ*NQ];
  for( int i=0; i<NQ; i++ ) for( int j=0; j<NQ; j++ ) { I[i][j] = i==j; f[0][i*NQ+j]=f[1][i*NQ+j]=7; }
  bool fr = FREE;
  if( fr ) { rho[1]=rho[0]; lam[1]=lam[0]; mu[1]=mu[0]; }
  EL::fs( rho[0], rho[1], lam[0], lam[1], mu[0], mu[1], I, I, f[0], f[1], fr );
  double Z[2][2]; for( int s=0; s<2; s++ ) { Z[s][0] = rho[s]*std::sqrt( (lam[s]+2*mu[s])/rho[s] ); Z[s][1] = ACO ? 0 : rho[s]*std::sqrt( mu[s]/rho[s] ); }
  for( int s=0; s<2; s++ ) for( int c=0; c<NQ; c++ ) {
    // state with a single one, left (s=0) or right
    double vm[3], sm[3];
    for( int d=0; d<DIM; d++ ) {
      double q = c == TR[d], v = c == VX+d, a = Z[0][d>0], b = Z[1][d>0];
      if( fr && s ) { if( c == TR[d] ) q = -1; }
      if( d && ACO ) { vm[d] = 0; sm[d] = s ? 0 : q; continue; }
      vm[d] = ( s ? q + b*v : -q + a*v ) / (a+b);
      sm[d] = ( s ? a*q + a*b*v : b*q - a*b*v ) / (a+b);
    }
    double F[NQ]; for( int i=0; i<NQ; i++ ) F[i] = 0;
    for( int d=0; d<DIM; d++ ) { F[d] = -lam[0]*vm[0]; F[VX+d] = -sm[d]/rho[0]; }
    F[0] -= 2*mu[0]*vm[0]; for( int d=1; d<DIM; d++ ) F[TR[d]] = -mu[0]*vm[d];
    for( int i=0; i<NQ; i++ ) vp_close( f[s][i*NQ+c], F[i], 1e-9, "flux solver is the flux of the left material's middle state" );
  }
  if( fr ) for( int d=0; d<(ACO ? 1 : DIM); d++ ) for( int c=0; c<NQ; c++ ) vp_close( f[0][(VX+d)*NQ+c] + f[1][(VX+d)*NQ+c], 0, 1e-9, "free surface: no traction" );
  vp_reach( "end" );
#elif CASE == 2
  // any transformations
  double t[NQ][NQ], ti[NQ][NQ], I[NQ][NQ], f[2][NQ*NQ], g[2][NQ*NQ];
  double rho[2]={1,2}, lam[2]={2,4}, mu[2]={1,0.5};
  for( int i=0; i<NQ; i++ ) for( int j=0; j<NQ; j++ ) { I[i][j] = i==j; t[i][j] = vp_f64( "t", -2, 2 ); ti[i][j] = vp_f64( "ti", -2, 2 ); f[0][i*NQ+j]=f[1][i*NQ+j]=g[0][i*NQ+j]=g[1][i*NQ+j]=7; }
  bool fr = vp_pick( "free", 0, 1 );
  EL::fs( rho[0], rho[1], lam[0], lam[1], mu[0], mu[1], I, I, f[0], f[1], fr );
  EL::fs( rho[0], rho[1], lam[0], lam[1], mu[0], mu[1], t, ti, g[0], g[1], fr );
  for( int s=0; s<2; s++ ) for( int i=0; i<NQ; i++ ) for( int j=0; j<NQ; j++ ) {
    double r = 0; for( int k=0; k<NQ; k++ ) for( int l=0; l<NQ; l++ ) if( f[s][k*NQ+l] != 0 ) r += t[i][k]*f[s][k*NQ+l]*ti[l][j];
    vp_close( g[s][i*NQ+j], r, 1e-7, "flux solver is rotated back and forth" );
  }
  vp_reach( "end" );
#elif CASE == 3
  // transformations
  double R[3][3], t[NQ][NQ], ti[NQ][NQ];
  for( int i=0; i<NQ; i++ ) for( int j=0; j<NQ; j++ ) t[i][j]=ti[i][j]=7;
#if DIM == 2
  R[0][0] = vp_f64("nx",-1,1); R[1][0] = vp_f64("ny",-1,1); vp_assume( R[0][0]*R[0][0]+R[1][0]*R[1][0] == 1 ); R[0][1] = -R[1][0]; R[1][1] = R[0][0];
  CO::setupTrafo2d( R[0][0], R[1][0], t ); CO::setupTrafoInv2d( R[0][0], R[1][0], ti );
#else
  // any frame: columns n, s, t
  for( int k=0; k<3; k++ ) for( int i=0; i<3; i++ ) R[i][k] = vp_f64( "frame", -1, 1 );
  double det = R[0][0]*(R[1][1]*R[2][2]-R[1][2]*R[2][1]) - R[0][1]*(R[1][0]*R[2][2]-R[1][2]*R[2][0]) + R[0][2]*(R[1][0]*R[2][1]-R[1][1]*R[2][0]);
  vp_assume( det > 0.125 || det < -0.125 ); vp_assume( det*det > 0.015625 );
  CO::setupTrafo3d( R[0][0],R[1][0],R[2][0], R[0][1],R[1][1],R[2][1], R[0][2],R[1][2],R[2][2], t );
  CO::setupTrafoInv3d( R[0][0],R[1][0],R[2][0], R[0][1],R[1][1],R[2][1], R[0][2],R[1][2],R[2][2], ti );
#endif
#if DIM == 3
  for( int i=ROW; i<ROW+1; i++ ) for( int j=0; j<NQ; j++ ) {
    double p = 0; for( int k=0; k<NQ; k++ ) p += t[i][k]*ti[k][j];
    vp_close( p, i==j, 1e-7, "inverse transformation" );
  }
#endif
  for( int m=0; m<(DIM==2 ? 2 : 1); m++ ) for( int c=0; c<NQ; c++ ) {
    // transform unit vectors: stresses R s R^T and velocities R v (m=1: inverse)
    double S[3][3], V[3]; for( int i=0; i<DIM; i++ ) { V[i] = c == VX+i; for( int j=0; j<DIM; j++ ) S[i][j] = ST[i][j] == c; }
    for( int i=0; i<DIM; i++ ) {
      double v = 0; for( int k=0; k<DIM; k++ ) v += ( m ? R[k][i] : R[i][k] )*V[k];
      vp_close( (m ? ti : t)[VX+i][c], v, 1e-9, "velocities are rotated" );
      for( int j=i; j<DIM; j++ ) {
        double s = 0; for( int k=0; k<DIM; k++ ) for( int l=0; l<DIM; l++ ) if( S[k][l] != 0 ) s += ( m ? R[k][i] : R[i][k] )*( m ? R[l][j] : R[j][l] );
        vp_close( (m ? ti : t)[ST[i][j]][c], s, 1e-9, "stresses are rotated" );
      }
    }
  }
  vp_reach( "end" );
#elif CASE == 4
  // wave speeds and time steps
  t_bgPars bg[3][1]; t_elementChars ec[3]; double m[3];
  for( int e=0; e<3; e++ ) { bg[e][0].rho=P("rho"); bg[e][0].lam=P("lam"); bg[e][0].mu=P("mu"); ec[e].inDia=vp_f64("dia",0.25,4); }
  double cp = CO::getVelP( bg[0][0].rho, bg[0][0].lam, bg[0][0].mu ), cs = CO::getVelS( bg[0][0].rho, bg[0][0].mu );
  vp_close( cp*cp*bg[0][0].rho, bg[0][0].lam+2*bg[0][0].mu, 1e-6, "P-wave speed" ); vp_close( cs*cs*bg[0][0].rho, bg[0][0].mu, 1e-6, "S-wave speed" );
  vp_assert( cp > 0 && cs > 0, "speeds are positive" );
  double mi, av, ma; CO::getTimeStepStatsCFL( 3, ec, bg, mi, av, ma );
  double dt[3]; for( int e=0; e<3; e++ ) { dt[e] = SCALE_CFL*ec[e].inDia / ( (2*ORDER-1)*std::sqrt( (bg[e][0].lam+2*bg[e][0].mu)/bg[e][0].rho ) ); }
  for( int e=0; e<3; e++ ) { vp_assert( mi <= dt[e]*(1+1e-9), "no element exceeds its CFL time step" ); vp_assert( ma >= dt[e]*(1-1e-9), "maximum time step" ); vp_close( CO::getTimeStepCFL( bg[e][0].rho, bg[e][0].lam, bg[e][0].mu, ec[e].inDia, SCALE_CFL ), dt[e], 1e-9, "CFL time step" ); }

  vp_close( av, (dt[0]+dt[1]+dt[2])/3, 1e-9, "average time step" );
  vp_reach( "end" );
#elif CASE == 10
  // anelastic star matrices: strain rates
#define NS (DIM==2 ? 3 : 6)
  double ji[DIM][DIM], D[DIM][NS*DIM], S[DIM][DIM*DIM];
  for( int i=0; i<DIM; i++ ) for( int j=0; j<DIM; j++ ) ji[i][j] = vp_f64( "ji", -4, 4 );
  for( int d=0; d<DIM; d++ ) { for( int i=0; i<NS*DIM; i++ ) D[d][i] = 7; for( int i=0; i<DIM*DIM; i++ ) S[d][i] = 7; }
  VE::star( ji, D ); VE::star( ji, S );
  for( int d=0; d<DIM; d++ ) {
    double E[NS][DIM]; bool nz[NS][DIM];
    for( int i=0; i<NS*DIM; i++ ) { E[i/DIM][i%DIM] = 0; nz[i/DIM][i%DIM] = false; }
    for( int i=0; i<DIM; i++ ) for( int j=i; j<DIM; j++ ) { E[ST[i][j]][i] -= 0.5*ji[j][d]; E[ST[i][j]][j] -= 0.5*ji[i][d]; nz[ST[i][j]][i] = nz[ST[i][j]][j] = true; }
    int n = 0;
    for( int i=0; i<NS; i++ ) for( int j=0; j<DIM; j++ ) { vp_close( D[d][i*DIM+j], E[i][j], 1e-9, "anelastic star matrices: strain rates" ); if( nz[i][j] ) { vp_close( S[d][n], E[i][j], 1e-9, "compressed anelastic star matrices" ); n++; } }
    vp_assert( n == DIM*DIM, "number of non-zeros" );
  }
  vp_reach( "end" );
#elif CASE == 11
  // anelastic flux solvers in face-aligned coordinates
#define NS (DIM==2 ? 3 : 6)
  double rho[2]={P("rho"),P("rho")}, lam[2]={P("lam"),P("lam")}, mu[2]={P("mu"),P("mu")}, I[NQ][NQ], IA[NS][NS], f[2][NS*NQ];
  for( int i=0; i<NQ; i++ ) for( int j=0; j<NQ; j++ ) I[i][j] = i==j;
  for( int i=0; i<NS; i++ ) for( int j=0; j<NS; j++ ) IA[i][j] = i==j;
  for( int i=0; i<NS*NQ; i++ ) f[0][i]=f[1][i]=7;
  bool fr = FREE; if( fr ) { rho[1]=rho[0]; lam[1]=lam[0]; mu[1]=mu[0]; }
  VE::fs( rho[0], rho[1], lam[0], lam[1], mu[0], mu[1], IA, I, f[0], f[1], fr );
  double Z[2][2]; for( int s=0; s<2; s++ ) { Z[s][0] = rho[s]*std::sqrt( (lam[s]+2*mu[s])/rho[s] ); Z[s][1] = rho[s]*std::sqrt( mu[s]/rho[s] ); }
  for( int s=0; s<2; s++ ) for( int c=0; c<NQ; c++ ) {
    double F[NS]; for( int i=0; i<NS; i++ ) F[i] = 0;
    for( int d=0; d<DIM; d++ ) {
      double q = c == TR[d], v = c == VX+d, a = Z[0][d>0], b = Z[1][d>0];
      if( fr && s && c == TR[d] ) q = -1;
      F[TR[d]] = -( s ? q + b*v : -q + a*v ) / (a+b) * ( d ? 0.5 : 1 );
    }
    for( int i=0; i<NS; i++ ) vp_close( f[s][i*NQ+c], F[i], 1e-9, "anelastic flux solver: strain rates of the middle state" );
  }
  vp_reach( "end" );
#elif CASE == 12
#define NS (DIM==2 ? 3 : 6)
  double t[NS][NS], ti[NQ][NQ], I[NQ][NQ], IA[NS][NS], f[2][NS*NQ], g[2][NS*NQ];
  double rho[2]={1,2}, lam[2]={2,4}, mu[2]={1,0.5};
  for( int i=0; i<NQ; i++ ) for( int j=0; j<NQ; j++ ) { I[i][j] = i==j; ti[i][j] = vp_f64( "ti", -2, 2 ); }
  for( int i=0; i<NS; i++ ) for( int j=0; j<NS; j++ ) { IA[i][j] = i==j; t[i][j] = vp_f64( "t", -2, 2 ); }
  for( int i=0; i<NS*NQ; i++ ) f[0][i]=f[1][i]=g[0][i]=g[1][i]=7;
  bool fr = vp_pick( "free", 0, 1 );
  VE::fs( rho[0], rho[1], lam[0], lam[1], mu[0], mu[1], IA, I, f[0], f[1], fr );
  VE::fs( rho[0], rho[1], lam[0], lam[1], mu[0], mu[1], t, ti, g[0], g[1], fr );
  for( int s=0; s<2; s++ ) for( int i=0; i<NS; i++ ) for( int j=0; j<NQ; j++ ) {
    double r = 0; for( int k=0; k<NS; k++ ) for( int l=0; l<NQ; l++ ) if( f[s][k*NQ+l] != 0 ) r += t[i][k]*f[s][k*NQ+l]*ti[l][j];
    vp_close( g[s][i*NQ+j], r, 1e-7, "anelastic flux solver is rotated back and forth" );
  }
  vp_reach( "end" );
#elif CASE == 13
  // attenuation: quality factors and phase velocities
#define NS (DIM==2 ? 3 : 6)
#define NZ (DIM==2 ? 5 : 12)
  double qp = vp_f64( "qp", 20, 1000 ), qs = vp_f64( "qs", 20, 1000 ), lam = VAR ? 5 : vp_f64( "lam", 4, 8 ), mu = VAR ? 1.5 : vp_f64( "mu", 0.5, 2 ), fc = FC, fr = FR;
  double le, me, D[NM][NS*NS], S[NM][NZ], le2, me2, w[2*NM-1];
  Eigen::VpRec &e = Eigen::vpRec(); e.n = 0;
  for( int m=0; m<NM; m++ ) { e.x[2][m] = e.x[0][m] = m+1 == VAR ? vp_f64( "yp", 0, 0.25/NM ) : 0.03125+0.0625*m/NM; e.x[3][m] = e.x[1][m] = m+1 == VAR ? vp_f64( "ys", 0, 0.25/NM ) : 0.0625; }
  VE::frequencies( NM, fc, fr, w );
  for( int k=0; k<2*NM-1; k++ ) { double e = 2*3.14159265358979323846*fc/std::sqrt( fr ); if( k ) e *= std::pow( fr, k/(2.*NM-2+(NM==1)) ); vp_assert( std::abs( w[k]-e ) < 1e-9*e, "relaxation frequencies are equidistant on a logarithmic scale" ); }
  VE::src( NM, fc, fr, qp, qs, lam, mu, le, me, D ); VE::src( NM, fc, fr, qp, qs, lam, mu, le2, me2, S );
  vp_assert( e.n == 4, "one fit per wave type" );
  for( int p=0; p<4; p++ ) {
    double q = 1/(p%2 ? qs : qp);
    vp_assert( e.r[p] == 2*NM-1 && e.c[p] == NM, "fit at the relaxation frequencies" );
    for( int k=0; k<2*NM-1; k++ ) { vp_close( e.b[p][k], q, 1e-12, "fit of the quality factor" ); for( int l=0; l<NM; l++ ) vp_close( e.a[p][k][l], ( w[2*l]*w[k] + w[2*l]*w[2*l]*q )/( w[2*l]*w[2*l]+w[k]*w[k] ), 1e-9, "fit of the quality factor" ); }
  }
  vp_close( le, le2, 1e-9, "dense and compressed" ); vp_close( me, me2, 1e-9, "dense and compressed" );
  for( int m=0; m<NM; m++ ) {
    int n = 0; double a = -(le+2*me)*e.x[0][m], b = -2*me*e.x[1][m];
    for( int i=0; i<NS; i++ ) for( int j=0; j<NS; j++ ) {
      double v = i==j ? ( i<DIM ? a : b ) : i<DIM && j<DIM ? a-b : 0;
      vp_close( D[m][i*NS+j], v, 1e-9, "isotropic source matrices of the unrelaxed moduli and anelastic coefficients" );
      if( i==j || ( i<DIM && j<DIM ) ) { vp_close( S[m][n], v, 1e-9, "compressed source matrices" ); n++; }
    }
    vp_assert( n == NZ, "number of non-zeros" );
  }
  for( int p=0; p<2; p++ ) {
    double t1 = 1, t2 = 0;
    for( int m=0; m<NM; m++ ) { double x = 2*3.14159265358979323846*fc/w[2*m]; t1 -= e.x[p][m]/(1+x*x); t2 += e.x[p][m]*x/(1+x*x); }
    double R = std::sqrt( t1*t1+t2*t2 );
    vp_close( (p ? me : le+2*me)*2*R*R, (p ? mu : lam+2*mu)*(R+t1), 1e-6, "phase velocity at the central frequency" );
  }
  vp_reach( "end" );
#endif
}
