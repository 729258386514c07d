// edge_v CFL time steps and element averages of velocity models
#include "vp.h"
#include "constants.h"
#include "models/Model.cpp"
#include "time/Cfl.cpp"
using namespace edge_v;
struct Mo: public models::Model {
  double s[8];
  void init( t_idx, double const (*)[3] ) {} void free() {}
  double getMinSpeed( t_idx i ) const { return s[i]*0.5; }
  double getMaxSpeed( t_idx i ) const { return s[i]; }
};
extern "C" void vp_entry() {
  unsigned short const nv = CE_N_VES( ELTY );
  t_idx elVe[NELS*8]; double crd[8][3] = {}, dia[NELS]; Mo m;
  for( int e=0; e<NELS; e++ ) { for( int v=0; v<nv; v++ ) elVe[e*nv+v] = ( v + e*(1+e) ) % 8; dia[e] = vp_f64( "dia", 0.01, 10 ); }
  for( int i=0; i<8; i++ ) m.s[i] = vp_f64( "speed", 0.1, 100 );
  bool el = vp_pick( "elementModel", 0, 1 );
  time::Cfl c( ELTY, 8, NELS, elVe, crd, dia, el, m );
  double ex[NELS];
  for( int e=0; e<NELS; e++ ) {
    double s = 0;
    if( el ) s = m.s[e]; else { for( int v=0; v<nv; v++ ) s += m.s[elVe[e*nv+v]]; s /= nv; }
    ex[e] = dia[e] / s;
  }
  bool one = false;
  for( int e=0; e<NELS; e++ ) {
    vp_assert( c.getTimeSteps()[e] >= 1-1e-9, "no element's normalized time step is below one" );
    if( c.getTimeSteps()[e] <= 1+1e-9 ) one = true;
    for( int f=0; f<e; f++ ) vp_close( c.getTimeSteps()[e]*ex[f], c.getTimeSteps()[f]*ex[e], 1e-6, "time steps are proportional to diameter over speed" );
  }
  vp_assert( one, "the minimum time step is normalized to one" );
  float vv[8], ve[NELS]; for( int i=0; i<8; i++ ) vv[i] = vp_f64( "vel", -100, 100 );
  for( int e=0; e<NELS; e++ ) ve[e] = vp_f64( "before", -10, 10 );
  m.getElAve( nv, NELS, elVe, vv, ve );
  for( int e=0; e<NELS; e++ ) { double s = 0; for( int v=0; v<nv; v++ ) s += vv[elVe[e*nv+v]]; vp_close( ve[e]*(double)nv, s, 1e-2, "element average of the vertex values" ); }
  vp_reach( "end" );
}
