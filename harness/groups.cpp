// edge_v time groups: assignment, stability, single-level jumps, counts
#include "vp.h"
#include "constants.h"
#include "time/Groups.cpp"
#ifndef NELS
#define NELS 3
#endif
#ifndef NR
#define NR 2
#endif
#ifndef BACK
#define BACK 0
#endif
#ifndef ELTY
#define ELTY TRIA3
#endif
using namespace edge_v;
extern "C" void vp_entry() {
  t_idx const l_max = std::numeric_limits< t_idx >::max();
  unsigned short const l_nFa = CE_N_FAS( ELTY );
  // symmetric face adjacency, arbitrary graph with bounded degree, faces filled from the front or from the back
  bool l_adj[NELS][NELS] = {};
  t_idx l_elFaEl[NELS*8];
  unsigned short l_deg[NELS] = {};
  for( int i=0; i<NELS*8; i++ ) l_elFaEl[i] = l_max;
  bool l_back = BACK;
  for( t_idx i=0; i<NELS; i++ ) for( t_idx j=i+1; j<NELS; j++ ) {
    bool a = false;
    if( l_deg[i] < l_nFa && l_deg[j] < l_nFa ) a = vp_pick( "adj", 0, 1 );
    l_adj[i][j] = l_adj[j][i] = a;
    if( a ) {
      unsigned short fi = l_back ? l_nFa-1-l_deg[i] : l_deg[i], fj = l_back ? l_nFa-1-l_deg[j] : l_deg[j];
      l_elFaEl[i*l_nFa+fi] = j; l_elFaEl[j*l_nFa+fj] = i; l_deg[i]++; l_deg[j]++;
    }
  }
  double l_rates[NR+1]; double l_ts[NELS];
  double l_fun = vp_f64( "funDt", 0, 1 ); vp_assume( l_fun > 0 );
  for( int r=0; r<NR; r++ ) { l_rates[r] = vp_f64( "rate", 1, 2 ); vp_assume( l_rates[r] > 1 ); }
  for( int e=0; e<NELS; e++ ) l_ts[e] = vp_f64( "ts", 1, 1000 );

  time::Groups l_gr( ELTY, NELS, l_elFaEl, NR, l_rates, l_fun, l_ts );

  vp_assert( l_gr.nGroups() == NR+1, "number of groups" );
  double const * l_iv = l_gr.getTsIntervals();
  double l_ref = l_fun;
  for( int r=0; r<=NR; r++ ) { vp_close( l_iv[r], l_ref, 1e-9, "interval is the product of fundamental step and rates" ); if( r < NR ) l_ref *= l_rates[r]; }
  vp_assert( l_iv[NR+1] > 1e300, "last interval is unbounded" );

  unsigned short const * l_tg = l_gr.getElTg();
  t_idx l_cnt[NR+1] = {};
  unsigned short l_ini[NELS]; int l_exp[NELS];
  for( int e=0; e<NELS; e++ ) {
    l_ini[e] = 0;
    for( unsigned short g=1; g<=NR; g++ ) if( l_ts[e] >= l_iv[g] ) l_ini[e] = g;
    l_exp[e] = l_ini[e];
  }
  for( int it=0; it<NELS; it++ ) for( int i=0; i<NELS; i++ ) for( int j=0; j<NELS; j++ )
    if( l_adj[i][j] && l_exp[i] > l_exp[j]+1 ) l_exp[i] = l_exp[j]+1;
  for( int e=0; e<NELS; e++ ) {
    vp_assert( l_tg[e] <= NR, "time group in range" );
    unsigned short g = l_tg[e];
    vp_assert( l_iv[g] <= l_ts[e], "time step of the group does not exceed the element's CFL time step" );
    for( int j=0; j<NELS; j++ ) if( l_adj[e][j] ) vp_assert( l_tg[e] <= l_tg[j]+1, "face-adjacent elements differ by at most one group" );
    vp_assert( g == l_exp[e], "largest admissible group assignment" );
    l_cnt[g]++;
  }
  for( int g=0; g<=NR; g++ ) vp_assert( l_gr.nGroupEls()[g] == l_cnt[g], "number of elements per group" );
#ifdef REGION
  // region counts
  t_idx l_first = vp_pick( "first", 0, NELS ), l_num = vp_pick( "num", 0, NELS-l_first );
  t_idx l_reg[NR+1];
  l_gr.nGroupEls( l_first, l_num, l_reg );
  for( int g=0; g<=NR; g++ ) {
    t_idx c = 0; for( t_idx e=l_first; e<l_first+l_num; e++ ) c += l_tg[e] == g;
    vp_assert( l_reg[g] == c, "number of elements per group in a region" );
  }
#endif
  // theoretical speedup: GTS updates over updates with the final groups
  double l_load = 0; for( int e=0; e<NELS; e++ ) l_load += 1.0 / l_iv[l_tg[e]];
  vp_close( l_gr.getSpeedUp() * l_load, (double) NELS, 1e-3, "LTS speedup" );
  vp_reach( "end" );
}
