// reference matrices and a stand-in of the basis
using namespace edge;
#define EL T_SDISC.ELEMENT
#define DIM PP_N_DIM
#define ORD PP_ORDER
#define R real_base
#define NM CE_N_ELEMENT_MODES( EL, ORD )
#define NMF CE_N_ELEMENT_MODES( C_ENT[EL].TYPE_FACES, ORD )
#define NF C_ENT[EL].N_FACES
#define NFN CE_N_FLUXN_MATRICES( EL )
#define CR PP_N_CRUNS
// reference matrices: integer entries, hierarchical sparsity
static R g_st[DIM][NM][NM], g_stT[DIM][NM][NM], g_fL[NF][NM][NMF], g_fN[NFN][NM][NMF], g_fT[NF][NMF][NM];
static unsigned g_rnd = 1;
static int rnd() { g_rnd = ( g_rnd * 1103515245u + 12345u ) & 0x7fffffffu; int v = (int)( ( g_rnd >> 16 ) % 7 ) - 3; return v == 0 ? 4 : v; }
static int deg( unsigned m ) { int d = 0; while( (int) CE_N_ELEMENT_MODES( EL, d+1 ) <= (int) m ) d++; return d; }
static void basis() {
  bool h = EL == TRIA3 || EL == TET4;
  for( int d=0; d<DIM; d++ ) for( unsigned i=0; i<NM; i++ ) for( unsigned j=0; j<NM; j++ ) {
    bool z = h ? deg(j) >= deg(i) : ( (i+j+d) % 3 == 0 );
    int v = z ? 0 : rnd(); if( v && (i*3+j+d)%5 == 0 ) v = h && deg(i) - deg(j) > 1 ? 0 : v;
    g_stT[d][i][j] = v; g_st[d][j][i] = z ? 0 : rnd();
  }
  for( unsigned f=0; f<NF; f++ ) for( unsigned i=0; i<NM; i++ ) for( unsigned j=0; j<NMF; j++ ) { g_fL[f][i][j] = (f+i+2*j)%4==1 ? 0 : rnd(); g_fT[f][j][i] = (f+2*i+j)%4==1 ? 0 : rnd(); }
  for( unsigned f=0; f<NFN; f++ ) for( unsigned i=0; i<NM; i++ ) for( unsigned j=0; j<NMF; j++ ) g_fN[f][i][j] = (f+2*i+j)%3==1 ? 0 : rnd();
}
// stand-in of the basis: hands out the reference matrices
#define BASIS_HPP
namespace edge { namespace dg { class Basis { public: Basis( t_entityType, unsigned short ) {}
  template< typename T > void getStiffMm1Dense( unsigned, T *o, bool t ) const { for( int i=0; i<DIM*(int)NM*(int)NM; i++ ) o[i] = t ? g_stT[0][0][i] : g_st[0][0][i]; }
  template< typename T > void getFluxDense( T *l, T *n, T *t ) const {
    for( int i=0; i<(int)NF*(int)NM*(int)NMF; i++ ) { l[i] = g_fL[0][0][i]; t[i] = g_fT[0][0][i]; }
    for( int i=0; i<(int)NFN*(int)NM*(int)NMF; i++ ) n[i] = g_fN[0][0][i];
  } }; } }
