// stand-in of EDGE-V's library: an annotated mesh in memory
#ifndef VP_EDGE_V_H
#define VP_EDGE_V_H
#include <cstddef>
#include <string>
#include "vp.h"
namespace edge_v {
  typedef unsigned short t_idx16; typedef long long t_sparseType;
  enum t_entityType { POINT, LINE, QUAD4R, TRIA3, HEX8R, TET4 };
  inline unsigned short CE_N_FAS( t_entityType t ) { return t == LINE ? 2 : t == TRIA3 ? 3 : t == HEX8R ? 6 : 4; }
  struct Ann { // annotations and mesh
    std::size_t nEls, nFas, nVes; t_entityType ty;
    std::size_t elFaEl[64]; unsigned short veAd[64], faAd[64]; t_sparseType spVe[16], spFa[64], spEl[16];
    bool lts, mpi; std::size_t nTgs, nIn[4], nSe[4]; double rel[5];
    std::size_t nCo, cs[1+16], sendEl[16], recvEl[16]; unsigned short sendFa[16], recvFa[16], sendVe[16], sendFi[16]; std::size_t nCs;
    float data[16]; std::size_t nData;
  };
  extern Ann g_ann;
  namespace io {
    struct Gmsh { void setNumber( std::string const &, double ) {} void open( std::string const & ) {} void readMesh() {} };
    struct Hdf5 {
      Hdf5( std::string const &, bool=true, std::string const & = "" ) {}
      static int id( std::string const &n ) {
        char const *t[] = { "n_time_group_elements_inner", "n_time_group_elements_send", "relative_time_steps", "communication_structure", "send_el", "send_fa", "recv_el", "recv_fa", "send_vertex_ids", "send_face_ids" };
        for( int i=0; i<10; i++ ) if( n == std::string( "/edge_v/" ) + t[i] ) return i;
        return n == "/data" ? 10 : 11;
      }
      bool exists( std::string const &n ) const { int i = id(n); return i < 3 ? g_ann.lts : i < 10 ? g_ann.mpi : i == 10; }
      std::size_t nVas( std::string const &n ) const { int i = id(n); vp_assert( exists(n), "only existing annotations are read" ); return i < 2 ? g_ann.nTgs : i == 2 ? g_ann.nTgs+1 : i == 3 ? g_ann.nCs : i == 10 ? g_ann.nData : g_ann.nCo; }
      void get( std::string const &n, unsigned short *o ) const { int i = id(n); unsigned short const *s = i == 5 ? g_ann.sendFa : i == 7 ? g_ann.recvFa : i == 8 ? g_ann.sendVe : i == 9 ? g_ann.sendFi : nullptr; vp_assert( s != nullptr, "type of the annotation" ); for( std::size_t k=0; k<nVas(n); k++ ) o[k] = s[k]; }
      void get( std::string const &n, std::size_t *o ) const { int i = id(n); std::size_t const *s = i == 0 ? g_ann.nIn : i == 1 ? g_ann.nSe : i == 3 ? g_ann.cs : i == 4 ? g_ann.sendEl : i == 6 ? g_ann.recvEl : nullptr; vp_assert( s != nullptr, "type of the annotation" ); for( std::size_t k=0; k<nVas(n); k++ ) o[k] = s[k]; }
      void get( std::string const &n, double *o ) const { vp_assert( id(n) == 2, "type of the annotation" ); for( std::size_t k=0; k<nVas(n); k++ ) o[k] = g_ann.rel[k]; }
      void get( std::string const &n, float *o ) const { vp_assert( id(n) == 10, "type of the annotation" ); for( std::size_t k=0; k<nVas(n); k++ ) o[k] = g_ann.data[k]; }
    };
  }
  namespace mesh {
    struct Mesh {
      Mesh( io::Gmsh const &, int ) {}
      std::size_t nEls() const { return g_ann.nEls; } std::size_t nFas() const { return g_ann.nFas; } std::size_t nVes() const { return g_ann.nVes; }
      t_entityType getTypeEl() const { return g_ann.ty; }
      std::size_t const *getElFaEl() const { return g_ann.elFaEl; }
      t_sparseType const *getSpTypeVe() const { return g_ann.spVe; } t_sparseType const *getSpTypeFa() const { return g_ann.spFa; } t_sparseType const *getSpTypeEl() const { return g_ann.spEl; }
      template< typename T > static void ids( std::size_t n, T off, std::size_t const *el, unsigned short const *fa, unsigned short *o, unsigned short const *s ) {
        for( std::size_t i=0; i<n; i++ ) { std::size_t e = el[i] + off; vp_assert( g_ann.elFaEl[e*CE_N_FAS(g_ann.ty)+fa[i]] < g_ann.nEls, "ids are only requested for local adjacency" ); o[i] = s[e*CE_N_FAS(g_ann.ty)+fa[i]]; } }
      void getVeIdsAd( std::size_t n, std::size_t off, std::size_t const *el, unsigned short const *fa, unsigned short *o ) const { ids( n, off, el, fa, o, g_ann.veAd ); }
      void getFaIdsAd( std::size_t n, std::size_t off, std::size_t const *el, unsigned short const *fa, unsigned short *o ) const { ids( n, off, el, fa, o, g_ann.faAd ); }
      // distinct arrays
      template< typename T > static T *arr( int i ) { static T a[8][1]; return a[i]; }
      std::size_t const *getFaVe() const { return arr< std::size_t >(0); } std::size_t const *getFaEl() const { return arr< std::size_t >(1); } std::size_t const *getElVe() const { return arr< std::size_t >(2); } std::size_t const *getElFa() const { return arr< std::size_t >(3); }
      double const (*getVeCrds())[3] { return arr< double[3] >(0); } double const (*getNormalsFa())[3] { return arr< double[3] >(1); } double const (*getTangentsFa())[2][3] { return arr< double[2][3] >(0); }
      double const *getAreasFa() { return arr< double >(0); } double const *getVolumesEl() { return arr< double >(1); } double const *getInDiasEl() { return arr< double >(2); }
    };
  }
}
#endif
