// executable specification of the used part of the LIBXSMM interface
#ifndef VP_LIBXSMM_H
#define VP_LIBXSMM_H
#include <vector>
#define LIBXSMM_GEMM_FLAGS(a,b) 0
#ifndef VP_KNM
#define VP_KNM 0
#endif
enum libxsmm_gemm_prefetch_type { LIBXSMM_GEMM_PREFETCH_NONE, LIBXSMM_GEMM_PREFETCH_BL2_VIA_C, LIBXSMM_GEMM_PREFETCH_AL2BL2_VIA_C_AHEAD };
enum libxsmm_gemm_precision { LIBXSMM_GEMM_PRECISION_F64, LIBXSMM_GEMM_PRECISION_F32 };
enum { LIBXSMM_X86_AVX512_KNM = 1 };
static inline int libxsmm_get_target_archid() { return VP_KNM; }
struct libxsmm_gemm_descriptor { libxsmm_gemm_precision p; unsigned m, n, k, lda, ldb, ldc; double alpha, beta; };
struct libxsmm_descriptor_blob { libxsmm_gemm_descriptor d; };
struct libxsmm_kernel_info { unsigned nflops; };
// kind 0: dense, column major; 1: fused, A is sparse (CSR); 2: fused, B is sparse (CSC); 3: fused, B is dense row-major
struct vp_kernel { int kind; libxsmm_gemm_descriptor d; unsigned w; std::vector< unsigned > ptr, idx; };
template< typename R > struct vp_fun {
  vp_kernel *k;
  vp_fun(): k(nullptr) {}
  bool operator!=( int ) const { return k != nullptr; }
  bool operator==( int ) const { return k == nullptr; }
  explicit operator const void *() const { return k; }
  void operator()( R const *a, R const *b, R *c, R const * =nullptr, R const * =nullptr, R const * =nullptr ) const {
    libxsmm_gemm_descriptor const &d = k->d; unsigned w = k->w;
    R be = d.beta, al = d.alpha;
    if( k->kind == 0 ) {
      for( unsigned j=0; j<d.n; j++ ) for( unsigned i=0; i<d.m; i++ ) {
        R s = be == 0 ? R(0) : c[j*d.ldc+i];
        for( unsigned l=0; l<d.k; l++ ) s += a[l*d.lda+i] * b[j*d.ldb+l];
        c[j*d.ldc+i] = s;
      }
      return;
    }
    // row-major matrices with the fused simulations as fastest dimension
    if( be == 0 ) for( unsigned i=0; i<d.m; i++ ) for( unsigned j=0; j<d.n; j++ ) for( unsigned f=0; f<w; f++ ) c[(i*d.ldc+j)*w+f] = 0;
    if( k->kind == 1 ) {
      for( unsigned i=0; i<d.m; i++ ) for( unsigned e=k->ptr[i]; e<k->ptr[i+1]; e++ )
        for( unsigned j=0; j<d.n; j++ ) for( unsigned f=0; f<w; f++ ) c[(i*d.ldc+j)*w+f] += a[e] * b[(k->idx[e]*d.ldb+j)*w+f];
    }
    else if( k->kind == 2 ) {
      for( unsigned j=0; j<d.n; j++ ) for( unsigned e=k->ptr[j]; e<k->ptr[j+1]; e++ )
        for( unsigned i=0; i<d.m; i++ ) for( unsigned f=0; f<w; f++ ) c[(i*d.ldc+j)*w+f] += a[(i*d.lda+k->idx[e])*w+f] * b[e];
    }
    else {
      for( unsigned i=0; i<d.m; i++ ) for( unsigned j=0; j<d.n; j++ ) for( unsigned l=0; l<d.k; l++ )
        for( unsigned f=0; f<w; f++ ) c[(i*d.ldc+j)*w+f] += a[(i*d.lda+l)*w+f] * b[l*d.ldb+j];
    }
    (void) al;
  }
};
typedef vp_fun< float > libxsmm_smmfunction; typedef vp_fun< double > libxsmm_dmmfunction;
struct libxsmm_xmmfunction { libxsmm_smmfunction smm; libxsmm_dmmfunction dmm; };
static inline libxsmm_gemm_descriptor *libxsmm_gemm_descriptor_dinit( libxsmm_descriptor_blob *b, libxsmm_gemm_precision p, unsigned m, unsigned n, unsigned k,
    unsigned lda, unsigned ldb, unsigned ldc, double alpha, double beta, int, int ) {
  b->d.p=p; b->d.m=m; b->d.n=n; b->d.k=k; b->d.lda=lda; b->d.ldb=ldb; b->d.ldc=ldc; b->d.alpha=alpha; b->d.beta=beta; return &b->d;
}
static inline libxsmm_xmmfunction vp_make( int kind, libxsmm_gemm_descriptor const *d, unsigned w, unsigned const *ptr, unsigned const *idx ) {
  vp_kernel *k = new vp_kernel; k->kind = kind; k->d = *d; k->w = w;
  unsigned np = kind==1 ? d->m : kind==2 ? d->n : 0;
  if( np ) { for( unsigned i=0; i<=np; i++ ) k->ptr.push_back( ptr[i] ); for( unsigned i=0; i<ptr[np]; i++ ) k->idx.push_back( idx[i] ); }
  libxsmm_xmmfunction f; f.smm.k = d->p == LIBXSMM_GEMM_PRECISION_F32 ? k : nullptr; f.dmm.k = d->p == LIBXSMM_GEMM_PRECISION_F64 ? k : nullptr; return f;
}
static inline libxsmm_xmmfunction libxsmm_xmmdispatch( libxsmm_gemm_descriptor const *d ) { return vp_make( 0, d, 1, nullptr, nullptr ); }
static inline libxsmm_xmmfunction libxsmm_create_packed_spxgemm_csr( libxsmm_gemm_descriptor const *d, unsigned w, unsigned const *p, unsigned const *i, void const * ) { return vp_make( 1, d, w, p, i ); }
static inline libxsmm_xmmfunction libxsmm_create_packed_spxgemm_csc( libxsmm_gemm_descriptor const *d, unsigned w, unsigned const *p, unsigned const *i, void const * ) { return vp_make( 2, d, w, p, i ); }
static inline libxsmm_xmmfunction libxsmm_create_packed_xgemm_ac_rm( libxsmm_gemm_descriptor const *d, unsigned w ) { return vp_make( 3, d, w, nullptr, nullptr ); }
static inline void libxsmm_get_kernel_info( void const *, libxsmm_kernel_info *i ) { i->nflops = 0; }
#endif
