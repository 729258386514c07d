// Harness interface: symbolic inputs, assumptions, assertions (symbolic executor and native replay).
#ifndef VP_H
#define VP_H
#include <stdint.h>
extern "C" {
uint64_t vp_u64( char const *name, uint64_t lo, uint64_t hi );
bool     vp_bool( char const *name );
double   vp_f64( char const *name, double lo, double hi );
float    vp_f32( char const *name, float lo, float hi );
uint64_t vp_concrete( uint64_t v );
void     vp_assume( bool c );
void     vp_assert_( bool c, char const *label );
void     vp_close_( double a, double b, double tol, char const *label );
void     vp_same_( double a, double b, char const *label );
void     vp_samef_( float a, float b, char const *label );
void     vp_reach( char const *label );
void     vp_allow_abort( int on );
void     vp_end();
[[noreturn]] void vp_check_failed( char const *label );
void     vp_dbg( char const *l, uint64_t v );
void     vp_dbgf( char const *l, double v );
}
#define vp_assert(c,l) vp_assert_((c),(l))
#define vp_close(a,b,t,l) vp_close_((double)(a),(double)(b),(t),(l))
static inline void vp_same(double a,double b,char const*l){vp_same_(a,b,l);}
static inline void vp_samef(float a,float b,char const*l){vp_samef_(a,b,l);}
// symbolic value enumerated by forking right away
static inline uint64_t vp_pick( char const *n, uint64_t lo, uint64_t hi ) { return vp_concrete( vp_u64(n,lo,hi) ); }
#ifndef VP_PARAM
#define VP_PARAM 0
#endif
#endif
