// Stand-in for easylogging++: output dropped, a failed CHECK / LOG(FATAL) ends the program (as the original does).
#ifndef VP_EASYLOGGING_STUB
#define VP_EASYLOGGING_STUB
#include "vp.h"
struct VpNull { template< typename T > VpNull const & operator<<( T const & ) const { return *this; }
                VpNull const & operator<<( std::ostream & (*)( std::ostream & ) ) const { return *this; } };
struct VpVoidify { void operator&( VpNull const & ) const {} };
static inline VpNull vpFail( char const *l ) { vp_check_failed( l ); return VpNull(); }
#define VP_DROP (true) ? (void)0 : VpVoidify() & VpNull()
#define VP_LOG_INFO    VP_DROP
#define VP_LOG_TRACE   VP_DROP
#define VP_LOG_DEBUG   VP_DROP
#define VP_LOG_ERROR   VP_DROP
#define VP_LOG_WARNING VP_DROP
#define VP_LOG_VERBOSE VP_DROP
#define VP_LOG_FATAL   (false) ? (void)0 : VpVoidify() & vpFail( "LOG(FATAL)" )
#define LOG(l) VP_LOG_##l
#define LOG_IF(c,l) VP_LOG_##l
#define VLOG(l) VP_DROP
#define VLOG_IF(c,l) VP_DROP
#define VLOG_IS_ON(l) false
#define CHECK(c) (c) ? (void)0 : VpVoidify() & vpFail( #c )
#define CHECK_EQ(a,b) ((a) == (b)) ? (void)0 : VpVoidify() & vpFail( #a " == " #b )
#define CHECK_NE(a,b) ((a) != (b)) ? (void)0 : VpVoidify() & vpFail( #a " != " #b )
#define CHECK_LT(a,b) ((a) <  (b)) ? (void)0 : VpVoidify() & vpFail( #a " < " #b )
#define CHECK_GT(a,b) ((a) >  (b)) ? (void)0 : VpVoidify() & vpFail( #a " > " #b )
#define CHECK_LE(a,b) ((a) <= (b)) ? (void)0 : VpVoidify() & vpFail( #a " <= " #b )
#define CHECK_GE(a,b) ((a) >= (b)) ? (void)0 : VpVoidify() & vpFail( #a " >= " #b )
#define INITIALIZE_EASYLOGGINGPP
#endif
