// stand-in for the third-party wykobi submodule (not part of the checkout): closest points on triangles, angles
#ifndef VP_WYKOBI_HPP
#define VP_WYKOBI_HPP
#include <cmath>
namespace wykobi {
  template< typename T > struct point2d { T v[2]; T & operator[]( std::size_t i ) { return v[i]; } T const & operator[]( std::size_t i ) const { return v[i]; } };
  template< typename T > struct point3d { T v[3]; T & operator[]( std::size_t i ) { return v[i]; } T const & operator[]( std::size_t i ) const { return v[i]; } };
  template< typename T, std::size_t D > struct vp_pt;
  template< typename T > struct vp_pt< T, 2 > { typedef point2d< T > t; };
  template< typename T > struct vp_pt< T, 3 > { typedef point3d< T > t; };
  template< typename T, std::size_t D > struct triangle { typename vp_pt< T, D >::t p[3]; typename vp_pt< T, D >::t & operator[]( std::size_t i ) { return p[i]; } typename vp_pt< T, D >::t const & operator[]( std::size_t i ) const { return p[i]; } };
  // Ericson, Real-Time Collision Detection
  template< typename T, int D, typename P > P vp_closest( P const &a, P const &b, P const &c, P const &p ) {
    T ab[D], ac[D], ap[D], d1=0, d2=0, d3=0, d4=0, d5=0, d6=0; P r = a;
    for( int i=0; i<D; i++ ) { ab[i]=b[i]-a[i]; ac[i]=c[i]-a[i]; ap[i]=p[i]-a[i]; d1+=ab[i]*ap[i]; d2+=ac[i]*ap[i]; }
    if( d1 <= 0 && d2 <= 0 ) return a;
    for( int i=0; i<D; i++ ) { d3+=ab[i]*(p[i]-b[i]); d4+=ac[i]*(p[i]-b[i]); }
    if( d3 >= 0 && d4 <= d3 ) return b;
    T vc = d1*d4-d3*d2;
    if( vc <= 0 && d1 >= 0 && d3 <= 0 ) { T v = d1/(d1-d3); for( int i=0; i<D; i++ ) r[i] = a[i]+v*ab[i]; return r; }
    for( int i=0; i<D; i++ ) { d5+=ab[i]*(p[i]-c[i]); d6+=ac[i]*(p[i]-c[i]); }
    if( d6 >= 0 && d5 <= d6 ) return c;
    T vb = d5*d2-d1*d6;
    if( vb <= 0 && d2 >= 0 && d6 <= 0 ) { T w = d2/(d2-d6); for( int i=0; i<D; i++ ) r[i] = a[i]+w*ac[i]; return r; }
    T va = d3*d6-d5*d4;
    if( va <= 0 && (d4-d3) >= 0 && (d5-d6) >= 0 ) { T w = (d4-d3)/((d4-d3)+(d5-d6)); for( int i=0; i<D; i++ ) r[i] = b[i]+w*(c[i]-b[i]); return r; }
    T den = 1/(va+vb+vc), v = vb*den, w = vc*den; for( int i=0; i<D; i++ ) r[i] = a[i]+ab[i]*v+ac[i]*w;
    return r;
  }
  template< typename T > point2d< T > closest_point_on_triangle_from_point( triangle< T, 2 > const &t, T x, T y ) { point2d< T > p; p[0]=x; p[1]=y; return vp_closest< T, 2 >( t[0], t[1], t[2], p ); }
  template< typename T > point3d< T > closest_point_on_triangle_from_point( triangle< T, 3 > const &t, point3d< T > const &p ) { return vp_closest< T, 3 >( t[0], t[1], t[2], p ); }
  template< typename T > T distance( point3d< T > const &a, point3d< T > const &b ) { T s=0; for( int i=0; i<3; i++ ) s += (a[i]-b[i])*(a[i]-b[i]); return std::sqrt( s ); }
  template< typename T > T robust_cartesian_angle( T x, T y ) { T a = std::atan2( y, x )*T(180.0/3.14159265358979323846); return a < 0 ? a+360 : a; }
}
#endif
