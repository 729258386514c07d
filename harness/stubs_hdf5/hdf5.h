// in-memory stand-in for reading data sets of HDF5 files
#ifndef VP_HDF5_H
#define VP_HDF5_H
#include <stdint.h>
static inline bool vp_streq( char const *a, char const *b ) { while( *a && *a == *b ) { a++; b++; } return *a == *b; }
typedef int herr_t; typedef long hid_t; typedef unsigned long long hsize_t; typedef int H5T_class_t;
struct vp_h5ds { char const *file; char const *name; int cls; int nd; hsize_t dims[2]; double const *d; };
extern vp_h5ds vp_h5[]; extern int vp_h5n;
static char const *vp_h5file[64]; static int vp_h5nf;
#define H5F_ACC_RDONLY 0u
#define H5P_DEFAULT 0L
#define H5S_ALL 0L
#define H5T_INTEGER 0
#define H5T_FLOAT 1
#define H5T_NATIVE_FLOAT 901L
#define H5T_NATIVE_DOUBLE 902L
#define H5T_NATIVE_UINT64 903L
static inline hid_t H5Fopen( char const *p, unsigned, hid_t ) { for( int i=0; i<vp_h5n; i++ ) if( vp_streq( vp_h5[i].file, p ) ) { vp_h5file[vp_h5nf] = vp_h5[i].file; return 100+vp_h5nf++; } return -1; }
static inline hid_t H5Dopen( hid_t f, char const *n, hid_t ) { for( int i=0; i<vp_h5n; i++ ) if( vp_h5[i].file == vp_h5file[f-100] && vp_streq( vp_h5[i].name, n ) ) return i; return -1; }
static inline hid_t H5Dget_type( hid_t d ) { return d; }
static inline hid_t H5Dget_space( hid_t d ) { return d; }
static inline H5T_class_t H5Tget_class( hid_t d ) { return vp_h5[d].cls; }
static inline int H5Sget_simple_extent_ndims( hid_t d ) { return vp_h5[d].nd; }
static inline int H5Sget_simple_extent_dims( hid_t d, hsize_t *o, hsize_t * ) { for( int i=0; i<vp_h5[d].nd; i++ ) o[i] = vp_h5[d].dims[i]; return vp_h5[d].nd; }
static inline herr_t H5Dread( hid_t d, hid_t t, hid_t, hid_t, hid_t, void *o ) {
  hsize_t n = vp_h5[d].dims[0]*( vp_h5[d].nd > 1 ? vp_h5[d].dims[1] : 1 );
  for( hsize_t i=0; i<n; i++ ) {
    if( t == H5T_NATIVE_FLOAT ) ((float*) o)[i] = (float) vp_h5[d].d[i];
    else if( t == H5T_NATIVE_DOUBLE ) ((double*) o)[i] = vp_h5[d].d[i];
    else ((uint64_t*) o)[i] = (uint64_t) vp_h5[d].d[i];
  }
  return 0;
}
static inline herr_t H5Sclose( hid_t ) { return 0; }
static inline herr_t H5Tclose( hid_t ) { return 0; }
static inline herr_t H5Dclose( hid_t ) { return 0; }
static inline herr_t H5Fclose( hid_t ) { return 0; }
#endif
