// the high-level HDF5 calls of the code under test, made to fail like those of h5mon.h; the name they were about is kept
#ifndef H5LT_H
#define H5LT_H
#include <hdf5_hl.h>
#include "h5mon.h"
namespace h5mon{ inline std::string& about(){ static std::string s; return s; } inline bool inject2(const char* n,const char* w){ bool b=inject(n); if(b) about()=w?w:""; return b; } }
#define H5LT_OP(name,decl,args,what) extern "C" herr_t __real_##name decl; extern "C" herr_t __wrap_##name decl{ if(h5mon::inject2(#name,what)) return -1; return __real_##name args; }
H5LT_OP(H5LTmake_dataset,(hid_t l,const char* n,int r,const hsize_t* d,hid_t t,const void* b),(l,n,r,d,t,b),n)
H5LT_OP(H5LTset_attribute_int,(hid_t l,const char* o,const char* a,const int* d,size_t s),(l,o,a,d,s),a)
H5LT_OP(H5LTset_attribute_uint,(hid_t l,const char* o,const char* a,const unsigned* d,size_t s),(l,o,a,d,s),a)
H5LT_OP(H5LTset_attribute_double,(hid_t l,const char* o,const char* a,const double* d,size_t s),(l,o,a,d,s),a)
H5LT_OP(H5LTset_attribute_string,(hid_t l,const char* o,const char* a,const char* d),(l,o,a,d),a)
H5LT_OP(H5LTget_attribute_int,(hid_t l,const char* o,const char* a,int* d),(l,o,a,d),a)
H5LT_OP(H5LTget_attribute_uint,(hid_t l,const char* o,const char* a,unsigned* d),(l,o,a,d),a)
H5LT_OP(H5LTget_attribute_double,(hid_t l,const char* o,const char* a,double* d),(l,o,a,d),a)
H5LT_OP(H5LTget_attribute_string,(hid_t l,const char* o,const char* a,char* d),(l,o,a,d),a)
H5LT_OP(H5LTget_attribute_ndims,(hid_t l,const char* o,const char* a,int* d),(l,o,a,d),a)
H5LT_OP(H5LTget_attribute_info,(hid_t l,const char* o,const char* a,hsize_t* d,H5T_class_t* c,size_t* s),(l,o,a,d,c,s),a)
H5LT_OP(H5LTget_dataset_info,(hid_t l,const char* n,hsize_t* d,H5T_class_t* c,size_t* s),(l,n,d,c,s),n)
H5LT_OP(H5LTget_dataset_ndims,(hid_t l,const char* n,int* d),(l,n,d),n)
H5LT_OP(H5LTread_dataset_double,(hid_t l,const char* n,double* b),(l,n,b),n)
H5LT_OP(H5Sselect_hyperslab,(hid_t s,H5S_seloper_t o,const hsize_t* a,const hsize_t* b,const hsize_t* c,const hsize_t* d),(s,o,a,b,c,d),"")
#endif
