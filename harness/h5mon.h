// HDF5 monitor: link-time wrappers around the HDF5 calls made by the code under test. Every id handed out is tracked until
// it is closed; closing an id twice is recorded; any chosen call can be made to fail.
#ifndef H5MON_H
#define H5MON_H
#include <hdf5.h>
#include <map>
#include <set>
#include <string>
namespace h5mon{
inline std::map<hid_t,std::string>& live(){static std::map<hid_t,std::string> m;return m;}
inline std::set<hid_t>& dead(){static std::set<hid_t> m;return m;}
struct St{ uint64_t calls=0,failAt=0; bool failed=false; std::string failedName,trouble; uint64_t opened=0,closed=0; bool on=true; };
inline St& st(){static St s;return s;}
inline bool inject(const char* n){ St& s=st(); s.calls++; if(s.failAt&&s.calls==s.failAt){ s.failed=true; s.failedName=n; return true; } return false; }
inline hid_t got(hid_t id,const char* n){ if(id>=0){ if(!live().count(id)){ st().opened++; live()[id]=n; } dead().erase(id); } return id; }
inline void gone(hid_t id,const char* n){ if(id<0) return; auto i=live().find(id); if(i!=live().end()){ live().erase(i); dead().insert(id); st().closed++; } else if(dead().count(id)&&st().trouble.empty()) st().trouble=std::string(n)+" called again on an id which had been closed"; }
inline void reset(uint64_t failAt=0){ St& s=st(); s=St(); s.failAt=failAt; dead().clear(); }
inline std::string leaks(){ std::string r; for(auto& p:live()) r+=p.second+" "; return r; }
inline void forget(){ live().clear(); }
}
#define H5M_CREATE(name,decl,args) extern "C" hid_t __real_##name decl; extern "C" hid_t __wrap_##name decl{ if(h5mon::inject(#name)) return -1; return h5mon::got(__real_##name args,#name); }
#define H5M_CLOSE(name) extern "C" herr_t __real_##name(hid_t); extern "C" herr_t __wrap_##name(hid_t id){ h5mon::gone(id,#name); return __real_##name(id); }
#define H5M_OP(name,decl,args) extern "C" herr_t __real_##name decl; extern "C" herr_t __wrap_##name decl{ if(h5mon::inject(#name)) return -1; return __real_##name args; }
H5M_CREATE(H5Fopen,(const char* n,unsigned f,hid_t a),(n,f,a))
H5M_CREATE(H5Fcreate,(const char* n,unsigned f,hid_t c,hid_t a),(n,f,c,a))
H5M_CREATE(H5Gopen2,(hid_t l,const char* n,hid_t a),(l,n,a))
H5M_CREATE(H5Gopen1,(hid_t l,const char* n),(l,n))
H5M_CREATE(H5Gcreate2,(hid_t l,const char* n,hid_t a,hid_t b,hid_t c),(l,n,a,b,c))
H5M_CREATE(H5Gcreate1,(hid_t l,const char* n,size_t s),(l,n,s))
H5M_CREATE(H5Oopen,(hid_t l,const char* n,hid_t a),(l,n,a))
H5M_CREATE(H5Dopen2,(hid_t l,const char* n,hid_t a),(l,n,a))
H5M_CREATE(H5Dopen1,(hid_t l,const char* n),(l,n))
H5M_CREATE(H5Dcreate2,(hid_t l,const char* n,hid_t t,hid_t s,hid_t a,hid_t b,hid_t c),(l,n,t,s,a,b,c))
H5M_CREATE(H5Screate_simple,(int r,const hsize_t* d,const hsize_t* m),(r,d,m))
H5M_CREATE(H5Screate,(H5S_class_t t),(t))
H5M_CREATE(H5Scopy,(hid_t t),(t))
H5M_CREATE(H5Dget_space,(hid_t d),(d))
H5M_CREATE(H5Aget_space,(hid_t d),(d))
H5M_CREATE(H5Dget_type,(hid_t d),(d))
H5M_CREATE(H5Aget_type,(hid_t d),(d))
H5M_CREATE(H5Tcopy,(hid_t d),(d))
H5M_CREATE(H5Tcreate,(H5T_class_t k,size_t n),(k,n))
H5M_CREATE(H5Pcreate,(hid_t d),(d))
H5M_CREATE(H5Dget_create_plist,(hid_t d),(d))
H5M_CREATE(H5Acreate2,(hid_t l,const char* n,hid_t t,hid_t s,hid_t a,hid_t b),(l,n,t,s,a,b))
H5M_CREATE(H5Acreate1,(hid_t l,const char* n,hid_t t,hid_t s,hid_t a),(l,n,t,s,a))
H5M_CREATE(H5Aopen,(hid_t l,const char* n,hid_t a),(l,n,a))
H5M_CREATE(H5Aopen_name,(hid_t l,const char* n),(l,n))
H5M_CLOSE(H5Fclose) H5M_CLOSE(H5Gclose) H5M_CLOSE(H5Dclose) H5M_CLOSE(H5Sclose) H5M_CLOSE(H5Tclose) H5M_CLOSE(H5Pclose) H5M_CLOSE(H5Aclose) H5M_CLOSE(H5Oclose)
H5M_OP(H5Dwrite,(hid_t d,hid_t t,hid_t m,hid_t f,hid_t p,const void* b),(d,t,m,f,p,b))
H5M_OP(H5Dread,(hid_t d,hid_t t,hid_t m,hid_t f,hid_t p,void* b),(d,t,m,f,p,b))
H5M_OP(H5Awrite,(hid_t d,hid_t t,const void* b),(d,t,b))
H5M_OP(H5Aread,(hid_t d,hid_t t,void* b),(d,t,b))
H5M_OP(H5Lcreate_hard,(hid_t a,const char* b,hid_t c,const char* d,hid_t e,hid_t f),(a,b,c,d,e,f))
struct H5Silent{ H5Silent(){ H5Eset_auto2(H5E_DEFAULT,nullptr,nullptr); } };
static H5Silent h5silent_;
#endif
