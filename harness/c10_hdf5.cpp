// C10: arrays, attributes and handle wrappers of tools.h against a real HDF5 file, with every handle tracked and calls made to fail.
#include "vh.h"
#include <array>
#include <memory>
#include <cassert>
#include <map>
#include "nuSQuIDS/aligned_alloc.h"
#include "nuSQuIDS/tools.h"
#include "h5mon.h"
using vh::Ctx; using vh::fmt; using namespace nusquids;
static std::string path(Ctx& c){ return c.tmp+"/f.h5"; }
template<typename T> static T val(vh::Rng& r);
template<> double val<double>(vh::Rng& r){ switch(r.in(0,9)){case 0:return 0;case 1:return -0.0;case 2:return INFINITY;case 3:return -INFINITY;case 4:return std::numeric_limits<double>::denorm_min();case 5:return std::numeric_limits<double>::max();case 6:{uint64_t b=r.u64();double d;memcpy(&d,&b,8);return d;} default:return r.uni(-1,1)*r.logu(1e-9,1e9);} }
template<> float val<float>(vh::Rng& r){ return r.coin(.2)?INFINITY:(float)(r.uni(-1,1)*r.logu(1e-9,1e9)); }
template<> int val<int>(vh::Rng& r){ return (int)r.u64(); }
template<> unsigned val<unsigned>(vh::Rng& r){ return (unsigned)r.u64(); }
template<typename T> static bool same(T a,T b){ return memcmp(&a,&b,sizeof(T))==0||(a!=a&&b!=b); }
template<size_t R> static std::array<size_t,R> shape(vh::Rng& r,bool big){ std::array<size_t,R> e; for(auto& x:e) x=r.coin(.08)?0:r.in(1,big?(R==1?140000:R==2?250:30):6); return e; }
struct F{ hid_t id; F(const std::string& p){ id=H5Fcreate(p.c_str(),H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT); } ~F(){ H5Fclose(id); } };
static void balanced(Ctx& c,size_t before,const char* what){ c.check("h5/balance",h5mon::live().size()==before,std::string(what)+" left open: "+h5mon::leaks()); c.check("h5/double-close",h5mon::st().trouble.empty(),h5mon::st().trouble); }
template<typename T,unsigned R,typename A> static void arr(Ctx& c,const A& alloc){
  vh::Rng& r=c.rng; bool big=r.coin(.06); auto e=shape<R>(r,big); int level=r.coin(.5)?0:r.in(1,9); marray<T,R,A> a(alloc); a.resize(e); for(auto& v:a) v=val<T>(r); std::vector<T> want(a.begin(),a.end());
  c.desc(fmt("array rank %d [",R)+vh::join(e)+fmt("] of %zu byte items, compression %d",sizeof(T),level)); F f(path(c)); std::string g=r.coin(.5)?"":"group"; hid_t loc=f.id; if(!g.empty()) loc=H5Gcreate2(f.id,"group",H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT);
  h5mon::reset(); size_t before=h5mon::live().size(); std::string name=r.pick(std::vector<std::string>{"data","a b","x.y","D1"});
  writeArrayH5<T>(loc,name,a,level); balanced(c,before,"writeArrayH5"); bool kept=std::equal(want.begin(),want.end(),a.begin(),[](T x,T y){return same(x,y);}); c.check("h5/source-changed",kept,"");
  c.check("h5/exists",h5ObjectExists(loc,name.c_str())&&!h5ObjectExists(loc,"absent"),"h5ObjectExists");
  marray<T,R,A> b(alloc); if(r.coin()) { auto q=shape<R>(r,false); b.resize(q); for(auto& v:b) v=val<T>(r); } readArrayH5(loc,name,b); balanced(c,before,"readArrayH5");
  bool sh=true; for(unsigned i=0;i<R;i++) sh=sh&&b.extent(i)==e[i]; c.check("h5/array-shape",sh&&b.size()==want.size(),"the shape changed"); if(sh){ size_t bad=0; auto it=b.begin(); for(size_t i=0;i<want.size();i++,++it) if(!same(*it,want[i])) bad++; c.check("h5/array-values",bad==0,fmt("%zu of %zu values differ",bad,want.size())); }
  // misuse: absent, already present, wrong rank
  c.check("h5/absent",vh::throws([&]{marray<T,R,A> z(alloc);readArrayH5(loc,"absent",z);})==1,"reading an absent dataset succeeded"); balanced(c,before,"refused read");
  c.check("h5/already-there",vh::throws([&]{writeArrayH5<T>(loc,name,b,level);})==1,"writing over an existing dataset succeeded silently"); balanced(c,before,"refused write");
  marray<T,R+1> w; c.check("h5/rank",vh::throws([&]{readArrayH5(loc,name,w);})==1,"wrong rank accepted"); balanced(c,before,"refused rank"); if(R>1){ marray<T,(R>1?R-1:1)> v; if(R>1) c.check("h5/rank",vh::throws([&]{readArrayH5(loc,name,v);})==1,"wrong rank accepted"); balanced(c,before,"refused rank"); }
  if(r.coin(.3)){ // into a file-type of another width: values convert
    marray<T,R,A> q(alloc); q.resize(e); int k=0; for(auto& v:q) v=(T)(k++%1000); writeArrayH5<double>(loc,"conv",q,level); marray<double,R> d; readArrayH5(loc,"conv",d); bool ok=d.size()==q.size(); if(ok) ok=std::equal(q.begin(),q.end(),d.begin(),[](T x,double y){return (double)x==y;}); c.check("h5/converted",ok,""); balanced(c,before,"converted"); }
  // failures inside HDF5
  h5mon::reset(); marray<T,R,A> z(alloc); uint64_t n0=h5mon::st().calls; writeArrayH5<T>(loc,"count",a,level); readArrayH5(loc,"count",z); uint64_t n=h5mon::st().calls-n0;
  for(uint64_t k=1;k<=n;k++){ std::string nm=fmt("inj%d",(int)k); h5mon::reset(k); int t=vh::throws([&]{ writeArrayH5<T>(loc,nm,a,level); marray<T,R,A> y(alloc); readArrayH5(loc,nm,y); bool ok=y.size()==a.size()&&std::equal(y.begin(),y.end(),want.begin(),[](T x,T u){return same(x,u);}); if(!ok) c.fail("h5/silent-failure","a failing "+h5mon::st().failedName+" went unnoticed and the values are wrong"); }); c.check("h5/failure-reported",t==1,"a failing "+h5mon::st().failedName+" was not reported"); c.eval(); balanced(c,before,("failing "+h5mon::st().failedName).c_str()); c.count("injected"); }
  h5mon::reset(); if(loc!=f.id) H5Gclose(loc); c.count("arrays"); if(level) c.count("compressed"); if(want.empty()) c.count("empty-arrays"); c.nontrivial(vh::S().desc+fmt("%g",want.empty()?0.:(double)want[0])); c.sample(vh::S().desc);
}
VH_GROUP("array",700,12000){ vh::Rng& r=c.rng; switch(r.in(0,9)){ case 0:arr<double,1>(c,std::allocator<double>());break; case 1:arr<double,2>(c,std::allocator<double>());break; case 2:arr<double,3>(c,std::allocator<double>());break; case 3:arr<double,4>(c,std::allocator<double>());break; case 4:arr<float,2>(c,std::allocator<float>());break; case 5:arr<int,1>(c,std::allocator<int>());break; case 6:arr<int,3>(c,std::allocator<int>());break; case 7:arr<unsigned,2>(c,std::allocator<unsigned>());break; case 8:arr<double,3>(c,aligned_allocator<double>(5));break; default:arr<double,5>(c,std::allocator<double>()); } }
template<typename T> static void attrNum(Ctx& c,hid_t o,const std::string& n){ vh::Rng& r=c.rng; T v=val<T>(r),w=val<T>(r); addH5Attribute(o,n,v); readH5Attribute(o,n,w); c.check("h5/attribute",same(v,w),fmt("%g became %g",(double)v,(double)w)); c.check("h5/attribute-again",vh::throws([&]{addH5Attribute(o,n,w);})==1,"an attribute which exists already was silently not stored"); T u=v; c.check("h5/attribute-absent",vh::throws([&]{readH5Attribute(o,n+"_",u);})==1&&same(u,v),"");
  std::string s="x"; c.check("h5/attribute-type",vh::throws([&]{readH5Attribute(o,n,s);})==1,"number read as a string"); if(sizeof(T)!=8){double d; c.check("h5/attribute-type",vh::throws([&]{readH5Attribute(o,n,d);})==1,"another type accepted");} else {int d; c.check("h5/attribute-type",vh::throws([&]{readH5Attribute(o,n,d);})==1,"another type accepted");} }
VH_GROUP("attribute",900,15000){
  vh::Rng& r=c.rng; F f(path(c)); hid_t o=f.id; int where=r.in(0,2); marray<double,1> d{3}; for(auto& v:d)v=1; if(where==1) o=H5Gcreate2(f.id,"g",H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); if(where==2){ writeArrayH5<double>(f.id,"d",d); o=H5Dopen2(f.id,"d",H5P_DEFAULT); }
  h5mon::reset(); size_t before=h5mon::live().size(); int n=r.in(1,8); std::map<std::string,std::string> all;
  for(int i=0;i<n;i++){ std::string name=fmt("at%d",i); int k=r.in(0,5); if(k==0) attrNum<double>(c,o,name); else if(k==1) attrNum<int>(c,o,name); else if(k==2) attrNum<unsigned>(c,o,name); else if(k==3) attrNum<float>(c,o,name);
    else { std::string s,t="old contents which are longer"; int len=r.coin(.2)?0:r.in(1,r.coin(.1)?5000:40); for(int j=0;j<len;j++) s+=(char)(r.coin(.05)?r.in(1,255):r.in(32,126)); c.desc(fmt("string attribute of %d characters",len)); addH5Attribute(o,name,s); balanced(c,before,"addH5Attribute<string>"); readH5Attribute(o,name,t); c.check("h5/string",s==t,"wrote '"+s+"' read '"+t+"'"); all[name]=s; c.check("h5/attribute-again",vh::throws([&]{addH5Attribute(o,name,t);})==1,"an attribute which exists already was silently not stored"); double x; c.check("h5/attribute-type",vh::throws([&]{readH5Attribute(o,name,x);})==1,"string read as a number"); std::string q="z"; c.check("h5/attribute-absent",vh::throws([&]{readH5Attribute(o,"nope",q);})==1,""); if(len==0) c.count("empty-strings"); }
    balanced(c,before,"attributes"); c.count("attributes"); }
  for(auto& p:all){ std::string t; readH5Attribute(o,p.first,t); c.check("h5/string-later",t==p.second,""); }
  h5mon::reset(); double dv=1.5; std::string sv="abc"; addH5Attribute(o,"cn",dv); addH5Attribute(o,"cs",sv); readH5Attribute(o,"cn",dv); readH5Attribute(o,"cs",sv); uint64_t k0=h5mon::st().calls;
  for(uint64_t k=1;k<=k0;k++){ h5mon::reset(k); double y=1.5,z=0; std::string s="abc",u; int t=vh::throws([&]{ addH5Attribute(o,fmt("n%d",(int)k),y); addH5Attribute(o,fmt("s%d",(int)k),s); readH5Attribute(o,fmt("n%d",(int)k),z); readH5Attribute(o,fmt("s%d",(int)k),u); if(z!=y||u!=s) c.fail("h5/silent-failure","a failing "+h5mon::st().failedName+" went unnoticed"); }); c.check("h5/failure-reported",t==1,"a failing "+h5mon::st().failedName+" was not reported"); balanced(c,before,("failing "+h5mon::st().failedName).c_str()); c.count("injected"); }
  h5mon::reset(); if(where==1) H5Gclose(o); if(where==2) H5Dclose(o); c.nontrivial(c.idx);
}
VH_GROUP("handles",1200,20000){   // histories of ownership over several wrappers, with a model of who owns what
  vh::Rng& r=c.rng; F f(path(c)); h5mon::reset(); size_t before=h5mon::live().size(); int K=r.in(2,5); std::string log;
  { std::vector<std::unique_ptr<H5Handle>> h; std::vector<hid_t> own; for(int i=0;i<K;i++){ h.emplace_back(new H5Handle()); own.push_back(-1); }
    auto make=[&]()->H5Handle{ hsize_t d=3; switch(r.in(0,2)){case 0:return H5Handle(H5Screate_simple(1,&d,nullptr),H5Sclose,"create a space");case 1:return H5Handle(H5Tcopy(H5T_C_S1),H5Tclose,"copy a type");default:return H5Handle(H5Pcreate(H5P_DATASET_CREATE),H5Pclose,"create a list");} };
    int steps=r.in(3,25); for(int s=0;s<steps;s++){ int i=r.in(0,K-1),j=r.in(0,K-1),k=r.in(0,4); log+=fmt("%d(%d,%d) ",k,i,j); c.desc(log);
      if(k==0){ H5Handle t=make(); hid_t id=t.get(); *h[i]=std::move(t); /* the old one goes with t */ own[i]=id; }
      else if(k==1){ if(i!=j){ hid_t a=own[i]; *h[i]=std::move(*h[j]); own[i]=own[j]; (void)a; h[j].reset(new H5Handle()); own[j]=-1; } }
      else if(k==2){ H5Handle t(std::move(*h[i])); c.check("h5/moved-from",h[i]->get()<0,"a moved-from handle still names its object"); c.check("h5/moved-to",t.get()==own[i],""); own[i]=-1; }
      else if(k==3){ h[i].reset(new H5Handle(make())); own[i]=h[i]->get(); }
      else { H5Handle& self=*h[i]; *h[i]=std::move(self); }
      for(int q=0;q<K;q++){ c.check("h5/owner",h[q]->get()==own[q]&&(hid_t)*h[q]==own[q],fmt("handle %d",q)); if(own[q]>=0) c.check("h5/closed-early",h5mon::live().count(own[q]),"the object of a live handle has been closed"); }
      size_t n=0; for(auto o:own) n+=o>=0; c.check("h5/balance",h5mon::live().size()==before+n,fmt("%zu objects open, %zu owned",h5mon::live().size()-before,n)); } }
  balanced(c,before,"handles"); c.check("h5/invalid-handle",vh::throws([&]{H5Handle x(-1,H5Sclose,r.coin()?"do it":nullptr);})==1,"an invalid id was accepted"); 
  { H5File a(H5Fcreate((c.tmp+"/a.h5").c_str(),H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT)); hid_t ia=a.id; H5File b(std::move(a)); c.check("h5/file-moved",b.id==ia&&a.id!=ia,""); H5File d(H5Fcreate((c.tmp+"/b.h5").c_str(),H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT)); hid_t id=d.id; d=std::move(b); c.check("h5/file-moved",d.id==ia,""); (void)id; if(r.coin()){ H5File e(std::move(d)); c.check("h5/closed-early",h5mon::live().count(ia),""); } }
  balanced(c,before,"files"); c.count("handle-histories"); c.nontrivial(log);
}
