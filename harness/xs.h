// Generated cross section tables: the values, writers of every input layout, and oracles for what a query should give.
#ifndef XS_H
#define XS_H
#include <cassert>
#include <array>
#include <dirent.h>
#include <cstddef>
#include <memory>
#include <utility>
#include <fstream>
#include <hdf5.h>
#include <hdf5_hl.h>
#include "nuSQuIDS/xsections.h"
#include "cubic.h"
namespace xs{
using namespace nusquids; using vh::Rng; using vh::fmt; typedef NeutrinoCrossSections X;
const double GeV=1e9;
struct Dir{ std::string p; explicit Dir(const std::string& tmp):p(tmp+"/d"){ wipe(); mkdir(p.c_str(),0777); } ~Dir(){ wipe(); } void wipe(){ if(DIR* d=opendir(p.c_str())){ while(dirent* e=readdir(d)) if(e->d_name[0]!='.') unlink((p+"/"+e->d_name).c_str()); closedir(d); rmdir(p.c_str()); } } };   // scratch directory of one case
inline X::NeutrinoFlavor fl(int f){ return X::NeutrinoFlavor(f); }
inline X::NeutrinoType ty(int t){ return t?X::antineutrino:X::neutrino; }
inline X::Current cu(int c){ return c?X::NC:X::CC; }
inline const char* tyn(int t){ return t?"nubar":"nu"; } inline const char* cun(int c){ return c?"NC":"CC"; }
inline std::string what(double e,int f,int t,int k){ return fmt("E=%.17g GeV flavour %d %s %s",e/GeV,f,tyn(t),cun(k)); }
struct Flav{ D sig[2][2]; D ds[2][2]; };             // cm^2, cm^2; [type][current]; ds[iz*ne+ie]
struct Tab{ D e; int ne=0,nz=0; int nf=1; int mode=0; std::vector<Flav> f; bool zeros=false;   // e in GeV
  const Flav& at(int flavour)const{ return f[nf==1?0:flavour]; } };
// mode 0: smooth and monotone, 1: smooth, 2: rough
inline Tab make(Rng& r,int mode,bool perFlavour){ Tab t; t.mode=mode; t.ne=r.in(3,mode==2?9:20); t.nz=r.in(3,mode==2?8:16); if(mode<2&&r.coin(.01)){ if(r.coin()) t.ne=r.in(257,300); else t.nz=r.in(257,300); } t.nf=perFlavour?3:1; double lo=r.pick(std::vector<double>{1,5,10,100,r.logu(.1,1e3)}),hi=lo*r.logu(30,1e6); bool uni=mode==0||r.coin(.6); double l=0; D x{0}; for(int i=1;i<t.ne;i++){ l+=uni?1:r.logu(.4,2.5); x.push_back(l);} for(double v:x) t.e.push_back(lo*std::pow(hi/lo,v/l)); for(int i=1;i<t.ne;i++) t.e[i]=std::max(t.e[i],t.e[i-1]*(1+1e-9));
  for(int f=0;f<t.nf;f++){ Flav F; for(int n=0;n<2;n++)for(int c=0;c<2;c++){ double s0=r.logu(1e-39,1e-36),p=r.uni(.3,1.1),q=r.uni(0,.15),g=r.uni(-1.5,1.5),h=r.uni(0,.5); D& s=F.sig[n][c]; D& d=F.ds[n][c]; for(int i=0;i<t.ne;i++) s.push_back(mode==2?r.logu(1e-40,1e-34):s0*std::pow(t.e[i],p)*(mode==1?std::exp(q*std::sin(2*x[i]+f)):1)); d.resize((size_t)t.ne*t.nz); for(int j=0;j<t.nz;j++)for(int i=0;i<t.ne;i++){ double z=j/double(t.nz-1); d[(size_t)j*t.ne+i]=mode==2?(r.coin(.1)?0:r.logu(1e-40,1e-34)):s0*std::pow(t.e[i],p)*std::exp(g*z+(mode==1?h*std::sin(3*z+.3*x[i]):0)); if(mode==2&&d[(size_t)j*t.ne+i]==0) t.zeros=true; }
      if(r.coin(mode==0?.0:.5)) for(int j=0;j<t.nz;j++) d[(size_t)j*t.ne]=0; } t.f.push_back(F); } 
  return t; }
// the stored logarithm of a differential value
inline double lg(double v){ double l=std::log10(v); return std::isfinite(l)?l:-50; }
inline void put(const std::string& f,const std::string& s){ std::ofstream o(f,std::ios::binary); o<<s; }
inline std::string text1(const D& e,const D& s){ std::string o; for(size_t i=0;i<e.size();i++) o+=fmt("%.17g %.17g\n",e[i],s[i]); return o; }
inline std::string text2(const D& e,const D& d,int nz){ std::string o; int ne=e.size(); for(int i=0;i<ne;i++) for(int j=0;j<nz;j++) o+=fmt("%.17g %.9g %.17g\n",e[i],j/double(nz-1),d[(size_t)j*ne+i]); return o; }
inline const char* fln(int f){ static const char* n[]={"electron","muon","tau"}; return n[f]; }
inline void writeText(const std::string& prefix,const Tab& t){ for(int f=0;f<t.nf;f++){ std::string p=prefix+(t.nf==1?std::string():std::string(fln(f))+"_"); for(int n=0;n<2;n++)for(int c=0;c<2;c++){ put(p+tyn(n)+"_sigma_"+cun(c)+".dat",text1(t.e,t.f[f].sig[n][c])); put(p+tyn(n)+"_dsde_"+cun(c)+".dat",text2(t.e,t.f[f].ds[n][c],t.nz)); } } }
struct HF{ hid_t id; explicit HF(const std::string& p,bool rw=false){ id=rw?H5Fopen(p.c_str(),H5F_ACC_RDWR,H5P_DEFAULT):H5Fcreate(p.c_str(),H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT); } ~HF(){ H5Fclose(id); } };
inline void ds1(hid_t l,const std::string& n,const D& v){ hsize_t d=v.size(); H5LTmake_dataset_double(l,n.c_str(),1,&d,v.data()); }
inline void ds2(hid_t l,const std::string& n,hsize_t a,hsize_t b,const D& v){ hsize_t d[2]={a,b}; H5LTmake_dataset_double(l,n.c_str(),2,d,v.data()); }
inline D logs(const D& v){ D o; for(double x:v) o.push_back(lg(x)); return o; }
inline D loge(const Tab& t){ D o; for(double x:t.e) o.push_back(std::log10(x*GeV)); return o; }
inline void flavHDF(hid_t g,const Tab& t,const Flav& F){ for(int n=0;n<2;n++)for(int c=0;c<2;c++){ std::string s=fmt("_%s_%s",cun(c),tyn(n)); ds1(g,"s"+s,logs(F.sig[n][c])); ds2(g,"dsdy"+s,t.nz,t.ne,logs(F.ds[n][c])); } }
inline D zs(const Tab& t){ D z; for(int j=0;j<t.nz;j++) z.push_back(j/double(t.nz-1)); return z; }
inline bool same(const Flav& a,const Flav& b){ for(int n=0;n<2;n++)for(int c=0;c<2;c++) if(a.sig[n][c]!=b.sig[n][c]||a.ds[n][c]!=b.ds[n][c]) return false; return true; }
// alias: flavours with the same tables are to be links to those of the first of them
inline void writeHDF(const std::string& path,const Tab& t,int alias=0){ HF h(path); ds1(h.id,"energies",loge(t)); ds1(h.id,"zs",zs(t)); if(t.nf==1&&!alias){ flavHDF(h.id,t,t.f[0]); return; } for(int f=0;f<3;f++){ if(f&&t.nf==1){ H5Lcreate_hard(h.id,"electron",h.id,fln(f),H5P_DEFAULT,H5P_DEFAULT); continue; } int g0=-1; for(int q=f-1;q>=0;q--) if(alias&&same(t.at(q),t.at(f))) g0=q; if(g0>=0){ H5Lcreate_hard(h.id,fln(g0),h.id,fln(f),H5P_DEFAULT,H5P_DEFAULT); continue; } hid_t g=H5Gcreate2(h.id,fln(f),H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); flavHDF(g,t,t.at(f)); H5Gclose(g); } }
// what the tables say
struct Want{ const Tab& t; D x; Grid g[3][2][2]; std::unique_ptr<Oracle> o[3][2][2]; std::unique_ptr<Aki> a[3][2][2];
  Want(const Tab& T):t(T){ x=loge(t); for(int f=0;f<t.nf;f++)for(int n=0;n<2;n++)for(int c=0;c<2;c++){ Grid& G=g[f][n][c]; G.nx=t.ne; G.ny=t.nz; G.nz=1; G.x=x; G.y=zs(t); G.z={0}; G.f=logs(t.f[f].ds[n][c]); o[f][n][c].reset(new Oracle(G)); D l=logs(t.f[f].sig[n][c]); a[f][n][c].reset(new Aki(V(x.begin(),x.end()),V(l.begin(),l.end()),false)); } }
  double emin()const{ return t.e[0]*GeV; } double emax()const{ return t.e.back()*GeV; } int F(int f)const{ return t.nf==1?0:f; }
  // total at a tabulated-range energy; false if the spline's slopes there are a matter of rounding
  bool total(double E,int f,int n,int c,double& v)const{   // base ten logarithm
    const Aki& A=*a[F(f)][n][c]; double q=std::log10(E); int i=cell(x,q); if(!A.firm[i]||!A.firm[i+1]) return false; LD h=(LD)x[i+1]-x[i]; v=(double)hermite(((LD)q-x[i])/h,h,A.y[i],A.y[i+1],A.right[i],A.left[i+1]); return true; }
  bool diff(double E1,double z,int f,int n,int c,double& v,double& mag)const{ const Oracle& O=*o[F(f)][n][c]; LD m; v=(double)O.eval(std::log10(E1),z,0,&m); mag=m; return O.firm; }   // base ten logarithm, without the 1/E1
  double lin1(double E,int f,int n,int c)const{ const Aki& A=*a[F(f)][n][c]; double q=std::log10(E); int i=cell(x,q); LD u=((LD)q-x[i])/((LD)x[i+1]-x[i]); return (double)((1-u)*A.y[i]+u*A.y[i+1]); }
  double lin2(double E,double z,int f,int n,int c)const{ const Grid& G=g[F(f)][n][c]; double q=std::log10(E); int i=cell(G.x,q),j=cell(G.y,z); LD u=((LD)q-G.x[i])/((LD)G.x[i+1]-G.x[i]),w=((LD)z-G.y[j])/((LD)G.y[j+1]-G.y[j]); return (double)((1-u)*(1-w)*G.at(0,j,i)+u*(1-w)*G.at(0,j,i+1)+(1-u)*w*G.at(0,j+1,i)+u*w*G.at(0,j+1,i+1)); }
};
// the older tables: linear cross sections on one logarithmic grid
struct Tab1{ D e; int n=0; D s[2][2][3]; D d[2][2][3]; bool tri=false; int mode=0; };   // [current][type][flavour], d[e1*n+e2]
inline Tab1 make1(Rng& r,int mode){ Tab1 t; t.mode=mode; t.n=r.coin(.15)?2:r.in(3,14); if(r.coin(.003)) t.n=r.in(257,290); double lo=r.pick(std::vector<double>{1,10,100,r.logu(.1,1e3)}),hi=lo*r.logu(10,1e6); for(int i=0;i<t.n;i++) t.e.push_back(i==0?lo:i==t.n-1?hi:lo*std::pow(hi/lo,i/double(t.n-1))); t.tri=r.coin(.7);
  for(int c=0;c<2;c++)for(int p=0;p<2;p++)for(int f=0;f<3;f++){ double s0=r.logu(1e-39,1e-36),q=r.uni(.3,1); for(int i=0;i<t.n;i++) t.s[c][p][f].push_back(mode==0?s0*std::pow(t.e[i],q):r.logu(1e-40,1e-34)); for(int i=0;i<t.n;i++)for(int j=0;j<t.n;j++) t.d[c][p][f].push_back(t.tri&&j>i?0:mode==0?s0*std::pow(t.e[i],q-1)*std::pow(t.e[j]/t.e[i],.3):r.coin(.05)?0:r.logu(1e-40,1e-34)); } return t; }
inline void writeText1(const std::string& base,const Tab1& t){ for(int c=0;c<2;c++){ std::string s,d; for(int i=0;i<t.n;i++){ s+=fmt("%.17g",t.e[i]); for(int f=0;f<3;f++)for(int p=0;p<2;p++) s+=fmt(" %.17g",t.s[c][p][f][i]); s+="\n"; for(int j=0;j<t.n;j++){ d+=fmt("%.17g %.17g",t.e[i],t.e[j]); for(int f=0;f<3;f++)for(int p=0;p<2;p++) d+=fmt(" %.17g",t.d[c][p][f][(size_t)i*t.n+j]); d+="\n"; } } put(base+"sigma_"+cun(c)+".dat",s); put(base+"dsde_"+cun(c)+".dat",d); } }
inline void writeHDF1(const std::string& path,const Tab1& t){ HF h(path); double a=t.e[0]*GeV,b=t.e.back()*GeV; H5LTset_attribute_double(h.id,"/","Emin",&a,1); H5LTset_attribute_double(h.id,"/","Emax",&b,1); for(int c=0;c<2;c++){ D s,d; for(int p=0;p<2;p++)for(int f=0;f<3;f++){ s.insert(s.end(),t.s[c][p][f].begin(),t.s[c][p][f].end()); d.insert(d.end(),t.d[c][p][f].begin(),t.d[c][p][f].end()); } hsize_t e[4]={2,3,(hsize_t)t.n,(hsize_t)t.n}; H5LTmake_dataset_double(h.id,c?"s_NC":"s_CC",3,e,s.data()); H5LTmake_dataset_double(h.id,c?"dsDE_NC":"dsDE_CC",4,e,d.data()); } }
inline int cell1(const Tab1& t,double lg){ int i=0; while(i<t.n-2&&lg>=std::log(t.e[i+1])) i++; return i; }
inline double total1(const Tab1& t,double E,int f,int p,int c,double* sc){ LD l=std::log((LD)E/GeV); int i=cell1(t,(double)l); LD a=std::log((LD)t.e[i]),b=std::log((LD)t.e[i+1]); double u=t.s[c][p][f][i],v=t.s[c][p][f][i+1]; *sc=*std::max_element(t.s[c][p][f].begin(),t.s[c][p][f].end()); return (double)(u+(v-u)*(l-a)/(b-a)); }
inline double diff1(const Tab1& t,double E1,double E2,int f,int p,int c,double* sc){ LD l1=std::log((LD)E1/GeV),l2=std::log((LD)E2/GeV); int i=cell1(t,(double)l1),j=cell1(t,(double)l2); auto L=[&](int k){ return std::log((LD)t.e[k]); }; auto v=[&](int a,int b)->LD{ return t.d[c][p][f][(size_t)a*t.n+b]; }; LD u=(l1-L(i))/(L(i+1)-L(i)),w=(l2-L(j))/(L(j+1)-L(j)); *sc=*std::max_element(t.d[c][p][f].begin(),t.d[c][p][f].end());
  if(i==j&&v(i,j+1)==0) return (double)(v(i,j)*(1-u)+v(i+1,j)*(u-w)+v(i+1,j+1)*w);   // plane through the three physical corners
  return (double)(v(i,j)*(1-u)*(1-w)+v(i,j+1)*(1-u)*w+v(i+1,j)*u*(1-w)+v(i+1,j+1)*u*w); }
}
#endif
