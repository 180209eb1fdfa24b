// C31: the solar model and the adiabatic solar survival probability against tables of the harness's own.
#include "vh.h"
#include "SolarProbabilities.h"
#include <complex>
#include <sys/stat.h>
#include <fstream>
#include <set>
using vh::Ctx; using vh::Rng; using vh::fmt; using namespace nusquids; typedef std::vector<double> D; typedef long double LD; typedef std::complex<long double> Z; typedef SolarModel::FluxType FT;
static const squids::Const K; static const double RS=69662651411.1; static const char* KIND[]={"pp","pep","hep","be7","b8","n13","o15","f17","electrons","dark matter"}; static const char* FILE_OF[]={"pp","","hep","","b8","n13","o15","f17"};
static const double LIM[8][2]={{5040,423410},{1.44e6,0},{18784,18784000},{861800,0},{20000,16560000},{5995,1199000},{3464,1732000},{3480,1740000}};
static bool line(int k){ return k==1||k==3; }
struct Sun_{ D R,col[10]; D e[8],f[8]; std::string how;   // what was written
  static LD lin(const D& x,const D& y,LD q){ size_t i=1; while(i+1<x.size()&&x[i]<q) i++; LD t=(q-x[i-1])/((LD)x[i]-x[i-1]); return y[i-1]+t*((LD)y[i]-y[i-1]); }
  bool inside(double r) const{ double q=r*RS; return q>=R.front()&&q<=R.back(); }
  LD radial(int k,LD r) const{ return lin(R,col[k],r*(LD)RS); }
  LD flux(int k,LD r,double E) const{ if(E<3464||E>1.8784e7) return 0; if(line(k)) return radial(k,r); if(!(E>LIM[k][0]&&E<LIM[k][1])) return 0; return radial(k,r)*lin(e[k],f[k],E); } };
static void put(const std::string& p,const std::vector<D>& cols,const std::string& head=""){ std::ofstream o(p); o.precision(17); o<<head; for(size_t i=0;i<cols[0].size();i++){ for(auto& c:cols) o<<c[i]<<" "; o<<"\n"; } }
struct Dir{ std::string old; Dir(const std::string& p){ char b[4096]; old=getcwd(b,sizeof b); mkdir((p+"/SM").c_str(),0755); mkdir((p+"/SM/NuSpec").c_str(),0755); if(chdir(p.c_str())) throw std::runtime_error("scratch"); } ~Dir(){ if(chdir(old.c_str())){} } };
static Sun_ make(Rng& r,const std::string& name,bool full,double jit=.1){ Sun_ s; int n=r.in(2,full?40:14); std::set<double> q; double a=full||r.coin()?0:r.coin()?1:RS*r.uni(0,.05),b=full||r.coin()?RS*r.uni(1,1.01):RS*r.uni(.9,.995); q.insert(a); q.insert(b); while((int)q.size()<n) q.insert(a+(b-a)*std::pow(r.unit(),r.uni(.7,2))); s.R=D(q.begin(),q.end()); for(size_t i=1;i+1<s.R.size();i++) if(s.R[i]-s.R[i-1]<1e-4*RS||s.R.back()-s.R[i]<1e-4*RS){ s.R.erase(s.R.begin()+i); i--; }
  for(int k=0;k<10;k++){ double h=r.uni(.08,.5),A=k==8?r.logu(1,300):r.logu(1e-3,1e3); for(double x:s.R) s.col[k].push_back(A*std::exp(-x/RS/h)*r.uni(1-jit,1+jit)); if(k<8&&r.coin(.1)) for(double& v:s.col[k]) v=0; }
  for(int k=0;k<8;k++) if(!line(k)){ int m=r.in(2,25); std::set<double> E; double lo=LIM[k][0]*1e-6,hi=LIM[k][1]*1e-6; E.insert(r.coin()?lo:lo*.5); E.insert(r.coin()?hi*(1+1e-15):hi*1.2); while((int)E.size()<m) E.insert(r.logu(lo,hi)); D mev(E.begin(),E.end()); for(double v:mev){ s.e[k].push_back(v*1e6); s.f[k].push_back(r.uni(.01,1)); } std::vector<D> c{mev,s.f[k]}; if(r.coin(.3)) c.push_back(D(mev.size(),7)); put(std::string("SM/NuSpec/")+FILE_OF[k]+".dat",c); }
  std::vector<D> c{s.R}; for(auto& v:s.col) c.push_back(v); if(r.coin(.2)) c.push_back(D(s.R.size(),3)); mkdir(("SM/"+name).c_str(),0755); put("SM/"+name+"/radial.dat",c); s.how=fmt("%zu radii from %.4g to %.6g",s.R.size(),s.R.front()/RS,s.R.back()/RS); return s; }
static double energy(Rng& r){ switch(r.in(0,4)){ case 0:{ int k=r.in(0,7); double e=LIM[k][r.in(0,line(k)?0:1)]; int q=r.in(0,2); return q==0?e:q==1?std::nextafter(e,0):std::nextafter(e,1e9); } case 1:{ double e=LIM[r.coin()?1:3][0]; return e*(1+r.uni(-.02,.02)); } case 2: return r.logu(1e3,5e7); default: return r.logu(3464,1.8784e7); } }
static void verdict(Ctx& c,const std::string& key,int th,bool fine,const std::string& what){ c.check(key,th==(fine?0:1),what+(th==0?" was answered":th==1?" was refused":" ended otherwise")); }
VH_GROUP("tables",600,20000){ Rng& r=c.rng; Dir d(c.tmp); std::string name=fmt("m%d",r.in(0,3)); Sun_ s=make(r,name,r.coin(.4)); c.desc(s.how); SolarModel m(name); c.check("solar/components",m.NumComp()==8,"");
  auto look=[&](double R,double E){ bool ok=R>=0&&R<=1&&s.inside(R); for(int k=0;k<8;k++){ double g=0; int th=vh::throws([&]{g=m.nuFlux(R,E,FT(k));}); bool zero=R>=0&&R<=1&&(E<3464||E>1.8784e7||(!line(k)&&!(E>LIM[k][0]&&E<LIM[k][1]))); std::string at=fmt("%s at R=%.17g E=%.17g",KIND[k],R,E); verdict(c,"solar/flux-range",th,ok||zero,at); if(th) continue; if(zero){ c.check("solar/flux-beyond",g==0,at+fmt(": %g",g)); c.count("no-flux"); continue; } LD w=s.flux(k,R,E); LD big=0; for(double v:s.col[k]) big=std::max(big,(LD)v); c.near("solar/flux",g,(double)w,1e-11,1e-13*(double)big,at); c.count("fluxes"); }
    double g=0; std::string at=fmt("R=%.17g",R); int th=vh::throws([&]{g=m.eDensity(R);}); verdict(c,"solar/electrons-range",th,ok,at); if(!th) c.near("solar/electrons",g,(double)s.radial(8,R),1e-11,1e-13*s.col[8][0],at); th=vh::throws([&]{g=m.DMDensity(R);}); verdict(c,"solar/dark-matter-range",th,ok,at); if(!th){ c.near("solar/dark-matter",g,(double)s.radial(9,R),1e-11,1e-13*s.col[9][0],at); c.count("densities"); } else c.count("refused"); };
  for(int i=0;i<25;i++) look(r.unit(),energy(r)); for(double R:{0.,1.,-1e-9,std::nextafter(1.,2),-HUGE_VAL,HUGE_VAL,2.,std::nan("")}) if(!std::isnan(R)) look(R,energy(r)); else verdict(c,"solar/nan",vh::throws([&]{m.eDensity(R);}),false,"R=nan"); for(int i=0;i<6;i++){ size_t j=r.in(0,(int)s.R.size()-1); look(s.R[j]/RS,energy(r)); }
  for(int k:{8,9}) c.check("solar/not-a-flux",vh::throws([&]{m.nuFlux(r.uni(.1,.8),r.logu(4e3,1e7),FT(k));})==1,KIND[k]); c.nontrivial(s.how+fmt(" %.17g",s.col[8][0])); c.sample(s.how); c.count("models"); }
// eigenvectors of a Hermitian matrix by Jacobi's rotations
static void eigen(int n,Z* H,Z* V){ for(int i=0;i<n;i++)for(int j=0;j<n;j++) V[i*n+j]=i==j; for(int sweep=0;sweep<60;sweep++){ LD off=0,dia=0; for(int i=0;i<n;i++)for(int j=0;j<n;j++) (i==j?dia:off)+=std::norm(H[i*n+j]); if(off<=1e-38L*dia||off==0) break;
  for(int p=0;p<n;p++)for(int q=p+1;q<n;q++){ LD a=std::abs(H[p*n+q]); if(a==0) continue; Z ph=H[p*n+q]/a; LD th=(H[q*n+q].real()-H[p*n+p].real())/(2*a),t=(th>=0?1:-1)/(std::fabs(th)+std::sqrt(1+th*th)),co=1/std::sqrt(1+t*t),si=t*co;
    for(int k=0;k<n;k++){ Z x=H[k*n+p],y=H[k*n+q]; H[k*n+p]=co*x-si*std::conj(ph)*y; H[k*n+q]=si*ph*x+co*y; x=V[k*n+p]; y=V[k*n+q]; V[k*n+p]=co*x-si*std::conj(ph)*y; V[k*n+q]=si*ph*x+co*y; }
    for(int k=0;k<n;k++){ Z x=H[p*n+k],y=H[q*n+k]; H[p*n+k]=co*x-si*ph*y; H[q*n+k]=si*std::conj(ph)*x+co*y; } } } }
struct Mix{ LD t12,t13,t23,d; LD m[3]; Z U[9]; void build(){ LD c12=cosl(t12),s12=sinl(t12),c13=cosl(t13),s13=sinl(t13),c23=cosl(t23),s23=sinl(t23); Z e=std::polar((LD)1,d); Z u[9]={c12*c13,s12*c13,s13*std::conj(e),-s12*c23-c12*s23*s13*e,c12*c23-s12*s23*s13*e,s23*c13,s12*s23-c12*c23*s13*e,-c12*s23-s12*c23*s13*e,c23*c13}; for(int i=0;i<9;i++) U[i]=u[i]; }
  // adiabatic conversion: the k-th lightest state in matter leaves as the k-th lightest state in vacuum
  LD pee(LD E,LD ne) const{ static const double CC=std::sqrt(2.)*K.GF*K.Na*std::pow(K.cm,-3); Z H[9],V[9]; for(int a=0;a<3;a++)for(int b=0;b<3;b++){ Z s=0; for(int i=0;i<3;i++) s+=U[a*3+i]*std::conj(U[b*3+i])*m[i]; H[a*3+b]=s/(2*E); } H[0]+=(LD)CC*ne; eigen(3,H,V); int ma[3]={0,1,2},va[3]={0,1,2}; std::sort(ma,ma+3,[&](int a,int b){return H[a*4].real()<H[b*4].real();}); std::sort(va,va+3,[&](int a,int b){return m[a]<m[b];}); LD p=0; for(int i=0;i<3;i++) p+=std::norm(V[ma[i]])*std::norm(U[va[i]]); return p; } };
static Mix mixing(Rng& r,SOP& s,std::string& how){ Mix x; if(r.coin(.2)){ x.t12=.583638; x.t13=.149575; x.t23=.855211; x.d=0; x.m[0]=0; x.m[1]=7.42e-5; x.m[2]=.002514; how="default mixing"; } else { double a=r.uni(.1,1.4),b=r.uni(.02,.6),g=r.uni(.1,1.4),d=r.uni(0,6.28),m1=r.logu(1e-5,1e-4),m2=r.logu(1e-3,1e-2)*(r.coin(.35)?-1:1); if(r.coin(.1)) m1=-m1; s.Set_MixingAngle(0,1,a); s.Set_MixingAngle(0,2,b); s.Set_MixingAngle(1,2,g); s.Set_CPPhase(0,2,d); s.Set_SquareMassDifference(1,m1); s.Set_SquareMassDifference(2,m2); x.t12=a; x.t13=b; x.t23=g; x.d=d; x.m[0]=0; x.m[1]=m1; x.m[2]=m2; how=fmt("angles %.3f %.3f %.3f, differences %.3g %.3g",a,b,g,m1,m2); } x.build(); return x; }
VH_GROUP("probabilities",500,20000){ Rng& r=c.rng; Dir d(c.tmp); Sun_ s=make(r,"p",true); SOP o; c.check("solar/no-model",vh::throws([&]{o.SolarOscillationProbability(1e6,.1);})==1&&vh::throws([&]{o.GetSolarModel();})==1&&vh::throws([&]{o.PeeSquare(1e6);})==1&&vh::throws([&]{o.RadialIntegratedFluxes(1e6);})==1,"answered without a solar model"); auto m=std::make_shared<SolarModel>("p"); o.SetSolarModel(m); c.check("solar/model",o.GetSolarModel()==m,""); std::string how; Mix x=mixing(r,o,how); c.desc(how+", "+s.how);
  for(int i=0;i<30;i++){ double R=r.unit(),E=r.logu(1e3,1e8); double g=o.SolarOscillationProbability(E,R); c.check("solar/bounds",g>=-1e-12&&g<=1+1e-12,fmt("%g",g)); c.near("solar/probability",g,(double)x.pee(E,s.radial(8,R)),0,2e-7,fmt("E=%.10g R=%.10g density %.6Lg",E,R,s.radial(8,R))); c.count("probabilities"); } c.check("solar/outside",vh::throws([&]{o.SolarOscillationProbability(1e6,r.coin()?-.1:1.1);})==1,"outside the Sun");
  if(x.m[2]<0) c.count("inverted"); c.nontrivial(how); c.sample(how+", "+s.how); }
// integrals over the Sun, between the knots of the tables
static const LD GX[4]={.18343464249564980494L,.52553240991632898582L,.79666647741362673959L,.96028985649753623168L},GW[4]={.36268378337836198297L,.31370664587788728734L,.22238103445337447054L,.10122853629037625915L};
template<class F> static LD quad(const Sun_& s,F f){ LD sum=0; D k{0}; for(double v:s.R) if(v/RS>0&&v/RS<.99) k.push_back(v/RS); k.push_back(.99); for(size_t i=1;i<k.size();i++){ int sub=4; for(int j=0;j<sub;j++){ LD a=k[i-1]+(k[i]-k[i-1])*(LD)j/sub,b=k[i-1]+(k[i]-k[i-1])*(LD)(j+1)/sub; for(int g=0;g<4;g++)for(int q=-1;q<=1;q+=2) sum+=(b-a)/2*GW[g]*f((a+b)/2+q*GX[g]*(b-a)/2); } } return sum; }
VH_GROUP("integrals",120,3000){ Rng& r=c.rng; Dir d(c.tmp); Sun_ s=make(r,"q",true,0); SOP o; o.SetSolarModel(std::make_shared<SolarModel>("q")); std::string how; Mix x=mixing(r,o,how); c.desc(how+", "+s.how);
  for(int i=0;i<3;i++){ double E=r.coin(.4)?LIM[r.coin()?1:3][0]*(1+(r.coin()?1:-1)*(r.coin(.7)?r.uni(0,.0095):r.uni(.0105,.02))):r.logu(4e3,1.8e7); LD tot=0,pe=0; bool lined=false; for(int k=0;k<8;k++){ double e=E; if(line(k)){ e=LIM[k][0]; if(std::fabs(E-e)/E>=1e-2) continue; lined=true; } tot+=quad(s,[&](LD q){ return s.flux(k,q,e); }); pe+=quad(s,[&](LD q){ return s.flux(k,q,e)*x.pee(e,s.radial(8,q)); }); } if(tot==0){ c.count("no-flux-at-all"); continue; }
    std::string at=fmt("E=%.10g%s",E,lined?" with a line":""); c.near("solar/integrated-flux",o.RadialIntegratedFluxes(E),(double)tot,1e-2,0,at); c.near("solar/integrated-probability",o.PeeSquare(E),(double)(pe/tot),2e-2,0,at); c.count("integrals"); if(lined) c.count("lines"); }
  c.nontrivial(how); c.sample(how+", "+s.how); }
VH_GROUP("damage",600,10000){ Rng& r=c.rng; Dir d(c.tmp); make(r,"d",r.coin()); bool radial=r.coin(); int k; do k=r.in(0,7); while(line(k)); std::string f=radial?"SM/d/radial.dat":std::string("SM/NuSpec/")+FILE_OF[k]+".dat"; { SolarModel ok("d"); } marray<double,2> t=quickread(f); size_t n=t.extent(0); std::string how; int q=r.in(0,6); std::vector<D> rows; for(size_t i=0;i<n;i++){ D w; for(size_t j=0;j<t.extent(1);j++) w.push_back(t[i][j]); rows.push_back(w); }
  auto save=[&]{ std::ofstream o(f); o.precision(17); for(auto& w:rows){ for(double v:w) o<<v<<" "; o<<"\n"; } };
  switch(q){ case 0: unlink(f.c_str()); how="missing"; break; case 1: rows.clear(); save(); how="empty"; break; case 2: rows.resize(1); save(); how="one row"; break; case 3:{ int left=radial?r.in(1,10):1; for(auto& w:rows) w.resize(left); save(); how=fmt("%d columns",left); break; } case 4:{ int i=r.in(0,(int)n-2); std::swap(rows[i],rows[i+1]); save(); how="unordered"; break; } case 5:{ int i=r.in(0,(int)n-2); rows[i+1][0]=rows[i][0]; save(); how="repeated"; break; } default: rows[r.in(0,(int)n-1)].push_back(1); save(); how="ragged"; }
  c.desc(f+" "+how); c.check("solar/damaged",vh::throws([&]{SolarModel x("d");})==1,f+" "+how+" was accepted"); c.check("solar/absent",vh::throws([&]{SolarModel x("none");})==1,"absent model"); c.count("damaged"); c.nontrivial(f+how+fmt("%zu",n)); }
// the tables which come with it
VH_GROUP_SERIAL("shipped",1,1){ Dir d(SOLAR_DIR); SolarModel m("Standard"); marray<double,2> t=quickread("SM/Standard/radial.dat"); Sun_ s; for(size_t i=0;i<t.extent(0);i++){ s.R.push_back(t[i][0]); for(int k=0;k<10;k++) s.col[k].push_back(t[i][k+1]); } for(int k=0;k<8;k++) if(!line(k)){ auto e=quickread(std::string("SM/NuSpec/")+FILE_OF[k]+".dat"); for(size_t i=0;i<e.extent(0);i++){ s.e[k].push_back(e[i][0]*1e6); s.f[k].push_back(e[i][1]); } }
  for(int i=0;i<400;i++){ double R=c.rng.uni(1e-6,.998),E=energy(c.rng); for(int k=0;k<8;k++){ double g=-1; g=m.nuFlux(R,E,FT(k)); c.near("solar/shipped",g,(double)s.flux(k,R,E),1e-10,1e-12*(double)s.radial(k,R),fmt("%s at R=%g E=%.17g",KIND[k],R,E)); } c.near("solar/shipped",m.eDensity(R),(double)s.radial(8,R),1e-10,0,fmt("electrons at %g",R)); c.count("shipped"); } c.nontrivial("shipped"); }
