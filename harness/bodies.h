// Generators of bodies and tracks with an independent description of their medium and geometry (C15, C16, C17, C07).
#ifndef VH_BODIES_H
#define VH_BODIES_H
#include <functional>
#include <memory>
#include "nuSQuIDS/body.h"
#include "nuSQuIDS/resources.h"
#include "SQuIDS/const.h"
#include "akima.h"
namespace bd{
using namespace nusquids; using vh::Rng; using vh::fmt;
static squids::Const P;
static const double RE=6371.0,RSUN=695980.0,RSUN_NU=694439.0;
// a profile over relative radius (or position) as the documentation defines it
struct Profile{ D x,y; Aki a; double Y,S; double below,above; AkimaSpline lib;
  Profile(const D& X,const D& Yv,double b,double ab):x(X),y(Yv),a(V(X.begin(),X.end()),V(Yv.begin(),Yv.end()),false),Y(0),S((double)a.scale),below(b),above(ab),lib(X,Yv){ for(double v:Yv) Y=std::max(Y,std::fabs(v)); }
  bool firm(double q) const { if(q<x.front()||q>x.back()) return true; int i=cell(x,q); return a.firm[i]&&a.firm[i+1]; }
  bool edge(double q,double dq) const { return std::fabs(q-x.front())<=dq||std::fabs(q-x.back())<=dq; }
  LD at(LD q) const { if(q<x.front()) return below; if(q>x.back()) return above; int i=cell(x,(double)q); LD h=(LD)x[i+1]-x[i]; return hermite((q-x[i])/h,h,y[i],y[i+1],a.right[i],a.left[i+1]); } };
enum Kind{VAC,CON,VAR,EARTH,SUN,SUNNU,ATM,NKIND};
static const char* kindName(int k){ static const char* n[]={"Vacuum","ConstantDensity","VariableDensity","Earth","Sun","SunASnu","EarthAtm"}; return n[k]; }
struct Made{ int kind; std::shared_ptr<Body> body; D x,rho,ye; double atm=22; std::string how; std::shared_ptr<Profile> prho,pye; };
static D inc(Rng& r,int n,double a,double b){ D x; double v=0; for(int i=0;i<n;i++){ x.push_back(v); v+=r.coin(.3)?1:r.logu(.1,5); } double l=x.back(); for(auto& q:x) q=a+(b-a)*q/l; x.front()=a; x.back()=b; return x; }
static D vals(Rng& r,int n,double lo,double hi,bool log){ D y; int k=r.in(0,3); double a=r.unit(),p=r.uni(0,6),f=r.uni(.1,1.5); for(int i=0;i<n;i++){ double t=k==0?r.unit():k==1?.5+.5*std::sin(p+f*i):k==2?(double)i/(n-1):a; y.push_back(log?std::exp(std::log(lo)+(std::log(hi)-std::log(lo))*t):lo+(hi-lo)*t); } return y; }
static void describe(Made& m){ if(m.x.empty()) return; bool sun=m.kind==SUN||m.kind==SUNNU; if(m.kind==VAR){ m.prho=std::make_shared<Profile>(m.x,m.rho,0,0); m.pye=std::make_shared<Profile>(m.x,m.ye,0,0); } else if(sun){ m.prho=std::make_shared<Profile>(m.x,m.rho,m.rho.front(),0); m.pye=std::make_shared<Profile>(m.x,m.ye,m.ye.front(),0); } else { m.prho=std::make_shared<Profile>(m.x,m.rho,m.rho.front(),m.rho.back()); m.pye=std::make_shared<Profile>(m.x,m.ye,m.ye.front(),m.ye.back()); } }
// columns of the distributed tables
static void table(const std::string& f,D& a,D& b,D& c,int i,int j,int k){ auto t=quickread(f); for(size_t q=0;q<t.extent(0);q++){ a.push_back(t[q][i]); b.push_back(t[q][j]); c.push_back(t[q][k]); } }
static Made make(Rng& r,int kind,bool alwaysVectors=false,const std::string& tmp=""){
  Made m; m.kind=kind; int n=r.in(3,r.coin(.2)?60:12); if(r.coin(.015)) n=r.in(257,700); int way=alwaysVectors||tmp.empty()?0:r.in(0,9);
  if(kind==VAC){ m.body=std::make_shared<Vacuum>(); m.how="vacuum"; return m; }
  if(kind==CON){ double d=r.coin(.1)?0:r.logu(1e-6,1e3),y=r.coin(.1)?r.in(0,1):r.unit(); m.rho={d}; m.ye={y}; m.body=std::make_shared<ConstantDensity>(d,y); m.how=fmt("constant %g %g",d,y); return m; }
  bool sun=kind==SUN||kind==SUNNU;
  if(kind==VAR){ double a=r.coin(.4)?0:r.logu(1,1e9),l=r.logu(1e3,1e10); m.x=inc(r,n,a,a+l); } else m.x=inc(r,n,r.coin(.6)?0:r.uni(0,.3),r.coin(.5)?1:r.uni(.6,kind==SUN?2:1.2));
  m.rho=vals(r,n,r.logu(1e-3,1),r.logu(1,200),r.coin()); m.ye=vals(r,n,r.uni(0,.5),r.uni(.5,1),false); m.how=fmt("%d nodes",n);
  std::string dir=getResourcePath()+"/astro/",f=sun?dir+"bs05_agsop.dat":dir+"EARTH_MODEL_PREM.dat"; bool deflt=way>=8&&kind!=VAR,file=way>=4&&way<8&&kind!=VAR;
  if(deflt){ m.x.clear(); m.rho.clear(); m.ye.clear(); if(sun) table(f,m.x,m.rho,m.ye,1,3,6); else table(f,m.x,m.rho,m.ye,0,1,2); m.how="distributed table"; }
  if(file){ f=tmp+"/model.dat"; FILE* o=fopen(f.c_str(),"w"); fprintf(o,"# model\n"); for(int i=0;i<n;i++){ if(sun) fprintf(o,"%g %.17g %g %.17g %g %g %.17g %g\n",r.unit(),m.x[i],r.unit(),m.rho[i],r.unit(),r.unit(),m.ye[i],r.unit()); else fprintf(o,"%.17g\t%.17g %.17g%s\n",m.x[i],m.rho[i],m.ye[i],""); } fclose(o); m.how+=" from a file"; }
  D a=m.x,b=m.rho,c=m.ye;
  switch(kind){
    case VAR: m.body=std::make_shared<VariableDensity>(a,b,c); break;
    case EARTH: m.body=deflt?std::make_shared<Earth>():file?std::make_shared<Earth>(f):std::make_shared<Earth>(a,b,c); break;
    case SUN: m.body=deflt?std::make_shared<Sun>():file?std::make_shared<Sun>(f):std::make_shared<Sun>(a,b,c); break;
    case SUNNU: m.body=deflt?std::make_shared<SunASnu>():file?std::make_shared<SunASnu>(f):std::make_shared<SunASnu>(a,b,c); break;
    case ATM: { auto e=deflt?std::make_shared<EarthAtm>():file?std::make_shared<EarthAtm>(f):std::make_shared<EarthAtm>(a,b,c); if(r.coin(.6)){ m.atm=r.coin(.2)?0:r.logu(.1,200); e->SetAtmosphereHeight(m.atm); } m.body=e; m.how+=fmt(" atmosphere %g km",m.atm); break; }
  }
  if(file) unlink(f.c_str());
  describe(m); return m; }
// a track with everything an oracle has to know about it; lengths in km (VariableDensity: cm)
struct Way{ std::shared_ptr<Track> t; double unit=0; double len=0,b=0,cosz=0; std::string how; };
static Way way(Rng& r,const Made& m){
  Way w; w.unit=P.km;
  switch(m.kind){
    case VAC: case CON: { w.len=r.logu(1e-3,1e9); double L=w.len*P.km; int k=r.in(0,2); double xi=k==0?0:r.unit()*L; if(m.kind==VAC) w.t=k==0?std::make_shared<Vacuum::Track>(L):k==1?std::make_shared<Vacuum::Track>(xi,L):std::make_shared<Vacuum::Track>(xi+.3*(L-xi),xi,L); else w.t=k==0?std::make_shared<ConstantDensity::Track>(L):k==1?std::make_shared<ConstantDensity::Track>(xi,L):std::make_shared<ConstantDensity::Track>(xi+.3*(L-xi),xi,L); break; }
    case VAR: { w.unit=P.cm; double a=m.x.front(),b=m.x.back(),l=b-a; double xi=r.coin(.3)?a-.2*l*r.unit():a+.5*l*r.unit(); w.len=r.coin(.3)?b+.3*l*r.unit():b-.3*l*r.unit(); w.t=r.coin()?std::make_shared<VariableDensity::Track>(xi*P.cm,w.len*P.cm):std::make_shared<VariableDensity::Track>((xi+.1*(w.len-xi))*P.cm,xi*P.cm,w.len*P.cm); break; }
    case EARTH: { w.b=r.coin(.1)?2*RE:2*RE*std::sqrt(r.unit()); w.len=w.b; double B=w.b*P.km; int k=r.in(0,2); w.t=k==0?std::make_shared<Earth::Track>(B):k==1?std::make_shared<Earth::Track>(0.,B,B):std::make_shared<Earth::Track>(.25*B,.1*B,.9*B,B); break; }
    case SUN: { w.len=RSUN*r.uni(.5,2.2); int k=r.in(0,2); double L=w.len*P.km; w.t=k==0?std::make_shared<Sun::Track>(L):k==1?std::make_shared<Sun::Track>(.1*L,L):std::make_shared<Sun::Track>(.2*L,.1*L,L); break; }
    case SUNNU: { w.b=r.coin(.15)?0:r.coin(.1)?RSUN_NU:RSUN_NU*r.unit(); w.len=2*std::sqrt((RSUN_NU-w.b)*(RSUN_NU+w.b)); int k=r.in(0,2); double B=w.b*P.km,L=w.len*P.km; if(w.b==RSUN_NU) B=694439.0*P.km; w.t=k==0?std::make_shared<SunASnu::Track>(B):k==1?std::make_shared<SunASnu::Track>(.1*L,B):std::make_shared<SunASnu::Track>(.3*L,.1*L,B); break; }
    case ATM: { w.cosz=r.coin(.15)?r.in(-1,1):r.uni(-1,1); double phi=r.coin(.1)?3.14159265358979323846/2:std::acos(w.cosz); LD c=cosl((LD)phi); auto e=std::static_pointer_cast<EarthAtm>(m.body); int k=r.in(0,3); if(k==0) w.t=std::make_shared<EarthAtm::Track>(e->MakeTrack(phi)); else if(k==1){ w.t=std::make_shared<EarthAtm::Track>(e->MakeTrackWithCosine(w.cosz)); c=w.cosz; } else if(k==2) w.t=std::make_shared<EarthAtm::Track>(phi,RE*P.km,m.atm*P.km); else { w.t=std::make_shared<EarthAtm::Track>(0.,phi,RE*P.km,m.atm*P.km); } w.cosz=(double)c; LD R=RE,h=m.atm; w.len=(double)(sqrtl(R*R*c*c+h*(2*R+h))-R*c); w.how=fmt("zenith cosine %.17g, ",w.cosz); break; }
  }
  w.how+=fmt("length %.17g, b %.17g",w.len,w.b); return w; }
// radius (or position) at which the medium is to be looked up after x (in the unit of the way), and the rounding uncertainty of it
static LD where(const Made& m,const Way& w,double x,double& err){ LD X=x,R=RE,e=std::numeric_limits<double>::epsilon();
  auto fin=[&](LD r2,LD size2){ LD r=r2>0?sqrtl(r2):0; LD dr2=16*e*size2; LD er=std::min(sqrtl(dr2),r>0?dr2/r:INFINITY); err=(double)er; return r; };
  switch(m.kind){
    case EARTH: return fin(R*R+X*X-(LD)w.b*X,R*R+2*X*X+(LD)w.b*X);
    case SUN: err=4*e*x; return X;
    case SUNNU: { R=RSUN_NU; LD s=sqrtl((R-w.b)*(R+(LD)w.b)); LD ds=s>0?std::min((LD)sqrtl(8*e)*R,8*e*R*R/s):sqrtl(8*e)*R; LD r2=(X-s)*(X-s)+(LD)w.b*w.b; LD r=fin(r2,R*R+2*X*X); LD sz=2*X*ds; err+=(double)std::min(sqrtl(sz),r>0?sz/r:INFINITY); return r; }
    case ATM: { R=RE; LD T=R+m.atm,c=w.cosz,L=sqrtl(R*R*c*c+(LD)m.atm*(2*R+m.atm))-R*c; LD d=L-X; return fin(R*R+d*d+2*R*d*c,T*T*4+X*X); }
    default: err=4*e*std::fabs(x); return X; } }
}
#endif
