// C16: track geometry against elementary geometry computed independently, for every way of making a track.
#include "vh.h"
#include "bodies.h"
using vh::Ctx; using namespace bd;
static const double KM=P.km;
static bool eqd(const D& a,const D& b){ return a.size()==b.size()&&std::equal(a.begin(),a.end(),b.begin()); }
template<typename T> static void basics(Ctx& c,const T& t0,double x,double xi,double xe,const D& extra,const std::string& what){
  T t(t0); c.check("track/initial",t.GetInitialX()==xi,what); c.check("track/final",t.GetFinalX()==xe,what); c.check("track/position",t.GetX()==x,what+fmt(": %.17g instead of %.17g",t.GetX(),x)); D p=t.GetTrackParams(),w{xi,xe}; w.insert(w.end(),extra.begin(),extra.end()); c.check("track/params",eqd(p,w),what+" params "+vh::join(p)+" instead of "+vh::join(w));
  const Track& g=t; c.check("track/base-view",g.GetX()==x&&g.GetInitialX()==xi&&g.GetFinalX()==xe&&eqd(g.GetTrackParams(),w),what);
  T u(t); double y=c.rng.coin(.3)?(c.rng.coin()?xi:xe):x+c.rng.uni(-1,1)*(std::fabs(xe)+1); u.SetX(y); c.check("track/set",u.GetX()==y&&u.GetInitialX()==xi&&u.GetFinalX()==xe,what); c.check("track/copy-independent",t.GetX()==x,what);
  u.ReverseTrack(); D wr=w; std::swap(wr[0],wr[1]); c.check("track/reversed",u.GetInitialX()==xe&&u.GetFinalX()==xi&&u.GetX()==y&&eqd(u.GetTrackParams(),wr),what+" after reversal "+vh::join(u.GetTrackParams())); T v(u); v.ReverseTrack(); c.check("track/reversed-twice",v.GetInitialX()==xi&&v.GetFinalX()==xe&&v.GetX()==y&&eqd(v.GetTrackParams(),w),what); c.check("track/copy-independent",t.GetInitialX()==xi&&u.GetInitialX()==xe,what); c.count("tracks"); }
template<typename T> static void straight(Ctx& c,const char* n){ Rng& r=c.rng; double a=r.coin(.2)?0:r.uni(-1,1)*r.logu(1,1e20),b=a+r.logu(1e-3,1e20),x=a+(b-a)*r.uni(-.5,1.5); c.desc(fmt("%s %g %g %g",n,x,a,b)); basics(c,T(b),0.,0.,b,{},std::string(n)+"(end)"); basics(c,T(a,b),a,a,b,{},std::string(n)+"(begin,end)"); basics(c,T(x,a,b),x,a,b,{},std::string(n)+"(position,begin,end)"); c.nontrivial(vh::S().desc); }
VH_GROUP("straight",2000,40000){ switch(c.rng.in(0,3)){case 0:straight<Vacuum::Track>(c,"Vacuum");break;case 1:straight<ConstantDensity::Track>(c,"ConstantDensity");break;case 2:straight<VariableDensity::Track>(c,"VariableDensity");break;default:straight<Sun::Track>(c,"Sun");} }
VH_GROUP("earth",1500,40000){ Rng& r=c.rng; double b=2*RE*KM*(r.coin(.1)?1:r.unit()),a=b*r.unit(),e=a+(b-a)*r.unit(),x=a+(e-a)*r.unit(); c.desc(fmt("Earth baseline %.17g",b)); basics(c,Earth::Track(b),0.,0.,b,{b},"Earth(baseline)"); basics(c,Earth::Track(a,e,b),a,a,e,{b},"Earth(begin,end,baseline)"); basics(c,Earth::Track(x,a,e,b),x,a,e,{b},"Earth(position,begin,end,baseline)"); Earth::Track t(x,a,e,b); c.check("earth/baseline",t.GetBaseline()==b&&Earth::Track(t).GetBaseline()==b&&Earth::Track(b).GetBaseline()==b,""); t.ReverseTrack(); c.check("earth/baseline",t.GetBaseline()==b,"reversal changed the baseline");
  // the chord lies inside: linear profile in the radius makes the density tell the radius
  D X{0,.25,.5,.75,1},rho{0,.25,.5,.75,1},ye{.1,.2,.3,.4,.5}; Earth E(X,rho,ye); c.check("earth/radius",E.GetRadius()==RE,""); Earth::Track u(b); for(int k=0;k<8;k++){ double f=k==0?0:k==1?1:k==2?.5:r.unit(); u.SetX(f*b); double h=E.density(u); LD B=(LD)b/KM/RE,q=sqrtl(std::max((LD)0,1-B*B*f*(1-f))); c.near("earth/chord",h,(double)q,0,q<1e-4?2e-7:1e-9,fmt("fraction %g of baseline %.17g km",f,b/KM)); c.check("earth/leaves",h<=1+1e-12,""); c.count("positions"); } c.nontrivial(vh::S().desc); }
VH_GROUP("sun-chord",1500,40000){ Rng& r=c.rng; double R=694439.0*KM,b=r.coin(.1)?R:r.coin(.1)?0:R*r.unit(),L=(double)(2*sqrtl(((LD)R-b)*((LD)R+b))),xi=L*r.unit(),x=xi+(L-xi)*r.unit(); if(r.coin(.1)) b=R*(1-r.logu(1e-15,1e-3)),L=(double)(2*sqrtl(((LD)R-b)*((LD)R+b))); c.desc(fmt("SunASnu impact parameter %.17g of %.17g",b,R));
  SunASnu::Track t(b),u(xi,b),v(x,xi,b); double got=t.GetFinalX(); double tolL=4*std::numeric_limits<double>::epsilon()*R*(L>0?std::min(R/L,1e8):1e8)+1e-12*L; c.near("sun-chord/length",got,L,0,tolL,fmt("b=%.17g",b)); c.check("sun-chord/ways",u.GetFinalX()==got&&v.GetFinalX()==got,""); basics(c,t,0.,0.,got,{b},"SunASnu(b)"); basics(c,u,xi,xi,got,{b},"SunASnu(begin,b)"); basics(c,v,x,xi,got,{b},"SunASnu(position,begin,b)");
  D X{0,.25,.5,.75,1.01},rho{0,.25,.5,.75,1.01},xh{.1,.2,.3,.4,.5}; SunASnu S(X,rho,xh); c.check("sun-chord/radius",S.GetRadius()==R,fmt("radius %.17g",S.GetRadius())); for(int k=0;k<8;k++){ double f=k==0?0:k==1?1:k==2?.5:r.unit(); t.SetX(f*got); LD y=((LD)f-.5L)*L/R,q=sqrtl(y*y+(LD)b/R*((LD)b/R)); double h=S.density(t); c.near("sun-chord/radius-on-chord",h,(double)q,0,q<1e-3?3e-8:1e-9+tolL/R,fmt("fraction %g b/R=%.17g",f,b/R)); c.count("positions"); }
  double far=R*(1+r.logu(1e-9,10)); c.check("sun-chord/misses",vh::throws([&]{SunASnu::Track z(far);})==1&&vh::throws([&]{SunASnu::Track z(0.,-far);})==1&&vh::throws([&]{SunASnu::Track z(0.,0.,NAN);})==1,"a chord outside of the Sun was accepted"); c.nontrivial(vh::S().desc); }
VH_GROUP("atmosphere",4000,100000){ Rng& r=c.rng; double h=r.coin(.2)?22:r.coin(.1)?0:r.logu(1e-2,500),R=r.coin(.7)?RE:RE*r.uni(.5,2); double phi=r.coin(.1)?0:r.coin(.1)?M_PI:r.coin(.1)?M_PI/2:r.uni(0,M_PI),cz=std::cos(phi); c.desc(fmt("zenith %.17g, R %g km, atmosphere %.17g km",phi,R,h));
  EarthAtm::Track t(phi,R*KM,h*KM),u(EarthAtm::Track::MakeWithCosine(cz,R*KM,h*KM)); double L=t.GetBaseline();
  // walk back from the detector along the direction of arrival until the top of the atmosphere
  LD lo=0,hi=2*(R+h)+1,sn=sqrtl(1-(LD)cz*cz); for(int i=0;i<120;i++){ LD m=(lo+hi)/2,px=m*sn,py=R+m*cz; if(sqrtl(px*px+py*py)>=(LD)R+h&&m>=0) { if(cz<0){ /* inside below the far crossing */ } hi=m; } else lo=m; }
  LD far=hi; double tol=(2e-15*R*R/std::max((double)far,1e-9*R)+1e-13*R)*KM; tol=std::min(tol,2e-7*R*KM); if(h>0||cz>0) c.near("atmosphere/baseline",L,(double)(far*KM),0,h>0?tol:3e-7*R*KM,fmt("cos %.17g",cz)); else c.near("atmosphere/baseline",L,-2*R*cz*KM,0,3e-7*R*KM,"no atmosphere"); c.check("atmosphere/not-negative",L>=-1e-9*R*KM,fmt("baseline %g km",L/KM));
  double ac=std::acos(cz); basics(c,t,0.,0.,L,{ac,R*KM,h*KM},"EarthAtm(phi)"); basics(c,u,0.,0.,L,{ac,R*KM,h*KM},"EarthAtm(cosine)"); c.check("atmosphere/same-baseline",u.GetBaseline()==L,""); double x=L*r.unit(); if(x>=0){ EarthAtm::Track v(x,phi,R*KM,h*KM); basics(c,v,x,0.,L,{ac,R*KM,h*KM},"EarthAtm(position,phi)"); c.check("atmosphere/same-baseline",v.GetBaseline()==L,""); }
  D X{0,.25,.5,.75,1},rho{0,.25,.5,.75,1},ye{.1,.2,.3,.4,.5}; EarthAtm E(X,rho,ye); c.check("atmosphere/radius",E.GetRadius()==RE&&E.GetAtmosphereHeight()==22,""); E.SetAtmosphereHeight(h); c.check("atmosphere/height",E.GetAtmosphereHeight()==h&&E.GetRadius()==RE,"");
  EarthAtm::Track a=E.MakeTrack(phi),b=E.MakeTrackWithCosine(cz),d(phi,RE*KM,h*KM); c.check("atmosphere/factories",eqd(a.GetTrackParams(),d.GetTrackParams())&&eqd(b.GetTrackParams(),d.GetTrackParams())&&a.GetBaseline()==d.GetBaseline()&&b.GetBaseline()==d.GetBaseline()&&a.GetX()==0&&b.GetX()==0,vh::join(a.GetTrackParams())+" "+vh::join(b.GetTrackParams())+" "+vh::join(d.GetTrackParams()));
  if(r.coin()){ b=a; c.check("atmosphere/assigned",eqd(b.GetTrackParams(),d.GetTrackParams())&&b.GetBaseline()==d.GetBaseline(),""); EarthAtm::Track q=E.MakeTrack(phi/2); q.SetX(3); q=d; q.SetX(7); c.check("atmosphere/assigned",eqd(q.GetTrackParams(),d.GetTrackParams())&&d.GetX()==0,""); }
  double Lk=a.GetBaseline()/KM; for(int k=0;k<8;k++){ double f=k==0?0:k==1?1:r.unit(); a.SetX(f*a.GetFinalX()); double den=E.density(a); LD D2=(1-(LD)f)*Lk,q=sqrtl((LD)RE*RE+D2*D2+2*(LD)RE*D2*cz); double want; if(fabsl(q-RE)<1e-6*(1+3e-3*h)||(cz*cz<1e-12)) { c.count("at-the-surface"); continue; } if(q>RE) want=0.0012*std::exp(-(double)(q-RE)/7.594); else want=(double)(q/(RE+h)); c.near("atmosphere/radius-on-track",den,want,q>RE?1e-7:0,q>RE?0:q<10?1e-5:1e-9,fmt("fraction %g cos %g h %g",f,cz,h)); c.check("atmosphere/leaves",q<=RE+h+1e-5,""); c.count("positions"); }
  c.nontrivial(vh::S().desc); c.sample(vh::S().desc+fmt(" baseline %.12g km",L/KM)); }
