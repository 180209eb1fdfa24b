// C20: the electron-antineutrino resonance against the formula in long double, its spectrum and its averages.
#include "vh.h"
#include "xs.h"
using vh::Ctx; using namespace xs; typedef GlashowResonanceCrossSection G;
static const LD me=0.510998910e-3L,mmu=105.658367e-3L,GF=1.16637e-5L,MW=80.385L,GW=2.085L,hc2=3.8937929e-28L;   // GeV, GeV^-2, (hbar c)^2 in GeV^2 cm^2
static LD ref(LD E){ LD s=2*me*E,k=1-(mmu*mmu-me*me)/s; if(k<=0) return 0; return GF*GF*s/M_PIl*k*k/((1-s/(MW*MW))*(1-s/(MW*MW))+GW*GW/(MW*MW))/0.1063L/3*hc2; }
static const double PEAK=(double)(MW*MW/(2*me)),THR=(double)((mmu*mmu-me*me)/(2*me));   // GeV
static const auto nue=fl(0); static const auto bar=ty(1);
static double simpson(const std::function<double(double)>& f,double a,double b,int n){ double h=(b-a)/n,s=f(a)+f(b); for(int i=1;i<n;i++) s+=f(a+i*h)*(i%2?4:2); return s*h/3; }
VH_GROUP("resonance",4000,100000){
  Rng& r=c.rng; G g0; std::unique_ptr<G> p; int how=r.in(0,2); p.reset(how==0?new G():how==1?new G(g0):new G(std::move(g0))); const NeutrinoCrossSections& g=*p; double E=r.coin(.4)?PEAK*r.uni(.8,1.25):r.coin(.2)?THR*r.uni(.5,3):r.logu(1e-2,1e12); c.desc(fmt("E=%.9g GeV",E));
  double t=g.TotalCrossSection(E*GeV,nue,bar,X::GR); double near_thr=std::fabs(E/THR-1); c.check("glashow/finite",std::isfinite(t)&&t>=0,fmt("%g",t)); if(near_thr>.05) c.near("glashow/total",t,(double)ref(E),2e-3,0,c.rng.coin()?"":""); else c.check("glashow/threshold",t<=1e-2*(double)ref(PEAK),fmt("%g near the threshold",t)); if(E<THR*.99) c.check("glashow/below-threshold",t==0,fmt("%g cm^2 where no muon can be made",t));
  for(int F=0;F<4;F++)for(int n=0;n<2;n++)for(X::Current k:{X::CC,X::NC,X::GR}){ if(F==0&&n==1&&k==X::GR) continue; c.check("glashow/others",g.TotalCrossSection(E*GeV,fl(F),ty(n),k)==0&&g.SingleDifferentialCrossSection(E*GeV,E*GeV*.3,fl(F),ty(n),k)==0&&g.AverageTotalCrossSection(E*GeV,E*GeV*2,fl(F),ty(n),k)==0&&g.AverageSingleDifferentialCrossSection(E*GeV,E*GeV*.2,E*GeV*.5,fl(F),ty(n),k)==0,fmt("flavour %d type %d current %d",F,n,(int)k)); }
  // spectrum: sign, support, shape and integral
  double prev=0; for(int i=0;i<=8;i++){ double x=i==8?1:i/8.+r.uni(0,.1),d=g.SingleDifferentialCrossSection(E*GeV,x*E*GeV,nue,bar,X::GR); c.check("glashow/spectrum",d>=0&&d>=prev,fmt("x=%g: %g after %g",x,d,prev)); prev=d; }
  for(int i=0;i<3;i++){ double up=i==0?std::nextafter(E*GeV,INFINITY):E*GeV*(1+r.logu(1e-12,1e4)); c.check("glashow/support",g.SingleDifferentialCrossSection(E*GeV,up,nue,bar,X::GR)==0,fmt("secondary of %.17g",up/GeV)); }
  double I=simpson([&](double e){ return g.SingleDifferentialCrossSection(E*GeV,e*GeV,nue,bar,X::GR); },0,E,16); c.near("glashow/integral",I,G::WDecayBranchingFraction(fl(1))*t,1e-9,0,"integral over secondary energies"); if(t>0){ double m=simpson([&](double e){ return e*g.SingleDifferentialCrossSection(E*GeV,e*GeV,nue,bar,X::GR); },0,E,64)/(I*E); c.near("glashow/mean",m,.75,1e-6,0,"mean energy fraction"); }
  // averages
  double a=r.coin()?PEAK*r.logu(.3,1):std::max(E,THR*1.1),b=r.coin()?std::min(a*10,std::max(PEAK,a)*r.logu(1.001,3)):a*r.logu(1.0001,2); 
  if(r.coin(.3)&&a<PEAK&&a>.3*PEAK){ LD ta=ref(a); double lo=PEAK,hi=PEAK*1e4; for(int i=0;i<200;i++){ double m=std::sqrt(lo*hi); (ref(m)>ta?lo:hi)=m; } if(ref(hi)<=ta*1.0001L) { b=hi; c.count("equal-ends"); } }
  if(b>a){ double av=g.AverageTotalCrossSection(a*GeV,b*GeV,nue,bar,X::GR); auto f=[&](double l){ double e=std::exp(l); return (double)ref(e)*e; }; double P=PEAK,s=0; if(a<P&&P<b) s=simpson(f,std::log(a),std::log(P),4000)+simpson(f,std::log(P),std::log(b),4000); else s=simpson(f,std::log(a),std::log(b),4000); c.near("glashow/average",av,s/(b-a),.05,0,fmt("from %.9g to %.9g GeV",a,b)); c.count("averages"); c.near("glashow/average-empty",g.AverageTotalCrossSection(a*GeV,a*GeV,nue,bar,X::GR),g.TotalCrossSection(a*GeV,nue,bar,X::GR),1e-14,0,"");
    double x=r.unit()*.9,y=x+(1-x)*r.unit(); if(t>0&&y>x+1e-6) c.near("glashow/average-diff",g.AverageSingleDifferentialCrossSection(E*GeV,x*E*GeV,y*E*GeV,nue,bar,X::GR),g.SingleDifferentialCrossSection(E*GeV,E*GeV,nue,bar,X::GR)*(y*y+x*y+x*x)/3,1e-3,0,fmt("%g to %g",x,y)); }
  c.nontrivial(fmt("%.17g",E)); c.sample(fmt("%.9g GeV: %g cm^2",E,t)); if(E<THR) c.count("below-threshold"); if(std::fabs(E/PEAK-1)<.1) c.count("near-peak");
}
VH_GROUP("peak",300,3000){ Rng& r=c.rng; G g; c.desc("maximum"); double lo=PEAK*r.logu(.05,.8),hi=PEAK*r.logu(1.3,50); for(int i=0;i<200;i++){ double a=lo+(hi-lo)*.382,b=lo+(hi-lo)*.618; if(g.TotalCrossSection(a*GeV,nue,bar,X::GR)<g.TotalCrossSection(b*GeV,nue,bar,X::GR)) lo=a; else hi=b; } c.near("glashow/peak",lo,PEAK,2e-3,0,"position of the maximum"); double s=g.TotalCrossSection(lo*GeV,nue,bar,X::GR); c.check("glashow/height",s>4.5e-31&&s<5.5e-31,fmt("%g cm^2 at the maximum",s)); double w=PEAK*(double)(GW/MW); for(int sg:{-1,1}) c.near("glashow/width",g.TotalCrossSection((PEAK+sg*w)*GeV,nue,bar,X::GR),s/2,.06,0,"one width away from the maximum");
  c.near("branching",G::WDecayBranchingFraction(fl(0)),.1071,0,.004); c.near("branching",G::WDecayBranchingFraction(fl(1)),.1063,0,.004); c.near("branching",G::WDecayBranchingFraction(fl(2)),.1138,0,.006); c.check("branching",G::WDecayBranchingFraction(fl(3))==0,""); c.nontrivial(fmt("%g",hi)); }
