// C13: tau decay spectra.
#include "vh.h"
#include "nuSQuIDS/taudecay.h"
using vh::Ctx; using vh::fmt; using namespace nusquids;
typedef double (TauDecaySpectra::*Ch)(double,double) const;
static const struct{const char* n; Ch f; double zmax,R;} CH[]={{"lepton",&TauDecaySpectra::TauDecayToLepton,1,0},{"pion",&TauDecaySpectra::TauDecayToPion,1-0.07856*0.07856,0},{"rho",&TauDecaySpectra::TauDecayToRho,1-0.43335*0.43335,0},{"a1",&TauDecaySpectra::TauDecayToA1,1-0.70913*0.70913,0},{"hadron",&TauDecaySpectra::TauDecayToHadron,0.3,0}};
static const double BR[]={0.36,0.12,0.26,0.13,0.13};
// the decay functions of PRD 62 123001 for taus of polarisation -1
static double published(int k,double z){
  if(z>CH[k].zmax) return 0;
  if(k==0) return 4./3-4*z*z*z/3;                 // (5/3-3z^2+4z^3/3)-(1/3-3z^2+8z^3/3)
  if(k==4) return 1/.3;
  double R=1-CH[k].zmax, slope=k==1?1:(1-2*R)/(1+2*R), h=(2*z-1+R)/(1-R);
  return k==1 ? (1+h)/(1-R) : 1/(1-R)+slope*h;
}
VH_GROUP("channel",3000,60000){
  vh::Rng& r=c.rng; TauDecaySpectra t(r.coin()); double E=r.logu(1e-3,1e12); int k=r.in(0,4); c.desc(fmt("%s at %g",CH[k].n,E)); auto f=[&](double z){return (t.*CH[k].f)(E,z*E);};
  for(int i=0;i<20;i++){ double z=r.coin(.2)?r.uni(.99,1.01)*CH[k].zmax:r.coin(.1)?r.uni(1,5):r.unit(); double v=f(z); c.check("tau/finite",std::isfinite(v),""); if(std::fabs(z-CH[k].zmax)>1e-9) c.near("tau/published",v,published(k,z),1e-11,1e-12,fmt("%s z=%g",CH[k].n,z)); c.check("tau/non-negative",v>=-1e-12,fmt("%s at z=%.17g is %g",CH[k].n,z,v)); if(z>CH[k].zmax*(1+1e-9)) c.check("tau/kinematic-range",v==0,fmt("%s at z=%g is %g",CH[k].n,z,v));
    double E2=r.logu(1e-3,1e12); double w=(t.*CH[k].f)(E2,z*E2); if(std::fabs(z-CH[k].zmax)>1e-9) c.near("tau/scaling",w,v,1e-9,1e-11,fmt("%s z=%g",CH[k].n,z)); 
    double all=t.TauDecayToAll(E,z*E),sum=0; for(int q=0;q<5;q++) sum+=BR[q]*(t.*CH[q].f)(E,z*E); c.near("tau/sum",all,sum,1e-12,1e-13,fmt("z=%g",z)); }
  // normalisation: every channel is a probability density in z, all of them together as well
  int n=512; double s=0,zm=CH[k].zmax,m1=0; static const double gx[4]={-.861136311594053,-.339981043584856,.339981043584856,.861136311594053},gw[4]={.347854845137454,.652145154862546,.652145154862546,.347854845137454}; for(int i=0;i<n;i++)for(int g=0;g<4;g++){ double z=zm*(i+.5+.5*gx[g])/n; s+=gw[g]*.5*zm/n*f(z); m1+=gw[g]*.5*zm/n*f(z)*z; } c.near("tau/normalisation",s,1,1e-9,0,CH[k].n); c.check("tau/mean",m1>0&&m1<zm,"");
  c.near("tau/branching",t.GetTauToLeptonBranchingRatio(),.18,1e-12,0); c.near("tau/branching",t.GetTauToHadronBranchingRatio(),.13,1e-12,0);
  c.count("channel-cases"); c.nontrivial(vh::S().desc);
}
VH_GROUP("table",600,8000){
  vh::Rng& r=c.rng; size_t n=r.coin(.05)?0:r.in(1,r.coin(.1)?60:14); if(c.idx%300==9) n=r.in(257,400); marray<double,1> e{n}; double v=r.logu(1e6,1e13); for(auto& x:e){ x=v; v*=r.coin(.1)?1+1e-9:n>200?r.logu(1.001,1.08):r.logu(1.001,5); } c.desc(fmt("grid of %zu from %g",n,n?e[0]:0.)); TauDecaySpectra t; int how=r.in(0,3); if(how==0) t.Init(e); else if(how==1) t=TauDecaySpectra(e); else if(how==2){ marray<double,1> o{r.in(1,20)}; double w=1e9; for(auto& x:o){x=w;w*=2;} t.Init(o); t.Init(e); } else { TauDecaySpectra u(e); t=u; u.Init(marray<double,1>{3}); }
  TauDecaySpectra p; for(unsigned ty=0;ty<2;ty++)for(size_t i=0;i<n;i++)for(size_t j=0;j<n;j++){ double E1=e[i]/1e9,E2=e[j]/1e9; double A=p.TauDecayToAll(E1,E2),L=.18*p.TauDecayToLepton(E1,E2); c.near("tau/table-enu-all",t.dNdEnu_All(i,j,ty),A/E1,1e-12,0,fmt("%zu %zu %u",i,j,ty)); c.near("tau/table-enu-lep",t.dNdEnu_Lep(i,j,ty),L/E1,1e-12,0); c.near("tau/table-ele-all",t.dNdEle_All(i,j,ty),A*E2/(E1*E1),1e-12,0); c.near("tau/table-ele-lep",t.dNdEle_Lep(i,j,ty),L*E2/(E1*E1),1e-12,0); if(ty==0){ c.check("tau/table-default-type",t.dNdEnu_All(i,j)==t.dNdEnu_All(i,j,0)&&t.dNdEle_Lep(i,j)==t.dNdEle_Lep(i,j,0),""); }
    c.check("tau/table-types-equal",t.dNdEnu_All(i,j,0)==t.dNdEnu_All(i,j,1)&&t.dNdEnu_Lep(i,j,0)==t.dNdEnu_Lep(i,j,1),""); if(j>i) c.check("tau/table-upper",t.dNdEnu_All(i,j,ty)==0&&t.dNdEnu_Lep(i,j,ty)==0&&t.dNdEle_All(i,j,ty)==0&&t.dNdEle_Lep(i,j,ty)==0,fmt("decay product %zu above its parent %zu",j,i)); c.count("table-entries"); }
  unsigned N=n; for(int k=0;k<6;k++){ unsigned a=r.coin()?N:N+r.in(1,1000),b=n?r.in(0,n-1):0,ty=r.in(0,1); if(r.coin()) std::swap(a,b); if(r.coin(.3)&&n){ a=r.in(0,n-1);b=r.in(0,n-1);ty=r.in(2,9);} c.check("tau/out-of-range",vh::throws([&]{t.dNdEnu_All(a,b,ty);})==1&&vh::throws([&]{t.dNdEnu_Lep(a,b,ty);})==1&&vh::throws([&]{t.dNdEle_All(a,b,ty);})==1&&vh::throws([&]{t.dNdEle_Lep(a,b,ty);})==1,fmt("index %u %u type %u accepted",a,b,ty)); }
  TauDecaySpectra z; c.check("tau/uninitialised",vh::throws([&]{z.dNdEnu_All(0,0);})==1,""); c.count("tables"); if(n>256) c.count("large-tables"); if(n) c.nontrivial(vh::S().desc);
}
