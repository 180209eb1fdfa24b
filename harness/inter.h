// Cross sections which only this harness knows, and the interaction and source terms for the reference of evo.h (C23, C24).
#ifndef VH_INTER_H
#define VH_INTER_H
#include "evo.h"
#include <nuSQuIDS/taudecay.h>
namespace ev{
typedef NeutrinoCrossSections NX;
// sigma = A (E/GeV)^p cm^2, spectrum w (q+1) z^q of the outgoing fraction z
struct Pow{ double A,p,q,w; double sig(double E) const { return A*std::pow(E/1e9,p); }
  double avg(double a,double b) const { return a==b?sig(a):A*(std::pow(b/1e9,p+1)-std::pow(a/1e9,p+1))/((p+1)*(b-a)/1e9); }
  double dif(double E1,double E2) const { return E2>E1?0:sig(E1)*w*(q+1)*std::pow(E2/E1,q)/(E1/1e9); }
  double davg(double E1,double a,double b) const { if(a==b) return dif(E1,a); b=std::min(b,E1); return sig(E1)*w*(std::pow(b/E1,q+1)-std::pow(a/E1,q+1))/((b-a)/1e9); } };
struct XS: NX{ Pow t[3][2][2]; Pow gr; bool isGR=false; mutable std::atomic<long> asked{0};
  const Pow* get(NeutrinoFlavor f,NeutrinoType n,Current c) const { asked++; if(isGR) return f==electron&&n==antineutrino&&c==GR?&gr:nullptr; if((int)f>2||c==GR) return nullptr; return &t[(int)f][n==antineutrino][c==NC]; }
  double TotalCrossSection(double E,NeutrinoFlavor f,NeutrinoType n,Current c) const override { auto p=get(f,n,c); return p?p->sig(E):0; }
  double SingleDifferentialCrossSection(double E1,double E2,NeutrinoFlavor f,NeutrinoType n,Current c) const override { auto p=get(f,n,c); return p?p->dif(E1,E2):0; } };
struct XA: XS{ double AverageTotalCrossSection(double a,double b,NeutrinoFlavor f,NeutrinoType n,Current c) const override { auto p=get(f,n,c); return p?p->avg(a,b):0; }
  double AverageSingleDifferentialCrossSection(double E,double a,double b,NeutrinoFlavor f,NeutrinoType n,Current c) const override { auto p=get(f,n,c); return p?p->davg(E,a,b):0; } };
struct World{ bool perNucleon=true,exact=true; std::vector<std::shared_ptr<XS>> nuc; std::shared_ptr<XS> ele; std::shared_ptr<CrossSectionLibrary> lib;
  // sigma such that the column of `rho` over L is `depth` interaction lengths at energy E
  static World make(Rng& r,double E,double rho,double L,double depth){ World w; w.perNucleon=r.coin(.6); w.exact=r.coin(.7); double n=rho*K.Na*std::pow(K.cm,-3),s=depth/(n*L)/(K.cm*K.cm); auto one=[&]{ std::shared_ptr<XS> x; if(w.exact) x=std::make_shared<XA>(); else x=std::make_shared<XS>(); return x; }; auto pw=[&]{ Pow p; p.p=r.uni(-.5,1.2); p.A=s*r.uni(.2,1)/std::pow(E/1e9,p.p); p.q=r.uni(-.2,3); p.w=r.uni(.3,1); return p; };
    bool universal=r.coin(.2); for(int k=0;k<(w.perNucleon?2:1);k++){ auto x=one(); for(int f=0;f<3;f++)for(int t=0;t<2;t++)for(int c=0;c<2;c++) x->t[f][t][c]=universal&&f?x->t[0][t][c]:pw(); if(r.coin(.1)) for(int f=0;f<3;f++)for(int t=0;t<2;t++) x->t[f][t][r.in(0,1)].A=0; w.nuc.push_back(x); }
    w.ele=one(); w.ele->isGR=true; w.ele->gr=pw(); w.ele->gr.A*=r.uni(.5,2); w.lib=std::make_shared<CrossSectionLibrary>(); if(w.perNucleon){ w.lib->addTarget(proton,std::shared_ptr<NX>(w.nuc[0])); w.lib->addTarget(neutron,std::shared_ptr<NX>(w.nuc[1])); if(r.coin(.3)){ auto decoy=one(); for(auto& a:decoy->t)for(auto& b:a)for(auto& c:b){ c=pw(); c.A*=5; } w.lib->addTarget(isoscalar_nucleon,std::shared_ptr<NX>(decoy)); } } else w.lib->addTarget(isoscalar_nucleon,std::shared_ptr<NX>(w.nuc[0])); w.lib->addTarget(electron,std::shared_ptr<NX>(w.ele)); return w; } };
// what interactions do to the density matrices at the nodes
struct Inter{ const Conf& c; const World& w; bool tau=false,gr=false; int ne,n,nr,nt; TauDecaySpectra tdc; D E; std::vector<D> sCC,sNC,nNC,nCC,all,lep; D sGR,nGR; double cm2=K.cm*K.cm;
  D& S(std::vector<D>& v,int t,int r,int f) { return v[(t*nr+r)*3+f]; }
  Inter(const Conf& C,const World& W):c(C),w(W),ne(C.ne()),n(C.n),nr(C.nr()),nt(W.nuc.size()),E(C.E){ build(); }
  void build(){ sCC.assign(nt*nr*3,D(ne)); sNC=sCC; nNC.assign(nt*nr*3,D(ne*ne)); nCC=nNC; for(int t=0;t<nt;t++)for(int r=0;r<nr;r++)for(int f=0;f<3;f++){ Pow cc=w.nuc[t]->t[f][c.anti(r)][0],nc=w.nuc[t]->t[f][c.anti(r)][1]; for(int e=0;e<ne;e++){ double lo=E[e?e-1:0]; S(sCC,t,r,f)[e]=cc.avg(lo,E[e])*cm2; S(sNC,t,r,f)[e]=nc.avg(lo,E[e])*cm2; for(int k=0;k<e;k++){ double a=E[k?k-1:0]; double x=cc.davg(E[e],a,E[k]),y=nc.davg(E[e],a,E[k]); S(nCC,t,r,f)[e*ne+k]=x?x/cc.avg(lo,E[e])/1e9:0; S(nNC,t,r,f)[e*ne+k]=y?y/nc.avg(lo,E[e])/1e9:0; } } }
    sGR.assign(ne,0); nGR.assign(ne*ne,0); for(int e=0;e<ne;e++){ double lo=E[e?e-1:0]; sGR[e]=w.ele->gr.avg(lo,E[e])*cm2; for(int k=0;k<e;k++) nGR[e*ne+k]=w.ele->gr.davg(E[e],E[k?k-1:0],E[k])/w.ele->gr.avg(lo,E[e])/1e9; }
    marray<double,1> er{(size_t)ne}; std::copy(E.begin(),E.end(),er.begin()); tdc.Init(er); all.assign(nr,D(ne*ne)); lep=all; for(int r=0;r<nr;r++)for(int e=0;e<ne;e++)for(int k=0;k<e;k++){ all[r][e*ne+k]=tdc.dNdEnu_All(e,k,c.anti(r))/1e9; lep[r][e*ne+k]=tdc.dNdEnu_Lep(e,k,c.anti(r))/1e9; } }
  void densities(double rho,double ye,D& den,double& ele) const { double q=K.gr*std::pow(K.cm,-3)*rho; if(nt==1){ double nn=2*q/(K.electron_mass+K.proton_mass+K.neutron_mass); den={nn}; ele=nn*ye; return; } double nuc=q/(ye*(K.electron_mass+K.proton_mass)+(1-ye)*K.neutron_mass); den={nuc*ye,nuc*(1-ye)}; ele=den[0]; }
  void operator()(const Ref& R,const std::vector<Z>& y,std::vector<Z>& d,double rho,double ye){ D den; double ele; densities(rho,ye,den,ele); D tauF[2]; D fac[2][3]; for(int r=0;r<nr;r++)for(int f=0;f<3;f++) fac[r][f].assign(ne,0); for(auto& v:tauF) v.assign(ne,0); auto width=[&](int e){ return E[e]-E[e-1]; }; int gsec=c.nt==both?1:c.nt==antineutrino?0:-1; auto flux=[&](int e,int r,int f){ return std::real(R.at(y,e,r)[f*n+f]); };
    for(int r=0;r<nr;r++)for(int e=0;e<ne;e++){ double G[6]={0}; for(int f=0;f<3;f++){ for(int t=0;t<nt;t++) G[f]+=den[t]*(S(sCC,t,r,f)[e]+S(sNC,t,r,f)[e]); } if(gr&&r==gsec) G[0]+=ele*sGR[e]; Z* o=R.at(d,e,r); const Z* m=R.at(y,e,r); for(int a=0;a<n;a++)for(int b=0;b<n;b++) o[a*n+b]-=.5*(G[a]+G[b])*m[a*n+b]; }
    for(int r=0;r<nr;r++)for(int f=0;f<3;f++)for(int e=1;e<ne;e++){ double q=flux(e,r,f)*width(e); for(int t=0;t<nt;t++){ double inv=den[t]*S(sNC,t,r,f)[e],icc=den[t]*S(sCC,t,r,f)[e]; const D& N=S(nNC,t,r,f); for(int k=0;k<e;k++) fac[r][f][k]+=q*inv*N[e*ne+k]; if(f==2&&tau){ const D& M=S(nCC,t,r,f); for(int k=1;k<e;k++) tauF[r][k]+=q*icc*M[e*ne+k]*width(k); } } }
    if(tau) for(int r=0;r<nr;r++)for(int e=1;e<ne;e++)for(int k=0;k<e;k++){ fac[r][2][k]+=tauF[r][e]*all[r][e*ne+k]; for(int f=0;f<2;f++) fac[1-r][f][k]+=tauF[r][e]*lep[r][e*ne+k]; }
    if(gr&&gsec>=0) for(int e=1;e<ne;e++){ double q=flux(e,gsec,0)*ele*sGR[e]*width(e); for(int f=0;f<3;f++)for(int k=0;k<e;k++) fac[gsec][f][k]+=q*nGR[e*ne+k]; }
    for(int r=0;r<nr;r++)for(int f=0;f<3;f++)for(int e=0;e<ne;e++) R.at(d,e,r)[f*n+f]+=fac[r][f][e]; }
};
// energies where interactions matter, splittings that oscillate moderately over L
static Conf hot(Rng& r,double L,double maxphase,NeutrinoType nt){ Conf c; c.n=r.coin(.75)?3:r.in(4,6); c.nt=nt; int ne=r.in(3,9); double e=r.logu(30,1e6)*K.GeV; bool lin=r.coin(.3); for(int i=0;i<ne;i++){ c.E.push_back(e); if(lin) e+=c.E[0]*.3; else e*=r.uni(1.1,2.2); } for(int j=1;j<c.n;j++){ for(int i=0;i<j;i++){ c.th[i][j]=r.coin(.1)?0:r.uni(-.3,1.6); c.dl[i][j]=r.coin(.4)?0:r.uni(-3.2,6.3); } c.dm[j]=2*c.E[0]/L*maxphase*r.uni(-1,1); c.big=std::max(c.big,std::fabs(c.dm[j])); } return c; }
}
#endif
