// A class of a user: terms which the library does not know, next to the same terms for the reference of evo.h (C29).
#ifndef VH_DERIVED_H
#define VH_DERIVED_H
#include "inter.h"
using vh::Ctx; using namespace ev;
typedef std::vector<Z> M;
// what the user adds; matrices are in the flavour basis
struct Terms{ int n=3,nr=1,ne=1,ns=0; D E; double L=1,x0=0; std::vector<M> U;
  bool hc=false,hv=false,hx=false,decay=false,absorb=false,deph=false,down=false,h0=false; bool exts=false;
  std::vector<M> XC,XV,XX; double c=0,cp=0,eps=0,wx=0,kx=0,px=0; D gm,gf,gd,dh; double gp=0,rate=0; int from=0,to=0; D sa,sg;
  double t0(double x) const { return x-x0; }
  double ec(int e) const { return c*std::pow(E[e]/E[0],cp); } double ex(double x) const { return wx*std::sin(kx*t0(x)+px); } double ge(int e) const { return std::pow(E[e]/E[0],gp); }
  bool rho() const { return decay||absorb; } bool other() const { return deph||down; } bool constant() const { return !hv&&!hx&&!rho()&&!other()&&!ns; }
  std::string str() const { std::string s; if(hc) s+=fmt("constant %g E^%g ",c*L,cp); if(hv) s+=fmt("matter %g ",eps); if(hx) s+=fmt("varying %g ",wx*L); if(decay) s+="decay "; if(absorb) s+="absorption "; if(deph) s+="dephasing "; if(down) s+=fmt("daughters %g ",rate*L); if(h0) s+="free "; if(ns) s+=fmt("%d scalars ",ns); return s.empty()?"nothing":s; }
  static M hermitian(Rng& r,int n){ M m(n*n); int one=r.in(0,n-1),two=r.in(0,n-1); bool sparse=r.coin(.4); for(int a=0;a<n;a++)for(int b=a;b<n;b++){ if(sparse&&!(std::min(one,two)==a&&std::max(one,two)==b)) continue; Z z=a==b?Z(r.uni(-1,1)):Z(r.uni(-1,1),r.uni(-1,1)); m[a*n+b]=z; m[b*n+a]=std::conj(z); } return m; }
  M inMass(int r,const M& f) const { M o(n*n); for(int i=0;i<n;i++)for(int j=0;j<n;j++){ Z s=0; for(int a=0;a<n;a++)for(int b=0;b<n;b++) s+=std::conj(U[r][a*n+i])*f[a*n+b]*U[r][b*n+j]; o[i*n+j]=s; } return o; }
  M inFlavour(int r,const M& m) const { M o(n*n); for(int a=0;a<n;a++)for(int b=0;b<n;b++){ Z s=0; for(int i=0;i<n;i++)for(int j=0;j<n;j++) s+=U[r][a*n+i]*m[i*n+j]*std::conj(U[r][b*n+j]); o[a*n+b]=s; } return o; }
  static Terms make(Rng& r,const Conf& cf,double L,double x0,int what=0){ Terms t; t.n=cf.n; t.nr=cf.nr(); t.ne=cf.ne(); t.E=cf.E; t.L=L; t.x0=x0; for(int q=0;q<t.nr;q++) t.U.push_back(cf.U(q));
    auto on=[&](double p){ return r.coin(p); }; for(int k=0;k<20;k++){ t.hc=on(.5); t.hv=what!=1&&on(.4); t.hx=what!=1&&on(.3); t.decay=what!=1&&on(.3); t.absorb=what!=1&&on(.25); t.deph=what!=1&&on(.3); t.down=what!=1&&t.ne>1&&on(.25); t.h0=on(.3); t.ns=what==1?0:on(.25)?r.in(1,3):0; if(t.hc||t.hv||t.hx||t.decay||t.absorb||t.deph||t.down||t.h0||t.ns) break; }
    for(int q=0;q<t.nr;q++){ t.XC.push_back(hermitian(r,t.n)); t.XV.push_back(hermitian(r,t.n)); t.XX.push_back(hermitian(r,t.n)); }
    double g=std::pow(t.E.back()/t.E[0],1.); t.cp=r.coin(.3)?0:r.uni(-1,1); t.c=r.uni(-3,3)/L/std::max(1.,std::pow(g,t.cp)); t.eps=r.uni(-.7,.7); t.wx=r.uni(-3,3)/L; t.kx=r.uni(.5,12)/L; t.px=r.uni(0,6);
    t.gp=r.coin(.4)?0:r.uni(-1,0); for(int i=0;i<t.n;i++){ t.gm.push_back(r.coin(.3)?0:r.uni(0,1.5)/L); t.gf.push_back(r.coin(.4)?0:r.uni(0,1)/L); t.dh.push_back(r.uni(-3,3)/L); } t.gd.assign(t.n*t.n,0); for(int i=0;i<t.n;i++)for(int j=0;j<i;j++) t.gd[i*t.n+j]=t.gd[j*t.n+i]=r.coin(.2)?0:r.uni(0,2)/L;
    t.rate=r.uni(.1,1)/L; t.from=r.in(0,t.n-1); t.to=r.in(0,t.n-1); for(int k=0;k<t.ns*t.ne;k++){ t.sa.push_back(r.uni(.1,2)/L); t.sg.push_back(r.coin(.3)?0:r.uni(0,2)/L); } return t; }
  // what the reference adds
  void operator()(const Ref& R,double x,const M& y,M& d,double rho,double ye,bool osc) const { double V=Ref::Vunit()*rho*ye; M H(n*n); for(int r=0;r<nr;r++){ double sg=R.c.anti(r)?-1:1; for(int e=0;e<ne;e++){ std::fill(H.begin(),H.end(),Z(0)); auto put=[&](double k,const M& X){ for(int i=0;i<n*n;i++) H[i]+=k*X[i]; }; if(hc) put(ec(e),XC[r]); if(hv) put(sg*eps*V,XV[r]); if(hx) put(ex(x),XX[r]); if(h0&&osc) for(int a=0;a<n;a++)for(int b=0;b<n;b++)for(int i=0;i<n;i++) H[a*n+b]+=U[r][a*n+i]*dh[i]*(E[0]/E[e])*std::conj(U[r][b*n+i]);
      M G(n*n); if(decay) for(int a=0;a<n;a++)for(int b=0;b<n;b++)for(int i=0;i<n;i++) G[a*n+b]+=.5*ge(e)*gm[i]*U[r][a*n+i]*std::conj(U[r][b*n+i]); if(absorb) for(int a=0;a<n;a++) G[a*n+a]+=.5*gf[a]*rho;
      const Z* m=R.at(y,e,r); Z* o=R.at(d,e,r); for(int a=0;a<n;a++)for(int b=0;b<n;b++){ Z s=0; for(int k=0;k<n;k++) s+=Z(0,-1)*(H[a*n+k]*m[k*n+b]-m[a*n+k]*H[k*n+b])-(G[a*n+k]*m[k*n+b]+m[a*n+k]*G[k*n+b]); o[a*n+b]+=s; }
      if(deph||down){ M q(m,m+n*n),z=inMass(r,q),w(n*n); if(deph) for(int i=0;i<n*n;i++) w[i]-=gd[i]*z[i]; if(down) for(int f=e+1;f<ne;f++){ M p(R.at(y,f,r),R.at(y,f,r)+n*n),v=inMass(r,p); w[to*n+to]+=rate*std::real(v[from*n+from])*(E[f]-E[f-1])/E[f]; } M f=inFlavour(r,w); for(int i=0;i<n*n;i++) o[i]+=f[i]; } } } } };
// the class
struct User: NS{ std::shared_ptr<Terms> t; std::vector<std::vector<squids::SU_vector>> base[3],cur[3]; long pre=0,bad=0,hi=0,gam=0,oth=0,sc=0; double lastx=0,off=0,tx=0; bool haveOff=false; std::string why; double tag=0; bool pic=false;
  User(){} User(User&&)=default; User& operator=(User&&)=default;
  User(marray<double,1> e,unsigned n,NeutrinoType nt,bool i=false,std::shared_ptr<CrossSectionLibrary> x=nullptr,std::shared_ptr<Terms> T=nullptr):NS(e,n,nt,i,x){ use(T); }
  User(unsigned n,NeutrinoType nt,std::shared_ptr<Terms> T=nullptr):NS(n,nt){ use(T); }
  User(const std::string& f,const std::string& g="/",std::shared_ptr<InteractionStructure> i=nullptr):NS(f,g,i){}
  void AddToWriteHDF5(hid_t g) const override { addH5Attribute(g,"tag",tag); } void AddToReadHDF5(hid_t g) override { readH5Attribute(g,"tag",tag); }
  squids::SU_vector vec(const M& m) const { squids::SU_vector v(nsun); v.frommat(m.data()); return v; }
  void use(std::shared_ptr<Terms> T){ t=T; if(!t) return; for(auto& b:base) b.clear(); const std::vector<M>* X[3]={&t->XC,&t->XV,&t->XX}; for(int k=0;k<3;k++){ base[k].assign(t->nr,{}); for(int r=0;r<t->nr;r++) for(int e=0;e<t->ne;e++) base[k][r].push_back(vec(t->inMass(r,(*X[k])[r]))); cur[k]=base[k]; } if(t->rho()) Set_NonCoherentRhoTerms(true); if(t->other()) Set_OtherRhoTerms(true); if(t->ns){ nscalars=t->ns; Set_GammaScalarTerms(true); Set_OtherScalarTerms(true); } }
  void say(const std::string& s){ bad++; if(why.empty()) why=s; }
  bool picture() const { return basis!=mass&&GetUseOscillations(); }
  double where() { return GetTrack()->GetX(); }
  void AddToPreDerive(double x) override { if(!t) return; pre++; lastx=x; tx=track->GetX(); pic=picture(); double rho=body->density(*track),ye=body->ye(*track); if(current_density!=rho||current_ye!=ye) say(fmt("at %g the density is %g (%g), the electron fraction %g (%g)",x,current_density,rho,current_ye,ye)); if(!haveOff){ off=x-tx; haveOff=true; } if(std::fabs(x-tx-off)>1e-9*(std::fabs(x)+std::fabs(tx))) say(fmt("the track is at %g at time %g, offset %g",tx,x,off));
    unsigned e=pre%ne,r=(pre/7)%nrhos,f=(pre/3)%numneu; squids::SU_vector p=pic?b1_proj[r][f].Evolve(H0_array[e],x-Get_t_initial()):b1_proj[r][f]; for(unsigned k=0;k<p.Size();k++) if(!(std::fabs(p[k]-evol_b1_proj[r][f][e][k])<1e-9)) { say(fmt("projector %u of rho %u, energy %u is not that of time %g",f,r,e,x)); break; }
    for(int k=0;k<3;k++) if(k==0?t->hc:k==1?t->hv:t->hx) for(int r=0;r<t->nr;r++)for(int e=0;e<t->ne;e++) cur[k][r][e]=pic?base[k][r][e].Evolve(H0_array[e],x-Get_t_initial()):base[k][r][e]; }
  void here(const char* w) const { if(track->GetX()!=tx) const_cast<User*>(this)->say(fmt("%s is asked at %g, the last update was at %g",w,track->GetX(),tx)); if(!pre) const_cast<User*>(this)->say(fmt("%s is asked before any update",w)); }
  squids::SU_vector H0(double E,unsigned r) const override { squids::SU_vector v=nuSQUIDS::H0(E,r); if(t&&t->h0&&GetUseOscillations()) for(int i=0;i<t->n;i++) v+=(t->dh[i]*t->E[0]/E)*squids::SU_vector::Projector(nsun,i); return v; }
  squids::SU_vector HI(unsigned e,unsigned r) const override { squids::SU_vector v=nuSQUIDS::HI(e,r); if(!t) return v; const_cast<User*>(this)->hi++; here("HI"); double sg=NT==antineutrino||(NT==both&&r==1)?-1:1; if(t->hc) v+=t->ec(e)*cur[0][r][e]; if(t->hv) v+=(sg*t->eps*HI_constants*current_density*current_ye)*cur[1][r][e]; if(t->hx) v+=t->ex(track->GetX())*cur[2][r][e]; return v; }
  squids::SU_vector GammaRho(unsigned e,unsigned r) const override { squids::SU_vector v=nuSQUIDS::GammaRho(e,r); if(!t) return v; const_cast<User*>(this)->gam++; here("GammaRho"); if(t->decay) for(int i=0;i<t->n;i++) v+=(.5*t->ge(e)*t->gm[i])*squids::SU_vector::Projector(nsun,i); if(t->absorb) for(int f=0;f<t->n;f++) v+=(.5*t->gf[f]*current_density)*evol_b1_proj[r][f][e]; return v; }
  squids::SU_vector InteractionsRho(unsigned e,unsigned r) const override { squids::SU_vector v=nuSQUIDS::InteractionsRho(e,r); if(!t) return v; const_cast<User*>(this)->oth++; here("InteractionsRho"); if(t->deph){ M m(t->n*t->n); estate[e].rho[r].tomat(m.data()); for(int i=0;i<t->n*t->n;i++) m[i]*=-t->gd[i]; v+=vec(m); } if(t->down) for(int f=e+1;f<t->ne;f++){ double q=estate[f].rho[r]*b0_proj[t->from]; v+=(t->rate*q*(t->E[f]-t->E[f-1])/t->E[f])*b0_proj[t->to]; } return v; }
  double GammaScalar(unsigned e,unsigned k) const override { if(!t) return 0; const_cast<User*>(this)->sc++; here("GammaScalar"); return t->sg[e*t->ns+k]; }
  double InteractionsScalar(unsigned e,unsigned k) const override { if(!t) return 0; here("InteractionsScalar"); return t->sa[e*t->ns+k]*(k%2?current_density:1+std::cos(t->kx*t->t0(track->GetX()))); }
  double& scalar(unsigned e,unsigned k){ return state[e].scalar[k]; } };
// the scalars by themselves: s' = -g s + a f(x)
static double scalarRef(const Terms& t,int e,int k,Leg& l,double s,double x0,double x1){ int N=l.smooth?4000:60000; double h=(x1-x0)/N,g=t.sg[e*t.ns+k],a=t.sa[e*t.ns+k]; auto f=[&](double x){ if(k%2==0) return a*(1+std::cos(t.kx*t.t0(x))); double rho,ye; l.at(x,rho,ye); return a*rho; }; double tot=0; auto w=[&](double x){ return std::exp(-g*(x1-x)); }; for(int i=0;i<N;i++){ double p=x0+i*h; tot+=h/6*((i?0:1)*0+w(p)*f(p)+4*w(p+.5*h)*f(p+.5*h)+w(p+h)*f(p+h)); } return s*std::exp(-g*(x1-x0))+tot; }
#endif
