// Evolution objects, their configurations, and an independent solution of the evolution equations (C21-C28).
// The reference works in the flavour basis with its own adaptive integrator and never uses the interaction picture.
#ifndef VH_EVO_H
#define VH_EVO_H
#include <complex>
#include <array>
#include <gsl/gsl_eigen.h>
#include "vh.h"
#include <nuSQuIDS/nuSQuIDS.h>
namespace ev{
using namespace nusquids; using vh::Rng; using vh::fmt; typedef std::complex<double> Z; typedef std::vector<double> D;
static const squids::Const K;
static const NeutrinoType NTS[3]={neutrino,antineutrino,both};
static const char* ntName(NeutrinoType t){ return t==both?"both":t==neutrino?"nu":"nubar"; }
// exposes the protected parts which an oracle may want to look at
struct NS: nuSQUIDS{ using nuSQUIDS::nuSQUIDS; using nuSQUIDS::operator=; NS():nuSQUIDS(){} NS(NS&&)=default; NS& operator=(NS&&)=default; using nuSQUIDS::H0; squids::SU_vector hi(unsigned e,unsigned r) const { return HI(e,r); } squids::SU_vector gamma(unsigned e,unsigned r) const { return GammaRho(e,r); } squids::SU_vector inter(unsigned e,unsigned r) const { return InteractionsRho(e,r); } using nuSQUIDS::int_struct; using nuSQUIDS::int_state; using nuSQUIDS::basis; using nuSQUIDS::NT; };
static double rd(hid_t g,const char* n){ double v; readH5Attribute(g,n,v); return v; }
// a smooth profile which only this harness knows
struct Wave: Body{ double r0,r1,k,p,y0,y1,em=0; static std::string GetName(){ return "VerifWave"; } std::function<void(marray<double,3>&,double)> emit; void injected_neutrino_flux(marray<double,3>& f,const GenericTrack& t,const nuSQUIDS&) override { if(emit) emit(f,t.GetX()); else if(em) for(size_t a=0;a<f.extent(0);a++)for(size_t b=0;b<f.extent(1);b++)for(size_t c=0;c<f.extent(2);c++) f[a][b][c]=em*(1+.2*a)*(1+.5*b)*(1+.3*c)*(1+std::sin(k*t.GetX())); }
  Wave(double a,double b,double k_,double p_,double y,double dy):r0(a),r1(b),k(k_),p(p_),y0(y),y1(dy){}
  double density(const GenericTrack& t) const override { return r0+r1*(1+std::sin(p+k*t.GetX())); }
  double ye(const GenericTrack& t) const override { return y0+y1*std::sin(2*k*t.GetX()); }
  void Serialize(hid_t g) const override { addH5Attribute<std::string>(g,"name",GetName()); addH5Attribute(g,"em",em); addH5Attribute(g,"r0",r0); addH5Attribute(g,"r1",r1); addH5Attribute(g,"k",k); addH5Attribute(g,"p",p); addH5Attribute(g,"y0",y0); addH5Attribute(g,"y1",y1); }
  static std::shared_ptr<Body> Deserialize(hid_t g){ auto w=std::make_shared<Wave>(rd(g,"r0"),rd(g,"r1"),rd(g,"k"),rd(g,"p"),rd(g,"y0"),rd(g,"y1")); w->em=rd(g,"em"); return w; }
  struct Track: nusquids::Track{ Track(double a,double b,double c):nusquids::Track(a,b,c){} Track(double a,double b):nusquids::Track(a,b){} void FillDerivedParams(D&) const override{} static std::string GetName(){ return "VerifWaveTrack"; } void Serialize(hid_t g) const override { addH5Attribute<std::string>(g,"name",GetName()); addH5Attribute(g,"x",x); addH5Attribute(g,"xini",xini); addH5Attribute(g,"xend",xend); } static std::shared_ptr<nusquids::Track> Deserialize(hid_t g){ return std::make_shared<Track>(rd(g,"x"),rd(g,"xini"),rd(g,"xend")); } };
};
struct Leg{ std::shared_ptr<Body> body; std::function<std::shared_ptr<Track>()> track; std::function<std::shared_ptr<Track>(double,double)> sub; double x0=0,x1=0; std::string how; bool constant=false,smooth=true;
  std::shared_ptr<Track> probe; void at(double x,double& rho,double& ye){ if(!probe) probe=track(); probe->SetX(x); rho=body->density(*probe); ye=body->ye(*probe); } };
enum LegKind{LVAC,LCON,LVAR,LWAVE,LEARTH,LATM,LSUN,NLEG};
// a leg whose matter phase stays below `maxphase`
static Leg leg(Rng& r,int kind,double maxphase=40){
  Leg l; double unitV=K.sqrt2*K.GF*K.Na*std::pow(K.cm,-3);   // eV per g/cm^3
  auto cap=[&](double L){ return std::min(20.,maxphase/(unitV*L)); };
  switch(kind){
    case LVAC: { double L=r.logu(1,1e6)*K.km; double a=r.coin()?0:L*r.uni(0,.5); l.body=std::make_shared<Vacuum>(); l.sub=[](double p,double q){ return std::make_shared<Vacuum::Track>(p,q); }; l.track=[=]{ return std::make_shared<Vacuum::Track>(a,L); }; l.x0=a; l.x1=L; l.constant=true; break; }
    case LCON: { double L=r.logu(10,2e4)*K.km,a=r.coin()?0:L*r.uni(0,.5); double rho=r.coin(.1)?0:r.uni(.1,1)*cap(L),ye=r.coin(.15)?1:r.coin(.1)?0:r.unit(); l.body=std::make_shared<ConstantDensity>(rho,ye); l.sub=[](double p,double q){ return std::make_shared<ConstantDensity::Track>(p,q); }; l.track=[=]{ return std::make_shared<ConstantDensity::Track>(a,L); }; l.x0=a; l.x1=L; l.constant=true; l.how=fmt("rho %g ye %g ",rho,ye); break; }
    case LVAR: { int n=r.in(4,9); double L=r.logu(10,1e4)*K.km; D x,rho,ye; double q=0; for(int i=0;i<n;i++){ x.push_back(q); q+=r.uni(.5,2); rho.push_back(cap(L)*r.uni(.05,1)); ye.push_back(r.uni(.2,.8)); } for(double& v:x) v*=L/K.cm/x.back(); double a=r.coin()?0:L*r.uni(0,.4),b=L*(r.coin()?1:r.uni(.6,1)); if(b>x.back()*K.cm) b=x.back()*K.cm*(1-1e-12); l.body=std::make_shared<VariableDensity>(x,rho,ye); l.sub=[](double p,double q){ return std::make_shared<VariableDensity::Track>(p,q); }; l.track=[=]{ return std::make_shared<VariableDensity::Track>(a,b); }; l.x0=a; l.x1=b; break; }
    case LWAVE: { double L=r.logu(10,1e5)*K.km,a=r.coin()?0:L*r.uni(-.5,.5); double m=cap(L); double dy=r.uni(0,.2); l.body=std::make_shared<Wave>(m*r.uni(0,.3),m*r.uni(0,.35),r.uni(.3,12)/L,r.uni(0,6),r.uni(.25,.75),dy); l.sub=[](double p,double q){ return std::make_shared<Wave::Track>(p,p,q); }; l.track=[=]{ return std::make_shared<Wave::Track>(a,a,a+L); }; l.x0=a; l.x1=a+L; break; }
    case LEARTH: { double b=r.uni(100,12742)*K.km; double f=r.coin()?0:r.uni(0,.5),g=r.coin()?1:r.uni(.6,1); l.body=std::make_shared<Earth>(); l.sub=[=](double p,double q){ return std::make_shared<Earth::Track>(p,p,q,b); }; l.track=[=]{ return std::make_shared<Earth::Track>(f*b,f*b,g*b,b); }; l.x0=f*b; l.x1=g*b; l.smooth=false; break; }
    case LATM: { double cz=r.uni(-1,1); auto e=std::make_shared<EarthAtm>(); l.body=e; l.track=[=]{ return std::make_shared<EarthAtm::Track>(e->MakeTrackWithCosine(cz)); }; auto t=l.track(); l.x0=t->GetInitialX(); l.x1=t->GetFinalX(); l.how=fmt("cos %g ",cz); l.smooth=false; break; }
    default: { double R=695980*K.km,L=r.uni(100,3000)*K.km,a=R*r.uni(.02,.8); l.body=std::make_shared<Sun>(); l.sub=[](double p,double q){ return std::make_shared<Sun::Track>(p,p,q); }; l.track=[=]{ return std::make_shared<Sun::Track>(a,a,a+L); }; l.x0=a; l.x1=a+L; }
  }
  static const char* nm[]={"vacuum","constant","variable","wave","earth","atmosphere","sun"}; l.how=fmt("%s %s[%g,%g] km",nm[kind],l.how.c_str(),l.x0/K.km,l.x1/K.km); return l; }
// mixing, flavours, types, energies
struct Conf{ int n=3; NeutrinoType nt=neutrino; bool single=false; D E; double th[6][6]={{0}},dl[6][6]={{0}},dm[6]={0}; double big=0;
  int ne() const { return E.size(); } int nr() const { return nt==both?2:1; } bool anti(int r) const { return nt==antineutrino||(nt==both&&r==1); }
  std::string str() const { return fmt("%d flavours %s, %s, %d energies from %g GeV",n,ntName(nt),single?"single":"multiple",ne(),E[0]/K.GeV); }
  void mixing(nuSQUIDS& s) const { for(int j=1;j<n;j++){ for(int i=0;i<j;i++){ s.Set_MixingAngle(i,j,th[i][j]); s.Set_CPPhase(i,j,dl[i][j]); } s.Set_SquareMassDifference(j,dm[j]); } }
  // the mixing matrix, nu_alpha = sum_i U_ai nu_i (conjugated for antineutrinos)
  std::vector<Z> U(int r) const { std::vector<Z> u(n*n); for(int i=0;i<n;i++) u[i*n+i]=1; for(int j=1;j<n;j++)for(int i=0;i<j;i++){ double c=std::cos(th[i][j]),s=std::sin(th[i][j]); Z e=s*std::polar(1.,-dl[i][j]); for(int k=0;k<n;k++){ Z a=u[i*n+k],b=u[j*n+k]; u[i*n+k]=c*a+e*b; u[j*n+k]=c*b-std::conj(e)*a; } } if(anti(r)) for(auto& z:u) z=std::conj(z); return u; }
  NS make() const { NS s; build(s); return s; }
  void build(NS& s,bool inter=false,std::shared_ptr<CrossSectionLibrary> xs=nullptr) const { if(single){ s=NS((unsigned)n,nt); s.Set_E(E[0]); } else { marray<double,1> e{E.size()}; for(size_t i=0;i<E.size();i++) e[i]=E[i]; s=NS(e,(unsigned)n,nt,inter,xs); } mixing(s); }
};
static Conf conf(Rng& r,double L,double maxphase,bool multi=false){
  Conf c; c.n=r.coin(.6)?3:r.coin(.6)?4:r.in(5,6); c.single=!multi&&r.coin(.3); c.nt=c.single?NTS[r.in(0,1)]:NTS[r.in(0,2)];
  for(int j=1;j<c.n;j++)for(int i=0;i<j;i++){ c.th[i][j]=r.coin(.1)?0:r.coin(.1)?M_PI/2*r.in(0,2):r.uni(-.3,1.6); c.dl[i][j]=r.coin(.4)?0:r.uni(-3.2,6.3); }
  for(int j=1;j<c.n;j++){ c.dm[j]=r.coin(.05)?0:r.logu(1e-5,j<3?3e-3:1)*(r.coin(.2)?-1:1); c.big=std::max(c.big,std::fabs(c.dm[j])); }
  double m=c.big?c.big:1e-3; int ne=c.single?1:r.in(2,5); double lo=m*L/2/maxphase,e=lo*r.logu(1,30); for(int i=0;i<ne;i++){ c.E.push_back(e); e*=r.uni(1.02,2); } return c; }
// ---- the reference: density matrices in the flavour basis
struct Ref{ const Conf& c; int n,ne,nr; std::vector<std::vector<Z>> h0; std::vector<Z> y; double tol=1e-10,unit=0; long steps=0,evals=0; bool osc=true,matter=true; int legs=0;
  std::function<void(double,const std::vector<Z>&,std::vector<Z>&,double,double)> extra;   // adds to the derivative: position, state, derivative, density, ye
  Z* at(std::vector<Z>& v,int e,int r) const { return &v[(e*nr+r)*n*n]; } const Z* at(const std::vector<Z>& v,int e,int r) const { return &v[(e*nr+r)*n*n]; }
  explicit Ref(const Conf& C):c(C),n(C.n),ne(C.ne()),nr(C.nr()),y(n*n*ne*nr){ setup(); }
  void setup(){ h0.assign(nr,std::vector<Z>(n*n)); for(int r=0;r<nr;r++){ auto u=c.U(r); for(int a=0;a<n;a++)for(int b=0;b<n;b++){ Z s=0; for(int i=1;i<n;i++) s+=u[a*n+i]*c.dm[i]*std::conj(u[b*n+i]); h0[r][a*n+b]=s; } } }
  double weight(int e,int r,int f) const { return std::real(at(y,e,r)[f*n+f]); }
  double mass(int e,int r,int i) const { auto u=c.U(r); Z s=0; for(int a=0;a<n;a++)for(int b=0;b<n;b++) s+=std::conj(u[a*n+i])*at(y,e,r)[a*n+b]*u[b*n+i]; return std::real(s); }
  void set(const D& v,bool flavour){ for(int e=0;e<ne;e++)for(int r=0;r<nr;r++){ auto u=c.U(r); Z* m=at(y,e,r); for(int a=0;a<n;a++)for(int b=0;b<n;b++){ Z s=0; if(flavour){ if(a==b) s=v[(e*nr+r)*n+a]; } else for(int i=0;i<n;i++) s+=u[a*n+i]*v[(e*nr+r)*n+i]*std::conj(u[b*n+i]); m[a*n+b]=s; } } }
  static double Vunit(){ return K.sqrt2*K.GF*K.Na*std::pow(K.cm,-3); }
  void potential(double rho,double ye,double* V,bool anti) const { for(int f=0;f<n;f++) V[f]=0; if(!matter) return; double u=Vunit()*rho,cc=u*ye,nc=-0.5*u*(1-ye); if(anti){ cc=-cc; nc=-nc; } V[0]=cc+nc; V[1]=V[2]=nc; }
  void hamiltonian(int e,int r,double rho,double ye,Z* H) const { double V[6]; potential(rho,ye,V,c.anti(r)); double f=osc?.5/c.E[e]:0; for(int i=0;i<n*n;i++) H[i]=h0[r][i]*f; for(int i=0;i<n;i++) H[i*n+i]+=V[i]; }
  __attribute__((optimize("O2"))) void rhs(Leg& l,double x,const std::vector<Z>& s,std::vector<Z>& d){ evals++; double rho,ye; l.at(x,rho,ye); Z H[36]; for(int e=0;e<ne;e++)for(int r=0;r<nr;r++){ hamiltonian(e,r,rho,ye,H); const Z* m=at(s,e,r); Z* o=at(d,e,r);
      for(int a=0;a<n;a++)for(int b=0;b<n;b++){ double re=0,im=0; for(int k=0;k<n;k++){ double hr=H[a*n+k].real(),hi=H[a*n+k].imag(),mr=m[k*n+b].real(),mi=m[k*n+b].imag(); re+=hr*mr-hi*mi; im+=hr*mi+hi*mr; double gr=H[k*n+b].real(),gi=H[k*n+b].imag(),qr=m[a*n+k].real(),qi=m[a*n+k].imag(); re-=qr*gr-qi*gi; im-=qr*gi+qi*gr; } o[a*n+b]=Z(im,-re); } }
    if(extra) extra(x,s,d,rho,ye); }
  // constant medium without anything else: exponentials of the Hamiltonian
  void exact(Leg& l,double dx){ double rho,ye; l.at(l.x0,rho,ye); gsl_matrix_complex* M=gsl_matrix_complex_alloc(n,n),*W=gsl_matrix_complex_alloc(n,n); gsl_vector* ev=gsl_vector_alloc(n); auto ws=gsl_eigen_hermv_alloc(n); Z H[36],u[36],t[36];
    for(int e=0;e<ne;e++)for(int r=0;r<nr;r++){ hamiltonian(e,r,rho,ye,H); double sc=0; for(int i=0;i<n*n;i++) sc=std::max(sc,std::abs(H[i])); if(sc==0) continue; for(int a=0;a<n;a++)for(int b=0;b<n;b++) gsl_matrix_complex_set(M,a,b,gsl_complex_rect(H[a*n+b].real()/sc,H[a*n+b].imag()/sc)); gsl_eigen_hermv(M,ev,W,ws); auto w=[&](int a,int k){ gsl_complex z=gsl_matrix_complex_get(W,a,k); return Z(GSL_REAL(z),GSL_IMAG(z)); };
      for(int a=0;a<n;a++)for(int b=0;b<n;b++){ Z s=0; for(int k=0;k<n;k++) s+=w(a,k)*std::polar(1.,-std::fmod(gsl_vector_get(ev,k)*sc*dx,2*M_PI))*std::conj(w(b,k)); u[a*n+b]=s; }
      Z* m=at(y,e,r); for(int a=0;a<n;a++)for(int b=0;b<n;b++){ Z s=0; for(int k=0;k<n;k++) s+=u[a*n+k]*m[k*n+b]; t[a*n+b]=s; } for(int a=0;a<n;a++)for(int b=0;b<n;b++){ Z s=0; for(int k=0;k<n;k++) s+=t[a*n+k]*std::conj(u[b*n+k]); m[a*n+b]=s; } }
    gsl_matrix_complex_free(M); gsl_matrix_complex_free(W); gsl_vector_free(ev); gsl_eigen_hermv_free(ws); }
  // Dormand-Prince 5(4)
  void go(Leg& l,double x0,double x1){ legs++; if(x0==x1) return; if(l.constant&&!extra){ exact(l,x1-x0); return; }
    static const double C[7]={0,.2,.3,.8,8./9,1,1},A[7][6]={{0},{.2},{3./40,9./40},{44./45,-56./15,32./9},{19372./6561,-25360./2187,64448./6561,-212./729},{9017./3168,-355./33,46732./5247,49./176,-5103./18656},{35./384,0,500./1113,125./192,-2187./6784,11./84}},B[7]={5179./57600,0,7571./16695,393./640,-92097./339200,187./2100,1./40};
    double cap=l.smooth?1e300:std::fabs(x1-x0)/300; size_t N=y.size(); std::vector<Z> k[7],t(N); for(auto& v:k) v.resize(N); double dir=x1>x0?1:-1,x=x0,h=(x1-x0)/200; rhs(l,x,y,k[0]); double scale=unit; for(auto& z:y) scale=std::max(scale,std::abs(z)); if(scale==0) scale=1;
    while((x1-x)*dir>0){ if((x+h-x1)*dir>0) h=x1-x; for(int s=1;s<7;s++){ for(size_t i=0;i<N;i++){ Z q=y[i]; for(int j=0;j<s;j++) q+=h*A[s][j]*k[j][i]; t[i]=q; } rhs(l,x+C[s]*h,t,k[s]); }
      double err=0; for(size_t i=0;i<N;i++){ Z q=0; for(int j=0;j<7;j++) q+=(j<6?A[6][j]-B[j]:-B[6])*k[j][i]; err=std::max(err,std::abs(q*h)/(tol*scale)); }
      steps++; if(err<=1||std::fabs(h)<1e-9*std::fabs(x1-x0)){ x+=h; if(std::fabs(x1-x)<1e-14*std::fabs(x1-x0)) x=x1; y=t; std::swap(k[0],k[6]); } h*=std::min(4.,std::max(.15,.9*std::pow(err+1e-30,-.2))); if(std::fabs(h)>cap) h=dir*cap; } }
  void go(Leg& l){ go(l,l.x0,l.x1); }
};
static D start(Rng& r,const Conf& c,double scale=1){ D v; int k=r.in(0,3); for(int e=0;e<c.ne();e++)for(int q=0;q<c.nr();q++){ int one=r.in(0,c.n-1); for(int f=0;f<c.n;f++) v.push_back(scale*(k==0?(f==one):k==1?(f==one?r.uni(.1,1):0):r.uni(0,1))); } return v; }
static void set(nuSQUIDS& s,const Conf& c,const D& v,bool flavour){ Basis b=flavour?flavor:mass; if(c.single){ marray<double,1> a{(size_t)c.n}; for(int f=0;f<c.n;f++) a[f]=v[f]; s.Set_initial_state(a,b); return; } if(c.nt!=both){ marray<double,2> a{c.E.size(),(size_t)c.n}; std::copy(v.begin(),v.end(),a.begin()); s.Set_initial_state(a,b); return; } marray<double,3> a{c.E.size(),2,(size_t)c.n}; std::copy(v.begin(),v.end(),a.begin()); s.Set_initial_state(a,b); }
static double flav(const nuSQUIDS& s,const Conf& c,int f,int e,int r){ return c.single?s.EvalFlavor(f):s.EvalFlavorAtNode(f,e,r); }
static double massc(const nuSQUIDS& s,const Conf& c,int i,int e,int r){ return c.single?s.EvalMass(i):s.EvalMassAtNode(i,e,r); }
static const gsl_odeiv2_step_type* stepper(Rng& r,std::string* nm=nullptr){ static const gsl_odeiv2_step_type* t[]={gsl_odeiv2_step_rkf45,gsl_odeiv2_step_rkf45,gsl_odeiv2_step_rk8pd,gsl_odeiv2_step_rkck,gsl_odeiv2_step_rk4,gsl_odeiv2_step_msadams}; static const char* n[]={"rkf45","rkf45","rk8pd","rkck","rk4","msadams"}; int i=r.in(0,5); if(nm) *nm=n[i]; return t[i]; }
}
#endif
