// Ensembles of evolutions over zenith angles and the independent evolutions they stand for (C27).
#ifndef VH_ENS_H
#define VH_ENS_H
#include "obj.h"
struct Mute{ std::ostringstream o; std::streambuf *a,*b; Mute():a(std::cout.rdbuf(o.rdbuf())),b(std::cerr.rdbuf(o.rdbuf())){} ~Mute(){ std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
// may be told to fail, or to wait, when it is evolved
struct M: U{ using U::U; using U::operator=; M():U(){} M(M&&)=default; M& operator=(M&&)=default; bool fails=false; int wait=0; std::atomic<int>* runs=nullptr; void EvolveState(){ if(wait) usleep(wait); if(runs) runs->fetch_add(1); if(fails) throw std::runtime_error("this evolution fails"); U::EvolveState(); } };
typedef nuSQUIDSAtm<M> A;
struct Glow: EarthAtm{ double em; Glow(double e):em(e){} void injected_neutrino_flux(marray<double,3>& f,const GenericTrack& t,const nuSQUIDS&) override { for(size_t a=0;a<f.extent(0);a++)for(size_t b=0;b<f.extent(1);b++)for(size_t c=0;c<f.extent(2);c++) f[a][b][c]=em*(1+.2*a)*(1+.5*b)*(1+.3*c)*(1+std::cos(t.GetX()/(300*K.km))); } };
struct Set{ std::string how; std::function<void(A&)> e; std::function<void(M&,int)> m; };
struct Ens{ Conf cf; World w; bool inter=false; D cz; double scale=1; std::shared_ptr<EarthAtm> earth; bool other=false; bool plain=true; std::vector<Set> sets; std::vector<D> v; bool fl=true,osc=true; std::string how;
  marray<double,1> czs() const { marray<double,1> a{cz.size()}; std::copy(cz.begin(),cz.end(),a.begin()); return a; } marray<double,1> Es() const { marray<double,1> a{cf.E.size()}; std::copy(cf.E.begin(),cf.E.end(),a.begin()); return a; }
  std::unique_ptr<A> ens() const { return std::unique_ptr<A>(new A(czs(),Es(),(unsigned)cf.n,cf.nt,inter,w.lib)); }
  std::unique_ptr<M> one(int k) const { std::unique_ptr<M> u(new M(Es(),(unsigned)cf.n,cf.nt,inter,w.lib)); u->Set_Body(earth); u->Set_Track(std::make_shared<EarthAtm::Track>(earth->MakeTrackWithCosine(cz[k]))); return u; }
  void prepare(A& a) const { if(other) a.Set_EarthModel(earth); for(auto& s:sets) s.e(a); } void prepare(M& u,int k) const { for(auto& s:sets) s.m(u,k); }
  void state(A& a) const { Basis b=fl?flavor:mass; if(cf.nt!=both){ marray<double,3> x{cz.size(),cf.E.size(),(size_t)cf.n}; auto p=x.begin(); for(auto& z:v) p=std::copy(z.begin(),z.end(),p); a.Set_initial_state(x,b); } else { marray<double,4> x{cz.size(),cf.E.size(),(size_t)2,(size_t)cf.n}; auto p=x.begin(); for(auto& z:v) p=std::copy(z.begin(),z.end(),p); a.Set_initial_state(x,b); } }
  void state(M& u,int k) const { ev::set(u,cf,v[k],fl); }
  void draw(Rng& r){ v.clear(); for(size_t i=0;i<cz.size();i++) v.push_back(start(r,cf,scale)); fl=!osc||r.coin(.7); } };
template<class F> static Set each(const std::string& h,F f){ return {h,[=](A& a){ f(a); },[=](M& u,int){ f(u); }}; }
static Ens ens(Rng& r,int wantInter=-1,bool files=false,int many=0){ Ens o; o.inter=wantInter>=0?wantInter:r.coin(.3); double L=13000*K.km; int n=r.coin(.15)?1:r.in(2,5); if(many==1) n=r.in(257,280); double lo=r.uni(-1,.9),hi=r.coin(.1)?lo+r.logu(1e-9,1e-3):r.uni(lo,1); if(r.coin(.2)) lo=-1; if(r.coin(.2)) hi=1; if(hi<=lo) hi=std::min(1.,lo+.05); for(int i=0;i<n;i++) o.cz.push_back(n==1?lo:lo+(hi-lo)*(r.coin(.3)&&i&&i<n-1?(i+r.uni(-.4,.4))/(n-1):double(i)/(n-1))); o.cz.back()=n==1?o.cz[0]:hi;
  std::sort(o.cz.begin(),o.cz.end()); o.cz.erase(std::unique(o.cz.begin(),o.cz.end()),o.cz.end());
  if(o.inter) o.cf=hot(r,L,3,NTS[r.in(0,2)]); else { o.cf=conf(r,L,4,true); if(r.coin(.12)) o.cf.E.resize(1); if(many==1) o.cf.E.resize(std::min<size_t>(2,o.cf.E.size())); if(many==2){ double e0=o.cf.E[0],top=r.logu(1.2,10); int ne=r.in(257,300); o.cf.E.clear(); for(int i=0;i<ne;i++) o.cf.E.push_back(e0*std::pow(top,double(i)/(ne-1))); } } o.w=World::make(r,o.cf.E[o.cf.ne()/2],5,1e4*K.km,r.logu(.1,1)); o.scale=r.coin(.7)?1:r.logu(1e-8,1e6); o.earth=std::make_shared<EarthAtm>(); if(r.coin(.5)){ o.other=true; int k=r.in(0,files?1:2); if(k==0) o.earth->SetAtmosphereHeight(r.uni(1,200)); else if(k==1){ D x,d,y; int m=r.in(4,9); for(int i=0;i<m;i++){ x.push_back(double(i)/(m-1)); d.push_back(r.uni(1,12)); y.push_back(r.uni(.3,.6)); } o.earth=std::make_shared<EarthAtm>(x,d,y); if(r.coin()) o.earth->SetAtmosphereHeight(r.uni(1,200)); } else { o.earth=std::make_shared<Glow>(o.scale/L); } o.plain=k!=2; }
  o.how=o.cf.str()+(o.inter?" interacting":"")+fmt(" %d angles from %.10g to %.10g%s",(int)o.cz.size(),o.cz[0],o.cz.back(),o.other?o.plain?" another Earth":" shining Earth":""); auto& S=o.sets; Conf cf=o.cf; auto rnd=[&](double a,double b){ return r.logu(a,b); };
  for(int j=1;j<cf.n;j++){ for(int i=0;i<j;i++){ double t=cf.th[i][j],d=cf.dl[i][j]; S.push_back(each("",[=](auto& u){ u.Set_MixingAngle(i,j,t); u.Set_CPPhase(i,j,d); })); } double d=cf.dm[j]; S.push_back(each("",[=](auto& u){ u.Set_SquareMassDifference(j,d); })); }
  if(.0026*L/2/cf.E[0]<15&&r.coin(.2)){ S.push_back(each("default mixing",[=](auto& u){ u.Set_MixingParametersToDefault(); })); auto& c=o.cf; c.th[0][1]=.583638; c.th[0][2]=.149575; c.th[1][2]=.855211; c.dl[0][2]=0; c.dm[1]=7.42e-5; c.dm[2]=.002514; }
  auto st=stepper(r); if(many) st=gsl_odeiv2_step_rkf45; double rel=many?1e-5:rnd(1e-7,1e-4),ab=rel*o.scale*rnd(1e-2,1),h=rnd(.1,100)*K.km,hm=rnd(50,3000)*K.km; S.push_back(each("",[=](auto& u){ u.Set_GSL_step(st); u.Set_rel_error(rel); u.Set_abs_error(ab); u.Set_h(h); u.Set_h_max(hm); }));
  int m=many?0:r.in(0,5); while(m--){ int k=r.in(0,11); unsigned id=r.in(0,o.cz.size()-1); switch(k){
    case 0: { double x=rnd(1e-7,1e-3); S.push_back({fmt("rel of %u",id),[=](A& a){ a.Set_rel_error(x,id); },[=](M& u,int q){ if(q==(int)id) u.Set_rel_error(x); }}); break; }
    case 1: { double x=rnd(1e-7,1e-3)*o.scale; S.push_back({fmt("abs of %u",id),[=](A& a){ a.Set_abs_error(x,id); },[=](M& u,int q){ if(q==(int)id) u.Set_abs_error(x); }}); break; }
    case 2: { double x=rnd(.1,1000)*K.km; S.push_back({fmt("h_max of %u",id),[=](A& a){ a.Set_h_max(std::max(x,h),id); },[=](M& u,int q){ if(q==(int)id) u.Set_h_max(std::max(x,h)); }}); break; }
    case 3: { double x=rnd(.1,1)*h; S.push_back({fmt("h of %u",id),[=](A& a){ a.Set_h(x,id); },[=](M& u,int q){ if(q==(int)id) u.Set_h(x); }}); break; }
    case 4: { double x=1e-6*h*r.unit(); if(r.coin()) S.push_back({fmt("h_min of %u",id),[=](A& a){ a.Set_h_min(x,id); },[=](M& u,int q){ if(q==(int)id) u.Set_h_min(x); }}); else S.push_back(each("h_min",[=](auto& u){ u.Set_h_min(x); })); break; }
    case 5: { double x=rnd(20,3000)*K.km; S.push_back(each("positivity",[=](auto& u){ u.Set_PositivityConstrain(true); u.Set_PositivityConstrainStep(x); })); break; }
    case 6: { double q=rnd(.001,1)/(1000*K.km),z=q*r.unit(); S.push_back(each("low-pass",[=](auto& u){ u.Set_EvolLowPassCutoff(q); u.Set_EvolLowPassScale(z); })); break; }
    case 7: if(!o.inter) break; { bool gr=r.coin(),tau=cf.nt==both&&r.coin(); S.push_back(each(std::string(gr?"resonance ":"no resonance ")+(tau?"tau":"no tau"),[=](auto& u){ u.Set_GlashowResonance(gr); if(cf.nt==both) u.Set_TauRegeneration(tau); })); break; }
    case 8: { bool b=r.coin(.6); o.osc=b; S.push_back(each(b?"oscillations":"no oscillations",[=](auto& u){ u.Set_IncludeOscillations(b); })); break; }
    case 9: { bool b=r.coin(); S.push_back(each(b?"fast path":"no fast path",[=](auto& u){ u.Set_AllowConstantDensityOscillationOnlyEvolution(b); })); break; }
    case 10: { S.push_back(each("sources",[=](auto& u){ u.Set_NeutrinoSources(true); })); break; }
    default: if(o.inter){ World w2=World::make(r,cf.E[0],5,1e4*K.km,.3); o.w=w2; S.push_back(each("other cross sections",[=](auto& u){ u.SetNeutrinoCrossSections(w2.lib); })); } } }
  for(auto& s:S) if(!s.how.empty()) o.how+=", "+s.how; o.draw(r); return o; }
// the content at any angle and energy from the states of the independent evolutions at the nodes
struct Between{ const Ens& o; std::vector<std::unique_ptr<M>>& s; bool massb=false;
  double at(int f,double c,double E,int q,double shift=0,double cut=INFINITY) const { const Conf& cf=o.cf; int n=cf.n; double t=o.earth->MakeTrackWithCosine(c).GetFinalX()+shift; auto u=cf.U(q); int a=0; while(a+2<(int)o.cz.size()&&o.cz[a+1]<c) a++; int b=std::min<int>(a+1,o.cz.size()-1),i=0; while(i+2<cf.ne()&&cf.E[i+1]<E) i++; int j=std::min(i+1,cf.ne()-1); double gc=a==b?0:(c-o.cz[a])/(o.cz[b]-o.cz[a]),ge=i==j?0:(E-cf.E[i])/(cf.E[j]-cf.E[i]); double sum=0; for(int A=0;A<2;A++)for(int B=0;B<2;B++){ double w=(A?gc:1-gc)*(B?ge:1-ge); if(w==0) continue; auto rho=s[A?b:a]->GetState(B?j:i,q); for(int k=0;k<n;k++)for(int l=0;l<n;l++){ double d=cf.dm[k]-(l?cf.dm[l]:0); if(!k) d=l?-cf.dm[l]:0; double ph=o.osc&&!massb?d/(2*E)*t:0; if(std::fabs(ph)>cut) continue; sum+=w*std::real(u[f*n+k]*rho.get(k,l)*std::conj(u[f*n+l])*std::polar(1.,-ph)); } } return sum; } };
static std::string nodes(const Ens& o,A& a,std::vector<std::unique_ptr<M>>& s,double rel=1e-10){ const Conf& cf=o.cf; for(size_t k=0;k<o.cz.size();k++)for(int e=0;e<cf.ne();e++)for(int q=0;q<cf.nr();q++)for(int f=0;f<cf.n;f++){ double x=a.GetnuSQuIDS(k).EvalFlavorAtNode(f,e,q),y=s[k]->EvalFlavorAtNode(f,e,q); if(!Ctx::close(x,y,rel,rel*o.scale)) return fmt("flavour %d cos %.9g energy %d type %d: %.17g, alone %.17g",f,o.cz[k],e,q,x,y); double z=a.EvalFlavor(f,o.cz[k],cf.E[e],q); if(!Ctx::close(z,y,1e-8,1e-8*o.scale)) return fmt("flavour %d cos %.9g energy %d type %d asked of the ensemble: %.17g, alone %.17g",f,o.cz[k],e,q,z,y); x=a.GetnuSQuIDS(k).EvalMassAtNode(f,e,q); y=s[k]->EvalMassAtNode(f,e,q); if(!Ctx::close(x,y,rel,rel*o.scale)) return fmt("mass state %d cos %.9g energy %d type %d: %.17g, alone %.17g",f,o.cz[k],e,q,x,y); } return ""; }
static std::string same(const Ens& o,A& a,A& b,Rng r,double rel=0){ const Conf& cf=o.cf; for(size_t k=0;k<o.cz.size();k++)for(int e=0;e<cf.ne();e++)for(int q=0;q<cf.nr();q++)for(int f=0;f<cf.n;f++){ double x=a.GetnuSQuIDS(k).EvalFlavorAtNode(f,e,q),y=b.GetnuSQuIDS(k).EvalFlavorAtNode(f,e,q); if(!Ctx::close(x,y,rel,rel*o.scale)) return fmt("flavour %d cos %.9g energy %d type %d: %.17g and %.17g",f,o.cz[k],e,q,x,y); } for(int i=0;i<8;i++){ double c=r.uni(o.cz[0],o.cz.back()),E=r.uni(cf.E[0],cf.E.back()); int f=r.in(0,cf.n-1),q=r.in(0,cf.nr()-1); double x=a.EvalFlavor(f,c,E,q),y=b.EvalFlavor(f,c,E,q); if(!Ctx::close(x,y,rel,rel*o.scale)) return fmt("flavour %d cos %.9g energy %g type %d: %.17g and %.17g",f,c,E,q,x,y); } return ""; }
#endif
