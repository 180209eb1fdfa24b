// C07: objects which are shared but only read, or belong to one thread each, used by several threads at once, under ThreadSanitizer.
#include "ens.h"
#include "xs.h"
#include "bodies.h"
#include <nuSQuIDS/AdaptiveQuad.h>
#include <nuSQuIDS/ThreadPool.h>
#include <dlfcn.h>
#include <condition_variable>
// GSL is not instrumented: what it writes is told to ThreadSanitizer here
#include <gsl/gsl_rng.h>
static int gslGlobals=0; static std::atomic<uint64_t> heights{0}; static void touched(const gsl_rng* r){ volatile char* p=(volatile char*)r->state; *p=*p; }
extern "C"{ double __real_gsl_ran_flat(const gsl_rng*,double,double); double __real_gsl_rng_uniform(const gsl_rng*); unsigned long __real_gsl_rng_get(const gsl_rng*); void __real_gsl_rng_set(const gsl_rng*,unsigned long);
double __wrap_gsl_ran_flat(const gsl_rng* r,double a,double b){ touched(r); heights++; return __real_gsl_ran_flat(r,a,b); } double __wrap_gsl_rng_uniform(const gsl_rng* r){ touched(r); heights++; return __real_gsl_rng_uniform(r); } unsigned long __wrap_gsl_rng_get(const gsl_rng* r){ touched(r); return __real_gsl_rng_get(r); } void __wrap_gsl_rng_set(const gsl_rng* r,unsigned long s){ touched(r); __real_gsl_rng_set(r,s); }
const gsl_rng_type* __real_gsl_rng_env_setup(); const gsl_rng_type* __wrap_gsl_rng_env_setup(){ volatile int* p=&gslGlobals; *p=*p+1; return __real_gsl_rng_env_setup(); } }
typedef std::function<double()> Q; typedef std::vector<Q> Qs;
static double sum(const D& v){ double s=0; for(double x:v) s=1.0000001*s+x; return s; }
static bool same(double a,double b){ return a==b||(std::isnan(a)&&std::isnan(b)); }
static double tryIt(const Q& q){ try{ return q(); }catch(const std::exception& e){ return -1e100-(double)(vh::hstr(e.what())%1000003)*1e90; } }
// questions to shared interpolators
static Qs splines(Rng& r,const std::string&){ Qs q; int n=r.in(3,30); D x=bd::inc(r,n,r.uni(-5,5),r.uni(6,30)),y=bd::vals(r,n,-3,9,false); auto s=std::make_shared<const AkimaSpline>(x,y); for(int i=0;i<12;i++){ double t=r.uni(x[0]-.1,x.back()+.1); q.push_back([=]{ return (*s)(t); }); }
  size_t a=r.in(5,9),b=r.in(5,8),d=r.in(5,7); marray<double,1> X{a},Y{b},Zs{d}; for(size_t i=0;i<a;i++) X[i]=i+.3*r.unit(); for(size_t i=0;i<b;i++) Y[i]=i+.3*r.unit(); for(size_t i=0;i<d;i++) Zs[i]=i+.3*r.unit(); marray<double,2> m2{b,a}; for(auto& v:m2) v=r.gauss(); marray<double,3> m3{d,b,a}; for(auto& v:m3) v=r.gauss();
  auto b2=std::make_shared<const BiCubicInterpolator>(m2,X,Y); auto b3=std::make_shared<const TriCubicInterpolator>(m3,X,Y,Zs); for(int i=0;i<12;i++){ double u=r.uni(X[0],X[a-1]),v=r.uni(Y[0],Y[b-1]),w=r.uni(Zs[0],Zs[d-1]); q.push_back([=]{ return (*b2)(u,v); }); q.push_back([=]{ return (*b3)(u,v,w); }); } q.push_back([=]{ BiCubicInterpolator c(*b2); return c((X[0]+X[1])/2,Y[1]); }); return q; }
// questions to shared arrays and to functions which share nothing but the program
static Qs numerics(Rng& r,const std::string& dir){ Qs q; auto a=std::make_shared<marray<double,2>>(std::initializer_list<size_t>{(size_t)r.in(1,6),(size_t)r.in(1,6)}); for(auto& v:*a) v=r.uni(.1,3); std::shared_ptr<const marray<double,2>> m=a; q.push_back([=]{ marray<double,2> b=*m; b+=*m; b=b*(*m)+exp(*m)-2./(*m); double s=0; for(double v:b) s+=v; return s; }); q.push_back([=]{ double s=0; for(auto i=m->cbegin();i!=m->cend();++i) s+=*i; for(size_t i=0;i<m->extent(0);i++) s+=(*m)[i][m->extent(1)-1]; return s; });
  double lo=r.uni(-2,0),hi=r.uni(1,4),p=r.uni(.1,3); q.push_back([=]{ return AdaptiveQuad::integrate([=](double x){ return std::exp(-p*x*x)*std::cos(5*x); },lo,hi,1e-9); }); q.push_back([=]{ return integrate([=](double x){ return std::exp(-p*x*x); },lo,hi,1e-7); }); int n=r.in(2,40); q.push_back([=]{ auto l=linspace(lo,hi,n-1); auto g=logspace(1.,hi+1,n-1); double s=0; for(double v:l) s+=v; for(double v:g) s+=v; return s; });
  std::string f=dir+fmt("/t%d.dat",(int)r.in(0,1<<30)); { std::ofstream o(f); for(int i=0;i<20;i++){ o<<r.unit()<<" "<<r.unit()<<"\n"; } } q.push_back([=]{ auto t=quickread(f); double s=0; for(double v:t) s+=v; return s; }); static std::atomic<int> nth{0}; q.push_back([=]{ std::string g=f+fmt(".%d",nth.fetch_add(1)); marray<double,2> t=quickread(f); quickwrite(g,t); auto u=quickread(g); unlink(g.c_str()); double s=0; for(double v:u) s+=v; return s; });
  q.push_back([=]{ return (double)vh::hstr(getResourcePath().c_str()); }); for(const char* z:{"Earth","EarthAtm","Sun","Vacuum","nothing"}){ std::string nm=z; q.push_back([=]{ return GetBodyDeserializer(nm)&&GetTrackDeserializer(nm+"Track")?1.:0.; }); }
  q.push_back([=]{ ThreadPool t(2); std::vector<std::future<double>> v; for(int i=0;i<5;i++) v.push_back(t.enqueue([=]{ return p*i; })); double s=0; for(auto& x:v) s+=x.get(); return s; });
  std::vector<double> ms; for(int i=0;i<18;i++) ms.push_back(r.gauss()); q.push_back([=]{ auto mk=[&](int o){ auto z=gsl_matrix_complex_alloc(3,3); for(int i=0;i<9;i++) gsl_matrix_complex_set(z,i/3,i%3,gsl_complex_rect(ms[(i+o)%18],ms[(2*i+o)%18])); return z; }; auto A=mk(0),B=mk(5); gsl_matrix_complex_change_basis_UMUC(A,B); double s=0; for(int i=0;i<9;i++) s+=GSL_REAL(gsl_matrix_complex_get(B,i/3,i%3)); gsl_matrix_complex_change_basis_UCMU(A,B); gsl_matrix_complex_conjugate(B); for(int i=0;i<9;i++) s+=GSL_IMAG(gsl_matrix_complex_get(B,i/3,i%3)); gsl_matrix_complex_free(A); gsl_matrix_complex_free(B); return s; });
  return q; }
static Qs tau(Rng& r,const std::string&){ Qs q; size_t n=r.in(2,7); marray<double,1> e{n}; double v=r.logu(10,1e6)*K.GeV; for(auto& x:e){ x=v; v*=r.uni(1.2,3); } auto s=std::make_shared<const TauDecaySpectra>(e); for(int i=0;i<20;i++){ unsigned a=r.in(1,n-1),b=r.in(0,a),t=r.in(0,1); int k=r.in(0,3); q.push_back([=]{ return k==0?s->dNdEnu_All(a,b,t):k==1?s->dNdEnu_Lep(a,b,t):k==2?s->dNdEle_All(a,b,t):s->dNdEle_Lep(a,b,t); }); } q.push_back([=]{ return s->GetTauToLeptonBranchingRatio(); }); q.push_back([=]{ TauDecaySpectra x(e); return x.dNdEnu_All(n-1,0,1); }); q.push_back([=]{ TauDecaySpectra x(e); TauDecaySpectra y(x); return y.dNdEnu_Lep(n-1,0,0); }); return q; }
// one body, each question with a track of its own
static Qs bodies(Rng& r,const std::string& dir){ Qs q; for(int i=0;i<2;i++){ auto m=std::make_shared<bd::Made>(bd::make(r,r.in(0,bd::NKIND-1),false,dir)); auto b=std::shared_ptr<const Body>(m->body); auto w=bd::way(r,*m); std::shared_ptr<const Track> t=w.t; D f; for(int k=0;k<6;k++) f.push_back(r.unit()); uint64_t z=r.u64();
    q.push_back([=]{ Rng y(z); auto own=bd::way(y,*m).t; double s=0; for(double g:f){ own->SetX(own->GetInitialX()+g*(own->GetFinalX()-own->GetInitialX())); s+=b->density(*own)+3*b->ye(*own); } return s; }); q.push_back([=]{ return b->density(*t)+b->ye(*t)+t->GetX()+t->GetInitialX()+2*t->GetFinalX()+sum(t->GetTrackParams())+sum(b->GetBodyParams())+b->IsConstantDensity(); });
    if(auto e=std::dynamic_pointer_cast<EarthAtm>(m->body)) for(double g:f) q.push_back([=]{ auto k=e->MakeTrackWithCosine(2*g-1); k.SetX(k.GetFinalX()*g); auto k2=e->MakeTrack(3*g); k2.ReverseTrack(); return e->density(k)+e->ye(k)+k2.GetFinalX(); }); uint64_t y2=r.u64(); int kd=r.in(0,bd::NKIND-1); q.push_back([=]{ Rng y(y2); auto n=bd::make(y,kd,true); auto v=bd::way(y,n).t; return n.body->density(*v)+n.body->ye(*v); }); } return q; }
static Qs tables(Rng& r,const std::string& dir){ using namespace xs; Qs q; std::vector<std::shared_ptr<NeutrinoCrossSections>> v; double lo,hi; { Tab t=make(r,r.in(0,1),r.coin()); std::string f=dir+"/x_"; writeText(f,t); auto x=std::make_shared<NeutrinoDISCrossSectionsFromTables>(f); lo=x->GetEmin(); hi=x->GetEmax(); v.push_back(x); } { Tab1 t=make1(r,0); std::string f=dir+"/y"; writeText1(f,t); v.push_back(std::make_shared<NeutrinoDISCrossSectionsFromTables_V1>(f)); } v.push_back(std::make_shared<GlashowResonanceCrossSection>());
  for(size_t k=0;k<v.size();k++)for(int i=0;i<14;i++){ std::shared_ptr<const NeutrinoCrossSections> x=v[k]; int F=r.in(0,3),n=r.in(0,1),c=k==2?2:r.in(0,1),h=r.in(0,3); if(k==2&&r.coin(.7)){ F=0; n=1; } double a=k==2?r.logu(1e5,1e8)*GeV:k==1?r.logu(1e1,1e4)*GeV:lo*std::pow(hi/lo,r.unit()),b=a*r.unit(); auto cc=c==2?X::GR:cu(c); q.push_back([=]{ return h==0?x->TotalCrossSection(a,fl(F),ty(n),cc):h==1?x->SingleDifferentialCrossSection(a,b,fl(F),ty(n),cc):h==2?x->AverageTotalCrossSection(b*.5+a*.5,a,fl(F),ty(n),cc):x->AverageSingleDifferentialCrossSection(a,b*.9,b,fl(F),ty(n),cc); }); }
  auto lib=std::make_shared<CrossSectionLibrary>(); lib->addTarget(proton,std::shared_ptr<NeutrinoCrossSections>(v[0])); lib->addTarget(electron,std::shared_ptr<NeutrinoCrossSections>(v[2])); std::shared_ptr<const CrossSectionLibrary> L=lib; for(PDGCode p:{proton,neutron,electron,isoscalar_nucleon}) q.push_back([=]{ double s=L->hasTarget(p); if(s) s+=L->crossSectionForTarget(p)->TotalCrossSection(1e6*GeV*.001,X::electron,X::antineutrino,p==electron?X::GR:X::CC); return s; }); q.push_back([=]{ CrossSectionLibrary z(*L); return (double)z.hasTarget(proton)+10*z.hasTarget(neutron); }); return q; }
// one evolved object which is only asked
static double ask(const nuSQUIDS& s,const Conf& cf,int k,double E,int f,int p,double cut){ std::vector<bool> av(cf.n); int e=vh::mix(k)%cf.ne(); switch(k%10){ case 0: case 1: return s.EvalFlavor(f,E,p); case 2: return s.EvalMass(f,E,p); case 3: return s.EvalFlavorAtNode(f,e,p)+s.EvalMassAtNode(f,e,p); case 4: return s.EvalFlavor(f,E,p,cut,av)+(double)std::count(av.begin(),av.end(),true); case 5: return s.EvalMass(f,E,p,cut,av); case 6: return s.Get_MixingAngle(0,1)+s.Get_CPPhase(0,1)+s.Get_SquareMassDifference(1)+s.GetUseInteractions()+s.GetERange()[e]+s.GetNumE(); case 7: return s.GetState(e,p)[f]+s.GetFlavorProj(f,p)[0]+s.GetMassProj(f,p)[0]; case 8: { auto i=s.GetInteractionStructure(); return i&&i->targets.size()?i->sigma_CC[0][0][0][e]:0; } default: return s.GetUseOscillations()+s.Get_t()+s.GetTrackFast().GetFinalX(); } }
static Qs object(Rng& r,const std::string&){ Qs q; std::shared_ptr<Obj> o; do o=gen(r,r.in(0,1)); while(o->cf.single); std::shared_ptr<const Obj> c=o; for(int i=0;i<30;i++){ int k=r.in(0,99),f=r.in(0,c->cf.n-1),p=r.in(0,c->cf.nr()-1); double E=r.uni(c->cf.E[0],c->cf.E.back()),cut=r.logu(1e-2,30); q.push_back([=]{ return ask(c->s,c->cf,k,E,f,p,cut); }); } return q; }
static double content(const nuSQUIDS& s,const Conf& cf){ double t=0; for(int e=0;e<cf.ne();e++)for(int p=0;p<cf.nr();p++)for(int f=0;f<cf.n;f++) t=1.01*t+s.EvalFlavorAtNode(f,e,p); return t; }
// evolutions of their own, with a shared body and shared cross sections
static Qs evolutions(Rng& r,const std::string&){ Qs q; auto o=std::make_shared<Ens>(ens(r,r.coin())); for(size_t k=0;k<o->cz.size();k++) q.push_back([=]{ auto u=o->one(k); o->prepare(*u,k); o->state(*u,k); u->EvolveState(); return content(*u,o->cf); }); for(int i=0;i<2;i++){ uint64_t z=r.u64(); q.push_back([=]{ Rng y(z); auto g=gen(y,1); if(g->cf.single){ double t=0; for(int f=0;f<g->cf.n;f++) t+=g->s.EvalFlavor(f); return t; } return content(g->s,g->cf); }); } return q; }
// one ensemble which is only asked, and ensembles with threads of their own
static Qs ensembles(Rng& r,const std::string&){ Qs q; auto o=std::make_shared<Ens>(ens(r)); std::shared_ptr<A> a=o->ens(); o->prepare(*a); a->Set_EvalThreads(r.in(1,4)); o->state(*a); a->EvolveState(); std::shared_ptr<const A> c=a; const Conf& cf=o->cf; for(int i=0;i<20;i++){ int f=r.in(0,cf.n-1),p=r.in(0,cf.nr()-1),k=r.in(0,3); double E=r.uni(cf.E[0],cf.E.back()),z=r.uni(o->cz[0],o->cz.back()),cut=r.logu(1e-2,30); int n=cf.n; q.push_back([=]{ switch(k){ case 0: return c->EvalFlavor(f,z,E,p); case 1: return c->EvalFlavor(f,z,E,p,cut,std::vector<bool>(n)); case 2: return c->Get_MixingAngle(0,1)+c->GetNumE()+c->GetCosthRange()[0]+c->GetERange()[0]; default: return c->EvalFlavor(f,z,E,p,true)*0+c->GetNumRho(); } }); }
  int t=r.in(1,3); q.push_back([=]{ auto b=o->ens(); o->prepare(*b); b->Set_EvalThreads(t); o->state(*b); b->EvolveState(); double s=0; for(auto& u:b->GetnuSQuIDS()) s+=content(u,o->cf); return s; }); return q; }
typedef Qs (*Make)(Rng&,const std::string&);
static const struct{ const char* name; Make f; } KINDS[]={{"splines",splines},{"numerics",numerics},{"tau",tau},{"bodies",bodies},{"tables",tables},{"object",object},{"evolutions",evolutions},{"ensembles",ensembles}};
// several threads ask everything in orders of their own, before anyone has asked anything; then the same alone
static void together(Ctx& c,Rng& r,std::initializer_list<int> kinds){ std::string d1=c.tmp+"/a",d2=c.tmp+"/b",what; Qs q,alone; std::vector<std::string> of; for(auto& d:{d1,d2}) mkdir(d.c_str(),0777); for(int k:kinds){ uint64_t s=r.u64(); Rng x(s),y(s); Qs p=KINDS[k].f(x,d1),z=KINDS[k].f(y,d2); q.insert(q.end(),p.begin(),p.end()); alone.insert(alone.end(),z.begin(),z.end()); for(size_t i=0;i<p.size();i++) of.push_back(KINDS[k].name); what+=std::string(KINDS[k].name)+" "; c.count(KINDS[k].name,p.size()); }
  int n=r.in(2,6); c.desc(what+fmt("by %d threads",n)); std::mutex m; std::condition_variable cv; bool go=false; std::vector<std::thread> ts; std::vector<D> got(n,D(q.size())); std::vector<std::vector<size_t>> order(n); bool paced=r.coin(); uint64_t sched=r.u64(); for(auto& o:order){ for(size_t i=0;i<q.size();i++) o.push_back(i); for(size_t i=o.size();i>1;i--) std::swap(o[i-1],o[r.in(0,i-1)]); } bool first=r.coin(.3); if(first) for(auto& o:order) o=order[0];
  for(int t=0;t<n;t++) ts.emplace_back([&,t]{ { std::unique_lock<std::mutex> l(m); cv.wait(l,[&]{ return go; }); } Rng y(vh::mix(sched+t)); for(size_t i:order[t]){ got[t][i]=tryIt(q[i]); if(paced&&y.coin(.1)) usleep(y.in(0,100)); } }); { std::lock_guard<std::mutex> l(m); go=true; } cv.notify_all(); for(auto& t:ts) t.join();
  int finite=0; for(size_t i=0;i<q.size();i++){ double v=tryIt(alone[i]); finite+=std::isfinite(v)&&v>-1e90; for(int t=0;t<n;t++) c.check(std::string("shared/")+of[i],same(got[t][i],v),fmt("%s, question %d: thread %d of %d got %.17g, alone %.17g",of[i].c_str(),(int)i,t,n,got[t][i],v)); } c.count("random-heights",heights.exchange(0)); c.count("answers",n*q.size()); c.count("answers-with-value",finite); c.nontrivial(what+fmt("%d %d ",n,first)+vh::join(got[0])); c.sample(what+fmt("by %d threads, %d questions",n,(int)q.size()));
  for(auto& d:{d1,d2}) if(system(("rm -rf '"+d+"'").c_str())){} }
VH_GROUP("small",160,3000){ Mute m; Rng& r=c.rng; together(c,r,{(int)(c.idx%5)}); }
VH_GROUP("object",60,1000){ Mute m; together(c,c.rng,{5}); }
VH_GROUP("evolutions",60,1000){ Mute m; together(c,c.rng,{6}); }
VH_GROUP("ensembles",50,800){ Mute m; together(c,c.rng,{7}); }
VH_GROUP("mixed",40,800){ Mute m; Rng& r=c.rng; together(c,r,{(int)r.in(0,4),(int)r.in(0,7),(int)r.in(5,7)}); }
