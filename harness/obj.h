// Evolution objects with their settings and histories, and all that can be seen of them (C25, C26).
#ifndef VH_OBJ_H
#define VH_OBJ_H
#include "inter.h"
using vh::Ctx; using namespace ev; using ev::Wave; NUSQUIDS_REGISTER_BODY(Wave)
// with a parameter of the user
struct U: NS { double tag=0; U(){} U(marray<double,1> e,unsigned n,NeutrinoType t,bool i,std::shared_ptr<CrossSectionLibrary> x):NS(e,n,t,i,x){} U(unsigned n,NeutrinoType t):NS(n,t){} U(U&&)=default; U& operator=(U&&)=default; U(const std::string& f,const std::string& g="/",std::shared_ptr<InteractionStructure> i=nullptr):NS(f,g,i){} void AddToWriteHDF5(hid_t g) const override { addH5Attribute(g,"tag",tag); } void AddToReadHDF5(hid_t g) override { readH5Attribute(g,"tag",tag); } };
struct Obj{ Conf cf; World w; bool inter=false,fl=true,osc=true,tau=false,gr=false,src=false,massb=false; Leg l; double L=0,scale=1; D v; std::string how; U s;
  double f(const nuSQUIDS& q,int i,int e,int r) const { return flav(q,cf,i,e,r); } };
static void tune(Rng& r,std::initializer_list<U*> ss,double scale,double L,double* pos=nullptr){ auto st=stepper(r); double h=r.logu(.01,10)*K.km,m=L/r.uni(8,30); bool fast=r.coin(.4),p=pos&&r.coin(.3); for(U* s:ss){ s->Set_GSL_step(st); s->Set_rel_error(1e-7); s->Set_abs_error(1e-9*scale); s->Set_h(h); s->Set_h_max(m); s->Set_AllowConstantDensityOscillationOnlyEvolution(fast); s->Set_PositivityConstrain(p); if(p) s->Set_PositivityConstrainStep(*pos); } }
static Leg anyLeg(Rng& r,bool inter,double ph){ Leg l; do l=leg(r,inter?r.in(LCON,LEARTH):r.in(0,NLEG-1),ph); while(l.x1-l.x0<100*K.km); return l; }
static double column(Leg& l){ double s=0; for(int i=0;i<64;i++){ double rho,ye; l.at(l.x0+(i+.5)/64*(l.x1-l.x0),rho,ye); s+=rho/64; } return s>0?s:1; }
static bool sound(Leg& l){ for(int i=0;i<=300;i++){ double rho,ye; l.at(l.x0+i/300.*(l.x1-l.x0),rho,ye); if(rho<0||ye<0||ye>1) return false; } return true; }
static void put(Rng& r,Obj& o){ bool alt=r.coin(); o.s.Set_Body(o.l.body); auto t=o.l.track(); if(r.coin(.2)&&!o.inter&&!o.src) t->ReverseTrack(); o.s.Set_Track(t); (void)alt; }
// stage 0: before the evolution, 1: after it, 2: after two legs
static std::unique_ptr<Obj> gen(Rng& r,int stage,int wantInter=-1,bool many=false){ std::unique_ptr<Obj> p(new Obj); Obj& o=*p; o.inter=wantInter>=0?wantInter:r.coin(.35); do o.l=anyLeg(r,o.inter,5); while(!sound(o.l)); o.L=o.l.x1-o.l.x0; if(o.inter) o.cf=hot(r,o.L,3,NTS[r.in(0,2)]); else { o.cf=conf(r,o.L,5); if(!o.cf.single&&r.coin(.12)) o.cf.E.resize(1); if(many) o.cf.single=false; } if(many){ double e0=o.cf.E[0],top=r.logu(3,1e3); int ne=r.in(257,300); o.cf.E.clear(); for(int i=0;i<ne;i++) o.cf.E.push_back(e0*std::pow(top,double(i)/(ne-1))); } o.w=World::make(r,o.cf.E[o.cf.ne()/2],column(o.l),o.L,r.logu(.1,1)); o.scale=r.coin(.6)?1:r.logu(1e-10,1e8);
  o.v=start(r,o.cf,o.scale); o.fl=r.coin(.7); o.osc=!r.coin(.25); if(!o.osc) o.fl=true; o.massb=r.coin(.3); o.tau=o.inter&&o.cf.nt==both&&r.coin(); o.gr=o.inter&&r.coin(); o.src=r.coin(.3)&&!o.cf.single; if(o.src) if(auto w=std::dynamic_pointer_cast<Wave>(o.l.body)) w->em=o.scale/o.L*r.uni(.1,1);
  o.cf.build(o.s,o.inter,o.w.lib); if(o.inter){ o.s.Set_TauRegeneration(o.tau); o.s.Set_GlashowResonance(o.gr); } o.s.tag=r.uni(-9,9); o.s.Set_NeutrinoSources(o.src); if(o.massb) o.s.Set_Basis(mass); o.s.Set_IncludeOscillations(o.osc); tune(r,{&o.s},o.scale,o.L); put(r,o); set(o.s,o.cf,o.v,o.fl);
  o.how=o.cf.str()+"; "+o.l.how+fmt("%s%s%s%s%s%s, stage %d",o.inter?(o.w.perNucleon?", p+n":", isoscalar"):"",o.massb?", mass basis":"",o.osc?"":", no oscillations",o.tau?", tau":"",o.gr?", resonance":"",o.src?", sources":"",stage);
  if(stage>=1) o.s.EvolveState(); if(stage>=2){ if(o.l.sub&&r.coin()) o.s.Set_Track(o.l.sub(o.l.x0,o.l.x0+.4*o.L)); else o.s.Set_Track(o.l.track()); o.s.EvolveState(); if(r.coin(.3)){ o.massb=!o.massb; o.s.Set_Basis(o.massb?mass:interaction); o.how+=" basis changed"; } } return p; }
template<class A> static bool eq(const A& a,const A& b){ return a.size()==b.size()&&std::equal(a.begin(),a.end(),b.begin()); }
// everything that can be seen of the two objects
static std::string differs(const Obj& o,U& a,U& b,Rng& r,bool tag){ const Conf& cf=o.cf; auto bad=[&](const std::string& w,double x,double y){ return fmt("%s %.17g became %.17g",w.c_str(),x,y); };
  if(a.GetNumE()!=b.GetNumE()||a.GetNumNeu()!=b.GetNumNeu()||a.GetNumRho()!=b.GetNumRho()) return fmt("%d energies, %d flavours, %d types became %d, %d, %d",(int)a.GetNumE(),(int)a.GetNumNeu(),(int)a.GetNumRho(),(int)b.GetNumE(),(int)b.GetNumNeu(),(int)b.GetNumRho()); if(a.NT!=b.NT) return bad("type",a.NT,b.NT); { auto x=a.GetERange(),y=b.GetERange(); if(!eq(x,y)) return "energies"; }
  for(int i=0;i<cf.n;i++)for(int j=i+1;j<cf.n;j++){ if(a.Get_MixingAngle(i,j)!=b.Get_MixingAngle(i,j)) return bad("mixing angle",a.Get_MixingAngle(i,j),b.Get_MixingAngle(i,j)); if(a.Get_CPPhase(i,j)!=b.Get_CPPhase(i,j)) return bad("phase",a.Get_CPPhase(i,j),b.Get_CPPhase(i,j)); } for(int i=1;i<cf.n;i++) if(a.Get_SquareMassDifference(i)!=b.Get_SquareMassDifference(i)) return bad("mass difference",a.Get_SquareMassDifference(i),b.Get_SquareMassDifference(i));
  if(a.GetUseInteractions()!=b.GetUseInteractions()) return "use of interactions"; if(a.GetUseOscillations()!=b.GetUseOscillations()) return "use of oscillations"; if(a.Get_NeutrinoSources()!=b.Get_NeutrinoSources()) return "use of sources"; if(a.basis!=b.basis) return "basis";
  auto A=a.GetTrack(),B=b.GetTrack(); if(!B||A->GetX()!=B->GetX()||A->GetInitialX()!=B->GetInitialX()||A->GetFinalX()!=B->GetFinalX()) return "track"; { double x=A->GetX(); for(int i=0;i<4;i++){ double q=o.l.x0+r.uni(.01,.99)*o.L; A->SetX(q); B->SetX(q); double d1=a.GetBody()->density(*A),d2=b.GetBody()->density(*B),y1=a.GetBody()->ye(*A),y2=b.GetBody()->ye(*B); if(d1!=d2||y1!=y2) { A->SetX(x); B->SetX(x); return bad("density",d1,d2); } } A->SetX(x); B->SetX(x); }
  if(a.Get_t()!=b.Get_t()||a.Get_t_initial()!=b.Get_t_initial()) return bad("time",a.Get_t(),b.Get_t());
  double tol=1e-11*o.scale; for(int e=0;e<cf.ne();e++)for(int q=0;q<cf.nr();q++){ for(int i=0;i<cf.n;i++){ double x=a.EvalFlavorAtNode(i,e,q),y=b.EvalFlavorAtNode(i,e,q); if(!Ctx::close(x,y,1e-11,tol)) return bad(fmt("flavour %d energy %d rho %d",i,e,q),x,y); x=a.EvalMassAtNode(i,e,q); y=b.EvalMassAtNode(i,e,q); if(!Ctx::close(x,y,1e-11,tol)) return bad(fmt("mass state %d energy %d rho %d",i,e,q),x,y); } auto x=a.GetHamiltonian(e,q),y=b.GetHamiltonian(e,q); double m=0; for(int k=0;k<cf.n*cf.n;k++) m=std::max(m,std::fabs(x[k])); for(int k=0;k<cf.n*cf.n;k++) if(!Ctx::close(x[k],y[k],0,1e-11*m)) return bad("Hamiltonian",x[k],y[k]); }
  if(cf.single) for(int i=0;i<cf.n;i++) if(!Ctx::close(a.EvalFlavor(i),b.EvalFlavor(i),1e-11,tol)) return bad("flavour",a.EvalFlavor(i),b.EvalFlavor(i));
  if(cf.ne()>1) for(int k=0;k<4;k++){ double E=r.uni(cf.E[0],cf.E.back()); int i=r.in(0,cf.n-1),q=r.in(0,cf.nr()-1); double x=a.EvalFlavor(i,E,q),y=b.EvalFlavor(i,E,q); if(!Ctx::close(x,y,1e-11,tol)) return bad("flavour between nodes",x,y); x=a.EvalMass(i,E,q); y=b.EvalMass(i,E,q); if(!Ctx::close(x,y,1e-11,tol)) return bad("mass state between nodes",x,y); }
  if(o.inter){ auto x=a.GetInteractionStructure(),y=b.GetInteractionStructure(); if(x->targets!=y->targets) return "targets"; auto nt=x->targets.size(); for(size_t t=0;t<nt;t++)for(int q=0;q<cf.nr();q++)for(int f=0;f<cf.n;f++)for(int e=0;e<cf.ne();e++){ if(x->sigma_CC[t][q][f][e]!=y->sigma_CC[t][q][f][e]||x->sigma_NC[t][q][f][e]!=y->sigma_NC[t][q][f][e]) return "total cross sections"; for(int k=0;k<cf.ne();k++) if(x->dNdE_CC[t][q][f][e][k]!=y->dNdE_CC[t][q][f][e][k]||x->dNdE_NC[t][q][f][e][k]!=y->dNdE_NC[t][q][f][e][k]) return "spectra"; } for(int e=0;e<cf.ne();e++){ if(x->sigma_GR[e]!=y->sigma_GR[e]) return "resonance"; for(int k=0;k<cf.ne();k++) if(x->dNdE_GR[e][k]!=y->dNdE_GR[e][k]) return "resonance spectrum"; for(int q=0;q<cf.nr();q++)for(int k=0;k<e;k++) if(x->dNdE_tau_all[q][e][k]!=y->dNdE_tau_all[q][e][k]||x->dNdE_tau_lep[q][e][k]!=y->dNdE_tau_lep[q][e][k]) return "tau decays"; } }
  if(tag&&a.tag!=b.tag) return bad("user parameter",a.tag,b.tag); return ""; }
typedef std::vector<std::pair<std::string,double>> Seen;
// what can be asked of an object at any point of its life; a refusal is an answer too
static Seen look(U& u,const Conf& cf,const Leg& l,Rng r){ Seen s; auto ask=[&](const std::string& n,std::function<double()> f){ double v; try{ v=f(); if(std::isnan(v)) v=-7.7e77; }catch(std::exception&){ v=-1.23456e99; } s.push_back({n,v}); };
  ask("energies",[&]{ return u.GetNumE(); }); ask("flavours",[&]{ return u.GetNumNeu(); }); ask("types",[&]{ return u.GetNumRho(); }); ask("type",[&]{ return u.NT; }); ask("basis",[&]{ return u.basis; }); ask("interactions",[&]{ return u.GetUseInteractions(); }); ask("oscillations",[&]{ return u.GetUseOscillations(); }); ask("sources",[&]{ return u.Get_NeutrinoSources(); }); ask("tag",[&]{ return u.tag; });
  ask("h",[&]{ return u.Get_h(); }); ask("h_min",[&]{ return u.Get_h_min(); }); ask("h_max",[&]{ return u.Get_h_max(); }); ask("rel",[&]{ return u.Get_rel_error(); }); ask("abs",[&]{ return u.Get_abs_error(); }); ask("integrator precision",[&]{ return u.Get_GSL_DifferentialCrossSection_Integrator_Precision(); }); ask("counter",[&]{ return u.Get_DebugCounter(); }); ask("t",[&]{ return u.Get_t(); }); ask("t_initial",[&]{ return u.Get_t_initial(); });
  ask("cross sections",[&]{ return (double)(uintptr_t)u.GetNeutrinoCrossSections().get(); }); ask("body",[&]{ return (double)(uintptr_t)u.GetBody().get(); }); ask("track",[&]{ auto t=u.GetTrack(); return t?t->GetX():-1; }); ask("track start",[&]{ auto t=u.GetTrack(); return t?t->GetInitialX():-1; }); ask("track end",[&]{ auto t=u.GetTrack(); return t?t->GetFinalX():-1; });
  int n=cf.n; for(int i=0;i<n;i++)for(int j=i+1;j<n;j++){ ask("angle",[&]{ return u.Get_MixingAngle(i,j); }); ask("phase",[&]{ return u.Get_CPPhase(i,j); }); } for(int i=1;i<n;i++) ask("splitting",[&]{ return u.Get_SquareMassDifference(i); }); { auto m=u.GetTransformationMatrix(); for(int i=0;i<n;i++)for(int j=0;j<n;j++){ auto z=gsl_matrix_complex_get(m.get(),i,j); s.push_back({"mixing matrix",GSL_REAL(z)}); s.push_back({"mixing matrix",GSL_IMAG(z)}); } }
  auto E=u.GetERange(); for(double e:E) s.push_back({"energy",e});
  for(int e=0;e<cf.ne();e++)for(int q=0;q<cf.nr();q++){ for(int i=0;i<n;i++){ ask("flavour",[&]{ return u.EvalFlavorAtNode(i,e,q); }); ask("mass state",[&]{ return u.EvalMassAtNode(i,e,q); }); ask("projector",[&]{ return u.GetFlavorProj(i,q)[std::min(i,n*n-1)]; }); ask("projector",[&]{ return u.GetMassProj(i,q)[0]; }); } if(E.size()==(size_t)cf.ne()){ for(int k=0;k<n*n;k++) ask("state",[&]{ return u.GetState(e,q)[k]; }); bool ready=false; try{ ready=u.GetBody()&&u.GetTrack(); }catch(std::exception&){} if(ready) for(int k=0;k<n*n;k+=r.in(1,3)) ask("Hamiltonian",[&]{ return u.GetHamiltonian(e,q)[k]; }); } }
  if(cf.single) for(int i=0;i<n;i++){ ask("flavour",[&]{ return u.EvalFlavor(i); }); ask("mass state",[&]{ return u.EvalMass(i); }); } else if(cf.ne()>1) for(int k=0;k<4;k++){ double en=r.uni(cf.E[0],cf.E.back()); int i=r.in(0,n-1),q=r.in(0,cf.nr()-1); ask("flavour between nodes",[&]{ return u.EvalFlavor(i,en,q); }); ask("mass state between nodes",[&]{ return u.EvalMass(i,en,q); }); double sc=r.logu(.1,1e5); ask("averaged flavour",[&]{ std::vector<bool> a(n); double v=u.EvalFlavor(i,en,q,sc,a); for(int j=0;j<n;j++) if(a[j]) v+=1e-3; return v; }); }
  ask("tables",[&]{ auto x=u.GetInteractionStructure(); if(!x) return -1.; double v=x->targets.size(); int k=1; for(auto t:x->targets) v+=1e-3*k++*(int)t; for(auto z:x->sigma_CC) if(z==z) v+=std::sin(.1*k++)*z; for(auto z:x->dNdE_NC) if(z==z) v+=std::sin(.1*k++)*z; return v; });
  if(l.body) (void)l; return s; }
static std::string unlike(const Seen& a,const Seen& b,double scale,double rel=1e-9){ if(a.size()!=b.size()) return fmt("%d things seen and %d",(int)a.size(),(int)b.size()); for(size_t i=0;i<a.size();i++) if(!Ctx::close(a[i].second,b[i].second,rel,a[i].first=="state"||a[i].first.find("flavour")!=std::string::npos||a[i].first.find("mass state")!=std::string::npos?rel*scale:0)&&!(a[i].first=="Hamiltonian"&&Ctx::close(a[i].second,b[i].second,1e-6,1e-25))) return fmt("%s %.17g became %.17g",a[i].first.c_str(),a[i].second,b[i].second); return ""; }
#endif
