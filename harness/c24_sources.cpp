// C24: emission of bodies is added exactly once, whatever else happens to the flux.
#include "inter.h"
using vh::Ctx; using namespace ev;
// any body with an emission; what it was asked is recorded
struct Emission{ int ne=0,nr=0,n=0; D a,b,k,p; bool on=true; long calls=0,bad=0; double lo=1e300,hi=-1e300; const nuSQUIDS* who=nullptr; bool stranger=false;
  double at(int e,int r,int f,double x) const { int i=(e*nr+r)*n+f; return a[i]+b[i]*std::sin(k[i]*x+p[i]); }
  double integral(int e,int r,int f,double x0,double x1) const { int i=(e*nr+r)*n+f; return a[i]*(x1-x0)+(k[i]?b[i]/k[i]*(std::cos(k[i]*x0+p[i])-std::cos(k[i]*x1+p[i])):b[i]*std::sin(p[i])*(x1-x0)); }
  void fill(marray<double,3>& f,double x,const nuSQUIDS* s){ calls++; lo=std::min(lo,x); hi=std::max(hi,x); if(who&&s!=who) stranger=true; if((int)f.extent(0)!=ne||(int)f.extent(1)!=nr||(int)f.extent(2)!=n){ bad++; return; } for(int e=0;e<ne;e++)for(int r=0;r<nr;r++)for(int i=0;i<n;i++) f[e][r][i]=at(e,r,i,x); } };
template<class B> struct Emit: B{ std::shared_ptr<Emission> m; template<class... A> Emit(std::shared_ptr<Emission> q,A... a):B(a...),m(q){} void injected_neutrino_flux(marray<double,3>& f,const GenericTrack& t,const nuSQUIDS& s) override { m->fill(f,t.GetX(),&s); } };
static std::shared_ptr<Emission> emission(Rng& r,const Conf& c,double L,double scale){ auto m=std::make_shared<Emission>(); m->ne=c.ne(); m->nr=c.nr(); m->n=c.n; int kind=r.in(0,3),e1=r.in(0,c.ne()-1),r1=r.in(0,c.nr()-1),f1=r.in(0,c.n-1); double kk=r.uni(.5,10)/L; for(int e=0;e<c.ne();e++)for(int q=0;q<c.nr();q++)for(int f=0;f<c.n;f++){ bool z=kind==0?!(e==e1&&q==r1&&f==f1):kind==1?f!=f1:kind==2&&r.coin(.4); double a=z?0:scale/L*r.uni(.1,1); m->a.push_back(a); m->b.push_back(a*r.uni(0,1)); m->k.push_back(r.coin(.2)?0:kk*r.uni(.5,1)); m->p.push_back(r.uni(0,6)); } return m; }
// a leg along an emitting body
static Leg emitter(Rng& r,std::shared_ptr<Emission>& m,const std::function<std::shared_ptr<Emission>(double)>& mk,double maxphase){ for(;;){ int kind=r.in(0,9); kind=kind<2?LVAC:kind<5?LCON:kind<8?LWAVE:kind==8?LEARTH:LATM; Leg l=leg(r,kind,maxphase); double L=l.x1-l.x0; if(L<50*K.km) continue; m=mk(L); auto q=m;
    switch(kind){ case LVAC: l.body=std::make_shared<Emit<Vacuum>>(m); break; case LCON: { double rho,ye; l.at(l.x0,rho,ye); l.probe.reset(); l.body=std::make_shared<Emit<ConstantDensity>>(m,rho,ye); break; }
      case LWAVE: std::static_pointer_cast<Wave>(l.body)->emit=[q](marray<double,3>& f,double x){ q->fill(f,x,q->who); }; break; case LEARTH: l.body=std::make_shared<Emit<Earth>>(m); break; default: { auto e=std::make_shared<Emit<EarthAtm>>(m); l.body=e; } } return l; } }
static void gather(Ctx& c,const Emission& m,const Leg& l,const char* how){ c.check("source/extents",m.bad==0,"the array handed to the body has other extents than energies, types, flavours"); c.check("source/stranger",!m.stranger,"the body was handed another evolution object"); if(m.calls){ double slack=1e-6*std::fabs(l.x1-l.x0); double lo=std::min(l.x0,l.x1),hi=std::max(l.x0,l.x1); c.check("source/asked-outside",m.lo>=lo-slack&&m.hi<=hi+slack,fmt("asked for emission at [%g,%g] km",m.lo/K.km,m.hi/K.km)); } c.count("emission-calls",m.calls); (void)how; }
static void agree(Ctx& c,const char* key,const NS& s,const Conf& cf,const Ref& ref,double tol,const std::string& when){ for(int e=0;e<cf.ne();e++)for(int r=0;r<cf.nr();r++)for(int f=0;f<cf.n;f++) c.near(std::string("source/")+key,flav(s,cf,f,e,r),ref.weight(e,r,f),2e-4,tol,fmt("flavour %d energy %d rho %d %s",f,e,r,when.c_str())); }
static void settings(Rng& r,NS& s,double scale,double L,std::string& how){ std::string nm; s.Set_GSL_step(stepper(r,&nm)); s.Set_rel_error(1e-7); s.Set_abs_error(1e-9*scale); s.Set_h(r.logu(.01,10)*K.km); s.Set_h_max(L/r.uni(8,40)); how+=nm; if(r.coin(.3)){ s.Set_Basis(mass); how+=" mass"; } if(r.coin(.5)){ s.Set_AllowConstantDensityOscillationOnlyEvolution(true); how+=" fast"; } }
static D empty(Rng& r,const Conf& c,double scale){ D v; bool none=r.coin(.5); for(int i=0;i<c.ne()*c.nr()*c.n;i++) v.push_back(none?0:scale*r.uni(0,1)); return v; }
// one leg, everything else on or off
static void one(Ctx& c,bool many){
  Rng& r=c.rng; double scale=r.coin()?1:r.logu(1e-10,1e8); std::shared_ptr<Emission> m; Conf cf; bool inter=!many&&r.coin(.5),osc=r.coin(.6); double Ls=0; NeutrinoType nt=NTS[r.in(0,2)];
  Leg l=emitter(r,m,[&](double L){ cf=inter?hot(r,L,osc?4:.1,nt):conf(r,L,6,true); if(many){ double e0=cf.E[0],top=r.logu(3,1e3); int ne=r.in(257,300); cf.E.clear(); for(int i=0;i<ne;i++) cf.E.push_back(e0*std::pow(top,double(i)/(ne-1))); c.count("many-energies"); } Ls=L; return emission(r,cf,L,scale); },6);
  if(!many&&!inter&&r.coin(.15)&&cf.nt!=both){ cf.single=true; cf.E.resize(1); m->ne=1; }
  double col=0; for(int i=0;i<64;i++){ double rho,ye; l.at(l.x0+(i+.5)/64*Ls,rho,ye); col+=rho/64; } double depth=inter?r.logu(.03,3):0; World w=World::make(r,cf.E[cf.ne()/2],col>0?col:1,Ls,inter?depth:1); bool exact=true; if(inter) exact=w.exact; Inter I(cf,w); I.tau=inter&&cf.nt==both&&r.coin(.5); I.gr=inter&&r.coin(.4);
  D v=empty(r,cf,scale); bool on=r.coin(.85); std::string how; Ref ref(cf); ref.osc=osc; ref.tol=1e-8; ref.unit=scale; ref.set(v,true); bool rev=!inter&&r.coin(.25);
  ref.extra=[&](double x,const std::vector<Z>& y,std::vector<Z>& d,double rho,double ye){ double sg=1; if(inter) I(ref,y,d,rho,ye); if(on) for(int e=0;e<cf.ne();e++)for(int q=0;q<cf.nr();q++)for(int f=0;f<cf.n;f++) ref.at(d,e,q)[f*cf.n+f]+=sg*m->at(e,q,f,x); };
  NS s; cf.build(s,inter,w.lib); m->who=&s; if(inter){ s.Set_TauRegeneration(I.tau); s.Set_GlashowResonance(I.gr); } s.Set_IncludeOscillations(osc); settings(r,s,scale,Ls,how); bool early=r.coin(); if(early) s.Set_NeutrinoSources(on); s.Set_Body(l.body); auto t=l.track(); if(rev) t->ReverseTrack(); s.Set_Track(t); if(r.coin(.3)) s.Set_NeutrinoSources(!on); set(s,cf,v,true); s.Set_NeutrinoSources(on);
  std::string d=cf.str()+"; "+l.how+fmt("; %s%s%s%s%s%s",on?"sources":"no sources",inter?fmt(", interactions %g",depth).c_str():"",osc?"":", no oscillations",I.tau?", tau":"",I.gr?", resonance":"",rev?", reversed ":" ")+how; c.desc(d);
  c.check("source/flag",s.Get_NeutrinoSources()==on,"whether sources are on"); agree(c,"before",s,cf,ref,1e-11*scale,"before"); if(rev) ref.go(l,l.x1,l.x0); else ref.go(l); s.EvolveState();
  double tol=(exact?(l.smooth?1e-4:4e-4):5e-3)*scale; agree(c,"flux",s,cf,ref,tol,"after"); gather(c,*m,l,"emission"); c.check("source/asked",on?m->calls>0:m->calls==0,fmt("the body was asked %ld times",m->calls));
  // the books: what was emitted is there
  if(on&&!inter){ double sg=rev?-1:1; for(int e=0;e<cf.ne();e++)for(int q=0;q<cf.nr();q++){ double got=0,want=0; for(int f=0;f<cf.n;f++){ double in=v[(e*cf.nr()+q)*cf.n+f]+sg*m->integral(e,q,f,l.x0,l.x1),g=flav(s,cf,f,e,q); got+=g; want+=in; if(!osc) c.near("source/ledger",g,in,1e-5,2e-5*scale,fmt("flavour %d energy %d rho %d without oscillations",f,e,q)); } c.near("source/ledger",got,want,1e-5,2e-5*scale*cf.n,fmt("total at energy %d rho %d",e,q)); } c.count("ledgers"); }
  c.count(on?"sources-on":"sources-off"); if(inter) c.count("with-interactions"); else c.count("without-interactions"); if(!osc) c.count("without-oscillations"); if(l.constant) c.count("constant-bodies"); c.count(std::string("type-")+ntName(cf.nt)); c.nontrivial(d); c.sample(d); }
VH_GROUP("emission",900,12000){ one(c,false); }
// more energies than 8 bits count
VH_GROUP("many",6,80){ one(c,true); }
// one object walks along emitting and dark bodies, the switch is turned on and off
VH_GROUP("history",400,6000){
  Rng& r=c.rng; double scale=1; bool inter=r.coin(.4); NeutrinoType nt=NTS[r.in(0,2)]; std::shared_ptr<Emission> m; Conf cf; double Ls=0; bool have=false; Leg l=emitter(r,m,[&](double L){ if(!have) cf=inter?hot(r,L,3,nt):conf(r,L,4,true); have=true; Ls=L; return emission(r,cf,L,scale); },4);
  World w=World::make(r,cf.E[cf.ne()/2],3,Ls,.3); Inter I(cf,w); bool on=false,osc=true; Emission* cur=nullptr; Ref ref(cf); ref.tol=1e-8; ref.unit=scale; D v=empty(r,cf,scale); ref.set(v,true); ref.extra=[&](double x,const std::vector<Z>& y,std::vector<Z>& d,double rho,double ye){ if(inter) I(ref,y,d,rho,ye); if(on&&cur) for(int e=0;e<cf.ne();e++)for(int q=0;q<cf.nr();q++)for(int f=0;f<cf.n;f++) ref.at(d,e,q)[f*cf.n+f]+=cur->at(e,q,f,x); };
  NS s; cf.build(s,inter,w.lib); std::string log; settings(r,s,scale,Ls,log); s.Set_Body(l.body); s.Set_Track(l.track()); set(s,cf,v,true); double tol=0; log+=": "; bool first=true;
  for(int i=0,ops=r.in(4,8);i<ops;i++){ int op=r.in(0,5); switch(op){ case 0: on=!on; s.Set_NeutrinoSources(on); log+=on?"on ":"off "; break; case 1: osc=!osc; s.Set_IncludeOscillations(osc); ref.osc=osc; log+=osc?"oscillations ":"no-oscillations "; break;
      default: { bool dark=r.coin(.35); Leg k=l; std::shared_ptr<Emission> q=m; for(int tr=0;tr<50&&!first;tr++){ k=dark?leg(r,r.coin()?LCON:LWAVE,4):emitter(r,q,[&](double L){ return emission(r,cf,L,scale); },4); double L=k.x1-k.x0; if(cf.big*L/2/cf.E[0]<10&&L<3*Ls) break; k=l; q=m; dark=false; } if(first) dark=false; first=false; cur=dark?nullptr:q.get(); q->who=&s; log+=(dark?"dark[":"emitting[")+k.how+"] "; c.desc(cf.str()+"; "+log); s.Set_h_max((k.x1-k.x0)/10); s.Set_Body(k.body); s.Set_Track(k.track()); q->calls=0; q->lo=1e300; q->hi=-1e300; s.EvolveState(); ref.go(k); if(!dark){ gather(c,*q,k,"history"); c.check("source/asked",on==(q->calls>0),fmt("asked %ld times with sources %s",q->calls,on?"on":"off")); }
        tol+=w.exact||!inter?(k.smooth?1e-4:4e-4):5e-3; agree(c,"history",s,cf,ref,tol*3,"after "+k.how); c.count(dark?"dark-legs":"emitting-legs"); m->who=nullptr; } } }
  c.nontrivial(cf.str()+log); c.sample(cf.str()+"; "+log); }
