// C28: calls which do not fit are refused, and the object goes on as if they had never been made.
#include "life.h"
// the library also writes about its failures; the reports of the sanitizers must stay visible
struct Mute{ std::ostringstream o; std::streambuf *a,*b; Mute():a(std::cout.rdbuf(o.rdbuf())),b(std::cerr.rdbuf(o.rdbuf())){} ~Mute(){ std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
struct Bad{ std::string how; std::function<void(U&)> f; };
// a call which does not fit an object of this configuration at any time
static Bad never(Rng& r,const Life& o){ const Conf& cf=o.cf; unsigned n=cf.n,ne=cf.ne(),nr=cf.nr(); const double nan=NAN; auto big=[&](unsigned k){ unsigned v[]={k,k,k,k+1,k+5,6,100,0x7fffffffu,0xffffffffu,0x80000000u}; unsigned x; do x=v[r.in(0,9)]; while(x<k); return x; }; auto fn=[&]{ return (unsigned)r.in(0,n-1); }; auto en=[&]{ return (unsigned)r.in(0,ne-1); }; auto rn=[&]{ return (unsigned)r.in(0,nr-1); }; auto okE=[&]{ return r.uni(cf.E[0],cf.E.back()); };
  auto badE=[&]{ double v[]={cf.E[0]*.5,cf.E[0]*(1-1e-12),cf.E.back()*(1+1e-12),cf.E.back()*2,0,-1,1e300,INFINITY,-INFINITY,nan}; return v[r.in(0,9)]; };
  // which of flavour, node, type is out of range
  unsigned f=fn(),e=en(),q=rn(); int w=r.in(0,2); if(w==0) f=big(n); else if(w==1) e=big(ne); else q=big(nr); std::string at=fmt("(%u,%u,%u)",f,e,q);
  for(;;) switch(r.in(0,24)){
    case 0: return {"EvalFlavorAtNode"+at,[=](U& u){ u.EvalFlavorAtNode(f,e,q); }};
    case 1: return {"EvalMassAtNode"+at,[=](U& u){ u.EvalMassAtNode(f,e,q); }};
    case 2: case 3: { unsigned F=fn(),Q=rn(); double E=okE(); int k=r.in(0,2); if(k==0) F=big(n); else if(k==1) Q=big(nr); else E=badE(); bool m=r.coin(); return {fmt("%s(%u,%g,%u)",m?"EvalMass":"EvalFlavor",F,E,Q),[=](U& u){ if(m) u.EvalMass(F,E,Q); else u.EvalFlavor(F,E,Q); }}; }
    case 4: case 5: { unsigned F=fn(),Q=rn(); double E=okE(); size_t a=n; int k=r.in(0,3); if(k==0) F=big(n); else if(k==1) Q=big(nr); else if(k==2) E=badE(); else a=r.coin()?0:r.coin()?n-1:n+1; bool m=r.coin(); return {fmt("%s(%u,%g,%u) averaged, %d flags",m?"EvalMass":"EvalFlavor",F,E,Q,(int)a),[=](U& u){ std::vector<bool> v(a); if(m) u.EvalMass(F,E,Q,100,v); else u.EvalFlavor(F,E,Q,100,v); }}; }
    case 6: { bool m=r.coin(); unsigned F=ne==1?big(n):fn(); return {fmt("%s(%u)",m?"EvalMass":"EvalFlavor",F),[=](U& u){ if(m) u.EvalMass(F); else u.EvalFlavor(F); }}; }
    case 7: { bool m=r.coin(); unsigned F=ne==1&&r.coin()?big(n):fn(); size_t a=ne==1&&F<n?(r.coin()?0:n-1):n; return {fmt("%s(%u) averaged, %d flags",m?"EvalMass":"EvalFlavor",F,(int)a),[=](U& u){ std::vector<bool> v(a); if(m) u.EvalMass(F,100.,v); else u.EvalFlavor(F,100.,v); }}; }
    case 8: { unsigned i=fn(),j=fn(); int k=r.in(0,3); if(k==0) i=big(n); else if(k==1) j=big(n); else if(k==2) j=i; else if(i<=j){ std::swap(i,j); } double v=r.uni(0,1); int what=r.in(0,3); const char* nm[]={"Set_MixingAngle","Get_MixingAngle","Set_CPPhase","Get_CPPhase"}; return {fmt("%s(%u,%u)",nm[what],i,j),[=](U& u){ if(what==0) u.Set_MixingAngle(i,j,v); else if(what==1) u.Get_MixingAngle(i,j); else if(what==2) u.Set_CPPhase(i,j,v); else u.Get_CPPhase(i,j); }}; }
    case 9: { unsigned i=r.coin(.3)?0:big(n); bool g=r.coin(); return {fmt("%s_SquareMassDifference(%u)",g?"Get":"Set",i),[=](U& u){ if(g) u.Get_SquareMassDifference(i); else u.Set_SquareMassDifference(i,1e-3); }}; }
    case 10: { unsigned E=en(),Q=rn(); if(r.coin()) E=big(ne); else Q=big(nr); return {fmt("GetHamiltonian(%u,%u)",E,Q),[=](U& u){ u.GetHamiltonian(E,Q); }}; }
    case 11: { unsigned E=en(),Q=rn(); if(r.coin()) E=big(ne); else Q=big(nr); return {fmt("GetState(%u,%u)",E,Q),[=](U& u){ u.GetState(E,Q); }}; }
    case 12: { unsigned F=fn(),Q=rn(); if(r.coin()) F=big(n); else Q=big(nr); return {fmt("GetFlavorProj(%u,%u)",F,Q),[=](U& u){ u.GetFlavorProj(F,Q); }}; }
    case 13: { unsigned F=fn(),Q=rn(); if(r.coin()) F=big(n); else Q=big(nr); return {fmt("GetMassProj(%u,%u)",F,Q),[=](U& u){ u.GetMassProj(F,Q); }}; }
    case 14: return {"Set_Basis(flavor)",[](U& u){ u.Set_Basis(flavor); }};
    case 15: if(cf.nt!=both||!o.inter) return {"Set_TauRegeneration",[](U& u){ u.Set_TauRegeneration(true); }}; break;
    case 16: if(!o.inter) return {"Set_GlashowResonance",[](U& u){ u.Set_GlashowResonance(true); }}; break;
    case 17: if(ne!=1) return {"Set_E",[](U& u){ u.Set_E(1e9); }}; break;
    case 18: return {"Set_Body(null)",[](U& u){ u.Set_Body(nullptr); }};
    case 19: return {"Set_Track(null)",[](U& u){ u.Set_Track(nullptr); }};
    case 20: { double v[]={0,-0.0,-1,nan,-INFINITY}; double x=v[r.in(0,4)]; return {fmt("Set_PositivityConstrainStep(%g)",x),[=](U& u){ u.Set_PositivityConstrainStep(x); }}; }
    case 21: { Basis b=r.coin()?flavor:mass; size_t a=r.coin()?n:r.in(0,8); bool fits=a==n&&ne==1&&cf.nt!=both; if(fits){ if(r.coin()) b=interaction; else a=r.coin()?0:r.coin()?n+1:n-1; } return {fmt("Set_initial_state of %d in basis %d",(int)a,(int)b),[=](U& u){ marray<double,1> v{a}; std::fill(v.begin(),v.end(),.3); u.Set_initial_state(v,b); }}; }
    case 22: { Basis b=r.coin()?flavor:mass; size_t a=ne,c=n; int k=r.in(0,3); if(k==0) a=r.coin()?0:r.coin()?ne+1:ne-1; else if(k==1) c=r.coin()?0:r.coin()?n+1:n-1; else if(k==2){ std::swap(a,c); } else b=interaction; if(a==ne&&c==n&&cf.nt!=both) b=interaction; return {fmt("Set_initial_state of %d by %d in basis %d",(int)a,(int)c,(int)b),[=](U& u){ marray<double,2> v{a,c}; std::fill(v.begin(),v.end(),.3); u.Set_initial_state(v,b); }}; }
    case 23: { Basis b=r.coin()?flavor:mass; size_t a=ne,m=2,c=n; int k=r.in(0,4); if(k==0) a=r.coin()?0:r.coin()?ne+1:ne-1; else if(k==1) c=r.coin()?0:r.coin()?n+1:n-1; else if(k==2) m=r.coin()?0:r.coin()?1:3; else if(k==3) std::swap(a,c); else b=interaction; if(a==ne&&c==n&&m==2&&cf.nt==both) b=interaction; return {fmt("Set_initial_state of %d by %d by %d in basis %d",(int)a,(int)m,(int)c,(int)b),[=](U& u){ marray<double,3> v{a,m,c}; std::fill(v.begin(),v.end(),.3); u.Set_initial_state(v,b); }}; }
    default: { int k=r.in(0,3); std::string g=r.coin()?"/":"/a"; return {"reading a file which is not there",[=](U& u){ u.ReadStateHDF5("/nonexistent/x.h5",g); }}; (void)k; } } }
struct Have{ bool body=false,track=false,energy=false,state=false; };
// a call which comes too early
static bool early(Rng& r,const Life& o,const Have& h,Bad& b){ const Conf cf=o.cf; std::vector<Bad> v; if(!h.state||!h.body||!h.track||!h.energy){ v.push_back({"EvolveState",[](U& u){ u.EvolveState(); }}); v.push_back({"WriteStateHDF5",[](U& u){ u.WriteStateHDF5("/nonexistent/x.h5"); }}); } if(!h.body||!h.track||!h.energy){ D s=start(r,cf,1); v.push_back({"Set_initial_state",[=](U& u){ set(u,cf,s,true); }}); v.push_back({"GetHamiltonian",[](U& u){ u.GetHamiltonian(0,0); }}); } if(!h.energy){ v.push_back({"EvalFlavor",[](U& u){ u.EvalFlavor(0); }}); v.push_back({"EvalMass",[](U& u){ u.EvalMass(0); }}); v.push_back({"EvalFlavorAtNode",[](U& u){ u.EvalFlavorAtNode(0,0,0); }}); v.push_back({"EvalMassAtNode",[](U& u){ u.EvalMassAtNode(0,0,0); }}); v.push_back({"EvalFlavor(E)",[](U& u){ u.EvalFlavor(0,1e9,0); }}); } if(v.empty()) return false; b=v[r.in(0,v.size()-1)]; return true; }
static Have now(const Life& o,int i,std::vector<char>& ok){ Have h; h.energy=!o.cf.single; for(int k=0;k<i;k++) if(ok[k]){ auto& s=o.steps[k].how; if(s=="energy"){ h.energy=true; h.state=false; } if(s=="body"||s.find("then ")==0) h.body=true; if(s=="track"||s.find("then ")==0||s=="part of the way") h.track=true; if(s=="state") h.state=true; if(s=="mixing"||s=="other mixing") h.state=false; } return h; }
static bool refusedBy(U& u,const Bad& b,std::string& msg){ Mute q; return vh::throws([&]{ b.f(u); },&msg)==1; }
VH_GROUP("life",1000,14000){
  Rng& r=c.rng; Life o=life(r); c.desc(o.how); auto a=o.born(),b=o.born(); int n=o.steps.size(); std::string hist; std::vector<char> ok(n+1); Rng mr(r.u64()); double p=r.pick(std::vector<double>{.1,.4,.9});
  for(int i=0;i<=n;i++){ for(int k=0;k<3&&mr.coin(p);k++){ Have h=now(o,i,ok); Bad m; bool e=mr.coin(.4)&&early(mr,o,h,m); if(!e) m=never(mr,o); if(m.how.find("GetHamiltonian")==0&&o.inter) { m=never(mr,o); if(m.how.find("GetHamiltonian")==0) continue; } hist=" "+m.how+(i<n?" before "+o.steps[i].how:" at the end"); c.desc(o.how+hist); Rng s(mr.u64()); { Rng z(s.s); look(*b,o.cf,o.l,z); } Rng s1(s.s); Seen before=look(*b,o.cf,o.l,s1); std::string msg; bool no=refusedBy(*b,m,msg); if(!c.check("misuse/accepted",no,"accepted: "+hist)) return; c.count(e?"too-early":"never-fits"); c.count("call:"+m.how.substr(0,m.how.find_first_of("( "))); Rng s2(s.s); Seen after=look(*b,o.cf,o.l,s2); std::string w; for(size_t x=0;x<before.size();x++) if(before[x].first=="counter") before[x].second=after[x].second; w=unlike(before,after,o.scale,0); if(!c.check("misuse/changed",w.empty(),w+" by "+hist+" ["+o.str()+"]")) return; for(int z=0;z<3;z++){ Rng s3(s.s); look(*a,o.cf,o.l,s3); } }
    if(i==n) break; std::string x,y; bool s=act(o.steps[i],*a,x),t=act(o.steps[i],*b,y); ok[i]=s; if(!c.check("misuse/later",s==t,o.steps[i].how+": "+(s?"accepted":x)+" but "+(t?"accepted":y)+" after"+hist+" ["+o.str()+"]")) return; if(s&&o.steps[i].evolve){ c.count("evolved"); Rng q(r.u64()); std::string w=unlike(look(*a,o.cf,o.l,q),look(*b,o.cf,o.l,q),o.scale,1e-9); if(!c.check("misuse/evolved",w.empty(),w+" after"+hist+" ["+o.str()+"]")) return; } else if(!s&&o.steps[i].evolve) break; }
  c.nontrivial(o.how+hist); c.sample(o.str()+hist); }
// cross sections which fail: nothing is kept of them
struct Failing: NX{ mutable long left; bool lookup; Failing(long k):left(k),lookup(false){} void tick() const { if(left--==0) throw std::runtime_error("no cross section here"); } double TotalCrossSection(double,NeutrinoFlavor,NeutrinoType,Current) const override { tick(); return 1e-35; } double SingleDifferentialCrossSection(double E1,double,NeutrinoFlavor,NeutrinoType,Current) const override { tick(); return 1e-35/(E1/1e9); } double AverageTotalCrossSection(double,double,NeutrinoFlavor,NeutrinoType,Current) const override { tick(); return 1e-35; } double AverageSingleDifferentialCrossSection(double E1,double,double,NeutrinoFlavor,NeutrinoType,Current) const override { tick(); return 1e-35/(E1/1e9); } };
VH_GROUP("cross-sections",250,3000){
  Rng& r=c.rng; Leg l; do l=anyLeg(r,true,3); while(!sound(l)); double L=l.x1-l.x0; Conf cf=hot(r,L,2,NTS[r.in(0,2)]); World w=World::make(r,cf.E[0],col(l),L,.5); bool tau=cf.nt==both&&r.coin(),gr=r.coin(); D v=start(r,cf,1); auto prep=[&](U& u){ cf.mixing(u); u.Set_Body(l.body); u.Set_Track(l.track()); set(u,cf,v,true); u.Set_TauRegeneration(tau); u.Set_GlashowResonance(gr); u.Set_rel_error(1e-6); u.Set_abs_error(1e-8); u.Set_h(L/100); u.Set_h_max(L/10); };
  int k=r.in(0,5); std::string how; auto lib=std::make_shared<CrossSectionLibrary>(); auto one=[&]{ return std::shared_ptr<NX>(w.nuc[0]); }; std::shared_ptr<Failing> fx; bool grOnly=false;
  if(k==0){ how="empty library"; } else if(k==1){ how="electrons only"; lib->addTarget(electron,std::shared_ptr<NX>(w.ele)); } else if(k==2){ how="protons only"; lib->addTarget(proton,one()); lib->addTarget(electron,std::shared_ptr<NX>(w.ele)); } else if(k==3){ how="no library and no data"; lib.reset(); } else if(k==4){ fx=std::make_shared<Failing>((long)r.logu(1,400)-1); how=fmt("fails at call %ld",fx->left); lib->addTarget(isoscalar_nucleon,std::shared_ptr<NX>(fx)); lib->addTarget(electron,std::shared_ptr<NX>(w.ele)); } else { how="resonance without electrons"; lib->addTarget(isoscalar_nucleon,one()); gr=true; grOnly=true; }
  c.desc(cf.str()+" "+l.how+" "+how); Life o; o.cf=cf; o.inter=true; o.w=w; o.w.lib=lib; auto b=o.born(); prep(*b); auto ask=[&](int q,std::string& m){ Mute z; return vh::throws([&]{ if(q==0) b->EvolveState(); else if(q==1) b->InitializeInteractions(); else b->GetHamiltonian(0,0); },&m); };
  if(k==3&&getenv("NUSQUIDS_DATA_PATH")) return; std::string m; bool need=grOnly?cf.nt!=neutrino:true; long at=fx?fx->left:0; int first=grOnly?0:r.in(0,2); int t=ask(first,m); bool hit=fx?fx->left<0:true; if(fx&&!hit){ c.check("xs/refused",t==0,"complained: "+m); return; } if(grOnly&&!need){ c.check("xs/refused",t==0,"resonance of neutrinos: "+m); return; } if(!c.check("xs/refused",t==1,how+" accepted")) return; if(!fx) for(int q=r.in(1,3);q--;){ int x=grOnly?0:r.in(0,2); t=ask(x,m); if(!c.check("xs/refused-again",t==1,how+" accepted when tried again")) return; c.count("again"); } c.check("xs/tables",grOnly||vh::throws([&]{ b->GetInteractionStructure(); })==1,"tables of failing cross sections"); (void)at;
  // with proper cross sections it is as if nothing had happened; those which fail once may be asked again
  o.w.lib=w.lib; auto a=o.born(); prep(*a); if(fx&&r.coin()){ fx->left=1<<30; auto fl=std::make_shared<CrossSectionLibrary>(*lib); a->SetNeutrinoCrossSections(fl); c.count("recovered-itself"); } else b->SetNeutrinoCrossSections(w.lib); a->EvolveState(); b->EvolveState(); Rng s(r.u64()); Seen x=look(*a,cf,l,s),y=look(*b,cf,l,s); for(size_t i=0;i<x.size();i++) if(x[i].first=="cross sections"||x[i].first=="counter") y[i].second=x[i].second; std::string w2=unlike(x,y,1,1e-9); c.check("xs/recovered",w2.empty(),w2+" after "+how); c.count("recovered"); c.nontrivial(cf.str()+how); c.sample(cf.str()+how); }
// construction
VH_GROUP("construct",150,1500){
  Rng& r=c.rng; int k=r.in(0,4); std::string how; std::function<void()> f; unsigned bad[]={0,1,2,7,8,100,0xffffffffu}; NeutrinoType bt[]={(NeutrinoType)0,(NeutrinoType)4,(NeutrinoType)7,(NeutrinoType)-1}; auto grid=[&](size_t n){ marray<double,1> e{n}; for(size_t i=0;i<n;i++) e[i]=1e9*(i+1); return e; };
  switch(k){ case 0: { unsigned n=bad[r.in(0,6)]; how=fmt("single, %u flavours",n); f=[=]{ U u(n,neutrino); }; break; } case 1: how="single, both types"; f=[]{ U u(3,both); }; break; case 2: { unsigned n=bad[r.in(0,6)]; how=fmt("multiple, %u flavours",n); auto g=grid(r.in(1,5)); bool i=r.coin(); f=[=]{ U u(g,n,both,i,nullptr); }; break; } case 3: { how="no energies"; bool i=r.coin(); auto t=NTS[r.in(0,2)]; f=[=]{ U u(marray<double,1>{(size_t)0},3,t,i,nullptr); }; break; } default: { how="falling energies"; auto g=grid(r.in(2,6)); std::swap(g[0],g[1]); auto t=NTS[r.in(0,2)]; f=[=]{ U u(g,3,t,false,nullptr); }; } } (void)bt;
  c.desc(how); Mute q; c.check("construct/accepted",vh::throws(f)==1,how+" accepted"); c.count("construct"); c.nontrivial(how+fmt("%d",(int)c.idx)); }
// objects which have nothing in them
VH_GROUP("empty",400,5000){
  Rng& r=c.rng; std::unique_ptr<U> u; bool away=r.coin(); Life o=life(r); if(away){ u=o.born(); std::string w; for(int i=r.in(0,o.steps.size()),k=0;k<i;k++) act(o.steps[k],*u,w); U t(std::move(*u)); } else u.reset(new U); std::string d=away?"moved away: ":"default: "; int n=r.in(1,5); for(int i=0;i<n;i++){ Bad m; const Conf cf=o.cf; D s=start(r,cf,1); Leg l=o.l; switch(r.in(0,away?4:9)){ case 0: m={"EvolveState",[](U& x){ x.EvolveState(); }}; break; case 1: m={"EvalFlavor",[](U& x){ x.EvalFlavor(0); }}; break; case 2: m={"EvalMass",[](U& x){ x.EvalMass(0); }}; break; case 3: m={"Set_Body(null)",[](U& x){ x.Set_Body(nullptr); }}; break; case 4: m={"Set_Track(null)",[](U& x){ x.Set_Track(nullptr); }}; break; case 5: m={"Set_initial_state",[=](U& x){ set(x,cf,s,true); }}; break; case 6: m={"GetHamiltonian",[](U& x){ x.GetHamiltonian(0,0); }}; break; case 7: m={"EvalFlavorAtNode",[](U& x){ x.EvalFlavorAtNode(0,0,0); }}; break; case 8: m={"EvalFlavor(E)",[](U& x){ x.EvalFlavor(0,1e9,0); }}; break; default: m={"WriteStateHDF5",[](U& x){ x.WriteStateHDF5("/nonexistent/x.h5"); }}; } d+=m.how+"; "; c.desc(d); std::string msg; c.check("empty/accepted",refusedBy(*u,m,msg),"accepted: "+d); c.count("empty"); }
  auto a=o.born(); *u=std::move(*o.born()); std::string x,y; for(auto& s:o.steps){ bool p=act(s,*a,x),q=act(s,*u,y); if(!c.check("empty/later",p==q,s.how+" after "+d+x+y)) return; if(!p&&s.evolve) break; } Rng s(r.u64()); std::string w=unlike(look(*a,o.cf,o.l,s),look(*u,o.cf,o.l,s),o.scale,1e-9); c.check("empty/later",w.empty(),w+" after "+d); c.nontrivial(d+o.how); c.sample(d+o.how); }
