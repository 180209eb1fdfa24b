// C26: evolution objects are moved between the operations of their lives; a twin does the same without being moved.
#include "life.h"
static std::unique_ptr<U> someone(Rng& r,std::string& how){ Life o=life(r); auto u=o.born(); how=o.how; int n=r.in(0,o.steps.size()); std::string w; for(int i=0;i<n;i++) act(o.steps[i],*u,w); return u; }
static U through(U u){ return u; }
// moves the object; the source is destroyed, kept, or used for something else
static std::unique_ptr<U> moved(Rng& r,std::unique_ptr<U> p,std::string& how,Ctx& c){ std::unique_ptr<U> q; std::string other; int k=r.in(0,8); switch(k){
    case 0: q.reset(new U(std::move(*p))); how="constructed from it"; break;
    case 1: q.reset(new U); *q=std::move(*p); how="assigned to a new one"; break;
    case 2: case 3: q=someone(r,other); *q=std::move(*p); how="assigned to another ("+other+")"; break;
    case 4: q=someone(r,other); std::swap(*p,*q); how="swapped with another ("+other+")"; break;
    case 5: { std::vector<U> v; v.push_back(std::move(*p)); for(int i=r.in(1,5);i--;) v.emplace_back(); q.reset(new U(std::move(v[0]))); how="in a vector which grew"; break; }
    case 6: { U t(std::move(*p)); *p=std::move(t); q=std::move(p); how="away and back"; break; }
    case 7: q.reset(new U(through(std::move(*p)))); how="through a function"; break;
    default: { U& self=*p; *p=std::move(self); q=std::move(p); how="to itself"; } }
  c.count("move:"+fmt("%d",k));
  if(p){ int z=r.in(0,3); if(z==0){ std::string w; int t=vh::throws([&]{ p->EvolveState(); },&w); if(k<4) c.check("move/source-usable",t==1,"an object can be evolved after it has been moved away"); how+=", the source was asked"; } else if(z==1){ std::string oh; Life o=life(r); *p=std::move(*o.born()); auto twin=o.born(); std::string a,b; for(auto& s:o.steps){ bool x=act(s,*p,a),y=act(s,*twin,b); if(x!=y){ c.check("move/source-reused",false,s.how+" in a reused source: "+a+b); break; } if(!x&&s.evolve) break; } Rng r2(r.u64()); std::string w=unlike(look(*twin,o.cf,o.l,r2),look(*p,o.cf,o.l,r2),o.scale); c.check("move/source-reused",w.empty(),w+" in a reused source ("+o.str()+")"); c.count("source-reused"); how+=", the source was used for something else"; } p.reset(); }
  return q; }
VH_GROUP("life",900,12000){
  Rng& r=c.rng; Life o=life(r); c.desc(o.str()); auto a=o.born(),b=o.born(); int n=o.steps.size(); std::set<int> at; for(int i=r.in(1,4);i--;) at.insert(r.in(0,n)); std::string hist; Rng mr(r.u64());
  for(int i=0;i<=n;i++){ if(at.count(i)){ std::string how; b=moved(mr,std::move(b),how,c); hist+=" | before "+(i<n?o.steps[i].how:std::string("the end"))+": "+how; c.desc(o.how+hist); c.count("moved"); c.count(i==0?"moved-fresh":i==n?"moved-last":"moved-between"); Rng s(r.u64()); std::string w=unlike(look(*a,o.cf,o.l,s),look(*b,o.cf,o.l,s),o.scale); if(!c.check("move/seen",w.empty(),w+" at "+hist+" ["+o.str()+"]")) return; }
    if(i==n) break; std::string x,y; bool s=act(o.steps[i],*a,x),t=act(o.steps[i],*b,y); if(!c.check("move/refused",s==t,o.steps[i].how+": "+(s?"accepted":x)+" but "+(t?"accepted":y)+" after "+hist)) return; if(s&&o.steps[i].evolve){ c.count("evolved"); Rng q(r.u64()); std::string w=unlike(look(*a,o.cf,o.l,q),look(*b,o.cf,o.l,q),o.scale,1e-8); if(!c.check("move/evolved",w.empty(),w+" after "+hist+" ["+o.str()+"]")) return; } else if(!s){ c.count("refused"); if(o.steps[i].evolve) break; } }
  c.nontrivial(o.how+hist); c.sample(o.str()+hist); }
typedef nuSQUIDS::InteractionStructure IS; typedef nuSQUIDS::InteractionState IT;
template<class M,class V> static void all8(IS& x,M f,V){ f("dNdE_CC",&x.dNdE_CC[0][0][0][0][0],x.dNdE_CC.size()); f("dNdE_NC",&x.dNdE_NC[0][0][0][0][0],x.dNdE_NC.size()); f("dNdE_GR",&x.dNdE_GR[0][0],x.dNdE_GR.size()); f("sigma_CC",&x.sigma_CC[0][0][0][0],x.sigma_CC.size()); f("sigma_NC",&x.sigma_NC[0][0][0][0],x.sigma_NC.size()); f("sigma_GR",&x.sigma_GR[0],x.sigma_GR.size()); f("dNdE_tau_all",&x.dNdE_tau_all[0][0][0],x.dNdE_tau_all.size()); f("dNdE_tau_lep",&x.dNdE_tau_lep[0][0][0],x.dNdE_tau_lep.size()); }
static std::vector<D> dump(IS& x){ std::vector<D> v; all8(x,[&](const char*,double* p,size_t n){ v.push_back(D(p,p+n)); },0); D t; for(auto k:x.targets) t.push_back((int)k); v.push_back(t); return v; }
static std::vector<D> dump(IT& x){ std::vector<D> v; v.push_back(D(x.invlen_CC.begin(),x.invlen_CC.end())); v.push_back(D(x.invlen_NC.begin(),x.invlen_NC.end())); v.push_back(D(x.invlen_GR.begin(),x.invlen_GR.end())); v.push_back(D(x.invlen_INT.begin(),x.invlen_INT.end())); return v; }
static void fillAll(Rng& r,IS& x,int nt,int nr,int n,int ne){ typedef std::vector<size_t> S; size_t T=nt,R=nr,N=n,E=ne; x.dNdE_CC.resize(S{T,R,N,E,E}); x.dNdE_NC.resize(S{T,R,N,E,E}); x.dNdE_GR.resize(S{E,E}); x.sigma_CC.resize(S{T,R,N,E}); x.sigma_NC.resize(S{T,R,N,E}); x.sigma_GR.resize(S{E}); x.dNdE_tau_all.resize(S{R,E,E}); x.dNdE_tau_lep.resize(S{R,E,E}); static const PDGCode ks[]={proton,neutron,isoscalar_nucleon,electron,(PDGCode)1000080160}; for(int i=0;i<nt;i++) x.targets.push_back(ks[(i+r.in(0,4))%5]); all8(x,[&](const char*,double* p,size_t k){ for(size_t i=0;i<k;i++) p[i]=r.uni(-1,1); },0); }
static void fillAll(Rng& r,IT& x,int,int nr,int n,int ne){ typedef std::vector<size_t> S; size_t R=nr,N=n,E=ne; x.invlen_CC.resize(S{R,N,E}); x.invlen_NC.resize(S{R,N,E}); x.invlen_INT.resize(S{R,N,E}); x.invlen_GR.resize(S{E}); for(double& v:x.invlen_CC) v=r.unit(); for(double& v:x.invlen_NC) v=r.unit(); for(double& v:x.invlen_INT) v=r.unit(); for(double& v:x.invlen_GR) v=r.unit(); }
static void poke(Rng& r,IS& x,std::string& how){ int q=r.in(0,8); if(q==8){ how="targets"; x.targets[r.in(0,x.targets.size()-1)]=(PDGCode)1000260560; return; } int i=0; all8(x,[&](const char* nm,double* p,size_t k){ if(i++==q){ how=nm; p[r.in(0,k-1)]+=1; } },0); }
static void poke(Rng& r,IT& x,std::string& how){ int q=r.in(0,3); marray<double,3,aligned_allocator<double>>* m[]={&x.invlen_CC,&x.invlen_NC,&x.invlen_INT}; if(q==3){ how="invlen_GR"; x.invlen_GR[r.in(0,x.invlen_GR.size()-1)]+=1; } else { how="invlen"; auto i=m[q]->begin(); std::advance(i,r.in(0,m[q]->size()-1)); *i+=1; } }
template<class T> static void tables(Ctx& c,const char* nm){ Rng& r=c.rng; int nt=r.in(1,3),nr=r.in(1,2),n=r.in(1,6),ne=r.in(1,9); std::unique_ptr<T> a(new T); fillAll(r,*a,nt,nr,n,ne); auto was=dump(*a); int k=r.in(0,5); std::string how; std::unique_ptr<T> b(new T); auto old=[&]{ if(r.coin()) fillAll(r,*b,r.in(1,3),r.in(1,2),r.in(1,6),r.in(1,9)); };
  switch(k){ case 0: b.reset(new T(*a)); how="copied"; break; case 1: old(); *b=*a; how="assigned"; break; case 2: { T t(*a); b.reset(new T(std::move(t))); how="moved"; break; } case 3: { T t(*a); old(); *b=std::move(t); how="move-assigned"; break; } case 4: { T& s=*a; *a=s; b.reset(new T(*a)); how="assigned to itself"; break; } default: { old(); T t(*a); std::swap(t,*b); how="swapped"; } }
  std::string d=fmt("%s %s, %d targets, %d types, %d flavours, %d energies",nm,how.c_str(),nt,nr,n,ne); c.desc(d); c.check("tables/source-kept",dump(*a)==was,"source changed"); c.check("tables/copied",dump(*b)==was,"copy has other contents"); c.check("tables/equal",*a==*b&&!(*a!=*b)&&*b==*a,"copy compares unequal"); std::string p; poke(r,*b,p); c.check("tables/independent",dump(*a)==was,"changing "+p+" of the copy changed the source"); c.check("tables/unequal",!(*a==*b)&&*a!=*b&&!(*b==*a),"equal although "+p+" differs"); auto b2=dump(*b); a.reset(); c.check("tables/independent",dump(*b)==b2,"copy changed with its source"); c.count("tables"); c.nontrivial(d); c.sample(d); }
VH_GROUP("tables",600,8000){ if(c.rng.coin(.7)) tables<IS>(c,"cross sections"); else tables<IT>(c,"interaction lengths"); }
