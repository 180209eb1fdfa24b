// C29: a derived class evolves by the standard equations and exactly the terms it adds.
#include "derived.h"
static void build(User& s,const Conf& c,bool inter,std::shared_ptr<CrossSectionLibrary> xs,std::shared_ptr<Terms> t){ if(c.single){ s=User((unsigned)c.n,c.nt,t); s.Set_E(c.E[0]); } else { marray<double,1> e{c.E.size()}; std::copy(c.E.begin(),c.E.end(),e.begin()); s=User(e,(unsigned)c.n,c.nt,inter,xs,t); } c.mixing(s); }
static void agree(Ctx& c,const char* key,const User& s,const Conf& cf,const Ref& ref,double tol,const std::string& when){ for(int e=0;e<cf.ne();e++)for(int r=0;r<cf.nr();r++)for(int f=0;f<cf.n;f++){ c.near(std::string("flavour/")+key,flav(s,cf,f,e,r),ref.weight(e,r,f),0,tol,fmt("flavour %d energy %d rho %d %s",f,e,r,when.c_str())); c.near(std::string("mass/")+key,massc(s,cf,f,e,r),ref.mass(e,r,f),0,tol,fmt("mass state %d energy %d rho %d %s",f,e,r,when.c_str())); if(!cf.single&&cf.ne()>1&&!s.t->h0) c.near("between",s.EvalFlavor(f,cf.E[e],r),flav(s,cf,f,e,r),0,1e-9*(std::fabs(tol)+1),fmt("EvalFlavor at node %d",e)); } }
static void monitors(Ctx& c,User& s,const char* key){ c.check(std::string("order/")+key,s.bad==0,fmt("%ld of %ld updates out of order; first: %s",s.bad,s.pre,s.why.c_str())); c.count("updates",s.pre); c.count("terms",s.hi+s.gam+s.oth); if(s.sc) c.count("scalar-terms",s.sc); }
static void settings(Rng& r,User& s,double scale,double L){ s.Set_GSL_step(stepper(r)); s.Set_rel_error(1e-7); s.Set_abs_error(1e-9*scale); s.Set_h(r.logu(.01,10)*K.km); s.Set_h_max(L/r.uni(8,30)); }
static bool sound(Leg& l){ for(int i=0;i<=300;i++){ double rho,ye; l.at(l.x0+i/300.*(l.x1-l.x0),rho,ye); if(rho<0||ye<0||ye>1) return false; } return true; }
static Leg anyLeg(Rng& r,bool inter,double ph){ Leg l; do l=leg(r,inter?r.in(LCON,LEARTH):r.in(0,NLEG-1),ph); while(l.x1-l.x0<20*K.km||!sound(l)); return l; }
static double column(Leg& l){ double s=0; for(int i=0;i<64;i++){ double rho,ye; l.at(l.x0+(i+.5)/64*(l.x1-l.x0),rho,ye); s+=rho/64; } return s>0?s:1; }
static double maxrho(Leg& l){ double s=1e-3; for(int i=0;i<=200;i++){ double rho,ye; l.at(l.x0+i/200.*(l.x1-l.x0),rho,ye); s=std::max(s,rho); } return s; }
static void count(Ctx& c,const Terms& t){ if(t.hc) c.count("constant-hamiltonians"); if(t.hv) c.count("matter-hamiltonians"); if(t.hx) c.count("varying-hamiltonians"); if(t.rho()) c.count("decays"); if(t.deph) c.count("dephasing"); if(t.down) c.count("daughters"); if(t.h0) c.count("free-hamiltonians"); if(t.ns) c.count("scalars"); }
// one leg
VH_GROUP("terms",900,12000){
  Rng& r=c.rng; double scale=r.coin(.7)?1:r.logu(1e-8,1e6); bool inter=r.coin(.3); Leg l=anyLeg(r,inter,5); double L=l.x1-l.x0; bool osc=!r.coin(.2),massb=r.coin(.35); Conf cf=inter?hot(r,L,3,NTS[r.in(0,2)]):conf(r,L,5); World w=World::make(r,cf.E[cf.ne()/2],column(l),L,r.logu(.1,1)); bool fast=l.constant&&!inter&&r.coin(.5);
  auto t=std::make_shared<Terms>(Terms::make(r,cf,L,l.x0,fast?1:0)); { double m=maxrho(l); for(auto& g:t->gf) g/=m; for(int e=0;e<t->ne;e++)for(int k=1;k<t->ns;k+=2) t->sa[e*t->ns+k]/=m; } if(cf.single&&r.coin()) t->down=false;
  User s; build(s,cf,inter,w.lib,t); bool exact=!inter||w.exact; Inter I(cf,w); if(inter){ I.tau=cf.nt==both&&r.coin(.4); I.gr=r.coin(.4); s.Set_TauRegeneration(I.tau); s.Set_GlashowResonance(I.gr); } bool src=!cf.single&&!fast&&r.coin(.2); auto wave=std::dynamic_pointer_cast<Wave>(l.body); if(src&&wave) wave->em=scale/L*r.uni(.1,1);
  if(massb) s.Set_Basis(mass); s.Set_IncludeOscillations(osc); settings(r,s,scale,L); s.Set_AllowConstantDensityOscillationOnlyEvolution(fast); if(src) s.Set_NeutrinoSources(true); auto tr=l.track(); bool rev=!inter&&!src&&!t->rho()&&!t->other()&&!t->ns&&r.coin(.2); if(rev) tr->ReverseTrack();
  D v=start(r,cf,scale); bool fl=!osc||r.coin(.7); std::string d=cf.str()+"; "+l.how+fmt("%s%s%s%s%s%s; ",inter?", interactions":"",osc?"":", no oscillations",massb?", mass basis":"",fast?", fast":"",src?", sources":"",rev?", reversed":"")+t->str(); c.desc(d);
  s.Set_Body(l.body); s.Set_Track(tr); set(s,cf,v,fl); D s0; for(int e=0;e<cf.ne();e++)for(int k=0;k<t->ns;k++){ s0.push_back(r.uni(0,1)); s.scalar(e,k)=s0.back(); } s.haveOff=false;
  Ref ref(cf); ref.osc=osc; ref.tol=1e-8; ref.unit=scale; ref.set(v,fl); ref.extra=[&](double x,const M& y,M& dd,double rho,double ye){ (*t)(ref,x,y,dd,rho,ye,osc); if(inter) I(ref,y,dd,rho,ye); if(src&&wave) for(int e=0;e<cf.ne();e++)for(int q=0;q<cf.nr();q++)for(int f=0;f<cf.n;f++) ref.at(dd,e,q)[f*cf.n+f]+=wave->em*(1+.2*e)*(1+.5*q)*(1+.3*f)*(1+std::sin(wave->k*x)); };
  agree(c,"before",s,cf,ref,1e-11*scale,"before"); s.EvolveState(); monitors(c,s,"terms"); double a=l.x0,b=l.x1; if(rev) std::swap(a,b); ref.go(l,a,b); double tol=(fast?1e-6:exact?(l.smooth?1e-4:4e-4):5e-3)*scale; double top=scale; for(int e=0;e<cf.ne();e++)for(int q=0;q<cf.nr();q++)for(int f=0;f<cf.n;f++) top=std::max(top,std::fabs(ref.weight(e,q,f))); agree(c,"after",s,cf,ref,tol*top/scale,"after");
  if(t->ns){ Terms q=*t; for(int e=0;e<cf.ne();e++)for(int k=0;k<t->ns;k++) c.near("scalar",s.scalar(e,k),scalarRef(q,e,k,l,s0[e*t->ns+k],a,b),1e-4,l.smooth?1e-4:1e-3,fmt("scalar %d at energy %d",k,e)); }
  c.check("asked",fast||(s.hi>0&&(!t->rho()||s.gam>0)&&(!t->other()||s.oth>0)&&(!t->ns||s.sc>0)),fmt("HI %ld, GammaRho %ld, InteractionsRho %ld, scalars %ld",s.hi,s.gam,s.oth,s.sc)); count(c,*t); if(fast) c.count("fast"); if(inter) c.count("with-interactions"); if(!osc) c.count("without-oscillations"); if(massb) c.count("mass-basis"); c.nontrivial(d); c.sample(d); }
// the terms change, the basis changes, the object is moved
VH_GROUP("history",300,5000){
  Rng& r=c.rng; bool inter=r.coin(.3); Leg l0=anyLeg(r,inter,4); double L0=l0.x1-l0.x0; Conf cf=inter?hot(r,L0,3,NTS[r.in(0,2)]):conf(r,L0,4); World w=World::make(r,cf.E[cf.ne()/2],column(l0),L0,.3); auto mk=[&](Leg& l){ auto t=std::make_shared<Terms>(Terms::make(r,cf,L0,l.x0,0)); double m=maxrho(l); for(auto& g:t->gf) g/=m; t->ns=0; if(!t->rho()&&!t->other()) t->hc=true; return t; };
  auto t=mk(l0); std::unique_ptr<User> s(new User); build(*s,cf,inter,w.lib,t); s->Set_NonCoherentRhoTerms(true); s->Set_OtherRhoTerms(true); bool h0=t->h0; Inter I(cf,w); bool osc=true; settings(r,*s,1,L0); s->Set_Body(l0.body); s->Set_Track(l0.track()); D v=start(r,cf); set(*s,cf,v,true); Ref ref(cf); ref.tol=1e-8; ref.unit=1; ref.set(v,true); ref.extra=[&](double x,const M& y,M& dd,double rho,double ye){ (*t)(ref,x,y,dd,rho,ye,osc); if(inter) I(ref,y,dd,rho,ye); }; double tol=1e-9; std::string log=cf.str()+": "; bool first=true,massb=false; auto top=[&]{ double m=1; for(int e=0;e<cf.ne();e++)for(int q=0;q<cf.nr();q++)for(int f=0;f<cf.n;f++) m=std::max(m,std::fabs(ref.weight(e,q,f))); return m; };
  for(int i=0,ops=r.in(5,9),legs=0;i<ops;i++){ switch(r.in(0,6)){
      case 0: massb=!massb; s->Set_Basis(massb?mass:interaction); log+=massb?"mass ":"interaction "; c.count("basis-changes"); break;
      case 1: osc=!osc; s->Set_IncludeOscillations(osc); ref.osc=osc; log+=osc?"oscillations ":"no-oscillations "; break;
      case 2: { auto q=mk(l0); q->h0=h0; q->dh=t->dh; t=q; s->use(t); s->Set_NonCoherentRhoTerms(true); s->Set_OtherRhoTerms(true); log+="terms["+t->str()+"] "; c.count("new-terms"); break; }
      case 3: { if(r.coin()) { std::unique_ptr<User> q(new User(std::move(*s))); s=std::move(q); } else { std::unique_ptr<User> q(new User); *q=std::move(*s); s=std::move(q); } log+="moved "; c.count("moves"); break; }
      default: { if(legs++>2) break; Leg k=l0; for(int q=0;q<30&&!first;q++){ k=anyLeg(r,inter,4); double L=k.x1-k.x0; if(L<2*L0&&L>.02*L0&&cf.big*L/2/cf.E[0]<10) break; k=l0; } first=false; double m=maxrho(k); { auto q=std::make_shared<Terms>(*t); for(auto& g:q->gf) g=r.uni(0,1)/m/(k.x1-k.x0); t=q; s->use(t); } log+="["+k.how+"] "; c.desc(log); s->Set_Body(k.body); s->Set_Track(k.track()); s->Set_h_max((k.x1-k.x0)/10); s->haveOff=false; s->EvolveState(); monitors(c,*s,"history"); ref.go(k); tol+=w.exact||!inter?(k.smooth?1e-4:4e-4):5e-3; agree(c,"history",*s,cf,ref,tol*3*top(),"after "+k.how); count(c,*t); c.count("legs"); } }
    if(!first) agree(c,"kept",*s,cf,ref,tol*3*top(),"after "+log.substr(log.size()>30?log.size()-30:0)); }
  c.nontrivial(log); c.sample(log); }
// what GetHamiltonian says is what the class evolves by
VH_GROUP("hamiltonian",500,6000){
  Rng& r=c.rng; Leg l=anyLeg(r,false,5); double L=l.x1-l.x0; Conf cf=conf(r,L,5); auto t=std::make_shared<Terms>(Terms::make(r,cf,L,l.x0,0)); t->ns=0; User s; build(s,cf,false,nullptr,t); bool osc=!r.coin(.2),massb=r.coin(.4); if(massb) s.Set_Basis(mass); s.Set_IncludeOscillations(osc); settings(r,s,1,L); s.Set_Body(l.body); s.Set_Track(l.track()); set(s,cf,start(r,cf),true); std::string d=cf.str()+"; "+l.how+"; "+t->str(); c.desc(d); bool after=r.coin(.4); if(after) s.EvolveState(); double x=after?l.x1:l.x0,T=s.Get_t()-s.Get_t_initial(); c.near("position",s.where(),x,1e-12,1e-9*L,"where the track is"); x=s.where(); double rho,ye; { auto p=l.track(); p->SetX(x); rho=l.body->density(*p); ye=l.body->ye(*p); }
  Ref ref(cf); ref.osc=osc; for(int e=0;e<cf.ne();e++)for(int q=0;q<cf.nr();q++){ M H(cf.n*cf.n); ref.hamiltonian(e,q,rho,ye,H.data()); double sg=cf.anti(q)?-1:1,V=Ref::Vunit()*rho*ye; for(int i=0;i<cf.n*cf.n;i++){ if(t->hc) H[i]+=t->ec(e)*t->XC[q][i]; if(t->hv) H[i]+=sg*t->eps*V*t->XV[q][i]; if(t->hx) H[i]+=t->ex(x)*t->XX[q][i]; } M m=t->inMass(q,H); D w(cf.n); for(int i=0;i<cf.n;i++){ w[i]=osc?.5*cf.dm[i]/cf.E[e]+(t->h0?t->dh[i]*t->E[0]/cf.E[e]:0):0; if(osc&&t->h0) m[i*cf.n+i]+=t->dh[i]*t->E[0]/cf.E[e]; } if(!massb&&osc) for(int i=0;i<cf.n;i++)for(int j=0;j<cf.n;j++) m[i*cf.n+j]*=std::polar(1.,(w[i]-w[j])*T);
    M g(cf.n*cf.n); s.GetHamiltonian(e,q).tomat(g.data()); double big=0; for(auto& z:m) big=std::max(big,std::abs(z)); double mx=0; for(int i=0;i<cf.n*cf.n;i++) mx=std::max(mx,std::abs(g[i]-m[i])); c.check("matrix",mx<=1e-8*big,fmt("energy %d rho %d: off by %g of %g",e,q,mx,big)); c.count("matrices"); }
  monitors(c,s,"hamiltonian"); if(after) c.count("after-evolution"); c.nontrivial(d); c.sample(d); }
// ensembles of such objects
VH_GROUP("ensemble",120,2000){
  Rng& r=c.rng; bool inter=r.coin(.25); double L=13000*K.km; Conf cf=inter?hot(r,L,3,NTS[r.in(0,2)]):conf(r,L,4,true); World w=World::make(r,cf.E[cf.ne()/2],4,L,.3); int n=r.in(2,4); D cz; for(int i=0;i<n;i++) cz.push_back(-1+2*(i+r.uni(.1,.9))/n); marray<double,1> C{(size_t)n},E{cf.E.size()}; std::copy(cz.begin(),cz.end(),C.begin()); std::copy(cf.E.begin(),cf.E.end(),E.begin());
  auto t=std::make_shared<Terms>(Terms::make(r,cf,L,0,0)); for(auto& g:t->gf) g/=13; t->ns=0; typedef nuSQUIDSAtm<User> A; std::unique_ptr<A> a; std::unique_ptr<CrossSectionLibrary> none; a.reset(new A(C,E,(unsigned)cf.n,cf.nt,inter,w.lib,t)); bool osc=!r.coin(.2); int thr=r.in(1,4); double rel=r.logu(1e-7,1e-5),hm=r.uni(200,1000)*K.km; std::vector<std::unique_ptr<User>> m; auto earth=std::make_shared<EarthAtm>(); std::string d=cf.str()+fmt(" %d angles, %d threads%s; ",n,thr,inter?", interactions":"")+t->str(); c.desc(d);
  auto prep=[&](auto& s){ for(int j=1;j<cf.n;j++){ for(int i=0;i<j;i++){ s.Set_MixingAngle(i,j,cf.th[i][j]); s.Set_CPPhase(i,j,cf.dl[i][j]); } s.Set_SquareMassDifference(j,cf.dm[j]); } s.Set_rel_error(rel); s.Set_abs_error(rel*1e-2); s.Set_h_max(hm); s.Set_IncludeOscillations(osc); }; prep(*a); a->Set_EvalThreads(thr); std::vector<D> v; for(int k=0;k<n;k++) v.push_back(start(r,cf)); if(cf.nt!=both){ marray<double,3> x{(size_t)n,cf.E.size(),(size_t)cf.n}; auto p=x.begin(); for(auto& z:v) p=std::copy(z.begin(),z.end(),p); a->Set_initial_state(x,flavor); } else { marray<double,4> x{(size_t)n,cf.E.size(),(size_t)2,(size_t)cf.n}; auto p=x.begin(); for(auto& z:v) p=std::copy(z.begin(),z.end(),p); a->Set_initial_state(x,flavor); }
  for(int k=0;k<n;k++){ m.emplace_back(new User(E,(unsigned)cf.n,cf.nt,inter,w.lib,t)); prep(*m[k]); m[k]->Set_Body(earth); m[k]->Set_Track(std::make_shared<EarthAtm::Track>(earth->MakeTrackWithCosine(cz[k]))); set(*m[k],cf,v[k],true); }
  int rounds=r.coin(.3)?2:1; for(int q=0;q<rounds;q++){ if(q){ if(r.coin()){ std::unique_ptr<A> b(new A(std::move(*a))); a=std::move(b); c.count("moved-ensembles"); } else { auto u=std::make_shared<Terms>(Terms::make(r,cf,L,0,0)); for(auto& g:u->gf) g/=13; u->ns=0; u->h0=t->h0; u->dh=t->dh; for(auto& s:a->GetnuSQuIDS()) s.use(u); for(auto& s:m) s->use(u); c.count("ensemble-new-terms"); } }
    for(auto& s:a->GetnuSQuIDS()) s.haveOff=false; a->EvolveState(); for(auto& s:m){ s->haveOff=false; s->EvolveState(); } for(auto& s:a->GetnuSQuIDS()) monitors(c,s,"ensemble"); for(int k=0;k<n;k++)for(int e=0;e<cf.ne();e++)for(int q2=0;q2<cf.nr();q2++)for(int f=0;f<cf.n;f++) c.near("member",a->GetnuSQuIDS(k).EvalFlavorAtNode(f,e,q2),m[k]->EvalFlavorAtNode(f,e,q2),1e-9,1e-9,fmt("flavour %d energy %d rho %d angle %d",f,e,q2,k)); }
  if(r.coin(.5)){ for(int k=0;k<n;k++) a->GetnuSQuIDS()[k].tag=k+.25+cf.n; std::string f=c.tmp+"/e.h5"; a->WriteStateHDF5(f); A b(f); for(int k=0;k<n;k++) c.near("tag",b.GetnuSQuIDS(k).tag,k+.25+cf.n,0,0,fmt("what the class wrote for angle %d",k)); c.count("restored"); unlink(f.c_str()); }
  c.count("ensembles"); count(c,*t); c.nontrivial(d); c.sample(d); }
