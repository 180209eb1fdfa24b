// C23: attenuation and redistribution by the supplied cross sections, against the reference with its own cross sections.
#include "inter.h"
using vh::Ctx; using namespace ev;
struct Setting{ bool tau=false,gr=false,osc=true; };
static void tables(Ctx& c,const NS& s,Inter& I,const Conf& cf,bool gr,bool exact){ auto t=s.GetInteractionStructure(); double tol=exact?1e-9:4e-3; int nt=I.nt,ne=I.ne; if(!c.check("interact/targets",(int)t->targets.size()==nt&&(int)t->sigma_CC.extent(0)==nt,"number of targets")) return; auto cmp=[&](const char* what,double g,double w,double top){ c.near("interact/tables",g,w,tol,exact?0:4e-3*top,what); };
  for(int k=0;k<nt;k++)for(int r=0;r<I.nr;r++)for(int f=0;f<cf.n;f++)for(int e=0;e<ne;e++){ cmp("total charged current",t->sigma_CC[k][r][f][e],f<3?I.S(I.sCC,k,r,f)[e]:0,0); cmp("total neutral current",t->sigma_NC[k][r][f][e],f<3?I.S(I.sNC,k,r,f)[e]:0,0); double tc=0,tn=0; if(f<3) for(int q=0;q<e;q++){ tc=std::max(tc,I.S(I.nCC,k,r,f)[e*ne+q]); tn=std::max(tn,I.S(I.nNC,k,r,f)[e*ne+q]); } for(int q=0;q<ne;q++){ cmp("charged current spectrum",t->dNdE_CC[k][r][f][e][q],f<3?I.S(I.nCC,k,r,f)[e*ne+q]:0,tc); cmp("neutral current spectrum",t->dNdE_NC[k][r][f][e][q],f<3?I.S(I.nNC,k,r,f)[e*ne+q]:0,tn); } }
  if(gr&&cf.nt!=neutrino) for(int e=0;e<ne;e++){ cmp("total resonance",t->sigma_GR[e],I.sGR[e],0); double tg=0; for(int q=0;q<e;q++) tg=std::max(tg,I.nGR[e*ne+q]); for(int q=0;q<ne;q++) cmp("resonance spectrum",t->dNdE_GR[e][q],I.nGR[e*ne+q],tg); }
  for(int r=0;r<I.nr;r++)for(int e=0;e<ne;e++)for(int q=0;q<e;q++){ c.near("interact/tables",t->dNdE_tau_all[r][e][q],I.all[r][e*ne+q],1e-9,0,"tau decays"); c.near("interact/tables",t->dNdE_tau_lep[r][e][q],I.lep[r][e*ne+q],1e-9,0,"leptonic tau decays"); } c.count("tables"); }
static D spectrum(Rng& r,const Conf& c,double scale){ D v; int top=r.coin(.3)?r.in(0,c.ne()-1):99; double g=r.uni(0,3); bool pure=r.coin(.2); int pf=r.in(0,c.n-1); int only=r.coin(.2)?r.in(0,1):-1; int line=r.coin(.15)?r.in(0,c.ne()-1):-1; for(int e=0;e<c.ne();e++)for(int q=0;q<c.nr();q++)for(int f=0;f<c.n;f++) v.push_back(e>top||(pure&&f!=pf)||(only>=0&&c.nr()==2&&q!=only)||(line>=0&&e!=line)?0:scale*r.uni(.1,1)*std::pow(c.E[e]/c.E[0],-g)); return v; }
static void agree(Ctx& c,const char* key,const NS& s,const Conf& cf,const Ref& ref,double tol,double scale){ for(int e=0;e<cf.ne();e++)for(int r=0;r<cf.nr();r++)for(int f=0;f<cf.n;f++) c.near(std::string("interact/")+key,flav(s,cf,f,e,r),ref.weight(e,r,f),2e-4,tol*scale,fmt("flavour %d energy %d rho %d",f,e,r)); }
// splines through a table may overshoot below zero: such media are left out, the number of targets in them is nobody's promise
static bool sound(Leg& l){ for(int i=0;i<=600;i++){ double rho,ye; l.at(l.x0+i/600.*(l.x1-l.x0),rho,ye); if(rho<0||ye<0||ye>1) return false; } return true; }
// memory which the library says is aligned is aligned
static void kept(Ctx& c){ c.count("alignment-promises",squids::monitor::promises().exchange(0)); c.check("interact/alignment",squids::monitor::broken().load()==0,"memory declared aligned to the vector library is not"); squids::monitor::broken()=0; }
static Leg place(Rng& r,double& L){ Leg l; do l=leg(r,r.coin(.1)?LVAC:r.in(LCON,LEARTH),8); while(l.x1-l.x0<100*K.km||!sound(l)); L=l.x1-l.x0; return l; }
static double column(Leg& l){ double s=0; for(int i=0;i<64;i++){ double rho,ye; l.at(l.x0+(i+.5)/64*(l.x1-l.x0),rho,ye); s+=rho/64; } return s>0?s:1; }
static void attenuated(Ctx& c,Leg l,double L,double rho0,bool many=false){
  Rng& r=c.rng; Conf cf=hot(r,L,r.coin(.3)?0.2:6,NTS[r.in(0,2)]); double depth=r.logu(.03,4); if(many){ double e0=cf.E[0],top=r.logu(3,1e3); int ne=r.in(257,270); cf.E.clear(); for(int i=0;i<ne;i++) cf.E.push_back(e0*std::pow(top,double(i)/(ne-1))); } World w=World::make(r,cf.E[cf.ne()/2],rho0,L,depth); while(many&&!w.exact) w=World::make(r,cf.E[cf.ne()/2],rho0,L,depth); if(many) c.count("many-energies"); Inter I(cf,w); Setting o; o.osc=r.coin(.65); I.tau=o.tau=cf.nt==both&&r.coin(.6); I.gr=o.gr=r.coin(.5); double scale=r.coin(.6)?1:r.logu(1e-12,1e8); D v=spectrum(r,cf,scale); bool fl=!o.osc||r.coin(.8);
  std::string d=cf.str()+"; "+l.how+fmt("; depth %g, %s, %s%s%s%s",depth,w.perNucleon?"p+n":"isoscalar",w.exact?"exact":"quadrature",o.osc?"":", no oscillations",o.tau?", tau regeneration":"",o.gr?", resonance":""); c.desc(d);
  Ref ref(cf); ref.osc=o.osc; ref.tol=1e-8; ref.set(v,fl); ref.extra=[&](double,const std::vector<Z>& y,std::vector<Z>& q,double rho,double ye){ I(ref,y,q,rho,ye); }; ref.go(l);
  NS s; cf.build(s,true,w.lib); s.Set_TauRegeneration(o.tau); s.Set_GlashowResonance(o.gr); s.Set_IncludeOscillations(o.osc); std::string nm; s.Set_GSL_step(stepper(r,&nm)); s.Set_rel_error(1e-7); s.Set_abs_error(1e-9*scale); s.Set_h(std::min(L,r.logu(.01,10)*std::max(K.km,L*1e-4))); if(r.coin(.3)) s.Set_Basis(mass); bool pos=r.coin(.2); if(pos){ s.Set_PositivityConstrain(true); s.Set_PositivityConstrainStep(L/r.uni(.5,9)); } s.Set_Body(l.body); s.Set_Track(l.track()); set(s,cf,v,fl); s.EvolveState();
  tables(c,s,I,cf,o.gr,w.exact); double tol=w.exact?(l.smooth?1e-4:3e-4):4e-3; agree(c,o.osc?"oscillating":"not-oscillating",s,cf,ref,tol,scale);
  for(int e=0;e<cf.ne();e++)for(int q=0;q<cf.nr();q++)for(int f=0;f<cf.n;f++){ double g=flav(s,cf,f,e,q); c.check("interact/negative",g>=-1e-5*scale,fmt("flux %g of flavour %d",g,f)); }
  { int top=-1; for(int e=0;e<cf.ne();e++)for(int i=0;i<cf.nr()*cf.n;i++) if(v[e*cf.nr()*cf.n+i]) top=e; for(int e=top+1;e<cf.ne();e++)for(int q=0;q<cf.nr();q++)for(int f=0;f<cf.n;f++) c.check("interact/above",flav(s,cf,f,e,q)==0,fmt("flux %g above the highest energy with flux",flav(s,cf,f,e,q))); if(top<cf.ne()-1) c.count("truncated-spectra"); }
  // in pieces with the same object it is the same
  if(l.sub&&r.coin(.3)){ NS p; cf.build(p,true,w.lib); p.Set_TauRegeneration(o.tau); p.Set_GlashowResonance(o.gr); p.Set_IncludeOscillations(o.osc); p.Set_rel_error(1e-7); p.Set_abs_error(1e-9*scale); double m=r.uni(l.x0,l.x1); p.Set_Body(l.body); p.Set_Track(l.sub(l.x0,m)); set(p,cf,v,fl); p.EvolveState(); p.Set_Track(l.sub(m,l.x1)); p.EvolveState(); agree(c,"pieces",p,cf,ref,tol,scale); c.count("pieces"); }
  c.count(o.osc?"oscillating":"not-oscillating"); if(o.tau) c.count("tau-regeneration"); if(o.gr&&cf.nt!=neutrino) c.count("resonance"); c.count(w.perNucleon?"proton-neutron":"isoscalar"); kept(c); c.nontrivial(d); c.sample(d); }
VH_GROUP("attenuation",400,6000){ double L; Leg l=place(c.rng,L); attenuated(c,l,L,column(l)); }
// more energies than 8 bits count
VH_GROUP("many",3,40){ double L; Leg l=place(c.rng,L); while(!l.constant) l=place(c.rng,L); attenuated(c,l,L,column(l),true); }
// next to nothing is next to nothing, over any distance
VH_GROUP("thin",120,2500){ Rng& r=c.rng; double L=r.logu(1e2,1e15)*K.km,rho=r.coin(.4)?0:r.logu(1e-28,1e-7),ye=r.coin(.2)?1:r.unit(); Leg l; l.x1=L; l.constant=true; int how=r.in(0,2); if(!how) rho=0;
  if(!how){ l.body=std::make_shared<Vacuum>(); l.track=[=]{ return std::make_shared<Vacuum::Track>(0,L); }; l.sub=[](double p,double q){ return std::make_shared<Vacuum::Track>(p,q); }; }
  else if(how==1){ l.body=std::make_shared<ConstantDensity>(rho,ye); l.track=[=]{ return std::make_shared<ConstantDensity::Track>(0,L); }; l.sub=[](double p,double q){ return std::make_shared<ConstantDensity::Track>(p,q); }; }
  else { double k=r.uni(.5,3)*M_PI/L,f=r.uni(0,6); l.body=std::make_shared<Wave>(rho,rho,k,f,ye*.5+.25,0); l.track=[=]{ return std::make_shared<Wave::Track>(0,0,L); }; l.sub=[](double p,double q){ return std::make_shared<Wave::Track>(p,p,q); }; l.constant=false; }
  l.how=fmt("%s rho %g ye %g over %g km",how==0?"vacuum":how==1?"constant":"wave",rho,ye,L/K.km); attenuated(c,l,L,std::max(rho,r.coin()?1e-10:1e-20)); c.count(rho==0?"empty":"thin"); }
// options, cross sections and states changing during the life of one object
VH_GROUP("options",300,5000){
  Rng& r=c.rng; double L; Leg l=place(r,L); Conf cf=hot(r,L,3,r.coin(.7)?both:NTS[r.in(0,1)]); World w=World::make(r,cf.E[cf.ne()/2],column(l),L,r.logu(.1,2)); w.exact=true; for(auto& x:w.nuc) if(!dynamic_cast<XA*>(x.get())) w.exact=false; std::unique_ptr<Inter> I(new Inter(cf,w)); std::vector<std::unique_ptr<World>> worlds; std::vector<std::unique_ptr<Inter>> old; D v=spectrum(r,cf,1); Ref ref(cf); ref.tol=1e-8; ref.set(v,true); ref.extra=[&](double,const std::vector<Z>& y,std::vector<Z>& q,double rho,double ye){ (*I)(ref,y,q,rho,ye); }; bool exact=w.exact,osc=true;
  NS s; cf.build(s,true,w.lib); s.Set_rel_error(1e-7); s.Set_abs_error(1e-9); s.Set_Body(l.body); s.Set_Track(l.track()); set(s,cf,v,true); std::string log; double tol=0; int ops=r.in(4,8); bool early=r.coin(.4); if(early){ s.InitializeInteractions(); log="initialized "; }
  for(int i=0;i<ops;i++){ int op=r.in(0,6); c.desc(cf.str()+"; "+l.how+"; "+log); switch(op){
    case 0: case 1: { log+="evolve "; c.desc(cf.str()+"; "+l.how+"; "+log); s.Set_Track(l.track()); s.EvolveState(); ref.go(l); tol+=exact?(l.smooth?1e-4:3e-4):5e-3; agree(c,"history",s,cf,ref,tol*2,1); tables(c,s,*I,cf,I->gr,exact); c.count("evolved"); break; }
    case 2: { bool b=r.coin(); if(cf.nt!=both){ c.check("interact/refused",vh::throws([&]{ s.Set_TauRegeneration(true); })==1,"tau regeneration for one type only"); break; } I->tau=b; s.Set_TauRegeneration(b); log+=b?"tau ":"no-tau "; c.count("toggled"); break; }
    case 3: { bool b=r.coin(); I->gr=b; s.Set_GlashowResonance(b); log+=b?"resonance ":"no-resonance "; c.count("toggled"); break; }
    case 4: { bool t=I->tau,g=I->gr; worlds.emplace_back(new World(World::make(r,cf.E[cf.ne()/2],column(l),L,r.logu(.1,2)))); exact=worlds.back()->exact; old.push_back(std::move(I)); I.reset(new Inter(cf,*worlds.back())); I->tau=t; I->gr=g; s.SetNeutrinoCrossSections(worlds.back()->lib); log+="new-cross-sections "; c.count("replaced"); break; }
    case 5: { osc=!osc; s.Set_IncludeOscillations(osc); ref.osc=osc; log+=osc?"oscillations ":"no-oscillations "; agree(c,"history",s,cf,ref,tol*2+1e-10,1); c.count("toggled"); break; }
    default: { v=spectrum(r,cf,1); s.Set_Track(l.track()); set(s,cf,v,true); ref.set(v,true); tol=0; log+="restart "; agree(c,"history",s,cf,ref,1e-10,1); } } }
  kept(c); c.nontrivial(cf.str()+l.how+log); c.sample(log); }
