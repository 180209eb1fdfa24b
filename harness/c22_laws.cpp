// C22: conservation, linearity, composition, reversal, separate sectors; and histories of one object followed by the reference.
#include "evo.h"
using vh::Ctx; using namespace ev;
static D contents(const NS& s,const Conf& cf){ D o; for(int e=0;e<cf.ne();e++)for(int r=0;r<cf.nr();r++)for(int f=0;f<cf.n;f++) o.push_back(flav(s,cf,f,e,r)); return o; }
static void same(Ctx& c,const char* key,const D& a,const D& b,double tol,const std::string& what){ for(size_t i=0;i<a.size();i++) c.near(std::string("laws/")+key,a[i],b[i],0,tol,fmt("%s, entry %zu",what.c_str(),i)); }
static void tune(Rng& r,NS& s,double scale,std::string& how){ std::string nm; s.Set_GSL_step(stepper(r,&nm)); s.Set_rel_error(1e-9); s.Set_abs_error(1e-9*scale); s.Set_h(r.logu(1e-3,10)*K.km*(r.coin(.2)?-1:1)); if(r.coin(.3)) s.Set_h_max(r.logu(50,1e5)*K.km); how+=nm+" "; if(r.coin(.35)){ s.Set_Basis(mass); how+="mass "; } bool f=r.coin(.4); s.Set_AllowConstantDensityOscillationOnlyEvolution(f); if(f) how+="fast "; }
static void walk(NS& s,std::shared_ptr<Body> b,std::shared_ptr<Track> t,bool order){ if(order){ s.Set_Body(b); s.Set_Track(t); } else { s.Set_Track(t); s.Set_Body(b); } }
static double sizes(Ctx& c,const char* when,const NS& s,const Conf& cf,const D& v,double tol){ for(int e=0;e<cf.ne();e++)for(int r=0;r<cf.nr();r++){ double w=0,m=0,g=0; for(int f=0;f<cf.n;f++){ double q=flav(s,cf,f,e,r),p=massc(s,cf,f,e,r); w+=v[(e*cf.nr()+r)*cf.n+f]; m+=p; g+=q; } for(int f=0;f<cf.n;f++){ double q=flav(s,cf,f,e,r),p=massc(s,cf,f,e,r); c.check("laws/range",q>=-tol&&q<=w+tol&&p>=-tol&&p<=w+tol,fmt("%s: flavour %.12g or mass state %.12g of %d outside [0,%g]",when,q,p,f,w)); } c.near("laws/total",g,w,0,tol,fmt("%s energy %d rho %d, flavours",when,e,r)); c.near("laws/total",m,w,0,tol,fmt("%s energy %d rho %d, mass states",when,e,r)); } return 0; }
VH_GROUP("laws",300,6000){
  Rng& r=c.rng; Leg l=leg(r,r.in(0,NLEG-1),20); Conf cf=conf(r,l.x1-l.x0,15); double scale=r.coin(.6)?1:r.logu(1e-8,1e8),tol=(l.smooth?4e-5:2e-4)*scale*cf.n; bool fl=r.coin(.7); D v=start(r,cf,scale); std::string how;
  NS s; cf.build(s); tune(r,s,scale,how); walk(s,l.body,l.track(),r.coin()); set(s,cf,v,fl); c.desc(cf.str()+"; "+l.how+"; "+how); D begin=contents(s,cf); std::vector<double> purity; for(int e=0;e<cf.ne();e++)for(int q=0;q<cf.nr();q++) purity.push_back(s.GetState(e,q)*s.GetState(e,q));
  s.EvolveState(); D end=contents(s,cf); sizes(c,"after",s,cf,v,tol); for(int e=0;e<cf.ne();e++)for(int q=0;q<cf.nr();q++) c.near("laws/purity",s.GetState(e,q)*s.GetState(e,q),purity[e*cf.nr()+q],0,2*tol*scale*cf.n,"trace of the square");
  // there and back
  auto back=l.track(); back->ReverseTrack(); if(r.coin()){ std::string h2; tune(r,s,scale,h2); how+="| "+h2; } c.desc(cf.str()+"; "+l.how+"; "+how+" back"); walk(s,l.body,back,r.coin()); s.EvolveState(); same(c,"reversal",contents(s,cf),begin,3*tol,"back at the start"); c.count("reversals");
  if(r.coin(.3)){ auto again=l.track(); walk(s,l.body,again,true); s.EvolveState(); same(c,"reversal-again",contents(s,cf),end,4*tol,"there again"); }
  // in pieces, with the settings changing between them
  if(l.sub){ NS p; std::string h; cf.build(p); tune(r,p,scale,h); int n=r.in(2,4); D cut{l.x0}; for(int i=1;i<n;i++) cut.push_back(r.uni(l.x0,l.x1)); cut.push_back(l.x1); std::sort(cut.begin(),cut.end()); walk(p,l.body,l.sub(cut[0],cut[1]),r.coin()); set(p,cf,v,fl);
    for(int i=0;i<n;i++){ if(i){ h+="/ "; if(r.coin()) tune(r,p,scale,h); walk(p,l.body,l.sub(cut[i],cut[i+1]),r.coin()); } p.EvolveState(); c.near("laws/position",p.GetTrack()->GetX(),cut[i+1],1e-9,1e-9*std::fabs(l.x1-l.x0),"end of a piece"); }
    c.desc(cf.str()+"; "+l.how+"; pieces "+h); same(c,"composition",contents(p,cf),end,2*tol*(cf.n),"pieces: "+h); sizes(c,"pieces",p,cf,v,tol*2); c.count("compositions"); }
  // linear
  { D w=start(r,cf,scale),m; double a=r.uni(.1,1),b=r.uni(.1,1); for(size_t i=0;i<v.size();i++) m.push_back(a*v[i]+b*w[i]); D o[2]; for(int k=0;k<2;k++){ NS q; std::string h; cf.build(q); tune(r,q,scale,h); walk(q,l.body,l.track(),r.coin()); set(q,cf,k?m:w,fl); q.EvolveState(); o[k]=contents(q,cf); } D want; for(size_t i=0;i<v.size();i++) want.push_back(a*end[i]+b*o[0][i]); same(c,"linear",o[1],want,3*tol,"mixture"); }
  // each type on its own, and an empty sector stays empty
  if(cf.nt==both){ int keep=r.in(0,1); D w=v; for(int e=0;e<cf.ne();e++)for(int f=0;f<cf.n;f++) w[(e*2+1-keep)*cf.n+f]=0; NS q; std::string h; cf.build(q); tune(r,q,scale,h); walk(q,l.body,l.track(),true); set(q,cf,w,fl); q.EvolveState(); for(int e=0;e<cf.ne();e++)for(int f=0;f<cf.n;f++){ c.check("laws/sectors",q.EvalFlavorAtNode(f,e,1-keep)==0,fmt("an empty sector holds %g",q.EvalFlavorAtNode(f,e,1-keep))); c.near("laws/sectors",q.EvalFlavorAtNode(f,e,keep),end[(e*2+keep)*cf.n+f],0,2*tol,"with the other one empty"); }
    Conf o=cf; o.nt=keep?antineutrino:neutrino; NS z; o.build(z); tune(r,z,scale,h); walk(z,l.body,l.track(),true); D u; for(int e=0;e<cf.ne();e++)for(int f=0;f<cf.n;f++) u.push_back(v[(e*2+keep)*cf.n+f]); set(z,o,u,fl); z.EvolveState(); for(int e=0;e<cf.ne();e++)for(int f=0;f<cf.n;f++) c.near("laws/sectors",z.EvalFlavorAtNode(f,e),end[(e*2+keep)*cf.n+f],0,2*tol,"alone"); c.count("sectors"); }
  c.nontrivial(cf.str()+l.how); }
// one object, many operations; the reference keeps up
VH_GROUP("history",400,8000){
  Rng& r=c.rng; Leg l=leg(r,r.in(0,NLEG-1),6); Conf cf=conf(r,l.x1-l.x0,6); double scale=r.coin()?1:r.logu(1e-8,1e8); NS s; cf.build(s); std::string log; tune(r,s,scale,log); Ref ref(cf); walk(s,l.body,l.track(),r.coin()); D v=start(r,cf,scale); bool fl=r.coin(.7); set(s,cf,v,fl); ref.set(v,fl); int ops=r.in(4,9),evolved=0; double tol=0; bool pos=false; Conf* C=&cf; bool osc=true;
  auto compare=[&](const char* when){ for(int e=0;e<C->ne();e++)for(int q=0;q<C->nr();q++)for(int f=0;f<C->n;f++){ double w=ref.weight(e,q,f),m=ref.mass(e,q,f),t=(tol+1e-12)*scale; c.near("history/flavour",flav(s,*C,f,e,q),w,0,t,fmt("flavour %d energy %d rho %d %s",f,e,q,when)); c.near("history/mass",massc(s,*C,f,e,q),m,0,t,fmt("mass state %d energy %d rho %d %s",f,e,q,when)); if(!C->single){ c.near("history/by-energy",s.EvalFlavor(f,C->E[e],q),w,0,t+1e-9*scale,fmt("flavour %d energy %d rho %d %s",f,e,q,when)); c.near("history/by-energy",s.EvalMass(f,C->E[e],q),m,0,t+1e-9*scale,fmt("mass state %d energy %d rho %d %s",f,e,q,when)); } } };
  auto phase=[&](Leg& k){ return cf.big*(k.x1-k.x0)/2/cf.E[0]; };
  for(int i=0;i<ops;i++){ int op=r.in(0,9); if(i==0) op=0;
    switch(op){ case 0: case 1: case 2: case 3: { c.desc(cf.str()+"; "+log+" "+l.how); bool rev=i>0&&r.coin(.2); auto t=l.track(); double a=l.x0,b=l.x1; if(rev){ t->ReverseTrack(); std::swap(a,b); log+="reversed "; } if(i>0){ if(r.coin(.3)&&l.body==s.GetBody()) s.Set_Track(t); else walk(s,l.body,t,r.coin()); } if(pos){ s.Set_PositivityConstrainStep(std::fabs(b-a)/r.uni(.5,6)); } s.EvolveState(); evolved++; if(osc||!ref.matter) ref.go(l,a,b); else ref.go(l,a,b); log+="evolve["+l.how+"] "; tol+=((l.smooth?4e-5:2e-4)+(l.constant?0:0))*cf.n; compare("after evolving"); c.count("evolved"); c.near("history/position",s.GetTrack()->GetX(),b,1e-9,1e-9*std::fabs(b-a),"end"); Leg nl=leg(r,r.in(0,NLEG-1),6); if(phase(nl)<12) l=nl; break; }
      case 4: { Basis b=r.coin()?mass:interaction; s.Set_Basis(b); log+=b==mass?"mass-basis ":"interaction-basis "; compare("after choosing the basis"); c.count("basis-changes"); break; }
      case 5: { bool f=r.coin(); s.Set_AllowConstantDensityOscillationOnlyEvolution(f); log+=f?"fast ":"slow "; break; }
      case 6: { osc=!osc; s.Set_IncludeOscillations(osc); ref.osc=osc; log+=osc?"oscillations ":"no-oscillations "; compare("after switching oscillations"); c.count("oscillation-switches"); break; }
      case 7: { if(r.coin()){ s.Set_MixingAngle(0,1,cf.th[0][1]=r.uni(0,1.5)); s.Set_CPPhase(0,2,cf.dl[0][2]=r.uni(0,6)); s.Set_SquareMassDifference(1,cf.dm[1]=cf.dm[1]*r.uni(.3,1)); ref.setup(); log+="remixed "; c.check("history/invalidated",vh::throws([&]{ s.EvolveState(); })==1,"evolved a state of other mixing parameters"); } v=start(r,cf,scale); fl=r.coin(.7); walk(s,l.body,l.track(),r.coin()); set(s,cf,v,fl); ref.set(v,fl); tol=0; log+="restart "; compare("at the start"); auto t=l.track(); s.EvolveState(); ref.go(l); tol+=(l.smooth?4e-5:2e-4)*cf.n; log+="evolve["+l.how+"] "; compare("after a restart"); Leg nl=leg(r,r.in(0,NLEG-1),6); if(phase(nl)<12) l=nl; break; }
      case 8: { pos=!pos; s.Set_PositivityConstrain(pos); log+=pos?"positive ":"free "; break; }
      default: { std::string h; tune(r,s,scale,h); log+="("+h+") "; compare("after settings"); } } }
  c.nontrivial(cf.str()+log); c.sample(cf.str()+"; "+log); }
