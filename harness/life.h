// Lives of evolution objects: configurations, settings, legs, and calls which are refused (C26, C28).
#ifndef VH_LIFE_H
#define VH_LIFE_H
#include "obj.h"
struct Step{ std::string how; std::function<void(U&)> f; bool evolve=false; };
struct Life{ Conf cf; World w; bool inter=false; Leg l; double L=0,scale=1; std::string how; std::vector<Step> steps;
  std::unique_ptr<U> born() const { std::unique_ptr<U> u; if(cf.single) u.reset(new U((unsigned)cf.n,cf.nt)); else { marray<double,1> e{cf.E.size()}; std::copy(cf.E.begin(),cf.E.end(),e.begin()); u.reset(new U(e,(unsigned)cf.n,cf.nt,inter,w.lib)); } return u; }
  std::string str() const { std::string s; for(auto& x:steps) s+="; "+x.how; return how+s; } };
// settings which show in the results: coarse integration
static void settings(Rng& r,Life& o){ auto add=[&](const std::string& h,std::function<void(U&)> f){ o.steps.push_back({h,f,false}); }; double L=o.L; int n=r.in(0,7); bool gr=false; (void)gr; std::vector<int> ks; for(int i=0;i<n;i++) ks.push_back(r.in(0,15)); ks.push_back(16);
  for(int k:ks) switch(k){
    case 0: { bool b=r.coin(.7); add(b?"fast path":"no fast path",[=](U& u){ u.Set_AllowConstantDensityOscillationOnlyEvolution(b); }); break; }
    case 1: { double p=L/r.uni(1.5,9); add("positivity",[=](U& u){ u.Set_PositivityConstrainStep(p); u.Set_PositivityConstrain(true); }); break; }
    case 2: add("no positivity",[=](U& u){ u.Set_PositivityConstrain(false); }); break;
    case 3: { double q=r.logu(.01,100)/L,z=q*r.unit(); add("low-pass",[=](U& u){ u.Set_EvolLowPassCutoff(q); u.Set_EvolLowPassScale(z); }); break; }
    case 4: add("no low-pass",[=](U& u){ u.Set_EvolLowPassCutoff(0); u.Set_EvolLowPassScale(0); }); break;
    case 5: { double p=r.logu(1e-5,1e-1); add("integrator precision",[=](U& u){ u.Set_GSL_DifferentialCrossSection_Integrator_Precision(p); }); break; }
    case 6: { bool b=r.coin(); add("debug",[=](U& u){ u.Set_Debug(b); }); break; }
    case 7: { double t=r.uni(-5,5); add("tag",[=](U& u){ u.tag=t; }); break; }
    case 8: { bool b=r.coin(.7); add(b?"sources":"no sources",[=](U& u){ u.Set_NeutrinoSources(b); }); break; }
    case 9: { Basis b=r.coin()?mass:interaction; add(b==mass?"mass basis":"interaction basis",[=](U& u){ u.Set_Basis(b); }); break; }
    case 10: { bool b=r.coin(); add(b?"oscillations":"no oscillations",[=](U& u){ u.Set_IncludeOscillations(b); }); break; }
    case 11: { bool b=r.coin(.7); add(b?"tau":"no tau",[=](U& u){ u.Set_TauRegeneration(b); }); break; }
    case 12: { bool b=r.coin(.7); add(b?"resonance":"no resonance",[=](U& u){ u.Set_GlashowResonance(b); }); break; }
    case 13: if(o.inter) add("tables",[=](U& u){ u.InitializeInteractions(); }); break;
    case 14: break;
    case 15: { double hm=L/r.uni(4,20); add("h_max",[=](U& u){ u.Set_h_max(hm); }); break; }
    default: { auto st=stepper(r); bool ad=r.coin(.6); int ns=r.in(5,40); double rel=r.logu(1e-6,1e-2),ab=r.logu(1e-8,1e-4)*o.scale,h=L/r.uni(20,400),lo=1e-9*L*r.unit(),hm=L/r.uni(3,15); add(ad?"adaptive":"fixed steps",[=](U& u){ u.Set_GSL_step(st); if(ad){ u.Set_AdaptiveStep(true); u.Set_rel_error(rel); u.Set_abs_error(ab); u.Set_h_max(hm); u.Set_h(h); u.Set_h_min(lo); } else { u.Set_AdaptiveStep(false); u.Set_NumSteps(ns); u.Set_rel_error(1); u.Set_abs_error(1e3*ab/1e-8); } }); } } }
static double col(Leg& l){ double s=0; for(int i=0;i<64;i++){ double rho,ye; l.at(l.x0+(i+.5)/64*(l.x1-l.x0),rho,ye); s+=rho/64; } return s>0?s:1; }
static Life life(Rng& r){ Life o; o.inter=r.coin(.4); do o.l=anyLeg(r,o.inter,4); while(!sound(o.l)); o.L=o.l.x1-o.l.x0; if(o.inter) o.cf=hot(r,o.L,2,NTS[r.in(0,2)]); else { o.cf=conf(r,o.L,4); if(!o.cf.single&&r.coin(.1)) o.cf.E.resize(1); } o.w=World::make(r,o.cf.E[o.cf.ne()/2],col(o.l),o.L,r.logu(.1,1)); o.scale=r.coin(.7)?1:r.logu(1e-8,1e6); if(r.coin()) if(auto w=std::dynamic_pointer_cast<Wave>(o.l.body)) w->em=o.scale/o.L*r.uni(.1,1); o.how=o.cf.str()+(o.inter?" interacting ":" ")+o.l.how;
  auto add=[&](const std::string& h,std::function<void(U&)> f,bool ev=false){ o.steps.push_back({h,f,ev}); }; Conf cf=o.cf; double L=o.L; Leg l=o.l; if(cf.single) add("energy",[=](U& u){ u.Set_E(cf.E[0]); }); add("mixing",[=](U& u){ cf.mixing(u); }); settings(r,o); bool bad=r.coin(.1); auto body=[&]{ auto q=l.body; add("body",[=](U& u){ u.Set_Body(q); }); }; auto track=[&]{ Leg q=l; add("track",[=](U& u){ u.Set_Track(q.track()); }); }; auto init=[&]{ D v=start(r,cf,o.scale); bool fl=r.coin(.7); add("state",[=](U& u){ u.Set_IncludeOscillations(true); set(u,cf,v,fl); }); };
  if(r.coin(.9)){ body(); if(!bad) track(); init(); } else { init(); if(!bad||r.coin()) body(); track(); } if(r.coin(.4)) settings(r,o); add("evolve",[](U& u){ u.EvolveState(); },true);
  for(int k=r.in(0,3);k--;){ if(r.coin(.4)) settings(r,o); switch(r.in(0,4)){ case 0: if(l.sub){ double a=l.x0,b=l.x0+r.uni(.3,1)*(l.x1-l.x0); Leg q=l; add("part of the way",[=](U& u){ u.Set_Track(q.sub(a,b)); }); } else track(); break; case 1: track(); break; case 2: init(); break; case 3: if(!o.inter){ Leg m=leg(r,r.in(LVAC,LWAVE),4); if(m.x1-m.x0<3*L&&cf.big*(m.x1-m.x0)/2/cf.E[0]<20) add("then "+m.how,[=](U& u){ u.Set_Body(m.body); u.Set_Track(m.track()); }), l=m; } else { World w=World::make(r,cf.E[0],1,L,.1); add("cross sections",[=](U& u){ u.SetNeutrinoCrossSections(w.lib); }); } break; default: { double a=r.uni(.1,1); add("other mixing",[=](U& u){ u.Set_MixingAngle(0,1,a); }); init(); } } add("evolve",[](U& u){ u.EvolveState(); },true); }
  return o; }
static bool act(const Step& s,U& u,std::string& what){ int k=vh::throws([&]{ s.f(u); },&what); return k==0; }
#endif
