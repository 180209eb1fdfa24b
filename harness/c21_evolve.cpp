// C21: coherent evolution against an independent solution of the Schroedinger equation.
#include "evo.h"
using vh::Ctx; using namespace ev;
static void compare(Ctx& c,const std::string& key,const NS& s,const Conf& cf,const Ref& ref,double tol,double scale){
  for(int e=0;e<cf.ne();e++)for(int r=0;r<cf.nr();r++)for(int f=0;f<cf.n;f++){ double g=flav(s,cf,f,e,r); c.near("evolve/"+key+"/flavour",g,ref.weight(e,r,f),0,tol*scale,fmt("flavour %d energy %d rho %d",f,e,r)); c.near("evolve/"+key+"/mass",massc(s,cf,f,e,r),ref.mass(e,r,f),0,tol*scale,fmt("mass state %d energy %d rho %d",f,e,r)); } }
static void config(Rng& r,NS& s,double scale,double eps,std::string& how,bool forceAdaptive=false){ std::string nm; s.Set_GSL_step(stepper(r,&nm)); s.Set_rel_error(eps); s.Set_abs_error(eps*scale); s.Set_h(r.logu(1e-3,10)*K.km); if(r.coin(.3)) s.Set_h_max(r.logu(50,1e5)*K.km); if(r.coin(.3)) s.Set_h_min(1e-6*K.km); how=nm; if(r.coin(.3)){ s.Set_Basis(mass); how+=" mass basis"; } }
static void body(NS& s,Leg& l,Rng& r){ if(r.coin()){ s.Set_Body(l.body); s.Set_Track(l.track()); } else { s.Set_Track(l.track()); s.Set_Body(l.body); } }
static void readouts(Ctx& c,const NS& s,const Conf& cf,double scale){
  std::vector<bool> avr(cf.n); if(cf.single){ for(int f=0;f<cf.n;f++){ c.near("evolve/readout",s.EvalFlavor(f,1e300,avr),s.EvalFlavor(f),1e-12,1e-13*scale,"no averaging"); c.near("evolve/readout",s.EvalMass(f,1e300,avr),s.EvalMass(f),1e-12,1e-13*scale,"no averaging"); c.near("evolve/readout",s.EvalFlavorAtNode(f,0,0),s.EvalFlavor(f),1e-12,1e-13*scale,"node"); } return; }
  for(int e=0;e<cf.ne();e++)for(int r=0;r<cf.nr();r++)for(int f=0;f<cf.n;f++){ double a=s.EvalFlavorAtNode(f,e,r),m=s.EvalMassAtNode(f,e,r); c.near("evolve/readout",s.EvalFlavor(f,cf.E[e],r),a,1e-9,1e-10*scale,"by energy"); c.near("evolve/readout",s.EvalFlavor(f,cf.E[e],r,1e300,avr),a,1e-9,1e-10*scale,"by energy, no averaging"); c.near("evolve/readout",s.EvalMass(f,cf.E[e],r),m,1e-9,1e-10*scale,"mass by energy"); c.near("evolve/readout",s.EvalMass(f,cf.E[e],r,1e300,avr),m,1e-9,1e-10*scale,"mass by energy, no averaging"); } }
// reading out with the fast oscillations averaged: those pairs of mass states whose phase since the start is above the scale do not interfere
static void averages(Ctx& c,const NS& s,const Conf& cf,Rng& r,double scale){ int n=cf.n; double t=s.Get_t()-s.Get_t_initial(); for(int k=0;k<6;k++){ int e=r.in(0,cf.ne()-1),q=r.in(0,cf.nr()-1),f=r.in(0,n-1); double base=cf.big/2/cf.E[e]*t,cut=r.coin(.2)?0:base*r.logu(1e-3,2); auto u=cf.U(q); const auto& st=s.GetState(e,q); double want[2]={0,0}; int gone=0,kept=0; bool firm=true;
    for(int i=0;i<n;i++)for(int j=0;j<n;j++){ double ph=s.basis==mass?0:(cf.dm[i]-cf.dm[j])/2/cf.E[e]*t; if(i!=j){ if(std::fabs(std::fabs(ph)-cut)<1e-6*std::fabs(cut)&&ph) firm=false; if(std::fabs(ph)>cut){ gone++; continue; } kept+=ph!=0; } Z m=Z(st.get(i,j))*std::polar(1.,-ph); want[0]+=std::real(u[f*n+i]*m*std::conj(u[f*n+j])); if(i==f&&j==f) want[1]+=m.real(); } if(!firm) continue;
    for(int w=0;w<2;w++){ std::vector<bool> avr(n); double g=cf.single?(w?s.EvalMass(f,cut,avr):s.EvalFlavor(f,cut,avr)):(w?s.EvalMass(f,cf.E[e],q,cut,avr):s.EvalFlavor(f,cf.E[e],q,cut,avr)); c.near(w?"evolve/averaged-mass":"evolve/averaged-flavour",g,want[w],1e-9,2e-9*scale,fmt("scale %g of phases up to %g",cut,base)); bool any=false,all=true; for(int i=0;i<n;i++){ any=any||avr[i]; if(i) all=all&&avr[i]; } if(!gone) c.check("evolve/averaged-flags",!any,"oscillations reported as averaged which were not"); else c.check("evolve/averaged-flags",any||kept,"averaged oscillations are not reported"); }
    c.count(gone?kept?"partly-averaged":"fully-averaged":"not-averaged"); } }
// the mean energy at the end
static void energy(Ctx& c,NS& s,const Conf& cf,const Ref& ref,Leg& l,double tol,double scale){ double rho,ye,o,z; double dx=1e-7*std::fabs(l.x1-l.x0); for(double d:{-1.,1.}){ l.at(l.x1,rho,ye); l.at(l.x1+d*dx,o,z); if(std::fabs(o-rho)>1e-4*rho||std::fabs(ye-z)>1e-4) return; } c.count("mean-energies"); int n=cf.n; for(int e=0;e<cf.ne();e++)for(int q=0;q<cf.nr();q++){ Z H[36]; ref.hamiltonian(e,q,rho,ye,H); const Z* m=ref.at(ref.y,e,q); Z w=0; double sc=0; for(int a=0;a<n;a++)for(int b=0;b<n;b++){ w+=H[a*n+b]*m[b*n+a]; sc=std::max(sc,std::abs(H[a*n+b])); } double g=s.GetHamiltonian(e,q)*s.GetState(e,q); c.near("evolve/mean-energy",g,w.real(),0,n*tol*scale*sc,fmt("energy %d rho %d",e,q)); } }
VH_GROUP("matter",260,6000){
  Rng& r=c.rng; int kind=r.in(LCON,NLEG-1); Leg l=leg(r,kind,r.coin()?10:40); Conf cf=conf(r,l.x1-l.x0,r.coin(.7)?15:50); double scale=r.coin(.6)?1:r.logu(1e-8,1e8); c.desc(cf.str()+"; "+l.how); bool fl=r.coin(.7); D v=start(r,cf,scale); Ref ref(cf); ref.set(v,fl); Ref was=ref; ref.go(l);
  for(int k=0;k<2;k++){ NS s; cf.build(s); std::string how; config(r,s,scale,1e-9,how); bool fast=l.constant&&r.coin(.5); s.Set_AllowConstantDensityOscillationOnlyEvolution(fast); bool nonadaptive=!fast&&r.coin(.05); body(s,l,r); set(s,cf,v,fl); c.desc(cf.str()+"; "+l.how+"; "+how+(fast?" fast":""));
    compare(c,"initial",s,cf,was,1e-12,scale);
    double tol=fast?1e-8:l.smooth?4e-5:2e-4;
    // the Hamiltonian is that of the start, in the basis of mass states
    { double rho,ye; l.at(l.x0,rho,ye); for(int e=0;e<cf.ne();e++)for(int q=0;q<cf.nr();q++){ Z H[36],M[36]; ref.hamiltonian(e,q,rho,ye,H); auto u=cf.U(q); auto h=s.GetHamiltonian(e,q); double sc=0; for(int i=0;i<cf.n;i++)for(int j=0;j<cf.n;j++){ Z x=0; for(int a=0;a<cf.n;a++)for(int b=0;b<cf.n;b++) x+=std::conj(u[a*cf.n+i])*H[a*cf.n+b]*u[b*cf.n+j]; M[i*cf.n+j]=x; sc=std::max(sc,std::abs(x)); } for(int i=0;i<cf.n;i++)for(int j=0;j<cf.n;j++) c.check("evolve/hamiltonian",std::abs(h.get(i,j)-M[i*cf.n+j])<=1e-10*sc,fmt("element %d %d is (%g,%g) instead of (%g,%g)",i,j,h.get(i,j).real(),h.get(i,j).imag(),M[i*cf.n+j].real(),M[i*cf.n+j].imag())); } }
    if(nonadaptive){ s.Set_AdaptiveStep(false); s.Set_rel_error(1e-2); s.Set_abs_error(scale); s.Set_GSL_step(gsl_odeiv2_step_rk8pd); s.Set_NumSteps(r.in(1500,2500)); c.count("fixed-steps"); }
    if(r.coin(.2)){ s.GetTrack()->SetX(l.x0+(l.x1-l.x0)*(r.coin()?1:r.unit())); c.count("shared-tracks"); }   // another user of the same track has moved along it
    s.EvolveState(); compare(c,fast?"fast":"numerical",s,cf,ref,tol,scale); energy(c,s,cf,ref,l,tol,scale); readouts(c,s,cf,scale); averages(c,s,cf,r,scale); c.near("evolve/position",s.GetTrack()->GetX(),l.x1,1e-9,1e-9*std::fabs(l.x1-l.x0),"of the track at the end"); c.near("evolve/time",s.Get_t()-s.Get_t_initial(),l.x1-l.x0,1e-9,0,"elapsed"); c.count(fast?"fast":s.basis==mass?"mass-basis":"interaction-basis"); }
  c.count("reference-steps",ref.steps); c.count(l.constant?"constant":"varying"); if(cf.n>3) c.count("sterile"); c.nontrivial(l.how+cf.str()); c.sample(cf.str()+"; "+l.how+fmt(": %ld reference steps",ref.steps));
}
VH_GROUP("vacuum",600,12000){
  Rng& r=c.rng; Leg l=leg(r,LVAC); Conf cf=conf(r,l.x1-l.x0,r.coin()?30:r.logu(30,1e5)); double scale=r.coin(.6)?1:r.logu(1e-8,1e8); c.desc(cf.str()+"; "+l.how); bool fl=r.coin(.7); D v=start(r,cf,scale); Ref ref(cf); ref.set(v,fl); ref.go(l); double phase=cf.big*(l.x1-l.x0)/2/cf.E[0];
  NS s; cf.build(s); s.Set_rel_error(1e-9); s.Set_abs_error(1e-9*scale); bool fast=r.coin(.4); s.Set_AllowConstantDensityOscillationOnlyEvolution(fast); body(s,l,r); set(s,cf,v,fl); s.EvolveState(); compare(c,fast?"vacuum-fast":"vacuum",s,cf,ref,1e-10+2e-14*phase,scale); readouts(c,s,cf,scale); if(phase>100) c.count("fast-oscillations"); c.count("vacuum"); c.nontrivial(l.how+cf.str());
  // oscillations off: every flavour stays as it was
  NS q; cf.build(q); q.Set_IncludeOscillations(false); q.Set_rel_error(1e-9); q.Set_abs_error(1e-9*scale); Leg m=leg(r,r.in(LVAC,LWAVE),10); body(q,m,r); set(q,cf,v,true); q.EvolveState(); for(int e=0;e<cf.ne();e++)for(int p=0;p<cf.nr();p++)for(int f=0;f<cf.n;f++) c.near("evolve/no-oscillation",flav(q,cf,f,e,p),v[(e*cf.nr()+p)*cf.n+f],1e-7,1e-7*scale,fmt("flavour %d",f)); }

// more energies than 8 bits count
VH_GROUP("many",24,300){ Rng& r=c.rng; bool num=c.idx%4==3; Leg l=leg(r,num?r.in(LCON,NLEG-1):r.coin()?LCON:LVAC,10); Conf cf=conf(r,l.x1-l.x0,num?3:30,true); if(num){ cf.n=3; } double lo=cf.E[0],top=r.logu(1.5,100); int ne=r.in(257,num?300:700); cf.E.clear(); for(int i=0;i<ne;i++) cf.E.push_back(lo*std::pow(top,double(i)/(ne-1))); double scale=r.coin(.6)?1:r.logu(1e-8,1e8); std::string how=fmt("%d energies; ",ne)+cf.str()+"; "+l.how; c.desc(how); bool fl=r.coin(.7); D v=start(r,cf,scale); Ref ref(cf); ref.set(v,fl); ref.go(l);
  NS s; cf.build(s); s.Set_rel_error(1e-9); s.Set_abs_error(1e-9*scale); bool fast=!num&&r.coin(.7); s.Set_AllowConstantDensityOscillationOnlyEvolution(fast); body(s,l,r); set(s,cf,v,fl); s.EvolveState(); compare(c,"many",s,cf,ref,fast?1e-8:l.smooth?4e-5:2e-4,scale); readouts(c,s,cf,scale);
  c.count("many-energies"); c.nontrivial(how); c.sample(how); }
// the mixing of a fresh object, and of one set back to it, is the documented one
// one object through more legs than 8 bits count, with readings, new tracks, new bodies, changes of basis and fresh starts in between
VH_GROUP("long-life",8,120){ Rng& r=c.rng; double L=r.logu(100,1e4)*K.km; Conf cf=conf(r,L,r.uni(1,12),true); double scale=r.coin(.6)?1:r.logu(1e-8,1e8); std::string how="long life; "+cf.str(); c.desc(how); D v=start(r,cf,scale); bool fl=true; Ref ref(cf); ref.set(v,fl); bool fast=c.idx%4!=1;
  NS s; cf.build(s); s.Set_rel_error(1e-9); s.Set_abs_error(1e-9*scale); s.Set_h(L/r.uni(50,500)); s.Set_AllowConstantDensityOscillationOnlyEvolution(fast); int legs=fast?r.in(270,420):r.in(257,300); bool started=false; double tol=0; std::shared_ptr<Body> b; std::shared_ptr<Track> t;
  for(int i=0;i<legs;i++){ Leg l; double a=r.coin()?0:L*r.unit(),w=L*r.logu(1e-3,.03); l.x0=a; l.x1=a+w; bool vac=r.coin(.2); double rho=vac?0:r.uni(0,8),ye=r.unit(); l.body=vac?std::static_pointer_cast<Body>(std::make_shared<Vacuum>()):std::make_shared<ConstantDensity>(rho,ye);
    l.track=[=]{ return vac?std::static_pointer_cast<Track>(std::make_shared<Vacuum::Track>(a,a+w)):std::make_shared<ConstantDensity::Track>(a,a+w); }; l.constant=true; s.Set_Body(l.body); s.Set_Track(l.track()); if(!started||r.coin(.01)){ v=start(r,cf,scale); ref.set(v,fl); set(s,cf,v,fl); started=true; tol=0; c.count("fresh-starts"); }
    if(r.coin(.05)) s.Set_Basis(r.coin()?mass:interaction); s.EvolveState(); ref.go(l); tol+=fast?1e-10:1e-7; c.count("long-life-legs"); if(i%41==40||i==255||i==256||i+1==legs) compare(c,"long-life",s,cf,ref,tol*3+1e-8,scale); if(r.coin(.05)) readouts(c,s,cf,scale); }
  c.nontrivial(how); c.sample(how); }
// a medium which does other work of the same kind while it is asked: other objects evolve, other tables are read, integrals are done
struct Busy: Body{ std::shared_ptr<Body> in; mutable long calls=0,worked=0,wrong=0; std::shared_ptr<VariableDensity> tab; std::shared_ptr<EarthAtm> atm; double every; Conf cf; D v; double ans=0; mutable bool inside=false;
  Busy(std::shared_ptr<Body> b,double e):Body(),in(b),every(e),tab(std::make_shared<VariableDensity>(D{0,1e5,2e5,3e5},D{1,3,2,5},D{.3,.4,.6,.5})),atm(std::make_shared<EarthAtm>()){}
  double other() const { NS s; cf.build(s); s.Set_rel_error(1e-6); s.Set_abs_error(1e-6); s.Set_Body(tab); s.Set_Track(std::make_shared<VariableDensity::Track>(0,3e5*K.cm)); set(s,cf,v,true); s.EvolveState(); double q=flav(s,cf,0,0,0); auto t=atm->MakeTrackWithCosine(-.7); t.SetX(t.GetFinalX()*.4); q+=atm->density(t); q+=integrate([](double x){ return x*x; },0.,1.,1e-6); AkimaSpline sp(D{0,1,2,3,4},D{1,4,2,5,3}); return q+sp(1.7); }
  void work() const { if(inside) return; inside=true; calls++; if(calls<4||std::fmod(calls,every)<1){ worked++; if(other()!=ans) wrong++; } inside=false; }
  double density(const GenericTrack& t) const override { work(); return in->density(t); } double ye(const GenericTrack& t) const override { work(); return in->ye(t); } bool IsConstantDensity() const override { return in->IsConstantDensity(); } void Serialize(hid_t) const override{} static std::string GetName(){ return "Busy"; } };
VH_GROUP("busy",40,800){ Rng& r=c.rng; Leg l=leg(r,r.in(LCON,NLEG-1),10); Conf cf=conf(r,l.x1-l.x0,8); D v=start(r,cf,1); std::string how="busy; "+cf.str()+"; "+l.how; c.desc(how); auto b=std::make_shared<Busy>(l.body,r.logu(10,500)); b->cf=conf(r,3*K.km,3); b->v=start(r,b->cf,1); b->ans=b->other();
  NS p,q; D got[2]; for(int k=0;k<2;k++){ NS& s=k?q:p; cf.build(s); s.Set_rel_error(1e-7); s.Set_abs_error(1e-7); s.Set_h(l.x1-l.x0<1e3*K.km?(l.x1-l.x0)/20:50*K.km); s.Set_AllowConstantDensityOscillationOnlyEvolution(c.idx%2); s.Set_Body(k?std::static_pointer_cast<Body>(b):l.body); s.Set_Track(l.track()); set(s,cf,v,true); s.EvolveState(); for(int e=0;e<cf.ne();e++)for(int w=0;w<cf.nr();w++)for(int f=0;f<cf.n;f++) got[k].push_back(flav(s,cf,f,e,w)); }
  c.check("evolve/busy-medium",got[0]==got[1],"a medium which uses the library while it is asked changes the result"); c.check("evolve/busy-work",b->wrong==0&&b->worked>0,fmt("%ld of %ld answers of other objects used during an evolution are different",b->wrong,b->worked)); c.count("busy-work",b->worked); c.nontrivial(how); c.sample(how); }
// the low-pass filter takes the fast oscillations out of the matter potential and leaves everything else
VH_GROUP("low-pass",160,3000){ Rng& r=c.rng; Leg l=leg(r,r.in(LCON,NLEG-1),r.coin()?10:40); double L=l.x1-l.x0; Conf cf=conf(r,L,r.coin(.7)?15:40); double scale=r.coin(.6)?1:r.logu(1e-8,1e8); bool fl=r.coin(.7); D v=start(r,cf,scale); Ref ref(cf),med(cf); ref.matter=false; ref.set(v,fl); double cut=0,ramp=0; long cutoffs=0,ramps=0; int n=cf.n;
  ref.extra=[&](double,const std::vector<Z>& y,std::vector<Z>& d,double rho,double ye){ for(int q=0;q<cf.nr();q++){ auto u=cf.U(q); double V[6]; med.potential(rho,ye,V,cf.anti(q)); Z W[36]; for(int e=0;e<cf.ne();e++){ for(int i=0;i<n;i++)for(int j=0;j<n;j++){ double w=std::fabs(cf.dm[i]-cf.dm[j])/2/cf.E[e],f=1; if(cut>0){ if(w>=cut){ f=0; cutoffs++; } else if(w>cut-ramp){ f=(cut-w)/ramp; ramps++; } } Z x=0; for(int a=0;a<n;a++) x+=std::conj(u[a*n+i])*V[a]*u[a*n+j]; W[i*n+j]=x*f; }
      Z F[36]; for(int a=0;a<n;a++)for(int b=0;b<n;b++){ Z x=0; for(int i=0;i<n;i++)for(int j=0;j<n;j++) x+=u[a*n+i]*W[i*n+j]*std::conj(u[b*n+j]); F[a*n+b]=x; } const Z* m=ref.at(y,e,q); Z* o=ref.at(d,e,q); for(int a=0;a<n;a++)for(int b=0;b<n;b++){ Z x=0; for(int k=0;k<n;k++) x+=F[a*n+k]*m[k*n+b]-m[a*n+k]*F[k*n+b]; o[a*n+b]+=Z(0,-1)*x; } } } };
  NS s; cf.build(s); std::string nm; s.Set_GSL_step(stepper(r,&nm)); s.Set_rel_error(1e-9); s.Set_abs_error(1e-9*scale); s.Set_h(r.logu(1e-3,10)*K.km); s.Set_Body(l.body); s.Set_Track(l.track()); set(s,cf,v,fl); std::string how=cf.str()+"; "+l.how+"; "+nm; double tol=0; int legs=r.in(1,3);
  for(int k=0;k<legs;k++){ double w0=cf.big/2/cf.E[r.in(0,cf.ne()-1)]; cut=r.coin(.15)?0:w0*r.logu(.01,5); ramp=r.coin(.4)?0:cut*r.unit(); if(r.coin()){ s.Set_EvolLowPassCutoff(cut); s.Set_EvolLowPassScale(ramp); } else { s.Set_EvolLowPassScale(ramp); s.Set_EvolLowPassCutoff(cut); } how+=fmt("; cutoff %g ramp %g",cut,ramp); c.desc(how); if(k) s.Set_Track(l.track());
    s.EvolveState(); ref.go(l); tol+=l.smooth?4e-5:2e-4; compare(c,"low-pass",s,cf,ref,tol,scale); c.count(cut?"filtered":"unfiltered"); }
  if(cutoffs) c.count("frequencies-cut"); if(ramps) c.count("frequencies-ramped"); c.nontrivial(how); c.sample(how); }
VH_GROUP("defaults",200,2000){ Rng& r=c.rng; int n=r.in(3,6); bool multi=r.coin(); double E=r.logu(.1,100)*K.GeV; NS s; if(multi){ marray<double,1> e{{2}}; e[0]=E; e[1]=2*E; s=NS(e,n,r.coin()?neutrino:antineutrino,false); } else s=NS(n,r.coin()?neutrino:antineutrino); bool back=r.coin(); c.desc(fmt("%d states%s",n,back?", set back":""));
  if(back){ for(int k=r.in(1,6);k>0;k--){ int j=r.in(1,n-1),i=r.in(0,j-1); switch(r.in(0,2)){ case 0: s.Set_MixingAngle(i,j,r.uni(0,1.5)); break; case 1: s.Set_SquareMassDifference(j,r.uni(1e-5,1)); break; default: s.Set_CPPhase(i,j,r.uni(0,6)); } } s.Set_MixingParametersToDefault(); }
  for(int j=1;j<n;j++){ double d=j==1?7.42e-5:j==2?2.514e-3:0; if(j<3||!back) c.near("defaults/square-mass-difference",s.Get_SquareMassDifference(j),d,1e-9,0,fmt("%d",j)); for(int i=0;i<j;i++){ double a=i==0&&j==1?.583638:i==0&&j==2?.149575:i==1&&j==2?.855211:0; if(j<3||!back){ c.near("defaults/angle",s.Get_MixingAngle(i,j),a,1e-6,0,fmt("%d %d",i,j)); if(!back||(i==0&&j==2)) c.near("defaults/phase",s.Get_CPPhase(i,j),0,0,0,fmt("%d %d",i,j)); } } }
  c.count("defaults"); c.nontrivial(fmt("%d %d %d %.17g",n,multi,back,E)); }
