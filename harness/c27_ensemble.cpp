// C27: an ensemble over zenith angles is what its members are when they evolve alone, for any number of threads.
#include "ens.h"
#include "h5lt.h"
#ifndef SLOW
#define SLOW 1
#endif
typedef std::vector<std::unique_ptr<M>> Alone;
static Alone alone(const Ens& o,bool evolve=true){ Alone s; for(size_t k=0;k<o.cz.size();k++){ s.push_back(o.one(k)); o.prepare(*s[k],k); o.state(*s[k],k); if(evolve) s[k]->EvolveState(); } return s; }
static void hurry(Rng& r,A& a,int t){ a.Set_EvalThreads(t); if(t>1&&r.coin(.4)) for(auto& m:a.GetnuSQuIDS()) m.wait=r.coin()?0:r.in(1,400); }
static double dens(const A&){ return 0; }
static std::string between(Ctx& c,const Ens& o,A& a,Alone& s,Rng& r,bool massb,int n=12){ const Conf& cf=o.cf; Between w{o,s,massb}; double tol=3e-9*o.scale;
  for(int i=0;i<n;i++){ double cz=r.coin(.3)?o.cz[r.in(0,o.cz.size()-1)]:r.uni(o.cz[0],o.cz.back()),E=r.coin(.3)?cf.E[r.in(0,cf.ne()-1)]:r.uni(cf.E[0],cf.E.back()); int f=r.in(0,cf.n-1),q=r.in(0,cf.nr()-1); double x=a.EvalFlavor(f,cz,E,q),y=w.at(f,cz,E,q); if(!Ctx::close(x,y,3e-9,tol)) return fmt("flavour %d cos %.9g energy %.9g type %d: %.17g, interpolated %.17g",f,cz,E,q,x,y); c.count("between");
    double cut=r.coin(.2)?1e300:r.coin(.2)?0:r.logu(1e-2,30); x=a.EvalFlavor(f,cz,E,q,cut,std::vector<bool>(cf.n)); y=w.at(f,cz,E,q,0,cut); if(!Ctx::close(x,y,3e-9,tol)) return fmt("flavour %d cos %.9g energy %.9g type %d averaged above %g: %.17g, interpolated %.17g",f,cz,E,q,cut,x,y);
    if(i<2){ x=a.EvalFlavor(f,cz,E,q,true); double lo=1e300,hi=-1e300,prev=0,jump=0; for(int k=0;k<=300;k++){ double z=w.at(f,cz,E,q,(k-150)*.1*K.km); lo=std::min(lo,z); hi=std::max(hi,z); if(k) jump=std::max(jump,std::fabs(z-prev)); prev=z; } if(!(x>=lo-jump-tol&&x<=hi+jump+tol)) return fmt("flavour %d cos %.9g energy %.9g type %d from another height: %.17g, outside of %.17g to %.17g",f,cz,E,q,x,lo,hi); } }
  return ""; }
static void about(Ctx& c,const Ens& o,A& a,Alone& s,Rng& r){ const Conf& cf=o.cf; bool k=a.GetNumE()==cf.E.size()&&a.GetNumCos()==o.cz.size()&&a.GetNumNodes()==o.cz.size()&&a.GetNumNeu()==(unsigned)cf.n&&a.GetNumRho()==(unsigned)cf.nr(); auto e=a.GetERange(); auto z=a.GetCosthRange(); k=k&&e.size()==cf.E.size()&&z.size()==o.cz.size()&&std::equal(e.begin(),e.end(),cf.E.begin())&&std::equal(z.begin(),z.end(),o.cz.begin()); c.check("ensemble/shape",k,"nodes of the ensemble");
  for(int j=1;j<cf.n;j++){ for(int i=0;i<j;i++){ c.check("ensemble/mixing",a.Get_MixingAngle(i,j)==s[0]->Get_MixingAngle(i,j)&&a.Get_CPPhase(i,j)==s[0]->Get_CPPhase(i,j),"mixing"); } c.check("ensemble/mixing",a.Get_SquareMassDifference(j)==s[0]->Get_SquareMassDifference(j),"mass difference"); }
  int q=r.in(0,cf.nr()-1); auto st=a.GetStates(q); bool okS=st.extent(0)==o.cz.size()&&st.extent(1)==(size_t)cf.n*cf.n; for(size_t i=0;okS&&i<o.cz.size();i++)for(int j=0;j<cf.n*cf.n;j++) okS=Ctx::close(st[i][j],s[i]->GetState(0,q)[j],1e-10,1e-10*o.scale); c.check("ensemble/states",okS,"states");
  if(o.inter){ auto x=a.GetInteractionStructure(); auto y=s[r.in(0,s.size()-1)]->GetInteractionStructure(); bool t=x&&y&&x->targets==y->targets; if(t) for(size_t i=0;i<x->targets.size();i++)for(int Q=0;Q<cf.nr();Q++)for(int f=0;f<cf.n;f++)for(int E=0;E<cf.ne();E++) t=t&&x->sigma_CC[i][Q][f][E]==y->sigma_CC[i][Q][f][E]&&x->sigma_NC[i][Q][f][E]==y->sigma_NC[i][Q][f][E]; c.check("ensemble/tables",t,"interaction tables"); c.check("ensemble/library",a.GetNeutrinoCrossSections()==o.w.lib,"cross sections"); } }
static void nodesOf(Ctx& c,int many){
  Rng& r=c.rng; Mute q; Ens o=many?ens(r,0,false,many):ens(r); if(many) c.count(many==1?"many-angles":"many-energies"); auto a=o.ens(); bool early=r.coin(.3); int t=r.in(1,8); std::string w; c.desc(o.how+fmt(", %d threads",t)); if(early) hurry(r,*a,t); if(r.coin(.15)) a->Set_ProgressBar(true); o.prepare(*a); if(!early) hurry(r,*a,t); bool massb=r.coin(.15); if(massb) for(auto& m:a->GetnuSQuIDS()) m.Set_Basis(mass); o.state(*a); std::atomic<int> runs{0}; for(auto& m:a->GetnuSQuIDS()) m.runs=&runs; a->EvolveState(); c.check("ensemble/once",runs==(int)o.cz.size(),fmt("%d evolutions of %d angles",(int)runs,(int)o.cz.size())); Alone s; for(size_t k=0;k<o.cz.size();k++){ s.push_back(o.one(k)); o.prepare(*s[k],k); if(massb) s[k]->Set_Basis(mass); o.state(*s[k],k); s[k]->EvolveState(); }
  w=nodes(o,*a,s); if(!c.check("ensemble/node",w.empty(),w)) return; c.count("nodes",o.cz.size()); if(t>1) c.count("threads"); if(o.inter) c.count("interacting"); if(massb) c.count("mass-basis"); if(o.cz.size()==1||o.cf.ne()==1) c.count("one-node"); if(o.other) c.count("other-earth"); w=between(c,o,*a,s,r,massb); if(!c.check("ensemble/between",w.empty(),w)) return; about(c,o,*a,s,r);
  // again with other fluxes
  for(int k=r.in(0,2);k--;){ o.draw(r); a->Set_EvalThreads(r.in(1,8)); for(auto& m:a->GetnuSQuIDS()) if(m.GetBody()&&r.coin(0)) return; std::string m1; bool tr=r.coin(); o.state(*a); for(size_t i=0;i<o.cz.size();i++) o.state(*s[i],i); if(tr) for(size_t i=0;i<o.cz.size();i++){ for(M* u:{&a->GetnuSQuIDS(i),s[i].get()}) u->Set_Track(std::make_shared<EarthAtm::Track>(o.earth->MakeTrackWithCosine(o.cz[i]))); } a->EvolveState(); for(auto& u:s) u->EvolveState(); for(size_t i=0;i<o.cz.size();i++)for(int e=0;e<o.cf.ne();e++)for(int p=0;p<o.cf.nr();p++)for(int f=0;f<o.cf.n;f++){ double x=a->GetnuSQuIDS(i).EvalFlavorAtNode(f,e,p),y=s[i]->EvalFlavorAtNode(f,e,p); if(!Ctx::close(x,y,1e-10,1e-10*o.scale)&&w.empty()) w=fmt("flavour %d cos %.9g energy %d type %d: %.17g, alone %.17g",f,o.cz[i],e,p,x,y); } if(!c.check("ensemble/again",w.empty(),w+" when evolved again")) return; c.count("again"); }
  c.nontrivial(o.how+fmt("%d",t)); c.sample(o.how+fmt(", %d threads",t)); (void)dens; }
VH_GROUP("nodes",260/SLOW,4000/SLOW){ nodesOf(c,0); }
#if SLOW==1
// more angles or energies than 8 bits count
VH_GROUP("many",4,60){ nodesOf(c,1+c.idx%2); }
#endif
VH_GROUP_SERIAL("threads",90/SLOW,1500/SLOW){
  Rng& r=c.rng; Mute q; Ens o=ens(r); c.desc(o.how); std::unique_ptr<A> first; int n=r.in(2,3); for(int i=0;i<n;i++){ auto a=o.ens(); o.prepare(*a); int t=i==0?1:r.in(2,9); if(r.coin(.1)){ a->Set_EvalThreads(0); c.check("ensemble/threads",a->Get_EvalThreads()>=1,"no threads"); } hurry(r,*a,t); c.check("ensemble/threads",a->Get_EvalThreads()==(unsigned)t,"number of threads"); o.state(*a); a->EvolveState(); if(i==0) first=std::move(a); else { std::string w=same(o,*first,*a,Rng(r.u64())); c.check("ensemble/thread-count",w.empty(),w+fmt(" with %d threads",t)); c.count("compared"); } }
  // evaluated by several threads at once
  { int n=r.in(2,5); std::vector<std::thread> ts; std::atomic<int> bad{0}; Rng z(r.u64()); std::vector<std::array<double,4>> at; std::vector<double> v; for(int i=0;i<20;i++){ at.push_back({double(z.in(0,o.cf.n-1)),z.uni(o.cz[0],o.cz.back()),z.uni(o.cf.E[0],o.cf.E.back()),double(z.in(0,o.cf.nr()-1))}); v.push_back(first->EvalFlavor(at[i][0],at[i][1],at[i][2],at[i][3])); } for(int t=0;t<n;t++) ts.emplace_back([&]{ for(int i=0;i<20;i++) if(first->EvalFlavor(at[i][0],at[i][1],at[i][2],at[i][3])!=v[i]) bad++; }); for(auto& t:ts) t.join(); c.check("ensemble/concurrent-reading",bad==0,fmt("%d values differ when asked at once",(int)bad)); c.count("read-concurrently",n*20); }
  c.nontrivial(o.how); c.sample(o.how); }
#if SLOW==1
static bool still(Ctx& c,const std::string& what){ bool k=c.check("ensemble/handles",h5mon::live().empty(),what+" left open: "+h5mon::leaks()); h5mon::forget(); k&=c.check("ensemble/double-close",h5mon::st().trouble.empty(),h5mon::st().trouble); h5mon::st().trouble.clear(); auto n=H5Fget_obj_count(H5F_OBJ_ALL,H5F_OBJ_ALL); k&=c.check("ensemble/handles",n<=0,fmt("%s left %d HDF5 objects open",what.c_str(),(int)n)); return k; }
static std::string file(Ctx& c,const char* n="a.h5"){ std::string p=c.tmp+"/"+n; unlink(p.c_str()); return p; }
static std::string restored(Ctx& c,const Ens& o,A& a,A& b,Rng& r,bool massb=false){ const Conf& cf=o.cf; if(b.GetNumCos()!=o.cz.size()||b.GetNumE()!=cf.E.size()||b.GetNumNeu()!=(unsigned)cf.n||b.GetNumRho()!=(unsigned)cf.nr()) return "nodes"; auto z=b.GetCosthRange(); auto e=b.GetERange(); if(!std::equal(z.begin(),z.end(),o.cz.begin())||!std::equal(e.begin(),e.end(),cf.E.begin())) return "values of the nodes"; for(int j=1;j<cf.n;j++){ for(int i=0;i<j;i++) if(a.Get_MixingAngle(i,j)!=b.Get_MixingAngle(i,j)||a.Get_CPPhase(i,j)!=b.Get_CPPhase(i,j)) return "mixing"; if(a.Get_SquareMassDifference(j)!=b.Get_SquareMassDifference(j)) return "mass difference"; }
  for(size_t i=0;i<o.cz.size();i++){ M& x=a.GetnuSQuIDS(i); M& y=b.GetnuSQuIDS(i); auto s=x.GetTrack(),t=y.GetTrack(); if(!t||s->GetX()!=t->GetX()||s->GetFinalX()!=t->GetFinalX()) return fmt("track at cos %.9g",o.cz[i]); if(x.Get_t()!=y.Get_t()) return "time"; if(x.tag!=y.tag) return "user parameter"; double u=s->GetX(),v=s->GetFinalX()*r.unit(); s->SetX(v); t->SetX(v); double d=x.GetBody()->density(*s),d2=y.GetBody()->density(*t); s->SetX(u); t->SetX(u); if(d!=d2) return "density"; } if(o.inter){ auto x=a.GetInteractionStructure(),y=b.GetInteractionStructure(); if(x&&!y) return "no tables"; } c.count("restored"); (void)massb; return same(o,a,b,Rng(r.u64()),1e-10); }
static std::string goOn(const Ens& o0,A& a,A& b,Rng& r){ Ens o=o0; o.draw(r); int t=r.in(1,4); for(A* x:{&a,&b}){ x->Set_EvalThreads(t); x->Set_IncludeOscillations(true); x->Set_GSL_step(gsl_odeiv2_step_rkf45); x->Set_rel_error(1e-7); x->Set_abs_error(1e-9*o.scale); x->Set_h_max(300*K.km); x->Set_h(10*K.km); x->Set_PositivityConstrain(false); x->Set_EvolLowPassCutoff(0); x->Set_EvolLowPassScale(0); x->Set_EarthModel(o.earth); x->Set_AllowConstantDensityOscillationOnlyEvolution(false); o.state(*x); x->EvolveState(); } return same(o,a,b,Rng(r.u64()),1e-8); }
VH_GROUP("files",150,2000){
  Rng& r=c.rng; Mute q; h5mon::reset(); Ens o=ens(r,-1,true); auto a=o.ens(); o.prepare(*a); double k=0; for(auto& m:a->GetnuSQuIDS()) m.tag=k+=r.unit(); o.state(*a); int stage=r.in(0,2); if(stage) a->EvolveState(); std::string p=file(c); c.desc(o.how+fmt(" stage %d",stage)); bool had=r.coin(.4),keep=had&&r.coin(.6); if(had){ hid_t f=H5Fcreate(p.c_str(),H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT); hsize_t d=3; double v[3]={1,2,3}; H5LTmake_dataset_double(f,"mine",1,&d,v); H5Fclose(f); } h5mon::forget(); a->WriteStateHDF5(p,!keep&&(had||r.coin())); if(!still(c,"saving")) return;
  if(had){ hid_t f=H5Fopen(p.c_str(),H5F_ACC_RDONLY,H5P_DEFAULT); bool there=H5Lexists(f,"mine",H5P_DEFAULT)>0; H5Fclose(f); h5mon::forget(); c.check("ensemble/kept",there==keep,keep?"what was in the file is gone":"what was in the file is still there"); c.count(keep?"added":"overwritten"); if(keep){ int t=vh::throws([&]{ a->WriteStateHDF5(p,false); }); c.check("ensemble/same-place",t==1,"saved on top of another"); still(c,"refusing to save"); } }
  std::unique_ptr<A> b; std::string how; std::unique_ptr<Ens> was; if(r.coin()){ b.reset(new A(p)); k=0; how="constructed"; } else { was.reset(new Ens(ens(r,-1,true))); b=was->ens(); was->prepare(*b); if(r.coin()){ was->state(*b); if(r.coin()) b->EvolveState(); } b->ReadStateHDF5(p); how="into another ensemble ("+was->how+")"; } still(c,"loading"); if(how=="constructed") for(size_t i=0;i<o.cz.size();i++) c.check("ensemble/tag",b->GetnuSQuIDS(i).tag==a->GetnuSQuIDS(i).tag,"user parameter"); std::string w=restored(c,o,*a,*b,r); if(!c.check("ensemble/restored",w.empty(),w+", "+how)) return; if(o.inter) c.count("restored-interacting"); c.check("ensemble/default-threads",how!="constructed"||b->Get_EvalThreads()==1,"number of threads of a restored ensemble");
  if(o.inter&&stage){ auto x=a->GetInteractionStructure(),y=b->GetInteractionStructure(); c.check("ensemble/restored",x&&y&&x->targets==y->targets,"tables"); } for(int i=0;i<2;i++){ double h=b->EvalFlavor(0,o.cz[0],o.cf.E[0],0,true); c.check("ensemble/random",std::isfinite(h),"random height"); }
  std::unique_ptr<A> m; if(r.coin(.3)){ m.reset(new A(std::move(*b))); b=std::move(m); c.count("moved"); } if(r.coin(.6)){ w=goOn(o,*a,*b,r); c.check("ensemble/continued",w.empty(),w+", "+how); c.count("continued"); }
  c.nontrivial(o.how+how); c.sample(o.how+how); }
// damaged files change nothing
VH_GROUP("damage",120,1500){
  Rng& r=c.rng; Mute q; h5mon::reset(); Ens o=ens(r,-1,true); auto a=o.ens(); o.prepare(*a); o.state(*a); if(r.coin()) a->EvolveState(); std::string p=file(c); a->WriteStateHDF5(p); std::string what; { hid_t f=H5Fopen(p.c_str(),H5F_ACC_RDWR,H5P_DEFAULT); std::vector<std::string> g; H5Literate(f,H5_INDEX_NAME,H5_ITER_INC,nullptr,[](hid_t,const char* n,const H5L_info_t*,void* v)->herr_t{ if(!strncmp(n,"costh_",6)) ((std::vector<std::string>*)v)->push_back(n); return 0; },&g); c.check("ensemble/groups",g.size()==o.cz.size(),fmt("%d states of %d angles in the file",(int)g.size(),(int)o.cz.size())); std::string grp=g.empty()?"":g[r.in(0,g.size()-1)]; auto put=[&](const char* n,D z,int rank=1){ H5Ldelete(f,n,H5P_DEFAULT); hsize_t d[2]={z.size(),1}; H5LTmake_dataset_double(f,n,rank,d,z.data()); }; int k=r.in(0,8); D cz=o.cz,E=o.cf.E;
    switch(k){ case 0: H5Ldelete(f,"zenith_angles",H5P_DEFAULT); what="no angles"; break; case 1: H5Ldelete(f,"energy_range",H5P_DEFAULT); what="no energies"; break; case 2: cz.push_back(cz.back()+.01); put("zenith_angles",cz); what="one angle too many"; break; case 3: E.push_back(E.back()*2); put("energy_range",E); what="one energy too many"; break; case 4: put("zenith_angles",cz,2); what="angles of rank 2"; break; case 5: put("zenith_angles",{}); what="no values of angles"; break; case 6: H5Ldelete(f,grp.c_str(),H5P_DEFAULT); what="no "+grp; break; case 7: H5Ldelete(f,(grp+"/track").c_str(),H5P_DEFAULT); what="no track in "+grp; break; default: if(E.size()>1){ E.pop_back(); put("energy_range",E); what="one energy too few"; } else { put("energy_range",{}); what="no values of energies"; } } H5Fclose(f); } h5mon::forget(); c.desc(o.how+": "+what);
  Ens x=ens(r,-1,true); auto b=x.ens(),twin=x.ens(); for(A* z:{b.get(),twin.get()}){ x.prepare(*z); x.state(*z); } if(r.coin()){ b->EvolveState(); twin->EvolveState(); } std::string msg; int t=r.coin(.7)?vh::throws([&]{ b->ReadStateHDF5(p); },&msg):vh::throws([&]{ A z(p); },&msg); c.check("ensemble/damaged",t==1,"read without complaint: "+what); still(c,"refusing"); c.count("damaged"); if(t==1){ std::string w=same(x,*twin,*b,Rng(r.u64()),1e-12); c.check("ensemble/unchanged",w.empty(),w+" after refusing "+what); w=goOn(x,*twin,*b,r); c.check("ensemble/unchanged",w.empty(),w+" evolved after refusing "+what); } c.check("ensemble/missing",vh::throws([&]{ b->ReadStateHDF5(c.tmp+"/none.h5"); })==1&&vh::throws([&]{ b->WriteStateHDF5(c.tmp+"/none/x.h5",r.coin()); })==1,"missing file or directory"); still(c,"missing file");
  c.nontrivial(what+o.how); c.sample(o.how+": "+what); }
VH_GROUP("faults",16,200){
  Rng& r=c.rng; Mute q; Ens o; do o=ens(r,c.idx%2,true); while(o.cz.size()>3||o.cf.n>4); auto a=o.ens(); o.prepare(*a); o.state(*a); if(r.coin()) a->EvolveState(); std::string p=file(c); c.desc(o.how); h5mon::reset(); a->WriteStateHDF5(p); uint64_t nw=h5mon::st().calls; h5mon::reset(); { A z(p); } uint64_t nr=h5mon::st().calls; h5mon::forget(); h5mon::reset(); static const std::set<std::string> opt={"oscillations","tau_regeneration","glashow_resonance","basis","neutrino_sources"}; int step=c.thorough?1:std::max<int>(1,(nw+nr)/250);
  for(uint64_t k=1+r.in(0,step-1);k<=nw;k+=step){ std::string f=file(c,"w.h5"); h5mon::reset(k); h5mon::about().clear(); int t=vh::throws([&]{ a->WriteStateHDF5(f); }); bool hit=h5mon::st().failed; std::string nm=h5mon::st().failedName+" "+h5mon::about(),tr=h5mon::st().trouble; h5mon::reset(); h5mon::st().trouble=tr; if(!hit) continue; c.count("injected-saving"); bool ok=t==1; if(t==0){ try{ A b(f); ok=restored(c,o,*a,b,r).empty(); }catch(std::exception&){} } c.check("ensemble/save-failure-unreported",ok,"failure of "+nm+" while saving"); still(c,"saving with a failing "+nm); }
  for(uint64_t k=1+r.in(0,step-1);k<=nr;k+=step){ h5mon::reset(k); h5mon::about().clear(); std::unique_ptr<A> b; int t=vh::throws([&]{ b.reset(new A(p)); }); bool hit=h5mon::st().failed; std::string nm=h5mon::st().failedName+" "+h5mon::about(),tr=h5mon::st().trouble; bool o_=opt.count(h5mon::about()); h5mon::reset(); h5mon::st().trouble=tr; if(!hit) continue; c.count("injected-loading"); std::string w; if(t==0&&!o_) w=restored(c,o,*a,*b,r); c.check("ensemble/load-failure-unreported",t==1||o_||w.empty(),"failure of "+nm+" while loading: "+w); still(c,"loading with a failing "+nm); }
  c.nontrivial(o.how); c.sample(o.how); }
// what does not fit is refused
VH_GROUP("refusals",250,3000){
  Rng& r=c.rng; Mute q; Ens o=ens(r); const Conf& cf=o.cf; c.desc(o.how); auto a=o.ens(); unsigned n=cf.n,nc=o.cz.size(); auto no=[&](const char* w,std::function<void()> f){ c.check("ensemble/accepted",vh::throws(f)==1,std::string(w)+" accepted"); c.count("refused"); }; auto big=[&](unsigned k){ unsigned v[]={k,k+1,100,0x7fffffffu,0xffffffffu}; return std::max(k,v[r.in(0,4)]); }; double E=cf.E[0],z=o.cz[0]; std::vector<bool> av(n);
  no("evaluation before a state",[&]{ a->EvalFlavor(0,z,E,0); }); no("evaluation before a state",[&]{ a->EvalFlavor(0,z,E,0,1.,av); }); no("evolution before a state",[&]{ a->EvolveState(); }); no("saving before a state",[&]{ a->WriteStateHDF5(c.tmp+"/no.h5"); });
  o.prepare(*a); auto wrong=[&]{ Basis b=r.coin()?flavor:mass; int k=r.in(0,5); size_t d[4]={nc,cf.E.size(),2,n}; if(k<4) d[k]=k==2?(r.coin()?1:3):r.coin()?d[k]+1:d[k]-1; if(k==4) b=interaction; bool four=cf.nt==both; if(k==5||(k==2&&!four)) four=!four; if(four){ marray<double,4> x{d[0],d[1],d[2],d[3]}; std::fill(x.begin(),x.end(),.5); a->Set_initial_state(x,b); } else { marray<double,3> x{d[0],d[1],d[3]}; std::fill(x.begin(),x.end(),.5); a->Set_initial_state(x,b); } }; no("initial state of another shape",wrong); no("evolution before a state",[&]{ a->EvolveState(); });
  o.state(*a); no("initial state of another shape",wrong); a->Set_EvalThreads(r.in(1,4)); auto twin=o.ens(); o.prepare(*twin); o.state(*twin); bool ev=r.coin(.7); if(ev) for(A* x:{a.get(),twin.get()}) x->EvolveState();
  for(int i=0;i<6;i++){ unsigned f=r.in(0,n-1),p=r.in(0,cf.nr()-1); double cc=r.uni(o.cz[0],o.cz.back()),e=r.uni(cf.E[0],cf.E.back()); std::string w; switch(r.in(0,3)){ case 0: f=big(n); w=fmt("flavour %u",f); break; case 1: p=big(cf.nr()); w=fmt("type %u",p); break; case 2: { double v[]={NAN,std::nextafter(o.cz[0],-9),std::nextafter(o.cz.back(),9),-2,2,INFINITY,-INFINITY}; cc=v[r.in(0,6)]; w=fmt("cos %.17g",cc); break; } default: { double v[]={NAN,std::nextafter(cf.E[0],0),std::nextafter(cf.E.back(),1e300),0,-1,1e300,INFINITY,-INFINITY}; e=v[r.in(0,7)]; w=fmt("energy %.17g",e); } } if(r.coin(.6)) no(w.c_str(),[&]{ a->EvalFlavor(f,cc,e,p,r.coin(.2)); }); else no((w+" averaged").c_str(),[&]{ a->EvalFlavor(f,cc,e,p,1.,av); }); }
  no("wrong number of flags",[&]{ a->EvalFlavor(0,z,E,0,1.,std::vector<bool>(r.coin()?n+1:n-1)); }); unsigned bi=big(nc); no("member",[&]{ a->GetnuSQuIDS(bi); }); switch(r.in(0,4)){ case 0: no("h of a member",[&]{ a->Set_h(1e9,bi); }); break; case 1: no("h_max of a member",[&]{ a->Set_h_max(1e9,bi); }); break; case 2: no("h_min of a member",[&]{ a->Set_h_min(1e9,bi); }); break; case 3: no("error of a member",[&]{ a->Set_rel_error(1e-3,bi); }); break; default: no("error of a member",[&]{ a->Set_abs_error(1e-3,bi); }); } no("no Earth",[&]{ a->Set_EarthModel(nullptr); }); no("states of a type",[&]{ a->GetStates(big(cf.nr())); }); no("angle",[&]{ a->Set_MixingAngle(n-1,n,.1); }); no("phase",[&]{ a->Set_CPPhase(0,big(n),.1); }); no("splitting",[&]{ a->Set_SquareMassDifference(0,.1); }); no("no angles",[&]{ A b(marray<double,1>{(size_t)0},o.Es(),n,cf.nt,false,nullptr); }); if(!o.inter) no("resonance",[&]{ a->Set_GlashowResonance(true); });
  std::string w=same(o,*twin,*a,Rng(r.u64()),1e-12); c.check("ensemble/after-refusals",w.empty(),w+" after refusals"); c.nontrivial(o.how); c.sample(o.how); }
// failures of members are reported, whatever thread they happen in
VH_GROUP("failures",160,2500){
  Rng& r=c.rng; Mute q; Ens o=ens(r); auto a=o.ens(); o.prepare(*a); o.state(*a); int t=r.in(1,6),k=r.in(0,o.cz.size()-1),kind=r.in(0,2); std::string how; if(kind==2&&!(o.inter&&o.cf.nt!=neutrino)) kind=r.in(0,1); Set undo; a->Set_EvalThreads(t); auto& v=a->GetnuSQuIDS(); if(kind==0){ v[k].fails=true; how=fmt("member %d fails",k); } else if(kind==1){ for(auto& m:v) m.fails=r.coin()||&m==&v[k]; how="several members fail"; } else { auto lib=std::make_shared<CrossSectionLibrary>(); lib->addTarget(isoscalar_nucleon,std::shared_ptr<NX>(o.w.nuc[0])); a->SetNeutrinoCrossSections(lib); a->Set_GlashowResonance(true); how="resonance without electrons"; }
  std::string d=o.how+", "+how+fmt(", %d threads",t); c.desc(d); bool bar=r.coin(.2); if(bar) a->Set_ProgressBar(true); std::string msg; int e=vh::throws([&]{ a->EvolveState(); },&msg); c.check("ensemble/failure-unreported",e==1,"a failing evolution is not reported"); if(kind<2) c.check("ensemble/failure-message",msg.find("this evolution fails")!=std::string::npos,"reported as "+msg); c.count(t>1?"failed-in-thread":"failed"); if(bar){ std::ostringstream s; auto* was=std::cout.rdbuf(s.rdbuf()); for(auto& m:v) m.fails=false; if(kind==2) a->SetNeutrinoCrossSections(o.w.lib); o.prepare(*a); o.state(*a); a->Set_EvalThreads(1); a->EvolveState(); std::cout.rdbuf(was); c.check("ensemble/progress",s.str().find("cos(th)")!=std::string::npos,"the progress is not shown any more"); c.count("progress"); }
  for(auto& m:v) m.fails=false; if(kind==2) a->SetNeutrinoCrossSections(o.w.lib); o.prepare(*a); if(kind==2) a->Set_GlashowResonance(false); a->Set_EarthModel(o.earth); o.state(*a); a->EvolveState(); Alone s; for(size_t i=0;i<o.cz.size();i++){ s.push_back(o.one(i)); o.prepare(*s[i],i); if(kind==2) s[i]->Set_GlashowResonance(false); o.state(*s[i],i); s[i]->EvolveState(); } std::string w=nodes(o,*a,s,1e-9); c.check("ensemble/after-failure",w.empty(),w+" after a failure"); c.count("recovered"); c.nontrivial(d); c.sample(d); }
// moved ensembles
VH_GROUP("moves",120,2000){
  Rng& r=c.rng; Mute q; Ens o=ens(r); auto a=o.ens(),twin=o.ens(); std::string d=o.how; c.desc(d); auto move=[&]{ int k=r.in(0,2); d+=fmt(", moved %d",k); c.desc(d); if(k==0){ std::unique_ptr<A> b(new A(std::move(*a))); if(r.coin()) a.swap(b); else { a=std::move(b); return; } std::unique_ptr<A> z(new A(std::move(*a))); a=std::move(z); } else { Ens x=ens(r); auto b=x.ens(); if(r.coin()){ x.prepare(*b); x.state(*b); if(r.coin(.3)) b->EvolveState(); } if(k==1){ *b=std::move(*a); a=std::move(b); } else { A& self=*a; *a=std::move(self); std::swap(*a,*b); a.swap(b); } } c.count("moves"); };
  double p=r.pick(D{.3,.7}); if(r.coin(p)) move(); for(A* x:{a.get(),twin.get()}) o.prepare(*x); int t=r.in(1,4); a->Set_EvalThreads(t); if(r.coin(p)) move(); for(A* x:{a.get(),twin.get()}) o.state(*x); if(r.coin(p)) move(); c.check("ensemble/moved-threads",a->Get_EvalThreads()==(unsigned)t,"number of threads"); a->EvolveState(); twin->EvolveState(); if(r.coin(p)) move(); std::string w=same(o,*twin,*a,Rng(r.u64()),1e-12); if(!c.check("ensemble/moved",w.empty(),w+d)) return; double h=a->EvalFlavor(0,o.cz[0],o.cf.E[0],0,true); c.check("ensemble/random",std::isfinite(h),"random height"); if(o.inter) c.check("ensemble/moved-tables",a->GetInteractionStructure()&&a->GetNeutrinoCrossSections()==o.w.lib,"tables"); if(r.coin(.5)){ A b(std::move(*a)); c.check("ensemble/moved-away",vh::throws([&]{ a->EvolveState(); })==1&&vh::throws([&]{ a->EvalFlavor(0,o.cz[0],o.cf.E[0],0); })==1,"an ensemble which was moved away is used"); if(r.coin(.4)&&o.plain){ std::string f=file(c); b.WriteStateHDF5(f); a->ReadStateHDF5(f); std::string v=same(o,*twin,*a,Rng(r.u64()),1e-10); c.check("ensemble/moved-reused",v.empty(),v+" read into an ensemble which was moved away"); double x=a->EvalFlavor(0,o.cz[0],o.cf.E[0],0,true); c.check("ensemble/random",std::isfinite(x),"random height"); c.count("reused"); } *a=std::move(b); } w=goOn(o,*twin,*a,r); c.check("ensemble/moved-continued",w.empty(),w+d); c.count("compared"); c.nontrivial(d); c.sample(d); }
#endif
