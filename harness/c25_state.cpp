// C25: an evolution object saved to HDF5 comes back as it was, wherever, however often and into whatever it is read.
#include <unistd.h>
#include "obj.h"
#include "h5lt.h"
// both go on in the same way
static std::string goOn(Obj& o,U& a,U& b,Rng& r,bool resume,bool last,std::string& how){ double L=o.L; if(!resume){ Leg l=o.l; if(o.l.sub&&r.coin()){ double f=r.uni(.2,1); a.Set_Track(l.sub(l.x0,l.x0+f*L)); b.Set_Track(l.sub(l.x0,l.x0+f*L)); how="same body again"; } else if(!last||r.coin(.3)||o.inter){ a.Set_Track(l.track()); b.Set_Track(l.track()); how="same body again"; } else { do l=leg(r,r.in(0,NLEG-1),5); while(l.x1-l.x0<50*K.km||o.cf.big*(l.x1-l.x0)/2/o.cf.E[0]>20); L=l.x1-l.x0; for(U* s:{&a,&b}){ s->Set_Body(l.body); s->Set_Track(l.track()); } how="then "+l.how; } } else how="resumed"; double ps=L/r.uni(1,9); tune(r,{&a,&b},o.scale,L,&ps); if(r.coin(.2)){ Basis q=r.coin()?mass:interaction; a.Set_Basis(q); b.Set_Basis(q); } if(r.coin(.15)){ bool q=r.coin(); a.Set_IncludeOscillations(q); b.Set_IncludeOscillations(q); } a.EvolveState(); b.EvolveState();
  for(int e=0;e<o.cf.ne();e++)for(int q=0;q<o.cf.nr();q++)for(int i=0;i<o.cf.n;i++){ double x=a.EvalFlavorAtNode(i,e,q),y=b.EvalFlavorAtNode(i,e,q); if(!Ctx::close(x,y,1e-8,1e-8*o.scale)) return fmt("flavour %d energy %d rho %d: %.17g, restored %.17g (%s)",i,e,q,x,y,how.c_str()); } return ""; }
static bool still(Ctx& c,const std::string& what){ bool k=c.check("state/handles",h5mon::live().empty(),what+" left open: "+h5mon::leaks()); h5mon::forget(); k&=c.check("state/double-close",h5mon::st().trouble.empty(),h5mon::st().trouble); h5mon::st().trouble.clear(); auto n=H5Fget_obj_count(H5F_OBJ_ALL,H5F_OBJ_ALL); k&=c.check("state/handles",n<=0,fmt("%s left %d HDF5 objects open",what.c_str(),(int)n)); return k; }
static std::unique_ptr<Obj> used(Rng& r){ return gen(r,r.in(0,1)); }
struct Saved{ std::unique_ptr<Obj> o; std::string grp; bool xs=true; std::string loc; };
static std::string file(Ctx& c,const char* n="s.h5"){ std::string p=c.tmp+"/"+n; unlink(p.c_str()); return p; }
static void trip(Ctx& c,bool many){
  Rng& r=c.rng; h5mon::reset(); std::string p=file(c); int n=many||r.coin(.7)?1:r.in(2,3); std::vector<Saved> all; bool shared=r.coin(.3); for(int i=0;i<n;i++){ Saved s; s.o=gen(r,r.in(0,2),many?int(c.idx%2):-1,many); if(n==1&&r.coin()) s.grp="/"; else s.grp=fmt("%sg%d",r.coin(.2)?"":"/",i); if(shared) s.loc=fmt("xs%d",i); all.push_back(std::move(s)); }
  std::string d; for(auto& s:all) d+=s.o->how+" | "; c.desc(d); bool first=true; for(auto& s:all){ s.o->s.WriteStateHDF5(p,s.grp,true,s.loc,first&&r.coin(.7)); first=false; } if(!still(c,"saving")) return;
  for(auto& s:all){ Obj& o=*s.o; std::unique_ptr<U> b; std::unique_ptr<Obj> old; int way=r.in(0,3); bool tag=true; std::string how; if(o.inter&&way==3){ o.s.InitializeInteractions(); b.reset(new U(p,s.grp,o.s.GetInteractionStructure())); how="with given interactions"; tag=false; c.count("given-interactions"); } else if(way<=1&&!shared){ b.reset(new U(p,s.grp)); how="constructed"; tag=false; } else { b.reset(new U); if(r.coin(.6)){ old=used(r); b.reset(new U(std::move(old->s))); *(NS*)b.get()=NS(); old.reset(); old=used(r); U& t=old->s; t.ReadStateHDF5(p,s.grp,s.loc); b.reset(); how="into another object ("+old->how+")"; c.count("into-used"); } else { b->ReadStateHDF5(p,s.grp,s.loc); how="into a new object"; } }
    U& t=b?*b:old->s; still(c,"loading"); c.desc(o.how+" "+how); std::string w=differs(o,o.s,t,r,tag); if(!c.check("state/restored",w.empty(),w+", "+how)) continue; c.count("restored"); if(o.inter) c.count("restored-interactions"); if(o.massb) c.count("restored-mass-basis"); if(o.src) c.count("restored-sources"); if(o.cf.ne()==1) c.count("restored-one-energy");
    // saved again it is the same again
    if(r.coin(.4)){ std::string p2=file(c,"t.h5"); t.WriteStateHDF5(p2,"/z"); U q; q.ReadStateHDF5(p2,"/z"); still(c,"saving again"); w=differs(o,o.s,q,r,tag); c.check("state/again",w.empty(),w+", saved again"); c.count("again"); }
    std::string hw; bool resume=r.coin(.3)&&o.how.find("stage 0")!=std::string::npos; for(int k=r.in(1,2);k--;){ w=goOn(o,o.s,t,r,resume,k==0,hw); resume=false; if(!c.check("state/continued",w.empty(),w+", "+how)) break; c.count("continued"); }
    if(o.inter&&r.coin(.3)){ World nw=World::make(r,o.cf.E[0],1,o.L,.2); o.s.SetNeutrinoCrossSections(nw.lib); t.SetNeutrinoCrossSections(nw.lib); std::string hw2; w=goOn(o,o.s,t,r,false,false,hw2); c.check("state/continued",w.empty(),w+", with other cross sections"); c.count("other-cross-sections"); } }
  c.nontrivial(d); c.sample(d); }
VH_GROUP("roundtrip",700,9000){ trip(c,false); }
// more energies than 8 bits count
VH_GROUP("many",4,50){ trip(c,true); c.count("many-energies"); }
// one part absent, of another shape, or senseless
static void attrDel(hid_t f,const std::string& o,const char* a){ H5Adelete_by_name(f,o.c_str(),a,H5P_DEFAULT); }
static std::string damage(Rng& r,const Obj& o,hid_t f,const std::string& g){ std::string pre=g=="/"?"/":g+"/"; auto nm=[&](const char* x){ return pre+x; }; int n=o.cf.n,ne=o.cf.ne(); const char* stt=o.cf.nt==antineutrino?"aneustate":o.cf.nt==neutrino?"neustate":r.coin()?"neustate":"aneustate";
  auto reshape=[&](const std::string& s){ H5Ldelete(f,s.c_str(),H5P_DEFAULT); }; std::string at[]={"numneu","NT","interactions","squids_time","squids_time_initial","squids_version_number","nusquids_version_number"}; int k=r.in(0,o.inter?11:8);
  switch(k){ case 0: { const char* it[]={"energies","basic","mixingangles","CPphases","massdifferences","track","body","user_parameters",stt}; std::string s=nm(it[r.in(0,8)]); H5Ldelete(f,s.c_str(),H5P_DEFAULT); return "no "+s; }
    case 1: { std::string a=at[r.in(0,6)]; attrDel(f,nm("basic"),a.c_str()); return "no attribute "+a; }
    case 2: { int i=r.in(0,n-2),j=r.in(i+1,n-1); std::string a; const char* w; if(r.coin(.3)){ w="massdifferences"; a=fmt("dm%d1sq",j+1); } else if(r.coin()){ w="mixingangles"; a=fmt("th%d%d",i+1,j+1); } else { w="CPphases"; a=fmt("delta%d%d",i+1,j+1); } attrDel(f,nm(w),a.c_str()); return "no attribute "+a; }
    case 3: { unsigned v[]={0,2,7,1000000,(unsigned)(n==6?5:n+1)}; unsigned x=v[r.in(0,4)]; H5LTset_attribute_uint(f,nm("basic").c_str(),"numneu",&x,1); return fmt("numneu %u",x); }
    case 4: { int v[]={7,-1,100}; int x=v[r.in(0,2)]; H5LTset_attribute_int(f,nm("basic").c_str(),"NT",&x,1); return fmt("type %d",x); }
    case 5: { std::string s=nm(stt); int q=r.in(0,4); hsize_t dd[2]={(hsize_t)ne,(hsize_t)n*n},rank=2; if(q==0) dd[0]++; if(q==1) dd[1]++; if(q==2){ if(ne>1) dd[0]--; else dd[1]--; } if(q==3){ rank=1; dd[0]=ne*n*n; } if(q==4){ dd[0]=n*n; dd[1]=ne; if(ne==n*n) dd[0]++; } std::vector<double> z((ne+1)*(n*n+2)+(n*n+1)*(ne+1),.5); H5Ldelete(f,s.c_str(),H5P_DEFAULT); H5LTmake_dataset_double(f,s.c_str(),rank,dd,z.data()); return fmt("%s of rank %d, %d by %d",stt,(int)rank,(int)dd[0],(int)dd[1]); }
    case 6: { std::string s=nm("energies"); int q=r.in(0,3); hsize_t dd[2]={(hsize_t)ne,1}; int rank=1; if(q==0) dd[0]++; else if(q==1) dd[0]=0; else if(q==2){ rank=2; dd[1]=2; } else if(ne>1) dd[0]--; else dd[0]++; std::vector<double> z; for(int i=0;i<2*ne+4;i++) z.push_back(1e9*(i+1)); H5Ldelete(f,s.c_str(),H5P_DEFAULT); H5LTmake_dataset_double(f,s.c_str(),rank,dd,z.data()); return fmt("%d energies of rank %d instead of %d",(int)dd[0],rank,ne); }
    case 7: { const char* w=r.coin()?"squids_version_number":"nusquids_version_number"; unsigned v=4000000000u; H5LTset_attribute_uint(f,nm("basic").c_str(),w,&v,1); return std::string("newer ")+w; }
    case 8: { if(r.coin()){ std::string s=nm(r.coin()?"body":"track"); attrDel(f,s,"name"); if(r.coin()) H5LTset_attribute_string(f,s.c_str(),"name","Nonexistent"); return "name of "+s; } std::string s(r.in(20,3000),'x'); H5LTset_attribute_string(f,nm("basic").c_str(),"interactions",s.c_str()); return "interactions is a text of "+fmt("%d",(int)s.size()); }
    case 9: { const char* it[]={"targets","sigmacc","sigmanc","sigmagr","dNdEcc","dNdEnc","dNdEgr","dNdEtauall","dNdEtaulep"}; std::string s=nm("crosssections/")+it[r.in(0,8)]; H5Ldelete(f,s.c_str(),H5P_DEFAULT); return "no "+s; }
    case 10: { H5Ldelete(f,nm("crosssections").c_str(),H5P_DEFAULT); return "no cross sections"; }
    default: { struct T{ const char* n; int rank; } it[]={{"sigmacc",4},{"sigmanc",4},{"sigmagr",1},{"dNdEcc",5},{"dNdEnc",5},{"dNdEgr",2},{"dNdEtauall",3},{"dNdEtaulep",3}}; auto& t=it[r.in(0,7)]; std::string s=nm("crosssections/")+t.n; hsize_t dd[8]; H5T_class_t cl; size_t sz; H5LTget_dataset_info(f,s.c_str(),dd,&cl,&sz); int rank=t.rank; std::string was; for(int i=0;i<rank;i++) was+=fmt("%d ",(int)dd[i]); int q=r.in(0,2); if(q==2&&rank>1){ dd[rank-2]*=dd[rank-1]; rank--; } else { int ax=r.in(0,rank-1); if(q==0||dd[ax]==1) dd[ax]+=r.coin()?1:7; else dd[ax]--; } hsize_t tot=1; for(int i=0;i<rank;i++) tot*=dd[i]; std::vector<double> z(tot,1e-30); H5Ldelete(f,s.c_str(),H5P_DEFAULT); H5LTmake_dataset_double(f,s.c_str(),rank,dd,z.data()); std::string is; for(int i=0;i<rank;i++) is+=fmt("%d ",(int)dd[i]); return std::string(t.n)+" of "+was+"became "+is; } } (void)reshape; }
VH_GROUP("damage",900,12000){
  Rng& r=c.rng; h5mon::reset(); std::string p=file(c),good=file(c,"good.h5"); auto o=gen(r,r.in(0,1),c.idx%2); std::string g=r.coin()?"/":"/a"; o->s.WriteStateHDF5(p,g); o->s.WriteStateHDF5(good,"/"); std::string what; { hid_t f=H5Fopen(p.c_str(),H5F_ACC_RDWR,H5P_DEFAULT); what=damage(r,*o,f,g); H5Fclose(f); } h5mon::forget(); c.desc(o->how+": "+what);
  std::unique_ptr<Obj> u=r.coin(.5)?used(r):nullptr; U fresh; U& t=u?u->s:fresh; std::string msg; int k=r.coin(.5)?vh::throws([&]{ t.ReadStateHDF5(p,g); },&msg):vh::throws([&]{ U q(p,g); },&msg); c.check("state/damaged",k==1,"read without complaint: "+what); still(c,"refusing"); c.count("damaged");
  t.ReadStateHDF5(good); std::string w=differs(*o,o->s,t,r,true); c.check("state/after-damage",w.empty(),w+" after "+what); still(c,"loading after a refusal");
  // an interaction structure that does not belong to the file
  if(o->inter){ auto other=gen(r,0,1); bool fits=other->cf.ne()==o->cf.ne()&&other->cf.nr()==o->cf.nr()&&other->cf.n==o->cf.n; if(!fits){ other->s.InitializeInteractions(); auto is=other->s.GetInteractionStructure(); int k2=vh::throws([&]{ U q(good,"/",is); tune(r,{&q},o->scale,o->L); q.Set_Track(o->l.track()); q.EvolveState(); }); c.check("state/foreign-interactions",k2==1,"interactions of "+other->how+" taken for "+o->how); still(c,"foreign interactions"); c.count("foreign-interactions"); }
    std::string p3=file(c,"x.h5"); o->s.WriteStateHDF5(p3,"/a",false,"xs",true); other->s.WriteStateHDF5(p3,"/b",true,"xs",false); if(!fits){ int k3=vh::throws([&]{ U q; q.ReadStateHDF5(p3,"/a","xs"); }); c.check("state/foreign-interactions",k3==1,"cross sections of "+other->how+" read for "+o->how); still(c,"foreign cross sections"); } c.check("state/unsaved-interactions",vh::throws([&]{ U q; q.ReadStateHDF5(p3,"/a",""); })==1,"cross sections which had not been saved were read"); still(c,"unsaved cross sections"); }
  c.nontrivial(c.idx%2?"i"+what:what); c.sample(o->how+": "+what); }
// every HDF5 call of saving and of loading fails once
VH_GROUP("faults",70,900){
  Rng& r=c.rng; std::string p=file(c); auto o=gen(r,r.in(0,1),c.idx%2); std::string g=r.coin()?"/":"/a"; c.desc(o->how); h5mon::reset(); o->s.WriteStateHDF5(p,g); uint64_t nw=h5mon::st().calls; h5mon::reset(); { U q; q.ReadStateHDF5(p,g); } uint64_t nr=h5mon::st().calls; h5mon::forget(); h5mon::reset(); static const std::set<std::string> opt={"oscillations","tau_regeneration","glashow_resonance","basis","neutrino_sources"};
  for(uint64_t k=1;k<=nw;k++){ std::string q=file(c,"w.h5"); h5mon::reset(k); h5mon::about().clear(); int t=vh::throws([&]{ o->s.WriteStateHDF5(q,g); }); bool hit=h5mon::st().failed; std::string nm=h5mon::st().failedName+" "+h5mon::about(); std::string tr=h5mon::st().trouble; h5mon::reset(); h5mon::st().trouble=tr; if(!hit) continue; c.count("injected-saving"); bool ok=t==1; if(t==0){ U b; try{ b.ReadStateHDF5(q,g); ok=differs(*o,o->s,b,r,true).empty(); }catch(std::exception&){} } c.check("state/save-failure-unreported",ok,"failure of "+nm+" while saving"); still(c,"saving with a failing "+nm); }
  for(uint64_t k=1;k<=nr;k++){ U b; h5mon::reset(k); h5mon::about().clear(); int t=vh::throws([&]{ b.ReadStateHDF5(p,g); }); bool hit=h5mon::st().failed; std::string nm=h5mon::st().failedName+" "+h5mon::about(); bool o_=opt.count(h5mon::about()); std::string tr=h5mon::st().trouble; h5mon::reset(); h5mon::st().trouble=tr; if(!hit) continue; c.count("injected-loading"); std::string w; bool ok=t==1||o_; if(t==0&&!o_){ w=differs(*o,o->s,b,r,true); ok=w.empty(); } c.check("state/load-failure-unreported",ok,"failure of "+nm+" while loading: "+w); still(c,"loading with a failing "+nm); }
  c.nontrivial(o->how); c.sample(fmt("%d calls of saving and %d of loading, ",(int)nw,(int)nr)+o->how); }
// what was there before stays there, or goes when told so
VH_GROUP("files",250,3000){
  Rng& r=c.rng; h5mon::reset(); std::string p=file(c); auto a=gen(r,r.in(0,1)),b=gen(r,r.in(0,1)); c.desc(a->how+" | "+b->how); int k=r.in(0,4); auto same=[&](Obj& o,const std::string& g,const char* key,const char* w){ U t; std::string s; int e=vh::throws([&]{ t.ReadStateHDF5(p,g); },&s); if(!e) s=differs(o,o.s,t,r,true); c.check(std::string("state/")+key,!e&&s.empty(),std::string(w)+": "+s); still(c,w); };
  switch(k){ case 0: { a->s.WriteStateHDF5(p,"/a"); std::string g=r.coin()?"/a":"/b"; int e=vh::throws([&]{ b->s.WriteStateHDF5(p,g,true,"",false); }); same(*a,"/a","kept","state which was there before"); if(g=="/b"){ c.check("state/added",e==0,"another state could not be added"); same(*b,"/b","added","added state"); } else c.check("state/same-place",e==1,"a state was saved on top of another without complaint"); break; }
    case 1: { a->s.WriteStateHDF5(p,"/"); int e=vh::throws([&]{ b->s.WriteStateHDF5(p,"/",true,"",false); }); c.check("state/same-place",e==1,"a state was saved on top of another without complaint"); same(*a,"/","kept","state which was there before"); if(!vh::throws([&]{ b->s.WriteStateHDF5(p,"/b",true,"",false); })){ same(*b,"/b","added","added state"); same(*a,"/","kept","state which was there before"); } break; }
    case 2: { std::string text="notes\n"; for(int i=r.in(0,2000);i--;) text+=char('a'+r.in(0,25)); FILE* f=fopen(p.c_str(),"w"); fwrite(text.data(),1,text.size(),f); fclose(f); int e=vh::throws([&]{ b->s.WriteStateHDF5(p,"/b",true,"",false); }); std::string now; f=fopen(p.c_str(),"r"); if(f){ char q[4096]; size_t n=fread(q,1,sizeof q,f); now.assign(q,n); fclose(f); } c.check("state/kept-file",e==1&&now==text,"a file which is not HDF5 was replaced although overwriting was refused"); still(c,"not an HDF5 file"); U t; c.check("state/not-hdf5",vh::throws([&]{ t.ReadStateHDF5(p); })==1,"read from a text"); still(c,"reading a text"); b->s.WriteStateHDF5(p,"/b",true,"",true); same(*b,"/b","overwritten","overwritten file"); break; }
    case 3: { a->s.WriteStateHDF5(p,"/a"); b->s.WriteStateHDF5(p,"/b"); same(*b,"/b","overwritten","overwritten file"); U t; c.check("state/overwritten",vh::throws([&]{ t.ReadStateHDF5(p,"/a"); })==1,"what was overwritten is still there"); still(c,"missing group"); break; }
    default: { U t; int e=vh::throws([&]{ t.ReadStateHDF5(c.tmp+"/none.h5"); }); c.check("state/missing",e==1,"a missing file was read"); still(c,"missing file"); e=vh::throws([&]{ a->s.WriteStateHDF5(c.tmp+"/none/x.h5","/",true,"",r.coin()); }); c.check("state/missing",e==1,"saved into a missing directory"); still(c,"missing directory"); e=vh::throws([&]{ a->s.WriteStateHDF5(c.tmp,"/",true,"",r.coin()); }); c.check("state/missing",e==1,"saved over a directory"); still(c,"directory"); a->s.WriteStateHDF5(p,"/a",true,"",false); same(*a,"/a","restored","new file"); U q; c.check("state/incomplete",vh::throws([&]{ q.WriteStateHDF5(p); })==1,"an empty object was saved"); NS n; b->cf.build(n,b->inter,b->w.lib); c.check("state/incomplete",vh::throws([&]{ n.WriteStateHDF5(p); })==1,"an object without a state was saved"); still(c,"refusing to save"); same(*a,"/a","kept","state after a refusal"); } }
  c.nontrivial(fmt("%d",k)+a->how+b->how); c.sample(a->how); }
