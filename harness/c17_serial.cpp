// C17: bodies and tracks through HDF5 and the registry of types, with handles tracked and calls made to fail.
#include "vh.h"
#include <typeinfo>
#include <typeindex>
#include <hdf5_hl.h>
#include "bodies.h"
#include "h5mon.h"
using vh::Ctx; using namespace bd;
struct F{ hid_t id; F(const std::string& p){ id=H5Fcreate(p.c_str(),H5F_ACC_TRUNC,H5P_DEFAULT,H5P_DEFAULT); } ~F(){ H5Fclose(id); } };
struct G{ hid_t id; G(hid_t f,const char* n){ id=H5Gcreate2(f,n,H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); } ~G(){ H5Gclose(id); } };
static std::string storedName(hid_t g){ std::string s; readH5Attribute(g,"name",s); return s; }
static bool eqd(const D& a,const D& b){ return a.size()==b.size()&&std::equal(a.begin(),a.end(),b.begin()); }
static void balanced(Ctx& c,size_t before,const std::string& what){ c.check("serial/balance",h5mon::live().size()==before,what+" left open: "+h5mon::leaks()); c.check("serial/double-close",h5mon::st().trouble.empty(),h5mon::st().trouble); }
static void visit(hid_t g,std::vector<std::string>& attrs,std::vector<std::string>& sets){ H5Aiterate2(g,H5_INDEX_NAME,H5_ITER_INC,nullptr,[](hid_t,const char* n,const H5A_info_t*,void* p)->herr_t{ ((std::vector<std::string>*)p)->push_back(n); return 0; },&attrs); H5Literate(g,H5_INDEX_NAME,H5_ITER_INC,nullptr,[](hid_t,const char* n,const H5L_info_t*,void* p)->herr_t{ ((std::vector<std::string>*)p)->push_back(n); return 0; },&sets); }
static std::string sameMedium(const Body& a,const Body& b,Track& t,double len,double unit,Rng& r,int n){ double keep=t.GetX(); std::string bad; for(int i=0;i<n&&bad.empty();i++){ double x=(i==0?0:i==1?len:len*r.uni(0,1))*unit; t.SetX(x); double d1=a.density(t),d2=b.density(t),y1=a.ye(t),y2=b.ye(t); if(memcmp(&d1,&d2,8)||memcmp(&y1,&y2,8)) bad=fmt("at %.17g: density %.17g became %.17g, ye %.17g became %.17g",x/unit,d1,d2,y1,y2); } t.SetX(keep); return bad; }
static const char* tname(int k){ static const std::string n[]={Vacuum::Track::GetName(),ConstantDensity::Track::GetName(),VariableDensity::Track::GetName(),Earth::Track::GetName(),Sun::Track::GetName(),SunASnu::Track::GetName(),EarthAtm::Track::GetName()}; return n[k].c_str(); }
static const char* bname(int k){ static const std::string n[]={Vacuum::GetName(),ConstantDensity::GetName(),VariableDensity::GetName(),Earth::GetName(),Sun::GetName(),SunASnu::GetName(),EarthAtm::GetName()}; return n[k].c_str(); }
VH_GROUP("roundtrip",2500,40000){
  Rng& r=c.rng; int kind=c.idx%NKIND; Made m=make(r,kind,false,c.tmp); bool flag=r.coin(.3); if(flag) m.body->SetIsConstantDensity(true); Way w=way(r,m); if(r.coin(.3)) w.t->ReverseTrack(); if(r.coin()) w.t->SetX(w.len*w.unit*r.unit()); c.desc(fmt("%s, %s, %s",kindName(kind),m.how.c_str(),w.how.c_str()));
  F f(c.tmp+"/s.h5"); h5mon::reset(); size_t before=h5mon::live().size(); std::shared_ptr<Body> b2; std::shared_ptr<Track> t2;
  { G g(f.id,"body"),h(f.id,"track"); m.body->Serialize(g.id); w.t->Serialize(h.id); balanced(c,before+2,"Serialize"); std::string bn=storedName(g.id),tn=storedName(h.id); c.check("serial/name",bn==bname(kind)&&tn==tname(kind),"stored names "+bn+" and "+tn);
    b2=GetBodyDeserializer(bn)(g.id); t2=GetTrackDeserializer(tn)(h.id); balanced(c,before+2,"Deserialize"); }
  if(!c.check("serial/got",b2&&t2,"nothing came back")) return;
  Body& A=*m.body; Body& B=*b2; Track& T=*w.t; Track& U=*t2; c.check("serial/type",typeid(A)==typeid(B),std::string("body came back as ")+typeid(B).name()); c.check("serial/track-type",typeid(T)==typeid(U),std::string("track came back as ")+typeid(U).name());
  c.check("serial/body-params",eqd(A.GetBodyParams(),B.GetBodyParams()),""); c.check("serial/constant-flag",A.IsConstantDensity()==B.IsConstantDensity(),fmt("%d became %d",A.IsConstantDensity(),B.IsConstantDensity()));
  if(!c.check("serial/track",T.GetX()==U.GetX()&&T.GetInitialX()==U.GetInitialX()&&T.GetFinalX()==U.GetFinalX(),fmt("x %.17g ini %.17g end %.17g became %.17g %.17g %.17g",T.GetX(),T.GetInitialX(),T.GetFinalX(),U.GetX(),U.GetInitialX(),U.GetFinalX()))||typeid(A)!=typeid(B)||typeid(T)!=typeid(U)) return;
  D pa=T.GetTrackParams(),pb=U.GetTrackParams(); bool ok=pa.size()==pb.size(); for(size_t i=0;ok&&i<pa.size();i++) ok=pa[i]==pb[i]||(i>=2&&std::fabs(pa[i]-pb[i])<=1e-14*std::fabs(pa[i])); c.check("serial/track-params",ok,vh::join(pa)+" became "+vh::join(pb));
  std::string s=sameMedium(A,B,T,w.len,w.unit,r,12); c.check("serial/medium",s.empty(),s); s=sameMedium(A,B,U,w.len,w.unit,r,4); c.check("serial/medium",s.empty(),s);
  { double k=T.GetX(); for(int i=0;i<6;i++){ double x=w.len*w.unit*r.unit(); T.SetX(x); U.SetX(x); double a=A.density(T),b=A.density(U),y=A.ye(T),z=A.ye(U); c.check("serial/track-in-body",a==b&&y==z,fmt("density %.17g on the restored track, %.17g on the original",b,a)); } T.SetX(k); U.SetX(k); }
  if(kind==EARTH) c.check("serial/geometry",static_cast<Earth::Track&>(T).GetBaseline()==static_cast<Earth::Track&>(U).GetBaseline()&&static_cast<Earth&>(A).GetRadius()==static_cast<Earth&>(B).GetRadius(),"");
  if(kind==SUN) c.check("serial/geometry",static_cast<Sun&>(A).GetRadius()==static_cast<Sun&>(B).GetRadius(),""); if(kind==SUNNU) c.check("serial/geometry",static_cast<SunASnu&>(A).GetRadius()==static_cast<SunASnu&>(B).GetRadius(),"");
  if(kind==ATM){ auto &a=static_cast<EarthAtm&>(A),&b=static_cast<EarthAtm&>(B); c.check("serial/geometry",static_cast<EarthAtm::Track&>(T).GetBaseline()==static_cast<EarthAtm::Track&>(U).GetBaseline()&&a.GetRadius()==b.GetRadius()&&a.GetAtmosphereHeight()==b.GetAtmosphereHeight(),fmt("height %g became %g",a.GetAtmosphereHeight(),b.GetAtmosphereHeight())); double q=r.uni(-1,1); c.check("serial/factories",eqd(a.MakeTrackWithCosine(q).GetTrackParams(),b.MakeTrackWithCosine(q).GetTrackParams()),""); }
  { U.ReverseTrack(); T.ReverseTrack(); c.check("serial/track",T.GetInitialX()==U.GetInitialX()&&T.GetFinalX()==U.GetFinalX(),"after reversal"); }
  // absent parts, parts of the wrong size, another type
  { G g(f.id,"b2"),h(f.id,"t2"); A.Serialize(g.id); T.Serialize(h.id); std::vector<std::string> at,ds; visit(g.id,at,ds); std::vector<std::string> ta,td; visit(h.id,ta,td); static const std::set<std::string> opt={"name","radius","atm_height","is_constant_density","b_impact","earth_radius","atmheight"};
    auto bd_=[&]{ return vh::throws([&]{ auto q=GetBodyDeserializer(bname(kind))(g.id); }); }; auto td_=[&]{ return vh::throws([&]{ auto q=GetTrackDeserializer(tname(kind))(h.id); }); };
    c.check("serial/complete",bd_()==0&&td_()==0,"second copy"); size_t lv=h5mon::live().size(); std::string victim; bool done=false;
    if(r.coin()){ std::vector<std::string> v; for(auto& s:at) if(!opt.count(s)) v.push_back("@"+s); for(auto& s:ds) v.push_back(s); if(!v.empty()){ victim=r.pick(v); if(victim[0]=='@') H5Adelete(g.id,victim.c_str()+1); else { int how=r.in(0,2); H5Ldelete(g.id,victim.c_str(),H5P_DEFAULT); hsize_t dd=m.x.size()+(r.coin()?1:-1); std::vector<double> junk(dd*2+2,.5); hsize_t d2[2]={2,dd}; if(how==1) H5LTmake_dataset_double(g.id,victim.c_str(),1,&dd,junk.data()); if(how==2) H5LTmake_dataset_double(g.id,victim.c_str(),2,d2,junk.data()); } done=true; c.check("serial/incomplete-body",bd_()==1,"a body was made although "+victim+" was absent or of the wrong shape"); } }
    else { std::vector<std::string> v; for(auto& s:ta) if(!opt.count(s)) v.push_back(s); victim=r.pick(v); H5Adelete(h.id,victim.c_str()); if(r.coin(.3)) addH5Attribute<std::string>(h.id,victim,"text"); done=true; c.check("serial/incomplete-track",td_()==1,"a track was made although "+victim+" was absent or of the wrong type"); }
    balanced(c,lv,"refused "+victim); if(done) c.count("incomplete"); }
  { G g(f.id,"empty"); int k=r.in(0,NKIND-1); size_t lv=h5mon::live().size(); if(k!=VAC) c.check("serial/empty",vh::throws([&]{GetBodyDeserializer(bname(k))(g.id);})==1,std::string("a ")+kindName(k)+" was made from an empty group"); c.check("serial/empty",vh::throws([&]{GetTrackDeserializer(tname(k))(g.id);})==1,std::string("a track of ")+kindName(k)+" was made from an empty group"); c.check("serial/unknown",vh::throws([&]{GetBodyDeserializer(r.coin()?"Nonexistent":"EarthTrack");})==1&&vh::throws([&]{GetTrackDeserializer(r.coin()?"Earth":"");})==1,"unknown type accepted"); balanced(c,lv,"refused");
    if(k!=VAC) c.check("serial/no-location",vh::throws([&]{GetBodyDeserializer(bname(k))(-1);})==1,""); c.check("serial/no-location",vh::throws([&]{A.Serialize(-1);})==1&&vh::throws([&]{T.Serialize(-1);})==1,"writing to an invalid location succeeded"); }
  // each HDF5 call of a round trip failing once
  if(c.idx%4==0){ G g(f.id,"i"),h(f.id,"j"); h5mon::reset(); A.Serialize(g.id); T.Serialize(h.id); GetBodyDeserializer(bname(kind))(g.id); GetTrackDeserializer(tname(kind))(h.id); uint64_t n=h5mon::st().calls;
    for(uint64_t k=1;k<=n;k++){ h5mon::reset(); G gg(f.id,fmt("b%d",(int)k).c_str()),hh(f.id,fmt("t%d",(int)k).c_str()); size_t lv=h5mon::live().size(); h5mon::reset(k); std::shared_ptr<Body> q; std::shared_ptr<Track> p; int t=vh::throws([&]{ A.Serialize(gg.id); T.Serialize(hh.id); q=GetBodyDeserializer(bname(kind))(gg.id); p=GetTrackDeserializer(tname(kind))(hh.id); }); bool hit=h5mon::st().failed; std::string nm=h5mon::st().failedName; std::string tr=h5mon::st().trouble; h5mon::reset();
      if(hit){ c.count("injected"); c.check("serial/failure-unreported",t==1,"failure of "+nm+" was not reported"); c.check("serial/balance",h5mon::live().size()==lv,"after failing "+nm+" left open: "+h5mon::leaks()); c.check("serial/double-close",tr.empty(),tr); } } }
  c.count(std::string("roundtrips-")+kindName(kind)); c.nontrivial(vh::S().desc); c.sample(vh::S().desc);
}
VH_GROUP_SERIAL("registry",1,1){ std::set<std::string> b,t; for(int k=0;k<NKIND;k++){ b.insert(bname(k)); t.insert(tname(k)); c.check("registry/body",vh::throws([&]{auto f=GetBodyDeserializer(bname(k)); if(!f) throw std::runtime_error("");})==0,bname(k)); c.check("registry/track",vh::throws([&]{auto f=GetTrackDeserializer(tname(k)); if(!f) throw std::runtime_error("");})==0,tname(k)); } c.check("registry/one-to-one",b.size()==NKIND&&t.size()==NKIND,"two types share a name");
  std::set<unsigned> ids={Vacuum::GetId(),ConstantDensity::GetId(),VariableDensity::GetId(),Earth::GetId(),Sun::GetId(),SunASnu::GetId(),EarthAtm::GetId()}; c.check("registry/ids",ids.size()==NKIND,"two types share an identifier"); c.nontrivial("registry"); }
// a type registered by the user, with the same machinery
struct Mine: public Body{ double a; Mine(double x):a(x){} void Serialize(hid_t g) const{ addH5Attribute<std::string>(g,"name",GetName()); addH5Attribute(g,"a",a);} static std::shared_ptr<Mine> Deserialize(hid_t g){ double x; readH5Attribute(g,"a",x); return std::make_shared<Mine>(x);} static std::string GetName(){return "Mine";}
  class Track:public Body::Track{ public: Track(double e):Body::Track(0,e){} void Serialize(hid_t g) const{ addH5Attribute<std::string>(g,"name",GetName()); addH5Attribute(g,"e",xend);} static std::shared_ptr<Mine::Track> Deserialize(hid_t g){ double x; readH5Attribute(g,"e",x); return std::make_shared<Mine::Track>(x);} static std::string GetName(){return "MineTrack";} };
  double density(const GenericTrack& t) const{return a*t.GetX();} double ye(const GenericTrack&) const{return .5;} };
NUSQUIDS_REGISTER_BODY(Mine);
VH_GROUP("user-type",50,500){ Rng& r=c.rng; Mine m(r.uni(0,9)); Mine::Track t(r.uni(1,9)); F f(c.tmp+"/u.h5"); G g(f.id,"b"),h(f.id,"t"); m.Serialize(g.id); t.Serialize(h.id); auto b=GetBodyDeserializer(storedName(g.id))(g.id); auto q=GetTrackDeserializer(storedName(h.id))(h.id); q->SetX(2); c.check("serial/user-type",dynamic_cast<Mine*>(b.get())&&dynamic_cast<Mine::Track*>(q.get())&&b->density(*q)==m.a*2&&q->GetFinalX()==t.GetFinalX(),""); c.nontrivial(fmt("%g",m.a)); }
// files written before the impact parameter of a path through the Sun was stored
VH_GROUP("older-files",300,5000){ Rng& r=c.rng; Made m=make(r,SUNNU); Way w=way(r,m); double R=694439.0*P.km; SunASnu::Track& t=static_cast<SunASnu::Track&>(*w.t); if(r.coin(.3)) t.ReverseTrack(); c.desc(w.how); F f(c.tmp+"/o.h5"); G h(f.id,"track"); t.Serialize(h.id); H5Adelete(h.id,"b_impact"); auto u=SunASnu::Track::Deserialize(h.id);
  c.check("older/track",u&&u->GetX()==t.GetX()&&u->GetInitialX()==t.GetInitialX()&&u->GetFinalX()==t.GetFinalX(),w.how); if(!u) return; double b=w.b*P.km;
  for(int i=0;i<4;i++){ double x=w.len*P.km*r.uni(.1,.9); t.SetX(x); u->SetX(x); double rho=m.body->density(t),q=m.body->density(*u); double len=w.len*P.km,rad=std::sqrt(b*b+(x-len/2)*(x-len/2)); if(len<1e-3*R||m.prho->edge(rad/R,1e-6)) continue; double slack=4e-15*(R/rad)*(R/rad); c.near("older/density",q,rho,1e-10,1e-11*m.prho->Y+m.prho->S*(slack+1e-9*len/R),w.how+fmt(" at %g",x/P.km)); c.count("older-densities"); }
  c.nontrivial(w.how); }
