// C19: cross section tables converted between storage layouts, damaged, and written or read with HDF5 calls failing.
#include "vh.h"
#include "xs.h"
#include "h5mon.h"
using vh::Ctx; using namespace xs; typedef NeutrinoDISCrossSectionsFromTables T2; typedef NeutrinoDISCrossSectionsFromTables_V1 T1;
static void sane(Ctx& c,const std::string& after){ c.check("io/balance",h5mon::live().empty(),after+" left open: "+h5mon::leaks()); c.check("io/double-close",h5mon::st().trouble.empty(),h5mon::st().trouble); h5mon::forget(); }
struct Q{ double E1,z; int F,n,k; };
static std::vector<Q> queries(Rng& r,const NeutrinoCrossSections& x,double e0,double e1){ std::vector<Q> v; for(int F=0;F<3;F++)for(int n=0;n<2;n++)for(int k=0;k<2;k++)for(int i=0;i<3;i++){ double l=r.uni(.05,.97); v.push_back(Q{e0*std::pow(e1/e0,l),r.uni(.05,.95),F,n,k}); } return v; }
static void same(Ctx& c,const char* key,const T2& a,const T2& b,const std::vector<Q>& qs,double tol){ double e0=a.GetEmin(); for(auto& q:qs){ double E2=e0+q.z*(q.E1-e0); double s=a.TotalCrossSection(q.E1,fl(q.F),ty(q.n),cu(q.k)),t=b.TotalCrossSection(q.E1,fl(q.F),ty(q.n),cu(q.k)); c.near(key,t,s,tol,0,"total "+what(q.E1,q.F,q.n,q.k)); s=a.SingleDifferentialCrossSection(q.E1,E2,fl(q.F),ty(q.n),cu(q.k)); t=b.SingleDifferentialCrossSection(q.E1,E2,fl(q.F),ty(q.n),cu(q.k)); c.near(key,t,s,tol,0,"differential "+what(q.E1,q.F,q.n,q.k)+fmt(" z=%g",q.z)); } c.near(key,b.GetEmin(),a.GetEmin(),tol,0,"Emin"); c.near(key,b.GetEmax(),a.GetEmax(),tol,0,"Emax"); }
static Tab tame(Rng& r,bool per){ for(;;){ Tab t=make(r,r.in(0,1),per); bool ok=true; for(int i=1;i<t.ne;i++) if(t.e[i]<t.e[i-1]*1.05) ok=false; if(ok) return t; } }
VH_GROUP("convert",500,9000){
  Rng& r=c.rng; Dir d(c.tmp); int share=r.in(0,3); Tab t=tame(r,share!=0); if(share==2) t.f[1]=t.f[0]; if(share==3) t.f[2]=t.f[r.in(0,1)]; bool h=r.coin(); std::string f=d.p+"/a"; if(h){ f+=".h5"; writeHDF(f,t,r.in(0,1)); } else { f+="_"; writeText(f,t); if(r.coin(.4)){ std::string m="\x89HDF\r\n\x1a\n"; int b=r.in(0,8); if(b==8) m.resize(r.in(0,7)); else m[b]^=1<<r.in(0,7); if(r.coin()) m+="more"; put(f,m); c.count("decoys"); } } h5mon::reset(); c.desc(fmt("from %s, %dx%d, flavours %d",h?"HDF5":"text",t.ne,t.nz,share));
  T2 a(f); sane(c,"reading"); auto qs=queries(r,a,a.GetEmin(),a.GetEmax()); std::string hp=d.p+"/b.h5",tp=d.p+"/c_"; unsigned comp=r.in(0,9); a.WriteHDF(hp,comp); sane(c,"WriteHDF"); T2 b(hp); sane(c,"reading"); same(c,"io/hdf",a,b,qs,2e-4);
  a.WriteText(tp); T2 e(tp); same(c,"io/text",a,e,qs,1e-3);
  // a second round trip changes nothing any more
  std::string h2=d.p+"/e.h5"; b.WriteHDF(h2,r.in(0,9)); T2 b2(h2); same(c,"io/hdf-stable",b,b2,qs,0); 
  // text to HDF5 to text, and over existing files
  e.WriteHDF(hp); T2 g(hp); same(c,"io/text-hdf",e,g,qs,2e-4); g.WriteText(tp); T2 g2(tp); same(c,"io/hdf-text",g,g2,qs,1e-3); sane(c,"conversions");
  // reading again into an object which had other tables
  { Tab u=tame(r,r.coin()); std::string p=d.p+"/u"; bool uh=r.coin(); if(uh){ p+=".h5"; writeHDF(p,u); } else { p+="_"; writeText(p,u); } T2 o(p); if(r.coin()) o.ReadHDF(h2); else { o.ReadText(tp); same(c,"io/reread",g2,o,qs,0); o.ReadHDF(h2); } same(c,"io/reread",b2,o,qs,0); }
  c.count("conversions"); if(share) c.count("flavour-dependent"); c.nontrivial(vh::S().desc); c.sample(vh::S().desc);
}
VH_GROUP("convert-older",500,9000){
  Rng& r=c.rng; Dir d(c.tmp); Tab1 t; do t=make1(r,r.in(0,1)); while(t.e[1]<t.e[0]*1.05); bool h=r.coin(); std::string f=d.p+"/a"; if(h){ f+=".h5"; writeHDF1(f,t); } else { f+="_"; writeText1(f,t); } h5mon::reset(); c.desc(fmt("older, from %s, %d energies mode %d",h?"HDF5":"text",t.n,t.mode)); T1 a(f); sane(c,"reading"); std::string hp=d.p+"/b.h5",tp=d.p+"/c_"; a.WriteHDF(hp); sane(c,"WriteHDF"); T1 b(hp); sane(c,"reading"); a.WriteText(tp); T1 e(tp); std::string h2=d.p+"/d.h5"; e.WriteHDF(h2); T1 g(h2); b.WriteHDF(h2); T1 b2(h2);
  const NeutrinoCrossSections &A=a,&B=b,&E=e,&G=g,&B2=b2; double e0=t.e[0]*GeV,e1=t.e.back()*GeV; double sc; c.check("io1/range",b.GetEmin()==a.GetEmin()&&b.GetEmax()==a.GetEmax()&&b.GetNumE()==a.GetNumE()&&e.GetNumE()==a.GetNumE(),"");
  for(int F=0;F<3;F++)for(int n=0;n<2;n++)for(int k=0;k<2;k++) for(int i=0;i<4;i++){ double q=e0*std::pow(e1/e0,r.uni(.01,.98)),o=e0*std::pow(q/e0,r.uni(.02,.97)); total1(t,q,F,n,k,&sc); double tt=3e-4*sc*t.n; double s=A.TotalCrossSection(q,fl(F),ty(n),cu(k)); c.near("io1/hdf",B.TotalCrossSection(q,fl(F),ty(n),cu(k)),s,0,h?0:1e-11*sc,what(q,F,n,k)); c.near("io1/text",E.TotalCrossSection(q,fl(F),ty(n),cu(k)),s,0,tt,what(q,F,n,k)); c.near("io1/text",G.TotalCrossSection(q,fl(F),ty(n),cu(k)),s,0,tt,what(q,F,n,k)); c.check("io1/stable",B2.TotalCrossSection(q,fl(F),ty(n),cu(k))==B.TotalCrossSection(q,fl(F),ty(n),cu(k)),"");
    diff1(t,q,o,F,n,k,&sc); s=A.SingleDifferentialCrossSection(q,o,fl(F),ty(n),cu(k)); tt=3e-4*sc*t.n; c.near("io1/hdf",B.SingleDifferentialCrossSection(q,o,fl(F),ty(n),cu(k)),s,0,h?0:1e-10*sc,"differential "+what(q,F,n,k)); c.near("io1/text",E.SingleDifferentialCrossSection(q,o,fl(F),ty(n),cu(k)),s,0,tt,"differential "+what(q,F,n,k)); c.near("io1/text",G.SingleDifferentialCrossSection(q,o,fl(F),ty(n),cu(k)),s,0,tt,"differential "+what(q,F,n,k)); c.check("io1/stable",B2.SingleDifferentialCrossSection(q,o,fl(F),ty(n),cu(k))==B.SingleDifferentialCrossSection(q,o,fl(F),ty(n),cu(k)),""); }
  // nodes distinguish every entry of the tables
  for(int i=0;i<20;i++){ int F=r.in(0,2),n=r.in(0,1),k=r.in(0,1),p=r.in(0,t.n-1); double q=p==0?e0:p==t.n-1?e1:t.e[p]*GeV; total1(t,q,F,n,k,&sc); c.near("io1/entry",B.TotalCrossSection(q,fl(F),ty(n),cu(k)),t.s[k][n][F][p],0,1e-11*sc,what(q,F,n,k)); }
  c.count("older-conversions"); c.nontrivial(vh::S().desc); c.sample(vh::S().desc);
}
static std::string slurp(const std::string& f){ std::ifstream i(f,std::ios::binary); std::stringstream s; s<<i.rdbuf(); return s.str(); }
static std::vector<std::string> lines(const std::string& s){ std::vector<std::string> v; std::string l; std::istringstream i(s); while(std::getline(i,l)) v.push_back(l); return v; }
static std::string unlines(const std::vector<std::string>& v){ std::string s; for(auto& l:v) s+=l+"\n"; return s; }
VH_GROUP("damage",1500,30000){
  Rng& r=c.rng; Dir d(c.tmp); bool per=r.coin(); Tab t=tame(r,per); h5mon::reset();
  if(r.coin()){ std::string p=d.p+"/t_"; writeText(p,t); { T2 ok(p); } std::string q=p+(per?std::string(fln(r.in(0,2)))+"_":std::string()); bool ds=r.coin(); q+=std::string(tyn(r.in(0,1)))+(ds?"_dsde_":"_sigma_")+cun(r.in(0,1))+".dat"; int k=r.in(0,8); auto L=lines(slurp(q)); std::string how;
    switch(k){ case 0: unlink(q.c_str()); how="missing"; break; case 1: put(q,""); how="empty"; break; case 2: L.erase(L.begin()+(ds?r.in(0,(int)L.size()-1):r.coin()?0:(int)L.size()-1)); put(q,unlines(L)); how="one line short"; break; case 3: for(auto& l:L) l+=" 1.5"; put(q,unlines(L)); how="one column more"; break; case 4: for(auto& l:L) l=l.substr(0,l.rfind(' ')); put(q,unlines(L)); how="one column less"; break; case 5: L[r.in(0,(int)L.size()-1)]+=" 3"; put(q,unlines(L)); how="ragged"; break;
      case 6:{ D e=t.e; e.back()*=r.coin()?1.01:.999; const Flav& F=t.f[0]; put(q,ds?text2(e,F.ds[0][0],t.nz):text1(e,F.sig[0][0])); how="other range"; break; } case 7:{ D e=t.e; std::swap(e[0],e[1]); const Flav& F=t.f[0]; put(q,ds?text2(e,F.ds[0][0],t.nz):text1(e,F.sig[0][0])); how="unordered"; break; } default:{ if(ds){ int a=r.in(0,(int)L.size()-1),b=(a+t.nz)%L.size(); std::swap(L[a],L[b]); } else { int a=r.in(1,(int)L.size()-1); L[a]=L[a-1]; } put(q,unlines(L)); how="rows exchanged or repeated"; } }
    bool first=k==6&&q==p+"nu_sigma_CC.dat"; c.desc(fmt("text %s %s",q.substr(p.size()).c_str(),how.c_str())); c.check("io/damage-text",vh::throws([&]{T2 x(p);})==1,q.substr(p.size())+" "+how+" was accepted"); (void)first; c.count("damaged-text"); c.check("io/nothing",vh::throws([&]{T2 x(d.p+"/none_");})==1&&vh::throws([&]{T2 x(d.p+"/no/dir/x.h5");})==1&&vh::throws([&]{T2 x("");})==1,""); c.nontrivial(vh::S().desc+fmt("%d",t.ne)); }
  else { std::string p=d.p+"/h.h5"; writeHDF(p,t,1); { T2 ok(p); } std::string how; { HF f(p,true); std::vector<std::string> names; for(int n=0;n<2;n++)for(int k=0;k<2;k++) for(const char* s:{"s_","dsdy_"}) names.push_back(std::string(s)+cun(k)+"_"+tyn(n)); std::string g=per?fln(r.in(0,2)):"electron"; std::string q=r.coin(.2)?(r.coin()?"energies":"zs"):g+"/"+r.pick(names); bool ds=q.find("dsdy")!=std::string::npos,one=q[0]=='e'&&q[1]=='n'; int k=r.in(0,5);
      if(k==0){ H5Ldelete(f.id,q.c_str(),H5P_DEFAULT); how=q+" missing"; } else if(k==1){ q=fln(r.in(0,2)); H5Ldelete(f.id,q.c_str(),H5P_DEFAULT); how=q+" missing"; } else if(k==2){ H5Ldelete(f.id,q.c_str(),H5P_DEFAULT); hsize_t n=(one||!(q=="zs"))?t.ne:t.nz; n+=r.coin()?1:-1; D v(n*(t.nz+2),-38); if(ds) ds2(f.id,q,r.coin()?t.nz+1:t.nz,n,v); else { for(size_t i=0;i<v.size();i++) v[i]=i*.01; v.resize(n); ds1(f.id,q,v); } how=q+" of the wrong size"; } else if(k==3){ H5Ldelete(f.id,q.c_str(),H5P_DEFAULT); D v(t.ne*t.nz*2,-38); if(ds){ if(r.coin()||t.ne==t.nz) ds1(f.id,q,v); else ds2(f.id,q,t.ne,t.nz,v); how=q+" flat or transposed"; } else { hsize_t n=q=="zs"?t.nz:t.ne; ds2(f.id,q,r.coin()?1:2,n,v); how=q+" two-dimensional"; } } else if(k==4){ q=fln(r.in(0,2)); H5Ldelete(f.id,q.c_str(),H5P_DEFAULT); if(r.coin()) ds1(f.id,q,D{1,2,3}); else H5Gclose(H5Gcreate2(f.id,q.c_str(),H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT)); how=q+" not a group of tables"; } else { q=r.coin()?"energies":"zs"; H5Ldelete(f.id,q.c_str(),H5P_DEFAULT); D v=q=="zs"?zs(t):loge(t); if(r.coin()) std::swap(v[0],v[1]); else v[1]=v[0]; ds1(f.id,q,v); how=q+" unordered"; } }
    if(r.coin(.1)){ writeHDF(p,t,1); struct stat st; stat(p.c_str(),&st); if(truncate(p.c_str(),st.st_size*r.uni(.1,.9))){} how="truncated"; } c.desc("HDF5 "+how); h5mon::reset(); h5mon::forget(); c.check("io/damage-hdf",vh::throws([&]{T2 x(p);})==1,how+" was accepted"); sane(c,"refused "+how); c.count("damaged-hdf"); c.nontrivial(how+fmt(" %d %d",t.ne,t.nz)); }
  // the older layouts
  Tab1 v=make1(r,1); int n=v.n; std::string how;
  if(r.coin()){ std::string p=d.p+"/v_"; writeText1(p,v); { T1 ok(p); } bool ds=r.coin(); std::string q=p+(ds?"dsde_":"sigma_")+cun(r.in(0,1))+".dat"; auto L=lines(slurp(q)); int k=r.in(0,6); switch(k){ case 0: unlink(q.c_str()); how="missing"; break; case 1: put(q,""); how="empty"; break; case 2: L.erase(L.begin()+r.in(0,(int)L.size()-1)); put(q,unlines(L)); how="one line short"; break; case 3: L.push_back(L.back()); put(q,unlines(L)); how="one line more"; break; case 4: for(auto& l:L) l=l.substr(0,l.rfind(' ')); put(q,unlines(L)); how="one column less"; break; case 5: for(auto& l:L) l+=" 1e-38"; put(q,unlines(L)); how="one column more"; break; default: for(const char* m:{"sigma_CC","sigma_NC","dsde_CC","dsde_NC"}){ auto M=lines(slurp(p+m+".dat")); if(r.coin()) M.resize(1); else for(auto& l:M) l=l.substr(0,l.rfind(' ')); put(p+m+".dat",unlines(M)); } how="all files too small"; }
    c.desc("older text "+q.substr(p.size())+" "+how); c.check("io1/damage-text",vh::throws([&]{T1 x(p);})==1,q.substr(p.size())+" "+how+" was accepted"); }
  else { std::string p=d.p+"/v.h5"; writeHDF1(p,v); { T1 ok(p); } std::string q=r.pick(std::vector<std::string>{"s_CC","s_NC","dsDE_CC","dsDE_NC"}); bool ds=q[0]=='d'; { HF f(p,true); int k=r.in(0,3); if(k==0){ H5Ldelete(f.id,q.c_str(),H5P_DEFAULT); how="missing"; } else if(k==1){ q=r.coin()?"Emin":"Emax"; H5Adelete(f.id,q.c_str()); how="missing"; } else { H5Ldelete(f.id,q.c_str(),H5P_DEFAULT); hsize_t e[4]={2,3,(hsize_t)n,(hsize_t)n}; int rank=ds?4:3; if(k==2){ e[r.in(0,rank-1)]+=r.coin()?1:-1; how="of the wrong size"; } else { rank--; how="of the wrong rank"; } D z(e[0]*e[1]*e[2]*e[3]+1,1e-38); H5LTmake_dataset_double(f.id,q.c_str(),rank,e,z.data()); } }
    c.desc("older HDF5 "+q+" "+how); h5mon::reset(); h5mon::forget(); c.check("io1/damage-hdf",vh::throws([&]{T1 x(p);})==1,q+" "+how+" was accepted"); sane(c,"refused "+how); }
  c.count("damaged-older");
}
VH_GROUP("grids",150,2000){   // the text layout lets tables of one set have different energies: not to be written as if they had the same
  Rng& r=c.rng; Dir d(c.tmp); Tab t=tame(r,r.coin()); std::string p=d.p+"/t_"; writeText(p,t); bool ds=r.coin(); std::string q=p+(t.nf==3?std::string(fln(r.in(0,2)))+"_":std::string())+tyn(r.in(0,1))+(ds?"_dsde_":"_sigma_")+cun(r.in(0,1))+".dat"; int n=r.in(3,9); if(n==t.ne&&t.ne==3) n=4; D e; for(int i=0;i<n;i++) e.push_back(i==0?t.e[0]:i==n-1?t.e.back():t.e[0]*std::pow(t.e.back()/t.e[0],(i+.3)/(n-1.))); D s(n*t.nz,1e-38); for(auto& v:s) v=r.logu(1e-39,1e-37); put(q,ds?text2(e,s,t.nz):text1(e,D(s.begin(),s.begin()+n))); c.desc(q.substr(p.size())+" has other energies"); T2 x(p); int th=vh::throws([&]{x.WriteHDF(d.p+"/o.h5");}); if(th==0){ T2 y(d.p+"/o.h5"); auto qs=queries(r,x,x.GetEmin(),x.GetEmax()); same(c,"io/other-grid",x,y,qs,1e-3); } else c.count("refused-grids"); x.WriteText(d.p+"/w_"); T2 y(d.p+"/w_"); auto qs=queries(r,x,x.GetEmin(),x.GetEmax()); for(auto& Q:qs){ double a=x.TotalCrossSection(Q.E1,fl(Q.F),ty(Q.n),cu(Q.k)),b=y.TotalCrossSection(Q.E1,fl(Q.F),ty(Q.n),cu(Q.k)); if(q.find("sigma")!=std::string::npos) continue; c.near("io/text",b,a,1e-3,0,"total"); } c.nontrivial(vh::S().desc+fmt("%d %d",n,t.ne)); }
VH_GROUP("unwritable",200,2000){
  Rng& r=c.rng; Dir d(c.tmp); Tab t=tame(r,r.coin()); Tab1 v=make1(r,0); std::string p=d.p+"/a_",q=d.p+"/b_"; writeText(p,t); writeText1(q,v); T2 x(p); T1 y(q); std::string o=d.p+"/o_"; c.desc("unwritable destination"); h5mon::reset(); h5mon::forget();
  c.check("io/unwritable",vh::throws([&]{x.WriteText(d.p+"/no/o_");})==1&&vh::throws([&]{y.WriteText(d.p+"/no/o_");})==1,"no such directory"); c.check("io/unwritable",vh::throws([&]{x.WriteHDF(d.p+"/no/o.h5");})==1&&vh::throws([&]{y.WriteHDF(d.p+"/no/o.h5");})==1&&vh::throws([&]{x.WriteHDF(d.p);})==1,"no such directory"); sane(c,"unwritable");
  // one of the files on a full device
  if(access("/dev/full",W_OK)==0){ std::string a=o+fln(r.in(0,2))+"_"+tyn(r.in(0,1))+(r.coin()?"_sigma_":"_dsde_")+cun(r.in(0,1))+".dat",b=o+(r.coin()?"sigma_":"dsde_")+cun(r.in(0,1))+".dat"; if(symlink("/dev/full",a.c_str())||symlink("/dev/full",b.c_str())){} c.check("io/disk-full",vh::throws([&]{x.WriteText(o);})==1,a+" could not be written"); c.check("io/disk-full",vh::throws([&]{y.WriteText(o);})==1,b+" could not be written"); c.count("disk-full"); }
  c.nontrivial(fmt("%d %d",t.ne,(int)c.idx)); }
VH_GROUP("faults",60,800){
  Rng& r=c.rng; Dir d(c.tmp); bool old=r.coin(.3); std::string p=d.p+"/a",o=d.p+"/o.h5"; Tab t; Tab1 v; if(old){ v=make1(r,1); writeHDF1(p,v); } else { t=tame(r,r.coin()); if(r.coin()&&t.nf==3) t.f[2]=t.f[1]; writeHDF(p,t,r.in(0,1)); } unsigned comp=r.coin()?0:r.in(1,9); c.desc(fmt("each HDF5 call failing once: %s",old?"older":"newer")); h5mon::reset(); h5mon::forget(); auto once=[&]{ if(old){ T1 x(p); x.WriteHDF(o); T1 y(o); } else { T2 x(p); x.WriteHDF(o,comp); T2 y(o); } }; once(); uint64_t n=h5mon::st().calls; sane(c,"round trip");
  uint64_t step=c.thorough?1:1+n/120; for(uint64_t k=1+r.in(0,step-1);k<=n;k+=step){ h5mon::reset(k); int th=vh::throws(once); bool hit=h5mon::st().failed; std::string nm=h5mon::st().failedName; if(hit){ c.count("injected"); c.check("io/failure-unreported",th==1,"failure of "+nm+fmt(" (call %d of %d)",(int)k,(int)n)+" was not reported"); sane(c,"after failing "+nm); } h5mon::reset(); }
  c.nontrivial(fmt("%d %d %d",(int)old,(int)n,(int)c.idx)); }
