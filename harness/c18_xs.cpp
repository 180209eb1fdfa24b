// C18: cross sections looked up in generated tables, against independent interpolation of what was written to the files.
#include "vh.h"
#include "xs.h"
using vh::Ctx; using namespace xs;
static bool tiny(double v){ return v>=0&&v<1e-100; }
static double L10(double v){ return std::log10(v); }
VH_GROUP("tables",2500,16000){
  Rng& r=c.rng; int mode=r.in(0,2); Tab t=make(r,mode,r.coin()); int how=r.in(0,2); Dir dir(c.tmp); std::string f=dir.p+"/x"; c.desc(fmt("%s table %dx%d mode %d %s, %g to %g GeV",how?"HDF5":"text",t.ne,t.nz,mode,t.nf==1?"common":"per flavour",t.e[0],t.e.back()));
  if(how==0){ f+="_"; writeText(f,t); } else { f+=".h5"; writeHDF(f,t,how==2); }
  std::unique_ptr<NeutrinoDISCrossSectionsFromTables> p0(new NeutrinoDISCrossSectionsFromTables(f)); int cp=r.in(0,2); if(cp==1) p0.reset(new NeutrinoDISCrossSectionsFromTables(NeutrinoDISCrossSectionsFromTables(*p0))); if(cp==2){ auto q=std::make_shared<NeutrinoDISCrossSectionsFromTables>(std::move(*p0)); p0.reset(new NeutrinoDISCrossSectionsFromTables(*q)); }
  const NeutrinoCrossSections& x=*p0; Want w(t); double e0=p0->GetEmin(),e1=p0->GetEmax(); c.near("xs/range",e0,t.e[0]*GeV,how?1e-13:0,0,"Emin"); c.near("xs/range",e1,t.e.back()*GeV,how?1e-13:0,0,"Emax");
  vh::Quiet quiet;
  // total: nodes
  for(int q=0;q<14;q++){ int i=r.in(0,t.ne-1),F=r.in(0,2),n=r.in(0,1),k=r.in(0,1); double E=i==t.ne-1?e1:i==0?e0:t.e[i]*GeV; c.near("total/node",x.TotalCrossSection(E,fl(F),ty(n),cu(k)),t.at(F).sig[n][k][i],mode==2?1e-9:1e-11,0,what(E,F,n,k)); }
  for(int q=0;q<20;q++){ int F=r.in(0,2),n=r.in(0,1),k=r.in(0,1); double E=std::min(e1,e0*std::pow(e1/e0,r.unit())),v; double got=x.TotalCrossSection(E,fl(F),ty(n),cu(k)); c.check("total/positive",got>0&&std::isfinite(got),what(E,F,n,k)+fmt(" gives %g",got)); if(mode==0) c.near("total/power-law",L10(got),w.lin1(E,F,n,k),0,1e-9,what(E,F,n,k)); else if(w.total(E,F,n,k,v)){ c.near("total/between",L10(got),v,0,2e-9,what(E,F,n,k)); c.count("total-between"); } }
  // below, above and at the ends
  for(int q=0;q<6;q++){ int F=r.in(0,2),n=r.in(0,1),k=r.in(0,1); double E=e0*r.pick(std::vector<double>{r.unit(),.5,1e-3,.999999}); double got=x.TotalCrossSection(E,fl(F),ty(n),cu(k)); if(E<10*GeV&&e0>10*GeV) c.check("total/negligible",tiny(got),what(E,F,n,k)+fmt(" gives %g",got)); else c.near("total/below",got,x.TotalCrossSection(e0,fl(F),ty(n),cu(k))*(E/e0),1e-12,0,what(E,F,n,k));
    double A=q==0?std::nextafter(e1,INFINITY):e1*(1+r.logu(1e-12,1e3)); c.check("total/above",vh::throws([&]{x.TotalCrossSection(A,fl(F),ty(n),cu(k));})==1,what(A,F,n,k)+" accepted"); c.check("diff/above",vh::throws([&]{x.SingleDifferentialCrossSection(A,e0*1.1,fl(F),ty(n),cu(k));})==1&&vh::throws([&]{x.AverageSingleDifferentialCrossSection(A,e0,e0*1.1,fl(F),ty(n),cu(k));})==1,what(A,F,n,k)+" accepted");
    int S=3; double B=e0*r.logu(.1,1e9); c.check("sterile",x.TotalCrossSection(B,fl(S),ty(n),cu(k))==0&&x.SingleDifferentialCrossSection(B,B*r.unit(),fl(S),ty(n),cu(k))==0&&x.AverageSingleDifferentialCrossSection(B,B*.1,B*.9,fl(S),ty(n),cu(k))==0&&x.AverageTotalCrossSection(B,B*2,fl(S),ty(n),cu(k))==0,""); 
    double low=r.coin()?e0:e0*r.unit(); c.check("diff/below",tiny(x.SingleDifferentialCrossSection(low,low*r.unit(),fl(F),ty(n),cu(k)))&&tiny(x.AverageSingleDifferentialCrossSection(low,low*.3,low*.5,fl(F),ty(n),cu(k))),what(low,F,n,k)); }
  // differential: nodes of the grid in (E1,z) and in between
  for(int q=0;q<14;q++){ int i=r.in(1,t.ne-1),j=r.in(1,t.nz-1),F=r.in(0,2),n=r.in(0,1),k=r.in(0,1); double E1=i==t.ne-1?e1:t.e[i]*GeV,z=j/double(t.nz-1),E2=j==t.nz-1?E1:e0+z*(E1-e0); double got=x.SingleDifferentialCrossSection(E1,E2,fl(F),ty(n),cu(k)); double want=std::pow(10.,lg(t.at(F).ds[n][k][(size_t)j*t.ne+i]))/(E1/GeV); double zz=(E2-e0)/(E1-e0); double slop=std::fabs(zz-z)+std::fabs(2e-16*E1/(E1-e0)); c.near("diff/node",got,want,(mode==2?1e-7:1e-9)+slop*1e5,0,what(E1,F,n,k)+fmt(" z=%g",z)); c.count("diff-nodes"); }
  for(int q=0;q<24;q++){ int F=r.in(0,2),n=r.in(0,1),k=r.in(0,1); double E1=std::min(e1,e0*std::pow(e1/e0,r.uni(.02,1))); double z=r.unit(); if(r.coin(.1)) z=1; double E2=std::min(E1,e0+z*(E1-e0)); if(!(E2>e0)) continue; z=(E2-e0)/(E1-e0); double got=x.SingleDifferentialCrossSection(E1,E2,fl(F),ty(n),cu(k)),v,mag; c.check("diff/nonnegative",got>=0&&!std::isnan(got),what(E1,F,n,k)); if(mode==0) c.near("diff/power-law",L10(got*(E1/GeV)),w.lin2(E1,z,F,n,k),0,1e-8,what(E1,F,n,k)+fmt(" z=%.17g",z)); else if(w.diff(E1,z,F,n,k,v,mag)&&v>-280&&v<280){ c.near("diff/between",L10(got*(E1/GeV)),v,0,1e-8*(mag+1),what(E1,F,n,k)+fmt(" z=%.17g",z)); c.count("diff-between"); } }
  for(int q=0;q<8;q++){ int F=r.in(0,2),n=r.in(0,1),k=r.in(0,1); double E1=std::min(e1,e0*std::pow(e1/e0,r.uni(.02,1))); double up=r.coin(.2)?std::nextafter(E1,INFINITY):E1*(1+r.logu(1e-12,1e2)); double got=x.SingleDifferentialCrossSection(E1,up,fl(F),ty(n),cu(k)); c.check("diff/unphysical",got==0,what(E1,F,n,k)+fmt(" to %.17g gives %g",up/GeV,got));
    double E2=e0*r.pick(std::vector<double>{0,1e-6,r.unit(),.999}); got=x.SingleDifferentialCrossSection(E1,E2,fl(F),ty(n),cu(k)); double at0=x.SingleDifferentialCrossSection(E1,std::nextafter(e0,INFINITY),fl(F),ty(n),cu(k)); c.check("diff/extrapolation",got>=0&&std::isfinite(got)&&got<=at0*(1+1e-6),what(E1,F,n,k)+fmt(" to %.17g gives %g, more than %g at the end of the table",E2/GeV,got,at0)); }
  // averages
  for(int q=0;q<10;q++){ int F=r.in(0,2),n=r.in(0,1),k=r.in(0,1); double a=e0*std::pow(e1/e0,r.unit()),b=r.coin(.4)?e1:std::min(e1,a*r.logu(1.0001,3)); if(a>b) std::swap(a,b); double av=x.AverageTotalCrossSection(a,b,fl(F),ty(n),cu(k)); 
    if(mode==0){ double u=x.TotalCrossSection(a,fl(F),ty(n),cu(k)),v=x.TotalCrossSection(b,fl(F),ty(n),cu(k)),p=std::log(v/u)/std::log(b/a); double want=b/a<1.0002?(u+v)/2:u*(std::pow(b/a,p+1)-1)/((p+1)*(b/a-1)); c.near("average/total",av,want,3e-3,0,what(a,F,n,k)+fmt(" up to %.17g",b/GeV)); c.count("averages"); } else c.check("average/total-finite",std::isfinite(av)&&av>0,what(a,F,n,k));
    c.near("average/empty",x.AverageTotalCrossSection(a,a,fl(F),ty(n),cu(k)),x.TotalCrossSection(a,fl(F),ty(n),cu(k)),1e-14,0,what(a,F,n,k));
    if(b<=e0*1.01) continue; double c1=e0+(b-e0)*r.uni(0,.9),c2=r.coin(.4)?b:c1+(b-c1)*r.unit(); double ad=x.AverageSingleDifferentialCrossSection(b,c1,c2,fl(F),ty(n),cu(k)); c.near("average/empty",x.AverageSingleDifferentialCrossSection(b,c2,c2,fl(F),ty(n),cu(k)),x.SingleDifferentialCrossSection(b,c2,fl(F),ty(n),cu(k)),1e-14,0,what(b,F,n,k)); c.near("average/order",x.AverageSingleDifferentialCrossSection(b,c2,c1,fl(F),ty(n),cu(k)),ad,1e-12,0,"limits exchanged");
    if(mode==0&&c2>c1){ double u=x.SingleDifferentialCrossSection(b,c1,fl(F),ty(n),cu(k)),v=x.SingleDifferentialCrossSection(b,c2,fl(F),ty(n),cu(k)); double l=std::log(v/u),want=std::fabs(l)<1e-6?u:u*(std::exp(l)-1)/l; c.near("average/diff",ad,want,3e-3,0,what(b,F,n,k)+fmt(" from %g to %.17g",c1/GeV,c2/GeV)); c.count("averages"); } }
  c.check("xs/double-differential",vh::throws([&]{x.DoubleDifferentialCrossSection(e0*2,.5,.5,fl(0),ty(0),cu(0));})==1,""); c.count(how?"hdf-tables":"text-tables"); if(std::max(t.ne,t.nz)>256) c.count("large-tables"); c.nontrivial(vh::S().desc); c.sample(vh::S().desc);
}
VH_GROUP("older",3000,16000){
  Rng& r=c.rng; int mode=r.in(0,1); Tab1 t=make1(r,mode); bool h=r.coin(); Dir dir(c.tmp); std::string f=dir.p+"/v"; if(h){ f+=".h5"; writeHDF1(f,t); } else { f+="_"; writeText1(f,t); } c.desc(fmt("older %s table of %d energies mode %d %s, %g to %g GeV",h?"HDF5":"text",t.n,mode,t.tri?"triangular":"full",t.e[0],t.e.back())); NeutrinoDISCrossSectionsFromTables_V1 x0(f); std::unique_ptr<NeutrinoDISCrossSectionsFromTables_V1> p(r.coin()?new NeutrinoDISCrossSectionsFromTables_V1(x0):new NeutrinoDISCrossSectionsFromTables_V1(std::move(x0))); NeutrinoCrossSections& x=*p;
  double e0=t.e[0]*GeV,e1=t.e.back()*GeV; c.check("v1/range",p->GetEmin()==e0&&p->GetEmax()==e1&&p->GetNumE()==(unsigned)t.n&&p->IsInit(),""); vh::Quiet quiet; double sc;
  for(int q=0;q<30;q++){ int F=r.in(0,2),n=r.in(0,1),k=r.in(0,1); int i=r.in(0,t.n-1); bool node=r.coin(.4); double E=node?(i==0?e0:i==t.n-1?e1:t.e[i]*GeV):std::min(e1,e0*std::pow(e1/e0,r.unit())); E=std::max(e0,std::min(e1,E)); double got=x.TotalCrossSection(E,fl(F),ty(n),cu(k)); double want=total1(t,E,F,n,k,&sc); if(node) want=t.s[k][n][F][i]; c.near(node?"v1/total-node":"v1/total",got,want,0,2e-12*sc,what(E,F,n,k)); c.check("v1/nonnegative",got>=-1e-12*sc,""); c.count("v1-totals"); }
  for(int q=0;q<40;q++){ int F=r.in(0,2),n=r.in(0,1),k=r.in(0,1); int i=r.in(1,t.n-1),j=r.in(0,i-1); bool node=r.coin(.4); double E1=i==t.n-1?e1:t.e[i]*GeV,E2=j==0?e0:t.e[j]*GeV; if(!node){ E1=r.coin(.15)?e1:std::min(e1,e0*std::pow(e1/e0,r.unit())); E2=e0*std::pow(E1/e0,r.coin(.2)?1-1e-9*r.unit():r.unit()); if(E2>=E1||E2<e0) continue; } double got=x.SingleDifferentialCrossSection(E1,E2,fl(F),ty(n),cu(k)),want=diff1(t,E1,E2,F,n,k,&sc); if(node) want=t.d[k][n][F][(size_t)i*t.n+j]; c.near(node?"v1/diff-node":"v1/diff",got,want,0,1e-11*sc,what(E1,F,n,k)+fmt(" to %.17g",E2/GeV)); c.check("v1/nonnegative",got>=-1e-10*sc,what(E1,F,n,k)); c.count("v1-differentials"); }
  for(int q=0;q<8;q++){ int F=r.in(0,2),n=r.in(0,1),k=r.in(0,1),S=3; double A=q==0?std::nextafter(e1,INFINITY):e1*(1+r.logu(1e-12,1e3)),low=e0*r.unit(); c.check("v1/above",vh::throws([&]{x.TotalCrossSection(A,fl(F),ty(n),cu(k));})==1&&vh::throws([&]{x.SingleDifferentialCrossSection(A,e0,fl(F),ty(n),cu(k));})==1,what(A,F,n,k)); double got=x.TotalCrossSection(low,fl(F),ty(n),cu(k)); if(low<10*GeV&&e0>10*GeV) c.check("v1/negligible",tiny(got),""); else c.near("v1/below",got,x.TotalCrossSection(e0,fl(F),ty(n),cu(k))*(low/e0),1e-12,0,what(low,F,n,k)); c.check("v1/diff-below",tiny(x.SingleDifferentialCrossSection(low,low*.5,fl(F),ty(n),cu(k))),what(low,F,n,k)); c.check("v1/sterile",x.TotalCrossSection(A,fl(S),ty(n),cu(k))==0&&x.SingleDifferentialCrossSection(A,e0,fl(S),ty(n),cu(k))==0,"");
    double E1=e0*std::pow(e1/e0,r.unit()); E1=std::min(E1,e1); double up=r.coin(.3)?E1:r.coin(.3)?std::nextafter(E1,INFINITY):E1*(1+r.logu(1e-12,1e4)); c.check("v1/unphysical",x.SingleDifferentialCrossSection(E1,up,fl(F),ty(n),cu(k))==0,what(E1,F,n,k)+fmt(" to %.17g",up/GeV)); double dn=e0*r.pick(std::vector<double>{0,-1,1e-9,.5,.99,.1}); got=x.SingleDifferentialCrossSection(E1,dn,fl(F),ty(n),cu(k)); c.check("v1/outgoing-below",std::isfinite(got),what(E1,F,n,k)+fmt(" to %.17g gives %g",dn/GeV,got));
    c.check("v1/current",vh::throws([&]{x.SingleDifferentialCrossSection(e1,e0,fl(F),ty(n),NeutrinoCrossSections::GR);})==1,"differential of another current"); 
    double a=e0*std::pow(e1/e0,r.unit()),b=r.coin()?e1:std::min(e1,a*r.logu(1.01,2)); a=std::min(a,b); double av=x.AverageTotalCrossSection(a,b,fl(F),ty(n),cu(k)); if(mode==0&&b>a*1.0001){ double lo=std::min(x.TotalCrossSection(a,fl(F),ty(n),cu(k)),x.TotalCrossSection(b,fl(F),ty(n),cu(k))),hi=std::max(x.TotalCrossSection(a,fl(F),ty(n),cu(k)),x.TotalCrossSection(b,fl(F),ty(n),cu(k))); double s=0; int N=400; for(int m=0;m<N;m++) s+=x.TotalCrossSection(a+(b-a)*(m+.5)/N,fl(F),ty(n),cu(k))/N; c.check("v1/average",av>=lo*(1-2e-3)&&av<=hi*(1+2e-3),what(a,F,n,k)+fmt(" up to %.17g: %g",b/GeV,av)); if(b<a*1.5) c.near("v1/average",av,s,4e-3,0,what(a,F,n,k)+fmt(" up to %.17g",b/GeV)); c.count("averages"); } c.near("v1/average-empty",x.AverageTotalCrossSection(b,b,fl(F),ty(n),cu(k)),x.TotalCrossSection(b,fl(F),ty(n),cu(k)),1e-14,0,""); if(b>e0) c.near("v1/average-empty",x.AverageSingleDifferentialCrossSection(b,e0,e0,fl(F),ty(n),cu(k)),x.SingleDifferentialCrossSection(b,e0,fl(F),ty(n),cu(k)),1e-14,0,""); }
  c.nontrivial(vh::S().desc); c.sample(vh::S().desc);
}
struct Probe: NeutrinoCrossSections{ double v; Probe(double x):v(x){} double TotalCrossSection(double E,NeutrinoFlavor,NeutrinoType,Current)const override{return v*E;} double SingleDifferentialCrossSection(double E1,double E2,NeutrinoFlavor,NeutrinoType,Current)const override{return v*E1*E2;} };
VH_GROUP("library",4000,30000){
  Rng& r=c.rng; std::vector<PDGCode> all={electron,proton,neutron,isoscalar_nucleon}; for(int i=0;i<6;i++) all.push_back((PDGCode)r.pick(std::vector<int>{1000080160,1000260560,1000060120,12,-11,0,22,1000010020,r.coin()?7:8})); CrossSectionLibrary::MapType m; std::map<int,double> want; std::map<int,std::shared_ptr<NeutrinoCrossSections>> obj; bool viaMap=r.coin(.4); CrossSectionLibrary lib; int n=r.in(0,6);
  for(int i=0;i<n&&viaMap;i++){ PDGCode p=r.pick(all); double v=r.uni(1,9); auto s=std::make_shared<Probe>(v); if(m.emplace(p,s).second){ want[p]=v; obj[p]=s; } } if(viaMap) lib=CrossSectionLibrary(m);
  int ops=r.in(3,14); for(int i=0;i<ops;i++){ PDGCode p=r.pick(all); double v=r.uni(1,9); int k=r.in(0,1); std::shared_ptr<NeutrinoCrossSections> s=std::make_shared<Probe>(v); int th=vh::throws([&]{ if(k==0) lib.addTarget(p,s); else lib.addTarget(p,Probe(v)); }); if(want.count(p)) c.check("library/redefinition",th==1,fmt("target %d defined twice",(int)p)); else { c.check("library/add",th==0,""); want[p]=v; if(k==0) obj[p]=s; c.count("targets"); } if(r.coin(.2)){ CrossSectionLibrary o(lib); lib=r.coin()?std::move(o):o; } 
    for(PDGCode q:all){ auto g=lib.crossSectionForTarget(q); bool has=want.count(q); c.check("library/has",lib.hasTarget(q)==has&&(g!=nullptr)==has,fmt("target %d",(int)q)); if(has&&g){ c.check("library/dispatch",g->TotalCrossSection(2,fl(0),ty(0),cu(0))==2*want[q],fmt("target %d answers for another",(int)q)); if(obj.count(q)) c.check("library/identity",g==obj[q],""); } } }
  NullCrossSections z; double E=r.logu(1,1e20); c.check("null",z.TotalCrossSection(E,fl(r.in(0,3)),ty(r.in(0,1)),cu(r.in(0,1)))==0&&z.SingleDifferentialCrossSection(E,E*r.unit(),fl(0),ty(0),cu(0))==0&&z.DoubleDifferentialCrossSection(E,.1,.2,fl(0),ty(0),cu(0))==0&&z.AverageTotalCrossSection(E,2*E,fl(0),ty(0),cu(0))==0&&z.AverageSingleDifferentialCrossSection(E,E/3,E/2,fl(0),ty(0),cu(0))==0,"");
  // averages of the base class on linear integrands, which its quadrature integrates exactly
  { Probe p(r.uni(1,9)); double a=r.logu(1,1e12),b=a*r.logu(1,10); c.near("average/linear",p.AverageTotalCrossSection(a,b,fl(0),ty(0),cu(0)),p.v*(a+b)/2,1e-12,0,""); c.near("average/linear",p.AverageSingleDifferentialCrossSection(3,a,b,fl(0),ty(0),cu(0)),p.v*3*(a+b)/2,1e-12,0,""); c.near("average/linear",p.AverageTotalCrossSection(a,a,fl(0),ty(0),cu(0)),p.v*a,1e-14,0,"empty range"); c.near("average/linear",p.AverageSingleDifferentialCrossSection(3,a,a,fl(0),ty(0),cu(0)),p.v*3*a,1e-14,0,"empty range"); c.check("base/double-differential",vh::throws([&]{p.DoubleDifferentialCrossSection(1,.1,.1,fl(0),ty(0),cu(0));})==1,""); }
  c.nontrivial(fmt("%d %d %zu %d",(int)viaMap,n,want.size(),(int)c.idx%100)); if(want.size()>2) c.sample(fmt("%zu targets",want.size()));
}
VH_GROUP("defaults",60,1000){
  Rng& r=c.rng; std::string d=c.tmp+"/data/xsections"; mkdir((c.tmp+"/data").c_str(),0777); mkdir(d.c_str(),0777); Tab p=make(r,1,r.coin()),n=make(r,1,r.coin()),s=make(r,1,false); Tab1 v=make1(r,0); writeHDF(d+"/csms_proton.h5",p); writeHDF(d+"/csms_neutron.h5",n); writeHDF(d+"/csms_square.h5",s); writeHDF1(d+"/csms.h5",v); setenv("NUSQUIDS_DATA_PATH",(c.tmp+"/data").c_str(),1); c.desc("default tables"); 
  CrossSectionLibrary lib=loadDefaultCrossSections(); auto xp=lib.crossSectionForTarget(proton),xn=lib.crossSectionForTarget(neutron),xe=lib.crossSectionForTarget(electron); if(!c.check("defaults/targets",xp&&xn&&xe&&!lib.hasTarget(isoscalar_nucleon),"")) return; NeutrinoDISCrossSectionsFromTables sq; NeutrinoDISCrossSectionsFromTables_V1 old;
  for(int q=0;q<10;q++){ int F=r.in(0,2),t=r.in(0,1),k=r.in(0,1); int i=r.in(1,p.ne-2),j=r.in(1,n.ne-2),l=r.in(1,s.ne-2),m=r.in(0,v.n-1); c.near("defaults/proton",xp->TotalCrossSection(p.e[i]*GeV,fl(F),ty(t),cu(k)),p.at(F).sig[t][k][i],1e-10,0); c.near("defaults/neutron",xn->TotalCrossSection(n.e[j]*GeV,fl(F),ty(t),cu(k)),n.at(F).sig[t][k][j],1e-10,0); c.near("defaults/isoscalar",sq.TotalCrossSection(s.e[l]*GeV,fl(F),ty(t),cu(k)),s.at(F).sig[t][k][l],1e-10,0); c.near("defaults/older",old.TotalCrossSection(std::min(v.e[m]*GeV,old.GetEmax()),fl(F),ty(t),cu(k)),v.s[k][t][F][m],1e-9,0); double E=r.logu(1e14,1e17); c.near("defaults/electron",xe->TotalCrossSection(E,fl(0),ty(1),NeutrinoCrossSections::GR),GlashowResonanceCrossSection().TotalCrossSection(E,fl(0),ty(1),NeutrinoCrossSections::GR),0,0); c.check("defaults/electron",xe->TotalCrossSection(E,fl(0),ty(1),NeutrinoCrossSections::CC)==0,""); }
  unlink((d+(r.coin()?"/csms_proton.h5":"/csms_neutron.h5")).c_str()); c.check("defaults/missing",vh::throws([&]{loadDefaultCrossSections();})==1,"a missing table went unnoticed"); unlink((d+"/csms_square.h5").c_str()); c.check("defaults/missing",vh::throws([&]{NeutrinoDISCrossSectionsFromTables q;})==1,""); unlink((d+"/csms.h5").c_str()); c.check("defaults/missing",vh::throws([&]{NeutrinoDISCrossSectionsFromTables_V1 q;})==1,""); unlink((d+"/csms_proton.h5").c_str()); unlink((d+"/csms_neutron.h5").c_str()); unsetenv("NUSQUIDS_DATA_PATH"); c.nontrivial(fmt("%d %g",(int)c.idx,p.e[1]));
}

