// C15: density and electron fraction along tracks through every body against the profile that defines it.
#include "vh.h"
#include "bodies.h"
using vh::Ctx; using namespace bd;
static void look(Ctx& c,const Made& m,const Way& w,double x,double sx){   // x in units of the way, sx the position set
  const Body& b=*m.body; Track& t=*w.t; t.SetX(sx); double rho=b.density(t),ye=b.ye(t); c.check("body/position-changed",t.GetX()==sx,""); std::string at=fmt("%s, %s, %s, at %.17g",kindName(m.kind),m.how.c_str(),w.how.c_str(),x);
  c.check("body/repeatable",b.density(t)==rho&&b.ye(t)==ye,at); if(!c.check("body/finite",std::isfinite(rho)&&std::isfinite(ye),at+fmt(": density %g ye %g",rho,ye))) return;
  bool phys=m.how.find("distributed")!=std::string::npos||m.x.empty(); if(phys) c.check("body/physical",rho>=0&&ye>=0&&ye<=1,at+fmt(": density %g ye %g",rho,ye)); c.count("queries");
  if(m.kind==VAC){ c.check("vacuum/empty",rho==0&&ye==1,at); return; } if(m.kind==CON){ c.check("constant/value",rho==m.rho[0]&&ye==m.ye[0],at+fmt(": %g %g instead of %g %g",rho,ye,m.rho[0],m.ye[0])); return; }
  double err=0; LD r=where(m,w,x,err); double scale=m.kind==VAR?1:m.kind==EARTH?RE:m.kind==SUN?RSUN:m.kind==SUNNU?RSUN_NU:RE+m.atm; LD q=r/scale; double dq=err/scale+1e-15*(double)q; const Profile &p=*m.prho,&y=*m.pye;
  if(m.kind==ATM){ if(std::fabs((double)r-RE)<=err+1e-9){ c.count("at-the-surface"); return; } if(r>RE){ double h=(double)r-RE; c.near("atmosphere/density",rho,0.0012*std::exp(-h/7.594),1e-9+err,0,at+fmt(": %.12g km above the surface",h)); c.check("atmosphere/ye",ye==0.494,at); c.count("in-the-atmosphere"); return; } }
  if(p.edge((double)q,dq+1e-13)&&(m.kind==VAR||m.kind==SUN||m.kind==SUNNU)){ c.count("at-an-edge"); return; }
  double toly=1e-10*y.Y+3*y.S*dq,tolp=1e-10*p.Y+3*p.S*dq; if(m.kind==SUN||m.kind==SUNNU) toly=.5*toly+1e-15; auto comp=[&](double v){return m.kind==SUN||m.kind==SUNNU?.5*(1+v):v;};
  bool out=q<m.x.front()||q>m.x.back(); if(out) c.count("beyond-the-table");
  double ql=(double)q; double lr=q<m.x.front()?p.below:q>m.x.back()?p.above:m.kind==VAR?p.lib(ql):p.lib(ql),ly=q<m.x.front()?y.below:q>m.x.back()?y.above:y.lib(ql);
  c.near("body/density",rho,lr,1e-12,tolp,at+fmt(" (relative radius %.15Lg)",q)); c.near("body/ye",ye,comp(ly),1e-12,toly,at+fmt(" (relative radius %.15Lg)",q));
  if(p.firm(ql)){ c.near("body/density",rho,(double)p.at(q),1e-12,tolp,at+fmt(" (relative radius %.15Lg)",q)); c.count("independent-density"); } if(y.firm(ql)){ c.near("body/ye",ye,comp((double)y.at(q)),1e-12,toly,at+fmt(" (relative radius %.15Lg)",q)); c.count("independent-ye"); } }
VH_GROUP("profiles",6000,150000){
  Rng& r=c.rng; Made m=make(r,c.idx%NKIND,false,c.tmp); c.desc(fmt("%s, %s",kindName(m.kind),m.how.c_str()));
  for(int k=0;k<4;k++){ Way w=way(r,m); double len=w.len; c.desc(fmt("%s, %s, %s",kindName(m.kind),m.how.c_str(),w.how.c_str()));
    std::vector<double> xs={0,len,len/2}; for(int i=0;i<8;i++) xs.push_back(len*r.unit()); if(m.kind==VAR){ xs.clear(); double a=m.x.front(),b=m.x.back(); for(int i=0;i<8;i++) xs.push_back(r.uni(a-.1*(b-a),b+.1*(b-a))); for(int i=0;i<3;i++) xs.push_back(r.pick(m.x)); }
    if(m.kind==EARTH) for(int i=0;i<3;i++){ double R=r.pick(m.x)*RE,d=R*R-RE*RE+w.b*w.b/4; if(d>=0){ double x=w.b/2+(r.coin()?1:-1)*std::sqrt(d); if(x>=0&&x<=len) xs.push_back(x); } }
    if(m.kind==SUN) for(int i=0;i<3;i++) xs.push_back(r.pick(m.x)*RSUN);
    for(double x:xs) look(c,m,w,x,x*w.unit); }
  if(m.kind==EARTH||m.kind==ATM||m.kind==SUNNU){ // the same depth is the same medium, whatever the path, and a chord is symmetric
    Way w=way(r,m); if(m.kind!=ATM){ double x=w.len*r.unit(),h1,h2; Track& t=*w.t; t.SetX(x*w.unit); h1=m.body->density(t); double y1=m.body->ye(t); t.SetX((w.len-x)*w.unit); h2=m.body->density(t); double err=0; LD R=where(m,w,x,err); double sc=m.kind==EARTH?RE:RSUN_NU; bool e=m.prho->edge((double)R/sc,err/sc+1e-12); if(!e) c.near("body/symmetry",h1,h2,1e-9,1e-10*m.prho->Y+6*m.prho->S*err/sc,""); if(!e) c.near("body/symmetry-ye",y1,m.body->ye(t),1e-9,1e-10+6*m.pye->S*err/sc,""); } }
  // what a body says of itself is what it was made of
  if(m.kind==VAR||m.kind==CON){ auto g=m.body->GetBodyParams(); D want; if(m.kind==VAR){ want=m.x; want.insert(want.end(),m.rho.begin(),m.rho.end()); want.insert(want.end(),m.ye.begin(),m.ye.end()); } else want={m.rho[0],m.ye[0]}; c.check("body/parameters",D(g.begin(),g.end())==want,fmt("%s: %zu parameters (",kindName(m.kind),g.size())+vh::join(g)+") instead of ("+vh::join(want)+")"); c.count("parameters"); }
  // copies of a body answer alike and do not depend on the original
  if(r.coin(.3)){ Way w=way(r,m); w.t->SetX(w.len*r.unit()*w.unit); double a=m.body->density(*w.t),b=m.body->ye(*w.t),a2,b2; auto cp=[&](auto* p){ typedef typename std::remove_pointer<decltype(p)>::type T; T q(*p); Made o=m; m.body.reset(); o.body.reset(); a2=q.density(*w.t); b2=q.ye(*w.t); };
    Body* p=m.body.get(); switch(m.kind){case VAR:cp(static_cast<VariableDensity*>(p));break;case EARTH:cp(static_cast<Earth*>(p));break;case SUN:cp(static_cast<Sun*>(p));break;case SUNNU:cp(static_cast<SunASnu*>(p));break;case ATM:cp(static_cast<EarthAtm*>(p));break;case CON:cp(static_cast<ConstantDensity*>(p));break;default:cp(static_cast<Vacuum*>(p));} c.check("body/copy",a==a2&&b==b2,"a copy answers differently"); }
  c.count(std::string("bodies-")+kindName(c.idx%NKIND)); if(m.x.size()>256) c.count("large-tables"); c.nontrivial(vh::S().desc); c.sample(vh::S().desc);
}
VH_GROUP("rejected-tables",1500,20000){   // tables of different lengths, unordered, too short, empty, or files lacking columns
  Rng& r=c.rng; int k=r.in(0,4),kind=std::vector<int>{VAR,EARTH,SUN,SUNNU,ATM}[r.in(0,4)]; int n=r.in(3,9); D x=inc(r,n,0,1),a=vals(r,n,.1,10,false),b=vals(r,n,0,1,false); D* v[3]={&x,&a,&b}; std::string d;
  auto build=[&](const D& X,const D& A,const D& B){ switch(kind){case VAR:VariableDensity(X,A,B);break;case EARTH:Earth(X,A,B);break;case SUN:Sun(X,A,B);break;case SUNNU:SunASnu(X,A,B);break;default:EarthAtm(X,A,B);} };
  if(k==4&&kind!=VAR){ bool sun=kind==SUN||kind==SUNNU; int need=sun?7:3,cols=r.in(1,need-1),rows=r.in(0,9); if(r.coin(.3)){cols=need; rows=r.in(0,2);} std::string f=c.tmp+"/bad.dat"; FILE* o=fopen(f.c_str(),"w"); for(int i=0;i<rows;i++){ for(int j=0;j<cols;j++) fprintf(o,"%d ",i+j); fprintf(o,"\n"); } fclose(o); d=fmt("file with %d rows of %d columns",rows,cols); c.desc(std::string(kindName(kind))+" "+d);
    c.check("body/bad-file",vh::throws([&]{ switch(kind){case EARTH:Earth{f};break;case SUN:Sun{f};break;case SUNNU:SunASnu{f};break;default:EarthAtm{f};} })==1,"accepted "+d); c.check("body/no-file",vh::throws([&]{ switch(kind){case EARTH:Earth{f+"x"};break;case SUN:Sun{f+"x"};break;case SUNNU:SunASnu{f+"x"};break;default:EarthAtm{f+"x"};} })==1,"absent file accepted"); unlink(f.c_str()); }
  else { if(k==4) k=0; if(k==0){ int i=r.in(0,2); int q=r.in(0,2); if(q==0) v[i]->pop_back(); else if(q==1) v[i]->push_back(2); else v[i]->clear(); d=fmt("column %d with %zu instead of %d entries",i,v[i]->size(),n); } else if(k==1){ int i=r.in(0,n-2); std::swap(x[i],x[i+1]); d="unordered"; } else if(k==2){ int i=r.in(0,n-2); x[i+1]=x[i]; d="repeated node"; } else { int q=r.in(0,2); for(auto p:v) p->resize(q); d=fmt("%d nodes",q); }
    c.desc(std::string(kindName(kind))+" "+d); c.check("body/bad-table",vh::throws([&]{build(x,a,b);})==1,"accepted table: "+d); }
  c.count("rejections"); c.nontrivial(fmt("%d %d ",kind,k)+d);
}
VH_GROUP_SERIAL("atmosphere-scaling",20,200){ // the table gives the radius from the centre (0) to the surface (1), whatever lies above
  Rng& r=c.rng; Made m=make(r,ATM,true); double h1=r.uni(1,10),h2=r.uni(50,150); auto e=std::static_pointer_cast<EarthAtm>(m.body); double depth=r.uni(10,3000); double v[2]; int i=0; for(double h:{h1,h2}){ e->SetAtmosphereHeight(h); auto t=e->MakeTrackWithCosine(-1); t.SetX((h+depth)*P.km); v[i++]=e->density(t); } c.desc(fmt("depth %g km with atmospheres of %g and %g km",depth,h1,h2)); c.near("atmosphere/inside-depends-on-height",v[0],v[1],1e-9,1e-9*m.prho->Y,""); c.count("scalings"); c.nontrivial(vh::S().desc); }
// the profile holds up to and including its first and last points, and nowhere beyond
VH_GROUP("ends",1500,20000){ Rng& r=c.rng; Made m=make(r,VAR); c.desc(m.how); VariableDensity::Track t(0,(m.x.back()+1)*P.cm);
  for(int e=0;e<2;e++){ double x=e?m.x.back():m.x.front(),rho=e?m.rho.back():m.rho.front(),ye=e?m.ye.back():m.ye.front(); double s=x*P.cm; if(s/P.cm!=x){ c.count("not-representable"); continue; } t.SetX(s); std::string at=fmt("%s end at %.17g",e?"last":"first",x);
    c.near("ends/density",m.body->density(t),rho,1e-9,1e-12*m.prho->Y,at); c.near("ends/ye",m.body->ye(t),ye,1e-9,1e-12,at);
    double o=std::nextafter(x,e?HUGE_VAL:-HUGE_VAL)*P.cm; o*=1+(e?1:-1)*(o>0?1:-1)*1e-15; if(e?o/P.cm>x:o/P.cm<x){ t.SetX(o); c.check("ends/beyond",m.body->density(t)==0&&m.body->ye(t)==0,at+fmt(": density %g ye %g beyond it",m.body->density(t),m.body->ye(t))); }
    c.count("ends"); } c.nontrivial(m.how+vh::join(m.x)); }
