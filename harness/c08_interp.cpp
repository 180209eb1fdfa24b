// C08: interpolators against independent long double implementations of Akima derivative estimates and cubic Hermite patches.
#include "vh.h"
#include <array>
#include <algorithm>
#include "nuSQuIDS/tools.h"
#include "cubic.h"
using vh::Ctx; using vh::fmt; using namespace nusquids;
static const double EPS=std::numeric_limits<double>::epsilon();
static D axis(vh::Rng& r,int n,bool exact){ D x; if(exact){ double v=r.in(-20,20); for(int i=0;i<n;i++){x.push_back(v); v+=std::ldexp(1.0,(int)r.in(0,r.coin(.5)?0:2));} return x; }
  double sc=r.logu(1e-6,1e6),v=sc*r.uni(-3,3); bool uni=r.coin(.3); for(int i=0;i<n;i++){ x.push_back(v); v+=sc*(uni?1:r.logu(.1,10)); } return x; }
static D values(vh::Rng& r,int n,bool exact){ D y; double sc=exact?1:r.logu(1e-8,1e8),off=exact?0:r.uni(-2,2)*sc; int kind=r.in(0,3); double k=r.uni(.2,1.5),p=r.uni(0,6);
  for(int i=0;i<n;i++) y.push_back(exact?(double)r.in(-6,6)*(r.coin(.2)?0:1):kind==0?off+sc*r.uni(-1,1):kind==1?off+sc*std::sin(k*i+p):kind==2?sc*std::exp(r.uni(-3,3)):off+sc*(r.coin()?r.uni(-1,1):i)); return y; }
static marray<double,1> M1(const D& d){ marray<double,1> m({d.size()}); for(size_t i=0;i<d.size();i++) m[i]=d[i]; return m; }
static double mx(const D& d){ double m=0; for(double v:d) m=std::max(m,std::fabs(v)); return m; }
VH_GROUP("spline",4000,100000){
  vh::Rng& r=c.rng; bool exact=r.coin(.35); int n=r.in(3,r.coin(.2)?60:9); if(r.coin(.01)) n=r.in(257,3000); if(c.idx%1300==11) n=r.in(65537,70000); if(n>200) exact=false; D x=axis(r,n,exact),y=values(r,n,exact); if(n>256) c.count(n>65536?"splines-beyond-64k":"large-splines"); c.desc(fmt("%s n=%d x=",exact?"exact":"general",n)+(n>200?fmt("%.17g..",x[0]):vh::join(x)+" y="+vh::join(y)));
  int how=r.in(0,5); AkimaSpline s; D junkx{0,1,2,5,6,7},junky{4,3,4,1,9,9};
  if(how==0) s=AkimaSpline(x.data(),y.data(),n); else if(how==1) s=AkimaSpline(x,y); else if(how==2){ s.initialize(x.data(),y.data(),n); } else if(how==3){ s.initialize(junkx.data(),junky.data(),r.in(3,6)); (void)s(1.5); s.initialize(x.data(),y.data(),n); } else if(how==4){ AkimaSpline t(x,y); s=t; t.initialize(junkx.data(),junky.data(),5); } else { AkimaSpline t(x,y),u(std::move(t)); s=std::move(u); }
  Aki A(LV(x),LV(y),exact); double Y=mx(y),slopes=(double)A.scale;
  auto xa=s.getAbscissas(),ya=s.getOrdinates(),da=s.getAbscissaDerivatives(); marray<double,1> d2({(size_t)r.in(1,70)}); s.getAbscissaDerivatives(d2); marray<double,1> d3; s.getAbscissaDerivatives(d3);
  if(!c.check("spline/table-size",xa.extent(0)==(size_t)n&&ya.extent(0)==(size_t)n&&da.extent(0)==(size_t)n&&d2.extent(0)==(size_t)n&&d3.extent(0)==(size_t)n,"")) return;
  for(int i=0;i<n;i++){ c.check("spline/abscissas",xa[i]==x[i],fmt("node %d",i)); c.check("spline/ordinates",ya[i]==y[i],fmt("node %d",i)); c.check("spline/derivative-variants",da[i]==d2[i]&&da[i]==d3[i],fmt("node %d",i));
    double tol=1e-9*slopes+1e-300; if(A.firm[i]) c.near("spline/derivative",da[i],(double)(i<n-1?A.right[i]:A.left[i]),0,tol,fmt("node %d",i));
    // between the slopes of the neighbouring segments in any case
    LD lo=i?A.m[i-1]:2*A.m[0]-A.m[std::min(1,n-2)],hi=i<n-1?A.m[i]:2*A.m[n-2]-A.m[std::max(0,n-3)]; if(lo>hi) std::swap(lo,hi); c.check("spline/derivative-range",da[i]>=lo-tol&&da[i]<=hi+tol,fmt("node %d: %g not in [%Lg,%Lg]",i,da[i],lo,hi));
    if(i<n-1) c.check("spline/node",s(x[i])==y[i],fmt("node %d: %.17g instead of %.17g",i,s(x[i]),y[i])); else c.near("spline/node",s(x[i]),y[i],0,1e-13*(Y+slopes*(x[n-1]-x[n-2])),"last node");
    if(i){ double b=std::nextafter(x[i],-INFINITY); c.near("spline/continuity",s(b),y[i],0,1e-12*(Y+slopes*(x[i]-x[i-1]))+4*slopes*(x[i]-b),fmt("before node %d",i)); } }
  for(int k=0;k<12;k++){ int i=r.in(0,n-2); double t=r.unit(),q=x[i]+t*(x[i+1]-x[i]); if(k==0) q=x[0]-r.unit()*(x[1]-x[0]); if(k==1){q=x[n-1]+r.unit()*(x[n-1]-x[n-2]);} i=cell(x,q); LD h=(LD)x[i+1]-x[i]; t=(double)(((LD)q-x[i])/h);
    double got=s(q); LD d1=A.left[i+1]; double tol=1e-10*(Y+slopes*(double)h);
    if(A.firm[i]&&A.firm[i+1]) c.near("spline/value",got,(double)hermite(((LD)q-x[i])/h,h,y[i],y[i+1],A.right[i],d1),1e-12,tol,fmt("x=%.17g in cell %d",q,i));
    c.check("spline/finite",std::isfinite(got),""); c.count("spline-queries"); }
  // exact scalings by powers of two
  double a=std::ldexp(1.0,(int)r.in(-20,20)),b=std::ldexp(1.0,(int)r.in(-20,20)); D x2=x,y2=y; for(auto& v:x2) v*=a; for(auto& v:y2) v*=-b; AkimaSpline z(x2,y2); for(int k=0;k<4;k++){ double q=r.uni(x[0],x[n-1]); c.near("spline/scaling",z(q*a),-b*s(q),1e-12,1e-13*b*Y); }
  c.count("splines"); c.nontrivial(vh::S().desc); c.sample(vh::S().desc);
}
VH_GROUP("spline-linear",1000,20000){ vh::Rng& r=c.rng; int n=r.in(3,30); D x=axis(r,n,false); double a=r.uni(-5,5)*r.logu(1e-4,1e4),b=r.uni(-5,5)*a*(x[n-1]-x[0]); if(r.coin(.2)) a=0; D y; for(double v:x) y.push_back(a*v+b); c.desc(fmt("linear %g x + %g, n=%d",a,b,n)); AkimaSpline s(x,y); double Y=mx(y)+std::fabs(a)*mx(x);
  for(int k=0;k<20;k++){ double q=r.uni(x[0]-.2*(x[1]-x[0]),x[n-1]+.2*(x[n-1]-x[n-2])); c.near("spline/linear",s(q),a*q+b,0,2e-12*Y*1.0,fmt("x=%g",q)); } c.count("linear-splines"); c.nontrivial(vh::S().desc); }
VH_GROUP("rejections",600,6000){ vh::Rng& r=c.rng; int n=r.in(3,8); D x=axis(r,n,false),y=values(r,n,false); int k=r.in(0,7); c.desc(fmt("kind %d n %d",k,n)); int t=-1;
  if(k==0){ int m=r.in(0,2); t=vh::throws([&]{AkimaSpline s(x.data(),y.data(),m);}); }
  else if(k==1){ int i=r.in(0,n-2); x[i+1]=x[i]; t=vh::throws([&]{AkimaSpline s(x,y);}); }
  else if(k==2){ int i=r.in(0,n-2); std::swap(x[i],x[i+1]); t=vh::throws([&]{AkimaSpline s(x,y);}); }
  else if(k==3){ D z=y; if(r.coin()) z.pop_back(); else z.push_back(1); t=vh::throws([&]{AkimaSpline s(x,z);}); }
  else if(k<=5){ int nx=r.in(3,6),ny=r.in(3,6); size_t ex=nx,ey=ny; D X=axis(r,nx,false),Y=axis(r,ny,false); int w=r.in(0,4); if(w==0) ex+=r.coin()?1:-1; else if(w==1) ey+=r.coin()?1:-1; else if(w==2){ex++;ey--;} else if(w==3) std::swap(X[0],X[nx-1]); else Y[1]=Y[0]; if(w==2&&nx==ny&&0)ex=nx;
    marray<double,2> d({ey,ex}); for(auto& v:d) v=r.uni(-1,1); t=vh::throws([&]{BiCubicInterpolator b(d,M1(X),M1(Y));}); }
  else { int nx=r.in(3,5),ny=r.in(3,5),nz=r.in(3,5); size_t e[3]={(size_t)nz,(size_t)ny,(size_t)nx}; D X=axis(r,nx,false),Y=axis(r,ny,false),Z=axis(r,nz,false); int w=r.in(0,5); if(w<3) e[w]+=r.coin()?1:-1; else { D& q=w==3?X:w==4?Y:Z; if(r.coin()) q[2]=q[1]; else std::swap(q[0],q[1]); }
    marray<double,3> d({e[0],e[1],e[2]}); for(auto& v:d) v=r.uni(-1,1); t=vh::throws([&]{TriCubicInterpolator b(d,M1(X),M1(Y),M1(Z));}); }
  c.check("interp/rejection",t==1,fmt("inconsistent input of kind %d accepted",k)); c.count("rejections"); c.nontrivial(fmt("%d %d %d",k,n,(int)(c.idx%30)));
  c.check("interp/empty",BiCubicInterpolator()(1,2)==0&&TriCubicInterpolator()(1,2,3)==0,"");
}
// --- two and three dimensions ---
static Grid grid(vh::Rng& r,bool three,int mode){ Grid g; g.nx=r.in(3,three?6:9); g.ny=r.in(3,three?6:9); g.nz=three?r.in(3,6):1; if(r.coin(.02)){ int k=r.in(0,three?2:1); (k==0?g.nx:k==1?g.ny:g.nz)=r.in(257,300); } g.x=axis(r,g.nx,false); g.y=axis(r,g.ny,false); g.z=three?axis(r,g.nz,false):D{0}; g.f.resize((size_t)g.nx*g.ny*g.nz);
  double sc=r.logu(1e-6,1e6); double co[8]; for(auto& v:co) v=r.uni(-1,1)*(r.coin(.15)?0:1); double ph[3]={r.uni(0,6),r.uni(0,6),r.uni(0,6)}; bool dep[3]={true,true,true}; if(mode==2) dep[r.in(0,three?2:1)]=false; 
  for(int k=0;k<g.nz;k++)for(int j=0;j<g.ny;j++)for(int i=0;i<g.nx;i++){ double u=(g.x[i]-g.x[0])/(g.x[g.nx-1]-g.x[0]),v=(g.y[j]-g.y[0])/(g.y[g.ny-1]-g.y[0]),w=three?(g.z[k]-g.z[0])/(g.z[g.nz-1]-g.z[0]):0; double f;
    if(mode==0) f=co[0]+co[1]*u+co[2]*v+co[3]*w+co[4]*u*v+co[5]*u*w+co[6]*v*w+co[7]*u*v*w; else if(mode==1) f=r.uni(-1,1); else { f=(dep[0]?std::sin(3*u+ph[0])+.3*u:1)*(dep[1]?std::cos(4*v+ph[1])+.2*v*v:1)*(dep[2]&&three?std::sin(5*w+ph[2])+.4*w:1); }
    g.f[((size_t)k*g.ny+j)*g.nx+i]=sc*f; } return g; }
static marray<double,2> d2(const Grid& g){ marray<double,2> m({(size_t)g.ny,(size_t)g.nx}); for(int j=0;j<g.ny;j++)for(int i=0;i<g.nx;i++) m[j][i]=g.at(0,j,i); return m; }
static marray<double,3> d3(const Grid& g){ marray<double,3> m({(size_t)g.nz,(size_t)g.ny,(size_t)g.nx}); for(int k=0;k<g.nz;k++)for(int j=0;j<g.ny;j++)for(int i=0;i<g.nx;i++) m[k][j][i]=g.at(k,j,i); return m; }
static double multilin(const Grid& g,double x,double y,double z){ int i=cell(g.x,x),j=cell(g.y,y),k=g.nz>1?cell(g.z,z):0; LD s=0; LD tx=((LD)x-g.x[i])/((LD)g.x[i+1]-g.x[i]),ty=((LD)y-g.y[j])/((LD)g.y[j+1]-g.y[j]),tz=g.nz>1?((LD)z-g.z[k])/((LD)g.z[k+1]-g.z[k]):0; for(int a=0;a<2;a++)for(int b=0;b<2;b++)for(int d=0;d<(g.nz>1?2:1);d++) s+=(a?tx:1-tx)*(b?ty:1-ty)*(g.nz>1?(d?tz:1-tz):1)*(LD)g.at(k+d,j+b,i+a); return (double)s; }
template<typename EV> static void cubic(Ctx& c,const Grid& g,int mode,EV ev,const std::string& nm){
  vh::Rng& r=c.rng; Oracle o(g); double F=mx(g.f); bool three=g.nz>1; LD mag;
  for(int q=0;q<14;q++){ int i=r.in(0,g.nx-1),j=r.in(0,g.ny-1),k=r.in(0,g.nz-1); LD M; o.eval(g.x[i],g.y[j],g.z[k],&M); c.near(nm+"/node",ev(g.x[i],g.y[j],g.z[k]),g.at(k,j,i),0,(double)M*1e-12+F*1e-13,fmt("node %d %d %d",i,j,k)); }
  for(int q=0;q<24;q++){ double x=r.uni(g.x[0],g.x[g.nx-1]),y=r.uni(g.y[0],g.y[g.ny-1]),z=three?r.uni(g.z[0],g.z[g.nz-1]):0; if(r.coin(.15)) x=g.x[r.in(0,g.nx-1)]; if(r.coin(.15)) y=g.y[r.in(0,g.ny-1)]; double got=ev(x,y,z); LD want=o.eval(x,y,z,&mag);
    if(mode==0) c.near(nm+"/multilinear",got,multilin(g,x,y,z),0,2e-10*F,fmt("at %g %g %g",x,y,z));
    else if(o.firm){ c.near(nm+"/value",got,(double)want,0,(double)mag*1e-8+F*1e-12,fmt("at %.17g %.17g %.17g",x,y,z)); c.count("cubic-queries"); } else c.count("ill-conditioned"); }
  // the outermost cells continue beyond the grid
  for(int q=0;q<8;q++){ double p[3]; bool out=false; for(int a=0;a<3;a++){ const D& X=a==0?g.x:a==1?g.y:g.z; if(a==2&&!three){ p[a]=0; continue; } int n=X.size(); switch(r.in(0,2)){ case 0: p[a]=X[0]-r.uni(0,.6)*(X[1]-X[0]); out=true; break; case 1: p[a]=X[n-1]+r.uni(0,.6)*(X[n-1]-X[n-2]); out=true; break; default: p[a]=r.uni(X[0],X[n-1]); } }
    if(!out||!o.firm) continue; LD want=o.eval(p[0],p[1],p[2],&mag); c.near(nm+"/outside",ev(p[0],p[1],p[2]),(double)want,0,(double)mag*1e-6+F*1e-11,fmt("at %.17g %.17g %.17g",p[0],p[1],p[2])); c.count("outside-queries"); }
  // continuity across the faces of the cells
  for(int q=0;q<10;q++){ double p[3]={r.uni(g.x[0],g.x[g.nx-1]),r.uni(g.y[0],g.y[g.ny-1]),three?r.uni(g.z[0],g.z[g.nz-1]):0}; int ax=r.in(0,three?2:1); const D& X=ax==0?g.x:ax==1?g.y:g.z; int m=r.in(1,(int)X.size()-1); p[ax]=X[m]; double a=ev(p[0],p[1],p[2]); o.eval(p[0],p[1],p[2],&mag); p[ax]=std::nextafter(X[m],-INFINITY); double b=ev(p[0],p[1],p[2]); LD m2; o.eval(p[0],p[1],p[2],&m2); double rel=std::fabs(X[m])*EPS/(X[m]-X[m-1]); c.near(nm+"/continuity",b,a,0,(double)std::max(mag,m2)*(1e-10+100*rel),fmt("axis %d node %d",ax,m)); }
  c.nontrivial(vh::S().desc); c.sample(vh::S().desc);
}
VH_GROUP("bicubic",1200,30000){
  vh::Rng& r=c.rng; int mode=r.in(0,2); Grid g=grid(r,false,mode); c.desc(fmt("2-d %dx%d mode %d f0=%g",g.nx,g.ny,mode,g.f[0])); BiCubicInterpolator b(d2(g),M1(g.x),M1(g.y)); BiCubicInterpolator t; int how=r.in(0,3); if(how==1){ t=b; b=BiCubicInterpolator(); b=t; } else if(how==2){ t=std::move(b); b=std::move(t); } else if(how==3){ BiCubicInterpolator u(b); b=BiCubicInterpolator(u.getData(),u.getXCoords(),u.getYCoords()); }
  bool ok=b.getData().extent(0)==(size_t)g.ny&&b.getData().extent(1)==(size_t)g.nx&&b.getXCoords().extent(0)==(size_t)g.nx&&b.getYCoords().extent(0)==(size_t)g.ny; if(c.check("bicubic/tables",ok,"shape")){ for(int j=0;j<g.ny;j++)for(int i=0;i<g.nx;i++) c.check("bicubic/tables",b.getData()[j][i]==g.at(0,j,i)&&b.getXCoords()[i]==g.x[i]&&b.getYCoords()[j]==g.y[j],""); }
  cubic(c,g,mode,[&](double x,double y,double){return b(x,y);},"bicubic"); c.count("bicubic"); if(std::max(g.nx,g.ny)>256) c.count("large-grids");
  for(int q=0;q<3;q++){ double x=r.uni(2*g.x[0]-g.x[1],2*g.x[g.nx-1]-g.x[g.nx-2]),y=r.uni(2*g.y[0]-g.y[1],2*g.y[g.ny-1]-g.y[g.ny-2]); (void)b(x,y); }
  if(mode==2){ bool cx=true; for(int j=0;j<g.ny;j++) for(int i=1;i<g.nx;i++) if(g.at(0,j,i)!=g.at(0,j,0)) cx=false; bool cy=true; for(int j=1;j<g.ny;j++) for(int i=0;i<g.nx;i++) if(g.at(0,j,i)!=g.at(0,0,i)) cy=false; D line; if(cx) for(int j=0;j<g.ny;j++) line.push_back(g.at(0,j,0)); else if(cy) for(int i=0;i<g.nx;i++) line.push_back(g.at(0,0,i));
    if(cx||cy){ AkimaSpline s(cx?g.y:g.x,line); for(int q=0;q<10;q++){ double x=r.uni(g.x[0],g.x[g.nx-1]),y=r.uni(g.y[0],g.y[g.ny-1]); c.near("bicubic/reduces-to-spline",b(x,y),s(cx?y:x),0,1e-11*mx(g.f)*20); } c.count("reduced-to-1d"); } }
}
VH_GROUP("tricubic",500,12000){
  vh::Rng& r=c.rng; int mode=r.in(0,2); Grid g=grid(r,true,mode); c.desc(fmt("3-d %dx%dx%d mode %d f0=%g",g.nx,g.ny,g.nz,mode,g.f[0])); TriCubicInterpolator b(d3(g),M1(g.x),M1(g.y),M1(g.z)); int how=r.in(0,2); if(how==1){ TriCubicInterpolator t; t=b; b=TriCubicInterpolator(); b=t; } else if(how==2){ TriCubicInterpolator t(std::move(b)); b=std::move(t); }
  cubic(c,g,mode,[&](double x,double y,double z){return b(x,y,z);},"tricubic"); c.count("tricubic"); if(std::max(g.nx,std::max(g.ny,g.nz))>256) c.count("large-grids");
  if(mode==2){ int ax=-1; auto same=[&](int a){ for(int k=0;k<g.nz;k++)for(int j=0;j<g.ny;j++)for(int i=0;i<g.nx;i++) if(g.at(k,j,i)!=g.at(a==2?0:k,a==1?0:j,a==0?0:i)) return false; return true; }; for(int a=0;a<3;a++) if(same(a)) ax=a;
    if(ax>=0){ Grid h; h.nz=1; h.z={0}; if(ax==2){h.x=g.x;h.y=g.y;} else if(ax==1){h.x=g.x;h.y=g.z;} else {h.x=g.y;h.y=g.z;} h.nx=h.x.size(); h.ny=h.y.size(); for(int j=0;j<h.ny;j++)for(int i=0;i<h.nx;i++) h.f.push_back(ax==2?g.at(0,j,i):ax==1?g.at(j,0,i):g.at(j,i,0)); Oracle o(g); if(o.firm){ BiCubicInterpolator q(d2(h),M1(h.x),M1(h.y)); for(int n=0;n<10;n++){ double x=r.uni(g.x[0],g.x[g.nx-1]),y=r.uni(g.y[0],g.y[g.ny-1]),z=r.uni(g.z[0],g.z[g.nz-1]); LD m; o.eval(x,y,z,&m); c.near("tricubic/reduces-to-bicubic",b(x,y,z),ax==2?q(x,y):ax==1?q(x,z):q(y,z),0,(double)m*1e-8); } c.count("reduced-to-2d"); } } }
}
