// C05: numerical integration. The integrand is the monitor: it records every abscissa it is asked for.
#include "vh.h"
#include <gsl/gsl_errno.h>
#include <memory>
#include "nuSQuIDS/AdaptiveQuad.h"
#include "nuSQuIDS/tools.h"
using vh::Ctx; using vh::fmt;
typedef long double LD;
struct Fn{ std::string name; std::function<double(double)> f; std::function<LD(LD)> F; };   // F is an antiderivative
static double EPS=std::numeric_limits<double>::epsilon();
// a random smooth function on [a,b] with a known antiderivative; never negative and free of features narrower than the interval's eighth
static Fn smooth(vh::Rng& r,double a,double b){
  double w=b-a,m=0.5*(a+b); double A=r.logu(1e-6,1e6);
  switch(r.in(0,5)){
    case 0:{ double k=r.uni(-4,4)/w; if(std::fabs(k*w)<1e-3) k=1/w; return {fmt("exp k=%g",k),[=](double x){return A*std::exp(k*(x-m));},[=](LD x){return (LD)A/k*expl((LD)k*(x-m));}}; }
    case 1:{ double k=r.uni(0.5,9)/w,p=r.uni(0,6.28); return {fmt("1.5+sin k=%g",k),[=](double x){return A*(1.5+std::sin(k*(x-m)+p));},[=](LD x){return (LD)A*(1.5L*x-cosl((LD)k*(x-m)+p)/k);}}; }
    case 2:{ double s=w*r.uni(0.25,3),c=m+r.uni(-.4,.4)*w; return {fmt("lorentz s=%g",s),[=](double x){double t=(x-c)/s;return A/(1+t*t);},[=](LD x){return (LD)A*s*atanl((x-c)/s);}}; }
    case 3:{ double s=w*r.uni(0.25,3),c=m+r.uni(-.4,.4)*w; return {fmt("gauss s=%g",s),[=](double x){double t=(x-c)/s;return A*std::exp(-t*t);},[=](LD x){return (LD)A*s*sqrtl(acosl(-1.0L))/2*erfl((x-c)/s);}}; }
    case 4:{ double s=a-w*r.logu(0.05,10); double p=r.uni(-4,4); if(std::fabs(p+1)<0.05) p=-1.5; return {fmt("power p=%g",p),[=](double x){return A*std::pow((x-s)/w,p);},[=](LD x){return (LD)A*w/(p+1)*powl((x-s)/w,p+1);}}; }
    default:{ double s=a-w*r.logu(0.05,10); return {"log",[=](double x){return A*std::log1p((x-s)/w);},[=](LD x){LD u=1+(x-s)/w;return (LD)A*w*(u*logl(u)-u);}}; }
  }
}
static void interval(vh::Rng& r,double& a,double& b){
  switch(r.in(0,4)){
    case 0: a=r.uni(-10,10); b=a+r.logu(1e-3,100); break;
    case 1: a=r.logu(1e-12,1e12); b=a*(1+r.logu(1e-4,1e4)); break;
    case 2: a=-r.logu(1e-12,1e12); b=a+std::fabs(a)*r.logu(1e-4,1e2); break;
    case 3: a=0; b=r.logu(1e-9,1e9); break;
    default: b=r.logu(1e-3,1e3); a=-b; break; }
}
struct Watch{ double lo,hi; uint64_t n=0,na=0,nb=0,outside=0; double worst=0; void see(double x){ n++; if(x==lo) na++; if(x==hi) nb++; if(!(x>=lo&&x<=hi)){outside++;worst=x;} } };
VH_GROUP("quad-smooth",6000,200000){
  vh::Rng& r=c.rng; double a,b; interval(r,a,b); Fn f=smooth(r,a,b); double tol=std::pow(10.,-r.uni(3,11)); bool rev=r.coin(.4); double A=rev?b:a,B=rev?a:b;
  c.desc(fmt("[%.17g,%.17g] tol %.3g ",A,B,tol)+f.name);
  LD exact=f.F(b)-f.F(a); LD cond=fabsl(f.F(b))+fabsl(f.F(a)); 
  Watch w{a,b}; auto g=[&](double x){w.see(x); return f.f(x);};
  AdaptiveQuad::Options o; double v=AdaptiveQuad::integrate(g,A,B,tol,&o);
  c.check("quad/outside",w.outside==0,fmt("integrand evaluated at %.17g outside the interval",w.worst));
  c.check("quad/endpoints",w.na==1&&w.nb==1,fmt("end points evaluated %d and %d times",(int)w.na,(int)w.nb));
  c.check("quad/work",w.n<2000000,fmt("%llu evaluations",(unsigned long long)w.n));
  double want=(double)(rev?-exact:exact), slack=(double)(cond*1e-15L);
  if(o.inTolerance()) c.near("quad/accuracy",v,want,std::min(1e3*tol,std::max(0.01,tol))+1e-13,slack,f.name+fmt(" evals %llu",(unsigned long long)w.n));
  else if((b-a)>1e-9*std::max(std::fabs(a),std::fabs(b))) c.fail("quad/tolerance-flag","reports an unmet tolerance for a smooth function");
  c.check("quad/uncertainty",std::isfinite(o.uncertainty)&&o.uncertainty>=0,fmt("uncertainty %g",o.uncertainty));
  c.check("quad/options-fill",o.fa==f.f(A)&&o.fb==f.f(B),fmt("options hold %.17g %.17g, the integrand has %.17g %.17g at the limits",o.fa,o.fb,f.f(A),f.f(B)));
  // without options, with exchanged limits, and with known end points
  double v2=AdaptiveQuad::integrate(g,A,B,tol); c.check("quad/options-change-result",v2==v,fmt("%.17g with options, %.17g without",v,v2));
  double v3=AdaptiveQuad::integrate(g,B,A,tol); c.check("quad/reversal",v3==-v,fmt("%.17g reversed, %.17g forward",v3,v));
  uint64_t full=w.n; (void)full; Watch k{a,b}; auto gk=[&](double x){k.see(x); return f.f(x);};
  AdaptiveQuad::Options p; int which=r.in(1,3); if(which&1) p.fa=f.f(A); if(which&2) p.fb=f.f(B); p.outOfTolerance=r.coin();
  double v4=AdaptiveQuad::integrate(gk,A,B,tol,&p); c.check("quad/known-endpoints-result",v4==v,fmt("%.17g with known end values, %.17g without",v4,v));
  uint64_t nA=rev?k.nb:k.na,nB=rev?k.na:k.nb; c.check("quad/known-endpoints-reevaluated",nA==((which&1)?0u:1u)&&nB==((which&2)?0u:1u),fmt("limits evaluated %d and %d times though %d were known",(int)nA,(int)nB,which));
  c.check("quad/flag-reset",p.outOfTolerance==o.outOfTolerance,"a reused options object keeps an old flag");
  c.check("quad/uncertainty-same",p.uncertainty==o.uncertainty,"");
  // options reused for the reversed integral: swap the known values along with the limits
  AdaptiveQuad::Options q; q.fa=o.fb; q.fb=o.fa; double v5=AdaptiveQuad::integrate(g,B,A,tol,&q); c.check("quad/reversed-known-endpoints",v5==-v,fmt("%.17g, expected %.17g",v5,-v));
  // additivity
  double m=a+(b-a)*r.uni(.2,.8); if(m>a&&m<b){ AdaptiveQuad::Options l,h; double x=AdaptiveQuad::integrate(g,a,m,tol,&l); h.fa=l.fb; double y=AdaptiveQuad::integrate(g,m,b,tol,&h); if(l.inTolerance()&&h.inTolerance()&&o.inTolerance()) c.near("quad/additivity",x+y,rev?-v:v,std::min(2e3*tol,std::max(0.02,tol))+1e-13,slack,f.name); }
  c.count("integrals"); c.count("abscissae",w.n); if(w.n>13) c.count("subdivided"); if(!o.inTolerance()) c.count("out-of-tolerance");
  if(w.n>13) c.nontrivial(fmt("%.17g %.17g %.17g ",A,B,tol)+f.name); c.sample(vh::S().desc);
}
VH_GROUP("quad-accuracy-rate",150,3000){   // the requested accuracy itself: the estimator may be fooled now and then, not regularly
  vh::Rng& r=c.rng; int bad=0,N=100; double worst=0; std::string wh;
  for(int i=0;i<N;i++){ double a,b; interval(r,a,b); Fn f=smooth(r,a,b); double tol=std::pow(10.,-r.uni(3,11)); AdaptiveQuad::Options o; double v=AdaptiveQuad::integrate(f.f,a,b,tol,&o); LD ex=f.F(b)-f.F(a); double e=std::fabs((double)(v-ex))-(double)((fabsl(f.F(b))+fabsl(f.F(a)))*1e-15L);
    if(e>2*tol*std::fabs((double)ex)+1e-13*std::fabs((double)ex)){ bad++; if(e/std::fabs((double)ex)/tol>worst){worst=e/std::fabs((double)ex)/tol; wh=f.name+fmt(" [%g,%g] tol %g",a,b,tol);} } }
  c.check("quad/accuracy-rate",bad<=4,fmt("%d of %d integrals miss the requested accuracy, worst by a factor %g: ",bad,N,worst)+wh); c.count("accuracy-batches"); c.nontrivial(c.idx);
}
VH_GROUP("quad-polynomial",3000,100000){
  vh::Rng& r=c.rng; double a,b; interval(r,a,b); int deg=r.in(0,9); double m=r.coin()?0:0.5*(a+b),w=std::max(std::fabs(a-m),std::fabs(b-m)); std::vector<double> k; for(int i=0;i<=deg;i++) k.push_back(r.uni(-1,1)*r.logu(1e-3,1e3)*(r.coin(.1)?0:1));
  c.desc(fmt("degree %d on [%.17g,%.17g]",deg,a,b)); Watch wa{a,b};
  auto f=[&](double x){wa.see(x); double t=(x-m)/w,s=0; for(int i=deg;i>=0;i--) s=s*t+k[i]; return s;};
  LD ta=((LD)a-m)/w,tb=((LD)b-m)/w,ex=0,mag=0; for(int i=0;i<=deg;i++){ LD u=k[i]*(powl(tb,i+1)-powl(ta,i+1))/(i+1)*w; ex+=u; mag+=fabsl(k[i])*(b-a); }
  double tol=std::pow(10.,-r.uni(2,10)); AdaptiveQuad::Options o; double v=AdaptiveQuad::integrate(f,a,b,tol,&o);
  c.near("quad/polynomial",v,(double)ex,0,(double)(mag*(2e-14L+4*(deg+1)*EPS*std::max(std::fabs(a),std::fabs(b))/(b-a))),fmt("degree %d evals %d",deg,(int)wa.n)); c.check("quad/outside",wa.outside==0,"");
  // a polynomial in a single step
  if(deg<=5){ c.check("quad/polynomial-steps",wa.n==13||!(std::fabs((double)ex)>1e-3*(double)mag),fmt("%d evaluations for degree %d",(int)wa.n,deg)); c.check("quad/polynomial-flag",o.inTolerance()||!(std::fabs((double)ex)>1e-3*(double)mag),""); }
  c.count("polynomials"); c.nontrivial(c.idx);
}
VH_GROUP("quad-awkward",1500,40000){   // functions with corners, steps and sign changes: bounded work, honest flags, no abscissa outside
  vh::Rng& r=c.rng; double a,b; interval(r,a,b); if((b-a)<1e-6*std::max(std::fabs(a),std::fabs(b))) b=a+1+std::fabs(a); double w=b-a,s=a+w*r.uni(.05,.95),h=r.uni(.5,3); int kind=r.in(0,3); double tol=std::pow(10.,-r.uni(3,9));
  Watch wa{a,b}; auto f=[&](double x)->double{ wa.see(x); double t=(x-s)/w; switch(kind){case 0:return x<s?1:1+h; case 1:return 1+std::fabs(t)*h; case 2:return t<0?1+h*t*t:1; default:return x<s?0:1;} };
  LD L=((LD)s-a),R=((LD)b-s),W=w,ex; switch(kind){case 0:ex=L+R*(1+h);break; case 1:ex=W+h*(L*L+R*R)/(2*W);break; case 2:ex=W+h*L*L*L/(3*W*W);break; default:ex=R;}
  c.desc(fmt("kind %d split %.17g on [%.17g,%.17g] tol %g",kind,s,a,b,tol)); AdaptiveQuad::Options o; double v=AdaptiveQuad::integrate(f,a,b,tol,&o);
  c.check("quad/outside",wa.outside==0,""); c.check("quad/work",wa.n<200000,fmt("%llu evaluations",(unsigned long long)wa.n));
  if(o.inTolerance()) c.near("quad/awkward-accuracy",v,(double)ex,3*std::sqrt(tol)+1e-13,0,fmt("evals %d",(int)wa.n));
  c.count("awkward"); if(wa.n>13) c.nontrivial(c.idx);
}
VH_GROUP("quad-narrow",3000,60000){   // near the resolution limit: refused, or every abscissa still inside and the tolerance flag honest
  vh::Rng& r=c.rng; double a=(r.coin()?1:-1)*r.logu(1e-9,1e9); double u=std::fabs(a)*EPS; double n=r.coin(.3)?0:r.logu(1,2000); double b=a+n*u; if(r.coin()) std::swap(a,b);
  double lo=std::min(a,b),hi=std::max(a,b); bool narrow=!(hi-lo>32*EPS*std::max(std::fabs(a),std::fabs(b)));
  c.desc(fmt("[%.17g,%.17g] width %g eps",a,b,n)); Watch w{lo,hi}; int kind=r.in(0,1); double mid=lo+(hi-lo)*r.uni(.1,.9); auto f=[&](double x)->double{w.see(x); return kind?(x<mid?1.:3.):2.;}; AdaptiveQuad::Options o; double v=0; std::string m;
  int t=vh::throws([&]{v=AdaptiveQuad::integrate(f,a,b,1e-6,&o);},&m);
  if(hi-lo>34*EPS*std::max(std::fabs(a),std::fabs(b))||hi-lo<30*EPS*std::max(std::fabs(a),std::fabs(b))) c.check("quad/narrow-refusal",(t==1)==narrow,fmt("interval of %g eps %s",n,t?"refused":"accepted"));
  c.check("quad/outside",w.outside==0,"");
  if(!t){ double L=std::min(hi,mid)-lo,R=hi-mid; double ex=(kind?L+3*R:2*(hi-lo))*(a>b?-1:1); if(o.inTolerance()) c.near("quad/narrow-accuracy",v,ex,kind?0.2:1e-12,0,"");
    if(!kind) c.check("quad/narrow-flag",o.inTolerance(),"a constant integrand is reported as out of tolerance"); c.count("narrow-accepted"); c.nontrivial(c.idx);} else c.count("narrow-refused");
}
VH_GROUP("quad-unmet",600,20000){   // a step far from zero cannot be resolved to a tiny tolerance: this has to be reported, and nothing worse may happen
  vh::Rng& r=c.rng; double a=(r.coin()?1:-1)*r.logu(1,1e6),w=std::fabs(a)*r.logu(1e-7,1); double b=a+w,s=a+w*r.uni(.05,.95),h=(r.coin()?1:-1)*r.logu(.1,10); bool easy=r.coin(.4); double S=std::max(std::fabs(a),std::fabs(b)),res=EPS*std::fabs(s)*std::fabs(h); bool rev=r.coin();
  LD ex=((LD)s-a)+((LD)b-s)*(1+(LD)h); double ref=std::max({(double)fabsl(ex),w*.01}); double tol=easy?std::min(1.,std::max(res*1e4/ref,3e-16)):res*1e-4/w; 
  if(!easy&&tol<2.3e-16){ tol=2.3e-16; } c.desc(fmt("step of %g at %.17g on [%.17g,%.17g] tol %g",h,s,a,b,tol)); Watch wa{a,b}; double lo=a,hi=b; auto f=[&](double x)->double{ wa.see(x); if(x<s) lo=std::max(lo,x); else hi=std::min(hi,x); return x<s?1:1+h; };
  AdaptiveQuad::Options o; double v=rev?AdaptiveQuad::integrate(f,b,a,tol,&o):AdaptiveQuad::integrate(f,a,b,tol,&o); if(rev) v=-v;
  c.check("quad/outside",wa.outside==0,""); c.check("quad/work",wa.n<20000,fmt("%llu evaluations",(unsigned long long)wa.n));
  c.check("quad/uncertainty",std::isfinite(o.uncertainty)&&o.uncertainty>=0,fmt("uncertainty %g",o.uncertainty));
  if(!easy&&tol*std::max(w*(1+std::fabs(h)),(double)fabsl(ex))*30<res){ c.check("quad/unmet-reported",!o.inTolerance(),fmt("step known to %g, asked for %g, and reported as in tolerance",res,tol*ref)); c.count("unmet"); }
  if(!o.inTolerance()){ c.check("quad/unmet-resolved",hi-lo<40*EPS*S,fmt("gave up at a width of %g",hi-lo)); c.check("quad/unmet-uncertainty",o.uncertainty>0,"no uncertainty for a tolerance which was not met"); c.near("quad/unmet-value",v,(double)ex,0,200*EPS*S*(1+std::fabs(h))+1e-13*w*(1+std::fabs(h))); c.count("flagged"); }
  if(easy&&tol>=res*1e4/ref&&fabsl(ex)>.2*w){ c.check("quad/easy-in-tolerance",o.inTolerance(),"a tolerance which can be met is reported as not met"); c.count("easy-steps"); }
  c.nontrivial(c.idx);
}
VH_GROUP("quad-nonfinite",400,10000){   // values which are not numbers, or not finite: bounded work, and no claim of accuracy
  vh::Rng& r=c.rng; double a,b; interval(r,a,b); if((b-a)<1e-6*std::max(std::fabs(a),std::fabs(b))) b=a+1+std::fabs(a); double w=b-a; int kind=r.in(0,5); double p=kind==5?a+w/2:a+w*r.uni(0,1),q=w*r.logu(1e-4,.5); bool end=r.coin(); bool rev=r.coin(); double tol=std::pow(10.,-r.uni(3,11)); bool seen=false,ends=false; struct Run{}; uint64_t n=0;
  auto f=[&](double x)->double{ if(++n>200000) throw Run(); double y; switch(kind){ case 0: y=x<p?NAN:1+(x-a)/w; break; case 1: y=1/std::sqrt(std::fabs(x-(end?a:b))); break; case 2: y=std::fabs(x-p)<q?NAN:1.; break; case 3: y=std::fabs(x-p)<q?(end?1:-1)*INFINITY:2.; break; case 4: y=(x<p?1:-1)*1.7e308; break; default: y=x==p?NAN:std::sin(20*(x-p)/w)/(x-p)*w; } if(!std::isfinite(y)||kind==4){ seen=true; if(x==a||x==b) ends=true; } return y; };
  c.desc(fmt("kind %d at %.17g width %g on [%.17g,%.17g] tol %g",kind,p,q,a,b,tol)); AdaptiveQuad::Options o; double v=0; bool run=false; try{ v=rev?AdaptiveQuad::integrate(f,b,a,tol,&o):AdaptiveQuad::integrate(f,a,b,tol,&o); }catch(Run&){ run=true; }
  c.check("quad/nonfinite-work",!run,"the integration of an integrand with values which are not finite goes on and on"); if(run) return;
  if(ends&&kind!=4) c.check("quad/nonfinite-flag",!o.inTolerance(),fmt("claims %g to be in tolerance with an end point which is not finite",v));
  if(!std::isfinite(v)) c.check("quad/nonfinite-flag",!o.inTolerance(),fmt("claims %g to be in tolerance",v));
  if(seen) c.count("nonfinite-seen"); c.count("nonfinite"); c.nontrivial(c.idx);
}
VH_GROUP("quad-refusals",300,3000){
  vh::Rng& r=c.rng; double a,b; interval(r,a,b); int calls=0; auto f=[&](double){calls++;return 1.;}; double tol=r.coin(.3)?0:(r.coin()?-r.logu(1e-20,1):r.logu(1e-30,2.2e-16)); AdaptiveQuad::Options o; c.desc(fmt("tol %g",tol));
  c.check("quad/tolerance-refusal",vh::throws([&]{AdaptiveQuad::integrate(f,a,b,tol,&o);})==1&&calls==0,"tolerance below the machine resolution accepted");
  double z=r.coin()?a:0; c.check("quad/empty-refusal",vh::throws([&]{AdaptiveQuad::integrate(f,z,z,1e-6);})==1,"empty interval accepted");
  struct Boom{}; int when=r.in(1,13),n=0; c.check("quad/exception-through",[&]{ try{ AdaptiveQuad::integrate([&](double)->double{ if(++n==when) throw Boom(); return 1.; },a,b,1e-6); }catch(Boom&){return true;} return false;}(),"exception of the integrand swallowed");
  c.count("refusals"); c.nontrivial(fmt("%g%g%g",tol,a,b));
}
struct Nest{ double operator()(double x) const{ return AdaptiveQuad::integrate([&](double y){return 1+x*y;},0,1,1e-8); } };
VH_GROUP("quad-nested",200,4000){ double b=c.rng.uni(.1,5); c.desc(fmt("nested to %g",b)); c.near("quad/nested",AdaptiveQuad::integrate(Nest(),0,b,1e-8),b+b*b/4,1e-12,0); c.nontrivial(c.idx); }
VH_GROUP("gsl-smooth",2000,60000){
  vh::Rng& r=c.rng; gsl_set_error_handler_off(); double a,b; interval(r,a,b); Fn f=smooth(r,a,b); double acc=std::pow(10.,-r.uni(3,10)); bool rev=r.coin(.3); double A=rev?b:a,B=rev?a:b; c.desc(fmt("gsl [%.17g,%.17g] acc %.3g ",A,B,acc)+f.name);
  LD exact=f.F(b)-f.F(a),cond=fabsl(f.F(b))+fabsl(f.F(a)); auto w=std::make_shared<Watch>(Watch{a,b}); auto g=[=](double x){w->see(x); return f.f(x);};
  double v=nusquids::integrate(g,A,B,acc); double want=(double)(rev?-exact:exact),slack=(double)(cond*1e-15L);
  c.near("gsl/accuracy",v,want,2*acc+1e-13,slack,f.name); c.check("gsl/outside",w->outside==0,fmt("integrand evaluated at %.17g",w->worst));
  static nusquids::IntegrateWorkspace ws(5000); double v2=nusquids::integrate(ws,g,A,B,acc); c.check("gsl/workspace",v2==v,fmt("%.17g with a shared workspace, %.17g with its own",v2,v));
  double v3=nusquids::integrate(ws,g,B,A,acc); c.near("gsl/reversal",v3,-v,2*acc+1e-13,slack);
  double m=a+(b-a)*r.uni(.2,.8); c.near("gsl/additivity",nusquids::integrate(ws,g,a,m,acc)+nusquids::integrate(ws,g,m,b,acc),rev?-v:v,4*acc+1e-13,slack);
  // default accuracy
  c.near("gsl/default-accuracy",nusquids::integrate(g,A,B),want,2e-7,slack);
  c.count("gsl-integrals"); c.nontrivial(vh::S().desc);
}
