// C03: array arithmetic and functions against an index-by-index evaluation of the scalar operation.
#define VH_HEAP 1
#ifndef PART1
#define VH_NO_MAIN 1
#endif
#include "vh.h"
#include <cassert>
#include <array>
#include <complex>
#include <numeric>
#include <sstream>
#include "nuSQuIDS/marray.h"
using namespace nusquids; using vh::Ctx; using vh::fmt;
typedef std::vector<size_t> Ext; static size_t prod(const Ext& e){size_t p=1;for(auto x:e)p*=x;return p;}
template<typename T> struct Mk; // values; nz: usable as divisor
template<> struct Mk<double>{static double v(vh::Rng& r,bool nz){ int k=r.in(0,19); double s=r.coin()?1:-1; if(!nz||true){ if(k==0) return s*0.0; if(k==1) return s*INFINITY; if(k==2) return s*5e-324; if(k==3) return s*1.7e308; if(k==4) return NAN; } if(k<9) return s*r.in(1,5); if(k<13) return s*r.unit(); return s*r.logu(1e-6,1e6); }};
template<> struct Mk<float>{static float v(vh::Rng& r,bool nz){return (float)Mk<double>::v(r,nz);}};
template<> struct Mk<int>{static int v(vh::Rng& r,bool nz){int x=r.in(-20000,20000);return nz&&!x?7:x;}};
template<> struct Mk<long>{static long v(vh::Rng& r,bool nz){long x=r.in(-2000000000,2000000000);return nz&&!x?-3:x;}};
template<> struct Mk<unsigned>{static unsigned v(vh::Rng& r,bool nz){unsigned x=(unsigned)r.in(0,60000);return nz&&!x?3:x;}};
template<> struct Mk<std::complex<double>>{static std::complex<double> v(vh::Rng& r,bool){return {r.uni(-3,3),r.uni(-3,3)};}};
template<> struct Mk<std::string>{static std::string v(vh::Rng& r,bool){std::string s=std::to_string(r.in(0,99));if(r.coin(0.3))s+=std::string(20,'q');return s;}};
template<typename T> bool eq(const T& a,const T& b){return a==b;}
static bool eq(double a,double b){ return (std::isnan(a)&&std::isnan(b))||(a==b&&std::signbit(a)==std::signbit(b)); }
static bool eq(float a,float b){ return eq((double)a,(double)b); }
template<typename T> std::string str(const T& x){std::ostringstream o;o.precision(17);o<<x;return o.str();}
template<typename A> struct Inf; template<typename T,unsigned R> struct Inf<marray<T,R>>{typedef T type; static const unsigned rank=R;};
template<typename T,unsigned R> marray<T,R> mk(vh::Rng& r,const Ext& e,bool nz=false){ marray<T,R> a(e); for(auto& x:a) x=Mk<T>::v(r,nz); return a; }
template<typename A> Ext ext(const A& a){Ext e;for(auto x:a.get_extents())e.push_back(x);return e;}
template<typename A> std::vector<typename Inf<A>::type> vals(const A& a){return std::vector<typename Inf<A>::type>(a.get_data(),a.get_data()+a.size());}
template<unsigned R> Ext rext(vh::Rng& r){Ext e(R);for(auto& x:e)x=r.coin(0.05)?0:r.coin(0.25)?1:r.in(2,R==1?9:4);if(r.coin(.004)) e[r.in(0,R-1)]=R<3&&r.coin(.3)?r.in(65537,66000):r.in(257,600);return e;}
template<typename T> bool sameV(const std::vector<T>& a,const std::vector<T>& b){ if(a.size()!=b.size())return false; for(size_t i=0;i<a.size();i++) if(!eq(a[i],b[i])) return false; return true; }
template<typename A,typename T> void want(Ctx& c,const std::string& key,const A& got,const Ext& e,const std::vector<T>& v,const std::string& what){
  c.eval(); if(ext(got)!=e) return c.fail(key+"/shape",what+": shape "+vh::join(ext(got))+" want "+vh::join(e));
  size_t i=0; for(auto x:got){ if(!eq((T)x,v[i])) return c.fail(key,what+fmt(" at %zu: ",i)+str(x)+" want "+str(v[i])); i++; } if(i!=v.size()) c.fail(key+"/shape",what); }
static size_t off(const Ext& ix,const Ext& e,size_t skip){ size_t o=0; for(size_t d=0;d<e.size();d++){ size_t i=ix[d+skip]; o=o*e[d]+(e[d]==1?0:i); } return o; }
// expected result of combining shapes, aligned at the last dimension, extent one repeated
static bool bshape(const Ext& a,const Ext& b,Ext& o){ size_t R=std::max(a.size(),b.size()); o.assign(R,0); for(size_t j=0;j<R;j++){ bool ia=j<a.size(),ib=j<b.size(); size_t x=ia?a[a.size()-1-j]:1,y=ib?b[b.size()-1-j]:1; if(ia&&ib&&x!=y&&x!=1&&y!=1) return false; o[R-1-j]=!ib?x:!ia?y:x==1?y:x; } return true; }
template<typename A,typename B,typename F,typename G> void binop(Ctx& c,const std::string& key,A& a,B& b,F arr,G sc,const char* what){
  auto va=vals(a); auto vb=vals(b); Ext ea=ext(a),eb=ext(b),eo; bool ok=bshape(ea,eb,eo); std::string w=std::string(what)+" of "+vh::join(ea)+" and "+vh::join(eb);
  typedef decltype(sc(va[0],vb[0])) OT; int64_t h0=0;
  if(!ok){ bool th=false; try{ arr(a,b); }catch(const std::logic_error&){th=true;} c.check(key+"/incompatible",th,w+" was accepted"); h0=vh::blocks(); try{arr(a,b);}catch(...){ } bool bal=vh::blocks()==h0; c.check(key+"/leak",bal,w+": rejected combination leaks"); c.count("rejections"); }
  else{ std::vector<OT> v; size_t n=prod(eo); Ext ix(eo.size(),0); if(n) for(size_t q=0;q<n;q++){ v.push_back(sc(va[off(ix,ea,eo.size()-ea.size())],vb[off(ix,eb,eo.size()-eb.size())])); for(int d=(int)eo.size()-1;d>=0;d--){ if(++ix[d]<eo[d])break; ix[d]=0; } }
    auto res=arr(a,b); want(c,key,res,eo,v,w); c.count("array-array"); c.count(ea==eb?"equal-shape":"broadcast"); }
  c.check(key+"/operands",ext(a)==ea&&ext(b)==eb&&sameV(vals(a),va)&&sameV(vals(b),vb),w+": an operand changed"); }
// make shapes which fit together most of the time
template<unsigned R1,unsigned R2> void shapes(vh::Rng& r,Ext& a,Ext& b){ a=rext<R1>(r); b=rext<R2>(r); int k=r.in(0,9); if(k<8) for(unsigned j=0;j<std::min(R1,R2);j++) b[R2-1-j]=a[R1-1-j]; if(k>=3&&k<8) for(unsigned j=0;j<std::min(R1,R2);j++){ int q=r.in(0,3); if(q==0) a[R1-1-j]=1; else if(q==1) b[R2-1-j]=1; } }
template<typename T1,unsigned R1,typename T2,unsigned R2,bool sub=true> struct AA{ static void go(Ctx& c){ Ext ea,eb; shapes<R1,R2>(c.rng,ea,eb); auto a=mk<T1,R1>(c.rng,ea); auto b=mk<T2,R2>(c.rng,eb,true); c.desc(vh::join(ea)+" & "+vh::join(eb)); c.nontrivial(vh::join(ea)+"&"+vh::join(eb)+std::to_string(sizeof(T1)*100+sizeof(T2))); const auto& ca=a; const auto& cb=b;
  binop(c,"add",a,b,[](auto& x,auto& y){return x+y;},[](T1 x,T2 y){return x+y;},"sum");
  binop(c,"add",ca,cb,[](auto& x,auto& y){return x+y;},[](T1 x,T2 y){return x+y;},"sum (const)");
  binop(c,"subtract",a,b,[](auto& x,auto& y){return x-y;},[](T1 x,T2 y){return x-y;},"difference");
  binop(c,"multiply",ca,b,[](auto& x,auto& y){return x*y;},[](T1 x,T2 y){return x*y;},"product");
  binop(c,"multiply",a,cb,[](auto& x,auto& y){return x*y;},[](T1 x,T2 y){return x*y;},"product (const)");
  binop(c,"divide",a,b,[](auto& x,auto& y){return x/y;},[](T1 x,T2 y){return x/y;},"quotient");
  binop(c,"divide",ca,cb,[](auto& x,auto& y){return x/y;},[](T1 x,T2 y){return x/y;},"quotient (const)");
  binop(c,"subtract",ca,b,[](auto& x,auto& y){return x-y;},[](T1 x,T2 y){return x-y;},"difference (const)");
  binop(c,"apply",a,b,[](auto& x,auto& y){return applyOp(x,y,[](const T1& p,const T2& q){return p*3+q;});},[](T1 x,T2 y){return x*3+y;},"applyOp"); } };
// same type: compound assignment
template<typename T,unsigned R> void compound(Ctx& c){ Ext e=rext<R>(c.rng); auto a=mk<T,R>(c.rng,e); auto b=mk<T,R>(c.rng,e,true); auto va=vals(a),vb=vals(b); std::string w="shape "+vh::join(e); c.nontrivial("compound"+w);
#define CMP(key,op) { auto x=a; auto y=b; auto& ret=(x op##= y); auto v=va; for(size_t i=0;i<v.size();i++) v[i] op##= vb[i]; want(c,"compound-" key,x,e,v,w); c.check("compound-" key "/returns",&ret==&x); want(c,"compound-" key "/right-operand",y,e,vb,w); auto z=(marray<T,R>(a) op##= y); want(c,"compound-" key,z,e,v,w+" (temporary)"); auto s2=a; s2 op##= s2; v=va; bool skip=std::string(key)=="divide"&&std::is_integral<T>::value; if(!skip){for(auto& q:v){T t=q; q op##= t;} want(c,"compound-" key "/self",s2,e,v,w);} c.count("compound"); }
  CMP("add",+) CMP("subtract",-) CMP("multiply",*) auto bk=a; if(std::is_integral<T>::value) for(auto& x:a) if(x==T(0)) x=T(1); va=vals(a); CMP("divide",/) }
template<typename T,unsigned R,typename U=T> void scalars(Ctx& c){ Ext e=rext<R>(c.rng); auto m=mk<T,R>(c.rng,e,true); const auto va=vals(m); const auto& a=m; U f=Mk<U>::v(c.rng,true); std::string w="shape "+vh::join(e)+" scalar "+str(f); c.nontrivial("scalar"+w); c.desc(w);
#define SC(key,op) { auto v=va; for(auto& x:v) x op##= f; auto q=a op f; want(c,"scalar-right-" key,q,e,v,w); auto q2=m op f; want(c,"scalar-right-" key,q2,e,v,w); auto q3=marray<T,R>(m) op f; want(c,"scalar-right-" key,q3,e,v,w+" (temporary)"); auto x=a; auto& ret=(x op##= f); want(c,"scalar-compound-" key,x,e,v,w); c.check("scalar-compound-" key "/returns",&ret==&x); auto z=(marray<T,R>(a) op##= f); want(c,"scalar-compound-" key,z,e,v,w+" (temporary)"); v=va; for(auto& y:v) y=(T)(f op y); auto p=f op a; want(c,"scalar-left-" key,p,e,v,w); auto p2=f op m; want(c,"scalar-left-" key,p2,e,v,w); auto p3=f op marray<T,R>(m); want(c,"scalar-left-" key,p3,e,v,w+" (temporary)"); want(c,"scalar-operand-" key,a,e,va,w); c.count("scalar"); }
  SC("add",+) SC("subtract",-) SC("multiply",*) SC("divide",/) }
template<typename T,unsigned R> void neg(Ctx& c){ Ext e=rext<R>(c.rng); const auto a=mk<T,R>(c.rng,e); auto v=vals(a); auto va=v; for(auto& x:v) x=-x; auto n=-a; want(c,"negate",n,e,v,"shape "+vh::join(e)); want(c,"negate/operand",a,e,va,""); auto m=-marray<T,R>(a); want(c,"negate",m,e,v,"temporary"); }
template<unsigned R> void funcs(Ctx& c){ Ext e=rext<R>(c.rng); auto a=mk<double,R>(c.rng,e); auto b=mk<double,R>(c.rng,e); auto va=vals(a),vb=vals(b); std::string w="shape "+vh::join(e); c.nontrivial("functions"+w);
#define UF(f) { std::vector<double> v; for(double x:va) v.push_back(std::f(x)); const auto& ca=a; auto q=f(ca); want(c,"function-" #f,q,e,v,w); auto z=f(marray<double,R>(a)); want(c,"function-" #f,z,e,v,w+" (temporary)"); want(c,"function-operand-" #f,a,e,va,w); c.count("functions"); }
  UF(cos)UF(sin)UF(tan)UF(acos)UF(asin)UF(atan)UF(cosh)UF(sinh)UF(tanh)UF(acosh)UF(asinh)UF(atanh)UF(exp)UF(exp2)UF(log)UF(log2)UF(log10)UF(sqrt)UF(cbrt)UF(erf)UF(erfc)UF(tgamma)UF(lgamma)UF(ceil)UF(floor)UF(trunc)UF(round)UF(abs)
#define BF(f) { auto b2=b; if(c.rng.coin(0.4)&&R==2) b2=mk<double,R>(c.rng,Ext{1,e[R-1]}); else if(c.rng.coin(0.2)){Ext w2=e; w2[0]+=2; b2=mk<double,R>(c.rng,w2);} binop(c,"function-" #f,a,b2,[](auto& x,auto& y){return f(x,y);},[](double x,double y){return std::f(x,y);},#f); auto d=mk<float,1>(c.rng,Ext{e[R-1]}); binop(c,"function-" #f,a,d,[](auto& x,auto& y){return f(x,y);},[](double x,float y){return std::f(x,y);},#f " (mixed)"); }
  BF(atan2)BF(pow)BF(hypot) }
#ifdef PART1
VH_GROUP("array-array",2100,100000){ switch(c.idx%7){ case 0:AA<double,1,double,1>::go(c);break; case 1:AA<double,2,double,2>::go(c);break; case 2:AA<double,3,double,3>::go(c);break; case 3:AA<double,3,int,1>::go(c);break; case 4:AA<int,1,double,2>::go(c);break; case 5:AA<long,2,int,3>::go(c);break; case 6:AA<int,2,int,2>::go(c);break; } }
#endif
#ifdef PART2
VH_GROUP("array-array-2",900,40000){ switch(c.idx%3){ case 0:AA<double,2,float,4>::go(c);break; case 1:AA<double,4,double,4>::go(c);break; default:{ // types which are not trivial take the other path
  Ext ea,eb; shapes<2,2>(c.rng,ea,eb); typedef std::complex<double> C; auto a=mk<C,2>(c.rng,ea); auto b=mk<C,2>(c.rng,eb); c.nontrivial("complex"+vh::join(ea)+"&"+vh::join(eb));
  binop(c,"add",a,b,[](auto& x,auto& y){return x+y;},[](C x,C y){return x+y;},"complex sum"); binop(c,"subtract",a,b,[](auto& x,auto& y){return x-y;},[](C x,C y){return x-y;},"complex difference"); binop(c,"multiply",a,b,[](auto& x,auto& y){return x*y;},[](C x,C y){return x*y;},"complex product"); binop(c,"divide",a,b,[](auto& x,auto& y){return x/y;},[](C x,C y){return x/y;},"complex quotient");
  auto s=mk<std::string,2>(c.rng,ea); auto t=mk<std::string,2>(c.rng,eb); binop(c,"add",s,t,[](auto& x,auto& y){return x+y;},[](const std::string& x,const std::string& y){return x+y;},"string sum"); auto u=mk<std::string,1>(c.rng,Ext{ea[1]}); binop(c,"add",s,u,[](auto& x,auto& y){return x+y;},[](const std::string& x,const std::string& y){return x+y;},"string sum"); } } }
#endif
#ifdef PART3
VH_GROUP("scalar",1200,60000){ switch(c.idx%6){ case 0:scalars<double,1>(c);break; case 1:scalars<double,3>(c);break; case 2:scalars<int,2>(c);break; case 3:scalars<long,1>(c);break; case 4:scalars<double,2,int>(c);break; default:scalars<float,2>(c); } }
VH_GROUP("compound",800,40000){ switch(c.idx%4){ case 0:compound<double,1>(c);neg<double,3>(c);break; case 1:compound<double,3>(c);neg<int,2>(c);break; case 2:compound<int,2>(c);neg<double,1>(c);break; default:compound<long,1>(c);neg<double,2>(c); } }
VH_GROUP("functions",300,15000){ if(c.idx%2) funcs<1>(c); else funcs<2>(c); }
#endif
