// C01: random operation histories on marray, compared after every step with a plain list-of-values model.
#include "vh.h"
#include <cassert>
#include <array>
#include <numeric>
#include <list>
#include <deque>
#include <sstream>
#include <cstddef>
#include <memory>
#include "nuSQuIDS/marray.h"
#include "nuSQuIDS/aligned_alloc.h"
using namespace nusquids; using vh::Ctx; using vh::fmt;
template<typename T> struct Mk;
template<> struct Mk<double>{static double v(vh::Rng& r){return r.in(-9999,9999)*0.25;}};
template<> struct Mk<int>{static int v(vh::Rng& r){return (int)r.in(-100000,100000);}};
template<> struct Mk<std::string>{static std::string v(vh::Rng& r){std::string s=std::to_string(r.in(0,999999)); if(r.coin(0.5)) s+=std::string(30,'x'); return s;}};
struct Boxed{ std::shared_ptr<int> p; Boxed(int v=0):p(std::make_shared<int>(v)){} bool operator==(const Boxed& o)const{return p&&o.p&&*p==*o.p;} bool operator!=(const Boxed& o)const{return !(*this==o);} Boxed& operator+=(const Boxed& o){p=std::make_shared<int>(*p+*o.p);return *this;} };
static std::ostream& operator<<(std::ostream& o,const Boxed& b){return o<<(b.p?*b.p:-999);}
template<> struct Mk<Boxed>{static Boxed v(vh::Rng& r){return Boxed((int)r.in(0,99999));}};
// only copied, never moved
struct Copied{ int* p; Copied(int v=0):p(new int(v)){} Copied(const Copied& o):p(new int(*o.p)){} Copied& operator=(const Copied& o){ int* q=new int(*o.p); delete p; p=q; return *this; } ~Copied(){ delete p; } bool operator==(const Copied& o)const{return *p==*o.p;} bool operator!=(const Copied& o)const{return *p!=*o.p;} Copied& operator+=(const Copied& o){ *p+=*o.p; return *this; } };
static std::ostream& operator<<(std::ostream& o,const Copied& b){return o<<*b.p;}
template<> struct Mk<Copied>{static Copied v(vh::Rng& r){return Copied((int)r.in(0,99999));}};
typedef std::vector<size_t> Ext;
static size_t prod(const Ext& e){size_t p=1;for(size_t x:e)p*=x;return p;}
template<typename T,unsigned R> struct Model{
  Ext e; std::vector<T> v;
  Model():e(R,0){}
  bool next(Ext& ix) const{for(int d=R-1;d>=0;d--){if(++ix[d]<e[d])return true;ix[d]=0;}return false;}
  size_t off(const Ext& ix) const{size_t o=0;for(unsigned d=0;d<R;d++)o=o*e[d]+ix[d];return o;}
  void insert(unsigned dim,size_t pos,size_t num,const T& val){
    Model n; n.e=e; n.e[dim]+=num; size_t tot=prod(n.e); n.v.reserve(tot);
    if(tot){Ext ix(R,0);do{ if(ix[dim]>=pos&&ix[dim]<pos+num) n.v.push_back(val); else {Ext o=ix; if(o[dim]>=pos+num)o[dim]-=num; n.v.push_back(v[off(o)]);} }while(n.next(ix));}
    *this=n; }
  void erase(unsigned dim,size_t pos,size_t num){
    Model n; n.e=e; n.e[dim]-=num; size_t tot=prod(n.e);
    if(tot){Ext ix(R,0);do{Ext o=ix; if(o[dim]>=pos)o[dim]+=num; n.v.push_back(v[off(o)]);}while(n.next(ix));}
    *this=n; }
  void resize1(unsigned d,size_t s){ if(s<e[d]) erase(d,s,e[d]-s); else if(s>e[d]) insert(d,e[d],s-e[d],T()); }
};
template<typename A,unsigned R> struct Sub{ template<typename X> static auto& at(X&& x,const size_t* i); };
template<unsigned N> struct Get{ template<typename X,typename T> static T& get(X&& x,const size_t* i){ auto&& y=x[*i]; return Get<N-1>::template get<decltype(y),T>(std::forward<decltype(y)>(y),i+1); } };
template<> struct Get<1>{ template<typename X,typename T> static T& get(X&& x,const size_t* i){ return x[*i]; } };
template<typename Arr> struct Info; template<typename T,unsigned R,typename A> struct Info<marray<T,R,A>>{typedef T type; static const unsigned rank=R; typedef A alloc;};
template<typename A> struct MkA{static A mk(vh::Rng&){return A();}};
template<typename T> struct MkA<aligned_allocator<T>>{static aligned_allocator<T> mk(vh::Rng& r){return aligned_allocator<T>((uint8_t)r.in(3,9));}};

template<unsigned R> struct IL; // list of dims as an initializer_list of the right length
template<> struct IL<1>{template<typename Arr,typename...X> static Arr mk(const Ext& e,X&&...x){return Arr({e[0]},std::forward<X>(x)...);} template<typename Arr> static typename Info<Arr>::type& at(Arr& a,const Ext& i){return a[{i[0]}];} template<typename Arr> static const typename Info<Arr>::type& cat(const Arr& a,const Ext& i){return a[{i[0]}];} };
template<> struct IL<2>{template<typename Arr,typename...X> static Arr mk(const Ext& e,X&&...x){return Arr({e[0],e[1]},std::forward<X>(x)...);} template<typename Arr> static typename Info<Arr>::type& at(Arr& a,const Ext& i){return a[{i[0],i[1]}];} template<typename Arr> static const typename Info<Arr>::type& cat(const Arr& a,const Ext& i){return a[{i[0],i[1]}];} };
template<> struct IL<3>{template<typename Arr,typename...X> static Arr mk(const Ext& e,X&&...x){return Arr({e[0],e[1],e[2]},std::forward<X>(x)...);} template<typename Arr> static typename Info<Arr>::type& at(Arr& a,const Ext& i){return a[{i[0],i[1],i[2]}];} template<typename Arr> static const typename Info<Arr>::type& cat(const Arr& a,const Ext& i){return a[{i[0],i[1],i[2]}];} };
template<> struct IL<4>{template<typename Arr,typename...X> static Arr mk(const Ext& e,X&&...x){return Arr({e[0],e[1],e[2],e[3]},std::forward<X>(x)...);} template<typename Arr> static typename Info<Arr>::type& at(Arr& a,const Ext& i){return a[{i[0],i[1],i[2],i[3]}];} template<typename Arr> static const typename Info<Arr>::type& cat(const Arr& a,const Ext& i){return a[{i[0],i[1],i[2],i[3]}];} };

// one iterator family, of which at(i) is the i-th address: every operation of a random access iterator; names the one which is wrong
template<typename It,typename At> const char* walk(vh::Rng& r,It first,It last,ptrdiff_t n,At at){
  if(last-first!=n||first-last!=-n) return "distance"; if((first==last)!=(n==0)||(first!=last)!=(n!=0)) return "begin==end";
  It f=first; ptrdiff_t k=0; for(;f!=last;++f,k++) if(k>=n||&*f!=at(k)) return "walk"; if(k!=n||!(f==last)) return "short walk";
  if(n==0) return nullptr;
  ptrdiff_t i=r.in(0,n-1),j=r.in(0,n-1); It a=first+i,b=first; b+=j; const It ca=a,cb=b;
  if(&*a!=at(i)||&*b!=at(j)) return "+, +="; if(&*(i+first)!=at(i)) return "n+it"; if(a.operator->()!=at(i)||ca.operator->()!=at(i)) return "->";
  if(&a[j-i]!=at(j)||&*a!=at(i)||&first[j]!=at(j)) return "[]"; It z=last-(n-i); if(z!=a||&*z!=at(i)) return "-"; It y=last; if(&*(y-=(n-j))!=at(j)||y!=b) return "-=";
  if(ca-cb!=i-j||(ca==cb)!=(i==j)||(ca!=cb)!=(i!=j)||(ca<cb)!=(i<j)||(ca>cb)!=(i>j)||(ca<=cb)!=(i<=j)||(ca>=cb)!=(i>=j)) return "comparison";
  It p=a; It q=p++; if(q!=a||p-a!=1) return "it++"; q=p--; if(q-a!=1||p!=a) return "it--"; It& u=++p; if(&u!=&p||p-a!=1) return "++it"; It& w=--p; if(&w!=&p||p!=a||&*p!=at(i)) return "--it";
  return nullptr;
}
template<typename Arr> void compare(Ctx& c,const std::string& after,Arr& a,const Model<typename Info<Arr>::type,Info<Arr>::rank>& m){
  typedef typename Info<Arr>::type T; const unsigned R=Info<Arr>::rank; const Arr& ca=a;
  const std::string k="model";
  c.eval();
  size_t tot=prod(m.e);
  for(unsigned d=0;d<R;d++) if(ca.extent(d)!=m.e[d]) return c.fail(k+"/extent",fmt("after %s: extent(%u)=%zu want %zu",after.c_str(),d,ca.extent(d),m.e[d]));
  auto ge=ca.get_extents(); for(unsigned d=0;d<R;d++) if(ge[d]!=m.e[d]) return c.fail(k+"/get_extents",after);
  if(ca.size()!=tot||ca.empty()!=(tot==0)||ca.rank()!=R) return c.fail(k+"/size",fmt("after %s: size %zu want %zu",after.c_str(),ca.size(),tot));
  // forward
  size_t n=0; for(auto it=ca.begin();it!=ca.end();it++,n++){ if(n>=tot) return c.fail(k+"/iteration",after+": iterates past the element count"); if(!(*it==m.v[n])){std::ostringstream o;o<<after<<": element "<<n<<" of "<<tot<<" is "<<*it<<" want "<<m.v[n];return c.fail(k+"/values",o.str());} }
  if(n!=tot) return c.fail(k+"/iteration",after+": short iteration");
  n=0; for(auto& x:a){ if(&x!=a.get_data()+n) return c.fail(k+"/addresses",after); n++; }
  if(ca.end()-ca.begin()!=(ptrdiff_t)tot) return c.fail(k+"/iterator-distance",after);
  { T* d0=a.get_data(); auto fw=[&](ptrdiff_t i){return d0+i;}; auto bw=[&](ptrdiff_t i){return d0+(ptrdiff_t)tot-1-i;}; const ptrdiff_t N=(ptrdiff_t)tot; const char* e;
    if((e=walk(c.rng,a.begin(),a.end(),N,fw))||(e=walk(c.rng,ca.begin(),ca.end(),N,fw))||(e=walk(c.rng,a.cbegin(),a.cend(),N,fw))) return c.fail(k+"/iterators",after+": "+e);
    if((e=walk(c.rng,a.rbegin(),a.rend(),N,bw))||(e=walk(c.rng,ca.rbegin(),ca.rend(),N,bw))||(e=walk(c.rng,a.crbegin(),a.crend(),N,bw))) return c.fail(k+"/iterators",after+": reverse "+e); c.count("iterator-families",6); }
  if(tot){
    n=tot; for(auto it=ca.rbegin();it!=ca.rend();++it){ n--; if(!(*it==m.v[n])) return c.fail(k+"/reverse-iteration",after); if(n==0&&false)break; }
    if(n!=0) return c.fail(k+"/reverse-iteration",after+": short");
    n=tot; for(auto it=a.rbegin();it!=a.rend();it++){ n--; if(&*it!=a.get_data()+n) return c.fail(k+"/reverse-addresses",after); }
    if(a.rend()-a.rbegin()!=(ptrdiff_t)tot) return c.fail(k+"/reverse-distance",after);
    if(!(a.front()==m.v[0])||!(ca.front()==m.v[0])) return c.fail(k+"/front",after);
    if(!(a.back()==m.v[tot-1])||!(ca.back()==m.v[tot-1])) return c.fail(k+"/back",after);
    if(&a.back()!=a.get_data()+tot-1||&a.front()!=a.get_data()) return c.fail(k+"/back",after+" (address)");
    for(int t=0;t<6;t++){
      Ext ix(R); for(unsigned d=0;d<R;d++) ix[d]=c.rng.in(0,m.e[d]-1);
      size_t o=m.off(ix); T* want=a.get_data()+o;
      if(&Get<R>::template get<Arr&,T>(a,ix.data())!=want) return c.fail(k+"/subscript",after+": a[i][j].. at "+vh::join(ix));
      if(&Get<R>::template get<const Arr&,const T>(ca,ix.data())!=want) return c.fail(k+"/const-subscript",after+" at "+vh::join(ix));
      std::array<size_t,R> ax; std::copy(ix.begin(),ix.end(),ax.begin());
      if(&a[ax]!=want||&ca[ax]!=want||&a[ix]!=want||&ca[ix]!=want) return c.fail(k+"/container-subscript",after+" at "+vh::join(ix));
      if(&IL<R>::at(a,ix)!=want||&IL<R>::cat(ca,ix)!=want) return c.fail(k+"/list-subscript",after+" at "+vh::join(ix));
      auto it=a.begin()+(ptrdiff_t)o; if(&*it!=want) return c.fail(k+"/iterator-offset",after);
      if(&*((ptrdiff_t)o+a.begin())!=want||&a.begin()[(ptrdiff_t)o]!=want) return c.fail(k+"/iterator-offset",after+" n+it or it[n]");
      auto e2=a.end(); e2-=(ptrdiff_t)(tot-o); if(&*e2!=want||e2!=it||!(e2==it)) return c.fail(k+"/iterator-arith",after);
      auto rr=a.rbegin()+(ptrdiff_t)(tot-1-o); if(&*rr!=want||&a.rbegin()[(ptrdiff_t)(tot-1-o)]!=want) return c.fail(k+"/iterator-arith",after+" reverse");
      auto it2=it; if(o+1<tot){ ++it2; if(&*it2!=want+1||!(it<it2)||!(it2>it)||!(it<=it2)||!(it2>=it)||it2-it!=1) return c.fail(k+"/iterator-order",after); auto it3=it2--; if(it2!=it||it3-it2!=1) return c.fail(k+"/iterator-decrement",after); --it3; if(it3!=it) return c.fail(k+"/iterator-decrement",after);
        auto q=rr; --q; if(&*q!=want+1||!(q<rr)||!(rr>q)||rr-q!=1||!(q<=rr)||!(rr>=q)) return c.fail(k+"/iterator-order",after+" reverse"); }
      for(unsigned d=0;d<R;d++) if(a.getCoordinate(it,d)!=ix[d]) return c.fail(k+"/coordinate",fmt("%s: getCoordinate(dim %u)=%zu want %zu in shape %s at %s",after.c_str(),d,a.getCoordinate(it,d),ix[d],vh::join(m.e).c_str(),vh::join(ix).c_str()));
    }
  } else { if(ca.begin()!=ca.end()) return c.fail(k+"/iteration",after+": empty array iterates"); if(a.rbegin()!=a.rend()) return c.fail(k+"/iteration",after+": empty array reverse-iterates"); }
}
template<typename Arr> void assignInit(Ctx&,Arr&,Model<typename Info<Arr>::type,Info<Arr>::rank>&,std::string&){}
template<typename T,typename A> void assignInit(Ctx& c,marray<T,2,A>& a,Model<T,2>& m,std::string& op){
  T x[6]; for(auto& y:x) y=Mk<T>::v(c.rng);
  bool fits=m.e==Ext{2,3}; op="assign-initializer-list"; bool th=false;
  try{ a={{x[0],x[1],x[2]},{x[3],x[4],x[5]}}; }catch(const std::logic_error&){th=true;}
  if(th==fits) c.fail("model/initializer-shape",fmt("2x3 initializer assigned to shape %s: %s",vh::join(m.e).c_str(),th?"refused":"accepted"));
  if(fits){m.v.assign(x,x+6);} c.count("initializer-assign");
}
template<typename Arr> void sums(Ctx&,Arr&,const Model<typename Info<Arr>::type,Info<Arr>::rank>&,std::false_type){}
template<typename Arr> void sumsdim(Ctx& c,Arr& a,const Model<typename Info<Arr>::type,Info<Arr>::rank>& m,std::false_type){}
template<typename Arr> void sumsdim(Ctx& c,Arr& a,const Model<typename Info<Arr>::type,Info<Arr>::rank>& m,std::true_type){
  typedef typename Info<Arr>::type T; const unsigned R=Info<Arr>::rank;
  for(unsigned d=0;d<R;d++){ auto s=a.sum(d); Model<T,R> w; w.e=m.e; w.e[d]=1; w.v.assign(prod(w.e),T(0)); if(prod(m.e)){Ext ix(R,0);do{Ext o=ix;o[d]=0;w.v[w.off(o)]+=m.v[m.off(ix)];}while(m.next(ix));}
    Ext e2; for(unsigned i=0;i<R;i++) if(i!=d) e2.push_back(m.e[i]);
    bool ok=s.size()==prod(e2); for(unsigned i=0;i<R-1;i++) ok=ok&&s.extent(i)==e2[i];
    if(ok){size_t n=0;for(auto x:s) ok=ok&&x==w.v[n++];}
    c.check("model/sum-dim",ok,fmt("sum over dimension %u of shape %s",d,vh::join(m.e).c_str())); }
}
template<typename Arr> void sums(Ctx& c,Arr& a,const Model<typename Info<Arr>::type,Info<Arr>::rank>& m,std::true_type){
  typedef typename Info<Arr>::type T; const unsigned R=Info<Arr>::rank;
  T s=0; for(const auto& x:m.v) s+=x; c.check("model/sum",a.sum()==s,"sum() of "+vh::join(m.e));
  for(unsigned d=0;d<R;d++){ auto q=a.sum_same_rank(d); Model<T,R> w; w.e=m.e; w.e[d]=1; w.v.assign(prod(w.e),T(0)); if(prod(m.e)){Ext ix(R,0);do{Ext o=ix;o[d]=0;w.v[w.off(o)]+=m.v[m.off(ix)];}while(m.next(ix));}
    bool ok=q.size()==prod(w.e); for(unsigned i=0;i<R;i++) ok=ok&&q.extent(i)==w.e[i]; if(ok){size_t n=0;for(auto x:q) ok=ok&&x==w.v[n++];}
    c.check("model/sum-same-rank",ok,fmt("sum_same_rank over dimension %u of shape %s",d,vh::join(m.e).c_str())); }
  sumsdim(c,a,m,std::integral_constant<bool,(R>1)&&std::is_same<typename Info<Arr>::alloc,std::allocator<T>>::value>());
}
template<typename Arr> void history(Ctx& c){
  typedef typename Info<Arr>::type T; const unsigned R=Info<Arr>::rank; typedef typename Info<Arr>::alloc A; typedef Model<T,R> M;
  typedef std::integral_constant<bool,std::is_arithmetic<T>::value&&std::is_same<A,std::allocator<T>>::value> Num;
  const int NA=3; std::vector<std::unique_ptr<Arr>> a; M m[NA]; vh::Rng& r=c.rng;
  auto shape=[&]{Ext e(R); int mx=R==1?14:R==2?6:R==3?5:3; for(auto& x:e) x=r.coin(0.08)?0:r.in(1,mx); return e;};
  auto fill=[&](M& mm){mm.v.clear();size_t n=prod(mm.e);for(size_t i=0;i<n;i++)mm.v.push_back(Mk<T>::v(r));};
  auto construct=[&](M& mm,std::string& op)->std::unique_ptr<Arr>{
    mm.e=shape(); A al=MkA<A>::mk(r); std::array<size_t,R> ax; std::copy(mm.e.begin(),mm.e.end(),ax.begin());
    switch(r.in(0,5)){
      case 0: mm.e=Ext(R,0); mm.v.clear(); op="construct-empty"; return std::unique_ptr<Arr>(new Arr(al));
      case 1: mm.v.assign(prod(mm.e),T()); op="construct-list "+vh::join(mm.e); return std::unique_ptr<Arr>(new Arr(IL<R>::template mk<Arr>(mm.e,al)));
      case 2: mm.v.assign(prod(mm.e),T()); op="construct-vector "+vh::join(mm.e); return std::unique_ptr<Arr>(new Arr(mm.e,al));
      case 3: mm.v.assign(prod(mm.e),T()); op="construct-array "+vh::join(mm.e); return std::unique_ptr<Arr>(new Arr(ax,al));
      default: {fill(mm); op="construct-range "+vh::join(mm.e);
        int k=r.in(0,2); if(k==0) return std::unique_ptr<Arr>(new Arr(IL<R>::template mk<Arr>(mm.e,mm.v.begin(),mm.v.end(),al)));
        if(k==1){std::list<T> l(mm.v.begin(),mm.v.end()); return std::unique_ptr<Arr>(new Arr(IL<R>::template mk<Arr>(mm.e,l.begin(),l.end(),al)));}
        std::vector<T> bad(mm.v); bad.push_back(Mk<T>::v(r)); bool th=false; try{ Arr q(IL<R>::template mk<Arr>(mm.e,bad.begin(),bad.end(),al)); }catch(const std::logic_error&){th=true;} c.check("model/range-size",th,"range one too long was accepted for "+vh::join(mm.e));
        if(mm.v.size()){ th=false; try{ Arr q(IL<R>::template mk<Arr>(mm.e,bad.begin(),bad.end()-2,al)); }catch(const std::logic_error&){th=true;} c.check("model/range-size",th,"range one too short was accepted for "+vh::join(mm.e)); }
        return std::unique_ptr<Arr>(new Arr(IL<R>::template mk<Arr>(mm.e,mm.v.begin(),mm.v.end(),al)));}
    } };
  std::string op,log; uint64_t h=R;
  for(int i=0;i<NA;i++){a.push_back(construct(m[i],op)); compare(c,op,*a[i],m[i]); log+=op+"; "; }
  int steps=c.thorough?60:28;
  for(int s=0;s<steps;s++){
    int x=r.in(0,NA-1),y=r.in(0,NA-1); size_t n=m[x].v.size(); bool both=false;
    int k=r.in(0,17); h=h*31+k;
    switch(k){
      case 0: {size_t d=r.in(0,R-1),sz=r.coin(0.1)?0:r.in(1,6);op=fmt("resize(dim %zu,%zu) of %s",d,sz,vh::join(m[x].e).c_str());a[x]->resize(d,sz);m[x].resize1(d,sz);break;}
      case 1: {Ext e=shape();op="resize("+vh::join(e)+") of "+vh::join(m[x].e);if(r.coin())a[x]->resize(e);else{std::array<size_t,R> ax;std::copy(e.begin(),e.end(),ax.begin());a[x]->resize(ax);}for(unsigned d=0;d<R;d++)m[x].resize1(d,e[d]);break;}
      case 2: {size_t d=r.in(0,R-1),p=r.in(0,m[x].e[d]),q=r.in(0,2);T v=Mk<T>::v(r);op=fmt("insert(dim %zu,pos %zu,num %zu) of %s",d,p,q,vh::join(m[x].e).c_str());a[x]->insert(d,p,q,v);m[x].insert(d,p,q,v);break;}
      case 3: {size_t d=r.in(0,R-1);if(!m[x].e[d])continue;size_t p=r.in(0,m[x].e[d]-1),q=r.in(0,m[x].e[d]-p);op=fmt("erase(dim %zu,pos %zu,num %zu) of %s",d,p,q,vh::join(m[x].e).c_str());a[x]->erase(d,p,q);m[x].erase(d,p,q);break;}
      case 4: {op=x==y?"self-copy-assign":"copy-assign "+vh::join(m[y].e)+" to "+vh::join(m[x].e);const Arr& src=*a[y];*a[x]=src;m[x]=m[y];both=true;break;}
      case 5: {if(x==y)continue;op="move-assign "+vh::join(m[y].e)+" to "+vh::join(m[x].e);*a[x]=std::move(*a[y]);m[x]=m[y];
        // the source is empty or holds some consistent table: it must still be a table of its own shape
        {Ext e; for(unsigned d=0;d<R;d++) e.push_back(a[y]->extent(d)); c.check("model/moved-from",a[y]->size()==prod(e)&&a[y]->empty()==(prod(e)==0),"moved-from array is inconsistent: extents "+vh::join(e)+fmt(" size %zu",a[y]->size())); size_t q=0; for(auto& z:*a[y]){(void)z;q++;} c.check("model/moved-from",q==prod(e));}
        if(r.coin()){a[y].reset(new Arr(MkA<A>::mk(r)));m[y]=M();} else {T v=Mk<T>::v(r);Ext e=shape();a[y]->resize(Ext(R,0));a[y]->resize(e);m[y]=M();for(unsigned d=0;d<R;d++)m[y].resize1(d,e[d]);(void)v;}
        both=true;break;}
      case 6: {op="copy-construct "+vh::join(m[y].e);std::unique_ptr<Arr> p(new Arr(*a[y]));a[x]=std::move(p);m[x]=m[y];both=true;break;}
      case 7: {if(x==y)continue;op="move-construct "+vh::join(m[y].e);a[x].reset(new Arr(std::move(*a[y])));m[x]=m[y];m[y]=M();compare(c,op+" (source)",*a[y],m[y]);both=true;break;}
      case 8: {if(x==y&&r.coin(0.7))continue;op="swap "+vh::join(m[x].e)+" with "+vh::join(m[y].e); if(a[x]->get_allocator()!=a[y]->get_allocator()) continue; a[x]->swap(*a[y]); if(x!=y)std::swap(m[x],m[y]); both=true;break;}
      case 9: {Ext e=m[x].e; for(unsigned i=0;i+1<R;i++) std::swap(e[i],e[r.in(i,R-1)]); op="reshape "+vh::join(m[x].e)+" to "+vh::join(e); a[x]->reshape(e); m[x].e=e; break;}
      case 10:{Ext e=m[x].e; e[r.in(0,R-1)]+=1; if(prod(e)==n) continue; op="reshape to a different size"; bool th=false; try{a[x]->reshape(e);}catch(const std::logic_error&){th=true;} c.check("model/reshape-size",th,"reshape of "+vh::join(m[x].e)+" to "+vh::join(e)+" was accepted");break;}
      case 11:{Ext e(m[x].e); if(r.coin()) e.push_back(2); else e.pop_back(); op="resize with wrong rank"; bool th=false; try{a[x]->resize(e);}catch(const std::logic_error&){th=true;} c.check("model/resize-rank",th,"resize with a wrong number of dimensions was accepted"); th=false; try{a[x]->reshape(e);}catch(const std::logic_error&){th=true;} c.check("model/reshape-rank",th,"reshape with a wrong number of dimensions"); th=false; try{Arr q(e,MkA<A>::mk(r));}catch(const std::logic_error&){th=true;} c.check("model/construct-rank",th,"construction with a wrong number of dimensions");break;}
      case 12:case 13:case 14:{op="write"; if(!n)continue; for(int t=0;t<4;t++){Ext ix(R);for(unsigned d=0;d<R;d++)ix[d]=r.in(0,m[x].e[d]-1);T v=Mk<T>::v(r);size_t o=m[x].off(ix);m[x].v[o]=v;
          switch(r.in(0,4)){case 0:Get<R>::template get<Arr&,T>(*a[x],ix.data())=v;break;case 1:IL<R>::at(*a[x],ix)=v;break;case 2:(*a[x])[ix]=v;break;case 3:a[x]->begin()[(ptrdiff_t)o]=v;break;default:*(a[x]->rbegin()+(ptrdiff_t)(n-1-o))=v;}}
        break;}
      case 15:{op="std algorithms"; for(auto& v:m[x].v) v=Mk<T>::v(r); std::copy(m[x].v.begin(),m[x].v.end(),a[x]->begin()); break;}
      case 16:{op="sums"; sums(c,*a[x],m[x],Num()); break;}
      case 17:{assignInit(c,*a[x],m[x],op); break;}
    }
    log+=op+"; ";
    compare(c,op,*a[x],m[x]); if(both) compare(c,op+" (other)",*a[y],m[y]);
    c.count("steps");
  }
  for(int i=0;i<NA;i++) compare(c,"end of history",*a[i],m[i]);
  c.nontrivial(log); if(c.idx<2) c.sample(log.substr(0,400));
}
VH_GROUP("double",600,30000){ switch(c.idx%4){case 0:history<marray<double,1>>(c);break;case 1:history<marray<double,2>>(c);break;case 2:history<marray<double,3>>(c);break;default:history<marray<double,4>>(c);} }
VH_GROUP("string",300,15000){ switch(c.idx%2){case 0:history<marray<std::string,1>>(c);break;default:history<marray<std::string,3>>(c);} }
VH_GROUP("boxed",150,8000){ history<marray<Boxed,2>>(c); }
VH_GROUP("copied",200,8000){ if(c.idx%2) history<marray<Copied,2>>(c); else history<marray<Copied,3>>(c); }
VH_GROUP("int",150,8000){ history<marray<int,2>>(c); }
VH_GROUP("aligned",300,15000){ switch(c.idx%2){case 0:history<marray<double,3,aligned_allocator<double>>>(c);break;default:history<marray<std::string,2,aligned_allocator<std::string>>>(c);} }
// construction from nested lists, uninitialised construction, const access to the ends
VH_GROUP("literals",200,2000){
  vh::Rng& r=c.rng; double v[12]; for(auto& x:v) x=Mk<double>::v(r);
  marray<double,1> a({4},{v[0],v[1],v[2],v[3]}); marray<double,2> b({2,3},{{v[0],v[1],v[2]},{v[3],v[4],v[5]}});
  marray<double,3> d({2,3,2},{{{v[0],v[1]},{v[2],v[3]},{v[4],v[5]}},{{v[6],v[7]},{v[8],v[9]},{v[10],v[11]}}});
  for(size_t i=0;i<4;i++) c.check("model/literal-1",a[i]==v[i]); for(size_t i=0;i<2;i++)for(size_t j=0;j<3;j++) c.check("model/literal-2",b[i][j]==v[i*3+j]);
  for(size_t i=0;i<2;i++)for(size_t j=0;j<3;j++)for(size_t k=0;k<2;k++) c.check("model/literal-3",d[i][j][k]==v[(i*3+j)*2+k]);
  c.check("model/literal-shape",vh::throws([&]{marray<double,2> q({2,3},{{v[0],v[1]},{v[2],v[3]}});})==1,"too few columns accepted");
  c.check("model/literal-shape",vh::throws([&]{marray<double,2> q({2,2},{{v[0],v[1]},{v[2]}});})==1,"ragged rows accepted");
  c.check("model/literal-shape",vh::throws([&]{marray<double,2> q({3,2},{{v[0],v[1]},{v[2],v[3]}});})==1,"too few rows accepted");
  c.check("model/literal-shape",vh::throws([&]{marray<double,1> q({2},{v[0],v[1],v[2]});})==1,"too many entries accepted");
  c.check("model/literal-rank",vh::throws([&]{marray<double,2> q({2,2,2});})==1,"three extents for a rank two array accepted");
  d={{{v[11],v[10]},{v[9],v[8]},{v[7],v[6]}},{{v[5],v[4]},{v[3],v[2]},{v[1],v[0]}}};
  for(size_t i=0;i<12;i++) c.check("model/literal-assign",*(d.begin()+(ptrdiff_t)i)==v[11-i]);
  const marray<double,3>& cd=d; const marray<std::string,1> s({2},{std::string("first"),std::string("last")});
  c.check("model/const-back",cd.back()==v[0],fmt("back() of a constant array is %g, last element is %g",(double)cd.back(),v[0]));
  c.check("model/const-front",cd.front()==v[11]); c.check("model/const-front",s.front()=="first");
  size_t n0=r.in(0,5),n1=r.in(1,5); marray<double,2> u({n0,n1},detail::no_init); std::array<size_t,2> e2{{n0,n1}}; marray<double,2> w(e2,detail::no_init);
  c.check("model/no-init-shape",u.extent(0)==n0&&u.extent(1)==n1&&u.size()==n0*n1&&w.extent(0)==n0&&w.extent(1)==n1&&w.size()==n0*n1);
  double q=0; for(auto& x:u) x=q++; for(auto& x:w) x=q++; q=0; for(size_t i=0;i<n0;i++)for(size_t j=0;j<n1;j++) c.check("model/no-init",u[i][j]==q++);
  marray<double,2> z({n0,n1}); for(double x:z) c.check("model/value-init",x==0.0);
  auto it=s.begin(); c.check("model/arrow",it->size()==5);
  c.nontrivial(fmt("%zux%zu %g",n0,n1,v[0]));
}
// arrays with more than 2^32 elements, backed by untouched address space
#include <sys/mman.h>
template<typename T> struct LazyAlloc{ typedef T value_type; LazyAlloc(){} template<class U> LazyAlloc(const LazyAlloc<U>&){} T* allocate(size_t n){void* p=mmap(nullptr,n*sizeof(T)+1,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(p==MAP_FAILED) throw std::bad_alloc(); return (T*)p;} void deallocate(T* p,size_t n){munmap((void*)p,n*sizeof(T)+1);} template<class U> void destroy(U*){} bool operator==(const LazyAlloc&)const{return true;} bool operator!=(const LazyAlloc&)const{return false;} };
// extents and element counts beyond what 8 and 16 bits hold
template<class T,unsigned R> static void large(Ctx& c){
  auto& r=c.rng; typedef marray<T,R> A; std::vector<size_t> e(R); int w=r.in(0,R-1); for(unsigned i=0;i<R;i++) e[i]=(int)i==w?(r.coin()?r.in(65537,70000):r.in(257,3000)):r.in(1,R<3?20:5); std::string d=fmt("rank %u extent %d is %zu",R,w,e[w]); c.desc(d);
  auto val=[](size_t i){ return (T)(i*2654435761u%1000003); }; size_t n=1; for(auto x:e) n*=x; A a; a.resize(e); { size_t i=0; for(auto& v:a) v=val(i++); c.check("large/iterated",i==n,fmt("%zu of %zu",i,n)); }
  auto all=[&](const A& x,const std::vector<size_t>& s,auto f,const char* what){ bool ok=true; size_t m=1; for(unsigned i=0;i<R;i++){ ok=ok&&x.extent(i)==s[i]; m*=s[i]; } if(!c.check("large/shape",ok&&x.size()==m,what)) return; size_t i=0,bad=0; for(auto& v:x){ if(!(v==f(i))) bad++; i++; } c.check("large/values",bad==0&&i==m,fmt("%s: %zu of %zu elements",what,bad,m)); };
  all(a,e,val,"filled"); A b(a); all(b,e,val,"copy"); A m(std::move(b)); all(m,e,val,"move"); b=m; all(b,e,val,"assigned");
  std::array<size_t,R> ix; for(int k=0;k<200;k++){ size_t f=r.in(0,n-1),g=f; for(int i=R-1;i>=0;i--){ ix[i]=f%e[i]; f/=e[i]; } c.check("large/subscript",a[ix]==val(g)&&&a[ix]==a.get_data()+g,fmt("element %zu",g)); auto it=a.begin()+g; c.check("large/iterator",*it==val(g),fmt("element %zu",g)); for(unsigned i=0;i<R;i++) c.check("large/coordinate",a.getCoordinate(it,i)==ix[i],fmt("coordinate %u of element %zu",i,g)); }
  { size_t i=n,bad=0; for(auto it=a.rbegin();it!=a.rend();++it) if(!(*it==val(--i))) bad++; c.check("large/reverse",bad==0&&i==0,""); }
  // resized along the long dimension and back
  auto s=e; s[w]=r.coin()?e[w]+r.in(1,40):e[w]-r.in(1,40); b.resize(s); { size_t in=1,out=1; for(unsigned i=w+1;i<R;i++) in*=e[i]; for(int i=0;i<w;i++) out*=e[i]; size_t bad=0; for(size_t o=0;o<out;o++)for(size_t k=0;k<std::min(e[w],s[w]);k++)for(size_t j=0;j<in;j++) if(!(b.get_data()[(o*s[w]+k)*in+j]==val((o*e[w]+k)*in+j))) bad++; c.check("large/resized",b.extent(w)==s[w]&&bad==0,fmt("%zu elements lost",bad)); }
  // slices inserted and erased
  { unsigned q=r.in(0,R-1); size_t in=1; for(unsigned i=q+1;i<R;i++) in*=e[i]; size_t at=r.in(0,e[q]-1),num=r.in(1,std::min<size_t>(3,e[q]-at)); auto z=e; z[q]-=num; b=a; b.erase(q,at,num); if(z[q]) all(b,z,[&](size_t i){ size_t k=i/in%z[q]; return val((i/in/z[q]*e[q]+(k<at?k:k+num))*in+i%in); },"erased");
    T v=(T)77; z[q]=e[q]+num; b=a; b.insert(q,at,num,v); all(b,z,[&](size_t i){ size_t k=i/in%z[q]; return k>=at&&k<at+num?v:val((i/in/z[q]*e[q]+(k<at?k:k-num))*in+i%in); },"inserted"); }
  c.count(n>65536?"large-arrays-beyond-64k":"large-arrays"); c.nontrivial(d+fmt(" %zu",n)); c.sample(d); }
VH_GROUP("large",36,400){ switch(c.idx%3){ case 0: large<double,1>(c); break; case 1: large<int,2>(c); break; default: large<double,3>(c); } }
VH_GROUP("huge",6,24){
  size_t n1=(size_t)c.rng.in(2200000000ll,5000000000ll), n0=2;
  typedef marray<char,2,LazyAlloc<char>> A2; A2 a({n0,n1},detail::no_init); typedef marray<char,3,LazyAlloc<char>> A3; A3 b({n0,(size_t)65537,(size_t)65539},detail::no_init);
  size_t i=1,j=(size_t)c.rng.in(0,n1-1); c.check("huge/size",a.size()==n0*n1,fmt("size %zu of 2 x %zu",a.size(),n1));
  const A2& ca=a; c.check("huge/subscript",&a[i][j]==a.get_data()+(i*n1+j),"nested"); 
  c.check("huge/subscript",&a[{i,j}]==a.get_data()+(i*n1+j)&&&ca[{i,j}]==a.get_data()+(i*n1+j),fmt("2 x %zu at {1,%zu}",n1,j));
  std::array<size_t,2> x{{i,j}}; c.check("huge/subscript",&a[x]==a.get_data()+(i*n1+j)&&&ca[x]==a.get_data()+(i*n1+j),"container");
  size_t k=(size_t)c.rng.in(0,65538); c.check("huge/subscript",&b[{1,65536,k}]==b.get_data()+((65537ull+65536)*65539+k),fmt("2x65537x65539 at {1,65536,%zu}",k));
  c.check("huge/iterators",a.end()-a.begin()==(ptrdiff_t)(n0*n1)); std::array<size_t,2> f{{n1,n0}}; a.reshape(f); c.check("huge/reshape",a.extent(0)==n1&&a.extent(1)==2);
  c.nontrivial(fmt("%zu %zu",n1,j));
}
