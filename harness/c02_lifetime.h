// C02: every element and every block exactly once, with a failure injected at every single event of every operation.
#ifndef C02_H
#define C02_H
#define VH_HEAP 1
#include "vh.h"
#include <cassert>
#include <array>
#include <numeric>
#include <sstream>
#include <memory>
#include <new>
#include "nuSQuIDS/marray.h"
using namespace nusquids; using vh::Ctx; using vh::fmt;
// ---- event counter: counts while armed, throws at the chosen event -------------------------------------------------
struct Injected{ int kind; };
inline bool armed=false; inline uint64_t ev=0, failAt=0; inline bool fired=false; inline uint64_t kinds[8];
inline std::string trouble; inline void bad(const char* m){ if(trouble.empty()) trouble=m; }
inline void event(int kind){ if(!armed) return; kinds[kind]++; if(++ev==failAt){ fired=true; if(kind==0) throw std::bad_alloc(); throw Injected{kind}; } }
// ---- registry of live elements -------------------------------------------------------------------------------------
static const size_t NT=1<<14; inline const void* tab[NT]; inline size_t nlive=0; static const void* const TOMB=(const void*)1;
inline size_t slot(const void* p){ return (vh::mix((uint64_t)p))&(NT-1); }
inline bool alive(const void* p){ for(size_t i=slot(p);tab[i];i=(i+1)&(NT-1)) if(tab[i]==p) return true; return false; }
inline void born(const void* p){ if(alive(p)) bad("an element was constructed on top of a live element"); size_t i=slot(p); while(tab[i]&&tab[i]!=TOMB) i=(i+1)&(NT-1); tab[i]=p; nlive++; }
inline void died(const void* p){ size_t i=slot(p); for(;tab[i];i=(i+1)&(NT-1)) if(tab[i]==p){tab[i]=TOMB;nlive--;return;} bad("an object was destroyed that is not alive"); }
inline void resetReg(){ memset(tab,0,sizeof tab); nlive=0; }
enum MoveKind{CopyOnly,NoThrowMove,ThrowMove};
template<MoveKind K> struct TrBase{ static const int MOVED=-777;
  int v; int* heap;
  TrBase():v(0),heap(nullptr){ event(1); heap=(int*)malloc(8); born(this); }
  TrBase(int x):v(x),heap(nullptr){ event(2); heap=(int*)malloc(8); born(this); }
  TrBase(const TrBase& o):v(0),heap(nullptr){ if(!alive(&o)) bad("copy from a dead element"); event(3); v=o.v; heap=(int*)malloc(8); born(this); }
  TrBase(TrBase&& o,int):v(0),heap(nullptr){ if(!alive(&o)) bad("move from a dead element"); v=o.v; heap=(int*)malloc(8); born(this); o.v=MOVED; }
  TrBase& operator=(const TrBase& o){ if(!alive(&o)) bad("assign from a dead element"); if(!alive(this)) bad("assignment to storage that holds no element"); event(4); v=o.v; return *this; }
  void mv(TrBase& o){ if(!alive(&o)) bad("move-assign from a dead element"); if(!alive(this)) bad("move-assignment to storage that holds no element"); if(&o!=this){v=o.v; o.v=MOVED;} }
  ~TrBase(){ died(this); free(heap); heap=nullptr; }
  bool operator==(const TrBase& o)const{return v==o.v;}
};
template<MoveKind K> struct Tr;
template<> struct Tr<CopyOnly>:TrBase<CopyOnly>{ Tr(){} Tr(int x):TrBase(x){} Tr(const Tr& o):TrBase(o){} Tr& operator=(const Tr& o){TrBase::operator=(o);return *this;} };
template<> struct Tr<NoThrowMove>:TrBase<NoThrowMove>{ Tr(){} Tr(int x):TrBase(x){} Tr(const Tr& o):TrBase(o){} Tr(Tr&& o)noexcept:TrBase(std::move(o),0){} Tr& operator=(const Tr& o){TrBase::operator=(o);return *this;} Tr& operator=(Tr&& o)noexcept{mv(o);return *this;} };
inline int mvEvent(){ event(5); return 0; }
template<> struct Tr<ThrowMove>:TrBase<ThrowMove>{ Tr(){} Tr(int x):TrBase(x){} Tr(const Tr& o):TrBase(o){} Tr(Tr&& o):TrBase(std::move(o),mvEvent()){} Tr& operator=(const Tr& o){TrBase::operator=(o);return *this;} Tr& operator=(Tr&& o){event(5);mv(o);return *this;} };
// ---- allocator which knows its blocks ------------------------------------------------------------------------------
struct Blk{void* p; size_t n; int id;}; inline Blk blk[512]; inline int nblk=0;
template<typename T,bool PC,bool PM,bool PS> struct TA{
  typedef T value_type; typedef std::integral_constant<bool,PC> propagate_on_container_copy_assignment; typedef std::integral_constant<bool,PM> propagate_on_container_move_assignment; typedef std::integral_constant<bool,PS> propagate_on_container_swap; typedef std::false_type is_always_equal;
  int id; TA(int i=0):id(i){} template<class U> TA(const TA<U,PC,PM,PS>& o):id(o.id){} template<class U> struct rebind{typedef TA<U,PC,PM,PS> other;};
  T* allocate(size_t n){ event(0); T* p=(T*)malloc(n?n*sizeof(T):1); if(nblk==512) abort(); blk[nblk++]=Blk{p,n,id}; return p; }
  void deallocate(T* p,size_t n){ if(!p) return; for(int i=0;i<nblk;i++) if(blk[i].p==p){ if(blk[i].n!=n) bad("a block was released with a size other than it was acquired with"); if(blk[i].id!=id) bad("a block was released through an allocator that did not supply it");
      for(size_t k=0;k<n;k++) if(alive(p+k)){ bad("a block was released while it still holds a live element"); break; } blk[i]=blk[--nblk]; free(p); return; } bad("a block was released that is not in use"); }
  bool operator==(const TA& o)const{return id==o.id;} bool operator!=(const TA& o)const{return id!=o.id;} };
template<typename T> struct MkAl{ static T mk(int i){return T(i);} static int id(const T& a){return a.id;} };
template<typename T> struct MkAl<std::allocator<T>>{ static std::allocator<T> mk(int){return {};} static int id(const std::allocator<T>&){return 0;} };
typedef std::vector<size_t> Ext; inline size_t prod(const Ext& e){size_t p=1;for(auto x:e)p*=x;return p;}
template<typename Arr> struct Info; template<typename T,unsigned R,typename A> struct Info<marray<T,R,A>>{typedef T type; static const unsigned rank=R; typedef A alloc;};
template<unsigned R> struct IL;
#define LITS(R,ok,badl) \
  template<typename Arr> static Arr* lit(const Ext& e,const Ext& s,int b,typename Info<Arr>::alloc al){ typedef typename Info<Arr>::type T; bool keep=armed; armed=false; typename detail::initializer_for_rank<T,R>::type good ok, wrong badl; armed=keep; return mk<Arr>(e,s[0]==9?wrong:good,al);} \
  template<typename Arr> static void asg(Arr& a,int b){ typedef typename Info<Arr>::type T; bool keep=armed; armed=false; typename detail::initializer_for_rank<T,R>::type good ok; armed=keep; a=good; }
#define B(...) {__VA_ARGS__}
template<> struct IL<1>{template<typename Arr,typename...X> static Arr* mk(const Ext& e,X&&...x){return new Arr({e[0]},std::forward<X>(x)...);} static Ext fixed(){return {3};}
  LITS(1,B(T(b),T(b+1),T(b+2)),B(T(b),T(b+1),T(b+2),T(b+3))) };
template<> struct IL<2>{template<typename Arr,typename...X> static Arr* mk(const Ext& e,X&&...x){return new Arr({e[0],e[1]},std::forward<X>(x)...);} static Ext fixed(){return {2,2};}
  LITS(2,B({T(b),T(b+1)},{T(b+2),T(b+3)}),B({T(b),T(b+1)},{T(b+2)})) };
template<> struct IL<3>{template<typename Arr,typename...X> static Arr* mk(const Ext& e,X&&...x){return new Arr({e[0],e[1],e[2]},std::forward<X>(x)...);} static Ext fixed(){return {1,2,2};}
  LITS(3,B({{T(b),T(b+1)},{T(b+2),T(b+3)}}),B({{T(b),T(b+1)},{T(b+2)}})) };
inline const char* const OPN[]={"construct-list","construct-container","construct-literal","construct-range","copy-construct","move-construct","copy-assign","move-assign","swap","resize-dim","resize-all","insert","erase","assign-literal","construct-range-wrong-size","construct-literal-wrong-shape","reshape","assign-literal-wrong-shape"};
static const int NOPS=18;
// snapshot of what an array holds
struct Snap{ bool there; Ext e; std::vector<int> v; int al; };
template<typename Arr> Snap snap(Arr* a){ Snap s; s.there=a!=nullptr; s.al=-1; if(!a) return s; const Arr& q=*a; for(unsigned d=0;d<Info<Arr>::rank;d++) s.e.push_back(q.extent(d)); for(size_t i=0;i<q.size();i++) s.v.push_back(q.get_data()[i].v); s.al=MkAl<typename Info<Arr>::alloc>::id(q.get_allocator()); return s; }
inline bool same(const Snap& a,const Snap& b){ return a.there==b.there&&a.e==b.e&&a.v==b.v; }
// one replay of a case with the failure at event k of the last operation (k==0: no failure). Returns the number of events of the operation.
template<typename Arr> uint64_t replay(Ctx& c,uint64_t seed,int targetOp,uint64_t k,std::string& what,bool& threw){
  typedef typename Info<Arr>::type T; const unsigned R=Info<Arr>::rank; typedef typename Info<Arr>::alloc A; const bool stdalloc=std::is_same<A,std::allocator<T>>::value;
  vh::Rng r(seed); resetReg(); nblk=0; trouble.clear(); int64_t heap0=vh::blocks();
  uint64_t nev=0; threw=false;
  { const int NA=2; Arr* a[NA]={nullptr,nullptr};
    auto shape=[&]{Ext e(R); int mx=R==1?6:R==2?3:3; for(auto& x:e) x=r.coin(0.08)?0:r.in(1,mx); return e;};
    int nexth=100;
    auto check=[&](const std::string& when){ size_t tot=0; for(int i=0;i<NA;i++) if(a[i]){ Ext e; for(unsigned d=0;d<R;d++) e.push_back(a[i]->extent(d)); if(prod(e)!=a[i]->size()) bad("extents and element count disagree"); for(size_t j=0;j<a[i]->size();j++) if(!alive(a[i]->get_data()+j)){ bad("array claims an element that does not exist"); break; } tot+=a[i]->size(); }
      if(tot!=nlive) bad(nlive>tot?"an element outlived its array or the failed operation":"elements missing");
      if(!trouble.empty()) c.fail("lifetime/"+std::string(OPN[targetOp])+"/"+(k?"failure":"success"),fmt("%s (%s, rank %u, %s, failure at event %llu): %s",OPN[targetOp],when.c_str(),R,stdalloc?"std::allocator":"stateful allocator",(unsigned long long)k,trouble.c_str())); trouble.clear(); c.eval(); };
    auto doOp=[&](int op,bool arm){
      int x=r.in(0,NA-1),y=1-x; Ext e=shape(); A al=MkAl<A>::mk((int)r.in(0,1)); size_t d=r.in(0,R-1); uint64_t rr=r.u64(); uint64_t r2=r.u64(); bool self=r.coin(0.05);
      if(!a[x]) { a[x]=IL<R>::template mk<Arr>(shape(),MkAl<A>::mk((int)r.in(0,1))); for(auto& z:*a[x]) z.v=nexth++; }
      if(!a[y]) { a[y]=IL<R>::template mk<Arr>(shape(),MkAl<A>::mk((int)r.in(0,1))); for(auto& z:*a[y]) z.v=nexth++; }
      std::vector<T>* src=nullptr; size_t tot=prod(e);
      if(op==3||op==14){ src=new std::vector<T>(op==14?(tot+1):tot); for(auto& z:*src) z.v=nexth++; }
      if(op==2||op==13||op==15||op==17){ e=IL<R>::fixed(); if(op==13){ a[x]->resize(Ext(R,0)); a[x]->resize(e); for(auto& z:*a[x]) z.v=nexth++; } if(op==17){ a[x]->resize(Ext(R,0)); Ext w=e; w[rr%R]+=1; a[x]->resize(w); for(auto& z:*a[x]) z.v=nexth++; } }
      if(op<=3||op==14||op==15||op==4||op==5){ delete a[x]; a[x]=nullptr; }
      if(op==8&&(MkAl<A>::id(a[x]->get_allocator())!=MkAl<A>::id(a[y]->get_allocator())&&!std::allocator_traits<A>::propagate_on_container_swap::value)) op=6;
      if(op==12&&a[x]->extent(d)==0) op=9;
      Snap bx=snap(a[x]),by=snap(a[y]); size_t live0=nlive; size_t extra=src?src->size():0; (void)live0;
      what=fmt("%s rank %u target ",OPN[op],R)+(bx.there?vh::join(bx.e):"none")+" other "+vh::join(by.e)+" new "+vh::join(e);
      Ext ne=e; if(op==16){ ne=bx.e; for(unsigned i=0;i+1<R;i++) std::swap(ne[i],ne[i+(rr>>i)%(R-i)]); }
      std::array<size_t,R> ax; std::copy(e.begin(),e.end(),ax.begin());
      Ext e9=e; e9[0]=9; Ext none;
      if(arm){ c.desc(what+fmt(" fail@%llu",(unsigned long long)k)); armed=true; ev=0; failAt=k; fired=false; }
      bool logic=false, inj=false;
            try{ switch(op){
        case 0: a[x]=IL<R>::template mk<Arr>(e,al); break;
        case 1: a[x]=rr&1?new Arr(ax,al):new Arr(e,al); break;
        case 2: a[x]=IL<R>::template lit<Arr>(e,e,500,al); break;
        case 3: case 14: a[x]=IL<R>::template mk<Arr>(e,src->begin(),src->end(),al); break;
        case 4: a[x]=new Arr(*a[y]); break;
        case 5: a[x]=new Arr(std::move(*a[y])); break;
        case 6: if(self) *a[x]=*(const Arr*)a[x]; else *a[x]=*(const Arr*)a[y]; break;
        case 7: *a[x]=std::move(*a[y]); break;
        case 8: a[x]->swap(*a[y]); break;
        case 9: a[x]->resize(d,rr%5); break;
        case 10: if(rr&1) a[x]->resize(e); else a[x]->resize(ax); break;
        case 11: a[x]->insert(d,rr%(bx.e[d]+1),r2%3,T((int)(rr%1000))); break;
        case 12: {size_t p=rr%bx.e[d]; a[x]->erase(d,p,r2%(bx.e[d]-p+1)); break;}
        case 13: case 17: IL<R>::asg(*a[x],500); break;
        case 15: a[x]=IL<R>::template lit<Arr>(e,e9,500,al); break;
        case 16: a[x]->reshape(ne); break;
      } }catch(const std::logic_error&){ logic=true; }catch(const Injected&){ inj=true; }catch(const std::bad_alloc&){ inj=true; }
      armed=false; if(arm){ nev=ev; threw=inj; }
      if(extra){ if(nlive<extra) bad("elements missing"); delete src; src=nullptr; } else if(src){delete src;src=nullptr;}
      bool mustThrowLogic=op==14||op==15||op==17;
      if(arm&&fired&&!inj) c.fail("swallowed/"+std::string(OPN[op]),what+": an injected failure did not reach the caller");
      if(!inj&&mustThrowLogic!=logic) c.fail("shape-check/"+std::string(OPN[op]),what+(logic?": refused a fitting shape":": accepted a wrong shape"));
      if(inj||logic){ // the failed operation: constructors leave nothing, assignments and changes leave the old values where promised
        Snap nx=snap(a[x]),ny=snap(a[y]);
        bool strong=op==6||op==7||op==9||op==11||op==12||op==16||op==17;
        if(strong&&!same(nx,bx)) c.fail("rollback/"+std::string(OPN[op]),what+": after the failure the target holds "+vh::join(nx.v)+" in shape "+vh::join(nx.e)+" instead of "+vh::join(bx.v)+" in shape "+vh::join(bx.e)+fmt(" (event %llu)",(unsigned long long)k));
        if(!same(ny,by)) c.fail("bystander/"+std::string(OPN[op]),what+": the other operand was changed by the failed operation");
        if(op<=5||op==14||op==15) if(nx.there) c.fail("lifetime/ctor",what);
      }
      check(arm?"after the operation":"before");
      if(!a[x]) a[x]=new Arr(al);
      return op; };
    int pre=(int)r.in(0,3); for(int i=0;i<pre;i++){ int op=(int)r.in(0,13); doOp(op,false); }
    doOp(targetOp,true);
    // still usable
    int op=(int)r.in(4,12); doOp(op,false); Ext e=shape(); for(int i=0;i<NA;i++) if(a[i]){ a[i]->resize(e); for(auto& z:*a[i]) z.v=3; } check("after reuse");
    for(int i=0;i<NA;i++) delete a[i];
    for(int i=0;i<NA;i++) a[i]=nullptr;
    check("after destruction");
    if(nlive) c.fail("leak/element",what+fmt(": %zu elements alive after all arrays are gone (failure at event %llu)",nlive,(unsigned long long)k));
    if(nblk) c.fail("leak/block/"+std::string(OPN[targetOp]),what+fmt(": %d blocks not released (failure at event %llu)",nblk,(unsigned long long)k));
    while(nblk) free(blk[--nblk].p);
  }
  c.eval();
  (void)heap0;
  return nev; }
template<typename Arr> void enumerate(Ctx& c){
  int op=(int)(c.idx%NOPS); uint64_t seed=c.rng.u64(); std::string w; bool th; int64_t fails0=0; (void)fails0;
  { std::string w0; bool t0; replay<Arr>(c,seed,op,0,w0,t0);} // warm up lazily allocated library state
  uint64_t n=replay<Arr>(c,seed,op,0,w,th); c.count("operations"); c.count("events-seen",n);
  int64_t kept=0; uint64_t k=1; for(;k<=n+1&&k<400;k++){ { bool t; std::string ww; ww.reserve(600); int64_t h0=vh::blocks(); replay<Arr>(c,seed,op,k,ww,t); kept+=vh::blocks()-h0; /* not the monitor's own records below */ if(t){ c.count("faults-injected"); c.nontrivial(ww+fmt("#%llu %d",(unsigned long long)k,(int)sizeof(Arr))); } } }
  if(kept>(int64_t)n/2&&kept>8) c.fail("leak/heap/"+std::string(OPN[op]),fmt("%lld heap blocks remain after %llu replays",(long long)kept,(unsigned long long)k));
  if(c.idx<NOPS) c.sample(OPN[op]+fmt(": %llu events, each failed once",(unsigned long long)n)); }
template<MoveKind K,unsigned R> void variants(Ctx& c){ typedef Tr<K> T; switch((c.idx/NOPS)%5){
  case 0: enumerate<marray<T,R,TA<T,true,true,true>>>(c);break; case 1: enumerate<marray<T,R,TA<T,false,false,false>>>(c);break;
  case 2: enumerate<marray<T,R,TA<T,true,false,true>>>(c);break; case 3: enumerate<marray<T,R,TA<T,false,true,false>>>(c);break; default: enumerate<marray<T,R>>(c); } }
#endif
