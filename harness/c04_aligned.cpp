// C04: histories of aligned allocations over an underlying operator new[] whose addresses, failures and sizes are controlled.
#include "vh.h"
#include <cassert>
#include <cstddef>
#include <memory>
#include <new>
#include <map>
#include <array>
#include <numeric>
#include <sstream>
#include "nuSQuIDS/aligned_alloc.h"
#include "nuSQuIDS/marray.h"
using vh::Ctx; using vh::fmt;
// underlying memory: watched while "on"; every block is malloc'ed with slack so that its start takes every residue
struct U{void* raw; size_t n;};
static const int MU=4096; static void* ub[MU]; static U uv[MU]; static int nu=0; static bool on=false; static uint64_t calls=0,failAt=0,asked=0; static size_t residue=0; static std::string trouble; static void* lastBase; static size_t lastN;
static void bad(const std::string& m){ bool k=on; on=false; if(trouble.empty()) trouble=m; on=k; }
static void* get(size_t n){ if(on){ calls++; if(calls==failAt) throw std::bad_alloc(); if(n>(size_t)3<<30){ asked++; lastN=n; throw std::bad_alloc(); }
    char* raw=(char*)malloc(n+residue); if(!raw) throw std::bad_alloc();
    // with a residue the block ends where the malloc'ed block ends, so that AddressSanitizer still sees every overrun
    if(nu==MU) abort(); ub[nu]=raw+residue; uv[nu]=U{raw,n}; nu++; lastBase=raw+residue; lastN=n; return raw+residue; }
  void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
static void put(void* p){ if(!p) return; for(int i=0;i<nu;i++) if(ub[i]==p){ free(uv[i].raw); nu--; ub[i]=ub[nu]; uv[i]=uv[nu]; return; } if(on) bad("memory was returned at an address that was not handed out"); else free(p); }
void* operator new(size_t n){ return get(n); } void* operator new[](size_t n){ return get(n); }
void operator delete(void* p) noexcept{ put(p); } void operator delete[](void* p) noexcept{ put(p); } void operator delete(void* p,size_t) noexcept{ put(p); } void operator delete[](void* p,size_t) noexcept{ put(p); }
struct On{On(){on=true;}~On(){on=false;}};
struct alignas(8) Rec24{ char c[24]; }; struct Odd{ char c[7]; };
template<typename T> struct Live{T* p; size_t n; int align; unsigned char tag; void* base;};
template<typename T> void history(Ctx& c){
  vh::Rng& r=c.rng; trouble.clear(); int minp=0; while((1u<<minp)<alignof(T)) minp++;
  std::vector<Live<T>> live; live.reserve(64); int steps=c.thorough?200:80; std::string log; unsigned tag=1; int nu0=nu;
  auto verify=[&](const Live<T>& l){ const unsigned char* b=(const unsigned char*)l.p; size_t m=l.n*sizeof(T); for(size_t i=0;i<m;i++) if(b[i]!=(unsigned char)(l.tag+i*7)) return false; return true; };
  for(int s=0;s<steps;s++){
    if(live.size()<24&&(live.empty()||r.coin(0.6))){
      int pw=r.coin(0.75)?(int)r.in(minp,12):(int)r.in(minp,c.thorough?20:16); aligned_allocator<T> al((uint8_t)pw); size_t n=r.coin(0.1)?0:r.coin(0.1)?1:r.in(1,r.coin(0.2)?3000:70);
      residue=16*(size_t)r.in(0,r.coin()?8:300); size_t ch=calls; bool failThis=r.coin(0.08); failAt=failThis?calls+1:0; T* p=nullptr; bool th=false; int before=nu;
      c.desc(fmt("allocate(%zu) of %zu bytes each, alignment 2^%d, residue %zu",n,sizeof(T),pw,residue));
      { On o; try{ if(pw%2&&r.coin(0.3)){ aligned_allocator<T> a2(aligned_allocator<char>{(uint8_t)pw}); p=a2.allocate(n);} else p=al.allocate(n); }catch(const std::bad_alloc&){th=true;} }
      residue=0; failAt=0; (void)ch;
      if(failThis){ c.check("failure/reported",th&&!p,"the underlying request was refused but allocate did not throw"); c.check("failure/leak",nu==before,"a refused allocation keeps memory"); c.count("refusals"); continue; }
      if(th){ c.fail("allocate/refused",fmt("allocate(%zu), alignment 2^%d was refused without reason",n,pw)); continue; }
      c.check("alignment",((uintptr_t)p&(((uintptr_t)1<<pw)-1))==0,fmt("%p is not a multiple of 2^%d",(void*)p,pw));
      c.check("acquired",nu==before+1,"allocate must acquire exactly one block");
      uintptr_t b=(uintptr_t)p,e=b+n*sizeof(T),B=(uintptr_t)lastBase,E=B+lastN;
      if(!c.check("inside",b>=B&&e<=E,fmt("block [%#lx,%#lx) is not inside the acquired memory [%#lx,%#lx): n=%zu size %zu alignment 2^%d",(long)b,(long)e,(long)B,(long)E,n,sizeof(T),pw))) return;
      for(auto& l:live){ uintptr_t lb=(uintptr_t)l.p,le=lb+l.n*sizeof(T); if(n&&l.n&&b<le&&lb<e) c.fail("disjoint","two live blocks overlap"); }
      Live<T> l{p,n,pw,(unsigned char)(tag++*37),lastBase}; unsigned char* q=(unsigned char*)p; for(size_t i=0;i<n*sizeof(T);i++) q[i]=(unsigned char)(l.tag+i*7);
      live.push_back(l); c.count("allocations"); if(pw>=8) c.count("alignment>=256"); log+=fmt("a%zu@%d:%zx ",n,pw,(size_t)(B&0xfff));
    } else { size_t i=r.in(0,live.size()-1); Live<T> l=live[i]; live.erase(live.begin()+i); c.desc(fmt("deallocate block of %zu, alignment 2^%d",l.n,l.align));
      c.check("contents",verify(l),"the contents of a live block changed"); int before=nu; aligned_allocator<T> al((uint8_t)l.align);
      { On o; al.deallocate(l.p,l.n); }
      if(!trouble.empty()){ c.fail("release",trouble+fmt(" (alignment 2^%d)",l.align)); trouble.clear(); return; }
      bool gone=true; for(int k=0;k<nu;k++) if(ub[k]==l.base) gone=false;
      c.check("release",nu==before-1&&gone,fmt("releasing one block (n=%zu, alignment 2^%d) returned %d blocks, its own: %d",l.n,l.align,before-nu,(int)gone)); c.count("releases"); log+="f "; }
    if(s%8==0) for(auto& l:live) c.check("contents",verify(l),"the contents of a live block changed");
  }
  for(auto& l:live){ c.check("contents",verify(l),"the contents of a live block changed"); On o; aligned_allocator<T>((uint8_t)l.align).deallocate(l.p,l.n); }
  c.check("returned",nu==nu0&&trouble.empty(),fmt("%d underlying blocks remain after everything was released %s",nu-nu0,trouble.c_str()));
  { On o; aligned_allocator<T>((uint8_t)(minp+1)).deallocate(nullptr,5); } c.check("null",trouble.empty());
  c.nontrivial(log); if(c.idx<1) c.sample(log.substr(0,300)); }
VH_GROUP("histories",600,40000){ switch(c.idx%5){case 0:history<double>(c);break;case 1:history<char>(c);break;case 2:history<Rec24>(c);break;case 3:history<Odd>(c);break;default:history<long double>(c);} }
// requests near the end of the address space must be refused, never satisfied with less
template<typename T> void limits(Ctx& c){ vh::Rng& r=c.rng; int pw=(int)r.in(4,r.coin()?12:31); aligned_allocator<T> al((uint8_t)pw); size_t ms=al.max_size(); 
  c.check("max_size",ms<=std::numeric_limits<size_t>::max()/sizeof(T)&&ms>=(size_t)1<<40,fmt("max_size() is %zu",ms));
  size_t n; switch(r.in(0,6)){ case 0:n=ms+1+r.in(0,3);break; case 1:n=ms-r.in(0,50);break; case 2:n=std::numeric_limits<size_t>::max()-r.in(0,1000);break; case 3:n=std::numeric_limits<size_t>::max()/sizeof(T)+r.in(-3,50);break; case 4:n=((size_t)1<<63)/sizeof(T)*2+r.in(0,100);break; case 5:n=(((size_t)1<<(64-4-r.in(0,3)))+(size_t)r.in(0,9));break; default:n=(size_t)r.logu(1e10,1e19); }
  if(n<((size_t)4<<30)/sizeof(T)) n=((size_t)4<<30)/sizeof(T)+1;
  c.desc(fmt("allocate(%zu) of %zu bytes each, alignment 2^%d",n,sizeof(T),pw)); int th=0; T* p=nullptr; int before=nu; lastN=0; 
  { On o; try{ p=al.allocate(n); }catch(const std::bad_alloc&){th=1;}catch(...){th=2;} }
  bool wraps=n>std::numeric_limits<size_t>::max()/sizeof(T); size_t need=n*sizeof(T);
  c.check("limits/refused",th==1&&!p,fmt("allocate(%zu) elements of %zu bytes was %s (underlying request %zu bytes)",n,sizeof(T),th==2?"refused with another exception":"granted",lastN));
  if(lastN) c.check("limits/request",!wraps&&lastN>=need+1,fmt("allocate(%zu) asked for only %zu bytes",n,lastN));
  if(p){ On o; al.deallocate(p,n);} c.check("limits/leak",nu==before); c.count("limit-requests"); c.nontrivial(fmt("%zu/%zu/%d",n,sizeof(T),pw)); }
VH_GROUP("limits",2000,100000){ switch(c.idx%4){case 0:limits<double>(c);break;case 1:limits<char>(c);break;case 2:limits<Rec24>(c);break;default:limits<Odd>(c);} }
// through containers: arrays and vectors always sit on aligned storage and return everything, also on failure
VH_GROUP("containers",400,20000){ vh::Rng& r=c.rng; int pw=(int)r.in(3,11); typedef aligned_allocator<double> A; A al((uint8_t)pw); trouble.clear(); int before=nu; std::string log=fmt("2^%d ",pw);
  for(int k=0;k<3;k++){ failAt=k?calls+r.in(1,6):0; on=true; try{
    { nusquids::marray<double,2,A> a({(size_t)r.in(0,9),(size_t)r.in(1,9)},al); std::vector<double,A> v(al); double q=0; 
      auto chk=[&]{ on=false; if(a.size()) c.check("container/array-aligned",((uintptr_t)a.get_data()&((1u<<pw)-1))==0); if(v.size()) c.check("container/vector-aligned",((uintptr_t)v.data()&((1u<<pw)-1))==0); c.check("container/allocator",a.get_allocator()==al&&v.get_allocator()==al&&!(al!=A((uint8_t)pw))&&al!=A((uint8_t)(pw+1)),"allocators compare by alignment"); on=true; };
      for(int i=0;i<12;i++){ switch(r.in(0,4)){ case 0:a.resize((size_t)r.in(0,1),(size_t)r.in(0,12));break; case 1:for(auto& x:a)x=q++;break; case 2:v.push_back(q++);break; case 3:{nusquids::marray<double,2,A> b(a);a=b;nusquids::marray<double,2,A> d(std::move(b));a=std::move(d);break;} default:v.resize((size_t)r.in(0,50)); } residue=16*(size_t)r.in(0,8); chk(); }
      std::shared_ptr<int> sp=std::allocate_shared<int>(aligned_allocator<int>((uint8_t)pw),3); (void)sp; }
    on=false; }catch(const std::bad_alloc&){ on=false; c.count("refusals"); log+="refused "; } residue=0; failAt=0;
    c.check("container/returned",nu==before&&trouble.empty(),fmt("%d blocks remain after the containers are gone %s",nu-before,trouble.c_str())); }
  c.nontrivial(log+fmt("%llu",(unsigned long long)c.idx)); }
// elements of containers are made, kept and destroyed like those of ordinary containers
struct Elem{ static long alive; std::string s; int k; Elem(int a,const std::string& b):s(b),k(a){ alive++; } Elem(const Elem& o):s(o.s),k(o.k){ alive++; } Elem(Elem&& o):s(std::move(o.s)),k(o.k){ alive++; } Elem& operator=(const Elem&)=default; Elem& operator=(Elem&&)=default; ~Elem(){ alive--; } bool operator==(const Elem& o) const { return k==o.k&&s==o.s; } }; long Elem::alive=0;
VH_GROUP("elements",400,20000){ vh::Rng& r=c.rng; int pw=(int)r.in(4,11); aligned_allocator<Elem> al((uint8_t)pw); std::string log=fmt("2^%d ",pw); auto word=[&]{ return std::string((size_t)r.in(0,40),(char)r.in('a','z')); };
  { std::vector<Elem,aligned_allocator<Elem>> v(al); std::vector<Elem> m; typedef std::pair<const int,std::string> P; std::map<int,std::string,std::less<int>,aligned_allocator<P>> q{std::less<int>(),aligned_allocator<P>((uint8_t)pw)}; std::map<int,std::string> n; std::vector<double,aligned_allocator<double>> d(aligned_allocator<double>{(uint8_t)pw}); std::vector<double> e;
    for(int i=0,N=r.in(5,40);i<N;i++){ switch(r.in(0,7)){ case 0: case 1: { int k=r.in(0,99); auto s=word(); v.emplace_back(k,s); m.emplace_back(k,s); log+="+"; break; } case 2: if(!m.empty()){ size_t k=r.in(0,m.size()-1); v.erase(v.begin()+k); m.erase(m.begin()+k); log+="-"; } break; case 3: { Elem x(r.in(0,9),word()); size_t k=r.in(0,m.size()); v.insert(v.begin()+k,x); m.insert(m.begin()+k,x); log+="i"; break; } case 4: { int k=r.in(0,20); auto s=word(); q[k]=s; n[k]=s; log+="m"; break; } case 5: { double x=r.unit(); size_t k=r.in(0,30); d.assign(k,x); e.assign(k,x); log+="a"; break; } case 6: { size_t k=r.in(0,60); d.resize(k); e.resize(k); d.push_back(k); e.push_back(k); log+="r"; break; } default: { auto w=v; v=std::move(w); q.erase(3); n.erase(3); log+="c"; } }
      c.check("elements/vector",v.size()==m.size()&&std::equal(m.begin(),m.end(),v.begin()),"elements of the vector after "+log); c.check("elements/map",q.size()==n.size()&&std::equal(n.begin(),n.end(),q.begin()),"elements of the map after "+log); c.check("elements/numbers",d.size()==e.size()&&std::equal(e.begin(),e.end(),d.begin()),"numbers after "+log); c.check("elements/alive",Elem::alive==(long)(2*m.size()),fmt("%ld objects alive instead of %zu",Elem::alive,2*m.size())); c.count("element-steps"); } }
  c.check("elements/gone",Elem::alive==0,fmt("%ld objects remain",Elem::alive)); Elem::alive=0; c.nontrivial(log); }
