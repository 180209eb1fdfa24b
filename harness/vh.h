// Shared runtime of the monitors: deterministic per-case random generator, violation log,
// event counters, heap-balance monitor and the main loop. See DESIGN.md.
#ifndef VH_H
#define VH_H
#include <atomic>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/time.h>
namespace vh{
inline uint64_t mix(uint64_t x){x+=0x9E3779B97F4A7C15ull;x=(x^(x>>30))*0xBF58476D1CE4E5B9ull;x=(x^(x>>27))*0x94D049BB133111EBull;return x^(x>>31);}
inline uint64_t hstr(const char* s,uint64_t h=1469598103934665603ull){for(;*s;s++){h^=(unsigned char)*s;h*=1099511628211ull;}return h;}
inline uint64_t hbytes(const void* p,size_t n,uint64_t h=1469598103934665603ull){const unsigned char* s=(const unsigned char*)p;for(size_t i=0;i<n;i++){h^=s[i];h*=1099511628211ull;}return h;}
struct Rng{
  uint64_t s;
  explicit Rng(uint64_t x=1):s(x){}
  uint64_t u64(){s+=0x9E3779B97F4A7C15ull;uint64_t x=s;x=(x^(x>>30))*0xBF58476D1CE4E5B9ull;x=(x^(x>>27))*0x94D049BB133111EBull;return x^(x>>31);}
  double unit(){return (u64()>>11)*0x1p-53;}
  double uni(double a,double b){return a+(b-a)*unit();}
  double logu(double a,double b){return std::exp(uni(std::log(a),std::log(b)));}
  int64_t in(int64_t a,int64_t b){return a+(int64_t)(u64()%(uint64_t)(b-a+1));}
  bool coin(double p=0.5){return unit()<p;}
  template<typename T> const T& pick(const std::vector<T>& v){return v[u64()%v.size()];}
  double gauss(){double u=unit()+1e-300,v=unit();return std::sqrt(-2*std::log(u))*std::cos(6.283185307179586*v);}
};
inline std::string fmt(const char* f,...) __attribute__((format(printf,1,2)));
inline std::string fmt(const char* f,...){char b[4096];va_list a;va_start(a,f);vsnprintf(b,sizeof b,f,a);va_end(a);return b;}
template<typename C> std::string join(const C& c,const char* sep=","){std::ostringstream o;o.precision(17);bool f=true;for(const auto& x:c){if(!f)o<<sep;f=false;o<<x;}return o.str();}
struct State{
  std::string group,out,tier="quick",tmp; uint64_t seed=1; int pfd=-1; FILE* of=nullptr;
  std::mutex m; std::map<std::string,uint64_t> nfail; std::map<std::string,uint64_t> counts; std::unordered_set<uint64_t> distinct;
  uint64_t evals=0; std::vector<std::string> samples; uint64_t cur=0; std::string desc; bool verbose=false;
  int pslot=0;
};
inline State& S(){static State s;return s;}
inline std::string esc(const std::string& s){std::string o;for(unsigned char c:s){if(c=='"'||c=='\\'){o+='\\';o+=c;}else if(c=='\n')o+="\\n";else if(c<32||c>=127)o+=fmt("\\u%04x",c);else o+=c;}return o;}
struct Ctx{
  Rng rng; uint64_t idx; bool thorough; std::string tmp;
  Ctx(uint64_t s,uint64_t i,bool t):rng(s),idx(i),thorough(t),tmp(S().tmp){}
  void fail(const std::string& key,const std::string& msg){
    std::lock_guard<std::mutex> l(S().m);
    if(S().nfail[key]++<3||S().verbose){
      fprintf(S().of,"{\"t\":\"fail\",\"key\":\"%s\",\"idx\":%" PRIu64 ",\"desc\":\"%s\",\"msg\":\"%s\"}\n",esc(key).c_str(),idx,esc(S().desc).c_str(),esc(msg).c_str()); fflush(S().of);
      if(S().verbose) fprintf(stderr,"FAIL %s [case %" PRIu64 ": %s] %s\n",key.c_str(),idx,S().desc.c_str(),msg.c_str());
    }
  }
  void desc(const std::string& d){ std::lock_guard<std::mutex> l(S().m); S().desc=d;
    if(S().pfd>=0){char b[512];memset(b,0,sizeof b);snprintf(b,sizeof b,"%" PRIu64 " %s",idx,d.c_str()); if(pwrite(S().pfd,b,sizeof b,0)){} } }
  void eval(uint64_t n=1){std::lock_guard<std::mutex> l(S().m);S().evals+=n;}
  void nontrivial(uint64_t h){std::lock_guard<std::mutex> l(S().m);if(S().distinct.size()<200000)S().distinct.insert(h);}
  void nontrivial(const std::string& s){nontrivial(hbytes(s.data(),s.size(),hstr(S().group.c_str())));}
  void count(const std::string& n,uint64_t k=1){std::lock_guard<std::mutex> l(S().m);S().counts[n]+=k;}
  void sample(const std::string& s){std::lock_guard<std::mutex> l(S().m);if(S().samples.size()<2)S().samples.push_back(S().group+"#"+fmt("%" PRIu64,idx)+": "+s);}
  // relative-or-absolute closeness; NaN never close
  static bool close(double a,double b,double rel,double abs=0){ if(a==b) return true; double d=std::fabs(a-b); return d<=abs+rel*std::max(std::fabs(a),std::fabs(b)); }
  bool near(const std::string& key,double got,double want,double rel,double abs,const std::string& what=""){
    eval(); if(close(got,want,rel,abs)) return true; fail(key,fmt("%s got %.17g want %.17g (rel %.3g abs %.3g)",what.c_str(),got,want,rel,abs)); return false; }
  bool check(const std::string& key,bool ok,const std::string& what=""){ eval(); if(!ok) fail(key,what); return ok; }
};
struct Group{std::string name; uint64_t q,t; bool serial; std::function<void(Ctx&)> fn;};
inline std::vector<Group>& groups(){static std::vector<Group> g;return g;}
struct Reg{Reg(const char* n,uint64_t q,uint64_t t,std::function<void(Ctx&)> f,bool serial=false){groups().push_back(Group{n,q,t,serial,f});}};
#define VH_CAT2(a,b) a##b
#define VH_CAT(a,b) VH_CAT2(a,b)
// name, number of cases quick, number thorough
#define VH_GROUP(name,q,t) static void VH_CAT(grp_,__LINE__)(vh::Ctx&); static vh::Reg VH_CAT(reg_,__LINE__)(name,q,t,VH_CAT(grp_,__LINE__)); static void VH_CAT(grp_,__LINE__)(vh::Ctx& c)
#define VH_GROUP_SERIAL(name,q,t) static void VH_CAT(grp_,__LINE__)(vh::Ctx&); static vh::Reg VH_CAT(reg_,__LINE__)(name,q,t,VH_CAT(grp_,__LINE__),true); static void VH_CAT(grp_,__LINE__)(vh::Ctx& c)
// does f throw something derived from std::exception?  returns 1 yes, 0 no exception, 2 other exception
template<typename F> int throws(F f,std::string* what=nullptr){
  try{ f(); }catch(const std::exception& e){ if(what)*what=e.what(); return 1; }catch(...){ return 2; } return 0; }
// silence the library's chatter on stdout/stderr while f runs
struct Quiet{ int so,se; Quiet(){fflush(stdout);fflush(stderr);so=dup(1);se=dup(2);int n=open("/dev/null",O_WRONLY);dup2(n,1);dup2(n,2);close(n);} ~Quiet(){fflush(stdout);fflush(stderr);dup2(so,1);dup2(se,2);close(so);close(se);} };
#ifdef VH_HEAP
// heap-balance monitor: number of live heap blocks allocated by this process (needs ASan's malloc hooks)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*,size_t),void (*)(const volatile void*));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);
inline std::atomic<int64_t>& blocks(){static std::atomic<int64_t> v{0};return v;}
inline std::atomic<int64_t>& bytes(){static std::atomic<int64_t> v{0};return v;}
inline void hookM(const volatile void* p,size_t n){if(p){blocks().fetch_add(1,std::memory_order_relaxed);bytes().fetch_add((int64_t)n,std::memory_order_relaxed);}}
inline void hookF(const volatile void* p){if(p){blocks().fetch_sub(1,std::memory_order_relaxed);}}
inline void heapInit(){static bool d=(blocks(),bytes(),__sanitizer_install_malloc_and_free_hooks(hookM,hookF),true);(void)d;}
#else
inline void heapInit(){}
inline std::atomic<int64_t>& blocks(){static std::atomic<int64_t> v{0};return v;}
#endif
inline int open_fds(){int n=0;for(int i=0;i<1024;i++) if(fcntl(i,F_GETFD)!=-1) n++;return n;}
inline int run(int argc,char** argv){
  std::string progress; uint64_t from=0,only=~0ull,si=0,sn=1; bool list=false;
  for(int i=1;i<argc;i++){std::string a=argv[i]; auto nx=[&]{return std::string(i+1<argc?argv[++i]:"");};
    if(a=="--group")S().group=nx(); else if(a=="--seed")S().seed=strtoull(nx().c_str(),0,10); else if(a=="--tier")S().tier=nx();
    else if(a=="--shard"){std::string v=nx();sscanf(v.c_str(),"%" SCNu64 "/%" SCNu64,&si,&sn);} else if(a=="--from")from=strtoull(nx().c_str(),0,10);
    else if(a=="--only")only=strtoull(nx().c_str(),0,10); else if(a=="--out")S().out=nx(); else if(a=="--progress")progress=nx(); else if(a=="--tmp")S().tmp=nx();
    else if(a=="--list")list=true; else if(a=="-v")S().verbose=true; }
  bool th=S().tier=="thorough";
  if(list){for(auto& g:groups())printf("%s %" PRIu64 " %d\n",g.name.c_str(),th?g.t:g.q,(int)g.serial);return 0;}
  if(S().out.empty())S().of=stdout; else S().of=fopen(S().out.c_str(),"a");
  if(!S().of)return 99;
  if(!progress.empty())S().pfd=open(progress.c_str(),O_RDWR|O_CREAT,0644);
  if(S().tmp.empty())S().tmp="/tmp";
  heapInit();
  for(auto& g:groups()) if(g.name==S().group||S().group.empty()){
    if(!S().out.empty()||S().verbose) S().group=g.name;
    uint64_t n=th?g.t:g.q,done=0; std::string keep=S().group; S().group=g.name;
    for(uint64_t i=0;i<n;i++){
      if(only!=~0ull){if(i!=only)continue;} else if(i%sn!=si||i<from)continue;
      Ctx c(mix(mix(S().seed)^hstr(g.name.c_str())^mix(i*2+1)),i,th); c.desc("");
      try{ g.fn(c); }
      catch(const std::bad_alloc&){ fprintf(stderr,"harness: out of memory in %s case %" PRIu64 " (%s)\n",g.name.c_str(),i,S().desc.c_str()); c.fail("unexpected-exception/"+g.name,"std::bad_alloc"); }
      catch(const std::exception& e){ c.fail("unexpected-exception/"+g.name,std::string("unexpected exception: ")+e.what()); }
      catch(...){ c.fail("unexpected-exception/"+g.name,"unexpected exception of unknown type"); }
      done++;
    }
    S().group=keep; S().counts["cases:"+g.name]+=done;
    if(S().group==g.name) if(!S().out.empty()) break;
  }
  fprintf(S().of,"{\"t\":\"sum\",\"group\":\"%s\",\"evals\":%" PRIu64 ",\"distinct\":[",esc(S().group).c_str(),S().evals);
  bool f=true; for(auto h:S().distinct){fprintf(S().of,"%s\"%" PRIx64 "\"",f?"":",",h);f=false;}
  fprintf(S().of,"],\"counts\":{"); f=true; for(auto& p:S().counts){fprintf(S().of,"%s\"%s\":%" PRIu64,f?"":",",esc(p.first).c_str(),p.second);f=false;}
  fprintf(S().of,"},\"fails\":{"); f=true; for(auto& p:S().nfail){fprintf(S().of,"%s\"%s\":%" PRIu64,f?"":",",esc(p.first).c_str(),p.second);f=false;}
  fprintf(S().of,"},\"samples\":["); f=true; for(auto& s:S().samples){fprintf(S().of,"%s\"%s\"",f?"":",",esc(s).c_str());f=false;}
  fprintf(S().of,"]}\n"); fflush(S().of);
  return 0;
}
}
#ifndef VH_NO_MAIN
int main(int argc,char** argv){return vh::run(argc,argv);}
#endif
#endif
