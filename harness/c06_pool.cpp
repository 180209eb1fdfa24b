// C06: the thread pool under delays injected at every lock, unlock, wait and notification (link-time wrapping),
// spurious wake-ups included. Every submission, start, end and delivery is logged and the log is checked afterwards.
#include "vh.h"
#include <algorithm>
#include <array>
#include <chrono>
#include <memory>
#include <thread>
#include <pthread.h>
#include "nuSQuIDS/ThreadPool.h"
using vh::Ctx; using vh::fmt;
static std::atomic<int> chaos{0}; static std::atomic<uint64_t> chaosSeed{1}; static std::atomic<uint64_t> injected{0},spurious{0};
static uint64_t rnd(){ static thread_local uint64_t s=0,gen=0; uint64_t g=chaosSeed.load(std::memory_order_relaxed); if(gen!=g){gen=g; s=vh::mix(g^(uint64_t)pthread_self());} s=s*6364136223846793005ull+1442695040888963407ull; return s>>33; }
static void perturb(){ int l=chaos.load(std::memory_order_relaxed); if(!l) return; uint64_t r=rnd()%100; if(r>=(uint64_t)l) return; injected.fetch_add(1,std::memory_order_relaxed);
  if(r%4==0) usleep(rnd()%60); else if(r%4==1) for(volatile int i=0;i<(int)(rnd()%300);i=i+1); else sched_yield(); }
extern "C" {
 int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
 int __wrap_pthread_mutex_lock(pthread_mutex_t* m){ perturb(); return __real_pthread_mutex_lock(m); }
 int __wrap_pthread_mutex_unlock(pthread_mutex_t* m){ int r=__real_pthread_mutex_unlock(m); perturb(); return r; }
 void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable*,std::unique_lock<std::mutex>&);
 void __real__ZNSt18condition_variable10notify_oneEv(std::condition_variable*); void __real__ZNSt18condition_variable10notify_allEv(std::condition_variable*);
 void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable* c,std::unique_lock<std::mutex>& l){ perturb();
   if(chaos.load(std::memory_order_relaxed)&&rnd()%8==0){ spurious.fetch_add(1,std::memory_order_relaxed); l.unlock(); sched_yield(); l.lock(); return; }   // a spurious wake-up
   __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c,l); }
 void __wrap__ZNSt18condition_variable10notify_oneEv(std::condition_variable* c){ perturb(); __real__ZNSt18condition_variable10notify_oneEv(c); }
 void __wrap__ZNSt18condition_variable10notify_allEv(std::condition_variable* c){ perturb(); __real__ZNSt18condition_variable10notify_allEv(c); }
}
struct Calm{ Calm(int l,uint64_t s){chaosSeed=s;chaos=l;} ~Calm(){chaos=0;} };
struct Oops:std::runtime_error{ int id; Oops(int i):std::runtime_error("task failed"),id(i){} };
struct Log{ // what the pool did, one slot per task
  static const int M=600; std::array<std::atomic<int>,M> runs,started,order; std::array<std::thread::id,M> who; std::array<std::atomic<int>,M> nestedAccepted; std::atomic<int> clock{0},active{0},peak{0},next{0}; std::atomic<uint64_t> hash{0};
  Log(){ for(int i=0;i<M;i++){runs[i]=0;started[i]=-1;order[i]=-1;nestedAccepted[i]=0;} }
  void enter(int id){ int a=active.fetch_add(1)+1; int p=peak; while(a>p&&!peak.compare_exchange_weak(p,a)); started[id]=clock.fetch_add(1); who[id]=std::this_thread::get_id(); runs[id].fetch_add(1); }
  void leave(int id){ order[id]=clock.fetch_add(1); active.fetch_sub(1); }
};
struct Token{ std::shared_ptr<std::atomic<int>> n; Token(std::shared_ptr<std::atomic<int>> p):n(p){ (*n)++; } Token(const Token& o):n(o.n){ (*n)++; } Token(Token&& o):n(o.n){ (*n)++; } ~Token(){ (*n)--; } };
struct Sub{ int id; int kind; std::future<long> r; std::future<void> v; std::future<std::unique_ptr<int>> u; std::future<int&> ref; };
static int slots[Log::M];
static void work(int w){ if(w==1) sched_yield(); else if(w==2) usleep(20); else if(w==3) for(volatile int i=0;i<500;i=i+1); }
static long body(Log& l,int id,int w,bool thr){ l.enter(id); work(w); l.leave(id); if(thr) throw Oops(id); return 1000003L*id+7; }
static void submit(ThreadPool& p,Log& l,std::vector<Sub>& out,int id,int kind,int w,std::shared_ptr<std::atomic<int>> alive){
  Sub s; s.id=id; s.kind=kind; Token t(alive);
  switch(kind){
    case 0: s.r=p.enqueue([&l,id,w,t]{return body(l,id,w,false);}); break;
    case 1: s.r=p.enqueue([&l,id,w,t]{return body(l,id,w,true);}); break;
    case 2: s.v=p.enqueue([&l,t](int i,int ww){body(l,i,ww,false);},id,w); break;
    case 3: s.u=p.enqueue([&l,id,w,t]{return std::unique_ptr<int>(new int((int)body(l,id,w,false)));}); break;
    case 4: s.ref=p.enqueue([&l,id,w,t]()->int&{body(l,id,w,false);return slots[id];}); break;
    default:{ std::function<long(int)> f=[&l,w,t](int i){return body(l,i,w,i%2==0);}; s.r=p.enqueue(f,id); } }
  out.push_back(std::move(s));
}
static bool expectThrow(const Sub& s){ return s.kind==1||(s.kind==5&&s.id%2==0); }
static void deliver(Ctx& c,Sub& s,bool wait){
  auto ready=[&](std::future_status st){ return st==std::future_status::ready; }; auto T=std::chrono::seconds(wait?40:0); bool ok;
  if(s.kind==2) ok=ready(s.v.wait_for(T)); else if(s.kind==3) ok=ready(s.u.wait_for(T)); else if(s.kind==4) ok=ready(s.ref.wait_for(T)); else ok=ready(s.r.wait_for(T));
  if(!c.check("pool/not-delivered",ok,fmt("task %d: no result%s",s.id,wait?" within 40 s":" after the pool was destroyed"))) return;
  try{
    if(s.kind==2) s.v.get(); else if(s.kind==3){ auto p=s.u.get(); c.check("pool/wrong-value",p&&*p==(int)(1000003L*s.id+7),""); }
    else if(s.kind==4) c.check("pool/wrong-value",&s.ref.get()==&slots[s.id],""); else c.check("pool/wrong-value",s.r.get()==1000003L*s.id+7,fmt("task %d got another value",s.id));
    c.check("pool/exception-lost",!expectThrow(s),fmt("task %d threw, its handle returned a value",s.id));
  }catch(const Oops& e){ c.check("pool/wrong-exception",expectThrow(s)&&e.id==s.id,fmt("task %d got the exception of task %d",s.id,e.id)); }
  catch(const std::exception& e){ c.fail("pool/wrong-exception",fmt("task %d: %s",s.id,e.what())); }
  c.count("deliveries");
}
VH_GROUP("pool-history",1600,12000){
  vh::Rng& r=c.rng; int W=r.coin(.3)?1:r.in(2,9); int S=r.coin(.5)?1:r.in(2,4); int per=r.in(0,r.coin(.2)?120:30); int ch=r.pick(std::vector<int>{0,5,30,80}); bool waitBefore=r.coin(.4); bool nested=r.coin(.4);
  c.desc(fmt("workers %d submitters %d tasks %d each, chaos %d%%, %s",W,S,per,ch,waitBefore?"results awaited first":"pool destroyed with tasks pending")); auto alive=std::make_shared<std::atomic<int>>(0);
  auto l=std::make_shared<Log>(); std::vector<std::vector<Sub>> subs(S); std::vector<std::vector<Sub>> inner(Log::M); std::atomic<int> refused{0},nestedOk{0}; l->next=S*per;
  { std::vector<uint64_t> seeds; for(int i=0;i<S;i++) seeds.push_back(r.u64()); Calm calm(ch,r.u64());
    { ThreadPool pool(W);
      auto go=[&](int s){ vh::Rng q(seeds[s]); for(int i=0;i<per;i++){ int id=s*per+i; submit(pool,*l,subs[s],id,q.in(0,5),q.in(0,3),alive);
          if(nested&&q.coin(.2)){ // a task which itself submits; refused only once shutdown has begun
            int nid=l->next.fetch_add(1); if(nid<Log::M){ Log& L=*l; auto& in=inner[nid]; int w=q.in(0,3); pool.enqueue([&pool,&L,&in,nid,w,alive,&refused,&nestedOk]{ try{ submit(pool,L,in,nid,0,w,alive); nestedOk++; }catch(const std::runtime_error&){ refused++; } }); } }
          if(q.coin(.1)) usleep(q.in(0,50)); } };
      if(S==1) go(0); else { std::vector<std::thread> t; for(int s=0;s<S;s++) t.emplace_back(go,s); for(auto& x:t) x.join(); }
      if(waitBefore) for(auto& v:subs) for(auto& s:v) deliver(c,s,true);
    }
    // the destructor has returned: everything accepted has run and nothing runs any more
    c.check("pool/active-after-destruction",l->active==0,fmt("%d tasks still running",l->active.load())); int settled=l->clock;
    if(!waitBefore) for(auto& v:subs) for(auto& s:v) deliver(c,s,false);
    for(auto& v:inner) for(auto& s:v) deliver(c,s,false);
    if(ch) usleep(100); c.check("pool/ran-after-destruction",l->clock==settled,"");
  }
  for(int id=0;id<S*per;id++) c.check("pool/exactly-once",l->runs[id]==1,fmt("task %d ran %d times",id,l->runs[id].load()));
  int acc=0; for(int n=S*per;n<Log::M;n++){ acc+=!inner[n].empty(); c.check("pool/nested-exactly-once",l->runs[n]==(inner[n].empty()?0:1),fmt("nested task %d: accepted %d, ran %d",n,(int)!inner[n].empty(),l->runs[n].load())); }
  c.check("pool/concurrency",l->peak<=W,fmt("%d tasks ran at once with %d workers",l->peak.load(),W));
  if(W==1) for(int s=0;s<S;s++) for(int i=1;i<per;i++) c.check("pool/order",l->started[s*per+i]>l->started[s*per+i-1],fmt("task %d started before task %d",s*per+i,s*per+i-1));
  std::set<std::thread::id> ids; for(int id=0;id<S*per;id++) ids.insert(l->who[id]); c.check("pool/threads",(int)ids.size()<=W&&!ids.count(std::this_thread::get_id()),fmt("%d threads ran tasks",(int)ids.size()));
  subs.clear(); inner.clear(); c.check("pool/tasks-released",alive->load()==0,fmt("%d task objects still alive after the pool and the handles are gone",alive->load()));
  std::vector<std::pair<int,int>> o; for(int i=0;i<Log::M;i++){ if(l->started[i]>=0)o.push_back({l->started[i],2*i}); if(l->order[i]>=0)o.push_back({l->order[i],2*i+1}); } std::sort(o.begin(),o.end()); std::string h; for(auto& x:o) h+=fmt("%d,",x.second);
  if(!h.empty()) c.nontrivial(fmt("%d/%d:",W,S)+h); c.count("tasks",S*per); c.count("nested",nestedOk.load()); c.count("refused",refused.load()); c.count("injected-delays",injected.exchange(0)); c.count("spurious-wakeups",spurious.exchange(0)); c.sample(vh::S().desc);
}
VH_GROUP_SERIAL("pool-backlog",4,40){   // many more tasks than workers wait in the queue
  vh::Rng& r=c.rng; int W=c.idx%2?r.in(2,8):1,N=r.in(66000,90000); bool held=r.coin(.7),wait=r.coin(); c.desc(fmt("%d workers, %d tasks waiting%s",W,N,held?" behind a task which is held":"")); std::vector<std::atomic<int>> runs(N),at(N); for(auto& x:runs) x=0; std::atomic<int> clock{0}; std::atomic<bool> go{!held}; std::vector<std::future<int>> f; f.reserve(N);
  { ThreadPool p(W); for(int i=0;held&&i<W;i++) p.enqueue([&]{ while(!go) usleep(50); }); for(int i=0;i<N;i++) f.push_back(p.enqueue([&,i]{ runs[i]++; at[i]=clock++; return i^0x155; })); go=true; if(wait) for(int i=N-1;i>=0;i-=997) f[i].wait(); }
  int bad=0,lost=0,late=0; for(int i=0;i<N;i++){ bad+=runs[i]!=1; late+=W==1&&at[i]!=i; if(f[i].wait_for(std::chrono::seconds(0))!=std::future_status::ready||f[i].get()!=(i^0x155)) lost++; }
  c.check("pool/backlog-once",!bad,fmt("%d of %d tasks did not run once",bad,N)); c.check("pool/backlog-results",!lost,fmt("%d of %d results are missing or wrong",lost,N)); c.check("pool/backlog-order",!late,fmt("%d tasks of one worker out of order",late)); c.count("backlog-tasks",N); c.nontrivial(fmt("%d %d",W,N)); c.sample(vh::S().desc); }
VH_GROUP("pool-parallel",240,2000){   // as many tasks as workers can meet each other
  vh::Rng& r=c.rng; int W=r.in(1,12); c.desc(fmt("%d workers meet",W)); Calm calm(r.pick(std::vector<int>{0,30}),r.u64()); std::atomic<int> in{0}; std::atomic<bool> late{false}; std::vector<std::future<int>> f;
  { ThreadPool p(W); for(int round=0;round<3;round++){ f.clear(); in=0; for(int i=0;i<W;i++) f.push_back(p.enqueue([&,i]{ in++; auto t0=std::chrono::steady_clock::now(); while(in<W){ sched_yield(); if(std::chrono::steady_clock::now()-t0>std::chrono::seconds(30)){late=true;break;} } return i; }));
      for(int i=0;i<W;i++) c.check("pool/wrong-value",f[i].get()==i,""); if(late) break; } }
  c.check("pool/parallelism",!late,fmt("%d tasks never ran together on %d workers",W,W)); c.count("meetings"); c.nontrivial(fmt("%d/%d",W,(int)(c.idx%40)));
}
VH_GROUP("pool-shutdown",400,3000){   // a running task keeps submitting while the pool is destroyed: it must be refused, everything accepted must run
  vh::Rng& r=c.rng; int W=r.in(1,6),K=r.in(1,3); c.desc(fmt("%d workers, %d submitting tasks during destruction",W,K)); std::atomic<int> ran{0},accepted{0},refusedN{0},started{0}; std::atomic<bool> stuck{false},wrong{false}; std::vector<std::vector<std::future<int>>> in(K);
  { Calm calm(r.pick(std::vector<int>{0,20,70}),r.u64()); ThreadPool p(W); int gap=r.in(0,100);
    for(int k=0;k<K;k++) p.enqueue([&,k]{ started++; auto t0=std::chrono::steady_clock::now(); for(;;){ try{ in[k].push_back(p.enqueue([&ran]{return ++ran;})); accepted++; usleep(30); }catch(const std::runtime_error&){ refusedN++; break; }catch(...){ wrong=true; break; } if(std::chrono::steady_clock::now()-t0>std::chrono::seconds(20)){stuck=true;break;} } });
    while(started==0) sched_yield(); usleep(gap); }
  c.check("pool/shutdown-refusal",!stuck&&!wrong&&refusedN==K,fmt("%d of %d submitters were refused",refusedN.load(),K)); c.check("pool/shutdown-complete",ran==accepted,fmt("%d accepted, %d ran",accepted.load(),ran.load()));
  for(auto& v:in) for(auto& f:v) c.check("pool/not-delivered",f.wait_for(std::chrono::seconds(0))==std::future_status::ready&&f.get()>0,""); c.count("shutdown-refusals",refusedN); c.nontrivial(fmt("%d %d %d",W,K,accepted.load()));
}
VH_GROUP("pool-idle",60,1000){ vh::Rng& r=c.rng; int W=r.in(1,16); c.desc(fmt("%d idle workers",W)); Calm calm(r.pick(std::vector<int>{0,50}),r.u64()); int64_t b=vh::open_fds(); { ThreadPool p(W); if(r.coin()) usleep(r.in(0,300)); if(r.coin()){ p.enqueue([]{}).get(); usleep(r.in(0,200)); p.enqueue([]{}).get(); } } c.check("pool/fds",vh::open_fds()==b,""); c.count("idle-pools"); c.nontrivial(fmt("%d %d",W,(int)c.idx)); }
