// C14: where data files are looked for. The installed variant of the program is made the way 'make install' makes it: by
// rewriting the flag inside the binary.
#include "vh.h"
#include <fstream>
#include <memory>
#include <sys/wait.h>
#include "nuSQuIDS/resources.h"
#include "nuSQuIDS/tools.h"
#include "nuSQuIDS/body.h"
#include "resource_paths.h"
using vh::Ctx; using vh::fmt; using namespace nusquids;
static bool early=[]{ if(getenv("VH_PRINT_PATH")){ std::string a=getResourcePath(),b=getResourcePath(); if(a!=b) _exit(3); FILE* o=fopen(getenv("VH_PRINT_PATH"),"w"); fwrite(a.data(),1,a.size(),o); fclose(o); _exit(0);} return true; }();
static std::string slurp(const std::string& f){ std::ifstream i(f,std::ios::binary); return std::string(std::istreambuf_iterator<char>(i),std::istreambuf_iterator<char>()); }
static std::string ask(Ctx& c,const std::string& exe,const char* env){ std::string out=c.tmp+"/answer"; unlink(out.c_str()); pid_t p=fork(); if(!p){ if(env) setenv("NUSQUIDS_DATA_PATH",env,1); else unsetenv("NUSQUIDS_DATA_PATH"); setenv("VH_PRINT_PATH",out.c_str(),1); execl(exe.c_str(),exe.c_str(),(char*)0); _exit(9);} int st=0; waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)!=0) return "<exit "+std::to_string(st)+">"; return slurp(out); }
static std::string randpath(vh::Rng& r){ std::string s=r.coin(.8)?"/":""; int n=r.in(0,30); for(int i=0;i<n;i++) s+=r.coin(.2)?'/':(char)(r.coin(.1)?' ':r.in('a','z')); if(r.coin(.3)) s+="/"; if(r.coin(.05)) s=std::string(r.in(1000,6000),'p'); return s; }
VH_GROUP_SERIAL("installed",6,20){
  vh::Rng& r=c.rng; std::string exe=c.tmp+"/prog",b=slurp("/proc/self/exe"); const std::string A="NUSQUIDS_DATA_PATH_INSTALL_FLAG_PREFIX_A_NUSQUIDS_DATA_PATH_INSTALL_FLAG_SUFFIX",B="NUSQUIDS_DATA_PATH_INSTALL_FLAG_PREFIX_B_NUSQUIDS_DATA_PATH_INSTALL_FLAG_SUFFIX"; std::string self=b; size_t k=0,n=0; while((k=b.find(A,k))!=std::string::npos){ b[k+A.find("PREFIX_A")+7]='B'; n++; k++; } (void)B;
  if(!n){ fprintf(stderr,"harness: install flag not found\n"); exit(2);} { std::ofstream o(exe,std::ios::binary); o<<b; } chmod(exe.c_str(),0755); std::string src=SOURCE_DATA_PATH,ins=INSTALL_DATA_PATH; std::string e=randpath(r); c.desc("installed and not, environment "+e.substr(0,60));
  std::string me="/proc/self/exe"; char buf[4096]; ssize_t l=readlink("/proc/self/exe",buf,4095); me=std::string(buf,l>0?l:0);
  c.check("path/installed",ask(c,exe,nullptr)==ins,"installed program without override looks in "+ask(c,exe,nullptr)); c.check("path/source",ask(c,me,nullptr)==src,"uninstalled program without override looks in "+ask(c,me,nullptr)); c.check("path/override-installed",ask(c,exe,e.c_str())==e,"override ignored when installed"); c.check("path/override",ask(c,me,e.c_str())==e,"override ignored"); unlink(exe.c_str()); c.count("programs",4); c.nontrivial(e+"i");
}
VH_GROUP("history",400,8000){
  vh::Rng& r=c.rng; std::string src=SOURCE_DATA_PATH; std::string log; int n=r.in(2,12); std::string keep; bool set=false; unsetenv("NUSQUIDS_DATA_PATH"); std::vector<std::string> old; std::vector<std::string> want;
  for(int i=0;i<n;i++){ if(r.coin(.3)){ unsetenv("NUSQUIDS_DATA_PATH"); set=false; log+="unset;"; } else if(r.coin(.7)){ keep=r.coin(.1)?src:randpath(r); setenv("NUSQUIDS_DATA_PATH",keep.c_str(),1); set=true; log+=keep.substr(0,10)+";"; } c.desc(log); std::string want1=set?keep:src; std::string got=getResourcePath(); c.check("path/history",got==want1,"got "+got.substr(0,80)+" instead of "+want1.substr(0,80)); old.push_back(got); want.push_back(want1); for(size_t k=0;k<old.size();k++) c.check("path/stable",old[k]==want[k],"an earlier answer changed"); }
  unsetenv("NUSQUIDS_DATA_PATH"); c.count("lookups",n); c.nontrivial(log);
}
VH_GROUP("bodies",60,600){   // default bodies take their tables from there
  vh::Rng& r=c.rng; std::string d=c.tmp+"/data"+std::to_string(c.idx); mkdir(d.c_str(),0755); mkdir((d+"/astro").c_str(),0755); int n=r.in(5,15); marray<double,2> prem{(size_t)n,3}; double k=r.uni(.5,3); for(int i=0;i<n;i++){ prem[i][0]=i/(double)(n-1); prem[i][1]=k*(13-10.*i/(n-1)); prem[i][2]=.45+.01*i/(double)n; } quickwrite(d+"/astro/EARTH_MODEL_PREM.dat",prem);
  std::string env=d+(r.coin()?"/":""); c.desc("tables under "+env); setenv("NUSQUIDS_DATA_PATH",env.c_str(),1); Earth e; Earth f(d+"/astro/EARTH_MODEL_PREM.dat"); EarthAtm a,b(d+"/astro/EARTH_MODEL_PREM.dat"); double base=r.uni(1e3,12e3)*5.06773e9; Earth::Track t(base); for(int i=0;i<5;i++){ t.SetX(base*r.unit()); c.check("path/body-table",e.density(t)==f.density(t)&&e.ye(t)==f.ye(t)&&e.density(t)>.9*k*3,"Earth does not use the tables of the data directory"); } EarthAtm::Track ta=b.MakeTrack(2.5),tb=a.MakeTrack(2.5); for(int i=0;i<5;i++){ double u=r.unit()*ta.GetFinalX(); ta.SetX(u); tb.SetX(u); c.check("path/body-table",a.density(tb)==b.density(ta)&&a.ye(tb)==b.ye(ta),"EarthAtm does not use the tables of the data directory"); }
  setenv("NUSQUIDS_DATA_PATH",(d+"/none").c_str(),1); c.check("path/no-table",vh::throws([]{Earth x;})==1&&vh::throws([]{EarthAtm x;})==1&&vh::throws([]{Sun x;})==1&&vh::throws([]{SunASnu x;})==1,"a body without its table was built"); unsetenv("NUSQUIDS_DATA_PATH"); unlink((d+"/astro/EARTH_MODEL_PREM.dat").c_str()); rmdir((d+"/astro").c_str()); rmdir(d.c_str()); c.count("bodies"); c.nontrivial(env+fmt("%d%g",n,k));
}
