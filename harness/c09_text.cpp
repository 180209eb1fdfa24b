// C09: text tables. Files are generated with all the freedoms of the format and compared with an independent reading of what was written.
#define VH_HEAP
#include "vh.h"
#include <fstream>
#include "nuSQuIDS/tools.h"
using vh::Ctx; using vh::fmt; using namespace nusquids;
static std::string num(vh::Rng& r,double& v){ switch(r.in(0,6)){ case 0:{int i=r.in(-1000,1000); v=i; return fmt("%d",i);} case 1:{v=r.uni(-1,1); std::string s=fmt("%.6f",v); v=strtod(s.c_str(),0); return s;} case 2:{v=r.uni(-1,1)*r.logu(1e-200,1e200); std::string s=fmt("%.17g",v); v=strtod(s.c_str(),0); return s;} case 3:{v=r.logu(1e-5,1e5); std::string s=fmt("+%.3E",v); v=strtod(s.c_str(),0); return s;} case 4:{std::string s=r.coin()?"0":r.coin()?"-0.0":"0e5"; v=strtod(s.c_str(),0); return s;} case 5:{int i=r.in(0,99); v=i; return fmt("%d.",i);} default:{int i=r.in(1,999); std::string s=fmt(".%03d",i); v=strtod(s.c_str(),0); return s;} } }
static std::string sep(vh::Rng& r){ std::string s; int n=r.in(1,3); for(int i=0;i<n;i++) s+=r.coin(.3)?'\t':' '; return s; }
static std::string junk(vh::Rng& r){ switch(r.in(0,5)){case 0:return "";case 1:return "   ";case 2:return "\t";case 3:return r.coin(.02)?"# "+std::string(r.in(100,70000),r.coin()?'7':' ')+" 1":"# 1 2 3";case 4:return "  #comment 4.5";default:return "#";} }
VH_GROUP("read",4000,100000){
  vh::Rng& r=c.rng; int rows=r.coin(.05)?0:r.in(1,r.coin(.05)?400:12),cols=r.in(1,8); bool wide=r.coin(.02),tall=c.idx%500==7; if(wide) cols=r.in(200,r.coin(.2)?9000:1500); if(tall){ rows=r.in(66000,70000); cols=r.in(1,2); } std::vector<std::vector<double>> t; std::string s; int noise=0; double pj=tall?.001:r.pick(std::vector<double>{0,.2,.7}); std::string eol=r.coin(.1)?"\r\n":"\n"; auto maybe=[&]{ while(r.coin(pj*.6)){ s+=junk(r)+eol; noise++; } };
  for(int i=0;i<rows;i++){ maybe(); std::vector<double> row; if(r.coin(.3)) s+=sep(r); for(int j=0;j<cols;j++){ double v; if(j) s+=sep(r); s+=num(r,v); row.push_back(v); } if(r.coin(.3)) s+=sep(r); if(r.coin(.1)) s+=r.coin(.02)?" #"+std::string(r.in(4000,9000),' ')+"7":" # note 7"; t.push_back(row); if(i<rows-1) s+=eol; }
  if(rows&&r.coin(.7)) s+=eol; if(s.empty()||s.back()=='\n'){ maybe(); if(r.coin(.3)&&!s.empty()) s+=junk(r); }
  std::string f=c.tmp+"/t.dat"; { std::ofstream o(f,std::ios::binary); o<<s; } c.desc(fmt("%d rows %d columns, %d ignorable lines",rows,cols,noise)); int fd=vh::open_fds();
  marray<double,2> a=quickread(f); bool ok=a.extent(0)==(size_t)rows&&(rows==0?a.size()==0:a.extent(1)==(size_t)cols); c.check("text/shape",ok,fmt("read %zux%zu instead of %dx%d",a.extent(0),a.extent(1),rows,cols)); if(ok) for(int i=0;i<rows;i++)for(int j=0;j<cols;j++) c.check("text/value",a[i][j]==t[i][j]&&std::signbit(a[i][j])==std::signbit(t[i][j]),fmt("[%d][%d] %.17g instead of %.17g",i,j,a[i][j],t[i][j]));
  c.check("text/fds",vh::open_fds()==fd,"a file stays open"); c.check("text/exists",fexists(f)&&!fexists(f+".no")&&access((f+".no").c_str(),F_OK)!=0,""); c.count("files"); if(wide) c.count("wide-files"); if(tall) c.count("tall-files"); if(s.size()>65536) c.count("files-beyond-64k"); c.count("ignorable-lines",noise); if(rows) c.nontrivial(s); if(rows&&noise) c.sample(s.substr(0,120));
}
VH_GROUP("ragged",1500,30000){
  vh::Rng& r=c.rng; int rows=r.in(2,20),cols=r.coin(.02)?r.in(200,2000):r.in(1,7),bad=r.in(0,rows-1),d=r.coin()&&cols>1?-1:1; std::string s; for(int i=0;i<rows;i++){ while(r.coin(.2)) s+=junk(r)+"\n"; int n=cols+(i==bad?d*(r.coin(.8)?1:std::min(2,d<0?cols-1:2)):0); for(int j=0;j<n;j++){ double v; s+=(j?sep(r):std::string())+num(r,v); } s+="\n"; while(r.coin(.15)) s+=junk(r)+"\n"; }
  std::string f=c.tmp+"/r.dat"; { std::ofstream o(f); o<<s; } c.desc(fmt("row %d of %d differs by %d from %d columns",bad,rows,d,cols)); int fd=vh::open_fds(); c.check("text/ragged",vh::throws([&]{quickread(f);})==1,"rows of different length accepted"); c.check("text/fds",vh::open_fds()==fd,"a file stays open"); c.check("text/missing",vh::throws([&]{quickread(f+".none");})==1&&vh::throws([&]{quickread(c.tmp+"/no/such/dir/x");})==1,"a file which cannot be opened"); c.count("ragged"); c.nontrivial(s);
}
VH_GROUP("roundtrip",2500,60000){
  vh::Rng& r=c.rng; size_t n=r.in(1,r.coin(.05)?300:10),m=r.coin(.02)?r.in(200,2000):r.in(1,9); marray<double,2> a{n,m}; for(auto& v:a) v=r.coin(.1)?0:r.coin(.2)?(double)r.in(-50,50):r.coin(.3)?r.uni(-1,1)*r.logu(1e-290,1e290):r.uni(-1,1); std::string f=c.tmp+"/w.dat"; if(r.coin(.4)){ std::ofstream o(f); for(int i=0;i<2000;i++) o<<"9 "; } c.desc(fmt("%zux%zu",n,m)); int fd=vh::open_fds();
  quickwrite(f,a); marray<double,2> b=quickread(f); bool ok=b.extent(0)==n&&b.extent(1)==m; c.check("text/roundtrip-shape",ok,fmt("%zux%zu became %zux%zu",n,m,b.extent(0),b.extent(1))); if(ok) for(size_t i=0;i<n;i++)for(size_t j=0;j<m;j++) c.near("text/roundtrip",b[i][j],a[i][j],6e-15,0,"");
  quickwrite(f,b); marray<double,2> d=quickread(f); if(ok) c.check("text/roundtrip-stable",d.size()==b.size()&&std::equal(d.begin(),d.end(),b.begin()),"a second round trip changes values"); c.check("text/unwritable",vh::throws([&]{quickwrite(c.tmp+"/no/such/dir/x",a);})==1,""); c.check("text/fds",vh::open_fds()==fd,""); c.count("roundtrips"); c.nontrivial(fmt("%zu %zu %g",n,m,a[0][0]));
}
