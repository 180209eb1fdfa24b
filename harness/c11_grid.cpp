// C11 and C12: grids and matrix helpers.
#define VH_HEAP
#include "vh.h"
#include <complex>
#include <gsl/gsl_complex_math.h>
#include "nuSQuIDS/tools.h"
using vh::Ctx; using vh::fmt; using namespace nusquids; static const double EPS=std::numeric_limits<double>::epsilon();
#ifdef GRIDS
static unsigned count(vh::Rng& r,bool th){ if(r.coin(.004)) return r.in(65000,200000); switch(r.in(0,5)){case 0:return 1;case 1:return 2;case 2:return 3;case 3:return r.in(4,20);case 4:return r.in(20,500);default:return r.in(500,th?100000:5000);} }
VH_GROUP("linspace",3000,40000){
  vh::Rng& r=c.rng; unsigned n=count(r,c.thorough); double a,b; switch(r.in(0,4)){case 0:a=r.uni(-10,10);b=a+r.logu(1e-3,1e3);break;case 1:a=r.logu(1e-20,1e20);b=a*r.logu(1.01,1e6);break;case 2:a=0;b=r.logu(1e-12,1e12);break;case 3:b=0;a=-r.logu(1e-12,1e12);break;default:a=r.uni(-1e9,1e9);b=a+r.logu(1,1e10);} if(r.coin(.15)) std::swap(a,b); if(r.coin(.03)) b=a; c.desc(fmt("linspace(%.17g,%.17g,%u)",a,b,n));
  int64_t bl=vh::blocks(); { marray<double,1> g=linspace(a,b,n); if(c.check("grid/size",g.extent(0)==n&&g.size()==n,fmt("%zu points",g.size()))){ c.check("grid/last",g[n-1]==b,fmt("ends at %.17g",g[n-1])); if(n>1) c.check("grid/first",g[0]==a,fmt("starts at %.17g",g[0]));
    long double st=n>1?((long double)b-a)/(n-1):0; double M=std::max(std::fabs(a),std::fabs(b)),tol=(n+2)*EPS*M; for(unsigned i=0;i<n&&n>1;i++) if(!c.near("grid/linear",g[i],(double)(a+st*i),0,tol,fmt("point %u",i))) break; if(std::fabs((double)st)>4*tol) for(unsigned i=1;i<n;i++) if(!c.check("grid/monotonic",b>a?g[i]>g[i-1]:g[i]<g[i-1],fmt("point %u",i))) break; } }
  c.check("grid/heap",vh::blocks()==bl,""); c.check("grid/zero",vh::throws([&]{linspace(a,b,0);})==1,"a grid of no points"); c.count("linear-grids"); if(n>65536) c.count("grids-beyond-64k"); if(n>2) c.nontrivial(vh::S().desc); c.sample(vh::S().desc);
}
VH_GROUP("logspace",3000,40000){
  vh::Rng& r=c.rng; unsigned n=count(r,c.thorough); double a=r.logu(1e-30,1e30),b=a*r.logu(1.01,1e15); if(r.coin(.15)) std::swap(a,b); if(r.coin(.03)) b=a; c.desc(fmt("logspace(%.17g,%.17g,%u)",a,b,n)); marray<double,1> g=logspace(a,b,n);
  if(c.check("grid/size",g.extent(0)==n,fmt("%zu points",g.size()))){ c.check("grid/last",g[n-1]==b,fmt("ends at %.17g",g[n-1])); if(n>1) c.check("grid/first",g[0]==a,fmt("starts at %.17g",g[0])); long double la=logl(a),lb=logl(b),st=n>1?(lb-la)/(n-1):0; double M=std::max(fabsl(la),fabsl(lb)),tol=(n+4)*EPS*(M+1); for(unsigned i=0;i<n&&n>1;i++) if(!c.near("grid/logarithmic",g[i],(double)expl(la+st*i),tol,0,fmt("point %u",i))) break; if(std::fabs((double)st)>4*tol) for(unsigned i=1;i<n;i++) if(!c.check("grid/monotonic",b>a?g[i]>g[i-1]:g[i]<g[i-1],fmt("point %u",i))) break; for(auto v:g) if(!c.check("grid/finite",std::isfinite(v)&&v>0,"")) break; }
  c.check("grid/zero",vh::throws([&]{logspace(a,b,0);})==1,"a grid of no points"); c.count("logarithmic-grids"); if(n>65536) c.count("grids-beyond-64k"); if(n>2) c.nontrivial(vh::S().desc);
}
#else
typedef std::complex<double> C; typedef std::complex<long double> CL; typedef std::vector<std::vector<CL>> M;
struct Mat{ gsl_matrix_complex* big; gsl_matrix_complex_view v; size_t n,m; int off; std::vector<C> all; bool view;   // possibly a window into a larger matrix
  Mat(vh::Rng& r,size_t n,size_t m,bool view):n(n),m(m),view(view){ off=view?r.in(0,2):0; big=gsl_matrix_complex_alloc(n+(view?3:0),m+(view?3:0)); for(size_t i=0;i<big->size1;i++)for(size_t j=0;j<big->size2;j++) gsl_matrix_complex_set(big,i,j,gsl_complex_rect(r.uni(-1,1),r.uni(-1,1))); v=gsl_matrix_complex_submatrix(big,off,off,n,m); }
  ~Mat(){ gsl_matrix_complex_free(big); } gsl_matrix_complex* p(){ return view?&v.matrix:big; }
  CL at(size_t i,size_t j){ gsl_complex z=gsl_matrix_complex_get(p(),i,j); return CL(GSL_REAL(z),GSL_IMAG(z)); } void set(size_t i,size_t j,CL z){ gsl_matrix_complex_set(p(),i,j,gsl_complex_rect((double)z.real(),(double)z.imag())); }
  M get(){ M r(n,std::vector<CL>(m)); for(size_t i=0;i<n;i++)for(size_t j=0;j<m;j++) r[i][j]=at(i,j); return r; }
  std::vector<double> outside(){ std::vector<double> r; for(size_t i=0;i<big->size1;i++)for(size_t j=0;j<big->size2;j++) if(i<(size_t)off||j<(size_t)off||i>=off+n||j>=off+m){ gsl_complex z=gsl_matrix_complex_get(big,i,j); r.push_back(GSL_REAL(z)); r.push_back(GSL_IMAG(z)); } return r; } };
static M unitary(vh::Rng& r,size_t n){ M q(n,std::vector<CL>(n)); for(auto& row:q){ for(auto& x:row) x=CL(r.gauss(),r.gauss()); } for(size_t i=0;i<n;i++){ for(int rep=0;rep<2;rep++) for(size_t k=0;k<i;k++){ CL d=0; for(size_t j=0;j<n;j++) d+=std::conj(q[k][j])*q[i][j]; for(size_t j=0;j<n;j++) q[i][j]-=d*q[k][j]; } long double s=0; for(auto x:q[i]) s+=std::norm(x); for(auto& x:q[i]) x/=std::sqrt(s); } return q; }
static M mul(const M& a,const M& b){ size_t n=a.size(); M r(n,std::vector<CL>(n)); for(size_t i=0;i<n;i++)for(size_t j=0;j<n;j++)for(size_t k=0;k<n;k++) r[i][j]+=a[i][k]*b[k][j]; return r; }
static M dag(const M& a){ size_t n=a.size(); M r(n,std::vector<CL>(n)); for(size_t i=0;i<n;i++)for(size_t j=0;j<n;j++) r[i][j]=std::conj(a[j][i]); return r; }
static void cmp(Ctx& c,const char* key,const M& a,const M& b,long double scale,const std::string& w){ long double d=0; for(size_t i=0;i<a.size();i++)for(size_t j=0;j<a[i].size();j++){ long double e=std::abs(a[i][j]-b[i][j]); if(!(e<=d)) d=e; } c.check(key,d<=scale*1e-13L,w+fmt(" differs by %Lg",d)); }
VH_GROUP("basis",3000,60000){
  vh::Rng& r=c.rng; size_t n=r.in(1,r.coin(.1)?20:7); Mat U(r,n,n,r.coin(.4)),A(r,n,n,r.coin(.4)); bool unit=r.coin(.6),herm=r.coin(.5); if(unit){ M q=unitary(r,n); for(size_t i=0;i<n;i++)for(size_t j=0;j<n;j++)U.set(i,j,q[i][j]); } if(herm) for(size_t i=0;i<n;i++)for(size_t j=0;j<=i;j++){ CL z=i==j?CL(A.at(i,i).real(),0):A.at(i,j); A.set(i,j,z); A.set(j,i,std::conj(z)); } if(!herm&&r.coin(.1)) for(size_t j=0;j<n;j++) A.set(0,j,0);
  M u=U.get(),a=A.get(); auto uo=U.outside(),ao=A.outside(); bool fwd=r.coin(); c.desc(fmt("%zux%zu %s %s %s",n,n,fwd?"U M U+":"U+ M U",unit?"unitary":"general",herm?"hermitian":"general")); int64_t b0=vh::blocks(); if(fwd) gsl_matrix_complex_change_basis_UMUC(U.p(),A.p()); else gsl_matrix_complex_change_basis_UCMU(U.p(),A.p()); c.check("matrix/heap",vh::blocks()==b0,fmt("%d blocks remain",(int)(vh::blocks()-b0)));
  M want=fwd?mul(mul(u,a),dag(u)):mul(mul(dag(u),a),u); M got=A.get(); long double sc=1+(unit?1:n*n)*(long double)n; cmp(c,"matrix/product",got,want,sc,vh::S().desc); cmp(c,"matrix/transformation-changed",U.get(),u,0,"the transformation"); c.check("matrix/outside",U.outside()==uo&&A.outside()==ao,"elements outside the matrix changed");
  if(unit){ CL ta=0,tb=0; for(size_t i=0;i<n;i++){ta+=a[i][i];tb+=got[i][i];} c.check("matrix/trace",std::abs(ta-tb)<1e-12L*n,""); if(herm) cmp(c,"matrix/hermitian",got,dag(got),sc,""); if(!fwd) gsl_matrix_complex_change_basis_UMUC(U.p(),A.p()); else gsl_matrix_complex_change_basis_UCMU(U.p(),A.p()); cmp(c,"matrix/inverse",A.get(),a,sc*2,"the inverse change"); }
  c.count("basis-changes"); if(n>1) c.nontrivial(vh::S().desc+fmt("%Lg",a[0][n-1].real())); c.sample(vh::S().desc);
}
VH_GROUP("conjugate",1200,20000){ vh::Rng& r=c.rng; size_t n=r.in(1,9),m=r.coin(.6)?n:r.in(1,9); Mat A(r,n,m,r.coin(.5)); if(r.coin(.2)) A.set(0,m-1,CL(INFINITY,r.coin()?-INFINITY:-0.0)); M a=A.get(); auto o=A.outside(); c.desc(fmt("conjugate %zux%zu",n,m)); int64_t b0=vh::blocks(); gsl_matrix_complex_conjugate(A.p()); c.check("matrix/heap",vh::blocks()==b0,""); for(size_t i=0;i<n;i++)for(size_t j=0;j<m;j++){ CL z=A.at(i,j); c.check("matrix/conjugate",z.real()==a[i][j].real()&&z.imag()==-a[i][j].imag(),fmt("[%zu][%zu]",i,j)); } c.check("matrix/outside",A.outside()==o,""); gsl_matrix_complex_conjugate(A.p()); for(size_t i=0;i<n;i++)for(size_t j=0;j<m;j++) c.check("matrix/conjugate-twice",A.at(i,j)==a[i][j],""); c.count("conjugates"); c.nontrivial(fmt("%zu %zu %d",n,m,(int)(c.idx%50))); }
#endif
