// Stand-in for the SQuIDS library (see DESIGN.md): eigensystem exponentials and the GSL-driven solver.
#include <SQuIDS/SQuIDS.h>
#include <gsl/gsl_eigen.h>
#include <algorithm>
namespace squids{
SU_vector SU_vector::UTransform(const SU_vector& v,gsl_complex s) const{
  need(v); unsigned n=dim_; SU_vector out(n);
  if(std::abs(GSL_REAL(s))>0) throw std::runtime_error("SU_vector::UTransform stand-in: only imaginary scale supported");
  double tt=GSL_IMAG(s);
  gsl_matrix_complex* H=gsl_matrix_complex_alloc(n,n); gsl_matrix_complex* V=gsl_matrix_complex_alloc(n,n); gsl_vector* e=gsl_vector_alloc(n);
  double scale=0; for(unsigned i=0;i<size_;i++) scale=std::max(scale,std::abs(v.c[i]));
  if(scale==0) scale=1;
  for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++){C z=v.get(i,j)/scale;gsl_matrix_complex_set(H,i,j,gsl_complex_rect(z.real(),z.imag()));}
  gsl_eigen_hermv_workspace* w=gsl_eigen_hermv_alloc(n); gsl_eigen_hermv(H,e,V,w); gsl_eigen_hermv_free(w);
  C u[36],m[36],t1[36],r[36]; C vv[36]; tomat(m);
  for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++){gsl_complex z=gsl_matrix_complex_get(V,i,j);vv[i*n+j]=C(GSL_REAL(z),GSL_IMAG(z));}
  for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++){C a=0;for(unsigned k=0;k<n;k++) a+=vv[i*n+k]*std::polar(1.,-gsl_vector_get(e,k)*scale*tt)*std::conj(vv[j*n+k]);u[i*n+j]=a;}
  for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++){C a=0;for(unsigned k=0;k<n;k++) a+=u[i*n+k]*m[k*n+j];t1[i*n+j]=a;}
  for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++){C a=0;for(unsigned k=0;k<n;k++) a+=t1[i*n+k]*std::conj(u[j*n+k]);r[i*n+j]=a;}
  out.frommat(r);
  gsl_matrix_complex_free(H);gsl_matrix_complex_free(V);gsl_vector_free(e);
  return out;
}
SQuIDS::SQuIDS():h(std::numeric_limits<double>::epsilon()),h_min(std::numeric_limits<double>::min()),h_max(std::numeric_limits<double>::max()){}
SQuIDS::~SQuIDS(){}
SQuIDS::SQuIDS(SQuIDS&& o):SQuIDS(){ *this=std::move(o); }
SQuIDS& SQuIDS::operator=(SQuIDS&& o){
  if(this==&o) return *this;
  CoherentRho=o.CoherentRho;NonCoherentRho=o.NonCoherentRho;OtherRho=o.OtherRho;GammaSc=o.GammaSc;OtherSc=o.OtherSc;AnyNum=o.AnyNum;
  is_init=o.is_init;adaptive=o.adaptive;t=o.t;t_ini=o.t_ini;h=o.h;h_min=o.h_min;h_max=o.h_max;abs_err=o.abs_err;rel_err=o.rel_err;nsteps=o.nsteps;
  x=std::move(o.x);step=o.step;system=std::move(o.system);size_state=o.size_state;numeqn=o.numeqn;dstore=nullptr;
  nx=o.nx;nsun=o.nsun;nrhos=o.nrhos;nscalars=o.nscalars;state=std::move(o.state);estate=std::move(o.estate);dstate=std::move(o.dstate);params=o.params;
  o.is_init=false;
  return *this;
}
void SQuIDS::point(std::unique_ptr<SU_state[]>& s,double* p){
  for(unsigned i=0;i<nx;i++){
    for(unsigned r=0;r<nrhos;r++) s[i].rho[r].SetBackingStore(p+i*size_state+r*nsun*nsun);
    s[i].scalar=p+i*size_state+nrhos*nsun*nsun;
  }
}
void SQuIDS::ini(unsigned n,unsigned dim,unsigned nrho,unsigned nscalar,double ti){
  if(dim<1||dim>SQUIDS_MAX_HILBERT_DIM) throw std::runtime_error("SQuIDS::ini: unsupported dimension");
  nx=n;nsun=dim;nrhos=nrho;nscalars=nscalar;t=t_ini=ti;
  size_state=nrhos*nsun*nsun+nscalars; numeqn=(size_t)size_state*nx;
  system.reset(new double[numeqn]); std::fill(system.get(),system.get()+numeqn,0.);
  x.assign(nx,0.);
  for(auto* s:{&state,&estate,&dstate}){
    s->reset(new SU_state[nx]);
    for(unsigned i=0;i<nx;i++){ (*s)[i].rho.reset(new SU_vector[nrhos]);
      for(unsigned r=0;r<nrhos;r++) (*s)[i].rho[r]=SU_vector(nsun,system.get()+i*size_state+r*nsun*nsun); }
  }
  // rebuild as views (assignment into an owning vector copies)
  for(auto* s:{&state,&estate,&dstate}) point(*s,system.get());
  is_init=true;
}
void SQuIDS::Set_xrange(const std::vector<double>& xs){
  if(xs.size()!=nx) throw std::runtime_error("SQuIDS::Set_xrange: wrong number of nodes");
  if(!std::is_sorted(xs.begin(),xs.end())) throw std::runtime_error("SQuIDS::Set_xrange: nodes must be sorted");
  x=xs;
}
void SQuIDS::Set_xrange(double a,double b,const std::string& sc){
  for(unsigned i=0;i<nx;i++){double f=nx>1?double(i)/(nx-1):0; x[i]= sc=="log"? std::exp(std::log(a)+f*(std::log(b)-std::log(a))) : a+f*(b-a);}
}
unsigned SQuIDS::Get_i(double xv) const{
  auto it=std::lower_bound(x.begin(),x.end(),xv);
  if(it==x.end()) throw std::runtime_error("SQuIDS::Get_i: value out of bounds");
  if(it!=x.begin() && std::abs(*(it-1)-xv)<std::abs(*it-xv)) --it;
  return it-x.begin();
}
int SQuIDS::rhs(double tt,const double* y,double* f,void* p){
  SQuIDS* s=static_cast<SQuIDS*>(p);
  s->point(s->estate,const_cast<double*>(y)); s->point(s->dstate,f);
  s->derive(tt);
  return GSL_SUCCESS;
}
void SQuIDS::derive(double at){
  t=at;
  PreDerive(at);
  typedef SU_vector::C C;
  const unsigned n=nsun;
  for(unsigned ix=0;ix<nx;ix++){
    for(unsigned r=0;r<nrhos;r++){
      C rho[36],d[36]; estate[ix].rho[r].tomat(rho); std::fill(d,d+n*n,C(0));
      if(CoherentRho){ C H[36]; HI(ix,r,at).tomat(H);
        for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++){C a=0;for(unsigned k=0;k<n;k++) a+=H[i*n+k]*rho[k*n+j]-rho[i*n+k]*H[k*n+j]; d[i*n+j]+=C(0,-1)*a;} }
      if(NonCoherentRho){ C G[36]; GammaRho(ix,r,at).tomat(G);
        for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++){C a=0;for(unsigned k=0;k<n;k++) a+=G[i*n+k]*rho[k*n+j]+rho[i*n+k]*G[k*n+j]; d[i*n+j]-=a;} }
      dstate[ix].rho[r].frommat(d);
      if(OtherRho) dstate[ix].rho[r]+=InteractionsRho(ix,r,at);
    }
    for(unsigned k=0;k<nscalars;k++){ double v=0;
      if(GammaSc) v-=estate[ix].scalar[k]*GammaScalar(ix,k,at);
      if(OtherSc) v+=InteractionsScalar(ix,k,at);
      dstate[ix].scalar[k]=v; }
  }
}
void SQuIDS::Evolve(double dt){
  if(!is_init) throw std::runtime_error("SQuIDS::Evolve: not initialized");
  if(AnyNum){
    gsl_odeiv2_system sys={&SQuIDS::rhs,nullptr,numeqn,this};
    gsl_odeiv2_driver* d=gsl_odeiv2_driver_alloc_y_new(&sys,step,h,abs_err,rel_err);
    if(!d) throw std::runtime_error("SQuIDS::Evolve: could not allocate the integrator");
    struct Guard{gsl_odeiv2_driver* d;~Guard(){gsl_odeiv2_driver_free(d);}} g{d};
    gsl_odeiv2_driver_set_hmin(d,h_min); gsl_odeiv2_driver_set_hmax(d,h_max); gsl_odeiv2_driver_set_nmax(d,0);
    double at=t, target=t+dt; int st;
    struct Restore{SQuIDS* s;~Restore(){s->point(s->estate,s->system.get());s->point(s->dstate,s->system.get());}} rr{this};
    if(adaptive) st=gsl_odeiv2_driver_apply(d,&at,target,system.get());
    else st=gsl_odeiv2_driver_apply_fixed_step(d,&at,dt/nsteps,nsteps,system.get());
    t=at;
    if(st!=GSL_SUCCESS) throw std::runtime_error(std::string("SQuIDS::Evolve: GSL error: ")+gsl_strerror(st));
  } else { t+=dt; }
  point(estate,system.get());
  PreDerive(t);
}
double SQuIDS::GetExpectationValue(const SU_vector& op,unsigned r,unsigned ix) const{
  return state[ix].rho[r]*op.Evolve(H0(x[ix],r),t-t_ini);
}
double SQuIDS::GetExpectationValue(const SU_vector& op,unsigned r,unsigned ix,double scale,std::vector<bool>& avr) const{
  double b[3*15+1]; SU_vector h0=H0(x[ix],r); h0.PrepareEvolve(b,t-t_ini,scale,avr);
  return state[ix].rho[r]*op.Evolve(b);
}
SU_vector SQuIDS::GetIntermediateState(unsigned r,double xi) const{
  if(x.empty()||xi<x.front()||xi>x.back()) throw std::runtime_error("SQuIDS::GetIntermediateState: x value not in the array");
  size_t hi=std::upper_bound(x.begin(),x.end(),xi)-x.begin();
  if(hi==x.size()) return state[hi-1].rho[r];
  size_t lo=hi-1; double f=(xi-x[lo])/(x[hi]-x[lo]);
  return state[lo].rho[r]*(1-f)+state[hi].rho[r]*f;
}
double SQuIDS::GetExpectationValueD(const SU_vector& op,unsigned r,double xi) const{
  return GetIntermediateState(r,xi)*op.Evolve(H0(xi,r),t-t_ini);
}
double SQuIDS::GetExpectationValueD(const SU_vector& op,unsigned r,double xi,double scale,std::vector<bool>& avr) const{
  double b[3*15+1]; SU_vector h0=H0(xi,r); h0.PrepareEvolve(b,t-t_ini,scale,avr);
  return GetIntermediateState(r,xi)*op.Evolve(b);
}
}
