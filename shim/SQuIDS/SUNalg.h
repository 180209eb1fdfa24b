// Stand-in for SQuIDS' Hermitian-operator algebra: n x n Hermitian matrices stored as n^2 reals
// (diagonal, then real and imaginary parts of the upper triangle). See DESIGN.md.
#ifndef SQUIDS_SUNALG_H
#define SQUIDS_SUNALG_H
#include <cassert>
#include <cmath>
#include <algorithm>
#include <functional>
#include <string>
#include <complex>
#include <cstdint>
#include <cstdlib>
#include <iosfwd>
#include <ostream>
#include <vector>
#include <new>
#include <atomic>
#include <memory>
#include <utility>
#include <gsl/gsl_eigen.h>
#include "const.h"
#include "version.h"
#define SQUIDS_THREAD_LOCAL thread_local
namespace squids{
namespace monitor{
  // Every alignment promise the library makes about a buffer is recorded here.
  inline std::atomic<unsigned long>& promises(){static std::atomic<unsigned long> v{0};return v;}
  inline std::atomic<unsigned long>& broken(){static std::atomic<unsigned long> v{0};return v;}
  inline void aligned(const void* p,size_t a){
    promises().fetch_add(1,std::memory_order_relaxed);
    if(((uintptr_t)p)%a) broken().fetch_add(1,std::memory_order_relaxed);
  }
}
#define SQUIDS_POINTER_IS_ALIGNED(ptr,alignment) ::squids::monitor::aligned((const void*)(ptr),(alignment))
namespace detail{
  enum{NoAlias=1,EqualSizes=2,AlignedStorage=4};
  template<unsigned F,typename T> T&& guarantee(T&& t){return static_cast<T&&>(t);}
}
class SU_vector{
  unsigned dim_,size_; double* c; bool own;
  void grab(unsigned n){
    dim_=n; size_=n*n; own=true; c=nullptr;
    if(size_){ void* p=nullptr; if(posix_memalign(&p,32,(size_*sizeof(double)+31)/32*32)) throw std::bad_alloc(); c=(double*)p;
      for(unsigned i=0;i<size_;i++) c[i]=0; }
  }
  void drop(){ if(own) free(c); c=nullptr; size_=dim_=0; own=true; }
  static unsigned lim(unsigned n){ if(n>SQUIDS_MAX_HILBERT_DIM) throw std::runtime_error("SU_vector: dimension too large"); return n; }
public:
  typedef std::complex<double> C;
  SU_vector():dim_(0),size_(0),c(nullptr),own(true){}
  explicit SU_vector(unsigned n){grab(lim(n));}
  SU_vector(unsigned n,double* ext):dim_(lim(n)),size_(n*n),c(ext),own(false){}
  explicit SU_vector(const std::vector<double>& v){ unsigned n=0; while(n*n<v.size()) n++;
    if(n*n!=v.size()) throw std::runtime_error("SU_vector: bad size"); grab(lim(n)); for(unsigned i=0;i<size_;i++) c[i]=v[i]; }
  SU_vector(const SU_vector& o){grab(o.dim_); for(unsigned i=0;i<size_;i++) c[i]=o.c[i];}
  SU_vector(SU_vector&& o):dim_(o.dim_),size_(o.size_),c(o.c),own(o.own){ if(own){o.c=nullptr;o.dim_=o.size_=0;} }
  ~SU_vector(){ if(own) free(c); }
  SU_vector& operator=(const SU_vector& o){
    if(this==&o) return *this;
    if(size_!=o.size_){
      if(!own) throw std::runtime_error("Non-matching dimensions in assignment to SU_vector with external storage");
      double* old=c; grab(o.dim_); free(old);
    }
    for(unsigned i=0;i<size_;i++) c[i]=o.c[i];
    return *this;
  }
  SU_vector& operator=(SU_vector&& o){
    if(this==&o) return *this;
    if(own && o.own){ std::swap(dim_,o.dim_); std::swap(size_,o.size_); std::swap(c,o.c); return *this; }
    if(size_==0){ // uninitialised: become whatever the other is (a view stays a view)
      dim_=o.dim_;size_=o.size_;c=o.c;own=o.own; if(o.own){o.c=nullptr;o.dim_=o.size_=0;} return *this; }
    return *this=static_cast<const SU_vector&>(o);
  }
  unsigned Dim() const{return dim_;}
  unsigned Size() const{return size_;}
  double& operator[](int i){return c[i];}
  const double& operator[](int i) const{return c[i];}
  void SetAllComponents(double v){for(unsigned i=0;i<size_;i++) c[i]=v;}
  std::vector<double> GetComponents() const{return std::vector<double>(c,c+size_);}
  void SetBackingStore(double* p){ if(own) free(c); c=p; own=false; }
  bool operator==(const SU_vector& o) const{ if(size_!=o.size_) return false; for(unsigned i=0;i<size_;i++) if(c[i]!=o.c[i]) return false; return true; }
  // element access as a matrix
  static unsigned off(unsigned n,unsigned i,unsigned j){return n+(i*(2*n-i-1)/2+(j-i-1))*2;} // i<j
  C get(unsigned i,unsigned j) const{
    if(i==j) return C(c[i],0);
    if(i<j){unsigned k=off(dim_,i,j);return C(c[k],c[k+1]);}
    unsigned k=off(dim_,j,i);return C(c[k],-c[k+1]);
  }
  void set(unsigned i,unsigned j,C v){ // i<=j
    if(i==j) c[i]=v.real(); else {unsigned k=off(dim_,i,j);c[k]=v.real();c[k+1]=v.imag();}
  }
  void tomat(C* m) const{for(unsigned i=0;i<dim_;i++) for(unsigned j=0;j<dim_;j++) m[i*dim_+j]=get(i,j);}
  void frommat(const C* m){for(unsigned i=0;i<dim_;i++) for(unsigned j=i;j<dim_;j++) set(i,j,m[i*dim_+j]);}
  static SU_vector Projector(unsigned n,unsigned i){ if(i>=n) throw std::runtime_error("SU_vector::Projector: invalid index"); SU_vector v(n); v.c[i]=1; return v;}
  static SU_vector Identity(unsigned n){SU_vector v(n);for(unsigned i=0;i<n;i++) v.c[i]=1;return v;}
  // U^dagger P U
  void RotateToB1(const Const& p){
    auto U=p.GetTransformationMatrix(dim_);
    unsigned n=dim_; C m[36],u[36],t[36],r[36]; tomat(m);
    for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++){gsl_complex z=gsl_matrix_complex_get(U.get(),i,j);u[i*n+j]=C(GSL_REAL(z),GSL_IMAG(z));}
    for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++){C s=0;for(unsigned k=0;k<n;k++) s+=m[i*n+k]*u[k*n+j];t[i*n+j]=s;}
    for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++){C s=0;for(unsigned k=0;k<n;k++) s+=std::conj(u[k*n+i])*t[k*n+j];r[i*n+j]=s;}
    frommat(r);
  }
  void RotateToB0(const Const& p){
    auto U=p.GetTransformationMatrix(dim_);
    unsigned n=dim_; C m[36],u[36],t[36],r[36]; tomat(m);
    for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++){gsl_complex z=gsl_matrix_complex_get(U.get(),i,j);u[i*n+j]=C(GSL_REAL(z),GSL_IMAG(z));}
    for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++){C s=0;for(unsigned k=0;k<n;k++) s+=m[i*n+k]*std::conj(u[j*n+k]);t[i*n+j]=s;}
    for(unsigned i=0;i<n;i++) for(unsigned j=0;j<n;j++){C s=0;for(unsigned k=0;k<n;k++) s+=u[i*n+k]*t[k*n+j];r[i*n+j]=s;}
    frommat(r);
  }
  std::pair<std::unique_ptr<gsl_vector,void (*)(gsl_vector*)>,std::unique_ptr<gsl_matrix_complex,void (*)(gsl_matrix_complex*)>> GetEigenSystem(bool order=true) const{
    std::unique_ptr<gsl_vector,void (*)(gsl_vector*)> v(gsl_vector_alloc(dim_),gsl_vector_free);
    std::unique_ptr<gsl_matrix_complex,void (*)(gsl_matrix_complex*)> m(gsl_matrix_complex_alloc(dim_,dim_),gsl_matrix_complex_free);
    gsl_matrix_complex* a=gsl_matrix_complex_alloc(dim_,dim_); gsl_eigen_hermv_workspace* w=gsl_eigen_hermv_alloc(dim_);
    for(unsigned i=0;i<dim_;i++) for(unsigned j=0;j<dim_;j++){ C z=get(i,j); gsl_matrix_complex_set(a,i,j,gsl_complex_rect(z.real(),z.imag())); }
    gsl_eigen_hermv(a,v.get(),m.get(),w); gsl_eigen_hermv_free(w); gsl_matrix_complex_free(a);
    if(order) gsl_eigen_hermv_sort(v.get(),m.get(),GSL_EIGEN_SORT_ABS_ASC);
    return std::make_pair(std::move(v),std::move(m)); }
  // ---- evolution by a diagonal operator: buffer holds (cos,sin,frequency*t,frequency) per pair i<j
  size_t GetEvolveBufferSize() const{return 3*dim_*(dim_-1)/2+1;}
  void PrepareEvolve(double* b,double t) const{
    unsigned k=0; for(unsigned i=0;i<dim_;i++) for(unsigned j=i+1;j<dim_;j++){
      double w=c[i]-c[j]; b[k++]=cos(w*t); b[k++]=sin(w*t); b[k++]=w; }
  }
  void PrepareEvolve(double* b,double t,double scale,std::vector<bool>& avr) const{
    unsigned k=0; for(unsigned i=0;i<dim_;i++) for(unsigned j=i+1;j<dim_;j++){
      double w=c[i]-c[j];
      if(std::abs(w*t)>scale){ b[k++]=0;b[k++]=0; if(j<avr.size()) avr[j]=true; }
      else { b[k++]=cos(w*t); b[k++]=sin(w*t); if(j<avr.size()) avr[j]=false; }
      b[k++]=w; }
  }
  void LowPassFilter(double* b,double cutoff,double scale) const{
    unsigned k=0; for(unsigned i=0;i<dim_;i++) for(unsigned j=i+1;j<dim_;j++,k+=3){
      double w=std::abs(b[k+2]);
      double f= w>=cutoff ? 0. : (scale<=0||w<=cutoff-scale ? 1. : (cutoff-w)/scale);
      b[k]*=f; b[k+1]*=f; }
  }
  SU_vector Evolve(const double* b) const{
    SU_vector r(*this); unsigned k=0;
    for(unsigned i=0;i<dim_;i++) for(unsigned j=i+1;j<dim_;j++,k+=3){
      C z=get(i,j)*C(b[k],b[k+1]); r.set(i,j,z);} // e^{iHt} A e^{-iHt}
    return r;
  }
  SU_vector Evolve(const SU_vector& H,double t) const{
    double b[3*15+1]; H.PrepareEvolve(b,t); return Evolve(b);
  }
  // e^{-s v} this e^{s v} for anti-Hermitian s v (s imaginary): this -> e^{-i t v} this e^{i t v}
  SU_vector UTransform(const SU_vector& v,gsl_complex s) const;
  SU_vector& operator+=(const SU_vector& o){need(o);for(unsigned i=0;i<size_;i++) c[i]+=o.c[i];return *this;}
  SU_vector& operator-=(const SU_vector& o){need(o);for(unsigned i=0;i<size_;i++) c[i]-=o.c[i];return *this;}
  SU_vector& operator*=(double x){for(unsigned i=0;i<size_;i++) c[i]*=x;return *this;}
  SU_vector& operator/=(double x){for(unsigned i=0;i<size_;i++) c[i]/=x;return *this;}
  // ---- the remaining operations, which only the Python bindings name
  SU_vector Rotate(unsigned i,unsigned j,double th,double del) const{ // W^dagger A W, W the rotation by th in the i,j plane
    if(i>=dim_||j>=dim_||i==j) throw std::runtime_error("SU_vector::Rotate: invalid indices");
    unsigned n=dim_; C m[36],t[36],r[36],w[36]; tomat(m);
    for(unsigned a=0;a<n;a++) for(unsigned b=0;b<n;b++) w[a*n+b]= a==b;
    w[i*n+i]=w[j*n+j]=std::cos(th); w[i*n+j]=std::sin(th)*std::polar(1.,-del); w[j*n+i]=-std::sin(th)*std::polar(1.,del);
    for(unsigned a=0;a<n;a++) for(unsigned b=0;b<n;b++){C s=0;for(unsigned k=0;k<n;k++) s+=m[a*n+k]*w[k*n+b];t[a*n+b]=s;}
    for(unsigned a=0;a<n;a++) for(unsigned b=0;b<n;b++){C s=0;for(unsigned k=0;k<n;k++) s+=std::conj(w[k*n+a])*t[k*n+b];r[a*n+b]=s;}
    SU_vector o(n); o.frommat(r); return o;
  }
  void WeightedRotation(const Const& a,const SU_vector& y,const Const& b){
    need(y); RotateToB1(a); for(unsigned i=0;i<size_;i++) c[i]*=y.c[i]; RotateToB0(b);
  }
  SU_vector Real() const{SU_vector r(*this); for(unsigned k=dim_+1;k<size_;k+=2) r.c[k]=0; return r;}
  SU_vector Imag() const{SU_vector r(dim_); for(unsigned k=dim_+1;k<size_;k+=2) r.c[k]=c[k]; return r;}
  SU_vector Transpose() const{SU_vector r(*this); for(unsigned k=dim_+1;k<size_;k+=2) r.c[k]=-c[k]; return r;}
  static SU_vector PosProjector(unsigned n,unsigned k){SU_vector v(n);for(unsigned i=0;i<k&&i<n;i++) v.c[i]=1;return v;}
  static SU_vector NegProjector(unsigned n,unsigned k){SU_vector v(n);for(unsigned i=n-std::min(k,n);i<n;i++) v.c[i]=1;return v;}
  static SU_vector Generator(unsigned n,unsigned k){SU_vector v(n); if(k>=v.size_) throw std::runtime_error("SU_vector::Generator: invalid component"); v.c[k]=1; return v;}
  SU_vector operator+(const SU_vector& o) const{SU_vector r(*this);r+=o;return r;}
  SU_vector operator-(const SU_vector& o) const{SU_vector r(*this);r-=o;return r;}
  SU_vector operator-() const{SU_vector r(*this);r*=-1;return r;}
  SU_vector operator*(double x) const{SU_vector r(*this);r*=x;return r;}
  double operator*(const SU_vector& o) const{ // Tr(A B)
    need(o); double s=0; for(unsigned i=0;i<dim_;i++) s+=c[i]*o.c[i];
    double q=0; for(unsigned i=dim_;i<size_;i++) q+=c[i]*o.c[i];
    return s+2*q; }
  void need(const SU_vector& o) const{ if(o.size_!=size_) throw std::runtime_error("Non-matching dimensions in SU_vector operation"); }
  friend std::ostream& operator<<(std::ostream& os,const SU_vector& v){for(unsigned i=0;i<v.size_;i++) os<<v.c[i]<<"  ";return os;}
};
inline SU_vector operator*(double x,const SU_vector& v){return v*x;}
namespace detail{ // arithmetic yields vectors here, never unevaluated expressions; the names exist for the bindings
  template<int K> struct Expr{ SU_vector v; operator SU_vector() const{return v;} };
  typedef Expr<0> AdditionProxy; typedef Expr<1> SubtractionProxy; typedef Expr<2> NegationProxy; typedef Expr<3> EvolutionProxy;
  typedef Expr<4> MultiplicationProxy; typedef Expr<5> iCommutatorProxy; typedef Expr<6> ACommutatorProxy;
}
template<unsigned F=0> double SUTrace(const SU_vector& a,const SU_vector& b){return a*b;}
}
#endif
