// Stand-in for SQuIDS' ensemble solver: density matrices in the interaction picture integrated with GSL. See DESIGN.md.
#ifndef SQUIDS_SQUIDS_H
#define SQUIDS_SQUIDS_H
#include <cmath>
#include <limits>
#include <memory>
#include <vector>
#include <stdexcept>
#include <iostream>
#include <gsl/gsl_odeiv2.h>
#include <gsl/gsl_errno.h>
#include "SUNalg.h"
namespace squids{
struct SU_state{ std::unique_ptr<SU_vector[]> rho; double* scalar=nullptr; };
class SQuIDS{
  bool CoherentRho=false,NonCoherentRho=false,OtherRho=false,GammaSc=false,OtherSc=false,AnyNum=false;
  bool is_init=false, adaptive=true;
  double t=0,t_ini=0;
  double h,h_min,h_max,abs_err=1e-20,rel_err=1e-20;
  unsigned nsteps=1000;
  std::vector<double> x;
  const gsl_odeiv2_step_type* step=gsl_odeiv2_step_rkf45;
  std::unique_ptr<double[]> system;
  unsigned size_state=0; size_t numeqn=0;
  double* dstore=nullptr;
protected:
  unsigned nx=0,nsun=0,nrhos=0,nscalars=0;
  std::unique_ptr<SU_state[]> state,estate,dstate;
public:
  Const params;
protected:
  void upd(){AnyNum=CoherentRho||NonCoherentRho||OtherRho||GammaSc||OtherSc;}
  void point(std::unique_ptr<SU_state[]>& s,double* p);
  static int rhs(double t,const double* y,double* f,void* self);
  void derive(double at);
public:
  SQuIDS();
  SQuIDS(unsigned nx,unsigned dim,unsigned nrho,unsigned nscalar,double ti=0):SQuIDS(){ini(nx,dim,nrho,nscalar,ti);}
  SQuIDS(const SQuIDS&)=delete;
  SQuIDS(SQuIDS&&);
  SQuIDS& operator=(SQuIDS&&);
  virtual ~SQuIDS();
  void ini(unsigned nx,unsigned dim,unsigned nrho,unsigned nscalar,double ti=0);
  void Set_xrange(double a,double b,const std::string& scale);
  void Set_xrange(const std::vector<double>& xs);
  double Get_x(unsigned i) const{return x.at(i);}
  std::vector<double> GetXRange() const{return x;}
  unsigned Get_i(double xv) const;
  double Get_t() const{return t;}
  double Get_t_initial() const{return t_ini;}
  void Set_t(double v){t=v;}
  void Set_h(double v){h=v;} double Get_h() const{return h;}
  void Set_h_min(double v){h_min=v;} double Get_h_min() const{return h_min;}
  void Set_h_max(double v){h_max=v; if(h>v) h=v/2;} double Get_h_max() const{return h_max;}
  void Set_rel_error(double v){rel_err=v;} void Set_abs_error(double v){abs_err=v;}
  double Get_rel_error() const{return rel_err;} double Get_abs_error() const{return abs_err;}
  void Set_NumSteps(unsigned n){nsteps=n;} void Set_AdaptiveStep(bool b){adaptive=b;}
  void Set_CoherentRhoTerms(bool b){CoherentRho=b;upd();}
  void Set_NonCoherentRhoTerms(bool b){NonCoherentRho=b;upd();}
  void Set_OtherRhoTerms(bool b){OtherRho=b;upd();}
  void Set_GammaScalarTerms(bool b){GammaSc=b;upd();}
  void Set_OtherScalarTerms(bool b){OtherSc=b;upd();}
  void Set_AnyNumerics(bool b){AnyNum=b;}
  void Set_GSL_step(const gsl_odeiv2_step_type* s){step=s;}
  virtual SU_vector H0(double,unsigned) const{return SU_vector(nsun);}
  virtual SU_vector HI(unsigned,unsigned,double) const{return SU_vector(nsun);}
  virtual SU_vector GammaRho(unsigned,unsigned,double) const{return SU_vector(nsun);}
  virtual SU_vector InteractionsRho(unsigned,unsigned,double) const{return SU_vector(nsun);}
  virtual double GammaScalar(unsigned,unsigned,double) const{return 0;}
  virtual double InteractionsScalar(unsigned,unsigned,double) const{return 0;}
  virtual void PreDerive(double){}
  void Evolve(double dt);
  double GetExpectationValue(const SU_vector& op,unsigned irho,unsigned ix) const;
  double GetExpectationValue(const SU_vector& op,unsigned irho,unsigned ix,double scale,std::vector<bool>& avr) const;
  double GetExpectationValueD(const SU_vector& op,unsigned irho,double x) const;
  double GetExpectationValueD(const SU_vector& op,unsigned irho,double x,double scale,std::vector<bool>& avr) const;
  SU_vector GetIntermediateState(unsigned irho,double x) const;
};
}
#endif
