// Stand-in for SQuIDS' physical constants and mixing parameters. See DESIGN.md.
#ifndef SQUIDS_CONST_H
#define SQUIDS_CONST_H
#include <cmath>
#include <memory>
#include <stdexcept>
#include <gsl/gsl_matrix.h>
#include <gsl/gsl_complex.h>
#include <gsl/gsl_complex_math.h>
#include <gsl/gsl_blas.h>
#ifndef SQUIDS_MAX_HILBERT_DIM
#define SQUIDS_MAX_HILBERT_DIM 6
#endif
namespace squids{
class Const{
  double th[SQUIDS_MAX_HILBERT_DIM][SQUIDS_MAX_HILBERT_DIM];
  double dcp[SQUIDS_MAX_HILBERT_DIM][SQUIDS_MAX_HILBERT_DIM];
  double de[SQUIDS_MAX_HILBERT_DIM];
  static void chk(unsigned i,unsigned j){
    if(j<=i) throw std::runtime_error("Const: state indices must be ordered and unequal");
    if(j>=SQUIDS_MAX_HILBERT_DIM) throw std::runtime_error("Const: state index out of range");
  }
public:
  double pi=3.14159265358979, piby2=1.57079632679490;
  double sqrt2=1.41421356237310, ln2=0.693147180559945;
  double earthradius=6371.0, sunradius=109.0*6371.0;
  double GF=1.16639e-23, Na=6.0221415e+23, sw_sq=0.2312, G=6.67300e-11, alpha=7.2973525376e-03;
  double e_charge=0.0917012, Zboson_mass=91.1876e9, Wboson_mass=80.398e9;
  double PeV=1.0e15, TeV=1.0e12, GeV=1.0e9, MeV=1.0e6, keV=1.0e3, eV=1.0, Joule=1/1.60225e-19;
  double kg=5.62e35, gr=1e-3*5.62e35;
  double meter=5.06773093741e6, cm=1e-2*5.06773093741e6, km=1e3*5.06773093741e6, fermi=1e-15*5.06773093741e6,
    angstrom=1e-10*5.06773093741e6, AU=149.60e9*5.06773093741e6, ly=9.4605284e15*5.06773093741e6, parsec=3.08568025e16*5.06773093741e6;
  double picobarn=1e-36*5.06773093741e4*5.06773093741e4, femtobarn=1e-39*5.06773093741e4*5.06773093741e4;
  double Pascal=5.0, atm=101325*5.0, Kelvin=1/1.1604505e4, degree=3.14159265358979/180.0;
  double psi=6.89475e3*5.0, C=0.303/1.60217e-19, A=0.303/1.60217e-19/1.523e15, T=195.35;
  double sec=1.523e15, hour=3600.*1.523e15, day=24*3600.*1.523e15, year=365*24*3600.*1.523e15;
  double proton_mass=938.272e6, neutron_mass=939.565e6, electron_mass=0.510998910e6, muon_mass=105.658367e6,
    muon_lifetime=2.196e-6*1.523e15, tau_mass=1776.82e6, tau_lifetime=2.906e-13*1.523e15;
  Const(){
    for(auto& r:th) for(double& v:r) v=0;
    for(auto& r:dcp) for(double& v:r) v=0;
    for(double& v:de) v=0;
    th[0][1]=0.563942; th[0][2]=0.154085; th[1][2]=0.785398;
    de[1]=7.65e-5; de[2]=2.47e-3;
  }
  void SetMixingAngle(unsigned i,unsigned j,double v){chk(i,j);th[i][j]=v;}
  double GetMixingAngle(unsigned i,unsigned j) const{chk(i,j);return th[i][j];}
  void SetPhase(unsigned i,unsigned j,double v){chk(i,j);dcp[i][j]=v;}
  double GetPhase(unsigned i,unsigned j) const{chk(i,j);return dcp[i][j];}
  void SetEnergyDifference(unsigned i,double v){
    if(i==0||i>=SQUIDS_MAX_HILBERT_DIM) throw std::runtime_error("Const: upper state index out of range");
    de[i]=v;}
  double GetEnergyDifference(unsigned i) const{
    if(i==0||i>=SQUIDS_MAX_HILBERT_DIM) throw std::runtime_error("Const: upper state index out of range");
    return de[i];}
  // U = ... R(1,2) R(0,2) R(0,1):  nu_alpha = sum_i U_ai nu_i
  std::unique_ptr<gsl_matrix_complex,void (*)(gsl_matrix_complex*)> GetTransformationMatrix(size_t dim) const{
    gsl_matrix_complex* U=gsl_matrix_complex_alloc(dim,dim);
    gsl_matrix_complex* R=gsl_matrix_complex_alloc(dim,dim);
    gsl_matrix_complex* T=gsl_matrix_complex_alloc(dim,dim);
    gsl_matrix_complex_set_identity(U);
    for(size_t j=1;j<dim;j++) for(size_t i=0;i<j;i++){
      gsl_matrix_complex_set_identity(R);
      double c=std::cos(th[i][j]), s=std::sin(th[i][j]);
      gsl_complex e=gsl_complex_polar(s,-dcp[i][j]);
      gsl_matrix_complex_set(R,i,i,gsl_complex_rect(c,0));
      gsl_matrix_complex_set(R,j,j,gsl_complex_rect(c,0));
      gsl_matrix_complex_set(R,i,j,e);
      gsl_matrix_complex_set(R,j,i,gsl_complex_negative(gsl_complex_conjugate(e)));
      gsl_blas_zgemm(CblasNoTrans,CblasNoTrans,gsl_complex_rect(1,0),R,U,gsl_complex_rect(0,0),T);
      gsl_matrix_complex_memcpy(U,T);
    }
    gsl_matrix_complex_free(R); gsl_matrix_complex_free(T);
    return std::unique_ptr<gsl_matrix_complex,void (*)(gsl_matrix_complex*)>(U,gsl_matrix_complex_free);
  }
};
}
#endif
