// Independent long double implementation of Akima derivative estimates and cubic Hermite patches (C08, C15, C18).
#ifndef AKIMA_ORACLE_H
#define AKIMA_ORACLE_H
#include <algorithm>
#include <cmath>
#include <vector>
typedef long double LD; typedef std::vector<LD> V; typedef std::vector<double> D;
// Akima one-sided derivative estimates. 'firm' tells where the weights are well determined (not a ratio of rounding errors).
struct Aki{ V x,y,m; std::vector<LD> right,left; std::vector<char> firm; LD scale=0;
  Aki(const V& X,const V& Y,bool exact):x(X),y(Y){ int n=x.size(); V s(n+3); auto at=[&](int i)->LD&{return s[i+2];}; for(int i=0;i<n-1;i++) at(i)=(y[i+1]-y[i])/(x[i+1]-x[i]);
    at(-1)=2*at(0)-at(1); at(-2)=3*at(0)-2*at(1); at(n-1)=2*at(n-2)-at(n-3); at(n)=3*at(n-2)-2*at(n-3);
    right.resize(n); left.resize(n); firm.assign(n,1); LD big=0; for(auto v:s) big=std::max(big,fabsl(v)); scale=big;
    for(int i=0;i<n;i++){ LD L=fabsl(at(i-2)-at(i-1)),N=L+(i<n? fabsl(at(i)-(i+1<=n?at(i+1):0)):0); 
      if(N<=(exact?0:1e-6L*big)){ firm[i]=exact||false; right[i]=i<n-1?at(i):at(n-2); left[i]=i?at(i-1):at(0); if(!exact&&N==0) {} }
      else { LD a=L/N; right[i]=left[i]=(1-a)*at(i-1)+a*at(i); } }
    m=V(s.begin()+2,s.begin()+2+n-1); }
};
[[maybe_unused]] static LD hermite(LD t,LD h,LD y0,LD y1,LD d0,LD d1){ LD t2=t*t,t3=t2*t; return y0*(1-3*t2+2*t3)+y1*(3*t2-2*t3)+h*d0*(t-2*t2+t3)+h*d1*(t3-t2); }
[[maybe_unused]] static LD hermiteD(LD t,LD h,LD y0,LD y1,LD d0,LD d1){ LD t2=t*t; return (y0*(-6*t+6*t2)+y1*(6*t-6*t2))/h+d0*(1-4*t+3*t2)+d1*(3*t2-2*t); }
[[maybe_unused]] static int cell(const D& x,double q){ int i=(int)(std::upper_bound(x.begin(),x.end(),q)-x.begin())-1; return std::max(0,std::min(i,(int)x.size()-2)); }
#endif
