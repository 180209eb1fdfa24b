// Independent bicubic and tricubic interpolation (long double) with Akima estimates of the derivatives.
#ifndef CUBIC_H
#define CUBIC_H
#include "akima.h"
inline V LV(const D& d){ return V(d.begin(),d.end()); }
struct Grid{ D x,y,z; std::vector<double> f; int nx,ny,nz; double at(int k,int j,int i)const{return f[((size_t)k*ny+j)*nx+i];} };
struct Oracle{ const Grid& g; bool firm=true; std::vector<V> t; // f,fx,fy,fz,fxy,fxz,fyz,fxyz
  size_t id(int k,int j,int i)const{return ((size_t)k*g.ny+j)*g.nx+i;}
  V diff(const V& f,int ax){ V o(f.size()); const D& X=ax==0?g.x:ax==1?g.y:g.z; int n=X.size(),na=ax==0?g.ny:g.nx,nb=ax==2?g.ny:g.nz; for(int a=0;a<na;a++) for(int b=0;b<nb;b++){ auto I=[&](int m){return ax==0?id(b,a,m):ax==1?id(b,m,a):id(m,b,a);}; V s; for(int m=0;m<n;m++) s.push_back(f[I(m)]); bool zero=true; for(auto v:s) if(v!=s[0]) zero=false; Aki A(LV(X),s,false); for(int m=0;m<n;m++){ if(zero) o[I(m)]=0; else { o[I(m)]=m<n-1?A.right[m]:A.left[m]; if(!A.firm[m]) firm=false; } } } return o; }
  Oracle(const Grid& G):g(G){ V f=LV(g.f); V fx=diff(f,0),fy=diff(f,1); V fxy=diff(fy,0); t={f,fx,fy}; if(g.nz==1){ t={f,fx,fy,V(),fxy}; } else { V fz=diff(f,2); V fxz=diff(fz,0),fyz=diff(fz,1); V fxyz=diff(fyz,0); t={f,fx,fy,fz,fxy,fxz,fyz,fxyz}; } }
  static void basis(LD t,LD h,LD w[2][2]){ LD t2=t*t,t3=t2*t; w[0][0]=1-3*t2+2*t3; w[1][0]=3*t2-2*t3; w[0][1]=h*(t-2*t2+t3); w[1][1]=h*(t3-t2); }
  LD eval(double x,double y,double z,LD* mag)const{ int i=cell(g.x,x),j=cell(g.y,y),k=g.nz>1?cell(g.z,z):0; LD wx[2][2],wy[2][2],wz[2][2]={{1,0},{0,0}}; basis(((LD)x-g.x[i])/((LD)g.x[i+1]-g.x[i]),(LD)g.x[i+1]-g.x[i],wx); basis(((LD)y-g.y[j])/((LD)g.y[j+1]-g.y[j]),(LD)g.y[j+1]-g.y[j],wy); if(g.nz>1) basis(((LD)z-g.z[k])/((LD)g.z[k+1]-g.z[k]),(LD)g.z[k+1]-g.z[k],wz);
    LD hx=(LD)g.x[i+1]-g.x[i],hy=(LD)g.y[j+1]-g.y[j],hz=g.nz>1?(LD)g.z[k+1]-g.z[k]:1; static const int which[2][2][2]={{{0,3},{2,6}},{{1,5},{4,7}}}; LD s=0,m=0;
    for(int a=0;a<2;a++)for(int b=0;b<2;b++)for(int d=0;d<(g.nz>1?2:1);d++) for(int p=0;p<2;p++)for(int q=0;q<2;q++)for(int o=0;o<(g.nz>1?2:1);o++){ LD v=t[which[p][q][o]][id(k+d,j+b,i+a)]; s+=wx[a][p]*wy[b][q]*wz[d][o]*v; m=std::max(m,fabsl(v)*(p?hx:1)*(q?hy:1)*(o?hz:1)); }
    *mag=m; return s; } };
#endif
