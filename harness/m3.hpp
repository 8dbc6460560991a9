// independent small linear algebra for oracles (long double, row-major 3x3)
#pragma once
#include <array>
#include <cmath>
#include <vector>
namespace m3 {
using L=long double;
using V=std::array<L,3>; using M=std::array<L,9>;
inline M mul(const M&a,const M&b){ M c{}; for(int i=0;i<3;++i)for(int j=0;j<3;++j)for(int k=0;k<3;++k)c[3*i+j]+=a[3*i+k]*b[3*k+j]; return c; }
inline V mul(const M&a,const V&v){ V c{}; for(int i=0;i<3;++i)for(int k=0;k<3;++k)c[i]+=a[3*i+k]*v[k]; return c; }
inline M tr(const M&a){ return {a[0],a[3],a[6],a[1],a[4],a[7],a[2],a[5],a[8]}; }
inline L det(const M&a){ return a[0]*(a[4]*a[8]-a[5]*a[7])-a[1]*(a[3]*a[8]-a[5]*a[6])+a[2]*(a[3]*a[7]-a[4]*a[6]); }
inline M inv(const M&a){ L d=det(a); return {(a[4]*a[8]-a[5]*a[7])/d,(a[2]*a[7]-a[1]*a[8])/d,(a[1]*a[5]-a[2]*a[4])/d,(a[5]*a[6]-a[3]*a[8])/d,(a[0]*a[8]-a[2]*a[6])/d,(a[2]*a[3]-a[0]*a[5])/d,(a[3]*a[7]-a[4]*a[6])/d,(a[1]*a[6]-a[0]*a[7])/d,(a[0]*a[4]-a[1]*a[3])/d}; }
inline L dot(const V&a,const V&b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
inline L norm(const V&a){ return std::sqrt(dot(a,a)); }
inline V cross(const V&a,const V&b){ return {a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]}; }
inline V add(const V&a,const V&b){ return {a[0]+b[0],a[1]+b[1],a[2]+b[2]}; }
inline V sub(const V&a,const V&b){ return {a[0]-b[0],a[1]-b[1],a[2]-b[2]}; }
inline V sc(const V&a,L s){ return {a[0]*s,a[1]*s,a[2]*s}; }
inline M sc(const M&a,L s){ M c=a; for(auto&x:c)x*=s; return c; }
inline M eye(){ return {1,0,0,0,1,0,0,0,1}; }
template<class T> M mat(const std::array<T,9>&a){ M c; for(int i=0;i<9;++i)c[i]=(L)a[i]; return c; }
template<class T> V vec(const std::array<T,3>&a){ return {(L)a[0],(L)a[1],(L)a[2]}; }
inline std::array<double,9> d(const M&a){ std::array<double,9> c; for(int i=0;i<9;++i)c[i]=(double)a[i]; return c; }
inline std::array<double,3> d(const V&a){ return {(double)a[0],(double)a[1],(double)a[2]}; }
inline L maxdiff(const M&a,const M&b){ L m=0; for(int i=0;i<9;++i){ L q=std::abs(a[i]-b[i]); if(!(q<=m)) m=q; } return m; }
inline L maxdiff(const V&a,const V&b){ L m=0; for(int i=0;i<3;++i){ L q=std::abs(a[i]-b[i]); if(!(q<=m)) m=q; } return m; }
inline L maxabs(const M&a){ L m=0; for(auto x:a)m=std::max(m,std::abs(x)); return m; }
inline L maxabs(const V&a){ L m=0; for(auto x:a)m=std::max(m,std::abs(x)); return m; }
static const L PI=3.14159265358979323846264338327950288L;
// metric (gram matrix of basis vectors) of a cell given lengths and angles [rad]
inline M metric(const V&l,const V&a){ L ca=std::cos(a[0]),cb=std::cos(a[1]),cg=std::cos(a[2]); return {l[0]*l[0],l[0]*l[1]*cg,l[0]*l[2]*cb,l[0]*l[1]*cg,l[1]*l[1],l[1]*l[2]*ca,l[0]*l[2]*cb,l[1]*l[2]*ca,l[2]*l[2]}; }
inline void cell(const M&g,V&l,V&a){ for(int i=0;i<3;++i)l[i]=std::sqrt(g[4*i]); a={std::acos(g[5]/l[1]/l[2]),std::acos(g[2]/l[0]/l[2]),std::acos(g[1]/l[0]/l[1])}; }
// column-vector basis matrix with a||x, b in xy plane, for a metric
inline M basis(const M&g){ // cholesky: g = B^T B, B upper triangular
  L a=std::sqrt(g[0]),b0=g[1]/a,c0=g[2]/a,b1=std::sqrt(g[4]-b0*b0),c1=(g[5]-b0*c0)/b1,c2=std::sqrt(g[8]-c0*c0-c1*c1);
  return {a,b0,c0,0,b1,c1,0,0,c2}; }
// rotation from axis angle
inline M rot(V ax,L th){ L n=norm(ax); for(auto&x:ax)x/=n; L c=std::cos(th),s=std::sin(th),t=1-c; return {t*ax[0]*ax[0]+c,t*ax[0]*ax[1]-s*ax[2],t*ax[0]*ax[2]+s*ax[1],t*ax[0]*ax[1]+s*ax[2],t*ax[1]*ax[1]+c,t*ax[1]*ax[2]-s*ax[0],t*ax[0]*ax[2]-s*ax[1],t*ax[1]*ax[2]+s*ax[0],t*ax[2]*ax[2]+c}; }
}
