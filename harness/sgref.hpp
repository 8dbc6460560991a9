// exact reference for crystallographic groups: integer matrices, translations in 1/120 of a lattice vector
#pragma once
#include <array>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cmath>
#include "spgtable.hpp"
namespace sg {
static const int D=120;
using W9=std::array<int,9>; using T3=std::array<int,3>;
inline int md(int x){ x%=D; return x<0?x+D:x; }
struct Op { W9 W{1,0,0,0,1,0,0,0,1}; T3 t{0,0,0}; bool operator<(const Op&o) const { return W!=o.W?W<o.W:t<o.t; } bool operator==(const Op&o) const { return W==o.W&&t==o.t; } bool operator!=(const Op&o) const { return !(*this==o); } };
inline W9 mul(const W9&a,const W9&b){ W9 c{}; for(int i=0;i<3;++i)for(int j=0;j<3;++j)for(int k=0;k<3;++k)c[3*i+j]+=a[3*i+k]*b[3*k+j]; return c; }
template<class X> std::array<X,3> mulv(const W9&a,const std::array<X,3>&b){ std::array<X,3> c{}; for(int i=0;i<3;++i)for(int k=0;k<3;++k)c[i]+=a[3*i+k]*b[k]; return c; }
template<class X> std::array<X,3> vmul(const std::array<X,3>&b,const W9&a){ std::array<X,3> c{}; for(int i=0;i<3;++i)for(int k=0;k<3;++k)c[i]+=b[k]*a[3*k+i]; return c; }
inline int det(const W9&m){ return m[0]*(m[4]*m[8]-m[5]*m[7])-m[1]*(m[3]*m[8]-m[5]*m[6])+m[2]*(m[3]*m[7]-m[4]*m[6]); }
inline int trace(const W9&m){ return m[0]+m[4]+m[8]; }
inline W9 neg(W9 m){ for(auto&x:m)x=-x; return m; }
inline W9 one(){ return {1,0,0,0,1,0,0,0,1}; }
inline W9 inv(const W9&a){ int d=det(a); W9 c={a[4]*a[8]-a[5]*a[7],a[2]*a[7]-a[1]*a[8],a[1]*a[5]-a[2]*a[4],a[5]*a[6]-a[3]*a[8],a[0]*a[8]-a[2]*a[6],a[2]*a[3]-a[0]*a[5],a[3]*a[7]-a[4]*a[6],a[1]*a[6]-a[0]*a[7],a[0]*a[4]-a[1]*a[3]}; for(auto&x:c)x/=d; return c; }
inline Op mul(const Op&a,const Op&b){ Op c; c.W=mul(a.W,b.W); auto t=mulv(a.W,b.t); for(int i=0;i<3;++i)c.t[i]=md(t[i]+a.t[i]); return c; }
inline Op inv(const Op&a){ Op c; c.W=inv(a.W); auto t=mulv(c.W,a.t); for(int i=0;i<3;++i)c.t[i]=md(-t[i]); return c; }
inline int order(const W9&m,int cap=50){ W9 x=m; int n=1; while(x!=one()&&n<cap){ x=mul(x,m); ++n; } return n; }
inline int order(const Op&m,int cap=1000){ Op x=m,e; int n=1; while(x!=e&&n<cap){ x=mul(x,m); ++n; } return n; }
// signed type of a point operation from its powers: +n for an n-fold rotation, -n for a rotation followed by inversion
inline int type(const W9&m){ int d=det(m); int n=order(d<0?neg(m):m); return d*n; }
template<class X> std::set<X> close(const std::vector<X>& g,size_t cap=1000){ X e=mul(g.empty()?X():g[0],inv(g.empty()?X():g[0])); std::set<X> s{e}; std::vector<X> v{e}; for(size_t j=0;j<v.size()&&v.size()<=cap;++j) for(auto&a:g){ X y=mul(a,v[j]); if(s.insert(y).second) v.push_back(y); } return s; }
inline std::set<W9> closew(const std::vector<W9>& g,size_t cap=1000){ std::set<W9> s{one()}; std::vector<W9> v{one()}; for(size_t j=0;j<v.size()&&v.size()<=cap;++j) for(auto&a:g){ W9 y=mul(a,v[j]); if(s.insert(y).second) v.push_back(y); } return s; }
// tabulated operations of a setting
inline const std::vector<Op>& table(int h){ static std::map<int,std::vector<Op>> m; auto f=m.find(h); if(f!=m.end()) return f->second; std::vector<Op> o; int n=spgtable::count_first[h][0],a=spgtable::count_first[h][1]; for(int i=a;i<a+n;++i){ int v=spgtable::operation[i]; Op p; int t=v/19683,r=v%19683; for(int k=2;k>=0;--k){ p.t[k]=(t%12)*(D/12); t/=12; } for(int k=8;k>=0;--k){ p.W[k]=r%3-1; r/=3; } o.push_back(p); } return m.emplace(h,o).first->second; }
inline std::vector<W9> points(const std::vector<Op>& o){ std::vector<W9> w; for(auto&x:o){ bool f=false; for(auto&y:w) f|=y==x.W; if(!f) w.push_back(x.W); } return w; }
inline std::array<double,3> real(const T3&t){ return {t[0]/(double)D,t[1]/(double)D,t[2]/(double)D}; }
inline std::string show(const Op& o){ std::string s="{"; for(int i=0;i<9;++i) s+=std::to_string(o.W[i])+(i%3==2?";":" "); for(int i=0;i<3;++i) s+=" "+std::to_string(o.t[i]); return s+"/"+std::to_string(D)+"}"; }
inline std::string show(const W9& o){ std::string s="{"; for(int i=0;i<9;++i) s+=std::to_string(o[i])+(i%3==2?";":" "); return s+"}"; }
// point-group number (1-32) from the rotation types present, and Laue class and holohedry derived from them
struct Class { int order=0; std::map<int,int> n; std::string symbol; };
inline Class classify(const std::vector<W9>& w){ Class c; c.order=(int)w.size(); for(auto&m:w) c.n[type(m)]++; return c; }
}
