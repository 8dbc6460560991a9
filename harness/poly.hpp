// reference polyhedra: exact hulls of integer points and clipped polyhedra in long double
#pragma once
#include <algorithm>
#include <map>
#include <set>
#include <vector>
#include "m3.hpp"
namespace ph {
using m3::L; using m3::V; using m3::M;
using I3=std::array<long,3>; using Face=std::vector<int>;
inline I3 sub(const I3&a,const I3&b){ return {a[0]-b[0],a[1]-b[1],a[2]-b[2]}; }
inline I3 cross(const I3&a,const I3&b){ return {a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]}; }
inline long dot(const I3&a,const I3&b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
inline bool zero(const I3&a){ return !a[0]&&!a[1]&&!a[2]; }
inline V real(const I3&a){ return {(L)a[0],(L)a[1],(L)a[2]}; }
// exact convex hull: extreme points, and faces as counter-clockwise (seen from outside) cycles of extreme points
struct Hull { std::vector<I3> p; std::vector<int> ext; std::vector<Face> faces; bool solid=false;
  explicit Hull(std::vector<I3> in){ std::sort(in.begin(),in.end()); in.erase(std::unique(in.begin(),in.end()),in.end()); p=in; int n=(int)p.size(); std::set<std::vector<int>> seen; std::set<int> used;
    for(int i=0;i<n;++i)for(int j=i+1;j<n;++j)for(int k=j+1;k<n;++k){ I3 m=cross(sub(p[j],p[i]),sub(p[k],p[i])); if(zero(m)) continue; bool pos=false,neg=false; std::vector<int> on; for(int r=0;r<n;++r){ long q=dot(m,sub(p[r],p[i])); if(q>0) pos=true; else if(q<0) neg=true; else on.push_back(r); if(pos&&neg) break; } if(pos&&neg) continue; if(!pos&&!neg) return; if(pos) for(auto&x:m)x=-x; if(!seen.insert(on).second) continue;
      // gift wrapping in the plane with outward normal m
      int s=on[0]; Face f; int cur=s; do{ f.push_back(cur); int nx=-1; for(int r:on){ if(r==cur) continue; if(nx<0){ nx=r; continue; } long o=dot(m,cross(sub(p[nx],p[cur]),sub(p[r],p[cur]))); if(o<0||(o==0&&dot(sub(p[r],p[cur]),sub(p[r],p[cur]))>dot(sub(p[nx],p[cur]),sub(p[nx],p[cur])))) nx=r; } cur=nx; }while(cur!=s&&f.size()<=on.size()); faces.push_back(f); for(int x:f) used.insert(x); }
    ext.assign(used.begin(),used.end()); solid=faces.size()>3; }
  long vol6() const { long v=0; I3 o=p[0]; for(auto&f:faces) for(size_t i=1;i+1<f.size();++i) v+=dot(sub(p[f[0]],o),cross(sub(p[f[i]],o),sub(p[f[i+1]],o))); return v; }
  V centroid() const { V c{0,0,0}; I3 o=p[0]; for(auto&f:faces) for(size_t i=1;i+1<f.size();++i){ L v=(L)dot(sub(p[f[0]],o),cross(sub(p[f[i]],o),sub(p[f[i+1]],o))); for(int k=0;k<3;++k) c[k]+=v*(o[k]+p[f[0]][k]+p[f[i]][k]+p[f[i+1]][k])/4.0L; } return m3::sc(c,1.0L/(L)vol6()); }
};
inline Face canon(Face f,bool flip=false){ if(flip) std::reverse(f.begin(),f.end()); std::rotate(f.begin(),std::min_element(f.begin(),f.end()),f.end()); return f; }
// a convex polyhedron as a soup of polygons, clipped by half spaces n.x <= d
struct Conv { std::vector<std::vector<V>> f; L eps=1e-13L;
  static Conv box(L r){ Conv c; V q[8]; for(int i=0;i<8;++i) q[i]={i&1?r:-r,i&2?r:-r,i&4?r:-r}; int a[6][4]={{0,2,3,1},{4,5,7,6},{0,1,5,4},{2,6,7,3},{0,4,6,2},{1,3,7,5}}; for(auto&x:a){ c.f.push_back({}); for(int k:x) c.f.back().push_back(q[k]); } c.eps=r*1e-15L; return c; }
  // returns whether anything was removed
  bool clip(V n,L d){ L s=m3::norm(n); n=m3::sc(n,1/s); d/=s; bool any=false; for(auto&p:f) for(auto&v:p) any|=m3::dot(n,v)>d+eps; if(!any) return false; std::vector<std::vector<V>> g; std::vector<V> cap; auto at=[&](const V&x){ for(auto&y:cap) if(m3::maxdiff(x,y)<=4*eps) return; cap.push_back(x); };
    for(auto&p:f){ std::vector<V> o; size_t N=p.size(); for(size_t i=0;i<N;++i){ const V&a=p[i]; const V&b=p[(i+1)%N]; L da=m3::dot(n,a)-d,db=m3::dot(n,b)-d; bool ia=da<=eps,ib=db<=eps; if(ia){ o.push_back(a); if(da>=-eps) at(a); } if(ia!=ib&&!(std::abs(da)<=eps)&&!(std::abs(db)<=eps)){ V x=m3::add(a,m3::sc(m3::sub(b,a),da/(da-db))); o.push_back(x); at(x); } } if(o.size()>2){ bool flat=true; for(auto&v:o) flat&=std::abs(m3::dot(n,v)-d)<=4*eps; if(!flat) g.push_back(o); } }
    if(!g.empty()&&cap.size()>2){ V c{0,0,0}; for(auto&v:cap) c=m3::add(c,v); c=m3::sc(c,1.0L/cap.size()); V x=m3::sub(cap[0],c); x=m3::sc(x,1/m3::norm(x)); V y=m3::cross(n,x); std::sort(cap.begin(),cap.end(),[&](const V&a,const V&b){ V p=m3::sub(a,c),q=m3::sub(b,c); return std::atan2(m3::dot(p,y),m3::dot(p,x))<std::atan2(m3::dot(q,y),m3::dot(q,x)); }); g.push_back(cap); }
    f=g; return true; }
  L volume() const { if(f.empty()) return 0; V o=f[0][0]; L v=0; for(auto&p:f) for(size_t i=1;i+1<p.size();++i) v+=m3::dot(m3::sub(p[0],o),m3::cross(m3::sub(p[i],o),m3::sub(p[i+1],o))); return v/6; }
  V centroid() const { V c{0,0,0}; V o=f[0][0]; L t=0; for(auto&p:f) for(size_t i=1;i+1<p.size();++i){ L v=m3::dot(m3::sub(p[0],o),m3::cross(m3::sub(p[i],o),m3::sub(p[i+1],o))); t+=v; for(int k=0;k<3;++k) c[k]+=v*(o[k]+p[0][k]+p[i][k]+p[i+1][k])/4; } return m3::sc(c,1/t); }
  std::vector<V> vertices(L tol) const { std::vector<V> o; for(auto&p:f) for(auto&v:p){ bool k=false; for(auto&w:o) if(m3::maxdiff(v,w)<=tol){ k=true; break; } if(!k) o.push_back(v); } return o; }
};
}
