// shared generators: cells, spacegroups, lattices
#pragma once
#include "vp.hpp"
#include "m3.hpp"
#include "lattice_dual.hpp"
#include "array_l_.hpp"
#include "spg_database.hpp"
namespace gen {
using m3::L; using m3::V; using m3::M;
namespace bl=brille::lattice;
struct Cell { V len, ang; M g; }; // lengths, angles[rad], metric
inline Cell cell_from_metric(const M&g){ Cell c; c.g=g; m3::cell(g,c.len,c.ang); return c; }
// any non-degenerate cell; `kind` classes keep special shapes frequent
inline Cell cell(vp::Case& c, double lo=2, double hi=12){
  static const double nice[]={90,120,60,109.4712206344907,70.52877936550931,100,80,95,45,135,75,110};
  V l,a; int kind=(int)c.draw(6);
  auto len=[&](){ return (L)(c.b()? c.i(4,24)*0.5*(lo/2) : c.real(lo,hi)); };
  for(;;){
    l={len(),len(),len()};
    if(kind==1) l[1]=l[0]; if(kind==2){ l[1]=l[2]=l[0]; }
    for(int i=0;i<3;++i){ if(kind==0) a[i]=90; else if(c.b()) a[i]=(L)nice[c.draw(12)]; else a[i]=(L)c.real(40,140); }
    if(kind==2&&c.b()) a[1]=a[2]=a[0];
    if(kind==3){ a={90,90,120}; l[1]=l[0]; }
    for(auto&x:a) x*=m3::PI/180;
    L ca=std::cos(a[0]),cb=std::cos(a[1]),cg=std::cos(a[2]); L v2=1-ca*ca-cb*cb-cg*cg+2*ca*cb*cg;
    if(v2>0.02) break; // not (nearly) flat
    kind=(int)c.draw(4)==0?0:kind;
  }
  Cell r; r.len=l; r.ang=a; r.g=m3::metric(l,a); return r;
}
inline std::vector<std::array<int,9>> point_ops(const brille::Symmetry& s){ std::vector<std::array<int,9>> o; for(auto&r: s.getallr()){ if(std::find(o.begin(),o.end(),r)==o.end()) o.push_back(r);} return o; }
// a cell compatible with the point operations W: the metric averaged over the group
inline Cell compatible_cell(vp::Case& c,const std::vector<std::array<int,9>>& W,double lo=2,double hi=12){
  Cell k=cell(c,lo,hi); M g{}; for(auto&w:W){ M m=m3::mat(w); M t=m3::mul(m3::tr(m),m3::mul(k.g,m)); for(int i=0;i<9;++i)g[i]+=t[i]/(L)W.size(); }
  for(int i=0;i<3;++i)for(int j=0;j<i;++j){ L q=(g[3*i+j]+g[3*j+i])/2; g[3*i+j]=g[3*j+i]=q; }
  return cell_from_metric(g);
}
inline M rotation(vp::Case& c,double least=0){ V ax; do{ ax={(L)c.si(4),(L)c.si(4),(L)c.i(1,5)}; }while(m3::norm(ax)<0.5L); return m3::rot(ax,(L)c.real(least,3)); }
inline int hall(vp::Case& c){ return (int)c.i(1,530); }
inline std::array<double,3> deg(const V&a){ return {(double)(a[0]*180/m3::PI),(double)(a[1]*180/m3::PI),(double)(a[2]*180/m3::PI)}; }
inline void note_cell(vp::Case& c,const Cell& k){ c.note("lengths",m3::d(k.len)); c.note("angles/deg",deg(k.ang)); }
// small rational or real coordinate
inline double coord(vp::Case& c,double m=3){ switch(c.draw(4)){ case 0: return (double)c.si((int)m); case 1: return (double)c.si((int)(m*12))/12.0; case 2: return (double)c.si((int)(m*8))/8.0; default: return c.sreal(m);} }
}
