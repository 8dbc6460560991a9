// spacegroup operations and symmetric sets of atom positions
#pragma once
#include "lat.hpp"
using namespace gen;
using P3=std::array<double,3>;
struct Op { M w; V t; std::array<int,9> iw; };
struct Group { int h; brille::Symmetry s; std::vector<Op> ops; std::vector<std::array<int,9>> pts; bool link[3][3]; char centring; };
static const Group& group(int h){ static std::map<int,Group> m; auto i=m.find(h); if(i!=m.end()) return i->second; Group g; g.h=h; g.s=symmetry(h); g.pts=point_ops(g.s); for(auto&o: g.s.getallm()){ Op p; p.iw=o.getr(); p.w=m3::mat(o.getr()); auto t=o.gett(); for(int j=0;j<3;++j) p.t[j]=std::round((L)t[j]*24)/24; g.ops.push_back(p); } for(int a=0;a<3;++a) for(int b=0;b<3;++b){ g.link[a][b]=false; for(auto&w:g.pts){ bool y=true; for(int r=0;r<3;++r) y&=std::abs(w[3*r+a])==(r==b?1:0); g.link[a][b]|=y; } } 
  std::set<std::array<int,3>> ts; for(auto&o:g.ops) if(o.iw==std::array<int,9>{1,0,0,0,1,0,0,0,1}) ts.insert({(int)std::lround(o.t[0]*24)%24,(int)std::lround(o.t[1]*24)%24,(int)std::lround(o.t[2]*24)%24}); g.centring= ts.size()==1?'P': ts.size()==4?'F': ts.size()==3?'R': ts.count({12,12,12})?'I': 'C'; return m.emplace(h,g).first->second; }
static V wrapd(V d){ for(auto&e:d) e-=std::round(e); return d; }
static L dist(const V&a,const V&b){ return m3::norm(wrapd(m3::sub(a,b))); }
static V act(const Op& o,const V& x){ return m3::add(m3::mul(o.w,x),o.t); }
struct Atoms { std::vector<V> x; std::vector<unsigned> type; std::vector<int> orbit; };
// orbits of random positions, of low and high site symmetry
static bool atoms(vp::Case& c,const Group& g,Atoms& a,size_t most){ int n=c.i(1,3); for(int i=0;i<n;++i){ V x; L u=(L)c.real(0.05,0.45),v=(L)c.real(0.05,0.45); int kind=(int)c.draw(8); auto s=[&]{ return (L)c.pick({0.,0.5,0.25,0.75,1./3,2./3,0.125}); }; switch(kind){ case 0: x={s(),s(),s()}; break; case 1: x={s(),s(),u}; break; case 2: x={u,u,u}; break; case 3: x={u,s(),s()}; break; case 4: x={u,-u,v}; break; case 5: x={u,2*u,s()}; break; case 6: x={u,u,v}; break; default: x={u,v,(L)c.real(0.05,0.45)}; } 
    std::vector<V> orb; for(auto&o:g.ops){ V y=act(o,x); bool seen=false; for(auto&z:orb){ L d=dist(z,y); if(d<1e-9L) seen=true; else if(d<0.03L) return false; } if(!seen) orb.push_back(y); } if(a.x.size()+orb.size()>most) continue; for(auto&y:orb) for(auto&z:a.x) if(dist(y,z)<0.03L) return false; unsigned t=(unsigned)c.draw(2)? (unsigned)a.orbit.size(): 7u; for(auto&y:orb){ V z=y; for(auto&e:z){ e-=std::floor(e); if(c.p(10)) e+=(L)c.si(2); } a.x.push_back(z); a.type.push_back(t); a.orbit.push_back(i); } }
  if(a.x.empty()) return false; auto p=c.perm((int)a.x.size()); Atoms b; for(auto j:p){ b.x.push_back(a.x[j]); b.type.push_back(a.type[j]); b.orbit.push_back(a.orbit[j]); } a=b; return true; }
static std::vector<P3> dbl(const std::vector<V>& x){ std::vector<P3> o; for(auto&e:x) o.push_back(m3::d(e)); return o; }
