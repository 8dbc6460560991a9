// cells that break their symmetry a little, in ways that snapping repairs
#pragma once
#include "lat.hpp"
#include "atoms.hpp"
namespace gen {
// lengths, and where snapping fixes them angles, changed by up to delta
inline void perturb(vp::Case& c,const Group& g,V& len,V& an,L delta,bool own_space){ for(int i=0;i<3;++i){ bool linked=false; for(int j=0;j<3;++j) linked|= j!=i&&g.link[i][j]; if(linked) len[i]*=1+delta*(L)c.sreal(1); }
  bool three=g.link[0][1]&&g.link[1][2]; bool rhomb=three&&std::abs(an[0]-m3::PI/2)>1e-3L; bool pair=(g.link[0][1]||g.link[1][2]||g.link[0][2]); if(!c.b()) return; if(three&&(rhomb||g.centring!='P')){ for(auto&a:an) a+=delta*(L)c.sreal(1); c.label("angles"); } else if(!three&&pair&&g.centring=='R'){ for(auto&a:an) a+=delta*(L)c.sreal(1); c.label("angles"); } else if(!three&&pair&&g.centring!='P'&&own_space){ int i=g.link[0][1]?0:g.link[1][2]?1:2; an[i]+=delta*(L)c.sreal(1); an[(i+1)%3]+=delta*(L)c.sreal(1); c.label("angles"); } }
static const std::vector<double> DELTA{1e-13,1e-11,1e-9,1e-7,1e-5,1e-3};
}
