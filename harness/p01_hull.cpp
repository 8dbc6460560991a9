// P01: a polyhedron built from points is their convex hull
#include "polygen.hpp"
#include "approx_config.hpp"
template<template<class> class A> static void hull(vp::Case& c,const std::vector<I3>& pts,const Hull& h,const Space& s){ using P=Poly<double,A>;
  auto v=make<A>(s,pts); P p(v); geometry(c,p,h,s.B,s.size,"hull");
  // the faces contain every given point
  auto in=p.contains(v,1e-10*(double)std::max<L>(1,s.size*s.size*s.size)); for(size_t i=0;i<pts.size();++i) c.check(in[i],"given-point-outside",[&]{ return "given point "+vp::str(i)+" is not contained"; });
  // order does not matter
  auto q=pts; c.shuffle(q); for(int e=(int)c.draw(3);e--;) q.push_back(pts[c.draw(pts.size())]); P p2(make<A>(s,q)); geometry(c,p2,h,s.B,s.size,"reordered"); c.check(p.is_approx(p2,1e-10)&&p2.is_approx(p,1e-10),"reordered-not-equal"); c.check(p==p&&!(p!=p),"self-equal"); geometry(c,p.convex_hull(),h,s.B,s.size,"hull-of-hull");
  // faces given, in any order and with any first vertex
  { auto fs=p.faces().faces(); c.shuffle(fs); for(auto&f:fs) std::rotate(f.begin(),f.begin()+c.draw(f.size()),f.end()); P p3(p.vertices(),fs); geometry(c,p3,h,s.B,s.size,"faces-given"); c.check(p3.is_approx(p,1e-10),"faces-given-not-equal"); brille::polyhedron::Faces f0(fs); P p4(p.vertices(),f0); geometry(c,p4,h,s.B,s.size,"faces-trusted"); c.check(p4==p,"faces-given-not-equal"); }
  // a different shape is not equal
  { auto w=h.p; std::vector<I3> e; for(int k:h.ext) e.push_back(w[k]); size_t k=c.draw(e.size()); e[k]={2*e[k][0]+1,2*e[k][1],2*e[k][2]-1}; Hull o(e); std::set<I3> ea,eb; for(int i:h.ext) ea.insert(h.p[i]); for(int i:o.ext) eb.insert(o.p[i]); if(o.solid&&ea!=eb){ P p5(make<A>(s,e)); c.check(p5!=p&&!(p5==p),"different-but-equal"); } }
  // rejection sampling stays inside
  { auto r=brille::get_xyz(p.rand_rejection(3,1+(unsigned)c.draw(1000))); for(ind_t i=0;i<3;++i) for(auto&f:h.faces){ V a=m3::mul(s.B,ph::real(h.p[f[0]])),b=m3::mul(s.B,ph::real(h.p[f[1]])),d=m3::mul(s.B,ph::real(h.p[f[2]])); V n=m3::cross(m3::sub(b,a),m3::sub(d,a)); if(m3::det(s.B)<0) n=m3::sc(n,-1); L q=m3::dot(n,m3::sub({r.val(i,0),r.val(i,1),r.val(i,2)},a)); c.check(q<=1e-9L*s.size*m3::norm(n),"random-point-outside"); } }
  // the bounding box
  { auto bb=brille::polyhedron::bounding_box(v); auto x=brille::get_xyz(v); V lo{1e9,1e9,1e9},hi{-1e9,-1e9,-1e9}; for(size_t i=0;i<pts.size();++i) for(int j=0;j<3;++j){ lo[j]=std::min<L>(lo[j],x.val(i,j)); hi[j]=std::max<L>(hi[j],x.val(i,j)); } std::vector<I3> corner; for(int i=0;i<8;++i) corner.push_back({i&1,i>>1&1,i>>2&1}); Hull hb(corner); auto bx=brille::get_xyz(bb.vertices()); c.check(bx.size(0)==8&&bb.face_count()==6,"bounding-box"); L vol=(hi[0]-lo[0])*(hi[1]-lo[1])*(hi[2]-lo[2]); c.close(bb.volume(),(double)vol,(double)(1e-11L*s.size*s.size*s.size),"bounding-box","volume of the bounding box"); for(ind_t i=0;i<8;++i) for(int j=0;j<3;++j){ L q=bx.val(i,j); c.check(std::min(std::abs(q-lo[j]),std::abs(q-hi[j]))<1e-10L*s.size,"bounding-box"); } auto ib=bb.contains(v,1e-10*(double)std::max<L>(1,s.size*s.size*s.size)); c.check(std::find(ib.begin(),ib.end(),false)==ib.end(),"bounding-box","a point is outside of the bounding box"); } }
VP_PROP(convex_hull,40000,800000){ int den; auto pts=points(c,den); c.note("points",pts); c.note("denominator",den); Hull h(pts); if(!h.solid) c.discard(); Space s=space(c,pts,den); bool quad=false; for(auto&f:h.faces) quad|=f.size()>3; c.nontrivial(h.ext.size()>4); c.label(quad?"polygons":"triangles"); c.label(s.lat?"lattice":"Cartesian"); if(h.p.size()!=pts.size()) c.label("repeats"); if(h.ext.size()<h.p.size()) c.label("not all extreme"); if(s.lat) hull<LV>(c,pts,h,s); else hull<Array2>(c,pts,h,s); }
VP_MAIN
