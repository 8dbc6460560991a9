// generated polyhedra shared by the polyhedron checks
#pragma once
#include "lat.hpp"
#include "poly.hpp"
#include "polyhedron_flex.hpp"
using brille::Array2; using brille::ind_t; using brille::polyhedron::Poly; using ph::I3; using ph::Hull; using ph::Face; using m3::L; using m3::V; using m3::M;
namespace bl=brille::lattice;
template<class T> using LV=bl::LVec<T>;
static std::vector<I3> points(vp::Case& c,int& den){ den=(int)c.pick(std::vector<int>{1,1,2,3,4,6,12}); int kind=(int)c.draw(6),m=c.i(1,4); std::vector<I3> p; int n=c.i(4,kind==2?7:10);
  if(kind==5){ I3 o,u,v; for(int k=0;k<3;++k){ o[k]=c.si(1); u[k]=c.si(2); v[k]=c.si(2); } for(int i=0;i<n;++i){ int a=c.si(2),b=c.si(2); I3 x; for(int k=0;k<3;++k) x[k]=o[k]+a*u[k]+b*v[k]; p.push_back(x); } n=c.i(1,2); kind=0; } // many points of one plane
  for(int i=0;i<n;++i){ I3 x; for(auto&k:x) k=c.si(m); switch(kind){ case 1: for(auto&k:x) k=k<0?-m:m; x[c.draw(3)]+=c.p(30)?c.si(1):0; break; case 3: x[2]=c.b()?m:-m; break; case 4: if(i==0) x={0,0,0}; break; default: break; } p.push_back(x); if(kind==2) p.push_back({-x[0],-x[1],-x[2]}); }
  if(c.p(30)){ size_t k=p.size(); for(int e=c.i(1,3);e--;){ auto a=p[c.draw(k)],b=p[c.draw(k)]; I3 x; bool ok=true; for(int i=0;i<3;++i){ ok&=(a[i]+b[i])%2==0; x[i]=(a[i]+b[i])/2; } if(ok) p.push_back(x); } } if(c.p(25)) for(int e=c.i(1,3);e--;) p.push_back(p[c.draw(p.size())]); return p; }
struct Space { bool lat=false; int u=1; gen::Lat lattice; M unit; M B; L size; int den=1; }; // unit: components to Cartesian, B: integers to Cartesian
static Space space(vp::Case& c,const std::vector<I3>& p,int den,const gen::Cell* given=nullptr){ Space s; s.den=den; s.lat=given||c.b(); if(s.lat){ auto k=given?*given:gen::cell(c); M a=m3::basis(k.g); if(c.p(50)) a=m3::mul(gen::rotation(c),a); auto m=m3::d(a); a=m3::mat(m); c.note("real vectors (columns)",m); s.lattice=bl::Direct<double>(m,brille::MatrixVectors::column,gen::symmetry(1)); s.u=c.p(20)?0:1; s.unit=s.u?gen::dual(a):a; s.B=m3::sc(s.unit,1.0L/den); }
  else { L f=(L)c.pick(std::vector<double>{1,1,0.5,0.37,0.1,2.3}); s.unit=m3::eye(); M r=c.p(50)?gen::rotation(c):m3::eye(); auto m=m3::d(m3::sc(r,f/den)); s.B=m3::mat(m); s.u=0; c.note("matrix",m); }
  s.size=0; for(auto&x:p) for(auto&y:p) s.size=std::max(s.size,m3::norm(m3::mul(s.B,ph::real(ph::sub(x,y))))); for(auto&x:p) s.size=std::max(s.size,m3::norm(m3::mul(s.B,ph::real(x)))); return s; }
template<template<class> class A> static A<double> make(const Space& s,const std::vector<I3>& p){ std::vector<std::array<double,3>> v; for(auto&x:p){ if(s.lat) v.push_back({(double)x[0]/s.den,(double)x[1]/s.den,(double)x[2]/s.den}); else v.push_back(m3::d(m3::mul(s.B,ph::real(x)))); } auto b=brille::bArray<double>::from_std(v); if constexpr(std::is_same_v<A<double>,LV<double>>) return LV<double>(s.u?gen::QS:gen::RS,s.lattice,b); else return b; }
// everything a polyhedron reports agrees with the exact hull h mapped by x -> B x + off
template<class P> static void geometry(vp::Case& c,const P& poly,const Hull& h,const M& B,L size,const char* tag,V off=V{0,0,0}){ auto at=[&](const V& x){ return m3::add(m3::mul(B,x),off); };
  // match vertices
  auto x=brille::get_xyz(poly.vertices()); int n=(int)x.size(0); c.check(n==(int)h.ext.size(),tag,[&]{ return vp::str(n)+" vertices, expected "+vp::str(h.ext.size()); }); std::vector<int> id(n,-1); std::set<int> seen; for(int i=0;i<n;++i){ V v{x.val(i,0),x.val(i,1),x.val(i,2)}; for(int e:h.ext) if(m3::maxdiff(v,at(ph::real(h.p[e])))<=1e-10L*size) id[i]=e; c.check(id[i]>=0&&seen.insert(id[i]).second,tag,[&]{ return "vertex "+vp::str(m3::d(v))+" is not an extreme point"; }); }
  bool flip=m3::det(B)<0; std::set<Face> want,got; for(auto&f:h.faces) want.insert(ph::canon(f,flip)); for(auto&f:poly.faces().faces()){ Face g; for(auto k:f){ c.check((int)k<n,tag,"face index out of range"); g.push_back(id[k]); } got.insert(ph::canon(g)); } c.check(poly.face_count()==h.faces.size(),tag,[&]{ return vp::str(poly.face_count())+" faces, expected "+vp::str(h.faces.size()); }); c.check(got==want,tag,[&]{ return "faces "+vp::str(std::vector<Face>(got.begin(),got.end()))+" expected "+vp::str(std::vector<Face>(want.begin(),want.end())); });
  L vol=std::abs(m3::det(B))*h.vol6()/6; c.close(poly.volume(),(double)vol,(double)(1e-11L*size*size*size),tag,"volume"); auto cen=brille::get_xyz(poly.centroid()); V wc=at(h.centroid()); V gc{cen.val(0,0),cen.val(0,1),cen.val(0,2)}; c.check(m3::maxdiff(gc,wc)<=1e-11L*size*(1+size*size*size/vol),tag,[&]{ return "centroid "+vp::str(m3::d(gc))+" expected "+vp::str(m3::d(wc)); });
  // normals and face points
  auto nn=brille::get_xyz(poly.face_normals()),fp=brille::get_xyz(poly.face_points()); auto fs=poly.faces().faces(); for(size_t i=0;i<fs.size();++i){ V q{nn.val(i,0),nn.val(i,1),nn.val(i,2)},p{fp.val(i,0),fp.val(i,1),fp.val(i,2)}; V mean{0,0,0}; for(auto k:fs[i]) mean=m3::add(mean,at(ph::real(h.p[id[k]]))); mean=m3::sc(mean,1.0L/fs[i].size()); c.check(std::abs(m3::norm(q)-1)<1e-9L,tag,"face normal is not a unit vector"); c.check(m3::maxdiff(p,mean)<1e-10L*size,tag,"face point"); for(int e:h.ext){ L d=m3::dot(q,m3::sub(at(ph::real(h.p[e])),mean)); c.check(d<=1e-8L*size,tag,"a vertex lies outside of a face plane"); } }
  auto ed=poly.edges(); auto he=brille::get_xyz(poly.half_edges()); std::set<std::pair<int,int>> es,ws; for(ind_t i=0;i<ed.size(0);++i){ int a=id[ed.val(i,0)],b=id[ed.val(i,1)]; es.insert({std::min(a,b),std::max(a,b)}); V m=at(m3::sc(m3::add(ph::real(h.p[a]),ph::real(h.p[b])),0.5L)); c.check(m3::maxdiff(m,{he.val(i,0),he.val(i,1),he.val(i,2)})<1e-10L*size,tag,"half edge"); } for(auto&f:h.faces) for(size_t k=0;k<f.size();++k){ int a=f[k],b=f[(k+1)%f.size()]; ws.insert({std::min(a,b),std::max(a,b)}); } c.check(es==ws&&ed.size(0)==ws.size(),tag,"edges"); auto fv=poly.faces_per_vertex(); c.check((int)fv.size()==n,tag,"faces per vertex"); for(int i=0;i<n;++i){ std::set<ind_t> w; for(size_t k=0;k<fs.size();++k) if(std::find(fs[k].begin(),fs[k].end(),(ind_t)i)!=fs[k].end()) w.insert((ind_t)k); c.check(std::set<ind_t>(fv[i].begin(),fv[i].end())==w&&fv[i].size()==w.size(),tag,"faces per vertex"); }
  L r=0; for(int e:h.ext) r=std::max(r,m3::norm(m3::sub(at(ph::real(h.p[e])),wc))); c.close(poly.circumsphere_radius(),(double)r,(double)(1e-11L*size*(1+size*size*size/vol)),tag,"circumsphere radius");
}
