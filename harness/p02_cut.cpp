// P02: cutting and intersecting polyhedra is half-space geometry
#include "polygen.hpp"
#include "approx_config.hpp"
struct Plane { I3 a,b,c; V n; L d; I3 m; long q; }; // Cartesian normal and distance; exact integer normal and offset
static Plane plane(const Space& s,const I3& a,const I3& b,const I3& c){ Plane p; p.a=a; p.b=b; p.c=c; p.m=ph::cross(ph::sub(b,a),ph::sub(c,b)); p.q=ph::dot(p.m,a); V x=m3::mul(s.B,ph::real(a)),y=m3::mul(s.B,ph::real(b)),z=m3::mul(s.B,ph::real(c)); p.n=m3::cross(m3::sub(y,x),m3::sub(z,y)); p.n=m3::sc(p.n,1/m3::norm(p.n)); p.d=m3::dot(p.n,x); return p; }
static ph::Conv conv(const Space& s,const Hull& h){ auto c=ph::Conv::box(4*s.size); c.eps=1e-14L*s.size; for(auto&f:h.faces){ auto p=plane(s,h.p[f[0]],h.p[f[1]],h.p[f[2]]); c.clip(p.n,p.d); } return c; }
// side of every extreme point, exactly: counts inside / on / outside
static std::array<int,3> sides(const Hull& h,const Plane& p){ std::array<int,3> n{0,0,0}; for(int e:h.ext){ long v=ph::dot(p.m,h.p[e])-p.q; ++n[v<0?0:v==0?1:2]; } return n; }
template<class P> static void same(vp::Case& c,const P& p,const ph::Conv& w,L size,const char* tag,const std::string& what){
  L wv=w.f.empty()?0:w.volume(); L tv=1e-10L*size*size*size; if(wv<tv){ c.check(p.face_count()==0||std::abs(p.volume())<=tv,tag,[&]{ return what+" has volume "+vp::str(p.volume())+" but nothing should be left"; }); if(p.face_count()==0) c.check(p.volume()==0.,tag,"volume of an empty polyhedron"); return; }
  c.check(std::abs(p.volume()-wv)<=tv,tag,[&]{ return what+" has volume "+vp::str(p.volume())+" expected "+vp::str((double)wv); });
  auto x=brille::get_xyz(p.vertices()); auto wx=w.vertices(1e-9L*size); c.check(x.size(0)==wx.size(),tag,[&]{ return what+" has "+vp::str((int)x.size(0))+" vertices, expected "+vp::str(wx.size()); }); for(ind_t i=0;i<x.size(0);++i){ L best=1e9; for(auto&v:wx) best=std::min(best,m3::maxdiff(v,{x.val(i,0),x.val(i,1),x.val(i,2)})); c.check(best<=1e-8L*size,tag,[&]{ return what+" has a vertex "+vp::str((double)best)+" away from any expected"; }); }
  for(auto&v:wx){ L best=1e9; for(ind_t i=0;i<x.size(0);++i) best=std::min(best,m3::maxdiff(v,{x.val(i,0),x.val(i,1),x.val(i,2)})); c.check(best<=1e-8L*size,tag,[&]{ return what+" lacks the vertex "+vp::str(m3::d(v)); }); }
  c.check(p.face_count()==w.f.size(),tag,[&]{ return what+" has "+vp::str(p.face_count())+" faces, expected "+vp::str(w.f.size()); });
  // closed, every edge once in each direction
  std::map<std::pair<ind_t,ind_t>,int> e; for(auto&f:p.faces().faces()) for(size_t k=0;k<f.size();++k) ++e[{f[k],f[(k+1)%f.size()]}]; for(auto&k:e) c.check(k.second==1&&e.count({k.first.second,k.first.first}),tag,[&]{ return what+" is not closed"; });
  auto cg=brille::get_xyz(p.centroid()); auto cw=w.centroid(); c.check(m3::maxdiff(cw,{cg.val(0,0),cg.val(0,1),cg.val(0,2)})<=1e-9L*size*(1+size*size*size/wv),tag,[&]{ return "centroid of "+what; }); }
template<class P> static void contain(vp::Case& c,const P& p,const Space& s,const ph::Conv& w,const char* tag,L scale=1){ // random points well inside or outside
  std::vector<std::array<double,3>> pts; std::vector<int> want; V lo{1e9L,1e9L,1e9L},hi{-1e9L,-1e9L,-1e9L}; for(auto&f:w.f) for(auto&v:f) for(int k=0;k<3;++k){ lo[k]=std::min(lo[k],v[k]); hi[k]=std::max(hi[k],v[k]); } if(w.f.empty()) return; V g=w.centroid(); for(int k=0;k<6;++k){ V x; if(k<3) for(int i=0;i<3;++i) x[i]=(L)c.real((double)(lo[i]-0.1L*(hi[i]-lo[i])),(double)(hi[i]+0.1L*(hi[i]-lo[i]))); else { auto&f=w.f[c.draw(w.f.size())]; V q{0,0,0}; L t=0; for(auto&v:f){ L u=(L)c.real(0.01,1); q=m3::add(q,m3::sc(v,u)); t+=u; } q=m3::sc(q,1/t); x=m3::add(g,m3::sc(m3::sub(q,g),(L)c.pick(std::vector<double>{0.5,0.99,0.9999,1.0001,1.01,1.5}))); } L m=-1e9L; for(auto&f:w.f){ V n=m3::cross(m3::sub(f[1],f[0]),m3::sub(f[2],f[1])); L l=m3::norm(n); if(l==0) continue; m=std::max(m,m3::dot(n,m3::sub(x,f[0]))/l); } bool clear=true; for(auto&f:w.f) for(size_t i=0;i<f.size()&&clear;++i) for(size_t j=i+1;j<f.size()&&clear;++j) for(size_t k=j+1;k<f.size()&&clear;++k) clear=std::abs(m3::dot(m3::cross(m3::sub(f[j],f[i]),m3::sub(f[k],f[i])),m3::sub(x,f[i])))>1e-13L; /* contains() takes volumes below 5e-15 as zero */ if(!clear||std::abs(m)<1e-7L*s.size) continue; pts.push_back(m3::d(m3::mul(m3::inv(s.unit),x))); want.push_back(m<0); } if(pts.empty()) return;
  (void)scale; std::vector<bool> got; if(s.lat){ auto b=LV<double>::from_std(s.u?gen::QS:gen::RS,s.lattice,pts); if constexpr(std::is_same_v<P,Poly<double,LV>>){ got=p.contains(b); auto g2=p.contains(pts); c.check(got==g2,tag,"contains(list) differs"); } } else if constexpr(std::is_same_v<P,Poly<double,Array2>>) { got=p.contains(brille::bArray<double>::from_std(pts)); } for(size_t i=0;i<pts.size();++i) c.check(got[i]==(bool)want[i],tag,[&]{ return "point "+vp::str(pts[i])+(want[i]?" inside is":" outside is not")+" reported outside"; }); }
template<template<class> class A> static void cuts(vp::Case& c,const Hull& h,const Space& s,const std::vector<I3>& ext){ using P=Poly<double,A>; P p(make<A>(s,ext)); auto w=conv(s,h); same(c,p,w,s.size,"hull","the hull");
  // planes: anywhere, through vertices, along faces
  int n=c.i(1,4); std::vector<Plane> pl; std::vector<I3> A_,B_,C_; for(int i=0;i<n;++i){ I3 a,b,d; int kind=(int)c.draw(4); for(int t=0;;++t){ auto any=[&]{ I3 x; for(auto&k:x) k=c.si(20); return x; }; auto vert=[&]{ return h.p[h.ext[c.draw(h.ext.size())]]; }; if(t>6) kind=0; if(kind==0){ a=any(); b=any(); d=any(); } else if(kind==1){ a=vert(); b=vert(); d=c.b()?vert():any(); } else { auto&f=h.faces[c.draw(h.faces.size())]; a=h.p[f[0]]; b=h.p[f[1]]; d=h.p[f[2]]; if(kind==3){ I3 x=c.b()?any():vert(); for(auto*q:{&a,&b,&d}) for(int k=0;k<3;++k) (*q)[k]+=x[k]; } if(c.p(40)) std::swap(a,b); } if(!ph::zero(ph::cross(ph::sub(b,a),ph::sub(d,b)))) break; } pl.push_back(plane(s,a,b,d)); A_.push_back(a); B_.push_back(b); C_.push_back(d); }
  c.note("a",A_); c.note("b",B_); c.note("c",C_); auto a=make<A>(s,A_),b=make<A>(s,B_),d=make<A>(s,C_);
  auto first=sides(h,pl[0]); c.label(first[2]==0?"misses":first[0]==0?"removes all":first[1]?"through vertices":"cuts"); c.nontrivial(first[0]&&first[2]);
  // one plane, both sides
  auto in=w,out=w; in.clip(pl[0].n,pl[0].d); out.clip(m3::sc(pl[0].n,-1),-pl[0].d); double T=1e-10; auto pi=p.one_cut(a.view(0),b.view(0),d.view(0),T); auto po=p.one_cut(b.view(0),a.view(0),d.view(0),T); same(c,pi,in,s.size,"one-cut","the inner part"); same(c,po,out,s.size,"one-cut","the outer part"); c.close(pi.volume()+po.volume(),p.volume(),(double)(1e-10L*s.size*s.size*s.size),"volumes-of-parts","sum of the volumes");
  if(first[2]==0&&first[1]==0) c.check(pi==p,"plane-misses","cutting by a plane which misses changed the polyhedron"); bool none=p.none_beyond(a.view(0),b.view(0),d.view(0)); if(first[1]==0) c.check(none==(first[0]==0),"none-beyond"); if(first[0]>0) c.check(!none,"none-beyond","there are vertices below the plane");
  // a face is found, with either orientation
  { auto&f=h.faces[c.draw(h.faces.size())]; std::vector<I3> x{h.p[f[0]]},y{h.p[f[1]]},z{h.p[f[2]]}; auto fa=make<A>(s,x),fb=make<A>(s,y),fc=make<A>(s,z); if(s.size<3&&!s.lat){ c.check(p.has_face(fa,fb,fc)==1,"has-face","a face is not found"); auto k=p.face_index(fa,fb,fc); auto xv=brille::get_xyz(p.vertices()); for(auto v:p.faces().face((ind_t)k)){ V q{xv.val(v,0),xv.val(v,1),xv.val(v,2)}; auto pf=plane(s,x[0],y[0],z[0]); c.check(std::abs(m3::dot(pf.n,q)-pf.d)<1e-9L*s.size,"face-index"); } } c.check(!p.has_face(fb,fa,fc),"has-face","a face of the opposite orientation is found"); if(first[1]<3) c.check(!p.has_face(a.view(0),b.view(0),d.view(0)),"has-face","a plane which is not a face is found"); }
  // all planes
  auto all=w; for(auto&q:pl) all.clip(q.n,q.d); auto pa=p.cut(a,b,d,T); same(c,pa,all,s.size,"cut","the cut polyhedron"); contain(c,pa,s,all,"contains-after-cut"); bool general=true; { auto w2=w; for(auto&q:pl){ for(auto&f:w2.f) for(auto&v:f) general&=std::abs(m3::dot(q.n,v)-q.d)>1e-9L*s.size; w2.clip(q.n,q.d); } } bool threw=false; P pd; try { pd=p.cut(a,b,d); } catch(const std::runtime_error&){ threw=true; } c.check(!threw,"cut-throws","cutting away from every vertex throws"); if(!threw){ L av=all.f.empty()?0:all.volume(); c.check(std::abs(pd.volume()-av)<=1e-10L*s.size*s.size*s.size,"cut-default","volume left with default tolerances"); same(c,pd,all,s.size,"cut-default","the polyhedron cut with default tolerances"); }  contain(c,p,s,w,"contains");
  c.check(p.vertices().size(0)==h.ext.size(),"cut-changes-input"); }
VP_PROP(cut,40000,1000000){ int den; auto pts=points(c,den); for(auto&x:pts) for(auto&k:x) k*=6; den*=6; Hull h(pts); if(!h.solid) c.discard(); std::vector<I3> ext; for(int e:h.ext) ext.push_back(h.p[e]); c.note("points",ext); c.note("denominator",den); Space s=space(c,pts,den); c.label(s.lat?"lattice":"Cartesian"); if(s.lat) cuts<LV>(c,h,s,ext); else cuts<Array2>(c,h,s,ext); }
// intersections
template<template<class> class A> static void meet(vp::Case& c,const Hull& h,const Hull& g,const Space& s,const std::vector<I3>& e1,const std::vector<I3>& e2){ using P=Poly<double,A>; P p(make<A>(s,e1)),q(make<A>(s,e2)); auto w=conv(s,h); for(auto&f:g.faces){ auto pl=plane(s,g.p[f[0]],g.p[f[1]],g.p[f[2]]); w.clip(pl.n,pl.d); } L wv=w.f.empty()?0:w.volume(); auto wh=conv(s,h),wg=conv(s,g); L rel=wv/std::min(wh.volume(),wg.volume()); c.label(rel<1e-9L?"apart":rel>1-1e-9L?"one contains the other":"overlap"); c.nontrivial(rel>=1e-9L);
  auto pq=p.intersection(q,1e-10),qp=q.intersection(p,1e-10); same(c,pq,w,s.size,"intersection","the intersection"); same(c,qp,w,s.size,"intersection","the intersection, the other way,"); contain(c,pq,s,w,"contains-after-intersection"); if(rel<1e-13L||rel>1e-6L) c.check(p.intersects(q,1e-10)==(rel>1e-6L)&&q.intersects(p,1e-10)==(rel>1e-6L),"intersects",[&]{ return "intersects() is "+vp::str(p.intersects(q,1e-10))+" but the common volume is "+vp::str((double)rel)+" of the smaller"; }); same(c,p.intersection(p,1e-10),wh,s.size,"intersection","the intersection with itself"); if(rel>1e-6L){ auto pqp=pq.intersection(p,1e-10); same(c,pqp,w,s.size,"intersection","the intersection with p, again,"); } }
VP_PROP(intersection,25000,600000){ int den,d2; auto p1=points(c,den),p2=points(c,d2); if(c.p(25)) p2=p1; I3 sh{0,0,0}; if(c.p(60)) for(auto&k:sh) k=c.si(4); for(auto&x:p2) for(int k=0;k<3;++k) x[k]+=sh[k]; int f=c.p(40)?c.i(1,3):1; for(auto&x:p2) for(auto&k:x) k*=f; for(auto&x:p1) for(auto&k:x) k*=2; for(auto&x:p2) for(auto&k:x) k=k*2+(c.p(20)?1:0); den*=2; Hull h(p1),g(p2); if(!h.solid||!g.solid) c.discard(); std::vector<I3> e1,e2; for(int e:h.ext) e1.push_back(h.p[e]); for(int e:g.ext) e2.push_back(g.p[e]); c.note("first",e1); c.note("second",e2); c.note("denominator",den); auto both=p1; both.insert(both.end(),p2.begin(),p2.end()); Space s=space(c,both,den); c.label(s.lat?"lattice":"Cartesian"); if(s.lat) meet<LV>(c,h,g,s,e1,e2); else meet<Array2>(c,h,g,s,e1,e2); }
// the tests and constructions of planes which cutting is made of
template<template<class> class A> static void halfspaces(vp::Case& c,const Space& s,bool exact){
  int n=c.i(1,5),m=c.i(1,6); std::vector<I3> a,b,d,x; auto any=[&]{ I3 v; for(auto&k:v) k=c.si(6); return v; }; auto cart=[&](const I3& v){ return m3::mul(s.B,ph::real(v)); };
  for(int i=0;i<n;++i){ I3 p,q,r,k; for(int t=0;;++t){ p=any(),q=any(),r=any(); k=ph::cross(ph::sub(q,p),ph::sub(r,q)); if(ph::dot(k,k)||t>20) break; } if(!ph::dot(k,k)) c.discard(); a.push_back(p); b.push_back(q); d.push_back(r); }
  for(int i=0;i<m;++i){ I3 p=any(); if(c.p(40)){ size_t k=c.draw(n); int e=c.si(2),g=c.si(2); for(int j=0;j<3;++j) p[j]=a[k][j]+e*(b[k][j]-a[k][j])+g*(d[k][j]-a[k][j]); } x.push_back(p); }
  c.note("a",a); c.note("b",b); c.note("c",d); c.note("x",x); c.nontrivial(n>1&&m>1); auto aa=make<A>(s,a),ab=make<A>(s,b),ad=make<A>(s,d),ax=make<A>(s,x); L hand=m3::det(s.B)<0?-1:1;
  auto scale=[&](size_t i,size_t k){ L q=1e-300L; for(auto&v:{a[i],b[i],d[i]}) q=std::max(q,m3::norm(m3::sub(cart(v),cart(x[k])))); return q*q*q; };
  // six times the signed volume of (a,b,c,x), positive behind the plane; exactly zero in the plane
  auto vol=[&](size_t i,size_t k){ auto z=ph::cross(ph::sub(b[i],a[i]),ph::sub(d[i],b[i])); long e=ph::dot(z,a[i])-ph::dot(z,x[k]); return (L)e*m3::det(s.B); };
  auto side=[&](size_t i,size_t k){ L v=vol(i,k)*hand; (void)hand; v=vol(i,k); return v>0?1:v<0?-1:0; };
  size_t k=c.draw(m),i0=c.draw(n); auto one=ax.view((ind_t)k); auto tol=[&](size_t i,size_t q){ return 1e-12L*scale(i,q); };
  auto o=brille::pseudo_orient3d(aa,ab,ad,one); c.check(o.size()==(size_t)n,"orientation","number of planes"); for(int i=0;i<n;++i) c.close(o[i],(double)vol(i,k),(double)tol(i,k),"orientation","the volume at one point");
  auto ov=brille::pseudo_orient3d(aa.view((ind_t)i0),ab.view((ind_t)i0),ad.view((ind_t)i0),ax); c.check(ov.size()==(size_t)m,"orientation","number of points"); for(int q=0;q<m;++q) c.close(ov[q],(double)vol(i0,q),(double)tol(i0,q),"orientation","the volume at one plane");
  auto sd=brille::pseudo_side3d(aa,ab,ad,one,1e-10,1); for(int i=0;i<n;++i){ int w=side(i,k); c.check(sd[i]==w,"side",[&]{ return "side "+vp::str(sd[i])+" of plane "+vp::str(i)+", expected "+vp::str(w); }); }
  bool all=true,on=false; for(int i=0;i<n;++i){ all&=side(i,k)>=0; on|=side(i,k)==0; } if(!on||exact||!all) c.check(brille::point_inside_all_planes(aa,ab,ad,one,1e-10,1)==all,"inside-all","inside all planes");
  // whether three points are on one line
  { I3 p=any(),q=any(),r; int e=c.si(3); bool line=c.b(); for(int j=0;j<3;++j) r[j]=p[j]+e*(q[j]-p[j]); if(!line) r=any(); auto z=ph::cross(ph::sub(q,p),ph::sub(r,q)); bool w=!ph::dot(z,z); std::vector<I3> P{p},Q{q},R{r}; if(!s.lat||exact){ auto g=brille::pseudo_colinear(make<A>(s,P),make<A>(s,Q),make<A>(s,R),1e-10,1); c.check(g.size()==1&&g[0]==w,"colinear",[&]{ return vp::str(p)+" "+vp::str(q)+" "+vp::str(r); }); } }
  // normals
  auto nn=brille::get_xyz(brille::three_point_normal(aa,ab,ad)); for(int i=0;i<n;++i){ V w=m3::cross(m3::sub(cart(b[i]),cart(a[i])),m3::sub(cart(d[i]),cart(b[i]))); w=m3::sc(w,1/m3::norm(w)); c.check(m3::maxdiff(w,{nn.val(i,0),nn.val(i,1),nn.val(i,2)})<1e-11L,"normal",[&]{ return "normal "+vp::str(i); }); }
  // where an edge meets a plane, its first end being beyond
  for(int q=0;q+1<m;++q){ int u=side(i0,q),v=side(i0,q+1); if(u*v>=0) continue; std::pair<ind_t,ind_t> e{(ind_t)(u<0?q:q+1),(ind_t)(u<0?q+1:q)}; auto at=brille::get_xyz(brille::edge_plane_intersection(ax,e,aa.view((ind_t)i0),ab.view((ind_t)i0),ad.view((ind_t)i0))); V f=cart(x[e.first]),g=cart(x[e.second]); L t=vol(i0,e.first)/(vol(i0,e.first)-vol(i0,e.second)); V w=m3::add(f,m3::sc(m3::sub(g,f),t)); L den=std::abs(vol(i0,e.first)-vol(i0,e.second))/scale(i0,q); c.check(m3::maxdiff(w,{at.val(0,0),at.val(0,1),at.val(0,2)})<=1e-12L*s.size*20/den,"edge-plane",[&]{ return "edge "+vp::str(q); }); }
  // a plane from its normal: the points define it, and its inside is opposite to the normal
  std::vector<I3> N; for(int i=0;i<n;++i){ I3 v=any(); if(c.p(40)) for(auto&j:v) j=c.b()?1:-1; if(c.p(15)) v={1,1,1}; if(c.p(15)) v={c.si(1),0,0}; if(!ph::dot(v,v)) v={0,0,1}; N.push_back(v); } c.note("normals",N); auto an=make<A>(s,N); if(c.b()) an=an/brille::norm(an);
  auto [pa,pb,pc]=brille::plane_points_from_normal(an,aa); auto xa=brille::get_xyz(pa),xb=brille::get_xyz(pb),xc=brille::get_xyz(pc); c.check(xa.size(0)==(ind_t)n&&xb.size(0)==(ind_t)n&&xc.size(0)==(ind_t)n,"from-normal","number of planes");
  for(int i=0;i<n;++i){ V w=cart(N[i]); w=m3::sc(w,1/m3::norm(w)); auto get=[&](auto& z){ return V{z.val(i,0),z.val(i,1),z.val(i,2)}; }; V p=cart(a[i]),A1=get(xa),B1=get(xb),C1=get(xc); for(auto&v:{A1,B1,C1}) c.check(std::abs(m3::dot(w,m3::sub(v,p)))<=1e-12L*(1+s.size*20),"from-normal",[&]{ return "a point is not on plane "+vp::str(i); });
    V z=m3::cross(m3::sub(B1,A1),m3::sub(C1,B1)); L zn=m3::norm(z); c.check(zn>1e-3L,"from-normal",[&]{ return "the points of plane "+vp::str(i)+" are on one line"; }); c.check(m3::maxdiff(m3::sc(z,1/zn),w)<1e-9L*(1+s.size),"from-normal",[&]{ return "plane "+vp::str(i)+" faces another way"; }); }
  // exact predicates
  if(exact){ auto in=brille::point_inside_plane(aa.view((ind_t)i0).decouple(),ab.view((ind_t)i0).decouple(),ad.view((ind_t)i0).decouple(),ax); for(int q=0;q<m;++q) c.check(in[q]==(side(i0,q)>=0),"inside-plane",[&]{ return "point "+vp::str(q); });
    auto ip=brille::point_inside_planes(aa,ab,ad,one.decouple()); for(int i=0;i<n;++i) c.check(ip[i]==(side(i,k)>=0),"inside-planes",[&]{ return "plane "+vp::str(i); }); } }
VP_PROP(planes,60000,1500000){ std::vector<I3> box; for(int k=0;k<8;++k) box.push_back({k&1?6:-6,k&2?6:-6,k&4?6:-6}); Space s; bool exact=c.p(30); if(exact){ s.den=(int)c.pick({1,2,4}); s.unit=m3::eye(); s.u=0; s.B=m3::mat(m3::d(m3::sc(m3::eye(),(L)1/s.den))); s.size=11; } else s=space(c,box,(int)c.pick({1,2,3,6,12})); c.label(exact?"exact":s.lat?"lattice":"Cartesian"); if(s.lat) halfspaces<LV>(c,s,false); else halfspaces<Array2>(c,s,exact); }
VP_MAIN
