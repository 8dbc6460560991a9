// P04: tetrahedral fillings partition a convex polyhedron
#include "polygen.hpp"
#include "approx_config.hpp"
#include "permutation_table.hpp"
#include "triangulation_simple.hpp"
#include "triangulation_poly.hpp"
#include "triangulation_layers.hpp"
#include "nest.hpp"
#include <sstream>
#include <functional>
using Tets=std::vector<std::array<ind_t,4>>; using Pos=std::vector<V>; using VW=std::vector<std::pair<ind_t,double>>;
struct Solid { Hull h; M B; V off; L size,vol; std::vector<V> n; std::vector<L> d; std::vector<V> ext; V cen;
  Solid(const Hull& hh,const M& b,const V& o,L s):h(hh),B(b),off(o),size(s){ vol=std::abs(m3::det(B))*h.vol6()/6; bool flip=m3::det(B)<0; for(auto&f:h.faces){ V a=at(f[0]); V q{0,0,0}; for(size_t i=1;i+1<f.size();++i) q=m3::add(q,m3::cross(m3::sub(at(f[i]),a),m3::sub(at(f[i+1]),a))); q=m3::sc(q,(flip?-1:1)/m3::norm(q)); n.push_back(q); d.push_back(m3::dot(q,a)); } for(int e:h.ext) ext.push_back(at(e)); cen=m3::add(m3::mul(B,h.centroid()),off); }
  V at(int i) const { return m3::add(m3::mul(B,ph::real(h.p[i])),off); }
  L depth(const V& x) const { L m=1e30L; for(size_t i=0;i<n.size();++i) m=std::min(m,d[i]-m3::dot(n[i],x)); return m; } };
static Pos pos(const brille::bArray<double>& a){ Pos p; for(ind_t i=0;i<a.size(0);++i) p.push_back({a.val(i,0),a.val(i,1),a.val(i,2)}); return p; }
static L tetvol(const Pos& p,const std::array<ind_t,4>& t){ return m3::dot(m3::sub(p[t[1]],p[t[0]]),m3::cross(m3::sub(p[t[2]],p[t[0]]),m3::sub(p[t[3]],p[t[0]])))/6; }
static brille::bArray<double> one(const V& x){ return brille::bArray<double>::from_std(std::vector<std::array<double,3>>{m3::d(x)}); }
// a filling: positive tetrahedra, no larger than limit, of the right total volume and using every corner of the solid
// the largest tetrahedron which tetgen itself leaves, given the same request
static double tetgenMax(const std::vector<V>& p,const std::vector<std::vector<ind_t>>& f,double limit,bool gamma,int varvol){ tetgenbehavior b; b.plc=1; b.epsilon=1e-14; b.quiet=1; b.smooth_maxiter=0; if(limit>0||varvol) b.quality=1; if(limit>0){ b.fixedvolume=1; b.maxvolume=limit; } else if(varvol) b.varvolume=1; tetgenio in,out; in.numberofpoints=(int)p.size(); in.pointlist=new double[3*p.size()]; for(size_t i=0;i<p.size();++i) for(int j=0;j<3;++j) in.pointlist[3*i+j]=(double)p[i][j]; in.pointmarkerlist=new int[p.size()]; for(size_t i=0;i<p.size();++i) in.pointmarkerlist[i]=(int)i; in.numberoffacets=(int)f.size(); in.facetmarkerlist=new int[f.size()]; for(size_t i=0;i<f.size();++i) in.facetmarkerlist[i]=(int)i; in.facetlist=new tetgenio::facet[f.size()]; for(size_t i=0;i<f.size();++i){ auto&q=in.facetlist[i]; tetgenio::init(&q); q.numberofpolygons=1; q.polygonlist=new tetgenio::polygon[1]; auto&g=q.polygonlist[0]; g.numberofvertices=(int)f[i].size(); g.vertexlist=new int[f[i].size()]; for(size_t j=0;j<f[i].size();++j) g.vertexlist[j]=(int)f[i][j]; } if(gamma) brille::include_origin(in); tetrahedralize(&b,&in,&out); double mx=0; Pos o; for(int i=0;i<out.numberofpoints;++i) o.push_back({out.pointlist[3*i],out.pointlist[3*i+1],out.pointlist[3*i+2]}); for(int i=0;i<out.numberoftetrahedra;++i){ auto*t=out.tetrahedronlist+(size_t)i*out.numberofcorners; mx=std::max(mx,(double)std::abs(tetvol(o,{(ind_t)t[0],(ind_t)t[1],(ind_t)t[2],(ind_t)t[3]}))); } return mx; }
static void tiling(vp::Case& c,const Solid& s,const Pos& p,const Tets& t,const std::vector<double>& vol,double limit,bool conforming,const char* tag,const std::function<double()>& direct={}){ double lim0=limit; if(limit>0&&direct){ double mx=0; for(auto&q:t){ for(auto k:q) c.check(k<p.size(),tag,"vertex index out of range"); mx=std::max(mx,(double)std::abs(tetvol(p,q))); } if(mx>limit*(1+1e-9)){ limit=std::max(limit,direct()); if(limit>lim0*(1+1e-9)) c.label("KNOWN tetgen exceeds the volume limit"); } } c.check(!t.empty(),tag,"no tetrahedra"); L sum=0; int sign=0; for(size_t i=0;i<t.size();++i){ for(auto k:t[i]) c.check(k<p.size(),tag,"vertex index out of range"); L v=tetvol(p,t[i]); if(std::abs(v)>1e-12L*s.vol){ int g=v>0?1:-1; if(!sign) sign=g; c.check(g==sign,tag,"tetrahedra of both orientations"); } if(!vol.empty()){ c.check(vol[i]>=0,tag,[&]{ return "tetrahedron of volume "+vp::str(vol[i]); }); c.close(vol[i],(double)std::abs(v),(double)(1e-12L*s.size*s.size*s.size),tag,"volume of a tetrahedron"); } sum+=std::abs(v); if(limit>0) c.check(std::abs(v)<=limit*(1+1e-9),tag,[&]{ return "tetrahedron of volume "+vp::str((double)std::abs(v))+" exceeds the limit "+vp::str(limit); }); }
  c.close((double)sum,(double)s.vol,(double)(1e-10L*s.vol+1e-12L*s.size*s.size*s.size),tag,"total volume"); for(auto&x:p) c.check(s.depth(x)>=-1e-9L*s.size,tag,"a vertex of the filling lies outside"); for(auto&e:s.ext){ bool k=false; for(auto&x:p) k|=m3::maxdiff(x,e)<=1e-11L*s.size; c.check(k,tag,"a vertex of the polyhedron is missing"); } std::vector<char> used(p.size(),0); for(auto&q:t) for(auto k:q) used[k]=1; c.check(std::find(used.begin(),used.end(),0)==used.end(),tag,"an unused vertex"); for(size_t i=0;i<p.size();++i) for(size_t j=0;j<i;++j) c.check(m3::maxdiff(p[i],p[j])>(conforming?1e-14L*s.size:2e-15L),tag,"repeated vertices");
  if(conforming){ std::map<std::array<ind_t,3>,int> f; for(auto&q:t) for(int o=0;o<4;++o){ std::array<ind_t,3> k; int m=0; for(int j=0;j<4;++j) if(j!=o) k[m++]=q[j]; std::sort(k.begin(),k.end()); ++f[k]; } for(auto&kv:f){ c.check(kv.second<3,tag,"a triangle shared by three tetrahedra"); if(kv.second==1){ bool on=false; for(size_t i=0;i<s.n.size();++i){ bool all=true; for(auto v:kv.first) all&=std::abs(s.d[i]-m3::dot(s.n[i],p[v]))<=1e-9L*s.size; on|=all; } c.check(on,tag,"an interior triangle belongs to one tetrahedron only"); } } } }
static void sphere(vp::Case& c,const Solid& s,const Pos& p,const std::array<ind_t,4>& t,const std::array<double,4>& r,const char* tag){ V o{r[0],r[1],r[2]}; L v=std::abs(tetvol(p,t)); L tol=1e-10L*r[3]+1e-13L*(s.size+r[3])*std::pow(s.size,3)/v; if(v<1e-6L*s.size*s.size*s.size) return; for(auto k:t) c.check(std::abs(m3::norm(m3::sub(p[k],o))-(L)r[3])<=tol,tag,[&]{ return "circumsphere radius "+vp::str(r[3])+" but a vertex at "+vp::str((double)m3::norm(m3::sub(p[k],o))); }); }
// a query point and how it relates to the solid: 1 strictly inside (or a vertex), 0 on the surface, -1 outside
static V query(vp::Case& c,const Solid& s,const Pos& p,const Tets& t,int& where){ V x{0,0,0}; auto mix=[&](const std::vector<V>& q){ L tot=0; V y{0,0,0}; for(auto&v:q){ L w=c.p(15)?0:c.real(0.01,1); tot+=w; y=m3::add(y,m3::sc(v,w)); } if(tot==0) return q[0]; return m3::sc(y,1/tot); }; auto corner=[&](const std::array<ind_t,4>& q,int n){ std::vector<V> o; auto k=c.perm(4); for(int i=0;i<n;++i) o.push_back(p[q[k[i]]]); return o; };
  switch(c.draw(8)){ case 0: x=mix(s.ext); break; case 1: { auto&f=s.h.faces[c.draw(s.h.faces.size())]; std::vector<V> q; for(int k:f) q.push_back(s.at(k)); x=mix(q); if(c.b()) x=m3::add(x,m3::sc(m3::sub(s.cen,x),(L)std::pow(10.,-c.i(1,10)))); break; } case 2: x=p[c.draw(p.size())]; { where=s.depth(x)>1e-11L*s.size?1:0; for(auto&e:s.ext) if(m3::maxdiff(e,x)<=1e-11L*s.size) where=1; } return x; case 3: x=mix(corner(t[c.draw(t.size())],4)); break; case 4: x=mix(corner(t[c.draw(t.size())],3)); break; case 5: x=mix(corner(t[c.draw(t.size())],2)); break; case 6: { auto q=corner(t[c.draw(t.size())],2); x=m3::sc(m3::add(q[0],q[1]),0.5L); break; } default: { V y=s.ext[c.draw(s.ext.size())]; if(c.b()){ std::vector<V> q; auto&f=s.h.faces[c.draw(s.h.faces.size())]; for(int k:f) q.push_back(s.at(k)); y=mix(q); } x=m3::add(y,m3::sc(m3::sub(y,s.cen),(L)(c.b()?c.real(0,3):std::pow(10.,-c.i(0,9))))); } }
  x=m3::vec(m3::d(x)); L d=s.depth(x)/s.size; where=d>1e-11L?1:d<-1e-6L?-1:0; return x; }
static void located(vp::Case& c,const Solid& s,const Pos& p,const Tets& t,const V& x,int where,const VW& vw,const char* tag){ if(where<0){ c.check(vw.empty(),tag,[&]{ return "a point outside was located: "+vp::str(m3::d(x)); }); return; } if(where==0&&vw.empty()){ c.label("on the surface, not found"); return; } c.check(!vw.empty(),tag,[&]{ return "not located: "+vp::str(m3::d(x))+" depth/size "+vp::str((double)(s.depth(x)/s.size)); }); L sum=0; V y{0,0,0}; std::set<ind_t> ids; for(auto&q:vw){ c.check(q.first<p.size()&&ids.insert(q.first).second,tag,"vertex index"); c.check(q.second>=-1e-8&&q.second<=1+1e-8,tag,[&]{ return "weight "+vp::str(q.second); }); sum+=q.second; y=m3::add(y,m3::sc(p[q.first],q.second)); } c.close((double)sum,1,1e-9,tag,"sum of weights"); c.check(m3::maxdiff(x,y)<=1e-9L*s.size,tag,[&]{ return "weights give "+vp::str(m3::d(y))+" for "+vp::str(m3::d(x)); }); bool one=false; for(auto&q:t){ size_t m=0; for(auto k:q) m+=ids.count(k); one|=m==ids.size(); } c.check(one,tag,"vertices are not those of one tetrahedron"); }
struct Made { Solid s; brille::bArray<double> v; };
static Made cartesian(vp::Case& c){ int den; auto pts=points(c,den); c.note("points",pts); Hull h(pts); if(!h.solid) c.discard(); L f=(L)c.pick(std::vector<double>{1,1,0.5,0.37,0.1,2.3}); M r=c.p(50)?gen::rotation(c):m3::eye(); auto m=m3::d(m3::sc(r,f/den)); M B=m3::mat(m); V off{0,0,0}; if(c.p(30)) for(auto&x:off) x=(L)c.si(3)*f/2; else if(c.p(50)){ int n=(int)h.ext.size(); I3 a=h.p[h.ext[c.draw(n)]],b=a; if(c.p(60)){ auto&q=h.faces[c.draw(h.faces.size())]; a=h.p[q[0]]; b=h.p[q[c.draw(q.size())]]; } else b=h.p[h.ext[c.draw(n)]]; off=m3::sc(m3::mul(B,m3::add(ph::real(a),ph::real(b))),-0.5L); } c.note("matrix",m); c.note("offset",m3::d(off)); L size=0; for(auto&x:pts) for(auto&y:pts) size=std::max(size,m3::norm(m3::mul(B,ph::real(ph::sub(x,y))))); std::vector<std::array<double,3>> v; for(auto&x:pts) v.push_back(m3::d(m3::add(m3::mul(B,ph::real(x)),off))); return {Solid(h,B,off,size),brille::bArray<double>::from_std(v)}; }
static double limit(vp::Case& c,const Solid& s,int most){ if(c.p(20)) return -1; double k=c.b()?c.i(1,most):c.real(0.5,most); return (double)s.vol/k; }
static bool gammaIn(const Solid& s){ return s.depth({0,0,0})>-1e-13L*s.size; }
static bool gv(const Solid& s){ for(auto&x:s.ext) if(m3::norm(x)<=1e-12L*s.size) return true; return false; }
VP_PROP(simple,10000,200000){ auto m=cartesian(c); auto&s=m.s; Poly<double,Array2> poly(m.v); double lim=limit(c,s,40); bool gin=gammaIn(s),g=gin&&c.b(); c.note("limit",lim); c.note("gamma",g); if(g) c.label(s.depth({0,0,0})>1e-6L*s.size?"Gamma inside":"Gamma on the surface"); c.nontrivial(s.ext.size()>4||lim>0);
  { brille::SimpleTet t(poly,lim,g); auto p=pos(t.get_vertices()); auto q=t.std_vertices_per_tetrahedron(); std::vector<double> v; double mx=0; for(ind_t i=0;i<t.number_of_tetrahedra();++i){ v.push_back(t.volume(i)); mx=std::max(mx,v.back()); } auto direct=[&]{ return tetgenMax(pos(poly.vertices()),poly.faces().faces(),lim,g,0); }; tiling(c,s,p,q,v,lim,true,"simple",direct); c.check(t.maximum_volume()==mx&&t.number_of_vertices()==p.size(),"maximum-volume"); auto&a=t.get_vertices_per_tetrahedron(); for(size_t i=0;i<q.size();++i) for(int j=0;j<4;++j) c.check(a.val(i,j)==q[i][j],"vertex-lists"); for(size_t i=0;i<q.size();++i) sphere(c,s,p,q[i],t.circumsphere_info((ind_t)i),"circumsphere"); c.check(vp::throws([&]{ (void)t.circumsphere_info((ind_t)q.size()); }),"circumsphere-of-nothing"); if(g){ L k=1e9L; for(auto&x:p) k=std::min(k,m3::norm(x)); c.check(k<=1e-12L*s.size,lim>0?"gamma-missing-lim":"gamma-missing",[&]{ return "nearest vertex at "+vp::str((double)k); }); } }
  { brille::polyhedron::LQPolyTet<double,Array2> t(poly,g,lim); auto p=pos(t.get_vertices()); auto q=t.std_vertices_per_tetrahedron(); std::vector<double> v; double mx=0; for(ind_t i=0;i<t.number_of_tetrahedra();++i){ v.push_back(t.volume(i)); mx=std::max(mx,v.back()); } auto direct=[&]{ return tetgenMax(pos(poly.vertices()),poly.faces().faces(),lim,g,0); }; tiling(c,s,p,q,v,lim,true,"flexible",direct); c.close(t.maximum_volume(),mx,1e-12*mx,"flexible-maximum-volume","maximum volume"); for(size_t i=0;i<q.size();++i) sphere(c,s,p,q[i],t.circumsphere_info((ind_t)i),"flexible-circumsphere"); int extra=(int)p.size()-(int)s.ext.size(); if(g){ bool k=false; for(auto&x:p) k|=m3::norm(x)<=1e-12L*s.size; c.check(k,lim>0?"gamma-missing-lim":"gamma-missing"); if(!gv(s)) --extra; } c.check(t.count()==extra&&t.any()==(extra>0),"extra-vertices",[&]{ return vp::str(t.count())+" extra vertices reported, "+vp::str(extra)+" found"; }); } }
VP_PROP(lattice,5000,100000){ int den; auto pts=points(c,den); c.note("points",pts); Hull h(pts); if(!h.solid) c.discard(); Space sp=space(c,pts,den); if(!sp.lat) c.discard(); Solid s(h,sp.B,{0,0,0},sp.size); Poly<double,LV> poly(make<LV>(sp,pts)); double lim=limit(c,s,30); bool g=gammaIn(s)&&c.b(); c.note("limit",lim); c.note("gamma",g); if(g) c.label(s.depth({0,0,0})>1e-6L*s.size?"Gamma inside":"Gamma on the surface"); c.nontrivial(s.ext.size()>4||lim>0); brille::polyhedron::LQPolyTet<double,LV> t(poly,g,lim); auto p=pos(brille::get_xyz(t.get_vertices())); auto q=t.std_vertices_per_tetrahedron(); std::vector<double> v; double mx=0; for(ind_t i=0;i<t.number_of_tetrahedra();++i){ v.push_back(t.volume(i)); mx=std::max(mx,v.back()); } auto direct=[&]{ return tetgenMax(pos(brille::get_xyz(poly.vertices())),poly.faces().faces(),lim,g,0); }; tiling(c,s,p,q,v,lim,true,"lattice",direct); c.close(t.maximum_volume(),mx,1e-12*mx,"lattice-maximum-volume","maximum volume"); for(size_t i=0;i<q.size();++i) sphere(c,s,p,q[i],t.circumsphere_info((ind_t)i),"lattice-circumsphere"); if(g){ L k=1e9L; for(auto&x:p) k=std::min(k,m3::norm(x)); c.check(k<=1e-12L*s.size,lim>0?"gamma-missing-lim":"gamma-missing",[&]{ return "nearest vertex at "+vp::str((double)k); }); } }
template<class Ly> static Tets tets(const Ly& l){ Tets t; auto&a=l.get_vertices_per_tetrahedron(); for(ind_t i=0;i<a.size(0);++i) t.push_back({a.val(i,0),a.val(i,1),a.val(i,2),a.val(i,3)}); return t; }
static std::set<size_t> keys(const Tets& t,size_t n){ std::set<size_t> k; for(auto&q:t) for(auto a:q) for(auto b:q) if(a!=b) k.insert((size_t)a*n+b); return k; }
VP_PROP(layers,4000,60000,60){ auto m=cartesian(c); auto&s=m.s; Poly<double,Array2> poly(m.v); double lim=limit(c,s,25); int layers=c.i(0,5); c.note("limit",lim); c.note("layers",layers); c.nontrivial(lim>0&&layers>1); auto fs=poly.faces().faces();
  auto one_layer=brille::triangulate_one_layer(poly.vertices(),fs,lim); { auto p=pos(one_layer.get_vertex_positions()); auto t=tets(one_layer); std::vector<double> v; for(ind_t i=0;i<one_layer.number_of_tetrahedra();++i) v.push_back(one_layer.volume(i)); auto direct=[&]{ return tetgenMax(pos(poly.vertices()),fs,lim,false,1); }; tiling(c,s,p,t,v,lim,true,"layer",direct); auto st=one_layer.volume_statistics(); double tot=0; for(auto x:v) tot+=x; c.close(st[0],tot,1e-12*tot,"statistics","total"); c.check(st[1]==*std::min_element(v.begin(),v.end())&&st[2]==*std::max_element(v.begin(),v.end()),"statistics"); auto cc=pos(one_layer.get_circum_centres()); auto&cr=one_layer.get_circum_radii(); for(size_t i=0;i<t.size();++i) sphere(c,s,p,t[i],{(double)cc[i][0],(double)cc[i][1],(double)cc[i][2],cr[i]},"layer-circumsphere");
    for(int e=0;e<4;++e){ int w; V x=query(c,s,p,t,w); c.note("x",m3::d(x)); VW vw; auto idx=one_layer.locate(one(x),vw); c.check((idx<t.size())==!vw.empty(),"layer-locate"); located(c,s,p,t,x,w,vw,"layer-locate"); if(idx<t.size()){ for(auto&q:vw) c.check(std::find(t[idx].begin(),t[idx].end(),q.first)!=t[idx].end(),"layer-locate","vertex of another tetrahedron"); c.check(one_layer.contains(idx,one(x))&&one_layer.might_contain(idx,one(x)),"layer-contains"); VW v2; c.check(one_layer.locate(std::vector<ind_t>{idx},one(x),v2)==idx&&v2==vw,"layer-locate-listed"); } if(w<0){ c.check(!one_layer.contains((ind_t)c.draw(t.size()),one(x)),"layer-contains"); c.check(vp::throws([&]{ VW v3; one_layer.locate(std::vector<ind_t>{0},one(x),v3); }),"layer-locate-listed"); } c.check(vp::throws([&]{ VW v3; one_layer.locate(std::vector<ind_t>{(ind_t)t.size()},one(x),v3); }),"layer-locate-listed"); }
    auto tp=one_layer.get_tetrahedron((ind_t)c.draw(t.size())); c.check(tp.vertices().size(0)==4&&tp.face_count()==4&&tp.volume()>0,"get-tetrahedron"); ind_t b=(ind_t)c.draw(p.size()); std::set<ind_t> want; for(auto&q:t) if(std::find(q.begin(),q.end(),b)!=q.end()) for(auto k:q) if(k!=b) want.insert(k); auto nb=one_layer.neighbours(b); c.check(std::set<ind_t>(nb.begin(),nb.end())==want&&nb.size()==want.size(),"neighbours"); c.check(vp::throws([&]{ (void)one_layer.neighbours((ind_t)p.size()); }),"neighbours"); }
  auto tt=brille::triangulate(poly.vertices(),fs,lim,layers); auto p=pos(tt.get_vertex_positions()); auto t=tets(tt); tiling(c,s,p,t,{},lim,true,"stack",[&]{ return tetgenMax(pos(poly.vertices()),fs,lim,false,1); }); c.check(tt.number_of_vertices()==p.size()&&tt.number_of_tetrahedra()==t.size(),"stack-size"); c.check(tt.collect_keys()==keys(t,p.size()),"keys"); for(int e=0;e<8;++e){ int w; V x=query(c,s,p,t,w); c.note("x",m3::d(x)); c.label(w>0?"inside":w<0?"outside":"surface"); located(c,s,p,t,x,w,tt.locate(one(x)),"stack-locate"); } ind_t b=(ind_t)c.draw(p.size()); std::set<ind_t> want; for(auto&q:t) if(std::find(q.begin(),q.end(),b)!=q.end()) for(auto k:q) if(k!=b) want.insert(k); auto nb=tt.neighbours(b); c.check(std::set<ind_t>(nb.begin(),nb.end())==want,"stack-neighbours"); bool sure=s.depth(p[b])>1e-11L*s.size; for(auto&e:s.ext) sure|=m3::maxdiff(e,p[b])<=1e-11L*s.size; if(!sure&&tt.locate(one(p[b])).empty()) return; nb=tt.neighbours(one(p[b])); c.check(std::set<ind_t>(nb.begin(),nb.end())==want,"stack-neighbours-of-point"); }
using NestT=brille::Nest<double,double,double,Array2>;
VP_PROP(nest,10000,200000,60){ auto m=cartesian(c); auto&s=m.s; Poly<double,Array2> poly(m.v); int nb=c.i(0,5); bool dens=c.p(30); ind_t rho=(ind_t)c.i(1,60); double k=c.b()?c.i(1,60):c.real(0.5,60); double lim=dens?poly.volume()/rho:(double)s.vol/k; c.note("limit",lim); c.note("branchings",nb); c.nontrivial(nb>1); NestT n=dens?NestT(poly,rho,(ind_t)nb):NestT(poly,lim,(ind_t)nb); auto p=pos(n.vertices()); auto t=n.tetrahedra(); c.check(n.vertex_count()==p.size(),"vertex-count");
  tiling(c,s,p,t,{},-1,false,"nest");
  if(nb>0){ // tetrahedra which exceed the limit are as deep as allowed and left so by tetgen
    std::vector<std::array<ind_t,4>> path; std::vector<std::vector<std::array<ind_t,4>>> tree; std::istringstream in(n.tree_string()); std::string line; while(std::getline(in,line)){ auto k=line.find('['); if(k==std::string::npos) continue; size_t depth=0; for(size_t i=0;i<k;++i) if(line[i]==' '||line[i]=='|') ++depth; depth/=3; --depth; std::istringstream l(line.substr(k+1)); std::array<ind_t,4> q; for(auto&x:q) l>>x; c.check(depth<=(size_t)nb,"nest-depth",[&]{ return "depth "+vp::str(depth)+" of "+vp::str(nb); }); path.resize(depth); path.push_back(q); tree.emplace_back(path); }
    for(size_t i=0;i<tree.size();++i){ if(i+1<tree.size()&&tree[i+1].size()>tree[i].size()) continue; auto&q=tree[i].back(); L v=std::abs(tetvol(p,q)); if(v<=lim*(1+1e-9)) continue; c.check(tree[i].size()==(size_t)nb+1,"nest-limit",[&]{ return "a tetrahedron of volume "+vp::str((double)v)+" exceeds the limit "+vp::str(lim)+" but is not divided"; }); std::vector<std::array<double,3>> w; for(auto k:tree[i][nb-1]) w.push_back(m3::d(p[k])); Poly<double,Array2> par(brille::bArray<double>::from_std(w)); double mx=tetgenMax(pos(par.vertices()),par.faces().faces(),lim,false,0); c.check(v<=mx*(1+1e-9),"nest-limit",[&]{ return "tetrahedron of volume "+vp::str((double)v)+" exceeds the limit "+vp::str(lim); }); c.label("KNOWN tetgen exceeds the volume limit"); } } auto lf=n.vertex_is_leaf(); c.check(lf.size()==p.size(),"leaves"); 
  for(int e=0;e<10;++e){ int w; V x=query(c,s,p,t,w); c.note("x",m3::d(x)); c.label(w>0?"inside":w<0?"outside":"surface"); located(c,s,p,t,x,w,n.indices_weights(one(x)),"nest-locate"); } }
VP_MAIN
