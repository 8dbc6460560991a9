// P03: rigid motions, conversions, comparison and combination of polyhedra
#include "polygen.hpp"
#include "approx_config.hpp"
#include "pointsymmetry.hpp"
using brille::polyhedron::Faces; using Cyc=std::vector<std::vector<ind_t>>;
static M negated(const M& b){ return m3::sc(b,-1); }
static V cart(const Space& s,const std::array<double,3>& x){ return m3::mul(s.unit,V{(L)x[0],(L)x[1],(L)x[2]}); }
// points clearly inside or outside of the (exact) polyhedron, in components of the space
static std::vector<V> probes(vp::Case& c,const Hull& h,const Space& s,std::vector<int>& in){ std::vector<V> o; V g=m3::mul(s.B,h.centroid()); for(int k=0;k<6;++k){ auto&f=h.faces[c.draw(h.faces.size())]; V q{0,0,0}; L t=0; for(int v:f){ L u=(L)c.real(0.01,1); q=m3::add(q,m3::sc(m3::mul(s.B,ph::real(h.p[v])),u)); t+=u; } q=m3::sc(q,1/t); V x=m3::add(g,m3::sc(m3::sub(q,g),(L)c.pick(std::vector<double>{0.1,0.7,0.99,1.01,1.5}))); bool clear=true; L m=-1e9L; for(auto&f2:h.faces){ for(size_t i=0;i<f2.size();++i)for(size_t j=i+1;j<f2.size();++j)for(size_t l=j+1;l<f2.size();++l){ V a=m3::mul(s.B,ph::real(h.p[f2[i]])),b=m3::mul(s.B,ph::real(h.p[f2[j]])),d=m3::mul(s.B,ph::real(h.p[f2[l]])); V n=m3::cross(m3::sub(b,a),m3::sub(d,a)); L v=m3::dot(n,m3::sub(x,a)); if(m3::det(s.B)<0) v=-v; clear&=std::abs(v)>1e-13L; m=std::max(m,v/m3::norm(n)); } } if(!clear||std::abs(m)<1e-7L*s.size) continue; o.push_back(x); in.push_back(m<0); } return o; }
template<class P,class F> static void inside(vp::Case& c,const P& p,const Space& s,const std::vector<V>& x,const std::vector<int>& in,F move,const char* tag){ if(x.empty()) return; M iv=m3::inv(s.unit); std::vector<std::array<double,3>> y; for(auto&v:x) y.push_back(m3::d(m3::mul(iv,move(v)))); auto r=p.contains(y); for(size_t i=0;i<x.size();++i) c.check(r[i]==(bool)in[i],tag,[&]{ return "moved point "+vp::str(y[i])+(in[i]?" was inside":" was outside"); }); }
template<template<class> class A> static void moves(vp::Case& c,const Hull& h,const Space& s,const std::vector<I3>& ext,const brille::PointSymmetry* ps){ using P=Poly<double,A>; auto v=make<A>(s,ext); P p(v); geometry(c,p,h,s.B,s.size,"hull"); auto before=p.vertices(); P keep(p); std::vector<int> in; auto x=probes(c,h,s,in); auto id=[](const V& y){ return y; };
  auto m=p.mirror(); geometry(c,m,h,negated(s.B),s.size,"mirror"); inside(c,m,s,x,in,[&](const V& y){ return m3::sc(y,-1); },"mirror-contains"); c.check(m.mirror().is_approx(p),"mirror-twice");
  auto z=p.centre(); V g=m3::mul(s.B,h.centroid()); geometry(c,z,h,s.B,2*s.size,"centre",m3::sc(g,-1)); inside(c,z,s,x,in,[&](const V& y){ return m3::sub(y,g); },"centre-contains"); auto zc=brille::get_xyz(z.centroid()); L vol=std::abs(m3::det(s.B))*h.vol6()/6; for(int k=0;k<3;++k) c.check(std::abs(zc.val(0,k))<=1e-11L*s.size*(1+s.size*s.size*s.size/vol),"centre","the centroid is not at the origin");
  P q=p; c.check(q==p&&p==q&&!(q!=p),"copy"); P r; r=p; c.check(r==p,"copy-assigned"); P mv(std::move(q)); c.check(mv==p,"moved"); q=std::move(mv); c.check(q==p,"move-assigned"); geometry(c,r,h,s.B,s.size,"copy-assigned"); c.check(p.is_approx(keep)&&!p.is_not_approx(keep),"copy");
  if constexpr(std::is_same_v<A<double>,LV<double>>){
    std::array<double,3> t; for(auto&k:t) k=c.b()?c.si(5):c.real(-3,3); c.note("translation",t); auto T=LV<double>::from_std(s.u?gen::QS:gen::RS,s.lattice,std::vector<std::array<double,3>>{t}); auto y=p.translate(T); V w=cart(s,t); L sz=s.size+m3::norm(w); geometry(c,y,h,s.B,sz,"translate",w); inside(c,y,s,x,in,[&](const V& k){ return m3::add(k,w); },"translate-contains"); auto back=y.translate(T*-1.); geometry(c,back,h,s.B,sz,"translate-back"); std::array<int,3> ti{c.si(3),c.si(3),c.si(3)}; auto Ti=LV<int>::from_std(s.u?gen::QS:gen::RS,s.lattice,std::vector<std::array<int,3>>{ti}); V wi=cart(s,{(double)ti[0],(double)ti[1],(double)ti[2]}); geometry(c,p.translate(Ti),h,s.B,s.size+m3::norm(wi),"translate-integer",wi);
    if(ps) for(int n=0;n<2;++n){ ind_t i=(ind_t)c.draw(ps->size()); auto W=m3::mat(ps->get(i)); if(s.u) W=m3::tr(W); M B2=m3::sc(m3::mul(s.unit,W),1.0L/s.den); M Rx=m3::mul(m3::mul(s.unit,W),m3::inv(s.unit)); c.note("operation",ps->get(i)); auto a=p.apply(*ps,i); geometry(c,a,h,B2,s.size,"apply"); inside(c,a,s,x,in,[&](const V& k){ return m3::mul(Rx,k); },"apply-contains"); ind_t inv=ps->get_inverse_index(i); geometry(c,a.apply(*ps,inv),h,s.B,s.size,"apply-inverse"); c.check(a.vertices().size(0)==p.vertices().size(0),"apply"); if(m3::det(m3::mat(ps->get(i)))<0) c.label("improper operation"); }
    // the same polyhedron in Cartesian units, and in units of another lattice
    using C=Poly<double,Array2>; C cx(p.vertices().xyz(),p.faces()); geometry(c,cx,h,s.B,s.size,"Cartesian"); auto cell=gen::cell(c); M a2=m3::basis(cell.g); if(c.b()) a2=m3::mul(gen::rotation(c),a2); auto l2=bl::Direct<double>(m3::d(a2),brille::MatrixVectors::column,gen::symmetry(1)); auto like=LV<double>::from_std(s.u?gen::QS:gen::RS,l2,std::vector<std::array<double,3>>{{0,0,0}}); auto v2=brille::from_xyz_like(like,p.vertices().xyz()); P p2(v2,p.faces()); geometry(c,p2,h,s.B,s.size,"other-lattice"); P p3(v2); geometry(c,p3,h,s.B,s.size,"other-lattice-hull"); Space s2=s; s2.unit=s.u?gen::dual(m3::mat(m3::d(a2))):m3::mat(m3::d(a2)); inside(c,p2,s2,x,in,id,"other-lattice-contains"); }
  // nothing changed the polyhedron
  bool same=before.size(0)==p.vertices().size(0); auto now=p.vertices(); for(ind_t i=0;same&&i<before.size(0);++i) for(int k=0;k<3;++k) same&=before.val(i,k)==now.val(i,k); c.check(same&&p==keep,"input-changed"); geometry(c,p,h,s.B,s.size,"input-changed"); c.nontrivial(); }
static void grow(std::vector<I3>& p,int f,int& den){ for(auto&x:p) for(auto&k:x) k*=f; den*=f; }
VP_PROP(motions,30000,700000){ int den; auto pts=points(c,den); Hull h(pts); if(!h.solid) c.discard(); std::vector<I3> ext; for(int e:h.ext) ext.push_back(h.p[e]); c.note("points",ext); c.note("denominator",den); if(c.p(60)){ int hn=gen::hall(c); auto sym=gen::symmetry(hn); auto W=gen::point_ops(sym); auto cell=gen::compatible_cell(c,W); gen::note_cell(c,cell); Space s=space(c,pts,den,&cell); brille::PointSymmetry ps; for(auto&w:W) ps.add(w); c.label("symmetric lattice"); moves<LV>(c,h,s,ext,&ps); } else { Space s=space(c,pts,den); c.label(s.lat?"lattice":"Cartesian"); if(s.lat) moves<LV>(c,h,s,ext,nullptr); else moves<Array2>(c,h,s,ext,nullptr); } }
// equality
static bool ph_same(const Cyc& a,const Cyc& b){ auto set=[](Cyc f){ for(auto&x:f) std::rotate(x.begin(),std::min_element(x.begin(),x.end()),x.end()); std::sort(f.begin(),f.end()); return f; }; return set(a)==set(b); }
static bool centred(const std::vector<I3>& e){ std::set<I3> a(e.begin(),e.end()); for(auto&x:e) if(!a.count({-x[0],-x[1],-x[2]})) return false; return true; }
template<template<class> class A> static void equals(vp::Case& c,const Space& s,const std::vector<I3>& ext){ using P=Poly<double,A>; P p(make<A>(s,ext)); auto v=p.vertices(); auto fs=p.faces().faces(); ind_t n=v.size(0); auto pm=c.perm((int)n); std::vector<ind_t> ord(n),inv(n); for(ind_t i=0;i<n;++i){ ord[i]=(ind_t)pm[i]; inv[ord[i]]=i; } auto w=v.extract(ord); auto relabel=[&](Cyc f){ for(auto&x:f) for(auto&k:x) k=inv[k]; c.shuffle(f); for(auto&x:f) std::rotate(x.begin(),x.begin()+c.draw(x.size()),x.end()); return f; };
  auto fs2=relabel(fs); P q(w,Faces(fs2)); auto eq=[&](const P& a,const P& b,bool want,const char* tag,const std::string& what,double T=0){ bool e=T>0?a.is_approx(b,T):a==b, ne=T>0?a.is_not_approx(b,T):a!=b; c.check(e==want&&ne==!want,tag,[&]{ return what+(want?" is not equal":" is equal"); }); };
  eq(p,q,true,"permuted","the polyhedron with permuted vertices and faces"); eq(q,p,true,"permuted","the polyhedron with permuted vertices and faces"); eq(p,P(v,Faces(fs2)),ph_same(fs,fs2),"relabelled-only","the polyhedron with permuted face indices");
  // another shape
  { auto f=fs2; auto&x=f[c.draw(f.size())]; std::reverse(x.begin(),x.end()); eq(p,P(w,Faces(f)),false,"face-reversed","the polyhedron with one face reversed"); eq(P(w,Faces(f)),p,false,"face-reversed","the polyhedron with one face reversed"); } { auto f=fs2; f.erase(f.begin()+c.draw(f.size())); eq(p,P(w,Faces(f)),false,"face-removed","the polyhedron without one face"); eq(P(w,Faces(f)),p,false,"face-removed","the polyhedron without one face"); f.push_back(f[0]); eq(p,P(w,Faces(f)),false,"face-twice","the polyhedron with one face replaced by another"); eq(P(w,Faces(f)),p,false,"face-twice","the polyhedron with one face replaced by another"); } { auto f=fs2; f.push_back(f[c.draw(f.size())]); eq(p,P(w,Faces(f)),false,"face-twice","the polyhedron with one face twice"); eq(P(w,Faces(f)),p,false,"face-twice","the polyhedron with one face twice"); }
  eq(p,p.mirror(),centred(ext),"mirrored","the mirrored polyhedron");
  L least=1e9L; for(auto&a:ext) for(auto&b:ext) if(a!=b) for(int k=0;k<3;++k) if(a[k]!=b[k]) least=std::min<L>(least,std::abs(a[k]-b[k])*(s.lat?1.0L/s.den:1)); double d=(double)c.pick(std::vector<double>{1e-3,1e-5,1e-7}); { auto u=w*1.; u.val((ind_t)c.draw(n),(ind_t)c.draw(3))+=d; P m(u,Faces(fs2)); eq(p,m,false,"vertex-moved","the polyhedron with one vertex moved by "+vp::str(d)); eq(m,p,false,"vertex-moved","the polyhedron with one vertex moved by "+vp::str(d)); if(s.lat&&d*20<least){ eq(p,m,true,"moved-within-tolerance","with a tolerance of "+vp::str(3*d)+" the polyhedron with one vertex moved by "+vp::str(d),3*d); eq(p,m,false,"moved-beyond-tolerance","with a tolerance of "+vp::str(d/100)+" the polyhedron with one vertex moved by "+vp::str(d),d/100); } c.label(s.lat&&d*20<least?"tolerance":"exact"); }
  c.nontrivial(); }
VP_PROP(equality,30000,700000){ int den; auto pts=points(c,den); Hull h(pts); if(!h.solid) c.discard(); std::vector<I3> ext; for(int e:h.ext) ext.push_back(h.p[e]); c.note("points",ext); c.note("denominator",den); Space s=space(c,pts,den); if(s.lat) equals<LV>(c,s,ext); else equals<Array2>(c,s,ext); }
// combining
template<template<class> class A> static void combine(vp::Case& c,const Space& s,const Poly<double,A>& p,const Poly<double,A>& q,bool expect_close,L extra,const char* tag){ (void)extra; auto xp=brille::get_xyz(p.vertices()),xq=brille::get_xyz(q.vertices()); std::vector<V> pt; L tol=1e-9L*s.size; auto at=[&](const brille::bArray<double>& x,ind_t i){ V v{x.val(i,0),x.val(i,1),x.val(i,2)}; for(size_t k=0;k<pt.size();++k) if(m3::maxdiff(pt[k],v)<=tol) return (ind_t)k; pt.push_back(v); return (ind_t)(pt.size()-1); };
  auto cyc=[&](const Poly<double,A>& y,const brille::bArray<double>& x,auto at){ Cyc o; for(auto f:y.faces().faces()){ for(auto&k:f) k=at(x,k); std::rotate(f.begin(),std::min_element(f.begin(),f.end()),f.end()); o.push_back(f); } return o; }; for(ind_t i=0;i<xp.size(0);++i) at(xp,i); for(ind_t i=0;i<xq.size(0);++i) at(xq,i); size_t np=pt.size(); auto fp=cyc(p,xp,at),fq=cyc(q,xq,at); std::vector<char> keep(fq.size(),1); Cyc want; int shared=0,dup=0,part=0; for(auto&f:fp){ bool k=true; auto r=f; std::reverse(r.begin(),r.end()); std::rotate(r.begin(),std::min_element(r.begin(),r.end()),r.end()); for(size_t j=0;j<fq.size();++j){ if(fq[j]==r){ k=false; keep[j]=0; ++shared; } else if(fq[j]==f){ keep[j]=0; ++dup; } else { int n=0; for(auto a:f) n+=std::count(fq[j].begin(),fq[j].end(),a); if(n>2) ++part; } } if(k) want.push_back(f); } for(size_t j=0;j<fq.size();++j) if(keep[j]) want.push_back(fq[j]); c.label(shared?"share a face":dup?"share the side of a face":part?"share part of a face":"no common face"); c.nontrivial(shared||dup||part);
  for(int w=0;w<2;++w){ auto r=w?q.combine(p,1e-9):p.combine(q,1e-9); auto x=brille::get_xyz(r.vertices()); std::vector<int> id; std::set<int> seen; for(ind_t i=0;i<x.size(0);++i){ size_t k=at(x,i); c.check(k<np&&seen.insert((int)k).second,tag,"a vertex which was in neither, or twice"); id.push_back((int)k); } c.check(seen.size()==np,tag,"a vertex was lost"); auto got=cyc(r,x,at); auto wn=want; std::sort(got.begin(),got.end()); std::sort(wn.begin(),wn.end()); c.check(got==wn,tag,[&]{ return "faces "+vp::str(got)+" expected "+vp::str(wn); }); if(expect_close&&dup==0) c.close(r.volume(),p.volume()+q.volume(),(double)(1e-10L*s.size*s.size*s.size),tag,"volume"); }
  auto sum=p+q; if(shared==0&&dup==0&&expect_close) c.close(sum.volume(),p.volume()+q.volume(),(double)(1e-10L*s.size*s.size*s.size),"sum","volume of the sum"); auto self=p.combine(p); c.check(self==p&&self.face_count()==p.face_count(),"combined-with-itself"); }
template<template<class> class A> static void pieces(vp::Case& c,const Hull& h,const Space& s,const std::vector<I3>& ext,const std::vector<I3>& other){ using P=Poly<double,A>; P p(make<A>(s,ext)); int kind=(int)c.draw(3); if(kind==0){ P q(make<A>(s,other)); combine<A>(c,s,p,q,true,0,"combine"); return; }
  std::vector<I3> a(1),b(1),d(1); auto any=[&]{ I3 x; for(auto&k:x) k=c.si(20); return x; }; auto vert=[&]{ return h.p[h.ext[c.draw(h.ext.size())]]; }; for(int t=0;;++t){ a[0]=c.b()?vert():any(); b[0]=c.b()?vert():any(); d[0]=c.b()?vert():any(); if(t>5) a[0]=any(); if(!ph::zero(ph::cross(ph::sub(b[0],a[0]),ph::sub(d[0],b[0])))) break; } c.note("plane",std::vector<I3>{a[0],b[0],d[0]}); auto A1=make<A>(s,a),B1=make<A>(s,b),D1=make<A>(s,d); auto in=p.one_cut(A1,B1,D1,1e-10),out=p.one_cut(B1,A1,D1,1e-10); if(in.face_count()<4||out.face_count()<4) c.discard(); if(kind==2){ auto g=p.centroid(); auto y=out.vertices(); std::vector<I3> e(1),f(1),k(1); for(;;){ e[0]=any(); f[0]=any(); k[0]=c.b()?a[0]:any(); if(!ph::zero(ph::cross(ph::sub(f[0],e[0]),ph::sub(k[0],f[0])))) break; } out=out.one_cut(make<A>(s,e),make<A>(s,f),make<A>(s,k),1e-10); if(out.face_count()<4) c.discard(); } combine<A>(c,s,in,out,true,0,kind==1?"combine-halves":"combine-parts"); if(kind==1){ auto r=in.combine(out,1e-9); c.close(r.volume(),p.volume(),(double)(1e-10L*s.size*s.size*s.size),"combine-halves","volume of the halves combined"); auto hull=r.convex_hull(); c.close(hull.volume(),p.volume(),(double)(1e-9L*s.size*s.size*s.size),"combine-halves","volume of the hull of the halves combined"); } }
VP_PROP(combination,30000,700000){ int den,d2; auto pts=points(c,den); Hull h(pts); if(!h.solid) c.discard(); auto p2=c.b()?pts:points(c,d2); I3 sh{0,0,0}; if(c.p(60)) for(auto&k:sh) k=c.si(3); bool mir=c.b(); for(auto&x:p2) for(int k=0;k<3;++k) x[k]=(mir?-x[k]:x[k])+sh[k]; Hull g(p2); if(!g.solid) c.discard(); std::vector<I3> ext,oth; for(int e:h.ext) ext.push_back(h.p[e]); for(int e:g.ext) oth.push_back(g.p[e]); c.note("points",ext); c.note("others",oth); c.note("denominator",den); auto both=pts; both.insert(both.end(),p2.begin(),p2.end()); Space s=space(c,both,den); c.label(s.lat?"lattice":"Cartesian"); if(s.lat) pieces<LV>(c,h,s,ext,oth); else pieces<Array2>(c,h,s,ext,oth); }
VP_MAIN
