// G01: every grid covers its zone and is piecewise linear
#include "grid.hpp"
#include <optional>
using namespace zn; using namespace gr;
template<class S> static S coef(vp::Case& c,double m);
template<> double coef<double>(vp::Case& c,double m){ return c.sreal(m); }
template<> cd coef<cd>(vp::Case& c,double m){ double a=c.sreal(m); return cd(a,c.sreal(m)); }
struct Zone { std::vector<V> vx; std::vector<std::vector<int>> faces; std::vector<V> n,p; L size=0,vol=0; L depth(const V& x) const { L m=-1e9L; for(size_t f=0;f<n.size();++f) m=std::max(m,m3::dot(n[f],m3::sub(x,p[f]))); return m; } };
static Zone irzone(const BZ& z){ Zone o; auto ir=z.get_ir_polyhedron(); auto vx=ir.vertices().xyz(),fn=ir.face_normals().xyz(),fp=ir.face_points().xyz(); for(ind_t i=0;i<vx.size(0);++i) o.vx.push_back(vec(vx,i)); for(ind_t f=0;f<fn.size(0);++f){ o.n.push_back(vec(fn,f)); o.p.push_back(vec(fp,f)); } for(auto&f:ir.faces().faces()) o.faces.emplace_back(f.begin(),f.end()); for(auto&a:o.vx) for(auto&b:o.vx) o.size=std::max(o.size,m3::norm(m3::sub(a,b))); V g{0,0,0}; for(auto&a:o.vx) g=m3::add(g,m3::sc(a,1.0L/o.vx.size())); for(auto&f:o.faces) for(size_t i=1;i+1<f.size();++i) o.vol+=std::abs(m3::dot(m3::sub(o.vx[f[0]],g),m3::cross(m3::sub(o.vx[f[i]],g),m3::sub(o.vx[f[i+1]],g))))/6; return o; }
static V mix(vp::Case& c,const std::vector<V>& v,bool cube){ std::vector<L> w(v.size()); L s=0; for(auto&x:w){ x=c.p(25)?0:c.real(0,1); if(cube) x=x*x*x; s+=x; } if(s==0){ w[0]=1; s=1; } V o{0,0,0}; for(size_t i=0;i<v.size();++i) o=m3::add(o,m3::sc(v[i],w[i]/s)); return o; }
template<class T,class R> static void run(vp::Case& c){ auto s=setup(c); std::optional<BZ> made; try{ made.emplace(s.k.lat,s.cfg); }catch(const std::runtime_error&){ c.discard(); } const BZ& z=*made; Zone o=irzone(z); L sz=o.size; for(size_t i=0;i<o.vx.size();++i)for(size_t j=0;j<i;++j) if(m3::norm(m3::sub(o.vx[i],o.vx[j]))<2e-3L*sz) c.discard();
  Par p=par(c,(double)o.vol); auto g=make<T,R>(z,p); BA x=g->xyz(),h=g->hkl(); ind_t N=(ind_t)g->size(); c.note("vertices",N); c.check(x.size(0)==N&&h.size(0)==N,"count"); std::vector<V> X; for(ind_t i=0;i<N;++i) X.push_back(vec(x,i));
  // vertices: inside, distinct, the corners among them, in both units
  L mag=0; for(auto&v:o.vx) mag=std::max(mag,m3::norm(v)); for(ind_t i=0;i<N;++i){ c.check(o.depth(X[i])<=1e-9L*sz,"vertex-outside",[&]{ return vp::str(m3::d(X[i]))+" outside by "+vp::str((double)o.depth(X[i])); }); V y=m3::mul(s.k.rec,vec(h,i)); L d=m3::norm(m3::sub(y,X[i])); c.check(d<=1e-12L*(mag+m3::maxabs(s.k.rec)),"hkl",[&]{ return vp::str(m3::d(X[i]))+" reported as "+vp::str(m3::d(vec(h,i))); }); for(ind_t j=0;j<i;++j){ d=m3::norm(m3::sub(X[i],X[j])); c.check(d>1e-10L*sz,"repeated-vertex",[&]{ return vp::str(m3::d(X[i]))+" twice, "+vp::str((double)d)+" apart"; }); } }
  for(auto&v:o.vx){ L b=1e9L; for(auto&y:X) b=std::min(b,m3::norm(m3::sub(v,y))); c.check(b<=1e-9L*sz,"corner",[&]{ return "corner "+vp::str(m3::d(v))+" is "+vp::str((double)b)+" from the nearest vertex"; }); }
  double tot=g->total(); if(tot>=0) c.close(tot,(double)o.vol,1e-9*(double)o.vol,"volume","total volume of the nodes");
  // random data is reproduced at the vertices; affine data everywhere
  int mv=c.i(1,4),ev=c.i(1,3),mw=mv,ew=c.i(1,3); bool affine=c.p(75); std::vector<std::array<T,4>> A(mv*ev); for(auto&a:A) for(auto&v:a) v=coef<T>(c,1); std::vector<std::array<double,4>> B(mw); std::vector<R> U(mw*ew); for(auto&a:B){ for(auto&v:a) v=c.sreal(1); a[3]=std::sqrt(a[0]*a[0]+a[1]*a[1]+a[2]*a[2])+c.real(0.1,2); } for(auto&u:U) u=coef<R>(c,1); 
  auto val=[&](const V& v,int e){ V y=m3::sc(v,1/mag); return T(A[e][0]*(double)y[0]+A[e][1]*(double)y[1]+A[e][2]*(double)y[2]+A[e][3]); }; auto amp=[&](const V& v,int b){ V y=m3::sc(v,1/mag); return (double)(B[b][0]*y[0]+B[b][1]*y[1]+B[b][2]*y[2]+B[b][3]); };
  brille::Array<T> dv(brille::shape_t{N,(ind_t)mv,(ind_t)ev}); brille::Array<R> dw(brille::shape_t{N,(ind_t)mw,(ind_t)ew}); for(ind_t i=0;i<N;++i){ for(int b=0;b<mv;++b)for(int e=0;e<ev;++e) dv.val(brille::shape_t{i,(ind_t)b,(ind_t)e})=affine?val(X[i],b*ev+e):coef<T>(c,1); for(int b=0;b<mw;++b){ R ph(1); if constexpr(std::is_same_v<R,cd>) ph=std::polar(1.,c.real(-M_PI,M_PI)); for(int e=0;e<ew;++e) dw.val(brille::shape_t{i,(ind_t)b,(ind_t)e})=affine?R(ph*amp(X[i],b)*U[b*ew+e]):coef<R>(c,1); } }
  bool interp=c.b(); if(interp){ brille::Interpolator<T> iv(dv,El{(ind_t)ev,0,0},RotatesLike::vector,LengthUnit::real_lattice); brille::Interpolator<R> iw(dw,El{(ind_t)ew,0,0},RotatesLike::vector,LengthUnit::real_lattice); g->fill(iv,iw); } else { g->values(dv,El{(ind_t)ev,0,0},RotatesLike::vector,LengthUnit::real_lattice); g->vectors(dw,El{(ind_t)ew,0,0},RotatesLike::vector,LengthUnit::real_lattice); } c.nontrivial(N>8);
  int th=(int)c.pick(std::vector<int>{-1,1,1,2}); c.note("threads",th); auto cmp=[&](const std::vector<V>& P,bool stored,const char* tag){ if(P.empty()) return; std::vector<std::array<double,3>> a; for(auto&v:P) a.push_back(m3::d(v)); BA q=BA::from_std(a); auto out=g->at(q,th); auto& ov=std::get<0>(out); auto& ow=std::get<1>(out); c.check(ov.shape()==brille::shape_t{(ind_t)P.size(),(ind_t)mv,(ind_t)ev}&&ow.shape()==brille::shape_t{(ind_t)P.size(),(ind_t)mw,(ind_t)ew},"shape");
    for(ind_t i=0;i<P.size();++i){ for(int b=0;b<mv;++b)for(int e=0;e<ev;++e){ brille::shape_t at{i,(ind_t)b,(ind_t)e}; T want=stored?dv.val(at):val(P[i],b*ev+e),got=ov.val(at); c.check(std::abs(want-got)<=1e-9,tag,[&]{ return "at "+vp::str(a[i])+" depth "+vp::str((double)o.depth(P[i]))+" value "+vp::str(got)+" expected "+vp::str(want); }); }
      for(int b=0;b<mw;++b){ R ph(1); double best=0; for(int e=0;e<ew;++e){ brille::shape_t at{i,(ind_t)b,(ind_t)e}; R want=stored?dw.val(at):R(amp(P[i],b)*U[b*ew+e]),got=ow.val(at); if constexpr(std::is_same_v<R,cd>) if(std::abs(want)>best&&std::abs(got)>0){ best=std::abs(want); ph=got/std::abs(got)*std::conj(want)/std::abs(want); } } for(int e=0;e<ew;++e){ brille::shape_t at{i,(ind_t)b,(ind_t)e}; R want=stored?dw.val(at):R(amp(P[i],b)*U[b*ew+e]),got=ow.val(at); c.check(std::abs(want*ph-got)<=2e-9,tag,[&]{ return "at "+vp::str(a[i])+" vector element "+vp::str(got)+" expected "+vp::str(want)+" times "+vp::str(ph); }); } } } };
  cmp(X,true,"stored");
  std::vector<V> P; int n=c.i(5,25); for(int i=0;i<n;++i){ int kd=(int)c.draw(7); V v; if(kd==0){ auto&f=o.faces[c.draw(o.faces.size())]; std::vector<V> fv; for(int j:f) fv.push_back(o.vx[j]); v=mix(c,fv,c.b()); c.label("on a face"); } else if(kd==1){ auto&f=o.faces[c.draw(o.faces.size())]; size_t j=c.draw(f.size()); v=mix(c,{o.vx[f[j]],o.vx[f[(j+1)%f.size()]]},false); c.label("on an edge"); } else if(kd==2) v=o.vx[c.draw(o.vx.size())]; else if(kd==3){ V a=X[c.draw(N)],b=X[c.draw(N)]; v=m3::sc(m3::add(a,b),0.5L); c.label("between vertices"); } else if(kd==4){ v=X[c.draw(N)]; V a=mix(c,o.vx,false); L f=std::pow(10.L,-c.i(1,15)); v=m3::add(v,m3::sc(m3::sub(a,v),f)); c.label("next to a vertex"); } else if(kd==5&&o.depth(V{0,0,0})<=1e-12L) v={0,0,0}; else v=mix(c,o.vx,c.b()); P.push_back(v); }
  c.note("first point",m3::d(P[0])); if(affine) cmp(P,false,"affine"); else { std::vector<std::array<double,3>> a; for(auto&v:P) a.push_back(m3::d(v)); auto out=g->at(BA::from_std(a),th); (void)out; }
  // the weights describe the point
  for(auto&v:P){ BA q=BA::from_std(std::vector<std::array<double,3>>{m3::d(v)}); auto iw=g->iw(q); auto say=[&]{ return "at "+vp::str(m3::d(v))+" depth "+vp::str((double)o.depth(v)); }; c.check(!iw.empty(),"not-found",say); L t=0; V y{0,0,0}; std::set<ind_t> seen; for(auto&[i,w]:iw){ c.check(i<N,"index"); c.check(seen.insert(i).second,"index-twice",say); c.check(w>=-1e-9&&w<=1+1e-9,"weight",[&]{ return say()+" weight "+vp::str(w); }); t+=w; y=m3::add(y,m3::sc(X[i],w)); } c.check(std::abs((double)t-1)<=1e-9,"weight-sum",[&]{ return say()+" sum "+vp::str((double)t); }); c.check(m3::norm(m3::sub(y,v))<=1e-9L*sz,"weighted-position",[&]{ return say()+" combination of vertices gives "+vp::str(m3::d(y)); }); } }
VP_PROP(cover,3000,30000,60){ int k=(int)c.draw(3); if(k==0) run<double,double>(c); else if(k==1) run<double,cd>(c); else run<cd,cd>(c); }
VP_MAIN
