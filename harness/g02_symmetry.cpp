// G02: interpolation anywhere is the transformed interpolation at the irreducible point
#include "grid.hpp"
#include <optional>
using namespace zn; using namespace gr; using R9=std::array<int,9>; using IV=bl::LVec<int>;
template<class S> static S coef(vp::Case& c,double m); template<> double coef<double>(vp::Case& c,double m){ return c.sreal(m); } template<> cd coef<cd>(vp::Case& c,double m){ double a=c.sreal(m); return cd(a,c.sreal(m)); }
static V act(const R9& R,const V& h){ V o; for(int i=0;i<3;++i) o[i]=R[i]*h[0]+R[3+i]*h[1]+R[6+i]*h[2]; return o; } // transpose
static V row(const QV& q,int i){ return V{(L)q.val(i,0),(L)q.val(i,1),(L)q.val(i,2)}; }
// the declared content of one branch, and how it changes under the reciprocal space operation m (in the orthonormal frame)
struct Kind { int s,v,m,how; int span() const { return s+3*v+9*m; } El el() const { return {(ind_t)s,(ind_t)(3*v),(ind_t)(9*m)}; } RotatesLike rl() const { return how==1?RotatesLike::pseudovector:RotatesLike::vector; } LengthUnit lu() const { return how==2?LengthUnit::reciprocal_lattice:LengthUnit::real_lattice; } };
static const char* hows[]{"vector in real lattice units","pseudovector in real lattice units","vector in reciprocal lattice units"};
static Kind kind(vp::Case& c,const char* what){ Kind k; k.s=(int)c.i(0,2); k.v=(int)c.i(0,2); k.m=(int)c.i(0,1); if(!(k.s+k.v+k.m)) k.v=1; k.how=(int)c.draw(3); c.note(what,vp::str(std::vector<int>{k.s,k.v,k.m})+" "+hows[k.how]); c.label(hows[k.how]); if(k.m) c.label("matrices"); return k; }
template<class S> static std::vector<S> turn(const Kind& k,const std::vector<S>& x,const M& m,const M& A,const M& B){ const M& U=k.how==2?B:A; M P=m3::mul(m3::mul(m3::inv(U),m),U),I=m3::inv(P); L s=k.how==1?(m3::det(m)<0?-1:1):1; std::vector<S> o(x); size_t at=k.s; for(int v=0;v<k.v;++v,at+=3) for(int i=0;i<3;++i){ o[at+i]=0; for(int j=0;j<3;++j) o[at+i]+=S((double)(s*P[3*i+j]))*x[at+j]; } for(int n=0;n<k.m;++n,at+=9) for(int i=0;i<3;++i)for(int j=0;j<3;++j){ S t=0; for(int a=0;a<3;++a)for(int b=0;b<3;++b) t+=S((double)(P[3*i+a]*I[3*b+j]))*x[at+3*a+b]; o[at+3*i+j]=t; } return o; }
template<class T,class R> static void run(vp::Case& c){ auto s=setup(c); std::optional<BZ> made; try{ made.emplace(s.k.lat,s.cfg); }catch(const std::runtime_error&){ c.discard(); } const BZ& z=*made; if(gr::crowded(z)) c.discard(); L vol=std::abs((L)z.get_ir_polyhedron().volume()); Par p=par(c,(double)vol,20); auto g=make<T,R>(z,p); BA x=g->xyz(); ind_t N=(ind_t)g->size(); M A=s.k.real,B=s.k.rec,iB=m3::inv(B); L mag=0; for(ind_t i=0;i<N;++i) mag=std::max(mag,m3::norm(vec(x,i)));
  Kind kv=kind(c,"values"),kw=kind(c,"vectors"); int nb=(int)c.i(1,3); constexpr bool ph=std::is_same_v<R,cd>; int ev=kv.span(),ew=kw.span();
  std::vector<std::array<T,4>> a(nb*ev); for(auto&q:a) for(auto&v:q) v=coef<T>(c,1); std::vector<std::array<R,4>> b(nb*ew); for(int i=0;i<nb;++i){ std::array<double,4> w; for(auto&v:w) v=c.sreal(1); w[3]=std::sqrt(w[0]*w[0]+w[1]*w[1]+w[2]*w[2])+c.real(0.1,2); for(int e=0;e<ew;++e){ R u=coef<R>(c,1); for(int j=0;j<4;++j) b[i*ew+e][j]=ph?u*R(w[j]):coef<R>(c,1); } }
  auto lin=[&](auto& q,const V& v){ using S=std::decay_t<decltype(q[0])>; V y=m3::sc(v,1/mag); return q[0]*S((double)y[0])+q[1]*S((double)y[1])+q[2]*S((double)y[2])+q[3]; };
  brille::Array<T> dv(brille::shape_t{N,(ind_t)nb,(ind_t)ev}); brille::Array<R> dw(brille::shape_t{N,(ind_t)nb,(ind_t)ew}); for(ind_t i=0;i<N;++i){ V v=vec(x,i); for(int m=0;m<nb;++m){ for(int e=0;e<ev;++e) dv.val(brille::shape_t{i,(ind_t)m,(ind_t)e})=lin(a[m*ev+e],v); R f(1); if constexpr(ph) f=std::polar(1.,c.real(-M_PI,M_PI)); for(int e=0;e<ew;++e) dw.val(brille::shape_t{i,(ind_t)m,(ind_t)e})=f*lin(b[m*ew+e],v); } }
  if(c.b()){ brille::Interpolator<T> iv(dv,kv.el(),kv.rl(),kv.lu()); brille::Interpolator<R> iw(dw,kw.el(),kw.rl(),kw.lu()); g->fill(iv,iw); } else { g->values(dv,kv.el(),kv.rl(),kv.lu()); g->vectors(dw,kw.el(),kw.rl(),kw.lu()); }
  // points, some of them equivalent to earlier ones
  auto ps=z.get_pointgroup_symmetry(); auto vx=z.get_ir_polyhedron().vertices().xyz(); M zb=s.prim?gen::colmat(s.k.lat.primitive().reciprocal_basis_vectors()):B; int n=c.i(2,14); std::vector<std::array<double,3>> Q; std::vector<int> mate(n,-1),via(n,-1); auto tau=[&]{ V t{0,0,0}; int m=(int)c.pick(std::vector<int>{1,1,3}); for(int j=0;j<3;++j){ int f=c.si(m); for(int r=0;r<3;++r) t[r]+=f*zb[3*r+j]; } return t; };
  for(int i=0;i<n;++i){ V y{0,0,0}; int kd=(int)c.draw(6); if(kd==0){ std::array<double,3> q; for(auto&v:q) v=c.sreal(c.p(80)?1:6); Q.push_back(q); continue; } if(kd==1){ std::array<double,3> q; int d=(int)c.pick(std::vector<int>{1,2,3,4,6}); for(auto&v:q) v=(double)c.si(3*d)/d; Q.push_back(q); continue; } if(kd==2) y=vec(vx,(ind_t)c.draw(vx.size(0))); else if(kd==3||!i){ L t=0; for(ind_t j=0;j<vx.size(0);++j){ L f=(L)c.real(0,1)+1e-3L; y=m3::add(y,m3::sc(vec(vx,j),f)); t+=f; } y=m3::sc(y,1/t); } else { int j=(int)c.draw(i); int o=(int)c.draw(ps.size()); V h{(L)Q[j][0],(L)Q[j][1],(L)Q[j][2]}; y=m3::add(m3::mul(B,act(ps.get((ind_t)o),h)),tau()); mate[i]=j; via[i]=o; Q.push_back(m3::d(m3::mul(iB,y))); continue; } if(c.p(60)) y=m3::mul(B,act(ps.get((ind_t)c.draw(ps.size())),m3::mul(iB,y))); if(c.p(50)) y=m3::add(y,tau()); Q.push_back(m3::d(m3::mul(iB,y))); }
  c.note("Q",Q); QV q(gen::QS,s.k.lat,0u); IV t(gen::QS,s.k.lat,0u); std::vector<size_t> ri,ii; auto Qv=qlist(s.k.lat,Q); c.check(z.ir_moveinto(Qv,q,t,ri,ii,1),"moved"); int th=(int)c.pick(std::vector<int>{1,1,2,3}); auto out=g->ir(Qv,th); auto& ov=std::get<0>(out); auto& ow=std::get<1>(out); c.check(ov.shape()==brille::shape_t{(ind_t)n,(ind_t)nb,(ind_t)ev}&&ow.shape()==brille::shape_t{(ind_t)n,(ind_t)nb,(ind_t)ew},"shape");
  auto getv=[&](int i,int m){ std::vector<T> o; for(int e=0;e<ev;++e) o.push_back(ov.val(brille::shape_t{(ind_t)i,(ind_t)m,(ind_t)e})); return o; }; auto getw=[&](int i,int m){ std::vector<R> o; for(int e=0;e<ew;++e) o.push_back(ow.val(brille::shape_t{(ind_t)i,(ind_t)m,(ind_t)e})); return o; };
  double cond=1; { M P=m3::inv(A); cond=(double)(m3::maxabs(A)*m3::maxabs(P)); cond*=cond; cond=std::max(cond,1.); } double tol=1e-9*(1+1e-3*cond);
  auto same=[&](const auto& got,const auto& want,bool phase,const char* tag,const std::string& say){ using S=std::decay_t<decltype(got[0])>; S f(1); double big=0,bg=0; for(size_t e=0;e<got.size();++e){ bg=std::max(bg,(double)std::abs(got[e])); if(std::abs(want[e])>big){ big=std::abs(want[e]); if constexpr(std::is_same_v<S,cd>) if(phase&&std::abs(got[e])>0) f=got[e]/std::abs(got[e])*std::conj(want[e])/big; } } for(size_t e=0;e<got.size();++e) c.check(std::abs(got[e]-f*want[e])<=tol*(1+big),tag,[&]{ return say+" element "+vp::str(e)+" of "+vp::str(got)+" expected "+vp::str(want); }); };
  int moved=0; for(int i=0;i<n;++i){ auto Rm=ps.get((ind_t)ri[i]); M m; { M r; for(int k=0;k<3;++k)for(int l=0;l<3;++l) r[3*k+l]=Rm[3*l+k]; m=m3::mul(m3::mul(B,r),iB); } V y=m3::mul(B,row(q,i)); std::string say="Q "+vp::str(Q[i])+" q "+vp::str(m3::d(row(q,i)))+" operation "+vp::str(Rm); bool id=Rm==R9{1,0,0,0,1,0,0,0,1}; moved+=!id;
    for(int b_=0;b_<nb;++b_){ std::vector<T> w0; for(int e=0;e<ev;++e) w0.push_back(lin(a[b_*ev+e],y)); same(getv(i,b_),turn(kv,w0,m,A,B),false,"values",say); std::vector<R> w1; for(int e=0;e<ew;++e) w1.push_back(lin(b[b_*ew+e],y)); same(getw(i,b_),turn(kw,w1,m,A,B),ph,"vectors",say); }
    // equivalent points differ by the operation between them when no operation leaves the irreducible point where it is
    if(mate[i]>=0&&s.wedge){ auto ir=z.get_ir_polyhedron(); auto fn=ir.face_normals().xyz(),fp=ir.face_points().xyz(); bool in=true; for(ind_t f=0;f<fn.size(0);++f) in&=m3::dot(vec(fn,f),m3::sub(y,vec(fp,f)))<-1e-7L*mag; if(in){ auto o=ps.get((ind_t)via[i]); M r; for(int k=0;k<3;++k)for(int l=0;l<3;++l) r[3*k+l]=o[3*l+k]; M mo=m3::mul(m3::mul(B,r),iB); for(int b_=0;b_<nb;++b_){ same(getv(i,b_),turn(kv,getv(mate[i],b_),mo,A,B),false,"equivalent-values",say+" from "+vp::str(Q[mate[i]])); same(getw(i,b_),turn(kw,getw(mate[i],b_),mo,A,B),ph,"equivalent-vectors",say+" from "+vp::str(Q[mate[i]])); } c.label("equivalent pair"); } } }
  c.nontrivial(moved>0&&(kv.v+kv.m+kw.v+kw.m)); if(moved) c.label("rotated");
  // points that are already irreducible are not moved on request
  { auto st=g->stay(q,th); auto& sv=std::get<0>(st); for(int i=0;i<n;++i) for(int b_=0;b_<nb;++b_){ std::vector<T> w0,g0; V y=m3::mul(B,row(q,i)); for(int e=0;e<ev;++e){ w0.push_back(lin(a[b_*ev+e],y)); g0.push_back(sv.val(brille::shape_t{(ind_t)i,(ind_t)b_,(ind_t)e})); } same(g0,w0,false,"not-moved",vp::str(m3::d(row(q,i)))); } }
  // content which can not be transformed is refused
  if(c.p(10)&&kw.v){ struct Bad { RotatesLike r; LengthUnit l; }; std::vector<Bad> bad{{RotatesLike::vector,LengthUnit::angstrom},{RotatesLike::pseudovector,LengthUnit::angstrom},{RotatesLike::vector,LengthUnit::inverse_angstrom},{RotatesLike::pseudovector,LengthUnit::reciprocal_lattice},{RotatesLike::vector,LengthUnit::none}}; auto k=c.pick(bad); brille::Interpolator<T> iv(dv,kv.el(),kv.rl(),kv.lu()); brille::Interpolator<R> iw(dw,kw.el(),k.r,k.l); g->fill(iv,iw); c.check(vp::throws([&]{ g->ir(Qv,th); }),"accepted"); c.label("refused"); } }
VP_PROP(symmetry,2600,60000,60){ int k=(int)c.draw(3); if(k==0) run<double,double>(c); else if(k==1) run<double,cd>(c); else run<cd,cd>(c); }
VP_MAIN
