// G04: results do not depend on the number of threads, nor on the order and blocking of the points
#include "grid.hpp"
#include <omp.h>
#include <optional>
using namespace zn; using namespace gr; using IV=bl::LVec<int>; using Q3=std::vector<std::array<double,3>>;
template<class S> static S coef(vp::Case& c); template<> double coef<double>(vp::Case& c){ return c.sreal(1); } template<> cd coef<cd>(vp::Case& c){ double a=c.sreal(1); return cd(a,c.sreal(1)); }
static Q3 pick(const Q3& x,const std::vector<int>& p){ Q3 o; for(int i:p) o.push_back(x[i]); return o; }
template<class T,class R> struct Res { std::vector<std::vector<T>> v; std::vector<std::vector<R>> w; void add(const std::tuple<brille::Array<T>,brille::Array<R>>& o,int nb,int ev,int ew){ auto& a=std::get<0>(o); auto& b=std::get<1>(o); for(ind_t i=0;i<a.size(0);++i){ std::vector<T> t; std::vector<R> r; for(int m=0;m<nb;++m){ for(int e=0;e<ev;++e) t.push_back(a.val(brille::shape_t{i,(ind_t)m,(ind_t)e})); for(int e=0;e<ew;++e) r.push_back(b.val(brille::shape_t{i,(ind_t)m,(ind_t)e})); } v.push_back(t); w.push_back(r); } } };
struct Moved { Q3 q; std::vector<std::array<int,3>> t; std::vector<size_t> r,i; };
template<class T,class R> static void run(vp::Case& c){ auto s=setup(c); std::optional<BZ> made; int tb=(int)c.pick(std::vector<int>{1,2,3,4,8}),tc=(int)c.pick(std::vector<int>{1,2,3,5}); c.note("threads building",std::vector<int>{tb,tc}); omp_set_num_threads(tb); try{ made.emplace(s.k.lat,s.cfg); }catch(const std::runtime_error&){ c.discard(); } const BZ& z=*made; if(crowded(z)) c.discard(); L vol=std::abs((L)z.get_ir_polyhedron().volume()); Par p=par(c,(double)vol,20); omp_set_num_threads(tb); auto g=make<T,R>(z,p); omp_set_num_threads(tc); auto g2=make<T,R>(z,p); BA x=g->xyz(),x2=g2->xyz(); ind_t N=(ind_t)g->size(); M B=s.k.rec,iB=m3::inv(B);
  auto vx=z.get_ir_polyhedron().vertices().xyz(); L sz=0; for(ind_t i=0;i<vx.size(0);++i)for(ind_t j=0;j<i;++j) sz=std::max(sz,m3::norm(m3::sub(vec(vx,i),vec(vx,j))));
  // two grids made with different numbers of threads have the same vertices
  c.check(g2->size()==N,"grid-size",[&]{ return vp::str((size_t)N)+" and "+vp::str(g2->size())+" vertices"; }); std::vector<int> to(N,-1); bool ordered=true; for(ind_t i=0;i<N;++i){ L b=1e9L; for(ind_t k=0;k<N;++k){ ind_t j=(i+k)%N; L d=m3::norm(m3::sub(vec(x,i),vec(x2,j))); if(d<b){ b=d; to[i]=(int)j; } if(b<1e-10L*sz) break; } c.check(b<=1e-9L*sz,"grid-vertex",[&]{ return "vertex "+vp::str(m3::d(vec(x,i)))+" is missing"; }); ordered&=to[i]==(int)i; } if(!ordered) c.label("different vertex order");
  double v1=g->total(),v2=g2->total(); c.check(std::abs(v1-v2)<=1e-9*std::abs(v1),"grid-volume");
  int nb=(int)c.i(1,3),ev=(int)c.pick(std::vector<int>{1,2,3,4,9}),ew=(int)c.pick(std::vector<int>{1,2,3,4,9}); brille::Array<T> dv(brille::shape_t{N,(ind_t)nb,(ind_t)ev}),dv2(brille::shape_t{N,(ind_t)nb,(ind_t)ev}); brille::Array<R> dw(brille::shape_t{N,(ind_t)nb,(ind_t)ew}),dw2(brille::shape_t{N,(ind_t)nb,(ind_t)ew}); bool par=c.b(); std::vector<R> U(nb*ew); for(auto&u:U) u=coef<R>(c); for(ind_t i=0;i<N;++i)for(int m=0;m<nb;++m){ R am(1); if(par){ am=R(c.real(0.1,1)); if constexpr(std::is_same_v<R,cd>) am*=std::polar(1.,c.real(-M_PI,M_PI)); } for(int e=0;e<ev;++e){ T t=coef<T>(c); dv.val(brille::shape_t{i,(ind_t)m,(ind_t)e})=t; dv2.val(brille::shape_t{(ind_t)to[i],(ind_t)m,(ind_t)e})=t; } for(int e=0;e<ew;++e){ R t=par?am*U[m*ew+e]:coef<R>(c); dw.val(brille::shape_t{i,(ind_t)m,(ind_t)e})=t; dw2.val(brille::shape_t{(ind_t)to[i],(ind_t)m,(ind_t)e})=t; } }
  std::vector<int> ths{1,2,3,4,5,8}; auto some=[&]{ return (int)c.pick(ths); };
  // points inside of the zone, and anywhere
  Q3 X,Q; int n=c.p(2)?(int)c.i(150,500):(int)c.i(1,20); for(int i=0;i<n;++i){ V y{0,0,0}; int kd=(int)c.draw(4); if(kd==0) y=vec(x,(ind_t)c.draw(N)); else if(kd==1&&!X.empty()){ X.push_back(X[c.draw(X.size())]); continue; } else { L t=0; for(ind_t j=0;j<vx.size(0);++j){ L f=c.p(30)?0:(L)c.real(0,1); y=m3::add(y,m3::sc(vec(vx,j),f)); t+=f; } if(t==0){ y=vec(vx,0); t=1; } y=m3::sc(y,1/t); } X.push_back(m3::d(y)); }
  for(int i=0;i<n;++i){ std::array<double,3> q; int kd=(int)c.draw(3); if(kd==0) for(auto&v:q) v=c.sreal(c.p(80)?1:5); else if(kd==1){ int d=(int)c.pick(std::vector<int>{1,2,3,4,6}); for(auto&v:q) v=(double)c.si(3*d)/d; } else q=m3::d(m3::mul(iB,V{(L)X[i][0],(L)X[i][1],(L)X[i][2]})); Q.push_back(q); } c.note("points",X); c.note("Q",Q);
  // a grid which has not been filled has nothing to say, with any number of threads
  for(int th:{1,some()}){ bool t1=false,t2=false; try{ auto o=g->at(BA::from_std(X),th); t1=std::get<0>(o).size(0)==0||std::get<0>(o).numel()==0; }catch(const std::exception&){ t1=true; } try{ auto o=g->ir(qlist(s.k.lat,Q),th); t2=std::get<0>(o).numel()==0; }catch(const std::exception&){ t2=true; } c.check(t1&&t2,"unfilled"); }
  auto kind=[&](int e){ ind_t u=(ind_t)e; if(e<3||c.p(20)) return El{u,0,0}; return e==9&&c.b()?El{0,0,9}:El{u%3,u-u%3,0}; }; auto kv=kind(ev),kw=kind(ew); static const std::vector<std::pair<RotatesLike,LengthUnit>> turns{{RotatesLike::vector,LengthUnit::real_lattice},{RotatesLike::pseudovector,LengthUnit::real_lattice},{RotatesLike::vector,LengthUnit::reciprocal_lattice}}; auto tv=c.pick(turns),tw=c.pick(turns); g->values(dv,kv,tv.first,tv.second); g->vectors(dw,kw,tw.first,tw.second); g2->values(dv2,kv,tv.first,tv.second); g2->vectors(dw2,kw,tw.first,tw.second); if(kv[1]+kv[2]+kw[1]+kw[2]) c.label("rotated data");
  auto eval=[&](int mode,const Q3& a,int th){ Res<T,R> r; if(a.empty()) return r; r.add(mode==0?g->at(BA::from_std(a),th):mode==1?g->ir(qlist(s.k.lat,a),th):g->stay(qlist(s.k.lat,a),th),nb,ev,ew); return r; };
  auto same=[&](const Res<T,R>& a,const Res<T,R>& b,const std::vector<int>& p,const char* tag,const std::string& say,bool phase=false){ c.check(b.v.size()==p.size(),"count"); for(size_t i=0;i<p.size();++i){ for(size_t e=0;e<b.v[i].size();++e) c.check(std::abs(a.v[p[i]][e]-b.v[i][e])<=1e-10,tag,[&]{ return say+" point "+vp::str(p[i])+" value "+vp::str(b.v[i][e])+" not "+vp::str(a.v[p[i]][e]); }); std::vector<R> ph(b.w[i].size(),R(1)); if constexpr(std::is_same_v<R,cd>) if(phase) for(int m=0;m<nb;++m){ double most=0; R f(1); for(int e=m*ew;e<(m+1)*ew;++e) if(std::abs(a.w[p[i]][e])>most&&std::abs(b.w[i][e])>0){ most=std::abs(a.w[p[i]][e]); f=b.w[i][e]/std::abs(b.w[i][e])*std::conj(a.w[p[i]][e])/most; } for(int e=m*ew;e<(m+1)*ew;++e) ph[e]=f; } for(size_t e=0;e<b.w[i].size();++e) c.check(std::abs(ph[e]*a.w[p[i]][e]-b.w[i][e])<=1e-10,tag,[&]{ return say+" point "+vp::str(p[i])+" vector "+vp::str(b.w[i][e])+" not "+vp::str(a.w[p[i]][e]); }); } };
  std::vector<int> all(n); for(int i=0;i<n;++i) all[i]=i; static const char* tags[]{"interpolate","irreducible","not-moved"};
  Q3 hk; for(auto&a:X) hk.push_back(m3::d(m3::mul(iB,V{(L)a[0],(L)a[1],(L)a[2]})));
  for(int mode=0;mode<3;++mode){ const Q3& P=mode==0?X:mode==1?Q:hk; auto base=eval(mode,P,1); auto say=[&](const char* w,int th){ return std::string(tags[mode])+" "+w+" with "+vp::str(th)+" threads"; }; for(int th:{some(),some(),n+2}) same(base,eval(mode,P,th),all,tags[mode],say("",th)); if(mode==0) same(base,eval(mode,P,-1),all,"serial","the serial call");
    auto pz=c.perm(n); std::vector<int> pr(pz.begin(),pz.end()); int th=some(); same(base,eval(mode,pick(P,pr),th),pr,"order",say("reordered",th)); std::vector<int> rep; for(int i=0;i<n;++i){ rep.push_back((int)c.draw(n)); } th=some(); same(base,eval(mode,pick(P,rep),th),rep,"selection",say("selected",th)); int at=0; while(at<n){ int m=(int)c.i(1,n); std::vector<int> blk; for(int i=at;i<std::min(n,at+m);++i) blk.push_back(i); th=some(); same(base,eval(mode,pick(P,blk),th),blk,"block",say("in blocks",th)); at+=m; } }
  // the other grid
  { Res<T,R> r; r.add(g2->at(BA::from_std(X),some()),nb,ev,ew); if(ordered){ auto base=eval(0,X,1); if(par) same(base,r,all,"other-grid","the grid built with other threads",true); } }
  // moving points
  auto mv=[&](const Q3& a,int th,bool ir){ Moved o; QV q(gen::QS,s.k.lat,0u); IV t(gen::QS,s.k.lat,0u); auto A=qlist(s.k.lat,a); bool ok=ir?z.ir_moveinto(A,q,t,o.r,o.i,th):z.moveinto(A,q,t,th); c.check(ok,"moved"); c.check(q.size(0)==a.size()&&t.size(0)==a.size(),"count"); for(ind_t i=0;i<a.size();++i){ o.q.push_back({q.val(i,0),q.val(i,1),q.val(i,2)}); o.t.push_back({t.val(i,0),t.val(i,1),t.val(i,2)}); } return o; };
  for(bool ir:{false,true}){ auto b=mv(Q,1,ir); auto cmp=[&](const Moved& o,const std::vector<int>& p,const char* tag,int th){ for(size_t i=0;i<p.size();++i) c.check(o.q[i]==b.q[p[i]]&&o.t[i]==b.t[p[i]]&&(!ir||(o.r[i]==b.r[p[i]]&&o.i[i]==b.i[p[i]])),tag,[&]{ return vp::str(Q[p[i]])+" moved to "+vp::str(o.q[i])+" by "+vp::str(o.t[i])+" with "+vp::str(th)+" threads, not to "+vp::str(b.q[p[i]])+" by "+vp::str(b.t[p[i]])+(ir?" operation "+vp::str(o.r[i])+" not "+vp::str(b.r[p[i]]):""); }); }; for(int th:{some(),n+1}) cmp(mv(Q,th,ir),all,ir?"ir-moveinto":"moveinto",th); auto pz=c.perm(n); std::vector<int> pr(pz.begin(),pz.end()); int th=some(); cmp(mv(pick(Q,pr),th,ir),pr,ir?"ir-moveinto-order":"moveinto-order",th); int k=(int)c.draw(n); cmp(mv(pick(Q,{k}),1,ir),{k},ir?"ir-moveinto-alone":"moveinto-alone",1); }
  { omp_set_num_threads(1); auto a=z.isinside(qlist(s.k.lat,Q)); int th=some(); omp_set_num_threads(th); auto b=z.isinside(qlist(s.k.lat,Q)); c.check(a==b,"isinside"); if(s.wedge){ omp_set_num_threads(1); auto a=z.isinside_wedge(qlist(s.k.lat,Q)); omp_set_num_threads(th); auto b=z.isinside_wedge(qlist(s.k.lat,Q)); c.check(a==b,"isinside-wedge"); } }
  // a point outside of the zone is an error in whichever thread it is found, and the grid is still good
  { V y{0,0,0}; L r=0; for(ind_t j=0;j<vx.size(0);++j) y=m3::add(y,m3::sc(vec(vx,j),1.0L/vx.size(0))); V d{(L)c.sreal(1),(L)c.sreal(1),(L)c.sreal(1)}; r=m3::norm(d); if(r<1e-3L){ d={1,0,0}; r=1; } V o=m3::add(y,m3::sc(d,sz*(L)c.real(p.kind?1.1:4,8)/r)); Q3 bad=X; int at=(int)c.draw(n+1); bad.insert(bad.begin()+at,m3::d(o)); for(int th:{1,some(),some(),-1}){ bool thrown=vp::throws([&]{ g->at(BA::from_std(bad),th); }); c.check(thrown,"outside-not-reported",[&]{ return "point "+vp::str(bad[at])+" at "+vp::str(at)+" of "+vp::str(n+1)+" with "+vp::str(th)+" threads"; }); } auto base=eval(0,X,1); same(base,eval(0,X,some()),all,"after-error","after an error"); }
  c.nontrivial(n>=3&&N>8); }
VP_PROP(threads,2000,40000,60){ int k=(int)c.draw(3); if(k==0) run<double,double>(c); else if(k==1) run<double,cd>(c); else run<cd,cd>(c); }
VP_MAIN
