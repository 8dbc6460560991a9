// B04: moving into the irreducible zone returns the exact symmetry and shift
#include "zone.hpp"
#include <optional>
using namespace zn; using IV=bl::LVec<int>; using R9=std::array<int,9>;
static M primrec(const Crystal& k){ return gen::colmat(k.lat.primitive().reciprocal_basis_vectors()); }
static R9 tr9(const R9& w){ R9 t; for(int i=0;i<3;++i)for(int j=0;j<3;++j) t[3*i+j]=w[3*j+i]; return t; }
static V act(const R9& t,const V& h){ V o; for(int i=0;i<3;++i) o[i]=t[3*i]*h[0]+t[3*i+1]*h[1]+t[3*i+2]*h[2]; return o; }
static V row(const QV& q,int i){ return V{(L)q.val(i,0),(L)q.val(i,1),(L)q.val(i,2)}; }
static V row(const IV& q,int i){ return V{(L)q.val(i,0),(L)q.val(i,1),(L)q.val(i,2)}; }
struct Res { QV q; IV t; std::vector<size_t> R,I; };
static bool same(const Res& a,const Res& b,const std::vector<size_t>* pm=nullptr){ int n=(int)a.q.size(0); if((int)b.q.size(0)!=n||(int)b.t.size(0)!=n||a.R.size()!=b.R.size()||a.I.size()!=b.I.size()) return false; for(int i=0;i<n;++i){ int k=pm?(int)(*pm)[i]:i; for(int j=0;j<3;++j) if(a.q.val(k,j)!=b.q.val(i,j)||a.t.val(k,j)!=b.t.val(i,j)) return false; if(a.R[k]!=b.R[i]||a.I[k]!=b.I[i]) return false; } return true; }
VP_PROP(irmove,3500,120000){ auto k=crystal(c); Cfg cfg; bool prim=!c.p(20),trev=c.b(),wedge=!c.p(10); cfg.primitive(prim); cfg.time_reversal(trev); cfg.wedge_search(wedge); c.note("primitive",prim); c.note("time reversal",trev); c.note("wedge search",wedge); WS w(prim?primrec(k):k.rec); if(!w.clear) c.discard(); std::optional<BZ> made; try{ made.emplace(k.lat,cfg); }catch(const std::runtime_error&){ c.label("no irreducible zone"); return; } const BZ& z=*made; auto ps=z.get_pointgroup_symmetry(); std::set<R9> ops; for(auto&o:k.W){ ops.insert(o); if(trev){ auto m=o; for(auto&x:m) x=-x; ops.insert(m); } } c.check(ps.size()==ops.size(),"operations"); c.label(vp::str(ops.size())+" operations");
  auto ir=z.get_ir_polyhedron(); auto vx=ir.vertices().xyz(),fn=ir.face_normals().xyz(),fp=ir.face_points().xyz(); auto depth=[&](const V& x){ L m=-1e9L; for(ind_t f=0;f<fn.size(0);++f) m=std::max(m,m3::dot(vec(fn,f),m3::sub(x,vec(fp,f)))); return m; }; M B=k.rec,iB=m3::inv(B); M zb=prim?primrec(k):k.rec;
  int n=c.i(1,c.p(15)?40:14); std::vector<std::array<double,3>> Q; std::vector<int> mate(n,-1); auto add=[&](const V& x){ Q.push_back(m3::d(m3::mul(iB,x))); }; auto tau=[&]{ V t{0,0,0}; int m=(int)c.pick(std::vector<int>{1,1,3,12}); for(int j=0;j<3;++j){ int a=c.si(m); for(int r=0;r<3;++r) t[r]+=a*zb[3*r+j]; } return t; };
  for(int i=0;i<n;++i){ int kd=(int)c.draw(8); V x{0,0,0}; switch(kd){ case 0: { std::array<double,3> a; double m=(double)c.pick(std::vector<double>{0.5,1,5,30}); for(auto&v:a) v=c.sreal(m); Q.push_back(a); continue; } case 1: { std::array<double,3> a; int d=(int)c.pick(std::vector<int>{1,2,3,4,6,8,12}); for(auto&v:a) v=(double)c.si(4*d)/d; Q.push_back(a); continue; } case 2: x=vec(vx,(ind_t)c.draw(vx.size(0))); break; case 3: x=w.vert[c.draw(w.vert.size())]; break; case 4: x=vec(fp,(ind_t)c.draw(fp.size(0))); break; case 5: { auto a=vec(vx,(ind_t)c.draw(vx.size(0))),b=vec(vx,(ind_t)c.draw(vx.size(0))); L f=(L)c.pick(std::vector<double>{0.5,0.25,0.1,1.0/3}); x=m3::add(m3::sc(a,f),m3::sc(b,1-f)); break; } case 6: { L s=0; for(ind_t j=0;j<vx.size(0);++j){ L t=(L)c.real(0,1)+1e-3L; x=m3::add(x,m3::sc(vec(vx,j),t)); s+=t; } x=m3::sc(x,1/s); break; }
      default: if(i){ int j=(int)c.draw(i); V h{(L)Q[j][0],(L)Q[j][1],(L)Q[j][2]}; auto it=ops.begin(); std::advance(it,c.draw(ops.size())); x=m3::mul(B,act(tr9(*it),h)); x=m3::add(x,tau()); mate[i]=j; add(x); continue; } }
    if(c.p(50)){ auto it=ops.begin(); std::advance(it,c.draw(ops.size())); x=m3::mul(B,act(tr9(*it),m3::mul(iB,x))); } if(c.p(50)) x=m3::add(x,tau()); add(x); }
  c.note("Q",Q); auto Qv=qlist(k.lat,Q); auto run=[&](const QV& in,int th){ Res r{QV(gen::QS,k.lat,0u),IV(gen::QS,k.lat,0u),{},{}}; c.check(z.ir_moveinto(in,r.q,r.t,r.R,r.I,th),"returned-false"); return r; }; Res r=run(Qv,1); c.check((int)r.q.size(0)==n&&(int)r.t.size(0)==n&&(int)r.R.size()==n&&(int)r.I.size()==n,"length"); c.check(r.q.lattice()==k.lat&&r.t.lattice()==k.lat,"lattice"); int rotated=0; auto e=ps.find_identity_index();
  auto wedges=z.isinside_wedge(r.q);
  for(int i=0;i<n;++i){ V q=row(r.q,i),t=row(r.t,i),Qi{(L)Q[i][0],(L)Q[i][1],(L)Q[i][2]}; auto say=[&]{ return "Q "+vp::str(Q[i])+" -> q "+vp::str(m3::d(q))+" tau "+vp::str(m3::d(t))+" operation "+(r.R[i]<ps.size()?vp::str(ps.get((ind_t)r.R[i])):std::string("?")); }; c.check(r.R[i]<ps.size()&&r.I[i]<ps.size(),"index",say); auto R=ps.get((ind_t)r.R[i]),I=ps.get((ind_t)r.I[i]); c.check(ops.count(R)&&ops.count(I),"index",say); M one=m3::mul(m3::mat(R),m3::mat(I)); c.check(m3::maxdiff(one,m3::eye())==0,"not-inverse",say); L sz=1+m3::norm(Qi)+m3::norm(t); c.check(m3::maxdiff(m3::add(act(tr9(R),q),t),Qi)<=2e-14L*sz,"restore",say); if(prim) c.check(allowed(k,(int)t[0],(int)t[1],(int)t[2]),"centring",say);
    V x=m3::mul(B,q); L d=depth(x); c.check(d<=1e-9L*w.size,"outside",[&]{ return say()+" is outside of the irreducible zone by "+vp::str((double)d); }); c.check(wedges[i],"outside-wedge",say); V xq=m3::mul(B,Qi); if(depth(xq)<-1e-6L*w.size){ c.check(r.R[i]==e&&r.I[i]==e&&t==V{0,0,0}&&m3::maxdiff(q,Qi)<=1e-15L*sz,"already-inside",say); c.label("already irreducible"); } rotated+=r.R[i]!=e; if(!wedge) c.check(r.R[i]==e,"no-wedge",say);
    // equivalent vectors have equivalent (away from the surface: equal) irreducible vectors
    if(mate[i]>=0){ V p=row(r.q,mate[i]); V xp=m3::mul(B,p); L best=1e9L; for(auto&o:ops){ V y=m3::sub(act(tr9(o),p),q); V hz=hkl(zb,m3::mul(B,y)); L m=0; for(int j=0;j<3;++j) m=std::max(m,std::abs(hz[j]-std::round(hz[j]))); best=std::min(best,m); } c.check(best<1e-9L*(1+sz),"equivalent",[&]{ return say()+" equivalent to "+vp::str(Q[mate[i]])+" -> "+vp::str(m3::d(p)); }); if(wedge&&depth(x)<-1e-6L*w.size&&depth(xp)<-1e-6L*w.size){ c.check(m3::maxdiff(p,q)<1e-11L*sz,"equivalent-differ",[&]{ return say()+" equivalent to "+vp::str(Q[mate[i]])+" -> "+vp::str(m3::d(p)); }); c.label("equivalent pair"); } } }
  c.nontrivial(rotated>0); for(int th:{2,(int)c.i(3,16),0}) c.check(same(r,run(Qv,th)),"threads",[&]{ return vp::str(th)+" threads"; }); auto pm=c.perm(n); std::vector<std::array<double,3>> Q2; for(int i:pm) Q2.push_back(Q[i]); Q2.insert(Q2.begin(),{3.1,-2.2,5.3}); Res r2=run(qlist(k.lat,Q2).view(1,n+1),1); c.check(same(r,r2,&pm),"others"); for(int i=0;i<n;++i)for(int j=0;j<3;++j) c.check(Qv.val(i,j)==Q[i][j],"input-changed"); { Res o=r; c.check(z.ir_moveinto(Qv,o.q,o.t,o.R,o.I,1)&&same(r,o),"reused-outputs"); }
  // the wedge alone: no shift
  auto wmove=[&](const QV& in,int th,QV& q,std::vector<size_t>& R){ c.check(z.ir_moveinto_wedge(in,q,R,th),"returned-false"); }; QV wq(gen::QS,k.lat,0u); std::vector<size_t> wR; wmove(Qv,1,wq,wR); c.check((int)wq.size(0)==n&&(int)wR.size()==n,"wedge-length"); auto inw=z.isinside_wedge(wq); auto nx=z.get_ir_wedge_normals().xyz(); for(int i=0;i<n;++i){ V q=row(wq,i),Qi{(L)Q[i][0],(L)Q[i][1],(L)Q[i][2]}; L sz=1+m3::norm(Qi); auto say=[&]{ return "wedge: Q "+vp::str(Q[i])+" -> q "+vp::str(m3::d(q)); }; c.check(wR[i]<ps.size(),"wedge-index",say); auto R=ps.get((ind_t)wR[i]); c.check(ops.count(R),"wedge-index",say); c.check(m3::maxdiff(act(tr9(R),q),Qi)<=1e-14L*sz,"wedge-restore",say); c.check(inw[i],"wedge-outside",say); V x=m3::mul(B,q); for(ind_t j=0;j<nx.size(0)&&wedge;++j) c.check(m3::dot(vec(nx,j),x)>=-1e-9L*m3::norm(x)*m3::norm(vec(nx,j))-1e-9L,"wedge-outside",say); bool already=true; V xq=m3::mul(B,Qi); for(ind_t j=0;j<nx.size(0);++j) already&=m3::dot(vec(nx,j),xq)>1e-6L*(1+m3::norm(xq)); if(already) c.check(wR[i]==e&&m3::maxdiff(q,Qi)==0,"wedge-already-inside",say); }
  for(int th:{2,(int)c.i(3,16)}){ QV q2(gen::QS,k.lat,0u); std::vector<size_t> R2; wmove(Qv,th,q2,R2); bool eq=R2==wR&&q2.size(0)==wq.size(0); for(int i=0;eq&&i<n;++i)for(int j=0;j<3;++j) eq&=q2.val(i,j)==wq.val(i,j); c.check(eq,"wedge-threads",[&]{ return vp::str(th)+" threads"; }); }
  if(prim&&k.cen.size()>1){ auto pq=qlist(k.lat.primitive(),Q); Res o=r; c.check(vp::throws([&]{ z.ir_moveinto(pq,o.q,o.t,o.R,o.I,1); }),"primitive-units"); c.check(vp::throws([&]{ QV q2(gen::QS,k.lat,0u); std::vector<size_t> R2; z.ir_moveinto_wedge(pq,q2,R2,1); }),"primitive-units"); } }
VP_MAIN
