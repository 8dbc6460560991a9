// B02: moving into the first zone subtracts a reciprocal lattice vector
#include <optional>
#include "zone.hpp"
using namespace zn; using IV=bl::LVec<int>;
static bool same(const QV& a,const QV& b){ if(a.size(0)!=b.size(0)) return false; for(ind_t i=0;i<a.size(0);++i)for(ind_t j=0;j<3;++j) if(a.val(i,j)!=b.val(i,j)) return false; return true; }
static bool same(const IV& a,const IV& b){ if(a.size(0)!=b.size(0)) return false; for(ind_t i=0;i<a.size(0);++i)for(ind_t j=0;j<3;++j) if(a.val(i,j)!=b.val(i,j)) return false; return true; }
static void moves(vp::Case& c,const Crystal& k){ Cfg cfg; bool prim=!c.p(20); cfg.primitive(prim); cfg.wedge_search(false); cfg.time_reversal(c.b()); cfg.divide_primitive(!c.p(20)); c.note("primitive",prim); gen::Lat plat=k.lat.primitive(); M prec=gen::colmat(plat.reciprocal_basis_vectors()); WS w(prim?prec:k.rec); if(!w.clear) c.discard(); std::optional<BZ> made; try{ made.emplace(k.lat,cfg); }catch(const std::runtime_error&){ c.label("zone refused"); c.check(k.hall<3,"zone"); return; } BZ& z=*made; bool inprim=prim&&c.p(25); const gen::Lat& ql=inprim?plat:k.lat; M B=inprim?prec:k.rec; M iB=m3::inv(B); c.label(k.cen.size()==1?"P":"centred"); c.label(inprim?"primitive units":"conventional units"); if(!prim&&k.cen.size()>1) c.label("conventional zone of a centred lattice");
  int n=c.i(1,c.p(20)?60:12); std::vector<std::array<double,3>> Q; std::vector<int> kind; auto tau=[&]{ V t{0,0,0}; M zb=prim?prec:k.rec; int m=(int)c.pick(std::vector<int>{1,1,3,20}); for(int j=0;j<3;++j){ int a=c.si(m); for(int r=0;r<3;++r) t[r]+=a*zb[3*r+j]; } return t; };
  for(int i=0;i<n;++i){ V x{0,0,0}; int kd=(int)c.draw(7); switch(kd){ case 0: { std::array<double,3> a; double m=(double)c.pick(std::vector<double>{0.5,1,5,40}); for(auto&v:a) v=c.sreal(m); Q.push_back(a); kind.push_back(0); continue; } case 1: { std::array<double,3> a; int d=(int)c.pick(std::vector<int>{1,2,3,4,6,8,12}); for(auto&v:a) v=(double)c.si(5*d)/d; Q.push_back(a); kind.push_back(1); continue; } case 2: x=w.vert[c.draw(w.vert.size())]; break; case 3: x=m3::sc(w.rel[c.draw(w.rel.size())],0.5L); break; case 4: { auto&a=w.vert[c.draw(w.vert.size())]; auto&b=w.vert[c.draw(w.vert.size())]; x=m3::add(m3::sc(a,0.5L),m3::sc(b,0.5L)); break; } case 5: { x=V{(L)c.sreal(1),(L)c.sreal(1),(L)c.sreal(1)}; x=m3::sc(x,w.size/2); break; } default: { x=w.vert[c.draw(w.vert.size())]; x=m3::sc(x,(L)c.pick(std::vector<double>{1-1e-3,1-1e-6,1+1e-6,1+1e-3,1-1e-10,1+1e-10})); } } if(c.p(70)) x=m3::add(x,tau()); Q.push_back(m3::d(m3::mul(iB,x))); kind.push_back(kd); }
  c.note("Q",Q); auto q0=qlist(ql,Q); auto run=[&](const QV& in,int threads,QV& q,IV& t){ bool ok=z.moveinto(in,q,t,threads); c.check(ok,"returned-false"); }; QV q(gen::QS,ql,0u); IV t(gen::QS,ql,0u); run(q0,1,q,t); c.check(q.size(0)==(ind_t)n&&t.size(0)==(ind_t)n,"length"); c.check(q.lattice()==ql&&t.lattice()==ql&&q.type()==gen::QS&&t.type()==gen::QS,"lattice"); int moved=0;
  for(int i=0;i<n;++i){ V a{(L)q.val(i,0),(L)q.val(i,1),(L)q.val(i,2)}; V b{(L)t.val(i,0),(L)t.val(i,1),(L)t.val(i,2)}; V Qi{(L)Q[i][0],(L)Q[i][1],(L)Q[i][2]}; L sz=1+m3::norm(Qi)+m3::norm(b); auto say=[&]{ return "Q "+vp::str(Q[i])+" -> q "+vp::str(m3::d(a))+" tau "+vp::str(m3::d(b)); }; c.check(m3::maxdiff(m3::add(a,b),Qi)<=1e-14L*sz*4,"sum",say); L dep=w.depth(m3::mul(B,a)); c.check(dep<=1e-9L*w.size,"outside",[&]{ return say()+" is outside by "+vp::str((double)dep); }); if(prim&&!inprim) c.check(allowed(k,(int)b[0],(int)b[1],(int)b[2]),"centring",say); L d0=w.depth(m3::mul(B,Qi)); if(d0<-1e-6L*w.size) c.check(m3::maxabs(M{b[0],b[1],b[2],0,0,0,0,0,0})==0&&m3::maxdiff(a,Qi)<1e-14L*sz,"already-inside",say); moved+=b!=V{0,0,0}; auto in=z.isinside(q.extract((ind_t)i)); c.check(in[0],"isinside",say); }
  c.nontrivial(moved>0);
  for(int th:{2,(int)c.i(3,16),0}){ QV q2(gen::QS,ql,0u); IV t2(gen::QS,ql,0u); run(q0,th,q2,t2); c.check(same(q,q2)&&same(t,t2),"threads",[&]{ return vp::str(th)+" threads"; }); }
  // the answer for one vector does not depend on the others, on the order, or on the layout
  auto pm=c.perm(n); std::vector<std::array<double,3>> Q2; for(int i:pm) Q2.push_back(Q[i]); Q2.insert(Q2.begin(),{9.1,-8.2,7.3}); auto big=qlist(ql,Q2); auto part=big.view(1,n+1); QV q3(gen::QS,ql,0u); IV t3(gen::QS,ql,0u); run(part,1,q3,t3); for(int i=0;i<n;++i) for(int j=0;j<3;++j) c.check(q3.val(i,j)==q.val(pm[i],j)&&t3.val(i,j)==t.val(pm[i],j),"others"); for(int i=0;i<n;++i) for(int j=0;j<3;++j) c.check(q0.val(i,j)==Q[i][j],"input-changed");
  // moving again changes nothing inside; a shift by a lattice vector changes only tau (away from the surface)
  QV q4(gen::QS,ql,0u); IV t4(gen::QS,ql,0u); run(q,1,q4,t4); for(int i=0;i<n;++i){ V a{(L)q.val(i,0),(L)q.val(i,1),(L)q.val(i,2)}; if(w.depth(m3::mul(B,a))<-1e-9L*w.size) for(int j=0;j<3;++j) c.check(t4.val(i,j)==0&&std::abs(q4.val(i,j)-q.val(i,j))<1e-15,"twice"); }
  if(c.p(10)){ auto cell=gen::cell(c); gen::Lat other=bl::Direct<double>(m3::d(cell.len),gen::deg(cell.ang),gen::symmetry(1),brille::Basis(),false,brille::AngleUnit::degree); if(!(other==k.lat)&&!(other==plat)){ auto x=qlist(other,Q); QV q5(gen::QS,ql,0u); IV t5(gen::QS,ql,0u); c.check(vp::throws([&]{ z.moveinto(x,q5,t5,1); }),"other-lattice"); c.check(vp::throws([&]{ (void)z.isinside(x); }),"other-lattice"); c.label("another lattice"); } } }
VP_PROP(moveinto,7000,200000){ auto k=crystal(c); moves(c,k); }
VP_PROP(oblique,500,20000){ auto k=oblique(c); moves(c,k); }
VP_MAIN
