// S02: groups generated from any subset and order of operations, their generators and centring
#include "vp.hpp"
#include "sgref.hpp"
#include "symmetry.hpp"
#include "pointsymmetry.hpp"
#include "spg_database.hpp"
#include "pointgroup.hpp"
#include "approx_config.hpp"
using brille::Symmetry; using brille::PointSymmetry; using Mo=brille::Motion<int,double>; using sg::Op; using sg::W9; using brille::Bravais;
static Mo mo(vp::Case& c,const Op& o){ auto t=sg::real(o.t); if(c.p(25)) for(auto&x:t) x+=c.si(2); return Mo(o.W,t); }
static bool key(const Mo& m,Op& o){ o.W=m.getr(); auto t=m.gett(); for(int i=0;i<3;++i){ double q=t[i]*sg::D,r=std::round(q); if(!(std::abs(q-r)<1e-8)) return false; o.t[i]=sg::md((int)r); } return true; }
static std::string list(const std::vector<Op>& v){ std::string s; for(auto&o:v) s+=sg::show(o); return s; }
// the members of a generated group, each exactly once
template<class S> static void members(vp::Case& c,const S& g,const std::set<Op>& want,const char* tag){ std::set<Op> got; for(auto&m:g.getallm()){ Op o; c.check(key(m,o),tag,"a translation is not a product of the generators' translations"); c.check(got.insert(o).second,tag,[&]{ return sg::show(o)+" is there twice"; }); c.check(want.count(o),tag,[&]{ return sg::show(o)+" should not be there"; }); for(double x:m.gett()) c.check(x>=-1e-12&&x<=1+1e-12,tag,"translation not reduced to one cell"); } for(auto&o:want) c.check(got.count(o),tag,[&]{ return sg::show(o)+" is missing; "+vp::str(got.size())+" of "+vp::str(want.size())+" operations"; }); c.check(g.size()==want.size(),tag); }
static void pmembers(vp::Case& c,const PointSymmetry& g,const std::set<W9>& want,const char* tag){ std::set<W9> got; for(auto&m:g.getall()){ c.check(got.insert(m).second,tag,[&]{ return sg::show(m)+" is there twice"; }); c.check(want.count(m),tag,[&]{ return sg::show(m)+" should not be there"; }); } for(auto&o:want) c.check(got.count(o),tag,[&]{ return sg::show(o)+" is missing; "+vp::str(got.size())+" of "+vp::str(want.size())+" operations"; }); c.check(g.size()==want.size(),tag); }
static std::vector<Op> subset(vp::Case& c,int& h,int most){ h=(int)(c.p(40)?c.i(1,530):c.i(349,530)); auto t=sg::table(h); std::vector<Op> g; int n=c.p(8)?(int)std::min<size_t>(t.size(),24):c.i(0,most); for(int i=0;i<n;++i) g.push_back(t[c.draw(t.size())]); if(c.p(10)&&!g.empty()) g.push_back(g[c.draw(g.size())]); return g; }
// closure of any generators of a spacegroup
VP_PROP(space,40000,1000000){ int h; auto g=subset(c,h,4); c.note("hall",h); c.note("generators",list(g)); Symmetry S; std::vector<Mo> in; for(auto&o:g){ in.push_back(mo(c,o)); S.add(in.back()); } auto want=sg::close(g); auto got=S.generate(); members(c,got,want,"generated"); c.nontrivial(want.size()>g.size()+1); c.label(want.size()>48?"large":want.size()>12?"medium":"small");
  for(auto&m:in) c.check(got.has(m),"generator-missing"); c.check(S.size()==in.size(),"input-changed"); for(size_t i=0;i<in.size();++i) c.check(S.getm(i)==in[i],"input-changed"); c.check(got.has(Mo(sg::one(),{0,0,0})),"identity-missing");
  std::vector<Mo> sh=in; c.shuffle(sh); Symmetry T(sh); auto got2=T.generate(); c.check(got2==got&&got==got2,"order-of-generators"); if(got.size()<60||c.p(10)) c.check(got.generate()==got,"generate-again");
  // inversion
  bool hi=want.count(Op{sg::neg(sg::one()),{0,0,0}})>0; c.check(got.has_space_inversion()==hi,"has-inversion"); if(want.size()<=48){ auto g2=g; g2.push_back(Op{sg::neg(sg::one()),{0,0,0}}); auto w2=sg::close(g2,400); if(w2.size()<400) members(c,got.add_space_inversion(),hi?want:w2,"add-inversion"); }
  // membership
  Op q=sg::table(h)[c.draw(sg::table(h).size())]; c.check(got.has(mo(c,q))==(want.count(q)>0),"has"); auto im=got.find_matrix_index(q.W); bool any=false; for(auto&o:want) any|=o.W==q.W; c.check(any?(im<got.size()&&got.getr(im)==q.W):im==got.size(),"find-matrix"); }
// reported generators regenerate exactly the group
VP_PROP(generators,5000,150000){ int h; auto g=subset(c,h,3); bool whole=c.p(15); auto want=whole?sg::close(sg::table(h)):sg::close(g); c.note("hall",h); std::vector<Op> o(want.begin(),want.end()); c.shuffle(o); c.note("group",(int)o.size()); if(o.size()<13) c.note("operations",list(o)); Symmetry S; for(auto&x:o) S.add(mo(c,x)); auto r=S.generators(); std::string gs; for(auto&m:r.getallm()){ Op k; c.check(key(m,k)&&want.count(k),"not-a-member"); gs+=sg::show(k); } c.note("reported",gs); members(c,r.generate(),want,"regenerated"); { auto gm=r.getallm(); std::vector<Op> go(gm.size()); for(size_t a=0;a<gm.size();++a) key(gm[a],go[a]); if(go.size()<7) for(size_t a=0;a<go.size();++a){ auto rest=go; rest.erase(rest.begin()+a); c.check(!sg::close(rest).count(go[a]),"superfluous",[&]{ return sg::show(go[a])+" is generated by the other generators"; }); } } c.nontrivial(want.size()>2); c.label(want.size()>48?"large":want.size()>12?"medium":"small"); c.check(S.size()==o.size(),"input-changed"); members(c,S.generate(),want,"closed"); }
// the 530 groups themselves: centring and the pure translations
VP_PROP(centring,530,5300){ int h=1+(int)(c.index%530); auto&t=sg::table(h); c.note("hall",h); std::vector<Op> o=t; c.shuffle(o); Symmetry S; for(auto&x:o) S.add(mo(c,x)); std::set<sg::T3> pure; for(auto&x:t) if(x.W==sg::one()) pure.insert(x.t); const int H=sg::D/2,T=sg::D/3; std::map<char,std::set<sg::T3>> L={{'P',{{0,0,0}}},{'A',{{0,0,0},{0,H,H}}},{'B',{{0,0,0},{H,0,H}}},{'C',{{0,0,0},{H,H,0}}},{'I',{{0,0,0},{H,H,H}}},{'F',{{0,0,0},{0,H,H},{H,0,H},{H,H,0}}},{'R',{{0,0,0},{T,2*T,2*T},{2*T,T,T}}}}; char want='?'; for(auto&k:L) if(k.second==pure) want=k.first; c.nontrivial(pure.size()>1); char got=brille::bravais_letter(S.getcentring()); c.check(got==want,"centring",[&]{ return std::string("centring ")+got+" for the translations of "+want; }); brille::Spacegroup s(h); auto G=s.get_spacegroup_symmetry(); c.check(brille::bravais_letter(G.getcentring())==want,"centring"); c.check(brille::bravais_letter(s.get_bravais_type())==want,"centring-claimed"); c.label(std::string(1,want)); members(c,G,std::set<Op>(t.begin(),t.end()),"group"); }
// editing a list of operations
VP_PROP(edit,30000,600000){ int h=(int)c.i(1,530); auto&t=sg::table(h); c.note("hall",h); std::vector<Mo> v; int n=c.i(1,8); Symmetry S; for(int i=0;i<n;++i){ v.push_back(mo(c,t[c.draw(t.size())])); c.check(S.add(v.back())==v.size(),"add-count"); } c.nontrivial(n>1); auto cmp=[&](const char*tag){ c.check(S.size()==v.size()&&S.getallm().size()==v.size()&&S.getallr().size()==v.size()&&S.getallt().size()==v.size(),tag); for(size_t i=0;i<v.size();++i) c.check(S.getm(i)==v[i]&&S.getr(i)==v[i].getr()&&S.gett(i)==v[i].gett()&&S.getallr()[i]==v[i].getr()&&S.getallt()[i]==v[i].gett(),tag); }; cmp("add");
  for(int k=0;k<4;++k) switch(c.draw(4)){ case 0: if(!v.empty()){ size_t i=c.draw(v.size()); c.check(S.erase(i)==v.size()-1,"erase-count"); v.erase(v.begin()+i); cmp("erase"); } break; case 1: if(!v.empty()){ size_t i=c.draw(v.size()); auto m=S.pop(i); c.check(m==v[i],"pop"); v.erase(v.begin()+i); cmp("pop"); } break; case 2: { Op o=t[c.draw(t.size())]; auto x=sg::real(o.t); if(c.b()) S.add(o.W.data(),x.data()); else S.add(o.W,x); v.emplace_back(o.W,x); cmp("add"); } break; default: { auto w=v; c.shuffle(w); Symmetry Q{Symmetry::Motions(w)}; std::set<Op> a; bool dup=false; for(auto&m:w){ Op o; key(m,o); dup|=!a.insert(o).second; } c.check(S==Q&&!(S!=Q),"equal-any-order"); if(!w.empty()&&!dup){ Op o=t[c.draw(t.size())]; Op k0; key(w[0],k0); bool in=a.count(o)>0; w[0]=mo(c,o); Symmetry R{Symmetry::Motions(w)}; bool eq=o==k0; if(!in||eq) c.check((S==R)==eq,"equality"); w.push_back(w[0]); Symmetry Z{Symmetry::Motions(w)}; c.check(S!=Z,"equality-size"); } } }
  c.check(vp::throws([&]{ S.erase(S.size()); }),"erase-nothing"); size_t out=S.size()+c.draw(3); c.check(vp::throws([&]{ S.order(out); }),"order-nothing"); c.check(vp::throws([&]{ S.pop(out); }),"pop-nothing"); cmp("unchanged"); W9 z{}; auto gm=S.getm(out); c.check(S.getr(out)==z&&gm.getr()==z,"out-of-range"); for(double x:S.gett(out)) c.check(x==0,"out-of-range"); for(double x:gm.gett()) c.check(x==0,"out-of-range"); }
// point groups
VP_PROP(point,60000,1500000){ int h=(int)(c.p(40)?c.i(1,530):c.i(349,530)); auto w=sg::points(sg::table(h)); bool tr=c.p(40); if(tr){ auto n=w.size(); for(size_t i=0;i<n;++i) w.push_back(sg::neg(w[i])); } std::vector<W9> g; int n=c.p(10)?(int)w.size():c.i(0,4); for(int i=0;i<n;++i) g.push_back(w[c.draw(w.size())]); c.note("hall",h); std::string gs; for(auto&x:g) gs+=sg::show(x); c.note("generators",gs); PointSymmetry P; for(auto&x:g){ if(c.b()) P.add(x); else P.add(x.data()); } c.check(P.size()==g.size(),"add-count"); auto want=sg::closew(g); auto got=P.generate(); pmembers(c,got,want,"generated"); c.nontrivial(want.size()>g.size()+1); c.label(want.size()>16?"large":want.size()>6?"medium":"small"); for(size_t i=0;i<g.size();++i) c.check(P.get(i)==g[i],"input-changed");
  auto sh=g; c.shuffle(sh); PointSymmetry Q; for(auto&x:sh) Q.add(x); pmembers(c,Q.generate(),want,"order-of-generators");
  std::vector<W9> all(want.begin(),want.end()); c.shuffle(all); PointSymmetry G; for(auto&x:all) G.add(x); auto r=G.generators(); for(auto&m:r.getall()) c.check(want.count(m),"not-a-member"); pmembers(c,r.generate(),want,"regenerated"); c.check(G.getall()==brille::Matrices<int>(all),"input-changed");
  bool hi=want.count(sg::neg(sg::one()))>0; c.check(G.has_space_inversion()==hi,"has-inversion"); auto g2=g; g2.push_back(sg::neg(sg::one())); pmembers(c,G.add_space_inversion(),sg::closew(g2),"add-inversion"); W9 q=w[c.draw(w.size())]; c.check(G.has(q)==(want.count(q)>0),"has"); auto ix=G.find_index(q); c.check(want.count(q)?(ix<G.size()&&G.get(ix)==q):ix==G.size(),"find-index"); }
VP_MAIN
