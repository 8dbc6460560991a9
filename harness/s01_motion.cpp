// S01: composition, inversion, equality, order and text form of spacegroup operations
#include "vp.hpp"
#include "sgref.hpp"
#include "motion.hpp"
#include "symmetry.hpp"
#include "pointsymmetry.hpp"
#include "approx_config.hpp"
using brille::Symmetry; using Mo=brille::Motion<int,double>; using sg::Op; using sg::W9;
// point operations of every crystallographic group in any setting, each with any rational translation
static const std::vector<W9>& all_points(){ static std::vector<W9> v=[]{ std::set<W9> s; for(int h=1;h<=530;++h) for(auto&o: sg::table(h)) s.insert(o.W); return std::vector<W9>(s.begin(),s.end()); }(); return v; }
static int fraction(vp::Case& c){ static const int den[]={2,3,4,5,6,8,10,12,15,20,24}; int d=den[c.draw(11)]; return c.i(0,d-1)*(sg::D/d); }
static Op op(vp::Case& c){ if(c.p(60)){ auto&t=sg::table((int)c.i(1,530)); return t[c.draw(t.size())]; } Op o; auto&w=all_points(); o.W=w[c.draw(w.size())]; for(int i=0;i<3;++i) o.t[i]=c.p(30)?0:fraction(c); return o; }
// the same operation with translations outside [0,1)
static std::array<double,3> w(vp::Case& c,const Op& o,bool shift){ auto t=sg::real(o.t); for(auto&x:t){ if(shift) x+=c.si(2); if(c.p(15)) x=std::nextafter(x,c.b()?5.:-5.); } return t; }
static Mo motion(vp::Case& c,const Op& o,bool shift=true){ return Mo(o.W,w(c,o,shift)); }
static bool same(const Mo& m,const Op& o,double tol=1e-12){ if(m.getr()!=o.W) return false; auto t=m.gett(); for(int i=0;i<3;++i){ double d=t[i]-o.t[i]/(double)sg::D; d-=std::round(d); if(!(std::abs(d)<=tol)) return false; } return true; }
static std::string show(const Mo& m){ auto t=m.gett(); return sg::show(m.getr())+vp::str(t); }
#define SAME(m,o,tag,what) do{ auto m_=(m); Op o_=(o); c.check(same(m_,o_),tag,[&]{ return std::string(what)+" is "+show(m_)+" expected "+sg::show(o_); }); }while(0)
static bool unit(const Mo& m){ for(double x:m.gett()) if(!(x>=0&&x<=1)) return false; return true; }
VP_PROP(algebra,120000,3000000){ Op a=op(c),b=op(c),d=op(c); if(c.p(50)){ auto&t=sg::table((int)c.i(1,530)); a=t[c.draw(t.size())]; b=t[c.draw(t.size())]; d=t[c.draw(t.size())]; }
  auto A=motion(c,a),B=motion(c,b),E=motion(c,d); c.note("a",sg::show(a)); c.note("b",sg::show(b)); c.note("c",sg::show(d)); c.nontrivial(a.W!=sg::one()&&b.W!=sg::one());
  SAME(A*B,sg::mul(a,b),"product","a*b"); SAME((A*B)*E,sg::mul(sg::mul(a,b),d),"product","(a*b)*c"); c.check((A*B)*E==A*(B*E),"associative"); SAME(A.inverse(),sg::inv(a),"inverse","inverse of a"); SAME(A*A.inverse(),Op(),"inverse-product","a times its inverse"); SAME(A.inverse()*A,Op(),"inverse-product","inverse of a times a"); c.check(A.inverse().inverse()==A,"double-inverse"); c.check((A*B).inverse()==B.inverse()*A.inverse(),"inverse-of-product"); c.check(unit(A*B)&&unit(A.inverse()),"translation-range","translation of a product or inverse is not reduced to one cell");
  { auto ta=A.gett(); Mo tr(ta),fr(std::make_pair(A.getr(),ta)); c.check(tr.getr()==sg::one()&&tr.gett()==ta,"pure-translation"); c.check(fr.getr()==A.getr()&&fr.gett()==ta,"from-pair"); Mo rt(a.W); c.check(rt.getr()==a.W&&rt.gett()==std::array<double,3>{0,0,0},"pure-rotation"); } Mo e(sg::one()); c.check(A*e==A&&e*A==A,"identity"); c.check(e.has_identity_rotation()&&e.has_identity_translation(),"identity"); c.check(A.has_identity_rotation()==(a.W==sg::one()),"has-identity-rotation"); auto cen=w(c,a,false); c.check(Mo(a.W,cen).has_identity_translation()==(a.t==sg::T3{0,0,0}),"has-identity-translation"); c.check(A.equal_matrix(a.W)&&A.equal_matrix(b.W)==(a.W==b.W),"equal-matrix");
  // positions, vectors and axial vectors
  std::array<double,3> x; for(auto&v:x) v=c.b()?(double)c.si(4):c.sreal(3); c.note("x",x); auto at=A.gett(),bt=B.gett(); auto y=A.move_point(x); auto wx=sg::mulv(a.W,x); for(int i=0;i<3;++i) c.check(std::abs(y[i]-(wx[i]+at[i]))<1e-13*20,"move-point"); auto z=B.move_point(x); auto ab=(A*B).move_point(x); auto az=A.move_point(z); for(int i=0;i<3;++i){ double q=ab[i]-az[i]; c.check(std::abs(q-std::round(q))<1e-12,"product-acts-in-turn"); }
  auto vx=A.move_vector(x); auto ax=A.move_axial(x); int s=sg::det(a.W); for(int i=0;i<3;++i){ c.check(std::abs(vx[i]-wx[i])<1e-13,"move-vector"); c.check(std::abs(ax[i]-s*wx[i])<1e-13,"move-axial"); } std::array<int,3> ix{(int)c.si(5),(int)c.si(5),(int)c.si(5)}; c.check(A.move_vector(ix)==sg::mulv(a.W,ix),"move-integer-vector"); auto iax=A.move_axial(ix); auto wix=sg::mulv(a.W,ix); for(int i=0;i<3;++i) c.check(iax[i]==s*wix[i],"move-integer-axial");
  // equality is modulo whole lattice vectors, and nothing else
  c.check(A==motion(c,a)&&!(A!=motion(c,a)),"equal-modulo-lattice"); Op n=a; if(c.b()&&a.W!=b.W) n.W=b.W; else { int k=(int)c.draw(3); n.t[k]=sg::md(n.t[k]+(int)c.i(1,sg::D-1)); } auto N=motion(c,n); c.check(A!=N&&!(A==N),"unequal",[&]{ return sg::show(a)+" equals "+sg::show(n); });
  // order
  Symmetry S; S.add(A); int o=sg::order(a); int got=S.order(0); if(o<=10) c.check(got==o,"order",[&]{ return "order "+vp::str(got)+" expected "+vp::str(o); }); else c.check(got>=10,"order-too-small"); c.check(S.orders()==std::vector<int>{got},"orders"); c.check(vp::throws([&]{ (void)S.order(1); }),"order-of-nothing");
  c.label(o>6?"long order":o>3?"order 4-6":"order 1-3"); }
// ---- text
static std::string print_term(int e,char v){ std::string s=e<0?"-":"+"; if(std::abs(e)!=1) s+=std::to_string(std::abs(e)); return s+v; }
static std::string gap(vp::Case& c,bool any){ return any&&c.p(30)?(c.b()?" ":"  "):""; }
static int gcd(int a,int b){ return b?gcd(b,a%b):a; }
// any accepted spelling of one component
static std::string spell(vp::Case& c,const Op& o,int i,bool spaces){ std::vector<std::string> t; for(int k=0;k<3;++k) if(o.W[3*i+k]) t.push_back(print_term(o.W[3*i+k],"xyz"[k])); int n=o.t[i];
  if(n||c.p(8)){ int whole=c.p(12)?c.si(2):(c.p(20)&&n?-1:0); int num=n+whole*sg::D; if(num||c.p(50)){ std::string f; int g=gcd(std::abs(num),sg::D); if(g==0) g=sg::D; int p=num/g,q=sg::D/g; if(c.p(15)){ int m=c.i(2,4); p*=m; q*=m; }
    bool dec=c.p(25); if(dec){ char buf[64]; double v=std::abs(num)/(double)sg::D; std::snprintf(buf,sizeof buf,"%.*f",17,v); f=buf; if(f.rfind("0.",0)==0&&c.p(30)) f=f.substr(1); c.label("decimal"); } else if(q==1&&c.b()){ f=std::to_string(std::abs(p)); c.label("integer translation"); } else f=std::to_string(std::abs(p))+(c.p(0)?" ":"")+"/"+std::to_string(q); t.push_back((num<0?"-":"+")+f); if(num<0) c.label("negative translation"); } }
  c.shuffle(t); std::string s; for(size_t k=0;k<t.size();++k){ std::string u=t[k]; if(spaces&&c.p(30)) u=u.substr(0,1)+gap(c,true)+u.substr(1); if(k==0&&u[0]=='+'&&c.p(85)) { u=u.substr(1); while(!u.empty()&&u[0]==' ') u=u.substr(1);} s+=gap(c,spaces)+u; } return s+gap(c,spaces); }
static std::string spell(vp::Case& c,const Op& o,bool spaces){ return spell(c,o,0,spaces)+","+spell(c,o,1,spaces)+","+spell(c,o,2,spaces); }
VP_PROP(spellings,80000,2000000){ bool sp=c.b(); int n=c.i(1,4); std::vector<Op> o; std::string s; for(int i=0;i<n;++i){ o.push_back(op(c)); auto e=spell(c,o.back(),sp); s+=e; Mo one; one.from_ascii(e); if(i==0) c.note("text",e); SAME(one,o.back(),"parse","operation read from '"+e+"'"); Mo two(e+";"); SAME(two,o.back(),"parse-semicolon","operation read from '"+e+";'"); Symmetry S; c.check(S.add(e)==1,"add-count"); SAME(S.getm(0),o.back(),"add-text","operation added from '"+e+"'"); if(i+1<n||c.p(30)){ s+=";"; if(sp&&c.p(30)) s+=" "; } }
  if(sp) c.label("spaces"); c.nontrivial(o[0].W!=sg::one()||o[0].t!=sg::T3{0,0,0}); Symmetry S(s); c.note("list",s); c.check(S.size()==(size_t)n,"list-length",[&]{ return "'"+s+"' gives "+vp::str(S.size())+" operations, not "+vp::str(n); }); for(int i=0;i<n;++i) SAME(S.getm(i),o[i],"list","operation "+vp::str(i)+" of '"+s+"'"); brille::PointSymmetry P; if(c.b()) P.add(sg::one()); size_t had=P.size(); c.check(P.add(s)==had+n&&P.size()==had+n,"point-list-length",[&]{ return "'"+s+"' adds "+vp::str(P.size()-had)+" point operations, not "+vp::str(n); }); for(int i=0;i<n;++i) c.check(P.get(had+i)==o[i].W,"point-list",[&]{ return "point operation "+vp::str(i)+" of '"+s+"' is "+sg::show(P.get(had+i)); }); Symmetry R; R.add(Mo()); c.check(R.from_ascii(s)&&R==S,"replace"); }
VP_PROP(roundtrip,60000,900000){ int n=c.i(1,5); std::vector<Mo> m; std::string list; bool irr=c.p(20); for(int i=0;i<n;++i){ Op o=op(c); if(c.p(10)) for(auto&e:o.W) e=c.si(3); for(int r=0;r<3;++r) if(!o.W[3*r]&&!o.W[3*r+1]&&!o.W[3*r+2]) o.W[3*r+r]=1; auto t=w(c,o,c.b()); if(irr) for(auto&x:t) x=c.b()?c.sreal(1):c.real(0,1)/c.pick({1.,1e3,1e7}); else if(c.p(20)) for(auto&x:t) x=c.i(0,60)/(double)c.i(1,60); Mo a(o.W,t); m.push_back(a); auto s=a.to_ascii(); c.note("text",s); if(i==0) c.note("operation",show(a)); std::ostringstream os; os<<a; c.check(os.str()==s,"stream"); Mo b; b.from_ascii(s); c.check(a==b&&b==a,"roundtrip",[&]{ return show(a)+" prints as '"+s+"' which reads as "+show(b); }); Mo d(s); c.check(d==a,"construct-from-text"); list+=s; if(i+1<n||c.b()) list+=";"; }
  c.nontrivial(); if(irr) c.label("irrational"); Symmetry S(list); c.check(S.size()==m.size(),"list-length"); for(size_t i=0;i<m.size();++i) c.check(S.getm(i)==m[i],"list"); }
// every operation of every setting, as the groups report them
VP_PROP(tabulated,530,5300){ int h=1+(int)(c.index%530); auto&t=sg::table(h); c.note("hall",h); c.nontrivial(t.size()>1); std::string list; Symmetry S; for(auto&o:t){ Mo m(o.W,sg::real(o.t)); S.add(m); auto s=m.to_ascii(); Mo b(s); c.check(b==m,"roundtrip",[&]{ return sg::show(o)+" prints as '"+s+"' which reads as "+show(b); }); list+=(list.empty()?"":";")+s; int k=S.order(S.size()-1); c.check(k==sg::order(o),"order",[&]{ return sg::show(o)+" has order "+vp::str(k); }); } c.note("text",list.substr(0,200)); Symmetry R(list); c.check(R==S&&R.size()==t.size(),"list"); for(size_t i=0;i<t.size();++i) c.check(R.getm(i)==S.getm(i),"list-order"); }
// text which is not an operation is read without touching anything else
VP_PROP(junk,20000,400000){ static const std::string al="xyz+-,;/.0123456789 xyzXa()\t"; std::string s; if(c.b()) s=spell(c,op(c),c.b()); int edits=c.i(0,12); for(int i=0;i<edits;++i){ size_t at=s.empty()?0:c.draw(s.size()+1); char ch=al[c.draw(al.size())]; switch(c.draw(3)){ case 0: s.insert(at,1,ch); break; case 1: if(at<s.size()) s[at]=ch; break; default: if(at<s.size()) s.erase(at,1); } } c.note("text",s); c.nontrivial(edits>0); bool threw=false; auto run=[&](auto f){ try{ f(); }catch(const std::exception&){ threw=true; } }; run([&]{ Mo m; m.from_ascii(s); }); run([&]{ Mo m(s); }); run([&]{ Symmetry S(s); (void)S.size(); }); run([&]{ Symmetry S; S.add(s); }); run([&]{ brille::PointSymmetry P; P.add(s); }); run([&]{ brille::Motion<double,double> m; m.from_ascii(s,true); }); c.label(threw?"refused":"read"); }
VP_MAIN
