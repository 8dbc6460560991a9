// L03: conversions between conventional and primitive cells
#include "lat.hpp"
#include "approx_config.hpp"
#include "geometry.hpp"
using namespace gen; using brille::MatrixVectors; using brille::ind_t; using brille::Bravais;
template<class T> using LV=bl::LVec<T>; using BA=brille::bArray<double>;
static V cart(const M& m,const V& x){ return m3::mul(m,x); }
template<class A> static V row(const A& a,ind_t i){ return {(L)a.val(i,0),(L)a.val(i,1),(L)a.val(i,2)}; }
static L mag(const M& m,const V& x){ L s=0; for(int i=0;i<3;++i) s+=std::abs(x[i])*std::sqrt(m[i]*m[i]+m[3+i]*m[3+i]+m[6+i]*m[6+i]); return s; }
// the centring translations, from the spacegroup operations themselves, in 24ths
struct Group { brille::Symmetry s; std::vector<std::array<int,3>> t24; std::vector<std::array<int,9>> ops; };
static const Group& group(int h){ static std::map<int,Group> m; auto i=m.find(h); if(i!=m.end()) return i->second; Group g; g.s=symmetry(h); g.ops=point_ops(g.s); auto al=g.s.getallm(); for(auto&o: al){ std::array<int,9> one{1,0,0,0,1,0,0,0,1}; if(o.getr()==one){ auto t=o.gett(); std::array<int,3> k; for(int j=0;j<3;++j) k[j]=((int)std::lround(t[j]*24)%24+24)%24; g.t24.push_back(k); } } return m.emplace(h,g).first->second; }
#define EQV(got,want,tol,tag,what) do{ V g_=(got),w_=(want); L e_=m3::norm(m3::sub(g_,w_)); L t_=(tol); c.check(e_<=t_,tag,[&]{ return std::string(what)+" is "+vp::str(m3::d(g_))+" expected "+vp::str(m3::d(w_))+" (allowed "+vp::str((double)t_)+")"; }); }while(0)
// the stored matrices, for every setting
VP_PROP(matrices,5300,53000){ int h=1+(int)(c.index%530); const Group& g=group(h); c.note("hall",h); brille::PrimitiveTransform P(g.s.getcentring()); auto p=P.get_6P(), i=P.get_invP(), pt=P.get_6Pt(), it=P.get_invPt(); c.nontrivial(g.t24.size()>1); c.label(brille::bravais_string(g.s.getcentring()));
  for(int r=0;r<3;++r) for(int k=0;k<3;++k){ int s=0,q=0; for(int j=0;j<3;++j){ s+=p[3*r+j]*i[3*j+k]; q+=i[3*r+j]*p[3*j+k]; } c.check(s==(r==k?6:0)&&q==(r==k?6:0),"not-inverse"); c.check(pt[3*r+k]==p[3*k+r]&&it[3*r+k]==i[3*k+r],"not-transpose"); }
  int det=i[0]*(i[4]*i[8]-i[5]*i[7])-i[1]*(i[3]*i[8]-i[5]*i[6])+i[2]*(i[3]*i[7]-i[4]*i[6]); c.check(det==(int)g.t24.size(),"volume-ratio",[&]{ return "determinant "+vp::str(det)+" for "+vp::str((int)g.t24.size())+" lattice points per cell"; }); c.check(P.does_anything()==(g.t24.size()>1)&&P.does_nothing()!=P.does_anything(),"does-anything");
  for(auto&t:g.t24) for(int r=0;r<3;++r){ int s=0; for(int j=0;j<3;++j) s+=i[3*r+j]*t[j]; c.check(s%24==0,"centring-translation",[&]{ return "centring translation "+vp::str(t)+"/24 is not a primitive lattice vector"; }); }
  for(int k=0;k<3;++k){ std::array<int,3> col; for(int r=0;r<3;++r) col[r]=((p[3*r+k]*4)%24+24)%24; c.check(std::find(g.t24.begin(),g.t24.end(),col)!=g.t24.end(),"primitive-vector",[&]{ return "primitive vector "+vp::str(k)+" is not a lattice vector"; }); } }
struct Ctx { int h; const Group* g; Lat lat,prim; M A,B,Ap,Bp; L cond; };
static Ctx setting(vp::Case& c){ Ctx x; x.h=hall(c); x.g=&group(x.h); Cell k=compatible_cell(c,x.g->ops); M a=m3::basis(k.g); if(c.b()) a=m3::mul(rotation(c),a); if(c.p(10)){ for(auto&e:a) e=-e; c.label("left-handed"); } auto m=m3::d(a); x.lat=bl::Direct<double>(m,MatrixVectors::column,x.g->s,brille::Basis(),false); x.prim=x.lat.primitive(); x.A=m3::mat(m); x.B=dual(x.A); c.note("hall",x.h); note_cell(c,k); brille::PrimitiveTransform P(x.lat.bravais()); auto p6=P.get_6P(); M p; for(int i=0;i<9;++i) p[i]=(L)p6[i]/6; x.Ap=m3::mul(x.A,p); x.Bp=dual(x.Ap); M g=m3::mul(m3::tr(x.Ap),x.Ap),r=m3::mul(m3::tr(x.Bp),x.Bp); x.cond=std::max(std::sqrt(m3::maxabs(g)*m3::maxabs(r))/TP,std::sqrt(m3::maxabs(k.g)*m3::maxabs(m3::inv(k.g)))); return x; }
VP_PROP(lattice,2500,60000){ Ctx k=setting(c); size_t n=k.g->t24.size(); c.nontrivial(n>1); c.label(brille::bravais_string(k.lat.bravais())); L rel=1e-13L*k.cond*k.cond*10; M gp=m3::mul(m3::tr(k.Ap),k.Ap); 
  same_mat(c,k.prim.real_basis_vectors(),k.Ap,rel,"primitive-vectors","primitive real vectors"); same_mat(c,k.prim.reciprocal_basis_vectors(),k.Bp,rel,"primitive-vectors","primitive reciprocal vectors"); reports(c,k.prim,gp,rel,"primitive-reports"); L v=std::abs(m3::det(k.A)); L sc=1; { V ln,an; m3::cell(m3::mul(m3::tr(k.A),k.A),ln,an); sc=ln[0]*ln[1]*ln[2]; } c.check(std::abs(k.prim.volume(RS)*(L)n-k.lat.volume(RS))<=1e-12L*sc,"primitive-volume"); c.check(std::abs(k.prim.volume(QS)-k.lat.volume(QS)*(L)n)<=1e-12L*k.cond*TP*TP*TP/v*(L)n,"primitive-volume");
  if(n==1) c.check(k.prim==k.lat,"primitive-of-primitive"); else c.check(k.prim!=k.lat,"primitive-equal-conventional"); c.check(k.lat.primitive()==k.prim,"primitive-repeatable"); reports(c,k.lat,m3::mul(m3::tr(k.A),k.A),rel,"conventional-kept"); }
static std::vector<V> give(vp::Case& c,const Ctx& k,bool q,ind_t n,std::vector<std::array<double,3>>& d){ std::vector<V> o; d.clear(); for(ind_t i=0;i<n;++i){ std::array<double,3> x; bool centre=!q&&c.p(25); if(centre){ auto&t=k.g->t24[c.draw(k.g->t24.size())]; for(int j=0;j<3;++j) x[j]=t[j]/24.+(double)c.si(3); } else for(int j=0;j<3;++j) x[j]=c.b()?(double)c.si(5):coord(c,4); d.push_back(x); o.push_back(m3::vec(x)); } return o; }
VP_PROP(vectors,24000,500000){ Ctx k=setting(c); bool q=c.b(); ind_t n=(ind_t)c.i(1,6); std::vector<std::array<double,3>> d; auto x=give(c,k,q,n,d); c.note("reciprocal",q); c.note("vectors",d); c.nontrivial(k.g->t24.size()>1); c.label(brille::bravais_string(k.lat.bravais())); L rel=1e-14L*k.cond*k.cond*5; const M& C=q?k.B:k.A; const M& Pm=q?k.Bp:k.Ap; auto lu=q?QS:RS;
  LV<double> v(lu,k.lat,BA::from_std(d)); if(c.p(20)){ auto w=d; w.insert(w.begin(),{9,9,9}); v=LV<double>(lu,k.lat,BA::from_std(w)).view(1,n+1); c.label("view"); }
  auto p=bl::transform_to_primitive(k.lat,v); c.check(p.type()==lu&&p.lattice()==k.prim,"to-primitive-lattice"); c.check(p.size(0)==n&&p.size(1)==3,"to-primitive-shape"); bool tr=k.g->t24.size()>1;
  for(ind_t i=0;i<n;++i){ V y=row(p,i); EQV(cart(Pm,y),cart(C,x[i]),rel*(mag(Pm,y)+mag(C,x[i])),"to-primitive","primitive vector (Cartesian)"); EQV(row(v,i),x[i],0,"input-changed","input"); bool integral=true; for(auto e:y) integral&=std::abs(e-std::round(e))<1e-9L; 
    bool lattice_point; if(!q){ lattice_point=false; for(auto&t:k.g->t24){ bool m=true; for(int j=0;j<3;++j){ L e=x[i][j]-t[j]/24.L; m&=std::abs(e-std::round(e))<1e-9L; } lattice_point|=m; } } else { lattice_point=true; for(auto&t:k.g->t24){ L e=0; for(int j=0;j<3;++j) e+=x[i][j]*t[j]/24.L; lattice_point&=std::abs(e-std::round(e))<1e-9L; } for(auto e:x[i]) lattice_point&=std::abs(e-std::round(e))<1e-9L; } c.check(integral==lattice_point,"integral-coordinates",[&]{ return "vector "+vp::str(m3::d(x[i]))+(lattice_point?" is":" is not")+" a lattice vector but its primitive coordinates are "+vp::str(m3::d(y)); }); }
  auto b=bl::transform_from_primitive(k.lat,p); c.check(b.type()==lu&&b.lattice()==k.lat,"from-primitive-lattice"); for(ind_t i=0;i<n;++i) EQV(row(b,i),x[i],2e-15L*(1+m3::norm(x[i]))*4,"round-trip","round trip");
  // vectors given in the primitive cell
  LV<double> w(lu,k.prim,BA::from_std(d)); auto f=bl::transform_from_primitive(k.lat,w); c.check(f.type()==lu&&f.lattice()==k.lat,"from-primitive-lattice"); for(ind_t i=0;i<n;++i){ V y=row(f,i); EQV(cart(C,y),cart(Pm,x[i]),rel*(mag(Pm,x[i])+mag(C,y)),"from-primitive","conventional vector (Cartesian)"); } auto g=bl::transform_to_primitive(k.lat,f); for(ind_t i=0;i<n;++i) EQV(row(g,i),x[i],2e-15L*(1+m3::norm(x[i]))*6,"round-trip","round trip from primitive");
  // already there: unchanged
  auto same=bl::transform_to_primitive(k.lat,w); c.check(same.lattice()==k.prim&&same.type()==lu,"already-primitive"); auto same2=bl::transform_from_primitive(k.lat,v); c.check(same2.lattice()==k.lat,"already-conventional"); for(ind_t i=0;i<n;++i){ EQV(row(same,i),x[i],0,"already-primitive","unchanged"); EQV(row(same2,i),x[i],0,"already-conventional","unchanged"); }
  // lengths and products
  auto nv=norm(v),np=norm(p); for(ind_t i=0;i<n;++i){ L s=mag(C,x[i])+mag(Pm,row(p,i)); c.check(std::abs((L)nv.val(i,0)*nv.val(i,0)-(L)np.val(i,0)*np.val(i,0))<=10*rel*s*s,"length-kept"); }
  // the parallel versions give the same
  if(c.p(30)){ int th=c.i(1,4); auto pp=bl::parallel_transform_to_primitive(k.lat,v,th); auto pf=bl::parallel_transform_from_primitive(k.lat,w,th); c.check(pp.lattice()==k.prim&&pf.lattice()==k.lat&&pp.type()==lu&&pf.type()==lu,"parallel"); for(ind_t i=0;i<n;++i){ EQV(row(pp,i),row(p,i),0,"parallel","parallel to primitive"); EQV(row(pf,i),row(f,i),0,"parallel","parallel from primitive"); } auto ps=bl::parallel_transform_to_primitive(k.lat,w,th); auto pz=bl::parallel_transform_from_primitive(k.lat,v,th); for(ind_t i=0;i<n;++i){ EQV(row(ps,i),x[i],0,"parallel","already there"); EQV(row(pz,i),x[i],0,"parallel","already there"); } }
  // Cartesian and lattice components
  auto xyz=bl::hkl_to_xyz(k.lat,lu,v.hkl()); auto hk=bl::xyz_to_hkl(k.lat,lu,xyz); for(ind_t i=0;i<n;++i){ EQV(row(xyz,i),cart(C,x[i]),rel*mag(C,x[i]),"hkl-to-xyz","hkl_to_xyz"); EQV(row(hk,i),x[i],1e-14L*k.cond*k.cond*10*(1+m3::norm(x[i])),"xyz-to-hkl","xyz_to_hkl"); }
  // another lattice is refused
  if(tr||c.p(20)){ auto m=m3::d(k.A); double big=0; for(double e:m) big=std::max(big,std::abs(e)); int at=(int)c.draw(9); m[at]+=c.pick({1e-5,1e-2,0.2})*big; if(std::abs((double)m3::det(m3::mat(m)))>1e-2){ Lat o=bl::Direct<double>(m,MatrixVectors::column,symmetry(1)); LV<double> u(lu,o,BA::from_std(d)); c.check(vp::throws([&]{ (void)bl::transform_to_primitive(k.lat,u); }),"unrelated-accepted"); c.check(vp::throws([&]{ (void)bl::transform_from_primitive(k.lat,u); }),"unrelated-accepted"); c.check(vp::throws([&]{ (void)bl::parallel_transform_to_primitive(k.lat,u,2); }),"unrelated-accepted"); c.check(vp::throws([&]{ (void)bl::parallel_transform_from_primitive(k.lat,u,2); }),"unrelated-accepted"); } }
}
VP_MAIN
