// S03: what a point group reports about its operations, checked against the operations' matrices
#include "vp.hpp"
#include "sgref.hpp"
#include "symmetry.hpp"
#include "pointsymmetry.hpp"
#include "pointgroup.hpp"
#include "spg_database.hpp"
#include "approx_config.hpp"
using brille::PointSymmetry; using sg::W9; using sg::T3;
// the point operations of a setting in a random order, optionally with inversion added or only some of them
static std::vector<W9> ops(vp::Case& c,bool whole){ int h=(int)(c.p(50)?c.i(1,530):c.i(349,530)); c.note("hall",h); auto w=sg::points(sg::table(h)); if(c.p(30)){ size_t n=w.size(); for(size_t i=0;i<n;++i){ auto m=sg::neg(w[i]); if(std::find(w.begin(),w.end(),m)==w.end()) w.push_back(m); } c.label("inversion added"); } c.shuffle(w); if(!whole&&c.p(30)){ w.resize(c.i(1,(int)w.size())); c.label("part of a group"); } return w; }
static std::string show(const std::vector<W9>& v){ std::string s; for(auto&o:v) s+=sg::show(o); return s; }
static PointSymmetry make(vp::Case& c,const std::vector<W9>& w){ PointSymmetry P; for(auto&x:w) P.add(x); return P; }
static std::multiset<W9> ms(const PointSymmetry& p){ return {p.getall().begin(),p.getall().end()}; }
static bool zero(const T3& t){ return t==T3{0,0,0}; }
static T3 canon(T3 t){ int g=0; for(int x:t){ int a=std::abs(x),b=g; while(b){ int r=a%b; a=b; b=r; } g=a; } if(g) for(auto&x:t)x/=g; for(int x:t) if(x){ if(x<0) for(auto&y:t)y=-y; break; } return t; }
// direction left in place by the rotation part, from the sum of its powers applied to something
static T3 axis(const W9& m){ W9 p=sg::det(m)<0?sg::neg(m):m; if(p==sg::one()) return {0,0,0}; W9 s{},q=sg::one(); int n=sg::order(p); for(int i=0;i<n;++i){ for(int k=0;k<9;++k) s[k]+=q[k]; q=sg::mul(q,p); } for(int k=0;k<3;++k){ T3 v{s[k],s[3+k],s[6+k]}; if(!zero(v)) return canon(v); } return {0,0,0}; }
VP_PROP(tables,30000,600000){ auto w=ops(c,false); c.note("operations",show(w)); auto P=make(c,w); std::vector<int> od=P.orders(),is=P.isometries(); auto ax=P.axes(),pa=P.perpendicular_axes(); size_t n=w.size(); c.check(P.size()==n&&od.size()==n&&is.size()==n&&ax.size()==n&&pa.size()==n,"table-size"); c.nontrivial(n>2); bool inv_all=true,hi=false;
  for(size_t i=0;i<n;++i){ auto&m=w[i]; int t=sg::type(m); auto what=[&](const char*x){ return std::string(x)+" of "+sg::show(m); }; c.check(P.isometry(i)==t&&is[i]==t&&brille::isometry_value(m.data())==t,"isometry",[&]{ return what("isometry")+" is "+vp::str(is[i])+" not "+vp::str(t); }); c.check(P.order(i)==std::abs(t)&&od[i]==std::abs(t)&&brille::rotation_order(m.data())==std::abs(t),"order",[&]{ return what("order")+" is "+vp::str(od[i])+" not "+vp::str(std::abs(t)); });
    auto a=axis(m); c.check(canon(P.axis(i))==a&&P.axis(i)==ax[i],"axis",[&]{ return what("axis")+" is "+vp::str(P.axis(i))+" not "+vp::str(a); }); if(!zero(a)){ c.check(canon(ax[i])==ax[i]||canon(ax[i])==canon(T3{-ax[i][0],-ax[i][1],-ax[i][2]}),"axis-length"); auto p=P.perpendicular_axis(i); c.check(p==pa[i],"perpendicular"); c.check(!zero(p)&&p[0]*ax[i][0]+p[1]*ax[i][1]+p[2]*ax[i][2]==0,"perpendicular",[&]{ return what("perpendicular axis")+" is "+vp::str(p)+" for axis "+vp::str(ax[i]); }); auto v=brille::rotation_axis_and_perpendicular_vectors(m.data()); c.check(v[0]==ax[i]&&v[1]==p,"perpendicular"); auto&q=v[2]; c.check(!zero(q)&&q[0]*ax[i][0]+q[1]*ax[i][1]+q[2]*ax[i][2]==0&&canon(q)!=canon(p),"perpendicular"); } else c.check(zero(P.perpendicular_axis(i)),"perpendicular");
    // look-up
    c.check(P.get(i)==m&&P.getall()[i]==m,"get"); std::array<int,9> g{}; c.check(P.get(i,g.data())&&g==m,"get"); const auto&cp=P; for(int k=0;k<9;++k) c.check(cp.data(i)[k]==m[k]&&P.data(i)[k]==m[k],"data"); c.check(P.has(m)&&P.find_index(m)==i,"find"); c.check(P.get_proper(i)==(t<0?sg::neg(m):m),"proper",[&]{ return what("rotation part")+" is "+sg::show(P.get_proper(i)); }); hi|=t==-1;
    auto in=sg::inv(m); bool has=std::find(w.begin(),w.end(),in)!=w.end(); if(has){ c.check(P.get_inverse(i)==in,"inverse",[&]{ return what("inverse")+" is "+sg::show(P.get_inverse(i)); }); auto j=P.get_inverse_index(i); c.check(j<n&&w[j]==in,"inverse-index"); c.check(P.get_inverse_index(j)==i,"inverse-index"); T3 v{(int)c.si(9),(int)c.si(9),(int)c.si(9)}; c.check(sg::mulv(P.get_inverse(i),sg::mulv(P.get(i),v))==v,"inverse-restores"); } else { c.check(vp::throws([&]{ (void)P.get_inverse(i); })&&vp::throws([&]{ (void)P.get_inverse_index(i); }),"missing-inverse"); inv_all=false; } }
  c.check(P.has_space_inversion()==hi,"has-inversion"); auto e=std::find(w.begin(),w.end(),sg::one())-w.begin(); c.check(P.find_identity_index()==(size_t)e,"identity-index"); auto&t=sg::table((int)c.i(1,530)); auto q=t[c.draw(t.size())].W; auto f=std::find(w.begin(),w.end(),q)-w.begin(); c.check(P.find_index(q)==(size_t)f&&P.has(q)==((size_t)f<n),"find-other"); c.check(P.getall()==brille::Matrices<int>(w),"changed"); c.label(inv_all?"closed under inverse":"open"); int k[9]; c.check(!P.get(n,k)&&P.data(n)==nullptr,"out-of-range"); c.check(vp::throws([&]{ (void)P.order(n); })&&vp::throws([&]{ (void)P.isometry(n); })&&vp::throws([&]{ (void)P.axis(n); })&&vp::throws([&]{ P.erase(n); }),"out-of-range"); }
VP_PROP(sorting,30000,600000){ auto w=ops(c,false); c.note("operations",show(w)); auto P=make(c,w); auto before=ms(P); c.nontrivial(w.size()>2); int mode=c.pick({-2,-1,0,1,2,3}); c.note("mode",mode); P.sort(mode); c.check(ms(P)==before,"sort-changes-operations"); for(size_t i=1;i<P.size();++i){ int a=sg::type(P.get(i-1)),b=sg::type(P.get(i)); bool ok=mode==-2?a>=b:mode==-1?std::abs(a)>=std::abs(b):mode==2?a<=b:std::abs(a)<=std::abs(b); c.check(ok,"not-sorted",[&]{ return "types "+vp::str(a)+" then "+vp::str(b)+" for mode "+vp::str(mode); }); }
  PointSymmetry Q{brille::Matrices<int>(w)}; c.check(ms(Q)==before,"construct-changes-operations"); for(size_t i=1;i<Q.size();++i) c.check(std::abs(sg::type(Q.get(i-1)))<=std::abs(sg::type(Q.get(i))),"not-sorted");
  // permuting
  auto R=make(c,w); std::vector<size_t> p; for(auto x: c.perm((int)w.size())) p.push_back((size_t)x); c.note("permutation",p); R.permute(p); for(size_t i=0;i<p.size();++i) c.check(R.get(i)==w[p[i]],"permute",[&]{ return "entry "+vp::str(i)+" is "+sg::show(R.get(i))+" not entry "+vp::str(p[i]); }); auto bad=p; switch(c.draw(3)){ case 0: bad.push_back(p.size()); break; case 1: bad.pop_back(); break; default: bad[c.draw(bad.size())]+=p.size(); } if(c.b()&&p.size()>1){ bad=p; bad[0]=bad[1]; } auto S=make(c,w); c.check(vp::throws([&]{ S.permute(bad); }),"bad-permutation-accepted"); c.check(S.getall()==brille::Matrices<int>(w),"refused-permutation-changed");
  // selecting by order
  int m=c.i(0,6); auto H=make(c,w).higher(m); std::multiset<W9> want; for(auto&x:w) if(std::abs(sg::type(x))>m) want.insert(x); c.note("order above",m); c.check(ms(H)==want,"higher",[&]{ return vp::str(H.size())+" operations of order above "+vp::str(m)+", expected "+vp::str(want.size()); }); for(size_t i=1;i<H.size();++i) c.check(std::abs(sg::type(H.get(i-1)))<=std::abs(sg::type(H.get(i))),"not-sorted");
  auto N=make(c,w).nfolds(m); std::map<T3,int> top; for(auto&x:w){ auto a=axis(x); top[a]=std::max(top[a],std::abs(sg::type(x))); } std::map<T3,int> sel; for(auto&k:top) if(k.second>m) sel[k.first]=k.second; c.check(N.size()==sel.size(),"nfolds-count",[&]{ return vp::str(N.size())+" axes with order above "+vp::str(m)+", expected "+vp::str(sel.size()); }); for(size_t i=0;i<N.size();++i){ auto x=N.get(i); auto a=axis(x); c.check(sg::det(x)==1,"nfolds-improper"); c.check(sel.count(a)&&sel[a]==sg::type(x),"nfolds-axis",[&]{ return sg::show(x)+" has order "+vp::str(sg::type(x))+" about "+vp::str(a); }); sel.erase(a); bool in=false; for(auto&y:w) in|=y==x||sg::neg(y)==x; c.check(in,"nfolds-not-an-operation"); if(i) c.check(sg::type(N.get(i-1))<=sg::type(x),"not-sorted"); }
  // removing, replacing
  auto V=w; auto T=make(c,w); for(int k=0;k<3&&!V.empty();++k){ size_t i=c.draw(V.size()); if(c.b()){ c.check(T.pop(i)==V[i],"pop"); V.erase(V.begin()+i); } else if(c.b()){ c.check(T.erase(i)==V.size()-1,"erase"); V.erase(V.begin()+i); } else { auto&x=w[c.draw(w.size())]; c.check(T.set(i,x.data()),"set"); V[i]=x; } c.check(T.getall()==brille::Matrices<int>(V),"edit"); } c.check(!T.set(T.size(),w[0].data()),"set-out-of-range"); size_t z=c.draw(6); T.resize(z); c.check(T.size()==z,"resize"); for(size_t i=0;i<std::min(z,V.size());++i) c.check(T.get(i)==V[i],"resize"); }
// which operations take one vector to another
VP_PROP(links,30000,600000){ auto w=ops(c,false); c.note("operations",show(w)); auto P=make(c,w); T3 a{(int)c.si(3),(int)c.si(3),(int)c.si(3)},b; if(c.b()) b=sg::mulv(w[c.draw(w.size())],a); else if(c.b()) b=sg::vmul(a,w[c.draw(w.size())]); else for(auto&x:b)x=(int)c.si(3); c.note("from",a); c.note("to",b); std::vector<W9> mv,vm; for(auto&x:w){ if(sg::mulv(x,a)==b) mv.push_back(x); if(sg::vmul(a,x)==b) vm.push_back(x); } c.nontrivial(!mv.empty()||!vm.empty()); c.check(P.mat_vec_links(a,b)==!mv.empty()&&P.vec_mat_links(a,b)==!vm.empty(),"links"); c.check(P.mat_vec_linking_operations(a,b)==brille::Matrices<int>(mv)&&P.vec_mat_linking_operations(a,b)==brille::Matrices<int>(vm),"linking-operations");
  // unique operations, with and without inversion
  auto many=w; for(int i=0;i<4;++i) many.insert(many.begin()+c.draw(many.size()+1),w[c.draw(w.size())]); for(int tr=0;tr<2;++tr){ auto u=brille::get_unique_rotations(many,tr); std::vector<W9> want; auto src=many; if(tr) for(auto&x:many) src.push_back(sg::neg(x)); for(auto&x:src) if(std::find(want.begin(),want.end(),x)==want.end()) want.push_back(x); c.check(u==want,"unique-operations",[&]{ return vp::str(u.size())+" unique operations, expected "+vp::str(want.size()); }); }
  std::vector<int> flat; for(auto&x:many) flat.insert(flat.end(),x.begin(),x.end()); auto G=brille::ptg_get_pointsymmetry(flat.data(),(int)many.size()); std::vector<W9> want; for(auto&x:many) if(std::find(want.begin(),want.end(),x)==want.end()) want.push_back(x); c.check(ms(G)==std::multiset<W9>(want.begin(),want.end()),"unique-pointsymmetry"); }
// the groups reported for every setting
VP_PROP(groups,1060,10600){ int h=1+(int)((c.index/2)%530),tr=(int)(c.index%2); c.note("hall",h); c.note("time reversal",tr); auto w=sg::points(sg::table(h)); if(tr) for(size_t i=0,n=w.size();i<n;++i){ auto m=sg::neg(w[i]); if(std::find(w.begin(),w.end(),m)==w.end()) w.push_back(m); } std::multiset<W9> want(w.begin(),w.end()); c.nontrivial(w.size()>2); brille::Spacegroup s(h); auto P=s.get_pointgroup_symmetry(tr); c.check(ms(P)==want,"point-group"); for(size_t i=1;i<P.size();++i) c.check(P.order(i-1)<=P.order(i),"not-sorted"); std::vector<int> r(48*9); int n=brille::get_pointgroup_rotations_hall_number(r.data(),48,h,tr); c.check(n==(int)w.size(),"rotations-count"); std::multiset<W9> got; for(int i=0;i<n;++i){ W9 m; std::copy(r.begin()+9*i,r.begin()+9*i+9,m.begin()); got.insert(m); } c.check(got==want,"rotations"); if(w.size()>1) c.check(vp::throws([&]{ brille::get_pointgroup_rotations_hall_number(r.data(),(int)w.size()-1,h,tr); }),"too-small-accepted");
  if(!tr){ auto g=brille::get_pointgroup(P); c.check(g.get_number()==spgtable::row[h].pointgroup,"classification",[&]{ return "classified as "+vp::str(g.get_number())+" ("+g.get_symbol()+")"; }); c.shuffle(w); auto Q=make(c,w); c.check(brille::get_pointgroup(Q).get_number()==g.get_number(),"classification-order"); } auto I=s.get_pointgroup_symmetry(0).add_space_inversion(); if(tr) c.check(ms(I)==want,"add-inversion"); }
VP_MAIN
