// L01: direct and reciprocal lattices are exact duals and report what their basis vectors say
#include "lat.hpp"
#include "snap.hpp"
#include "approx_config.hpp"
using namespace gen; using brille::MatrixVectors;
static std::array<double,3> ang(const V& a,AU u){ std::array<double,3> o; for(int i=0;i<3;++i) o[i]=(double)(u==AU::degree? a[i]*180/m3::PI: u==AU::pi? a[i]/m3::PI: a[i]); return o; }
static M recip_metric(const M& g){ return m3::sc(m3::inv(g),TP*TP); }
// a lattice from lengths and angles, in a random unit and space; its real-space metric is that of the cell
VP_PROP(from_parameters,14000,400000){ Cell k; brille::Symmetry s; int h=1; bool sym=c.p(60); if(sym){ h=hall(c); s=symmetry(h); k=compatible_cell(c,point_ops(s)); } else { s=symmetry(1); k=cell(c); }
  note_cell(c,k); c.note("hall",h); bool q=c.b(); bool snap=c.b(); Cell given=q? cell_from_metric(recip_metric(k.g)): k; AU u=c.pick({AU::degree,AU::radian,AU::pi,AU::not_provided}); AU wr= u==AU::not_provided? (c.b()?AU::degree:AU::radian): u; auto le=m3::d(given.len); auto an=ang(given.ang,wr);
  if(wr==AU::degree) for(auto&x:an) if(std::abs(x-std::round(x))<1e-10) x=std::round(x); // angles as they would be written
  c.note("given lengths",le); c.note("given angles",an); c.note("snap",snap); c.nontrivial(k.ang[0]!=m3::PI/2||k.ang[1]!=m3::PI/2||k.ang[2]!=m3::PI/2); c.label(q?"reciprocal":"direct");
  Lat l; switch(sym? c.draw(2): c.draw(4)){ case 0: case 1: l=q? bl::Reciprocal<double>(le,an,s,brille::Basis(),snap,u): bl::Direct<double>(le,an,s,brille::Basis(),snap,u); break; case 2: l=q? bl::Reciprocal<double>(le,an,std::string("P 1"),brille::Basis(),snap,u): bl::Direct<double>(le,an,std::string("P 1"),brille::Basis(),snap,u); break; default: l=q? bl::Reciprocal<double>(le,an,std::string("P 1"),std::string(""),brille::Basis(),snap,u): bl::Direct<double>(le,an,std::string("P 1"),std::string(""),brille::Basis(),snap,u); }
  L cond=std::sqrt(m3::maxabs(k.g)*m3::maxabs(recip_metric(k.g)))/TP; reports(c,l,k.g,1e-13L*cond*cond*10,"from-parameters"); c.check(l.bravais()==s.getcentring(),"centring"); c.check(l.spacegroup_symmetry()==s,"spacegroup-kept"); bool inv=false,tri=true; std::array<int,9> mi{-1,0,0,0,-1,0,0,0,-1},one{1,0,0,0,1,0,0,0,1}; for(auto&w: point_ops(s)){ inv|=w==mi; tri&=w==mi||w==one; } c.check(l.has_space_inversion()==inv,"has-inversion"); c.check(l.is_triclinic()==tri,"is-triclinic"); 
  // the same cell described by its other space, and by its vectors, is the same lattice
  { Cell oth=q? k: cell_from_metric(recip_metric(k.g)); auto ol=m3::d(oth.len); auto oa=ang(oth.ang,AU::radian); Lat o=q? bl::Direct<double>(ol,oa,s,brille::Basis(),snap,AU::radian): bl::Reciprocal<double>(ol,oa,s,brille::Basis(),snap,AU::radian); reports(c,o,k.g,1e-13L*cond*cond*10,"from-dual-parameters"); M A=colmat(l.real_basis_vectors()),B=colmat(o.real_basis_vectors()); c.check(m3::maxdiff(A,B)<=1e-12L*cond*cond*m3::maxabs(A),"orientation-of-dual-description"); }
  { bool col=c.b(),real=c.b(); auto m=real? l.real_basis_vectors(): l.reciprocal_basis_vectors(); if(!col) m=m3::d(m3::tr(m3::mat(m))); Lat v=real? bl::Direct<double>(m,col?MatrixVectors::column:MatrixVectors::row,s,brille::Basis(),snap): bl::Reciprocal<double>(m,col?MatrixVectors::column:MatrixVectors::row,s,brille::Basis(),snap); reports(c,v,k.g,1e-13L*cond*cond*10,"from-its-vectors"); M A=colmat(l.real_basis_vectors()),B=colmat(v.real_basis_vectors()); c.check(m3::maxdiff(A,B)<=1e-12L*cond*cond*m3::maxabs(A),"from-its-vectors",[&]{ return "vectors changed: "+vp::str(v.real_basis_vectors())+" from "+vp::str(l.real_basis_vectors()); }); }
}
VP_PROP(from_vectors,200000,1500000){ Cell k=cell(c); M a=m3::mul(rotation(c),m3::basis(k.g)); if(c.p(20)){ int i=(int)c.draw(3); for(int r=0;r<3;++r) a[3*r+i]=-a[3*r+i]; k=cell_from_metric(m3::mul(m3::tr(a),a)); c.label("left-handed"); } bool q=c.b(),col=c.b(); M b=dual(a); M in=q?b:a; M given=col?in:m3::tr(in); auto m=m3::d(given); c.note("matrix",m); c.note("reciprocal,columns",std::array<bool,2>{q,col}); c.nontrivial(); auto mv=col?MatrixVectors::column:MatrixVectors::row; bool snap=c.b();
  Lat l; switch(c.draw(3)){ case 0: l=q? bl::Reciprocal<double>(m,mv,symmetry(1),brille::Basis(),snap): bl::Direct<double>(m,mv,symmetry(1),brille::Basis(),snap); break; case 1: l=q? bl::Reciprocal<double>(m,mv,std::string("P 1"),brille::Basis(),snap): bl::Direct<double>(m,mv,std::string("P 1"),brille::Basis(),snap); break; default: l=q? bl::Reciprocal<double>(m,mv,std::string("P 1"),std::string(""),brille::Basis(),snap): bl::Direct<double>(m,mv,std::string("P 1"),std::string(""),brille::Basis(),snap); }
  M g=m3::mul(m3::tr(a),a); L cond=std::sqrt(m3::maxabs(g)*m3::maxabs(recip_metric(g)))/TP; reports(c,l,g,1e-13L*cond*cond*10,"from-vectors"); same_mat(c,l.real_basis_vectors(),a,1e-13L*cond*cond,"from-vectors","real basis"); same_mat(c,l.reciprocal_basis_vectors(),b,1e-13L*cond*cond,"from-vectors","reciprocal basis"); }
// a cell that breaks its symmetry a little, repaired as it is read: everything then follows from the repaired vectors
VP_PROP(snapped,8000,150000){ int h=hall(c); const Group& g=group(h); c.note("hall",h); Cell k=compatible_cell(c,g.pts); bool q=c.b(); Cell given= q? cell_from_metric(recip_metric(k.g)): k; L delta=c.pick(DELTA); note_cell(c,k); c.note("delta",(double)delta); V ln=given.len,an=given.ang; bool par=c.b(); perturb(c,g,ln,an,delta,par?q:true); bool any=false; for(int i=0;i<3;++i) any|=ln[i]!=given.len[i]||an[i]!=given.ang[i]; c.nontrivial(any); c.label(q?"reciprocal":"direct"); Lat l;
  if(par){ AU u=c.pick({AU::degree,AU::radian,AU::pi}); auto le=m3::d(ln); auto aa=ang(an,u); c.note("given lengths",le); c.note("given angles",aa); l=q? bl::Reciprocal<double>(le,aa,g.s,brille::Basis(),true,u): bl::Direct<double>(le,aa,g.s,brille::Basis(),true,u); }
  else { M o=m3::basis(m3::metric(ln,an)); if(c.b()) o=m3::mul(rotation(c),o); bool col=c.b(); auto m=m3::d(col?o:m3::tr(o)); c.note("matrix",m); auto mv=col?MatrixVectors::column:MatrixVectors::row; l=q? bl::Reciprocal<double>(m,mv,g.s,brille::Basis(),true): bl::Direct<double>(m,mv,g.s,brille::Basis(),true); }
  c.label(par?"parameters":"vectors"); M a=colmat(l.real_basis_vectors()); M gm=m3::mul(m3::tr(a),a); L cond=std::sqrt(m3::maxabs(gm)*m3::maxabs(recip_metric(gm)))/TP; reports(c,l,gm,1e-13L*cond*cond*10,"snapped"); L d=m3::maxdiff(gm,k.g); c.check(d<=(50*cond*cond*delta+1e-12L*cond*cond)*m3::maxabs(k.g),"snapped-too-far",[&]{ return "metric changed by "+vp::str((double)d); }); }
VP_PROP(equality,200000,1000000){ Cell k=cell(c); M a=m3::mul(rotation(c),m3::basis(k.g)); auto m=m3::d(a); Lat l=bl::Direct<double>(m,MatrixVectors::column,symmetry(1)); Lat same=bl::Direct<double>(m,MatrixVectors::column,symmetry(1)), copy(l); c.check(l==same&&!(l!=same)&&l==copy&&!(l!=copy)&&l.is_same(same)&&l.is_equivalent(same)&&l.is_permuted(same),"same-vectors-unequal"); c.note("matrix",m);
  // change one vector by a relative amount: beyond tolerance unequal, rounding-sized equal
  auto p=m; int e=(int)c.draw(9); double how=c.pick({1e-15,1e-9,1e-7,1e-5,1e-3,0.1}); double big=0; for(double x:m) big=std::max(big,std::abs(x)); if(how<1e-14){ for(auto&x:p) if(c.b()) x*=1+how*(double)c.si(3); } else p[e]+=(c.b()?1:-1)*how*big; c.note("change",how); c.nontrivial(how>1e-14); if(std::abs((double)m3::det(m3::mat(p)))<1e-3) c.discard(); Lat o=bl::Direct<double>(p,MatrixVectors::column,symmetry(1)); 
  if(how<1e-14){ M d=m3::mat(o.reciprocal_basis_vectors()),f=m3::mat(l.reciprocal_basis_vectors()); bool within=true; for(int i=0;i<9;++i) within&= std::abs(d[i]-f[i])<=4e-15L; if(within) c.check(l==o&&o==l,"rounding-sized-difference-unequal"); } else { c.check(l!=o&&!(l==o)&&o!=l&&!l.is_same(o)&&!l.is_equivalent(o)&&!l.is_permuted(o),"different-lattices-equal"); } }
// impossible parameters are refused
VP_PROP(impossible,20000,200000){ std::array<double,3> le{c.real(1,9),c.real(1,9),c.real(1,9)},an{c.real(5,175),c.real(5,175),c.real(5,175)}; double ca=std::cos(an[0]*3.14159265358979323846/180),cb=std::cos(an[1]*3.14159265358979323846/180),cg=std::cos(an[2]*3.14159265358979323846/180); double v2=1-ca*ca-cb*cb-cg*cg+2*ca*cb*cg; if(std::abs(v2)<1e-6) c.discard(); c.note("angles",an); c.nontrivial(v2<0); bool q=c.b(); bool th=vp::throws([&]{ auto l=q? bl::Reciprocal<double>(le,an,symmetry(1)): bl::Direct<double>(le,an,symmetry(1)); (void)l; }); c.check(th==(v2<0),v2<0?"impossible-cell-accepted":"possible-cell-refused"); }
VP_MAIN
