// L04: lattices and atom positions obey their spacegroup after snapping
#include "lat.hpp"
#include "atoms.hpp"
#include "snap.hpp"
#include "approx_config.hpp"
#include "geometry.hpp"
#include "phonon.hpp"
using namespace gen; using brille::MatrixVectors; using brille::ind_t;
static L invariance(const M& g,const std::vector<std::array<int,9>>& pts){ L d=0; for(auto&w:pts){ M x=m3::mat(w); d=std::max(d,m3::maxdiff(m3::mul(m3::tr(x),m3::mul(g,x)),g)); } return d; }
static M gram(const M& a){ return m3::mul(m3::tr(a),a); }
static P3 ang(const V& a,AU u){ P3 o; for(int i=0;i<3;++i) o[i]=(double)(u==AU::degree? a[i]*180/m3::PI: a[i]); return o; }
static void symmetric(vp::Case& c,const Lat& l,const Group& g,const char* tag){ M a=colmat(l.real_basis_vectors()),b=colmat(l.reciprocal_basis_vectors()); M ga=gram(a),gb=gram(b); L cond=std::sqrt(m3::maxabs(ga)*m3::maxabs(gb))/TP; std::vector<std::array<int,9>> tp; for(auto w:g.pts){ std::swap(w[1],w[3]); std::swap(w[2],w[6]); std::swap(w[5],w[7]); tp.push_back(w); } L d=invariance(ga,g.pts),e=invariance(gb,tp); c.check(d<=1e-13L*cond*m3::maxabs(ga),tag,[&]{ return "the real metric changes by "+vp::str((double)d)+" under its point group: "+vp::str(m3::d(ga)); }); c.check(e<=1e-13L*cond*m3::maxabs(gb),tag,[&]{ return "the reciprocal metric changes by "+vp::str((double)e)+" under its point group"; }); same_mat(c,l.metric(RS),ga,1e-13L,tag,"metric"); same_mat(c,l.metric(QS),gb,1e-13L,tag,"metric"); M ab=m3::mul(m3::tr(a),b); L m=m3::maxdiff(ab,m3::sc(m3::eye(),TP)); c.check(m<=1e-13L*cond*TP*10,tag,"a.b is not 2 pi"); }
struct Made { Cell k; L cond; };
static Made compat(vp::Case& c,const Group& g){ Made m; m.k=compatible_cell(c,g.pts); M gr=m3::sc(m3::inv(m.k.g),TP*TP); m.cond=std::sqrt(m3::maxabs(m.k.g)*m3::maxabs(gr))/TP; note_cell(c,m.k); return m; }
VP_PROP(parameters,8000,150000){ int h=hall(c); const Group& g=group(h); c.note("hall",h); auto m=compat(c,g); bool q=c.b(); Cell given= q? cell_from_metric(m3::sc(m3::inv(m.k.g),TP*TP)): m.k; L delta=c.pick(DELTA); c.note("delta",(double)delta); V ln=given.len,an=given.ang; 
  // linked lengths and angles in reciprocal space follow the transposed operations, but link the same pairs
  perturb(c,g,ln,an,delta,q); bool any=false; for(int i=0;i<3;++i) any|=ln[i]!=given.len[i]||an[i]!=given.ang[i]; c.nontrivial(any); AU u=c.b()?AU::degree:AU::radian; auto le=m3::d(ln); auto aa=ang(an,u); c.note("given lengths",le); c.note("given angles",aa); c.label(q?"reciprocal":"direct");
  Lat l=q? bl::Reciprocal<double>(le,aa,g.s,brille::Basis(),true,u): bl::Direct<double>(le,aa,g.s,brille::Basis(),true,u); symmetric(c,l,g,"parameters-not-symmetric"); M ga=gram(colmat(l.real_basis_vectors())); L d=m3::maxdiff(ga,m.k.g); c.check(d<=(50*m.cond*m.cond*delta+1e-13L*m.cond*m.cond*10)*m3::maxabs(m.k.g),"snapped-too-far",[&]{ return "metric changed by "+vp::str((double)d); }); }
VP_PROP(vectors,8000,150000){ int h=hall(c); const Group& g=group(h); c.note("hall",h); auto m=compat(c,g); bool q=c.b(); Cell given= q? cell_from_metric(m3::sc(m3::inv(m.k.g),TP*TP)): m.k; L delta=c.pick(DELTA); c.note("delta",(double)delta); V ln=given.len,an=given.ang; perturb(c,g,ln,an,delta,true); bool any=false; for(int i=0;i<3;++i) any|=ln[i]!=given.len[i]||an[i]!=given.ang[i]; c.nontrivial(any); 
  M o=m3::basis(m3::metric(ln,an)); M r=m3::eye(); int how=(int)c.draw(4); if(how==1) r=rotation(c); else if(how==2){ static const V ax[]={{1,0,0},{0,1,0},{0,0,1},{1,1,0},{1,1,1},{0,1,1}}; r=m3::rot(ax[c.draw(6)],m3::PI/2*(L)c.i(1,3)); for(auto&e:r) if(std::abs(e-std::round(e))<1e-12L) e=std::round(e); } else if(how==3){ r=m3::rot(V{(L)(c.i(0,1)),(L)c.i(0,1),1},m3::PI/180*(L)c.i(1,359)); } o=m3::mul(r,o); if(c.p(15)){ for(auto&e:o) e=-e; c.label("left-handed"); } bool colm=c.b(); auto mm=m3::d(o); auto tt=m3::d(m3::tr(o)); c.note("vectors (columns)",mm); c.label(q?"reciprocal":"direct"); auto mv=colm?MatrixVectors::column:MatrixVectors::row; const auto& in=colm?mm:tt;
  Lat l=q? bl::Reciprocal<double>(in,mv,g.s,brille::Basis(),true): bl::Direct<double>(in,mv,g.s,brille::Basis(),true); symmetric(c,l,g,"vectors-not-symmetric"); M got=colmat(q? l.reciprocal_basis_vectors(): l.real_basis_vectors()); L d=m3::maxdiff(got,o); c.check(d<=(50*m.cond*m.cond*delta+1e-13L*m.cond*m.cond*10)*m3::maxabs(o),"snapping-turned-vectors",[&]{ return "vectors became "+vp::str(m3::d(got)); }); }
// an exactly symmetric lattice is left as it is
VP_PROP(unchanged,6000,100000){ int h=hall(c); const Group& g=group(h); c.note("hall",h); auto m=compat(c,g); M a=m3::basis(m.k.g); if(c.b()) a=m3::mul(rotation(c),a); auto mm=m3::d(a); bool any=false; for(int i=0;i<3;++i) for(int j=0;j<3;++j) any|=i!=j&&g.link[i][j]; c.nontrivial(any); bool par=c.b(); Lat on,off; if(par){ auto le=m3::d(m.k.len); auto an=ang(m.k.ang,AU::degree); on=bl::Direct<double>(le,an,g.s,brille::Basis(),true,AU::degree); off=bl::Direct<double>(le,an,g.s,brille::Basis(),false,AU::degree); } else { on=bl::Direct<double>(mm,MatrixVectors::column,g.s,brille::Basis(),true); off=bl::Direct<double>(mm,MatrixVectors::column,g.s,brille::Basis(),false); } same_mat(c,on.real_basis_vectors(),colmat(off.real_basis_vectors()),2e-14L*m.cond*m.cond,"symmetric-lattice-changed","real vectors"); same_mat(c,on.reciprocal_basis_vectors(),colmat(off.reciprocal_basis_vectors()),2e-14L*m.cond*m.cond,"symmetric-lattice-changed","reciprocal vectors"); symmetric(c,on,g,"symmetric-lattice-spoiled"); }
// ---------------------------------------------------------------------------------------------- atoms
static void mapped(vp::Case& c,const Group& g,const std::vector<P3>& pos,const std::vector<ind_t>& ty,L tol,const char* tag){ size_t n=pos.size(); for(auto&o:g.ops){ std::vector<char> hit(n,0); for(size_t k=0;k<n;++k){ V y=act(o,m3::vec(pos[k])); size_t f=n; for(size_t l=0;l<n;++l) if(ty[l]==ty[k]&&dist(y,m3::vec(pos[l]))<=tol) f=l; c.check(f<n&&!hit[f],tag,[&]{ L best=9; for(size_t l=0;l<n;++l) if(ty[l]==ty[k]) best=std::min(best,dist(y,m3::vec(pos[l]))); return "atom "+vp::str(k)+" at "+vp::str(pos[k])+" is not mapped onto an atom: nearest is "+vp::str((double)best)+" away"; }); hit[f]=1; } } }
static Lat lattice_with(const Group& g,const Cell& k,const brille::Basis& b,bool snap){ return bl::Direct<double>(m3::d(k.len),ang(k.ang,AU::radian),g.s,b,snap,AU::radian); }
VP_PROP(atom_positions,25000,60000){ int h=hall(c); const Group& g=group(h); c.note("hall",h); auto m=compat(c,g); Atoms a; if(!atoms(c,g,a,26)) c.discard(); L delta=c.pick({0.,1e-15,1e-14,1e-12,1e-9,1e-6,1e-4,1e-3}); c.note("delta",(double)delta); auto x=a.x; for(auto&v:x) for(auto&e:v) e+=delta*(L)c.sreal(1); auto given=dbl(x); auto exact=dbl(a.x); c.note("positions",given); c.note("types",a.type); c.nontrivial(delta>0&&g.ops.size()>1); c.label(delta>0?"perturbed":"exact"); std::vector<ind_t> ty(a.type.begin(),a.type.end());
  Lat l; int via=(int)c.draw(3); if(via==0) l=lattice_with(g,m.k,brille::Basis(given,ty),true); else { l=lattice_with(g,m.k,brille::Basis(),true); if(via==1) l.basis(given,ty,true); else l.basis(brille::Basis(given,ty),true); } auto b=l.basis(); c.check(b.size()==given.size()&&b.types()==ty,"atoms-lost-or-retyped"); auto pos=b.positions(); mapped(c,g,pos,ty,3e-14L,"positions-not-symmetric"); for(size_t k=0;k<pos.size();++k){ L d=m3::norm(m3::sub(m3::vec(pos[k]),m3::vec(given[k]))); c.check(d<=10*delta+2e-15L,"atom-moved-too-far",[&]{ return "atom "+vp::str(k)+" moved from "+vp::str(given[k])+" to "+vp::str(pos[k]); }); }
  if(delta<1e-15){ for(size_t k=0;k<pos.size();++k) c.check(b.position(k)==pos[k],"position(i)"); }
  // without snapping nothing moves
  Lat r=lattice_with(g,m.k,brille::Basis(given,ty),false); auto rp=r.basis().positions(); c.check(rp==given&&r.basis().types()==ty,"moved-without-snapping"); }
// which atom becomes which, and by which lattice vector
VP_PROP(equivalent_atoms,20000,50000){ int h=hall(c); const Group& g=group(h); c.note("hall",h); auto m=compat(c,g); Atoms a; if(!atoms(c,g,a,26)) c.discard(); auto given=dbl(a.x); std::vector<ind_t> ty(a.type.begin(),a.type.end()); c.note("positions",given); c.note("types",a.type); c.nontrivial(a.x.size()>1&&g.ops.size()>1); Lat l=lattice_with(g,m.k,brille::Basis(given,ty),true); auto b=l.basis(); auto pos=b.positions(); size_t n=pos.size(); auto al=l.spacegroup_symmetry().getallm(); for(size_t oi=0;oi<al.size();++oi){ Op o; o.w=m3::mat(al[oi].getr()); auto t=al[oi].gett(); for(int j=0;j<3;++j) o.t[j]=t[j]; for(size_t k=0;k<n;++k){ auto [f,w]=b.equivalent_after_operation(k,al[oi]); V y=act(o,m3::vec(pos[k])); c.check(f&&w<n&&ty[w]==ty[k]&&dist(y,m3::vec(pos[w]))<1e-12L,"equivalent-atom",[&]{ return "operation "+vp::str(oi)+" takes atom "+vp::str(k)+" to "+vp::str((int)f)+","+vp::str((int)w); }); } }
  // a position that is no atom, or is an atom of another type, is not found
  { P3 x; for(auto&e:x) e=c.real(-1,2); bool near=false; for(auto&p:pos) near|=dist(m3::vec(x),m3::vec(p))<1e-3L; if(!near){ auto [f,w]=b.equivalent_to(ty[0],x); c.check(!f&&w==n,"atom-found-where-none-is"); auto [cf,cw,cd]=b.closest_to(ty[0],x); L best=9; for(size_t k=0;k<n;++k) if(ty[k]==ty[0]) best=std::min(best,dist(m3::vec(x),m3::vec(pos[k]))); c.check(!cf&&cw<n&&ty[cw]==ty[0]&&std::abs(dist(m3::vec(x),m3::vec(pos[cw]))-best)<1e-12L&&std::abs(m3::norm(m3::vec(cd))-best)<1e-12L,"closest-atom"); } auto [f2,w2]=b.equivalent_to(99u,pos[0]); c.check(!f2&&w2==n,"atom-of-another-type"); std::array<double,3> sh=pos[n-1]; for(auto&e:sh) e+=(double)c.si(3); auto [f3,w3]=b.equivalent_to(ty[n-1],sh,1e-12,1); c.check(f3&&w3==n-1,"atom-in-another-cell"); }
  // the phase table
  bool tr=c.b(); auto ps=l.pointgroup_symmetry(); if(tr&&!ps.has_space_inversion()) tr=false; brille::GammaTable gt(true,l,tr?1:0,1e-12,1); for(size_t r=0;r<ps.size();++r){ std::vector<char> hit(n,0); auto R=ps.get((ind_t)r); for(size_t k=0;k<n;++k){ auto w=gt.F0(k,r); c.check(w<n&&!hit[w]&&ty[w]==ty[k],"gamma-permutation"); hit[w]=1; auto vv=gt.vector(k,r); V v={vv.val(0,0),vv.val(0,1),vv.val(0,2)}; c.check(m3::norm(wrapd(v))<1e-11L,"gamma-vector",[&]{ return "vector "+vp::str(m3::d(v))+" is not a lattice vector"; }); auto lv=gt.ldvector(k,r); c.check(lv.type()==RS&&lv.lattice()==l&&lv.size(0)==1&&lv.val(0,0)==vv.val(0,0)&&lv.val(0,1)==vv.val(0,1)&&lv.val(0,2)==vv.val(0,2),"gamma-ldvector");
    // one operation of the spacegroup with rotation R takes every atom k to F0(k,r), and v = inverse(r_l)-r_k for it
    } bool some=false; for(auto&mo: al) if(mo.getr()==R){ auto inv=mo.inverse(); bool ok=true; for(size_t k=0;k<n&&ok;++k){ auto w=gt.F0(k,r); Op o; o.w=m3::mat(mo.getr()); auto t=mo.gett(); for(int j=0;j<3;++j) o.t[j]=t[j]; ok&=dist(act(o,m3::vec(pos[k])),m3::vec(pos[w]))<1e-11L; auto y=inv.move_point(pos[w]); auto vv=gt.vector(k,r); for(int j=0;j<3;++j) ok&=std::abs(y[j]-pos[k][j]-vv.val(0,j))<1e-10; } some|=ok; } c.check(some,"gamma-operation",[&]{ return "no operation with rotation "+vp::str((int)r)+" maps the atoms as tabulated"; }); }
  c.check(vp::throws([&]{ (void)gt.F0(n,0); })&&vp::throws([&]{ (void)gt.F0(0,ps.size()); }),"gamma-out-of-bounds"); }
// incomplete or wrongly typed bases are refused, or made exactly symmetric; never used as they are
VP_PROP(incomplete_basis,20000,40000){ int h=(int)c.i(2,530); const Group& g=group(h); c.note("hall",h); auto m=compat(c,g); Atoms a; if(!atoms(c,g,a,26)) c.discard(); std::map<int,int> cnt; for(auto o:a.orbit) cnt[o]++; std::vector<size_t> cand; for(size_t k=0;k<a.x.size();++k) if(cnt[a.orbit[k]]>1) cand.push_back(k); if(cand.empty()) c.discard(); size_t k=c.pick(cand); int how=(int)c.draw(2); if(how==0){ a.x.erase(a.x.begin()+k); a.type.erase(a.type.begin()+k); } else a.type[k]=1000; c.note("how",how==0?"atom missing":"atom of wrong type"); auto given=dbl(a.x); std::vector<ind_t> ty(a.type.begin(),a.type.end()); c.note("positions",given); c.note("types",a.type); c.nontrivial();
  Lat off=lattice_with(g,m.k,brille::Basis(given,ty),false); if(g.centring=='P') c.check(vp::throws([&]{ brille::GammaTable gt(true,off,0,1e-12,1); }),"incomplete-basis-tabulated"); Lat on; bool th=vp::throws([&]{ on=lattice_with(g,m.k,brille::Basis(given,ty),true); }); c.label(th?"refused":"symmetrised"); if(!th) mapped(c,g,on.basis().positions(),ty,3e-14L,"incomplete-basis-accepted"); }
VP_MAIN
