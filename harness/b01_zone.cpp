// B01: the first Brillouin zone is the Wigner-Seitz cell
#include "zone.hpp"
#include "neighbours.hpp"
#include <set>
using namespace zn;
static M primrec(const Crystal& k){ return gen::colmat(k.lat.primitive().reciprocal_basis_vectors()); }
struct Options { Cfg cfg; bool own=false; int digit=1000; double tol=1e-12; };
static Options options(vp::Case& c){ Options o; o.cfg.primitive(!c.p(25)); o.cfg.time_reversal(c.b()); o.cfg.wedge_search(false); o.cfg.divide_primitive(!c.p(25)); o.cfg.divide_extent((int)c.pick(std::vector<int>{1,1,1,1,2,3})); if(c.p(25)){ o.own=true; o.tol=(double)c.pick(std::vector<double>{1e-12,1e-11,1e-10}); o.digit=(int)c.pick(std::vector<int>{100,1000,10000}); } c.note("primitive",o.cfg.primitive()); c.note("divide primitive",o.cfg.divide_primitive()); c.note("extent",o.cfg.divide_extent()); if(o.own) c.note("tolerance",o.tol); return o; }
static BZ build(const Crystal& k,const Options& o){ if(o.own) return BZ(k.lat,brille::approx_float::Config(o.digit,o.tol,o.tol),o.cfg); return BZ(k.lat,o.cfg); }
static void zone(vp::Case& c,const Crystal& k,const Options& o,bool surface=true){ WS w(o.cfg.primitive()?primrec(k):k.rec); if(!w.clear) c.discard(); BZ z=build(k,o); auto p=z.get_polyhedron(); c.nontrivial(w.rel.size()>6); c.label(w.rel.size()==6?"6 faces":w.rel.size()==8?"8 faces":w.rel.size()==12?"12 faces":"14 faces"); c.label(k.cen.size()==1?"P":"centred");
  L cube=w.size*w.size*w.size; L tol=1e-10L*w.size; c.close(p.volume(),(double)w.vol,(double)(1e-10L*cube),"volume"); M in=o.cfg.primitive()?primrec(k):k.rec; c.close(p.volume(),(double)std::abs(m3::det(in)),(double)(1e-10L*cube),"volume"); if(o.cfg.primitive()) c.close(p.volume(),(double)(std::abs(m3::det(k.rec))*k.cen.size()),(double)(1e-10L*cube),"volume");
  auto x=z.get_vertices(); auto xx=x.xyz(); auto vs=[&]{ std::string s; for(auto&v:w.vert) s+=vp::str(m3::d(v)); return s; }; c.check(x.size(0)==w.vert.size()&&z.vertices_count()==x.size(0),"vertices",[&]{ return vp::str(x.size(0))+" vertices, expected "+vp::str(w.vert.size()); }); std::set<size_t> seen; std::vector<V> got; L off=0; for(ind_t i=0;i<xx.size(0);++i){ V v=vec(xx,i); got.push_back(v); size_t f=w.vert.size(); for(size_t j=0;j<w.vert.size();++j) if(m3::maxdiff(v,w.vert[j])<=tol){ f=j; off=std::max(off,m3::maxdiff(v,w.vert[j])); } c.check(f<w.vert.size()&&seen.insert(f).second,"vertices",[&]{ return "vertex "+vp::str(m3::d(v))+" expected one of "+vs(); }); }
  // face points are half lattice vectors, normals are along them
  auto fp=z.get_points(),fn=z.get_normals(); auto fx=fp.xyz(),nx=fn.xyz(); c.check(fp.size(0)==w.rel.size()&&z.faces_count()==fp.size(0)&&fn.size(0)==fp.size(0),"faces",[&]{ return vp::str(fp.size(0))+" faces, expected "+vp::str(w.rel.size()); }); seen.clear(); auto vpf=z.get_vertices_per_face(); auto fpv=z.get_faces_per_vertex(); c.check(vpf.size()==fp.size(0)&&fpv.size()==got.size(),"faces","list lengths");
  for(ind_t i=0;i<fx.size(0);++i){ V t=m3::sc(vec(fx,i),2); size_t f=w.rel.size(); for(size_t j=0;j<w.rel.size();++j) if(m3::maxdiff(t,w.rel[j])<=4*tol) f=j; c.check(f<w.rel.size()&&seen.insert(f).second,"face-points",[&]{ return "twice the face point "+vp::str(m3::d(t))+" is not a neighbouring lattice point"; }); V h=hkl(k.rec,t); double r[3]; for(int j=0;j<3;++j){ r[j]=(double)std::round(h[j]); c.check(std::abs(h[j]-r[j])<1e-8L*std::max<L>(1,m3::norm(h)),"face-points","twice a face point has not integer indices"); } c.check(!o.cfg.primitive()||allowed(k,r[0],r[1],r[2]),"face-points","twice a face point is not allowed by the centring"); V n=vec(nx,i); c.check(m3::maxdiff(m3::sc(n,m3::norm(t)),t)<=1e-8L*m3::norm(t),"normals",[&]{ return "normal "+vp::str(m3::d(n))+" of the face of "+vp::str(m3::d(t)); });
    std::set<size_t> on,have; for(size_t j=0;j<got.size();++j) if(std::abs(m3::dot(n,got[j])-m3::norm(t)/2)<1e-8L*w.size) on.insert(j); for(auto j:vpf[i]) have.insert(j); c.check(on==have&&have.size()==vpf[i].size(),"vertices-per-face"); V a=m3::sub(got[vpf[i][1]],got[vpf[i][0]]); for(size_t j=0;j<vpf[i].size();++j){ V e=m3::sub(got[vpf[i][(j+1)%vpf[i].size()]],got[vpf[i][j]]),e2=m3::sub(got[vpf[i][(j+2)%vpf[i].size()]],got[vpf[i][(j+1)%vpf[i].size()]]); c.check(m3::dot(m3::cross(e,e2),n)>0,"vertices-per-face","not in order around the face"); } (void)a; for(auto j:have) c.check(std::count(fpv[j].begin(),fpv[j].end(),i)==1,"faces-per-vertex"); }
  size_t nf=0,ne=0; for(auto&f:fpv) nf+=f.size(); for(auto&f:vpf) ne+=f.size(); c.check(nf==ne,"faces-per-vertex"); auto he=z.get_half_edges(); auto hx=he.xyz(); c.check(he.size(0)*2==ne,"half-edges"); for(ind_t i=0;i<hx.size(0);++i){ int on=0; V v=vec(hx,i); bool mid=false; for(size_t a=0;a<got.size();++a)for(size_t b=0;b<a;++b) mid|=m3::maxdiff(m3::sc(v,2),m3::add(got[a],got[b]))<tol; for(auto&t:w.rel) on+=std::abs(m3::dot(t,v)/m3::norm(t)-m3::norm(t)/2)<1e-8L*w.size; c.check(mid&&on==2,"half-edges"); }
  // the same in primitive units
  auto prim=z.get_primitive_lattice(); c.check(prim==(o.cfg.primitive()?k.lat.primitive():k.lat)&&z.get_lattice()==k.lat,"lattices"); auto same=[&](const QV& a,const brille::bArray<double>& b,const char* what){ c.check(a.lattice()==prim||(o.cfg.primitive()==false&&a.lattice()==k.lat),"primitive-units",what); auto ax=a.xyz(); c.check(ax.size(0)==b.size(0),"primitive-units",what); for(ind_t i=0;i<b.size(0);++i) c.check(m3::maxdiff(vec(ax,i),vec(b,i))<tol+1e-10L,"primitive-units",what); }; same(z.get_primitive_vertices(),xx,"vertices"); same(z.get_primitive_points(),fx,"points"); same(z.get_primitive_normals(),nx,"normals");
  // containment (vertices are matched within a tolerance, so a nearly degenerate zone may be off by that much)
  surface&=off<1e-13L*w.size;   std::vector<V> q; std::vector<int> want; L edge=w.edge(); auto put=[&](const V& v,int e){ if(!e&&w.depth(v)*edge*edge/2<100*o.tol) return; if(!surface&&std::abs(w.depth(v))<1e-9L*w.size) return; q.push_back(v); want.push_back(e); }; for(auto&v:w.vert){ put(v,1); put(m3::sc(v,1+1e-6L),0); } for(auto&t:w.rel){ put(m3::sc(t,0.5L),1); put(m3::sc(t,0.5L+1e-6L),0); put(m3::sc(t,0.5L-1e-6L),1); } for(ind_t i=0;i<hx.size(0);++i) put(vec(hx,i),1); put({0,0,0},1); for(int i=0;i<20;++i){ V u{(L)c.real(-1,1),(L)c.real(-1,1),(L)c.real(-1,1)}; if(m3::norm(u)<0.05L) continue; u=m3::sc(u,w.size/m3::norm(u)); L d=2; for(auto&t:w.cand) if(m3::dot(t,u)>0) d=std::min(d,m3::dot(t,t)/2/m3::dot(t,u)); L f=(L)c.pick(std::vector<double>{0.1,0.5,0.9,1-1e-5,1+1e-5,1.1,3}); put(m3::sc(u,d*f),f<1); put(m3::sc(u,-d*f),f<1); }
  auto ask=[&](const gen::Lat& l,const char* tag){ M inv=m3::inv(gen::colmat(l.reciprocal_basis_vectors())); std::vector<std::array<double,3>> h; for(auto&v:q) h.push_back(m3::d(m3::mul(inv,v))); auto r=z.isinside(qlist(l,h)); c.check(r.size()==q.size(),tag,"length"); for(size_t i=0;i<q.size();++i) c.check(r[i]==(bool)want[i],tag,[&]{ return "point "+vp::str(h[i])+" at a distance of "+vp::str((double)w.depth(q[i]))+(want[i]?" should be inside":" should be outside"); }); }; ask(k.lat,"isinside"); if(o.cfg.primitive()) ask(prim,"isinside-primitive");
  c.check(!z.isinside(qlist(k.lat,{{1000,1001,1002}}))[0],"isinside");
  // without a wedge search the irreducible zone is the first zone
  c.check(z.get_ir_polyhedron()==p&&z.get_ir_polyhedron(false)==p,"no-wedge-search"); c.check(z.get_ir_wedge_normals().size(0)==0,"no-wedge-search"); BZ y=build(k,o); c.check(y==z&&!(y!=z),"again"); }
VP_PROP(firstzone,4000,120000){ auto k=crystal(c); auto o=options(c); zone(c,k,o); }
// very oblique cells
VP_PROP(oblique,300,15000){ auto k=oblique(c); Options o=options(c); bool bad=false; WS w(k.rec); if(!w.clear) c.discard(); try{ build(k,o); }catch(const std::runtime_error&){ bad=true; } if(bad){ c.label("refused"); c.nontrivial(); return; } zone(c,k,o,false); }
// the relative indices from which the neighbouring lattice points are made
VP_PROP(neighbours,400,3000){ int n=(int)c.i(0,c.thorough?6:4),d=(int)c.pick({3,4,33}); c.note("extent",n); c.note("function",d); int dim=d==4?4:3; auto a=d==3?brille::make_relative_neighbour_indices(n):d==4?brille::make_relative_neighbour_indices4(n):brille::make_relative_neighbour_indices_prime(n); long num=1; for(int i=0;i<dim;++i) num*=2*n+1; --num; c.nontrivial(n>0); c.check((long)a.size(0)==num&&(!num||a.size(1)==(brille::ind_t)dim),"neighbours","number"); std::set<std::vector<int>> seen; std::vector<int> last; int used=0; for(long i=0;i<num;++i){ std::vector<int> v; int nz=0; for(int j=0;j<dim;++j){ v.push_back(a.val((brille::ind_t)i,j)); nz+=v.back()!=0; } for(int x:v) c.check(x>=-n&&x<=n,"neighbours","extent"); c.check(nz>0,"neighbours","the origin"); c.check(seen.insert(v).second,"neighbours",[&]{ return "twice "+vp::str(v); });
  if(d==33){ c.check(nz>=used,"neighbours-order",[&]{ return vp::str(v); }); used=nz; } else { c.check(last.empty()||last<v,"neighbours-order",[&]{ return vp::str(v); }); last=v; } } }
VP_MAIN
