// H01: writing to a file and reading back gives an equal object with the same answers; only the named entry changes
#include "grid.hpp"
#include <cstring>
#include <optional>
using namespace zn; using namespace gr; using brille::Interpolator; using brille::DualInterpolator; using brille::PermutationTable; using brille::Symmetry; using brille::PointSymmetry; using brille::Basis; using brille::Bravais; using SH=brille::shape_t; namespace HF=HighFive;
template<class T> static bool bits(const T& a,const T& b){ return !std::memcmp(&a,&b,sizeof(T)); }
template<class T> static bool bits(const std::vector<T>& a,const std::vector<T>& b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();++i) if(!bits(a[i],b[i])) return false; return true; }
template<class T> static bool bits(const brille::Array2<T>& a,const brille::Array2<T>& b){ if(a.shape()!=b.shape()) return false; for(ind_t i=0;i<a.size(0);++i)for(ind_t j=0;j<a.size(1);++j) if(!bits(a.val(i,j),b.val(i,j))) return false; return true; }
template<class T> static bool bits(const brille::Array<T>& a,const brille::Array<T>& b){ if(a.shape()!=b.shape()) return false; for(auto& s:a.subItr()) if(!bits(a[s],b[s])) return false; return true; }
template<class T,size_t N> static bool bits(const std::array<T,N>& a,const std::array<T,N>& b){ return a==b; }
static std::string name(vp::Case& c){ static const std::vector<std::string> n{"x","entry","a/b","/a/b/c","with space","Ünïcode","0","a.b","BrillouinZone","length"}; return c.pick(n); }
// write with one of the ways, read with one of the ways
template<class O> static O trip(vp::Case& c,const O& o,const std::string& f,const std::string& e){ bool byname=c.b(); bool ok; if(byname) ok=o.to_hdf(f,e); else { HF::File h(f,HF::File::OpenOrCreate); ok=o.to_hdf(h,e); } c.check(ok,"write-failed"); if(c.b()) return O::from_hdf(f,e); HF::File h(f,HF::File::ReadOnly); return O::from_hdf(h,e); }
template<class O> static O tripobj(vp::Case& c,const O& o,const std::string& f,const std::string& e){ { HF::File h(f,HF::File::OpenOrCreate); c.check(o.to_hdf(h,e),"write-failed"); } HF::File h(f,HF::File::ReadOnly); return O::from_hdf(h,e); }
template<class T> static T val(vp::Case& c){ if constexpr(std::is_same_v<T,cd>){ double a=val<double>(c); return cd(a,val<double>(c)); } else if constexpr(std::is_same_v<T,double>){ int k=(int)c.draw(12); if(k==0) return 0; if(k==1) return -0.0; if(k==2) return 1e-310; if(k==3) return 1.7e308; if(k==4) return std::nextafter(1.0,2); return c.sreal(k<9?1:1e6); } else if constexpr(std::is_signed_v<T>) return c.p(10)?std::numeric_limits<T>::lowest():c.p(10)?(std::numeric_limits<T>::max)():(T)c.si(1000); else return c.p(10)?(std::numeric_limits<T>::max)():(T)c.draw(1000); }
// ---- arrays, with any layout in memory
template<class T> static brille::Array2<T> array2(vp::Case& c,int cols=-1){ ind_t n=(ind_t)c.i(0,6),m=cols<0?(ind_t)c.i(cols<-1?1:0,5):(ind_t)cols; brille::Array2<T> a(n,m); for(ind_t i=0;i<n;++i)for(ind_t j=0;j<m;++j) a.val(i,j)=val<T>(c); if(n>1&&c.p(40)){ ind_t lo=(ind_t)c.draw(n),hi=(ind_t)c.i(lo+1,n); if(c.b()) a=a.view(lo,hi); else { std::vector<ind_t> ix; for(int k=(int)c.i(1,5);k--;) ix.push_back((ind_t)c.draw(n)); a=a.extract(ix); } c.label("view or selection"); } if(n&&m&&c.p(25)){ ind_t N=a.size(0); T* p=new T[N*m]; for(ind_t i=0;i<N;++i)for(ind_t j=0;j<m;++j) p[j*N+i]=a.val(i,j); a=brille::Array2<T>(p,N*m,true,brille::shape_t{N,m}.size()==2?typename brille::Array2<T>::shape_t{{N,m}}:typename brille::Array2<T>::shape_t{{0,0}},typename brille::Array2<T>::shape_t{{1,N}}); c.label("column-ordered"); } return a; }
template<class T> static void arrays(vp::Case& c){ auto a=array2<T>(c); c.note("shape",std::vector<ind_t>{a.size(0),a.size(1)}); auto b=trip(c,a,"f",name(c)); c.check(a.size(0)==b.size(0)&&a.size(1)==b.size(1),"shape",[&]{ return vp::str(b.size(0))+" by "+vp::str(b.size(1)); }); c.check(bits(a,b),"array"); if(a.numel()) c.check(!(a!=b),"unequal"); c.nontrivial(a.numel()>1); if(!a.numel()) c.label("empty"); }
// ---- lattices and what they hold
static Basis basis(vp::Case& c){ std::vector<std::array<double,3>> p; std::vector<ind_t> t; for(int n=(int)c.i(0,5);n--;){ p.push_back({c.sreal(2),c.sreal(2),c.sreal(2)}); t.push_back((ind_t)c.draw(4)); } return Basis(p,t); }
static void same_basis(vp::Case& c,const Basis& a,const Basis& b){ c.check(a.size()==b.size()&&a.types()==b.types(),"basis"); for(ind_t i=0;i<a.size();++i){ c.check(bits(a.position(i),b.position(i)),"basis-position");  } c.check(a.to_string()==b.to_string(),"basis-text"); }
static void same_sym(vp::Case& c,const Symmetry& a,const Symmetry& b){ c.check(a.size()==b.size(),"symmetry-size"); for(size_t i=0;i<a.size();++i) c.check(a.getr(i)==b.getr(i)&&bits(a.gett(i),b.gett(i)),"symmetry-operation"); c.check(a==b,"symmetry-unequal"); }
static void same_point(vp::Case& c,const PointSymmetry& a,const PointSymmetry& b){ c.check(a.size()==b.size(),"point-size"); for(size_t i=0;i<a.size();++i) c.check(a.get(i)==b.get(i)&&a.get_inverse_index(i)==b.get_inverse_index(i),"point-operation"); }
static void same_lat(vp::Case& c,const gen::Lat& a,const gen::Lat& b){ c.check(a==b&&!(a!=b),"lattice-unequal"); for(auto lu:{LengthUnit::angstrom,LengthUnit::inverse_angstrom}){ c.check(bits(a.vectors(lu),b.vectors(lu)),"lattice-vectors"); c.check(bits(a.metric(lu),b.metric(lu)),"lattice-metric"); c.check(a.volume(lu)==b.volume(lu),"lattice-volume"); for(int i=0;i<3;++i) c.check(a.length(lu,i)==b.length(lu,i)&&a.angle(lu,i)==b.angle(lu,i),"lattice-parameters"); } c.check(a.bravais()==b.bravais(),"bravais"); same_sym(c,a.spacegroup_symmetry(),b.spacegroup_symmetry()); same_point(c,a.pointgroup_symmetry(),b.pointgroup_symmetry()); same_basis(c,a.basis(),b.basis()); }
static void lattices(vp::Case& c){ auto k=crystal(c,2,12); if(c.p(60)) k.lat.basis(basis(c),false); auto f=k.lat; auto g=c.p(30)?f.primitive():f; auto e=name(c); auto b=tripobj(c,g,"f",e); same_lat(c,g,b); if(c.p(30)){ auto p=g.pointgroup_symmetry(); { HF::File h("f",HF::File::OpenOrCreate); p.to_hdf(h,"point"); g.spacegroup_symmetry().to_hdf(h,"space"); g.basis().to_hdf(h,"basis"); auto m=g.spacegroup_symmetry().getm(c.draw(g.spacegroup_symmetry().size())); m.to_hdf(h,"motion"); auto n=std::decay_t<decltype(m)>::from_hdf(h,"motion"); c.check(m.getr()==n.getr()&&bits(m.gett(),n.gett()),"motion"); } HF::File h("f"); same_point(c,p,PointSymmetry::from_hdf(h,"point")); same_sym(c,g.spacegroup_symmetry(),Symmetry::from_hdf(h,"space")); same_basis(c,g.basis(),Basis::from_hdf(h,"basis")); same_lat(c,g,gen::Lat::from_hdf(h,e)); }
  { auto lu=c.pick(std::vector<LengthUnit>{gen::RS,gen::QS}); auto a=array2<double>(c,3); QV v(lu,g,a); auto w=trip(c,v,"f","v"); c.check(bits<double>(v.hkl(),w.hkl()),"lvec"); c.check(w.type()==lu,"lvec-type"); same_lat(c,v.lattice(),w.lattice()); bl::LVec<int> u(lu,g,array2<int>(c,3)); auto x=trip(c,u,"f","u"); c.check(bits<int>(u.hkl(),x.hkl())&&u.type()==x.type(),"lvec-int"); }
  c.nontrivial(k.W.size()>1); }
// ---- polyhedra, zones
template<class P> static void same_poly(vp::Case& c,const P& a,const P& b){ c.check(bits<double>(brille::get_xyz(a.vertices()),brille::get_xyz(b.vertices())),"poly-vertices"); c.check(a.faces().faces()==b.faces().faces(),"poly-faces"); c.check(!(a!=b)&&a==b,"poly-unequal"); c.check(a.volume()==b.volume(),"poly-volume"); c.check(bits<double>(brille::get_xyz(a.face_normals()),brille::get_xyz(b.face_normals())),"poly-normals"); }
static std::vector<std::array<double,3>> points(vp::Case& c,const BZ& z,const M& iB,int most){ auto vx=z.get_polyhedron().vertices().xyz(); std::vector<std::array<double,3>> q; for(int n=(int)c.i(1,most);n--;){ int kd=(int)c.draw(3); std::array<double,3> x; if(kd==0) for(auto&v:x) v=c.sreal(2); else if(kd==1){ int d=(int)c.i(1,6); for(auto&v:x) v=(double)c.si(2*d)/d; } else x=m3::d(m3::mul(iB,vec(vx,(ind_t)c.draw(vx.size(0))))); q.push_back(x); } return q; }
static void same_zone(vp::Case& c,const Crystal& k,const BZ& a,const BZ& b,bool wedge=true){ c.check(a==b&&!(a!=b),"zone-unequal"); same_lat(c,a.get_lattice(),b.get_lattice()); same_poly(c,a.get_polyhedron(),b.get_polyhedron()); same_poly(c,a.get_ir_polyhedron(),b.get_ir_polyhedron()); same_poly(c,a.get_ir_polyhedron(false),b.get_ir_polyhedron(false)); c.check(bits<double>(a.get_ir_wedge_normals().xyz(),b.get_ir_wedge_normals().xyz()),"wedge-normals"); same_point(c,a.get_pointgroup_symmetry(),b.get_pointgroup_symmetry()); c.check(a.add_time_reversal()==b.add_time_reversal(),"time-reversal"); c.check(a.to_string()==b.to_string(),"zone-text");
  auto q=points(c,a,m3::inv(k.rec),8); auto Q=qlist(k.lat,q); struct R { QV q,t; bl::LVec<int> tau; std::vector<size_t> r,i; std::vector<bool> in,w; }; auto run=[&](const BZ& z){ bl::LVec<int> t1(gen::QS,k.lat,0u),t2(gen::QS,k.lat,0u); QV q1(gen::QS,k.lat,0u),q2(gen::QS,k.lat,0u),q3(gen::QS,k.lat,0u); std::vector<size_t> r,i,rw; bool ok=z.moveinto(Q,q1,t1,1); ok&=z.ir_moveinto(Q,q2,t2,r,i,1); std::vector<double> o; bool wok=z.ir_moveinto_wedge(Q,q3,rw,1); o.push_back(ok); o.push_back(wok); for(auto* p:{&q1,&q2,&q3}) for(ind_t n=0;n<p->size(0);++n)for(ind_t m=0;m<3;++m) o.push_back(p->val(n,m)); for(auto* p:{&t1,&t2}) for(ind_t n=0;n<p->size(0);++n)for(ind_t m=0;m<3;++m) o.push_back(p->val(n,m)); for(auto* p:{&r,&i,&rw}) for(auto x:*p) o.push_back((double)x); for(auto x:z.isinside(Q)) o.push_back(x); for(auto x:z.isinside_wedge(Q)) o.push_back(x); return o; };
  (void)wedge; std::vector<double> x,y; bool tx=false,ty=false; try{ x=run(a); }catch(const std::exception&){ tx=true; } try{ y=run(b); }catch(const std::exception&){ ty=true; } c.check(tx==ty&&bits(x,y),"zone-answers",[&]{ return vp::str(q); }); }
static void zones(vp::Case& c){ auto s=setup(c); if(c.p(25)){ s.cfg.divide_primitive(c.b()); c.label("divide"); } std::optional<BZ> m; brille::approx_float::Config ac; int d=1000; double tol=1e-12; if(c.p(30)){ d=(int)c.pick(std::vector<int>{1000,500,2000}); tol=c.pick(std::vector<double>{1e-12,1e-11,1e-13}); c.note("tolerances",std::vector<double>{(double)d,tol}); ac.digit(d); ac.reciprocal(tol); } try{ m.emplace(s.k.lat,s.cfg,ac); }catch(const std::runtime_error&){ c.discard(); } auto e=name(c); auto b=trip(c,*m,"f",e); same_zone(c,s.k,*m,b); // again, over what is there
  if(c.p(30)){ auto b2=trip(c,b,"f",e); same_zone(c,s.k,*m,b2); } auto p=m->get_polyhedron(); same_poly(c,p,trip(c,p,"f","p")); auto ip=m->get_ir_polyhedron(); same_poly(c,ip,trip(c,ip,"f","p")); auto F=ip.faces(); auto G=trip(c,F,"f","faces"); c.check(F==G&&F.faces()==G.faces(),"faces"); brille::polyhedron::Poly<double,brille::Array2> cp(brille::get_xyz(p.vertices()),p.faces()); same_poly(c,cp,trip(c,cp,"f","c")); c.nontrivial(s.k.W.size()>1); }
// ---- what a grid holds
template<class S> static S coef(vp::Case& c); template<> double coef<double>(vp::Case& c){ return c.sreal(1); } template<> cd coef<cd>(vp::Case& c){ double a=c.sreal(1); return cd(a,c.sreal(1)); }
struct Lay { SH sh; El el{0,0,0}; };
static Lay lay(vp::Case& c,ind_t P,ind_t nb){ Lay l; ind_t s=(ind_t)c.i(0,3),v=(ind_t)c.i(0,2),m=(ind_t)c.i(0,1); if(!(s+v+m)) s=1; int nd=(int)c.i(nb>1?2:1,5); switch(nd){ case 1: l.sh={P}; l.el={1,0,0}; break; case 2: l.sh={P,nb*(s+3*v+9*m)}; l.el={s,3*v,9*m}; break; case 3: l.sh={P,nb,s+3*v+9*m}; l.el={s,3*v,9*m}; break; case 4: l.sh={P,nb,v+1,3}; l.el={0,3*(v+1),0}; break; default: l.sh={P,nb,m+1,3,3}; l.el={0,0,9*(m+1)}; } return l; }
template<class T> static brille::Array<T> data(vp::Case& c,const Lay& l){ brille::Array<T> a(l.sh,T(0)); for(auto& s:a.subItr()) a[s]=coef<T>(c); return a; }
static RotatesLike rl(vp::Case& c){ return c.pick(std::vector<RotatesLike>{RotatesLike::vector,RotatesLike::pseudovector,RotatesLike::Gamma}); }
static LengthUnit lu(vp::Case& c){ return c.pick(std::vector<LengthUnit>{LengthUnit::none,LengthUnit::angstrom,LengthUnit::inverse_angstrom,LengthUnit::real_lattice,LengthUnit::reciprocal_lattice}); }
template<class T> static Interpolator<T> interp(vp::Case& c,ind_t P,ind_t nb){ auto l=lay(c,P,nb); auto a=data<T>(c,l); Interpolator<T> o(a,l.el,rl(c),lu(c),(int)c.draw(3),(int)c.draw(3),{c.real(0,2),c.real(0,2),c.real(0,2)}); return o; }
template<class T> static void same_interp(vp::Case& c,const Interpolator<T>& a,const Interpolator<T>& b){ c.check(!(a!=b),"interpolator-unequal"); c.check(bits(a.data(),b.data()),"interpolator-data"); c.check(a.shape()==b.shape(),"interpolator-shape"); c.check(a.elements()==b.elements(),"interpolator-elements"); c.check(a.rotateslike()==b.rotateslike(),"interpolator-rotates"); c.check(a.to_string()==b.to_string(),"interpolator-text"); c.check(a.size()==b.size()&&a.branches()==b.branches(),"interpolator-size"); }
template<class T> static void costs(vp::Case& c,const Interpolator<T>& a,const Interpolator<T>& b){ if(a.size()<2) return; ind_t i=(ind_t)c.draw(a.size()),j=(ind_t)c.draw(a.size()); std::vector<double> x(a.branches()*a.branches(),0),y(x); a.add_cost(i,j,x,false); b.add_cost(i,j,y,false); c.check(bits(x,y),"interpolator-cost"); }
template<class T,class R> static void inter(vp::Case& c){ ind_t P=(ind_t)c.i(1,5),nb=(ind_t)c.i(1,3); auto a=c.p(10)?Interpolator<T>((int)c.draw(3),(int)c.draw(3)):interp<T>(c,P,nb); auto b=trip(c,a,"f",name(c)); same_interp(c,a,b); if(a.size()) costs(c,a,b);
  DualInterpolator<T,R> d; if(!c.p(10)){ auto v=interp<T>(c,P,nb); auto w=interp<R>(c,P,nb); d.replace_data(v,w); std::set<size_t> keys; for(ind_t i=0;i<P;++i)for(ind_t j=0;j<P;++j) if(i<j&&c.b()){ keys.insert(i*P+j); keys.insert(j*P+i); } d.initialize_permutation_table(P,keys); if(c.b()) d.sort(); } else c.label("unfilled"); auto e=trip(c,d,"f","dual"); c.check(!(d!=e),"dual-unequal"); same_interp(c,d.values(),e.values()); same_interp(c,d.vectors(),e.vectors()); if(d.size()) for(int t=0;t<4;++t){ std::vector<ind_t> ix; for(int n=(int)c.i(1,3);n--;) ix.push_back((ind_t)c.draw(P)); c.check(d.get_permutations(ix)==e.get_permutations(ix),"permutations"); }
  PermutationTable t(P,nb); for(int k=(int)c.draw(8);k--;){ auto p=c.perm(nb); t.set(c.draw(P),c.draw(P),std::vector<int>(p.begin(),p.end())); } auto u=trip(c,t,"f","table"); c.check(!(t!=u),"table-unequal"); for(ind_t i=0;i<P;++i)for(ind_t j=0;j<P;++j) c.check(t.safe_get(i,j)==u.safe_get(i,j)&&t.has(i,j)==u.has(i,j),"table"); brille::approx_float::Config cf; cf.digit((int)c.i(0,5000)); cf.direct(val<double>(c)); cf.reciprocal(val<double>(c)); auto cg=tripobj(c,cf,"f","cfg"); c.check(cf.digit()==cg.digit()&&bits(cf.direct<double>(),cg.direct<double>())&&bits(cf.reciprocal<double>(),cg.reciprocal<double>()),"config"); c.nontrivial(P>1&&nb>1); }
// ---- grids
template<class T,class R> static void grids(vp::Case& c){ auto s=setup(c); std::optional<BZ> m; try{ m.emplace(s.k.lat,s.cfg); }catch(const std::runtime_error&){ c.discard(); } if(crowded(*m)) c.discard(); L vol=std::abs((L)m->get_ir_polyhedron().volume()); Par p=par(c,(double)vol,c.thorough?60:20); if(p.kind==2){ p.kind=0; p.always=false; } auto g=make<T,R>(*m,p); ind_t N=(ind_t)g->size(); bool filled=!c.p(10); if(filled){ ind_t nb=(ind_t)c.i(1,3); Lay a=lay(c,N,nb),b=lay(c,N,nb); g->values(data<T>(c,a),a.el,RotatesLike::vector,LengthUnit::real_lattice); g->vectors(data<R>(c,b),b.el,c.b()?RotatesLike::vector:RotatesLike::pseudovector,LengthUnit::real_lattice); g->vcost((int)c.draw(3),(int)c.draw(3),{c.real(0,1),c.real(0,1),c.real(0,1)}); g->wcost((int)c.draw(3),(int)c.draw(3),{c.real(0,1),c.real(0,1),c.real(0,1)}); if(c.b()) g->sort(); } else c.label("unfilled"); auto e=name(c); c.check(g->store("f",e),"write-failed"); auto h=g->load("f",e); if(c.p(20)){ c.check(h->store("f",e),"write-failed"); h=h->load("f",e); }
  auto cmp=[&](const char* tag){ c.check(h->size()==N&&bits(g->xyz(),h->xyz())&&bits(g->hkl(),h->hkl()),"grid-vertices"); c.check(g->tets()==h->tets(),"grid-tetrahedra"); c.check(g->total()==h->total(),"grid-volume"); if(filled){ const auto& x=g->dual(); const auto& y=h->dual(); /* the numbering of stored permutations depends on the order threads finish in */ if(std::string(tag)=="grid-answers") c.check(!(x!=y),"data-unequal"); c.check(!(x.values()!=y.values())&&!(x.vectors()!=y.vectors()),"data-unequal"); for(ind_t i=0;i<N;++i) for(ind_t j=0;j<N;++j){ std::vector<ind_t> ij{i,j}; c.check(x.get_permutations(ij)==y.get_permutations(ij),"permutations-unequal"); } } auto Q=points(c,*m,m3::inv(s.k.rec),6); auto q=qlist(s.k.lat,Q); int th=(int)c.pick(std::vector<int>{-1,1,3}); std::string say; auto run=[&](Grid<T,R>& x,auto& v,auto& w){ try{ auto o=x.ir(q,th); v.push_back(std::get<0>(o)); w.push_back(std::get<1>(o)); return false; }catch(const std::exception& er){ say=er.what(); return true; } }; std::vector<brille::Array<T>> a,b; std::vector<brille::Array<R>> d,f; bool t1=run(*g,a,d),t2=run(*h,b,f); if(!filled&&t1) { c.check(t2,tag); } else { c.check(!t1&&!t2,"grid-throws",say); c.check(bits(a[0],b[0])&&bits(d[0],f[0]),tag,[&]{ return vp::str(Q); }); } }; cmp("grid-answers"); same_zone(c,s.k,g->bz(),h->bz());
  // both do the same from here on
  if(c.b()){ g->sort(); h->sort(); cmp("after-sort"); } if(c.b()){ ind_t nb=(ind_t)c.i(1,3); Lay a=lay(c,N,nb),b=lay(c,N,nb); auto x=data<T>(c,a); auto y=data<R>(c,b); for(auto* o:{g.get(),h.get()}){ o->values(x,a.el,RotatesLike::vector,LengthUnit::real_lattice); o->vectors(y,b.el,RotatesLike::vector,LengthUnit::real_lattice); o->sort(); } filled=true; cmp("after-filling"); } c.nontrivial(filled&&N>8); }
// ---- histories of files
struct Obj { int kind; std::optional<brille::Array2<double>> a; std::optional<Basis> b; std::optional<PermutationTable> t; std::optional<gen::Lat> l; std::optional<BZ> z; std::optional<Interpolator<double>> i; std::optional<std::unique_ptr<Grid<double,double>>> g; };
static void histories(vp::Case& c){ std::vector<Obj> pool; Crystal k=crystal(c,3,8); auto add=[&](int kind)->Obj&{ pool.push_back(Obj{}); pool.back().kind=kind; return pool.back(); };
  for(int n=0;n<2;++n){ add(0).a=array2<double>(c); add(1).b=basis(c); { PermutationTable t(3,2); for(int j=(int)c.draw(5);j--;){ auto p=c.perm(2); t.set(c.draw(3),c.draw(3),std::vector<int>(p.begin(),p.end())); } add(2).t=t; } { auto l=k.lat; l.basis(basis(c),false); add(3).l=l; } add(5).i=interp<double>(c,(ind_t)c.i(1,3),(ind_t)c.i(1,2)); }
  for(int n=0;n<2;++n){ try{ Cfg g; g.primitive(!n); g.wedge_search(c.b()); add(4).z.emplace(k.lat,g); }catch(const std::runtime_error&){ c.discard(); } } if(c.p(40)&&!crowded(*pool[10].z)){ Par p; p.size=std::abs((double)pool[10].z->get_ir_polyhedron().volume())/2; auto g=make<double,double>(*pool[10].z,p); ind_t N=(ind_t)g->size(); g->values(data<double>(c,Lay{{N,1,2},{2,0,0}}),El{2,0,0},RotatesLike::vector,LengthUnit::real_lattice); g->vectors(data<double>(c,Lay{{N,1,3},{0,3,0}}),El{0,3,0},RotatesLike::vector,LengthUnit::real_lattice); add(6).g=std::move(g); }
  std::vector<std::string> files{"one","two","dir/three"},names{"x","y","a/b","a/c","d/e/f","x2"}; std::map<std::string,std::map<std::string,int>> model; std::string hist;
  auto write=[&](const Obj& o,const std::string& f,const std::string& e,unsigned perm){ switch(o.kind){ case 0: return o.a->to_hdf(f,e,perm); case 1: { HF::File h(f,perm); return o.b->to_hdf(h,e); } case 2: return o.t->to_hdf(f,e,perm); case 3: { HF::File h(f,perm); return o.l->to_hdf(h,e); } case 4: return o.z->to_hdf(f,e,perm); case 5: return o.i->to_hdf(f,e,perm); default: return (*o.g)->store(f,e); } };
  auto read=[&](int kind,const std::string& f,const std::string& e,const Obj* w){ switch(kind){ case 0: { auto x=brille::Array2<double>::from_hdf(f,e); if(w) c.check(bits(x,*w->a),"array"); break; } case 1: { HF::File h(f); auto x=Basis::from_hdf(h,e); if(w) same_basis(c,x,*w->b); break; } case 2: { auto x=PermutationTable::from_hdf(f,e); if(w) c.check(!(x!=*w->t),"table-unequal"); break; } case 3: { HF::File h(f); auto x=gen::Lat::from_hdf(h,e); if(w) same_lat(c,x,*w->l); break; } case 4: { auto x=BZ::from_hdf(f,e); if(w){ c.check(x==*w->z,"zone-unequal"); same_poly(c,x.get_ir_polyhedron(),w->z->get_ir_polyhedron()); } break; } case 5: { auto x=Interpolator<double>::from_hdf(f,e); if(w) same_interp(c,x,*w->i); break; } default: { const Grid<double,double>& any=**pool.back().g; auto x=any.load(f,e); if(w){ auto& g=**w->g; c.check(bits(x->xyz(),g.xyz())&&!(x->dual()!=g.dual()),"grid"); } } } };
  auto verify=[&](){ for(auto& [f,m]:model) for(auto& [e,i]:m){ try{ read(pool[i].kind,f,e,&pool[i]); }catch(const std::exception& x){ c.fail("entry-lost",f+":"+e+" "+x.what()+" after "+hist); } } };
  int steps=(int)c.i(3,c.thorough?25:12),over=0; for(int n=0;n<steps;++n){ auto f=c.pick(files),e=c.pick(names); int i=(int)c.draw(pool.size()); int op=(int)c.draw(10); bool there=model.count(f)>0; if(op<5){ hist+=" write "+vp::str(pool[i].kind)+" "+f+":"+e; over+=there&&model[f].count(e); c.check(write(pool[i],f,e,HF::File::OpenOrCreate),"write-failed"); model[f][e]=i; } else if(op==5&&pool[i].kind<6){ hist+=" truncate "+f+":"+e; c.check(write(pool[i],f,e,HF::File::Truncate),"write-failed"); model[f].clear(); model[f][e]=i; } else if(op==6&&there&&pool[i].kind<6){ hist+=" write read-only "+f+":"+e; c.check(vp::throws([&]{ write(pool[i],f,e,HF::File::ReadOnly); }),"wrote-read-only"); } else if(op==7){ int kind=(int)c.draw(pool.size()>12?7:6); bool missing=!there||!model[f].count(e); if(missing){ hist+=" read missing "+f+":"+e; c.check(vp::throws([&]{ read(kind,f,e,nullptr); }),"missing-read",[&]{ return f+":"+e+" kind "+vp::str(kind)+" after "+hist; }); c.check(!HF::shim::file_exists(f)||there,"file-made"); } else if(pool[model[f][e]].kind!=kind){ hist+=" read as another kind"; bool t=vp::throws([&]{ read(kind,f,e,nullptr); }); c.check(t,"wrong-kind-read",[&]{ return "an entry of kind "+vp::str(pool[model[f][e]].kind)+" read as kind "+vp::str(kind); }); } } else if(op==8&&there&&pool[i].kind<6){ hist+=" exclusive "+f; c.check(vp::throws([&]{ write(pool[i],f,e,HF::File::Excl|HF::File::ReadWrite); }),"exclusive-write"); } else if(op==9&&there){ HF::File h(f,HF::File::ReadOnly); std::set<std::string> top; for(auto& [x,y]:model[f]) top.insert(x.substr(0,x.find('/'))); auto l=h.listObjectNames(); c.check(std::set<std::string>(l.begin(),l.end())==top,"names"); } if(c.b()) verify(); }
  verify(); c.note("history",hist); c.nontrivial(over>0); }
VP_PROP(arrays,300000,3000000){ HF::shim::clear_files(); int k=(int)c.draw(4); if(k==0) arrays<double>(c); else if(k==1) arrays<int>(c); else if(k==2) arrays<cd>(c); else arrays<ind_t>(c); }
VP_PROP(lattices,8000,300000){ HF::shim::clear_files(); lattices(c); }
VP_PROP(zones,3000,60000,60){ HF::shim::clear_files(); zones(c); }
VP_PROP(interpolators,100000,2000000){ HF::shim::clear_files(); int k=(int)c.draw(3); if(k==0) inter<double,double>(c); else if(k==1) inter<double,cd>(c); else inter<cd,cd>(c); }
VP_PROP(grids,1200,40000,60){ HF::shim::clear_files(); int k=(int)c.draw(3); if(k==0) grids<double,double>(c); else if(k==1) grids<double,cd>(c); else grids<cd,cd>(c); }
VP_PROP(histories,2000,50000,60){ HF::shim::clear_files(); histories(c); }
VP_MAIN
