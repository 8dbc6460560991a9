// B03: the irreducible zone tiles the first zone under the point group
#include "zone.hpp"
#include <optional>
using namespace zn;
static M primrec(const Crystal& k){ return gen::colmat(k.lat.primitive().reciprocal_basis_vectors()); }
// the operations on hkl (rows times matrix): W transposed, with inversion if time reversal is included
static std::vector<std::array<int,9>> qops(const Crystal& k,bool tr){ std::vector<std::array<int,9>> o; std::set<std::array<int,9>> s; for(auto w:k.W){ std::array<int,9> t; for(int i=0;i<3;++i)for(int j=0;j<3;++j) t[3*i+j]=w[3*j+i]; if(s.insert(t).second) o.push_back(t); if(tr){ for(auto&x:t) x=-x; if(s.insert(t).second) o.push_back(t); } } return o; }
static V act(const std::array<int,9>& t,const V& h){ V o; for(int i=0;i<3;++i) o[i]=t[3*i]*h[0]+t[3*i+1]*h[1]+t[3*i+2]*h[2]; return o; }
static std::optional<BZ> build(vp::Case& c,const Crystal& k,const Cfg& cfg){ try{ return BZ(k.lat,cfg); }catch(const std::runtime_error& e){ std::string m=e.what(); c.check(m.find("Failed to find an irreducible")!=std::string::npos,"exception",m.substr(0,300)); return {}; } }
VP_PROP(tiling,5000,150000){ auto k=crystal(c); Cfg cfg; bool prim=!c.p(20),tr=c.b(); cfg.primitive(prim); cfg.time_reversal(tr); cfg.divide_primitive(!c.p(15)); c.note("primitive",prim); c.note("time reversal",tr); WS w(prim?primrec(k):k.rec); if(!w.clear) c.discard(); auto made=build(c,k,cfg); if(!made){ c.label("no irreducible zone"); return; } BZ& z=*made; auto G=qops(k,tr); c.nontrivial(G.size()>1); c.label(vp::str(G.size())+" operations"); auto p=z.get_ir_polyhedron(),p1=z.get_ir_polyhedron(false); auto first=z.get_polyhedron();
  L cube=w.size*w.size*w.size; c.close(first.volume(),(double)w.vol,(double)(1e-10L*cube),"first-volume"); c.check(z.get_pointgroup_symmetry().size()==G.size(),"operations"); c.close(p.volume()*G.size(),(double)w.vol,(double)(1e-7L*w.vol),"volume");
  auto vx=p.vertices().xyz(); for(ind_t i=0;i<vx.size(0);++i) c.check(w.depth(vec(vx,i))<=1e-9L*w.size,"outside-first-zone",[&]{ return "vertex "+vp::str(m3::d(vec(vx,i))); });
  // every face has the polyhedron on one side, the faces close it
  auto fn=p.face_normals().xyz(),fp=p.face_points().xyz(); auto faces=p.faces().faces(); std::map<std::pair<ind_t,ind_t>,int> edges; L vol=0; for(size_t f=0;f<faces.size();++f){ V n=vec(fn,(ind_t)f),x=vec(fp,(ind_t)f); for(ind_t i=0;i<vx.size(0);++i) c.check(m3::dot(n,m3::sub(vec(vx,i),x))<=1e-8L*w.size,"not-convex"); auto&v=faces[f]; for(size_t i=0;i<v.size();++i) ++edges[{v[i],v[(i+1)%v.size()]}]; for(size_t i=1;i+1<v.size();++i) vol+=m3::dot(vec(vx,v[0]),m3::cross(vec(vx,v[i]),vec(vx,v[i+1]))); } for(auto&[e,n]:edges) c.check(n==1&&edges.count({e.second,e.first}),"not-closed"); c.close((double)(vol/6),p.volume(),(double)(1e-10L*cube),"volume");
  c.check(p==p1,"true-irreducible"); auto iv=z.get_ir_vertices(); c.check(iv.size(0)==vx.size(0)&&z.get_ir_points().size(0)==faces.size()&&z.get_ir_normals().size(0)==faces.size()&&z.get_ir_vertices_per_face()==faces&&z.get_ir_faces_per_vertex()==p.faces_per_vertex(),"accessors");
  // wedge
  auto wn=z.get_ir_wedge_normals(); std::vector<V> nn; { auto x=wn.xyz(); for(ind_t i=0;i<wn.size(0);++i) nn.push_back(vec(x,i)); } c.check(G.size()==1?nn.empty():!nn.empty(),"wedge-normals",[&]{ return vp::str(nn.size()); });
  if(nn.size()){ auto pn=z.get_primitive_ir_wedge_normals().xyz(); c.check(pn.size(0)==nn.size(),"primitive-normals"); for(ind_t i=0;i<pn.size(0);++i) c.check(m3::maxdiff(vec(pn,i),nn[i])<=1e-9L*(1+m3::norm(nn[i])),"primitive-normals"); }
  // depth below the faces of the irreducible zone
  auto depth=[&](const V& x){ L m=-1e9L; for(ind_t f=0;f<faces.size();++f) m=std::max(m,m3::dot(vec(fn,f),m3::sub(x,vec(fp,f)))); return m; }; M iB=m3::inv(k.rec); L safe=1e-5L*w.size; std::vector<std::array<double,3>> h; std::vector<V> xs;
  for(int i=0;i<40;++i){ V x; int kd=(int)c.draw(3); if(kd==0){ x=V{(L)c.sreal(1),(L)c.sreal(1),(L)c.sreal(1)}; x=m3::sc(x,w.size); } else if(kd==1){ x={0,0,0}; L s=0; for(auto&v:w.vert){ L t=(L)std::pow(c.real(0,1),4)+1e-3L; x=m3::add(x,m3::sc(v,t)); s+=t; } x=m3::sc(x,1/s); } else { x={0,0,0}; L s=0; for(ind_t j=0;j<vx.size(0);++j){ L t=(L)std::pow(c.real(0,1),3)+1e-3L; x=m3::add(x,m3::sc(vec(vx,j),t)); s+=t; } x=m3::sc(x,1/s); auto g=G[c.draw(G.size())]; x=m3::mul(k.rec,act(g,m3::mul(iB,x))); } if(w.depth(x)>-safe) continue; bool ok=true; int n=0; for(auto&g:G){ V y=m3::mul(k.rec,act(g,m3::mul(iB,x))); L d=depth(y); if(std::abs(d)<safe) ok=false; n+=d<0; } if(!ok) continue; c.check(n==1,n?"overlap":"gap",[&]{ return "of the images of "+vp::str(m3::d(m3::mul(iB,x)))+" "+vp::str(n)+" are inside"; }); h.push_back(m3::d(m3::mul(iB,x))); xs.push_back(x); }
  if(h.size()){ auto q=qlist(k.lat,h); auto in=z.isinside_wedge(q),in2=z.isinside_wedge_outer(q),in3=p.contains(q); for(size_t i=0;i<h.size();++i){ bool want=depth(xs[i])<0; c.check(in3[i]==want,"contains",[&]{ return vp::str(h[i]); }); bool m=true; for(auto&n:nn) m&=m3::dot(n,xs[i])>=0; c.check(m==want,"wedge-differs",[&]{ return vp::str(h[i])+(want?" is in the irreducible zone but not in the wedge":" is in the wedge but not in the irreducible zone"); }); c.check(in[i]==want&&in2[i]==want,"isinside_wedge",[&]{ return vp::str(h[i]); }); if(prim){ auto pq=bl::transform_to_primitive(k.lat,q.extract((ind_t)i)); c.check(z.isinside_wedge(pq)[0]==want,"isinside_wedge-primitive"); } c.label(want?"inside":"outside"); } }
  // corners of the irreducible zone are in the wedge
  for(ind_t i=0;i<iv.size(0);++i) c.check(z.isinside_wedge_outer(iv.extract(i))[0]&&z.isinside_wedge(iv.extract(i))[0],"corner",[&]{ return "corner "+iv.to_string(i)+" is outside of the wedge"; }); }
// an irreducible zone is found for every spacegroup
VP_PROP(found,1060,8000){ int h=(int)(c.index%530)+1; bool tr=(c.index/530)%2; Cfg cfg; cfg.time_reversal(tr); c.nontrivial(); int bad=0; for(int i=0;i<3;++i){ auto k=crystal(c,3,9,false,h); if(build(c,k,cfg)) return; ++bad; } c.check(false,"none-found","no irreducible zone for three different cells"); }
VP_MAIN
