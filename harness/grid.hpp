// the three kinds of interpolation grid behind one interface, shared by the grid checks (defined in grid_*.cpp)
#pragma once
#include <memory>
#include <complex>
#include "zone.hpp"
#include "permutation_table.hpp"
#include "interpolatordual.hpp"
namespace gr {
using brille::ind_t; using brille::RotatesLike; using brille::LengthUnit; using cd=std::complex<double>; using El=std::array<ind_t,3>; using IW=std::vector<std::pair<ind_t,double>>; using BA=brille::bArray<double>;
struct Par { int kind=0; double size=-1; bool always=false; int levels=5; int points=-1; int rho=0; int nb=5; };
inline const char* kindname(int k){ return k==0?"trellis":k==1?"mesh":"nest"; }
template<class T,class R> struct Grid { using VA=brille::Array<T>; using RA=brille::Array<R>; using Out=std::tuple<VA,RA>; using Dual=brille::DualInterpolator<T,R>;
  virtual ~Grid(){}
  virtual BA xyz() const=0; virtual BA hkl() const=0; virtual size_t size() const=0;
  virtual void fill(brille::Interpolator<T>&,brille::Interpolator<R>&)=0; virtual void values(VA,El,RotatesLike,LengthUnit)=0; virtual void vectors(RA,El,RotatesLike,LengthUnit)=0;
  virtual void vcost(int,int,std::array<double,3>)=0; virtual void wcost(int,int,std::array<double,3>)=0; virtual void sort()=0;
  // threads<0: the call without a thread count
  virtual Out ir(const zn::QV& Q,int threads) const=0; virtual Out stay(const zn::QV& q,int threads) const=0; virtual Out at(const BA& xyz,int threads) const=0;
  virtual IW iw(const BA& x) const=0; virtual double total() const=0; virtual std::vector<std::array<ind_t,4>> tets() const=0; virtual const Dual& dual() const=0; virtual std::unique_ptr<Grid> copy() const=0; virtual zn::BZ bz() const=0;
  virtual bool store(const std::string& file,const std::string& entry) const=0; virtual std::unique_ptr<Grid> load(const std::string& file,const std::string& entry) const=0; virtual size_t bytes() const=0; };
template<class T,class R> std::unique_ptr<Grid<T,R>> trellis(const zn::BZ&,const Par&); template<class T,class R> std::unique_ptr<Grid<T,R>> mesh(const zn::BZ&,const Par&); template<class T,class R> std::unique_ptr<Grid<T,R>> nest(const zn::BZ&,const Par&);
template<class T,class R> std::unique_ptr<Grid<T,R>> make(const zn::BZ& z,const Par& p){ return p.kind==0?trellis<T,R>(z,p):p.kind==1?mesh<T,R>(z,p):nest<T,R>(z,p); }
inline double tetvol(const BA& x,const std::array<ind_t,4>& t){ zn::V p[4]; for(int i=0;i<4;++i) p[i]=zn::vec(x,t[i]); return (double)(m3::dot(m3::sub(p[1],p[0]),m3::cross(m3::sub(p[2],p[0]),m3::sub(p[3],p[0])))/6); }
#define GR_COMMON(G) \
  G g; BA xyz() const override { return X(g); } size_t size() const override { return g.vertex_count(); } \
  void fill(brille::Interpolator<T>&a,brille::Interpolator<R>&b) override { g.replace_data(a,b); } void values(typename B::VA a,El e,RotatesLike r,LengthUnit l) override { g.replace_value_data(a,e,r,l); } void vectors(typename B::RA a,El e,RotatesLike r,LengthUnit l) override { g.replace_vector_data(a,e,r,l); } \
  void vcost(int a,int b,std::array<double,3> w) override { g.set_value_cost_info(a,b,w); } void wcost(int a,int b,std::array<double,3> w) override { g.set_vector_cost_info(a,b,w); } void sort() override { g.sort(); } \
  typename B::Out ir(const zn::QV& Q,int t) const override { return t<0?g.ir_interpolate_at(Q,1):g.ir_interpolate_at(Q,t); } typename B::Out stay(const zn::QV& q,int t) const override { return g.template ir_interpolate_at<true>(q,t); } \
  const typename B::Dual& dual() const override { return g.data(); } zn::BZ bz() const override { return g.get_brillouinzone(); } size_t bytes() const override { return g.bytes_per_point(); }
// ---- generation
inline Par par(vp::Case& c,double vol,int most=60,bool note=true){ Par p; p.kind=(int)c.draw(3); static const std::vector<double> f{0.4,1.01,2,4,8,20,60}; double k=c.pick(f); if(k>most) k=most; p.size=vol/k; if(p.kind==0) p.always=c.p(30); else if(p.kind==1){ p.levels=(int)c.i(1,5); if(c.p(15)) p.size=-1; } else { p.nb=(int)c.i(1,5); if(c.p(25)) p.rho=(int)c.i(1,most); } if(note){ c.note("grid",kindname(p.kind)); c.note("size",p.size); if(p.kind==0) c.note("always triangulate",p.always); if(p.kind==1) c.note("levels",p.levels); if(p.kind==2){ c.note("density",p.rho); c.note("branchings",p.nb); } } c.label(kindname(p.kind)); return p; }
// corners so close together that brille may or may not merge them
inline bool crowded(const zn::BZ& z){ auto v=z.get_ir_polyhedron().vertices().xyz(); zn::L sz=0,least=1e9L; for(ind_t i=0;i<v.size(0);++i)for(ind_t j=0;j<i;++j){ zn::L d=m3::norm(m3::sub(zn::vec(v,i),zn::vec(v,j))); sz=std::max(sz,d); least=std::min(least,d); } return least<2e-3L*sz; }
struct Setup { zn::Crystal k; zn::Cfg cfg; bool prim,trev,wedge; };
inline Setup setup(vp::Case& c,double lo=2,double hi=12,int hall=0){ Setup s; s.k=zn::crystal(c,lo,hi,true,hall); s.prim=!c.p(20); s.trev=c.b(); s.wedge=!c.p(10); s.cfg.primitive(s.prim); s.cfg.time_reversal(s.trev); s.cfg.wedge_search(s.wedge); c.note("primitive",s.prim); c.note("time reversal",s.trev); c.note("wedge search",s.wedge); return s; }
}
