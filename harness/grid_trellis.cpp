#include "grid.hpp"
#include "bz_trellis.hpp"
namespace gr {
template<class T,class R> struct TG: Grid<T,R> { using B=Grid<T,R>; using G_=brille::BrillouinZoneTrellis3<T,R,double>; using S_=brille::polytrellis::PolyTrellis<T,R,double,brille::Array2>; static BA X(const G_& g){ return g.vertices(); }
  GR_COMMON(G_) TG(const zn::BZ& z,const Par& p): g(z,p.size,p.always) {} explicit TG(G_&& o): g(std::move(o)) {}
  BA hkl() const override { return g.get_hkl(); }
  typename B::Out at(const BA& x,int t) const override { const S_& s=g; return t<0?s.interpolate_at(x):s.interpolate_at(x,t); }
  IW iw(const BA& x) const override { return g.indices_weights(x); } double total() const override { return g.total_node_volume(); } std::vector<std::array<ind_t,4>> tets() const override { return g.get_vertices_per_tetrahedron(); } std::unique_ptr<B> copy() const override { return std::make_unique<TG>(*this); }
  bool store(const std::string& f,const std::string& e) const override { return g.to_hdf(f,e); } std::unique_ptr<B> load(const std::string& f,const std::string& e) const override { return std::make_unique<TG>(G_::from_hdf(f,e)); } };
template<class T,class R> std::unique_ptr<Grid<T,R>> trellis(const zn::BZ& z,const Par& p){ return std::make_unique<TG<T,R>>(z,p); }
template std::unique_ptr<Grid<double,double>> trellis(const zn::BZ&,const Par&); template std::unique_ptr<Grid<double,cd>> trellis(const zn::BZ&,const Par&); template std::unique_ptr<Grid<cd,cd>> trellis(const zn::BZ&,const Par&);
}
