#include "grid.hpp"
#include "nest.hpp"
#include "bz_nest.hpp"
namespace gr {
template<class T,class R> struct NG: Grid<T,R> { using B=Grid<T,R>; using G_=brille::BrillouinZoneNest3<T,R,double>; using S_=brille::Nest<T,R,double,brille::Array2>; static BA X(const G_& g){ return g.get_xyz(); }
  GR_COMMON(G_) NG(const zn::BZ& z,const Par& p): g(p.rho?G_(z,(ind_t)p.rho,(ind_t)p.nb):G_(z,p.size,(ind_t)p.nb)) {}
  BA hkl() const override { return g.get_hkl(); }
  typename B::Out at(const BA& x,int t) const override { const S_& s=g; return t<0?s.interpolate_at(x):s.interpolate_at(x,t); }
  IW iw(const BA& x) const override { return g.indices_weights(x); } double total() const override { double v=0; BA x=xyz(); for(auto&t:tets()) v+=std::abs(tetvol(x,t)); return v; } std::vector<std::array<ind_t,4>> tets() const override { return g.tetrahedra(); } std::unique_ptr<B> copy() const override { return std::make_unique<NG>(*this); }
  bool store(const std::string&,const std::string&) const override { return false; } std::unique_ptr<B> load(const std::string&,const std::string&) const override { return {}; } };
template<class T,class R> std::unique_ptr<Grid<T,R>> nest(const zn::BZ& z,const Par& p){ return std::make_unique<NG<T,R>>(z,p); }
template std::unique_ptr<Grid<double,double>> nest(const zn::BZ&,const Par&); template std::unique_ptr<Grid<double,cd>> nest(const zn::BZ&,const Par&); template std::unique_ptr<Grid<cd,cd>> nest(const zn::BZ&,const Par&);
}
