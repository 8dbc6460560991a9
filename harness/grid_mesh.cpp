#include "grid.hpp"
#include "bz_mesh.hpp"
namespace gr {
template<class T,class R> struct Open: brille::BrillouinZoneMesh3<T,R,double> { using brille::BrillouinZoneMesh3<T,R,double>::BrillouinZoneMesh3; Open(brille::BrillouinZoneMesh3<T,R,double>&& o): brille::BrillouinZoneMesh3<T,R,double>(std::move(o)) {} const brille::TetTri& tri() const { return this->mesh; } };
template<class T,class R> struct MG: Grid<T,R> { using B=Grid<T,R>; using G_=Open<T,R>; using S_=brille::Mesh3<T,R,double,brille::Array2>; static BA X(const G_& g){ return g.get_mesh_xyz(); }
  GR_COMMON(G_) MG(const zn::BZ& z,const Par& p): g(z,p.size,p.levels,p.points) {} explicit MG(brille::BrillouinZoneMesh3<T,R,double>&& o): g(std::move(o)) {}
  BA hkl() const override { return g.get_mesh_hkl(); }
  typename B::Out at(const BA& x,int t) const override { const S_& s=g; return t<0?s.interpolate_at(x):s.interpolate_at(x,t); }
  IW iw(const BA& x) const override { return g.tri().locate(x,g.approx_config().template reciprocal<double>(),g.approx_config().digit()); } double total() const override { return -1; } std::vector<std::array<ind_t,4>> tets() const override { const auto& t=g.get_mesh_tetrehedra(); std::vector<std::array<ind_t,4>> o(t.size(0)); for(ind_t i=0;i<t.size(0);++i)for(ind_t j=0;j<4;++j) o[i][j]=t.val(i,j); return o; } std::unique_ptr<B> copy() const override { return std::make_unique<MG>(*this); }
  bool store(const std::string& f,const std::string& e) const override { return g.to_hdf(f,e); } std::unique_ptr<B> load(const std::string& f,const std::string& e) const override { return std::make_unique<MG>(brille::BrillouinZoneMesh3<T,R,double>::from_hdf(f,e)); } };
template<class T,class R> std::unique_ptr<Grid<T,R>> mesh(const zn::BZ& z,const Par& p){ return std::make_unique<MG<T,R>>(z,p); }
template std::unique_ptr<Grid<double,double>> mesh(const zn::BZ&,const Par&); template std::unique_ptr<Grid<double,cd>> mesh(const zn::BZ&,const Par&); template std::unique_ptr<Grid<cd,cd>> mesh(const zn::BZ&,const Par&);
}
