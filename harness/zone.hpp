// random crystals and an independent Wigner-Seitz construction, shared by the zone and grid checks
#pragma once
#include "lat.hpp"
#include "poly.hpp"
#include "sgref.hpp"
#include "approx_config.hpp"
#include "bz.hpp"
namespace zn {
using m3::L; using m3::V; using m3::M; using brille::ind_t; namespace bl=brille::lattice;
using QV=bl::LVec<double>; using Cfg=brille::BrillouinZoneConfig; using BZ=brille::BrillouinZone;
// a lattice with (usually) a compatible cell of any spacegroup
struct Crystal { int hall=1; gen::Cell cell; gen::Lat lat; M real,rec; std::vector<std::array<int,9>> W; std::vector<std::array<double,3>> cen; bool inv=false; };
inline Crystal crystal(vp::Case& c,double lo=2,double hi=12,bool frames=true,int hall=0){ Crystal k; k.hall=hall?hall:gen::hall(c); auto sym=gen::symmetry(k.hall); k.W=gen::point_ops(sym); k.cell=gen::compatible_cell(c,k.W,lo,hi); c.note("hall",k.hall); gen::note_cell(c,k.cell);
  if(frames&&c.p(30)){ M a=m3::mul(gen::rotation(c,0.02),m3::basis(k.cell.g)); auto d=m3::d(a); k.lat=bl::Direct<double>(d,brille::MatrixVectors::column,sym); c.note("column vectors",a); c.label("rotated frame"); }
  else { std::array<double,3> an=gen::deg(k.cell.ang); k.lat=bl::Direct<double>(m3::d(k.cell.len),an,sym,brille::Basis(),false,brille::AngleUnit::degree); }
  k.real=gen::colmat(k.lat.real_basis_vectors()); k.rec=gen::dual(k.real);
  for(size_t i=0;i<sym.size();++i){ auto m=sym.getr(i); std::array<int,9> e{1,0,0,0,1,0,0,0,1}; if(m==e){ auto t=sym.gett(i); k.cen.push_back(t); } } for(auto&w:k.W){ std::array<int,9> e{-1,0,0,0,-1,0,0,0,-1}; k.inv|=w==e; } return k; }
// a triclinic cell given by vectors far from the shortest ones
inline Crystal oblique(vp::Case& c){ Crystal k; k.hall=(int)c.i(1,2); auto cell=gen::cell(c,2,6); M a=m3::basis(cell.g); for(int n=c.i(1,3);n--;){ int i=(int)c.draw(3),j=(int)(i+c.i(1,2))%3; L f=c.si(3); for(int r=0;r<3;++r) a[3*r+i]+=f*a[3*r+j]; } auto d=m3::d(a); c.note("hall",k.hall); c.note("column vectors",a); k.lat=bl::Direct<double>(d,brille::MatrixVectors::column,gen::symmetry(k.hall)); k.real=gen::colmat(k.lat.real_basis_vectors()); k.rec=gen::dual(k.real); k.cen={{{0,0,0}}}; k.inv=k.hall==2; k.W=gen::point_ops(gen::symmetry(k.hall)); return k; }
// hkl is a point of the primitive reciprocal lattice
template<class T> inline bool allowed(const Crystal& k,T h,T i,T j){ for(auto&t:k.cen){ double x=h*t[0]+i*t[1]+j*t[2]; if(std::abs(x-std::round(x))>1e-6) return false; } return true; }
inline M reduce(M b){ V v[3]; for(int j=0;j<3;++j) v[j]={b[j],b[3+j],b[6+j]}; for(int it=0;it<200;++it){ std::sort(v,v+3,[](const V&a,const V&b){ return m3::dot(a,a)<m3::dot(b,b); }); L n=m3::dot(v[1],v[1]); V w=m3::sub(v[1],m3::sc(v[0],std::round(m3::dot(v[0],v[1])/m3::dot(v[0],v[0])))); if(m3::dot(w,w)<n*(1-1e-12L)){ v[1]=w; continue; }
    L g00=m3::dot(v[0],v[0]),g11=m3::dot(v[1],v[1]),g01=m3::dot(v[0],v[1]),p=m3::dot(v[0],v[2]),q=m3::dot(v[1],v[2]),D=g00*g11-g01*g01; L x=std::round((p*g11-q*g01)/D),y=std::round((q*g00-p*g01)/D); V best=v[2]; for(int a=-1;a<=1;++a)for(int e=-1;e<=1;++e){ V z=m3::sub(v[2],m3::add(m3::sc(v[0],x+a),m3::sc(v[1],y+e))); if(m3::dot(z,z)<m3::dot(best,best)*(1-1e-12L)) best=z; } if(m3::maxdiff(best,v[2])>0){ v[2]=best; continue; } break; }
  M o; for(int j=0;j<3;++j) for(int i=0;i<3;++i) o[3*i+j]=v[j][i]; return o; }
struct WS { M b; std::vector<V> cand,rel; ph::Conv z; L vol=0,size=0; bool clear=true; std::vector<V> vert;
  explicit WS(const M& basis){ b=reduce(basis); L r=0; for(int i=-2;i<=2;++i)for(int j=-2;j<=2;++j)for(int k=-2;k<=2;++k) if(i||j||k) cand.push_back(m3::mul(b,V{(L)i,(L)j,(L)k})); std::sort(cand.begin(),cand.end(),[](const V&a,const V&b){ return m3::dot(a,a)<m3::dot(b,b); }); for(int j=0;j<3;++j) r+=m3::norm(V{b[j],b[3+j],b[6+j]}); z=ph::Conv::box(2*r); z.eps=r*1e-13L; for(auto&t:cand) z.clip(t,m3::dot(t,t)/2); vol=z.volume(); vert=z.vertices(1e-12L*r); for(auto&v:vert) size=std::max(size,m3::norm(v));
    for(size_t i=0;i<vert.size();++i)for(size_t j=0;j<i;++j){ L d=m3::norm(m3::sub(vert[i],vert[j])); if(d<2e-3L*size) clear=false; }
    for(auto&t:cand){ L n=m3::norm(t); std::vector<V> on; L lo=0; for(auto&v:vert){ L d=std::abs(m3::dot(t,v)/n-n/2); if(d<1e-4L*size){ on.push_back(v); lo=std::max(lo,d); } } if(lo>3e-12L*size) clear=false; if(on.size()>2) rel.push_back(t); } }
  L edge() const { L m=1e9L; for(size_t i=0;i<vert.size();++i)for(size_t j=0;j<i;++j) m=std::min(m,m3::norm(m3::sub(vert[i],vert[j]))); return m; }
  // signed distance to the surface (negative inside)
  L depth(const V& x) const { L m=-1e9L; for(auto&t:cand){ L n=m3::norm(t); m=std::max(m,m3::dot(t,x)/n-n/2); } return m; } };
inline V vec(const brille::bArray<double>& a,ind_t i){ return V{a.val(i,0),a.val(i,1),a.val(i,2)}; }
inline QV qlist(const gen::Lat& l,const std::vector<std::array<double,3>>& x){ return QV::from_std(gen::QS,l,x); }
inline V hkl(const M& basis,const V& x){ return m3::mul(m3::inv(basis),x); }
}
