// G04: rotating the data of many points does not depend on the number of threads
#include "grid.hpp"
#include "atoms.hpp"
#include "interpolator.hpp"
using El3=std::array<brille::ind_t,3>; using brille::RotatesLike; using brille::LengthUnit; using brille::ind_t; using cplx=std::complex<double>;
struct Noise { uint64_t s; double next(){ s=s*6364136223846793005ull+1442695040888963407ull; return (double)(int64_t)(s>>11)/4503599627370496.0-1; } };
template<class T> static T one(Noise& n){ if constexpr(std::is_same_v<T,cplx>){ double a=n.next(); return cplx(a,n.next()); } else return n.next(); }
template<class T> static void run(vp::Case& c){ int hall=gen::hall(c); const Group& G=group(hall); auto k=zn::crystal(c,3,9,true,hall); int kind=(int)c.draw(std::is_same_v<T,cplx>?5:3); bool gamma=kind>2; int N=0; if(gamma){ Atoms at; if(!atoms(c,G,at,8)) c.discard(); auto pos=dbl(at.x); std::vector<ind_t> ty(at.type.begin(),at.type.end()); N=(int)pos.size(); k.lat.basis(brille::Basis(pos,ty),false); c.note("positions",pos); }
  static const char* names[]{"vector in real lattice units","pseudovector","vector in reciprocal lattice units","eigenvector in lattice units","eigenvector in angstrom"}; c.note("data",names[kind]); c.label(names[kind]); auto ps=k.lat.pointgroup_symmetry(); int P=(int)ps.size();
  int nb=(int)c.i(1,3),ns=(int)c.i(0,2),nv=gamma?N:(int)c.i(0,2),nm=gamma?0:(int)c.i(0,1); if(!gamma&&!nv&&!nm) nv=1; int span=ns+3*nv+9*nm; int n=(int)c.pick(std::vector<int>{1,5,60,1500,6000,12000}); while(n>60&&(long)n*span*nb>300000) n/=2; c.note("points",n); c.note("modes and scalars, vectors, matrices per mode",std::vector<int>{nb,ns,nv,nm}); c.nontrivial(n>60&&P>2);
  uint64_t seed=c.draw(1u<<30); auto fill=[&]{ Noise r{seed*2+1}; brille::Array2<T> x((ind_t)n,(ind_t)(nb*span)); for(ind_t i=0;i<(ind_t)n;++i) for(ind_t j=0;j<(ind_t)(nb*span);++j) x.val(i,j)=one<T>(r); return x; };
  Noise r{seed*2+99}; std::vector<size_t> R,I; std::vector<size_t> inv; for(int p=0;p<P;++p) inv.push_back(ps.get_inverse_index(p)); for(int i=0;i<n;++i){ size_t p=(size_t)((r.next()+1)/2*P); if(p>=(size_t)P) p=P-1; R.push_back(p); I.push_back(inv[p]); } brille::Array2<double> qx((ind_t)n,3u); for(ind_t i=0;i<(ind_t)n;++i) for(ind_t j=0;j<3;++j) qx.val(i,j)=r.next(); brille::lattice::LVec<double> q(LengthUnit::inverse_angstrom,k.lat,qx);
  brille::Array<T> d(brille::shape_t{2u,(ind_t)nb,(ind_t)span}); for(auto s:d.subItr()) d[s]=T(0); brille::Interpolator<T> f(d,El3{(ind_t)ns,(ind_t)(3*nv),(ind_t)(9*nm)},kind==1?RotatesLike::pseudovector:gamma?RotatesLike::Gamma:RotatesLike::vector,kind==2?LengthUnit::reciprocal_lattice:kind==4?LengthUnit::angstrom:LengthUnit::real_lattice);
  brille::GammaTable g(gamma,k.lat); auto base=fill(); c.check(f.rotate_in_place(base,q,g,ps,R,I,1),"rotated"); double big=0; for(ind_t i=0;i<(ind_t)n;++i) for(ind_t j=0;j<(ind_t)(nb*span);++j) big=std::max(big,std::abs(base.val(i,j)));
  for(int th:{2,3,4,8,(int)c.i(2,16)}){ auto x=fill(); c.check(f.rotate_in_place(x,q,g,ps,R,I,th),"rotated"); for(ind_t i=0;i<(ind_t)n;++i) for(ind_t j=0;j<(ind_t)(nb*span);++j) c.check(std::abs(x.val(i,j)-base.val(i,j))<=1e-11*big,"rotate",[&]{ return "point "+vp::str((size_t)i)+" element "+vp::str((size_t)j)+" is "+vp::str(x.val(i,j))+" with "+vp::str(th)+" threads, and "+vp::str(base.val(i,j))+" with one"; }); } }
VP_PROP(rotate,1500,30000,60){ if(c.p(35)) run<double>(c); else run<cplx>(c); }
VP_MAIN
