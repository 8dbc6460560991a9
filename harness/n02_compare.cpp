// N02: tolerant comparisons against their defining inequality in long double
#include "vp.hpp"
#include <complex>
#include <cassert>
#include "array_.hpp"
#include "approx_float.hpp"
#include "comparisons.hpp"
#include "approx_config.cpp"
using ld=long double; namespace af=brille::approx_float; using brille::cmp;
template<class T> constexpr bool fp=std::is_floating_point_v<T>;
// the tolerances stated in the documentation: relative = 10000 tol epsilon, absolute = 5e-15, both raised by explicit ones
struct Tol{ ld rel,abs; bool exact; };
template<class T,class R> static Tol tolerance(T Tt,R Rt,int tol){ if constexpr(!fp<T>&&!fp<R>) return {0,0,true}; else { ld e,x; if constexpr(fp<T>){ e=std::numeric_limits<T>::epsilon(); x=(ld)Tt; } else { e=std::numeric_limits<R>::epsilon(); x=(ld)Rt; } return {std::max(e*10000*tol,x),std::max(5e-15L,x),false}; } }
// 1 equal, 0 different, -1 too close to the limit to demand either
template<class T,class R> static int verdict(T a,R b,const Tol& t){ ld x=(ld)a,y=(ld)b; if(std::isnan(x)||std::isnan(y)) return 0; if(x==y) return 1; if(std::isinf(x)||std::isinf(y)) return 0; if(t.exact) return 0; ld d=std::abs(x-y), lim=t.abs+std::abs(t.rel*x+t.rel*y); if(d<=0.8L*lim) return 1; if(d>1.25L*lim) return 0; return -1; }
template<class T> static T value(vp::Case& c){
  if constexpr(fp<T>){ switch(c.draw(9)){ case 0: return T(0); case 1: return -T(0); case 2: return std::numeric_limits<T>::infinity()*(c.b()?1:-1); case 3: return (T)c.si(5); case 4: return (T)c.sreal(3); case 5: return (T)(c.sreal(9)*std::pow(10.0,(double)c.si(std::is_same_v<T,float>?25:200))); case 6: return (T)(c.sreal(9)*1e-15); case 7: return (T)c.si(100000); default: return (T)c.si(40)/T(8);} }
  else if constexpr(std::is_unsigned_v<T>) return (T)(c.p(20)?c.draw(2000000000):c.draw(20)); else return (T)(c.p(20)?c.si(2000000000):c.si(20)); }
// a value at a chosen distance from a: a multiple of the tolerance, or unrelated
template<class R,class T> static R near_(vp::Case& c,T a,const Tol& t){
  if(c.p(25)) return value<R>(c); if constexpr(!fp<R>){ ld x=(ld)a; if(!(std::abs(x)<1e9L)) return value<R>(c); R r=(R)std::llround(std::is_unsigned_v<R>?std::abs(x):x); if(c.p(40)) r=(R)(r+(std::is_unsigned_v<R>?(R)c.draw(2):(R)c.si(2))); return r; }
  else { ld x=(ld)a; if(std::isinf(x)) return (R)(c.b()?x:-x); ld f=c.pick({0.0L,0.05L,0.3L,0.7L,1.5L,3.0L,20.0L,1e4L}); ld lim=t.abs+2*t.rel*std::abs(x); if(t.exact) lim=1e-12L; if(c.p(8)) x=-x; return (R)(x+(c.b()?1:-1)*f*lim); } }
template<class T> static T extra(vp::Case& c){ if constexpr(fp<T>) return c.p(55)?T(0):(T)c.pick({1e-14,1e-9,1e-6,1e-3,0.05}); else return T(0); }
template<class T,class R> static bool comparable(T a,R b){ if constexpr(!fp<T>&&!fp<R>&&std::is_signed_v<T>!=std::is_signed_v<R>) return (ld)a>=0&&(ld)b>=0; else return true; }
static const char* name(int v){ return v?"equal":"different"; }
template<class T,class R> static void scalars(vp::Case& c){
  int tol=c.p(60)?1:std::is_same_v<T,double>&&std::is_same_v<R,double>&&c.p(10)?0:(int)c.i(1,20); T Tt=extra<T>(c); R Rt=extra<R>(c); Tol t=tolerance(Tt,Rt,tol); T a=value<T>(c); R b=near_<R,T>(c,a,t); if(!comparable(a,b)) c.discard();
  if(c.describe){ c.note("a",a); c.note("b",b); c.note("tol,Ttol,Rtol",std::vector<double>{(double)tol,(double)Tt,(double)Rt}); } int v=verdict(a,b,t); if((ld)a!=(ld)b) c.nontrivial(); c.label(v<0?"borderline":(ld)a==(ld)b?"same":v?"close":"apart");
  bool g=af::scalar(a,b,Tt,Rt,tol); if(v>=0) c.check(g==(v==1),"scalar-verdict",[&]{return std::string(name(g))+" instead of "+name(v)+": a="+vp::str(a)+" b="+vp::str(b);});
  c.check(af::scalar(a,a,Tt,Tt,tol)&&af::scalar(b,b,Rt,Rt,tol),"scalar-reflexive",[&]{return vp::str(a)+" "+vp::str(b);}); if constexpr(std::is_same_v<T,R>){ bool h=af::scalar(b,a,Tt,Tt,tol); bool g2=af::scalar(a,b,Tt,Tt,tol); c.check(h==g2,"scalar-symmetric"); } if constexpr(fp<T>!=fp<R>){ c.check(af::scalar(b,a,Rt,Tt,tol)==g,"scalar-symmetric-mixed"); }
  // every named comparison is consistent with the equality
  auto run=[&](cmp o){ brille::Comparer<T,R> k(o,Tt,Rt,tol); return k(a,b); }; ld x=(ld)a,y=(ld)b; bool lt=x<y,gt=x>y; struct{cmp o;bool e;const char*n;} T8[]={{cmp::eq,g,"eq"},{cmp::neq,!g,"neq"},{cmp::lt,!g&&lt,"lt"},{cmp::gt,!g&&gt,"gt"},{cmp::le,g||lt,"le"},{cmp::ge,g||gt,"ge"},{cmp::nle,!g&&gt,"nle"},{cmp::nge,!g&&lt,"nge"}};
  for(auto&k:T8) c.check(run(k.o)==k.e,"comparer-scalar",[&]{return std::string(k.n)+" is "+(k.e?"false":"true")+" for a="+vp::str(a)+" b="+vp::str(b);}); c.check(vp::throws([&]{ run(cmp::le_ge); }),"comparer-unhandled");
  // lists
  size_t n=(size_t)c.i(1,6); size_t sa=(size_t)c.i(1,3),sb=(size_t)c.i(1,3); std::vector<T> A(n*sa); std::vector<R> B(n*sb); for(auto&q:A) q=value<T>(c); for(auto&q:B) q=value<R>(c); std::vector<T> ca(n); std::vector<R> cb(n); bool some=c.b(); int worst=1; bool ok=true; int kind=(int)c.draw(3); for(size_t i=0;i<n;++i){ Tol z=t; if(some&&c.p(80)){ A[i*sa]=value<T>(c); if constexpr(fp<R>){ ld q=(ld)A[i*sa]; B[i*sb]=(R)q; } else { ld q=(ld)A[i*sa]; if(std::abs(q)<1e9L){ ld rq=std::round(std::is_unsigned_v<R>?std::abs(q):q); A[i*sa]=(T)rq; B[i*sb]=(R)rq; } } } else { A[i*sa]=value<T>(c); B[i*sb]=near_<R,T>(c,A[i*sa],z); }
    if(kind==1&&comparable(A[i*sa],B[i*sb])&&(ld)A[i*sa]>(ld)B[i*sb]){ if constexpr(std::is_same_v<T,R>) std::swap(A[i*sa],B[i*sb]); } ca[i]=A[i*sa]; cb[i]=B[i*sb]; ok=ok&&comparable(ca[i],cb[i]); int w=verdict(ca[i],cb[i],t); if(w==0) worst=0; else if(w<0&&worst==1) worst=-1; }
  if(!ok) return; if(c.describe){ c.note("list a",ca); c.note("list b",cb); } auto each=[&](size_t i){ return af::scalar(ca[i],cb[i],Tt,Rt,tol); }; bool all=true; for(size_t i=0;i<n;++i) all=all&&each(i);
  if(worst>=0) c.check(all==(worst==1),"scalars-of-list"); if(worst>=0){ c.check(af::vector(n,ca.data(),cb.data(),Tt,Rt,tol)==(worst==1),"vector-verdict",[&]{return vp::str(ca)+" "+vp::str(cb)+" should be "+name(worst);}); c.check(af::array(n,1,ca.data(),cb.data(),Tt,Rt,tol)==(worst==1)&&af::array(1,n,ca.data(),cb.data(),Tt,Rt,tol)==(worst==1),"array-verdict"); c.check(af::equal(ca,cb,Tt,Rt,tol)==(worst==1),"equal-verdict"); if(n==3){ c.check((af::vector<T,R,3>(ca.data(),cb.data(),Tt,Rt,tol))==(worst==1),"vector3"); std::array<T,3> x3{ca[0],ca[1],ca[2]}; std::array<R,3> y3{cb[0],cb[1],cb[2]}; c.check(af::equal(x3,y3,Tt,Rt,tol)==(worst==1),"equal-array"); c.check((af::array<T,R,3,1>(ca.data(),cb.data(),Tt,Rt,tol))==(worst==1),"array31"); } if(n==4){ c.check(af::matrix(2,ca.data(),cb.data(),Tt,Rt,tol)==(worst==1)&&(af::matrix<T,R,2>(ca.data(),cb.data(),Tt,Rt,tol))==(worst==1),"matrix2"); c.check(af::array(2,2,ca.data(),cb.data(),Tt,Rt,tol)==(worst==1),"array22"); } }
  { auto s=cb; s.push_back(R(0)); c.check(!af::equal(ca,s,Tt,Rt,tol),"equal-lengths"); if(n>1){ s=cb; s.pop_back(); c.check(!af::equal(ca,s,Tt,Rt,tol),"equal-lengths"); } }
  for(cmp o: {cmp::eq,cmp::neq,cmp::lt,cmp::gt,cmp::le,cmp::ge,cmp::nle,cmp::nge}){ brille::Comparer<T,R> k(o,Tt,Rt,tol); bool any=false,every=true; for(size_t i=0;i<n;++i){ bool q=k(ca[i],cb[i]); any=any||q; every=every&&q; } bool neg=o==cmp::neq||o==cmp::nle||o==cmp::nge; bool e=neg?any:every; c.check(k(n,ca.data(),cb.data())==e,"comparer-vector",[&]{return brille::to_string(o)+" of "+vp::str(ca)+" "+vp::str(cb);}); c.check(k(n,A.data(),sa,B.data(),sb)==e,"comparer-strided",[&]{return brille::to_string(o)+" strides "+vp::str(sa)+","+vp::str(sb);}); }
}
VP_PROP(double_values,250000,3000000){ scalars<double,double>(c); }
VP_PROP(float_values,150000,2000000){ switch(c.draw(3)){ case 0: scalars<float,float>(c); break; case 1: scalars<float,double>(c); break; default: scalars<double,float>(c);} }
VP_PROP(mixed_values,250000,3000000){ switch(c.draw(8)){ case 0: scalars<int,double>(c); break; case 1: scalars<double,int>(c); break; case 2: scalars<unsigned,double>(c); break; case 3: scalars<double,unsigned>(c); break; case 4: scalars<float,int>(c); break; case 5: scalars<long,double>(c); break; case 6: scalars<double,size_t>(c); break; default: scalars<int,float>(c);} }
VP_PROP(integer_values,150000,2000000){ switch(c.draw(6)){ case 0: scalars<int,int>(c); break; case 1: scalars<unsigned,unsigned>(c); break; case 2: scalars<int,unsigned>(c); break; case 3: scalars<unsigned,int>(c); break; case 4: scalars<int,long>(c); break; default: scalars<size_t,unsigned>(c);} }
template<class T> static void binops(vp::Case& c){ using brille::ops; size_t n=(size_t)c.i(1,5),sa=(size_t)c.i(1,3),sb=(size_t)c.i(1,3),sc=(size_t)c.i(1,3); std::vector<T> a(n*sa),b(n*sb),o(n*sc,T(7)); for(auto&x:a) x=(T)c.i(1,40); for(auto&x:b) x=(T)c.i(1,9); if(n>1) c.nontrivial(); c.note("n and strides",std::vector<size_t>{n,sc,sa,sb}); for(ops q: {ops::plus,ops::minus,ops::times,ops::rdiv,ops::ldiv}){ brille::RawBinaryOperator<T> k(q); auto f=[&](T x,T y)->T{ switch(q){ case ops::plus: return x+y; case ops::minus: return x-y; case ops::times: return x*y; case ops::rdiv: return x/y; default: return y/x; } }; c.check(k(a[0],b[0])==f(a[0],b[0]),"binary-scalar"); std::fill(o.begin(),o.end(),T(7)); k(n,o.data(),sc,a.data(),sa,b.data(),sb); for(size_t i=0;i<o.size();++i) c.check(o[i]==(i%sc==0?f(a[i/sc*sa],b[i/sc*sb]):T(7)),"binary-strided",[&]{return brille::to_string(q);}); std::vector<T> p(n); k(n,p.data(),a.data(),b.data()); for(size_t i=0;i<n;++i) c.check(p[i]==f(a[i],b[i]),"binary-vector"); } }
VP_PROP(binary_operators,100000,1000000){ switch(c.draw(3)){ case 0: binops<int>(c); break; case 1: binops<double>(c); break; default: binops<float>(c);} }
VP_PROP(global_settings,60000,600000){ // the settings hold the values last given, in any order of chained setters
  af::Config own; af::Config& g=c.b()?af::config:own; int d=g.digit(); double x=g.direct<double>(),r=g.reciprocal<double>(); int steps=(int)c.i(1,8); if(steps>1) c.nontrivial(); std::vector<std::string> did; for(int i=0;i<steps;++i){ double v=c.pick({1e-3,1e-6,1e-12,0.0,0.25}); int k=(int)c.i(1,3000); switch(c.draw(7)){ case 0: g.digit(k); d=k; did.push_back("digit"); break; case 1: g.direct(v); x=v; did.push_back("direct"); break; case 2: g.reciprocal(v); r=v; did.push_back("reciprocal"); break; case 3: g.tol(v); x=r=v; did.push_back("tol"); break; case 4: g.direct(v).reciprocal(v/2).digit(k); x=v; r=v/2; d=k; did.push_back("direct.reciprocal.digit"); break; case 5: g.reciprocal(v).direct(v*2).tol(v).digit(k); x=r=v; d=k; did.push_back("reciprocal.direct.tol.digit"); break; default: g.digit(k).direct((float)v).reciprocal(v); d=k; x=(double)(float)v; r=v; did.push_back("digit.direct.reciprocal"); }
    c.note("setters",did); c.check(g.digit()==d,"config-digit"); c.check(g.direct<double>()==x,"config-direct",[&]{return vp::str(g.direct<double>())+" expected "+vp::str(x);}); c.check(g.reciprocal<double>()==r,"config-reciprocal",[&]{return vp::str(g.reciprocal<double>())+" expected "+vp::str(r);}); c.check(g.direct<float>()==(float)x,"config-float"); }
  af::Config z(d,x,r); c.check(z.digit()==d&&z.direct<double>()==x&&z.reciprocal<double>()==r,"config-constructed"); af::Config y=g; c.check(y.digit()==d&&y.direct<double>()==x,"config-copied"); }
VP_MAIN
