// Reference model of strided arrays: a flat memory image plus, for every logical element in
// row-major order, its position in that image.  Aliasing arrays share the image.
#pragma once
#include "vp.hpp"
#include <memory>
#include <type_traits>
#include "array_.hpp"
using brille::ind_t;
template<class T> using Cell=std::conditional_t<std::is_same_v<T,bool>,char,T>;
template<class T> struct Mem { std::vector<Cell<T>> v; T* raw=nullptr; bool external=false; std::unique_ptr<T[]> hold; };
template<template<class> class A,class T> struct W {
  static constexpr bool two = std::is_same_v<A<T>,brille::Array2<T>>;
  A<T> a; std::vector<ind_t> sh; std::vector<size_t> pos; std::shared_ptr<Mem<T>> mem; std::string how; std::shared_ptr<A<T>> keep;
  size_t n() const { return pos.size(); }
  size_t nd() const { return sh.size(); }
  T at(size_t k) const { return mem->v[pos[k]]; }
  Cell<T>& at(size_t k) { return mem->v[pos[k]]; }
  std::vector<T> vals() const { std::vector<T> o; for(size_t k=0;k<n();++k)o.push_back(at(k)); return o; }
  size_t rowlen() const { size_t q=1; for(size_t d=1;d<nd();++d) q*=sh[d]; return q; }
};
template<class Sh> struct shape_of; 
template<template<class> class A,class T> auto mkshape(const std::vector<ind_t>& s){ if constexpr(std::is_same_v<A<T>,brille::Array2<T>>) return std::array<ind_t,2>{s[0],s[1]}; else return s; }
inline std::vector<std::vector<ind_t>> subs(const std::vector<ind_t>& sh){ size_t tot=1; for(auto x:sh)tot*=x; std::vector<std::vector<ind_t>> o; for(size_t l=0;l<tot;++l){ std::vector<ind_t> s(sh.size()); size_t r=l; for(size_t d=sh.size();d-->0;){ s[d]=(ind_t)(r%sh[d]); r/=sh[d]; } o.push_back(s);} return o; }
inline size_t lin(const std::vector<ind_t>& sh,const std::vector<ind_t>& s){ size_t l=0; for(size_t d=0;d<sh.size();++d) l=l*sh[d]+s[d]; return l; }
inline size_t prod(const std::vector<ind_t>& s){ size_t p=1; for(auto x:s)p*=x; return p; }
template<class S> std::vector<ind_t> tov(const S& s){ return std::vector<ind_t>(s.begin(),s.end()); }

template<class T> T value(vp::Case& c){ if constexpr(std::is_same_v<T,bool>) return c.b(); else if constexpr(std::is_unsigned_v<T>) return (T)c.draw(8); else if constexpr(std::is_floating_point_v<T>){ T v=(T)c.si(5); if(c.p(30)) v+=T(0.5); return v; } else return (T)c.si(5); }
template<template<class> class A,class T> T get(const A<T>& a,const std::vector<ind_t>& s){ auto q=mkshape<A,T>(s); const auto& ca=a; return ca[q]; }
// the array shows exactly the modelled elements
template<template<class> class A,class T> void same(vp::Case& c,const W<A,T>& w,const char* tag,const std::string& what=""){
  auto sh=tov(w.a.shape()); c.check(sh==w.sh,tag,[&]{return what+" ["+w.how+"]: shape "+vp::str(sh)+" expected "+vp::str(w.sh);});
  c.check(w.a.numel()==w.n(),tag,[&]{return what+": numel "+std::to_string(w.a.numel())+" expected "+std::to_string(w.n());});
  size_t k=0; for(auto& s: subs(w.sh)){ T g=get<A,T>(w.a,s), e=w.mem->v[w.pos[k]]; c.check(g==e,tag,[&]{return what+" ["+w.how+"]: element "+vp::str(s)+" is "+vp::str(g)+" expected "+vp::str(e);}); ++k; }
  if(w.mem->raw) for(size_t i=0;i<w.mem->v.size();++i) c.check(w.mem->raw[i]==w.mem->v[i],tag,[&]{return what+" ["+w.how+"]: memory outside of the array changed at "+std::to_string(i);});
}
// result array r has shape sh and row-major values v
template<template<class> class A,class T> void expect(vp::Case& c,const A<T>& r,const std::vector<ind_t>& sh,const std::vector<T>& v,const char* tag,const std::string& what=""){
  auto g=tov(r.shape()); c.check(g==sh,tag,[&]{return what+": shape "+vp::str(g)+" expected "+vp::str(sh);});
  size_t k=0; for(auto& s: subs(sh)){ T x=get<A,T>(r,s); T e=v[k]; c.check(x==e || (x!=x&&e!=e),tag,[&]{return what+": element "+vp::str(s)+" is "+vp::str(x)+" expected "+vp::str(e);}); ++k; }
}
inline std::vector<ind_t> rowstride(const std::vector<ind_t>& s,size_t pad=1){ std::vector<ind_t> o(s.size()); size_t q=pad; for(size_t d=s.size();d-->0;){ o[d]=(ind_t)q; q*=s[d]; } return o; }
inline std::vector<ind_t> colstride(const std::vector<ind_t>& s,size_t pad=1){ std::vector<ind_t> o(s.size()); size_t q=pad; for(size_t d=0;d<s.size();++d){ o[d]=(ind_t)q; q*=s[d]; } return o; }
// the order in which an array with this layout numbers its elements linearly
template<template<class> class A,class T> std::vector<size_t> linear_order(const W<A,T>& w){ // linear index -> row-major logical index
  auto st=tov(w.a.stride()); bool col= st.front()<st.back(); std::vector<size_t> o; size_t n=w.n();
  if(!col){ for(size_t k=0;k<n;++k)o.push_back(k); return o; }
  std::vector<ind_t> rs(w.sh.rbegin(),w.sh.rend()); for(auto s: subs(rs)){ std::reverse(s.begin(),s.end()); o.push_back(lin(w.sh,s)); } return o; }
template<template<class> class A,class T> W<A,T> whole(vp::Case& c,const std::vector<ind_t>& sh,int kind){
  W<A,T> w; w.sh=sh; w.mem=std::make_shared<Mem<T>>(); size_t n=prod(sh); auto S=mkshape<A,T>(sh);
  std::vector<ind_t> st; size_t N=n;
  switch(kind){
    case 0: st=rowstride(sh); w.how="owned row-ordered"; w.a=A<T>(S); break;
    case 1: st=colstride(sh); w.how="owned column-ordered"; w.a=A<T>(S,mkshape<A,T>(st)); break;
    case 2: st=rowstride(sh); w.how="external row-ordered"; break;
    case 3: st=colstride(sh); w.how="external column-ordered"; break;
    case 4: { size_t p=2+c.draw(2); st=rowstride(sh,p); N=n*p; w.how="external padded row-ordered"; break; }
    default:{ size_t p=2+c.draw(2); st=colstride(sh,p); N=n*p; w.how="external padded column-ordered"; break; }
  }
  // a zero-size array has no strides that matter
  w.mem->v.resize(N); for(size_t i=0;i<N;++i) w.mem->v[i]=value<T>(c);
  for(auto& s: subs(sh)){ size_t p=0; for(size_t d=0;d<sh.size();++d)p+=s[d]*st[d]; w.pos.push_back(p); }
  if(kind>=2){ w.mem->hold.reset(new T[N?N:1]); w.mem->raw=w.mem->hold.get(); w.mem->external=true; for(size_t i=0;i<N;++i) w.mem->raw[i]=w.mem->v[i]; w.a=A<T>(w.mem->raw,(ind_t)N,false,S,mkshape<A,T>(st)); }
  else { size_t k=0; for(auto& s: subs(sh)){ auto q=mkshape<A,T>(s); w.a[q]=w.mem->v[w.pos[k]]; ++k; } }
  return w;
}
// derive a view through the public interface; the model follows
template<template<class> class A,class T> W<A,T> view_ij(const W<A,T>& b,ind_t i,ind_t j){ W<A,T> w; w.mem=b.mem; w.sh=b.sh; w.sh[0]=j-i; w.how=b.how+", rows "+std::to_string(i)+".."+std::to_string(j); size_t r=b.rowlen(); for(size_t k=i*r;k<j*r;++k)w.pos.push_back(b.pos[k]); w.a= b.a.view(i,j); return w; }
template<template<class> class A,class T> W<A,T> view_i(const W<A,T>& b,ind_t i){ W<A,T> w; w.mem=b.mem; w.sh=b.sh; w.sh[0]=1; w.how=b.how+", row "+std::to_string(i); size_t r=b.rowlen(); for(size_t k=i*r;k<(i+1)*r;++k)w.pos.push_back(b.pos[k]); w.a=b.a.view(i); return w; }
template<template<class> class A,class T> W<A,T> view_off(const W<A,T>& b,const std::vector<ind_t>& o){ W<A,T> w; w.mem=b.mem; w.sh=b.sh; for(size_t d=0;d<o.size();++d) w.sh[d]-=o[d]; w.how=b.how+", offset "+vp::str(o); for(auto s: subs(w.sh)){ for(size_t d=0;d<o.size();++d)s[d]+=o[d]; w.pos.push_back(b.pos[lin(b.sh,s)]); } w.a=b.a.view(mkshape<A,T>(o)); return w; }
template<class T> W<brille::Array,T> slice_(const W<brille::Array,T>& b,ind_t i){ W<brille::Array,T> w; w.mem=b.mem; w.sh.assign(b.sh.begin()+1,b.sh.end()); if(w.sh.empty()) w.sh.push_back(1); w.how=b.how+", slice "+std::to_string(i); size_t r=b.rowlen(); for(size_t k=i*r;k<(i+1)*r;++k)w.pos.push_back(b.pos[k]); w.a=b.a.slice(i); return w; }
inline std::vector<ind_t> randshape(vp::Case& c,size_t nd,bool zero=false,int big=5){ std::vector<ind_t> s; for(size_t d=0;d<nd;++d){ int k=(int)c.draw(8); s.push_back((ind_t)(k<2?1:(zero&&k==2)?0:c.i(2,nd>3?3:big))); } return s; }
// an array of shape sh (or near it) in some layout
template<template<class> class A,class T> W<A,T> kept(vp::Case& c,W<A,T> w,const W<A,T>& b){ w.a.make_mutable(); if(!c.p(15)) w.keep=std::make_shared<A<T>>(b.a); else w.how+=" (sole owner)"; return w; }
template<template<class> class A,class T> W<A,T> gen_array(vp::Case& c,std::vector<ind_t> sh,bool views=true){
  constexpr bool two=std::is_same_v<A<T>,brille::Array2<T>>;
  int kind=(int)c.draw(6); bool zero=prod(sh)==0;
  int v=(views&&!zero)?(int)c.draw(two?5:7):0;
  if(v==0||v==1){ auto w=whole<A,T>(c,sh,kind); if(v==1){ W<A,T> q=w; q.how+=", whole view"; q.a=w.a.view(); q.a.make_mutable(); return q; } return w; }
  if(v==2){ ind_t i=(ind_t)c.draw(3), e=(ind_t)c.draw(3); auto big=sh; big[0]+=i+e; auto b=whole<A,T>(c,big,kind); auto w=view_ij<A,T>(b,i,i+sh[0]); return kept<A,T>(c,w,b); }
  if(v==3){ std::vector<ind_t> o; auto big=sh; for(size_t d=0;d<sh.size();++d){ o.push_back((ind_t)c.draw(3)); big[d]+=o[d]; } auto b=whole<A,T>(c,big,kind); auto w=view_off<A,T>(b,o); return kept<A,T>(c,w,b); }
  if(v==4&&sh[0]==1){ auto big=sh; big[0]=(ind_t)c.i(1,4); auto b=whole<A,T>(c,big,kind); auto w=view_i<A,T>(b,(ind_t)c.draw(big[0])); return kept<A,T>(c,w,b); }
  if constexpr(!two){ if(v>=5){ std::vector<ind_t> big{(ind_t)c.i(1,4)}; for(auto x:sh)big.push_back(x); auto b=whole<A,T>(c,big,kind); return kept<A,T>(c,slice_<T>(b,(ind_t)c.draw(big[0])),b); } }
  return whole<A,T>(c,sh,kind);
}
template<template<class> class A,class T> bool weird(const W<A,T>& w){ return w.how!="owned row-ordered"; }
template<template<class> class A,class T> void note_arr(vp::Case& c,const std::string& k,const W<A,T>& w){ if(c.describe){ std::string o=w.how+", shape "+vp::str(w.sh)+", values "; o+=vp::str(w.vals()); c.note(k,o); } }
