// properties shared by Array (N-d) and Array2; AR is the template, ND() draws a dimensionality
#include "arrmodel.hpp"
#include "array_functions.hpp"
using brille::cmp; using brille::ops;
#define TYPES3(F,...) switch(c.draw(3)){ case 0: F<AR,double>(c); break; case 1: F<AR,int>(c); break; default: F<AR,float>(c); }
static size_t ndim(vp::Case& c){
#ifdef TWO_D
  return 2;
#else
  return (size_t)c.i(1,4);
#endif
}
#ifdef TWO_D
static std::array<ind_t,2> SH(const std::vector<ind_t>& s){ return {s[0],s[1]}; }
#else
static std::vector<ind_t> SH(const std::vector<ind_t>& s){ return s; }
#endif
#define START(zero) auto sh=randshape(c,ndim(c),zero); auto w=gen_array<A,T>(c,sh); note_arr(c,"array",w); if(weird(w)&&w.n()>1) c.nontrivial(); c.label(w.how.substr(0,w.how.find(',')))
template<template<class> class A,class T> static void element_access(vp::Case& c){
  START(true); same(c,w,"construct");
  c.check(w.a.ndim()==w.nd(),"ndim"); for(size_t d=0;d<w.nd();++d) c.check(w.a.size((ind_t)d)==w.sh[d],"size");
  size_t k=0; const auto& ca=w.a; for(auto& s: subs(w.sh)){ auto q=SH(s); T e=w.at(k);
    c.check(w.a[q]==e&&ca[q]==e,"subscript"); c.check(w.a.val(q)==e&&ca.val(q)==e,"val"); c.check(*w.a.ptr(q)==e&&*ca.ptr(q)==e,"ptr"); c.check(*w.a.data(q)==e&&*ca.data(q)==e,"data");
#ifdef TWO_D
    c.check(w.a.val(s[0],s[1])==e&&ca.val(s[0],s[1])==e&&*w.a.ptr(s[0],s[1])==e&&*ca.ptr(s[0],s[1])==e,"val-ij"); if(s[1]==0) c.check(w.a.val(s[0])==e&&ca.val(s[0])==e&&*w.a.ptr(s[0])==e&&*ca.ptr(s[0])==e,"val-i");
#else
    bool lead=true; for(size_t d=1;d<s.size();++d) lead&=s[d]==0; if(lead) c.check(w.a.val(s[0])==e&&ca.val(s[0])==e&&*w.a.ptr(s[0])==e&&*ca.ptr(s[0])==e,"val-i");
    if(s.size()==2) c.check(w.a.val(s[0],s[1])==e&&ca.val(s[0],s[1])==e&&*ca.ptr(s[0],s[1])==e&&w.a.val({s[0],s[1]})==e,"val-ij"); if(s.size()==3) c.check(w.a.val(s[0],s[1],s[2])==e&&*ca.ptr(s[0],s[1],s[2])==e&&ca.val({s[0],s[1],s[2]})==e,"val-ijk");
    if(s.size()>=3){ std::vector<ind_t> part{s[0],s[1]}; bool z=true; for(size_t d=2;d<s.size();++d)z&=s[d]==0; if(z) c.check(w.a.val(part)==e&&ca.val(part)==e&&*ca.ptr(part)==e,"val-partial"); }
#endif
    ++k; }
  auto v=w.vals(); std::vector<T> it; for(auto x: w.a.valItr()){ it.push_back(x); c.check(it.size()<=v.size()+2,"valItr-does-not-stop"); } c.check(it==v,"valItr",[&]{return "iterated values "+vp::str(it)+" expected "+vp::str(v)+" ["+w.how+"]";});
  c.check(w.a.to_std()==v,"to_std");
  auto lo=linear_order(w); for(size_t l=0;l<v.size();++l) c.check(w.a[(ind_t)l]==v[lo[l]]&&ca[(ind_t)l]==v[lo[l]]&&*ca.data((ind_t)l)==v[lo[l]],"linear-index",[&]{return "element with linear index "+std::to_string(l)+" is "+vp::str(T(w.a[(ind_t)l]))+" expected "+vp::str(v[lo[l]])+" ["+w.how+"]";});
  // writing one element through any accessor changes that element only
  if(w.n()){ size_t q=c.draw(w.n()); auto s=subs(w.sh)[q]; T nv=(T)(w.at(q)+T(7)); auto S=SH(s); switch(c.draw(5)){ case 0: w.a[S]=nv; break; case 1: w.a.val(S)=nv; break; case 2: *w.a.ptr(S)=nv; break; case 3: { T r=w.a.set(S,nv); c.check(r==nv,"set-returns"); break; } default: { size_t l=std::find(lo.begin(),lo.end(),q)-lo.begin(); w.a[(ind_t)l]=nv; } } w.at(q)=nv; same(c,w,"write-one"); }
  std::string t=w.a.to_string();
  if constexpr(std::is_same_v<T,int>) if(w.n()){ std::vector<int> shown; for(auto&x:t) if(!(std::isdigit((unsigned char)x)||x=='-')) x=' '; std::istringstream is(t); int x; while(is>>x) shown.push_back(x); c.check(shown==w.vals(),"to_string",[&]{return w.how+": "+w.a.to_string();}); }
}
template<template<class> class A,class T> static void views(vp::Case& c){
  START(false); ind_t n=w.sh[0];
  // a chain of views all looking at the same memory
  std::vector<W<A,T>> chain{w}; int m=(int)c.i(1,4);
  for(int q=0;q<m;++q){ auto& b=chain.back(); W<A,T> x;
    switch(c.draw(
#ifdef TWO_D
    3
#else
    5
#endif
    )){ case 0: { ind_t i=(ind_t)c.draw(b.sh[0]), j=(ind_t)c.i(i+1,b.sh[0]); x=view_ij<A,T>(b,i,j); break; } case 1: x=view_i<A,T>(b,(ind_t)c.draw(b.sh[0])); break; case 2: { std::vector<ind_t> o; for(auto s: b.sh) o.push_back((ind_t)c.draw(s)); x=view_off<A,T>(b,o); break; }
#ifndef TWO_D
      case 3: x=slice_<T>(b,(ind_t)c.draw(b.sh[0])); break;
      default: { x.mem=b.mem; x.pos=b.pos; x.how=b.how+", squeezed"; if(c.b()){ for(auto s:b.sh) if(s>1) x.sh.push_back(s); x.a=b.a.squeeze(); } else { size_t ax=c.draw(b.sh.size()); for(size_t d=0;d<b.sh.size();++d) if(d!=ax||b.sh[d]>1) x.sh.push_back(b.sh[d]); x.a=b.a.squeeze((ind_t)ax); } if(x.sh.empty()) x.sh.push_back(1); break; }
#endif
    }
    c.note("view",x.how); same(c,x,"view",x.how); 
#ifndef TWO_D
    c.check(x.a.shares_with(b.a),"view-shares");
#endif
     chain.push_back(x); }
  // writing through the last view is seen by exactly the arrays whose elements coincide
  auto& x=chain.back(); x.a.make_mutable(); size_t q=c.draw(x.n()); auto S=SH(subs(x.sh)[q]); x.a[S]=(T)(x.at(q)+T(9)); x.at(q)=(T)(x.at(q)+T(9)); for(auto& y: chain) same(c,y,"write-through");
  // whole-array in-place arithmetic on the view alters exactly the viewed elements
  T k=(T)c.i(2,4); int op=(int)c.draw(3); if(op==0) x.a+=k; else if(op==1) x.a-=k; else x.a*=k; for(size_t l=0;l<x.n();++l){ T& e=x.at(l); e=(T)(op==0?e+k:op==1?e-k:e*k); } for(auto& y: chain) same(c,y,"inplace-on-view",y.how);
  // errors
  c.check(vp::throws([&]{ (void)w.a.view(n+(ind_t)c.draw(3)); }),"view-out-of-range");
#ifdef TWO_D
  { ind_t k=(ind_t)c.draw(n); auto none=w.a.view(k,k); auto ns=w.sh; ns[0]=0; expect<A,T>(c,none,ns,{},"empty-view",w.how); }
#endif
  c.check(vp::throws([&]{ (void)w.a.view(0,n+1+(ind_t)c.draw(2)); }),"view-range-out-of-range"); if(n>1) c.check(vp::throws([&]{ (void)w.a.view(n-1,(ind_t)c.draw(n-1)); }),"view-range-reversed");
  auto im=w.a.view(); c.check(im.isconst(),"view-is-mutable"); c.check(vp::throws([&]{ im+=T(1); }),"immutable-modified"); c.check(vp::throws([&]{ im*=w.a; }),"immutable-modified"); for(auto& y: chain) same(c,y,"unchanged-after-errors");
  c.check(w.a.make_immutable()==false&&w.a.isconst(),"make_immutable"); c.check(vp::throws([&]{ w.a-=T(1); }),"immutable-modified"); w.a.make_mutable(); 
}
template<template<class> class A,class T> static void copies(vp::Case& c){
  START(true);
  auto v=w.vals(); A<T> d=w.a.decouple(), cc=w.a.contiguous_copy(), rc=w.a.contiguous_row_ordered_copy();
  expect<A,T>(c,d,w.sh,v,"decouple",w.how); expect<A,T>(c,cc,w.sh,v,"contiguous_copy",w.how); expect<A,T>(c,rc,w.sh,v,"contiguous_row_ordered_copy",w.how);
  if(w.n()){ c.check(cc.is_contiguous(),"contiguous_copy-not-contiguous"); c.check(rc.is_row_ordered()&&rc.is_contiguous(),"row-ordered-copy-is-not"); size_t k=0; for(auto& s: subs(w.sh)){ (void)s; c.check(rc[(ind_t)k]==v[k],"row-ordered-copy-linear",[&]{return "row-ordered contiguous copy of "+w.how+": linear element "+std::to_string(k)+" is "+vp::str(T(rc[(ind_t)k]))+" expected "+vp::str(v[k]);}); ++k; } }
  // copies share, decoupled arrays do not
  A<T> sh1(w.a), sh2; sh2=w.a; A<T>* self=&sh2; sh2=*self; expect<A,T>(c,sh1,w.sh,v,"copy"); expect<A,T>(c,sh2,w.sh,v,"assign");
  A<T> d2=w.a.decouple(); // two handles at least: must be independent
  if(w.n()){ size_t q=c.draw(w.n()); auto S=SH(subs(w.sh)[q]); d2.make_mutable(); d2[S]=(T)(d2[S]+T(3)); auto dv=v; dv[q]=(T)(dv[q]+T(3)); expect<A,T>(c,d2,w.sh,dv,"decoupled-write"); same(c,w,"decoupled-write-altered-original"); expect<A,T>(c,sh1,w.sh,v,"decoupled-write-altered-copy"); d2+=T(1); for(auto&x:dv)x=(T)(x+1); expect<A,T>(c,d2,w.sh,dv,"decoupled-inplace",w.how); same(c,w,"decoupled-inplace-altered-original");
    w.a[S]=(T)(w.at(q)+T(5)); w.at(q)=(T)(w.at(q)+T(5)); same(c,w,"write"); expect<A,T>(c,sh1,w.sh,w.vals(),"shared-write-not-seen"); expect<A,T>(c,d2,w.sh,dv,"write-altered-decoupled"); v=w.vals(); }
  // conversion between element types copies
  A<int> ai(w.a); std::vector<int> vi; for(auto x:v) vi.push_back((int)x); expect<A,int>(c,ai,w.sh,vi,"convert-int",w.how); A<double> ad(w.a); std::vector<double> vd(v.begin(),v.end()); expect<A,double>(c,ad,w.sh,vd,"convert-double",w.how);
  A<double> as(mkshape<A,double>(std::vector<ind_t>(w.nd(),2)),0.); as=ai; expect<A,double>(c,as,w.sh,std::vector<double>(vi.begin(),vi.end()),"convert-assign");
  same(c,w,"unchanged");
}
template<template<class> class A,class T> static void extraction(vp::Case& c){
  START(false); ind_t n=w.sh[0]; size_t r=w.rowlen(); auto v=w.vals();
  auto rows=[&](const std::vector<size_t>& ix){ std::vector<T> o; for(auto i:ix) o.insert(o.end(),v.begin()+i*r,v.begin()+(i+1)*r); return o; };
  auto rsh=[&](size_t m){ auto s=w.sh; s[0]=(ind_t)m; return s; };
  size_t m=c.draw(6); std::vector<size_t> ix; for(size_t k=0;k<m;++k) ix.push_back(c.draw(n)); c.note("indices",ix);
  ind_t one=(ind_t)c.draw(n); A<T> e1=w.a.extract(one); expect<A,T>(c,e1,rsh(1),rows({one}),"extract-one",w.how);
  std::vector<int> xi(ix.begin(),ix.end()); std::vector<size_t> xs(ix); std::vector<ind_t> xu(ix.begin(),ix.end());
  expect<A,T>(c,w.a.extract(xi),rsh(m),rows(ix),"extract-vector",w.how); expect<A,T>(c,w.a.extract(xs),rsh(m),rows(ix),"extract-vector",w.how); expect<A,T>(c,w.a.extract(xu),rsh(m),rows(ix),"extract-vector",w.how);
  if(m>=3){ std::array<unsigned,3> xa{(unsigned)ix[0],(unsigned)ix[1],(unsigned)ix[2]}; expect<A,T>(c,w.a.extract(xa),rsh(3),rows({ix[0],ix[1],ix[2]}),"extract-array",w.how); }
  if(m>0){ auto xarr=A<int>::from_std(xi); expect<A,T>(c,w.a.extract(xarr),rsh(m),rows(ix),"extract-Array",w.how); }
  std::vector<bool> mask; std::vector<size_t> on; size_t len=c.p(70)?n:c.draw(n+1); for(size_t k=0;k<len;++k){ bool b=c.b(); mask.push_back(b); if(b) on.push_back(k);} expect<A,T>(c,w.a.extract(mask),rsh(on.size()),rows(on),"extract-mask",w.how);
  if(len){ auto mw=gen_array<A,bool>(c,[&]{ std::vector<ind_t> s(w.nd(),1); s[0]=(ind_t)len; return s; }()); std::vector<size_t> o2; for(size_t k=0;k<len;++k) if(mw.at(k)) o2.push_back(k); expect<A,T>(c,w.a.extract(mw.a),rsh(o2.size()),rows(o2),"extract-mask-Array",mw.how+" from "+w.how); }
#ifndef TWO_D
  if(c.p(50)){ std::vector<std::array<int,2>> pr; std::vector<size_t> fl; size_t np=c.draw(4); for(size_t k=0;k<np;++k){ std::array<int,2> p{(int)c.draw(n),(int)c.draw(n)}; pr.push_back(p); fl.push_back(p[0]); fl.push_back(p[1]); } std::vector<ind_t> os{(ind_t)np,2}; for(size_t d=1;d<w.nd();++d) os.push_back(w.sh[d]); if(np) expect<A,T>(c,w.a.extract(pr),os,rows(fl),"extract-pairs",w.how); }
#endif
  // out of range requests are refused
  auto bad=xi; bad.insert(bad.begin()+c.draw(bad.size()+1), c.b()? (int)n : -1); c.check(vp::throws([&]{ (void)w.a.extract(bad); }),"extract-out-of-range"); c.check(vp::throws([&]{ (void)w.a.extract(n); }),"extract-one-out-of-range"); { std::array<int,1> ba{(int)n}; c.check(vp::throws([&]{ (void)w.a.extract(ba); }),"extract-array-out-of-range"); c.check(vp::throws([&]{ (void)w.a.extract(A<int>::from_std(bad)); }),"extract-Array-out-of-range"); }
  { std::vector<bool> lm(n+1,true); c.check(vp::throws([&]{ (void)w.a.extract(lm); }),"extract-mask-too-long"); }
  // extracted rows are copies
  e1.make_mutable(); e1+=T(11); same(c,w,"extracted-row-aliases"); auto e2=w.a.extract(xu); if(m){ e2*=T(3); same(c,w,"extracted-rows-alias"); }
}
template<template<class> class A,class T> static void setting(vp::Case& c){
  START(false); ind_t n=w.sh[0], i=(ind_t)c.draw(n); size_t r=w.rowlen(); c.note("row",i); std::vector<T> nv; 
  auto s1=w.sh; s1[0]=1;
  switch(c.draw(4)){
    case 0: { auto in=gen_array<A,T>(c,s1); note_arr(c,"in",in); nv=in.vals(); w.a.set(i,in.a); same(c,in,"set-altered-source"); break; }
    case 1: { auto in=gen_array<A,int>(c,s1); for(auto x:in.vals()) nv.push_back((T)x); w.a.set(i,in.a); break; }
    case 2: { for(size_t k=0;k<r;++k) nv.push_back(value<T>(c)); w.a.set(i,nv); break; }
    default: { if(r==3){ std::array<T,3> in; for(auto&x:in){ x=value<T>(c); nv.push_back(x);} w.a.set(i,in); } else if(r==2){ std::array<T,2> in; for(auto&x:in){ x=value<T>(c); nv.push_back(x);} w.a.set(i,in); } else { for(size_t k=0;k<r;++k) nv.push_back(value<T>(c)); w.a.set(i,nv); } } }
  for(size_t k=0;k<r;++k) w.at(i*r+k)=nv[k]; same(c,w,"set",w.how);
  std::vector<T> bad(r+1+c.draw(2)); c.check(vp::throws([&]{ w.a.set(i,bad); }),"set-wrong-length"); std::array<T,7> b7{}; if(r!=7) c.check(vp::throws([&]{ w.a.set(i,b7); }),"set-wrong-length-array"); if(w.nd()>1){ auto bs=s1; bs[1+c.draw(w.nd()-1)]+=1; auto bin=whole<A,T>(c,bs,0); c.check(vp::throws([&]{ w.a.set(i,bin.a); }),"set-wrong-shape"); auto bii=whole<A,int>(c,bs,0); c.check(vp::throws([&]{ w.a.set(i,bii.a); }),"set-wrong-shape"); }
  same(c,w,"failed-set-altered",w.how);
  // swapping rows and elements, permuting
  ind_t a=(ind_t)c.draw(n), b=(ind_t)c.draw(n); w.a.swap(a,b); for(size_t k=0;k<r;++k) std::swap(w.at(a*r+k),w.at(b*r+k)); same(c,w,"swap-rows",w.how);
  if(w.nd()==2){ ind_t x=(ind_t)c.draw(w.sh[1]), y=(ind_t)c.draw(w.sh[1]); w.a.swap(i,x,y); std::swap(w.at(i*r+x),w.at(i*r+y)); same(c,w,"swap-elements",w.how); }
  auto p=c.perm(n); std::vector<int> pi(p.begin(),p.end()); c.note("permutation",pi); auto v=w.vals(); w.a.permute(pi); for(size_t q=0;q<n;++q) for(size_t k=0;k<r;++k) w.at(q*r+k)=v[p[q]*r+k]; same(c,w,"permute",w.how);
}
template<template<class> class A,class T> static void resizing(vp::Case& c){
  START(true); auto v=w.vals(); T init=(T)c.i(6,9); auto old=w.sh;
  auto check_mem=[&](const char* tag){ if(w.mem->raw) for(size_t k=0;k<w.mem->v.size();++k) c.check(w.mem->raw[k]==w.mem->v[k],tag); };
  A<T> b(w.a); c.label("op"); auto ns=w.sh;
  switch(c.draw(4)){
  case 0: { bool grow=c.b(); for(auto&x:ns){ if(grow) x+=(ind_t)c.draw(3); else x-=(ind_t)c.draw(x+1); } c.note("resize to",ns); std::vector<T> e; for(auto& s: subs(ns)){ bool in=true; for(size_t d=0;d<s.size();++d) in&=s[d]<old[d]; e.push_back(in? v[lin(old,s)] : init); }
      bool shifted=b.raw_shift()>0; bool threw=vp::throws([&]{ b.resize(SH(ns),init); }); if(threw){ c.check(shifted,"resize-refused"); expect<A,T>(c,b,old,v,"failed-resize-altered"); } else expect<A,T>(c,b,ns,e,"resize",w.how); break; }
  case 1: { ind_t m=(ind_t)c.draw(7); ns[0]=m; std::vector<T> e; for(auto& s: subs(ns)) e.push_back(s[0]<old[0]? v[lin(old,s)] : init); bool shifted=b.raw_shift()>0; bool threw=vp::throws([&]{ b.resize(m,init); }); if(threw) c.check(shifted,"resize-refused"); else expect<A,T>(c,b,ns,e,"resize-first",w.how); break; }
  case 2: { if(w.nd()<2||w.sh[0]<1||w.sh[1]<1) break; ns[0]+=1; ns[1]-=1; c.check(vp::throws([&]{ b.resize(SH(ns),init); }),"mixed-resize-accepted"); expect<A,T>(c,b,old,v,"failed-resize-altered"); break; }
  default: { // reshape keeps the linear order
      if(!w.n()) break; std::vector<ind_t> t;
#ifdef TWO_D
      std::vector<ind_t> div; for(ind_t k=1;k<=w.n();++k) if(w.n()%k==0) div.push_back(k); ind_t k=c.pick(div); t={k,(ind_t)(w.n()/k)};
#else
      size_t left=w.n(); while(left>1&&t.size()<3){ std::vector<ind_t> div; for(ind_t k=1;k<=left;++k) if(left%k==0) div.push_back(k); ind_t k=c.pick(div); t.push_back(k); left/=k; } t.push_back((ind_t)left);
#endif
      c.note("reshape to",t); auto lo=linear_order(w); bool col=tov(w.a.stride()).front()<tov(w.a.stride()).back();
      bool threw=vp::throws([&]{ b.reshape(SH(t)); }); if(threw){ c.check(!w.a.is_contiguous(),"reshape-refused"); expect<A,T>(c,b,old,v,"failed-reshape-altered"); break; }
      std::vector<T> e(w.n()); size_t l=0; if(!col) for(size_t q=0;q<w.n();++q) e[q]=v[q]; else { std::vector<ind_t> rt(t.rbegin(),t.rend()); for(auto s: subs(rt)){ std::reverse(s.begin(),s.end()); e[lin(t,s)]=v[lo[l++]]; } }
      expect<A,T>(c,b,t,e,"reshape",w.how); } }
  same(c,w,"resize-altered-the-array-it-was-copied-from"); check_mem("resize-altered-memory");
  // append and cat
  size_t dim=c.draw(w.nd()); auto es=w.sh; es[dim]=(ind_t)c.draw(4); auto x=gen_array<A,T>(c,es); note_arr(c,"extra",x); auto rs=w.sh; rs[dim]+=es[dim]; std::vector<T> e; auto xv=x.vals(); for(auto s: subs(rs)){ if(s[dim]<w.sh[dim]) e.push_back(v[lin(w.sh,s)]); else { s[dim]-=w.sh[dim]; e.push_back(xv[lin(es,s)]); } }
  A<T> q=w.a.decouple(); 
  bool shifted0=q.raw_shift()>0; if(vp::throws([&]{ q.append((ind_t)dim,x.a); })){ c.check(shifted0,"append-refused"); expect<A,T>(c,q,w.sh,v,"refused-append-altered",w.how); same(c,w,"refused-append-altered"); return; } expect<A,T>(c,q,rs,e,"append",w.how+" + "+x.how); same(c,x,"append-altered-source"); same(c,w,"append-altered-original");
  if(w.nd()>1){ auto bs=es; size_t o=(dim+1)%w.nd(); bs[o]+=1; auto bx=whole<A,T>(c,bs,0); A<T> q2=w.a.decouple(); c.check(vp::throws([&]{ q2.append((ind_t)dim,bx.a); }),"append-wrong-shape-accepted"); expect<A,T>(c,q2,w.sh,v,"failed-append-altered"); }
}
template<template<class> class A,class T> static void reductions(vp::Case& c){
  START(false); auto v=w.vals(); size_t dim=c.draw(w.nd()); c.note("dim",dim); auto os=w.sh; os[dim]=1; std::vector<T> su,pr,mi,ma;
  for(auto s: subs(os)){ T a=0,p=1,lo=std::numeric_limits<T>::max(),hi=std::numeric_limits<T>::lowest(); for(ind_t k=0;k<w.sh[dim];++k){ s[dim]=k; T x=v[lin(w.sh,s)]; a=(T)(a+x); p=(T)(p*x); lo=std::min(lo,x); hi=std::max(hi,x);} su.push_back(a); pr.push_back(p); mi.push_back(lo); ma.push_back(hi); }
  ind_t D=(ind_t)dim; expect<A,T>(c,w.a.sum(D),os,su,"sum",w.how); expect<A,T>(c,w.a.prod(D),os,pr,"prod",w.how); expect<A,T>(c,w.a.min(D),os,mi,"min",w.how); expect<A,T>(c,w.a.max(D),os,ma,"max",w.how);
#ifdef TWO_D
  T ts=0,tp=1; for(auto x:v) ts=(T)(ts+x); bool small=true; { double q=1; for(auto x:v){ q*=(double)x; if(std::abs(q)>1e6) small=false; } } if(small) for(auto x:v) tp=(T)(tp*x);
  c.check(w.a.sum()==ts,"sum-all",[&]{return "sum of "+w.how+" is "+vp::str(w.a.sum())+" expected "+vp::str(ts);}); if(small) c.check(w.a.prod()==tp,"prod-all",[&]{return "product is "+vp::str(w.a.prod())+" expected "+vp::str(tp);});
#endif
  std::vector<int> r,f,ce; for(auto x:v){ r.push_back((int)std::round((double)x)); f.push_back((int)std::floor((double)x)); ce.push_back((int)std::ceil((double)x)); } expect<A,int>(c,w.a.round(),w.sh,r,"round",w.how); expect<A,int>(c,w.a.floor(),w.sh,f,"floor",w.how); expect<A,int>(c,w.a.ceil(),w.sh,ce,"ceil",w.how);
  std::vector<T> ng; for(auto x:v) ng.push_back((T)-x); expect<A,T>(c,w.a.operator-(),w.sh,ng,"negate",w.how); same(c,w,"reduction-altered");
}
template<template<class> class A,class T> static void queries(vp::Case& c){
  START(true); auto v=w.vals(); auto lo=linear_order(w); size_t n=v.size(); T val= (n&&c.p(70))? v[c.draw(n)] : value<T>(c); c.note("value",val);
  size_t lim=c.p(50)?0:c.draw(n+3); size_t m=(lim>0&&lim<n)?lim:n; c.note("first n",lim); ind_t L=(ind_t)lim;
  auto X=[&](size_t l){ return v[lo[l]]; };
  bool all=true,any=false; size_t cnt=0,fi=m,la=m; for(size_t l=0;l<m;++l){ bool t=X(l)!=T(0); all&=t; any|=t; if(t){ if(fi==m) fi=l; la=l; ++cnt; } }
  c.check(w.a.all(L)==all,"all",w.how); c.check(w.a.any(L)==any,"any",w.how); c.check(w.a.count(L)==cnt,"count",w.how); c.check(w.a.first(L)==fi,"first",[&]{return w.how+": first() "+std::to_string(w.a.first(L))+" expected "+std::to_string(fi);}); c.check(w.a.last(L)==la,"last",w.how);
  all=true;any=false;cnt=0;fi=la=m; for(size_t l=0;l<m;++l){ bool t=X(l)==val; all&=t; any|=t; if(t){ if(fi==m)fi=l; la=l; ++cnt; } }
  c.check(w.a.all(val,L)==all,"all-value",w.how); c.check(w.a.any(val,L)==any,"any-value",w.how); c.check(w.a.count(val,L)==cnt,"count-value",w.how); c.check(w.a.first(val,L)==fi,"first-value",w.how); c.check(w.a.last(val,L)==la,"last-value",w.how);
  // comparisons
  static const cmp CS[]={cmp::lt,cmp::gt,cmp::le,cmp::ge,cmp::eq,cmp::nle,cmp::nge,cmp::neq}; cmp e=CS[c.draw(8)]; c.note("comparison",brille::to_string(e));
  auto T1=[&](T a,T b){ switch(e){ case cmp::lt: case cmp::nge: return a<b; case cmp::gt: case cmp::nle: return a>b; case cmp::le: return a<=b; case cmp::ge: return a>=b; case cmp::eq: return a==b; default: return a!=b; } };
  all=true;any=false;cnt=0;fi=la=n; std::vector<bool> is(n); for(size_t l=0;l<n;++l){ bool t=T1(X(l),val); is[lo[l]]=t; all&=t; any|=t; if(t){ if(fi==n)fi=l; la=l; ++cnt; } }
  c.check(w.a.all(e,val)==all,"all-cmp",w.how); c.check(w.a.any(e,val)==any,"any-cmp",w.how); c.check(w.a.count(e,val)==cnt,"count-cmp",w.how); c.check(w.a.first(e,val)==fi,"first-cmp",w.how); c.check(w.a.last(e,val)==la,"last-cmp",w.how);
  { bool le=true,ge=true; for(auto x:v){ le&=x<=val; ge&=x>=val; } c.check(w.a.all(cmp::le_ge,val)==(le||ge),"all-le_ge",w.how); }
  auto b=w.a.is(e,val); expect<A,bool>(c,b,w.sh,is,"is-value",w.how);
  auto fd=w.a.find(e,val); std::set<size_t> want,got; for(size_t k=0;k<n;++k) if(is[k]) want.insert(k); for(auto l: fd){ c.check(l<n,"find-range"); got.insert(lo[l]); } c.check(got==want&&fd.size()==want.size()&&std::is_sorted(fd.begin(),fd.end()),"find",w.how);
  if(n){ // elementwise comparison, with a singleton first dimension broadcast
    auto os=w.sh; if(c.p(40)) os[0]=1; auto o=gen_array<A,T>(c,os); if(c.p(50)) for(size_t k=0;k<o.n();++k){ T x=v[k]; auto S=SH(subs(os)[k]); o.a[S]=x; o.at(k)=x; }
    note_arr(c,"other",o); std::vector<bool> ie; bool alleq=true; size_t r=w.rowlen(); for(size_t k=0;k<n;++k){ T y= os[0]==1? o.at(k%r) : o.at(k); ie.push_back(T1(v[k],y)); alleq&=v[k]==y; } expect<A,bool>(c,w.a.is(e,o.a),w.sh,ie,"is-array",w.how+" vs "+o.how); c.check(w.a.is(o.a)==alleq,"is-equal",w.how); }
#ifndef TWO_D
  if(n&&w.nd()==2){ size_t r=w.sh[1]; std::vector<T> row; size_t from=c.draw(w.sh[0]); for(size_t k=0;k<r;++k) row.push_back(c.p(70)?v[from*r+k]:value<T>(c)); std::vector<bool> want,got=w.a.is(e,row); for(size_t q=0;q<w.sh[0];++q){ bool an=e==cmp::nle||e==cmp::nge||e==cmp::neq, t=!an; for(size_t k=0;k<r;++k){ bool x=T1(v[q*r+k],row[k]); if(an) t|=x; else t&=x; } want.push_back(t); } c.check(got==want,"is-row",w.how); }
#endif
  { auto bs=w.sh; if(prod(bs)){ bs[c.draw(bs.size())]+=2; bool same1=true; for(size_t d=0;d<bs.size();++d) same1&= bs[d]==1||bs[d]==w.sh[d]; if(!same1){ auto bx=whole<A,T>(c,bs,0); c.check(vp::throws([&]{ (void)w.a.is(e,bx.a); }),"is-wrong-shape-accepted"); } } }
  if(n&&w.sh[0]>0){ ind_t i=(ind_t)c.draw(w.sh[0]), j=(ind_t)c.draw(w.sh[0]); size_t r=w.rowlen(); T k=(T)c.i(1,3); bool pl=true,mi=true,ti=true; for(size_t q=0;q<r;++q){ T x=v[i*r+q],y=v[j*r+q]; pl&=x==(T)(y+k); mi&=x==(T)(y-k); ti&=x==(T)(y*k);} c.check(w.a.match(i,j,ops::plus,k)==pl,"match-plus",w.how); c.check(w.a.match(i,j,ops::minus,k)==mi,"match-minus",w.how); c.check(w.a.match(i,j,ops::times,k)==ti,"match-times",w.how); bool same0=true; for(size_t q=0;q<r;++q) same0&=v[i*r+q]==v[j*r+q]; c.check(w.a.match(i,j)==same0,"match",w.how); c.check(w.a.match(i,j,ops::rdiv,T(1))==same0,"match-rdiv",w.how); }
  if(w.nd()==2&&w.sh[1]>0){ size_t r=w.rowlen(); std::vector<bool> u; std::vector<ind_t> ui; std::vector<T> uv; size_t uc=0; for(ind_t i=0;i<w.sh[0];++i){ ind_t f=i; for(ind_t j=0;j<i;++j) if(std::equal(v.begin()+i*r,v.begin()+(i+1)*r,v.begin()+j*r)){ f=j; break; } u.push_back(f==i); ui.push_back(f); if(f==i){ uv.insert(uv.end(),v.begin()+i*r,v.begin()+(i+1)*r); ++uc; } }
    c.check(w.a.is_unique()==u,"is_unique",w.how); c.check(w.a.unique_idx()==ui,"unique_idx",[&]{return w.how+": "+vp::str(w.a.unique_idx())+" expected "+vp::str(ui);}); auto us=w.sh; us[0]=(ind_t)uc; expect<A,T>(c,w.a.unique(),us,uv,"unique",w.how);
    if(w.sh[0]){ ind_t i=(ind_t)c.draw(w.sh[0]), j=(ind_t)c.draw(w.sh[0]); T d=0; for(size_t q=0;q<r;++q) d=(T)(d+v[i*r+q]*v[j*r+q]); c.check(w.a.dot(i,j)==d,"dot-rows",w.how); if constexpr(std::is_floating_point_v<T>){ T s=0; for(size_t q=0;q<r;++q) s+=v[i*r+q]*v[i*r+q]; c.check(std::abs(w.a.norm(i)-std::sqrt(s))<=1e-5*(1+std::sqrt(s)),"norm-row",w.how); } 
      if(r==3){ static const std::array<int,9> R[]={{0,-1,0,1,0,0,0,0,1},{0,0,1,1,0,0,0,1,0},{-1,0,0,0,-1,0,0,0,1},{0,-1,0,1,-1,0,0,0,1}}; auto M=R[c.draw(4)]; int order=(int)c.i(-4,4); auto rot=[&](std::array<T,3> x){ std::array<T,3> y{0,0,0}; for(int p=0;p<3;++p)for(int q=0;q<3;++q) y[p]=(T)(y[p]+M[3*p+q]*x[q]); return y; }; std::array<T,3> x{v[j*3],v[j*3+1],v[j*3+2]}, t{v[i*3],v[i*3+1],v[i*3+2]}; bool want=false; if(order<0){ for(int o=0;o<=-order;++o){ if(x==t) want=true; x=rot(x);} } else { for(int o=0;o<order;++o) x=rot(x); want=x==t; } c.note("order",order); c.check(w.a.match(i,j,M,order)==want,"match-rotation",w.how); } } }
  same(c,w,"query-altered");
}
template<class T,class R,class F> static auto doop(int op,T a,R b,F){ using S=std::common_type_t<T,R>; return (S)0; }
template<template<class> class A,class T,class R> static void arith(vp::Case& c){
  using S=std::common_type_t<T,R>; std::vector<ind_t> s0=randshape(c,ndim(c),true,4), s1=s0, so=s0; bool ok=true; for(size_t d=0;d<s0.size();++d){ int k=(int)c.draw(6); if(k==0) s1[d]=1; if(k==1){ s0[d]=1; so[d]=s1[d]; } if(k==2&&c.p(15)){ s1[d]=s0[d]+1; if(s0[d]>1) ok=false; else so[d]=s0[d]==1?s1[d]:s0[d]; } else so[d]=s0[d]==1?s1[d]:s0[d]; }
  auto a=gen_array<A,T>(c,s0); auto b=gen_array<A,R>(c,s1); note_arr(c,"a",a); note_arr(c,"b",b); int op=(int)c.draw(4); const char* nm[]={"+","-","*","/"}; c.note("op",nm[op]); if((weird(a)||weird(b))&&prod(so)>1) c.nontrivial();
  if(op==3) for(size_t k=0;k<b.n();++k) if(b.at(k)==R(0)){ auto S1=SH(subs(s1)[k]); b.a[S1]=R(2); b.at(k)=R(2); }
  auto run=[&]{ switch(op){ case 0: return A<S>(a.a+b.a); case 1: return A<S>(a.a-b.a); case 2: return A<S>(a.a*b.a); default: return A<S>(a.a/b.a);} };
  auto f=[&](auto x,auto y){ switch(op){ case 0: return (S)(x+y); case 1: return (S)(x-y); case 2: return (S)(x*y); default: return (S)(x/y);} };
  if(!ok){ c.label("refused"); c.check(vp::throws([&]{ (void)run(); }),"incompatible-shapes-accepted"); bool in=vp::throws([&]{ a.a+=b.a; }); c.check(in,"incompatible-inplace-accepted"); same(c,a,"failed-op-altered"); return; }
  std::vector<S> e; for(auto& s: subs(so)){ auto p=s,q=s; for(size_t d=0;d<s.size();++d){ if(s0[d]==1)p[d]=0; if(s1[d]==1)q[d]=0; } e.push_back(f(a.at(lin(s0,p)),b.at(lin(s1,q)))); }
  expect<A,S>(c,run(),so,e,"array-op",a.how+" and "+b.how); same(c,a,"op-altered-first"); same(c,b,"op-altered-second");
  // in place
  if(so==s0){ std::vector<T> ie; for(auto& s: subs(so)){ auto q=s; for(size_t d=0;d<s.size();++d) if(s1[d]==1)q[d]=0; T x=a.at(lin(s0,s)); R y=b.at(lin(s1,q)); switch(op){ case 0: x+=y; break; case 1: x-=y; break; case 2: x*=y; break; default: x/=y; } ie.push_back(x); }
    switch(op){ case 0: a.a+=b.a; break; case 1: a.a-=b.a; break; case 2: a.a*=b.a; break; default: a.a/=b.a; } for(size_t k=0;k<ie.size();++k) a.at(k)=ie[k]; same(c,a,"inplace-op",a.how+" with "+b.how); same(c,b,"inplace-op-altered-operand"); }
  else { c.check(vp::throws([&]{ switch(op){ case 0: a.a+=b.a; break; case 1: a.a-=b.a; break; case 2: a.a*=b.a; break; default: a.a/=b.a; } }),"enlarging-inplace-accepted"); same(c,a,"failed-op-altered"); }
  // scalars in place
  T k=(T)c.i(1,4); int o2=(int)c.draw(4); for(size_t q=0;q<a.n();++q){ T& x=a.at(q); switch(o2){ case 0: x+=k; break; case 1: x-=k; break; case 2: x*=k; break; default: x/=k; } } switch(o2){ case 0: a.a+=k; break; case 1: a.a-=k; break; case 2: a.a*=k; break; default: a.a/=k; } same(c,a,"scalar-inplace",a.how);
}
// a history of operations over a pool of arrays, some of which alias
template<template<class> class A,class T> static void history(vp::Case& c){
  std::vector<W<A,T>> pool; auto sh=randshape(c,ndim(c),false,4); int steps=(int)c.i(4,c.thorough?30:14); std::string log;
  auto add=[&](W<A,T> w){ if(pool.size()>=6) pool.erase(pool.begin()); pool.push_back(std::move(w)); }; add(gen_array<A,T>(c,sh));
  for(int st=0;st<steps;++st){ size_t x=c.draw(pool.size()); auto& w=pool[x]; size_t r=w.rowlen(); int op=(int)c.draw(12); log+=std::to_string(op)+"@"+std::to_string(x)+" "; if(c.describe) c.note("step "+std::to_string(st),std::to_string(op)+" on array "+std::to_string(x)+" ("+w.how+")");
    switch(op){
    case 0: add(gen_array<A,T>(c,randshape(c,ndim(c),false,4))); break;
    case 1: { ind_t i=(ind_t)c.draw(w.sh[0]), j=(ind_t)c.i(i+1,w.sh[0]); auto v=view_ij<A,T>(w,i,j); v.a.make_mutable(); add(v); break; }
    case 2: { std::vector<ind_t> o; for(auto s:w.sh)o.push_back((ind_t)c.draw(s)); auto v=view_off<A,T>(w,o); v.a.make_mutable(); add(v); break; }
    case 3: { W<A,T> v=w; v.how+=" copy"; add(v); break; }
    case 4: case 5: { W<A,T> v; v.sh=w.sh; v.how="independent copy"; v.mem=std::make_shared<Mem<T>>(); v.mem->v=w.vals(); for(size_t k=0;k<w.n();++k)v.pos.push_back(k); if(op==4){ A<T> hold(w.a); v.a=w.a.decouple(); } else { std::vector<ind_t> ix; for(ind_t k=0;k<w.sh[0];++k) ix.push_back(k); v.a=w.a.extract(ix);} add(v); break; }
    case 6: { size_t q=c.draw(w.n()); auto S=SH(subs(w.sh)[q]); T nv=value<T>(c); w.a[S]=nv; w.at(q)=nv; break; }
    case 7: { T k=(T)c.i(1,3); if(c.b()){ w.a+=k; for(size_t q=0;q<w.n();++q)w.at(q)=(T)(w.at(q)+k);} else { w.a-=k; for(size_t q=0;q<w.n();++q)w.at(q)=(T)(w.at(q)-k);} break; }
    case 8: { ind_t i=(ind_t)c.draw(w.sh[0]); std::vector<T> nv; for(size_t k=0;k<r;++k){ nv.push_back(value<T>(c)); w.at(i*r+k)=nv[k]; } w.a.set(i,nv); break; }
    case 9: { ind_t a=(ind_t)c.draw(w.sh[0]), b=(ind_t)c.draw(w.sh[0]); w.a.swap(a,b); for(size_t k=0;k<r;++k) std::swap(w.at(a*r+k),w.at(b*r+k)); break; }
    case 10: { // append other rows to an own copy of this one: other handles keep the old contents
        size_t y=c.draw(pool.size()); auto es=pool[y].sh; bool ok=es.size()==w.sh.size(); for(size_t d=1;ok&&d<es.size();++d) ok=es[d]==w.sh[d]; if(!ok||w.n()+pool[y].n()>200) break; A<T> src(pool[y].a); W<A,T> v; v.sh=w.sh; v.sh[0]+=es[0]; v.mem=std::make_shared<Mem<T>>(); v.mem->v=w.vals(); for(auto q: pool[y].vals()) v.mem->v.push_back(q); for(size_t k=0;k<v.mem->v.size();++k)v.pos.push_back(k); v.how="appended"; v.a=w.a.decouple(); if(v.a.raw_shift()>0) break; v.a.append(0,src); add(v); break; }
    default: { size_t y=c.draw(pool.size()); pool[y]=W<A,T>(w); } }
    for(auto& q: pool) same(c,q,"history",log);
  }
  if(pool.size()>2) c.nontrivial();
}
VP_PROP(access,30000,1000000,20){ TYPES3(element_access) }
VP_PROP(view_chains,30000,1000000,20){ TYPES3(views) }
VP_PROP(copying,30000,1000000,20){ TYPES3(copies) }
VP_PROP(extracting,30000,1000000,20){ TYPES3(extraction) }
VP_PROP(set_swap_permute,30000,1000000,20){ TYPES3(setting) }
VP_PROP(resize_append,30000,1000000,20){ TYPES3(resizing) }
VP_PROP(reduce,30000,1000000,20){ TYPES3(reductions) }
VP_PROP(query,30000,1000000,20){ TYPES3(queries) }
VP_PROP(arithmetic,30000,1000000,20){ switch(c.draw(4)){ case 0: arith<AR,double,double>(c); break; case 1: arith<AR,int,int>(c); break; case 2: arith<AR,double,int>(c); break; default: arith<AR,int,double>(c);} }
VP_PROP(histories,15000,400000,30){ TYPES3(history) }
