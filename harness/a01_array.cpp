#define AR brille::Array
#include "a12_arrays.hpp"
// N-d <-> 2-d conversion
template<class T> static void convert2(vp::Case& c){
  auto sh=randshape(c,(size_t)c.i(1,4)); auto w=gen_array<brille::Array,T>(c,sh); note_arr(c,"array",w); if(weird(w)&&w.n()>1) c.nontrivial();
  brille::Array2<T> t(w.a); std::vector<ind_t> s2{w.sh[0],(ind_t)w.rowlen()}; expect<brille::Array2,T>(c,t,s2,w.vals(),"flatten",w.how);
  auto x=gen_array<brille::Array2,T>(c,s2); note_arr(c,"flat",x); brille::Array<T> n(x.a,w.sh); expect<brille::Array,T>(c,n,w.sh,x.vals(),"unflatten",x.how); same(c,x,"unflatten-altered"); same(c,w,"flatten-altered");
  auto v=w.vals(); auto f=brille::Array<T>::from_std(v); expect<brille::Array,T>(c,f,{(ind_t)v.size()},v,"from_std");
}
VP_PROP(flatten_unflatten,30000,1000000,20){ if(c.b()) convert2<double>(c); else convert2<int>(c); }
VP_MAIN
