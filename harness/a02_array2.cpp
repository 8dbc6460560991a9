#define AR brille::Array2
#define TWO_D
#include "a12_arrays.hpp"
using brille::Array2;
template<class T> static void rowcmp(vp::Case& c){
  auto sh=randshape(c,2,false,4); auto w=gen_array<Array2,T>(c,sh); note_arr(c,"array",w); if(weird(w)&&w.n()>1) c.nontrivial(); auto v=w.vals(); size_t n=sh[0], m=sh[1];
  if(c.p(60)) for(size_t i=1;i<n;++i) if(c.p(40)) for(size_t k=0;k<m;++k){ size_t j=0; w.a[std::array<ind_t,2>{(ind_t)i,(ind_t)k}]=w.at(j*m+k); w.at(i*m+k)=w.at(j*m+k); } v=w.vals();
  static const cmp CS[]={cmp::lt,cmp::gt,cmp::le,cmp::ge,cmp::eq,cmp::nle,cmp::nge,cmp::neq}; cmp e=CS[c.draw(8)]; c.note("comparison",brille::to_string(e));
  auto one=[&](T a,T b){ switch(e){ case cmp::lt: case cmp::nge: return a<b; case cmp::gt: case cmp::nle: return a>b; case cmp::le: return a<=b; case cmp::ge: return a>=b; case cmp::eq: return a==b; default: return a!=b; } };
  bool anyop= e==cmp::nle||e==cmp::nge||e==cmp::neq;
  auto rowop=[&](const T* a,const T* b){ for(size_t k=0;k<m;++k){ bool t=one(a[k],b[k]); if(anyop&&t) return true; if(!anyop&&!t) return false; } return !anyop; };
  std::vector<ind_t> os{(ind_t)(c.b()?1:n),(ind_t)m}; auto o=gen_array<Array2,T>(c,os); if(c.p(60)) for(size_t k=0;k<o.n();++k){ T x=v[k]; o.a[std::array<ind_t,2>{(ind_t)(k/m),(ind_t)(k%m)}]=x; o.at(k)=x; } note_arr(c,"rows",o); auto ov=o.vals();
  std::vector<bool> want; std::vector<ind_t> fi; for(size_t i=0;i<n;++i){ bool t=rowop(&v[i*m],&ov[os[0]==1?0:i*m]); want.push_back(t); if(t) fi.push_back((ind_t)i);} 
  auto ri=w.a.row_is(e,o.a); c.check(ri.numel()==n,"row_is-size"); for(size_t i=0;i<n;++i) c.check(ri[(ind_t)i]==want[i],"row_is",[&]{return w.how+" / "+o.how+": row "+std::to_string(i);});
  c.check(w.a.find(e,o.a)==fi,"find-rows",w.how); c.check(w.a.count(e,o.a)==fi.size(),"count-rows",w.how); c.check(w.a.first(e,o.a)==(fi.empty()?n:fi.front()),"first-row",w.how); c.check(w.a.last(e,o.a)==(fi.empty()?n:fi.back()),"last-row",w.how);
  std::vector<T> rv(ov.begin(),ov.begin()+m); auto rw=w.a.row_is(e,rv); for(size_t i=0;i<n;++i) c.check(rw[i]==rowop(&v[i*m],rv.data()),"row_is-vector",w.how);
  { auto lo=linear_order(w); std::vector<T> vals; for(size_t k=0;k<n*m;++k) vals.push_back(c.b()? v[lo[k]] : value<T>(c)); auto ei=w.a.each_is(e,vals); c.check(ei.size()==n*m,"each_is-size"); for(size_t k=0;k<n*m;++k) c.check(ei[k]==one(v[lo[k]],vals[k]),"each_is",[&]{return w.how+": element "+std::to_string(k);}); }
  { auto bs=os; bs[1]+=1; auto bx=whole<Array2,T>(c,bs,0); if(bs[1]!=m) c.check(vp::throws([&]{ (void)w.a.row_is(e,bx.a); }),"row_is-wrong-shape-accepted"); }
  // permutations of rows
  auto p=c.perm(n); std::vector<ind_t> ix(p.begin(),p.end()); auto q=w.a.extract(ix); auto pw=gen_array<Array2,T>(c,sh); std::vector<T> pv; for(size_t i=0;i<n;++i) for(size_t k=0;k<m;++k){ pw.a[std::array<ind_t,2>{(ind_t)i,(ind_t)k}]=v[p[i]*m+k]; pw.at(i*m+k)=v[p[i]*m+k]; }
  c.check(w.a.is_permutation(pw.a)&&pw.a.is_permutation(w.a)&&w.a.is_permutation(q),"is_permutation-missed",w.how);
  // change one element: the multiset of rows differs
  { size_t k=c.draw(n*m); T nv=(T)(pw.at(k)+T(20)); pw.a[std::array<ind_t,2>{(ind_t)(k/m),(ind_t)(k%m)}]=nv; pw.at(k)=nv; c.check(!w.a.is_permutation(pw.a)&&!pw.a.is_permutation(w.a),"is_permutation-wrong",w.how); }
  std::set<std::vector<T>> dist; for(size_t i=0;i<n;++i) dist.insert(std::vector<T>(v.begin()+i*m,v.begin()+(i+1)*m)); { auto pvx=w.a.permutation_vector(q); c.check(pvx.size()==n,"permutation_vector-size"); std::set<ind_t> us(pvx.begin(),pvx.end()); c.check(us.size()==n,"permutation_vector-repeats"); for(size_t i=0;i<n;++i) c.check(pvx[i]<n&&std::equal(&v[i*m],&v[i*m]+m,&v[p[pvx[i]]*m]),"permutation_vector",w.how); if(dist.size()<n) c.label("permutation_vector"); }
  // equality operators on stored values
  Array2<T> d=w.a.decouple(); c.check(w.a==d && !(w.a!=d),"equal",w.how); auto z=d.decouple(); Array2<T> other(std::array<ind_t,2>{(ind_t)n,(ind_t)(m+1)}); c.check(w.a!=other,"unequal-shape"); { Array2<T> hold(z); z=z.decouple(); size_t k=c.draw(n*m); z[std::array<ind_t,2>{(ind_t)(k/m),(ind_t)(k%m)}]+=T(1); c.check(w.a!=z && !(w.a==z),"not-equal",w.how); }
}
template<class T> static void rowgeo(vp::Case& c){
  size_t n=(size_t)c.i(1,4), m=c.p(70)?3:(size_t)c.i(1,4); size_t na=c.b()?n:1, nb=c.b()?n:1; 
  // documented to need contiguous row-ordered operands
  auto mk=[&](size_t k){ auto b=whole<Array2,T>(c,{(ind_t)(k+2),(ind_t)m},c.b()?0:2); ind_t o=(ind_t)c.draw(3); auto w=view_ij<Array2,T>(b,o,o+(ind_t)k); return w; }; auto a=mk(na), b=mk(nb); note_arr(c,"a",a); note_arr(c,"b",b); if(n>1&&(na!=nb||na>1)) c.nontrivial(); size_t no=na==1?nb:na;
  auto va=a.vals(), vb=b.vals(); auto A=[&](size_t i,size_t k){ return va[(na==1?0:i)*m+k]; }; auto B=[&](size_t i,size_t k){ return vb[(nb==1?0:i)*m+k]; };
  auto d=dot(a.a,b.a); std::vector<T> ed; for(size_t i=0;i<no;++i){ T s=0; for(size_t k=0;k<m;++k) s=(T)(s+A(i,k)*B(i,k)); ed.push_back(s);} expect<Array2,T>(c,d,{(ind_t)no,1},ed,"dot");
  if(m==3){ auto x=cross(a.a,b.a); std::vector<T> ex; for(size_t i=0;i<no;++i){ ex.push_back((T)(A(i,1)*B(i,2)-A(i,2)*B(i,1))); ex.push_back((T)(A(i,2)*B(i,0)-A(i,0)*B(i,2))); ex.push_back((T)(A(i,0)*B(i,1)-A(i,1)*B(i,0))); } expect<Array2,T>(c,x,{(ind_t)no,3},ex,"cross"); }
  if constexpr(std::is_same_v<T,double>){ auto q=norm(a.a); for(size_t i=0;i<na;++i){ double s=0; for(size_t k=0;k<m;++k) s+=va[i*m+k]*va[i*m+k]; c.close(q[(ind_t)i],std::sqrt(s),1e-12*(1+s),"norm"); } }
  std::vector<T> ab; for(auto x:va) ab.push_back(x<0?(T)-x:x); expect<Array2,T>(c,brille::abs(a.a),{(ind_t)na,(ind_t)m},ab,"abs"); 
  auto g=gen_array<Array2,T>(c,{(ind_t)n,(ind_t)m}); note_arr(c,"g",g); auto gv=g.vals(); std::vector<T> ga; for(auto x:gv) ga.push_back(x<0?(T)-x:x); expect<Array2,T>(c,g.a.abs(),g.sh,ga,"abs-method",g.how); expect<Array2,T>(c,brille::abs(g.a),g.sh,ga,"abs-function",g.how); std::vector<T> pw; for(auto x:gv) pw.push_back((T)(x*x)); expect<Array2,T>(c,g.a^T(2),g.sh,pw,"power",g.how);
  // sum, negation, scalar and std::array operands, concatenation
  std::vector<T> ng; for(auto x:gv) ng.push_back((T)-x); expect<Array2,T>(c,-g.a,g.sh,ng,"negate-function",g.how);
  T k=(T)c.i(1,5); auto map=[&](auto f){ std::vector<T> o; for(auto x:gv) o.push_back((T)f(x)); return o; };
  expect<Array2,T>(c,g.a+k,g.sh,map([&](T x){return x+k;}),"array+scalar",g.how); expect<Array2,T>(c,g.a-k,g.sh,map([&](T x){return x-k;}),"array-scalar",g.how); expect<Array2,T>(c,g.a*k,g.sh,map([&](T x){return x*k;}),"array*scalar",g.how); expect<Array2,T>(c,g.a/k,g.sh,map([&](T x){return x/k;}),"array/scalar",g.how);
  expect<Array2,T>(c,k+g.a,g.sh,map([&](T x){return k+x;}),"scalar+array",g.how); expect<Array2,T>(c,k*g.a,g.sh,map([&](T x){return k*x;}),"scalar*array",g.how); expect<Array2,T>(c,k-g.a,g.sh,map([&](T x){return k-x;}),"scalar-array",g.how); same(c,g,"scalar-op-altered");
  if(m==3){ std::array<T,3> v3{(T)c.i(1,4),(T)c.i(1,4),(T)c.i(1,4)}; auto m3=[&](auto f){ std::vector<T> o; for(size_t q=0;q<gv.size();++q) o.push_back((T)f(gv[q],v3[q%3])); return o; }; expect<Array2,T>(c,g.a+v3,g.sh,m3([](T x,T y){return x+y;}),"array+std",g.how); expect<Array2,T>(c,g.a-v3,g.sh,m3([](T x,T y){return x-y;}),"array-std",g.how); expect<Array2,T>(c,g.a*v3,g.sh,m3([](T x,T y){return x*y;}),"array*std",g.how); expect<Array2,T>(c,g.a/v3,g.sh,m3([](T x,T y){return x/y;}),"array/std",g.how); same(c,g,"std-op-altered"); }
  size_t dim=c.draw(2); auto hs=g.sh; hs[dim]=(ind_t)c.i(0,3); auto h=gen_array<Array2,int>(c,hs); note_arr(c,"h",h); using S=std::common_type_t<T,int>; auto rs=g.sh; rs[dim]+=hs[dim]; std::vector<S> e; for(auto s: subs(rs)){ if(s[dim]<g.sh[dim]) e.push_back((S)gv[lin(g.sh,s)]); else { s[dim]-=g.sh[dim]; e.push_back((S)h.at(lin(hs,s))); } } bool sole=g.a.raw_shift()>0&&!g.keep; if(!sole) expect<Array2,S>(c,cat((ind_t)dim,g.a,h.a),rs,e,"cat",g.how+" + "+h.how); same(c,g,"cat-altered"); same(c,h,"cat-altered");
  if(!sole){ auto t=cat((ind_t)0,g.a,g.a,g.a); c.check(t.size(0)==3*n,"cat3"); for(size_t q=0;q<3*n*m;++q) c.check(t[std::array<ind_t,2>{(ind_t)(q/m),(ind_t)(q%m)}]==gv[q%(n*m)],"cat3",g.how); }
}
VP_PROP(row_comparison,40000,1000000,20){ if(c.b()) rowcmp<double>(c); else rowcmp<int>(c); }
VP_PROP(row_geometry,30000,1000000,20){ if(c.b()) rowgeo<double>(c); else rowgeo<int>(c); }
VP_PROP(from_std_rows,5000,200000,20){ size_t n=c.draw(5); std::vector<std::array<double,3>> v; std::vector<double> f; for(size_t i=0;i<n;++i){ std::array<double,3> r; for(auto&x:r){ x=value<double>(c); f.push_back(x);} v.push_back(r);} if(n) c.nontrivial(); expect<Array2,double>(c,Array2<double>::from_std(v),{(ind_t)n,3},f,"from_std-rows"); expect<Array2,double>(c,Array2<double>::from_std(f),{(ind_t)f.size(),1},f,"from_std"); }
VP_MAIN
