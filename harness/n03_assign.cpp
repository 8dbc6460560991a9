// N03: assignment solvers against brute force (small) and an optimality certificate (large)
#include "vp.hpp"
#include <tuple>
#include <forward_list>
#include <cassert>
#include "munkres.hpp"
#include "lapjv.hpp"
#include "smp.hpp"
#include "permutation.hpp"
using namespace brille;
using ld=long double;
// independent optimum: shortest augmenting paths with potentials in long double
static ld optimum(const std::vector<ld>& c,size_t n){
  std::vector<ld> u(n+1,0),v(n+1,0); std::vector<size_t> p(n+1,0),way(n+1,0);
  for(size_t i=1;i<=n;++i){ p[0]=i; size_t j0=0; std::vector<ld> minv(n+1,std::numeric_limits<ld>::max()); std::vector<char> used(n+1,0);
    do{ used[j0]=1; size_t i0=p[j0],j1=0; ld delta=std::numeric_limits<ld>::max();
      for(size_t j=1;j<=n;++j) if(!used[j]){ ld cur=c[(i0-1)*n+j-1]-u[i0]-v[j]; if(cur<minv[j]){ minv[j]=cur; way[j]=j0; } if(minv[j]<delta){ delta=minv[j]; j1=j; } }
      for(size_t j=0;j<=n;++j) if(used[j]){ u[p[j]]+=delta; v[j]-=delta; } else minv[j]-=delta; j0=j1; }while(p[j0]!=0);
    do{ size_t j1=way[j0]; p[j0]=p[j1]; j0=j1; }while(j0); }
  ld s=0; for(size_t j=1;j<=n;++j) s+=c[(p[j]-1)*n+j-1]; return s; }
static ld brute(const std::vector<ld>& c,size_t n){ std::vector<ld> f(1u<<n,std::numeric_limits<ld>::max()); f[0]=0; for(size_t m=0;m<(1u<<n);++m){ size_t r=__builtin_popcount(m); if(r==n) continue; for(size_t j=0;j<n;++j) if(!(m>>j&1)) f[m|1u<<j]=std::min(f[m|1u<<j],f[m]+c[r*n+j]); } return f[(1u<<n)-1]; }
template<class T> static std::vector<T> costs(vp::Case& c,size_t n){
  std::vector<T> m(n*n); int kind=(int)c.draw(8); double scale=1; if constexpr(std::is_floating_point_v<T>){ scale=c.pick({1.0,1.0,1e-9,1e6,1e-300,1e12}); if(std::is_same_v<T,float>&&scale==1e-300) scale=1e-30; }
  long lim=c.pick({2L,5L,20L,1000L}); 
  for(size_t k=0;k<n*n;++k){ double x=0; switch(kind){
    case 0: x=(double)c.draw(lim+1); break; case 1: x=(double)c.si(lim); break; case 2: x=c.p(70)?0:(double)c.draw(lim); break; case 3: x=(double)((k/n)*(k%n)%7); break;
    case 4: x=-(double)c.draw(lim); break; case 5: x= std::is_floating_point_v<T>? c.real(0,10):(double)c.draw(50); break; case 6: x=c.p(20)? (double)lim*1000: (double)c.draw(3); break; default: x= std::is_floating_point_v<T>? c.sreal(3.0)*(c.p(10)?1e5:1): (double)c.draw(100000)-50000; } m[k]=(T)(x*scale); }
  c.label("kind"+std::to_string(kind)); return m; }
template<class T> static ld tolof(const std::vector<T>& m,size_t n){ if constexpr(!std::is_floating_point_v<T>) return 0; else { ld mx=0; for(T x:m) mx=std::max(mx,(ld)std::abs(x)); return mx*(ld)n*64*std::numeric_limits<T>::epsilon(); } }
template<class T> static std::vector<ld> wide(const std::vector<T>& m){ return std::vector<ld>(m.begin(),m.end()); }
template<class T,class R> static ld total(vp::Case& c,const std::vector<T>& m,size_t n,const std::vector<R>& row,const char* who){
  std::vector<char> seen(n,0); ld s=0; for(size_t i=0;i<n;++i){ c.check((long long)row[i]>=0&&(size_t)row[i]<n&&!seen[(size_t)row[i]],who,[&]{return std::string("not a bijection: ")+vp::str(row);}); seen[(size_t)row[i]]=1; s+=(ld)m[i*n+(size_t)row[i]]; } return s; }
#ifdef N03_SIMD
static size_t dim(vp::Case& c){ return c.p(70)? (size_t)c.i(63,90) : (size_t)c.pick({64,72,128,65,71}); }
#else
static size_t dim(vp::Case& c){ int k=(int)c.draw(10); return k<6? (size_t)c.i(1,7): k<9? (size_t)c.i(2,16):(size_t)c.i(10,c.thorough?80:40); }
#endif
template<class T> static ld best(vp::Case& c,const std::vector<T>& m,size_t n){ auto w=wide(m); ld o=optimum(w,n); if(n<=8){ ld b=brute(w,n); if(std::abs(b-o)>1e-12L*(1+std::abs(b))*0+tolof(m,n)) throw vp::Failure{"harness","oracles disagree"}; o=b; } return o; }
template<class T> static void show(vp::Case& c,const std::vector<T>& m,size_t n){ c.note("n",n); c.note("cost",m); if(n>2) for(size_t k=1;k<m.size();++k) if(m[k]!=m[0]){ c.nontrivial(); break; } }
// the same problem with permuted rows and columns and shifted costs has the permuted, shifted optimum
template<class T> static std::vector<T> variant(vp::Case& c,const std::vector<T>& m,size_t n,ld& shift){
  auto pr=c.perm(n),pc=c.perm(n); std::vector<T> o(n*n); std::vector<T> rs(n),cs(n); shift=0; double s= 0; if constexpr(std::is_floating_point_v<T>) for(T x:m) s=std::max(s,(double)std::abs(x));
  for(size_t i=0;i<n;++i){ if constexpr(std::is_floating_point_v<T>){ rs[i]=(T)(c.si(4)*s/4); cs[i]=(T)(c.si(4)*s/4); } else { rs[i]=(T)c.si(50); cs[i]=(T)c.si(50); } shift+=(ld)rs[i]+(ld)cs[i]; }
  for(size_t i=0;i<n;++i)for(size_t j=0;j<n;++j) o[pr[i]*n+pc[j]]=(T)(m[i*n+j]+rs[i]+cs[j]); return o; }
template<class T> static std::vector<size_t> run_munkres(vp::Case& c,const std::vector<T>& m,size_t n,bool ctor){ std::vector<size_t> out(n,n+7); bool ok; if(ctor){ assignment::Munkres<T> k(n,m); ok=k.get_assignment(out.data()); } else { assignment::Munkres<T> k(n); for(size_t q=0;q<n*n;++q) k.get_cost()[q]=m[q]; if(c.b()){ c.check(k.run_assignment(),"munkres-run"); } ok=k.get_assignment(out.data()); if(c.p(30)){ // the same solver used again for another problem
      std::vector<T> z(n*n); for(size_t q=0;q<n*n;++q) z[q]=(T)((q*7+3)%11); for(size_t q=0;q<n*n;++q) k.get_cost()[q]=z[q]; std::vector<size_t> o2(n,n+7); c.check(k.run_assignment()&&k.get_assignment(o2.data()),"munkres-again"); ld s=total(c,z,n,o2,"munkres-again-bijection"), b=optimum(wide(z),n); c.check(std::abs(s-b)<=tolof(z,n),"munkres-again-optimum",[&]{return "second problem: cost "+vp::str((double)s)+" optimum "+vp::str((double)b);}); } } c.check(ok,"munkres-no-assignment"); return out; }
template<class T> static void munk(vp::Case& c){ size_t n=dim(c); if(n>30) n=30; auto m=costs<T>(c,n); show(c,m,n); bool ctor=c.b(); auto out=run_munkres(c,m,n,ctor); ld s=total(c,m,n,out,"munkres-bijection"),b=best(c,m,n); ld tol=tolof(m,n);
  c.check(std::abs(s-b)<=tol,"munkres-optimum",[&]{return "cost "+vp::str((double)s)+" of "+vp::str(out)+" but the minimum is "+vp::str((double)b);});
  ld sh; auto v=variant(c,m,n,sh); auto o2=run_munkres(c,v,n,ctor); ld s2=total(c,v,n,o2,"munkres-bijection"); ld b2=best(c,v,n); c.check(std::abs(s2-b2)<=tolof(v,n),"munkres-variant",[&]{return "permuted, shifted problem: cost "+vp::str((double)s2)+" minimum "+vp::str((double)b2);}); }
template<class I,class T> static void jv(vp::Case& c){ size_t n=dim(c); auto m=costs<T>(c,n); show(c,m,n); ld b=best(c,m,n), tol=tolof(m,n);
  std::vector<I> row(n,(I)(n+3)),col(n,(I)(n+3)); std::vector<T> u(n,T(0)),v(n,T(0)); T got=assignment::lapjv<I,T>((I)n,m.data(),false,row.data(),col.data(),u.data(),v.data());
  ld s=total(c,m,n,row,"jv-bijection"); c.check(std::abs(s-b)<=tol,"jv-optimum",[&]{return "cost "+vp::str((double)s)+" of "+vp::str(row)+" but the minimum is "+vp::str((double)b);});
  c.check(std::abs((ld)got-s)<=tol,"jv-returned-cost",[&]{return vp::str(got)+" for "+vp::str((double)s);});
  for(size_t i=0;i<n;++i) c.check((size_t)col[(size_t)row[i]]==i,"jv-row-column-inverse",[&]{return "row "+vp::str(row)+" col "+vp::str(col);});
  if(n>1) for(size_t i=0;i<n;++i) for(size_t j=0;j<n;++j){ ld r=(ld)m[i*n+j]-u[i]-v[j]; c.check(r>=-tol,"jv-dual-infeasible",[&]{return "reduced cost "+vp::str((double)r)+" at "+vp::str(i)+","+vp::str(j);}); if((size_t)row[i]==j) c.check(std::abs(r)<=tol,"jv-dual-slack"); }
  ld sh; auto w=variant(c,m,n,sh); std::vector<I> r2(n),c2(n); assignment::lapjv<I,T>((I)n,w.data(),false,r2.data(),c2.data(),u.data(),v.data()); ld s2=total(c,w,n,r2,"jv-bijection"),b2=best(c,w,n); c.check(std::abs(s2-b2)<=tolof(w,n),"jv-variant",[&]{return "permuted, shifted problem: cost "+vp::str((double)s2)+" minimum "+vp::str((double)b2);});
  // the wrappers used for mode sorting
  { std::vector<I> a; c.check(jv_permutation_fill(m,a)&&a==row,"jv-fill-row"); std::vector<I> p,q; c.check(jv_permutation_fill(m,p,q)&&p==row&&q==col,"jv-fill-both"); auto z=jv_permutation<I,T>(m); c.check(z==row,"jv-permutation"); }
}
template<class I,class P> static void stable(vp::Case& c){ size_t n=(size_t)c.i(1,c.thorough?24:12); auto m=costs<P>(c,n); show(c,m,n); std::vector<I> row(n,(I)(n+3)),col(n,(I)(n+3)); assignment::smp<I,P>((I)n,m.data(),row.data(),col.data(),false);
  total(c,m,n,row,"smp-bijection"); for(size_t i=0;i<n;++i) c.check((size_t)col[(size_t)row[i]]==i,"smp-row-column-inverse",[&]{return "row "+vp::str(row)+" col "+vp::str(col);});
  for(size_t i=0;i<n;++i)for(size_t j=0;j<n;++j) c.check(!(m[i*n+j]<m[i*n+row[i]] && m[i*n+j]<m[(size_t)col[j]*n+j]),"smp-blocking-pair",[&]{return "row "+vp::str(i)+" and column "+vp::str(j)+" prefer each other to "+vp::str(row);}); }
#ifndef N03_SIMD
VP_PROP(munkres_int,120000,600000){ munk<int>(c); }
VP_PROP(munkres_double,120000,600000){ if(c.p(20)) munk<float>(c); else munk<double>(c); }
VP_PROP(jonker_volgenant_real,250000,1000000){ switch(c.draw(4)){ case 0: jv<int,double>(c); break; case 1: jv<unsigned,double>(c); break; case 2: jv<size_t,double>(c); break; default: jv<int,float>(c);} }
VP_PROP(jonker_volgenant_int,200000,1000000){ switch(c.draw(3)){ case 0: jv<int,int>(c); break; case 1: jv<unsigned,long>(c); break; default: jv<size_t,int>(c);} }
VP_PROP(stable_matching,600000,1500000){ switch(c.draw(3)){ case 0: stable<size_t,double>(c); break; case 1: stable<unsigned,int>(c); break; default: stable<int,float>(c);} }
VP_PROP(apply_permutations,60000,600000){ size_t n=(size_t)c.i(0,12); auto p=c.perm(n); if(n>2) c.nontrivial(); c.note("permutation",p); std::vector<std::string> o; for(size_t k=0;k<n;++k) o.push_back("object"+std::to_string(k)); auto idx=p; auto a=o; apply_permutation(a.begin(),a.end(),idx.begin()); for(size_t k=0;k<n;++k) c.check(a[k]==o[p[k]],"apply_permutation",[&]{return vp::str(a);}); for(size_t k=0;k<n;++k) c.check(idx[k]==k,"indices-not-ordered");
  std::vector<double> d,e; for(size_t k=0;k<n;++k) d.push_back(0.5+k); e=d; std::vector<int> ip(p.begin(),p.end()); apply_inverse_permutation(e.begin(),e.end(),ip.begin()); for(size_t k=0;k<n;++k) c.check(e[p[k]]==d[k],"apply_inverse_permutation",[&]{return vp::str(e);}); }
#else // the vectorised search for the two smallest reduced costs of rows of 64 or more
VP_PROP(jonker_volgenant_simd_double,1500,40000){ switch(c.draw(3)){ case 0: jv<int,double>(c); break; case 1: jv<unsigned,double>(c); break; default: jv<size_t,double>(c);} }
VP_PROP(jonker_volgenant_simd_float,1500,40000){ if(c.b()) jv<int,float>(c); else jv<unsigned,float>(c); }
#endif
VP_MAIN
