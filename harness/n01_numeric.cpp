// N01: small matrices, vectors, trigonometry and scalar helpers against exact or long-double references
#include "vp.hpp"
#include <numeric>
#include <complex>
#include <cassert>
#include "array_.hpp"
#include "utilities.hpp"
#include "linear_algebra.hpp"
#include "approx_config.cpp"
namespace bu=brille::utils; namespace la=brille::linear_algebra;
using ld=long double; using cld=std::complex<long double>;
template<class T> static constexpr ld EPS=std::numeric_limits<T>::epsilon();
template<class T> using cx=std::complex<T>;
template<class T> struct is_cx:std::false_type{}; template<class T> struct is_cx<cx<T>>:std::true_type{};
template<class T> static cld wide(const T& x){ if constexpr(is_cx<T>::value) return cld(x.real(),x.imag()); else return cld((ld)x,0); }
template<class T> struct base{using type=T;}; template<class T> struct base<cx<T>>{using type=T;};
// determinant and permanent (of absolute values) by expansion over permutations
static void leibniz(const std::vector<ld>& m,int n,ld& det,ld& per){ std::vector<int> p(n); std::iota(p.begin(),p.end(),0); det=per=0; do{ ld t=1; int s=1; for(int i=0;i<n;++i){ t*=m[i*n+p[i]]; for(int j=i+1;j<n;++j) if(p[j]<p[i]) s=-s; } det+=s*t; per+=std::abs(t); }while(std::next_permutation(p.begin(),p.end())); }
static void cofactor(const std::vector<ld>& m,int n,int r,int q,ld& det,ld& per){ if(n==1){det=per=1;return;} std::vector<ld> s; for(int i=0;i<n;++i) if(i!=r) for(int j=0;j<n;++j) if(j!=q) s.push_back(m[i*n+j]); leibniz(s,n-1,det,per); if((r+q)%2) det=-det; }
template<class T> static std::vector<T> reals(vp::Case& c,size_t n,T scale){ std::vector<T> v(n); int k=(int)c.draw(5); for(auto&x:v){ switch(k){ case 0: x=(T)c.si(5); break; case 1: x=(T)c.sreal(2); break; case 2: x=c.p(60)?T(0):(T)c.sreal(2); break; case 3: x=(T)(c.sreal(2)*std::pow(10.0,(double)c.si(2))); break; default: x=(T)c.si(12)/T(6);} x*=scale; } return v; }
template<class T> static std::vector<T> ints(vp::Case& c,size_t n,int m){ std::vector<T> v(n); bool sparse=c.p(30); for(auto&x:v) x= sparse&&c.p(50)?T(0):(T)c.si(m); return v; }
template<class V> static std::vector<ld> widev(const V& v){ std::vector<ld> o; for(auto&x:v)o.push_back((ld)x); return o; }
template<class V> static void interesting(vp::Case& c,const V& v){ size_t nz=0; for(auto&x:v) if(x!=decltype(x+x)(0)) ++nz; if(nz>=2) c.nontrivial(); }
template<class T> static void eq(vp::Case& c,const std::vector<T>& a,const std::vector<T>& b,const char* tag){ c.check(a==b,tag,[&]{return vp::str(a)+" expected "+vp::str(b);}); }

template<class T,int N> static void int_matrix(vp::Case& c){
  auto m=ints<T>(c,N*N,9), k=ints<T>(c,N*N,9); bool sing=c.p(25); if(N>1&&sing){ int a=(int)c.draw(N),b=(a+1+(int)c.draw(N-1))%N; T f=(T)c.si(2); for(int j=0;j<N;++j) m[a*N+j]=f*m[b*N+j]; }
  c.note("N",N); c.note("M",m); c.note("K",k); interesting(c,m); auto w=widev(m); ld det,per; leibniz(w,N,det,per);
  T d=bu::matrix_determinant(m.data(),N); c.check((ld)d==det,"int-determinant",[&]{return vp::str(d)+" expected "+vp::str((double)det);});
  std::vector<T> adj(N*N,T(77)),o(N*N,T(77)),o2(N*N,T(77)),e(N*N); bu::matrix_adjoint(adj.data(),m.data(),N);
  for(int i=0;i<N;++i)for(int j=0;j<N;++j){ ld cd,cp; cofactor(w,N,j,i,cd,cp); e[i*N+j]=(T)cd; } eq(c,adj,e,"int-adjugate");
  // inverse: exact when unimodular, untouched output and false when singular
  std::vector<T> iv(N*N,T(55)); T rd=bu::matrix_determinant_and_inverse(iv.data(),m.data(),T(0),N); c.check((ld)rd==det,"int-determinant-and-inverse");
  if(det==0){ eq(c,iv,std::vector<T>(N*N,T(55)),"int-singular-output-changed"); c.label("singular"); }
  std::vector<T> iv2(N*N,T(55)); bool ok=bu::matrix_inverse(iv2.data(),m.data(),T(0),N); c.check(ok==(det!=0),"int-inverse-reported"); eq(c,iv2,iv,"int-inverse-same");
  // unimodular matrix from elementary operations
  std::vector<T> u(N*N,T(0)); for(int i=0;i<N;++i)u[i*N+i]=c.b()?T(1):T(-1); if(N>1) for(int q=0;q<(int)c.i(0,4);++q){ int a=(int)c.draw(N),b=(a+1+(int)c.draw(N-1))%N; T f=(T)c.si(2); for(int j=0;j<N;++j) u[a*N+j]+=f*u[b*N+j]; if(c.p(30)) for(int j=0;j<N;++j) std::swap(u[a*N+j],u[b*N+j]); }
  c.note("U",u); std::vector<T> ui(N*N,T(3)); c.check(bu::matrix_inverse(ui.data(),u.data(),T(0),N),"unimodular-inverse"); auto mul=[&](const std::vector<T>&a,const std::vector<T>&b){ std::vector<T> r(N*N,T(0)); for(int i=0;i<N;++i)for(int j=0;j<N;++j)for(int q=0;q<N;++q) r[i*N+j]+=a[i*N+q]*b[q*N+j]; return r; };
  std::vector<T> I(N*N,T(0)); for(int i=0;i<N;++i)I[i*N+i]=1; eq(c,mul(u,ui),I,"unimodular-inverse-right"); eq(c,mul(ui,u),I,"unimodular-inverse-left");
  std::vector<T> sm(N*N,T(9)); c.check((bu::similar_matrix<T,N>(sm.data(),m.data(),u.data(),T(0))),"similar-reported"); eq(c,sm,mul(ui,mul(m,u)),"similar-matrix"); if(det==0){ std::vector<T> s2(N*N,T(9)); c.check(!(bu::similar_matrix<T,N>(s2.data(),k.data(),m.data(),T(0))),"similar-singular-reported"); }
  // products, transposes, traces
  bu::multiply_matrix_matrix<T,T,T,N>(o.data(),m.data(),k.data()); eq(c,o,mul(m,k),"matrix-matrix"); bu::mul_mat_mat(o2.data(),(size_t)N,m.data(),k.data()); eq(c,o2,o,"mul_mat_mat");
  std::vector<T> t(N*N); for(int i=0;i<N;++i)for(int j=0;j<N;++j)t[j*N+i]=m[i*N+j]; bu::matrix_transpose<T,N>(o.data(),m.data()); eq(c,o,t,"transpose"); o=m; bu::matrix_transpose<T,N>(o.data()); eq(c,o,t,"transpose-in-place");
  bu::matrix_metric<T,N>(o.data(),m.data()); eq(c,o,mul(t,m),"metric"); T tr=0; for(int i=0;i<N;++i)tr+=m[i*N+i]; c.check(bu::trace<T,N>(m.data())==tr,"trace");
  std::vector<T> v(k.begin(),k.begin()+N),vo(N,T(1)),vo2(N,T(1)),ve(N,T(0)); for(int i=0;i<N;++i)for(int j=0;j<N;++j)ve[i]+=m[i*N+j]*v[j]; bu::multiply_matrix_vector<T,T,T,N>(vo.data(),m.data(),v.data()); eq(c,vo,ve,"matrix-vector"); bu::mul_mat_vec(vo2.data(),(size_t)N,m.data(),v.data()); eq(c,vo2,ve,"mul_mat_vec"); vo2=v; bu::mul_mat_vec_inplace((size_t)N,m.data(),vo2.data()); eq(c,vo2,ve,"mul_mat_vec_inplace");
  std::fill(ve.begin(),ve.end(),T(0)); for(int i=0;i<N;++i)for(int j=0;j<N;++j)ve[j]+=m[i*N+j]*v[i]; bu::multiply_vector_matrix<T,T,T,N>(vo.data(),v.data(),m.data()); eq(c,vo,ve,"vector-matrix"); bu::mul_vec_mat(vo2.data(),(size_t)N,v.data(),m.data()); eq(c,vo2,ve,"mul_vec_mat");
  std::vector<T> s(N*N),f(N*N); for(int i=0;i<N*N;++i){s[i]=m[i]+k[i]; f[i]=m[i]-k[i];} bu::add_matrix<T,T,T,N>(o.data(),m.data(),k.data()); eq(c,o,s,"add"); bu::subtract_matrix<T,T,T,N>(o.data(),m.data(),k.data()); eq(c,o,f,"subtract");
  bu::copy_matrix<T,N>(o.data(),m.data()); eq(c,o,m,"copy"); c.check(bu::equal_matrix<T,N>(o.data(),m.data()),"equal-copy"); int q=(int)c.draw(N*N); o[q]+=(T)c.i(1,3); c.check(!bu::equal_matrix<T,N>(o.data(),m.data()),"equal-different",[&]{return "element "+vp::str(q)+" differs";}); c.check(bu::equal_matrix<T,N>(o.data(),m.data(),T(3)),"equal-tolerance");
  c.check((bu::equal_vector<T,N>(v.data(),v.data())),"equal-vector"); std::vector<T> vq=v; int qi=(int)c.draw(N); vq[qi]-=1; c.check(!(bu::equal_vector<T,N>(vq.data(),v.data())),"equal-vector-different");
  T dd=0,nn=0; for(int i=0;i<N;++i){ dd+=v[i]*m[i]; nn+=v[i]*v[i]; } c.check((bu::vector_dot<T,N>(v.data(),m.data()))==dd,"vector-dot"); c.check(bu::vector_norm_squared<T,N>(v.data())==nn,"norm-squared"); c.check((bu::vector_dot<long,T,T>((size_t)N,v.data(),m.data()))==(long)dd,"vector-dot-n");
  // the rectangular forms
  std::vector<T> rt(N*(N+1)),rs=ints<T>(c,N*(N+1),9); bu::array_transpose<T,N,N+1>(rt.data(),rs.data()); for(int i=0;i<N;++i)for(int j=0;j<=N;++j) c.check(rt[j*N+i]==rs[i*(N+1)+j],"array-transpose");
}
template<class T> static void int_any(vp::Case& c){ switch(c.draw(6)){ case 0: int_matrix<T,1>(c); break; case 1: int_matrix<T,2>(c); break; case 2: case 3: int_matrix<T,3>(c); break; case 4: int_matrix<T,4>(c); break; default: int_matrix<T,5>(c);} }
VP_PROP(integer_matrices,150000,2000000){ if(c.b()) int_any<int>(c); else int_any<long>(c); }

template<class T,int N> static void real_matrix(vp::Case& c){
  T scale=c.pick({T(1),T(1),T(1e-3),T(1e3)}); if(std::is_same_v<T,double>&&c.p(20)) scale=c.pick({T(1e-20),T(1e20)}); auto m=reals<T>(c,N*N,scale),k=reals<T>(c,N*N,scale); if(N>1&&c.p(15)){ int a=(int)c.draw(N),b=(a+1+(int)c.draw(N-1))%N; T f=c.b()?T(0):T(2); for(int j=0;j<N;++j) m[a*N+j]=f*m[b*N+j]; }
  c.note("N",N); c.note("M",m); c.note("K",k); interesting(c,m); auto w=widev(m); ld det,per; leibniz(w,N,det,per); ld e=EPS<T>*(4*N*N);
  T d=bu::matrix_determinant(m.data(),N); c.check(std::abs((ld)d-det)<=e*per,"determinant",[&]{return vp::str(d)+" expected "+vp::str((double)det);});
  std::vector<T> adj(N*N); bu::matrix_adjoint(adj.data(),m.data(),N); T tol= c.p(70)?T(0):(T)c.real(0,2)*(T)std::abs(det); std::vector<T> iv(N*N,T(-8)); T rd=bu::matrix_determinant_and_inverse(iv.data(),m.data(),tol,N); c.check(rd==d,"determinant-same"); bool inv=std::abs(d)>tol; std::vector<T> i2(N*N,T(-8)); c.check(bu::matrix_inverse(i2.data(),m.data(),tol,N)==inv,"inverse-reported"); eq(c,i2,iv,"inverse-same"); if(!inv) eq(c,iv,std::vector<T>(N*N,T(-8)),"uninvertible-output-changed");
  for(int i=0;i<N;++i)for(int j=0;j<N;++j){ ld cd,cp; cofactor(w,N,j,i,cd,cp); c.check(std::abs((ld)adj[i*N+j]-cd)<=e*cp,"adjugate",[&]{return vp::str(adj)+" element "+vp::str(i)+","+vp::str(j)+" expected "+vp::str((double)cd);}); if(inv&&std::abs(det)>0.001L*per){ ld x=cd/det; c.check(std::abs((ld)iv[i*N+j]-x)<=e*(cp/std::abs(det)+std::abs(x)*per/std::abs(det))*2,"inverse",[&]{return vp::str(iv)+" element "+vp::str(i)+","+vp::str(j)+" expected "+vp::str((double)x);}); c.label("inverted"); } }
  std::vector<T> o(N*N); auto prod=[&](const std::vector<T>&a,const std::vector<T>&b,int i,int j,ld&s){ ld r=0; s=0; for(int q=0;q<N;++q){ r+=(ld)a[i*N+q]*b[q*N+j]; s+=std::abs((ld)a[i*N+q]*b[q*N+j]); } return r; };
  bu::multiply_matrix_matrix<T,T,T,N>(o.data(),m.data(),k.data()); for(int i=0;i<N;++i)for(int j=0;j<N;++j){ ld s,r=prod(m,k,i,j,s); c.check(std::abs(o[i*N+j]-r)<=e*s,"matrix-matrix"); }
  std::vector<T> t(m); bu::matrix_transpose<T,N>(t.data()); bu::matrix_metric<T,N>(o.data(),m.data()); for(int i=0;i<N;++i)for(int j=0;j<N;++j){ ld s,r=prod(t,m,i,j,s); c.check(std::abs(o[i*N+j]-r)<=e*s,"metric"); c.check(t[i*N+j]==m[j*N+i],"transpose-in-place"); }
  if(inv&&tol==0&&std::abs(det)>0.01L*per){ std::vector<T> sm(N*N); c.check((bu::similar_matrix<T,N>(sm.data(),k.data(),m.data(),T(0))),"similar-reported"); // M S = K M
    ld mx=0; for(auto x:k) mx=std::max(mx,(ld)std::abs(x)); ld mm=0; for(auto x:m) mm=std::max(mm,(ld)std::abs(x)); ld im=0; for(auto x:iv) im=std::max(im,(ld)std::abs(x)); for(int i=0;i<N;++i)for(int j=0;j<N;++j){ ld s,r=prod(k,m,i,j,s), l=prod(m,sm,i,j,s); c.check(std::abs(l-r)<=e*100*mx*mm*(1+mm*im*N*N)*(1+mm*im),"similar-matrix",[&]{return vp::str((double)(l-r));}); } }
  std::array<T,9> a9; if constexpr(N==3){ std::array<T,9> b9; std::copy(m.begin(),m.end(),a9.begin()); std::copy(k.begin(),k.end(),b9.begin()); auto p=la::mul_mat_mat(a9,b9); for(int i=0;i<3;++i)for(int j=0;j<3;++j){ ld s,r=prod(m,k,i,j,s); c.check(std::abs(p[i*3+j]-r)<=e*s,"la-matrix-matrix"); } auto z=la::mat_inverse(a9); if(std::abs(d)>0) for(int i=0;i<9;++i) c.check(!(bu::matrix_inverse(i2.data(),m.data(),T(0),3))||z[i]==i2[i],"la-inverse"); auto tt=brille::transpose(a9); for(int i=0;i<9;++i) c.check(tt[i]==t[i],"la-transpose"); }
}
VP_PROP(real_matrices,150000,2000000){ bool f=c.p(30); switch(c.draw(5)){ case 0: f?real_matrix<float,2>(c):real_matrix<double,2>(c); break; case 1: f?real_matrix<float,4>(c):real_matrix<double,4>(c); break; case 2: real_matrix<double,5>(c); break; default: f?real_matrix<float,3>(c):real_matrix<double,3>(c); } }

// products of any dimensions and mixtures of element types
template<class T> static T any_value(vp::Case& c){ if constexpr(is_cx<T>::value){ using B=typename T::value_type; return T((B)c.si(6),(B)c.si(6)); } else if constexpr(std::is_unsigned_v<T>) return (T)c.draw(7); else return (T)c.si(6); }
template<class T,class R,class S> static void mul(vp::Case& c){ size_t n=(size_t)c.i(1,5),l=(size_t)c.i(c.p(5)?0:1,5),m=(size_t)c.i(1,5); std::vector<R> a(n*l); std::vector<S> b(l*m); for(auto&x:a)x=any_value<R>(c); for(auto&x:b)x=any_value<S>(c); c.note("n,l,m",std::vector<size_t>{n,l,m}); if(l>1&&n*m>1)c.nontrivial(); std::vector<T> o(n*m,any_value<T>(c)); bu::mul_arrays(o.data(),n,l,m,a.data(),b.data()); for(size_t i=0;i<n;++i)for(size_t j=0;j<m;++j){ cld s=0; for(size_t k=0;k<l;++k) s+=wide(a[i*l+k])*wide(b[k*m+j]); c.check(wide(o[i*m+j])==s,"mul_arrays",[&]{return "element "+vp::str(i)+","+vp::str(j);}); }
  if(n==2&&l==3&&m==4){ std::vector<T> q(8); if constexpr(std::is_same_v<T,R>&&std::is_same_v<T,S>){ bu::multiply_arrays<T,R,S,2,3,4>(q.data(),a.data(),b.data()); c.check(q==o,"multiply_arrays"); } } }
VP_PROP(products,300000,3000000){ switch(c.draw(11)){ case 0: mul<int,int,int>(c); break; case 1: mul<double,int,double>(c); break; case 2: mul<double,double,int>(c); break; case 3: mul<cx<double>,double,cx<double>>(c); break; case 4: mul<cx<double>,cx<double>,double>(c); break; case 5: mul<cx<double>,cx<double>,cx<double>>(c); break; case 6: mul<cx<double>,int,cx<double>>(c); break; case 7: mul<cx<float>,cx<float>,int>(c); break; case 8: mul<double,double,double>(c); break; case 9: mul<unsigned,unsigned,unsigned>(c); break; default: mul<float,float,float>(c); } }

// vectors
template<class T> static void vectors(vp::Case& c){
  size_t n=(size_t)c.i(1,9); T sc=c.pick({T(1),T(1),T(1e-4),T(1e4)}); auto a=reals<T>(c,n,sc),b=reals<T>(c,n,sc); int rel=(int)c.draw(6); if(rel==0) for(size_t i=0;i<n;++i) b[i]=a[i]*T(c.b()?2:3); if(rel==1) for(size_t i=0;i<n;++i) b[i]=-a[i]; if(rel==2) std::fill(b.begin(),b.end(),T(0)); if(rel==3&&c.p(30)){ std::fill(a.begin(),a.end(),T(0)); }
  c.note("a",a); c.note("b",b); if(n>1) interesting(c,a); ld e=EPS<T>*(4*n+8); ld ab=0,aa=0,bb=0,abs_=0,dd=0; for(size_t i=0;i<n;++i){ ab+=(ld)a[i]*b[i]; abs_+=std::abs((ld)a[i]*b[i]); aa+=(ld)a[i]*a[i]; bb+=(ld)b[i]*b[i]; dd+=((ld)a[i]-b[i])*((ld)a[i]-b[i]); }
  c.check(std::abs(bu::vector_dot<T,T,T>(n,a.data(),b.data())-ab)<=e*abs_,"vector-dot-n"); c.check(std::abs(bu::vector_product(n,a.data(),b.data())-ab)<=e*abs_,"vector-product-real"); c.check(std::abs(bu::hermitian_product(n,a.data(),b.data())-ab)<=e*abs_,"hermitian-product-real");
  ld dist=std::sqrt(dd); c.check(std::abs(bu::vector_distance(n,a.data(),b.data())-dist)<=e*(dist+std::sqrt(aa)+std::sqrt(bb)),"vector-distance",[&]{return vp::str(bu::vector_distance(n,a.data(),b.data()));});
  ld na=std::sqrt(aa),nb=std::sqrt(bb); ld ct= na>0&&nb>0? ab/(na*nb): (na>0||nb>0)?0:1; for(int h=0;h<2;++h){ T th=h? bu::hermitian_angle(n,a.data(),b.data()): bu::vector_angle(n,a.data(),b.data()); c.check(th>=0&&th<=T(3.14159275),"angle-range"); c.check(std::abs(std::cos((ld)th)-ct)<=e*3,"vector-angle",[&]{return vp::str(th)+" has cosine "+vp::str((double)std::cos((ld)th))+" expected "+vp::str((double)ct);}); }
  // std::vector and std::array forms
  c.check(std::abs(la::dot(a,b)-ab)<=e*abs_,"la-dot"); c.check(std::abs(la::norm(a)-na)<=e*na,"la-norm"); if(n>=3){ std::array<T,3> p{a[0],a[1],a[2]},q{b[0],b[1],b[2]}; ld s=0,ss=0; for(int i=0;i<3;++i){s+=(ld)p[i]*q[i]; ss+=std::abs((ld)p[i]*q[i]);} c.check(std::abs(la::dot(p,q)-s)<=e*ss,"la-dot-array"); ld np=std::sqrt((ld)p[0]*p[0]+(ld)p[1]*p[1]+(ld)p[2]*p[2]); c.check(std::abs(la::norm(p)-np)<=e*np,"la-norm-array"); if(np>0){ auto h=la::hat(p); for(int i=0;i<3;++i) c.check(std::abs(h[i]-p[i]/np)<=e,"hat"); }
    T x[3]; bu::vector_cross(x,p.data(),q.data()); for(int i=0;i<3;++i){ int j=(i+1)%3,k=(i+2)%3; ld r=(ld)p[j]*q[k]-(ld)p[k]*q[j], m=std::abs((ld)p[j]*q[k])+std::abs((ld)p[k]*q[j]); c.check(std::abs(x[i]-r)<=e*m,"cross",[&]{return vp::str(i);}); }
    std::array<int,9> W; for(auto&w:W) w=(int)c.si(2); auto mv=la::mul_mat_vec(W,p), vm=la::mul_vec_mat(p,W); for(int i=0;i<3;++i){ ld r=0,r2=0,m=0,m2=0; for(int j=0;j<3;++j){ r+=(ld)W[3*i+j]*p[j]; m+=std::abs((ld)W[3*i+j]*p[j]); r2+=(ld)W[3*j+i]*p[j]; m2+=std::abs((ld)W[3*j+i]*p[j]); } c.check(std::abs(mv[i]-r)<=e*m,"la-matrix-vector"); c.check(std::abs(vm[i]-r2)<=e*m2,"la-vector-matrix"); }
    std::array<int,9> V; for(auto&w:V) w=(int)c.si(3); auto WV=la::mul_mat_mat(W,V); for(int i=0;i<3;++i)for(int j=0;j<3;++j){ int r=0; for(int k=0;k<3;++k) r+=W[3*i+k]*V[3*k+j]; c.check(WV[3*i+j]==r,"la-integer-product"); } }
  { T y[4]; c.check(vp::throws([&]{ bu::vector_cross<T,T,T,4>(y,y,y); }),"cross-not-3-accepted"); }
  if(n>=9){ ld s=0; for(int i=0;i<9;++i)s+=((ld)a[i]-b[i])*((ld)a[i]-b[i]); c.check(std::abs(bu::frobenius_distance(3u,a.data(),b.data())-std::sqrt(s))<=e*(std::sqrt(s)+na+nb),"frobenius"); }
}
VP_PROP(real_vectors,200000,2000000){ if(c.p(30)) vectors<float>(c); else vectors<double>(c); }
template<class T> static void cvectors(vp::Case& c){
  size_t n=(size_t)c.i(1,9); T sc=c.pick({T(1),T(1e-3),T(1e3)}); auto ar=reals<T>(c,n,sc),ai=reals<T>(c,n,sc),br=reals<T>(c,n,sc),bi=reals<T>(c,n,sc); std::vector<cx<T>> a(n),b(n); int rel=(int)c.draw(6); if(rel==4) std::fill(ai.begin(),ai.end(),T(0)); for(size_t i=0;i<n;++i){a[i]={ar[i],ai[i]}; b[i]={br[i],bi[i]};} if(rel==0){ cx<T> ph=std::polar(T(1),(T)c.real(-3.1,3.1)); for(size_t i=0;i<n;++i) b[i]=a[i]*ph; } if(rel==2) std::fill(b.begin(),b.end(),cx<T>(0)); if(rel==3&&c.p(30)) std::fill(a.begin(),a.end(),cx<T>(0));
  c.note("a",a); c.note("b",b); if(n>1) interesting(c,a); ld e=EPS<T>*(8*n+8); cld h=0; ld m=0,aa=0,bb=0,rd=0,dd=0; for(size_t i=0;i<n;++i){ cld x=wide(a[i]),y=wide(b[i]); h+=std::conj(x)*y; m+=std::abs(x)*std::abs(y); aa+=std::norm(x); bb+=std::norm(y); rd+=x.real()*y.real()+x.imag()*y.imag(); dd+=std::norm(x-y); }
  auto g=bu::hermitian_product(n,a.data(),b.data()); c.check(std::abs(wide(g)-h)<=e*m,"hermitian-product",[&]{return vp::str(g);}); { cld hr=0; for(size_t i=0;i<n;++i) hr+=(ld)ar[i]*wide(b[i]); auto q=bu::hermitian_product(n,ar.data(),b.data()); ld mr=0; for(size_t i=0;i<n;++i) mr+=std::abs((ld)ar[i])*std::abs(wide(b[i])); c.check(std::abs(wide(q)-hr)<=e*mr,"hermitian-product-real-complex"); hr=0; for(size_t i=0;i<n;++i) hr+=std::conj(wide(b[i]))*(ld)ar[i]; q=bu::hermitian_product(n,b.data(),ar.data()); c.check(std::abs(wide(q)-hr)<=e*mr,"hermitian-product-complex-real"); }
  ld na=std::sqrt(aa),nb=std::sqrt(bb); ld he= na>0&&nb>0? std::abs(h)/(na*nb):(na>0||nb>0)?0:1, eu= na>0&&nb>0? rd/(na*nb):(na>0||nb>0)?0:1; T th=bu::hermitian_angle(n,a.data(),b.data()); c.check(th>=0&&th<=T(1.5708),"hermitian-angle-range",[&]{return vp::str(th);}); ld tol=3*e; if(na>0&&nb>0){ /* |h| is a square root of a squared sum */ tol+= he>1e-12L? 0: std::sqrt(e); } c.check(std::abs(std::cos((ld)th)-he)<=tol+e*(na>0&&nb>0? m/(na*nb):0),"hermitian-angle",[&]{return vp::str(th)+" cosine expected "+vp::str((double)he);});
  T ta=bu::euclidean_angle(n,a.data(),b.data()),tb=bu::vector_angle(n,a.data(),b.data()); c.check(ta==tb,"euclidean-vs-vector-angle"); c.check(std::abs(std::cos((ld)ta)-eu)<=3*e,"euclidean-angle",[&]{return vp::str(ta)+" cosine expected "+vp::str((double)eu);});
  ld dist=std::sqrt(dd); c.check(std::abs(bu::vector_distance(n,a.data(),b.data())-dist)<=e*(dist+na+nb),"vector-distance"); if(n>=9){ c.check(std::abs(bu::frobenius_distance(3u,a.data(),b.data())-dist)<=e*(dist+na+nb),"frobenius"); } if(n==4){ c.check(std::abs(bu::frobenius_distance(2u,a.data(),b.data())-dist)<=e*(dist+na+nb),"frobenius"); }
  // phases: <a, phase b> is real and not negative, |phase| = 1
  auto real_after=[&](cx<T> ph,const char* tag){ c.check(std::abs(std::abs(wide(ph))-1)<=8*EPS<T>,tag,"not a phase"); cld r=wide(ph)*h; c.check(std::abs(r.imag())<=e*2*m&&r.real()>=-e*2*m,tag,[&]{return "product with phase is "+vp::str((double)r.real())+","+vp::str((double)r.imag());}); };
  real_after(bu::antiphase(n,a.data(),b.data()),"antiphase-vectors"); std::vector<cx<T>> p(n,cx<T>(5,5)); bu::inplace_antiphase(n,a.data(),b.data(),p.data()); auto ph=bu::antiphase(n,a.data(),b.data()); for(size_t i=0;i<n;++i) c.check(std::abs(wide(p[i])-wide(ph)*wide(b[i]))<=e*std::abs(wide(b[i])),"inplace-antiphase");
  { brille::Array2<cx<T>> A(1u,(unsigned)n),B(1u,(unsigned)n); for(size_t i=0;i<n;++i){ A[i]=a[i]; B[i]=b[i]; } real_after(bu::unsafe_antiphase(A,B),"unsafe-antiphase"); }
  { cld z=wide(a[0]); auto q=bu::antiphase(a[0]); cld r=wide(q)*z; c.check(std::abs(r-cld(std::abs(z),0))<=8*EPS<T>*std::abs(z),"antiphase-scalar",[&]{return vp::str(a[0]);}); c.check(std::abs(bu::magnitude(a[0])-std::abs(z))<=4*EPS<T>*std::abs(z),"magnitude"); ld s=std::norm(wide(a[0])-wide(b[0])); c.check(std::abs(bu::squared_distance(a[0],b[0])-s)<=8*EPS<T>*(std::norm(z)+std::norm(wide(b[0]))),"squared-distance"); c.check(bu::squared_distance(ar[0],br[0])==(ar[0]-br[0])*(ar[0]-br[0])&&bu::magnitude(ar[0])==std::abs(ar[0]),"real-magnitude"); }
  if(n>=6){ std::vector<cx<T>> t(6); bu::complex_conj_array_transpose<T,2,3>(t.data(),a.data()); for(int i=0;i<2;++i)for(int j=0;j<3;++j) c.check(t[j*2+i]==std::conj(a[i*3+j]),"conj-transpose"); }
}
VP_PROP(complex_vectors,150000,1500000){ if(c.p(30)) cvectors<float>(c); else cvectors<double>(c); }

// trigonometry in degrees is exact at multiples of 90 degrees and correct everywhere
template<class T> static void trig(vp::Case& c){
  T x; switch(c.draw(6)){ case 0: x=(T)(90*(long)c.si(40)); break; case 1: x=(T)(15*(long)c.si(60)); break; case 2: x=(T)c.sreal(180); break; case 3: x=(T)c.sreal(1e5); break; case 4: x=(T)(c.si(720)/T(8)); break; default: x=(T)((double)(c.si(1000)*90)*1048576.0); }
  if(c.p(15)) x=std::nextafter(x,c.b()?T(1e30):T(-1e30)); c.note("degrees",x); if(x!=0) c.nontrivial(); ld r=std::fmod((ld)x,360.0L); ld q=std::fmod((ld)x,90.0L); ld rad=r*3.14159265358979323846264338327950288L/180; ld C=std::cos(rad),S=std::sin(rad); ld e=4*EPS<T>; bool exact=q==0; if(exact){ long k=((long)(r/90)%4+4)%4; C=k==0?1:k==2?-1:0; S=k==1?1:k==3?-1:0; e=0; }
  T cd=brille::math::cosd(x),sd=brille::math::sind(x); c.check(std::abs(cd-C)<=e,"cosd",[&]{return vp::str(cd)+" expected "+vp::str((double)C);}); c.check(std::abs(sd-S)<=e,"sind",[&]{return vp::str(sd)+" expected "+vp::str((double)S);}); c.check(brille::math::cosd(-x)==cd,"cosd-even"); c.check(brille::math::sind(-x)==-sd,"sind-odd"); auto [c2,s2]=brille::math::cos_and_sin_d(x); c.check(std::abs(c2-C)<=4*EPS<T>&&std::abs(s2-S)<=4*EPS<T>,"cos_and_sin_d",[&]{return vp::str(c2)+","+vp::str(s2);});
  T k=(T)(15*c.i(0,24)); auto [c3,s3]=brille::math::cos_and_sin_d(k); static const ld h2=std::sqrt(0.5L),h3=std::sqrt(3.0L)/2; ld ex[25]={1,0,h3,h2,0.5L,0,0,0,-0.5L,-h2,-h3,0,-1,0,0,0,0,0,0,0,0,0,0,0,0}, es[25]={0,0,0.5L,h2,h3,0,1,0,h3,h2,0.5L,0,0}; int i=(int)(k/15); if(i<=12&&(i%2==0||i==3||i==9)) c.check(c3==(T)ex[i]&&s3==(T)es[i],"special-angle",[&]{return vp::str(k)+" degrees gives "+vp::str(c3)+" "+vp::str(s3);});
  T a=(T)c.sreal(3.2); if(c.p(40)){ static const ld pp=std::acos(-1.0L); int w=(int)c.draw(5); a=(T)(w==0?0:w==1?pp/3:w==2?pp/2:w==3?2*pp/3:pp); ld xc[5]={1,0.5L,0,-0.5L,-1},xs[5]={0,h3,1,h3,0}; auto [c4,s4]=brille::math::cos_and_sin(a); c.check(c4==(T)xc[w]&&s4==(T)xs[w],"special-radian",[&]{return vp::str(a)+" gives "+vp::str(c4)+" "+vp::str(s4);}); } else { auto [c4,s4]=brille::math::cos_and_sin(a); c.check(std::abs(c4-std::cos((ld)a))<=4*EPS<T>&&std::abs(s4-std::sin((ld)a))<=4*EPS<T>,"cos_and_sin"); }
  ld dr=(ld)x*3.14159265358979323846264338327950288L/180; c.check(std::abs(brille::math::degree_to_radian(x)-dr)<=4*EPS<T>*std::abs(dr)+std::numeric_limits<T>::min(),"degree_to_radian"); T inf=std::numeric_limits<T>::infinity(); c.check(std::isnan(brille::math::cosd(inf))&&std::isnan(brille::math::sind(-inf)),"trig-infinite");
}
VP_PROP(trigonometry,300000,4000000){ if(c.p(30)) trig<float>(c); else trig<double>(c); }

// scalars
template<class U,class S> static void signs(vp::Case& c){ // values near the limits of both types
  using UL=__int128; auto edge=[&](UL lo,UL hi)->UL{ switch(c.draw(5)){ case 0: return lo+(UL)c.draw(3); case 1: return hi-(UL)c.draw(3); case 2: return (UL)std::numeric_limits<S>::max()-1+(UL)c.draw(3); case 3: return (UL)std::numeric_limits<U>::max()-1+(UL)c.draw(3); default: return (UL)c.si(200);} };
  UL u=edge(0,(UL)std::numeric_limits<U>::max()); if(u>=0&&u<=(UL)std::numeric_limits<U>::max()){ bool fits=u<=(UL)std::numeric_limits<S>::max(); S got{}; bool th=vp::throws([&]{ got=bu::u2s<S>((U)u); }); c.note("unsigned",(unsigned long long)u); c.nontrivial(); c.check(th==!fits,"u2s-representable",[&]{return th?"refused":"accepted";}); if(fits) c.check((UL)got==u,"u2s-value"); }
  UL s=edge((UL)std::numeric_limits<S>::min(),(UL)std::numeric_limits<S>::max()); if(s>=(UL)std::numeric_limits<S>::min()&&s<=(UL)std::numeric_limits<S>::max()){ bool fits=s>=0&&s<=(UL)std::numeric_limits<U>::max(); U got{}; bool th=vp::throws([&]{ got=bu::s2u<U>((S)s); }); c.note("signed",(long long)s); c.nontrivial(); c.check(th==!fits,"s2u-representable",[&]{return th?"refused":"accepted";}); if(fits) c.check((UL)got==s,"s2u-value"); } }
VP_PROP(signed_unsigned,300000,3000000){ switch(c.draw(7)){ case 0: signs<unsigned char,signed char>(c); break; case 1: signs<unsigned,int>(c); break; case 2: signs<size_t,long>(c); break; case 3: signs<unsigned,long>(c); break; case 4: signs<size_t,int>(c); break; case 5: signs<unsigned short,int>(c); break; default: signs<unsigned short,signed char>(c);} }
template<class T> static void rounding(vp::Case& c){
  T x; switch(c.draw(5)){ case 0: x=(T)c.si(1000)+T(0.5)*(T)c.si(1); break; case 1: x=(T)c.sreal(100); break; case 2: x=(T)c.sreal(100000); break; case 3: x=(T)c.si(60)/T(12); break; default: x=(T)(c.si(20000))/T(2); } if(c.p(25)) x=std::nextafter(x,c.b()?T(1e9):T(-1e9)); c.note("value",x); if(x!=std::floor(x)) c.nontrivial();
  ld fl=std::floor((ld)x),fr=(ld)x-fl; ld near= fr<0.5L?fl: fr>0.5L?fl+1: x>0?fl+1:fl; int g=bu::my_cast<int>(x); c.check((ld)g==near,"my_cast-rounds",[&]{return vp::str(g)+" expected "+vp::str((double)near);}); c.check(bu::my_cast<T>(x)==x,"my_cast-same-type"); T arr[9]; int out[9]; for(int i=0;i<9;++i) arr[i]=x+(T)i; bu::cast_matrix<int,T,3>(out,arr); for(int i=0;i<9;++i) c.check(out[i]==bu::my_cast<int>(arr[i]),"cast_matrix"); int o3[3]; bu::cast_vector<int,T,3>(o3,arr); c.check(o3[0]==out[0]&&o3[1]==out[1]&&o3[2]==out[2],"cast_vector");
  T m=bu::mod1(x); ld diff=(ld)m-((ld)x-fl); ld wrap=diff-std::round(diff); c.check(std::abs(wrap)<=4*EPS<T>,"mod1-congruent",[&]{return vp::str(m);}); c.check(m>=T(-1.01e-10)&&m<=T(1),"mod1-range",[&]{return vp::str(m);});
  T A[9]; T tol=c.pick({T(0),T(1e-3),T(0.01),T(0.2)}); ld worst=0; for(auto&a:A){ a=(T)c.si(20); if(c.p(15)) a+=(T)c.sreal(2)*(tol>0?tol:T(0.1)); ld d=std::abs((ld)a-std::round((ld)a)); worst=std::max(worst,d); } if(std::abs(worst-(ld)tol)>1e-4L*(tol+T(1e-9)) || worst==0) c.check(bu::is_int_matrix<T,T,3>(A,tol)==(worst<=(ld)tol),"is_int_matrix",[&]{return "largest deviation "+vp::str((double)worst)+" tolerance "+vp::str(tol);}); int Z[9]={0}; c.check(bu::is_int_matrix(Z,1e-9),"is_int_matrix-int"); }
VP_PROP(rounding_casts,200000,2000000){ if(c.p(35)) rounding<float>(c); else rounding<double>(c); }
VP_PROP(combinatorics,200000,2000000){
  unsigned a=(unsigned)(c.b()?c.draw(200):c.draw(4000000000ull)),b=(unsigned)(c.b()?c.draw(60):c.draw(4000000000ull)); if(c.p(30)) a=b*(unsigned)c.draw(5); c.note("a,b",std::vector<unsigned>{a,b}); c.nontrivial(); auto g=bu::gcd(a,b); if(a==0||b==0) c.check(g==(a|b),"gcd-zero"); else { c.check(g>0&&a%g==0&&b%g==0,"gcd-divides",[&]{return vp::str(g);}); unsigned x=a/g,y=b/g; while(y){unsigned t=x%y;x=y;y=t;} c.check(x==1,"gcd-greatest",[&]{return vp::str(g);}); } c.check(bu::gcd((size_t)a,(size_t)b)==(size_t)g,"gcd-size_t");
  // Pascal's triangle in 128 bits, saturated
  unsigned n=(unsigned)c.i(0,c.b()?20:130),k=(unsigned)c.i(0,n+1); using U=unsigned __int128; const U cap=(U)1<<100; std::vector<U> row(n+2,0); row[0]=1; for(unsigned i=1;i<=n;++i) for(unsigned j=i;j>0;--j){ row[j]+=row[j-1]; if(row[j]>cap) row[j]=cap; } c.note("n,k",std::vector<unsigned>{n,k}); unsigned long long got=0; bool dom=false,ovf=false; try{ got=c.b()?bu::binomial_coefficient(n,k):bu::binomial_coefficient((size_t)n,(unsigned short)k); }catch(const std::domain_error&){dom=true;}catch(const std::overflow_error&){ovf=true;} if(k>n) c.check(dom,"binomial-domain"); else { bool fits=row[k]<=(U)~0ull; c.check(!dom&&ovf==!fits,"binomial-overflow",[&]{return ovf?"refused":"accepted";}); if(fits) c.check((U)got==row[k],"binomial",[&]{return vp::str(got)+" expected "+vp::str((unsigned long long)row[k]);}); }
  // coth(x/2)/energy
  double en=c.real(-30,30),beta=c.real(0.01,5); if(std::abs(en)>1e-3){ ld x=(ld)en*beta/2; ld e=1/(std::tanh(x)*(ld)en); double v=bu::coth_over_en(en,beta); c.check(std::abs(v-e)<=1e-13L*std::abs(e),"coth_over_en",[&]{return vp::str(v);}); cx<double> z(en,c.sreal(0.2)); cld ze=cld(z.real(),z.imag()); ld ce=1/std::real(std::tanh(ze*(ld)beta*0.5L)*ze); double cv=bu::coth_over_en(z,beta); if(std::abs(ce)<1e6L) c.check(std::abs(cv-ce)<=1e-9L*(1+std::abs(ce)),"coth_over_en-complex",[&]{return vp::str(cv)+" expected "+vp::str((double)ce);}); }
  std::array<int,6> fa; for(auto&x:fa)x=(int)c.draw(4); int v=(int)c.draw(5); size_t at=0; while(at<6&&fa[at]!=v)++at; size_t r=99; bool th=vp::throws([&]{ r=bu::find_first(fa,v); }); c.check(th==(at==6)&&(th||r==at),"find_first");
}
VP_PROP(lists,200000,2000000){
  size_t n=(size_t)c.i(0,6); std::vector<int> v(n); for(auto&x:v)x=(int)c.draw(6); int x=(int)c.draw(7); c.note("list",v); if(n>1)c.nontrivial(); auto has=[&](const std::vector<int>& q,int y){ return std::find(q.begin(),q.end(),y)!=q.end(); };
  { auto w=v; bool r=bu::add_if_missing(w,x); c.check(r==!has(v,x),"add_if_missing-returned"); auto e=v; if(!has(v,x)) e.push_back(x); eq(c,w,e,"add_if_missing"); }
  { // distinct cyclic list
    auto p=c.perm(n); std::vector<int> u(p.begin(),p.end()); int val=(int)c.draw(n+3),pre=(int)c.draw(n+1),fol=(int)c.draw(n+1); if(n&&c.p(60)){ size_t i=(size_t)c.draw(n); pre=u[i]; fol=u[(i+1)%n]; } auto w=u; bool r=false,th=vp::throws([&]{ r=bu::add_between_if_missing(w,pre,fol,val); }); if(has(u,val)) c.check(!th&&!r&&w==u,"between-present"); else { auto it=std::find(u.begin(),u.end(),pre); bool ok=it!=u.end(); size_t i=(size_t)(it-u.begin()); if(ok) ok=u[(i+1)%n]==fol; c.check(th==!ok,"between-refused"); if(ok){ auto e=u; e.insert(e.begin()+(long)i+1,val); c.check(r,"between-returned"); eq(c,w,e,"between-inserted"); } else eq(c,w,u,"between-changed"); } }
  std::vector<std::vector<unsigned>> L((size_t)c.i(0,4)); for(auto&l:L){ l.resize((size_t)c.i(0,5)); for(auto&y:l)y=(unsigned)c.draw(5); } unsigned mx=0; std::vector<char> seen(8,0); for(auto&l:L)for(auto y:l){ mx=std::max(mx,y); seen[y]=1; } bool all=true; for(unsigned i=0;i<=mx;++i) all=all&&seen[i]; c.note("lists",L); auto [ok,m]=bu::all_present(L); c.check(ok==all&&m==mx,"all_present");
  if(all){ auto inv=bu::invert_lists(L); c.check(inv.size()==mx+1,"invert-size"); for(unsigned i=0;i<=mx;++i){ std::vector<unsigned> e; for(unsigned q=0;q<L.size();++q) if(std::find(L[q].begin(),L[q].end(),i)!=L[q].end()) e.push_back(q); c.check(inv[i]==e,"invert-lists"); } }
  if(!L.empty()){ auto l=L[(size_t)c.draw(L.size())]; if(c.p(60)) c.shuffle(l); if(c.p(40)&&!l.empty()) l[(size_t)c.draw(l.size())]=(unsigned)c.draw(5); bool e=false; auto s=l; std::sort(s.begin(),s.end()); for(auto q:L){ std::sort(q.begin(),q.end()); e=e||q==s; } c.check(bu::unordered_list_in_lists(l,L)==e,"unordered_list_in_lists"); }
  { auto o=bu::convert_lists_type<int>(L); std::vector<std::vector<size_t>> q(3); bu::convert_lists_type(L,q); c.check(o.size()==L.size()&&q.size()==L.size(),"convert-size"); for(size_t i=0;i<L.size();++i){ c.check(o[i]==std::vector<int>(L[i].begin(),L[i].end())&&q[i]==std::vector<size_t>(L[i].begin(),L[i].end()),"convert-lists"); } }
  { auto r=brille::reverse(v); c.check(r==std::vector<int>(v.rbegin(),v.rend()),"reverse"); auto re=brille::reverse_each(L); c.check(re.size()==L.size(),"reverse_each"); for(size_t i=0;i<L.size();++i) c.check(re[i]==std::vector<unsigned>(L[i].rbegin(),L[i].rend()),"reverse_each"); std::vector<int> e; for(int y:v) if(!has(e,y)) e.push_back(y); eq(c,brille::unique(v),e,"unique"); }
  if(n){ auto w=v; int kind=(int)c.draw(3); if(kind==0) std::rotate(w.begin(),w.begin()+(long)c.draw(n),w.end()); else if(kind==1) c.shuffle(w); else w[(size_t)c.draw(n)]=(int)c.draw(6); bool e=false; for(size_t s=0;s<n;++s){ auto q=v; std::rotate(q.begin(),q.begin()+(long)s,q.end()); e=e||q==w; } c.check(brille::is_positive_permutation(v,w)==e,"is_positive_permutation",[&]{return vp::str(w);}); auto z=v; z.push_back(1); c.check(!brille::is_positive_permutation(v,z),"positive-permutation-length"); }
  { std::vector<unsigned> s((size_t)c.i(1,4)),h(s.size()); bool in=true; for(size_t i=0;i<s.size();++i){ s[i]=(unsigned)c.draw(4); h[i]=(unsigned)c.i(1,5); in=in&&s[i]<h[i]; } c.check(bu::subscript_ok(s,h)==in,"subscript_ok"); auto q=h; q.push_back(9); c.check(!bu::subscript_ok(s,q),"subscript_ok-length"); std::array<size_t,3> a,b; in=true; for(int i=0;i<3;++i){ a[i]=c.draw(4); b[i]=(size_t)c.i(1,5); in=in&&a[i]<b[i]; } c.check(bu::subscript_ok(a,b)==in,"subscript_ok-array"); }
}
VP_MAIN
