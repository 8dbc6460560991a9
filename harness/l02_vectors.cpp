// L02: lattice-unit vector algebra is the algebra of the Cartesian vectors denoted
#include "lat.hpp"
#include "approx_config.hpp"
#include "geometry.hpp"
using namespace gen; using brille::MatrixVectors; using brille::ind_t;
template<class T> using LV=bl::LVec<T>; template<class T> using BA=brille::bArray<T>;
struct Ctx { Lat lat; M basis[2]; L cond; }; // basis[0] direct, [1] reciprocal
static Ctx setting(vp::Case& c){ Cell k=cell(c); M a=m3::basis(k.g); if(c.p(70)) a=m3::mul(rotation(c),a); if(c.p(10)){ for(int r=0;r<3;++r) a[3*r]=-a[3*r]; c.label("left-handed"); } auto m=m3::d(a); a=m3::mat(m); c.note("real vectors (columns)",m); Ctx x; x.lat=bl::Direct<double>(m,MatrixVectors::column,symmetry(1)); x.basis[0]=a; x.basis[1]=dual(a); M g=m3::mul(m3::tr(a),a),gr=m3::mul(m3::tr(x.basis[1]),x.basis[1]); x.cond=std::sqrt(m3::maxabs(g)*m3::maxabs(gr))/TP; return x; }
static V col(const M& m,int i){ return {m[i],m[3+i],m[6+i]}; }
static V cart(const M& m,const V& x){ return m3::mul(m,x); }
static L mag(const M& m,const V& x){ L s=0; for(int i=0;i<3;++i) s+=std::abs(x[i])*m3::norm(col(m,i)); return s; } // upper limit of the length, scale of rounding
template<class T> static T value(vp::Case& c){ if constexpr(std::is_integral_v<T>) return (T)c.si(6); else return (T)(c.p(10)?0.:coord(c,4)); }
// n lattice vectors, contiguous or a contiguous range of the rows of a larger array
template<class T> struct Vecs { LV<T> v; std::vector<V> x; };
template<class T> static Vecs<T> vecs(vp::Case& c,const Ctx& k,int u,ind_t n,const char* name){ ind_t before=c.p(30)?(ind_t)c.i(1,3):0, after=before?(ind_t)c.draw(3):0; ind_t N=before+n+after; std::vector<std::array<T,3>> d(N); for(auto&r:d) for(auto&e:r) e=value<T>(c); auto b=BA<T>::from_std(d); LV<T> all; switch(c.i(0,2)){ case 0: all=LV<T>(u?QS:RS,k.lat,b); break; case 1: all=LV<T>::from_std(u?QS:RS,k.lat,d); break; default: all=u? bl::LQVec<T>(k.lat,b): bl::LDVec<T>(k.lat,b); }
  Vecs<T> o; o.v= N==n? all: n==1&&c.b()? all.view(before): all.view(before,before+n); for(ind_t i=0;i<n;++i) o.x.push_back({(L)d[before+i][0],(L)d[before+i][1],(L)d[before+i][2]}); std::vector<std::array<double,3>> nt; for(auto&q:o.x) nt.push_back(m3::d(q)); c.note(name,nt); if(N!=n) c.label("view"); return o; }
#define EQV(got,want,tol,tag,what) do{ V g_=(got),w_=(want); L e_=m3::norm(m3::sub(g_,w_)); L t_=(tol); c.check(e_<=t_,tag,[&]{ return std::string(what)+" is "+vp::str(m3::d(g_))+" expected "+vp::str(m3::d(w_))+" (allowed "+vp::str((double)t_)+")"; }); }while(0)
template<class A> static V row(const A& a,ind_t i){ return {(L)a.val(i,0),(L)a.val(i,1),(L)a.val(i,2)}; }
template<class A> static void shape(vp::Case& c,const A& a,ind_t n,ind_t m,const char* tag){ c.check(a.ndim()==2&&a.size(0)==n&&a.size(1)==m,tag,[&]{ return "shape "+vp::str((int)a.size(0))+"x"+vp::str((int)a.size(1)); }); }
template<class T> static void kind(vp::Case& c,const LV<T>& v,const Ctx& k,int u,const char* tag){ c.check(v.type()==(u?QS:RS),tag,"vector changed between direct and reciprocal"); c.check(v.lattice()==k.lat,tag,"vector changed lattice"); }

template<class T,class R> static void algebra_for(vp::Case& c){
  Ctx k=setting(c); int u=(int)c.i(0,1); ind_t n=(ind_t)c.i(1,5), m= c.b()? n: (c.b()?1: n); if(c.p(20)){ m=n; n=1; } auto X=vecs<T>(c,k,u,n,"x"); auto Y=vecs<R>(c,k,u,m,"y"); ind_t o=std::max(n,m); const M& B=k.basis[u]; const M& S=k.basis[1-u]; L rel=2e-14L*k.cond*k.cond; c.note("reciprocal",(int)u); bool ortho=std::abs(m3::dot(col(B,0),col(B,1)))+std::abs(m3::dot(col(B,0),col(B,2)))+std::abs(m3::dot(col(B,1),col(B,2)))<1e-9L; c.nontrivial(!ortho); c.label(u?"reciprocal":"direct");
  auto xi=[&](ind_t i){ return n==1? X.x[0]: X.x[i]; }; auto yi=[&](ind_t i){ return m==1? Y.x[0]: Y.x[i]; };
  // Cartesian coordinates and back
  { auto xyz=X.v.xyz(); shape(c,xyz,n,3,"xyz"); for(ind_t i=0;i<n;++i) EQV(row(xyz,i),cart(B,X.x[i]),rel*mag(B,X.x[i]),"xyz","xyz"); if constexpr(std::is_same_v<R,double>){ auto gx=brille::get_xyz(Y.v); for(ind_t i=0;i<m;++i) EQV(row(gx,i),cart(B,Y.x[i]),rel*mag(B,Y.x[i]),"get-xyz","get_xyz"); }
    auto b1=brille::from_xyz_like(u?QS:RS,k.lat,xyz); kind(c,b1,k,u,"from-xyz");  for(ind_t i=0;i<n;++i){ L s=0; for(auto e:X.x[i]) s+=std::abs(e); L t=2e-14L*k.cond*k.cond*s*m3::maxabs(B)*m3::maxabs(S)/TP*3; EQV(row(b1,i),X.x[i],t,"from-xyz","from_xyz_like(xyz)"); if constexpr(std::is_same_v<T,double>){ auto b2=brille::from_xyz_like(X.v,xyz); kind(c,b2,k,u,"from-xyz"); EQV(row(b2,i),X.x[i],t,"from-xyz","from_xyz_like(vector, xyz)"); } } 
    int w=1-u; auto b3=brille::from_xyz_like(w?QS:RS,k.lat,xyz); for(ind_t i=0;i<n;++i) EQV(cart(k.basis[w],row(b3,i)),cart(B,X.x[i]),10*rel*mag(k.basis[w],row(b3,i))+10*rel*mag(B,X.x[i]),"from-xyz-dual","from_xyz_like in the dual lattice");
    auto hkl=X.v.hkl(); shape(c,hkl,n,3,"hkl"); for(ind_t i=0;i<n;++i) EQV(row(hkl,i),X.x[i],0,"hkl","hkl"); }
  // lengths and dot products
  { auto no=norm(X.v); shape(c,no,n,1,"norm"); for(ind_t i=0;i<n;++i){ L s=mag(B,X.x[i]),len=m3::norm(cart(B,X.x[i])); L t= len>1e-6L*s? rel*s*s/len: 10*std::sqrt(rel)*s; L g=no.val(i,0); c.check(std::abs(g-len)<=t,"norm",[&]{return "norm "+vp::str((double)g)+" expected "+vp::str((double)len);}); L g2=X.v.norm(i); c.check(std::abs(g2-len)<=t,"norm-i",[&]{return "norm(i) "+vp::str((double)g2)+" expected "+vp::str((double)len);}); }
    auto d=dot(X.v,Y.v); shape(c,d,o,1,"dot"); for(ind_t i=0;i<o;++i){ L w=m3::dot(cart(B,xi(i)),cart(B,yi(i))),g=d.val(i,0); c.check(std::abs(g-w)<=rel*mag(B,xi(i))*mag(B,yi(i)),"dot",[&]{ return "dot "+vp::str((double)g)+" expected "+vp::str((double)w);}); }
    ind_t a=(ind_t)c.i(0,(int)n-1),b=(ind_t)c.i(0,(int)n-1); L w=m3::dot(cart(B,X.x[a]),cart(B,X.x[b])),g=X.v.dot(a,b); c.check(std::abs(g-w)<=rel*mag(B,X.x[a])*mag(B,X.x[b]),"dot-ij",[&]{ return "dot(i,j) "+vp::str((double)g)+" expected "+vp::str((double)w);}); c.check(vp::throws([&]{ (void)X.v.dot(n,0); }),"dot-ij","dot beyond the last vector accepted"); }
  // a direct with a reciprocal vector
  { auto Z=vecs<R>(c,k,1-u,m,"z (dual lattice)"); auto d=dot(X.v,Z.v); shape(c,d,o,1,"dot-dual"); for(ind_t i=0;i<o;++i){ V z=m==1?Z.x[0]:Z.x[i]; L w=m3::dot(cart(B,xi(i)),cart(S,z)),g=d.val(i,0),s=0; for(int j=0;j<3;++j) s+=std::abs(xi(i)[j]*z[j])*TP; c.check(std::abs(g-w)<=1e-14L*s+1e-17L*mag(B,xi(i))*mag(S,z),"dot-dual",[&]{ return "dot with a dual vector "+vp::str((double)g)+" expected "+vp::str((double)w);}); } c.check(X.v.star_lattice(Z.v)&&!X.v.same_lattice(Z.v)&&X.v.same_lattice(Y.v)&&!X.v.star_lattice(Y.v),"same/star-lattice"); }
  // dual
  { auto s=X.v.star(); kind(c,s,k,1-u,"star"); shape(c,s,n,3,"star"); auto f=brille::star(X.v); kind(c,f,k,1-u,"star-free"); for(ind_t i=0;i<n;++i){ L t=10*rel*mag(B,X.x[i])+rel*mag(S,row(s,i)); EQV(cart(S,row(s,i)),cart(B,X.x[i]),t,"star","star"); EQV(cart(S,row(f,i)),cart(B,X.x[i]),t,"star-free","star(v)"); } }
  // cross products
  { auto v=cross(X.v,Y.v); kind(c,v,k,u,"cross"); shape(c,v,o,3,"cross"); L vol=m3::norm(col(B,0))*m3::norm(col(B,1))*m3::norm(col(B,2)); for(ind_t i=0;i<o;++i){ V w=m3::cross(cart(B,xi(i)),cart(B,yi(i))); EQV(cart(B,row(v,i)),w,20*rel*mag(B,xi(i))*mag(B,yi(i))*k.cond,"cross","cross"); } (void)vol;
    ind_t a=(ind_t)c.i(0,(int)n-1),b=(ind_t)c.i(0,(int)n-1); auto q=X.v.cross(a,b); kind(c,q,k,u,"cross-ij"); EQV(cart(B,row(q,0)),m3::cross(cart(B,X.x[a]),cart(B,X.x[b])),20*rel*mag(B,X.x[a])*mag(B,X.x[b])*k.cond,"cross-ij","cross(i,j)"); }
  // sums and multiples
  { auto p=X.v+Y.v; auto q=X.v-Y.v; kind(c,p,k,u,"sum"); kind(c,q,k,u,"sum"); shape(c,p,o,3,"sum"); shape(c,q,o,3,"sum"); for(ind_t i=0;i<o;++i){ L t=4e-16L*(m3::norm(xi(i))+m3::norm(yi(i))); EQV(row(p,i),m3::add(xi(i),yi(i)),t,"sum","x+y"); EQV(row(q,i),m3::sub(xi(i),yi(i)),t,"sum","x-y"); }
    auto s=(R)value<R>(c); if(s==R(0)) s=R(2); c.note("scalar",(double)s); auto e1=X.v*s, e2=s*X.v; kind(c,e1,k,u,"multiple"); kind(c,e2,k,u,"multiple"); auto ng=-X.v; kind(c,ng,k,u,"negative"); for(ind_t i=0;i<n;++i){ L t=4e-16L*m3::norm(X.x[i])*std::abs((L)s); EQV(row(e1,i),m3::sc(X.x[i],(L)s),t,"multiple","x*s"); EQV(row(e2,i),m3::sc(X.x[i],(L)s),t,"multiple","s*x"); EQV(row(ng,i),m3::sc(X.x[i],-1),0,"negative","-x"); EQV(row(X.v,i),X.x[i],0,"operand-changed","x"); }
    if constexpr(std::is_same_v<R,double>){ auto e3=X.v/s; auto e4=X.v+s; auto e5=X.v-s; auto e6=s-X.v; kind(c,e3,k,u,"quotient"); V ss={s,s,s}; for(ind_t i=0;i<n;++i){ L t=4e-16L*(m3::norm(X.x[i])+4*std::abs(s)); EQV(row(e3,i),m3::sc(X.x[i],1/(L)s),4e-16L*m3::norm(X.x[i])/std::abs(s),"quotient","x/s"); EQV(row(e4,i),m3::add(X.x[i],ss),t,"add-scalar","x+s"); EQV(row(e5,i),m3::sub(X.x[i],ss),t,"add-scalar","x-s"); EQV(row(e6,i),m3::sub(ss,X.x[i]),t,"add-scalar","s-x"); EQV(row(X.v,i),X.x[i],0,"operand-changed","x"); } }
    { std::array<R,3> t3; V tv; for(int i=0;i<3;++i){ t3[i]=value<R>(c); if(t3[i]==R(0)) t3[i]=R(1); tv[i]=(L)t3[i]; } auto f1=X.v+t3,f2=X.v-t3,f3=X.v*t3; kind(c,f1,k,u,"std-array"); for(ind_t i=0;i<n;++i){ L t=4e-16L*(m3::norm(X.x[i])+m3::norm(tv))*(1+m3::norm(tv)); EQV(row(f1,i),m3::add(X.x[i],tv),t,"std-array","x+t"); EQV(row(f2,i),m3::sub(X.x[i],tv),t,"std-array","x-t"); V pr; for(int j=0;j<3;++j) pr[j]=X.x[i][j]*tv[j]; EQV(row(f3,i),pr,t,"std-array","x*t"); } }
    { auto yb=Y.v.hkl(); auto h1=X.v+yb; auto h2=X.v-yb; auto h3=X.v*yb; auto h4=yb+X.v; auto h5=yb-X.v; auto h6=yb*X.v; kind(c,h1,k,u,"bare"); kind(c,h5,k,u,"bare"); for(ind_t i=0;i<o;++i){ V x=xi(i),y=yi(i),pr; for(int j=0;j<3;++j) pr[j]=x[j]*y[j]; L t=4e-16L*(m3::norm(x)+m3::norm(y)),tp=4e-16L*m3::norm(x)*m3::norm(y); EQV(row(h1,i),m3::add(x,y),t,"bare","x+b"); EQV(row(h2,i),m3::sub(x,y),t,"bare","x-b"); EQV(row(h3,i),pr,tp,"bare","x*b"); EQV(row(h4,i),m3::add(x,y),t,"bare","b+x"); EQV(row(h5,i),m3::sub(y,x),t,"bare","b-x"); EQV(row(h6,i),pr,tp,"bare","b*x"); } } }
  // a matrix times lattice vectors
  if constexpr(std::is_same_v<T,double>){ std::array<R,9> mm; M ml; for(int i=0;i<9;++i){ mm[i]=value<R>(c); ml[i]=(L)mm[i]; } auto r=mm*X.v; kind(c,r,k,u,"matrix-times"); for(ind_t i=0;i<n;++i) EQV(row(r,i),m3::mul(ml,X.x[i]),1e-15L*m3::maxabs(ml)*3*m3::norm(X.x[i]),"matrix-times","m*x"); }
  // concatenation
  { auto z=brille::cat(0,X.v,Y.v); kind(c,z,k,u,"cat"); shape(c,z,n+m,3,"cat"); for(ind_t i=0;i<n+m;++i) EQV(row(z,i),i<n?X.x[i]:Y.x[i-n],0,"cat","cat"); auto zz=brille::cat(0,X.v,Y.v,X.v); shape(c,zz,2*n+m,3,"cat3"); for(ind_t i=0;i<n;++i) EQV(row(zz,n+m+i),X.x[i],0,"cat3","cat"); EQV(row(X.v,n-1),X.x[n-1],0,"operand-changed","x"); auto ab=brille::abs(X.v); kind(c,ab,k,u,"abs"); for(ind_t i=0;i<n;++i) EQV(row(ab,i),(V{std::abs(X.x[i][0]),std::abs(X.x[i][1]),std::abs(X.x[i][2])}),0,"abs","abs"); }
  // selections keep their lattice
  { ind_t i=(ind_t)c.i(0,(int)n-1); auto w=X.v.view(i); kind(c,w,k,u,"view"); EQV(row(w,0),X.x[i],0,"view","view(i)"); auto e=X.v.extract(i); kind(c,e,k,u,"extract"); EQV(row(e,0),X.x[i],0,"extract","extract(i)"); std::vector<ind_t> ix; for(int j=c.i(1,4);j>0;--j) ix.push_back((ind_t)c.i(0,(int)n-1)); auto f=X.v.extract(ix); kind(c,f,k,u,"extract"); for(size_t j=0;j<ix.size();++j) EQV(row(f,(ind_t)j),X.x[ix[j]],0,"extract","extract(indices)"); LV<double> dd(X.v); kind(c,dd,k,u,"convert"); for(ind_t j=0;j<n;++j) EQV(row(dd,j),X.x[j],0,"convert","conversion"); c.check(X.v.is(X.v),"is");
    if constexpr(std::is_same_v<T,double>){ auto r=X.v.round(); auto fl=X.v.floor(); auto ce=X.v.ceil(); kind(c,r,k,u,"round"); kind(c,fl,k,u,"round"); kind(c,ce,k,u,"round"); for(ind_t j=0;j<n;++j){ V x=X.x[j]; EQV(row(r,j),(V{std::round(x[0]),std::round(x[1]),std::round(x[2])}),0,"round","round"); EQV(row(fl,j),(V{std::floor(x[0]),std::floor(x[1]),std::floor(x[2])}),0,"round","floor"); EQV(row(ce,j),(V{std::ceil(x[0]),std::ceil(x[1]),std::ceil(x[2])}),0,"round","ceil"); } } }
}
VP_PROP(algebra,1000000,15000000){ switch(c.draw(4)){ case 0: case 1: algebra_for<double,double>(c); break; case 2: algebra_for<double,int>(c); break; default: algebra_for<int,double>(c);} }
// in-place changes are those of the components, seen by every sharer of the memory
VP_PROP(inplace,600000,6000000){ Ctx k=setting(c); int u=(int)c.i(0,1); ind_t n=(ind_t)c.i(1,5); auto X=vecs<double>(c,k,u,n,"x"); ind_t m=c.b()?n:1; auto Y=vecs<double>(c,k,u,m,"y"); for(auto&q: X.x) (void)q; LV<double> share(X.v); auto keep=X.v.decouple(); kind(c,keep,k,u,"decouple"); c.nontrivial(n>1); std::vector<V> w=X.x; int op=(int)c.draw(9); double s=value<double>(c); if(s==0) s=0.5; c.note("operation",op); c.note("scalar",s);
  bool safe=true; for(auto&y:Y.x) for(auto e:y) if(e==0) safe=false; if(op==7&&!safe) op=6; auto yi=[&](ind_t i){ return m==1?Y.x[0]:Y.x[i]; };
  for(ind_t i=0;i<n;++i) for(int j=0;j<3;++j){ L& e=w[i][j]; switch(op){ case 0: e+=s; break; case 1: e-=s; break; case 2: e*=s; break; case 3: e/=s; break; case 4: e+=yi(i)[j]; break; case 5: e-=yi(i)[j]; break; case 6: e*=yi(i)[j]; break; case 7: e/=yi(i)[j]; break; default: e=-e; } }
  switch(op){ case 0: X.v+=s; break; case 1: X.v-=s; break; case 2: X.v*=s; break; case 3: X.v/=s; break; case 4: X.v+=Y.v; break; case 5: X.v-=Y.v; break; case 6: X.v*=Y.v.hkl(); break; case 7: X.v/=Y.v.hkl(); break; default: X.v*=-1.; }
  for(ind_t i=0;i<n;++i){ L t=1e-15L*(m3::norm(w[i])+m3::norm(X.x[i])+(op<2?std::abs(s):0)+(op==4||op==5?m3::norm(yi(i)):0)); EQV(row(X.v,i),w[i],t,"in-place","x"); EQV(row(share,i),w[i],t,"in-place-shared","sharing vector"); EQV(row(keep,i),X.x[i],0,"in-place-decoupled","decoupled copy"); } kind(c,X.v,k,u,"in-place"); }
// the sign and size of the triple product: (a-d).((b-d)x(c-d)) of the Cartesian vectors
VP_PROP(triple,800000,8000000){ Ctx k=setting(c); int u=(int)c.i(0,1); const M& B=k.basis[u]; auto P=vecs<double>(c,k,u,(ind_t)c.i(4,7),"points"); c.nontrivial(); L rel=2e-14L*k.cond*k.cond*k.cond*10; std::vector<std::array<ind_t,4>> ix(c.i(1,4)); for(auto&r:ix) for(auto&e:r) e=(ind_t)c.draw((unsigned)P.x.size()-1); auto want=[&](const std::array<ind_t,4>& r,L& s){ V d=P.x[r[3]]; V a=m3::sub(P.x[r[0]],d),b=m3::sub(P.x[r[1]],d),e=m3::sub(P.x[r[2]],d); s=mag(B,a)*mag(B,b)*mag(B,e); return m3::dot(cart(B,a),m3::cross(cart(B,b),cart(B,e))); };
  auto got=brille::triple_product(P.v,BA<ind_t>::from_std(ix)); shape(c,got,(ind_t)ix.size(),1,"triple"); for(size_t i=0;i<ix.size();++i){ L s; L w=want(ix[i],s),g=got.val((ind_t)i,0); c.check(std::abs(g-w)<=rel*s+1e-30L,"triple",[&]{return "triple product "+vp::str((double)g)+" expected "+vp::str((double)w);}); auto one=brille::triple_product(P.v.view(ix[i][0]),P.v.view(ix[i][1]),P.v.view(ix[i][2]),P.v.view(ix[i][3])); c.close(one.val(0,0),(double)g,0,"triple","triple product of four vectors"); }
  // angles between vectors: from dot and norm
  auto x=P.v.view(0),y=P.v.view(1); V cx=cart(B,P.x[0]),cy=cart(B,P.x[1]); if(m3::norm(cx)>1e-3L*mag(B,P.x[0])&&m3::norm(cy)>1e-3L*mag(B,P.x[1])&&m3::norm(cx)>0&&m3::norm(cy)>0){ double cs=dot(x,y).val(0,0)/norm(x).val(0,0)/norm(y).val(0,0); L w=m3::dot(cx,cy)/m3::norm(cx)/m3::norm(cy); c.close(cs,(double)w,(double)(1e6L*2e-14L*k.cond*k.cond),"cosine","cosine of the angle"); } }
// vectors of unrelated lattices are refused
VP_PROP(unrelated,400000,4000000){ Ctx k=setting(c); int u=(int)c.i(0,1),w=(int)c.i(0,1); auto m=m3::d(k.basis[0]); double big=0; for(double e:m) big=std::max(big,std::abs(e)); int how=(int)c.draw(3); if(how==0){ double d=c.pick({1e-6,1e-4,1e-2,0.3}); m[c.draw(9)]+=(c.b()?1:-1)*d*big; c.note("change",d); } else if(how==1){ for(auto&e:m) e*=1.0001; } else { M r=m3::mul(m3::rot({0,0,1},(L)c.real(0.1,3)),m3::mat(m)); m=m3::d(r); } if(std::abs((double)m3::det(m3::mat(m)))<1e-2) c.discard(); c.nontrivial(); Lat o=bl::Direct<double>(m,MatrixVectors::column,symmetry(1)); ind_t n=(ind_t)c.i(1,3); auto X=vecs<double>(c,k,u,n,"x"); Ctx q=k; q.lat=o; auto Y=vecs<double>(c,q,w,n,"y"); 
  c.check(!X.v.same_lattice(Y.v)&&!X.v.star_lattice(Y.v),"unrelated-lattices-related"); c.check(vp::throws([&]{ (void)dot(X.v,Y.v); }),"unrelated-dot-accepted"); c.check(vp::throws([&]{ (void)brille::cat(0,X.v,Y.v); }),"unrelated-cat-accepted"); auto Z=vecs<double>(c,k,1-u,n,"z"); c.check(vp::throws([&]{ (void)brille::cat(0,X.v,Z.v); }),"dual-cat-accepted"); }
VP_MAIN
