// A03: subscript arithmetic and iterators against an independent enumeration
#include "vp.hpp"
#include "subscript.hpp"
using namespace brille;
template<class T> static std::vector<std::vector<T>> enumerate(const std::vector<T>& sh,const std::vector<int>& fix){ // row-major
  std::vector<std::vector<T>> out; size_t n=sh.size(); size_t tot=1; for(size_t i=0;i<n;++i) if(fix[i]<0) tot*=(size_t)sh[i];
  for(size_t l=0;l<tot;++l){ std::vector<T> s(n); size_t r=l; for(size_t d=n;d-->0;){ if(fix[d]>=0) s[d]=(T)fix[d]; else { s[d]=(T)(r%(size_t)sh[d]); r/=(size_t)sh[d]; } } out.push_back(s); }
  return out;
}
static std::vector<int> shape(vp::Case& c,int maxd,int mind=1){
  int n=(int)c.i(mind,maxd); std::vector<int> s; for(int i=0;i<n;++i){ int k=(int)c.draw(10); s.push_back(k==0?0:k<4?1:(int)c.i(2,n>3?3:5)); } return s; }
template<class T,class It,class H> static std::vector<std::vector<T>> walk(vp::Case& c,const It& it,size_t expect){
  std::vector<std::vector<T>> got; size_t guard=0;
  for(const H& s: it){ got.push_back(std::vector<T>(s.begin(),s.end())); c.check(++guard<=expect+3,"iterator-does-not-stop",[&]{return "visited more than "+std::to_string(expect)+" subscripts";}); }
  return got; }
template<class T> static std::string show(const std::vector<std::vector<T>>& v){ std::string o; for(auto&x:v){ o+=vp::str(x)+" "; if(o.size()>600) break; } return o; }

template<class T> static void subit(vp::Case& c){
  auto s=shape(c,4); size_t n=s.size(); std::vector<T> sh(s.begin(),s.end()); std::vector<int> fix(n,-1); std::vector<T> in(n);
  bool usefix=c.p(60); int nf=0; bool zero=false;
  for(size_t i=0;i<n;++i){ zero|=s[i]==0; bool f=usefix&&s[i]>0&&c.p(40); if(f){ fix[i]=(int)c.draw(s[i]); in[i]=(T)fix[i]; ++nf; } else { // any value outside the shape leaves the dimension free
      if(std::is_signed_v<T>&&c.p(30)) in[i]=(T)-c.i(1,3); else in[i]=(T)(s[i]+c.draw(3)); } }
  c.note("shape",s); c.note("fixed",fix); c.note("input",std::vector<long>(in.begin(),in.end()));
  c.label("ndim"+std::to_string(n)); if(nf) c.label("fixed"); if(zero) c.label("zero-length");
  if(nf==(int)n){ c.check(vp::throws([&]{ SubIt<T> x(sh,in); }),"all-fixed-accepted"); return; }
  auto want=enumerate(sh,fix); if(want.size()>2) c.nontrivial();
  SubIt<T> it = usefix? SubIt<T>(sh,in) : SubIt<T>(sh);
  c.check(it.shape()==sh && it.ndim()==n,"shape");
  auto got=walk<T,SubIt<T>,std::vector<T>>(c,it,want.size());
  c.check(got==want,"subscripts",[&]{return "visited "+show(got)+" expected "+show(want);});
  // an iterator part-way through, copied and assigned, still starts again from the beginning and ends at the end
  if(!want.empty()){ size_t k=c.draw(want.size()); SubIt<T> b=it.begin(); for(size_t q=0;q<k;++q) ++b; c.check(*b==want[k],"increment");
    SubIt<T> cp(b); c.check(cp==b && *cp==want[k],"copy"); SubIt<T> as; as=b; c.check(!(as!=b),"assign"); ++as; c.check(k+1<want.size()? *as==want[k+1] : as==it.end(),"increment-after-assign");
    auto g2=walk<T,SubIt<T>,std::vector<T>>(c,b,want.size()); c.check(g2==want,"restart",[&]{return "from a moved iterator: "+show(g2)+" expected "+show(want);}); }
}
template<class T> static void subit2(vp::Case& c){
  std::vector<int> s=shape(c,2,2); std::array<T,2> sh{(T)s[0],(T)s[1]}, in; std::vector<int> fix(2,-1); bool usefix=c.p(60); int nf=0;
  for(int i=0;i<2;++i){ bool f=usefix&&s[i]>0&&c.p(45); if(f){ fix[i]=(int)c.draw(s[i]); in[i]=(T)fix[i]; ++nf; } else { if(std::is_signed_v<T>&&c.p(30)) in[i]=(T)-c.i(1,3); else in[i]=(T)(s[i]+c.draw(3)); } }
  c.note("shape",s); c.note("fixed",fix); if(s[0]*s[1]==0) c.label("zero-length"); if(nf) c.label("fixed");
  if(nf==2){ c.check(vp::throws([&]{ SubIt2<T> x(sh,in); }),"all-fixed-accepted"); return; }
  auto want=enumerate(std::vector<T>(sh.begin(),sh.end()),fix); if(want.size()>2) c.nontrivial();
  SubIt2<T> it= usefix? SubIt2<T>(sh,in):SubIt2<T>(sh); c.check(it.shape()==sh,"shape");
  auto got=walk<T,SubIt2<T>,std::array<T,2>>(c,it,want.size()); c.check(got==want,"subscripts",[&]{return "visited "+show(got)+" expected "+show(want);});
  if(!want.empty()){ size_t k=c.draw(want.size()); auto b=it.begin(); for(size_t q=0;q<k;++q) ++b; c.check((*b)[0]==want[k][0]&&(*b)[1]==want[k][1],"increment");
    SubIt2<T> cp(b); c.check(cp==b,"copy"); SubIt2<T> as; as=b; c.check(!(as!=b),"assign");
    auto g2=walk<T,SubIt2<T>,std::array<T,2>>(c,b,want.size()); c.check(g2==want,"restart",[&]{return "from a moved iterator: "+show(g2)+" expected "+show(want);}); }
}
static bool bshape(vp::Case& c,std::vector<int>& a,std::vector<int>& b,std::vector<int>& o,int maxd,int mind){
  auto s=shape(c,maxd,mind); bool ok=true; for(int x:s){ int k=(int)c.draw(5); int p=x,q=x; if(k==1) p=1; if(k==2) q=1; if(k==3&&c.p(20)){ q=x+1; } a.push_back(p); b.push_back(q); if(p!=q&&p!=1&&q!=1) ok=false; o.push_back(p==1?q:p); } return ok; }
template<class T> static void bcast(vp::Case& c){
  std::vector<int> a,b,o; bool ok=bshape(c,a,b,o,4,1); size_t n=a.size(); std::vector<T> A(a.begin(),a.end()),Bv(b.begin(),b.end());
  c.note("a",a); c.note("b",b);
  if(!ok){ c.label("refused"); c.nontrivial(); c.check(vp::throws([&]{ BroadcastIt<T> x(A,Bv); }),"incompatible-shapes-accepted"); return; }
  std::vector<T> O(o.begin(),o.end()); BroadcastIt<T> it(A,Bv); size_t tot=1; for(int x:o) tot*=x; if(tot==0) c.label("zero-length"); if(tot>2&&a!=b) c.nontrivial();
  c.check(it.shape()==O,"shape",[&]{return "outer shape "+vp::str(it.shape())+" expected "+vp::str(O);}); c.check((size_t)it.size()==tot&&it.ndim()==n,"size");
  auto want=enumerate(O,std::vector<int>(n,-1)); size_t k=0;
  for(auto [os,as,bs]: it){ c.check(k<want.size(),"iterator-does-not-stop"); c.check(os==want[k],"outer",[&]{return "step "+std::to_string(k)+" outer "+vp::str(os)+" expected "+vp::str(want[k]);});
    for(size_t d=0;d<n;++d){ c.check(as[d]==(a[d]==1?T(0):want[k][d]),"first",[&]{return "step "+std::to_string(k)+" first "+vp::str(as);}); c.check(bs[d]==(b[d]==1?T(0):want[k][d]),"second",[&]{return "step "+std::to_string(k)+" second "+vp::str(bs);}); } ++k; }
  c.check(k==want.size(),"stopped-early",[&]{return std::to_string(k)+" of "+std::to_string(want.size());});
}
template<class T> static void bcast2(vp::Case& c){
  std::vector<int> a,b,o; bool ok=bshape(c,a,b,o,2,2); std::array<T,2> A{(T)a[0],(T)a[1]},Bv{(T)b[0],(T)b[1]},O{(T)o[0],(T)o[1]}; c.note("a",a); c.note("b",b);
  if(!ok){ c.label("refused"); c.nontrivial(); c.check(vp::throws([&]{ BroadcastIt2<T> x(A,Bv); }),"incompatible-shapes-accepted"); return; }
  BroadcastIt2<T> it(A,Bv); size_t tot=(size_t)o[0]*o[1]; if(tot==0) c.label("zero-length"); if(tot>2&&a!=b) c.nontrivial(); c.check(it.shape()==O,"shape",[&]{return "outer shape "+vp::str(it.shape())+" expected "+vp::str(O);}); c.check((size_t)it.size()==tot,"size");
  auto want=enumerate(std::vector<T>(O.begin(),O.end()),std::vector<int>(2,-1)); size_t k=0;
  for(auto [os,as,bs]: it){ c.check(k<want.size(),"iterator-does-not-stop"); for(int d=0;d<2;++d){ c.check(os[d]==want[k][d],"outer",[&]{return "step "+std::to_string(k)+" outer "+vp::str(os);}); c.check(as[d]==(a[d]==1?T(0):want[k][d]),"first",[&]{return "step "+std::to_string(k)+" first "+vp::str(as);}); c.check(bs[d]==(b[d]==1?T(0):want[k][d]),"second",[&]{return "step "+std::to_string(k)+" second "+vp::str(bs);}); } ++k; }
  c.check(k==want.size(),"stopped-early");
}
template<class T> static void linear(vp::Case& c){
  std::vector<int> s; int n=(int)c.i(1,5); for(int i=0;i<n;++i) s.push_back((int)c.i(1,4)); bool col=c.b(); int pad=c.p(30)?(int)c.i(2,3):1; // padded: a strided view
  std::vector<T> st(n); size_t q=pad; if(col) for(int i=0;i<n;++i){ st[i]=(T)q; q*=s[i]; } else for(int i=n;i-->0;){ st[i]=(T)q; q*=s[i]; }
  if(n==1) pad=1,st[0]=1; // a one-dimensional linear index is the subscript itself
  c.note("shape",s); c.note("stride",std::vector<long>(st.begin(),st.end()));
  bool distinct=true; for(int i=0;i<n;++i) if(s[i]==1) distinct=false; if(n>1&&q>4) c.nontrivial(); c.label(col?"column":"row");
  std::vector<T> sh(s.begin(),s.end()); std::set<T> seen;
  for(auto& sub: enumerate(sh,std::vector<int>(n,-1))){ T l=sub2lin(sub,st); T e=0; for(int i=0;i<n;++i) e+=sub[i]*st[i]; c.check(l==e,"sub2lin",[&]{return "sub2lin "+vp::str(sub)+" = "+vp::str(l)+" expected "+vp::str(e);}); c.check(seen.insert(l).second,"two subscripts share a linear index");
    auto back=lin2sub(l,st); c.check(back.size()==(size_t)n,"lin2sub-size"); c.check(sub2lin(back,st)==l,"lin2sub-not-inverse",[&]{return "lin2sub("+vp::str(l)+") = "+vp::str(back)+" whose linear index is "+vp::str(sub2lin(back,st));});
    if(distinct) c.check(back==sub,"lin2sub",[&]{return "lin2sub("+vp::str(l)+") = "+vp::str(back)+" expected "+vp::str(sub);});
    if(n==2){ std::array<T,2> s2{sub[0],sub[1]},t2{st[0],st[1]}; c.check(sub2lin(s2,t2)==l && sub2lin(s2[0],s2[1],t2)==l,"sub2lin-2d"); auto b2=lin2sub(l,t2); c.check(sub2lin(b2,t2)==l,"lin2sub-2d-not-inverse"); if(distinct) c.check(b2==s2,"lin2sub-2d",[&]{return "lin2sub("+vp::str(l)+") = "+vp::str(b2)+" expected "+vp::str(s2);}); } }
}
static void fixedness(vp::Case& c){ long n=(long)c.i(0,6), i=(long)c.i(-3,9); bool want=i>=0&&i<n; c.nontrivial(); c.note("i",i); c.note("n",n); c.check(is_fixed<int,unsigned>((int)i,(unsigned)n)==want,"is_fixed-signed"); c.check(is_fixed<long,size_t>(i,(size_t)n)==want,"is_fixed-long"); if(i>=0) c.check(is_fixed<unsigned,unsigned>((unsigned)i,(unsigned)n)==want,"is_fixed-unsigned"); }
VP_PROP(full_and_fixed_iterator,400000,2000000,10){ switch(c.draw(3)){case 0: subit<unsigned>(c); break; case 1: subit<int>(c); break; default: subit<size_t>(c);} }
VP_PROP(iterator_2d,400000,2000000,10){ switch(c.draw(3)){case 0: subit2<unsigned>(c); break; case 1: subit2<int>(c); break; default: subit2<size_t>(c);} }
VP_PROP(broadcast_iterator,400000,2000000,10){ switch(c.draw(2)){case 0: bcast<unsigned>(c); break; default: bcast<size_t>(c);} }
VP_PROP(broadcast_iterator_2d,400000,2000000,10){ switch(c.draw(2)){case 0: bcast2<unsigned>(c); break; default: bcast2<size_t>(c);} }
VP_PROP(linear_index,200000,1000000,10){ switch(c.draw(2)){case 0: linear<unsigned>(c); break; default: linear<size_t>(c);} }
VP_PROP(is_fixed_index,2000,20000,10){ fixedness(c); }
VP_MAIN
