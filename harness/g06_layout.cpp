// G06: linear combinations of data keep the declared layout, element by element
#include "grid.hpp"
#include <optional>
#include <numeric>
using namespace zn; using namespace gr; using brille::Interpolator; using brille::DualInterpolator; using SH=brille::shape_t;
template<class S> static S coef(vp::Case& c); template<> double coef<double>(vp::Case& c){ return c.sreal(1); } template<> cd coef<cd>(vp::Case& c){ double a=c.sreal(1); return cd(a,c.sreal(1)); }
static size_t prod(const SH& s,size_t from=0){ size_t n=1; for(size_t i=from;i<s.size();++i) n*=s[i]; return n; }
// a shape, the elements given for it, and what they mean
struct Lay { SH sh; El el{0,0,0}; int nb=1; size_t span=1; };
static Lay lay(vp::Case& c,ind_t P,int fix=0){ Lay l; int nd=(int)c.i(fix>1?2:1,5); bool given=c.p(65); ind_t nb=fix?(ind_t)fix:(ind_t)c.i(1,4); if(fix>1&&nd==2) given=true; l.nb=(int)nb; ind_t s=(ind_t)c.i(0,3),v=(ind_t)c.i(0,2),m=(ind_t)c.i(0,2); if(!(s+v+m)) s=1; switch(nd){ case 1: l.sh={P}; l.nb=1; l.span=1; if(given) l.el={1,0,0}; break; case 2: if(given){ l.span=s+3*v+9*m; l.el={s,3*v,9*m}; } else { l.nb=1; l.span=(size_t)c.i(1,6); } l.sh={P,(ind_t)(l.nb*l.span)}; break; case 3: l.span=s+3*v+9*m; if(given) l.el={s,3*v,9*m}; l.sh={P,nb,(ind_t)l.span}; break; case 4: if(!v) v=1; l.span=3*v; if(given) l.el={0,3*v,0}; l.sh={P,nb,v,3u}; break; default: if(!m) m=1; l.span=9*m; if(given) l.el={0,0,9*m}; l.sh={P,nb,m,3u,3u}; } if(fix==1&&nd>2) l.nb=1; c.label(std::to_string(nd)+"-D"); c.label(given?"elements given":"elements left out"); return l; }
template<class T> struct Made { Lay l; std::vector<T> d; brille::Array<T> a; const T& at(size_t i,int b,size_t e) const { return d[(i*l.nb+b)*l.span+e]; } };
template<class T> static Made<T> made(vp::Case& c,const Lay& l){ Made<T> m{l,{},brille::Array<T>(l.sh)}; size_t n=prod(l.sh); for(size_t i=0;i<n;++i) m.d.push_back(coef<T>(c)); size_t k=0; for(auto& s:m.a.subItr()) m.a[s]=m.d[k++]; // row order
  if(c.p(25)&&l.sh.size()>1){ // the same values held with another layout in memory
    SH big=l.sh; std::reverse(big.begin(),big.end()); std::vector<ind_t> st(l.sh.size()); ind_t run=1; for(size_t i=0;i<l.sh.size();++i){ st[i]=run; run*=l.sh[i]; } T* p=new T[n]; for(auto& s:m.a.subItr()){ size_t o=0; for(size_t i=0;i<s.size();++i) o+=s[i]*st[i]; p[o]=m.a[s]; } m.a=brille::Array<T>(p,n,true,l.sh,st); c.label("column-ordered data"); }
  return m; }
template<class T> static void layout(vp::Case& c){ ind_t P=(ind_t)c.i(1,6); Lay l=lay(c,P); auto m=made<T>(c,l); c.note("shape",l.sh); c.note("elements",std::vector<ind_t>{l.el[0],l.el[1],l.el[2]}); std::optional<Interpolator<T>> it; auto rl=c.pick(std::vector<RotatesLike>{RotatesLike::vector,RotatesLike::pseudovector,RotatesLike::Gamma}); auto lu=c.pick(std::vector<LengthUnit>{LengthUnit::none,LengthUnit::angstrom,LengthUnit::inverse_angstrom,LengthUnit::real_lattice,LengthUnit::reciprocal_lattice});
  auto build=[&](const brille::Array<T>& a,const SH& sh,const El& e,int way)->std::optional<Interpolator<T>>{ brille::Array<T> x(a); brille::Array2<T> y; if(way<4&&way%2) y=brille::Array2<T>(x); switch(way){ case 0: return Interpolator<T>(x,e,rl,lu); case 1: return Interpolator<T>(y,sh,e,rl,lu); case 2: return Interpolator<T>(x,e,rl,lu,0,1,{1,2,3}); case 3: return Interpolator<T>(y,sh,e,rl,lu,0,1,{1,2,3}); case 4: { Interpolator<T> o(0,1); o.replace_data(x,e,rl,lu); return o; } default: { Interpolator<T> o; brille::Array2<T> z(x); o.replace_data(z,sh,std::array<int,3>{(int)e[0],(int)e[1],(int)e[2]},rl,lu); return o; } } };
  int way=(int)c.draw(6); c.note("way",way); it=build(m.a,l.sh,l.el,way); auto& I=*it; c.check(I.size()==P,"size"); c.check((int)I.branches()==l.nb,"branches",[&]{ return vp::str((int)I.branches())+" not "+vp::str(l.nb); }); c.check(I.branch_span()==l.span,"span",[&]{ return vp::str((int)I.branch_span())+" not "+vp::str(l.span); }); c.check(I.shape()==l.sh,"shape"); c.check(I.bytes_per_point()==l.nb*l.span*sizeof(T),"bytes"); c.check(!I.to_string().empty(),"text"); c.check(I.rotateslike()==rl,"rotates-like"); { auto e=I.elements(); c.check(e[0]+e[1]+e[2]==l.span&&e[1]%3==0&&e[2]%9==0,"elements"); } { auto a=I.array(); c.check(a.shape()==l.sh,"array-shape"); size_t k=0; bool ok=true; for(auto& s:a.subItr()) ok&=a[s]==m.d[k++]; c.check(ok,"array"); c.check(I.data().size(0)==P&&I.data().size(1)==(l.sh.size()>1?l.nb*l.span:1),"flat"); }
  { Interpolator<T> o(I); c.check(!(o!=I),"copy"); }
  // combinations
  int n=(int)c.i(1,6); std::vector<ind_t> ix; std::vector<double> w; std::vector<std::pair<ind_t,double>> iw; std::vector<std::vector<ind_t>> pm; bool shuf=c.b(); for(int i=0;i<n;++i){ ix.push_back((ind_t)c.draw(P)); w.push_back(c.p(20)?1.0:c.sreal(2)); iw.push_back({ix[i],w[i]}); std::vector<ind_t> p(l.nb); std::iota(p.begin(),p.end(),0u); if(shuf&&i){ auto q=c.perm(l.nb); p.assign(q.begin(),q.end()); } pm.push_back(p); } c.note("points",ix); c.note("weights",w);
  int rows=(int)c.i(1,4),to=(int)c.draw(rows); bool phase=c.b(),pairs=c.b(); brille::Array2<T> out((ind_t)rows,(ind_t)(l.nb*l.span),T(0)); for(int r=0;r<rows;++r) if(r!=to) for(size_t k=0;k<l.nb*l.span;++k) out.val(r,k)=T(100.0*r+k); if(pairs) I.interpolate_at(pm,iw,out,(ind_t)to,phase); else I.interpolate_at(pm,ix,w,out,(ind_t)to,phase); for(int r=0;r<rows;++r) if(r!=to) for(size_t k=0;k<l.nb*l.span;++k) c.check(out.val(r,k)==T(100.0*r+k),"other-row");
  bool cplx=std::is_same_v<T,cd>&&phase; for(int b=0;b<l.nb;++b){ bool ok=false; std::string first; for(int pv=0;pv<(cplx?n:1)&&!ok;++pv){ std::vector<T> s(l.span,T(0)); double big=0; for(int i=0;i<n;++i){ T f(1); if constexpr(std::is_same_v<T,cd>) if(cplx){ cd h=0; for(size_t e=0;e<l.span;++e) h+=std::conj(m.at(ix[pv],pm[pv][b],e))*m.at(ix[i],pm[i][b],e); if(std::abs(h)>0) f=std::conj(h)/std::abs(h); } for(size_t e=0;e<l.span;++e){ s[e]+=w[i]*f*m.at(ix[i],pm[i][b],e); big+=std::abs(w[i]); } } T g(1); if constexpr(std::is_same_v<T,cd>) if(cplx){ double most=0; for(size_t e=0;e<l.span;++e) if(std::abs(s[e])>most){ most=std::abs(s[e]); cd o=out.val(to,b*l.span+e); g=std::abs(o)>0?o/std::abs(o)*std::conj(s[e])/most:cd(1); } } bool good=true; for(size_t e=0;e<l.span;++e) good&=std::abs(out.val(to,b*l.span+e)-g*s[e])<=1e-11*(1+big); ok|=good; if(!pv) first=vp::str(s); } c.check(ok,"combination",[&]{ std::vector<T> o; for(size_t e=0;e<l.span;++e) o.push_back(out.val(to,b*l.span+e)); return "branch "+vp::str(b)+" is "+vp::str(o)+" expected "+first; }); }
  // equal modes are noticed
  if constexpr(std::is_same_v<T,double>){ ind_t i=(ind_t)c.draw(P); bool eq=false; for(int a=0;a<l.nb;++a)for(int b=0;b<a;++b){ bool s=true; for(size_t e=0;e<l.span;++e) s&=m.at(i,a,e)==m.at(i,b,e); eq|=s; } c.check(I.any_equal_modes(i)==eq,"equal-modes"); if(l.nb>1&&c.p(30)){ int a=(int)c.draw(l.nb),b=(int)c.draw(l.nb); Made<T> q=m; brille::Array<T> x(l.sh); size_t k=0; for(auto& s:x.subItr()) x[s]=m.d[k++]; std::vector<T> d=m.d; for(size_t e=0;e<l.span;++e) d[(i*l.nb+b)*l.span+e]=d[(i*l.nb+a)*l.span+e]; k=0; for(auto& s:x.subItr()) x[s]=d[k++]; Interpolator<T> o(x,l.el,rl,lu); c.check(o.any_equal_modes(i)==(a!=b||eq),"equal-modes"); } }
  // elements which do not describe the data are refused
  for(int t=0;t<3;++t){ El e{(ind_t)c.draw(8),(ind_t)c.draw(8),(ind_t)c.draw(20)}; size_t x=e[0]+e[1]+e[2]; SH sh=l.sh; size_t z=prod(sh,2); bool ok; if(!x) ok=true; else if(e[1]%3||e[2]%9) ok=false; else if(sh.size()==1) ok=x==1; else if(sh.size()==2) ok=sh[1]%x==0; else ok=z==x; auto how=(int)c.draw(6); bool thrown=vp::throws([&]{ build(m.a,sh,e,how); }); c.check(thrown==!ok,"accepts",[&]{ return "elements "+vp::str(std::vector<ind_t>{e[0],e[1],e[2]})+(thrown?" refused":" accepted")+" for shape "+vp::str(sh)+" way "+vp::str(how); }); if(!ok) c.label("refused"); }
  if(c.p(10)){ std::vector<SH> bad{{P,2,2,2},{P,1,2,3,2},{P,1,1,2,3},{P,1,1,1,3,3},{P,0},{P,1,3,4}}; SH s=c.pick(bad); brille::Array<T> a(s,T(0)); int how=(int)c.draw(6); c.check(vp::throws([&]{ build(a,s,El{0,0,0},how); }),"shape-accepted",[&]{ return vp::str(s); }); c.label("refused shape"); }
  c.nontrivial(n>1&&l.span>1); }
VP_PROP(layout,600000,12000000){ if(c.b()) layout<double>(c); else layout<cd>(c); }
// filling a whole grid
template<class T,class R> static void filled(vp::Case& c){ auto s=setup(c); std::optional<BZ> mz; try{ mz.emplace(s.k.lat,s.cfg); }catch(const std::runtime_error&){ c.discard(); } const BZ& z=*mz; if(crowded(z)) c.discard(); L vol=std::abs((L)z.get_ir_polyhedron().volume()); Par p=par(c,(double)vol,8); auto g=make<T,R>(z,p); ind_t N=(ind_t)g->size(); std::optional<Made<T>> mv; std::optional<Made<R>> mw; auto vx=z.get_ir_polyhedron().vertices().xyz(); std::vector<std::array<double,3>> X; int n=(int)c.i(1,6); for(int i=0;i<n;++i){ V y{0,0,0}; L t=0; for(ind_t j=0;j<vx.size(0);++j){ L f=c.p(15)?0:(L)c.real(0.01,1); y=m3::add(y,m3::sc(vec(vx,j),f)); t+=f; } if(t==0){ y=vec(vx,0); t=1; } X.push_back(m3::d(m3::sc(y,1/t))); } BA Xa=BA::from_std(X); std::vector<IW> iws; for(auto&q:X) iws.push_back(g->iw(BA::from_std(std::vector<std::array<double,3>>{q})));
  auto look=[&](const char* tag){ auto o=g->at(Xa,(int)c.pick(std::vector<int>{-1,1,3})); auto chk=[&](auto& a,auto& m,bool phase){ using S=std::decay_t<decltype(m.d[0])>; SH want=m.l.sh; want[0]=(ind_t)n; c.check(a.shape()==want,"shape",[&]{ return std::string(tag)+" "+vp::str(a.shape())+" expected "+vp::str(want); }); std::vector<S> f; for(auto& q:a.subItr()) f.push_back(a[q]); for(int i=0;i<n;++i)for(int b=0;b<m.l.nb;++b){ bool ok=false; const S* got=&f[((size_t)i*m.l.nb+b)*m.l.span]; std::vector<S> sum; for(auto& pv:iws[i]){ sum.assign(m.l.span,S(0)); for(auto&[j,w]:iws[i]){ S ph(1); if constexpr(std::is_same_v<S,cd>) if(phase){ cd h=0; for(size_t e=0;e<m.l.span;++e) h+=std::conj(m.at(pv.first,b,e))*m.at(j,b,e); if(std::abs(h)>0) ph=std::conj(h)/std::abs(h); } for(size_t e=0;e<m.l.span;++e) sum[e]+=w*ph*m.at(j,b,e); } S u(1); if constexpr(std::is_same_v<S,cd>) if(phase){ double most=0; for(size_t e=0;e<m.l.span;++e) if(std::abs(sum[e])>most){ most=std::abs(sum[e]); u=std::abs(got[e])>0?got[e]/std::abs(got[e])*std::conj(sum[e])/most:cd(1); } } bool good=true; for(size_t e=0;e<m.l.span;++e) good&=std::abs(got[e]-u*sum[e])<=1e-10; ok|=good; if(!phase) break; } c.check(ok,tag,[&]{ return "at "+vp::str(X[i])+" branch "+vp::str(b)+" is "+vp::str(std::vector<S>(got,got+m.l.span))+" expected "+vp::str(sum); }); } }; if(mv) chk(std::get<0>(o),*mv,false); if(mw) chk(std::get<1>(o),*mw,true); };
  auto rl=RotatesLike::vector; auto lu=LengthUnit::real_lattice; int steps=(int)c.i(2,c.thorough?10:6); std::string hist; int nbnow=0; for(int k=0;k<steps;++k){ int kind=(int)c.draw(8); bool wrong=c.p(20); ind_t P=N; if(wrong) P=c.b()?N+1:N-1; if(kind<3){ int nb=(int)c.i(1,3); Lay a=lay(c,P,nb),b=lay(c,P,nb); if(a.nb!=b.nb) continue; auto x=made<T>(c,a); auto y=made<R>(c,b); Interpolator<T> iv(x.a,a.el,rl,lu); Interpolator<R> iw(y.a,b.el,rl,lu); hist="both, "+vp::str(a.sh)+" and "+vp::str(b.sh); bool t=vp::throws([&]{ g->fill(iv,iw); }); c.check(t==wrong,"count",[&]{ return hist+" for "+vp::str((int)N)+" points"; }); if(!wrong){ mv=x; mw=y; nbnow=a.nb; } }
    else if(kind<5){ int nb=nbnow&&c.p(70)?nbnow:(int)c.i(1,3); Lay a=lay(c,P,nb); auto x=made<T>(c,a); hist="values, "+vp::str(a.sh); bool t=vp::throws([&]{ g->values(x.a,a.el,rl,lu); }); c.check(t==wrong,"count",[&]{ return hist+" for "+vp::str((int)N)+" points"; }); if(!wrong){ mv=x; if(nbnow&&nbnow!=a.nb) mw.reset(); nbnow=a.nb; } }
    else if(kind<7){ int nb=nbnow&&c.p(70)?nbnow:(int)c.i(1,3); Lay a=lay(c,P,nb); auto y=made<R>(c,a); hist="vectors, "+vp::str(a.sh); bool t=vp::throws([&]{ g->vectors(y.a,a.el,rl,lu); }); c.check(t==wrong,"count",[&]{ return hist+" for "+vp::str((int)N)+" points"; }); if(!wrong){ mw=y; if(nbnow&&nbnow!=a.nb) mv.reset(); nbnow=a.nb; } }
    else { Lay a=lay(c,N,1),b=lay(c,N,2); if(a.nb==b.nb) continue; auto x=made<T>(c,a); auto y=made<R>(c,b); Interpolator<T> iv(x.a,a.el,rl,lu); Interpolator<R> iw(y.a,b.el,rl,lu); hist="unequal modes"; c.check(vp::throws([&]{ g->fill(iv,iw); }),"modes-accepted",[&]{ return vp::str(a.sh)+" and "+vp::str(b.sh); }); wrong=true; } c.note("fill",hist+(wrong?" (refused)":"")); if(wrong) c.label("refused"); if(mv||mw) look(wrong?"after-refusal":"combination"); if(mv&&mw) c.check(g->bytes()==mv->l.nb*mv->l.span*sizeof(T)+mw->l.nb*mw->l.span*sizeof(R),"bytes"); }
  c.nontrivial(mv&&mw); }
VP_PROP(filled,3000,80000,60){ int k=(int)c.draw(3); if(k==0) filled<double,double>(c); else if(k==1) filled<double,cd>(c); else filled<cd,cd>(c); }
VP_MAIN
