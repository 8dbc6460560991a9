// G05: modes are matched by permutations of least cost, which are stored and used as found
#include "grid.hpp"
#include "sorting_status.hpp"
#include <omp.h>
#include <optional>
#include <numeric>
using namespace zn; using namespace gr; using brille::PermutationTable; using P=std::vector<brille::ind_t>;
template<class S> static S coef(vp::Case& c); template<> double coef<double>(vp::Case& c){ return c.sreal(1); } template<> cd coef<cd>(vp::Case& c){ double a=c.sreal(1); return cd(a,c.sreal(1)); }
static P aperm(vp::Case& c,int n){ auto p=c.perm(n); return P(p.begin(),p.end()); }
// ---- the table of permutations
struct Model { size_t n,b; std::map<std::pair<size_t,size_t>,std::optional<P>> m; std::vector<P> lists; };
static P ident(size_t b){ P p(b); std::iota(p.begin(),p.end(),0u); return p; }
static void agree(vp::Case& c,const PermutationTable& t,const Model& m,const std::string& after){ auto say=[&](const char* w,size_t i,size_t j){ return after+": "+w+" of ("+vp::str(i)+","+vp::str(j)+")"; }; c.check(t.index_size()==m.n,"index-size",after); std::set<size_t> ks{0}; for(auto&[k,v]:m.m) ks.insert(k.first*m.n+k.second); c.check(t.keys()==ks,"keys",[&]{ return after+" "+vp::str(std::vector<size_t>(ks.begin(),ks.end())); });
  for(size_t i=0;i<m.n;++i)for(size_t j=0;j<m.n;++j){ bool same=i==j; auto it=m.m.find({i,j}); bool has=same||(it!=m.m.end()&&it->second),need=!same&&it!=m.m.end()&&!it->second; c.check(t.has(i,j)==has,"has",[&]{ return say("has",i,j); }); c.check(t.value_needed(i,j)==need,"value-needed",[&]{ return say("value needed",i,j); }); P want=same||!has?ident(m.b):*it->second; P got=t.safe_get(i,j); c.check(got==want,"get",[&]{ return say("get",i,j)+" is "+vp::str(got)+" not "+vp::str(want); }); } }
VP_PROP(table,600000,12000000){ Model m; m.n=c.i(1,6); m.b=c.i(1,5); std::set<size_t> ks; auto pair=[&]{ size_t i=c.draw(m.n),j=c.draw(m.n); return std::make_pair(i,j); }; auto add=[&](std::set<size_t>& s){ int k=(int)c.i(0,6); for(int q=0;q<k;++q){ auto p=pair(); if(p.first==p.second) continue; s.insert(p.first*m.n+p.second); if(!m.m.count(p)) m.m[p]=std::nullopt; } }; bool with=c.b(); if(with) add(ks); c.note("points",m.n); c.note("branches",m.b); PermutationTable t=with?PermutationTable(m.n,m.b,ks):PermutationTable(m.n,m.b); agree(c,t,m,"made"); int steps=(int)c.i(1,c.thorough?40:16); std::string last; int sets=0; std::vector<P> used; std::optional<PermutationTable> kept; std::optional<Model> km;
  auto perm=[&]{ if(!used.empty()&&c.p(40)){ P p=used[c.draw(used.size())]; if(p.size()==m.b) return p; } P p=aperm(c,(int)m.b); used.push_back(p); return p; };
  for(int s=0;s<steps;++s){ int k=(int)c.draw(10); if(k<3){ auto q=pair(); P p=perm(); last="set ("+vp::str(q.first)+","+vp::str(q.second)+") "+vp::str(p); if(q.first==q.second) continue; if(c.b()) t.set(q.first,q.second,p); else t.set(q.first,q.second,std::vector<int>(p.begin(),p.end())); auto it=m.m.find(q); if(it==m.m.end()||!it->second) m.m[q]=p; else c.label("set again"); ++sets; }
    else if(k<6){ auto q=pair(); P p=perm(); last="overwrite ("+vp::str(q.first)+","+vp::str(q.second)+") "+vp::str(p); if(q.first==q.second) continue; bool there=m.m.count(q); bool thrown=vp::throws([&]{ if(c.b()) t.overwrite(q.first,q.second,p); else t.overwrite(q.first,q.second,std::vector<int>(p.begin(),p.end())); }); c.check(thrown==!there,"overwrite-throws",last); if(there){ if(m.m[q]) c.label("overwritten"); m.m[q]=p; ++sets; } }
    else if(k==6){ auto q=pair(); last="overwrite by index"; auto q2=pair(); if(q.first==q.second||!m.m.count(q)) continue; size_t idx; P p; if(q2.first!=q2.second&&m.m.count(q2)&&m.m[q2]){ p=*m.m[q2]; idx=t.overwrite(q2.first,q2.second,p); } else { p=ident(m.b); idx=0; } t.overwrite(q.first,q.second,idx); m.m[q]=p; ++sets; }
    else if(k==7){ last="insert keys"; std::set<size_t> more; add(more); auto got=t.insert_keys(more); c.check(got==t.keys(),"insert-keys"); }
    else if(k==8){ last="reset"; t.reset(); for(auto&[q,v]:m.m) v=std::nullopt; c.label("reset"); }
    else { size_t n=c.p(70)?m.n:c.i(1,6),b=c.p(60)?m.b:c.i(1,5); last="refresh "+vp::str(n)+" "+vp::str(b); bool inv=t.refresh(n,b); c.check(inv==(n!=m.n),"refresh-result",last); if(n!=m.n){ m.n=n; m.m.clear(); } if(b!=m.b){ m.b=b; for(auto&[q,v]:m.m) v=std::nullopt; } c.label("refresh"); }
    agree(c,t,m,last); if(kept) agree(c,*kept,*km,"a copy after "+last); if(c.p(15)){ kept=t; km=m; c.check(!(*kept!=t),"copy-equal"); } }
  // equality of tables, and the keys of a list of indices
  { PermutationTable o(t); c.check(!(o!=t)&&!(t!=o),"equal"); if(m.n>1){ auto q=std::make_pair((size_t)0,(size_t)1); bool had=m.m.count(q); P p=had&&m.m[q]?*m.m[q]:ident(m.b); P r=p; if(had&&m.m[q]){ std::rotate(r.begin(),r.begin()+1,r.end()); if(r!=p){ o.overwrite(0,1,r); c.check(o!=t,"changed-equal"); } } else { o.set(0,1,r); c.check(o!=t,"changed-equal"); } } }
  { std::vector<size_t> ix; int k=(int)c.i(0,5); size_t n=c.i(1,9); for(int i=0;i<k;++i) ix.push_back(c.draw(n)); auto ks=brille::permutation_table_keys_from_indicies(ix.begin(),ix.end(),n); std::set<size_t> w; for(size_t a:ix)for(size_t b:ix) if(a!=b) w.insert(a*n+b); c.check(ks==w,"keys-from-indices",[&]{ return vp::str(ix); }); }
  c.nontrivial(sets>1); }
// ---- the cost of assigning one mode to another
struct Lay { int s,v,m,span,how; double w[3]; }; static Lay lay(vp::Case& c,bool cplx){ Lay l; l.s=(int)c.i(0,3); l.v=(int)c.i(0,2); l.m=(int)c.i(0,2); if(!(l.s+l.v+l.m)) l.s=1; l.span=l.s+3*l.v+9*l.m; l.how=(int)c.i(-1,5); if(l.how==2&&cplx) l.how=1; for(auto&x:l.w) x=c.p(20)?0:c.p(30)?1:c.real(0.1,5); return l; }
template<class S> static L cost(const Lay& l,const S* a,const S* b,bool phase){ using C=std::complex<L>; std::vector<C> x,y; for(int i=0;i<l.span;++i){ x.emplace_back((C)a[i]); y.emplace_back((C)b[i]); } auto in=[&](int p,int q,auto f){ C t=0; for(int i=p;i<q;++i) t+=f(x[i],y[i]); return t; }; if(phase&&std::is_same_v<S,cd>){ C h=in(0,l.span,[](C p,C q){ return std::conj(p)*q; }); if(std::abs(h)>0) for(auto&v:y) v*=std::conj(h)/std::abs(h); }
  L sc=0,vc=0,mc=0; for(int i=0;i<l.s;++i) sc+=std::abs(x[i]-y[i]); int p=l.s,q=l.s+3*l.v; if(l.v){ L na=std::sqrt(in(p,q,[](C a,C){ return C(std::norm(a)); }).real()),nb=std::sqrt(in(p,q,[](C,C b){ return C(std::norm(b)); }).real()); C h=in(p,q,[](C a,C b){ return std::conj(a)*b; }); L d=std::sqrt(in(p,q,[](C a,C b){ return C(std::norm(a-b)); }).real()); auto ac=[](L t){ return std::acos(std::min(1.0L,std::max(-1.0L,t))); }; bool none=na*nb==0; L eu=none?((na!=0||nb!=0)?m3::PI/2:0):ac(h.real()/(na*nb)),he=std::is_same_v<S,cd>?(none?eu:ac(std::abs(h)/(na*nb))):eu; vc=l.how==1?d:l.how==2?1-h.real():l.how==3?eu:l.how==4?he:std::sin(he)*std::sin(he); } for(int k=0;k<l.m;++k){ int u=q+9*k; L t=0; for(int i=u;i<u+9;++i) t+=std::norm(x[i]-y[i]); mc+=std::sqrt(t); } return l.w[0]*sc+l.w[1]*vc+l.w[2]*mc; }
template<class T,class R> static void costs(vp::Case& c){ int p=(int)c.i(2,4),nb=(int)c.i(1,5); Lay lv=lay(c,std::is_same_v<T,cd>),lw=lay(c,std::is_same_v<R,cd>); c.note("points and modes",std::vector<int>{p,nb}); c.note("values",std::vector<int>{lv.s,lv.v,lv.m,lv.how}); c.note("vectors",std::vector<int>{lw.s,lw.v,lw.m,lw.how}); brille::Array<T> dv(brille::shape_t{(ind_t)p,(ind_t)nb,(ind_t)lv.span}); brille::Array<R> dw(brille::shape_t{(ind_t)p,(ind_t)nb,(ind_t)lw.span}); std::vector<T> a; std::vector<R> b; auto gen=[&](auto& to,auto& arr,int span){ using S=std::decay_t<decltype(to[0])>; for(int i=0;i<p;++i)for(int m=0;m<nb;++m)for(int e=0;e<span;++e){ S v=coef<S>(c); if(c.p(15)) v=S(0); if(i&&c.p(25)) v=to[((i-1)*nb+m)*span+e]; to.push_back(v); arr.val(brille::shape_t{(ind_t)i,(ind_t)m,(ind_t)e})=v; } }; gen(a,dv,lv.span); gen(b,dw,lw.span);
  auto el=[](const Lay& l){ return El{(ind_t)l.s,(ind_t)(3*l.v),(ind_t)(9*l.m)}; }; std::array<double,3> wv{lv.w[0],lv.w[1],lv.w[2]},ww{lw.w[0],lw.w[1],lw.w[2]}; bool later=c.b(); brille::Interpolator<T> iv=later?brille::Interpolator<T>(dv,el(lv),RotatesLike::vector,LengthUnit::real_lattice):brille::Interpolator<T>(dv,el(lv),RotatesLike::vector,LengthUnit::real_lattice,0,lv.how,wv); brille::Interpolator<R> iw=later?brille::Interpolator<R>(dw,el(lw),RotatesLike::vector,LengthUnit::real_lattice):brille::Interpolator<R>(dw,el(lw),RotatesLike::vector,LengthUnit::real_lattice,0,lw.how,ww); brille::DualInterpolator<T,R> d(iv,iw); if(later){ d.set_value_cost_info(0,lv.how,wv); d.set_vector_cost_info(0,lw.how,ww); }
  for(int i=0;i<p;++i)for(int j=0;j<p;++j){ auto m=d.cost_matrix((ind_t)i,(ind_t)j); c.check(m.size()==(size_t)(nb*nb),"cost-size"); for(int x=0;x<nb;++x)for(int y=0;y<nb;++y){ double got=(double)m[x*nb+y]; if(i==j){ c.check(x==y?got<0:got==0,"cost-same-point"); continue; } L want=cost(lv,&a[(i*nb+x)*lv.span],&a[(j*nb+y)*lv.span],false)+cost(lw,&b[(i*nb+x)*lw.span],&b[(j*nb+y)*lw.span],true); c.check(std::abs(got-(double)want)<=2e-6*(1+(double)std::abs(want)),"cost",[&]{ return "mode "+vp::str(x)+" of point "+vp::str(i)+" to mode "+vp::str(y)+" of point "+vp::str(j)+": "+vp::str(got)+" expected "+vp::str((double)want); }); } }
  c.nontrivial(nb>1); }
VP_PROP(cost,200000,6000000){ int k=(int)c.draw(3); if(k==0) costs<double,double>(c); else if(k==1) costs<double,cd>(c); else costs<cd,cd>(c); }
// ---- sorting and interpolating
static L best(const std::vector<double>& m,int n){ std::vector<L> f((size_t)1<<n,1e300L); f[0]=0; for(size_t s=0;s<f.size();++s){ int r=__builtin_popcountll(s); if(r==n) break; for(int j=0;j<n;++j) if(!(s>>j&1)) f[s|(size_t)1<<j]=std::min(f[s|(size_t)1<<j],f[s]+(L)m[r*n+j]); } return f.back(); }
template<class T,class R> static void sorts(vp::Case& c){ auto s=setup(c); std::optional<BZ> made; try{ made.emplace(s.k.lat,s.cfg); }catch(const std::runtime_error&){ c.discard(); } const BZ& z=*made; if(crowded(z)) c.discard(); L vol=std::abs((L)z.get_ir_polyhedron().volume()); Par p=par(c,(double)vol,8); auto g=make<T,R>(z,p); BA x=g->xyz(); ind_t N=(ind_t)g->size(); int nb=(int)c.i(1,c.thorough?7:5); bool known=c.b(); c.label(known?"known modes":"random modes"); c.note("modes",nb); Lay lv=lay(c,std::is_same_v<T,cd>),lw=lay(c,std::is_same_v<R,cd>); if(known){ if(!lv.s){ lv.s=1; lv.span+=1; } lv.w[0]=c.real(1,3); } L mag=0; for(ind_t i=0;i<N;++i) mag=std::max(mag,m3::norm(vec(x,i)));
  // known modes differ by 40 in their first scalar, everything else changes little; their order is shuffled at every point
  std::vector<std::array<double,3>> sl(nb); for(auto&q:sl) for(auto&v:q) v=c.sreal(0.5); std::vector<std::vector<T>> v0(N*nb); std::vector<std::vector<R>> w0(N*nb); std::vector<std::vector<R>> u0(nb); for(auto&u:u0) for(int e=0;e<lw.span;++e) u.push_back(coef<R>(c)); for(ind_t i=0;i<N;++i){ V y=m3::sc(vec(x,i),1/mag); for(int b=0;b<nb;++b){ auto& v=v0[i*nb+b]; for(int e=0;e<lv.span;++e) v.push_back(coef<T>(c)); if(known) v[0]=T(40.0*b+sl[b][0]*(double)y[0]+sl[b][1]*(double)y[1]+sl[b][2]*(double)y[2]); R am(c.real(0.5,1)); if constexpr(std::is_same_v<R,cd>) am*=std::polar(1.,c.real(-M_PI,M_PI)); for(int e=0;e<lw.span;++e) w0[i*nb+b].push_back(known?am*u0[b][e]:coef<R>(c)); } }
  if(known){ double extra=0; extra+=lv.w[0]*2*1.5*(lv.s-1)+lv.w[1]*10+lv.w[2]*2*10+lw.w[0]*2*1.5*lw.s+lw.w[1]*20+lw.w[2]*2*10; double need=2*extra+50; double k=std::max(1.0,need/(40*lv.w[0])); for(auto&v:v0) v[0]*=T(k); }
  std::vector<P> sh(N); bool shuf=c.p(80); for(auto&q:sh) q=shuf?aperm(c,nb):ident(nb); brille::Array<T> dv(brille::shape_t{N,(ind_t)nb,(ind_t)lv.span}); brille::Array<R> dw(brille::shape_t{N,(ind_t)nb,(ind_t)lw.span}); auto put=[&](auto& A,auto& src,int span){ for(ind_t i=0;i<N;++i)for(int b=0;b<nb;++b)for(int e=0;e<span;++e) A.val(brille::shape_t{i,(ind_t)b,(ind_t)e})=src[i*nb+sh[i][b]][e]; }; put(dv,v0,lv.span); put(dw,w0,lw.span);
  auto el=[](const Lay& l){ return El{(ind_t)l.s,(ind_t)(3*l.v),(ind_t)(9*l.m)}; }; std::array<double,3> wv{lv.w[0],lv.w[1],lv.w[2]},ww{lw.w[0],lw.w[1],lw.w[2]}; if(c.b()){ brille::Interpolator<T> iv(dv,el(lv),RotatesLike::vector,LengthUnit::real_lattice,0,lv.how,wv); brille::Interpolator<R> iw(dw,el(lw),RotatesLike::vector,LengthUnit::real_lattice,0,lw.how,ww); g->fill(iv,iw); } else { g->values(dv,el(lv),RotatesLike::vector,LengthUnit::real_lattice); g->vectors(dw,el(lw),RotatesLike::vector,LengthUnit::real_lattice); g->vcost(0,lv.how,wv); g->wcost(0,lw.how,ww); }
  std::vector<std::array<double,3>> X; auto vx=z.get_ir_polyhedron().vertices().xyz(); int n=(int)c.i(3,10); for(int i=0;i<n;++i){ V y{0,0,0}; L t=0; for(ind_t j=0;j<vx.size(0);++j){ L f=c.p(15)?0:(L)c.real(0.01,1); y=m3::add(y,m3::sc(vec(vx,j),f)); t+=f; } if(t==0){ y=vec(vx,0); t=1; } X.push_back(m3::d(m3::sc(y,1/t))); } BA Xa=BA::from_std(X); c.note("points",X); std::vector<IW> iws; for(auto&q:X) iws.push_back(g->iw(BA::from_std(std::vector<std::array<double,3>>{q})));
  // is the output what is obtained from the data relabelled by the permutations with respect to one of the contributing points?
  auto mixed=[&](const char* tag,bool perms){ auto out=g->at(Xa,(int)c.pick(std::vector<int>{-1,1,2})); auto& ov=std::get<0>(out); auto& ow=std::get<1>(out); for(int i=0;i<n;++i){ bool ok=false; for(auto& pv:iws[i]){ bool good=true; for(int b=0;b<nb&&good;++b){ std::vector<T> t(lv.span,T(0)); std::vector<R> r(lw.span,R(0)); for(auto&[j,w]:iws[i]){ ind_t pb=perms?g->dual().get_permutation(pv.first,j)[b]:(ind_t)b; for(int e=0;e<lv.span;++e) t[e]+=w*dv.val(brille::shape_t{j,pb,(ind_t)e}); R f(1); if constexpr(std::is_same_v<R,cd>){ cd h=0; for(int e=0;e<lw.span;++e) h+=std::conj(dw.val(brille::shape_t{pv.first,(ind_t)b,(ind_t)e}))*dw.val(brille::shape_t{j,pb,(ind_t)e}); if(std::abs(h)>0) f=std::conj(h)/std::abs(h); } for(int e=0;e<lw.span;++e) r[e]+=w*f*dw.val(brille::shape_t{j,pb,(ind_t)e}); } for(int e=0;e<lv.span;++e) good&=std::abs(t[e]-ov.val(brille::shape_t{(ind_t)i,(ind_t)b,(ind_t)e}))<=1e-9*(1+std::abs(t[e])); for(int e=0;e<lw.span;++e) good&=std::abs(r[e]-ow.val(brille::shape_t{(ind_t)i,(ind_t)b,(ind_t)e}))<=1e-8; } ok|=good; } c.check(ok,tag,[&]{ return "at "+vp::str(X[i])+" between "+vp::str(iws[i].size())+" points"; }); } };
  if(c.b()) mixed("unsorted",false);
  omp_set_num_threads((int)c.pick(std::vector<int>{1,2,4})); g->sort(); if(c.p(15)) g->sort();
  std::set<std::pair<ind_t,ind_t>> pairs; for(auto&w:iws) for(auto&a:w)for(auto&b:w) if(a.first!=b.first) pairs.insert({a.first,b.first}); for(auto&t:g->tets()) if(pairs.size()<60||c.p(5)) for(int a=0;a<4;++a)for(int b=0;b<4;++b) if(a!=b) pairs.insert({t[a],t[b]}); int differ=0;
  for(auto&[i,j]:pairs){ P f=g->dual().get_permutation(i,j),r=g->dual().get_permutation(j,i); auto say=[&]{ return "points "+vp::str((int)i)+" and "+vp::str((int)j)+": "+vp::str(f)+" and "+vp::str(r); }; P so=f; std::sort(so.begin(),so.end()); c.check(so==ident(nb),"not-a-permutation",say); for(int b=0;b<nb;++b) c.check(r[f[b]]==(ind_t)b,"not-inverse",say); std::vector<double> m(nb*nb); for(int a=0;a<nb;++a)for(int b=0;b<nb;++b) m[a*nb+b]=(double)(cost(lv,v0[i*nb+sh[i][a]].data(),v0[j*nb+sh[j][b]].data(),false)+cost(lw,w0[i*nb+sh[i][a]].data(),w0[j*nb+sh[j][b]].data(),true)); L got=0; for(int b=0;b<nb;++b) got+=m[b*nb+f[b]]; L low=best(m,nb); c.check((double)(got-low)<=1e-5*(1+(double)std::abs(low)),"not-least",[&]{ return say()+" costs "+vp::str((double)got)+", the least is "+vp::str((double)low); }); if(known) for(int b=0;b<nb;++b) c.check(sh[j][f[b]]==sh[i][b],"wrong-mode",say); differ+=f!=ident(nb); }
  mixed("sorted",true);
  if(known){ auto out=g->at(Xa,1); auto& ov=std::get<0>(out); auto& ow=std::get<1>(out); for(int i=0;i<n;++i){ std::vector<std::pair<double,int>> o; for(int b=0;b<nb;++b) o.push_back({std::real(cd(ov.val(brille::shape_t{(ind_t)i,(ind_t)b,0u}))),b}); std::sort(o.begin(),o.end()); for(int b=0;b<nb;++b){ int ob=o[b].second; for(int e=0;e<lv.span;++e){ T w=0; for(auto&[j,q]:iws[i]) w+=q*v0[j*nb+b][e]; c.check(std::abs(w-ov.val(brille::shape_t{(ind_t)i,(ind_t)ob,(ind_t)e}))<=1e-9*(1+std::abs(w)),"mode-values",[&]{ return "mode "+vp::str(b)+" at "+vp::str(X[i]); }); } double am=0; for(auto&[j,q]:iws[i]) am+=q*std::abs(cd(w0[j*nb+b][0]))/std::max(1e-300,std::abs(cd(u0[b][0]))); R ph(0); if constexpr(std::is_same_v<R,cd>){ for(int e=0;e<lw.span;++e) ph+=std::conj(u0[b][e])*ow.val(brille::shape_t{(ind_t)i,(ind_t)ob,(ind_t)e}); ph=std::abs(ph)>0?ph/std::abs(ph):R(1); } else { ph=R(1); } if(std::abs(cd(u0[b][0]))>1e-6) for(int e=0;e<lw.span;++e) c.check(std::abs(ow.val(brille::shape_t{(ind_t)i,(ind_t)ob,(ind_t)e})-ph*R(am)*u0[b][e])<=1e-8,"mode-vectors",[&]{ return "mode "+vp::str(b)+" at "+vp::str(X[i]); }); } } }
  // new data has not been sorted
  if(c.p(30)){ if(c.b()) g->values(dv,el(lv),RotatesLike::vector,LengthUnit::real_lattice); else g->vectors(dw,el(lw),RotatesLike::vector,LengthUnit::real_lattice); mixed("replaced",false); c.label("replaced"); }
  // relabelling the modes of one point changes the permutations alone
  c.nontrivial(nb>1&&differ>0); if(differ) c.label("modes exchanged"); }
VP_PROP(sorted,4000,100000,60){ int k=(int)c.draw(3); if(k==0) sorts<double,double>(c); else if(k==1) sorts<double,cd>(c); else sorts<cd,cd>(c); }
// ---- the flags and visit count of a grid point while its modes are sorted
VP_PROP(status,300000,4000000){ using St=brille::SortingStatus; struct Mo { bool s=false,l=false,q=false,k=false; unsigned v=0; } m; const unsigned most=0xffffffffu>>4; auto count=[&]()->unsigned{ return c.p(20)?most-(unsigned)c.draw(4):c.p(50)?(unsigned)c.draw(5):(unsigned)c.draw(1u<<20); };
  St x; if(c.b()){ m.s=c.b(); m.l=c.b(); m.v=count(); x=St(m.s,m.l,m.v); } std::string last="construction"; auto agree=[&]{ c.check(x.sorted()==m.s&&x.locked()==m.l&&x.queued()==m.q&&x.claimed()==m.k&&x.visits()==m.v&&x.visited()==(m.v>0)&&x.is_queable()==!(m.s||m.l||m.q||m.k),"status",[&]{ return "after "+last+": sorted "+vp::str(x.sorted())+" locked "+vp::str(x.locked())+" queued "+vp::str(x.queued())+" claimed "+vp::str(x.claimed())+" visits "+vp::str(x.visits())+", expected "+vp::str(m.s)+" "+vp::str(m.l)+" "+vp::str(m.q)+" "+vp::str(m.k)+" "+vp::str(m.v); }); };
  agree(); int n=(int)c.i(1,12); c.nontrivial(n>3); for(int i=0;i<n;++i){ bool b=c.b(); switch(c.draw(7)){ case 0: last="sorted"; m.s=b; c.check(x.sorted(b)==b,"status-result"); break; case 1: last="locked"; m.l=b; c.check(x.locked(b)==b,"status-result"); break; case 2: last="queued"; m.q=b; c.check(x.queued(b)==b,"status-result"); break; case 3: last="claimed"; m.k=b; c.check(x.claimed(b)==b,"status-result"); break;
    case 4: { unsigned v=count(); bool over=c.p(10); if(over) v=most+1+(unsigned)c.draw(9); last="visits "+vp::str(v); bool t=vp::throws([&]{ x.visits(v); }); c.check(t==over,"status-overflow",last); if(!over) m.v=v; break; }
    case 5: { last="addvisit"; bool t=vp::throws([&]{ x.addvisit(); }); c.check(t==(m.v==most),"status-overflow",last); if(!t) ++m.v; break; }
    default: { unsigned k=c.p(50)?m.v:count(); last="unlocked_addvisit_unsorted "+vp::str(k); if(m.v==most&&k>m.v) break; bool w=!m.l&&!m.s; if(!m.l){ if(m.v<k) ++m.v; else m.l=true; } c.check(x.unlocked_addvisit_unsorted(k)==w,"status-result",last); } } agree(); }
  std::string w=std::string(m.s?"sorted":"")+(m.s&&m.l?" and ":"")+(m.l?"locked":"")+(m.s||m.l?" in ":"")+std::to_string(m.v)+" visits"; c.check(x.to_string()==w,"status-text",[&]{ return x.to_string(); }); }
VP_MAIN
