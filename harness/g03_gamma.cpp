// G03: atom displacements transform with the Gamma matrices
#include "grid.hpp"
#include "atoms.hpp"
#include <optional>
using zn::V; using zn::M; using zn::L; using zn::QV; using zn::BZ; using zn::vec; using gr::cd; using gr::El; using brille::ind_t; using brille::RotatesLike; using brille::LengthUnit; using IV=brille::lattice::LVec<int>; using CM=std::vector<cd>;
static CM mm(const CM& a,const CM& b,int n){ CM o(n*n); for(int i=0;i<n;++i)for(int k=0;k<n;++k){ cd x=a[n*i+k]; if(x!=cd(0)) for(int j=0;j<n;++j) o[n*i+j]+=x*b[n*k+j]; } return o; }
static CM dag(const CM& a,int n){ CM o(n*n); for(int i=0;i<n;++i)for(int j=0;j<n;++j) o[n*i+j]=std::conj(a[n*j+i]); return o; }
static double dist(const CM& a,const CM& b){ double m=0; for(size_t i=0;i<a.size();++i) m=std::max(m,std::abs(a[i]-b[i])); return m; }
// springs between all pairs of atoms closer than rc, of strength depending only on their types and distance
struct Springs { M A; std::vector<V> x; std::vector<unsigned> ty; L rc; int span[3]; std::map<std::pair<unsigned,unsigned>,std::array<L,2>> f;
  CM D(const V& q) const { int N=(int)x.size(),n=3*N; CM o(n*n); for(int k=0;k<N;++k)for(int l=0;l<N;++l){ auto ff=f.at({std::min(ty[k],ty[l]),std::max(ty[k],ty[l])}); V d0=m3::sub(x[l],x[k]); V c0; for(int j=0;j<3;++j) c0[j]=std::round(-d0[j]); for(int a=-span[0];a<=span[0];++a)for(int b=-span[1];b<=span[1];++b)for(int g=-span[2];g<=span[2];++g){ V r{c0[0]+a,c0[1]+b,c0[2]+g}; V d=m3::mul(A,m3::add(d0,r)); L r2=m3::dot(d,d); if(r2>=rc*rc||r2<1e-12L) continue; L s=1-r2/(rc*rc); s=s*s*s; L ph=2*m3::PI*m3::dot(q,r); cd e(std::cos((double)std::remainder(ph,2*m3::PI)),std::sin((double)std::remainder(ph,2*m3::PI))); for(int i=0;i<3;++i)for(int j=0;j<3;++j){ L v=s*(ff[0]*d[i]*d[j]/r2+(i==j?ff[1]:0)); o[n*(3*k+i)+3*l+j]-=(double)v*e; o[n*(3*k+i)+3*k+j]+=(double)v; } } } return o; } };
VP_PROP(gamma,3000,60000,60){ int hall=gen::hall(c); const Group& G=group(hall); Atoms at; if(!atoms(c,G,at,c.thorough?16:12)) c.discard(); auto s=gr::setup(c,3,9,hall); auto pos=dbl(at.x); std::vector<ind_t> ty(at.type.begin(),at.type.end()); c.note("positions",pos); c.note("types",at.type); int N=(int)pos.size(),n=3*N; s.k.lat.basis(brille::Basis(pos,ty),false);
  // is {-1|0} combined with the spacegroup a symmetry of these atoms?
  bool centred=true; for(int k=0;k<N;++k){ bool hit=false; for(int l=0;l<N;++l) hit|=ty[l]==ty[k]&&::dist(m3::sc(at.x[k],-1),at.x[l])<1e-9L; centred&=hit; } bool odd=s.trev&&!s.k.inv&&!centred; if(s.trev&&!s.k.inv) c.label("time reversal added");
  if(odd&&!c.p(25)){ s.trev=odd=false; s.cfg.time_reversal(false); c.note("time reversal left out",true); } std::optional<BZ> made; try{ made.emplace(s.k.lat,s.cfg); }catch(const std::runtime_error&){ c.discard(); } const BZ& z=*made; if(gr::crowded(z)) c.discard(); L vol=std::abs((L)z.get_ir_polyhedron().volume()); auto p=gr::par(c,(double)vol,4); auto g=gr::make<cd,cd>(z,p); ind_t P=(ind_t)g->size(); M A=s.k.real,B=s.k.rec,iB=m3::inv(B);
  Springs sp; sp.A=A; sp.x=at.x; sp.ty=at.type; { L m=1e9L; for(int j=0;j<3;++j) m=std::min(m,m3::norm(V{A[j],A[3+j],A[6+j]})); sp.rc=m*1.1L; for(int j=0;j<3;++j) sp.span[j]=(int)std::ceil((double)(sp.rc*m3::norm(V{B[j],B[3+j],B[6+j]})/(2*m3::PI)+0.5L)); for(auto a:at.type)for(auto b:at.type) if(a<=b&&!sp.f.count({a,b})) sp.f[{a,b}]={(L)c.real(0.2,1),(L)c.real(0.05,0.5)}; }
  bool cart=c.b(); LengthUnit lu=cart?LengthUnit::angstrom:LengthUnit::real_lattice; c.label(cart?"angstrom":"lattice units"); int ns=(int)c.i(0,2); bool tens=N<=(c.thorough?6:4)&&c.p(70); c.note("unit",cart?"angstrom":"lattice");
  // vectors: mode b is a displacement of one atom along one axis, the same everywhere
  brille::Array<cd> dw(brille::shape_t{P,(ind_t)n,(ind_t)(ns+n)},cd(0)); std::vector<cd> sc(ns); for(auto&v:sc) v=cd(c.sreal(1),c.sreal(1)); for(ind_t i=0;i<P;++i)for(int b=0;b<n;++b){ for(int e=0;e<ns;++e) dw.val(brille::shape_t{i,(ind_t)b,(ind_t)e})=sc[e]; dw.val(brille::shape_t{i,(ind_t)b,(ind_t)(ns+b)})=1; }
  CM D0(n*n); if(tens) for(auto&v:D0) v=cd(c.sreal(1),c.sreal(1)); ind_t ve=tens?(ind_t)(1+9*N*N):1; brille::Array<cd> dv(brille::shape_t{P,(ind_t)n,ve},cd(0)); for(ind_t i=0;i<P;++i)for(int b=0;b<n;++b){ dv.val(brille::shape_t{i,(ind_t)b,0u})=cd(b+1,0); if(tens) for(int k=0;k<N;++k)for(int l=0;l<N;++l)for(int x=0;x<3;++x)for(int y=0;y<3;++y) dv.val(brille::shape_t{i,(ind_t)b,(ind_t)(1+9*(k*N+l)+3*x+y)})=D0[n*(3*k+x)+3*l+y]*double(b+1); }
  brille::Interpolator<cd> iv(dv,El{1u,0u,ve-1},tens?RotatesLike::Gamma:RotatesLike::vector,tens?lu:LengthUnit::real_lattice),iw(dw,El{(ind_t)ns,(ind_t)n,0u},RotatesLike::Gamma,lu); g->fill(iv,iw);
  auto ps=z.get_pointgroup_symmetry(); auto vx=z.get_ir_polyhedron().vertices().xyz(); int m=(int)c.i(1,6); std::vector<std::array<double,3>> Q; for(int i=0;i<m;++i){ std::array<double,3> q; int kd=(int)c.draw(4); if(kd==0){ for(auto&v:q) v=c.sreal(c.p(80)?1:4); } else if(kd==1){ int d=(int)c.pick(std::vector<int>{1,2,3,4,6}); for(auto&v:q) v=(double)c.si(3*d)/d; } else { V y{0,0,0}; if(kd==2) y=vec(vx,(ind_t)c.draw(vx.size(0))); else { L t=0; for(ind_t j=0;j<vx.size(0);++j){ L f=(L)c.real(0,1)+1e-3L; y=m3::add(y,m3::sc(vec(vx,j),f)); t+=f; } y=m3::sc(y,1/t); } V h=m3::mul(iB,y); auto R=ps.get((ind_t)c.draw(ps.size())); V o; for(int a=0;a<3;++a) o[a]=R[a]*h[0]+R[3+a]*h[1]+R[6+a]*h[2]; q=m3::d(o); } Q.push_back(q); }
  c.note("Q",Q); auto Qv=zn::qlist(s.k.lat,Q); QV q(gen::QS,s.k.lat,0u); IV t(gen::QS,s.k.lat,0u); std::vector<size_t> ri,ii; c.check(z.ir_moveinto(Qv,q,t,ri,ii,1),"moved"); std::optional<gr::Grid<cd,cd>::Out> out; try{ out=g->ir(Qv,(int)c.pick(std::vector<int>{1,1,2})); }catch(const std::runtime_error& e){ if(odd){ c.label("not centrosymmetric"); return; } throw; } auto& ov=std::get<0>(*out); auto& ow=std::get<1>(*out); c.check(ow.shape()==brille::shape_t{(ind_t)m,(ind_t)n,(ind_t)(ns+n)}&&ov.shape()==brille::shape_t{(ind_t)m,(ind_t)n,ve},"shape");
  bool some=false; M iA=m3::inv(A); for(int i=0;i<m;++i){ auto say=[&]{ return "Q "+vp::str(Q[i])+" q "+vp::str(std::array<double,3>{q.val(i,0),q.val(i,1),q.val(i,2)})+" operation "+vp::str(ps.get((ind_t)ri[i])); }; CM g0(n*n); for(int b=0;b<n;++b)for(int e=0;e<n;++e) g0[n*e+b]=ow.val(brille::shape_t{(ind_t)i,(ind_t)b,(ind_t)(ns+e)}); for(int b=0;b<n;++b)for(int e=0;e<ns;++e) c.check(std::abs(ow.val(brille::shape_t{(ind_t)i,(ind_t)b,(ind_t)e})-sc[e])<1e-10,"scalar",say);
    CM gm=g0; if(!cart){ CM U(n*n),W(n*n); for(int k=0;k<N;++k)for(int x=0;x<3;++x)for(int y=0;y<3;++y){ U[n*(3*k+x)+3*k+y]=(double)A[3*x+y]; W[n*(3*k+x)+3*k+y]=(double)iA[3*x+y]; } gm=mm(mm(U,g0,n),W,n); }
    CM one(n*n); for(int b=0;b<n;++b) one[n*b+b]=1; double cond=(double)(m3::maxabs(A)*m3::maxabs(iA)); double u=dist(mm(dag(gm,n),gm,n),one); c.check(u<=1e-10*cond,"not-unitary",[&]{ return say()+" off by "+vp::str(u); }); V qi{(L)q.val(i,0),(L)q.val(i,1),(L)q.val(i,2)},Qi{(L)Q[i][0],(L)Q[i][1],(L)Q[i][2]}; CM Dq=sp.D(qi),DQ=sp.D(Qi); double sz=0; for(auto&v:Dq) sz=std::max(sz,std::abs(v)); double d=dist(mm(mm(gm,Dq,n),dag(gm,n),n),DQ); c.check(d<=1e-9*cond*(1+sz),"dynamical-matrix",[&]{ return say()+" dynamical matrix differs by "+vp::str(d)+" of "+vp::str(sz); }); some|=dist(Dq,DQ)>1e-3*sz&&sz>0;
    if(tens){ CM gi=dag(gm,n); if(!cart){ CM U(n*n),W(n*n); for(int k=0;k<N;++k)for(int x=0;x<3;++x)for(int y=0;y<3;++y){ U[n*(3*k+x)+3*k+y]=(double)A[3*x+y]; W[n*(3*k+x)+3*k+y]=(double)iA[3*x+y]; } gi=mm(mm(W,gi,n),U,n); } CM want=mm(mm(g0,D0,n),gi,n); for(int b=0;b<n;++b){ c.check(std::abs(ov.val(brille::shape_t{(ind_t)i,(ind_t)b,0u})-double(b+1))<1e-10,"value-scalar",say); CM got(n*n); for(int k=0;k<N;++k)for(int l=0;l<N;++l)for(int x=0;x<3;++x)for(int y=0;y<3;++y) got[n*(3*k+x)+3*l+y]=ov.val(brille::shape_t{(ind_t)i,(ind_t)b,(ind_t)(1+9*(k*N+l)+3*x+y)})/double(b+1); double e=dist(got,want); c.check(e<=1e-9*cond*cond,"tensors",[&]{ return say()+" off by "+vp::str(e); }); } c.label("tensors"); } }
  c.nontrivial(some); if(some) c.label("rotated");
  // the wrong number of displacements, or real data, can not be transformed
  if(c.p(8)){ int w=c.b()?n+3:n-3; if(w>0){ brille::Array<cd> dx(brille::shape_t{P,1u,(ind_t)w},cd(1)); brille::Array<cd> d1(brille::shape_t{P,1u,1u},cd(1)); brille::Interpolator<cd> i1(d1,El{1u,0u,0u},RotatesLike::vector,LengthUnit::real_lattice),i2(dx,El{0u,(ind_t)w,0u},RotatesLike::Gamma,lu); g->fill(i1,i2); c.check(vp::throws([&]{ g->ir(Qv,1); }),"wrong-number-of-atoms"); c.label("wrong number of atoms"); } } }
VP_MAIN
