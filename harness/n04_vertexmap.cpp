// N04: vertex maps of any partition of nodes, combined in any order, against a set of positions
#include "vp.hpp"
#include <map>
#include <mutex>
#include <cassert>
#include <iostream>
#include <set>
#include <omp.h>
#include "array_.hpp"
#include "approx_config.cpp"
#include "vertex_map_knit.h"
using namespace brille;
template<class T> using Set=VertexMapSet<T,Array2>; template<class T> using Pair=std::pair<Set<T>,VertexIndexMap>;
using Key=std::array<long,3>;
template<class T> struct World{ std::vector<Key> pristine,extra; T unit; int digits; T tol; Array2<T> P; std::map<ind_t,std::vector<Key>> want; };
template<class T> static Array2<T> point(vp::Case& c,const World<T>& w,const Key& k,bool jitter){ Array2<T> v(1u,3u); for(ind_t j=0;j<3;++j){ T x=(T)k[j]*w.unit; if(jitter&&c.p(30)) x+=x*std::numeric_limits<T>::epsilon()*(T)c.si(8); v[j]=x; } return v; }
template<class T> static Key key(const World<T>& w,const Array2<T>& a,ind_t i){ Key k; for(ind_t j=0;j<3;++j) k[j]=std::lround((double)(a.val(i,j)/w.unit)); return k; }
template<class T> static World<T> world(vp::Case& c){ World<T> w; w.unit=c.pick({T(1),T(0.125),T(0.1)}); w.digits=std::is_same_v<T,float>?1:(int)c.pick({1,10,100,1000}); w.tol=c.pick({T(0),T(1e-5),T(1e-12)}); int m=(int)c.i(1,3); std::set<Key> seen; size_t np=(size_t)c.i(1,12); auto fresh=[&](){ Key k; int tries=0; do{ for(auto&x:k)x=c.si(m+tries/20); ++tries; }while(seen.count(k)); seen.insert(k); return k; }; if(c.p(60)){ Key o{0,0,0}; seen.insert(o); w.pristine.push_back(o); --np; if(!np) np=0; } for(size_t i=0;i<np;++i) w.pristine.push_back(fresh()); c.shuffle(w.pristine); bool zero=seen.count(Key{0,0,0}); size_t ne=(size_t)c.i(0,10); if(ne&&!zero&&c.b()){ w.extra.push_back(Key{0,0,0}); seen.insert(Key{0,0,0}); } while(w.extra.size()<ne) w.extra.push_back(fresh());
  w.P=Array2<T>((ind_t)w.pristine.size(),3u); for(ind_t i=0;i<w.pristine.size();++i) for(ind_t j=0;j<3;++j) w.P.val(i,j)=(T)w.pristine[i][j]*w.unit; return w; }
template<class T> static Pair<T> part(vp::Case& c,World<T>& w,const std::vector<ind_t>& nodes,std::vector<std::string>& did){
  Set<T> s(w.P,w.tol,w.digits); VertexIndexMap m; for(auto n: nodes){ std::string d="node "+std::to_string(n)+":"; int nv=(int)c.i(1,6); for(int q=0;q<nv;++q){ VertexIndexMap::rel_t r; Key k; bool ex=!w.extra.empty()&&c.p(45); if(ex){ k=w.extra[(size_t)c.draw(w.extra.size())]; auto p=point(c,w,k,true); int how=(int)c.draw(3); r= how==0? s.add(p): how==1? s.add(p,AddVertexType::Crafted): s.add(p,AddVertexType::Pristine); if(k==Key{0,0,0}&&c.p(50)){ auto z=s.origin_index(); c.check(z==r,"origin-index"); } d+=" x"+vp::str(k); } else { size_t i=(size_t)c.draw(w.pristine.size()); k=w.pristine[i]; if(c.p(30)) r=s.preserve((ind_t)i); else { auto p=point(c,w,k,true); r=s.add(p,c.b()?AddVertexType::Unknown:AddVertexType::Pristine); } c.check(r.first==MapVertexType::Pristine,"original-not-recognised",[&]{return vp::str(k);}); d+=" p"+vp::str(k); } m.append(n,r); w.want[n].push_back(k); } did.push_back(d); }
  return std::make_pair(s,m); }
// every node of a pair decodes to the recorded positions
template<class T> static void decoded(vp::Case& c,const World<T>& w,const Pair<T>& p,const std::vector<ind_t>& nodes,const char* tag){
  if(p.first.preserved_count()+p.first.appended_count()==0){ c.check(nodes.empty()&&p.second.size()==0,tag); return; } // nothing recorded yet: there is nothing to consolidate
  auto con=p.first.consolidate(); auto v=con.pristine(); ind_t off=p.first.preserved_count(); std::set<Key> used; for(auto n: nodes){ c.check(p.second.has(n),tag,[&]{return "node "+std::to_string(n)+" lost";}); auto idx=p.second.decode(off,n); const auto& e=w.want.at(n); c.check(idx.size()==e.size(),tag,"number of vertices changed"); for(size_t q=0;q<idx.size();++q){ c.check(idx[q]<v.size(0),tag,[&]{return "node "+std::to_string(n)+" index out of bounds";}); c.check(p.second.decode(off,n,(ind_t)q)==idx[q],tag,"single and whole decode differ"); Key g=key(w,v,idx[q]); c.check(g==e[q],tag,[&]{return "node "+std::to_string(n)+" vertex "+std::to_string(q)+" is "+vp::str(g)+" recorded "+vp::str(e[q]);}); used.insert(g); } }
  c.check(v.size(0)==used.size(),tag,[&]{return std::to_string(v.size(0))+" stored for "+std::to_string(used.size())+" distinct positions";}); c.check(p.second.size()==nodes.size(),tag,"number of nodes");
  for(ind_t i=0;i<v.size(0);++i) for(ind_t j=0;j<i;++j) c.check(key(w,v,i)!=key(w,v,j),tag,"position stored twice"); c.check(con.preserved_count()==v.size(0)&&con.appended_count()==0,tag,"consolidated counts"); c.check(con.is_consolidated(),tag,"what was consolidated claims not to be"); if(p.first.appended_count()) c.check(!p.first.is_consolidated(),tag,"appended vertices, but claims to be consolidated"); }
// a consolidated pair: indexes address its list directly
template<class T> static void direct(vp::Case& c,const World<T>& w,const Pair<T>& p,const std::vector<ind_t>& nodes,const char* tag){ auto v=p.first.pristine(); std::set<Key> used; for(auto n: nodes){ const auto& m=p.second.get(n); const auto& e=w.want.at(n); c.check(m.size()==e.size(),tag); for(size_t q=0;q<m.size();++q){ c.check(m[q].first==MapVertexType::Pristine&&m[q].second<v.size(0),tag,"not a consolidated index"); Key g=key(w,v,m[q].second); c.check(g==e[q],tag,[&]{return "node "+std::to_string(n)+" vertex "+std::to_string(q)+" is "+vp::str(g)+" recorded "+vp::str(e[q]);}); used.insert(g); } } c.check(used.size()==v.size(0),tag,[&]{return std::to_string(v.size(0))+" stored for "+std::to_string(used.size())+" distinct positions";}); }
template<class T> static void maps(vp::Case& c){
  omp_set_num_threads((int)c.pick({1,1,2,4})); auto w=world<T>(c); size_t np=(size_t)c.i(1,9); std::vector<std::vector<ind_t>> nodes(np); ind_t nn=(ind_t)c.i(1,14); std::vector<ind_t> all; for(ind_t n=0;n<nn;++n){ ind_t id=n*(ind_t)1+(c.b()?0:0); nodes[(size_t)c.draw(np)].push_back(id); all.push_back(id); } for(auto&l:nodes) c.shuffle(l);
  c.note("unit,tolerance,digits",std::vector<double>{(double)w.unit,(double)w.tol,(double)w.digits}); c.note("pristine",w.pristine); std::vector<Pair<T>> parts; std::vector<std::vector<std::string>> did(np); for(size_t i=0;i<np;++i) parts.push_back(part(c,w,nodes[i],did[i])); c.note("parts",did); if(np>1&&nn>2) c.nontrivial(); if(!w.extra.empty()) c.label("extras");
  for(size_t i=0;i<np;++i){ decoded(c,w,parts[i],nodes[i],"one-part"); if(nodes[i].empty()) continue; auto cp=parts[i]; auto cc=vertex_maps::steps::consolidate_pair(cp); direct(c,w,cc,nodes[i],"consolidated-part"); c.check(!cp.second.has_second(),"second-flag"); }
  if(np==1){ decoded(c,w,vertex_maps::reduce(parts),all,"reduce-one"); decoded(c,w,vertex_maps::parallel_reduce(parts),all,"reduce-one"); }
  else { auto a=vertex_maps::reduce(parts); direct(c,w,a,all,"reduce"); auto b=vertex_maps::parallel_reduce(parts); direct(c,w,b,all,"parallel-reduce"); c.check(a.first.pristine().size(0)==b.first.pristine().size(0)&&a.second.data()==b.second.data(),"reduce-differs-from-parallel"); c.check(a.first.is_consolidated()||a.first.preserved_count()==a.first.pristine_count(),"not-consolidated"); }
  // any order and grouping, inputs unchanged
  { std::vector<std::pair<Pair<T>,std::vector<ind_t>>> pool; for(size_t i=0;i<np;++i) pool.emplace_back(parts[i],nodes[i]); while(pool.size()>1){ size_t i=(size_t)c.draw(pool.size()); auto x=pool[i]; pool.erase(pool.begin()+(long)i); size_t j=(size_t)c.draw(pool.size()); auto y=pool[j]; pool.erase(pool.begin()+(long)j); auto z=vertex_maps::combine(x.first,y.first); decoded(c,w,x.first,x.second,"combine-changed-input"); decoded(c,w,y.first,y.second,"combine-changed-input"); auto l=x.second; l.insert(l.end(),y.second.begin(),y.second.end()); decoded(c,w,z,l,"combine"); pool.emplace_back(z,l); } auto z=vertex_maps::steps::consolidate_pair(pool[0].first); direct(c,w,z,all,"combined-consolidated"); 
    if(np>1&&!nodes[0].empty()){ c.check(vp::throws([&]{ auto q=vertex_maps::combine(parts[0],parts[0]); (void)q; }),"shared-nodes-accepted"); } }
  // continuing to record into a combined map
  if(np>1){ auto z=vertex_maps::combine(parts[0],parts[1]); auto l=nodes[0]; l.insert(l.end(),nodes[1].begin(),nodes[1].end()); ind_t n=nn+3; w.want[n].clear(); int nv=(int)c.i(1,5); for(int q=0;q<nv;++q){ bool ex=!w.extra.empty()&&c.b(); Key k= ex? w.extra[(size_t)c.draw(w.extra.size())]: w.pristine[(size_t)c.draw(w.pristine.size())]; z.second.append(n,z.first.add(point(c,w,k,true))); w.want[n].push_back(k); } l.push_back(n); decoded(c,w,z,l,"record-after-combine"); c.check(vp::throws([&]{ (void)z.second.get(n,(ind_t)nv); })&&vp::throws([&]{ const auto& q=z.second; (void)q.get(n+1,0); }),"index-map-bounds"); }
}
VP_PROP(vertex_maps_double,60000,800000,20){ maps<double>(c); }
VP_PROP(vertex_maps_float,30000,300000,20){ maps<float>(c); }
VP_PROP(index_map,100000,1000000,20){ // the node map behaves as a map of lists
  VertexIndexMap m; std::map<ind_t,std::vector<std::pair<int,ind_t>>> e; int steps=(int)c.i(1,30); if(steps>3) c.nontrivial(); auto ty=[](int t){ return t==0?MapVertexType::Pristine:t==1?MapVertexType::Appended:t==2?MapVertexType::SecondPristine:MapVertexType::SecondAppended; };
  for(int s=0;s<steps;++s){ ind_t n=(ind_t)c.draw(5); int t=(int)c.draw(2); ind_t v=(ind_t)c.draw(5); switch(c.draw(5)){ case 0: case 1: m.append(n,{ty(t),v}); e[n].push_back({t,v}); break; case 2: if(e.count(n)&&!e[n].empty()){ ind_t q=(ind_t)c.draw(e[n].size()); m.set(n,q,{ty(t),v}); e[n][q]={t,v}; } break; case 3: { int t2=(int)c.draw(2); ind_t v2=(ind_t)c.draw(5); m.replace({ty(t),v},{ty(t2),v2}); for(auto&p:e)for(auto&x:p.second) if(x==std::make_pair(t,v)) x={t2,v2}; break; } default: { VertexIndexMap o; std::map<ind_t,std::vector<std::pair<int,ind_t>>> oe; int k=(int)c.i(0,3); for(int i=0;i<k;++i){ ind_t nn=(ind_t)c.draw(8); o.append(nn,{ty(t),v}); oe[nn].push_back({t,v}); } bool clash=false; for(auto&p:oe) if(e.count(p.first)) clash=true; else e[p.first]=p.second; c.check(m.merge(o)==clash,"merge-clash"); } } }
  c.check(m.size()==e.size(),"map-size"); auto f=m.first_copy(), s2=m.second_copy(); bool any=false; for(auto&p:e){ c.check(m.has(p.first),"map-has"); auto d=m.decode(100,p.first); for(size_t q=0;q<p.second.size();++q){ any=true; auto x=p.second[q]; c.check(m.get(p.first,(ind_t)q)==std::make_pair(ty(x.first),x.second),"map-get"); c.check(f.get(p.first,(ind_t)q)==m.get(p.first,(ind_t)q),"first-copy"); c.check(s2.get(p.first,(ind_t)q)==std::make_pair(ty(x.first+2),x.second),"second-copy"); c.check(d[q]==x.second+(x.first==1?100u:0u),"map-decode"); } } c.check(s2.has_second()==any&&!m.has_second(),"has-second"); c.check(!m.has(77)&&vp::throws([&]{ (void)m.get(77,0); }),"map-missing"); if(any) c.check(vp::throws([&]{ (void)s2.second_copy(); }),"second-of-second"); }
VP_MAIN
