// shared by the lattice checks
#pragma once
#include "gen.hpp"
#include "array_functions.hpp"
#include "transform.hpp"
#include "bravais.hpp"
namespace gen {
using Lat=bl::Lattice<double>; using LU=brille::LengthUnit; using AU=brille::AngleUnit;
static const L TP=2*m3::PI;
inline const LU RS=LU::angstrom, QS=LU::inverse_angstrom;
inline brille::Symmetry symmetry(int hall){ static std::map<int,brille::Symmetry> m; auto i=m.find(hall); if(i==m.end()) i=m.emplace(hall,brille::Spacegroup(hall).get_spacegroup_symmetry()).first; return i->second; }
inline M colmat(const std::array<double,9>& a){ return m3::mat(a); }
// the dual (times 2 pi) of a column-vector basis, columns
inline M dual(const M& a){ return m3::tr(m3::sc(m3::inv(a),TP)); }
inline void same_mat(vp::Case& c,const std::array<double,9>& got,const M& want,L rel,const char* tag,const std::string& what){ L sc=m3::maxabs(want); L d=m3::maxdiff(m3::mat(got),want); c.check(d<=rel*sc,tag,[&]{ return what+" "+vp::str(got)+" expected "+vp::str(m3::d(want)); }); }
// everything a lattice reports agrees with the oracle's real-space metric (up to a rotation of the frame)
inline void reports(vp::Case& c,const Lat& l,const M& g,L rel,const char* tag){
  M a=colmat(l.real_basis_vectors()), b=colmat(l.reciprocal_basis_vectors()); M gr=m3::sc(m3::inv(g),TP*TP);
  M ab=m3::mul(m3::tr(a),b); L m=m3::maxdiff(ab,m3::sc(m3::eye(),TP)); L cond=std::sqrt(m3::maxabs(g)*m3::maxabs(gr))/TP; c.check(m<=1e-13L*cond*TP*10,tag,[&]{return "a_i.b_j off by "+vp::str((double)m);});
  same_mat(c,m3::d(m3::mul(m3::tr(a),a)),g,rel,tag,"metric of the real vectors"); same_mat(c,m3::d(m3::mul(m3::tr(b),b)),gr,rel,tag,"metric of the reciprocal vectors");
  same_mat(c,l.metric(RS),m3::mul(m3::tr(a),a),1e-13L,tag,"metric(angstrom)"); same_mat(c,l.metric(QS),m3::mul(m3::tr(b),b),1e-13L,tag,"metric(inverse)");
  for(int k=0;k<2;++k){ LU u=k?QS:RS; const M& v=k?b:a; M gm=m3::mul(m3::tr(v),v); V ln,an; m3::cell(gm,ln,an); c.check(l.vectors(u)==(k?l.reciprocal_basis_vectors():l.real_basis_vectors()),tag,"vectors()"); auto le=l.lengths(u); auto ra=l.angles(u,AU::radian), de=l.angles(u,AU::degree), pi=l.angles(u,AU::pi);
    for(unsigned i=0;i<3;++i){ c.close(le[i],(double)ln[i],1e-13*(double)ln[i],tag,"length"); c.close(l.length(u,i),le[i],0,tag,"length(i)"); double ta=1e-12/std::max(1e-3,std::abs(std::sin((double)an[i]))); c.close(ra[i],(double)an[i],ta,tag,"angle in radian"); c.close(de[i],(double)(an[i]*180/m3::PI),60*ta,tag,"angle in degree"); c.close(pi[i],(double)(an[i]/m3::PI),ta,tag,"angle in pi"); c.close(l.angle(u,i,AU::degree),de[i],0,tag,"angle(i)"); c.close(l.angle(u,i),ra[i],0,tag,"angle(i)"); auto x=l.vector(u,i); for(int j=0;j<3;++j) c.check(x[j]==(double)v[3*j+i],tag,"vector(i)"); }
    c.close(l.volume(u),(double)m3::det(v),1e-12*(double)(ln[0]*ln[1]*ln[2]),tag,"volume"); same_mat(c,l.to_xyz(u),v,0,tag,"to_xyz"); M fx=m3::mul(m3::mat(l.from_xyz(u)),v); L fd=m3::maxdiff(fx,m3::eye()); c.check(fd<=1e-13L*cond*10,tag,[&]{return "from_xyz * to_xyz differs from one by "+vp::str((double)fd);}); }
  c.close(l.volume(RS)*l.volume(QS),(double)(TP*TP*TP),1e-12*(double)(TP*TP*TP*cond),tag,"product of the volumes"); }
}
