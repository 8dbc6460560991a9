// S04: spacegroup names, numbers and Hall symbols select the right group
#include "lat.hpp"
#include "sgref.hpp"
#include "hall_symbol.hpp"
#include "spg_database.hpp"
#include "pointgroup.hpp"
#include "approx_config.hpp"
namespace bl=brille::lattice;
using brille::Symmetry; using brille::HallSymbol; using brille::Spacegroup; using brille::Pointgroup; using Mo=brille::Motion<int,double>; using sg::Op; using sg::W9; using sg::T3; using spgtable::row;
static bool key(const Mo& m,Op& o){ o.W=m.getr(); auto t=m.gett(); for(int i=0;i<3;++i){ double q=t[i]*sg::D,r=std::round(q); if(!(std::abs(q-r)<1e-8)) return false; o.t[i]=sg::md((int)r); } return true; }
static std::set<Op> ops(const Symmetry& s,bool& ok){ std::set<Op> o; ok=true; for(auto&m:s.getallm()){ Op k; ok&=key(m,k); ok&=o.insert(k).second; } return o; }
static std::set<Op> want(int h){ auto&t=sg::table(h); return {t.begin(),t.end()}; }
#define GROUP(s,w,tag,what) do{ bool ok_; auto g_=ops(s,ok_); const std::set<Op>& w_=(w); c.check(ok_&&g_==w_,tag,[&]{ return std::string(what)+" has "+vp::str(g_.size())+" operations, expected "+vp::str(w_.size())+(g_.size()==w_.size()?" others":""); }); }while(0)
// the number, names and choice of every setting find it
VP_PROP(lookup,5300,53000){ int h=1+(int)(c.index%530); auto&r=row[h]; c.note("hall",h); c.nontrivial(h>1); Spacegroup s(h); c.check(s.get_hall_number()==h&&s.get_international_table_number()==r.number&&s.get_schoenflies_symbol()==r.schoenflies&&s.get_hall_symbol()==r.hall&&s.get_international_table_symbol()==r.name&&s.get_international_table_full()==r.full&&s.get_international_table_short()==r.brief&&s.get_choice()==r.choice&&s.get_pointgroup_number()==r.pointgroup&&brille::bravais_letter(s.get_bravais_type())==r.bravais,"entry",[&]{ return s.string_repr()+" is not entry "+vp::str(h); });
  std::string names[3]={r.name,r.full,r.brief}; auto&n=names[c.draw(3)]; c.note("name",n); std::string ch=r.choice; c.note("choice",ch); int got=brille::string_to_hall_number(n,ch); c.check(got==h,"name-and-choice",[&]{ return "'"+n+"' with choice '"+ch+"' is setting "+vp::str(got); }); c.check(brille::international_string_to_hall_number(n,ch)==h,"name-and-choice"); got=brille::international_number_to_hall_number(r.number,ch); c.check(got==h,"number-and-choice",[&]{ return "number "+vp::str(r.number)+" with choice '"+ch+"' is setting "+vp::str(got); });
  // without a choice: some setting of that name / number
  got=brille::string_to_hall_number(n); c.check(got>0&&got<531&&(n==row[got].name||n==row[got].full||n==row[got].brief)&&row[got].number==r.number,"name-alone",[&]{ return "'"+n+"' is setting "+vp::str(got); }); got=brille::international_number_to_hall_number(r.number); c.check(got>0&&got<531&&row[got].number==r.number&&(got==1||row[got-1].number!=r.number),"number-alone",[&]{ return "number "+vp::str(r.number)+" is setting "+vp::str(got); });
  // a Hall symbol, whatever the choice
  for(int k=0;k<2;++k){ got=k?brille::string_to_hall_number(r.hall):brille::hall_symbol_to_hall_number(r.hall); c.check(got>0&&got<531&&want(got)==want(h),"hall-symbol",[&]{ return "'"+std::string(r.hall)+"' is setting "+vp::str(got); }); }
  // a choice the group does not have
  std::string bad=ch+"q"; c.check(brille::international_number_to_hall_number(r.number,bad)<=0&&brille::international_string_to_hall_number(n,bad)==0,"unknown-choice"); }
// the group a setting's Hall symbol generates, and what the entry claims of it
static std::string system(const std::vector<W9>& w){ std::map<int,int> n; std::set<W9> ax3; for(auto&m:w) n[std::abs(sg::type(m))]++; int n3=0; for(auto&m:w) if(sg::type(m)==3) ++n3; bool has6=n[6]>0; if(n3==8) return "cubic"; if(has6) return "hexagonal"; if(n[4]) return "tetragonal"; if(n[3]) return "trigonal"; int n2=n[2]; bool inv=false; for(auto&m:w) inv|=sg::type(m)==-1; if(inv) n2/=2; return n2>=3?"orthogonal":n2>=1?"monoclinic":"triclinic"; }
static std::string laue(std::vector<W9> w){ size_t n0=w.size(); for(size_t i=0;i<n0;++i){ auto m=sg::neg(w[i]); if(std::find(w.begin(),w.end(),m)==w.end()) w.push_back(m); } std::string s=system(w); size_t n=w.size(); if(s=="triclinic") return "1"; if(s=="monoclinic") return "2m"; if(s=="orthogonal") return "mmm"; if(s=="tetragonal") return n==8?"4m":"4mmm"; if(s=="trigonal") return n==6?"3":"3m"; if(s=="hexagonal") return n==12?"6m":"6mmm"; return n==24?"m3":"m3m"; }
// the standard (Hermann-Mauguin, Schoenflies) symbol of a point group from its operations
static std::array<std::string,2> symbols(const std::vector<W9>& w){ std::map<int,int> n; for(auto&m:w) n[sg::type(m)]++; size_t N=w.size(); bool I=n[-1]>0; std::string s=system(w); int pr=0; for(auto&m:w) pr+=sg::det(m)>0; bool all=pr==(int)N;
  if(s=="triclinic") return I?std::array<std::string,2>{"-1","Ci"}:std::array<std::string,2>{"1","C1"}; if(s=="monoclinic") return I?std::array<std::string,2>{"2/m","C2h"}:all?std::array<std::string,2>{"2","C2"}:std::array<std::string,2>{"m","Cs"}; if(s=="orthogonal") return I?std::array<std::string,2>{"mmm","D2h"}:all?std::array<std::string,2>{"222","D2"}:std::array<std::string,2>{"mm2","C2v"};
  if(s=="tetragonal"){ if(N==4) return all?std::array<std::string,2>{"4","C4"}:std::array<std::string,2>{"-4","S4"}; if(N==16) return {"4/mmm","D4h"}; if(I) return {"4/m","C4h"}; if(all) return {"422","D4"}; return n[4]?std::array<std::string,2>{"4mm","C4v"}:std::array<std::string,2>{"-42m","D2d"}; }
  if(s=="trigonal"){ if(N==3) return {"3","C3"}; if(N==12) return {"-3m","D3d"}; if(I) return {"-3","C3i"}; return all?std::array<std::string,2>{"32","D3"}:std::array<std::string,2>{"3m","C3v"}; }
  if(s=="hexagonal"){ if(N==6) return all?std::array<std::string,2>{"6","C6"}:std::array<std::string,2>{"-6","C3h"}; if(N==24) return {"6/mmm","D6h"}; if(I) return {"6/m","C6h"}; if(all) return {"622","D6"}; return n[6]?std::array<std::string,2>{"6mm","C6v"}:std::array<std::string,2>{"-6m2","D3h"}; }
  if(N==12) return {"23","T"}; if(N==48) return {"m-3m","Oh"}; if(I) return {"m-3","Th"}; return all?std::array<std::string,2>{"432","O"}:std::array<std::string,2>{"-43m","Td"}; }
VP_PROP(claims,1060,10600){ int h=1+(int)(c.index%530); c.note("hall",h); c.nontrivial(h>1); Spacegroup s(h); auto w=want(h); GROUP(s.get_spacegroup_symmetry(),w,"group","generated group"); HallSymbol hs(s.get_hall_symbol()); c.check(hs.validate(),"hall-symbol-invalid"); GROUP(hs.get_generators().generate(),w,"group","generated group"); std::set<Op> gens; bool ok; gens=ops(hs.get_generators(),ok); for(auto&o:gens) c.check(w.count(o),"generator-not-in-group"); c.check(brille::bravais_letter(hs.getl())==row[h].bravais&&hs.getl()==s.get_bravais_type(),"centring");
  std::set<T3> pure; for(auto&o:w) if(o.W==sg::one()) pure.insert(o.t); size_t nt=row[h].bravais=='P'?1:row[h].bravais=='F'?4:row[h].bravais=='R'?3:2; c.check(pure.size()==nt,"centring-order"); auto pt=sg::points(sg::table(h)); c.check(w.size()==pt.size()*nt,"order"); c.check(row[h].full[0]==row[h].bravais||(row[h].bravais=='P'&&row[h].full[0]=='R'),"centring-letter");
  auto g=s.get_pointgroup(); auto sy=symbols(pt); c.check(g.get_number()==row[h].pointgroup&&g.get_symbol()==sy[0]&&g.get_schoenflies()==sy[1],"point-group",[&]{ return "point group "+g.to_string()+" expected "+sy[0]+" "+sy[1]; }); c.check(g.get_laue_string()==laue(pt)&&brille::my_to_string(g.get_laue())==laue(pt),"laue",[&]{ return "Laue class "+g.get_laue_string()+" expected "+laue(pt); }); c.check(g.get_holohedry_string()==system(pt)&&brille::my_to_string(g.get_holohedry())==system(pt),"holohedry",[&]{ return "holohedry "+g.get_holohedry_string()+" expected "+system(pt); }); std::string sf=row[h].schoenflies; c.check(sf.substr(0,sf.find('^'))==sy[1],"schoenflies"); c.label(system(pt));
  int n=c.b()?c.i(33,400):c.i(-400,-1); c.check(vp::throws([&]{ Pointgroup p(n); }),"point-group-number"); int z=c.b()?c.i(531,5000):c.i(-5000,0); Spacegroup no(z); c.check(no.get_international_table_number()==0&&no.get_hall_symbol().empty()&&no.get_pointgroup_number()==0,"invalid-number"); c.check(!brille::hall_number_ok(z)&&brille::hall_number_ok(h),"number-ok"); c.check(vp::throws([&]{ (void)no.get_spacegroup_symmetry(); }),"invalid-number-has-a-group"); int in=c.b()?c.i(231,4000):c.i(-4000,0); c.check(brille::international_number_to_hall_number(in)<=0,"invalid-international-number"); }
// ---- Hall symbols from their definition
struct Sym { int n; char axis; bool given; std::string t; }; // axis: x y z ' " * or ? (a-b) or 1
struct Hall { char L='P'; bool centro=false; std::vector<Sym> s; T3 shift{0,0,0}; };
static W9 cyc(const W9& m,int k){ W9 r=m; for(;k--;){ W9 q; for(int i=0;i<3;++i)for(int j=0;j<3;++j) q[3*((i+1)%3)+(j+1)%3]=r[3*i+j]; r=q; } return r; }
static W9 rotation_of(const Sym& s,char pre){ W9 m=sg::one(); int k=s.axis=='x'?0:s.axis=='y'?1:2; char a=s.axis; int pk=pre=='x'?0:pre=='y'?1:2; if(a=='?'){ a='\''; pk=2; } switch(std::abs(s.n)){ case 2: if(a=='\'') m=cyc({-1,0,0, 0,0,-1, 0,-1,0},pk); else if(a=='"') m=cyc({-1,0,0, 0,0,1, 0,1,0},pk); else m=cyc({1,0,0, 0,-1,0, 0,0,-1},k); break; case 3: m=a=='*'?W9{0,0,1, 1,0,0, 0,1,0}:cyc({1,0,0, 0,0,-1, 0,1,-1},k); break; case 4: m=cyc({1,0,0, 0,0,-1, 0,1,0},k); break; case 6: m=cyc({1,0,0, 0,1,-1, 0,1,0},k); break; default: break; } return s.n<0?sg::neg(m):m; }
static T3 direction(const Sym& s,char pre){ int k=s.axis=='x'?0:s.axis=='y'?1:2; if(s.axis=='*') return {1,1,1}; if(s.axis=='?') return {1,-1,0}; if(s.axis=='\''||s.axis=='"'){ int p=pre=='x'?0:pre=='y'?1:2; int a=p==0?1:0,b=p==2?1:2; T3 d{0,0,0}; d[a]=1; d[b]=s.axis=='"'?1:-1; return d; } T3 d{0,0,0}; d[k]=1; return d; }
static std::vector<Op> decode(const Hall& h){ const int H=sg::D/2,T=sg::D/3,Q=sg::D/4; std::vector<T3> t{{0,0,0}}; switch(h.L){ case 'A': t.push_back({0,H,H}); break; case 'B': t.push_back({H,0,H}); break; case 'C': t.push_back({H,H,0}); break; case 'I': t.push_back({H,H,H}); break; case 'F': t.push_back({0,H,H}); t.push_back({H,0,H}); t.push_back({H,H,0}); break; case 'R': t.push_back({T,2*T,2*T}); t.push_back({2*T,T,T}); break; default: break; } std::vector<Op> o; for(auto&x:t){ Op p; p.t=x; o.push_back(p); if(h.centro){ p.W=sg::neg(sg::one()); o.push_back(p); } } char pre='!'; for(auto&s:h.s){ Op p; p.W=rotation_of(s,pre); T3 v{0,0,0}; for(char ch:s.t) switch(ch){ case 'a': v[0]+=H; break; case 'b': v[1]+=H; break; case 'c': v[2]+=H; break; case 'n': for(auto&x:v)x+=H; break; case 'u': v[0]+=Q; break; case 'v': v[1]+=Q; break; case 'w': v[2]+=Q; break; case 'd': for(auto&x:v)x+=Q; break; default: { auto d=direction(s,pre); for(int i=0;i<3;++i) v[i]+=d[i]*(ch-'0')*sg::D/std::abs(s.n); } } for(int i=0;i<3;++i) p.t[i]=sg::md(v[i]); o.push_back(p); pre=s.axis; } for(auto&p:o){ auto wt=sg::mulv(p.W,h.shift); for(int i=0;i<3;++i) p.t[i]=sg::md(p.t[i]+h.shift[i]*(sg::D/12)-wt[i]*(sg::D/12)); } return o; }
static std::string trans(vp::Case& c,int n){ std::string al="abcnuvwd",t; int k=c.p(45)?0:c.i(1,2); for(int i=0;i<k;++i){ char x=al[c.draw(al.size())]; if(t.find(x)==std::string::npos) t+=x; } if(n>1&&c.p(30)) t+=(char)('0'+c.i(1,n-1)); return t; }
static Hall hall_of(vp::Case& c){ Hall h; h.L="PABCIRF"[c.p(40)?0:c.draw(7)]; h.centro=c.b(); if(c.p(20)) for(auto&x:h.shift) x=c.si(11); static const std::vector<std::vector<int>> kinds={{1},{2},{3},{4},{6},{2,2},{4,2},{3,2},{6,2},{2,2,3},{4,2,3},{2,2,2}}; auto k=kinds[c.draw(kinds.size())]; char pre='!'; bool cubic=k.size()==3&&k[2]==3; for(size_t i=0;i<k.size();++i){ Sym s; s.n=k[i]; int pn=i?std::abs(k[i-1]):0; if(s.n==1){ s.axis='1'; s.given=false; } else if(i==0){ s.axis=cubic?'z':"xyz"[c.p(50)?2:c.draw(3)]; s.given=s.axis!='z'||c.p(30); } else if(s.n==3){ s.axis='*'; s.given=c.p(40); } else { bool six=pn==3||pn==6; std::vector<char> can; if(cubic||k.size()==3) can={pre=='z'?'x':pre=='x'?'y':'z'}; else if(six) can={'\'','"'}; else can={'x','y','z','\'','"'}; if(!six&&!cubic) can.erase(std::remove(can.begin(),can.end(),pre),can.end()); s.axis=can[c.draw(can.size())]; s.given=true; if(six&&s.axis=='\''&&pre=='z'&&c.b()){ s.axis='?'; s.given=false; } if(!six&&s.axis=='x'&&c.b()) s.given=false; } if(c.p(35)) s.n=-s.n; s.t=trans(c,std::abs(s.n)); pre=s.axis; h.s.push_back(s); } if(c.p(25)){ Sym s; s.n=-1; s.axis='1'; s.given=false; s.t=trans(c,1); h.s.push_back(s); } return h; }
static std::string print(vp::Case& c,const Hall& h,bool vary){ bool sub=vary&&c.p(35); std::string s; if(vary&&c.p(10)) s+=" "; if(h.centro) s+="-"; s+=h.L; bool marks=false; for(auto&y:h.s) marks|=y.given||!y.t.empty(); bool tight=sub&&marks&&c.p(30); if(!(vary&&c.p(20))&&!tight) s+=" "; for(size_t i=0;i<h.s.size();++i){ auto&y=h.s[i]; if(i&&!tight) s+=vary&&c.p(15)?"  ":" "; s+=std::to_string(y.n); std::string ax; if(y.given){ ax=std::string(1,y.axis); if(vary&&!sub&&c.p(30)){ if(y.axis=='"') ax="''"; if(y.axis=='*') ax="'''"; } } auto t=y.t; if(vary) { std::vector<char> v(t.begin(),t.end()); c.shuffle(v); t.assign(v.begin(),v.end()); } if(sub){ std::string u; for(char k:ax) u+=std::string("^")+k; std::string l; for(char k:t) l+=std::string("_")+k; s+=c.b()?u+l:l+u; } else s+=vary&&c.p(15)?t+ax:ax+t; } if(h.shift!=T3{0,0,0}){ s+=vary&&c.p(20)?"(":" ("; for(int i=0;i<3;++i) s+=(i?" ":"")+std::to_string(h.shift[i]); s+=")"; } if(vary&&c.p(15)) s+=" "; return s; }
VP_PROP(decode_hall,16000,400000){ Hall h=hall_of(c); auto gens=decode(h); auto w=sg::close(gens,144); if(w.size()>144) c.discard(); auto a=print(c,h,false),b=print(c,h,true); c.note("symbol",a); c.note("spelled",b); c.nontrivial(w.size()>2); HallSymbol x; c.check(x.from_ascii(a)&&x.validate(),"rejected",[&]{ return "'"+a+"' is not accepted"; }); GROUP(x.get_generators().generate(),w,"decoded","'"+a+"'"); HallSymbol y(b); c.check(y.validate(),"rejected",[&]{ return "'"+b+"' is not accepted"; }); GROUP(y.get_generators().generate(),w,"spelling","'"+b+"'"); c.check(brille::bravais_letter(x.getl())==h.L&&brille::bravais_letter(y.getl())==h.L,"centring"); auto p=y.to_ascii(); c.note("printed",p); HallSymbol z(p); c.check(z.validate(),"printed-rejected"); GROUP(z.get_generators().generate(),w,"printed","'"+p+"', printed for '"+b+"',"); c.check(HallSymbol(a).to_ascii()==HallSymbol(x.to_ascii()).to_ascii(),"printed-changes"); if(h.shift!=T3{0,0,0}) c.label("origin shift"); c.label(w.size()>24?"large":"small");
  // a symbol decoded before leaves nothing behind
  HallSymbol r(print(c,hall_of(c),true)); c.check(r.from_ascii(b),"reuse"); GROUP(r.get_generators().generate(),w,"reuse","'"+b+"' decoded after another symbol"); }
// the table's Hall symbols in other spellings
VP_PROP(table_hall,2120,21200){ int h=1+(int)(c.index%530); std::string s=row[h].hall; c.note("hall",h); c.nontrivial(h>1); std::string v; bool par=false; for(size_t i=0;i<s.size();++i){ char x=s[i]; if(x=='(') par=true; if(x==' '&&!par){ v+=c.p(30)?"  ":" "; continue; } if(x=='"'&&c.b()) v+="''"; else if(x=='*'&&c.b()) v+="'''"; else v+=x; } if(v.size()>2&&c.p(30)){ size_t k=v.find(' '); if(k!=std::string::npos&&k<3) v.erase(k,1); } if(c.b()) v=" "+v; if(c.b()) v+=" "; c.note("symbol",v); HallSymbol y(v); c.check(y.validate(),"rejected"); GROUP(y.get_generators().generate(),want(h),"spelling","'"+v+"'"); auto p=y.to_ascii(); HallSymbol z(p); c.note("printed",p); GROUP(z.get_generators().generate(),want(h),"printed","'"+p+"', printed for '"+v+"',"); }
// lattices know the group they were named for
VP_PROP(lattices,1060,10600){ int h=1+(int)(c.index%530); auto&r=row[h]; c.note("hall",h); c.nontrivial(h>1); auto pt=sg::points(sg::table(h)); auto k=gen::compatible_cell(c,pt); auto ln=m3::d(k.len); auto an=gen::deg(k.ang); std::string names[5]={r.name,r.full,r.brief,r.hall,""}; int how=(int)c.draw(5); std::string n=names[how],ch=how<3?r.choice:""; if(how==4){ for(auto&o:sg::table(h)) if(c.p(100)){ Mo m(o.W,sg::real(o.t)); n+=(n.empty()?"":";")+m.to_ascii(); } } c.note("given",n); c.note("choice",ch); auto lat=bl::Direct<double>(ln,an,n,ch); GROUP(lat.spacegroup_symmetry(),want(h),"lattice-group","lattice '"+n+"' ["+ch+"]"); c.check(brille::bravais_letter(lat.bravais())==r.bravais,"lattice-centring",[&]{ return std::string("centring ")+brille::bravais_letter(lat.bravais())+" expected "+r.bravais; }); auto P=lat.pointgroup_symmetry(); std::multiset<W9> got(P.getall().begin(),P.getall().end()); c.check(got==std::multiset<W9>(pt.begin(),pt.end()),"lattice-point-group"); c.label(how==4?"operations":how==3?"Hall symbol":"name"); }
// what names nothing
VP_PROP(junk,8000,200000){ static const std::string al="PABCIRFxyz'\"*12346-()_^/ abcnuvwd05,;q="; std::string s; if(c.p(70)){ int h=(int)c.i(1,530); switch(c.draw(4)){ case 0: s=row[h].name; break; case 1: s=row[h].full; break; case 2: s=row[h].brief; break; default: s=row[h].hall; } } int edits=c.i(1,8); for(int i=0;i<edits;++i){ size_t at=s.empty()?0:c.draw(s.size()+1); char ch=al[c.draw(al.size())]; switch(c.draw(3)){ case 0: s.insert(at,1,ch); break; case 1: if(at<s.size()) s[at]=ch; break; default: if(at<s.size()) s.erase(at,1); } } c.note("text",s); c.nontrivial(); bool hm=false,hl=false; for(int h=1;h<531;++h){ hm|=s==row[h].name||s==row[h].full||s==row[h].brief; hl|=s==row[h].hall; } c.check((brille::international_string_to_hall_number(s)>0)==hm,"name-found"); c.check((brille::hall_symbol_to_hall_number(s)>0)==hl,"hall-found"); c.check((brille::string_to_hall_number(s)>0)==(hm||hl),"found",[&]{ return "'"+s+"' selects setting "+vp::str(brille::string_to_hall_number(s)); }); c.label(hm||hl?"a name":"no name"); try{ HallSymbol y; if(y.from_ascii(s)){ auto g=y.get_generators(); (void)y.to_ascii(); c.label("decodes"); c.check(brille::bravais_is_known(y.getl()),"unknown-centring"); } }catch(const std::exception&){ c.label("refused"); } }
VP_MAIN
