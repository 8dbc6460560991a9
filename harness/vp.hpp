// vp.hpp -- a small property-based testing engine (choice-sequence generators with
// internal shrinking, process isolation, deterministic replay).
//
// A property is a function `void f(vp::Case& c)`.  Everything random is drawn from
// `c`; each draw is one word of a "tape".  A case is a pure function of its tape, so a
// failing case is stored, shrunk and replayed as a tape.  Cases run in a forked child:
// a crash or an endless loop in the code under test is a failure with a replayable tape.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <array>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <algorithm>
#include <stdexcept>
#include <limits>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>

namespace vp {

struct Failure { std::string tag, msg; };
struct Discard {};

inline uint64_t splitmix(uint64_t& s){
  uint64_t z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31);
}
struct Rng { uint64_t s; explicit Rng(uint64_t x):s(x){} uint64_t next(){return splitmix(s);} };
inline uint64_t hash_str(const std::string& x, uint64_t h=1469598103934665603ull){ for(unsigned char c:x){h^=c;h*=1099511628211ull;} return h; }

// ------------------------------------------------------------------ shared state
constexpr size_t MAXTAPE=1u<<16, MAXHASH=1u<<21, MAXLAB=96;
struct Shared {
  uint32_t sub; uint64_t idx; uint32_t n; uint64_t tape[MAXTAPE];
  int status;              // 0 running, 1 ok, 2 failed, 3 discarded, 4 cpu limit
  char tag[160]; char msg[16384]; char notes[32768];
  uint64_t evals, discards, nontriv;
  uint32_t nh; uint64_t hashes[MAXHASH];
  uint32_t nlab; struct {char name[56]; uint64_t n;} lab[MAXLAB];
  uint64_t next_idx; int batch_done;
  uint32_t nsample; uint64_t sample_idx[4096]; uint32_t sample_sub[4096];
};
inline Shared*& sh(){ static Shared* p=nullptr; return p; }

template<class T> std::string str(const std::vector<T>& x); template<class T,size_t N> std::string str(const std::array<T,N>& x);
inline std::string str(const std::string& s); inline std::string str(const char* s);
template<class T> std::string str(const T& x){ std::ostringstream o; o.precision(17); o<<x; return o.str(); }
template<class T> std::string str(const std::vector<T>& x){ std::string o="["; for(size_t i=0;i<x.size();++i){ if(i)o+=", "; o+=str(T(x[i])); } return o+"]"; }
template<class T,size_t N> std::string str(const std::array<T,N>& x){ std::string o="["; for(size_t i=0;i<N;++i){ if(i)o+=", "; o+=str(x[i]); } return o+"]"; }
inline std::string str(const char* s){return s;}
inline std::string str(const std::string& s){return s;}

class Case {
  Rng* rng_; size_t pos_=0; std::vector<uint64_t> in_;
public:
  bool describe=false; bool interesting=false; std::string notes; int cpu_limit=0;
  bool thorough=false;
  uint64_t index=0;             // index of this case in its enumeration (0 on replay without it)
  explicit Case(Rng* r): rng_(r) {}
  explicit Case(std::vector<uint64_t> t): rng_(nullptr), in_(std::move(t)) {}
  uint64_t draw(uint64_t bound){ // uniform in [0,bound); simplest value is 0
    if(bound==0) throw Failure{"harness","draw(0)"};
    uint64_t v;
    if(rng_) v = rng_->next()%bound;
    else v = pos_<in_.size()? (in_[pos_]%bound) : 0;
    ++pos_;
    Shared* s=sh(); if(s && s->n<MAXTAPE) s->tape[s->n++]=v;
    return v;
  }
  int64_t i(int64_t lo, int64_t hi){ return lo+(int64_t)draw((uint64_t)(hi-lo)+1); }
  // integer in [-m,m], shrinking towards zero
  int64_t si(int64_t m){ uint64_t v=draw(2*(uint64_t)m+1); int64_t h=(int64_t)((v+1)/2); return (v&1)? h : -h; }
  bool b(){ return draw(2)==1; }
  bool p(unsigned pct){ return draw(100) >= 100-pct; } // true with pct %, shrinks to false
  template<class T> const T& pick(const std::vector<T>& v){ return v[draw(v.size())]; }
  template<class T> T pick(std::initializer_list<T> v){ auto it=v.begin(); std::advance(it,draw(v.size())); return *it; }
  double unit(){ // [0,1): coarse or fine
    if(draw(4)==0) return (double)draw(16)/16.0;
    return (double)draw(1ull<<32)/4294967296.0;
  }
  double real(double lo,double hi){ return lo+(hi-lo)*unit(); }
  double sreal(double m){ bool s=b(); double v=real(0,m); return s?-v:v; }
  template<class T> void shuffle(std::vector<T>& v){ for(size_t k=v.size();k>1;--k) std::swap(v[k-1],v[k-1-draw(k)]); }
  std::vector<size_t> perm(size_t n){ std::vector<size_t> q(n); for(size_t k=0;k<n;++k)q[k]=k; shuffle(q); return q; }
  template<class T> void note(const std::string& k,const T& v){ if(describe){ notes+=k+" = "+str(v)+"\n"; if(std::getenv("VP_TRACE")) std::fprintf(stderr,"%s = %s\n",k.c_str(),str(v).c_str()); } }
  void label(const std::string& l){
    Shared* s=sh(); if(!s||describe) return;
    for(uint32_t k=0;k<s->nlab;++k) if(l==s->lab[k].name){ ++s->lab[k].n; return; }
    if(s->nlab<MAXLAB && l.size()<55){ std::strcpy(s->lab[s->nlab].name,l.c_str()); s->lab[s->nlab].n=1; ++s->nlab; }
  }
  void nontrivial(bool x=true){ interesting = interesting||x; }
  [[noreturn]] void discard(){ throw Discard{}; }
  [[noreturn]] void fail(const std::string& tag,const std::string& msg){ throw Failure{tag,msg}; }
  void check(bool ok,const char* tag){ if(!ok) throw Failure{tag,"check failed"}; }
  template<class F> void check(bool ok,const char* tag,F&& f){ if(!ok){ if constexpr(std::is_invocable_v<F>) throw Failure{tag,str(f())}; else throw Failure{tag,str(f)}; } }
  // a and b agree to within `tol` relative to `scale` (both finite)
  void close(double a,double b,double tol,const char* tag,const std::string& what=""){
    if(!(std::abs(a-b)<=tol)) throw Failure{tag, what+": "+str(a)+" vs expected "+str(b)+" (tolerance "+str(tol)+")"};
  }
};

struct Sub { const char* name; void(*fn)(Case&); uint64_t quick, thorough; int cpu; int known; };
inline std::vector<Sub>& subs(){ static std::vector<Sub> s; return s; }
struct Reg { Reg(const char*n,void(*f)(Case&),uint64_t q,uint64_t t,int cpu=120,int known=0){ subs().push_back({n,f,q,t,cpu,known}); } };
#define VP_CAT_(a,b) a##b
#define VP_CAT(a,b) VP_CAT_(a,b)
// VP_PROP(name, quick cases, thorough cases [, cpu limit per case in s])
#define VP_PROP(name, ...) static void VP_CAT(vp_p_,name)(vp::Case&); static vp::Reg VP_CAT(vp_r_,name)(#name, VP_CAT(vp_p_,name), __VA_ARGS__); static void VP_CAT(vp_p_,name)([[maybe_unused]] vp::Case& c)

// called from anything that may throw: run f, return true if it threw a std::exception
template<class F> bool throws(F&& f){ try{ f(); } catch(const Failure&){throw;} catch(const Discard&){throw;} catch(const std::exception&){ return true; } return false; }

// ------------------------------------------------------------------ running
inline void on_prof(int){ if(sh()) { sh()->status=4; } _exit(98); }
inline void arm(int sec){ struct itimerval t{}; t.it_value.tv_sec=sec; setitimer(ITIMER_PROF,&t,nullptr); }

inline int run_one(const Sub& s, Case& c){ // -> status
  Shared* m=sh(); m->n=0; m->tag[0]=0; m->msg[0]=0; m->status=0;
  arm(s.cpu);
  auto put=[&](const std::string& t,const std::string& w){ std::snprintf(m->tag,sizeof m->tag,"%s",t.c_str()); std::snprintf(m->msg,sizeof m->msg,"%s",w.c_str()); };
  int st=1;
  try { s.fn(c); }
  catch(const Failure& f){ put(f.tag,f.msg); st=2; }
  catch(const Discard&){ st=3; }
  catch(const std::exception& e){ put("exception",std::string("unexpected exception: ")+e.what()); st=2; }
  catch(...){ put("exception","unexpected non-standard exception"); st=2; }
  arm(0);
  if(c.describe) std::snprintf(m->notes,sizeof m->notes,"%s",c.notes.c_str());
  m->status=st; return st;
}
inline uint64_t tape_hash(){ uint64_t h=1469598103934665603ull; Shared*m=sh(); for(uint32_t k=0;k<m->n;++k){ uint64_t x=m->tape[k]; h^=x+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2); h*=1099511628211ull; } return h; }

struct Outcome { int status; std::string tag,msg,notes; std::vector<uint64_t> tape; };
inline std::string read_err(int fd){ std::string o; char b[4096]; lseek(fd,0,SEEK_SET); ssize_t k; while((k=read(fd,b,sizeof b))>0 && o.size()<6000) o.append(b,k); return o; }

// run a tape in a fresh child
inline Outcome run_tape(const Sub& s,const std::vector<uint64_t>& t,bool describe,bool thorough,uint64_t index){
  Shared*m=sh(); m->status=0; m->n=0; m->tag[0]=0; m->msg[0]=0; m->notes[0]=0;
  FILE* ef=tmpfile(); int efd=ef?fileno(ef):-1;
  fflush(nullptr);
  pid_t p=fork();
  if(p==0){ if(efd>=0){ dup2(efd,2); dup2(efd,1);} signal(SIGPROF,on_prof); Case c(t); c.describe=describe; c.thorough=thorough; c.index=index; run_one(s,c); _exit(0); }
  int w=0; waitpid(p,&w,0);
  Outcome o; o.tape.assign(m->tape,m->tape+m->n); o.notes=m->notes;
  if(WIFEXITED(w)&&WEXITSTATUS(w)==0 && m->status){ o.status=m->status; o.tag=m->tag; o.msg=m->msg; }
  else if(m->status==4){ o.status=2; o.tag="cpu-limit"; o.msg="the case did not finish within its CPU limit"; }
  else { o.status=2; o.tag="crash"; o.msg="the process died: "+(WIFSIGNALED(w)? std::string("signal ")+strsignal(WTERMSIG(w)) : "exit "+std::to_string(WEXITSTATUS(w)))+(efd>=0?"\n"+read_err(efd):""); }
  if(ef) fclose(ef);
  return o;
}
inline double now(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }

inline Outcome shrink(const Sub& s, Outcome best, bool th, uint64_t index, double budget){
  double t0=now(); int tries=0; int maxtries = best.tag=="cpu-limit"? 2 : 3000;
  auto ok=[&](){ return now()-t0<budget && tries<maxtries; };
  auto smaller=[](const std::vector<uint64_t>&a,const std::vector<uint64_t>&b){ if(a.size()!=b.size()) return a.size()<b.size(); return a<b; };
  auto attempt=[&](const std::vector<uint64_t>& t){ ++tries; auto o=run_tape(s,t,false,th,index); if(o.status==2&&o.tag==best.tag&&(o.tag!="crash"||o.msg.substr(0,o.msg.find('\n'))==best.msg.substr(0,best.msg.find('\n')))&& (smaller(o.tape,best.tape))){ best=o; return true;} return false; };
  bool progress=true;
  while(progress && ok()){
    progress=false;
    for(size_t sz=std::min<size_t>(64,best.tape.size()); sz>=1 && ok(); sz/=2){ // delete chunks
      for(size_t k=best.tape.size(); k>=sz && ok();){ k-= std::min(sz,k); if(k+sz>best.tape.size()) continue; auto t=best.tape; t.erase(t.begin()+k,t.begin()+k+sz); if(attempt(t)){progress=true;} if(k==0)break; }
    }
    for(size_t sz=32; sz>=1 && ok(); sz/=2) for(size_t k=0;k<best.tape.size()&&ok();k+=sz){ // zero chunks
      auto t=best.tape; bool any=false; for(size_t q=k;q<std::min(k+sz,t.size());++q){ any|=t[q]!=0; t[q]=0;} if(any && attempt(t)) progress=true; }
    for(size_t k=0;k<best.tape.size()&&ok();++k){ // minimise words
      uint64_t lo=0, hi=best.tape[k]; int it=0;
      while(lo<hi && ok() && it++<40){ uint64_t mid=lo+(hi-lo)/2; auto t=best.tape; if(k>=t.size())break; t[k]=mid; if(attempt(t)){ progress=true; if(k>=best.tape.size())break; hi=std::min(mid,best.tape[k]); } else lo=mid+1; }
    }
  }
  return best;
}
inline std::string jesc(const std::string& s){ std::string o="\""; for(unsigned char ch:s){ if(ch=='"'||ch=='\\'){o+='\\';o+=ch;} else if(ch=='\n')o+="\\n"; else if(ch=='\t')o+="\\t"; else if(ch<32||ch>126){ char b[8]; std::snprintf(b,8,"\\u%04x",ch); o+=b;} else o+=ch; } return o+"\""; }
inline std::string jtape(const std::vector<uint64_t>& t){ std::string o="["; for(size_t k=0;k<t.size();++k){ if(k)o+=","; o+=std::to_string(t[k]); } return o+"]"; }

inline int main_(int argc,char**argv){
  std::map<std::string,std::string> a; for(int k=1;k+1<argc;k+=2) a[argv[k]]=argv[k+1];
  auto get=[&](const char*k,const std::string&d){ return a.count(k)?a[k]:d; };
  sh()=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  if(sh()==MAP_FAILED){ perror("mmap"); return 3; }
  Shared*m=sh();
  bool th=get("--tier","quick")=="thorough";
  uint64_t seed=std::stoull(get("--seed","1")); unsigned shard=std::stoul(get("--shard","0")), nsh=std::stoul(get("--shards","1"));
  double cap=std::stod(get("--cap","600")); std::string only=get("--only",""); double scale=std::stod(get("--scale","1"));
  if(a.count("--list")){ for(auto&s:subs()) std::printf("%s\n",s.name); return 0; }
  if(a.count("--replay")){ // file: sub\nindex\ntier\nwords...
    std::ifstream f(a["--replay"]); std::string sub,tier; uint64_t idx; f>>sub>>idx>>tier; std::vector<uint64_t> t; uint64_t w; while(f>>w) t.push_back(w);
    for(auto&s:subs()) if(sub==s.name){ auto o=run_tape(s,t,true,tier=="thorough",idx); std::printf("{\"status\":%d,\"tag\":%s,\"msg\":%s,\"notes\":%s}\n",o.status,jesc(o.tag).c_str(),jesc(o.msg).c_str(),jesc(o.notes).c_str()); return o.status==2?1:0; }
    return 3;
  }
  std::string out=get("--out","/dev/stdout");
  std::string J="{\"subs\":["; bool first=true;
  double shrink_s=std::getenv("VP_SHRINK")?std::atof(std::getenv("VP_SHRINK")):60; bool stop=std::getenv("VP_STOP")!=nullptr; // for trials of many changes
  double t0=now();
  for(uint32_t si=0; si<subs().size(); ++si){
    const Sub& s=subs()[si]; if(!only.empty() && only!=s.name) continue;
    uint64_t total=(uint64_t)((th?s.thorough:s.quick)*scale); if(total==0 && (th?s.thorough:s.quick)>0) total=1;
    m->sub=si; m->evals=m->discards=m->nontriv=0; m->nh=0; m->nlab=0; m->nsample=0;
    Outcome fail; fail.status=0; uint64_t fidx=0; bool capped=false; double ts=now();
    m->next_idx=shard;
    while(m->next_idx<total){
      m->batch_done=0; fflush(nullptr);
      FILE* ef=tmpfile(); int efd=ef?fileno(ef):-1;
      pid_t p=fork();
      if(p==0){
        int dn=open("/dev/null",O_WRONLY); dup2(dn,1); if(efd>=0) dup2(efd,2);
        signal(SIGPROF,on_prof);
        for(uint64_t k=m->next_idx;k<total;k+=nsh){
          m->next_idx=k; m->idx=k;
          uint64_t z=seed*0x9E3779B97F4A7C15ull ^ hash_str(s.name) ^ (k*0xD1B54A32D192ED03ull+0x2545F4914F6CDD1Dull); splitmix(z);
          Rng r(z); Case c(&r); c.thorough=th; c.index=k;
          int st=run_one(s,c); ++m->evals;
          if(st==3) ++m->discards;
          if(st==1&&c.interesting){ ++m->nontriv; if(m->nh<MAXHASH) m->hashes[m->nh++]=tape_hash(); if(m->nsample<4096 && (m->nsample<2 || (m->nsample<4 && (k%37)<nsh))){ m->sample_idx[m->nsample]=k; m->sample_sub[m->nsample]=si; ++m->nsample; } }
          if(st==2){ m->batch_done=2; _exit(0); }
          if(now()-t0>cap){ m->batch_done=3; _exit(0); }
        }
        m->batch_done=1; _exit(0);
      }
      int w=0; waitpid(p,&w,0);
      bool clean=WIFEXITED(w)&&WEXITSTATUS(w)==0;
      if(clean&&m->batch_done==1){ if(ef)fclose(ef); break; }
      if(clean&&m->batch_done==3){ capped=true; if(ef)fclose(ef); break; }
      // failure (or crash) at m->next_idx
      fidx=m->next_idx; fail.status=2; fail.tape.assign(m->tape,m->tape+m->n);
      if(clean&&m->batch_done==2){ fail.tag=m->tag; fail.msg=m->msg; }
      else if(m->status==4){ fail.tag="cpu-limit"; fail.msg="the case did not finish within its CPU limit"; ++m->evals; }
      else { fail.tag="crash"; fail.msg="the process died: "+(WIFSIGNALED(w)? std::string("signal ")+strsignal(WTERMSIG(w)) : "exit "+std::to_string(WEXITSTATUS(w)))+(efd>=0?"\n"+read_err(efd):""); ++m->evals; }
      if(ef) fclose(ef);
      break;
    }
    uint64_t ev=m->evals, di=m->discards, nt=m->nontriv;
    std::string labs; for(uint32_t k=0;k<m->nlab;++k){ if(k)labs+=","; labs+=jesc(m->lab[k].name)+":"+std::to_string(m->lab[k].n); }
    std::string hs; { std::unordered_set<uint64_t> u; for(uint32_t k=0;k<m->nh;++k)u.insert(m->hashes[k]); hs=std::to_string(u.size()); if(out!="/dev/stdout"){ FILE*hf=fopen((out+"."+s.name+".hashes").c_str(),"wb"); if(hf){ for(auto h:u) fwrite(&h,8,1,hf); fclose(hf);} } }
    std::vector<std::pair<uint64_t,uint32_t>> smp; for(uint32_t k=0;k<m->nsample;++k) smp.push_back({m->sample_idx[k],m->sample_sub[k]});
    std::string fj="null";
    if(fail.status==2){
      // confirm in a fresh process from the tape alone, then shrink
      auto o=run_tape(s,fail.tape,false,th,fidx); std::string orig=jtape(fail.tape);
      bool repro=o.status==2; if(repro&&o.tag=="cpu-limit"){ o.tape=fail.tape; fail=o; } // every further run would take as long
      else if(repro){ o.tape = o.tape.size()?o.tape:fail.tape; fail=shrink(s,o,th,fidx,shrink_s); shrink_s=std::min(shrink_s,20.0); auto d=run_tape(s,fail.tape,true,th,fidx); if(d.status==2){fail.notes=d.notes; if(d.tag==fail.tag) fail.msg=d.msg;} }
      fj="{\"tag\":"+jesc(fail.tag)+",\"msg\":"+jesc(fail.msg)+",\"notes\":"+jesc(fail.notes)+",\"index\":"+std::to_string(fidx)+",\"reproduced\":"+(repro?"true":"false")+",\"tape\":"+jtape(fail.tape)+",\"original\":"+orig+"}";
    }
    std::string sj; int ns=0;
    for(auto&q:smp){ if(shard!=0||ns>=3) break; // describe a few cases
      uint64_t z=seed*0x9E3779B97F4A7C15ull ^ hash_str(s.name) ^ (q.first*0xD1B54A32D192ED03ull+0x2545F4914F6CDD1Dull); splitmix(z);
      m->status=0; m->notes[0]=0; fflush(nullptr); pid_t p=fork(); if(p==0){ int dn=open("/dev/null",O_WRONLY); dup2(dn,1); dup2(dn,2); signal(SIGPROF,on_prof); Rng r(z); Case c(&r); c.describe=true; c.thorough=th; c.index=q.first; run_one(s,c); _exit(0);} int w; waitpid(p,&w,0);
      if(ns)sj+=","; sj+=jesc(m->notes); ++ns; }
    if(!first)J+=","; first=false;
    J+="{\"name\":"+jesc(s.name)+",\"planned\":"+std::to_string(total)+",\"evals\":"+std::to_string(ev)+",\"discards\":"+std::to_string(di)+",\"nontrivial\":"+std::to_string(nt)+",\"distinct\":"+hs+",\"capped\":"+(capped?"true":"false")+",\"wall\":"+str(now()-ts)+",\"labels\":{"+labs+"},\"samples\":["+sj+"],\"failure\":"+fj+"}";
    if(fail.status==2&&(stop||fail.tag=="cpu-limit")) break; // a case that does not end is an answer; more of them only take time
  }
  J+="]}\n";
  FILE*f=fopen(out.c_str(),"w"); if(!f){perror("out");return 3;} fputs(J.c_str(),f); fclose(f);
  return 0;
}
} // namespace vp
#define VP_MAIN int main(int argc,char**argv){ return vp::main_(argc,argv); }
