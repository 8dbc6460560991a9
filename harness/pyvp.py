"""The case engine of vp.hpp in Python: cases are tapes of drawn integers, run in forked children, shrunk on failure."""
import argparse, hashlib, json, os, random, select, signal, struct, sys, time, traceback
class Discard(Exception): pass
class Failed(Exception):
    def __init__(self,tag,msg): self.tag,self.msg=tag,msg
class Case:
    def __init__(self,tape=None,rng=None,index=0,tier="quick"):
        self.tape=list(tape) if tape is not None else []; self.pos=0; self.rng=rng; self.index=index; self.thorough=tier=="thorough"
        self.used=[]; self.notes=[]; self.labels=[]; self.nt=False
    def draw(self,bound):
        if bound<=1: v=0
        elif self.pos<len(self.tape): v=self.tape[self.pos]%bound
        elif self.rng is not None: v=self.rng.randrange(bound)
        else: v=0
        self.pos+=1; self.used.append(v); return v
    def i(self,lo,hi): return lo+self.draw(hi-lo+1)
    def b(self): return self.draw(2)==1
    def p(self,pct): return self.draw(100)>=100-pct
    def pick(self,seq): return seq[self.draw(len(seq))]
    def real(self,lo,hi): return lo+(hi-lo)*self.draw(1<<30)/(1<<30)
    def perm(self,n):
        l=list(range(n))
        for k in range(n-1,0,-1):
            j=k-self.draw(k+1); l[k],l[j]=l[j],l[k]
        return l
    fd=None
    def note(self,k,v):
        self.notes.append(f"{k}: {v}")
        if self.fd is not None: os.write(self.fd,b"N"+json.dumps(self.notes[-1][:1500]).encode()+b"\n")
    def label(self,s): self.labels.append(s)
    def nontrivial(self,v=True): self.nt=self.nt or bool(v)
    def discard(self): raise Discard()
    def fail(self,tag,msg=""): raise Failed(tag,msg)
    def check(self,ok,tag,msg=""):
        if not ok: raise Failed(tag,msg() if callable(msg) else msg)
SUBS=[]
def prop(name,quick,thorough,limit=60):
    def deco(f): SUBS.append((name,quick,thorough,limit,f)); return f
    return deco
def seed_of(*a): return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:8],"big")
def run_case(f,c):
    """-> (status, tag, msg)"""
    try: f(c); return "ok","",""
    except Discard: return "discard","",""
    except Failed as e: return "fail",e.tag,e.msg
    except Exception as e:
        return "fail","unexpected "+type(e).__name__,f"{e}\n"+"".join(traceback.format_tb(e.__traceback__)[-3:])
def child(jobs,w,f,tier):
    """run (index, tape, rng seed) jobs; write one json line per case"""
    for idx,tape,seed in jobs:
        os.write(w,b"S\n")
        c=Case(tape,random.Random(seed) if seed is not None else None,idx,tier); c.fd=w if len(jobs)==1 else None
        st,tag,msg=run_case(f,c)
        h=hashlib.sha256(repr(c.used).encode()).digest()[:8].hex()
        d={"st":st,"nt":c.nt,"labels":c.labels,"h":h}
        if st=="fail": d.update(tag=tag,msg=msg[:3000],tape=c.used,notes="\n".join(c.notes))
        elif idx<3: d["notes"]="\n".join(c.notes)[:1500]
        data=(json.dumps(d)+"\n").encode()
        while data: data=data[os.write(w,data):]
        if st=="fail": break
def batch(jobs,f,tier,limit):
    """-> list of results, one per finished job; the last one may be a crash or a failure"""
    r,w=os.pipe(); sys.stdout.flush(); pid=os.fork()
    if pid==0:
        try:
            os.close(r); dn=os.open("/dev/null",os.O_WRONLY); os.dup2(dn,1); os.dup2(dn,2)
            child(jobs,w,f,tier)
        finally: os._exit(0)
    os.close(w); buf=b""; out=[]; started=0; noted=[]; last=time.time(); hung=False
    while True:
        ready,_,_=select.select([r],[],[],1.0)
        if ready:
            x=os.read(r,1<<16)
            if not x: break
            buf+=x; last=time.time()
            while b"\n" in buf:
                line,buf=buf.split(b"\n",1)
                if line==b"S": started+=1
                elif line[:1]==b"N": noted.append(json.loads(line[1:]))
                else: out.append(json.loads(line))
        elif time.time()-last>limit:
            hung=True; os.kill(pid,signal.SIGKILL)
    os.close(r); _,status=os.waitpid(pid,0)
    if started>len(out):
        what="timeout" if hung else "crash"
        sig=os.WTERMSIG(status) if os.WIFSIGNALED(status) else -1
        out.append({"st":"fail","nt":True,"labels":[],"h":"","tag":what,"msg":f"no answer within {limit} s" if hung else f"the interpreter died, signal {sig}","tape":None,"notes":"\n".join(noted)})
    return out
def one(f,tape,idx,tier,limit): return batch([(idx,tape,None)],f,tier,limit)[0]
def full_tape(f,idx,seed,tier,limit):
    """the tape of a case that kills the interpreter: record draws through a pipe"""
    r,w=os.pipe(); pid=os.fork()
    if pid==0:
        try:
            os.close(r); dn=os.open("/dev/null",os.O_WRONLY); os.dup2(dn,1); os.dup2(dn,2); signal.alarm(int(limit))
            c=Case(None,random.Random(seed),idx,tier)
            class L(list):
                def append(self,v): list.append(self,v); os.write(w,(str(v)+"\n").encode())
            c.used=L(); run_case(f,c)
        finally: os._exit(0)
    os.close(w); b=b""
    while True:
        x=os.read(r,1<<16)
        if not x: break
        b+=x
    os.close(r); os.waitpid(pid,0)
    return [int(x) for x in b.split()]
def shrink(f,fail,idx,tier,limit,budget=60):
    t0=time.time(); best=dict(fail); tag=fail["tag"]
    def attempt(tape):
        if time.time()-t0>budget: return False
        d=one(f,tape,idx,tier,limit)
        if d["st"]!="fail" or d["tag"]!=tag or (tag=="crash" and d["msg"]!=best["msg"]): return False
        if d["tape"] is None: d["tape"]=tape
        if (len(d["tape"]),d["tape"])>=(len(best["tape"]),best["tape"]): return False
        best.update(d); return True
    improved=True
    while improved and time.time()-t0<budget:
        improved=False; n=len(best["tape"]); size=max(1,n//2)
        while size>=1:
            p=0
            while p<len(best["tape"]):
                t=best["tape"]
                if attempt(t[:p]+t[p+size:]): improved=True
                else: p+=size
            size//=2
        p=0
        while p<len(best["tape"]):
            v=best["tape"][p]
            for nv in (0,v//2,v-1):
                if 0<=nv<v:
                    t=list(best["tape"]); t[p]=nv
                    if attempt(t): improved=True; break
            p+=1
    return best
def main():
    a=argparse.ArgumentParser()
    for n,d in (("seed",1),("shard",0),("shards",1)): a.add_argument("--"+n,type=int,default=d)
    a.add_argument("--tier",default="quick"); a.add_argument("--out"); a.add_argument("--cap",type=float,default=400); a.add_argument("--scale",type=float,default=1.0)
    a.add_argument("--only"); a.add_argument("--replay"); a.add_argument("--list",nargs="?")
    o=a.parse_args()
    if o.list: print("\n".join(s[0] for s in SUBS)); return 0
    if o.replay:
        l=open(o.replay).read().split("\n"); sub,idx,tier=l[0].split(); tape=[int(x) for x in l[1].split()] if len(l)>1 else []
        for n,q,t,limit,f in SUBS:
            if n==sub:
                d=one(f,tape,int(idx),tier,limit)
                notes=d.get("notes","")
                print(json.dumps({"status":d["st"],"tag":d.get("tag",""),"msg":d.get("msg",""),"notes":notes})); return 1 if d["st"]=="fail" else 0
        return 3
    res={"subs":[]}; t00=time.time()
    for n,q,t,limit,f in SUBS:
        if o.only and n!=o.only: continue
        t0=time.time(); total=max(1,int((q if o.tier=="quick" else t)*o.scale)); mine=list(range(o.shard,total,o.shards))
        e={"name":n,"evals":0,"discards":0,"nontrivial":0,"planned":len(mine),"labels":{},"samples":[],"capped":False,"failure":None}; hs=set(); p=0
        while p<len(mine):
            if time.time()-t00>o.cap: e["capped"]=True; break
            js=[(k,None,seed_of(o.seed,n,k)) for k in mine[p:p+50]]
            rs=batch(js,f,o.tier,limit)
            if not rs: raise RuntimeError("no result")
            p+=len(rs)
            for j,d in zip(js,rs):
                e["evals"]+=1; e["discards"]+=d["st"]=="discard"
                if d["nt"] and d["st"]!="discard":
                    e["nontrivial"]+=1
                    if d["h"]: hs.add(int(d["h"],16))
                for l in d["labels"]: e["labels"][l]=e["labels"].get(l,0)+1
                if d.get("notes") and d["st"]=="ok": e["samples"].append(d["notes"])
                if d["st"]=="fail":
                    if d["tape"] is None: d["tape"]=full_tape(f,j[0],j[2],o.tier,limit)
                    orig=list(d["tape"]); b=d if d["tag"]=="timeout" else shrink(f,d,j[0],o.tier,limit)
                    e["failure"]={"tag":b["tag"],"msg":b["msg"],"notes":b["notes"],"tape":b["tape"],"original":orig,"index":j[0]}
                    break
            if e["failure"]: break
        e["wall"]=time.time()-t0; res["subs"].append(e)
        if e["failure"] and e["failure"]["tag"]=="timeout": break
        with open(o.out+"."+n+".hashes","wb") as w: w.write(b"".join(struct.pack("<Q",h) for h in sorted(hs)))
    with open(o.out,"w") as w: json.dump(res,w)
    return 0
