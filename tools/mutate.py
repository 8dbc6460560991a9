#!/usr/bin/env python3
"""mutate.py FILE[:a-b] PROPS N [--workers k] [--seed s] [--shards n] [--log f]
Small mechanical changes to one source file of a scratch copy of /repo; each is run against the checks of PROPS (comma separated),
and those that no check notices are listed for reading (equivalent, dead, or a gap). Nothing here is part of a check."""
import sys, os, re, json, random, subprocess, time, shutil, threading, queue
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS=[(r"(?<![<>=\-!+*/&|])<(?![<=])","<="),(r"<=","<"),(r"(?<![<>=\-])>(?![>=])",">="),(r">=",">"),(r"==","!="),(r"!=","=="),
 (r"(?<![+\-eE(,=])\s?\+\s?(?![+=])","-"),(r"(?<=[\w\])])\s?-\s?(?![\-=>])","+"),(r"(?<=[\w\])]) ?\* ?(?=[\w(])","/"),(r"(?<=[\w\])]) ?/ ?(?=[\w(])","*"),
 (r"&&","||"),(r"\|\|","&&"),(r"\btrue\b","false"),(r"\bfalse\b","true"),(r"\+=","-="),(r"-=","+="),(r"\*=","/="),(r"(?<=[^\w.])0(?=[^\w.x])","1"),(r"(?<=[^\w.])1(?=[^\w.])","0"),(r"(?<=[^\w.])1(?=[^\w.])","2"),(r"(?<=[^\w.])2(?=[^\w.])","1"),(r"(?<=[^\w.])3(?=[^\w.])","2"),
 (r"\bmin\b","max"),(r"\bmax\b","min"),(r"\bcontinue;","break;"),(r"\bbreak;","continue;"),(r"\bbreak;",";"),(r"\bif ?\(","if (!"),(r"!(?=[a-zA-Z(])",""),
 (r"\bi\b","j"),(r"\bj\b","i"),(r"\+\+(?=\w+\))","++"),(r"\breal\b","reciprocal"),(r"\breciprocal\b","real"),(r"\btranspose\((\w+)\)",r"\1"),(r"(?<=[=(,]) ?-(?=[\w(])",""),(r"%","/"),(r"\bany\b","all"),(r"\ball\b","any"),(r"\bfloor\b","round"),(r"\bround\b","floor"),(r"\babs\b",""),(r"\.size\((\d)\)",lambda m:".size(%d)"%(1-int(m.group(1)) if m.group(1) in "01" else 0)),
 (r"\bcol\b","row"),(r"\brow\b","col"),(r"\.first\b",".second"),(r"\.second\b",".first")]
def sites(text,a,b):
    out=[]; off=0; inblock=False
    for n,l in enumerate(text.split("\n"),1):
        s=l.strip(); code=l
        if inblock:
            if "*/" in l: inblock=False
            off+=len(l)+1; continue
        if s.startswith("/*"):
            if "*/" not in l: inblock=True
            off+=len(l)+1; continue
        k=code.find("//");  code=code[:k] if k>=0 else code
        ok=a<=n<=b and code.strip() and "<" not in code.split("(")[0].replace(" < ","").replace(" <= ","") and not s.startswith(("#","template","using","typedef","*","class","struct","namespace","debug_update","static_assert","verbose_update","info_update","profile_update","friend","assert"))
        if ok:
            strs=[(m.start(),m.end()) for m in re.finditer(r'"(\\.|[^"\\])*"',code)]
            for oi,(p,r) in enumerate(OPS):
                for m in re.finditer(p,code):
                    if any(x<=m.start()<y for x,y in strs): continue
                    rep=m.expand(r) if isinstance(r,str) else r(m)
                    if rep==m.group(0): continue
                    out.append((n,off+m.start(),off+m.end(),rep))
                    if p.startswith(r"\bif"): # needs a closing bracket: replaced below
                        out.pop(); d=0
                        for q in range(m.end()-1,len(code)):
                            d+=code[q]=="("; d-=code[q]==")"
                            if d==0: out.append((n,off+m.end(),off+q,"!("+code[m.end():q]+")")); break
            t=code.strip()
            if t.endswith(";") and not re.match(r"(return|const|auto|throw|using|\}|else|case|[\w:<>,\s&*]+\s+\w+\s*(=|;|\{))",t) and t.count("(")==t.count(")"):
                x=len(code)-len(code.lstrip()); out.append((n,off+x,off+len(code),";"))
        off+=len(l)+1
    return out
DRV=r'''
import sys,os,json,subprocess,time,random
V,pids,nsh,cap=sys.argv[1],sys.argv[2].split(","),int(sys.argv[3]),sys.argv[4]
sys.path[:0]=[V+"/tools",V+"/harness"]
import vpbuild; from registry import REG
B=os.environ["VP_BUILD"]; base=json.loads(sys.argv[5]); res={}
for pid in pids:
    exes=[]; 
    try:
        for h in REG[pid]["harness"]: exes.append((vpbuild.build_harness(pid,h),h))
    except vpbuild.BuildError as e: print(json.dumps({"verdict":"BUILD","why":str(e)[-300:]})); sys.exit()
    res[pid]=[os.path.basename(e) for e,_ in exes]
    if cap=="0": continue
    if base.get(pid)==res[pid]: continue
    env=dict(os.environ,VP_STOP="1",VP_SHRINK="0"); env.setdefault("OMP_NUM_THREADS","1"); env.update(REG[pid].get("env",{}))
    env["ASAN_OPTIONS"]="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"; env["UBSAN_OPTIONS"]="halt_on_error=1:print_stacktrace=1"
    for exe,h in exes:
        ps=[]
        for k in range(nsh):
            out=f"{B}/o.{pid}.{k}.json"
            if os.path.exists(out): os.remove(out)
            ps.append((out,subprocess.Popen([exe,"--seed","1","--shard",str(k),"--shards",str(nsh),"--tier","quick","--out",out,"--cap","420"],env=env,cwd=B,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,start_new_session=True)))
        left=list(ps); found=None
        while left and not found:
            time.sleep(0.1)
            for o,p in list(left):
                if p.poll() is not None:
                    left.remove((o,p))
                    if p.returncode or not os.path.exists(o): found=(pid,"engine","")
                    else:
                        for s in json.load(open(o))["subs"]:
                            if s["failure"]: found=(pid,s["name"],s["failure"]["tag"]+": "+s["failure"]["msg"][:120].replace("\n"," "))
        for o,p in left:
            try: os.killpg(p.pid,9)
            except Exception: pass
            p.wait()
        if found: print(json.dumps({"verdict":"CAUGHT","by":found})); sys.exit()
print(json.dumps({"verdict":"DEAD" if cap!="0" and all(base.get(p)==res[p] for p in pids) else "SURVIVED","exes":res}))
'''
def main():
    arg=sys.argv[1]; pids=sys.argv[2]; N=int(sys.argv[3])
    opt=lambda n,d: sys.argv[sys.argv.index(n)+1] if n in sys.argv else d
    W=int(opt("--workers","4")); seed=int(opt("--seed","1")); nsh=opt("--shards","2"); src=opt("--repo","/repo"); root=opt("--root","/tmp/mut"); logf=opt("--log",root+"/log.txt")
    f,_,r=arg.partition(":"); a,b=(map(int,r.split("-")) if r else (1,10**9))
    text=open(os.path.join(src,f)).read(); S=sites(text,a,b); random.Random(seed).shuffle(S); 
    seen=set(); pickd=[]
    for x in S:
        if len(pickd)>=N: break
        pickd.append(x)
    print(f"{f}: {len(S)} sites, {len(pickd)} taken",flush=True)
    q=queue.Queue(); [q.put(x) for x in pickd]; tally={}; lock=threading.Lock()
    def work(w):
        d=f"{root}/{w}"; R=d+"/repo"; B=d+"/build"
        if not os.path.isdir(R): os.makedirs(d,exist_ok=True); subprocess.check_call(["git","clone","-q",src,R])
        subprocess.check_call("git checkout -q -- . && git fetch -q "+src+" HEAD && git reset -q --hard FETCH_HEAD",shell=True,cwd=R)
        os.makedirs(B,exist_ok=True); env=dict(os.environ,VP_REPO=R,VP_BUILD=B,VP_JOBS=opt("--jobs","3"))
        def drv(cap,base): 
            try: p=subprocess.run([sys.executable,"-c",DRV,V,pids,nsh,cap,json.dumps(base)],env=env,capture_output=True,text=True,timeout=1500)
            except subprocess.TimeoutExpired: return {"verdict":"TIMEOUT"}
            try: return json.loads(p.stdout.strip().split("\n")[-1])
            except Exception: return {"verdict":"ERROR","why":p.stderr[-500:]}
        base=drv("0",{}).get("exes",{})
        keep=set(x for v in base.values() for x in v)
        while True:
            try: n,x,y,rep=q.get_nowait()
            except queue.Empty: break
            m=text[:x]+rep+text[y:]; p=os.path.join(R,f); open(p,"w").write(m); t=time.time()
            o=drv("1",base); open(p,"w").write(text)
            for z in os.listdir(B+"/bin"):
                if z not in keep: os.remove(B+"/bin/"+z)
            old=text.split("\n")[n-1].strip(); new=m.split("\n")[n-1].strip()
            with lock:
                tally[o["verdict"]]=tally.get(o["verdict"],0)+1
                line=f"{o['verdict']:8s} {f}:{n} {time.time()-t:.0f}s\n   - {old}\n   + {new}\n"+(f"   {o.get('by') or o.get('why','')[:300]}\n" if o['verdict'] in("CAUGHT","ERROR") else "")
                open(logf,"a").write(line)
                if o["verdict"] in ("SURVIVED","ERROR","TIMEOUT"): print(line,flush=True)
        subprocess.call("git checkout -q -- .",shell=True,cwd=R)
    ts=[threading.Thread(target=work,args=(w,)) for w in range(W)]; [t.start() for t in ts]; [t.join() for t in ts]
    print(f,pids,tally,flush=True)
main()
