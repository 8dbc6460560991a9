#!/usr/bin/env python3
"""check.py <property id>: build the property's harness from /repo and search for a violation.
exit 0 held on everything explored; exit 1 with `VIOLATION property=<id> replay=<path>`; 2 error."""
import json, os, struct, subprocess, sys, time, hashlib
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import vpbuild
from vpbuild import V,R,B
sys.path.insert(0,os.path.join(V,"harness"))
from registry import REG
NSH=int(os.environ.get("VP_SHARDS","8"))
def load_known():
    p=os.path.join(V,"known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings":[],"fixed":[]}
def replay_cmd(exe,sub,index,tier,tape,path):
    with open(path,"w") as f: f.write(f"{sub} {index} {tier}\n"+" ".join(map(str,tape))+"\n")
    return [exe,"--replay",path]
def run_cpp(pid,cfg,seed,tier,scale,only):
    t0=time.time()
    env=dict(os.environ); env.setdefault("OMP_NUM_THREADS","1"); env.setdefault("OMP_WAIT_POLICY","passive")
    env.update(cfg.get("env",{}))
    env["ASAN_OPTIONS"]="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:"+env.get("ASAN_OPTIONS",""); env["UBSAN_OPTIONS"]="halt_on_error=1:print_stacktrace=1"
    results=[]
    for hi,h in enumerate(cfg["harness"]):
        exe=vpbuild.build_harness(pid,h)
        results.append((exe,h))
    tb=time.time()-t0
    print(f"[{pid}] built in {tb:.1f}s",flush=True)
    work=os.path.join(B,"run",pid); os.makedirs(work,exist_ok=True)
    subs={}; viol=[]; hashes=set(); notrepro=[]
    cap=float(os.environ.get("VP_CAP","420" if tier=="quick" else "6000"))
    for hi,(exe,h) in enumerate(results):
        nsh=h.get("shards",NSH); procs=[]
        for k in range(nsh):
            out=os.path.join(work,f"{hi}.{k}.json")
            for q in os.listdir(work):
                if q.startswith(f"{hi}.{k}.json"): os.remove(os.path.join(work,q))
            a=[exe,"--seed",str(seed),"--shard",str(k),"--shards",str(nsh),"--tier",tier,"--out",out,"--cap",str(cap),"--scale",str(scale)]
            if only: a+=["--only",only]
            procs.append((out,subprocess.Popen(a,env=env,cwd=work,stdout=subprocess.DEVNULL,stderr=open(out+".err","w"))))
        for out,p in procs:
            rc=p.wait()
            if rc: raise RuntimeError(f"harness engine failed rc={rc}: {open(out+'.err').read()[-2000:]}")
            d=json.load(open(out))
            for s in d["subs"]:
                e=subs.setdefault(s["name"],{"evals":0,"discards":0,"nontrivial":0,"planned":s["planned"],"labels":{},"samples":[],"capped":False,"wall":0.0})
                for f in ("evals","discards","nontrivial"): e[f]+=s[f]
                e["capped"]|=s["capped"]; e["wall"]=max(e["wall"],s["wall"]); e["samples"]+=s["samples"]
                for l,n in s["labels"].items(): e["labels"][l]=e["labels"].get(l,0)+n
                hp=out+"."+s["name"]+".hashes"
                if os.path.exists(hp):
                    b=open(hp,"rb").read(); hashes.update((s["name"],x) for (x,) in struct.iter_unpack("<Q",b))
                if s["failure"]: viol.append((exe,s["name"],s["failure"],h))
    # confirm: replay 3x, one report per (sub, tag)
    reports=[]; seen=set()
    viol.sort(key=lambda v:(v[1],len(v[2]["tape"])))
    for exe,sub,f,h in viol:
        if (sub,f["tag"]) in seen: continue
        if time.time()-t0>(240 if reports else 700) and tier=="quick": break # the search has its answer; leave the rest unconfirmed
        if sum(u["sub"]==sub and u["tag"]==f["tag"] for u in notrepro)>=3: continue
        rdir=os.path.join(V,"replays"); os.makedirs(rdir,exist_ok=True)
        tp=os.path.join(work,"replay.tape"); ok=0; tries=3; need=3
        if h.get("schedule"): tries,need=12,1
        elif f["tag"] in ("cpu-limit","timeout"): tries,need=1,1 # it has been confirmed once by the search
        for tape in (f["tape"],f["original"]):
            ok=0
            for _ in range(tries):
                p=subprocess.run(replay_cmd(exe,sub,f["index"],tier,tape,tp),env=env,cwd=work,capture_output=True,text=True)
                ok+=p.returncode==1
                if need==1 and ok: break
            if ok>=need: break
        else:
            notrepro.append({"sub":sub,"tag":f["tag"],"msg":f["msg"],"replayed":ok}); continue
        seen.add((sub,f["tag"]))
        d=json.loads(p.stdout) if p.stdout.strip().startswith("{") else {}
        name=f"{pid}-{sub}-{hashlib.sha256((f['tag']+str(tape)).encode()).hexdigest()[:10]}.json"
        path=os.path.join(rdir,name)
        json.dump({"property":pid,"sub":sub,"index":f["index"],"tier":tier,"tag":f["tag"],"message":d.get("msg",f["msg"]),"case":d.get("notes",f["notes"]).split("\n"),"tape":tape,"how":"python3 tools/replay.py "+os.path.join("replays",name)},open(path,"w"),indent=1)
        reports.append((sub,f["tag"],d.get("msg",f["msg"]),path))
    return subs,hashes,reports,notrepro,tb
def main():
    pid=sys.argv[1]; t0=time.time()
    seed=int(os.environ.get("VERIF_SEED","1")); tier=os.environ.get("VERIF_TIER","quick")
    if "--tier" in sys.argv: tier=sys.argv[sys.argv.index("--tier")+1]
    only=sys.argv[sys.argv.index("--only")+1] if "--only" in sys.argv else None
    scale=float(sys.argv[sys.argv.index("--scale")+1]) if "--scale" in sys.argv else 1.0
    cfg=REG[pid]
    subs,hashes,reports,notrepro,tb=({},set(),[],[],0.0)
    if cfg.get("harness"):
        subs,hashes,reports,notrepro,tb=run_cpp(pid,cfg,seed,tier,scale,only)
    samples=[]
    for n,e in subs.items():
        for x in e["samples"][:2]: samples.append({"check":n,"case":x.strip().split("\n")})
    ev={"property":pid,"tier":tier,"seed":seed,"level":"exploration",
        "coverage":{"evaluations":sum(e["evals"] for e in subs.values()),"distinct_nontrivial":len(hashes),"rule":cfg["rule"],
            "samples":samples[:40],
            "discarded":sum(e["discards"] for e in subs.values()),
            "checks":{n:{k:(round(v,2) if isinstance(v,float) else v) for k,v in e.items() if k!="samples"} for n,e in subs.items()},
            "time_capped":[n for n,e in subs.items() if e["capped"]]},
        "assumptions":cfg.get("assumptions",[]),"violations":len(reports),"wall_s":round(time.time()-t0,2),"build_s":round(tb,2)}
    if notrepro: ev["coverage"]["unreproduced_failures"]=notrepro
    ev["coverage"]={k:v for k,v in ev["coverage"].items()}
    os.makedirs(os.path.join(V,"evidence"),exist_ok=True)
    json.dump({k:v for k,v in ev.items() if k!="build_s"},open(os.path.join(V,"evidence",pid+".json"),"w"),indent=1)
    for n,e in subs.items():
        print(f"[{pid}] {n}: {e['evals']} cases, {e['nontrivial']} non-trivial, {e['discards']} discarded, {e['wall']:.1f}s"+(" (time cap)" if e["capped"] else "")+(" "+json.dumps(e["labels"]) if e["labels"] else ""))
    for k in load_known()["findings"]:
        if k["property"]==pid:
            # a listed finding is confirmed by its own sub-check, named in the entry
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for u in notrepro: print("note: a failure did not reproduce on replay and is not reported:",u["sub"],u["tag"],u["msg"][:300])
    for sub,tag,msg,path in reports:
        print(f"{sub} [{tag}]: {msg[:1500]}")
        print(f"VIOLATION property={pid} replay={path}",flush=True)
    print(f"[{pid}] wall {time.time()-t0:.1f}s seed {seed} tier {tier}")
    return 1 if reports else 0
if __name__=="__main__":
    try: rc=main()
    except vpbuild.BuildError as e: print("BUILD ERROR",e); rc=2
    sys.exit(rc)
