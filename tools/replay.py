#!/usr/bin/env python3
"""replay.py <replay file>: rebuild the harness from /repo and run the recorded case."""
import json, os, subprocess, sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import vpbuild; from vpbuild import V,B
sys.path.insert(0,os.path.join(V,"harness")); from registry import REG
d=json.load(open(sys.argv[1])); cfg=REG[d["property"]]
for h in cfg["harness"]:
    exe=vpbuild.build_harness(d["property"],h)
    names=subprocess.run([exe,"--list","1"],capture_output=True,text=True).stdout.split()
    if d["sub"] not in names: continue
    t=os.path.join(B,"replay.tape")
    open(t,"w").write(f"{d['sub']} {d['index']} {d['tier']}\n"+" ".join(map(str,d["tape"]))+"\n")
    env=dict(os.environ); env.setdefault("OMP_NUM_THREADS","1"); env.update(cfg.get("env",{})); env["ASAN_OPTIONS"]="detect_leaks=0:abort_on_error=1"; env["UBSAN_OPTIONS"]="halt_on_error=1"
    p=subprocess.run([exe,"--replay",t],env=env,capture_output=True,text=True)
    try:
        o=json.loads(p.stdout); print("status",o["status"],"tag",o["tag"]); print(o["msg"]); print(o["notes"])
    except Exception: print(p.stdout,p.stderr)
    sys.exit(p.returncode)
print("no such sub-check"); sys.exit(3)
