#!/usr/bin/env python3
"""seedtool.py FILE.py...: make planted changes. Each FILE.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file,old,new[,nth])],
DEMO (C++ source) and optionally SRCS (library sources the demo needs), FLAGS, and optionally DEMO_SH.
Works in a scratch clone outside /repo; confirms the demonstration passes without and fails with the change."""
import sys, os, json, subprocess, runpy, shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S="/tmp/seedscratch/repo"
SH='''#!/bin/bash
# exit 0 where the property holds, non-zero where it is broken; cwd is the repository
set -e
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -r -- "$T"' EXIT
mkdir -p "$T/inc/highfive"; cp "$D"/H5File.hpp "$T/inc/highfive/"
for h in H5Attribute H5DataSet H5DataSpace H5DataType H5Easy H5Group H5Object highfive; do echo '#include "H5File.hpp"' > "$T/inc/highfive/$h.hpp"; done
sed 's/@[A-Za-z_0-9]*@/x/g' version.hpp.in > "$T/inc/version.hpp"
F="-std=c++17 -O0 -w -fopenmp -I$T/inc -Isrc -Ilib/tetgen FLAGS_"
for s in SRCS_; do echo "$s"; done | xargs -P 8 -I{} sh -c 'g++ '"$F"' -c {} -o '"$T"'/$(basename {}).o'
g++ $F "$D/demo.cpp" $(ls "$T"/*.o 2>/dev/null) -o "$T/demo"
timeout 120 "$T/demo"
'''
ALL="$(ls src/*.cpp | grep -v logger.cpp) lib/tetgen/tetgen.cxx lib/tetgen/predicates.cxx"
def run(cmd,**k): return subprocess.run(cmd,shell=isinstance(cmd,str),capture_output=True,text=True,**k)
def scratch():
    if not os.path.isdir(S): os.makedirs(os.path.dirname(S),exist_ok=True); subprocess.check_call(["cp","-a","/repo",S])
    run("git checkout -q -- . ; git fetch -q /repo HEAD; git reset -q --hard FETCH_HEAD",cwd=S)
def make(f):
    m=runpy.run_path(f); d=os.path.join(V,"seeded",m["ID"]); os.makedirs(d,exist_ok=True); scratch()
    for e in m["EDITS"]:
        p=os.path.join(S,e[0]); s=open(p,newline="").read(); nth=e[3] if len(e)>3 else None
        n=s.count(e[1]); assert n>=1 and (n==1 or nth is not None),(m["ID"],e[0],"occurrences",n)
        if nth is None: s=s.replace(e[1],e[2])
        else:
            parts=s.split(e[1]); s=e[1].join(parts[:nth+1])+e[2]+e[1].join(parts[nth+1:])
        open(p,"w",newline="").write(s)
    open(os.path.join(d,"patch.diff"),"w",newline="").write(run("git diff",cwd=S).stdout)
    json.dump({"property":m["PROPERTY"],"needs":m["NEEDS"],"what_it_breaks":m["BREAKS"]},open(os.path.join(d,"meta.json"),"w"),indent=1)
    if "DEMO" in m:
        open(os.path.join(d,"demo.cpp"),"w").write(m["DEMO"]); shutil.copy(os.path.join(V,"shim/highfive/H5File.hpp"),d)
        srcs=m.get("SRCS",""); srcs=ALL if srcs=="all" else " ".join("src/"+x for x in srcs.split())
        open(os.path.join(d,"demo.sh"),"w").write(m.get("DEMO_SH",SH).replace("SRCS_",srcs).replace("FLAGS_",m.get("FLAGS","")))
    elif "DEMO_SH" in m: open(os.path.join(d,"demo.sh"),"w").write(m["DEMO_SH"])
    os.chmod(os.path.join(d,"demo.sh"),0o755)
    a=run(["bash",os.path.join(d,"demo.sh")],cwd=S); run("git checkout -q -- .",cwd=S)
    b=run(["bash",os.path.join(d,"demo.sh")],cwd=S)
    ok=a.returncode!=0 and b.returncode==0 and "error:" not in a.stderr
    print(m["ID"],"with the change rc",a.returncode,"without rc",b.returncode,"OK" if ok else "BAD\n"+a.stdout[-800:]+a.stderr[-2500:]+b.stdout[-800:]+b.stderr[-2500:],flush=True)
    return ok
def trial(i,args=()):
    """run the property's check against the planted change"""
    d=os.path.join(V,"seeded",i); p=json.load(open(os.path.join(d,"meta.json")))["property"]; scratch()
    r=run(["git","apply",os.path.join(d,"patch.diff")],cwd=S); assert r.returncode==0,r.stderr
    env=dict(os.environ,VP_REPO=S,VP_BUILD="/tmp/seedscratch/build")
    a=subprocess.run([sys.executable,os.path.join(V,"tools/check.py"),p,*args],env=env,capture_output=True,text=True)
    run("git checkout -q -- .",cwd=S); v=[l for l in a.stdout.splitlines() if l.startswith("VIOLATION")]
    print(i,p,"rc",a.returncode,"CAUGHT" if a.returncode==1 and v else "MISSED\n"+a.stdout[-1500:]+a.stderr[-1500:],*v[:3],flush=True)
if __name__=="__main__":
    if sys.argv[1]=="--trial":
        ids=[x for x in sys.argv[2:] if not x.startswith("--")] or sorted(os.listdir(os.path.join(V,"seeded")))
        for i in ids: trial(i)
    else:
        for f in sys.argv[1:]: make(f)
