"""Builds harnesses from /repo's current working tree (content-hash cached object files)."""
import hashlib, json, os, re, subprocess, sys, time, glob, shutil
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R=os.environ.get("VP_REPO","/repo")
B=os.environ.get("VP_BUILD",os.path.join(V,"build"))
CXX="g++"
BASE=["-std=c++17","-fPIC","-fopenmp","-fvisibility=hidden","-pipe","-w"]
def inc(): return ["-I"+os.path.join(V,"shim"),"-I"+os.path.join(B,"inc"),"-I"+os.path.join(R,"src"),"-I"+os.path.join(R,"lib/tetgen"),"-I"+os.path.join(V,"harness")]
def sha(b): return hashlib.sha256(b).hexdigest()
def prepare():
    os.makedirs(os.path.join(B,"inc"),exist_ok=True); os.makedirs(os.path.join(B,"obj"),exist_ok=True); os.makedirs(os.path.join(B,"bin"),exist_ok=True)
    src=os.path.join(R,"version.hpp.in")
    txt=re.sub(r"@[A-Z_a-z0-9]*@","x",open(src).read()) if os.path.exists(src) else ""
    p=os.path.join(B,"inc","version.hpp")
    if not os.path.exists(p) or open(p).read()!=txt:
        with open(p+f".{os.getpid()}","w") as f: f.write(txt)
        os.replace(p+f".{os.getpid()}",p)
class BuildError(Exception): pass
def parse_deps(path):
    t=open(path).read().replace("\\\n"," "); i=t.index(":"); return [x for x in t[i+1:].split()]
_h={}
def fhash(p):
    if p not in _h:
        try: _h[p]=sha(open(p,"rb").read())
        except OSError: _h[p]="missing"
    return _h[p]
def compile_one(src,flags,extra_inc=()):
    cmd=[CXX,*BASE,*flags,*inc(),*extra_inc]
    key=sha((src+"\0"+"\0".join(cmd)).encode())[:20]
    o=os.path.join(B,"obj",os.path.basename(src)+"."+key+".o"); meta=o+".json"
    if os.path.exists(o) and os.path.exists(meta):
        try:
            d=json.load(open(meta))
            if all(fhash(p)==h for p,h in d.items()): return o,0.0
        except Exception: pass
    t=time.time(); tmp=o+f".{os.getpid()}.tmp"
    p=subprocess.run(cmd+["-MMD","-MF",tmp+".d","-c",src,"-o",tmp],capture_output=True,text=True)
    if p.returncode: raise BuildError(f"{' '.join(cmd)} -c {src}\n{p.stderr[-6000:]}")
    deps={q:fhash(q) for q in parse_deps(tmp+".d") if not q.startswith("/usr/")}
    os.replace(tmp,o); os.remove(tmp+".d")
    with open(meta+".tmp","w") as f: json.dump(deps,f)
    os.replace(meta+".tmp",meta)
    return o,time.time()-t
SKIP={"logger.cpp"}
def lib_sources(which):
    s=os.path.join(R,"src")
    if which=="none": return []
    if which=="mini": return [os.path.join(s,x) for x in ("bravais.cpp","comparisons.cpp","debug.cpp","process_id.cpp","vertex_map_set.cpp") if os.path.exists(os.path.join(s,x))]
    every=sorted(x for x in glob.glob(os.path.join(s,"*.cpp")) if os.path.basename(x) not in SKIP)
    tet=[os.path.join(R,"lib/tetgen/tetgen.cxx"),os.path.join(R,"lib/tetgen/predicates.cxx")]
    if which=="sym":
        drop={"bz.cpp","bz_move.cpp","bz_wedge.cpp","neighbours.cpp"}
        return [x for x in every if os.path.basename(x) not in drop]
    return every+tet
def build(name,srcs,lib="all",flags=("-O1",),libflags=None,link=(),extra_inc=(),shared=False,outname=None):
    """-> path of the linked program"""
    prepare()
    flags=list(flags); lf=list(libflags) if libflags is not None else flags
    jobs=[(s,flags) for s in srcs]+[(s,lf if "tetgen" not in os.path.basename(s) and "predicates" not in s else [f for f in lf if not f.startswith("-fsanitize")]) for s in lib_sources(lib)]
    with ThreadPoolExecutor(int(os.environ.get("VP_JOBS","8"))) as ex:
        res=list(ex.map(lambda j: compile_one(j[0],j[1],extra_inc),jobs))
    objs=[o for o,_ in res]
    key=sha("\0".join([name,*flags,*link]+[fhash(o) for o in objs]).encode())[:20]
    exe=os.path.join(B,"bin",(outname or (name+"."+key)))
    if outname or not os.path.exists(exe):
        tmp=exe+f".{os.getpid()}.tmp"
        cmd=[CXX,*BASE,*flags,*(["-shared"] if shared else []),*objs,"-o",tmp,*link]
        p=subprocess.run(cmd,capture_output=True,text=True)
        if p.returncode: raise BuildError("link: "+p.stderr[-4000:])
        os.replace(tmp,exe)
    return exe
def build_python():
    """the brille Python package of the working tree (extension module and Python sources) -> directory to put on PYTHONPATH"""
    prepare()
    pb="/opt/vp/venv/lib/python3.12/site-packages/pybind11/include"
    if not os.path.isdir(pb):
        c=glob.glob("/opt/**/pybind11/include",recursive=True)+glob.glob("/usr/**/pybind11/include",recursive=True)
        if not c: raise BuildError("no pybind11")
        pb=c[0]
    flags=["-O1"]; wf=["-O1"]; ex=["-I"+pb,"-I/usr/include/python3.12"]
    wraps=sorted(glob.glob(os.path.join(R,"wrap","*.cpp")))
    big=("_trellis","_mesh","_nest","_bz")
    wraps.sort(key=lambda p: -os.path.basename(p).startswith(big))
    jobs=[(s,wf,ex) for s in wraps]+[(s,flags,()) for s in lib_sources("all")]
    with ThreadPoolExecutor(int(os.environ.get("VP_JOBS","8"))) as e:
        res=list(e.map(lambda j: compile_one(*j),jobs))
    objs=[o for o,_ in res]
    py=sorted(glob.glob(os.path.join(R,"brille","*.py")))
    key=sha("\0".join([fhash(o) for o in objs]+[os.path.basename(p)+fhash(p) for p in py]).encode())[:20]
    root=os.path.join(B,"py",key); pk=os.path.join(root,"brille")
    if not os.path.exists(os.path.join(pk,"done")):
        os.makedirs(pk,exist_ok=True)
        for p in py: shutil.copy(p,pk)
        cmd=[CXX,*BASE,*flags,"-shared",*objs,"-o",os.path.join(pk,"_brille.cpython-312-x86_64-linux-gnu.so")]
        p=subprocess.run(cmd,capture_output=True,text=True)
        if p.returncode: raise BuildError("link: "+p.stderr[-4000:])
        open(os.path.join(pk,"done"),"w").close()
    return root
def build_harness(pid,h):
    """-> executable of a harness entry (a program, or a script that runs the Python harness with the module built from the tree)"""
    if "py" in h:
        root=build_python(); src=os.path.join(V,"harness",h["py"]); d=os.path.join(B,"bin"); os.makedirs(d,exist_ok=True)
        exe=os.path.join(d,f"{pid}_{os.path.splitext(h['py'])[0]}.{os.path.basename(root)}"); t=f"#!/bin/sh\nPYTHONPATH='{root}' PYTHONDONTWRITEBYTECODE=1 exec python3-vt '{src}' \"$@\"\n"
        tmp=exe+f".{os.getpid()}"; open(tmp,"w").write(t); os.chmod(tmp,0o755); os.replace(tmp,exe); return exe
    return build(pid+"_"+os.path.splitext(h["src"][0])[0],[os.path.join(V,"harness",s) for s in h["src"]],lib=h.get("lib","all"),flags=h.get("flags",["-O1"]),libflags=h.get("libflags"),link=h.get("link",[]))
