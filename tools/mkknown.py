#!/usr/bin/env python3
"""Refresh the "fixed" list of known_findings.json from the fix: commits in /repo (run by hand)."""
import json,subprocess,os
P={} # commit subject prefix -> property
MAP=[("stop subscript iterators","A03"),("linear indices","A02"),("decoupling a strided Array","A01"),("results of Array and Array2","A01"),("extracting an Array by","A01"),("Array::match","A01"),("Array2::contig","A02"),("Array2::each_is","A02"),("type-converting assign","A02"),("a scalar minus","A02"),("Array2::is_perm","A02"),("Array2::permutation_vector","A02"),("Array2::all(le_ge","A02"),("value iterators of empty","A01"),("strides of singleton","A01"),("swap, permute and extract pairs","A01")]
EXTRA=os.path.join(os.path.dirname(__file__),"fixmap.txt")
if os.path.exists(EXTRA):
    for l in open(EXTRA):
        if "|" in l: a,b=l.rstrip("\n").split("|"); MAP.append((b,a))
out=[]
for l in subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines():
    h,s=l.split(" ",1)
    if not s.startswith("fix: "): continue
    s=s[5:]; p=[q for k,q in MAP if s.startswith(k)]
    if not p: print("UNMAPPED",h,s); continue
    out.append(f"fixed: property={p[0]} {h} {s}")
f=os.path.join(os.path.dirname(__file__),"..","known_findings.json"); d=json.load(open(f)); d["fixed"]=out; json.dump(d,open(f,"w"),indent=1); print(len(out),"fixed")
