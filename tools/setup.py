#!/usr/bin/env python3
"""sanity check of the sandbox: tools present, engine compiles"""
import shutil, subprocess, sys, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("g++",):
    if not shutil.which(t): sys.exit(f"{t} is missing")
sys.path.insert(0,os.path.join(V,"tools"))
import vpbuild; vpbuild.prepare()
subprocess.run(["g++","-std=c++17","-fsyntax-only","-I"+os.path.join(V,"harness"),"-x","c++","-"],input=b'#include "vp.hpp"\n#include "m3.hpp"\n',check=True)
print("ok")
