#!/usr/bin/env python3
"""writes MANIFEST.json from harness/registry.py and properties.jsonl"""
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,os.path.join(V,"harness"))
from registry import REG, NOTE
props=[json.loads(l)["id"] for l in open(os.path.join(V,"properties.jsonl"))]
checks=[{"property":p,"quick_cmd":f"python3 tools/check.py {p}","thorough_cmd":f"VERIF_TIER=thorough python3 tools/check.py {p}","evidence_file":f"evidence/{p}.json",
 "technique":REG[p].get("technique","property-based testing: generated cases against an independent oracle, with shrinking"),"level":"exploration","level_note":REG[p]["note"] if "note" in REG[p] else NOTE} for p in props if p in REG]
na=[{"property":p,"reason":"no check built yet"} for p in props if p not in REG]
m={"version":1,"setup_cmd":"python3 tools/setup.py","checks":checks,"not_applicable":na,"notes":"Checks build what they need from /repo's working tree into /verif/build (content-hash cached, git-ignored). No hooks in /repo. /verif/shim holds a stand-in for the HighFive headers, which are not installed here."}
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1); print(len(checks),"checks",len(na),"not claimed")
