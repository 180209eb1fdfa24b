#!/usr/bin/env python3
# Generates MANIFEST.json from properties.jsonl and checks.py.
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
from checks import CHECKS
NA={}
ids=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
m={"version":1,"setup_cmd":"python3 run.py --selftest",
 "checks":[],"not_applicable":[],
 "notes":"One driver (run.py) builds the working tree of /repo together with the workloads under sanitizers and runs them; see DESIGN.md. No hooks are needed in /repo: all monitors attach through interfaces, templates, virtual functions and link-time replacement."}
for i in ids:
    c=CHECKS.get(i)
    if c: m["checks"].append({"property":i,"quick_cmd":f"python3 run.py {i} --tier quick","thorough_cmd":f"python3 run.py {i} --tier thorough","evidence_file":f"evidence/{i}.json","technique":c["technique"],"level":c["level"],"level_note":c["note"]})
    else: m["not_applicable"].append({"property":i,"reason":NA.get(i,"no check has been built for it yet")})
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); print(len(m["checks"]),"checks",len(m["not_applicable"]),"not claimed")
