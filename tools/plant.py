#!/usr/bin/env python3
# plant.py SPECFILE [ID...]  - create seeded/<id>/ from a spec (python file defining SEEDS) and confirm it in /repo:
# applies, builds, stable tests pass, demo passes without and fails with it; then say whether the property's check catches it.
import sys,os,subprocess,json,shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
DEMO='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
H=/usr/lib/x86_64-linux-gnu/hdf5/serial
g++ -std=c++11 %(opt)s -I"$D" -I_build -Iinclude -I/usr/include/hdf5/serial "$D/demo.cpp" %(src)s _build/lib/libnuSQuIDS.a -L$H -lhdf5_hl -lhdf5 -lgsl -lgslcblas -lm -lpthread -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
'''
ns={}; exec(open(sys.argv[1]).read(),ns); want=sys.argv[2:]
def tests():
    r=sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seedgen/t.json"); 
    if r.returncode: return "build/test: "+r.stdout[-1500:]
    b=json.load(open("/opt/vp/BASELINE.json")); j=json.load(open("/tmp/seedgen/t.json")); s=json.dumps(j)
    return None if ('fail' not in s.lower() or '"failed": []' in s or '"failed":[]' in s) else s
for sd in ns["SEEDS"]:
    i=sd["id"]
    if want and i not in want: continue
    assert sh("git -C /repo status --short").stdout.strip()=="","repo dirty"
    d=f"{V}/seeded/{i}"; os.makedirs(d,exist_ok=True)
    for f,o,n in sd["edits"]:
        p="/repo/"+f; s=open(p).read()
        if s.count(o)!=1: print(i,"edit matches",s.count(o),"times in",f); sh("git -C /repo checkout -- ."); break
        open(p,"w").write(s.replace(o,n))
    else:
        open(d+"/patch.diff","w").write(sh("git -C /repo diff").stdout)
        open(d+"/demo.cpp","w").write(sd["demo"])
        open(d+"/demo.sh","w").write(sd.get("sh") or DEMO%dict(opt=sd.get("opt","-O1"),src=sd.get("src",""))); os.chmod(d+"/demo.sh",0o755)
        for f,src in sd.get("files",{}).items():
            os.makedirs(os.path.dirname(d+"/"+f),exist_ok=True); shutil.copy(src,d+"/"+f)
        json.dump(dict(property=sd["prop"],needs=sd["needs"],what_it_breaks=sd["breaks"]),open(d+"/meta.json","w"),indent=1)
        t=tests(); r=sh(f"bash {d}/demo.sh",cwd="/repo"); bad=r.returncode
        c=sh(f"python3 {V}/run.py {sd['prop']}",cwd=V) if not os.environ.get("NOCHECK") else None
        sh("git -C /repo checkout -- ."); t0=sh("bash /opt/vp/build.sh"); r0=sh(f"bash {d}/demo.sh",cwd="/repo")
        vi=[l for l in c.stdout.split("\n") if l.startswith("VIOLATION")] if c else []
        print(f"{i}: tests {'ok' if t is None else t[:300]}; demo with {bad}{(' '+r.stdout[-200:].strip()) if bad==3 else ''}, without {r0.returncode}{(' '+r0.stdout[-400:]) if r0.returncode else ''}; check {'exit %d, %d violations'%(c.returncode,len(vi)) if c else '-'}{'' if vi else (' MISSED '+c.stdout[-600:] if c else '')}",flush=True)
        if vi: print("   ",[l.strip()[:160] for l in c.stdout.split("\n") if l.startswith("  ")][:2],flush=True)
