#!/usr/bin/env python3
"""Driver of the monitors:  run.py <property> [--tier quick|thorough] [--seed N] | --build-all | --replay FILE

Builds the real code of the repository's working tree together with the property's workload under
sanitizers, runs every group of cases in separate processes, and turns what the monitors recorded into
  exit 0  held on everything explored
  exit 1  VIOLATION property=<id> replay=<path>
  exit 2  the check itself could not give an answer (build failure, lost process, nothing observed)
See DESIGN.md."""
import sys,os,json,hashlib,subprocess,time,shutil,re,threading,argparse,tempfile,signal
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.abspath(__file__))
REPO=os.environ.get("VERIF_REPO","/repo")
H5=os.environ.get("VERIF_H5INC","/usr/include/hdf5/serial"); H5L="/usr/lib/x86_64-linux-gnu/hdf5/serial"
NJ=int(os.environ.get("VERIF_JOBS","8"))
sys.path.insert(0,V)
from checks import CHECKS,BINS
CXX="g++"
UB="-fsanitize=bounds,signed-integer-overflow,integer-divide-by-zero,float-cast-overflow,bool,enum,return,shift,null,vla-bound -fno-sanitize-recover=all"
MODES={
 "asan":("-O1 -g1 -fno-omit-frame-pointer -fsanitize=address "+UB+" -D_GLIBCXX_ASSERTIONS","-fsanitize=address,undefined"),
 "asan-align":("-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,alignment "+UB+" -D_GLIBCXX_ASSERTIONS","-fsanitize=address,undefined"),
 "tsan":("-O1 -g1 -fsanitize=thread -D_GLIBCXX_ASSERTIONS","-fsanitize=thread"),
}
LIBSRC={"none":[],"tools":["tools","resources","taudecay"],"body":["tools","resources","taudecay","body"],
 "xs":["tools","resources","taudecay","xsections"],"full":["tools","resources","taudecay","body","xsections","nuSQuIDS"]}
KNOWN=["tools","resources","taudecay","body","xsections","nuSQuIDS"]
LIBS=f"-L{H5L} -lhdf5_hl -lhdf5 -lgsl -lgslcblas -lm -lpthread"
T0=time.time()
class BuildError(Exception): pass
def sh(cmd,**k): return subprocess.run(cmd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def hfiles(paths,extra=""):
    h=hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p,"rb").read())
    return h.hexdigest()[:16]
def tree(d,exts):
    r=[]
    for a,_,fs in os.walk(d):
        for f in fs:
            if f.endswith(exts): r.append(os.path.join(a,f))
    return r
def build(binnames,log):
    """compile what is needed; returns {bin: path}"""
    repo_files=tree(os.path.join(REPO,"src"),(".cpp",".h",".hpp",".cc"))+tree(os.path.join(REPO,"include"),(".h",".hpp"))+[os.path.join(REPO,"configure"),os.path.join(REPO,"resources/version.h.in")]
    for d in ("resources/python/src","resources/python/inc","resources/user_contributions"): repo_files+=tree(os.path.join(REPO,d),(".cpp",".h"))
    shim=tree(os.path.join(V,"shim"),(".h",".cpp"))
    libhash=hfiles(repo_files+shim,json.dumps(MODES)+REPO+CXX)
    root=os.path.join(V,"build"); d=os.path.join(root,libhash); os.makedirs(d,exist_ok=True)
    for o in os.listdir(root):           # keep only the newest few trees
        p=os.path.join(root,o)
        if o!=libhash and time.time()-os.path.getmtime(p)>3600: shutil.rmtree(p,ignore_errors=True)
    os.utime(d)
    gen=os.path.join(d,"gen"); 
    if not os.path.exists(os.path.join(gen,"ok")):
        os.makedirs(os.path.join(gen,"nuSQuIDS"),exist_ok=True); os.makedirs(os.path.join(gen,"build"),exist_ok=True)
        s=open(os.path.join(REPO,"resources/version.h.in")).read()
        s=s.replace("__NUSQUIDS_VERSION__","111000").replace("__NUSQUIDS_VERSION_STR__","1.11.0")
        open(os.path.join(gen,"nuSQuIDS/version.h"),"w").write(s)
        r=sh(f"{{ echo 'SOURCE_PATH={REPO}; PREFIX=/usr/local; cd {gen}'; sed -n '/^INSTALL_FLAG_PREFIX=/,/> build\\/resource_paths.h$/p' {REPO}/configure; }} | bash -e && mv {gen}/build/resource_paths.h {gen}/resource_paths.h")
        if r.returncode: raise BuildError("cannot generate resource_paths.h\n"+r.stdout)
        open(os.path.join(gen,"ok"),"w").close()
    inc=f"-I{gen} -I{V}/shim -I{REPO}/include -I{H5} -I{V}/harness"
    extra=[os.path.splitext(f)[0] for f in os.listdir(os.path.join(REPO,"src")) if f.endswith(".cpp") and os.path.splitext(f)[0] not in KNOWN]
    jobs={}; out={}; links=[]
    hh=hfiles([os.path.join(V,"harness",f) for f in os.listdir(os.path.join(V,"harness")) if f.endswith(".h")])
    for b in binnames:
        cfg=BINS[b]; cf,lf=MODES[cfg["san"]]; objs=[]
        md=os.path.join(d,cfg["san"]); os.makedirs(md,exist_ok=True)
        srcs=[s for s in LIBSRC[cfg["lib"]] if os.path.exists(f"{REPO}/src/{s}.cpp")]
        for s in srcs:
            o=f"{md}/{s}.o"; objs.append(o); jobs[o]=f"{CXX} -std=c++11 {cf} {inc} -fPIC -c {REPO}/src/{s}.cpp -o {o}"
        if cfg["lib"]!="none":
            for s in extra:
                o=f"{md}/x_{s}.o"; objs.append(o); jobs[o]=f"{CXX} -std=c++11 {cf} {inc} -fPIC -c {REPO}/src/{s}.cpp -o {o}"
        if cfg["lib"]=="full":
            o=f"{md}/squids_standin.o"; objs.append(o); jobs[o]=f"{CXX} -std=c++11 {cf.replace('-O1','-O2')} {inc} -c {V}/shim/squids_standin.cpp -o {o}"
        sub=lambda t: t.replace("{repo}",REPO).replace("{verif}",V)
        for rs in cfg.get("rsrc",[]):             # sources of the repository outside src/
            o=f"{md}/r_{os.path.basename(rs)}.{hashlib.sha256((rs+cfg.get('flags','')).encode()).hexdigest()[:8]}.o"; objs.append(o)
            jobs[o]=f"{CXX} -std=c++11 {cf} {sub(cfg.get('flags',''))} {inc} -fPIC -c {REPO}/{rs} -o {o}"
        for i,src in enumerate(cfg["src"]):       # "file.cpp" or "file.cpp:PART" (compiled with -DPART)
            src,_,part=src.partition(":"); sp=os.path.join(V,"harness",src)
            fl=cfg.get("flags","")+(f" -D{part}" if part else "")
            o=f"{md}/{src}.{hashlib.sha256((hh+open(sp).read()+fl).encode()).hexdigest()[:12]}.o"; objs.append(o)
            jobs[o]=f"{CXX} -std=c++17 {cf} {sub(fl)} {inc} -c {sp} -o {o}"
        exe=f"{md}/{b}.{hashlib.sha256((' '.join(objs)+cfg.get('ld','')+cfg.get('ldend','')).encode()).hexdigest()[:12]}"
        out[b]=exe; links.append((exe,f"{CXX} {lf} {cfg.get('ld','')} {' '.join(objs)} {LIBS} {cfg.get('ldend','')} -o {{}}"))
    def comp(it):
        o,c=it
        if os.path.exists(o): return None
        t=f"{o}.tmp{os.getpid()}"
        r=sh(c[:c.rindex(" -o ")]+" -o "+t)
        if r.returncode: return c+"\n"+r.stdout[-6000:]
        os.replace(t,o); return None
    # heaviest first
    order=sorted(jobs.items(),key=lambda x:(0 if "nuSQuIDS" in x[0].split("/")[-1] else 1 if "/harness/" in x[1] else 2))
    with ThreadPoolExecutor(NJ) as ex: errs=[e for e in ex.map(comp,order) if e]
    if errs: raise BuildError("\n".join(errs))
    def link(l):
        exe,c=l
        if os.path.exists(exe): return None
        t=f"{exe}.tmp{os.getpid()}"; r=sh(c.format(t))
        if r.returncode: return c+"\n"+r.stdout[-6000:]
        os.replace(t,exe); return None
    with ThreadPoolExecutor(NJ) as ex: errs=[e for e in ex.map(link,links) if e]
    if errs: raise BuildError("\n".join(errs))
    return out
ENVB={"ASAN_OPTIONS":"detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=4096:handle_abort=1:quarantine_size_mb=64",
 "UBSAN_OPTIONS":"print_stacktrace=1:halt_on_error=1:exitcode=86","TSAN_OPTIONS":"halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0:suppressions="+os.path.join(V,"tsan.supp"),
 "LC_ALL":"C","HDF5_USE_FILE_LOCKING":"FALSE"}
def san_kind(err):
    m=re.search(r"SUMMARY: (\w+Sanitizer): ([\w-]+(?: [a-z]+)?)",err)
    if m: return f"{m.group(1)}:{m.group(2).strip()}"
    m=re.search(r"runtime error: ([^\n]{0,80})",err)
    if m: return "UBSan:"+re.sub(r"[0-9a-fx.e+-]{2,}","N",m.group(1))[:60]
    m=re.search(r"Assertion [`'\"]?(.{0,80})",err)
    if m: return "assert"
    return "abnormal-exit"
class Runner:
    def __init__(s,prop,tier,seed):
        s.prop,s.tier,s.seed=prop,tier,seed
        s.viol={}; s.errors=[]; s.lost=[]; s.evals=0; s.distinct=set(); s.counts={}; s.samples=[]; s.lock=threading.Lock()
        s.work=tempfile.mkdtemp(prefix=f"verif-{prop}-")
        s.stop_at=T0+(760 if tier=="quick" else 6*3600)
    # once something has been found the rest gets a little time only; a quick run ends before the time a check is given
    def late(s):
        return bool(s.stop_at) and time.time()>s.stop_at
    def add(s,key,rec):
        with s.lock:
            if s.tier=="quick": s.stop_at=min(s.stop_at,time.time()+90)
            v=s.viol.setdefault(key,[])
            if len(v)<3: v.append(rec)
    def proc(s,exe,args,timeout,tag,san,env2=None):
        w=os.path.join(s.work,tag); os.makedirs(w,exist_ok=True); tmp=os.path.join(w,"tmp"); os.makedirs(tmp,exist_ok=True)
        out=os.path.join(w,"out"); pr=os.path.join(w,"progress"); er=os.path.join(w,"err")
        for f in (out,pr):
            if os.path.exists(f): os.unlink(f)
        env=dict(os.environ); env.update(ENVB)
        if env2: env.update(env2)
        cmd=[exe,"--seed",str(s.seed),"--tier",s.tier,"--out",out,"--progress",pr,"--tmp",tmp]+args
        with open(er,"wb") as ef:
            p=subprocess.Popen(cmd,stdout=subprocess.DEVNULL,stderr=ef,stdin=subprocess.DEVNULL,env=env,start_new_session=True,cwd=tmp)
            end=time.time()+timeout
            while True:
                try: rc=p.wait(0.5 if s.stop_at else max(.01,min(2,end-time.time()))); break
                except subprocess.TimeoutExpired:
                    late=s.late(); 
                    if time.time()<end and not late: continue
                    try: os.killpg(p.pid,signal.SIGKILL)
                    except ProcessLookupError: pass
                    p.wait(); rc="late" if late else "timeout"; break
        recs=[]
        if os.path.exists(out):
            for l in open(out,errors="replace"):
                try: recs.append(json.loads(l))
                except Exception: pass
        prog=None
        if os.path.exists(pr):
            t=open(pr,"rb").read(512).split(b"\0")[0].decode(errors="replace").strip()
            if t:
                a=t.split(" ",1); prog=(int(a[0]),a[1] if len(a)>1 else "")
        err=open(er,"rb").read()[-60000:].decode(errors="replace") if os.path.getsize(er)<60000 else (lambda b:(b[:40000]+b[-20000:]).decode(errors="replace"))(open(er,"rb").read())
        shutil.rmtree(tmp,ignore_errors=True)
        return rc,recs,prog,err
    def absorb(s,b,g,recs):
        ok=False
        for r in recs:
            if r.get("t")=="fail":
                s.add(r["key"],dict(bin=b,group=g,idx=r["idx"],desc=r["desc"],msg=r["msg"]))
            elif r.get("t")=="sum":
                ok=True
                with s.lock:
                    s.evals+=r["evals"]; s.distinct.update(r["distinct"])
                    for k,v in r["counts"].items(): s.counts[k]=s.counts.get(k,0)+v
                    if len(s.samples)<12: s.samples+=r["samples"][:1]
        return ok
    def shard(s,b,exe,g,i,n,cfg):
        frm=0; to=cfg.get("timeout",300 if s.tier=="quick" else 3000); resumes=0
        san=cfg["san"]
        while True:
            if s.late():
                with s.lock: s.lost.append(f"{b}/{g} shard {i}: no time left")
                return
            args=["--group",g,"--shard",f"{i}/{n}","--from",str(frm)]
            rc,recs,prog,err=s.proc(exe,args,to,f"{b}.{g}.{i}",san)
            done=s.absorb(b,g,recs)
            if rc==0 and done: return
            if rc==66 and san=="tsan" and done:   # all cases ran; races were reported
                s.races(b,g,err,prog); return
            if prog is None:
                with s.lock: (s.lost if rc=="late" else s.errors).append(f"{b}/{g} shard {i}: process ended {rc} before any case\n{err[-2000:]}")
                return
            idx,desc=prog
            if rc=="late":
                with s.lock: s.lost.append(f"{b}/{g} shard {i}: stopped in case {idx}")
                return
            if rc=="timeout":
                rc2,recs2,_,err2=s.proc(exe,["--group",g,"--only",str(idx)],max(60,to//3),f"{b}.{g}.{i}.h",san)
                if rc2 in ("timeout","late"): s.add(f"hang/{g}",dict(bin=b,group=g,idx=idx,desc=desc,msg="case did not finish, twice")); return
                elif rc2!=0: s.add(f"crash/{g}/{san_kind(err2)}",dict(bin=b,group=g,idx=idx,desc=desc,msg=err2[:6000]))
            elif rc in (-9,-15,137):
                with s.lock: s.errors.append(f"{b}/{g} shard {i}: process killed (signal) at case {idx}"); 
                return
            elif rc in (2,99,127) and "harness:" in err:
                with s.lock: s.errors.append(f"{b}/{g} shard {i}: harness error {rc}\n{err[-2000:]}")
                return
            else:
                k=san_kind(err)
                s.add(f"crash/{g}/{k}",dict(bin=b,group=g,idx=idx,desc=desc,msg=f"process ended with {rc}\n"+err[:6000]))
            resumes+=1; frm=idx+1
            if resumes>3: return
    def races(s,b,g,err,prog):
        seen=set()
        for rep in err.split("==================")[0:]:
            m=re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)",rep)
            if not m: continue
            fr=re.findall(r"#\d+ (\S[^\n]*?) (/[^\s:]+)",rep)
            sig=m.group(1).strip()+"|"+",".join(sorted({f"{os.path.basename(p)}" for _,p in fr if "/usr/" not in p and "/harness/" not in p and "/shim/" not in p})[:3])
            if sig in seen: continue
            seen.add(sig)
            s.add(f"race/{g}/{sig}",dict(bin=b,group=g,idx=prog[0] if prog else 0,desc=prog[1] if prog else "",msg=rep[:6000]))
        if not seen: s.add(f"race/{g}/unparsed",dict(bin=b,group=g,idx=prog[0] if prog else 0,desc="",msg=err[:4000]))
def load_known(prop):
    k={}
    p=os.path.join(V,"known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r"known: property=(\S+) key=(\S+) (.*)",l.strip())
            if m and m.group(1)==prop: k[m.group(2)]=m.group(3)
    return k
def main():
    ap=argparse.ArgumentParser(); ap.add_argument("prop",nargs="?"); ap.add_argument("--tier",default=os.environ.get("VERIF_TIER","quick")); ap.add_argument("--seed",type=int,default=int(os.environ.get("VERIF_SEED","1") or 1))
    ap.add_argument("--build-all",action="store_true"); ap.add_argument("--selftest",action="store_true"); ap.add_argument("--replay"); ap.add_argument("--group"); ap.add_argument("-v",action="store_true")
    a=ap.parse_args()
    if a.tier not in("quick","thorough"): a.tier="quick"
    t0=time.time()
    if a.selftest:   # the toolchain the checks need is present and the sanitizers really report
        w=tempfile.mkdtemp(prefix="verif-selftest-"); ok=True
        open(w+"/a.cpp","w").write("#include <hdf5.h>\n#include <gsl/gsl_math.h>\n#include <thread>\nint g; int main(int c,char**v){ if(c>1){std::thread t([]{g++;}); g++; t.join(); return 0;} int* p=new int[2]; delete[] p; return p[c]; }\n")
        for san,args,want,code in (("address","","heap-use-after-free",86),("thread","x","data race",66)):
            r=sh(f"{CXX} -g -I{H5} -fsanitize={san} {w}/a.cpp -o {w}/a -lpthread && {w}/a {args}",env=dict(os.environ,**ENVB))
            if r.returncode!=code or want not in r.stdout: ok=False; print(f"selftest: {san} sanitizer gave {r.returncode}\n{r.stdout[:2000]}")
        shutil.rmtree(w,ignore_errors=True); print("selftest","ok" if ok else "FAILED"); sys.exit(0 if ok else 2)
    if a.build_all:
        try: build(list(BINS),None)
        except BuildError as e: print("BUILD FAILURE\n"+str(e)); sys.exit(2)
        print(f"built {len(BINS)} monitors in {time.time()-t0:.0f} s"); return
    if a.replay:
        r=json.load(open(a.replay)); exe=build([r["bin"]],None)[r["bin"]]
        env=dict(os.environ); env.update(ENVB); w=tempfile.mkdtemp(prefix="verif-replay-")
        rc=subprocess.run([exe,"--group",r["group"],"--only",str(r["idx"]),"--seed",str(r["seed"]),"--tier",r["tier"],"--tmp",w,"-v","--out",w+"/out"],env=env,cwd=w).returncode
        fails=[l for l in open(w+"/out") if '"t":"fail"' in l] if os.path.exists(w+"/out") else []
        for l in fails: print(l.strip())
        shutil.rmtree(w,ignore_errors=True); sys.exit(1 if fails or rc else 0)
    prop=a.prop; C=CHECKS[prop]; level=C.get("level","exploration")
    ev=os.path.join(V,"evidence",prop+".json"); os.makedirs(os.path.dirname(ev),exist_ok=True)
    try: exes=build(C["bins"],None)
    except BuildError as e:
        print("CHECK ERROR: build failure\n"+str(e)[-5000:]); sys.exit(2)
    tb=time.time()-t0
    R=Runner(prop,a.tier,a.seed)
    try:
        tasks=[]; expect={}
        for b in C["bins"]:
            env=dict(os.environ); env.update(ENVB)
            l=subprocess.run([exes[b],"--list","--tier",a.tier],stdout=subprocess.PIPE,text=True,env=env)
            if l.returncode: print("CHECK ERROR: cannot list",b); sys.exit(2)
            for ln in l.stdout.split("\n"):
                if not ln.strip(): continue
                g,n,ser=ln.split(); n=int(n)
                if a.group and g!=a.group: continue
                if n==0: continue
                expect["cases:"+g]=expect.get("cases:"+g,0)+n
                ns=1 if ser=="1" else min(NJ,n)
                for i in range(ns): tasks.append((b,exes[b],g,i,ns,BINS[b]))
        tasks.sort(key=lambda t:t[5]["san"]!="tsan")
        serial_cost=lambda t:t[5].get("weight",1)
        with ThreadPoolExecutor(NJ) as ex:
            fs=[ex.submit(R.shard,*t) for t in tasks]
            for f in fs: f.result()
    finally: shutil.rmtree(R.work,ignore_errors=True)
    known=load_known(prop); bad=[]
    for k in sorted(R.viol):
        if k in known: print(f"KNOWN-FINDING: property={prop} {k}: {known[k]}")
        else: bad.append(k)
    rd=os.path.join(V,"replays"); os.makedirs(rd,exist_ok=True)
    short=[f"{k}: {R.counts.get(k,0)}/{n}" for k,n in expect.items() if R.counts.get(k,0)<n]
    cov=dict(evaluations=R.evals,distinct_nontrivial=len(R.distinct),rule=C["rule"],samples=R.samples[:8] or ["none"],observed=R.counts,build_s=round(tb,1),known_findings_seen=[k for k in R.viol if k in known])
    json.dump(dict(property=prop,tier=a.tier,seed=a.seed,level=level,coverage=cov,assumptions=C.get("assumptions",[]),wall_s=round(time.time()-t0,2),violations=len(bad)),open(ev,"w"),indent=1)
    print(f"{prop}: {R.evals} evaluations, {len(R.distinct)} distinct non-trivial cases, build {tb:.0f} s, total {time.time()-t0:.0f} s")
    for k in bad:
        r=R.viol[k][0]; fn=os.path.join(rd,f"{prop}-{re.sub(r'[^A-Za-z0-9_.-]','_',k)[:80]}-s{a.seed}.json")
        json.dump(dict(property=prop,key=k,seed=a.seed,tier=a.tier,replay=f"python3 {V}/run.py --replay {fn}",**r),open(fn,"w"),indent=1)
        print(f"  {k}  x{R.counts.get('fail:'+k,len(R.viol[k]))} [{r['group']}#{r['idx']} {r['desc'][:200]}] {r['msg'][:400 if not a.v else 4000]}")
        print(f"VIOLATION property={prop} replay={fn}")
    if bad: sys.exit(1)
    if R.lost: print("CHECK ERROR: out of time: "+"; ".join(R.lost[:5])); sys.exit(2)
    if R.errors: print("CHECK ERROR:\n"+"\n".join(R.errors)[:4000]); sys.exit(2)
    if short: print("CHECK ERROR: cases lost: "+"; ".join(short)); sys.exit(2)
    for k,n in C.get("floor",{}).items():
        if not a.group and R.counts.get(k,0)<n: print(f"CHECK ERROR: observed too little: {k}={R.counts.get(k,0)} < {n}"); sys.exit(2)
    if R.evals==0 or not R.distinct: print("CHECK ERROR: nothing observed"); sys.exit(2)
    sys.exit(0)
if __name__=="__main__": main()
