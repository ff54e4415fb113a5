#!/usr/bin/env python3
"""camp.py KEY N SLOTS [IDS,comma] : mutation campaign over the files of a FILES key; N sampled mutants (0=all). Appends to /tmp/camp/KEY.log"""
import sys,subprocess,shutil,os,json,time,random,threading,signal
from importlib.machinery import SourceFileLoader
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__))); import props
TOOLS=os.path.dirname(os.path.abspath(__file__)); MC=os.path.join(os.path.dirname(TOOLS),"mc")
check=SourceFileLoader("check",os.path.join(os.path.dirname(TOOLS),"check")).load_module()
key,N,slots=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
ids=sys.argv[4].split(",") if len(sys.argv)>4 else [p["id"] for p in props.P if p["files"]==key]
os.makedirs("/tmp/mt",exist_ok=True)
BASE=f"/tmp/mt/base-{key}"; shutil.rmtree(BASE,ignore_errors=True); subprocess.run(["cp","-a","/repo",BASE],check=True)
GEN=f"/tmp/mt/mutgen-{key}"; REW=f"/tmp/mt/rewrite-{key}"
seed=int(os.environ.get("SEED","1"))
grp={p["id"]:p["group"] for p in props.P}
env=dict(os.environ,GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",GOWORK="off",GORACE="exitcode=0 history_size=2 suppress_equal_stacks=0 suppress_equal_addresses=0")
env["PATH"]="/opt/veriftools/go1.27.3/bin:"+env["PATH"]
LIM=int(os.environ.get("LIM","200"))
subprocess.run(["go","build","-o",GEN,"."],cwd=TOOLS+"/mutate",env=env,check=True)
subprocess.run(["go","build","-trimpath","-o",REW,"./rewrite"],cwd=MC,env=env,check=True)
os.makedirs("/tmp/camp",exist_ok=True)
log=open(f"/tmp/camp/{key}.log","a"); lock=threading.Lock()
muts=[]
for f in props.FILES[key]:
    out=subprocess.run([GEN,BASE+"/"+f],capture_output=True,text=True,check=True).stdout
    for l in out.splitlines():
        m=json.loads(l)
        if "T_" in m["New"]: continue
        m["file"]=f; muts.append(m)
random.Random(seed).shuffle(muts)
if N: muts=muts[:N]
stats={}
import resource
def lim_as(): resource.setrlimit(resource.RLIMIT_AS,(12<<30,12<<30))
def run(cmd,cwd,lim,cap=True):
    p=subprocess.Popen(["nice","-n","15"]+cmd,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,start_new_session=True,preexec_fn=lim_as if cap else None,errors="replace")
    try:
        o,_=p.communicate(timeout=lim); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,signal.SIGKILL)
        try: p.communicate(timeout=20)
        except Exception: pass
        return "timeout",""
def one(m,d):
    orig=open(BASE+"/"+m["file"],"rb").read()
    new=orig[:m["Off"]]+m["New"].encode()+orig[m["End"]:]
    path=d+"/repo/"+m["file"]
    open(path,"wb").write(new)
    built={}
    try:
        rc,o=run(["go","build","./..."],d+"/repo",120)
        if rc: return "nocompile",""
        rc,o=run(["go","test","-vet=off","-timeout","60s","./"+os.path.dirname(m["file"])],d+"/repo",100)
        if rc: return "tests",""
        for i in ids:
            g=grp[i]
            if g not in built:
                out=d+"/prog."+g
                if g=="seq":
                    rc,o=run(["go","build","-trimpath","-ldflags=-checklinkname=0","-o",out,"./seq"],d+"/mc",300)
                else:
                    src=d+"/src"
                    if not any(x in built for x in("conc","one")):
                        shutil.rmtree(src,ignore_errors=True)
                        rc,o=run([REW,"-repo",d+"/repo","-mc",d+"/mc","-out",src],d+"/mc",100)
                        if rc: return "REWRITE",o[-300:]
                    race=["-race","-gcflags=verif/rt=-race=false","-overlay",check.forgetful_pools(d)] if g=="conc" else []
                    rc,o=run(["go","build",*race,"-trimpath","-ldflags=-checklinkname=0","-o",out,"./conc"],src,300)
                if rc: return "BUILD",o[-600:]
                built[g]=out
            t=time.time()
            res=d+"/res.json"
            if os.path.exists(res): os.remove(res)
            rc,o=run([built[g],i,"quick",res],d,LIM,cap=g!='conc')
            if rc=="timeout": return "TIMEOUT",i
            if rc: return "crash",i+" "+o[-300:]
            r=json.load(open(res))
            if r.get("internal"): return "INTERNAL",i+" "+r["internal"][:300]
            if r["violations"]: return "caught",i+" %.0fs"%(time.time()-t)
        return "SURVIVED",""
    finally:
        open(path,"wb").write(orig)
it=iter(enumerate(muts))
def worker(s):
    d=f"/tmp/mt/camp-{key}-{s}"
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run(["cp","-a",BASE,d+"/repo"],check=True)
    shutil.copytree(MC,d+"/mc")
    mod=open(d+"/mc/go.mod").read().replace("=> /repo","=> "+d+"/repo"); open(d+"/mc/go.mod","w").write(mod)
    while True:
        with lock:
            try: n,m=next(it)
            except StopIteration: break
        t=time.time()
        try: r,x=one(m,d)
        except Exception as e: r,x="EXC",repr(e)
        with lock:
            stats[r]=stats.get(r,0)+1
            if r not in("nocompile",):
                log.write(f"{r} {m['file'].split('/')[-1]}:{m['Line']} {m['What']!r} -> {m['New']!r} {x} {time.time()-t:.0f}s\n"); log.flush()
    shutil.rmtree(d,ignore_errors=True)
ts=[threading.Thread(target=worker,args=(s,)) for s in range(slots)]
[t.start() for t in ts]; [t.join() for t in ts]
log.write(f"DONE {key} {stats}\n"); log.close(); print(key,stats)
for x in(BASE,): shutil.rmtree(x)
for x in(GEN,REW): os.remove(x)
