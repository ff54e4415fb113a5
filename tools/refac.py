#!/usr/bin/env python3
"""refac.py SPEC... : apply edits (FILES key KEY, EDITS=[(file,old,new)], WHOLE={file:text}) on a copy and run the checks of the key (or IDS) on it.
The specs in tools/refac keep the behaviour, so the checks have to stay quiet; with other edits this tries out a bug. BASE: the tree to copy. CROSS: the checks that concern several packages instead."""
import sys,subprocess,os,shutil,json,time
from importlib.machinery import SourceFileLoader
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__))); import props
BASE=os.environ.get("BASE","/repo"); MC=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"mc")
check=SourceFileLoader("check",os.path.join(os.path.dirname(MC),"check")).load_module()
grp={p["id"]:p["group"] for p in props.P}
env=dict(os.environ,GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",GOWORK="off",GORACE="exitcode=0 history_size=2 suppress_equal_stacks=0 suppress_equal_addresses=0")
env["PATH"]="/opt/veriftools/go1.27.3/bin:"+env["PATH"]
def run(cmd,cwd,lim=600):
    try:
        r=subprocess.run(cmd,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=lim,errors="replace"); return r.returncode,r.stdout
    except subprocess.TimeoutExpired: return "timeout",""
for spec in sys.argv[1:]:
    s={}; exec(open(spec).read(),s)
    name=os.path.basename(spec)[:-3]
    d="/tmp/mt/refac-"+name
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run(["cp","-a",BASE,d+"/repo"],check=True); shutil.copytree(MC,d+"/mc")
    m=open(d+"/mc/go.mod").read().replace("=> /repo","=> "+d+"/repo"); open(d+"/mc/go.mod","w").write(m)
    ok=True
    for f,old,new in s.get("EDITS",[]):
        p=d+"/repo/"+f; t=open(p).read()
        if t.count(old)!=1: print(name,f,t.count(old),"matches of",old[:80]); ok=False
        open(p,"w").write(t.replace(old,new))
    for f,new in s.get("WHOLE",{}).items(): open(d+"/repo/"+f,"w").write(new)
    if not ok: continue
    rc,o=run(["go","build","./..."],d+"/repo")
    if rc: print(name,"NO BUILD",o[-1500:]); continue
    rc,o=run(["go","test","-vet=off","-timeout","400s","./..."],d+"/repo")
    if rc: print(name,"TESTS FAIL",o[-1500:]); continue
    ids=s.get("IDS") or [p["id"] for p in props.P if p["files"] in s["KEY"].split()]
    if os.environ.get("CROSS"): # instead those that are about several packages
        changed={e[0] for e in s.get("EDITS",[])}|set(s.get("WHOLE",{}))
        ids=[p["id"] for p in props.P if p["files"] in("all","cost","steps","func","read","panic") and changed&set(props.FILES[p["files"]])]
    built={}
    for i in ids:
        g=grp[i]
        if g not in built:
            out=d+"/prog."+g
            if g=="seq": rc,o=run(["go","build","-trimpath","-ldflags=-checklinkname=0","-o",out,"./seq"],d+"/mc")
            else:
                src=d+"/src"; shutil.rmtree(src,ignore_errors=True)
                rc,o=run(["go","build","-trimpath","-o",d+"/rewrite","./rewrite"],d+"/mc")
                rc,o=run([d+"/rewrite","-repo",d+"/repo","-mc",d+"/mc","-out",src],d+"/mc")
                if rc: print(name,"REWRITE FAILS",o[-1500:]); break
                race=["-race","-gcflags=verif/rt=-race=false","-overlay",check.forgetful_pools(d)] if g=="conc" else []
                rc,o=run(["go","build",*race,"-trimpath","-ldflags=-checklinkname=0","-o",out,"./conc"],src)
            if rc: print(name,"BUILD FAILS",o[-1500:]); break
            built[g]=out
        t=time.time(); res=d+"/res.json"; env["MC_DEADLINE"]=str(int(t)+500)
        if os.path.exists(res): os.remove(res)
        rc,o=run([built[g],i,"quick",res],d,800)
        if rc: print(name,i,"rc",rc,o[:600],"...",o[-800:]); continue
        r=json.load(open(res)); v=r["violations"]
        print(name,i,"%.0fs"%(time.time()-t),"INTERNAL "+r["internal"] if r.get("internal") else ("VIOLATION "+json.dumps(v[0])[:1500] if v else "quiet"),flush=True)
    shutil.rmtree(d,ignore_errors=True)
