#!/usr/bin/env python3
"""Decides one property: check.py <ID> [--tier quick|thorough].
Runs the real code under the deterministic scheduler, validates every recorded execution against the
TLA+ trace specification with TLC, and model-checks the accompanying design models with TLC."""
import argparse, concurrent.futures as cf, json, os, random, re, shlex, shutil, subprocess, sys, tempfile, time
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build as B
from plans import PLANS
VERIF=B.VERIF; SPEC=VERIF+"/spec"
JAR="/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
class Internal(Exception): pass

DEADLINE=[0.0]
def left(): return DEADLINE[0]-time.time()

def tlc(module,cfg,meta,env=None,workers=1,heap="2g",timeout=None,extra=()):
    """returns (None, "") where TLC did not come to an end in time"""
    cmd=["java","-XX:+UseSerialGC" if workers==1 else "-XX:+UseParallelGC","-XX:TieredStopAtLevel=4","-Xmx"+heap,"-Xss32m","-Djava.io.tmpdir="+os.path.dirname(meta),"-cp",JAR,"tlc2.TLC","-workers",str(workers),
         "-noGenerateSpecTE","-nowarning","-metadir",meta,"-config",cfg,*extra,module+".tla"]
    e=dict(os.environ); e.update(env or {}); e.pop("JAVA_TOOL_OPTIONS",None)
    t=left() if timeout is None else min(timeout,left())
    if t<3: return None,""
    try: r=subprocess.run(cmd,cwd=SPEC,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace",timeout=t)
    except subprocess.TimeoutExpired as ex: return None,""
    return r.returncode,r.stdout

def states(out):
    m=re.findall(r"(\d+) states generated, (\d+) distinct states found",out)
    return (int(m[-1][0]),int(m[-1][1])) if m else (0,0)

class Batch:
    """what TLC said about a list of recordings: rejected (index, reached), recordings without an answer"""
    def __init__(self): self.rej=[]; self.gen=self.dist=0; self.unsure=0
def check_batch(spec,lines,tmp,limit):
    b=Batch(); validate(spec,lines,0,tmp,limit,b); return b
def validate(spec,lines,base,tmp,limit,b):
    if not lines: return
    d=tempfile.mkdtemp(dir=tmp); f=d+"/t.ndjson"
    open(f,"w").write("".join(lines))
    rc,out=tlc(spec,spec+".cfg",d+"/meta",{"TRACE":f},timeout=limit)
    shutil.rmtree(d,ignore_errors=True)
    g,n=states(out); b.gen+=g; b.dist+=n
    if rc==0 and "<<\"BATCH\"," in out:
        b.rej+=[(base+int(x)-1,int(y)) for x,y in re.findall(r'<<"REJECT", (\d+), (\d+)>>',out)]; return
    slow=rc is None or "OutOfMemoryError" in out or "Java heap space" in out
    if not slow and ("Parsing or semantic" in out or "***Parse Error" in out): raise Internal("specification %s broken:\n%s"%(spec,out[-3000:]))
    if len(lines)==1:
        if slow: b.unsure+=1; return
        # the specification could not even be evaluated on this recording
        sys.stderr.write("evaluation error in %s: %s\n"%(spec,out[-1500:]))
        b.rej.append((base,-1)); return
    # too slow or not to be evaluated: in parts (far more work than the unchanged code ever causes)
    if slow and (left()<20 or b.rej): b.unsure+=len(lines); return
    k=2 if not slow else min(len(lines),6); sz=-(-len(lines)//k)
    for i in range(0,len(lines),sz):
        if slow and b.rej: b.unsure+=len(lines)-i; return
        validate(spec,lines[i:i+sz],base+i,tmp,max(limit/3,40) if slow else limit,b)

def known(pid):
    p=VERIF+"/known_findings.json"
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get("findings",[]) if k["property"]==pid and k.get("status")=="open"]

def matches(k,trace,reached,spec):
    sig=k["signature"]
    if sig.get("spec",spec)!=spec: return False
    if sig.get("scenario") and sig["scenario"]!=trace["s"]: return False
    for kk,vv in sig.get("cfg",{}).items():
        if trace["cfg"].get(kk)!=vv: return False
    ev=trace["ev"]; e=ev[min(max(reached,1),len(ev))-1] if ev else {}
    return all(e.get(a)==b for a,b in sig.get("event",{}).items())

def main():
    ap=argparse.ArgumentParser(); ap.add_argument("pid"); ap.add_argument("--tier",default=os.environ.get("VERIF_TIER","quick")); ap.add_argument("--keep",action="store_true"); ap.add_argument("--only",default="")
    a=ap.parse_args(); pid=a.pid; tier=a.tier; seed=int(os.environ.get("VERIF_SEED","1") or 1); t0=time.time()
    DEADLINE[0]=t0+(800 if tier=="quick" else 6*3600)
    plan=PLANS[pid]; P=lambda x: x[tier] if isinstance(x,dict) and tier in x else x
    tmp=tempfile.mkdtemp(prefix="vf_%s_"%pid,dir=os.environ.get("VERIF_TMP","/tmp"))
    try: return run(a,pid,tier,seed,t0,plan,P,tmp)
    finally:
        if not a.keep: shutil.rmtree(tmp,ignore_errors=True)

def run(a,pid,tier,seed,t0,plan,P,tmp):
    # ---- design models run in parallel with everything else
    ex=cf.ThreadPoolExecutor(8); model_f=[]
    for i,m in enumerate(P(plan.get("models",[]))):
        model_f.append((m,ex.submit(tlc,m["module"],m["cfg"],tmp+"/model%d"%i,m.get("env"),m.get("workers",1),m.get("heap","3g"))))
    # ---- recordings of the real code
    exes={}
    for v in sorted({(r["driver"],r.get("variant","epoll")) for r in P(plan.get("runs",[]))}):
        exes[v]=B.build(*v)
    jobs=[]
    for i,r in enumerate(P(plan.get("runs",[]))):
        if a.only and a.only not in r["args"]: continue
        out=tmp+"/r%d.ndjson"%i
        args=shlex.split(r["args"])
        if "--seed" not in args: args+=["--seed",str(seed)]
        if "--wbase" not in args: args+=["--wbase",str(1+(seed-1)*100000+i*1000)]
        if "--time" not in args: args+=["--time","120" if tier=="quick" else "1200"]
        jobs.append((r,[exes[(r["driver"],r.get("variant","epoll"))]]+args+["--out",out],out))
    stats=dict(execs=0,unique=0,steps=0); complete=[]; cut=[]
    def go(j):
        pr=subprocess.Popen(j[1],stdout=subprocess.DEVNULL,stderr=subprocess.PIPE,text=True,errors="replace",cwd=tmp)
        try: err=pr.communicate(timeout=max(left()-200,30) if tier=="quick" else None)[1]
        except subprocess.TimeoutExpired:
            pr.kill(); pr.communicate(); cut.append(j[0]["args"]); err="STATS execs=0 unique=0 steps=0 complete=0"
        r=argparse.Namespace(stderr=err)
        for x in ("vft","vlog"): shutil.rmtree("/tmp/%s.%d"%(x,pr.pid),ignore_errors=True)  # left behind by a crashed execution
        m=re.search(r"STATS execs=(\d+) unique=(\d+) steps=(\d+) complete=(\d)",r.stderr)
        if not m: raise Internal("driver failed: %s\n%s"%(" ".join(j[1]),r.stderr[-2000:]))
        return [int(x) for x in m.groups()]
    with cf.ThreadPoolExecutor(8) as rex: res=list(rex.map(go,jobs))
    batches={}
    for (r,cmd,out),st in zip(jobs,res):
        stats["execs"]+=st[0]; stats["unique"]+=st[1]; stats["steps"]+=st[2]; complete.append(bool(st[3]))
        L=[l for l in open(out,errors="replace") if l.endswith("\n")] if os.path.exists(out) else []
        for s in (r["spec"] if isinstance(r["spec"],list) else [r["spec"]]):
            batches.setdefault(s,[]).extend((l,r) for l in L)
    # ---- validation with TLC
    gen=dist=ntr=unsure=0; rejects=[]; work=[]
    tot=sum(len(v) for v in batches.values())
    for s,ls in batches.items():
        random.Random(1).shuffle(ls)
        sz=max(30,-(-len(ls)//max(1,round(8*len(ls)/max(tot,1)))),1)
        cap=plan.get("batch",1500); sz=min(sz,cap)
        i=0
        while i<len(ls):
            j=i; n=0
            while j<len(ls) and j<i+sz and (n<8000000 or j==i): n+=len(ls[j][0]); j+=1
            work.append((s,ls[i:j])); i=j
    limit=plan.get("limit",300) if tier=="quick" else 1800
    def val(w):
        if left()<20 or (slowrej and w[0] in slowrej): b=Batch(); b.unsure=len(w[1]); return w,b
        b=check_batch(w[0],[x[0] for x in w[1]],tmp,limit)
        if b.unsure and b.rej: slowrej.add(w[0])
        return w,b
    slowrej=set()
    with cf.ThreadPoolExecutor(8) as vex:
        for w,b in vex.map(val,work):
            gen+=b.gen; dist+=b.dist; ntr+=len(w[1])-b.unsure; unsure+=b.unsure
            for i,reached in b.rej: rejects.append((w[0],json.loads(w[1][i][0]),reached,w[1][i][1]))
    if tot and not ntr: raise Internal("TLC came to no answer on any recording")
    # ---- results
    viol=[]; kf=known(pid); hit={}
    for s,t,reached,r in rejects:
        k=next((k for k in kf if matches(k,t,reached,s)),None)
        if k: hit[k["id"]]=k; continue
        viol.append((s,t,reached,r))
    models=[]
    for m,f in model_f:
        rc,out=f.result()
        if rc is None:
            if viol: continue
            raise Internal("no answer on model "+m["module"])
        g,d=states(out); gen+=g; dist+=d
        bad=re.search(r"Error: (Invariant|Action property|Temporal propert|Deadlock|The postcondition|Postcondition)[^\n]*",out)
        ok="Model checking completed. No error has been found" in out
        models.append(dict(module=m["module"],cfg=m["cfg"],states=d,ok=ok))
        if not ok:
            if bad: viol.append((m["module"],dict(s="model",cfg={},rp="tlc "+m["cfg"],ev=[dict(e="model",out=out[-6000:])]),0,dict(driver="model")))
            else: raise Internal("model %s failed:\n%s"%(m["module"],out[-3000:]))
    for k in hit.values(): print("KNOWN-FINDING: property=%s %s"%(pid,k["what"]))
    os.makedirs(VERIF+"/out",exist_ok=True)
    seen=set()
    for n,(s,t,reached,r) in enumerate(viol):
        ev=t["ev"]; e=ev[min(max(reached,1),len(ev))-1] if ev else {}
        key=(s,e.get("e"),t["s"])
        if key in seen and len(seen)>=1 and n>20: continue
        if key in seen: continue
        seen.add(key)
        p=VERIF+"/out/%s-%s-%d.json"%(pid,tier,n)
        json.dump(dict(property=pid,spec=s,driver=r.get("driver"),variant=r.get("variant","epoll"),replay=t.get("rp"),failed_at=reached,event=e,trace=t),open(p,"w"))
        print("VIOLATION property=%s replay=%s"%(pid,p))
        print("  %s: event %d of %d not allowed by %s: %s"%(t["s"],reached,len(ev),s,json.dumps(e)[:400]))
    samples=[]
    rnd=random.Random(seed)
    allb=[x for v in batches.values() for x in v]
    for l,_ in rnd.sample(allb,min(3,len(allb))):
        t=json.loads(l); samples.append(dict(scenario=t["s"],cfg=t["cfg"],replay=t["rp"],events=t["ev"][:12],length=len(t["ev"])))
    ev=dict(property=pid,tier=tier,seed=seed,level=plan["level"],
        coverage=dict(states=dist,transitions=gen,traces_validated_against_impl=ntr,samples=samples,
            executions=stats["execs"],scheduler_steps=stats["steps"],distinct_recordings=stats["unique"],
            without_answer=unsure,exhaustive_runs=sum(complete),runs=len(complete),models=models),
        wall_s=round(time.time()-t0,2),violations=len(viol))
    os.makedirs(VERIF+"/evidence",exist_ok=True)
    json.dump(ev,open(VERIF+"/evidence/%s.json"%pid,"w"),indent=1)
    if unsure or cut: print("NOTE: no answer in time on %d recordings (not counted as validated)%s"%(unsure,"; runs stopped early: "+"; ".join(cut) if cut else ""))
    print("%s %s: %d executions (%d distinct recordings, %d scheduler steps), %d TLC states, %d rejected, %.1fs"%(pid,tier,stats["execs"],ntr,stats["steps"],dist,len(rejects),time.time()-t0))
    return 1 if viol else 0
if __name__=="__main__":
    try: sys.exit(main())
    except Internal as e:
        print("INTERNAL ERROR: %s"%e); sys.exit(2)
