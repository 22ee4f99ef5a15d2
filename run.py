#!/usr/bin/env python3
"""Driver.  run.py check <property> [quick|thorough]   run.py replay <file>   run.py setup
A check builds the simulator and the harness from /repo's working tree in a scratch directory, searches seeds on all cores
for a time budget, verifies, minimises and replays any violation, and writes evidence/<property>.json."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, threading, time, signal
V=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,V)
import build
from checks import CHECKS, RULE
def log(*a): print(*a, flush=True)
def cores():
    try: return sorted(os.sched_getaffinity(0))
    except Exception: return list(range(os.cpu_count() or 1))
def known_entries(prop):
    """known: property=<id> kind=<kind> match=<regex on message+location> :: <what fails>"""
    out=[]; p=os.path.join(V,"known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r"known:\s+property=(\S+)\s+kind=(\S+)\s+match=(.*?)\s+::\s+(.*)$",l.strip())
            if m and m.group(1)==prop: out.append(dict(kind=m.group(2),rx=re.compile(m.group(3)),what=m.group(4)))
    return out
def symbolise(exe,pcs):
    res=[]
    for pc in pcs:
        if not pc: continue
        o=subprocess.run(["addr2line","-ie",exe,hex(pc-1)],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True).stdout.split("\n")
        r=[x.split(" ")[0] for x in o if x.startswith(build.REPO+"/")] or [o[0]]
        res.append(os.path.normpath(r[0]).replace(build.REPO+"/",""))
    return res
class Worker(threading.Thread):
    def __init__(s,cmd,on_viol): super().__init__(daemon=True); s.cmd=cmd; s.sum=None; s.on_viol=on_viol; s.err=""; s.p=None; s.killed=False
    def run(s):
        s.p=subprocess.Popen(s.cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,errors="replace",start_new_session=True)
        for l in s.p.stdout:
            if l.startswith("VIOL "): s.on_viol(json.loads(l[5:]))
            elif l.startswith("SUM "): s.sum=json.loads(l[4:])
        s.err=s.p.stderr.read()[-400:]; s.p.wait()
    def kill(s):
        s.killed=True
        try: os.killpg(s.p.pid,signal.SIGKILL)
        except Exception: pass
def fail(msg): log("ERROR: "+msg); sys.exit(2)
def run_part(prop,exe,harness,base,budget,tag,tmp,known,trouble):
    """search one harness; returns (summaries, hashes, violation list)"""
    cs=cores(); n=len(cs); viols=[]; lock=threading.Lock(); stop=threading.Event()
    def classify(d):
        loc=symbolise(exe,d["pcs"]); d["loc"]=loc; d["harness"]=harness
        for k in known:
            if k["kind"]==d["kind"] and k["rx"].search(d["msg"]+" @ "+" ".join(loc)): d["known"]=k["what"]; return
    def on_viol(d):
        classify(d)
        with lock: viols.append(d)
        if "known" not in d: stop.set()
    ws=[]
    for i,c in enumerate(cs):
        ws.append(Worker([exe,"--prop",prop,"--batch","--start",str(base+i),"--stride",str(n),"--time",str(budget),"--core",str(c),"--hashes",os.path.join(tmp,"%s.h%d"%(tag,i)),"--maxviol","100000" if known else "2"],on_viol))
    for w in ws: w.start()
    t0=time.time(); t_stop=None
    while any(w.is_alive() for w in ws):
        if stop.is_set() and t_stop is None: t_stop=time.time()
        if t_stop and time.time()-t_stop>4: 
            for w in ws: w.kill()
        if time.time()-t0>budget+260:
            for w in ws: w.kill()
        time.sleep(0.05)
    sums=[]; 
    for w in ws:
        w.join()
        if w.sum: 
            sums.append(w.sum)
            if w.sum["fatal"]: trouble.append("%s %s: simulator gave up: %s"%(prop,harness,w.sum["fatalmsg"]))
        elif not w.killed: trouble.append("%s %s: worker ended without a summary (rc %s): %s"%(prop,harness,w.p.returncode,w.err))
    if not sums and not viols: trouble.append("no worker finished")
    import array
    hs=set(); sc=set()
    for i in range(n):
        f=os.path.join(tmp,"%s.h%d"%(tag,i))
        if os.path.exists(f):
            a=array.array("Q"); a.frombytes(open(f,"rb").read()); hs.update(a[0::2]); sc.update(a[1::2])
    return sums,hs,sc,viols
def determinism(prop,exe,base,tmp,count,trouble):
    """the same seeds in two further processes on other cores: event hashes must agree bit for bit"""
    cs=cores(); ps=[]
    for i in range(2):
        ps.append(subprocess.Popen([exe,"--prop",prop,"--batch","--start",str(base),"--count",str(count),"--time","40","--core",str(cs[(i*3)%len(cs)]),"--hashes",os.path.join(tmp,"d%d"%i),"--maxviol","100000"],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True))
    outs=[p.communicate()[0] for p in ps]
    a,b=[open(os.path.join(tmp,"d%d"%i),"rb").read() for i in range(2)]
    m=min(len(a),len(b))
    if a[:m]!=b[:m]: trouble.append("nondeterministic simulation: the same seeds gave different event hashes")
    return m//16
def handle_violation(prop,exe,d,tmp):
    """gate, minimise and replay in a fresh process; returns replay path or None"""
    os.makedirs(os.path.join(V,"replays"),exist_ok=True)
    path=os.path.join(V,"replays","%s-%s-%d.replay"%(prop,d["kind"],d["seed"]))
    r=subprocess.run([exe,"--prop",prop,"--minimise",path,"--seed",str(d["seed"]),"--mtime","25"],stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,errors="replace",timeout=400)
    if r.returncode!=0: log("  seed %d did not pass the reproduction gate: %s"%(d["seed"],(r.stdout+r.stderr)[-300:])); return None
    with open(path) as f: body=f.read()
    with open(path,"w") as f: f.write("harness %s\n"%d["harness"]+body)
    q=subprocess.run([exe,"--prop",prop,"--replay",path],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,errors="replace")
    if q.returncode!=1: log("  minimised trace of seed %d did not replay exactly in a fresh process: %s"%(d["seed"],q.stdout[-300:])); return None
    m=json.loads(q.stdout.split("\n")[0]); loc=symbolise(exe,m["pcs"])
    dec=[l for l in body.split("\n") if l[:2] in("P ","C ")]
    log("  kind=%s: %s"%(m["kind"],m["msg"])); 
    if loc: log("  at: "+" / ".join(loc))
    log("  minimised: %s [%d scheduling decisions, %d threads, %d steps]"%(m["sample"],len(dec),m["threads"],m["steps"]))
    return path
def check(prop,tier):
    c=CHECKS[prop]; seed=int(os.environ.get("VERIF_SEED","1")); t0=time.time()
    base=(seed*2654435761%(1<<31))*100000+1
    tmp=tempfile.mkdtemp(prefix="sim_"); 
    try:
        known=known_entries(prop); total=dict(runs=0,ok=0,discarded=0,violations=0,steps=0,switches=0,preempts=0,simtime_ns=0,nontrivial=0,threads=0); faults={}; probes={}; samples=[]; hs=set(); sc=set(); det=0; viols=[]; bt=0; st=0; parts=[]; trouble=[]
        def built(h,first):
            try: return build.build(h,os.path.join(tmp,h))
            except SystemExit:
                if first: raise
                return None
        b0=time.time()
        with cf.ThreadPoolExecutor(4) as ex: exes=[f.result() for f in [ex.submit(built,h,k==0) for k,(h,w) in enumerate(c["harness"])]]
        bt=time.time()-b0
        for k,(h,w) in enumerate(c["harness"]):
            exe=exes[k]
            if exe is None: log("NOTE: %s does not compile against this tree: what it covers was not explored"%h); parts.append(dict(harness=h,runs=0,note="does not compile against this tree")); continue
            budget=(c.get("quick",30) if tier=="quick" else c.get("thorough",540))*w
            s0=time.time(); det+=determinism(prop,exe,base,tmp,c.get("det",16),trouble); sums,a,b,vi=run_part(prop,exe,h,base,budget,h,tmp,known,trouble); st+=time.time()-s0
            hs|=a; sc|=b; viols+=vi; parts.append(dict(harness=h,runs=sum(x["runs"] for x in sums)))
            for s in sums:
                for key in total: total[key]+=s[key]
                for dst,src in((faults,s["faults"]),(probes,s["probes"])):
                    for nme,(x,y) in src.items(): o=dst.setdefault(nme,[0,0]); o[0]+=x; o[1]+=y
                samples+=s["samples"][:2]
            new=[d for d in vi if "known" not in d]
            if new:
                seen=set(); done=0
                new.sort(key=lambda d:d["steps"])
                for d in new:
                    cls=(d["kind"],tuple(d["loc"]))
                    if cls in seen: continue
                    p=handle_violation(prop,exe,d,tmp)
                    if p: 
                        seen.add(cls); done+=1; log("VIOLATION property=%s replay=%s"%(prop,p))
                        if done>=2: break
                write_evidence(prop,tier,seed,c,total,faults,probes,samples,hs,sc,det,parts,time.time()-t0,st,done)
                for t in trouble: log("NOTE: "+t)
                if not done: fail("violations were seen but none passed the reproduction gate")
                return 1
            if trouble: fail("; ".join(trouble[:3]))  # only believed in the absence of a violation that reproduces exactly
        listed={}
        for d in viols: listed.setdefault(d["known"],[]).append(d)
        for kf in known:
            log("KNOWN-FINDING: property=%s %s"%(prop,kf["what"]+(" (met in %d runs)"%len(listed[kf["what"]]) if kf["what"] in listed else "")))
        write_evidence(prop,tier,seed,c,total,faults,probes,samples,hs,sc,det,parts,time.time()-t0,st,0)
        if total["ok"]<c.get("minruns",50): fail("only %d runs completed"%total["ok"])
        log("%s held%s on %d simulated runs (%d distinct non-trivial, %d distinct schedules) in %.0f s (build %.0f s)"%(prop," apart from the listed findings" if listed else "",total["runs"],len(hs),len(sc),time.time()-t0,bt))
        return 0
    finally: shutil.rmtree(tmp,ignore_errors=True)
def write_evidence(prop,tier,seed,c,total,faults,probes,samples,hs,sc,det,parts,wall,search,nviol):
    os.makedirs(os.path.join(V,"evidence"),exist_ok=True)
    ev=dict(property=prop,tier=tier,seed=seed,level="exploration",wall_s=round(wall,1),violations=nviol,
      assumptions=c["assumes"],
      coverage=dict(evaluations=total["runs"],distinct_nontrivial=len(hs),rule=RULE+" "+c["rule"],samples=samples[:8] or ["none completed"],
        runs_per_hour=int(total["runs"]/max(search,1e-3)*3600),seeds_per_hour=int(total["runs"]/max(search,1e-3)*3600),simulated_seconds=total["simtime_ns"]/1e9,simulated_steps=total["steps"],
        context_switches=total["switches"],forced_preemptions=total["preempts"],simulated_threads=total["threads"],
        faults_injected={k:dict(times=v[0],runs=v[1]) for k,v in sorted(faults.items())},rare_conditions_reached={k:dict(times=v[0],runs=v[1]) for k,v in sorted(probes.items())},
        distinct_interleavings=len(sc),interleaving_measure="hash of the sequence of (from thread, to thread, step of the leaving thread) of every context switch of a run",
        discarded_runs=total["discarded"],runs_by_harness=parts,determinism_check="%d seeds executed in two further processes on other cores, event hashes identical"%det,
        real_components=c["real"],stub_components=c["stub"]))
    with open(os.path.join(V,"evidence",prop+".json"),"w") as f: json.dump(ev,f,indent=1); f.write("\n")
def replay(path):
    kv=dict(l.split(" ",1) for l in open(path).read().split("\n") if " " in l and l.split(" ",1)[0] in("harness","property"))
    tmp=tempfile.mkdtemp(prefix="sim_")
    try:
        exe=build.build(kv["harness"],tmp); r=subprocess.run([exe,"--prop",kv["property"],"--replay",path,"-v"]); return r.returncode
    finally: shutil.rmtree(tmp,ignore_errors=True)
if __name__=="__main__":
    if len(sys.argv)<2: print(__doc__); sys.exit(2)
    if sys.argv[1]=="check": sys.exit(check(sys.argv[2],sys.argv[3] if len(sys.argv)>3 else os.environ.get("VERIF_TIER","quick")))
    if sys.argv[1]=="replay": sys.exit(replay(sys.argv[2]))
    if sys.argv[1]=="selftest":  # the simulator on its own: primitives behave, planted race / deadlock / lost wakeup are found
        tmp=tempfile.mkdtemp(prefix="sim_"); rc=0
        try:
            exe=build.build("h_selftest",tmp)
            for b,kind in((0,None),(1,"data-race"),(2,"deadlock"),(3,"deadlock")):
                o=subprocess.run([exe,"--prop","SELF","--batch","--start","1","--count","400","--time","30","--core",str(cores()[0]),"--maxviol","100000"],env=dict(os.environ,SELF_BAD=str(b)),stdout=subprocess.PIPE,text=True).stdout.split("\n")
                ks={json.loads(l[5:])["kind"] for l in o if l.startswith("VIOL ")}; sm=json.loads([l for l in o if l.startswith("SUM ")][0][4:])
                ok=not sm["fatal"] and (ks==({kind} if kind else set())); rc|=not ok; log("selftest %d: %d runs, kinds %s: %s"%(b,sm["runs"],sorted(ks),"ok" if ok else "FAILED"))
        finally: shutil.rmtree(tmp,ignore_errors=True)
        sys.exit(int(rc))
    if sys.argv[1]=="setup": os.makedirs(os.path.join(V,"evidence"),exist_ok=True); print("nothing to prepare: every check builds from /repo's working tree"); sys.exit(0)
