#!/usr/bin/env python3
"""Development only. mutants.py tests MUTS.jsonl N SEED OUT.jsonl   run the repository's tests on N mutants, keep survivors
                     mutants.py checks SURVIVORS.jsonl OUT.jsonl [SCALE] [JOBS]   run the checks on the survivors, most relevant first"""
import os,sys,json,random,subprocess,tempfile,shutil,threading,queue,time
V="/verif";R="/repo"
ENV=dict(os.environ,GOTOOLCHAIN="local",GOPROXY="off",GOSUMDB="off",GOFLAGS="-mod=mod",GOWORK="off",GOPATH="/root/go",GOMODCACHE="/root/go/pkg/mod",GOCACHE="/tmp/mut/cache",LANG="C.UTF-8")
def sh(c,cwd,timeout,env=None,n=None):
    p=subprocess.Popen(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=env or ENV,start_new_session=True)
    try:
        o,_=p.communicate(timeout=timeout); return p.returncode,o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid,9)
        except ProcessLookupError: pass
        p.communicate(); return 124,"timeout"
def copy():
    t=tempfile.mkdtemp(prefix="mt-",dir="/tmp/mut"); sh(f"cp -a {R}/. {t}/",None,60); return t
def apply(t,m):
    f=f"{t}/src/{m['file']}"; s=open(f"{R}/src/{m['file']}","rb").read()
    open(f,"wb").write(s[:m['off']]+m['new'].encode()+s[m['off']+m['len']:]); return f
def undo(t,m): shutil.copy(f"{R}/src/{m['file']}",f"{t}/src/{m['file']}")
def run(items,work,jobs,out):
    q=queue.Queue(); [q.put(i) for i in items]; lock=threading.Lock(); done=[0]
    def worker():
        t=copy()
        try:
            while True:
                try: m=q.get_nowait()
                except queue.Empty: return
                r=work(t,m)
                with lock:
                    done[0]+=1
                    if r: out.write(json.dumps(dict(m,**r))+"\n"); out.flush()
                    if done[0]%20==0: print(done[0],"of",len(items),time.strftime("%H:%M:%S"),flush=True)
        finally: shutil.rmtree(t)
    ts=[threading.Thread(target=worker) for _ in range(jobs)]; [t.start() for t in ts]; [t.join() for t in ts]
def pk(f):
    if f.startswith("./core"): return "./core ./helena_dialect ./picol_dialect"
    if f.startswith("./helena"): return "./helena_dialect"
    return "./..."
def tests(t,m):
    f=apply(t,m)
    try:
        rc,o=sh("ulimit -v 12000000; go build ./... 2>&1",t+"/src",120)
        if rc: return None
        rc,o=sh(f"go test -vet=off -count=1 -timeout 60s {pk(m['file'])}",t+"/src",150)
        return {"tests":"pass"} if rc==0 else None
    finally: undo(t,m)
ORDER={"core/tokenizer":"P01 P03 P04 P05 P02","core/parser":"P03 P04 P05 P02","core/syntax":"P03 P02 P05 P18","core/compiler":"P05 P14 P19 P25 P20 P02","core/values":"P06 P07 P08 P18 P22","core/display":"P06",
"core/selectors":"P05 P18","core/results":"P05 P14","core/errors":"P19","helena_dialect/argspecs":"P15 P23 P18","helena_dialect/arguments":"P15 P23","helena_dialect/basic_commands":"P13 P18 P23","helena_dialect/controls":"P13 P14 P23 P18",
"helena_dialect/aliases":"P16 P23","helena_dialect/closures":"P16 P15 P23","helena_dialect/core":"P14 P16 P19 P24 P12","helena_dialect/coroutines":"P14 P18","helena_dialect/dicts":"P10 P12 P23 P18","helena_dialect/ensembles":"P16 P15 P23 P18",
"helena_dialect/lists":"P08 P23 P18","helena_dialect/logic":"P11 P14 P23","helena_dialect/macros":"P16 P15 P23","helena_dialect/math":"P11 P23","helena_dialect/modules":"P17 P16 P23","helena_dialect/namespaces":"P16 P23 P18","helena_dialect/numbers":"P11 P07 P23",
"helena_dialect/procs":"P16 P15 P23","helena_dialect/scopes":"P16 P12 P23","helena_dialect/scripts":"P25 P23 P18","helena_dialect/strings":"P09 P23 P18","helena_dialect/tuples":"P08 P23","helena_dialect/variables":"P12 P23","native/":"P22","picol":"P21","cli/":"P26","main":"P26"}
ALL=[f"P{i:02d}" for i in range(1,27)]
SCALE="0.3"; FULL=False
def checks(t,m):
    f=apply(t,m); o=[]
    for k,v in ORDER.items():
        if m['file'][2:].startswith(k): o=v.split()
    o+= [p for p in (ALL if FULL else ['P05','P18']) if p not in o]
    env=dict(ENV,VERIF_REPO=t,VERIF_SEED="1")
    try:
        for p in o:
            rc,out=sh(f"{V}/check.sh {p} quick -scale {SCALE}",V,900,env)
            if rc==1 and "VIOLATION property="+p in out: return {"by":p,"verdict":"caught"}
            if rc: return {"by":p,"verdict":f"rc {rc}: {out[-300:]}"}
        return {"verdict":"MISSED"}
    finally: undo(t,m); shutil.rmtree(t+"/.verif-out",ignore_errors=True)
os.makedirs("/tmp/mut",exist_ok=True)
if sys.argv[1]=="tests":
    ms=[json.loads(l) for l in open(sys.argv[2])]; random.Random(int(sys.argv[4])).shuffle(ms)
    run(ms[:int(sys.argv[3])],tests,int(os.environ.get("JOBS","8")),open(sys.argv[5],"a"))
else:
    if len(sys.argv)>4: SCALE=sys.argv[4]
    seen=set()
    if os.path.exists(sys.argv[3]): seen={(d['file'],d['off'],d['new']) for d in map(json.loads,open(sys.argv[3]))}
    run([d for d in map(json.loads,open(sys.argv[2])) if (d['file'],d['off'],d['new']) not in seen],checks,int(sys.argv[5]) if len(sys.argv)>5 else 3,open(sys.argv[3],"a"))
