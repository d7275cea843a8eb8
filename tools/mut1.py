#!/usr/bin/env python3
"""Development only. mut1.py LIST.jsonl FILE:LINE[:TEXT] "P03 P05" [SCALE]: apply the matching mutants one by one in a copy of /repo and run these checks."""
import sys,json,os
args=sys.argv[:]; sys.argv=["x","none"]
src=open(os.path.join(os.path.dirname(__file__),"mutants.py")).read().split("os.makedirs(\"/tmp/mut\"")[0]
exec(src)
os.makedirs("/tmp/mut",exist_ok=True)
f,l,*x=args[2].split(":",2); t=copy(); sc=args[4] if len(args)>4 else "1"
try:
    for m in map(json.loads,open(args[1])):
        if not m['file'].endswith(f) or str(m['line'])!=l or (x and x[0] not in m['what']): continue
        apply(t,m)
        for p in args[3].split():
            rc,out=sh(f"{V}/check.sh {p} quick -scale {sc}",V,900,dict(ENV,VERIF_REPO=t,VERIF_SEED="1"))
            print(m['file'],l,m['what'][:80],p,rc,[k for k in out.splitlines() if "VIOLATION" in k][:1],flush=True)
            if rc==1: break
        undo(t,m)
finally: shutil.rmtree(t)
