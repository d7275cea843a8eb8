#!/usr/bin/env python3
"""Plant a bug: bug.py new < SPEC   |   bug.py test ID... [-j N]
SPEC (text):
id: X / prop: P / needs: ... / breaks: ...   (one line each)
edit: src/file.go        followed by  <<<< old ==== new >>>> blocks
demo: helena|go|sh       followed by lines up to a line '.' (helena: a script run by the built program, output compared
                          with the unpatched program's; go: a main.go printing to stdout, likewise)
Works on a scratch copy of /repo under /tmp; test reports tests, demo and the check's verdict."""
import os,re,subprocess,sys,json,shutil,tempfile,concurrent.futures as cf
V="/verif"; R="/repo"
ENV=dict(os.environ,GOTOOLCHAIN="local",GOPROXY="off",GOSUMDB="off",GOFLAGS="-mod=mod",GOWORK="off",GOPATH="/root/go",GOMODCACHE="/root/go/pkg/mod",GOCACHE="/root/.cache/go-build",LANG="C.UTF-8")
def sh(c,cwd=None,timeout=900,env=None):
    try:
        p=subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,env=env or ENV)
        return p.returncode,p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired: return 124,"timeout"
HEAD='''#!/bin/bash
# Run with cwd = the repository after the build: exit 0 when the behaviour is right.
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
'''
DEMO={"helena":HEAD+'''(cd src && go build -o "$T/helena" .) || exit 3
cd "$T" || exit 3
out="$(timeout 60 ./helena "$D/demo.helena" </dev/null 2>&1)"
[ "$out" = "$(cat "$D/expected")" ] || { echo "got: $out"; echo "expected: $(cat "$D/expected")"; exit 1; }
''',"repl":HEAD+'''(cd src && go build -o "$T/helena" .) || exit 3
cd "$T" || exit 3
out="$(timeout 60 ./helena <"$D/demo.txt" 2>&1)"
[ "$out" = "$(cat "$D/expected")" ] || { echo "got: $out"; echo "expected: $(cat "$D/expected")"; exit 1; }
''',"go":HEAD+'''printf '{"Replace":{"%s/src/zzdemo/main.go":"%s/main.go.txt"}}' "$PWD" "$D" >"$T/overlay.json"
out="$(cd src && timeout 200 go run RACE -overlay "$T/overlay.json" ./zzdemo 2>&1)"
[ "$out" = "$(cat "$D/expected")" ] || { echo "got: $out"; echo "expected: $(cat "$D/expected")"; exit 1; }
'''}
def copy():
    t=tempfile.mkdtemp(prefix="wt-",dir="/tmp"); sh(f"cp -a {R}/. {t}/"); return t
def new():
    spec=sys.stdin.read(); meta={}; edits=[]; demo=None; cur=None
    lines=spec.split("\n"); i=0
    while i<len(lines):
        l=lines[i]; i+=1
        m=re.match(r"(id|prop|needs|breaks|edit|demo): ?(.*)",l)
        if l=="<<<<":
            j=i
            while lines[j]!="====": j+=1
            k=j+1
            while lines[k]!=">>>>": k+=1
            edits.append((cur,"\n".join(lines[i:j]),"\n".join(lines[j+1:k]))); i=k+1
        elif m and m[1]=="edit": cur=m[2].strip()
        elif m and m[1]=="demo":
            k=i
            while lines[k]!=".": k+=1
            demo=(m[2].strip(),"\n".join(lines[i:k])+"\n"); i=k+1
        elif m: meta[m[1]]=m[2]
    d=f"{V}/seeded/{meta['id']}"; t=copy()
    try:
        for f,o,n in edits:
            s=open(f"{t}/{f}").read()
            if s.count(o)!=1: print("EDIT does not match once:",f,s.count(o),repr(o)); return 1
            open(f"{t}/{f}","w").write(s.replace(o,n))
        rc,out=sh("gofmt -l . && go build ./...",t+"/src")
        if rc: print(out); return 1
        rc,diff=sh("git diff",t)
        os.makedirs(d,exist_ok=True)
        open(d+"/patch.diff","w").write(diff)
        k=demo[0].split()
        src={"helena":"demo.helena","repl":"demo.txt","go":"main.go.txt"}[k[0]]
        open(f"{d}/{src}","w").write(demo[1])
        open(d+"/demo.sh","w").write(DEMO[k[0]].replace("RACE","-race" if "race" in k else "")); os.chmod(d+"/demo.sh",0o755)
        json.dump({"property":meta["prop"],"needs":meta["needs"],"what_it_breaks":meta["breaks"]},open(d+"/meta.json","w"),indent=1,ensure_ascii=False)
        open(d+"/expected","w").write("")
        sh("git checkout -q -- .",t)
        rc,out=sh(f"{d}/demo.sh",t)
        m=re.search(r"^got: (.*?)\nexpected: $",out,re.S|re.M)
        if not m: print("demo on clean tree:",out)
        else:
            open(d+"/expected","w").write(m[1]+"\n"); print("clean demo output:",m[1])
    finally: shutil.rmtree(t)
    return test([meta["id"]])
LOCK=__import__("threading").Lock()
def note(i,p,sub): # remembers in tools/caught.json which sub-check catches which planted bug
    with LOCK:
        f=V+"/tools/caught.json"; d=json.load(open(f)) if os.path.exists(f) else {}
        h=[x for x in d.get(i,[]) if not x.startswith(p+"/")]+([sub] if sub else [])
        d[i]=sorted(set(h)); json.dump(d,open(f,"w"),indent=0,sort_keys=True); open(f,"a").write("\n")
def one(i,props=None):
    d=f"{V}/seeded/{i}"; prop=json.load(open(d+"/meta.json"))["property"]
    t=copy(); res=[i]
    try:
        rc,out=sh(f"bash {d}/demo.sh",t); res.append("demo-clean "+("ok" if rc==0 else f"BAD {rc} {out[-300:]}"))
        rc,out=sh(f"git apply --check {d}/patch.diff && git apply {d}/patch.diff",t)
        if rc: return res+["PATCH does not apply "+out]
        if not props:
            rc,out=sh("go build ./... && go test -count=1 ./...",t+"/src"); res.append("tests "+("pass" if rc==0 else "FAIL "+"\n".join(l for l in out.split("\n") if "[It]" in l or "FAIL" in l or "panic" in l)[:600]))
            rc,out=sh(f"bash {d}/demo.sh",t); res.append("demo-patched "+("shows" if rc in(1,) else f"NOT SHOWN {rc}")+" "+out[:300])
        for p in props or [prop]:
            rc,out=sh(f"{V}/check.sh {p} quick",env=dict(ENV,VERIF_REPO=t,VERIF_SEED=os.environ.get("VERIF_SEED","1"),VERIF_TIER="quick"))
            hit=f"VIOLATION property={p} " in out
            note(i,p,re.search(r"^--- (\S+)",out,re.M)[1] if rc==1 and hit and re.search(r"^--- (\S+)",out,re.M) else None)
            res.append(f"{p}: "+("CAUGHT" if rc==1 and hit else f"missed rc={rc}")+(" "+out[:500] if rc==1 or rc==2 else ""))
    finally: shutil.rmtree(t)
    return res
def test(ids,props=None,j=2):
    with cf.ThreadPoolExecutor(j) as ex:
        for r in ex.map(lambda i:one(i,props),ids): print("\n  ".join(x.strip() for x in r)); print(flush=True)
if sys.argv[1]=="new": sys.exit(new())
a=sys.argv[2:]; props=None; j=2
while a and a[0].startswith("-"):
    if a[0]=="-p": props=a[1].split(",")
    if a[0]=="-j": j=int(a[1])
    a=a[2:]
test(a or sorted(os.listdir(V+"/seeded")),props,j)
