#!/usr/bin/env python3
"""Refreshes the generated tables of DESIGN.md (sub-checks with counts and times, planted bugs)."""
import json,os,re,subprocess,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=open(V+"/DESIGN.md").read()
def put(name,text):
    global s
    b,e=f"<!-- {name} -->",f"<!-- /{name} -->"
    if e in s: s=s[:s.index(b)]+b+"\n"+text+"\n"+s[s.index(e):]
    else: s=s.replace(b,b+"\n"+text+"\n"+e)
rows=["| sub-check | what is generated, compared with what; rule for non-trivial | quick / thorough |","|---|---|---|"]
tot={}
for l in subprocess.check_output([V+"/build/verif","list"],text=True).splitlines():
    m=re.match(r"(\S+) (\S+) quick=(\d+) thorough=(\d+)\t(.*)",l)
    rows.append((m[1],f"| {m[1]} {m[2]} | {m[5]} | {m[3]} / {m[4]} |"))
rows=rows[:2]+[r for _,r in sorted(rows[2:])]
w=[]
for i in range(1,27):
    f=f"{V}/evidence/P{i:02d}.json"
    if os.path.exists(f):
        d=json.load(open(f))
        if d["tier"]=="quick": w.append(f"P{i:02d} {d['wall_s']:.0f}")
put("TABLE","\n".join(rows)+"\n\nSeconds of the quick tier (a lone run, build not counted): "+", ".join(w)+".")
st={}
if os.path.exists(V+"/tools/caught.json"): st=json.load(open(V+"/tools/caught.json"))
rows=["| planted bug | property | what it needs | checks that catch it |","|---|---|---|---|"]
for d in sorted(glob.glob(V+"/seeded/*/meta.json")):
    i=d.split("/")[-2]; m=json.load(open(d)); rows.append(f"| {i} | {m['property']} | {m['needs'].replace('|','/')} | {', '.join(st.get(i,[])) or 'not run again'} |")
put("SEEDED","\n".join(rows))
open(V+"/DESIGN.md","w").write(s)
