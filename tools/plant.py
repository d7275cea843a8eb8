import subprocess,sys,concurrent.futures as cf
L=open(sys.argv[1]).read().split("=====\n")
def one(s):
    r=subprocess.run(["python3","/verif/tools/bug.py","new"],input=s.encode(),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=3000)
    o=r.stdout.decode(); i=o.find("demo-clean"); 
    return s.split("\n")[0]+" :: "+(o[:300]+" ... "+o[max(i-5,0):] if len(o)>1100 else o)[:1100].strip()
with cf.ThreadPoolExecutor(2) as e:
    for x in e.map(one,L): print(x,"\n",flush=True)
