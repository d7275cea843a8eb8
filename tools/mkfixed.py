import subprocess
m="""2ba3137 P01; 9cb06f1 P09; 450cd91 P05; fe7f89a P02; 56d1830 P02; b5b1a4d P04; c856de2 P02; d8ba2a3 P15; cee6441 P15; e8046d1 P15; bd3a03d P15; a2a708e P12; cd9b9b0 P16; 3927e01 P23; 9b0de0b P13; 0942baf P18; 7c57590 P14; 03f5576 P14; ceff648 P14; f05ae4f P19; f7ca326 P20; 4ef6869 P09; b0b3b97 P09; 65f0a70 P21; 7ad993d P21; dff9067 P21; 1221246 P21; cf178db P18; d465116 P23; 02559f2 P26; e073f8e P16; 80e15c5 P06; d0e4cfc P05; 79189f3 P03; 34d365d P03; 3b2eb89 P11; 9a2a527 P14; fe32da4 P15; 7e7d4c8 P22; 6c83686 P22; 949df69 P24; 57e7fbe P12"""
out=[]
for e in m.split(";"):
    h,p=e.split()
    s=subprocess.check_output(["git","-C","/repo","log","-1","--format=%s",h],text=True).strip()
    s=s.removeprefix("fix:").strip()
    out.append(f"fixed: property={p} {h} {s}")
f=open("/verif/KNOWN_FINDINGS.txt").read()
open("/verif/KNOWN_FINDINGS.txt","w").write("\n".join([l for l in f.splitlines() if l.startswith("#")]+out)+"\n")
