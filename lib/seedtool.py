#!/usr/bin/env python3
"""Plants one change: seedtool.py spec.py. The spec sets ID, PROP, EDITS [(file, old, new)], DEMO (C++ body), NEEDS, BREAKS.
Applies it to a clean /repo, checks that it builds, passes the tests and fails the demonstration, runs the property's check, undoes it."""
import json, os, shutil, subprocess, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); E=os.environ.get
S=V+"/lib/seed"; R=E("SEED_REPO","/repo"); T=E("SEED_TOOLS","/opt/vp"); D=E("SEED_OUT",V+"/seeded")
def run(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def build():
    r=run("bash %s/build.sh"%T); 
    if r.returncode: print(r.stdout[-3000:]); return False
    return True
ns={}; exec(open(sys.argv[1]).read(),ns); d=D+"/"+ns["ID"]
assert run("git -C "+R+" status --porcelain --untracked-files=no").stdout=="" , "dirty /repo"
os.makedirs(d,exist_ok=True)
for f in ("demo.sh","demo_rt.cpp"): shutil.copy(S+"/"+f,d)
for f in ("harness/fakevk.hpp","harness/common.hpp","engine/symx.h"): shutil.copy(V+"/"+f,d)
open(d+"/demo.cpp","w").write("// demonstration for "+ns["ID"]+"\n"+ns["DEMO"].strip()+"\n")
json.dump({"property":ns["PROP"],"needs":ns["NEEDS"],"what_it_breaks":ns["BREAKS"]},open(d+"/meta.json","w"),indent=1)
ok=True
try:
    build(); r=run("bash %s/demo.sh"%d,cwd=R); print("demo clean rc",r.returncode,r.stdout[-1500:] if r.returncode else ""); ok&=r.returncode==0
    if not ok: sys.exit(1)
    for f,o,n in ns["EDITS"]:
        p=R+"/source/RenderGraph/"+f if not f.startswith("include") else R+"/"+f; s=open(p,newline="").read()
        if "\r\n" in s: o=o.replace("\n","\r\n"); n=n.replace("\n","\r\n")
        assert s.count(o)==1,(f,s.count(o),o); open(p,"w",newline="").write(s.replace(o,n))
    diff=subprocess.run("git -C "+R+" diff",shell=True,stdout=subprocess.PIPE).stdout; open(d+"/patch.diff","wb").write(diff)
    ok=build(); 
    if ok:
        t=run("bash %s/test.sh /tmp/seed-o.json"%T); print("tests:",t.stdout.strip().split("\n")[-1])
        r=run("bash %s/demo.sh"%d,cwd=R); print("demo bug rc",r.returncode,r.stdout[-300:])
        if "--nocheck" not in sys.argv:
            c=run("SYMX_REPO=%s python3 %s/lib/driver.py %s quick"%(R,V,ns["PROP"])); print("check rc",c.returncode); print("\n".join(l[:300] for l in c.stdout.split("\n") if "VIOLATION" in l or "error" in l.lower())[:1500])
finally:
    run("git -C "+R+" checkout -- ."); build(); print("restored:",run("git -C "+R+" status --porcelain --untracked-files=no").stdout or "clean")
