#!/usr/bin/env python3
"""Builds the engine, the instrumented library and a property's harnesses from /repo's working tree, explores every path,
replays counterexamples and samples on an ordinary build, writes the evidence file."""
import hashlib, json, os, re, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("SYMX_REPO","/repo")
B=os.environ.get("SYMX_BUILD",os.path.join(V,".build"))
JOBS=int(os.environ.get("SYMX_JOBS","8"))
TOTAL=float(os.environ.get("SYMX_TOTAL","780"))
class BuildError(Exception): pass
def sh(cmd,**k):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
    if r.returncode: raise BuildError("command failed: %s\n%s"%(" ".join(cmd),r.stdout[-6000:]))
    return r.stdout
def hfiles(fs,extra=""):
    h=hashlib.sha256(extra.encode())
    for f in sorted(fs):
        h.update(f.encode()); h.update(open(f,"rb").read())
    return h.hexdigest()[:16]
def build_engine():
    d=os.path.join(B,"engine"); os.makedirs(d,exist_ok=True)
    srcs=[os.path.join(V,"engine",f) for f in ("instr.cpp","rt.cpp","rt_replay.cpp","symx.h","race.h","rt_race.cpp")]
    k=hfiles(srcs); stamp=os.path.join(d,"stamp")
    if os.path.exists(stamp) and open(stamp).read()==k: return d
    fl=sh(["llvm-config-18","--cxxflags"]).split(); fl=[x for x in fl if x!="-fno-exceptions" and not x.startswith("-std=")]
    ld=sh(["llvm-config-18","--libdir"]).strip()
    jobs=[["g++","-O1","-std=c++17","-w","-fno-rtti"]+fl+[srcs[0],"-o",d+"/symx-instr","-L"+ld,"-lLLVM-18"],
          ["clang++","-O2","-std=c++17","-fno-strict-aliasing","-w","-c",srcs[1],"-o",d+"/rt.o"],
          ["g++","-O1","-g","-std=c++17","-w","-c",srcs[2],"-o",d+"/rt_replay.o"],
          ["g++","-O1","-g","-std=c++17","-w","-c",srcs[5],"-o",d+"/rt_race.o"]]
    with ThreadPoolExecutor(3) as ex: list(ex.map(sh,jobs))
    open(stamp,"w").write(k); return d
def version_defs():
    out=[]
    for m in re.finditer(r"^set\( VERSION_(MAJOR|MINOR|BUILD) (\d+) \)",open(REPO+"/CMakeLists.txt").read(),re.M): out.append("-DCRG_VERSION_%s=%s"%(m.group(1),m.group(2)))
    return out
def lib_sources():
    r=[]
    for root,_,fs in os.walk(REPO+"/source/RenderGraph"):
        for f in fs:
            if f.endswith(".cpp"): r.append(os.path.join(root,f))
    return sorted(r)
def all_headers():
    r=[]
    for top in ("/include","/source"):
        for root,_,fs in os.walk(REPO+top):
            for f in fs:
                if f.endswith((".hpp",".h",".inl")): r.append(os.path.join(root,f))
    return r
IRFLAGS=["-std=c++17","-O1","-w","-fno-vectorize","-fno-slp-vectorize","-D_GLIBCXX_EXTERN_TEMPLATE=0","-U_FORTIFY_SOURCE","-D_FORTIFY_SOURCE=0","-fno-discard-value-names","-fno-builtin-printf","-DSYMX=1",
   "-mllvm","-two-entry-phi-node-folding-threshold=40","-mllvm","-phi-node-folding-threshold=12","-mllvm","-bonus-inst-threshold=12","-mllvm","-max-speculation-depth=30"]
GFLAGS=["-std=c++17","-O1","-g1","-w","-fsanitize=address,undefined","-fno-sanitize-recover=undefined","-fno-sanitize=vptr,null,alignment,nonnull-attribute,returns-nonnull-attribute","-fno-omit-frame-pointer"]
PLAIN=["-std=c++17","-O1","-g1","-w","-fno-omit-frame-pointer"]
def inc(): return ["-DCRG_BUILD_STATIC"]+version_defs()+["-I"+REPO+"/include","-I"+REPO+"/source/RenderGraph","-I"+V+"/engine","-I"+V+"/harness"]
def compile_units(units,eng,native=None,sym=True,nat=True):
    """units: list of (src, deps-key). returns dict src->(instrumented .o, native .o); native: flags of the ordinary build"""
    gf=GFLAGS if native is None else PLAIN+native
    d=os.path.join(B,"obj"); os.makedirs(d,exist_ok=True)
    hk=hfiles(all_headers()+[os.path.join(V,"harness",f) for f in os.listdir(V+"/harness") if f.endswith(".hpp")]+[V+"/engine/symx.h",V+"/engine/instr.cpp"]," ".join(IRFLAGS+gf+inc()))
    out={}; jobs=[]
    for s in units:
        k=os.path.basename(s).replace(".cpp","")+"-"+hfiles([s],hk); so=os.path.join(d,k+".sym.o"); no=os.path.join(d,k+".nat.o"); out[s]=(so,no)
        if sym and not os.path.exists(so): jobs.append(("s",s,so))
        if nat and not os.path.exists(no): jobs.append(("n",s,no))
    def one(j):
        kind,s,o=j; t=o+".tmp%d"%os.getpid()
        if kind=="n": sh(["g++"]+gf+inc()+["-c",s,"-o",t])
        else:
            sh(["clang++"]+IRFLAGS+inc()+["-emit-llvm","-c",s,"-o",t+".bc"]); sh([eng+"/symx-instr",t+".bc",t+".i.bc"])
            sh(["clang++","-O1","-w","-fno-vectorize","-fno-slp-vectorize","-c",t+".i.bc","-o",t]); os.unlink(t+".bc"); os.unlink(t+".i.bc")
        os.replace(t,o)
    jobs.sort(key=lambda j:-os.path.getsize(j[1]))
    with ThreadPoolExecutor(JOBS) as ex: list(ex.map(one,jobs))
    return out
def directive(src,what):
    r=[]
    for f in [src]+[os.path.join(V,"harness",x) for x in re.findall(r'^#include "(\w+\.hpp)"',open(src).read(),re.M)]:
        if os.path.exists(f):
            for m in re.finditer(r"^// %s: (.*)$"%what,open(f).read(),re.M): r+=m.group(1).split()
    return r
def build(harnesses):
    eng=build_engine(); libs=lib_sources(); hs={h:os.path.join(V,"harness",h+".cpp") for h in harnesses}; d=os.path.join(B,"bin"); os.makedirs(d,exist_ok=True); res={}; jobs=[]
    # harnesses with threads have their ordinary build made with the compiler's thread instrumentation, and our runtime for it
    groups={}
    for h,src in hs.items(): groups.setdefault(tuple(directive(src,"native")),[]).append((h,src))
    for nf,members in groups.items():
        units=libs+[src for _,src in members]
        if not nf: objs=compile_units(units,eng)
        else:
            a=compile_units(units,eng,nat=False); b=compile_units(units,eng,list(nf),sym=False); objs={x:(a[x][0],b[x][1]) for x in units}
        for h,src in members:
            so=[objs[s][0] for s in libs]+[objs[src][0]]; no=[objs[s][1] for s in libs]+[objs[src][1]]
            lf=directive(src,"link"); k=hfiles([eng+"/stamp"]," ".join(so+no+lf)); sb=os.path.join(d,h+"-"+k+".sym"); nb=os.path.join(d,h+"-"+k+".nat"); res[h]=(sb,nb)
            if not os.path.exists(sb): jobs.append(["clang++","-no-pie"]+so+[eng+"/rt.o","-lz3","-lpthread"]+lf+["-o",sb])
            if not os.path.exists(nb): jobs.append(["g++"]+(["-fsanitize=address,undefined"] if not nf else [])+no+[eng+"/rt_replay.o"]+([eng+"/rt_race.o"] if nf else [])+["-lpthread"]+lf+["-o",nb])
    with ThreadPoolExecutor(4) as ex: list(ex.map(sh,jobs))
    return res
def demangle(names):
    if not names: return []
    return subprocess.run(["c++filt"],input="\n".join(names),stdout=subprocess.PIPE,text=True).stdout.split("\n")
def replay_cases(nat,lines,tmo=60,maxt=300):
    if not lines: return []
    os.makedirs(B+"/tmp",exist_ok=True); f=os.path.join(B,"tmp","cases-%d-%s"%(os.getpid(),hashlib.sha1("".join(lines).encode()).hexdigest()[:8])); open(f,"w").write("\n".join(lines)+"\n")
    env=dict(os.environ,ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:symbolize=0",UBSAN_OPTIONS="print_stacktrace=0")
    try: r=subprocess.run([nat,f,str(tmo)],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,env=env,timeout=maxt,cwd=B+"/tmp")
    except subprocess.TimeoutExpired: return ["TIMEOUT"]*len(lines)
    finally:
        try: os.unlink(f)
        except OSError: pass
    return r.stdout.split("\n")[:len(lines)]
def caseline(scen,tier,kf,inp): return "%d %d %s %s"%(scen,tier,kf or "-"," ".join("%s=%d"%(k,v) for k,v in inp.items() if not k.startswith("@")))
def load_kf(prop):
    ids=[]
    for l in open(V+"/KNOWN_FINDINGS.txt"):
        l=l.strip()
        m=re.match(r"^(KF-\S+): property=(\S+) (.*)$",l)
        if m and m.group(2)==prop: ids.append((m.group(1),m.group(3)))
    return ids
def run_check(prop,spec,tier):
    t0=time.time(); seed=int(os.environ.get("VERIF_SEED","1")); tnum=1 if tier=="thorough" else 0
    kf=load_kf(prop); kfs=",".join(i for i,_ in kf)
    hs=sorted({s["h"] for s in spec["runs"]})
    bins=build(hs); tb=time.time()-t0
    runs=[]
    for s in spec["runs"]:
        for sc in (s["quick"] if tnum==0 else s.get("thorough",s["quick"])): runs.append((s["h"],sc,s))
    tot=dict(paths=0,pruned=0,events=0,queries=0,cached=0,sat=0,unsat=0,unknown=0,checks=0,check_queries=0,concretised=0,solver_s=0.0)
    fns=set(); reach=set(); samples=[]; validated=0; details=[]; viol=None; known={}; incomplete=[]; errors=[]
    total=TOTAL if tnum==0 else float(os.environ.get("SYMX_TOTAL_THOROUGH","7200"))
    os.makedirs(B+"/tmp",exist_ok=True)
    for h,sc,s in runs:
        sb,nb=bins[h]; out=os.path.join(B,"tmp","%s-%s-%d-%d.json"%(prop,h,sc,os.getpid()))
        budget=max(5,total-(time.time()-t0))
        cmd=[sb,"--out",out,"--scenario",str(sc),"--budget","%.0f"%budget,"--jobs",str(JOBS),"--tier",str(tnum),"--samples",str(s.get("samples",24)),"--kf",kfs,"--seed",str(seed)]
        r=subprocess.run(cmd,stdout=subprocess.DEVNULL,stderr=subprocess.PIPE,text=True)
        try: j=json.load(open(out))
        except Exception as e: errors.append("%s/%d: no result (%s) rc=%d %s"%(h,sc,e,r.returncode,r.stderr[-500:])); continue
        finally:
            if os.path.exists(out): os.unlink(out)
        for k in tot: tot[k]+=j[k]
        fns.update(j["functions"]); reach.update(h+":"+x for x in j["reach"])
        details.append(dict(harness=h,scenario=sc,paths=j["paths"],pruned=j["pruned"],events=j["events"],depth=j["maxdepth"],queries=j["queries"],solver_s=j["solver_s"],wall_s=j["wall_s"],left=j["left"]))
        for k in j["known"]: known.setdefault(k["id"],(h,sc,k))
        eng=[v for v in j["violations"] if v["kind"]=="engine"]
        if eng: errors.append("%s/%d: engine: %s"%(h,sc,eng[0]["msg"])); 
        vs=[v for v in j["violations"] if v["kind"]!="engine"]
        if vs:
            v=vs[0]; line=caseline(sc,tnum,kfs,v["in"]); rp=replay_cases(nb,[line],30)
            if rp and (rp[0].startswith("VIOLATION") or rp[0]=="TIMEOUT"):
                viol=(h,sc,v,rp[0],line); break
            errors.append("%s/%d: counterexample did not reproduce natively: %s -> %s [%s]"%(h,sc,v["msg"],rp,line))
        if j["timedout"] or j["unknown"]: incomplete.append("%s/%d left=%d unknown=%d"%(h,sc,j["left"],j["unknown"]))
        lines=[caseline(sc,tnum,kfs,x["in"]) for x in j["samples"]]
        rp=replay_cases(nb,lines,60)
        for x,l,o in zip(j["samples"],lines,rp):
            p=o.split()
            if p and p[0]=="OK" and p[1]==x["obs"] and int(p[2])==x["nobs"]: validated+=1
            else: errors.append("%s/%d: native replay differs from the symbolic run: %s | expected %s/%d got %s"%(h,sc,l,x["obs"],x["nobs"],o))
        for x in j["samples"][:2]: samples.append(dict(harness=h,scenario=sc,inputs=x["in"],observed=x["obs"]))
    crg=sorted({n.split("(")[0] for n in demangle(sorted(n for n in fns if "3crg" in n)) if n.startswith("crg::")})
    want=set(spec.get("reach",[])); missing=sorted(w for w in want if w not in {x.split(":",1)[1] for x in reach})
    if missing and not viol and not incomplete and not errors: errors.append("vacuity witnesses not reached: %s"%missing)
    ev=dict(property=prop,tier=tier,seed=seed,level="model_checking",coverage=dict(states=tot["paths"],transitions=tot["events"],traces_validated_against_impl=validated,samples=samples[:12],
        meaning="states: complete symbolic executions (one per feasible path); transitions: symbolic decisions on them",paths_pruned_by_assumptions=tot["pruned"],solver_queries=tot["queries"],queries_answered_from_cache=tot["cached"],queries_sat=tot["sat"],queries_unsat=tot["unsat"],queries_unknown=tot["unknown"],
        property_assertions_evaluated=tot["checks"],property_queries_discharged=tot["check_queries"],solver_seconds=round(tot["solver_s"],3),build_seconds=round(tb,1),reachability_witnesses=sorted(reach),functions_encoded=crg,bounds=spec["bounds"],runs=details,
        exhaustive=(not incomplete and not errors and not viol),incomplete=incomplete),
        assumptions=spec.get("assumptions",[])+COMMON_ASSUMPTIONS,wall_s=round(time.time()-t0,2),violations=1 if viol else 0)
    os.makedirs(V+"/evidence",exist_ok=True)
    json.dump(ev,open(V+"/evidence/%s.json"%prop,"w"),indent=1)
    for i,t in kf:
        print("KNOWN-FINDING: property=%s %s: %s%s"%(prop,i,t,"" if i in known else " (not hit in this run)"))
    print("%s: paths=%d events=%d queries=%d (cached %d) checks=%d/%d solver=%.1fs build=%.1fs wall=%.1fs validated=%d"%(prop,tot["paths"],tot["events"],tot["queries"],tot["cached"],tot["checks"],tot["check_queries"],tot["solver_s"],tb,time.time()-t0,validated))
    if viol:
        h,sc,v,out,line=viol; rd=os.path.join(V,"replays"); os.makedirs(rd,exist_ok=True); rf=os.path.join(rd,"%s-%s-%d.txt"%(prop,h,sc))
        open(rf,"w").write("# replay: python3 %s/lib/replay.py %s\nharness %s\ncase %s\n# solver: %s\n# native replay: %s\n"%(V,rf,h,line,v["msg"],out))
        print("counterexample: %s/%d %s"%(h,sc,json.dumps(v["in"]))); print("native replay: "+out)
        print("VIOLATION property=%s replay=%s"%(prop,rf)); return 1
    for e in errors: print("ERROR: "+e)
    for e in incomplete: print("INCOMPLETE: "+e)
    if errors: return 3
    if incomplete: return 2
    return 0
COMMON_ASSUMPTIONS=["memory allocation never fails and freed addresses are not reused (allocation addresses are deterministic, so orderings by pointer value follow allocation order)",
 "Vulkan entry points are stand-ins that record their arguments and succeed unless the harness makes the result symbolic","single-threaded use of the library, except in C32",
 "the IR instrumentation, runtime and Z3 are trusted; every shadow term is compared with the natively executed value at each decision and a sample of paths is replayed on a g++ build"]
if __name__=="__main__":
    if sys.argv[1]=="setup":
        try: eng=build_engine(); compile_units(lib_sources(),eng); sys.exit(0)
        except BuildError as e: print("ERROR: "+str(e)); sys.exit(4)
    sys.path.insert(0,V); import checks
    prop=sys.argv[1]; tier=os.environ.get("VERIF_TIER","quick")
    if len(sys.argv)>2: tier=sys.argv[2]
    try: rc=run_check(prop,checks.CHECKS[prop],tier)
    except BuildError as e: print("ERROR: "+str(e)); rc=4
    sys.exit(rc)
