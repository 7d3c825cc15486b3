#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl."""
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V); import checks
m=dict(version=1,setup_cmd="python3 lib/driver.py setup",checks=[],not_applicable=[])
for l in open(V+"/properties.jsonl"):
    p=json.loads(l)["id"]
    if p in checks.CHECKS:
        c=checks.CHECKS[p]
        m["checks"].append(dict(property=p,quick_cmd="python3 lib/driver.py %s quick"%p,thorough_cmd="python3 lib/driver.py %s thorough"%p,evidence_file="evidence/%s.json"%p,
            technique="exhaustive symbolic execution of the library's LLVM IR, branches and assertions decided by Z3",level="model_checking",level_note=c["bounds"]))
    else: m["not_applicable"].append(dict(property=p,reason=checks.NA.get(p,"check under construction")))
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
