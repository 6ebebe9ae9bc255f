#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of checks in engine/specs.go."""
import json,re,os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(root+"/properties.jsonl")]
spec=open(root+"/engine/specs.go").read()
have=set(re.findall(r'^\t"(C\d\d)":',spec,re.M))
na={"C28":"Throughput is a measured quantity, not an assertion over values a solver can decide.",
"C29":"server_std.go and poller/kqueue.go do not compile on Linux, so a counterexample could not be replayed against the real code here."}
note={}
exec(open(root+"/tools/notes.py").read()) if os.path.exists(root+"/tools/notes.py") else None
default="All values within the stated bounds, decided by z3 on symbolic executions of the current source; kernel, clock and scheduler are models; outside the bounds nothing is claimed."
checks=[]
for p in props:
    i=p["id"]
    if i in have:
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",
          evidence_file=f"evidence/{i}.json",technique="symbolic execution of the Go SSA of the current tree with z3; counterexamples replayed on the compiled code",
          level="model_checking",level_note=note.get(i,default)))
    elif i not in na:
        na[i]="No check built yet."
json.dump(dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in sorted(na.items())]),open(root+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks;",sorted(na))
