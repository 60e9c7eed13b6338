#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of claimed properties below."""
import json, os
ROOT=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
ids=[json.loads(l)["id"] for l in open(os.path.join(ROOT,"properties.jsonl"))]
T={}  # id -> (technique, level note)
exec(open(os.path.join(ROOT,"tools","claims.py")).read())
na={}
checks=[]
for i in ids:
    if i in T:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
          "evidence_file":f"evidence/{i}.json","technique":T[i][0],"level":"exploration","level_note":T[i][1]})
    else:
        na[i]="not claimed yet: its check is being built"
m={"version":1,"setup_cmd":"./setup.sh","hooks":{"guard":"none","enable":"no hooks: every check uses the public interface of the crates in /repo","source_commits":[]},
   "checks":checks,"not_applicable":[{"property":k,"reason":v} for k,v in na.items()],
   "notes":"One property-based-testing harness (harness/), one cargo feature set per property; see DESIGN.md."}
json.dump(m,open(os.path.join(ROOT,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"claimed",len(na),"not")
