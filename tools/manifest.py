#!/usr/bin/env python3
# Writes MANIFEST.json for the claimed properties.
import json,os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l)["id"] for l in open(os.path.join(root,"properties.jsonl"))]
exec(open(os.path.join(root,"tools","claims.py")).read())
checks=[]
for pid in props:
    if pid in CLAIMS:
        checks.append(dict(property=pid,quick_cmd="bash check.sh %s quick"%pid,thorough_cmd="bash check.sh %s thorough"%pid,
          evidence_file="evidence/%s.json"%pid,technique=TECH,level="proof",level_note=CLAIMS[pid]))
na=[dict(property=p,reason=NA.get(p,"contracts for this property are not finished yet")) for p in props if p not in CLAIMS]
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na,
  notes="Contracts live in contracts/*.spec; bin/govc (built from govc/) verifies them against /repo's current source on every run. No hooks in /repo.")
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
open(os.path.join(root,"MANIFEST.json"),"a").write("\n")
