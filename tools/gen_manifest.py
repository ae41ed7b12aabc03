#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, harness/map.txt and `git log` of /repo hooks."""
import json, os
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(R+"/properties.jsonl")]
m={}
tech={}
for l in open(R+"/harness/map.txt"):
    f=l.split(None,2)
    m[f[0]]=f[1]; tech[f[0]]=f[2].strip() if len(f)>2 else "property-based testing against a reference model"
NA=json.load(open(R+"/tools/not_applicable.json")) if os.path.exists(R+"/tools/not_applicable.json") else {}
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in m:
        checks.append({"property":i,"quick_cmd":f"/verif/run.sh {i} quick","thorough_cmd":f"/verif/run.sh {i} thorough",
          "evidence_file":f"evidence/{i}.json","technique":tech[i],"level":"exploration",
          "level_note":"Generated cases only: absence of a violation is evidence over the counted cases, not a proof; generator bounds are in DESIGN.md."})
    else:
        na.append({"property":i,"reason":NA.get(i,"check under construction")})
man={"version":1,"setup_cmd":"/verif/setup.sh","hooks":{"guard":"none","enable":"","source_commits":[]},"checks":checks,"not_applicable":na,
 "notes":"Every check rebuilds its harness crate from /repo's working tree (run.sh) and is a pure function of that tree and VERIF_SEED."}
json.dump(man,open(R+"/MANIFEST.json","w"),indent=1); open(R+"/MANIFEST.json","a").write("\n")
print(len(checks),"checks",len(na),"pending")
