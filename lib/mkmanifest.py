#!/usr/bin/env python3
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
notes=json.load(open(V+"/lib/levels.json"))
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in notes:
        n=notes[i]
        checks.append({"property":i,"quick_cmd":"bin/check "+i,"thorough_cmd":"bin/check %s --thorough"%i,
          "technique":n["technique"],"level":n.get("level","model_checking"),"level_note":n["note"]})
    else:
        na.append({"property":i,"reason":"check still under construction"})
m={"version":1,"setup_cmd":"bin/setup","checks":checks,"not_applicable":na,
   "notes":"TLA+ specifications in spec/, checked with TLC; harnesses in harness/ are built into the module by overlay and use exported API only; no hooks in /repo."}
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks")
