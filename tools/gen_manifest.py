#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(V,"properties.jsonl"))]
NOTES=json.load(open(os.path.join(V,"tools/notes.json")))
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in NOTES:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
          "technique":NOTES[i][0],"level":"model_checking","level_note":NOTES[i][1]})
    else:
        na.append({"property":i,"reason":"check under construction"})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
   "notes":"Explicit-state model checking executed directly on the real contracts; see DESIGN.md."}
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks),"checks",len(na),"n/a")
