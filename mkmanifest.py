#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and claims.json (which properties are claimed, their notes)."""
import json,os
d=os.path.dirname(os.path.abspath(__file__))
import props;props.write()
props=[json.loads(l) for l in open(d+'/properties.jsonl') if l.strip()]
cl=json.load(open(d+'/claims.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in cl['claimed']:
        c=cl['claimed'][i]
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough",
          "evidence_file":f"evidence/{i}.json",
          "technique":"contract-based deductive verification of the Go source (govc: contracts and loop invariants, symbolic execution of go/ssa, SMT)",
          "level":"proof","level_note":c["note"]+" "+cl["common_note"]})
    else:
        na.append({"property":i,"reason":cl['not_applicable'].get(i,cl['default_reason'])})
m={"version":1,"setup_cmd":"bash setup.sh","hooks":{"guard":"none","enable":"no hooks: contracts are laid over the package as extra files through a go build overlay, /repo itself carries no verification code","source_commits":[]},
 "checks":checks,"not_applicable":na,"notes":cl["notes"]}
json.dump(m,open(d+'/MANIFEST.json','w'),indent=1)
open(d+'/MANIFEST.json','a').write("\n")
