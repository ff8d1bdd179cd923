#!/usr/bin/env python3
"""writes MANIFEST.json from specs/plan.json"""
import json,subprocess
V='/verif'
plan=json.load(open(V+'/specs/plan.json'))
props=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
na=json.load(open(V+'/specs/not_applicable.json'))
checks=[]
for p in props:
    if p not in plan: continue
    q=plan[p]
    checks.append(dict(property=p,quick_cmd=f"python3 check.py {p}",thorough_cmd=f"python3 check.py {p} --tier thorough",
      technique=q.get("technique","contract-based deductive verification (Verus) of functions extracted mechanically from /repo/src on every run"),
      level=q["level"],level_note=q["note"],theorems=q["theorems"]))
hook=[l.split()[0] for l in subprocess.run(['git','-C','/repo','log','--format=%H %s'],capture_output=True,text=True).stdout.split('\n') if 'hook' in l]
m=dict(version=1,setup_cmd="bash setup.sh",hooks=dict(guard="cfg(bq2cst_verif)",enable="RUSTC_WRAPPER=/verif/tools/rustc_wrap.sh adds --cfg bq2cst_verif to the crate under test",source_commits=hook),
 checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in na.items() if k not in plan],
 notes="see DESIGN.md; findings in known_findings.txt")
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
