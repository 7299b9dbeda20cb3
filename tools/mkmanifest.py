#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness sources."""
import json,re,glob,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
have=set()
for f in glob.glob(root+'/harness/*/*.go'):
    have|=set(re.findall(r'^func (C\d\d)_\w+\(\)\s+\{',open(f).read(),re.M))
notes=json.load(open(root+'/tools/notes.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have and i not in notes.get('na',{}):
        checks.append({"property":i,"quick_cmd":f"VERIF_TIER=quick bash check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough bash check.sh {i}",
          "technique":"symbolic execution of go/ssa with SMT (z3), bounded; counterexamples replayed natively",
          "level":"model_checking","level_note":notes['notes'].get(i,notes['default'])})
    else:
        na.append({"property":i,"reason":notes.get('na',{}).get(i,"no check has been built yet")})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
   "notes":"No hooks in /repo: harnesses are overlaid under /repo/internal/zzverif at load time. Commits in /repo are repairs (fix:) only; see known-findings.txt."}
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'n/a')
