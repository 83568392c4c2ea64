#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property with at least one harness, the others from NOT_APPLICABLE."""
import json,os,re,glob
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl') if l.strip()]
src=''.join(open(f).read() for f in sorted(glob.glob(root+'/harness/h/*.go')))
have=set(re.findall(r'^func (C\d\d)_\w+\(\) *\{',src,re.M))
na=json.load(open(root+'/tools/not_applicable.json')) if os.path.exists(root+'/tools/not_applicable.json') else {}
notes=json.load(open(root+'/tools/notes.json')) if os.path.exists(root+'/tools/notes.json') else {}
checks=[];nas=[]
for p in props:
    i=p['id']
    if i in have and i not in na:
        checks.append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,
          "evidence_file":"evidence/%s.json"%i,
          "technique":"symbolic execution of the real code's SSA form with z3; counterexamples replayed natively",
          "level":"model_checking",
          "level_note":notes.get(i,"holds for every input and schedule within the bounds stated in the evidence file; nothing is claimed beyond them")})
    else:
        nas.append({"property":i,"reason":na.get(i,"check not built yet")})
m={"version":1,"setup_cmd":"true","checks":checks,"not_applicable":nas}
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(nas),'not applicable')
