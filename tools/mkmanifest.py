#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand; the output is committed)."""
import json, os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
T={}
exec(open(V+'/tools/techniques.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if os.path.isdir(V+'/harness/'+i.lower()) and i in T:
        t,n=T[i]
        checks.append(dict(property=i,quick_cmd=f'./run.sh {i} quick',thorough_cmd=f'./run.sh {i} thorough',
          evidence_file=f'evidence/{i}.json',technique=t,level='model_checking',level_note=n))
    else:
        na.append(dict(property=i,reason='The check is not built yet.'))
m=dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,
  notes='All checks are bounded exhaustive explorations executing the real code, see DESIGN.md. Genuine defects found are listed in known-findings.txt.')
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
print(len(checks),'claimed',[x['property'] for x in na])
