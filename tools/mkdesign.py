#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_*.md and seeded/*/meta.json (run by hand; the output is committed)."""
import json, os, glob
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
r=lambda f: open(V+'/tools/design_'+f+'.md').read()
out=r('head')+r('props')+'\n## 3. Planted bugs\n\nEach was written from the text of a property and the code, compiles, passes the existing tests, and has a demonstration. "Caught" is by the quick check of the property.\n'
out+=r('seeds') if os.path.exists(V+'/tools/design_seeds.md') else ''
out+='\n| id | property | needs | breaks | caught |\n|---|---|---|---|---|\n'
missed=open(V+'/tools/missed.txt').read().split() if os.path.exists(V+'/tools/missed.txt') else []
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    i=f.split('/')[-2]; m=json.load(open(f))
    out+=f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {'no' if i in missed else 'yes'} |\n"
open(V+'/DESIGN.md','w').write(out+'\n'+r('tail'))
