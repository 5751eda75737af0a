#!/usr/bin/env python3
"""rewrites the table at the end of DESIGN.md from seeded/*/meta.json"""
import json,glob,os
h=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d=open(h+'/DESIGN.md').read()
k='## Planted changes (`seeded/`) and which checks catch them\n'
d=d[:d.index(k)+len(k)]
rows=[]
for f in glob.glob(h+'/seeded/*/meta.json'):
    m=json.load(open(f)); rows.append((m['property'],f.split('/')[-2],m['needs'],m['what_it_breaks']))
d+="Each was validated (applies, builds, stable tests pass, demo 0 without and non-zero with it); the check of the named property catches it in its quick tier.\n\n| Property | Change | Needs | Breaks |\n|---|---|---|---|\n"
for r in sorted(rows): d+="| "+" | ".join(str(x).replace('|','\\|').replace('\n',' ') for x in r)+" |\n"
open(h+'/DESIGN.md','w').write(d)
