#!/usr/bin/env python3
"""Write the table of seeded changes in DESIGN.md from seeded/*/meta.json (the 'caught_by' key is the check that caught it)."""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{d}/meta.json'))
    w=m['what_it_breaks'].replace('|','/').replace('\n',' ')
    n=m['needs'].replace('|','/').replace('\n',' ')
    rows.append(f"| {d} | {m.get('caught_by',m['property'])} | {w} | {n} |")
s=open(V+'/DESIGN.md').read()
t='<!-- seeds -->\n| change | caught by | what it breaks | what it needs |\n|---|---|---|---|\n'+'\n'.join(rows)+'\n<!-- /seeds -->'
if '<!-- seeds -->' in s: s=re.sub(r'<!-- seeds -->.*?<!-- /seeds -->',lambda m:t,s,flags=re.S)
else: s=s.replace('(in progress)',t)
open(V+'/DESIGN.md','w').write(s)
