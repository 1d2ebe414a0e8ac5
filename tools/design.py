#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for i in sorted(os.listdir(V+'/seeded'),key=lambda x:int(x[1:])):
    m=json.load(open(f'{V}/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {m.get('caught', m['property'])} |\n".replace('\n',' ').rstrip()+'\n')
s=open(V+'/DESIGN.md').read()
head='| id | property | needs | what it breaks | caught by |\n|---|---|---|---|---|\n'
s=re.sub(r'\| id \| property \|.*?\n(?=\n)',lambda m: head+''.join(rows),s,flags=re.S,count=1)
open(V+'/DESIGN.md','w').write(s)
