#!/usr/bin/env python3
"""Writes DESIGN.md from its parts: the seeds and the findings are tables."""
import json,glob,os,sys
v=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head=open(v+'/tools/design/head.md').read()
table=open(v+'/tools/design/table.md').read()
tail=open(v+'/tools/design/tail.md').read()
rows=['| Seed | Property | Needs | Breaks |','|---|---|---|---|']
for d in sorted(glob.glob(v+'/seeded/*')):
    m=json.load(open(d+'/meta.json'))
    rows.append('| %s | %s | %s | %s |'%(os.path.basename(d),m['property'],m['needs'].replace('|','/'),m['what_it_breaks'].replace('|','/')))
open(v+'/DESIGN.md','w').write(head+table+tail.replace('@SEEDS@','\n'.join(rows)))
