#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json,glob,os
here=os.path.dirname(os.path.abspath(__file__))
p=here+'/DESIGN.md'; s=open(p).read()
rows=['| bug | property | what it breaks | needs |','|-----|----------|----------------|-------|']
for d in sorted(glob.glob(here+'/seeded/*')):
    m=json.load(open(d+'/meta.json')); rows.append('| %s | %s | %s | %s |'%(os.path.basename(d),m['property'],m['what_it_breaks'].replace('|','/'),m['needs'].replace('|','/')))
a=s.index('| bug | property |'); b=s.index('\n\n',a)
open(p,'w').write(s[:a]+'\n'.join(rows)+s[b:])
