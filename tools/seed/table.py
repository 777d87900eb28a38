#!/usr/bin/env python3
"""puts the table of planted bugs (tools/seed/caught.txt: id, property, class, call, run, seconds) into DESIGN.md"""
import json,os,re
c={}
for l in open('/verif/tools/seed/caught.txt'):
  f=l.rstrip('\n').split('\t')
  if len(f)>1: c[f[0]]=f[1:]
rows=['| planted bug | what it breaks | found as (class, call, first run) |','|---|---|---|']
for i in sorted(os.listdir('/verif/seeded')):
  m=json.load(open(f'/verif/seeded/{i}/meta.json'))
  rows.append('| %s | %s | %s |'%(i,m['what_it_breaks'].replace('|','/').replace('\n',' '),', '.join(c.get(i,['not run']))))
p='/verif/DESIGN.md'; s=open(p).read()
t='<!-- table -->\n'+'\n'.join(rows)+'\n<!-- end -->'
s=s.replace('SEEDTABLE','<!-- table -->\n<!-- end -->')
s=re.sub(r'<!-- table -->.*<!-- end -->',lambda _:t,s,flags=re.S)
open(p,'w').write(s)
