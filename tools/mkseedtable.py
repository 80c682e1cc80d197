#!/usr/bin/env python3
"""Regenerate the table of planted bugs in DESIGN.md section 4."""
import json,glob,os,re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for d in sorted(glob.glob(R+'/seeded/*')):
    m=json.load(open(d+'/meta.json')); rows.append('| %s | %s | %s |'%(os.path.basename(d),m['what_it_breaks'],m['needs']))
t='<!-- table -->\n| planted bug (the check of its prefix catches it) | what breaks | needs |\n|---|---|---|\n'+'\n'.join(rows)+'\n<!-- end -->'
p=R+'/DESIGN.md'; s=open(p).read()
s=re.sub(r'<!-- table -->.*<!-- end -->',lambda _:t,s,flags=re.S); open(p,'w').write(s)
