#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json,os,glob,re
t='<!-- bugs -->\n| planted bug | caught by | needs |\n|---|---|---|\n'
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); t+='| %s | %s | %s |\n'%(os.path.basename(d),m['property'],' '.join(m['needs'].split()).replace('|','/'))
s=open('/verif/DESIGN.md').read()
t+='<!-- end of bugs -->'
s=s.replace('BUGTABLE',t) if 'BUGTABLE' in s else re.sub(r'<!-- bugs -->.*?<!-- end of bugs -->',lambda m:t,s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
