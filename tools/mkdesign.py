#!/usr/bin/env python3
"""refresh the planted-bug table of DESIGN.md from seeded/*/meta.json"""
import json,glob,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=['| planted bug | caught by | needs |','|---|---|---|']
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append('| %s | %s | %s |'%(f.split('/')[-2],m['property'],m['needs'].replace('|','/')))
p=V+'/DESIGN.md'; t=open(p).read()
t=re.sub(r'<!-- seeded -->.*?<!-- /seeded -->','<!-- seeded -->\n'+'\n'.join(rows)+'\n<!-- /seeded -->',t,flags=re.S)
open(p,'w').write(t)
