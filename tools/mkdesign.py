#!/usr/bin/env python3
"""mkdesign.py: rewrites the table of planted changes in DESIGN.md."""
import json,glob,re
rows=['| change | property | needs |','|--|--|--|']
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append('| %s | %s | %s |'%(f.split('/')[-2],m['property'],m['needs'].replace('|','/').replace('\n',' ')))
s=open('/verif/DESIGN.md').read()
a,b='<!-- SEEDED: tools/mkdesign.py -->\n','<!-- END -->'
i,j=s.index(a)+len(a),s.index(b)
open('/verif/DESIGN.md','w').write(s[:i]+'\n'.join(rows)+'\n'+s[j:])
