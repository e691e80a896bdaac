#!/usr/bin/env python3
"""Assemble DESIGN.md from design_head.md, the planted bugs under /verif/seeded and design_tail.md."""
import json, glob, os
R='/verif'
rows=[]
for f in sorted(glob.glob(R+'/seeded/*/meta.json')):
    m=json.load(open(f)); i=os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s | %s |' % (i, m['property'], (m['what_it_breaks']+' – needs '+m['needs']).replace('|','\\|').replace('\n',' ')))
missed={}
mp=R+'/tools/seeds/MISSED.txt'
if os.path.exists(mp):
    for l in open(mp):
        a=l.split(None,1); missed[a[0]]=a[1].strip()
body=open(R+'/tools/design_head.md').read()+'\n## 3. Planted bugs\n\n'
body+='Each was written from the property and the code (`tools/seeds/*.py`), verified by `tools/mkseeds.py` (applies, builds, stable tests pass, the demonstration tells the two apart) and run against the quick check of its property.\n'
body+='%d are kept; each is caught by the quick check of the property in the second column%s.\n\n| id | caught by | what |\n|---|---|---|\n' % (len(rows), '' if not missed else ' except '+', '.join('%s (%s)'%x for x in missed.items()))
body+='\n'.join(rows)+'\n\n'+open(R+'/tools/design_tail.md').read()
open(R+'/DESIGN.md','w').write(body)
