"""Adds the seeds missing from the table of DESIGN.md, in order; notes given as id=note arguments"""
import os,re,sys
notes=dict(a.split('=',1) for a in sys.argv[1:])
L=open('DESIGN.md').read().split('\n'); row=re.compile(r'^\| (C\d\d-[\w-]+) \| (C\d\d) \|(.*)\|$')
idx=[i for i,l in enumerate(L) if row.match(l)]
rows={row.match(L[i]).group(1):L[i] for i in idx}
import json
for s in sorted(os.listdir('seeded')):
    if s not in rows or s in notes: rows[s]='| %s | %s | %s |'%(s,json.load(open('seeded/%s/meta.json'%s))['property'],notes.get(s,''))
rows={k:v for k,v in rows.items() if os.path.isdir('seeded/'+k)}
L[idx[0]:idx[-1]+1]=[rows[k] for k in sorted(rows)]
open('DESIGN.md','w').write('\n'.join(L))
