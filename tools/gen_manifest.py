#!/usr/bin/env python3
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V+'/tools')
from checks_info import INFO
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
checks=[];na=[]
for i in ids:
    if os.path.exists('%s/checks/%s.py'%(V,i)) and i in INFO:
        t,lv,note=INFO[i]
        checks.append({'property':i,'quick_cmd':'bash run.sh %s quick'%i,'thorough_cmd':'bash run.sh %s thorough'%i,'technique':t,'level':lv,'level_note':note})
    else: na.append({'property':i,'reason':'check not built yet'})
m={'version':1,'setup_cmd':'bash setup.sh','checks':checks,'not_applicable':na,
   'notes':'All checks are deterministic exhaustive enumerations of executions of the real code of /repo within stated bounds; see DESIGN.md. No hooks in /repo.'}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'n/a')
