"""Runs checks against planted bugs, each in its own scratch copies of /repo and /verif (development tool).
usage: matrix.py [--all] [--tier T] id ...    without --all, only the check of the property of the bug"""
import sys,os,json,shutil,subprocess,time
from concurrent.futures import ThreadPoolExecutor
a=sys.argv[1:]; allc='--all' in a; a=[x for x in a if x!='--all']; tier='quick'
if '--tier' in a: i=a.index('--tier'); tier=a[i+1]; del a[i:i+2]
ids=a or sorted(os.listdir('/verif/seeded'))
def one(i):
    r='/tmp/x/mx/%s/repo'%i; v='/tmp/x/mx/%s/verif'%i; shutil.rmtree('/tmp/x/mx/'+i,ignore_errors=True); os.makedirs(v)
    shutil.copytree('/repo',r)
    if subprocess.run(['git','-C',r,'apply','/verif/seeded/%s/patch.diff'%i]).returncode: return i,'patch does not apply'
    for n in ('lib','checks','tools'): shutil.copytree('/verif/'+n,v+'/'+n)
    for n in ('run.sh','known_findings.txt','properties.jsonl','MANIFEST.json'): shutil.copy('/verif/'+n,v)
    os.makedirs(v+'/evidence')
    p=json.load(open('/verif/seeded/%s/meta.json'%i))['property']
    cs=sorted(f[:3] for f in os.listdir('/verif/checks') if f.startswith('C') and f.endswith('.py')) if allc else [p]
    hit=[];t0=time.time()
    for c in cs:
        o=subprocess.run(['bash',v+'/run.sh',c,tier],capture_output=True,text=True,env=dict(os.environ,VERIF_REPO=r,VERIF_SEED='1'))
        k=[l for l in o.stdout.splitlines() if l.startswith('VIOLATION property=%s '%c)]
        if o.returncode==1 and k: hit.append(c)
        elif o.returncode!=0: hit.append(c+'?%d'%o.returncode)
    shutil.rmtree('/tmp/x/mx/'+i,ignore_errors=True)
    return i,p,('CAUGHT' if p in hit else 'MISSED'),hit,round(time.time()-t0)
with ThreadPoolExecutor(2) as ex:
    for x in ex.map(one,ids): print(*x,flush=True)
