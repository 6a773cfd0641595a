"""Builds one planted bug (used while developing; never run by a check).
usage: mkseed.py SPEC.py [id ...]     SPEC defines SEEDS = {id: dict(property,needs,what,edits=[(file,old,new),..],demo='python source')}
Works in a scratch copy of /repo, checks that the patch touches original lines, that the stable tests pass and that the demo discriminates, then writes /verif/seeded/<id>/"""
import sys,os,json,shutil,subprocess,runpy,xml.etree.ElementTree as ET
PY='/opt/venv/bin/python'; BASE='a0f8b60'
HEAD='import sys,os\nsys.path.insert(0,os.getcwd())\nimport numpy as np, warnings\nwarnings.simplefilter("ignore")\nimport io,contextlib\n_o=sys.stdout; sys.stdout=io.StringIO()\n'
SH='#!/bin/bash\n# run with cwd = the repository; exit 0 when the property holds\nD=$(cd "$(dirname "$0")" && pwd)\nPY=/opt/venv/bin/python; [ -x $PY ] || PY=python3\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\nexec $PY -W ignore "$D/demo.py"\n'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def stable():
    b=json.load(open('/opt/vp/BASELINE.json')); 
    for k in ('stable','passed','tests','stable_pass','pass'):
        if k in b: return set(b[k])
    raise Exception(list(b))
def tests(d):
    rep=d+'/rep.xml'; e=dict(os.environ,PYTHONDONTWRITEBYTECODE='1',MPLBACKEND='Agg')
    sh('cd %s && %s -m pytest -q -p no:cacheprovider --tb=no -W default --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 -o "python_files=test_*.py SelfSimilar.py" --rootdir=%s --junitxml=%s wiz'%(d,PY,d,rep),env=e)
    ok=set()
    sh('/usr/bin/python3 /opt/vp/results.py %s/o.json junit:%s'%(d,rep))
    r=json.load(open(d+'/o.json')); p=r.get('passed',r.get('pass')); os.remove(rep); os.remove(d+'/o.json')
    return set(p)
def original_lines(d):
    """ does the patch remove or change at least one line of the original repository """
    hit=False
    for h in sh('git -C %s diff -U0'%d).stdout.splitlines():
        if h.startswith('--- a/'): f=h[6:]
        if h.startswith('@@'):
            a=h.split()[1][1:].split(','); s=int(a[0]); n=int(a[1]) if len(a)>1 else 1
            for l in range(s,s+n):
                o=sh('git -C %s blame -s -L%d,%d HEAD -- %s'%(d,l,l,f)).stdout
                if sh('git -C %s blame -s -L%d,%d %s..HEAD -- %s'%(d,l,l,BASE,f)).stdout.startswith('^'): hit=True
    return hit
def make(i,s):
    d='/tmp/x/seedw/'+i; shutil.rmtree(d,ignore_errors=True); os.makedirs('/tmp/x/seedw',exist_ok=True); shutil.copytree('/repo',d)
    for f,o,n in s['edits']:
        t=open(d+'/'+f).read()
        if t.count(o)!=1: return 'edit of %s matches %d times: %r'%(f,t.count(o),o[:60])
        open(d+'/'+f,'w').write(t.replace(o,n))
    out='/verif/seeded/'+i; tmp='/tmp/x/seedo/'+i; shutil.rmtree(tmp,ignore_errors=True); os.makedirs(tmp)
    p=sh('git -C %s diff'%d).stdout
    if not original_lines(d): return 'no original line touched'
    open(tmp+'/patch.diff','w').write(p); open(tmp+'/demo.py','w').write(HEAD+s['demo']); open(tmp+'/demo.sh','w').write(SH)
    json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['what']},open(tmp+'/meta.json','w'),indent=1)
    a=sh('bash %s/demo.sh'%tmp,cwd='/repo'); b=sh('bash %s/demo.sh'%tmp,cwd=d)
    if a.returncode!=0: return 'demo fails on the clean tree: '+a.stderr[-600:]+a.stdout[-300:]
    if b.returncode==0: return 'demo passes with the patch'
    if 'AssertionError' not in b.stderr: print('   note: demo ends with',b.stderr.strip().splitlines()[-1:])
    lost=stable()-tests(d)
    if lost: return 'tests lost: %s'%sorted(lost)[:4]
    shutil.rmtree(out,ignore_errors=True); os.makedirs('/verif/seeded',exist_ok=True); shutil.copytree(tmp,out); sh('chmod +x %s/demo.sh'%out)
    return 'ok'
if __name__=='__main__':
    S=runpy.run_path(sys.argv[1])['SEEDS']
    for i,s in S.items():
        if len(sys.argv)>2 and i not in sys.argv[2:]: continue
        print(i,make(i,s),flush=True); shutil.rmtree('/tmp/x/seedw/'+i,ignore_errors=True)
