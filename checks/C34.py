"""The rest of the program keeps its settings: environment before and after every call, refused, failing and interrupted calls included"""
import os, sys, io, ast, tempfile, shutil, subprocess
import numpy as np
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt
from common import pmap
import api, wiz
from envonly import env, settings
from wt import WindTurbine, WindFarm
from checks import C27, C02
from checks.C02 import near
import wiz.article_blockage.helper_functions as H, wiz.plotting_functions as PF, wiz.Solver as SV
A=np.array; PKG=os.path.dirname(os.path.abspath(wiz.__file__))+os.sep
def compare(ck,key,a,b,d):
    bad=[k for k in a if a[k]!=b[k]]; ck.case(1,1)
    if bad:
        dd={}
        for k in bad:
            x,y=a[k],b[k]
            if isinstance(x,dict): x,y={q:x.get(q) for q in set(x)|set(y) if x.get(q)!=y.get(q)},{q:y.get(q) for q in set(x)|set(y) if x.get(q)!=y.get(q)}
            dd[k]={'before':repr(x)[:200],'after':repr(y)[:200]}
        ck.fail('%s:%s'%(key,bad[0]),dict(d,changed=dd)); return False
    return True
class Fault(Exception): pass
def own(x): return C27._own(x)
def notext(x):
    """ texts may follow the printing settings the user chose for arrays """
    return 'text' if isinstance(x,str) else [notext(v) for v in x] if isinstance(x,(list,tuple)) else {k:notext(v) for k,v in x.items()} if isinstance(x,dict) else x
class Call:
    """ one call made in an environment; raises nothing """
    def __init__(self,f): self.err=None; self.out=None; self.f=f
    def go(self):
        try: self.out=own(self.f())
        except BaseException as e: self.err=type(e).__name__
        return self
# ---------------------------------------------------------------- the calls
def data(root):
    """ data files, in root, for the set-ups of the articles """
    from checks import C31
    fine=np.linspace(-6,6,21)
    for h,nm in ((9999,'CT040_HH99_Lambda99_Yaw00'),(1.5,'CT040_HH15_Lambda99_Yaw00')):
        for hor in (True,False): C31.write(root,nm,h,hor,lambda a,b,k: C31.poly(a/6,b/6,k),fine,fine,fine)
    H.save_obj({'d0_1x1_ct0.40_hh1.50':dict(xyz=np.zeros((4,3,2)),uvw=np.ones((4,3,2)),xyz_wt=np.zeros((1,3)),ct_wt=A([.4]))},os.path.join(root,'data','CFD_AD_Farm_lines_All'))
    H.save_obj([1,2],os.path.join(root,'run','obj'))
    os.makedirs(os.path.join(root,'data','ProjCorr')); x=np.linspace(-4,4,7); X=np.meshgrid(x,x,x+1.5,indexing='ij')[0]; np.savez(os.path.join(root,'data','ProjCorr','Layout1x1_CT040S.npz'),x1=x,y1=x,z1=x+1.5,u=1+.1*X,v=0*X,w=0*X)
class Plane: pass
def plane():
    o=Plane(); a=np.linspace(-1,1.3,4); z=np.linspace(-2,1,5); o.X,o.Z=np.meshgrid(a,z); o.Y=o.X; o.U=o.V=o.X*.1; o.W=1+.1*o.Z*o.X; o.O=o.X-o.Z; return o
def calls():
    """ name -> variants """
    c={f.name:C27.family(f) for f in api.F}; c.update(C27.others())
    for n,f,a,k in C27.full():
        cp=lambda a: [v.copy() if isinstance(v,np.ndarray) else v for v in a]
        nreq=sum(p.default is p.empty and p.kind in (p.POSITIONAL_ONLY,p.POSITIONAL_OR_KEYWORD) for p in C27.inspect.signature(f).parameters.values())
        c['full:'+n]=[lambda f=f,a=a,k=k: f(*cp(a),**k)]+([lambda f=f,a=a,n=nreq: f(*cp(a)[:n])] if nreq<len(a) else [])+[lambda f=f,a=a: f(*cp(a)[:-1],'x') ,lambda f=f,a=a: f(*[v*np.nan if isinstance(v,np.ndarray) and v.dtype.kind=='f' else v for v in cp(a)])]
    for j,(n,f,a,k) in enumerate(C02.helper_cases()): c['helper:%s:%d'%(n,j)]=[lambda f=f,a=a,k=k: f(*[v.copy() if isinstance(v,np.ndarray) else v for v in a],**k)]
    # objects
    def boom(*a): raise Fault()
    def T(**k): return lambda: WindTurbine(R=1.,r_hub=[0,1.,0],**k)
    u=A([.3,-1.]),A([.2,.4]),A([.6,-2.])
    ops=[lambda w: w.update_wind([1.,0,8]),lambda w: w.update_wind([1.,0]),lambda w: w.update_wind('a'),lambda w: w.update_yaw_pos(.3),lambda w: w.update_yaw_pos('a'),lambda w: w.update_position([1,2,3]),lambda w: w.update_position(None),lambda w: w.set_chi(.2),lambda w: w.set_yaw0_coord([1,0,0],[0,0,1]),lambda w: w.set_yaw0_coord([0,0,0],[0,0]),
         lambda w: w.update_loading(Ct=.4),lambda w: w.update_loading(),lambda w: w.update_loading(Ct=.4,gamma_t_Ct=boom),lambda w: w.update_loading(Ct=1.7),lambda w: w.update_loading(r=A([0,.5,1]),Ct=A([.3,.6,.2]),nCyl=3,Lambda=6.),lambda w: w.update_loading(r=A([0,.5,1]),Gamma=A([.3,.6,.2]),nCyl=3,Lambda=6.),lambda w: w.update_loading(Ct=.4,Lambda=0.),
         lambda w: w.compute_u(*u,Model='XX'),lambda w: w.compute_u(*u,longi=True,root=True),lambda w: w.compute_u(1.,2.,'a'),lambda w: [repr(w),w.tostring(),w.yaw_error,w.chi,w.yaw_wind],lambda w: w.rotor_disk_points(5),lambda w: w.rotor_disk_points('a')]
    for i,k in enumerate((dict(Ct=.5),dict(Ct=.7,Lambda=5.),dict())):
        c['turbine ops:%d'%i]=[lambda k=k,op=op: (lambda w: op(w))(T(**k)()) for op in ops]
    fo=[lambda F: F.velocity_field(*u,U0=[1,2,3.]),lambda F: F.velocity_field(*u),lambda F: F.velocity_field(*u,Model='XX'),lambda F: F.velocity_field(*u,no_wake=True,Model='VCFF'),lambda F: setattr(F,'layout',A([[0,1.,0],[1,2,3]])),lambda F: setattr(F,'layout','a'),lambda F: F.append(3),lambda F: [repr(F),F.layout,len(F)],lambda F: [w.name for w in F]]
    c['farm ops']=[lambda op=op: op(WindFarm([T(Ct=.5)(),T(Ct=.3)()])) for op in fo]
    # articles
    c['setupModel']=[lambda: H.setupModel(CT=.6,HH=1.5,Lambda=np.inf,Horizontal=True,Yaw=-20).fU(*u),lambda: H.setupModel(CT=.6,HH=9999,Lambda=6,Horizontal=False,Yaw=0).fVert(u[0],u[1]),lambda: H.setupModel(CT='a',HH=1,Lambda=6,Horizontal=True,Yaw=0)]
    c['loadPlane']=[lambda: own(H.loadPlane(.4,9999,np.inf,True,0).W),lambda: H.loadPlane(.4,1.5,np.inf,False,0).fAxial(u[2]),lambda: H.loadPlane(.7,1.5,np.inf,False,0),lambda: H.loadPlane(.4,9999,6,True,-30),lambda: H.loadPlane(None,9999,6,True,-30)]
    def interp(hor):
        P=H.loadPlane(.4,1.5,np.inf,hor,0); P.setupInterpolants(); return P.fU(*u)
    c['interpolants']=[lambda: interp(True),lambda: interp(False)]
    c['lines']=[lambda: H.OutputADLines().get25(4,'1x1',.4,1.5),lambda: H.OutputADLines().getSim(4,'2x2',.4,1.5),lambda: H.OutputADLines().getSim(4.5,'3x3',.4,1.5),lambda: H.load_obj('obj'),lambda: H.load_obj('absent')]
    def proj():
        P=H.OutputProj(.4,HH=1.5,Horizontal=True,suffix='S'); r=own(P.W); P.d.close(); return r
    c['proj']=[proj,lambda: H.OutputProj(.9,HH=1.5)]
    c['errors']=[lambda: H.getModelsRelErr(A([0.,.4]),A([0.,.3]),A([-1.4,-2.5]),True,.4,[{'name':n} for n in ('AD','VC','SS')],False,HH=1.5,Lambda=np.inf,Yaw=0,Horizontal=True),lambda: H.getModelsRelErr(A([0.,.4]),A([0.,.3]),A([-1.4,-2.5]),True,.4,[{'name':'XX'}],False,HH=1.5,Lambda=np.inf,Yaw=0,Horizontal=True)]
    c['models cmap']=[lambda: [repr(x)[:100] for x in H.getModelsCMAP()]]
    c['farms of the articles']=[lambda: H.VCFarmFromFloris(A([[.3,.5],[.6,.8]]),1.5,5.).velocity_field(*u,U0=[1.,0,0]),lambda: H.VCFarmFromFloris(A([.3]),1.5,5.),lambda: H.VCFarmFromFloris(A([[.3,.5],[.6,.8]]),1.5,5.,gamma_t_Ct=boom)]
    # plots, on axes given (the current axes of the program are others)
    def ax(): return AXES[0]
    pl=[]
    for kw in (dict(),dict(levelsContour=[.8,1.,1.1]),dict(levelsLines=[.8,1.]),dict(levelsLines=[-.5,-.1,1.],ls=None),dict(levelsContour=[.8,1.1],levelsLines=[.9,1.],component='Speed'),dict(cmap='no such map'),dict(levelsLines=['a']),dict(levelsContour=[2.,1.]),dict(minSpeed=.5,maxSpeed=1.5,axequal=False)):
        pl.append(lambda kw=kw: (H.plotPlane(plane(),ax=ax(),Horizontal=True,**kw),0)[1]); pl.append(lambda kw=kw: (H.plotPlane(plane(),ax=ax(),Horizontal=False,**kw),0)[1])
        pl.append(lambda kw=kw: (lambda o: (H.plotPlaneVert(o.Y,o.Z,o.V,o.W,ax=ax(),**kw),0)[1])(plane()))
    c['plots']=pl
    c['colormaps']=[lambda: A(PF.make_colormap([(0,0,1.),(1.,1,1),(1.,0,0)],values=[0,.3,1.])(np.linspace(0,1,9))),lambda: PF.make_colormap([(0,0)]) and None,lambda: PF.make_colormap('a') and None,lambda: PF.get_cmap('a','b') and None]
    return c
AXES=[]
def begin():
    """ scratch working directory with the data, figures of the program """
    root=tempfile.mkdtemp(prefix='c34_'); data(root); os.chdir(os.path.join(root,'run')); plt.close('all')
    AXES[:]=[plt.figure(21).add_subplot(111)]; plt.figure(22); plt.gca(); return root
# ---------------------------------------------------------------- faults
_SK={}
def restoring(fn):
    """ lines of a file which restore something: `finally` and `except` blocks, `__enter__`/`__exit__`; and the `try` lines """
    if fn not in _SK:
        s=set()
        try: t=ast.parse(open(fn).read())
        except Exception: t=ast.Module(body=[],type_ignores=[])
        for n in ast.walk(t):
            if isinstance(n,ast.Try):
                s.add(n.lineno)
                for b in n.finalbody+n.handlers: s|=set(range(b.lineno,b.end_lineno+1))
            if isinstance(n,(ast.FunctionDef,)) and n.name in ('__enter__','__exit__','__del__'): s|=set(range(n.lineno,n.end_lineno+1))
        _SK[fn]=s
    return _SK[fn]
def traced(f,at=None,exc=Fault):
    """ distinct lines of the library met by f(), in order; an exception is raised when line number `at` of this list is first met """
    seen=[]; S=set()
    def loc(fr,ev,arg):
        if ev=='line':
            k=(fr.f_code.co_filename,fr.f_lineno)
            if k not in S:
                S.add(k); q=fr
                while q is not None:
                    if q.f_code.co_filename.startswith(PKG) and q.f_lineno in restoring(q.f_code.co_filename): return loc
                    q=q.f_back
                seen.append(k)
                if at is not None and len(seen)==at+1: sys.settrace(None); raise exc()
        return loc
    def tr(fr,ev,arg): return loc if fr.f_code.co_filename.startswith(PKG) else None
    sys.settrace(tr)
    try: o=f()
    finally: sys.settrace(None)
    return seen
# ---------------------------------------------------------------- importing
IMP='''
import sys,os,json
sys.path[:0]=[%r,%r,%r]
import numpy,scipy,scipy.special,scipy.integrate,scipy.interpolate,scipy.io,matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot,matplotlib.colors,mpl_toolkits.axes_grid1,unittest,pickle,mpmath,random,decimal,logging
import envonly as E
E.settings('other'); a=E.env(); import importlib
try: importlib.import_module(%r)
except ImportError as e: print('IMPORT',e)
b=E.env(); bad=[(k,repr(a[k])[:150],repr(b[k])[:150]) for k in a if a[k]!=b[k]]
sys.__stdout__.write('RESULT'+json.dumps(bad))
'''
def run(ck):
    ck.level='model_checking'; th=ck.thorough
    ck.rule='case = one call (valid, refused, failing in the middle, or interrupted at one line of the library) in one state of the environment, which is compared before and after; result compared between environments'
    C=calls(); items=[(n,i) for n,fs in C.items() for i in range(len(fs))]
    def visit(ck,g):
        """ every call in every environment """
        root=begin(); so=sys.stdout
        try:
            for n,i in g:
                ref=None
                for kind in ('default','other','strict'):
                    settings(kind); sys.stdout=mine=io.StringIO(); a=env(); r=Call(C[n][i]).go(); b=env(); sys.stdout=so
                    compare(ck,'call',a,b,{'call':n,'variant':i,'settings':kind,'outcome':r.err or 'returns'}); ck.trans(); ck.trace()
                    if kind=='default': ref=r
                    elif kind=='other': ck.expect((r.err is None)==(ref.err is None) and (r.err is not None or near(notext(r.out),notext(ref.out))),'result depends on the settings',lambda:{'call':n,'variant':i,'errors':(ref.err,r.err)})
                    elif r.err is None: ck.expect(ref.err is None and near(r.out,ref.out),'result depends on the settings',lambda:{'call':n,'variant':i,'settings':kind})
        finally: sys.stdout=so; settings('default'); os.chdir('/'); shutil.rmtree(root)
    def faults(ck,it):
        """ interruption at every line of the library, once each """
        n,i=it; root=begin(); so=sys.stdout; f=C[n][i]; k=0; tot=1; N=0
        try:
            settings('other'); sys.stdout=io.StringIO()
            try: tot=len(traced(f))
            except BaseException: tot=10**6
            for k in range(min(tot,400 if th else 250)):
                done=False
                for exc in ((Fault,KeyboardInterrupt) if th or k%2 else (KeyboardInterrupt,Fault))[:2 if th else 1]:
                    settings('other'); a=env(); met=None
                    try: met=traced(f,k,exc)
                    except BaseException as e: pass
                    sys.settrace(None); b=env(); ck.state(); N+=1
                    compare(ck,'interrupted',a,b,{'call':n,'variant':i,'interruption at line number':k,'by':exc.__name__})
                    if met is not None and len(met)<=k: done=True
                if done: break
        finally: sys.stdout=so; settings('default'); os.chdir('/'); shutil.rmtree(root)
        return N
    # spread the families over the workers
    gs=[items[k::64] for k in range(64)]; pmap(ck,visit,gs)
    cand=[(n,i) for n,fs in C.items() for i in range(len(fs)) if th or i in ((0,) if not n.startswith(('turbine','farm','plots','load')) else range(len(fs)))]
    cand=[c for k,c in enumerate(cand)]
    tot=pmap(ck,faults,[cand[(k*37)%len(cand)] for k in range(len(cand))] if len(cand)%37 else cand)
    ck.extra['interruptions']=int(sum(t or 0 for t in tot)); ck.extra['calls']=len(items)
    # importing
    repo=os.environ.get('VERIF_REPO','/repo'); here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    mods=sorted('wiz.'+os.path.relpath(os.path.join(a,f),PKG)[:-3].replace(os.sep,'.') for a,d,fs in os.walk(PKG) for f in fs if f.endswith('.py') and not f.startswith(('test','_')) and 'examples' not in a and 'tests' not in a and ('article' not in a or f=='helper_functions.py'))
    def imp(ck,m):
        d=tempfile.mkdtemp(prefix='c34_')
        try:
            p=subprocess.run([sys.executable,'-W','ignore','-c',IMP%(repo,os.path.join(here,'lib'),here,m)],cwd=d,capture_output=True,text=True,env=dict(os.environ,PYTHONDONTWRITEBYTECODE='1',MPLBACKEND='Agg')); ck.case(1,1)
            if not ck.expect('RESULT' in p.stdout,'import',{'module':m,'error':p.stderr[-500:]}): return
            import json; bad=json.loads(p.stdout.split('RESULT')[-1]); ck.expect(not bad,'import changes the settings',{'module':m,'changed':bad})
        finally: shutil.rmtree(d)
    pmap(ck,imp,mods); ck.extra['modules']=mods
    ck.sample({'call':'plots','settings':'other'})
