"""Turbine histories: explicit-state search over all operation sequences on real objects"""
import numpy as np, itertools
from common import fhash, pmap
from oracle import wrap
from wt import away, Ref, Loading, Refused, WindTurbine, query, fresh
R=2.
PTS=np.array([[.37,.81,-1.9],[-.61,.42,-.3],[.53,-.77,1.3],[-3.1,1.2,.7],[1.9,3.3,-2.2],[.2,-.31,6.1],[4.4,-2.9,5.3],[-7.,.4,9.],[1.7,-.2,1.1],[.1,.2,-1.3],[-1.6,.3,2.5],[2.7,.3,.9],[0.2,.1,.4]])*R+np.array([.3,1.1,-.2])
def fct(c): return -2.5*np.asarray(c,float)
r3=np.array([0,.35,.8,1])*R
LOADS={
 'Ct.6':Loading(Ct=.6),
 'Ct0':Loading(Ct=0.),
 'Ct4n3':Loading(r=r3,Ct=np.array([.2,.7,.9,.1]),nCyl=3),
 'Ct.7L8':Loading(Ct=.7,Lambda=8),
 'GamL6n2':Loading(r=r3,Gamma=np.array([2.,9,8,1.]),Lambda=6,nCyl=2),
 'cb':Loading(Ct=.5,gamma_t_Ct=fct),
 'Linf':Loading(Ct=.4,Lambda=np.inf),
}
Q1=[dict(),dict(only_ind=True,ground=True),dict(only_ind=True,longi=True,root=True)]
OPS={}
for a in (0.,.4,-2.9): OPS['yaw%g'%a]=('yaw',a)
for i,w in enumerate(((0,0,10.),(3.,0,7.),(-1.,.5,-8.))): OPS['wind%d'%i]=('wind',w)
for i,p in enumerate(((0,0,0),(1.,5.,-2.))): OPS['pos%d'%i]=('pos',p)
for k in LOADS: OPS['load:'+k]=('load',k)
OPS['coordA']=('coord',((0,0,1),(0,1,0))); OPS['coordB']=('coord',((1,0,0),(0,-1,0))); OPS['coordC']=('coord',((0,0,1),(-1,0,0))); OPS['coordD']=('coord',((1,0,0),(0,1,0)))
OPS['chi.3']=('chi',.3); OPS['chiNone']=('chi',None)
OPS['groundT']=('ground',True); OPS['groundF']=('ground',False)
OPS['query']=('query',dict(longi=True)); OPS['query2']=('query',dict(only_ind=True,tang=False,root=True,no_wake=True,ground=True)); OPS['repr']=('repr',None)
OPS['qVC']=('query',dict(Model='VCFF'))

class Node:
    __slots__=('ref','last')
    def __init__(s,ref,last): s.ref,s.last=ref,last

PERM={'default':(0,1,2),'met':(2,0,1)}   # axes of the operations' vectors, per initial frame
def pv(v,p): return [v[i] for i in p]
def apply_ref(nd,op,p):
    ref=nd.ref.copy(); last=nd.last; k,a=op
    if k=='yaw': ref.yaw=a
    elif k=='wind': ref.U0=np.array(pv(a,p),float)
    elif k=='pos': ref.hub=np.array(pv(a,p),float)
    elif k=='load':
        ref.load(LOADS[a]); last=(LOADS[a],tuple(ref.U0),ref.Lambda)
    elif k=='coord': ref.set_coord(pv(a[0],p),pv(a[1],p))
    elif k=='chi': ref.chi_user=a
    elif k=='ground': ref.Ground=a
    return Node(ref,last)
def apply_real(WT,op,p):
    k,a=op
    if k=='yaw': WT.update_yaw_pos(a)
    elif k=='wind': WT.update_wind(pv(a,p))
    elif k=='pos': WT.update_position(pv(a,p))
    elif k=='load': WT.update_loading(**LOADS[a].kw())
    elif k=='coord': WT.set_yaw0_coord(pv(a[0],p),pv(a[1],p))
    elif k=='chi': WT.set_chi(a)
    elif k=='ground': WT.Ground=a
    elif k=='query':
        try: query(WT,PTS,**a)
        except Exception: pass
    elif k=='repr': WT.tostring(short=False); WT.rotor_disk_points(5); WT.chi; WT.yaw_error
INIT={
 'default':(dict(R=R),dict(R=R),None),
 'met':(dict(R=R,r_hub=[1.,2.,3.],e_shaft_yaw0=[1,0,0],e_vert=[0,0,1],U0=[8.,2.,0],Ct=.5,Lambda=7.,Ground=True),
          dict(R=R,hub=(1,2,3.),es=(1,0,0),ev=(0,0,1),U0=(8,2,0.),Lambda=7.,Ground=True),Loading(Ct=.5)),
}
def build(init,hist):
    WT=WindTurbine(**INIT[init][0])
    for h in hist: apply_real(WT,OPS[h],PERM[init])
    return WT
def angles(o): return np.array([o.yaw_wind,o.chi])
def check_state(ck,WT,nd,init,hist):
    ref=nd.ref
    d=lambda:{'initial':init,'history':list(hist)}
    key=hist[-1].split(':')[0] if hist else 'init'
    ok=True
    fr=fresh(ref,nd.last)
    pts=PTS[:,PERM[init]]; pts=pts[away(ref,pts,True)]; ck.extra['min_points']=min(ck.extra.get('min_points',99),len(pts))
    ck.trace()
    # angles
    ok&=ck.expect(abs(wrap(WT.yaw_wind-ref.yaw_wind))<1e-9 and abs(WT.yaw_pos-ref.yaw)<1e-12 and abs((WT.chi-ref.chi) if ref.chi_user is not None else wrap(WT.chi-ref.chi))<1e-9,'angles:'+key,lambda:dict(d(),got=[WT.yaw_wind,WT.yaw_pos,WT.chi],expected=[ref.yaw_wind,ref.yaw,ref.chi]))
    ok&=ck.expect(abs(wrap(WT.yaw_error-fr.yaw_error))<1e-9,'yaw_error:'+key,lambda:dict(d(),got=WT.yaw_error,expected=fr.yaw_error))
    ok&=ck.close(np.sort(WT.rotor_disk_points(9),axis=1),np.sort(fr.rotor_disk_points(9),axis=1),'disk:'+key,d,rtol=0,atol=1e-8*R)
    # flow
    for kw in Q1:
        try: e=ref.u(pts,**kw)
        except Refused: e=None
        try: g=query(WT,pts,**kw)
        except Exception as ex: g=None
        try: f=query(fr,pts,**kw)
        except Exception as ex: f=None
        if (g is None)!=(e is None) or (g is None)!=(f is None):
            ck.fail('refusal:'+key,dict(d(),query=kw,got=None if g is None else 'field',expected=None if e is None else 'field')); ok=False; continue
        if g is None: continue
        ok&=ck.close(g,e,'field:'+key,lambda:dict(d(),query=kw,vs='reference'),rtol=1e-9,scale=1.)
        ok&=ck.close(g,f,'field:'+key,lambda:dict(d(),query=kw,vs='fresh turbine'),rtol=1e-9,scale=1.)
    return ok
def expand(init):
    def f(ck,it):
        hist,nd=it; out=[]
        for name,op in OPS.items():
            n2=apply_ref(nd,op,PERM[init]); W2=build(init,hist+(name,)); ck.trans()
            out.append((name,n2,fhash(W2)+n2.ref.key()))
        return out
    return f
def checker(init):
    def f(ck,it):
        hist,nd=it; ck.state()
        return check_state(ck,build(init,hist),nd,init,hist)
    return f
def run(ck):
    ck.level='model_checking'
    budget=12000 if ck.thorough else 4000
    plan=[('default',6 if ck.thorough else 3),('met',5 if ck.thorough else 3)]
    for init,maxd in plan:
        ref=Ref(**INIT[init][1]); last=None
        L=INIT[init][2]
        if L is not None: ref.load(L); last=(L,tuple(ref.U0),ref.Lambda)
        nd=Node(ref,last)
        seen={fhash(build(init,()))+ref.key()}; level=[((),nd)]; pmap(ck,checker(init),level)
        depth=0; trunc=False
        while level and depth<maxd and not trunc:
            new=[]
            for (hist,_),out in zip(level,pmap(ck,expand(init),level)):
                for name,n2,k in out or []:
                    if k in seen: continue
                    if len(seen)>=budget: trunc=True; break
                    seen.add(k); new.append((hist+(name,),n2))
            ok=pmap(ck,checker(init),new)
            level=[x for x,o in zip(new,ok) if o]     # a wrong state is reported and not expanded
            depth+=1
            if new: ck.sample({'initial':init,'first/last new histories':[new[0][0],new[-1][0]]})
        ck.extra['%s_depth'%init]=depth; ck.extra['%s_states'%init]=len(seen)
        ck.extra['%s_closed'%init]=not level      # no new state: every history of any length is covered
        if trunc: ck.extra['%s_truncated_at'%init]=depth; ck.exhaustive=False
    # long histories: every ordered pair of operations repeated, every operation repeated
    def long(init):
        def f(ck,it):
            hist,times=it; ref=Ref(**INIT[init][1]); last=None; L=INIT[init][2]
            if L is not None: ref.load(L); last=(L,tuple(ref.U0),ref.Lambda)
            nd=Node(ref,last); W=WindTurbine(**INIT[init][0]); ck.state()
            for h in hist*times: apply_real(W,OPS[h],PERM[init]); ck.trans()
            for h in hist*2: nd=apply_ref(nd,OPS[h],PERM[init])      # two rounds reach the final state of the reference
            check_state(ck,W,nd,init,('%d times:'%times,)+tuple(hist))
        return f
    n=60 if ck.thorough else 25
    for init,_ in plan:
        names=list(OPS); its=[((a,),4*n) for a in names]+[(p,n) for p in itertools.permutations(names,2) if ck.thorough or init=='default' or p[0]<p[1]]+[(tuple(names),n//2),(tuple(names[::-1]),n//2)]
        pmap(ck,long(init),its)
    def drift(ck,it):
        init,kinds=it; ref=Ref(**INIT[init][1]); last=None; L=INIT[init][2]; p=PERM[init]
        if L is None: L=Loading(Ct=.6)
        W=WindTurbine(**INIT[init][0]); W.update_loading(**L.kw()); ref.load(L); last=(L,tuple(ref.U0),ref.Lambda); ck.state()
        for i in range(4*n):
            if 'yaw' in kinds: W.update_yaw_pos(.037*i-1.2); ref.yaw=.037*i-1.2
            if 'pos' in kinds: q=[.02*i,1.+.003*i,-.01*i]; W.update_position(list(q)); ref.hub=np.array(q)
            if 'wind' in kinds: q=pv([3*np.sin(.11*i),.02*i,9.-.01*i],p); W.update_wind(list(q)); ref.U0=np.array(q,float)
            if 'load' in kinds: L=Loading(Ct=.2+.5*i/(4*n)) if i%2 else Loading(r=r3,Ct=np.array([.2,.7,.5+.3*i/(4*n),.1]),nCyl=3); W.update_loading(**L.kw()); ref.load(L); last=(L,tuple(ref.U0),ref.Lambda)
            if 'chi' in kinds: W.set_chi(.004*i-.3); ref.chi_user=.004*i-.3
            if 'query' in kinds: query(W,PTS+.01*i)
            ck.trans()
            if i%9==8 or i==4*n-1:
                if not check_state(ck,W,Node(ref,last),init,('%d different updates:'%(i+1),)+tuple(kinds)): return
    K=('yaw','pos','wind','load','chi','query'); pmap(ck,drift,[(init,c) for init,_ in plan for k in (1,2,6) for c in itertools.combinations(K,k)])
    ck.extra['long_histories']=n; ck.extra['operations']=list(OPS)
    ck.assumptions=['two objects with the same concrete content (every attribute, exact values, aliasing) behave the same']
