"""Farm flow = free stream + sum of the turbines"""
import numpy as np, itertools
from common import pmap
from wt import Ref, Loading, Refused, WindTurbine, WindFarm, query, fquery, away
R=1.5
r3=np.array([0,.4,.8,1])*R
CFG={ # ref settings, loading, yaw, wind
 'a':(dict(R=R,hub=(0,1.,0)),Loading(Ct=.6),0.,None),
 'b':(dict(R=.8*R,hub=(3.7,2.,1.)),Loading(r=r3*.8,Ct=np.array([.1,.8,.7,.3]),nCyl=3),.35,None),
 'c':(dict(R=R,hub=(-4.,1.5,6.)),Loading(Ct=.7,Lambda=6),-.3,(1.,0,9.)),
 'd':(dict(R=R,hub=(0.3,3.,-5.),Model='VCFF'),Loading(Ct=.5),0.,None),
 'e':(dict(R=1.3*R,hub=(5.,1.,-6.),Ground=True,Lambda=8.),Loading(r=r3*1.3,Ct=np.array([.2,.6,.7,.1]),nCyl=2),0.,None),
 'f':(dict(R=R,hub=(-6.,.5,-3.),Ground=True,Model='SS'),Loading(Ct=.4),0.,(0,0,5.)),
 'z':(dict(R=R,hub=(-9.,.5,4.)),Loading(Ct=0.),0.,None),
 'u':(dict(R=R,hub=(9.,.5,4.)),None,0.,None),           # not loaded
}
def mkref(n):
    k,L,yaw,U=CFG[n]; ref=Ref(**k)
    if U is not None: ref.U0=np.array(U,float)
    if L is not None: ref.load(L)
    ref.yaw=yaw; return ref
def mkwt(n):
    k,L,yaw,U=CFG[n]
    W=WindTurbine(R=k['R'],r_hub=list(k['hub']),Ground=k.get('Ground',False),Model=k.get('Model','VC'),Lambda=k.get('Lambda',np.inf),name=n)
    if U is not None: W.update_wind(list(U))
    if L is not None: W.update_loading(**L.kw())
    W.update_yaw_pos(yaw); return W
P=np.array([[.4,.7,-1.],[.3,1.2,2.3],[4.1,2.3,3.],[-4.3,1.,9.],[1.,-2.,7.],[12.,5,-9.],[-2.,1.3,-7.],[6.,2.,-3.9],[2.1,.2,-3.5],[-7,3.,1.]])
FAR=np.array([[3.,2.,-95.],[-120.,5.,-80.],[60.,400.,-30.],[200.,-10.,150.],[-2000.,1.,-500.]])
OPTS=[dict(),dict(no_wake=True),dict(U0=[1.,-2.,8.]),dict(U0=np.array([0.,0,0])),dict(U0=np.array([[1.],[2],[3]]),no_wake=True),dict(longi=True,root=True),dict(tang=False,root=True,U0=(3,2,1)),
      dict(ground=True),dict(ground=False,longi=True),dict(Model='VC'),dict(Model='VCFF',R_far_field=3.),dict(Model='VD'),dict(Model='VD',no_wake=True,U0=[0,0,9.]),dict(Model='SS',ground=True)]
def expected(names,opt,refs=None,pts=P):
    """ None: refused """
    opt=dict(opt); U0=opt.pop('U0',None); U=np.zeros(pts.shape)
    for i,n in enumerate(names):
        ref=refs[i] if refs is not None else REFS[n]
        try: U+=ref.u(pts,only_ind=True,**opt)
        except Refused: return None
    if U0 is not None: U=U+np.asarray(U0,float).ravel()
    return U
def got(F,opt,pts=P):
    try: return fquery(F,pts,**opt)
    except Exception: return None
def compare(ck,F,names,opt,key,detail,refs=None,pts=P):
    e=expected(names,opt,refs,pts); g=got(F,opt,pts); ck.case(1,int(len(names)>0))
    d=lambda: dict(detail,turbines=list(names),options={k:repr(v) for k,v in opt.items()})
    if (e is None)!=(g is None): ck.fail('refusal:'+key,dict(d(),got='refused' if g is None else 'field',expected='refused' if e is None else 'field')); return
    if e is None: return
    ck.close(g,e,key,d,rtol=1e-9,scale=1.)
    # same turbines queried alone
    o=dict(opt); U0=o.pop('U0',None)
    S=sum((query(W,pts,only_ind=True,**o) for W in list.__iter__(F)),np.zeros(pts.shape))
    if U0 is not None: S=S+np.asarray(U0,float).ravel()
    ck.close(g,S,key+':alone',d,rtol=1e-10,scale=1.)
REFS={n:mkref(n) for n in CFG}
def run(ck):
    ck.level='exploration'
    ck.rule='case = one farm query: every ordered selection of at most 3 turbines among 8 different ones (incl. unloaded, zero thrust, own model/ground/wind/yaw) x every option set, vs the sum of a reference model and vs the turbines queried alone; plus every sequence of farm operations up to the depth, queried after each; non-trivial = non-empty farm'
    sel=[s for k in range(0,4) for s in itertools.permutations(CFG,k)]
    sel+=[('a','a'),('b','a','b'),('e','e','e')]
    if not ck.thorough: sel=[s for s in sel if len(s)<3 or 'u' not in s]
    def f(ck,s):
        WT={n:mkwt(n) for n in set(s)}
        forms=[lambda: WindFarm([WT[n] for n in s])]
        def app():
            F=WindFarm(name='x')
            for n in s: F.append(WT[n])
            return F
        forms.append(app)
        for i,mk in enumerate(forms):
            F=mk()
            opts=OPTS if (len(s)<3 or ck.thorough) else OPTS[:8:2]+OPTS[10:12]
            for o in (opts if i==0 else opts[:3]): compare(ck,F,s,o,'farm',{'construction':i})
            if i==0 and len(s)<3:      # far from all turbines: on one side, and one point alone
                for Q in (FAR[:1],FAR[1:2],FAR): 
                    for o in (OPTS[0],OPTS[2],OPTS[5],OPTS[9]): compare(ck,F,s,o,'far',{'construction':i,'points':Q},pts=Q)
    pmap(ck,f,sel)
    # --- large farms
    def big(ck,it):
        n,m=it; k=[c for c in CFG if c!='u'][m%5:][:3]; Fm=WindFarm(); refs=[]; names=[]
        for i in range(n):
            q=k[i%len(k)]; h=np.array([(i%7)*9.-20.,1.+i%3,(i//7)*11.-5.]); W=mkwt(q); W.update_position(list(h)); Fm.append(W)
            r=mkref(q); r.hub=h; refs.append(r); names.append(q)
        pts=P+np.array([0,0,.37])
        for o in (OPTS[0],OPTS[2],OPTS[6]): compare(ck,Fm,names,o,'large',{'farm of':n},refs=refs,pts=pts)
    pmap(ck,big,[(n,m) for n in (5,9,13,20,33,60)+((150,) if ck.thorough else ()) for m in range(2)])
    ck.sample({'turbines':sel[60],'options':[repr(o) for o in OPTS[:4]]})
    # --- operation sequences
    M={'append_a':lambda F,N: (F.append(F.pool['a']),N.append('a')),'append_b':lambda F,N: (F.append(F.pool['b']),N.append('b')),
       'insert_c':lambda F,N: (F.insert(0,F.pool['c']),N.insert(0,'c')),'pop':lambda F,N: (F.pop(),N.pop()) if N else 0,'pop0':lambda F,N: (F.pop(0),N.pop(0)) if N else 0,
       'extend':lambda F,N: (F.extend([F.pool['e'],F.pool['a']]),N.extend(['e','a'])),'reverse':lambda F,N: (F.reverse(),N.reverse()),
       'set0':lambda F,N: (F.__setitem__(0,F.pool['c']),N.__setitem__(0,'c')) if N else 0,'clear':lambda F,N: (F.clear(),N.clear()),
       'move_a':('a',lambda W: W.update_position([1.,2.,3.]),lambda r: setattr(r,'hub',np.array([1.,2,3]))),
       'yaw_b':('b',lambda W: W.update_yaw_pos(-.2),lambda r: setattr(r,'yaw',-.2)),
       'load_a':('a',lambda W: W.update_loading(Ct=.9),lambda r: r.load(Loading(Ct=.9))),
       'wind_c':('c',lambda W: W.update_wind([0,0,4.]),lambda r: setattr(r,'U0',np.array([0,0,4.]))),
       'layout':None,'query':None}
    pts=P[:6]; depth=4 if ck.thorough else 3
    seqs=[s for k in range(1,depth+1) for s in itertools.product(M,repeat=k)] if not ck.thorough else [s for k in range(1,4) for s in itertools.product(M,repeat=k)]+[s for s in itertools.product(M,repeat=4) if s[0] in ('append_a','append_b','extend')]
    def g(ck,first):
        for s in first:
            F=WindFarm(); F.pool={n:mkwt(n) for n in 'abce'}; N=[]; refs={n:mkref(n) for n in 'abce'}
            for i,op in enumerate(s):
                m=M[op]
                if op=='query': got(F,dict(no_wake=True,U0=[1,2,3.]),pts); repr(F); F.layout
                elif op=='layout':
                    l=np.arange(3.*len(N)).reshape(-1,3)+1.; F.layout=l
                    for j,n in enumerate(N): refs[n].hub=l[j]
                elif callable(m): m(F,N)
                else: m[1](F.pool[m[0]]); m[2](refs[m[0]])
            compare(ck,F,N,dict(U0=[1.,0,2]),'history',{'operations':list(s)},refs=[refs[n] for n in N],pts=pts)
    # long histories: every pair of operations repeated on a farm of two turbines
    grow=('append_a','append_b','insert_c','extend')
    seqs+=[('append_a','append_b')+(x,y)*(6 if x in grow and y in grow else 40) for x in M for y in M]+[tuple(M)*12,tuple(M)[::-1]*12,('extend',)+('query',)*300]
    n=64; pmap(ck,g,[seqs[i::n] for i in range(n)])
    ck.extra['sequences']=len(seqs); ck.extra['depth']=depth; ck.sample({'operations':seqs[len(seqs)//2]})
    # --- only turbines
    for n in range(0,3):
        for bad in (None,1,'turbine',[mkwt('a')],WindFarm(),np.zeros(3),dict(R=1),object(),WindTurbine):
            F=WindFarm([mkwt(k) for k in 'ab'[:n]]); ck.case()
            try: F.append(bad); ok=False
            except Exception: ok=True
            ck.expect(ok and len(F)==n,'append:type',{'argument':repr(bad)[:60],'nWT':len(F)})
        class Sub(WindTurbine): pass
        F=WindFarm([mkwt(k) for k in 'ab'[:n]]); F.append(Sub(R=1.,Ct=.3)); ck.expect(F.nWT==n+1,'append:subclass',{})
