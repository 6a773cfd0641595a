"""Refused or failed updates leave the turbine/farm unchanged: enumeration of all faults at all points"""
import sys, os, itertools, warnings
import numpy as np
from common import pmap, fhash
from wt import WindTurbine, WindFarm, query, fquery
import checks.C02 as C02
same,observe=C02.same,C02.observe
class Boom(Exception): pass
class Seq:
    """ a sequence whose k-th access fails """
    def __init__(self,data,k): self.d=data; self.k=k; self.n=0
    def hit(self):
        self.n+=1
        if self.n==self.k: raise Boom()
    def __len__(self): self.hit(); return len(self.d)
    def __getitem__(self,i): self.hit(); return self.d[i]
    def __iter__(self):
        self.hit()
        for x in self.d:
            self.hit(); yield x
class Arr(Seq):
    """ an array-like whose k-th conversion fails """
    def __array__(self,*a,**k): self.hit(); return np.array(self.d,float)
class Num(float):
    """ a number whose k-th arithmetic operation fails """
    def __new__(cls,v,k): o=float.__new__(cls,v); o.c=[0,k]; return o
    def hit(self):
        self.c[0]+=1
        if self.c[0]==self.c[1]: raise Boom()
for _m in ('__mul__','__rmul__','__add__','__radd__','__sub__','__rsub__','__truediv__','__rtruediv__','__neg__','__float__','__lt__','__gt__','__le__','__ge__','__abs__','__pow__'):
    def _f(m):
        def g(self,*a): self.hit(); return getattr(float,m)(self,*a)
        return g
    setattr(Num,_m,_f(_m))
R=1.3
r5=np.array([.1,.4,.7,1.])*R; c5=np.array([.2,.8,.9,.3])
def boomf(c): raise Boom()
def mk(f): return f
VALID={
 'yaw':lambda W: W.update_yaw_pos(.4),'yaw-':lambda W: W.update_yaw_pos(-1.1),'wind':lambda W: W.update_wind([3.,0,7.]),'pos':lambda W: W.update_position([1.,2.,-3.]),
 'load1':lambda W: W.update_loading(Ct=.6),'load1s':lambda W: W.update_loading(Ct=.7,Lambda=6.),'load3s':lambda W: W.update_loading(r=r5.copy(),Ct=c5.copy(),Lambda=7.,nCyl=3),'loadG':lambda W: W.update_loading(r=r5.copy(),Gamma=3*c5,Lambda=6.,nCyl=2),'loadF':lambda W: W.update_loading(Ct=.5,gamma_t_Ct=lambda c:-2.*c),
 'coord':lambda W: W.set_yaw0_coord([1,0,0],[0,0,1]),'chi':lambda W: W.set_chi(.3),'query':lambda W: query(W,np.array([[.1,.2,-1.]])) if W.gamma_t is not None else None}
def bad_vectors():
    yield 'None',lambda: None; yield 'scalar',lambda: 3.; yield 'two',lambda: [1.,2.]; yield 'four',lambda: [1.,2.,3.,4.]; yield 'empty',lambda: []; yield 'ragged',lambda: [[1.,2.],[3.]]; yield 'nested4',lambda: np.zeros((2,2)); yield 'dict',lambda: {'x':1}; yield 'str',lambda: 'abc'
def failing():
    """ name -> (operation, must it raise?) : operations expected to be refused or to fail """
    out={}
    for k,v in bad_vectors():
        out['pos:'+k]=(lambda W,v=v: W.update_position(v()),True)
        out['wind:'+k]=(lambda W,v=v: W.update_wind(v()),True)
        out['coord1:'+k]=(lambda W,v=v: W.set_yaw0_coord(v(),[0,1,0]),True)
        out['coord2:'+k]=(lambda W,v=v: W.set_yaw0_coord([1.,0,0],v()),True)
    for k,v in (('None',None),('str','a'),('list',[1.,'b']),('object',object()),('dict',{})): out['yaw:'+k]=(lambda W,v=v: W.update_yaw_pos(v),True)
    U=lambda **k: (lambda W: W.update_loading(**{a:(b.copy() if isinstance(b,np.ndarray) else b) for a,b in k.items()}))
    out['load:none']=(U(),True); out['load:onlyLambda']=(U(Lambda=3.),True); out['load:r']=(U(r=r5,nCyl=3),True); out['load:nCylnone']=(U(nCyl=None),True); out['load:fun without Ct']=(U(gamma_t_Ct=lambda c:c),True); out['load:fun with Gamma']=(U(Gamma=3.,gamma_t_Ct=lambda c:c),True)
    out['load:fun without Ct n']=(U(r=r5,Gamma=c5,nCyl=3,gamma_t_Ct=lambda c:c,Lambda=4.),True)
    for n,L in ((1,None),(3,7.),(None,5.)): out['load:fun fails:%s'%n]=(U(r=r5,Ct=c5,nCyl=n,Lambda=L,gamma_t_Ct=boomf),True)
    out['load:no r']=(U(Ct=c5,nCyl=3,Lambda=9.),True); out['load:lengths']=(U(r=r5[:2],Ct=c5,nCyl=3,Lambda=9.),True); out['load:lengths none']=(U(r=r5[:2],Ct=c5,nCyl=None,Lambda=9.),False); out['load:Ct str']=(U(Ct='a',Lambda=9.),True); out['load:Ct strs']=(U(r=r5,Ct=['a']*4,nCyl=2,Lambda=9.),True)
    out['load:Lambda str']=(U(Ct=.4,Lambda='x'),True); out['load:Lambda list']=(U(Ct=.4,Lambda=[1,'a']),True); out['load:nCyl neg']=(U(r=r5,Ct=c5,nCyl=-2,Lambda=9.),True); out['load:nCyl zero']=(U(r=r5,Ct=c5,nCyl=0,Lambda=9.),False); out['load:nCyl str']=(U(r=r5,Ct=c5,nCyl='3',Lambda=9.),True); out['load:nCyl float']=(U(r=r5,Ct=c5,nCyl=2.5,Lambda=9.),False)
    out['load:fun str']=(U(Ct=.5,gamma_t_Ct='f',Lambda=4.),True); out['load:unknown']=(lambda W: W.update_loading(Ct=.4,foo=1),True); out['load:Gamma str']=(U(Gamma='q',Lambda=5.),True)
    for k,o in (('Model',dict(Model='XX')),('points',None)):
        if o is None: out['query:str']=(lambda W: W.compute_u('a','b','c'),True); out['query:shapes']=(lambda W: W.compute_u(np.zeros(3),np.zeros(2),np.zeros(3)),True)
        else: out['query:'+k]=(lambda W,o=o: W.compute_u(*np.ones((3,4)),**o) if W.gamma_t is not None and np.any(np.asarray(W.gamma_t,float)!=0) else (_ for _ in ()).throw(Boom()),True)
    return out
def conversions():
    """ name -> f(W,k): operation whose argument fails at its k-th use """
    out={}
    for cls in (Seq,Arr):
        n=cls.__name__
        out['pos:'+n]=lambda W,k,cls=cls: W.update_position(cls([1.,2.,3.],k))
        out['wind:'+n]=lambda W,k,cls=cls: W.update_wind(cls([1.,2.,3.],k))
        out['coord1:'+n]=lambda W,k,cls=cls: W.set_yaw0_coord(cls([1.,0.,0.],k),[0,0,1])
        out['coord2:'+n]=lambda W,k,cls=cls: W.set_yaw0_coord([1.,0.,0.],cls([0.,0,1],k))
        for nc in (1,3,None):
            out['Ct:%s:%s'%(n,nc)]=lambda W,k,cls=cls,nc=nc: W.update_loading(r=r5.copy(),Ct=cls(list(c5),k),nCyl=nc,Lambda=8.)
            out['r:%s:%s'%(n,nc)]=lambda W,k,cls=cls,nc=nc: W.update_loading(r=cls(list(r5),k),Ct=c5.copy(),nCyl=nc,Lambda=8.)
            if nc: out['Gamma:%s:%s'%(n,nc)]=lambda W,k,cls=cls,nc=nc: W.update_loading(r=r5.copy(),Gamma=cls(list(3*c5),k),nCyl=nc,Lambda=8.)
    out['Lambda:Num']=lambda W,k: W.update_loading(r=r5.copy(),Ct=c5.copy(),nCyl=3,Lambda=Num(8.,k))
    out['yaw:Num']=lambda W,k: W.update_yaw_pos(Num(.3,k))
    out['Ct:Num']=lambda W,k: W.update_loading(Ct=Num(.3,k),Lambda=9.)
    return out
HERE=None
def inject(f,k,files):
    """ runs f, raising at the k-th line executed in the given files (and what they call there); returns (raised, events) """
    n=[0]
    def loc(fr,ev,arg):
        if ev=='line':
            n[0]+=1
            if n[0]==k: raise Boom()
        return loc
    def tr(fr,ev,arg): return loc if fr.f_code.co_filename in files else None
    old=sys.gettrace(); sys.settrace(tr)
    try: f(); r=False
    except Exception: r=True
    finally: sys.settrace(old)
    return r,n[0]
def solver_files():
    import wiz
    d=os.path.dirname(wiz.__file__); return {os.path.join(d,f) for f in os.listdir(d) if f.endswith('.py') and f not in ('WindTurbine.py','WindFarm.py')}
LOADERS=lambda: {'Ct':lambda W: W.update_loading(Ct=.45,Lambda=8.),'Ctinf':lambda W: W.update_loading(Ct=.45,Lambda=np.inf),'Ct3':lambda W: W.update_loading(r=r5.copy(),Ct=.9*c5,Lambda=6.5,nCyl=3),'G3':lambda W: W.update_loading(r=r5.copy(),Gamma=2*c5,Lambda=6.5,nCyl=3),'Ctn':lambda W: W.update_loading(r=r5.copy(),Ct=.7*c5,Lambda=6.5,nCyl=None)}
def make(hist,lam=np.inf):
    W=WindTurbine(R=R,r_hub=[.1,1.2,-.3],U0=[.4,0.,8.],Lambda=lam,name='T')
    for h in hist: VALID[h](W)
    return W
def attempt(W,op):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try: op(W); return False
        except Exception: return True
def state(ck,it):
    """ all failing operations in one state, one after the other on the same object (unchanged as long as the property holds) """
    hist,lam=it; W=make(hist,lam); before=observe(W); bad=failing()
    d=lambda n: {'history':list(hist),'Lambda(ctor)':lam,'failing operation':n}
    for n,(op,must) in bad.items():
        X=W
        r=attempt(X,op); ck.case(1,int(r))
        if not r:
            if must and not (lam is None): ck.fail('accepted:'+n,d(n))
            W=make(hist,lam); continue
        if not same(ck,before,observe(X),n,d(n)): W=make(hist,lam)
    if lam is None and not any(h.endswith('s') or h=='loadG' for h in hist):
        X=make(hist,lam)
        for n,op in (('no Lambda',lambda W: W.update_loading(Ct=.4)),('no Lambda n',lambda W: W.update_loading(r=r5.copy(),Ct=c5.copy(),nCyl=3)),('no Lambda f',lambda W: W.update_loading(Ct=.4,gamma_t_Ct=lambda c:c))):
            ck.case(1); ck.expect(attempt(X,op),'accepted:'+n,d(n)); same(ck,before,observe(X),n,d(n))
def conv(ck,it):
    hist,name=it; f=conversions()[name]; W=make(hist); before=observe(W)
    for k in range(1,400):
        d={'history':list(hist),'operation':name,'fails at use':k}
        r=attempt(W,lambda X: f(X,k))
        if not r: break
        ck.case(1)
        if not same(ck,before,observe(W),'conversion:'+name,d): W=make(hist)
    else: ck.exhaustive=False
def inj(ck,it):
    hist,name=it; f=LOADERS()[name]; files=solver_files(); W=make(hist); before=observe(W)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        X=make(hist); _,n=inject(lambda: f(X),0,files)
        ks=list(range(1,n+1))
        if len(ks)>400 and not ck.thorough: ks=ks[:120]+ks[120:-120:7]+ks[-120:]          # bulk of the lines: iterations of the scalar minimisation
        for k in ks:
            d={'history':list(hist),'update':name,'error raised at solver line':k}
            r,_=inject(lambda: f(W),k,files); ck.case(1)
            if not r:                                             # recovered from: the update must then be complete
                X=make(hist); f(X); same(ck,observe(X),observe(W),'swallowed:'+name,d); W=make(hist); continue
            if not same(ck,before,observe(W),'solver:'+name,d): W=make(hist)
    ck.extra['max_fault_points']=max(ck.extra.get('max_fault_points',0),n)
def resume(ck,it):
    """ after a failure the work continues as if it had not been attempted """
    hist,name=it; op=failing()[name][0]
    for v in VALID:
        A,B=make(hist),make(hist); r=attempt(A,op)
        if not r: return
        VALID[v](A); VALID[v](B); ck.case(1); same(ck,observe(B),observe(A),'resume:'+name,{'history':list(hist),'failing operation':name,'next':v})
    # failures in a row
def farms(ck):
    P=np.array([[.3,.2,-1.],[1.5,-.4,2.],[.1,.5,3.]])
    def obs(F):
        o={'n':len(F),'layout':np.array(F.layout,float),'name':F.name,'ids':[id(w) for w in F],'str':F.tostring()}
        for i,w in enumerate(F):
            for k,v in observe(w).items(): o['%d:%s'%(i,k)]=v
        try: o['u']=fquery(F,P,U0=[0,0,3.])
        except Exception as e: o['u']=type(e).__name__
        return o
    for n in (0,1,2,3):
        for pre in itertools.product([(),('load1s',),('load3s','yaw')],repeat=n):
            F=WindFarm([make(h) for h in pre],name='F'); 
            for i,w in enumerate(F): w.update_position([i,2.*i,-i])
            b=obs(F); ops={}
            for k,v in (('str','a'),('None',None),('dict',{}),('farm',WindFarm([])),('class',WindTurbine),('list',[make(())])): ops['append:'+k]=lambda F,v=v: F.append(v)
            for k,s in (('more',(n+1,3)),('two',(n,2)),('four',(n,4)),('flat',(3*n,)),('3d',(1,n,3)),('T',(3,n)),('less',(n-1,3)),('scalar',())):
                if s==(n,3) or any(q<0 for q in s): continue
                ops['layout:'+k]=lambda F,s=s: setattr(F,'layout',np.ones(s))
            ops['layout:str']=lambda F: setattr(F,'layout','abc'); ops['layout:None']=lambda F: setattr(F,'layout',None)
            if n: ops['layout:ragged']=lambda F: setattr(F,'layout',[[1.,2.,3.]]*(n-1)+[[1.,2.]])
            if n and any(pre): ops['query:Model']=lambda F: F.velocity_field(*np.ones((3,2)),Model='XX')
            ops['query:str']=lambda F: F.velocity_field(*np.ones((3,2)),U0='a')
            for nm,op in ops.items():
                ck.case(1); ck.expect(attempt(F,op),'farm accepted:'+nm,{'farm':pre}); same(ck,b,obs(F),'farm:'+nm,{'farm':pre,'operation':nm})
            for cls in (Seq,Arr):
                F.layout=b['layout'].reshape(n,3)
                for k in range(1,200):
                    if not attempt(F,lambda F: setattr(F,'layout',cls([[9.,8.,7.]]*n,k))): break
                    ck.case(1); same(ck,b,obs(F),'farm:layout conversion',{'farm':pre,'fails at use':k})
def run(ck):
    ck.level='fault_enumeration'
    ck.rule='case = one failing operation (invalid argument; argument failing at its k-th use, all k; loading function failing; error raised at the k-th line executed by the wake-vorticity computation, all k) in one state; the observables (all settings, angles, rotor outline, description, flows under 4 query options) are compared before/after, and the following operation to the one of an unaffected twin; non-trivial = the operation did fail'
    ops=list(VALID); H1=[()]+[(o,) for o in ops]; H2=H1+[(a,b) for a in ops for b in ops if a!=b and 'query' not in (a,)]
    ck.sample({'history':['load1s','yaw'],'failing operation':'update_loading(Ct=.4, gamma_t_Ct=function which raises)'}); ck.sample({'history':[],'update':'Ct3','error raised at solver line':17})
    seen={}; 
    for h in H2: seen.setdefault(fhash(make(h)),h)
    hs=list(seen.values()); ck.extra['states']=len(hs)
    few=[(),('load1s','yaw'),('load3s','wind'),('loadF','coord')]
    pmap(ck,state,[(h,np.inf) for h in (hs if ck.thorough else hs[:len(H1)]+hs[len(H1)::3])]+[(h,None) for h in [(),('yaw',),('load1s','pos')]])
    pmap(ck,conv,[(h,n) for h in (hs[:40] if ck.thorough else few) for n in conversions()])
    pmap(ck,inj,[(h,n) for h in (few if ck.thorough else few[1:3]) for n in LOADERS()])
    pmap(ck,resume,[(h,n) for h in (few if ck.thorough else few[1:3]) for n in failing()])
    farms(ck)
