"""Concurrent flow queries: all schedules up to a preemption bound, on real threads under a controlled scheduler"""
import numpy as np, itertools
from common import pmap
import api, sched
from wt import WindTurbine, WindFarm, query, fquery
from checks.C02 import near
import wiz.Solver as SV, wiz.elliptic as EL, wiz.VortexPoint as VP, wiz.VortexLine as VL, wiz.VortexCylinderSkewed as SK, wiz.WindFarm as WF
A=np.array
r5=A([.1,.4,.7,1.]); c5=A([.3,.8,.9,.4])
P1=lambda: A([[.3,.2,-1.],[1.5,-.4,2.],[.1,.5,.7]]); P2=lambda: A([[-.7,.9,1.3],[2.2,.3,-.4]])
class World:
    """ shared turbines and farms """
    def __init__(self):
        W1=WindTurbine(R=1.,r_hub=[.1,1.5,-.3],U0=[1.,0.,8.],name='A'); W1.update_loading(Ct=.6,Lambda=7.); W1.update_yaw_pos(.3)
        W2=WindTurbine(R=1.2,r_hub=[3.,1.7,.4],U0=[0.,0.,9.],Ground=True,name='B'); W2.update_loading(r=1.2*r5,Ct=c5,nCyl=2,Lambda=6.)
        W3=WindTurbine(R=.9,r_hub=[-2.,1.2,0.],e_shaft_yaw0=[1,0,0],e_vert=[0,0,1],U0=[7.,0.,0.],Model='VCFF'); W3.update_loading(Ct=.4)
        W4=WindTurbine(R=1.1,r_hub=[0.,2.,2.],Model='SS'); W4.update_loading(Ct=.7)
        self.W=[W1,W2,W3,W4]; self.F=WindFarm([W1,W2],name='F'); self.G=WindFarm([W2,W3],name='G')
def queries():
    Q={'A':lambda w: query(w.W[0],P1()),
       'A:all ground':lambda w: query(w.W[0],P2(),only_ind=True,longi=True,root=True,ground=True),
       'A:VCFF no_wake':lambda w: query(w.W[0],P1(),Model='VCFF',only_ind=True,R_far_field=2.,no_wake=True),
       'A:VD':lambda w: query(w.W[0],P2(),Model='VD'),
       'A:free stream':lambda w: query(w.W[0],P2(),tang=False),
       'A:refused':lambda w: query(w.W[0],P2(),Model='SS',longi=True,root=True),
       'B':lambda w: query(w.W[1],P1(),only_ind=True,longi=True),
       'B:free':lambda w: query(w.W[1],P2(),ground=False),
       'C':lambda w: query(w.W[2],P2()),
       'D':lambda w: query(w.W[3],P1(),no_wake=True),
       'F':lambda w: fquery(w.F,P1(),U0=[1.,2.,3.]),
       'F:no_wake ground':lambda w: fquery(w.F,P2(),no_wake=True,ground=True),
       'G':lambda w: fquery(w.G,P2(),U0=[0,0,5.]),
       'A:read':lambda w: [w.W[0].tostring(short=False),np.array(w.W[0].rotor_disk_points(5)),w.W[0].chi,w.W[0].yaw_error,w.W[0].yaw_wind,repr(w.F),np.array(w.F.layout)],
       'grid':lambda w: WF.windfarm_gridlayout_CTconst(P2()[:,0],P2()[:,1],P2()[:,2],1.,.6,8.,2,4.,1,5.,1.,False)}
    return Q
def kernels():
    K={}
    for f in api.F:
        P=api.points(f.coords,1.); a,b,c=P[:,:5]; a2,b2,c2=P[:,5:9]*1.7
        K[f.name]=(lambda f=f,a=a,b=b,c=c: f.f(a.copy(),b.copy(),c.copy(),1.,1.),lambda f=f,a=a2,b=b2,c=c2: f.f(a.copy(),b.copy(),c.copy(),1.7,-.6))
    v=A([.2,.5,.9])
    for n,lam in (('inf',1000.),('swirl',6.)):
        K['FromCt:'+n]=(lambda lam=lam: SV.WakeVorticityFromCt(r5*.99,c5.copy(),1.,8.,lam*8.),lambda lam=lam: SV.WakeVorticityFromCt(r5[:2]*1.99,.5*c5[:2],2.,9.,(lam+2)*4.5))
        K['FromGamma:'+n]=(lambda lam=lam: SV.WakeVorticityFromGamma(r5*.99,3*c5,1.,8.,lam*8.),lambda lam=lam: SV.WakeVorticityFromGamma(r5[:2]*1.99,2*c5[:2],2.,9.,(lam+2)*4.5))
    K['ellipticPi']=(lambda: EL.ellipticPiCarlson(A([.1,.5,-2.,0.]),A([.3,.9,-1.,0.])),lambda: EL.ellipticPiCarlson(A([.7,-.5]),A([.2,.99])))
    K['Ct_cutoff']=(lambda: SV.Ct_const_cutoff(.8,.2,v.copy()),lambda: SV.Ct_const_cutoff(.5,.3,.5*v,.9))
    K['fK']=(lambda: [SK.fKxit(v.copy(),.3),SK.fKzt(v.copy(),.3)],lambda: [SK.fKxit(.5*v,-.2),SK.fKzt(.5*v,.5)])
    K['vl']=(lambda: VL.vl_semiinf_u(A([.3]),A([.2]),A([.1]),0.,.6,.8,2.,3,.5),lambda: VL.vl_semiinf_u(A([1.3,2.]),A([.2,.4]),A([.1,1.]),1.,0.,0.,-1.,2,.2))
    K['grid layout']=(lambda: WF.gridLayout(3,2.,2,1.,mirror=True,hub_height=3.),lambda: WF.gridLayout(2,1.,3,4.))
    K['turbine']=(lambda: _new(1.,.6,7.),lambda: _new(2.,.4,np.inf))
    return K
def _new(R,Ct,lam):
    W=WindTurbine(R=R,r_hub=[0,1.,0],Lambda=lam); W.update_loading(r=R*r5,Ct=Ct*c5,nCyl=2); W.update_yaw_pos(.2)
    return query(W,P2(),only_ind=True)
def outcome(f):
    try: return f()
    except Exception as e: return 'raises '+type(e).__name__
def eq(a,b): return near(a,b) if not (isinstance(a,str) or isinstance(b,str)) else a==b
class Explorer:
    def __init__(self,ck,key,ops,names,opcodes=False,visits=None):
        self.v=v=visits or (2 if ck.thorough else 1)
        self.ck,self.key,self.ops,self.names,self.opcodes=ck,key,[(lambda o=o: outcome(o)) for o in ops],names,opcodes
        self.ref=[outcome(o) for o in ops]; self.stalls=0; self.bad=False
        self.N=[sched.Run([o],[],opcodes,visits=v).run().count[0] for o in self.ops]
        ck.state(sum(self.N)); ck.extra['max_points']=max([ck.extra.get('max_points',0)]+self.N)
    def go(self,schedule,order=None):
        if self.stalls>10: self.ck.exhaustive=False; return
        r=sched.Run(self.ops,schedule,self.opcodes,order,self.v).run()
        if r.free: self.stalls+=1; self.ck.extra['blocked']=self.ck.extra.get('blocked',0)+1
        self.ck.trace(); self.ck.trans(r.total); self.ck.state(r.switches)
        for i,(a,b) in enumerate(zip(self.ref,r.res)):
            if r.exc[i] is not None or not eq(a,b):
                self.ck.fail(self.key,{'threads':self.names,'schedule (thread, steps), then to completion':schedule,'order':order,'thread':i,'sequential':a,'concurrent':repr(r.exc[i]) if r.exc[i] is not None else b}); self.bad=True; return
def points_of(n,maxn):
    """ scheduling points used for the first preemption: all when few """
    if n<=maxn: return range(1,n+1)
    return sorted(set(np.unique(np.round(np.linspace(1,n,maxn)).astype(int)).tolist()))
def run(ck):
    ck.level='model_checking'
    ck.rule=''
    Q=queries(); K=kernels(); th=ck.thorough
    ck.sample({'threads':['A:all ground','A:VCFF no_wake'],'schedule':[[0,57]],'meaning':'thread 0 is stopped before its 58th line in the library, thread 1 runs to completion, thread 0 resumes'})
    ck.assumptions.append('scheduling points: lines of the library (bytecodes in part of the thorough tier); numpy/scipy calls are atomic; at most one preemption for all pairs, two for the stated ones')
    # one preemption: thread 0 stopped at every point, thread 1 runs to completion
    def pb1(ck,it):
        kind,a,b,opc=it
        if kind=='Q': w=World(); ops=[lambda: Q[a](w),lambda: Q[b](w)]; key='%s|%s'%(a,b)
        else: ops=[K[a][0],K[b][1]]; key='kernels:%s|%s'%(a,b)
        e=Explorer(ck,key,ops,[a,b],opc)
        for k in range(1,e.N[0]):
            e.go([(0,k),(1,None)])
            if e.bad: return
        if kind=='Q':                                     # nothing left behind
            for n,f in Q.items(): ck.expect(eq(outcome(lambda: f(World())),outcome(lambda: f(w))),'after:'+key,{'threads':[a,b],'then':n})
    # two preemptions: thread 0 stopped at k0, thread 1 stopped at k1, thread 0 (or a third one) runs to completion
    def pb2(ck,it):
        kind,names,maxn,k0=it
        if kind=='Q': w=World(); ops=[(lambda a=a: Q[a](w)) for a in names]
        else: ops=[K[a][i%2] for i,a in enumerate(names)]
        e=Explorer(ck,'2:'+'|'.join(names),ops,list(names))
        if k0>=e.N[0]: return
        for k1 in points_of(e.N[1]-1,maxn):
            e.go([(0,k0),(1,k1)]+([(2,None)] if len(names)>2 else []),[0,1] if len(names)==2 else [1,0])
            if e.bad: return
    q=list(Q); heavy=('grid','F','F:no_wake ground','G')
    second=q if th else ['A:all ground','A:VCFF no_wake','F:no_wake ground','A:read']
    pairs=[('Q',a,b,False) for a in q for b in q if b in second or a.split(':')[0]==b.split(':')[0]]
    kk=[('K',a,a,False) for a in K]
    if th: kk+=[('K',a,b,False) for a in list(K)[::5] for b in list(K)[::7] if a!=b]
    pmap(ck,pb1,pairs+kk)
    if th: pmap(ck,pb1,[('Q',a,b,True) for a in q if a not in heavy for b in ('A:all ground','B')])
    m=60 if th else 12
    two=[('A','A:all ground'),('A:VCFF no_wake','A:all ground'),('B','B:free'),('A','F:no_wake ground')] if th else [('A','A:all ground'),('A:VCFF no_wake','B')]
    three=[('A','A:all ground','A:VCFF no_wake'),('F','B','A:VD'),('A','A','A')]
    its=[]
    for names in two+three:
        w=World(); n=sched.Run([lambda: Q[names[0]](w)],[]).run().count[0]
        its+=[('Q',names,m if len(names)==2 else (40 if th else 8),k) for k in points_of(n-1,m if len(names)==2 else (40 if th else 12))]
    pmap(ck,pb2,its)
