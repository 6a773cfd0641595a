"""No-swirl rotors: momentum theory per annulus, vorticity = drop of induction, stations of the cylinders"""
import numpy as np, itertools, warnings
from common import pmap
from oracle import cyl_tang
from wt import query, WindTurbine
import wiz.Solver as SV
AC=.34; CC=4*AC*(1-AC)
def a_mom(Ct,corr=True):
    Ct=np.asarray(Ct,float); out=np.empty(Ct.shape)
    for i,c in np.ndenumerate(Ct):
        out[i]=(c-4*AC**2)/(4*(1-2*AC)) if (corr and c>CC) else (1-np.sqrt(1-c))/2
    return out
VALS=[0.,-.2,.3,.75,CC-1e-9,CC+1e-6,.95,1.15]
RADII={1:[.995],2:[.3,.8],3:[.2,.5,.95],4:[.005,.335,.665,.995],5:[.1,.2,.5,.75,.99]}
SET=[(50.,7.,np.inf),(1.,10.,20.),(.3,.5,200.),(63.,11.,35.)]      # R,U0,Lambda
def ref(Ct,U0,corr=True):
    a=a_mom(Ct,corr); return a,-2*U0*(a-np.append(a[1:],0))
def many(n,first):
    """ rotors of many annuli: all equal, each annulus different from its neighbours, one loaded annulus, decreasing """
    yield [first]*(n-1); yield [VALS[(3*i)%len(VALS)] for i in range(n-1)]
    for j in (0,n//2,n-2): yield [.8 if i==j else first for i in range(n-1)]
    yield np.linspace(first,.2,n)[1:].tolist()
def solver(ck,it):
    n,first,sets,corrs=it; th=ck.thorough
    rb=np.array(RADII[n]) if n in RADII else np.linspace(.01,.99,n)
    for rest in (itertools.product(VALS,repeat=n-1) if n in RADII else many(n,first)):
        Ct=np.array((first,)+tuple(rest))
        for (R,U0,Lam) in sets:
            a,g=ref(Ct,U0); Om=Lam*U0/R
            d=lambda: {'Ct':Ct,'r/R':rb,'R':R,'U0':U0,'Lambda':Lam}
            def one(key,out,a=a,g=g,tol=1e-9):
                gt,gl,Gr,m=out
                ck.case(1,int(np.any(Ct!=0)))
                ck.close(gt,g,key+':gamma_t',d,rtol=tol,scale=U0); ck.close(m['a'],a,key+':a',d,rtol=tol,scale=1.)
                ck.close(m['a_prime'],0*a,key+':a_prime',d,atol=1e-15)
                ck.expect(gl is None and Gr is None,key+':swirl components',d)
                # vorticities outside a radius add up to the wake deficit
                ck.close(np.cumsum(np.asarray(gt,float)[::-1])[::-1],-2*U0*a,key+':sum',d,rtol=tol,scale=U0)
            # 1e-9 from the switch between the two branches the result may take either: they agree there to 1e-9
            one('FromCt',SV.WakeVorticityFromCt(rb*R,Ct.copy(),R,U0,Om),tol=2e-9)
            Of=800*U0/R if np.isinf(Lam) else Om
            Gam=Ct*np.pi*U0**2/Of
            one('FromGamma',SV.WakeVorticityFromGamma(rb*R,Gam.copy(),R,U0,Om),tol=2e-9)
            ck.close(SV.CirculationFromPrescribedCt(rb.copy(),Ct.copy(),Lam,False),Ct,'k=Ct',d)
            for nB in (1,3):
                for tk in (True,False):
                    one('Discr:nB%d:%s'%(nB,tk),SV.WakeVorticityFromCirculation_Discr(rb*R,Gam/nB,R,U0,Of,nB,False,bTanInd_k=tk),tol=2e-9)
            if np.all(Ct<1):
                a2,g2=ref(Ct,U0,False)
                one('Discr:nocorr',SV.WakeVorticityFromCirculation_Discr(rb*R,Gam.copy(),R,U0,Of,1,False,bHighThrustCorr=False),a2,g2,tol=2e-9)
            if n>1:
                o=SV.WakeVorticityFromCirculation_Discr(rb*R,Gam.copy(),R,U0,Of,1,False,r_cyl=np.append(rb[1:],1.02)*R); one('Discr:r_cyl',o,tol=2e-9)
                ac,apc,mc=SV.InductionsFromCirculation_VC_Cont(rb.copy(),Of*rb*R/U0,Ct.copy(),False)
                ck.case(1); ck.close(ac,a,'Cont:a',d,rtol=2e-9,scale=1.); ck.close(apc,0*a,'Cont:a_prime',d,atol=1e-15)
                ck.close(mc['Ct_eff'],Ct,'Cont:Ct_eff',d,rtol=1e-12,scale=1.)
        # independence of the annuli: checked against the formula of the annulus alone above, whatever the other values
def stations(nCyl,R): return np.array([.995*R]) if nCyl==1 else np.linspace(.005,.995,nCyl)*R
def turbine(ck,it):
    kind,n,Ct,U0,R,Lam,hub=it
    r=np.array({2:[0.,1.],3:[.1,.45,.9],5:[0.,.2,.5,.8,1.]}[n])*R; Ct=np.array(Ct)
    U=np.array([0,0,1.])*U0
    rr,zz=[c.ravel() for c in np.meshgrid([0.,.31,.62,1.2],[-1.3,.017,.9,40.])]
    P=np.column_stack((rr*np.cos(.7)*R,rr*np.sin(.7)*R,zz*R))+hub
    def check(WT,rc,g,key,d,tol=1e-8):
        want=np.zeros(P.shape); want[:,2]=U0
        for R_,g_ in zip(rc,g):
            ur,uz=cyl_tang(rr*R,zz*R,g_,R_)
            want+=np.column_stack((ur*np.cos(.7),ur*np.sin(.7),uz))
        ck.case(1,int(np.any(np.array(g)!=0))); ck.close(query(WT,P),want,key,d,rtol=tol,scale=U0)
    for nCyl in (1,2,3,5,8)+((21,) if ck.thorough else ())+((60,) if n==5 and U0==10. else ())+(None,):
        if nCyl is None: st,c=r,Ct; rc=r
        else:
            st=stations(nCyl,R); rc=np.array([R]) if nCyl==1 else st
            c=np.array([Ct.mean()]) if nCyl==1 else np.array([np.interp(s,r,Ct) for s in st])
        if nCyl is None and r[0]==0: continue       # a cylinder of zero radius is not a cylinder
        for how in (('Ct','ctor','fun') if kind=='Ct' else ('Gamma',)):
            if nCyl is None and how in ('Gamma',): continue
            d=lambda: {'how':how,'nCyl':nCyl,'r':r,'Ct':Ct,'U0':U0,'R':R,'Lambda':Lam}
            f=None
            a,g=ref(c,U0)
            if how=='ctor':
                if nCyl!=1: continue
                WT=WindTurbine(R=R,r_hub=list(hub),U0=list(U),Lambda=Lam,Ct=Ct.copy()); 
            else:
                WT=WindTurbine(R=R,r_hub=list(hub),U0=list(U))
                if how=='Ct': WT.update_loading(r=r.copy(),Ct=Ct.copy(),Lambda=Lam,nCyl=nCyl)
                elif how=='fun':
                    f=lambda q: -1.3*np.asarray(q)-.05*U0; g=f(c)
                    WT.update_loading(r=r.copy(),Ct=Ct.copy(),Lambda=Lam,nCyl=nCyl,gamma_t_Ct=f)
                else:
                    Of=(800 if np.isinf(Lam) else Lam)*U0/R
                    WT.update_loading(r=r.copy(),Gamma=Ct*np.pi*U0**2/Of,Lambda=Lam,nCyl=nCyl)
            check(WT,rc,g,'turbine:%s:%s'%(how,'none' if nCyl is None else 'single' if nCyl==1 else 'multi'),d)
def misc(ck):
    rb=np.linspace(0.,1.,21)
    for CT0,cut,tip in itertools.product([0.,.4,.95,1.2],[0.,.11,.5],[None,.7,.9]):
        for x in (rb,rb[::-1],rb[3:4],rb[::3]):
            want=np.array([CT0*(v/cut if v<cut else ((1-v)/(1-tip) if tip is not None and v>tip else 1.)) for v in x])
            got=SV.Ct_const_cutoff(CT0,cut,x.copy(),tip) if tip is not None else SV.Ct_const_cutoff(CT0,cut,x.copy())
            ck.case(x.size); ck.close(got,want,'Ct_const_cutoff',lambda: {'CT0':CT0,'cut':cut,'tip':tip,'x':x},rtol=1e-12,scale=1.)
    for Ct,Cq in itertools.product(itertools.product([0.,.5,.89],repeat=2),itertools.product([0.,.05,.2],repeat=2)):
        x=np.array([.3,.9]); Ct=np.array(Ct); Cq=np.array(Cq)
        for Lam,sw in itertools.product([2.,7.],[True,False]):
            a,ap=SV.InductionsFromPrescribedCtCq_ST(x.copy(),Ct.copy(),Cq.copy(),Lam,sw); wa=(1-np.sqrt(1-Ct))/2
            d=lambda: {'Ct':Ct,'Cq':Cq,'Lambda':Lam,'swirl':sw}
            ck.case(2); ck.close(a,wa,'ST:a',d,rtol=1e-12,scale=1.); ck.close(np.broadcast_to(ap,(2,)),Cq/(4*(1-wa)*Lam*x) if sw else 0*x,'ST:a_prime',d,rtol=1e-12,scale=1.)
def run(ck):
    ck.level='exploration'
    ck.rule='case = one thrust assignment of {0,.3,.75,below/above the critical thrust,.95,1.15}^n (n annuli, all combinations) x rotor x interface, or one turbine loading x station count; non-trivial = some annulus loaded'
    nmax=5 if ck.thorough else 4
    items=[(n,v,SET if (n<=3 or ck.thorough) else SET[:1],True) for n in range(1,nmax+1) for v in VALS]
    items+=[(n,v,SET[1:3],True) for n in (12,40,150)+((400,) if ck.thorough else ()) for v in (0.,.3,.95)]
    pmap(ck,solver,items[::-1])
    ts=[]
    V=[0.,.4,.85,.93]
    for n in (2,3):
        for Ct in itertools.product(V,repeat=n):
            for kind in ('Ct','Gamma'):
                for k,(R,U0,Lam) in enumerate(SET if (ck.thorough or n==2) else SET[:2]): ts.append((kind,n,Ct,U0,R,Lam,np.array([0.,0.,0.]) if k%2 else np.array([3.,-2.,5.])*R))
    for Ct in [(0.,.8,.8,.8,0.),(.2,.9,1.1,.5,.1),(1.2,1.2,1.2,1.2,1.2)]:
        for kind in ('Ct','Gamma'):
            for (R,U0,Lam) in SET: ts.append((kind,5,Ct,U0,R,Lam,np.zeros(3)))
    pmap(ck,turbine,ts)
    misc(ck)
    ck.extra['annuli_max']=nmax; ck.extra['thrust_values']=len(VALS)
    ck.sample({'Ct':[.3,.95,0],'a':a_mom([.3,.95,0.])})
