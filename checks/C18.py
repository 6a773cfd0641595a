"""Rotors with swirl: superposition relations of the discrete and continuous formulations"""
import numpy as np, itertools, warnings
from common import pmap
from wt import query, WindTurbine, Ref
import wiz.Solver as SV
AC=.34; CC=4*AC*(1-AC)
def a_of(c,corr=True): return (c-4*AC**2)/(4*(1-2*AC)) if (corr and c>CC) else (1-np.sqrt(1-c))/2
def discr(rcp,k,lamR,lam_cp_unit,corr=True):
    """ scalar recursion from the tip. k: dimensionless circulations, lamR: Omega*Rcyl/U0. returns a, Ct_eff """
    n=len(k); a=[0.]*n; ce=[0.]*n; rot=0.; last=0.
    for i in range(n-1,-1,-1):
        rot+=last                                        # pressure drop due to rotation: all annuli beyond the next one
        last=(k[i+1]/2)**2*(1/lamR[i]**2-1/lamR[i+1]**2) if i<n-1 else 0.
        ce[i]=k[i]*(1+k[i]/(4*lamR[i]**2))-rot
        a[i]=a_of(ce[i],corr)
    return np.array(a),np.array(ce)
def cyl_radii(rcp,R):
    if len(rcp)==1: return np.array([R])
    rc=[(rcp[i]+rcp[i+1])/2 for i in range(len(rcp)-1)]
    return np.array(rc+[rcp[-1]+(rcp[-1]-rcp[-2])/2])
def reference(rcp,Gam,rc,R,U0,Om,corr=True,tanind=True):
    """ everything from the total circulations Gam (of all blades) """
    n=len(Gam); k=Gam*Om/(np.pi*U0**2); lamR=Om*rc/U0
    a,ce=discr(rcp,k,lamR,None,corr)
    an=np.append(a[1:],0.); gt=-2*U0*(a-an); Gn=np.append(Gam[1:],0.)
    apc=(Gam+Gn)/(4*np.pi*Om*rc**2) if tanind else np.zeros(n)
    Vc=U0*(1-a-an)
    return dict(a=a,gamma_t=gt,a_prime=Gam/(4*np.pi*Om*rcp**2),h=2*np.pi*Vc/(Om*(1+apc)),gamma_l=(Gam-Gn)/(2*np.pi*rcp),Gamma_r=-Gam[0],Ct_eff=ce,Gamma_cp=Gam,r_cp=rcp)
VK=[0.,.25,.6,.85,1.1]
RB={1:[.995],2:[.35,.8],3:[.1,.5,.95],4:[.15,.4,.7,.97],5:[.05,.2,.5,.75,.99]}
SET=[(50.,7.,6.),(1.,10.,2.5),(.4,3.,12.),(80.,9.,19.5)]
def many(n,first):
    """ rotors of many annuli: all equal, each annulus different from its neighbours, one loaded annulus, decreasing """
    yield [first]*(n-1); yield [VK[(3*i)%len(VK)] for i in range(n-1)]
    for j in (0,n//2,n-2): yield [.8 if i==j else first for i in range(n-1)]
    yield np.linspace(first,.2,n)[1:].tolist()
def solver(ck,it):
    n,first,sets=it; rb=np.array(RB[n]) if n in RB else np.linspace(.05,.99,n)
    for rest in (itertools.product(VK,repeat=n-1) if n in RB else many(n,first)):
        k=np.array((first,)+tuple(rest))
        for (R,U0,Lam) in sets:
            Om=Lam*U0/R; rcp=rb*R; Gam=k*np.pi*U0**2/Om
            d=lambda: {'k':k,'r/R':rb,'R':R,'U0':U0,'Lambda':Lam}
            def one(key,out,w,tol=1e-9):
                gt,gl,Gr,m=out; ck.case(1,int(np.any(k!=0)))
                ck.close(gt,w['gamma_t'],key+':gamma_t',d,rtol=tol,scale=U0); ck.close(m['a'],w['a'],key+':a',d,rtol=tol,scale=1.)
                ck.close(m['a_prime'],w['a_prime'],key+':a_prime',d,rtol=tol,atol=1e-14); ck.close(m['h'],w['h'],key+':h',d,rtol=1e-8,scale=U0/Om)
                ck.close(gl,w['gamma_l'],key+':gamma_l',d,rtol=tol,scale=U0*1e-3); ck.close(float(np.ravel(Gr)[0]),float(w['Gamma_r']),key+':Gamma_r',d,rtol=tol,scale=U0*R*1e-3)
                ck.close(m['Gamma_cp'],w['Gamma_cp'],key+':Gamma_cp',d,rtol=tol,atol=1e-13*U0*R); ck.close(m['r_cp'],w['r_cp'],key+':r_cp',d,rtol=1e-13)
                # what is trailed by all annuli returns through the root vortex
                ck.close(float(np.ravel(Gr)[0])+float(np.sum(2*np.pi*rcp*gl)),0.,key+':closure',d,atol=1e-10*U0*R)
            rc=cyl_radii(rcp,R); w=reference(rcp,Gam,rc,R,U0,Om)
            if np.any(np.abs(w['Ct_eff']-CC)<1e-9): continue
            one('FromGamma',SV.WakeVorticityFromGamma(rcp.copy(),Gam.copy(),R,U0,Om),w)
            for nB in (1,3): one('Discr:nB%d'%nB,SV.WakeVorticityFromCirculation_Discr(rcp.copy(),Gam/nB,R,U0,Om,nB,True),w)
            one('Discr:notanind',SV.WakeVorticityFromCirculation_Discr(rcp.copy(),Gam.copy(),R,U0,Om,1,True,bTanInd_k=False),reference(rcp,Gam,rc,R,U0,Om,tanind=False))
            w2=reference(rcp,Gam,rc,R,U0,Om,corr=False) if np.all(w['Ct_eff']<.999) else None
            if w2 is not None: one('Discr:nocorr',SV.WakeVorticityFromCirculation_Discr(rcp.copy(),Gam.copy(),R,U0,Om,1,True,bHighThrustCorr=False),w2)
            r2=np.append(rcp[1:],1.03*R)*.97
            if n>1 and np.all(np.diff(r2)>0):
                w3=reference(rcp,Gam,r2,R,U0,Om)
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    one('Discr:r_cyl',SV.WakeVorticityFromCirculation_Discr(rcp.copy(),Gam.copy(),R,U0,Om,1,True,r_cyl=r2.copy()),w3)
            # inner annuli have no influence on the outer ones
            if n>1:
                for j in range(1,n):
                    G2=Gam.copy(); G2[:j]=.33*np.pi*U0**2/Om
                    o=SV.WakeVorticityFromGamma(rcp.copy(),G2,R,U0,Om); ck.case(1)
                    ck.close(o[3]['a'][j:],w['a'][j:],'outer only',d,rtol=1e-9,scale=1.)
            if n>1: cont(ck,k,rb,R,U0,Lam,Om,Gam,d)
def cont(ck,k,rb,R,U0,Lam,Om,Gam,d):
    lr=Lam*rb; ap=k/(4*lr**2); f=lr**2*ap**2/rb; n=len(k)
    crot=np.zeros(n)
    for i in range(n-2,-1,-1): crot[i]=crot[i+1]+8*(f[i]+f[i+1])/2*(rb[i+1]-rb[i])
    kj=k*(1+ap); ce=kj-crot
    if np.any(np.abs(ce-CC)<1e-9): return
    a=np.array([a_of(c) for c in ce])
    ga,gp,m=SV.InductionsFromCirculation_VC_Cont(rb.copy(),lr.copy(),k.copy(),True)
    ck.case(1); ck.close(ga,a,'Cont:a',d,rtol=1e-9,scale=1.); ck.close(gp,ap,'Cont:a_prime',d,rtol=1e-11,atol=1e-15)
    for q,wq in (('Ct_KJ',kj),('Ct_eff',ce),('Ct_rot',crot)): ck.close(m[q],wq,'Cont:'+q,d,rtol=1e-10,scale=1.)
    if np.all(ce<.999):
        g2,_,_=SV.InductionsFromCirculation_VC_Cont(rb.copy(),lr.copy(),k.copy(),True,bHighThrustCorr=False)
        ck.case(1); ck.close(g2,[a_of(c,False) for c in ce],'Cont:nocorr',d,rtol=1e-9,scale=1.)
    if np.all(k>0):
        Cq=np.linspace(.02,.05,n); g3,gp3,m3=SV.InductionsFromCirculation_VC_Cont(rb.copy(),lr.copy(),k.copy(),True,Cq=Cq)
        ck.case(1); ck.close(g3,a,'Cont:Cq:a',d,rtol=1e-9,scale=1.); ck.close(m3['k_Cq'],Cq*lr/(1-a),'Cont:Cq:k',d,rtol=1e-9); ck.close(gp3,Cq/(4*lr*(1-a)),'Cont:Cq:a_prime',d,rtol=1e-9)
    for sw in (True,False):
        r=rb*R; aa=a if sw else np.array([a_of(c) for c in k]); pp=ap if sw else 0*ap
        if np.any(np.abs(1-2*aa)<1e-3): continue
        if not sw and np.any(np.abs(k-CC)<1e-9): continue
        Vz=U0*(1-2*aa); h=2*np.pi*Vz/(Om*(1+2*pp)); Gt=Gam-np.append(Gam[1:],0)
        gt,gl,Gr,m=SV.WakeVorticityFromCirculation_Cont(r.copy(),Gam.copy(),R,U0,Om,sw); key='Cont:wake:%s:'%sw
        ck.case(1); ck.close(m['Vz'],Vz,key+'Vz',d,rtol=1e-9,scale=U0); ck.close(m['h'],h,key+'h',d,rtol=1e-7)
        ck.close(gt,-Gt/h,key+'gamma_t',d,rtol=1e-7,scale=U0*1e-3); ck.close(m['a'],aa,key+'a',d,rtol=1e-9,scale=1.); ck.close(m['a_prime'],pp,key+'a_prime',d,rtol=1e-9,atol=1e-14)
        ck.close(np.broadcast_to(gl,k.shape),Gt/(2*np.pi*r) if sw else 0*k,key+'gamma_l',d,rtol=1e-9,scale=U0*1e-3); ck.close(float(Gr),-Gam[0] if sw else 0.,key+'Gamma_r',d,rtol=1e-9,scale=U0*R*1e-3)
def k_of_ct(Ct,lam): return 0. if Ct<=0 or lam==0 else Ct*2/(1+np.sqrt(1+Ct/lam**2))
def circ(ck,it):
    Lam,Cts=it; rb=np.array([0.,.005,.05,.2,.45,.7,.9,1.])
    for Ct in Cts:
        vC=np.array(Ct); got=SV.CirculationFromPrescribedCt(rb.copy(),vC.copy(),Lam,True)
        want=np.array([k_of_ct(c,Lam*x) for c,x in zip(vC,rb)])
        ck.case(len(rb)); ck.close(got,want,'circulation of prescribed thrust',lambda: {'Ct':vC,'r/R':rb,'Lambda':Lam},atol=4e-5)
def turbine(ck,it):
    n,c,kind,(R,U0,Lam),frame,longi,root=it
    r=np.array({2:[.05,1.],3:[.1,.5,.95]}[n])*R; c=np.array(c); Om=Lam*U0/R
    from oracle import axis_frames
    es,ev=axis_frames()[frame]; hub=np.array([.3,-.2,.7])*R
    ref=Ref(R,hub=hub,es=es,ev=ev,U0=np.array(es)*U0,Lambda=Lam)
    rr,zz,tt=[q.ravel() for q in np.meshgrid([.13,.62,1.3],[-1.1,.3,6.],[.4,-2.])]
    P=np.column_stack((rr*np.cos(tt)*R,rr*np.sin(tt)*R,zz*R))@ref.T().T+hub
    for nCyl in (1,2,4,9)+((25,) if ck.thorough else ()):
        st=np.array([.995*R]) if nCyl==1 else np.linspace(.005,.995,nCyl)*R
        v=np.array([c.mean()]) if nCyl==1 else np.interp(st,r,c)
        if kind=='Ct': Gam=np.array([k_of_ct(x,Lam*s/R) for x,s in zip(v,st)])*np.pi*U0**2/Om; tol=6e-4
        else: Gam=v*np.pi*U0**2/Om; v=Gam; tol=1e-8
        w=reference(st,Gam,cyl_radii(st,R),R,U0,Om)
        if np.any(np.abs(w['Ct_eff']-CC)<(1e-3 if kind=='Ct' else 1e-9)): continue
        WT=WindTurbine(R=R,r_hub=list(hub),e_shaft_yaw0=list(es),e_vert=list(ev),U0=list(np.array(es)*U0))
        if kind=='Ct': WT.update_loading(r=r.copy(),Ct=c.copy(),Lambda=Lam,nCyl=nCyl)
        else: WT.update_loading(r=r.copy(),Gamma=c*np.pi*U0**2/Om,Lambda=Lam,nCyl=nCyl)
        rc=[R] if nCyl==1 else st
        ref.cyl=[(float(a),float(b),float(e)) for a,b,e in zip(rc,w['gamma_t'],w['gamma_l'])]; ref.Gamma_r=float(w['Gamma_r'])
        kw=dict(longi=longi,root=root)
        ck.case(1); ck.close(query(WT,P,**kw),ref.u(P,**kw),'turbine:%s:%s'%(kind,'single' if nCyl==1 else 'multi'),lambda: {'values':c,'r':r,'R':R,'U0':U0,'Lambda':Lam,'nCyl':nCyl,'frame':[es,ev],'longi':longi,'root':root},rtol=tol,scale=U0)
def run(ck):
    ck.level='exploration'
    ck.rule='case = one circulation assignment of {0,.25,.6,.85,1.1}^n (all combinations) x rotor x interface/option, one prescribed-thrust inversion, or one turbine loading; non-trivial = some circulation'
    nmax=5 if ck.thorough else 4
    pmap(ck,solver,[(n,v,SET if (n<=3 or ck.thorough) else SET[:1]) for n in range(nmax,0,-1) for v in VK]+[(n,v,SET[:2]) for n in (12,50) for v in (0.,.6,.85)])
    V=[-.2,0.,.01,.3,.8,1.1,1.4]
    full=[tuple(np.roll(np.resize(V,8),s)) for s in range(len(V))]+[tuple(np.roll(np.resize(V[::-1],8),s)) for s in range(len(V))]
    pmap(ck,circ,[(L,full if ck.thorough else full[::2]) for L in (.5,1.,2.,4.,6.,8.,10.,15.,19.9)])
    ts=[(n,c,kind,s,f,lo,ro) for n in (2,3) for c in itertools.product([0.,.4,.8],repeat=n) if any(c) for kind in ('Ct','Gamma') for s in (SET if ck.thorough else SET[:2] if n==2 else SET[3:]) for f in (0,16,5) for lo,ro in ((True,True),(False,True),(True,False),(False,False)) if ck.thorough or (f==16 or lo and ro)]
    pmap(ck,turbine,ts)
    # consistency of the two forms of the discrete relations (Eq. 28 and Eqs. 32-38) without high-thrust correction
    k=np.array([.3,.6,.6]); R,U0,Lam=50.,7.,6.; Om=Lam*U0/R; rcp=np.array([.1,.535,.97])*R; rc=cyl_radii(rcp,R); lam=Om*rc/U0
    o=SV.WakeVorticityFromCirculation_Discr(rcp.copy(),k*np.pi*U0**2/Om,R,U0,Om,1,True)
    b=1.; a=np.zeros(3)
    for i in (2,1,0):
        kn=k[i+1] if i<2 else 0.
        b=np.sqrt(b*b-(k[i]-kn)*(1+(k[i]+kn)/(4*lam[i]**2))); a[i]=(1-b)/2
    ck.case(1); ck.close(o[3]['a'],a,'Eq28:k=.3,.6,.6:r=.1,.535,.97:Lambda=6',{'k':k,'r/R':rcp/R,'Lambda':Lam,'a_eq28':a,'a':o[3]['a']},rtol=1e-9)
    ck.sample({'k':k,'a_code':o[3]['a'],'a_eq28':a})
