"""No memory of previous calls: explicit-state search over the state of the library, and all short call sequences, vs fresh processes"""
import os, pickle, itertools, sys, types, hashlib, warnings, io, contextlib, inspect
import numpy as np
from common import pmap, freeze
import api
from wt import WindTurbine, WindFarm, query, fquery
from checks.C02 import near
import wiz.Solver as SV, wiz.elliptic as EL, wiz.VortexPoint as VP, wiz.VortexLine as VL, wiz.VortexCylinderSkewed as SK, wiz.WindFarm as WF, wiz.VortexCylinder as VC, wiz.VortexRing as VR, wiz.VortexDoublet as DB, wiz.SelfSimilar as SS, wiz.plotting_functions as PF
A=np.array
BUF={}
def buf(tag,v):
    """ caller's array re-used from one call to the next (content overwritten) """
    v=np.asarray(v,float); b=BUF.setdefault((tag,v.shape),np.empty(v.shape)); b[...]=v; return b
# ---------------------------------------------------------------- the calls
def family(f):
    """ variants of one velocity function: other points of the same shape, other scale, other intensity, shapes, none, failing """
    P=api.points(f.coords,1.); X=P[:,:6]; Y=P[:,6:12]
    def c(X,L=1.,s=1.): return lambda: f.f(buf('1',X[0]*(L if f.coords[0]!='r' or 1 else 1)),buf('2',X[1]*(L if f.coords=='xyz' else 1.)),buf('3',X[2]*L),L,s)
    return [c(X),c(Y),c(X,1.3),c(X,1.,-.4),c(X,1.3,0.),c(X[:,:4].reshape(3,2,2)),c(X[:,:1]),c(X[:,:0]),
            lambda: f.f('a','b','c',1.,1.),lambda: f.f(A([1.,2.]),A([1.,2.,3.]),A([1.,2.,3.]),1.,1.),lambda: f.f(A([np.nan,.3]),A([.1,.2]),A([.2,-.4]),1.,1.)]
def others():
    """ families of calls of the other functions and of objects """
    o={}
    r=A([.1,.4,.7,.95]); c1=A([.3,.8,.9,.4]); c2=A([.5,.6,.2,.95]); r6=A([.1,.3,.5,.7,.9,1.]); c6=A([.4,.95,.91,1.1,.93,.2]); v=A([.1,.45,.8])
    for n,lam in (('noswirl',1000.),('swirl',6.),('mid',12.)):
        o['FromCt:'+n]=[lambda lam=lam: SV.WakeVorticityFromCt(buf('r',r),buf('c',c1),1.,8.,lam*8.),lambda lam=lam: SV.WakeVorticityFromCt(buf('r',r),buf('c',c2),1.,8.,lam*8.),lambda lam=lam: SV.WakeVorticityFromCt(buf('r',2*r),buf('c',c1),2.,8.,lam*4.),lambda lam=lam: SV.WakeVorticityFromCt(buf('r',r),buf('c',c1),1.,5.,lam*5.),lambda lam=lam: SV.WakeVorticityFromCt(buf('r',r[1:]),buf('c',c1[1:]),1.,8.,lam*8.),lambda lam=lam: SV.WakeVorticityFromCt(A([.995]),A([.7]),1.,8.,lam*8.),lambda lam=lam: SV.WakeVorticityFromCt(buf('r',r),A([.3]),1.,8.,lam*8.),lambda lam=lam: SV.WakeVorticityFromCt(buf('r6',r6),buf('c6',c6),1.,8.,lam*8.),lambda: SV.WakeVorticityFromCt('a',c1,1.,8.,9.)]
        o['FromGamma:'+n]=[lambda lam=lam: SV.WakeVorticityFromGamma(buf('r',r),buf('c',3*c1),1.,8.,lam*8.),lambda lam=lam: SV.WakeVorticityFromGamma(buf('r',r),buf('c',3*c2),1.,8.,lam*8.),lambda lam=lam: SV.WakeVorticityFromGamma(buf('r',2*r),buf('c',3*c1),2.,8.,lam*4.),lambda lam=lam: SV.WakeVorticityFromGamma(buf('r',r[1:]),buf('c',3*c1[1:]),1.,9.,lam*8.),lambda: SV.WakeVorticityFromGamma(r,None,1.,8.,9.)]
        o['Discr:'+n]=[(lambda lam=lam,k=k,h=h: SV.WakeVorticityFromCirculation_Discr(buf('r',r),buf('c',2*c1),1.,8.,lam*8.,nB=k,bSwirl=lam<20,bHighThrustCorr=h)) for k in (1,3) for h in (True,False)]+[lambda lam=lam: SV.WakeVorticityFromCirculation_Cont(buf('r',r),buf('c',2*c1),1.,8.,lam*8.,bSwirl=lam<20)]
        o['Circ:'+n]=[lambda lam=lam,c=c,s=s: SV.CirculationFromPrescribedCt(buf('r',r*s),buf('c',c),lam,lam<20) for c in (c1,c2) for s in (1.,.7)]
        o['Induct:'+n]=[lambda lam=lam,k=k,h=h: SV.InductionsFromCirculation_VC_Cont(buf('r6',r6),buf('l6',lam*r6),buf('c6',k*c6),lam<20,bHighThrustCorr=h) for k in (1.,.6) for h in (True,False)]+[lambda lam=lam,k=k: SV.InductionsFromPrescribedCtCq_ST(buf('r6',r6),buf('c6',k*c6),buf('q6',.1*k*c6),lam,lam<20) for k in (1.,.6)]+[lambda lam=lam: SV.WakeVorticityFromCirculation_Cont(buf('r6',r6),buf('c6',2*c6),1.,8.,lam*8.,bSwirl=lam<20)]
    o['ellipticPi']=[lambda: EL.ellipticPiCarlson(buf('n',[.1,.5,-2.,0.]),buf('m',[.3,.9,-1.,0.])),lambda: EL.ellipticPiCarlson(buf('n',[.2,.5,-1.,.7]),buf('m',[.3,.1,-1.,.99])),lambda: EL.ellipticPiCarlson(.3,.4),lambda: EL.ellipticPiCarlson(.3,.6),lambda: EL.ellipticPiCarlson(.5,.4),lambda: EL.ellipticPiCarlson(A([.3]),A([2.])),lambda: EL.ellipticPiCarlson('a',.2),lambda: EL.ellipticPiCarlson(A([np.nan,.2]),A([.1,.3])),lambda: EL.ellipticPiCarlson(A([]),A([]))]
    o['cutoff']=[lambda: SV.Ct_const_cutoff(.8,.2,buf('v',v)),lambda: SV.Ct_const_cutoff(.5,.2,buf('v',v)),lambda: SV.Ct_const_cutoff(.8,.5,buf('v',v)),lambda: SV.Ct_const_cutoff(.8,.2,buf('v',v*.9),.9),lambda: SV.Ct_const_cutoff(.8,.2,None)]
    o['fK']=[lambda m=m,q=q: [SK.fKxit(buf('v',v*q),m)]+([SK.fKzt(buf('v',v*q),m,6)] if m else []) for m in (.3,-.3,.05,0.) for q in (1.,.7)]+[lambda: SK.fKzt(v,0.),lambda: SK.fKxit('a',.1)]
    o['vl']=[lambda vm=vm,h=h,g=g: VL.vl_semiinf_u(buf('a',[.3,1.]),buf('b',[.2,.4]),buf('c',[.1,.6]),0.,.6,.8,g,vm,h) for vm in range(6) for h in (.5,.2) for g in (2.,)]+[lambda: VL.vl_semiinf_u(buf('a',[.3,1.]),buf('b',[.2,.4]),buf('c',[.1,.6]),1.,0.,0.,2.,1,.5)]
    o['grid']=[lambda: WF.gridLayout(3,2.,2,1.,mirror=True,hub_height=3.),lambda: WF.gridLayout(3,2.,2,1.,mirror=False,hub_height=3.),lambda: WF.gridLayout(2,1.,3),lambda: WF.gridLayout(2,1.,3,4.),lambda: WF.gridLayout('a',1,2),lambda: WF.windfarm_gridlayout_CTconst(A([.5,3.]),A([.2,.9]),A([-2.,1.]),1.,.6,8.,2,4.,2,5.,1.,True),lambda: WF.windfarm_gridlayout_CTconst(A([.5,3.]),A([.2,.9]),A([-2.,1.]),1.,.4,8.,2,4.,1,5.,0.,False)]
    o['cmap']=[lambda a=a,b=b,al=al: A(PF.get_cmap(a,b,alpha=al)[0](np.arange(0,256,15))) for a,b in ((.5,1.1),(.2,1.4)) for al in (1,.5)]+[lambda: A(PF.make_colormap([(0,0,0),(1,1,1)])(np.arange(0,256,50)))]
    P=A([[.3,.2,-1.],[1.5,-.4,2.],[.1,.5,.7]])
    def T(R=1.,Ct=.6,lam=np.inf,yaw=0.,n=1,hub=1.,U=8.,q={},model='VC',ground=False,es=None,P=P):
        def f():
            k=dict(e_shaft_yaw0=es[0],e_vert=es[1]) if es else {}
            W=WindTurbine(R=R,r_hub=buf('hub',[0.,hub,0.]),U0=buf('U',[0.,0.,U]),Model=model,Ground=ground,Lambda=lam,**k)
            W.update_loading(r=buf('wr',R*r),Ct=buf('wc',Ct*c1/c1.max()),nCyl=n) if n>1 else W.update_loading(Ct=Ct)
            W.update_yaw_pos(yaw)
            return [query(W,P,**q),W.gamma_t,W.rotor_disk_points(4),W.yaw_error,W.chi]
        return f
    o['turbine']=[T(),T(R=1.2),T(Ct=.3),T(lam=6.,q=dict(longi=True,root=True)),T(lam=8.,q=dict(longi=True,root=True)),T(yaw=.3),T(yaw=-.2),T(n=3),T(n=3,lam=6.,q=dict(longi=True)),T(n=2,yaw=.3),T(hub=2.,ground=True),T(hub=1.,ground=True),T(U=5.),T(q=dict(Model='VCFF',R_far_field=2.)),T(q=dict(Model='VCFF',R_far_field=3.)),T(q=dict(Model='VD')),T(model='SS'),T(q=dict(no_wake=True,only_ind=True)),T(es=([1,0,0],[0,0,1])),T(es=([0,1,0],[1,0,0]),yaw=.2),T(model='XX'),T(Ct='a'),T(yaw=.3,model='VD'),T(P=P[:2]),T(P=P[::-1]),
        lambda: WindTurbine(R=1.).compute_u(A([1.]),A([1.]),A([1.])),lambda: fquery(WindFarm([]),P,U0=[1,2,3.]),lambda: fquery(WindFarm(),P),lambda: len(WindFarm()),lambda: [WindTurbine(R=1.).name,A(WindTurbine(R=1.).r_hub)],lambda: WindFarm().append(3)]
    from wiz.article_blockage import helper_functions as H; u=P.T
    o['setupModel']=[lambda a=a: [q for q in H.setupModel(**dict(dict(CT=.6,HH=1.5,Lambda=np.inf,Horizontal=True,Yaw=-20),**a)).fU(*[v.copy() for v in u])] for a in ({},dict(CT=.5),dict(HH=2.),dict(HH=9999),dict(Yaw=0),dict(Yaw=10),dict(Yaw=0,Model='SS'),dict(Yaw=0,Model='VD'),dict(U0=3.),dict(gamma_t=-.3),dict(Lambda=6.),dict(CT='a'))]
    o['text']=[lambda k=k,n=n,s=s: [WindFarm([WindTurbine(R=1.,Ct=.5,name=n,**k)],name=n).tostring(short=s),WindTurbine(R=1.,**k).tostring(short=s)] for k in ({},dict(r_hub=[1,2,3.]),dict(r_hub=[1,2,3.0001]),dict(U0=[1.,0,9]),dict(U0=[1.,0,9.001])) for n in ('','a') for s in (True,False)][:14]
    def farm(ops):
        F=WindFarm()
        for k in ops:
            if k=='l': F.layout=F.layout+1.
            else: F.append(WindTurbine(R=1.,r_hub=[k,0,2.],Ct=.5))
        return [len(F),A(F.layout),fquery(F,P,U0=[1.,2,3.]),F.tostring()]
    o['farm']=[lambda q=q: farm(q) for q in ([1.],[1.,1.],[1.,1.001],[1.,4.,'l'],[4.,1.],['l',1.,'l'],[1.,'x'])]
    # data of the articles (files of the working directory)
    def pl(f,*a,HH=1.5,hor=True,i=True):
        Q=H.loadPlane(.4,HH,np.inf,hor,0)
        if i: Q.setupInterpolants()
        return getattr(Q,f)(*a)
    pts=[A([.3,.5]),A([.1,.2]),A([.2,-1.])]
    o['planes']=[lambda f=f,k=k,h=h: pl(f,*[v*(1+k) for v in pts],hor=h) for f in ('fU','fW') for k in (0.,1e-3,.3) for h in (True,False)]+[lambda z=z,f=f: pl(f,A([.3,.7,-1.])*z) for z in (1.,1.001,.5) for f in ('fAxial','fRadial')]+[lambda hh=hh,f=f: pl(f,A([.3,.7,-1.]),HH=hh) for hh in (1.5,9999) for f in ('fAxial','fRadial')]+[lambda: pl('fCenter'),lambda: pl('fU',*pts,HH=2.),lambda: pl('fU',*pts,i=False)]
    def er(**k):
        return H.getModelsRelErr(**dict(dict(angles=A([0.,.4]),Roffsets=A([0.,.3]),rho=A([-1.4,-2.5]),UseRho=True,CT=.4,Models=[{'name':'VC'},{'name':'SS'}],MatchMidVel=False,HH=1.5,Lambda=np.inf,Yaw=0,Horizontal=True),**k))
    o['errors']=[lambda k=k: er(**k) for k in ({},dict(angles=A([0.,.41])),dict(rho=A([-1.4,-2.501])),dict(UseRho=False),dict(UseRho=False,Roffsets=A([0.,.31])),dict(Models=[{'name':'VC'}]),dict(MatchMidVel=True),dict(HH=9999),dict(Horizontal=False),dict(Yaw=-10),dict(Lambda=6))]
    o['small']=[lambda x=x: H.find_nearest(A([.1,.5,.9]),x) for x in (.1,.101,.4)]+[lambda c=c,p=p: H.gamma_CT_fun(A([.2,.5])*c,*p) for c in (1.,1.001) for p in ((.5,.1,.2,.3),(.5,.1,.2,.3001))]
    return o
def full():
    """ every function with its full list of arguments: (name, function, arguments) """
    X,Y,Z=A([.3,1.4,-.6]),A([.2,-.5,.8]),A([-.7,.9,.15]); r,t,z=A([.36,1.5,1.]),A([.6,-.3,2.2]),A([-.7,.9,.15])
    g=A([[-.8,-.3]]); rr=A([[1.1,.6]]); o=[]
    def add(n,f,*a,**k): o.append((n,f,a,k))
    for pol in (True,False):
        q=':pol' if pol else ':cart'
        for eps in (0.,.12): add('vc_tang_u'+q,VC.vc_tang_u,X,Y,Z,-1.3,1.1,pol,eps)
        add('vc_tang_u_doublet'+q,VC.vc_tang_u_doublet,X,Y,Z,-1.3,1.1,1.2,pol)
        add('cylinder_tang_u'+q,VC.cylinder_tang_u,X,Y,Z,-1.3,1.1,-.8,.7,pol)
        add('vc_longi_u'+q,VC.vc_longi_u,X,Y,Z,-1.3,1.1,pol); add('vc_root_u'+q,VC.vc_root_u,X,Y,Z,-1.3,pol)
        add('vc_longi_u_polar'+q,VC.vc_longi_u_polar,r,t,z,-1.3,1.1,pol); add('vl_straight_polar'+q,VL.vl_semiinf_straight_u_polar,r,t,z,-1.3,pol)
        for f in (SK.svc_tang_u,SK.svc_longi_u): add(f.__name__+q,f,X,Y,Z,-1.3,1.1,.31,60,pol)
        for f in (SK.svc_tang_u_polar,SK.svc_longi_u_polar): add(f.__name__+q,f,r,t,z,-1.3,1.1,.31,60,pol)
        add('svc_root_u'+q,SK.svc_root_u,X,Y,Z,-1.3,.31,pol); add('svc_root_u_polar'+q,SK.svc_root_u_polar,r,t,z,-1.3,.31,pol); add('svc_root_u_polar:0'+q,SK.svc_root_u_polar,r,t,0*z,-1.3,.31,pol)
        add('ring_u'+q,VR.ring_u,X,Y,Z,-1.3,1.1,pol); add('rings_u'+q,VR.rings_u,X,Y,Z,A([-1.,.7]),A([1.1,.6]),A([.1,.2]),A([.3,.4]),A([.5,-.6]),pol)
    add('svc_u_polar',SK.svc_u_polar,r,t,z,-1.3,.4,-.7,1.1,.31,60)
    for f in (SK.fV_Tangential,SK.fV_Trailed): add(f.__name__,f,r,t,z,.31,-1.3,60)
    add('fV_Root',SK.fV_Root,r,t,z,.31,-1.3,7)
    for gr in (False,True):
        h=':ground' if gr else ':free'
        add('vcs_tang_u'+h,VC.vcs_tang_u,X,Y,Z,g,rr,A([.2]),A([2.3]),A([.4]),0.,gr); add('vcs_longi_u'+h,VC.vcs_longi_u,X,Y,Z,g,rr,A([.2]),A([2.3]),A([.4]),gr)
        add('svcs_tang_u'+h,SK.svcs_tang_u,X,Y,Z,g,rr,0*rr+.31,A([.2]),A([2.3]),A([.4]),40,gr); add('svcs_longi_u'+h,SK.svcs_longi_u,X,Y,Z,g,rr,0*rr+.31,A([.2]),A([2.3]),A([.4]),40,gr)
    add('doublet_u',DB.doublet_u,X,Y,Z,A([.3,-.4,1.]),A([.1,.2,-.3])); add('doublet_u_polar',DB.doublet_u_polar,r,z,1.3,.2)
    add('doublet_line_polar_u',DB.doublet_line_polar_u,r,z,1.3); add('doublet_line_polar_u_num',DB.doublet_line_polar_u_num,r,z,1.3,.2,9.,30)
    for L in (np.inf,2.2): add('doublet_line_u',DB.doublet_line_u,X,Y,Z,1.3,.31,L); add('doublet_line_u:0',DB.doublet_line_u,X,Y,Z,1.3,0.,L)
    add('doublet_line_u_num',DB.doublet_line_u_num,X,Y,Z,1.3,.31,9.,30)
    add('ring_u_polar_singular',VR.ring_u_polar_singular,r,z,-1.3,1.1); add('ring_u_polar_singularb',VR.ring_u_polar_singularb,r,z,-1.3,1.1)
    for m in ('Saffman','linear'): add('ring_u_polar:'+m,VR.ring_u_polar,A([.36,1.5,1.12]),A([-.7,.9,.21]),-1.3,1.1,.2,.1,m)
    add('ring_u:eps',VR.ring_u,A([1.1,.4]),A([0.,.2]),A([0.,.4]),-1.3,1.1,True,.1)
    add('ss_u',SS.ss_u,X,Y,Z,-1.3,1.1,.587,1.32)
    for M in (0,1,2): add('vps_u:%d'%M,VP.vps_u,A([[0.,1],[2,3]]),A([[1.,1.2],[2.1,3]]),A([1.,2]),M,4,A([.9,1.1]))
    for v in (False,True): add('vp_u',VP.vp_u,A([1.,2.]),A([.3,.4]),2.,1.3,v)
    for vm in range(6): add('vl_semiinf_u:%d'%vm,VL.vl_semiinf_u,A([.3,.2]),A([.2,.1]),A([.1,.4]),0.,.6,.8,2.,vm,.9)
    add('vl_straight',VL.vl_semiinf_straight_u,X,Y,Z,-1.3,False)
    add('elliptic',EL.ellipticPiCarlson,A([.1,.5,-2.,.9]),A([.3,.9,-1.,.2])); add('elliptic:c',EL.ellipticPiCarlson,A([.1,.5]),A([.3,.9]),A([.9,.5]),A([.7,.1]))
    add('fKxit',SK.fKxit,A([.2,.5,.8]),.31); add('fKxit:s',SK.fKxit,A([.2,.5,.8]),.031); add('fKzt',SK.fKzt,A([.2,.5,.8]),.31,6); add('fKzt:s',SK.fKzt,A([.2,.5,.8]),.031,6)
    ra=A([.1,.4,.7,.95]); c=A([.3,.8,.9,.4]); G=2.*c
    for lam in (6.,1000.):
        sw=lam<20
        add('FromCt',SV.WakeVorticityFromCt,ra,c,1.,8.,8*lam); add('FromGamma',SV.WakeVorticityFromGamma,ra,G,1.,8.,8*lam); add('CircFromCt',SV.CirculationFromPrescribedCt,ra,c,lam,sw)
        add('Discr',SV.WakeVorticityFromCirculation_Discr,ra,G,1.,8.,8*lam,1,sw); add('Discr:r',SV.WakeVorticityFromCirculation_Discr,ra,G,1.,8.,8*lam,2,sw,'analytical',False,False,ra*1.04)
        add('Cont',SV.WakeVorticityFromCirculation_Cont,ra,G,1.,8.,8*lam,sw); add('VC_Cont',SV.InductionsFromCirculation_VC_Cont,ra,lam*ra,c,sw); add('ST',SV.InductionsFromPrescribedCtCq_ST,ra,c,.1*c,lam,sw)
    add('cutoff',SV.Ct_const_cutoff,.8,.2,A([.05,.15,.5,.95]),.9)
    add('gridLayout',WF.gridLayout,3,2.,2,3.,1.,True); add('gridCT',WF.windfarm_gridlayout_CTconst,X,Y,Z,.9,.6,8.,2,4.,2,5.,1.,True)
    def turb(P,R,hub,U0,yaw,Ct,r,Lam,chi,RF,es,ev,Cfg):
        W=WindTurbine(R=R,r_hub=hub,U0=U0,e_shaft_yaw0=es,e_vert=ev,Ground=Cfg.get('ground',False),Lambda=Lam)
        if Cfg.get('n',1)>1: W.update_loading(r=r,Ct=Ct,nCyl=Cfg['n'])
        else: W.update_loading(Ct=Ct)
        W.update_yaw_pos(yaw)
        if Cfg.get('chi'): W.set_chi(chi)
        k=dict(Cfg.get('q',{}))
        if k.get('Model')=='VCFF': k['R_far_field']=RF
        F=WindFarm([W,WindTurbine(R=.7*R,r_hub=np.asarray(hub)+A([3.,0.,1.]),U0=U0,e_shaft_yaw0=es,e_vert=ev,Ct=.4)])
        return [query(W,P,**k),fquery(F,P,**k),W.gamma_t,W.gamma_l,W.Gamma_r,W.yaw_error,W.chi,W.rotor_disk_points(4)]
    P=A([[.3,.9,-.7],[1.5,.4,2.],[.1,1.5,.7]])
    for cn,Cfg in (('1',{}),('swirl',dict(q=dict(longi=True,root=True))),('n3',dict(n=3,q=dict(longi=True))),('ground',dict(ground=True)),('chi',dict(chi=True)),('vcff',dict(q=dict(Model='VCFF'))),('vd',dict(q=dict(Model='VD'))),('ss',dict(q=dict(Model='SS')))):
        flat=cn in ('vcff','vd','ss')
        add('turbine:'+cn,turb,P,1.1,A([.1,1.2,.2]),A([0.,0.,8.]) if flat else A([.5,0.,8.]),0. if flat else .2,c,ra,6. if cn in ('swirl','n3') else 30.,.25,1.5,A([0.,0.,1.]),A([0.,1.,0.]),Cfg)
    return o
def near_calls(f,a,k):
    """ the call, the calls with one argument slightly changed, and the calls with optional arguments left to their defaults """
    out=[('base',a)]
    nreq=sum(p.default is p.empty and p.kind in (p.POSITIONAL_ONLY,p.POSITIONAL_OR_KEYWORD) for p in inspect.signature(f).parameters.values())
    out+=[('first %d'%j,a[:j]) for j in range(nreq,len(a))]
    for i,v in enumerate(a):
        if isinstance(v,(bool,str,dict)) or v is None: continue
        if isinstance(v,int): out+=[('%d+1'%i,a[:i]+(v+1,)+a[i+1:])]; continue
        for d in (.1,3e-3,1e-5,1e-8):
            out.append(('%d*(1+%g)'%(i,d),a[:i]+(v*(1+d),)+a[i+1:]))
        out.append(('-%d'%i,a[:i]+(-v,)+a[i+1:])); out.append(('0*%d'%i,a[:i]+(v*0,)+a[i+1:]))
        if isinstance(v,np.ndarray) and v.size>1:
            for j in (0,v.size-1):
                w=v.copy(); w.flat[j]*=1.02; out.append(('%d[%d]'%(i,j),a[:i]+(w,)+a[i+1:]))
            out.append(('rev%d'%i,a[:i]+(v[::-1].copy(),)+a[i+1:]))
    return out
def outcome(f):
    with warnings.catch_warnings(), np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        try: return _own(f())
        except Exception as e: return 'raises '+type(e).__name__
def _own(x):
    if isinstance(x,np.ndarray): return np.array(x)
    if isinstance(x,(list,tuple)): return type(x)(_own(y) for y in x) if type(x) in (list,tuple) else [_own(y) for y in x]
    return x
def isolated(fs):
    """ outcomes of calls made one after the other in a new process """
    r,w=os.pipe(); pid=os.fork()
    if pid==0:
        try:
            os.close(r); data=pickle.dumps([outcome(f) for f in fs])
            with os.fdopen(w,'wb') as h: h.write(data)
        finally: os._exit(0)
    os.close(w)
    with os.fdopen(r,'rb') as h: data=h.read()
    os.waitpid(pid,0)
    return pickle.loads(data) if data else None
def eq(a,b): return near(a,b) if not (isinstance(a,str) or isinstance(b,str)) else (isinstance(a,str) and isinstance(b,str) and a==b)
SKIP=('__warningregistry__','__builtins__')
def libstate():
    """ all data reachable from the modules of the library (module variables, function defaults/attributes/closures, class attributes) and the numerical environment """
    seen=set(); out=[]
    def obj(p,o,depth):
        if isinstance(o,(types.ModuleType,types.BuiltinFunctionType,np.ufunc)) or depth>6: return
        if isinstance(o,(types.FunctionType,staticmethod,classmethod,property)) or hasattr(o,'__wrapped__'):
            if isinstance(o,property):
                for q in (o.fget,o.fset): obj(p,q,depth)
                return
            f=getattr(o,'__func__',o)
            if id(f) in seen: return
            seen.add(id(f)); m=getattr(f,'__module__','') or ''
            if not m.startswith('wiz'): return
            if hasattr(f,'cache_info'): out.append((p,repr(f.cache_info())))
            for nm in ('__defaults__','__kwdefaults__','__dict__'): data(p+'.'+nm,getattr(f,nm,None))
            for i,cell in enumerate(getattr(f,'__closure__',None) or ()):
                try: obj(p+'.cell%d'%i,cell.cell_contents,depth+1); data(p+'.cell%d'%i,cell.cell_contents)
                except ValueError: pass
            if hasattr(o,'__wrapped__'): obj(p+'.w',o.__wrapped__,depth+1)
            return
        if isinstance(o,type):
            if id(o) in seen or not o.__module__.startswith('wiz'): return
            seen.add(id(o))
            for k,v in vars(o).items(): obj(p+'.'+k,v,depth+1)
            return
        data(p,o)
    def data(p,o):
        if o is None or isinstance(o,(types.FunctionType,types.ModuleType,type)): return
        try: out.append((p,hashlib.md5(repr(freeze(o)).encode()).hexdigest()))
        except Exception: out.append((p,'?'))
    for m,mod in sorted(sys.modules.items()):
        if mod is None or not (m=='wiz' or m.startswith('wiz.')): continue
        for k,v in sorted(vars(mod).items()):
            if k not in SKIP and not k.startswith('__'): obj(m+'.'+k,v,0)
    out.append(('errstate',repr(sorted(np.geterr().items())))); out.append(('random',hashlib.md5(repr(np.random.get_state()).encode()).hexdigest()))
    out.append(('filters',repr(warnings.filters)[:4000]))
    return tuple(out)
def run(ck):
    import tempfile, shutil; from checks import C34
    root=tempfile.mkdtemp(prefix='c27_'); cwd=os.getcwd()
    try: C34.data(root); os.chdir(os.path.join(root,'run')); explore_all(ck)
    finally: os.chdir(cwd); shutil.rmtree(root)
def explore_all(ck):
    ck.level='model_checking'; th=ck.thorough
    fam={f.name:family(f) for f in api.F}; fam.update(others())
    calls=[(n,i,f) for n,fs in fam.items() for i,f in enumerate(fs)]
    ck.sample({'sequence':['ring_u:pol#0','ring_u:pol#2 (other radius)','ring_u:pol#0'],'compared with':'each call in a new process'})
    base={}
    def group(ck,g): return [isolated([f])[0] for n,i,f in g]
    gs=[calls[k:k+24] for k in range(0,len(calls),24)]
    for g,r in zip(gs,pmap(ck,group,gs)):
        for (n,i,f),x in zip(g,r or []): base[(n,i)]=x
    ck.extra['calls']=len(calls); ck.extra['refused_calls']=sum(isinstance(x,str) for x in base.values())
    # 1. state space of the library: closed if no call changes it
    s0=libstate()
    def explore(hist):
        """ each call from the state reached by a history, in its own process: outcome and successor state """
        def f(ck,g):
            out=[]
            for n,i,f in g:
                r,w=os.pipe(); pid=os.fork()
                if pid==0:
                    try:
                        os.close(r)
                        for q in hist: outcome(fam[q[0]][q[1]])
                        x=outcome(f); s=libstate()
                        with os.fdopen(w,'wb') as h: pickle.dump((x,None if s==s0 else hashlib.md5(repr(s).encode()).hexdigest()),h)
                    finally: os._exit(0)
                os.close(w)
                with os.fdopen(r,'rb') as h: d=h.read()
                os.waitpid(pid,0); ck.trans()
                if not d: ck.fail('crash:'+n,{'call':n,'variant':i,'after':hist}); continue
                x,s=pickle.loads(d); ck.trace()
                ck.expect(eq(x,base[(n,i)]),'repeat:'+n,{'call':n,'variant':i,'after':['%s#%d'%q for q in hist],'fresh process':base[(n,i)],'in this state':x})
                if s is not None: out.append(((n,i),s))
            return out
        return f
    # breadth-first over the states of the library (a single one if no call changes it), every call being made in each of them
    bound=60 if th else 10; reached={None:[]}; todo=[[]]; changing=[]
    while todo:
        hist=todo.pop(0)
        for o in pmap(ck,explore(hist),gs):
            for c,s in o or []:
                if not hist: changing.append(c)
                if s not in reached:
                    if len(reached)>=bound: ck.exhaustive=False; ck.extra['states_truncated_at']=bound
                    else: reached[s]=hist+[c]; todo.append(hist+[c])
    ck.state(len(reached)); ck.extra['library_states']=len(reached)
    def seq(ck,key,idx,detail=None):
        res=isolated([fam[n][i] for n,i in idx]); ck.trace(); ck.trans(len(idx))
        if res is None: ck.fail('crash:'+key,{'sequence':idx}); return
        for k,(c,x) in enumerate(zip(idx,res)):
            if not eq(base[c],x):
                ck.fail(key,{'sequence':['%s#%d'%q for q in idx[max(0,k-30):k+1]],'fresh process':base[c],'in the sequence':x}); return
    # 2. all pairs and triples within a family (one process per first call for pairs: first, then each other one)
    def within(ck,n):
        m=len(fam[n]); d=3 if (th or m<=11) else 2
        ok=[i for i in range(m)]
        # a walk visiting every pair (resp. triple) of consecutive variants
        def debruijn(k,nn):
            a=[0]*k*nn; out=[]
            def db(t,p):
                if t>nn:
                    if nn%p==0: out.extend(a[1:p+1])
                else:
                    a[t]=a[t-p]; db(t+1,p)
                    for j in range(a[t-p]+1,k): a[t]=j; db(t+1,t)
            db(1,1); return out+out[:nn-1]
        w=debruijn(m,2)
        if len(w)>1: seq(ck,'pair:'+n,[(n,i) for i in w])
        if d==3 and (th or (m<=8)):
            for s in range(0,m):
                seq(ck,'triple:'+n,[(n,i) for a in range(m) for b in range(m) for i in (s,a,b)])
    pmap(ck,within,list(fam))
    # 3. across families: each call, then one (two, thorough) calls of every family
    reps=[(n,i) for n in fam for i in ((0,1,3) if th else (0,))]
    first=[(n,i) for n,i,_ in calls] if th else [(n,i) for n,i,_ in calls if i in (0,len(fam[n])-1) or n in ('turbine','ellipticPi') or isinstance(base[(n,i)],str)]
    def across(ck,g):
        for c in g: seq(ck,'after:'+c[0],[c]+reps)
    pmap(ck,across,[first[k:k+8] for k in range(0,len(first),8)])
    # 4. every function and turbine: calls with slightly different arguments, one after the other, in both orders
    def nears(ck,it):
        n,f,a,k=it; cs=near_calls(f,a,k); fs=[lambda q=q: f(*[v.copy() if isinstance(v,np.ndarray) else v for v in q],**k) for _,q in cs]
        ref=[isolated([g])[0] for g in fs]; ck.state(len(fs))
        for nm,idx in (('base first',[i for j in range(1,len(fs)) for i in (0,j)]+[0]),('last first',list(range(len(fs)))[::-1])):
            res=isolated([fs[i] for i in idx]); ck.trans(len(idx)); ck.trace()
            if res is None: ck.fail('crash:near:'+n,{'function':n}); continue
            for q,(i,x) in enumerate(zip(idx,res)):
                if not eq(ref[i],x):
                    ck.fail('near:'+n,{'function':n,'calls (argument changed)':[cs[j][0] for j in idx[max(0,q-6):q+1]],'fresh process':ref[i],'in the sequence':x}); break
    fl=full(); pmap(ck,nears,fl)
    # 4b. every function with its full arguments, then every other one (all ordered pairs), optional arguments given then not
    def mk(n,f,a,k,j): return lambda: f(*[v.copy() if isinstance(v,np.ndarray) else v for v in (a if j is None else a[:j])],**k)
    fc=[]
    for n,f,a,k in fl:
        nreq=sum(p.default is p.empty for p in inspect.signature(f).parameters.values()); fc.append((n,mk(n,f,a,k,None)))
        if nreq<len(a): fc.append((n+':default',mk(n,f,a,k,nreq)))
    fb=[None]*len(fc); bl=[range(k,min(k+8,len(fc))) for k in range(0,len(fc),8)]
    for b,x in zip(bl,pmap(ck,lambda ck,b: [isolated([fc[i][1]])[0] for i in b],bl)):
        for i,y in zip(b,x or []): fb[i]=y
    ck.extra['full_calls']=len(fc)
    def allpairs(ck,b):
        for i in b:
            idx=[i]+[j for j in range(len(fc)) if j!=i]; res=isolated([fc[j][1] for j in idx]); ck.trace(); ck.trans(len(idx))
            if res is None: ck.fail('crash:pairs:'+fc[i][0],{'function':fc[i][0]}); continue
            for q,(j,x) in enumerate(zip(idx,res)):
                if not eq(fb[j],x): ck.fail('pairs:'+fc[j][0],{'calls':[fc[w][0] for w in idx[:1]+idx[max(1,q-10):q+1]],'fresh process':fb[j],'in the sequence':x}); break
    pmap(ck,allpairs,bl if th else [b[::4] for b in bl])
    # 4c. long use: each family many times in the same process, the last round compared; all the families in turn
    def long(ck,n):
        m=len(fam[n]); N=(60 if n in ('errors','planes','setupModel') else 200 if n in ('turbine','farm','fK') else 700)*(2 if th else 1)
        k=max(1,N//m); ck.trans(k*m+m); ck.trace()
        def burn():
            for _ in range(k):
                for f in fam[n]: outcome(f)
        res=isolated([burn]+list(fam[n]))
        if res is None: ck.fail('crash:long:'+n,{'family':n}); return
        for i,x in enumerate(res[1:]):
            if not eq(base[(n,i)],x): ck.fail('long:'+n,{'call':n,'variant':i,'after calls':k*m+i,'fresh process':base[(n,i)],'then':x}); return
    pmap(ck,long,list(fam)); ck.extra['long_use_calls']=700*(2 if th else 1)
    # 5. calls which change the state of the library (none, or caches): deeper histories
    if changing:
        ch=sorted(set(changing))[:40]
        def deep(ck,a):
            for b in ch[:20]: seq(ck,'deep',[a,b]+ch+reps)
        pmap(ck,deep,ch)
    ck.assumptions.append('state of the library: module variables, defaults, attributes and closures of its functions and classes, numpy error state and random generator; %d calls change it'%len(changing))
