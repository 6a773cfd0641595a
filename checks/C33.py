"""Optional arguments: left out, by name or by position, they mean the documented thing"""
import numpy as np, itertools, types
import matplotlib; matplotlib.use('Agg')
from common import pmap, quiet
import wiz.VortexCylinder as VC, wiz.VortexCylinderSkewed as SK, wiz.VortexDoublet as DB, wiz.VortexRing as VR, wiz.VortexPoint as VP, wiz.VortexLine as VL, wiz.elliptic as EL
import wiz.SelfSimilar as SS, wiz.Solver as SV, wiz.plotting_functions as PF, wiz.article_blockage.helper_functions as H
from wiz.WindTurbine import WindTurbine
from wiz.WindFarm import WindFarm, gridLayout, windfarm_gridlayout_CTconst
A=np.array
X=A([.31,-.72,1.6,.05,-2.3,3.1,.44,3.9,-4.,.7,2.9]); Y=A([.21,.53,-.37,-1.4,.66,.02,.11,-3.6,4.,5.7,3.]); Z=A([-.9,1.3,-3.4,.6,2.7,-.2,4.,.8,-2.3,1.1,2.2])
R_=np.hypot(X,Y); P_=np.arctan2(Y,X); XYZ=dict(Xcp=X,Ycp=Y,Zcp=Z); RPZ=dict(vr=R_,vpsi=P_,vz=Z); RZ=dict(r=R_,z=Z); RCP=dict(rcp=R_,zcp=Z)
G2=A([[-1.,.5],[-.3,.2]]); C2=dict(gamma_t=G2,R=A([[1.,.6],[.8,.4]])); P3=dict(Xcyl=A([0.,2.]),Ycyl=A([3.,1.]),Zcyl=A([0.,-1.])); M2=dict(m=A([[.3,.3],[.2,.2]]))
def rename(d,**k): return {k.get(q,q):v for q,v in d.items()}
RV=A([.1,.4,.7,.97]); CT=A([.3,.8,.9,.6]); GA=A([.05,.08,.08,.07]); inf=np.inf
r5=np.linspace(.1,1.,6)
PTS=A([(.4,.2,-1.3),(.3,-.6,2.),(3.,2.,1.),(7.,1.,-3.),(1.4,.1,.6)])
class Line(dict): pass
# function: (required arguments in order, {optional: (documented default, another value)} in order)
POL=('polar_out',(False,True)); POLT=('polar_out',(True,False))
def D(*p): return dict(p)
def table():
    T={}
    def f(n,fun,req,opt): T[n]=(fun,req,opt)
    for n,o in (('vc_tang_u',D(('gamma_t',(-1,2.)),('R',(1,1.5)),POLT,('epsilon',(0,.1)))),('vc_tang_u_doublet',D(('gamma_t',(-1,2.)),('R',(1,.5)),('r_bar_Cut',(6,2.)),POLT)),
                ('vc_longi_u',D(('gamma_l',(-1,2.)),('R',(1,1.5)),POL)),('vc_root_u',D(('Gamma_r',(-1,2.)),POL)),('cylinder_tang_semi_inf_u_raw',D(('gamma_t',(-1,2.)),('R',(1,1.5)))),
                ('cylinder_tang_u',D(('gamma_t',(-1,2.)),('R',(1,1.5)),('z1',(-2,-1.)),('z2',(2,1.)),POLT,('epsilon',(0,.1))))): f('VC.'+n,getattr(VC,n),XYZ,o)
    f('VC.vc_longi_u_polar',VC.vc_longi_u_polar,RPZ,D(('gamma_l',(-1,2.)),('R',(1,1.5)),POL))
    f('VC.vcs_tang_u',VC.vcs_tang_u,dict(XYZ,**C2,**P3),D(('epsilon',(0,.1)),('Ground',(False,True)))); f('VC.vcs_longi_u',VC.vcs_longi_u,dict(XYZ,gamma_l=G2,R=C2['R'],**P3),D(('Ground',(False,True))))
    t=lambda g: D((g,(-1,2.)),('R',(1,1.5)),('m',(0,.3)),('ntheta',(180,7)),POL)
    for g in ('tang','longi'): f('SK.svc_%s_u'%g,getattr(SK,'svc_%s_u'%g),XYZ,t('gamma_'+g[0])); f('SK.svc_%s_u_polar'%g,getattr(SK,'svc_%s_u_polar'%g),RPZ,t('gamma_'+g[0]))
    f('SK.svc_root_u',SK.svc_root_u,XYZ,D(('Gamma_r',(-1,2.)),('m',(0,.3)),POL)); f('SK.svc_root_u_polar',SK.svc_root_u_polar,RPZ,D(('Gamma_r',(-1,2.)),('m',(0,.3)),POL))
    f('SK.svc_u_polar',SK.svc_u_polar,dict(RPZ,gamma_t=-1.,gamma_l=.3,Gamma_r=.2),D(('R',(1,1.5)),('m',(0,.3)),('ntheta',(180,7)),POL))
    f('SK.svcs_tang_u',SK.svcs_tang_u,dict(XYZ,**C2,**M2,**P3),D(('ntheta',(180,7)),('Ground',(False,True)))); f('SK.svcs_longi_u',SK.svcs_longi_u,dict(XYZ,gamma_l=G2,R=C2['R'],**M2,**P3),D(('ntheta',(180,7)),('Ground',(False,True))))
    f('SK.fV_Trailed',SK.fV_Trailed,dict(RPZ,m=.3,gamma_longi=-1.,ntheta=50),D(('nout',(7,3)))); f('SK.fV_Tangential',SK.fV_Tangential,dict(RPZ,m=.3,gamma_t=-1.,ntheta=50),D(('nout',(7,1)))); f('SK.fV_Root',SK.fV_Root,RPZ,D(('m',(0,.3)),('Gamma_r',(-1,2.)),('nout',(1,7))))
    f('SK.fKzt',SK.fKzt,dict(r=RV,m=.4),D(('nout',(2,7))))
    f('DB.doublet_u',DB.doublet_u,dict(XYZ,m=[0.,.3,1.]),D(('x0',([0,0,0],[1.,2.,.5])))); f('DB.doublet_u_polar',DB.doublet_u_polar,dict(RCP,m_z=1.3),D(('z0',(0,.7))))
    f('DB.doublet_line_polar_u',DB.doublet_line_polar_u,dict(RCP,dmz_dz=1.3),D(('bSelfInd',(False,True))))
    f('DB.doublet_line_polar_u_num',DB.doublet_line_polar_u_num,dict(RCP,dmz_dz=1.3),D(('z0',(0,.7)),('zmax',(1000,50.)),('nQuad',(100,33))))
    f('DB.doublet_line_u',DB.doublet_line_u,dict(XYZ,dmz_dz=1.3),D(('m',(0,.4)),('L',(inf,5.)))); f('DB.doublet_line_u_num',DB.doublet_line_u_num,dict(XYZ,dmz_dz=1.3),D(('m',(0,.4)),('zmax',(1000,50.)),('nQuad',(100,33))))
    for n in ('I30_num','I50_num','I51_num','I52_num'):
        if hasattr(DB,n): f('DB.'+n,getattr(DB,n),dict(x=1.2,y=.3,z=.4,m=.2),D(('nQuad',(50000,3000)),('zmax',(5000,20))))
    for n in ('ring_u_polar_singular','ring_u_polar_singularb'):
        if hasattr(VR,n): f('VR.'+n,getattr(VR,n),RZ,D(('Gamma',(-1,2.)),('r0',(1,1.5))))
    f('VR.ring_u_polar',VR.ring_u_polar,RZ,D(('Gamma',(-1,2.)),('r0',(1,1.5)),('z0',(0,.4)),('epsilon',(0,.2)),('reg_method',('Saffman','linear'))))
    f('VR.ring_u',VR.ring_u,XYZ,D(('Gamma',(-1,2.)),('R',(1,1.5)),POLT,('epsilon',(0,.2))))
    f('VR.rings_u',VR.rings_u,dict(XYZ,Gamma_r=A([1.,-2.]),Rr=A([1.,.7]),Xr=A([0.,0.]),Yr=A([0.,0.]),Zr=A([0.,1.])),D(POLT,('epsilon',(0,.2))))
    CP=np.column_stack((X,Y)); CP3=np.column_stack((X,Y,Z))
    f('VP.vp_u',VP.vp_u,dict(CP=CP,Pv=A([.1,.2])),D(('Gamma',(1,-2.)),('rcore',(0,.3)),('bViscous',(False,True)))); f('VP.vps_u',VP.vps_u,dict(CP=CP,XV=A([[.1,.2],[1.,-1.]]),Gammas=A([1.,-3.])),D(('SmoothModel',(0,2)),('KernelOrder',(2,4)),('SmoothParam',(None,A([.3,.4])))))
    f('VL.straight',VL.vl_semiinf_straight_u,XYZ,D(('Gamma_r',(-1,2.)),POL)); f('VL.straight_polar',VL.vl_semiinf_straight_u_polar,RPZ,D(('Gamma_r',(-1,2.)),POL))
    n=A([.1,-3.,.9]); m=A([.4,.1,.99]); f('EL.Pi',EL.ellipticPiCarlson,dict(n=n,m=m),D(('n1',(None,1-n*.5)),('m1',(None,1-m*.5))))
    f('SS.ss_u',SS.ss_u,dict(XYZ,gamma_t=-.4),D(('R',(1,1.5)),('lambda_',(.587,.8)),('eta',(1.32,1.1))))
    f('SV.Ct_const_cutoff',SV.Ct_const_cutoff,dict(CT0=.8,r_bar_cut=.3,vr_bar=RV.copy()),D(('r_bar_tip',(None,.8))))
    f('SV.VC_Cont',SV.InductionsFromCirculation_VC_Cont,dict(vr_bar=RV,lambda_r=6*RV,k=A([.3,.6,.95,.9]),bSwirl=True),D(('method',('analytical','ANALYTICAL')),('bHighThrustCorr',(True,False)),('Cq',(None,A([.1,.1,.1,.1])))))
    w=dict(r_cp=RV*2,Gamma_cp=GA*30,R=2.,U0=8.,Omega=20.)
    f('SV.Cont',SV.WakeVorticityFromCirculation_Cont,dict(w,bSwirl=True),D(('method',('analytical','Analytical')),('bHighThrustCorr',(True,False))))
    f('SV.Discr',SV.WakeVorticityFromCirculation_Discr,dict(w,nB=3,bSwirl=True),D(('method',('analytical','ANALYTICAL')),('bTanInd_k',(True,False)),('bHighThrustCorr',(True,False)),('r_cyl',(None,A([.4,1.,1.8,2.])))))
    def wt(**k): return WindTurbine(1.,**k)
    def full(W):
        W.update_loading(Ct=.6) if np.isscalar(W.R) and W.U0_g is not None else None
        return [W.tostring(False),W.compute_u(*PTS.T)]
    f('WindTurbine',WindTurbine,dict(R=1.),D(('r_hub',([0,0,0],[.5,.3,-.2])),('e_shaft_yaw0',([0,0,1],[1,0,0])),('e_vert',([0,1,0],[0,.6,.8])),('U0',([0,0,10],[3.,1.,7.])),('Ct',(None,.5)),('Lambda',(inf,6.)),('name',('','a')),('Ground',(False,True)),('Model',('VC','VD'))))
    T['WindTurbine']=T['WindTurbine']+(lambda W: full(W),)
    def fresh(load=True):
        W=WindTurbine(1.,r_hub=[.1,1.7,-.2],U0=[2.,0,8.],Ground=False,Model='VC',Lambda=6.)
        if load: W.update_loading(r=A([0,.5,1.]),Ct=A([.3,.8,.5]),nCyl=3,Lambda=6.)
        return W
    def single(): W=fresh(False); W.update_loading(Ct=.6,Lambda=6.); return W
    def meth(name,make=fresh):
        def g(*a,**k): W=make(); o=getattr(W,name)(*a,**k); return W if name.startswith('update') else o
        return g
    f('compute_u',meth('compute_u',single),dict(zip(('Xg','Yg','Zg'),PTS.T)),D(('only_ind',(False,True)),('longi',(False,True)),('tang',(True,False)),('root',(False,True)),('no_wake',(False,True)),('ground',(None,True)),('Model',(None,'VCFF')),('R_far_field',(6,2.))))
    one=A([.6,.6,.6])
    f('update_loading:Ct',meth('update_loading',lambda: fresh(False)),{},D(('r',(None,A([0,.5,1.]))),('Ct',(None,A([.3,.8,.5]))),('Gamma',(None,A([1.,2.,2.]))),('Lambda',(None,8.)),('nCyl',(1,3)),('gamma_t_Ct',(None,lambda c:-3*np.asarray(c)))))
    T['update_loading:Ct']=T['update_loading:Ct']+(lambda W: [W.compute_u(*PTS.T,longi=True,root=True),W.compute_u(*PTS.T)],)
    f('rotor_disk_points',meth('rotor_disk_points'),{},D(('nP',(100,7)))); f('tostring',meth('tostring'),{},D(('short',(True,False))))
    def farm(): return WindFarm([fresh(),WindTurbine(.7,r_hub=[6.,2.,3.],U0=[0,0,9.],Ct=.4,Model='VC')])
    def fmake():
        F=farm(); F[1].update_loading(Ct=.4); return F
    f('WindFarm',WindFarm,{},D(('WTs',([],[fresh()])),('name',('','f')))); T['WindFarm']=T['WindFarm']+(lambda F: [repr(F),len(F),F.velocity_field(*PTS.T,U0=[1.,2.,3.])],)
    f('velocity_field',lambda *a,**k: fmake().velocity_field(*a,**k),dict(zip('XYZ',PTS.T)),D(('no_wake',(False,True)),('U0',(None,[1.,2.,3.]))))
    f('farm.tostring',lambda *a,**k: farm().tostring(*a,**k),{},D(('short',(True,False))))
    f('gridLayout',gridLayout,dict(nx=2,xSpacing=3.,nz=3),D(('zSpacing',(None,5.)),('hub_height',(0,4.)),('mirror',(False,True))))
    f('windfarm_grid',windfarm_gridlayout_CTconst,dict(Xcp=X,Ycp=np.abs(Y),Zcp=Z,R=1.,CT=.6,U0=8.,nxWT=2,xWTSpacing=4.,nzWT=1,zWTSpacing=5.),D(('hub_height',(0,1.5)),('mirror',(False,True))))
    f('make_colormap',PF.make_colormap,dict(seq=[(0,0,1.),(1.,1,1),(1.,0,0)]),D(('values',(None,[0,.2,1.])))); T['make_colormap']+=(lambda c:c(np.linspace(0,1,33)),)
    f('get_cmap',PF.get_cmap,dict(minSpeed=.5,maxSpeed=1.2),D(('alpha',(1,.3)))); T['get_cmap']+=(lambda o:[o[0](np.linspace(0,1,33)),o[1]],)
    f('getModelsCMAP',H.getModelsCMAP,{},D(('alpha',(.3,.8)))); T['getModelsCMAP']+=(lambda o:[o[1],o[2]],)
    x=np.linspace(-6,2,81); f('relerrinduction',H.relerrinduction,dict(X=x,U1=1-.1/(1+x*x),U2=1-.2/(2+x*x)),D(('x1',(-4.99,-3.)),('x2',(-1,-.5))))
    AD=dict(xyz_wt=A([(0,0,1.5),(3.,1.,1.5)]),ct_wt=A([.4,.7]),xyz=np.stack([A([X,Y,np.abs(Z)]).T,A([X+1,Y,np.abs(Z)]).T],axis=-1))
    g=('gamma_t_Ct',(None,lambda c:-.5*c)); flow=lambda F: F.velocity_field(*PTS.T,U0=[1.,0,0],Model=F[0].Model)
    f('ADFarm2VCFarm',H.ADFarm2VCFarm,dict(ADFarm=AD,name='x'),D(g)); T['ADFarm2VCFarm']+=(lambda o:[q for q in o if not isinstance(q,WindFarm)]+[flow(q) for q in o if isinstance(q,WindFarm)],)
    f('VCFarmFromFloris',H.VCFarmFromFloris,dict(CTs=A([[.3,.5],[.6,.8]]),HH=1.5,S=5.),D(g,('Model',('VC','VD')))); T['VCFarmFromFloris']+=(flow,)
    f('setupModel',H.setupModel,{},D(('AD',(None,None)),('CT',(None,.6)),('HH',(None,9999)),('Lambda',(None,inf)),('Horizontal',(None,True)),('Yaw',(None,-20)),('MatchMidVel',(None,None)),('U0',(1,3.)),('gamma_t',(None,-.4)),('Model',('VC','VD'))))
    T['setupModel']+=(lambda V: V.fU(*PTS.T),)
    vc=H.setupModel(CT=.6,HH=9999,Lambda=inf,Horizontal=True,Yaw=0); vv=H.setupModel(CT=.6,HH=9999,Lambda=inf,Horizontal=False,Yaw=0)
    for n,o in (('H',vc),('V',vv)): f('OutputVC.fRadial:'+n,o.fRadial,dict(r=A([-.4,.3,1.4])),D(('z0',(0,-.7))))
    f('OutputVC.fHorz',vc.fHorz,dict(vx=A([.2,1.3]),vz=A([-1.,2.,3.])),D(('doublet_far_field',(False,True))))
    return T
def flat(o):
    if isinstance(o,dict): return [q for k in sorted(o,key=str) for q in flat(o[k])]
    if isinstance(o,(list,tuple)): return [('seq',len(o))]+[q for v in o for q in flat(v)]
    if o is None or isinstance(o,(str,bool)): return [o]
    try: return [np.array(o,float)]
    except Exception: return [type(o).__name__]
def outcome(f,post):
    try: return flat(post(f()))
    except Exception as e: return ['refused']
def eq(a,b):
    if len(a)!=len(b): return False
    for x,y in zip(a,b):
        if isinstance(x,np.ndarray)!=isinstance(y,np.ndarray): return False
        if isinstance(x,np.ndarray):
            if x.shape!=y.shape or not np.allclose(x,y,rtol=1e-9,atol=1e-11,equal_nan=True): return False
        elif x!=y: return False
    return True
def cp(v): return v.copy() if isinstance(v,np.ndarray) else list(v) if isinstance(v,list) else v
def one(ck,name):
    with quiet():
        t=table()[name]; fun,req,opt=t[:3]; post=t[3] if len(t)>3 else (lambda o:o); names=list(opt); n=len(names)
        call=lambda given,how: outcome(lambda: fun(*[cp(v) for v in how],**{k:cp(v) for k,v in given.items()}),post)
        R=dict(req); seen=set()
        for bits in itertools.product((0,1),repeat=n):
            S=[k for k,b in zip(names,bits) if b]; alt={k:opt[k][1] for k in S}; dflt={k:opt[k][0] for k in names if k not in S}
            if name.startswith('setupModel') and n-len(S)>4 and not ck.thorough: continue
            ref=call(dict(R,**alt,**dflt),()); d={'function':name,'given':{k:repr(v)[:60] for k,v in alt.items()}}
            seen.add(repr([q.tolist() if isinstance(q,np.ndarray) else q for q in ref])); ck.case(1,ref!=['refused'])
            def same(got,how): ck.case(1,ref!=['refused']); ck.expect(eq(got,ref),'argument:%s'%name,lambda: dict(d,how=how,got=got,expected=ref))
            same(call(dict(R,**alt),()),'by name, others left out')
            same(call(dict(alt),list(R.values())),'required by position')
            for k in dflt:       # one at a time
                if n<=6 or ck.thorough: same(call(dict(R,**alt,**{k:dflt[k]}),()),'default of %s given'%k)
            allv=[alt.get(k,dflt.get(k)) for k in names]; j=max([i+1 for i,b in enumerate(bits) if b],default=0)
            same(call({},list(R.values())+allv[:j]),'by position'); same(call({},list(R.values())+allv),'all by position')
            same(call(dict(reversed(list(dict(R,**alt).items()))),()),'by name in another order')
        ck.extra['refused_functions']=int(seen=={repr(['refused'])}); ck.extra['functions']=1; ck.extra['distinct_outcomes']=len(seen)
        ck.expect(seen!={repr(['refused'])},'refused:'+name,{'function':name})
def run(ck):
    ck.level='exploration'
    ck.rule='case = one call of a function with one sub-set of its optional arguments and one way to give them, compared to the call with all of them by name; non-trivial = not refused'
    with quiet(): names=list(table())
    ck.sample({'functions':names}); pmap(ck,one,names)
