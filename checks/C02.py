"""No effect on, and no hold on, the data of the caller"""
import numpy as np, itertools, inspect
from common import pmap
import api
from wt import WindTurbine, WindFarm, query, fquery
import wiz.Solver as SV, wiz.elliptic as EL, wiz.VortexPoint as VP, wiz.VortexLine as VL, wiz.VortexCylinderSkewed as SK, wiz.WindFarm as WF, wiz.VortexCylinder as VC, wiz.VortexRing as VR, wiz.VortexDoublet as DB

def snap(o):
    if isinstance(o,np.ndarray): return (o.shape,o.dtype.str,o.tobytes(),o.flags.writeable)
    if isinstance(o,(list,tuple)): return (type(o).__name__,tuple(snap(x) for x in o))
    return repr(o)
def outs(o):
    """ all arrays reachable from an output """
    if isinstance(o,np.ndarray): return [o]
    if isinstance(o,(list,tuple)): return [a for x in o for a in outs(x)]
    if isinstance(o,dict): return [a for x in o.values() for a in outs(x)]
    return []
def vals(o):
    if isinstance(o,np.ndarray): return ('a',o.shape,(o+0).tobytes() if o.dtype.kind=='f' else o.tobytes())
    if isinstance(o,(list,tuple)): return tuple(vals(x) for x in o)
    if isinstance(o,dict): return tuple((k,vals(v)) for k,v in sorted(o.items()))
    return repr(o)
def near(a,b):
    if isinstance(a,np.ndarray): return isinstance(b,np.ndarray) and a.shape==b.shape and np.allclose(a,b,rtol=1e-12,atol=1e-14*(1+np.max(np.abs(np.nan_to_num(a,posinf=0,neginf=0)),initial=0)),equal_nan=True)
    if isinstance(a,(list,tuple)): return len(a)==len(b) and all(near(x,y) for x,y in zip(a,b))
    if isinstance(a,dict): return set(a)==set(b) and all(near(a[k],b[k]) for k in a)
    if isinstance(a,(float,np.floating)): return np.isclose(a,b,rtol=1e-12,equal_nan=True)
    return repr(a)==repr(b)
def check_call(ck,key,f,args,kw,detail):
    """ f(*args,**kw): arguments untouched (also when read only), outputs own their memory, repeatable after outputs/inputs are overwritten """
    import copy
    ins=[a for a in outs(list(args))+outs(kw)]
    before=[snap(a) for a in args]+[snap(v) for v in kw.values()]
    ref=f(*copy.deepcopy(args),**copy.deepcopy(kw)); ck.case()
    ok=True
    o1=f(*args,**kw)
    after=[snap(a) for a in args]+[snap(v) for v in kw.values()]
    ok&=ck.expect(before==after,'modified:'+key,detail)
    ok&=ck.expect(near(o1,ref),'differs:'+key,detail)
    oo=outs(o1)
    for a in oo:
        for b in ins:
            if a.size and np.shares_memory(a,b): ck.fail('shares_input:'+key,detail); ok=False
    for a,b in itertools.combinations(oo,2):
        if a is not b and a.size and np.shares_memory(a,b): ck.fail('outputs_share:'+key,detail); ok=False
        if a is b and a.size: ck.fail('outputs_same:'+key,detail); ok=False
    # inputs not writeable
    a2=copy.deepcopy(args); k2=copy.deepcopy(kw)
    for a in outs(list(a2))+outs(k2): a.flags.writeable=False
    try: o=f(*a2,**k2)
    except Exception as e: ck.fail('readonly:'+key,dict(detail,error=repr(e))); ok=False
    else: ok&=ck.expect(near(o,ref),'readonly_differs:'+key,detail)
    # overwrite the outputs, repeat
    for a in oo:
        if a.flags.writeable: a[...]=-777.
    o2=f(*args,**kw)
    ok&=ck.expect(near(o2,ref),'repeat:'+key,detail)
    # the results of another call have their own memory
    o3=f(*copy.deepcopy(args),**copy.deepcopy(kw))
    if any(a.size and np.shares_memory(a,b) for a in outs(o2) for b in outs(o3)): ck.fail('calls_share:'+key,detail); ok=False
    # overwrite the inputs: previous outputs unchanged
    keep=vals(o2)
    for a in ins:
        if a.flags.writeable: a[...]=12345.
    ok&=ck.expect(vals(o2)==keep,'held:'+key,detail)
    return ok
def solver_cases():
    R=10.; U0=8.
    for n in (1,2,4):
        r=np.linspace(.05,.95,n)*R if n>1 else np.array([.995*R])
        Ct=np.linspace(.3,.95,n); G=np.linspace(4.,9,n)
        for lam in (6.,1000.):
            Om=lam*U0/R; sw=lam<20
            yield 'WakeVorticityFromCt',SV.WakeVorticityFromCt,[r.copy(),Ct.copy(),R,U0,Om],{}
            yield 'WakeVorticityFromGamma',SV.WakeVorticityFromGamma,[r.copy(),G.copy(),R,U0,Om],{}
            yield 'CirculationFromPrescribedCt',SV.CirculationFromPrescribedCt,[r/R,Ct.copy(),lam,sw],{}
            for hi in (True,False):
                yield 'Discr',SV.WakeVorticityFromCirculation_Discr,[r.copy(),G.copy(),R,U0,Om],dict(nB=1,bSwirl=sw,bHighThrustCorr=hi)
                yield 'Discr:cyl',SV.WakeVorticityFromCirculation_Discr,[r.copy(),G.copy(),R,U0,Om],dict(nB=3,bSwirl=sw,bHighThrustCorr=hi,r_cyl=r*1.05)
                if n>1:
                    for r0 in (r.copy(),np.concatenate(([0.],r[1:]))):
                        yield 'Cont',SV.WakeVorticityFromCirculation_Cont,[r0.copy(),G.copy(),R,U0,Om],dict(bSwirl=sw,bHighThrustCorr=hi)
                        if r0[0]>0: yield 'InductionsVC',SV.InductionsFromCirculation_VC_Cont,[r0/R,lam*r0/R,Ct.copy(),sw],dict(bHighThrustCorr=hi)
                    yield 'InductionsVC0',SV.InductionsFromCirculation_VC_Cont,[r/R,np.concatenate(([0.],lam*r[1:]/R)),Ct.copy(),sw],dict(bHighThrustCorr=hi)
                    yield 'InductionsVC:Cq',SV.InductionsFromCirculation_VC_Cont,[r/R,lam*r/R,Ct.copy(),sw],dict(bHighThrustCorr=hi,Cq=.1*Ct)
            yield 'ST',SV.InductionsFromPrescribedCtCq_ST,[r/R,Ct.copy(),.1*Ct,lam,sw],{}
    v=np.linspace(0,1,9)
    yield 'Ct_const_cutoff',SV.Ct_const_cutoff,[.8,.2,v.copy()],{}
    yield 'Ct_const_cutoff:tip',SV.Ct_const_cutoff,[.8,.2,v.copy(),.9],{}
    n=np.array([.1,.5,-2.,0.]); m=np.array([.3,.9,-1.,0.])
    yield 'ellipticPi',EL.ellipticPiCarlson,[n.copy(),m.copy()],{}
    yield 'ellipticPi:c',EL.ellipticPiCarlson,[n.copy(),m.copy(),1-n,1-m],{}
    yield 'fKxit',SK.fKxit,[v[1:-1].copy(),.3],{}
    yield 'fKxit0',SK.fKxit,[v[1:-1].copy(),0.],{}
    yield 'fKzt',SK.fKzt,[v[1:-1].copy(),.3],{}
    for vm in range(6): yield 'vl_semiinf_u',VL.vl_semiinf_u,[np.array(.3),np.array(.2),np.array(.1),0.,0.6,.8,2.,vm,.5],{}
    yield 'gridCT',WF.windfarm_gridlayout_CTconst,[np.array([.5,3.]),np.array([.2,.9]),np.array([-2.,1.]),1.,.6,8.,2,4.,2,5.,0.,False],{}
    for M in (0,1,2): yield 'vps_u',VP.vps_u,[np.array([[0.,1],[2,3]]),np.array([[1.,1],[2,3]]),np.array([1.,2])],dict(SmoothModel=M,SmoothParam=np.array([.3,.4]))
    yield 'vp_u',VP.vp_u,[np.array([1.,2.]),np.array([.3,.4])],dict(Gamma=2.)
    g=np.array([[1.,.3],[.2,0.]]); rr=np.array([[.5,1.],[.3,.8]]); x2=np.array([0.,3]); P=[np.array([.2,.7]),np.array([1.,.1]),np.array([-.3,.4])]
    cp=lambda: [q.copy() for q in P]
    for gr in (False,True):
        yield 'vcs_tang_u',VC.vcs_tang_u,cp()+[g.copy(),rr.copy(),x2.copy(),x2+1,x2-1],dict(Ground=gr)
        yield 'vcs_longi_u',VC.vcs_longi_u,cp()+[g.copy(),rr.copy(),x2.copy(),x2+1,x2-1],dict(Ground=gr)
        yield 'svcs_tang_u',SK.svcs_tang_u,cp()+[g.copy(),rr.copy(),0*rr+.2,x2.copy(),x2+1,x2-1],dict(Ground=gr)
        yield 'svcs_longi_u',SK.svcs_longi_u,cp()+[g.copy(),rr.copy(),0*rr+.2,x2.copy(),x2+1,x2-1],dict(Ground=gr)
    for p in (True,False): yield 'rings_u',VR.rings_u,cp()+[g[0].copy(),rr[0].copy(),x2.copy(),x2+1,x2-1],dict(polar_out=p)
    yield 'doublet_u',DB.doublet_u,cp()+[np.array([1.,2,3]),np.array([.1,.2,.3])],{}
    yield 'doublet_u:default',DB.doublet_u,cp()+[np.array([1.,2,3])],{}

def helper_cases():
    import wiz.article_blockage.helper_functions as H, wiz.plotting_functions as PF
    import wiz.WindTurbine as T
    u=[np.array(q) for q in ([.3,-.2,1.],[.1,.7,-1.],[2.,.4,.3])]; M=T.RotMat_AxisAngle(np.array([0.,.6,.8]),.3)
    for m in (0.,.4): yield 'skew_components',SK.skew_components,[u[0].copy(),u[1].copy(),m],{}
    yield 'polar_components',SK.polar_components,[q.copy() for q in u],{}
    for f in (T.transform,T.transform_T): yield f.__name__,f,[M.copy()]+[q.copy() for q in u],{}
    yield 'RotMat_AxisAngle',T.RotMat_AxisAngle,[np.array([0.,.6,.8]),.3],{}
    for e in ([0.,0,1],[.6,.8,0],[-1.,0,0],[.5,.5,-.7]): yield 'orth_vect',T.orth_vect,[np.array(e)],{}
    x=np.linspace(-6,2,41); U1=1-.1/(1+x*x); U2=1-.2/(2+x*x)
    for f in (H.relerrinduction,H.relerrinduction_mid,H.relerrinduction_25): yield f.__name__,f,[x.copy(),U1.copy(),U2.copy()],{}
    yield 'find_nearest',H.find_nearest,[x.copy(),.3],{}
    yield 'gamma_CT_fun',H.gamma_CT_fun,[np.array([.2,.5,.8]),.5,.1,.2,.3],{}
    yield 'make_colormap',lambda v: PF.make_colormap([(0,0,1.),(1.,1,1),(1.,0,0)],values=v)(np.linspace(0,1,9)),[np.array([0,.3,1.])],{}
    AD=dict(xyz_wt=np.array([(0,0,1.5),(3.,1.,1.5)]),ct_wt=np.array([.4,.7]),xyz=np.stack([np.array([u[0],u[1],np.abs(u[2])]).T]*2,axis=-1))
    def flow(o): return [q for q in o if not isinstance(q,WindFarm)]+[q.velocity_field(*u,U0=[1.,0,0],Model=q[0].Model) for q in o if isinstance(q,WindFarm)]
    yield 'ADFarm2VCFarm',lambda a,b,c: flow(H.ADFarm2VCFarm(dict(xyz_wt=a,ct_wt=b,xyz=c),'x')),[AD['xyz_wt'].copy(),AD['ct_wt'].copy(),AD['xyz'].copy()],{}
    yield 'VCFarmFromFloris',lambda c: H.VCFarmFromFloris(c,1.5,5.).velocity_field(*u,U0=[1.,0,0]),[np.array([[.3,.5],[.6,.8]])],{}
    for hz in (True,False):
        o=H.setupModel(CT=.6,HH=9999,Lambda=np.inf,Horizontal=hz,Yaw=-20)
        yield 'OutputVC.fU',o.fU,[q.copy() for q in u],{}
        yield 'OutputVC.fAxial',o.fAxial,[x.copy()],{}
        yield 'OutputVC.fRadial',o.fRadial,[x.copy()],dict(z0=-1.)
        yield 'OutputVC.fHorz',o.fHorz,[u[0].copy(),x.copy()],{}
        yield 'OutputVC.fVert',o.fVert,[u[0].copy(),x.copy()],{}
    for n in (7,1):
        for f in (SK.fV_Trailed,SK.fV_Tangential): yield f.__name__,f,[u[2].copy(),u[0].copy(),u[1].copy(),.3,np.array([-1.]),40],dict(nout=n)
        yield 'fV_Root',SK.fV_Root,[u[2].copy(),u[0].copy(),u[1].copy()],dict(m=.3,Gamma_r=np.array([-1.]),nout=n)
    for m in (.05,-.3): yield 'fKxit',SK.fKxit,[np.array([.2,.5,.9]),m],{}; yield 'fKzt',SK.fKzt,[np.array([.2,.5,.9]),m,6],{}
    for n in ('I30','tI50','tI51','tI52'):
        if hasattr(DB,n): yield n,getattr(DB,n),[np.array([1.,2.]),np.array([.1,.2]),np.array([1.2,1.3])],{}
    for r in (np.array([.2,.7,1.4]),np.array([2.,.99])): 
        for f in (VR.ring_u_polar_singular,VR.ring_u_polar_singularb,VR.ring_u_polar): yield f.__name__,f,[r.copy(),r*0+.3,2.,1.1],{}
def data_sets(ck):
    """ planes, lines and model errors read from files (written by the helpers of C31) """
    import os, shutil, warnings, checks.C31 as C31, wiz.article_blockage.helper_functions as H
    root=C31.scratch(); cwd=os.getcwd()
    def go(nm,f,a,k={},**d): check_call(ck,nm,f,a,dict(k),dict(d,function=nm,args=[repr(q)[:80] for q in a]))
    try:
        x,z=C31.xs,C31.zs; fine=np.linspace(-6,6,41); zf=np.linspace(-6,0,25)
        for h,nm in ((9999,'CT040_HH99_Lambda99_Yaw00'),(1.5,'CT040_HH15_Lambda99_Yaw00')):
            for hor in (True,False): C31.write(root,nm,h,hor,lambda a,b,k: C31.poly(a/6,b/6,k)+.3*np.sin(a+b*k),fine,zf,fine)
        os.makedirs(os.path.join(root,'data','ProjCorr'))
        x1=np.linspace(-6,0,12); y1=np.linspace(-6,6,9); z1=1.5+np.linspace(-6,6,11); A,B,C=np.meshgrid(x1,y1,z1,indexing='ij'); g=1-.1*np.exp(-.05*(A**2+B**2+2*(C-1.5)**2))
        np.savez(os.path.join(root,'data','ProjCorr','Layout1x1_CT040S.npz'),x1=x1,y1=y1,z1=z1,u=g,v=g*0,w=g*0)
        os.chdir(os.path.join(root,'run'))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore'); v=[np.array(q) for q in ([[.3,-.2],[1.,-1.3]],[[.1,.7],[-1.,2.]],[[-.2,-1.4],[-.3,-3.]])]; cp=lambda: [q.copy() for q in v]
            for HH,hor in ((9999,True),(1.5,True),(1.5,False)):
                A=H.loadPlane(.4,HH,np.inf,hor,0); d={'HH':HH,'horizontal':hor}; A.setupInterpolants(); o={k:snap(q) for k,q in vars(A).items() if isinstance(q,np.ndarray)}
                P=H.OutputProj(.4,HH=1.5,Horizontal=hor,suffix='S'); P.setupInterpolants(); p={k:snap(q) for k,q in vars(P).items() if isinstance(q,np.ndarray)}
                for n in ('fU','fW'): go('OutputAD.'+n,getattr(A,n),cp(),**d)
                go('OutputProj.fW',P.fW,cp(),**d)
                go('OutputAD.fAxial',A.fAxial,[x.copy()],**d); go('OutputAD.fAxial',A.fAxial,[v[2].copy()],**d)
                for z0 in (0,-1.): go('OutputAD.fRadial',A.fRadial,[x.copy()],dict(z0=z0),**d)
                V=H.setupModel(A,MatchMidVel=True); go('setupModel.fU',V.fU,cp(),**d)
                for f in ([A.fHorz] if hor else [A.fVert])+([] if hor else [P.fVert]):
                    a=[x.copy(),z.copy()]; s=snap(a); f(*a); ck.case(); ck.expect(snap(a)==s,'modified:plane',d)
                ck.expect(o=={k:snap(q) for k,q in vars(A).items() if k in o} and p=={k:snap(q) for k,q in vars(P).items() if k in p},'data changed',d)
                for pol,m in itertools.product((True,False),repeat=2):
                    def err(a,b,c):
                        return H.getModelsRelErr(a,b,c,pol,.4,[{'name':n} for n in ('AD','VC','SS')]+([{'name':'GP'}] if HH<9 else []),m,HH=HH,Lambda=np.inf,Yaw=0,Horizontal=hor,suffix_GP='S',HH_GP=1.5)
                    go('getModelsRelErr',err,[np.array([0.,.4]),np.array([0.,.3]),np.array([-1.4,-2.5,-4.2])],polar=pol,match=m,**d)
            D={}
            for S,lay in ((0,'1x1'),(4,'2x3')):
                n=1 if not S else 6; q=np.zeros((5,3,2)); q[:,0,:]=np.arange(-5.,0)[:,None]; w=np.zeros((5,3,2)); w[:,0,:]=1-.01*q[:,0,:]
                D['d%d_%s_ct0.40_hh1.50'%(S,lay)]=dict(xyz=q,uvw=w,xyz_wt=np.array([(S*(i%3),4.*(i//3),1.5) for i in range(n)]),ct_wt=.3+.05*np.arange(n))
            H.save_obj(D,'../data/CFD_AD_Farm_lines_All'); L=H.OutputADLines(); ck.case(8,8)
            for S,lay in ((0,'1x1'),(4,'2x3')):
                for n in ('getSim','getSimTop','get25','getSimCTs'):
                    if n=='getSimTop' and not S: continue
                    getattr(L,n)(S,lay,.4,1.5); ck.expect(all(np.array_equal(L[k][q],D[k][q]) for k in D for q in D[k]),'data changed:'+n,{'case':lay})
    finally: os.chdir(cwd); shutil.rmtree(root)
def observe(WT,P=np.array([[.3,.2,-1.],[1.5,-.4,2.],[.1,.5,3.],[-4,1,1.]])):
    """ everything a user can see """
    o={}
    for a in ('R','r_hub','U0_g','yaw_pos','name','Ground','Model','Lambda','gamma_t','gamma_l','Gamma_r','r','Ct','chi','yaw_wind','yaw_error','e_shaft_g','e_shaft_g0','e_vert_g','e_horz_g','T_wt2g','T_c2wt','T_F2g'):
        v=getattr(WT,a,None); o[a]=np.array(v,dtype=float) if isinstance(v,(np.ndarray,float,int)) else v
    o['disk']=WT.rotor_disk_points(7); o['str']=WT.tostring(short=False)
    for i,kw in enumerate((dict(),dict(only_ind=True,longi=True,root=True),dict(ground=True),dict(no_wake=True))):
        try: o['u%d'%i]=query(WT,P,**kw)
        except Exception as e: o['u%d'%i]=type(e).__name__
    return o
def same(ck,a,b,key,detail):
    for k in a:
        if not near(a[k],b[k]): ck.fail(key,dict(detail,what=k,before=a[k],after=b[k])); return False
    return True
def turbines():
    r=np.linspace(0,1,5); Ct=np.array([.1,.6,.8,.7,.2])
    def mk(name,**ld):
        def f(model='VC',ground=False,yaw=0.,chi=None):
            W=WindTurbine(R=1.3,r_hub=[.1,1.2,-.3],Ground=ground,Model=model); W.update_wind([.5,0,9.]) if yaw else None
            if ld: W.update_loading(**{k:(v.copy() if isinstance(v,np.ndarray) else v) for k,v in ld.items()})
            W.update_yaw_pos(yaw)
            if chi is not None: W.set_chi(chi)
            return W
        f.name=name; return f
    return [mk('unloaded'),mk('single',Ct=.6),mk('swirl',Ct=.6,Lambda=7.),mk('multi',r=r*1.3,Ct=Ct,nCyl=3),mk('multiswirl',r=r*1.3,Ct=Ct,nCyl=3,Lambda=6.),mk('gamma',r=r*1.3,Gamma=5*Ct,nCyl=2,Lambda=6.),mk('zero',Ct=0.)]
OPT=[dict(),dict(only_ind=True),dict(longi=True,root=True),dict(only_ind=True,longi=True,root=True,tang=False),dict(no_wake=True),dict(ground=True,only_ind=True),dict(Model='VCFF',only_ind=True,R_far_field=2.),dict(Model='VD'),dict(Model='SS',no_wake=True,only_ind=True),dict(tang=False,only_ind=True),dict(tang=False),dict(ground=True,longi=True,root=True,no_wake=True)]
def run(ck):
    ck.level='exploration'
    ck.rule='case = one call of a public function/query (every function of the registry x point set, every solver branch, every turbine kind x yaw x option) with: bit-exact snapshot of the arguments, read-only arguments, memory-sharing test of outputs vs inputs and vs each other, repetition after overwriting outputs, overwriting of inputs; and one operation on objects (queries leave everything observable unchanged; caller modifies the arrays it gave; objects created with default arguments are independent)'
    # --- functions
    def ff(ck,f):
        for sp in (True,False):
            P=api.points(f.coords,1.3,special=sp)
            for shape in ((-1,),(3,-1)):
                for s in (-2.,0.) :
                    a=[q.reshape(shape).copy() for q in P]
                    check_call(ck,'field:'+f.name.split(':')[0],lambda x,y,z: f.f(x,y,z,1.3,s),a,{},{'function':f.name,'special points':sp,'intensity':s,'shape':list(a[0].shape)})
        # intensity given as an array of one value (as turbines do), where supported
        P=api.points(f.coords,1.3,special=True)
        try: f.f(*[q.copy() for q in P],1.3,np.array([-2.]))
        except Exception: return
        check_call(ck,'field:array intensity:'+f.name.split(':')[0],lambda x,y,z,s: f.f(x,y,z,1.3,s),[q.copy() for q in P]+[np.array([-2.])],{},{'function':f.name,'intensity':'array'})
    pmap(ck,ff,api.F)
    for nm,f,a,k in solver_cases(): check_call(ck,nm,f,a,k,{'function':nm,'args':[repr(x)[:80] for x in a],'kwargs':repr(k)})
    from common import quiet
    for nm,f,a,k in helper_cases():
        with quiet(): check_call(ck,nm,f,a,k,{'function':nm,'args':[repr(x)[:80] for x in a],'kwargs':repr(k)})
    with quiet(): data_sets(ck)
    ck.sample({'functions':[f.name for f in api.F][:10]})
    # --- turbine queries: no modification of the arrays or of the turbine
    P=api.points('xyz',1.3,special=True)
    jobs=[(t,y,c,o) for t in turbines() for y in (0.,.3) for c in (None,.2) for o in OPT]
    def fq(ck,j):
        t,y,c,o=j; W=t(yaw=y,chi=c); d={'turbine':t.name,'yaw':y,'chi':c,'query':o}
        b=observe(W)
        for shape in ((-1,),(5,3)):
            A=[q.reshape(shape).copy() for q in P]
            try: W.compute_u(*[q.copy() for q in A],**o)
            except Exception as e:
                ck.case(); bt=[q.copy() for q in A]
                try: W.compute_u(*bt,**o)
                except Exception: pass
                ck.expect(all(np.array_equal(x,z) for x,z in zip(A,bt)),'turbine:refused_modified',d)
                continue
            check_call(ck,'turbine',lambda *a: W.compute_u(*a,**o),A,{},d)
            # outputs do not refer to the turbine
            u=W.compute_u(*[q.copy() for q in P],**o)
            for x in u:
                for nm,v in vars(W).items():
                    if isinstance(v,np.ndarray) and x.size and v.size and np.shares_memory(x,v): ck.fail('turbine:shares',dict(d,attribute=nm))
        same(ck,b,observe(W),'turbine:changed',d)
    pmap(ck,fq,jobs)
    ck.sample({'turbine':'multi','yaw':.3,'chi':None,'query':OPT[2]})
    # --- other read-outs do not modify and do not give access to the turbine
    for t in turbines():
        for y in (0.,.3):
            W=t(yaw=y); b=observe(W); ck.case()
            for v in (W.rotor_disk_points(5),): v[...]=99
            W.chi; W.yaw_wind; W.yaw_error; repr(W); W.tostring()
            same(ck,b,observe(W),'readout:changed',{'turbine':t.name,'yaw':y})
    # --- the caller modifies the arrays it gave
    SETS={
     'r_hub':(lambda a: WindTurbine(R=1.,r_hub=a,Ct=.5),[1.,2,3]),
     'e_shaft':(lambda a: WindTurbine(R=1.,e_shaft_yaw0=a,Ct=.5),[0.,0,1]),
     'e_vert':(lambda a: WindTurbine(R=1.,e_vert=a,Ct=.5),[0.,1,0]),
     'U0':(lambda a: WindTurbine(R=1.,U0=a,Ct=.5),[1.,0,9]),
     'update_wind':(lambda a: up(lambda W: W.update_wind(a)),[1.,0,8]),
     'update_position':(lambda a: up(lambda W: W.update_position(a)),[1.,2,8]),
     'coord:s':(lambda a: up(lambda W: W.set_yaw0_coord(a,[0,1,0])),[1.,0,0]),
     'coord:v':(lambda a: up(lambda W: W.set_yaw0_coord([1,0,0],a)),[0.,0,1]),
     'coord:s+yaw':(lambda a: up(lambda W: (W.set_yaw0_coord(a,[0,1,0]),W.update_yaw_pos(.2))),[1.,0,0]),
     'load:r':(lambda a: up(lambda W: W.update_loading(r=a,Ct=np.array([.2,.6,.4]),nCyl=2)),[0.,.5,1]),
     'load:Ct':(lambda a: up(lambda W: W.update_loading(r=np.array([0,.5,1]),Ct=a,nCyl=2)),[.2,.5,.1]),
     'load:Ct:None':(lambda a: up(lambda W: W.update_loading(r=np.array([.2,.5,.9]),Ct=a,nCyl=None)),[.2,.5,.1]),
     'load:r:None':(lambda a: up(lambda W: W.update_loading(r=a,Ct=np.array([.2,.6,.4]),nCyl=None)),[.2,.5,.9]),
     'load:Gamma:None':(lambda a: up(lambda W: W.update_loading(r=np.array([.2,.5,.9]),Gamma=a,nCyl=None,Lambda=6)),[2.,5,1]),
     'load:Gamma:r:None':(lambda a: up(lambda W: W.update_loading(r=a,Gamma=np.array([2.,5,1]),nCyl=None,Lambda=6)),[.2,.5,.9]),
     'load:Ct1':(lambda a: up(lambda W: W.update_loading(Ct=a)),[.5]),
     'load:Gamma':(lambda a: up(lambda W: W.update_loading(r=np.array([0,.5,1]),Gamma=a,nCyl=2,Lambda=6)),[2.,5,1]),
     'layout':(lambda a: lay(a),[[1.,2,3],[4,5,6.]]),
    }
    def up(f):
        W=WindTurbine(R=1.,Ct=.4); f(W); return W
    def lay(a):
        F=WindFarm([WindTurbine(R=1.,Ct=.4),WindTurbine(R=1.,Ct=.5)]); F.layout=a; return F[1]
    CONT={'array':lambda v: np.array(v,float),'column':lambda v: np.array(v,float).reshape(-1,1) if np.ndim(v)==1 else np.array(v,float),'fortran':lambda v: np.asfortranarray(np.array(v,float)),'list':lambda v: [list(x) if isinstance(x,list) else x for x in v],'view':lambda v: np.repeat(np.array(v,float),2,axis=0)[::2]}
    for nm,(f,v) in SETS.items():
        for cn,c in CONT.items():
            if cn=='column' and nm.startswith('load'): continue
            if cn=='list' and nm.startswith('load') and 'None' in nm: continue
            a=c(v); s0=snap(a); W=f(a); ck.case()
            ck.expect(snap(a)==s0,'setter:modified:'+nm,{'setter':nm,'container':cn})
            b=observe(W)
            if isinstance(a,list):
                for i in range(len(a)): a[i]=[7.,-7,7.][:len(v[0])] if isinstance(a[i],list) else 7.+i
            else: a[...]=7.+np.arange(a.size).reshape(a.shape)
            same(ck,b,observe(W),'setter:held:'+nm,{'setter':nm,'container':cn})
    # callback: the turbine does not hold the array returned by, nor given to, the loading function
    for n,c in ((1,.5),(2,np.array([.3,.6,.5]))):
        hold=[]
        def cb(Ct):
            g=-2.*np.asarray(Ct,float); hold.append(g); hold.append(Ct); return g
        Ctin=np.array(c); W=WindTurbine(R=1.); W.update_loading(r=np.array([0,.5,1]),Ct=Ctin,nCyl=n,gamma_t_Ct=cb); b=observe(W); ck.case()
        Ctin[...]=99.
        same(ck,b,observe(W),'callback:held',{'nCyl':n})
    # layouts and positions read are copies: every size of farm, every element overwritten
    for n in range(5):
        for kind in ('created','moved','assigned'):
            Ts=[WindTurbine(R=1.,r_hub=[1.+i,2.,3.*i],Ct=.4) for i in range(n)]; F=WindFarm(Ts)
            if kind=='moved': [W.update_position(np.array([5.*i,1.,2.])) for i,W in enumerate(Ts)]
            if kind=='assigned' and n: F.layout=np.arange(3.*n).reshape(n,3)
            bs=[observe(W) for W in Ts]; l=F.layout; keep=l.copy(); ck.case(1,int(n>0))
            for k in range(l.size): l.flat[k]=55.
            ck.expect(np.array_equal(F.layout,keep),'layout:view',{'turbines':n,'positions':kind,'got':F.layout,'expected':keep})
            for b,W in zip(bs,Ts): same(ck,b,observe(W),'layout:turbine changed',{'turbines':n,'positions':kind})
            ls=[F.layout,F.layout]
            ck.expect(not (n and np.shares_memory(*ls)),'layout:shared',{'turbines':n})
    # --- independence of objects created with default arguments: all pairs of (creation, operation)
    MK={'default':lambda: WindTurbine(R=1.),'Ct':lambda: WindTurbine(R=1.,Ct=.5),'swirl':lambda: WindTurbine(1.,Ct=.5,Lambda=5)}
    OPS={'wind':lambda W: W.update_wind([1.,0,5]),'pos':lambda W: W.update_position([1,2,3]),'yaw':lambda W: W.update_yaw_pos(.3),'load':lambda W: W.update_loading(r=np.array([0,.5,1]),Ct=np.array([.1,.2,.3]),nCyl=2,Lambda=4),
         'coord':lambda W: W.set_yaw0_coord([1,0,0],[0,1,0]),'chi':lambda W: W.set_chi(.2),'query':lambda W: W.compute_u(np.array([1.]),np.array([1.]),np.array([1.])) if W.gamma_t is not None else 0,
         'inplace':lambda W: [v.__setitem__(Ellipsis,3.) for v in vars(W).values() if isinstance(v,np.ndarray) and v.flags.writeable and v.dtype.kind in 'fi']}
    for (n1,m1),(n2,m2) in itertools.product(MK.items(),repeat=2):
        for on,op in OPS.items():
            A,B=m1(),m2(); b=observe(B); op(A); ck.case()
            same(ck,b,observe(B),'independent',{'created':[n1,n2],'operation on first':on})
            C=m2(); same(ck,b,observe(C),'later_turbine',{'created':n2,'previous operation':on})
    for mk in (lambda: WindFarm(),lambda: WindFarm(name='a'),lambda: WindFarm([])):
        A,B=mk(),mk(); A.append(WindTurbine(R=1.,Ct=.5)); ck.case()
        ck.expect(len(B)==0 and len(WindFarm())==0 and A.nWT==1,'farm:independent',{'got':[len(B),len(WindFarm())]})
    L=[WindTurbine(R=1.,Ct=.5)]; A,B=WindFarm(L),WindFarm(L); A.append(WindTurbine(R=2.,Ct=.5)); ck.case()
    ck.expect(len(L)==1 and len(B)==1,'farm:list',{'got':[len(L),len(B)]})
    # --- farms: queries change nothing
    for yaw in (0.,.3):
        Ts=[turbines()[1](yaw=yaw),turbines()[3](yaw=yaw)]; Ts[1].update_position([5.,1,2]); F=WindFarm(Ts); bs=[observe(W) for W in Ts]
        for o in (dict(),dict(U0=np.array([1.,2,3])),dict(no_wake=True,U0=[1,2,3]),dict(longi=True,root=True),dict(ground=True)):
            A=[q.copy() for q in P]
            check_call(ck,'farm',lambda *a,**k: F.velocity_field(*a,**k),A,dict(o),{'query':{k:repr(v) for k,v in o.items()},'yaw':yaw})
        repr(F); F.layout; F.nWT
        for b,W in zip(bs,Ts): same(ck,b,observe(W),'farm:changed',{'yaw':yaw})
        ck.expect(len(F)==2,'farm:len',{})
