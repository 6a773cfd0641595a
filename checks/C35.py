"""The same numbers in another numeric type or memory layout give the same results"""
import numpy as np, itertools
from common import pmap, quiet
from checks import C33
from wiz.WindTurbine import WindTurbine
from wiz.WindFarm import WindFarm
A=np.array
# arguments which are numbers of something: whole numbers only, python or numpy
COUNT=('nQuad','ntheta','nout','nP','nx','nz','nxWT','nzWT','nB','nCyl','SmoothModel','KernelOrder','index')
scal=lambda v: isinstance(v,(int,float)) and not isinstance(v,bool)
def whole(v,k):
    """ whole numbers, as floats """
    if isinstance(v,float): return float(np.round(v*k)) if np.isfinite(v) else v
    if isinstance(v,np.ndarray) and v.dtype.kind=='f': return np.round(v*k)+0.
    if isinstance(v,(list,tuple)): return type(v)(whole(float(x) if scal(x) else x,k) for x in v)
    return v
def binary(v):
    """ nearest numbers which single precision holds """
    if isinstance(v,float): return float(np.float32(np.round(v*64)/64)) if np.isfinite(v) else v
    if isinstance(v,np.ndarray) and v.dtype.kind=='f': return np.round(v*64)/64+0.
    if isinstance(v,(list,tuple)): return type(v)(binary(float(x) if scal(x) else x) for x in v)
    return v
def isw(v): v=np.asarray(v,float); return bool(np.all(np.isfinite(v)) and np.all(v==np.round(v)))
def is32(v): return np.array_equal(np.asarray(v,float).astype(np.float32).astype(float),np.asarray(v,float))
def reps(q,v):
    """ [(kind, the same numbers, may it be refused?)] """
    o=[]
    if v is None or isinstance(v,(str,bool)) or callable(v): return o
    if scal(v):
        if q in COUNT: return [('int64',np.int64(v),False),('int32',np.int32(v),False),('float',float(v),True)]
        o=[('float64',np.float64(v),False),('0d',np.array(float(v)),True)]
        if isw(v): o+=[('int',int(v),False),('int64',np.int64(v),False),('int32',np.int32(v),False),('0d int',np.array(int(v)),True)]
        if is32(v): o+=[('float32',np.float32(v),False)]
    elif isinstance(v,np.ndarray) and v.dtype.kind=='f':
        if isw(v): o+=[('int64',v.astype(np.int64),False),('int32',v.astype(np.int32),False),('list of int',v.astype(int).tolist(),True)]
        if is32(v): o+=[('float32',v.astype(np.float32),False)]
        w=np.zeros(v.shape[:-1]+(3*max(v.shape[-1],1),))+9.; w[...,::3]=v; r=v.copy(); r.flags.writeable=False
        o+=[('big endian',v.astype('>f8'),False),('strided',w[...,::3][...,:v.shape[-1]],False),('reversed',v[...,::-1].copy()[...,::-1],False),('fortran',np.asfortranarray(v),False),('read only',r,False),('list',v.tolist(),True),('tuple',tuple(v.tolist()),True),('long double',v.astype(np.longdouble),True)]
    elif isinstance(v,(list,tuple)) and len(v) and all(scal(x) for x in v):
        o=[('list',[float(x) for x in v],False),('tuple',tuple(float(x) for x in v),False),('array',A(v,float),False),('column',A(v,float).reshape(-1,1),True),('row',A([v],float),True)]
        if isw(v): o+=[('ints',[int(x) for x in v],False),('int64',A(v,np.int64),False)]
        if is32(v): o+=[('float32',A(v,np.float32),False)]
    return o
def eq(a,b,t):
    if len(a)!=len(b): return False
    for x,y in zip(a,b):
        if isinstance(x,str) and isinstance(y,str): continue   # numbers may be written differently
        if isinstance(x,np.ndarray)!=isinstance(y,np.ndarray): return False
        if isinstance(x,np.ndarray):
            # NOTE: shapes may be (n,1), (1,) or () for a single number given as an array
            if x.size!=y.size: return False
            s=np.max(np.abs(x[np.isfinite(x)]),initial=0)
            if not np.allclose(x.ravel(),y.ravel(),rtol=t,atol=t*(1e-3+s),equal_nan=True): return False
        elif x!=y: return False
    return True
def tol(kinds): return 5e-3 if 'float32' in kinds else 1e-9
def table():
    T=C33.table()
    P=dict(zip('XYZ',C33.PTS.T)); see=lambda W: [W.compute_u(*C33.PTS.T),W.chi,W.yaw_pos,W.yaw_wind,W.yaw_error,W.rotor_disk_points(5),W.r_hub]
    def turb(**k):
        W=WindTurbine(R=1.,r_hub=[.1,2.,-.3],U0=[1.,0,7.],Ground=k.pop('Ground',False)); W.update_loading(r=A([0.,.5,1.]),Ct=A([.3,.8,.5]),nCyl=k.pop('n',1),Lambda=6.); return W
    for g,n in ((False,1),(True,1),(True,3)):
        t='%d%d'%(g,n)
        def hist(wind,hub,yaw,skew,shaft,up,g=g,n=n):
            """ all the settings of a turbine, one after the other """
            W=turb(Ground=g,n=n); o=[]
            for f,a in ((W.set_yaw0_coord,(shaft,up)),(W.update_wind,(wind,)),(W.update_position,(hub,)),(W.update_yaw_pos,(yaw,)),(W.set_chi,(skew,))): f(*a); o+=[see(W)]
            return o
        T['settings:'+t]=(hist,dict(wind=[3.,1.,7.],hub=[1.,2.,-1.],yaw=.25,skew=.5,shaft=[0.,0,1],up=[0.,1,0]),{})
        T['wind:'+t]=(lambda wind,yaw,g=g,n=n: (lambda W:[W.update_wind(wind),W.update_yaw_pos(yaw),see(W)][2])(turb(Ground=g,n=n)),dict(wind=[3.,0.,7.],yaw=1.),{})
        T['query:'+t]=(lambda X,Y,Z,g=g,n=n,**k: turb(Ground=g,n=n).compute_u(X,Y,Z,longi=True,root=True,**k),dict(P),{})
    def load(R,hub,U0,r,Ct,Lambda): W=WindTurbine(R=R,r_hub=hub,U0=U0); W.update_loading(r=r,Ct=Ct,nCyl=None,Lambda=Lambda); return see(W)
    T['loading of radii']=(load,dict(R=2.,hub=[1.,2,3],U0=[0.,0,8],r=A([.5,1.,2.]),Ct=A([.25,.75,.5]),Lambda=6.),{})
    def load(R,U0,r,Gamma,Lambda): W=WindTurbine(R=R,U0=U0); W.update_loading(r=r,Gamma=Gamma,nCyl=3,Lambda=Lambda); return see(W)
    T['loading circulation']=(load,dict(R=2.,U0=[0.,0,8],r=A([0.,1.,2.]),Gamma=A([1.,4.,2.]),Lambda=6.),{})
    def cb(R,U0,Ct,g): W=WindTurbine(R=R,U0=U0); W.update_loading(Ct=Ct,gamma_t_Ct=lambda c: g*np.ones(np.shape(c))); return see(W)
    T['loading by function']=(cb,dict(R=2.,U0=[0.,0,8],Ct=.5,g=-2.),{})
    def farm(layout,U0,X,Y,Z,R): F=WindFarm([WindTurbine(R=R,Ct=.5),WindTurbine(R=R,Ct=.25,Ground=True)]); F.layout=layout; return [F.layout,F.velocity_field(X,Y,Z,U0=U0),F.velocity_field(X,Y,Z,no_wake=True)]
    T['farm']=(farm,dict(layout=A([[0.,2.,1.],[3.,4.,-2.]]),U0=[1.,2.,8.],R=1.,**P),{})
    def mixed(first,second,third,U0,X,Y,Z):
        """ turbines of a farm with positions of different types """
        F=WindFarm([WindTurbine(R=1.,r_hub=h,Ct=.5) for h in (first,second,third)]); o=[F.layout,F.velocity_field(X,Y,Z,U0=U0)]
        F[0].update_position(second); o+=[F.layout,F.velocity_field(X,Y,Z,U0=U0)]; l=F.layout; F.layout=l[::-1]; return o+[F.layout,F.velocity_field(X,Y,Z)]
    T['farm of turbines']=(mixed,dict(first=[1.,2.,0.],second=[1.25,3.,-1.5],third=[-2.,1.,5.],U0=[1.,2.,8.],**P),{})
    V=VP=__import__('wiz.VortexLine',fromlist=['x'])
    for m in range(4): T['line:%d'%m]=(lambda xa,ya,za,xe,ye,ze,Gamma,t,m=m: V.vl_semiinf_u(xa,ya,za,xe,ye,ze,Gamma,m,t),dict(xa=1.,ya=2.,za=-1.,xe=0.,ye=0.,ze=1.,Gamma=2.,t=3.),{})
    SK=__import__('wiz.VortexCylinderSkewed',fromlist=['x'])
    T['fKxit']=(SK.fKxit,dict(vr=A([.25,.5,.75]),m=1.),{})
    EL=__import__('wiz.elliptic',fromlist=['x'])
    T['Pi whole']=(EL.ellipticPiCarlson,dict(n=A([-3.,0.,-1.]),m=A([-2.,-1.,0.])),{})
    SV=__import__('wiz.Solver',fromlist=['x'])
    T['stream tube']=(SV.InductionsFromPrescribedCtCq_ST,dict(vr_bar=A([.25,.5,1.]),Ct=A([.25,.75,1.]),Cq=A([.125,.25,0.]),Lambda=6.,bSwirl=True),{})
    for f in (SV.WakeVorticityFromCt,): T['FromCt']=(f,dict(r=A([.5,1.,1.75]),Ct=A([.25,.75,.5]),R=2.,U0=8.,Omega=4.),{})
    T['FromGamma']=(SV.WakeVorticityFromGamma,dict(r=A([.5,1.,1.75]),Gamma=A([1.,3.,2.]),R=2.,U0=8.,Omega=4.),{}); T['FromGamma whole']=(SV.WakeVorticityFromGamma,dict(r=A([1.,2.,3.]),Gamma=A([1.,3.,2.]),R=4.,U0=8.,Omega=4.),{}); T['FromCt whole']=(SV.WakeVorticityFromCt,dict(r=A([1.,2.,3.]),Ct=A([0.,1.,1.]),R=4.,U0=8.,Omega=4.),{})
    T['FromPrescribedCt']=(SV.CirculationFromPrescribedCt,dict(vr_bar=A([.25,.5,.75]),vCt=A([0.,1.,1.]),Lambda=4.,bSwirl=True),{}); T['FromPrescribedCt none']=(SV.CirculationFromPrescribedCt,dict(vr_bar=A([.25,.5,.75]),vCt=A([0.,1.,1.]),Lambda=4.,bSwirl=False),{})
    T['Cont whole']=(SV.InductionsFromCirculation_VC_Cont,dict(vr_bar=A([1.,2.,3.]),lambda_r=A([0.,8.,12.]),k=A([0.,1.,1.]),bSwirl=True),{})
    T['disk']=(lambda hub,nP,R: WindTurbine(R=R,r_hub=hub).rotor_disk_points(nP),dict(hub=[1.,2.,3.],nP=5,R=2.),{})
    return T
def variants(t):
    """ sets of arguments: as they are, single precision numbers, whole numbers """
    fun,req,opt=t[:3]
    for which in (0,1) if opt else (0,):
        base={**req,**{q:v[which] for q,v in opt.items()}}; base={q:(float(v) if scal(v) and q not in COUNT else v) for q,v in base.items()}
        yield 'given',which,base
        yield 'single precision',which,{q:binary(v) for q,v in base.items()}
        if len(base)>1 and not opt:     # one argument of whole numbers, the other ones as they are
            for q in base:
                if q not in COUNT: yield 'whole '+q,which,{a:whole(v,3) if a==q else v for a,v in base.items()}
        for k in (2,5,20): yield 'whole x%d'%k,which,{q:whole(v,k) for q,v in base.items()}
def one(ck,it):
    with quiet():
        name,=it; t=table()[name]; fun=t[0]; post=t[3] if len(t)>3 else (lambda o:o); ran=0
        def call(d): return C33.outcome(lambda: fun(**{q:C33.cp(v) if not (isinstance(v,np.ndarray)) else v for q,v in d.items()}),post)
        for vn,which,base in variants(t):
            ref=call({q:C33.cp(v) for q,v in base.items()})
            if ref==['refused']: continue
            if name.endswith('singularb') and np.any(base['r']==0): continue  # singular on the axis
            R={q:reps(q,v) for q,v in base.items()}; R={q:v for q,v in R.items() if v}; ran+=1
            def test(ch):
                """ arguments in another form """
                ks=[k for _,k,_,_ in ch]; d={q:C33.cp(v) for q,v in base.items()}; before=[np.array(v,float) for _,_,v,_ in ch]
                d.update({q:v for q,_,v,_ in ch}); got=call(d); ck.case(1,got!=['refused'])
                may=any(m for *_,m in ch)
                if got==['refused']:
                    ck.expect(may,'refused:'+name,lambda: {'function':name,'numbers':vn,'other':which,'arguments':[(q,k) for q,k,_,_ in ch]}); return
                ck.expect(eq(ref,got,tol(ks)),'type:'+name,lambda: {'function':name,'numbers':vn,'other':which,'arguments':[(q,k,repr(v)[:100]) for q,k,v,_ in ch],'got':got,'expected':ref})
            for q in R:
                for k,v,m in R[q]: test([(q,k,v,m)])
            kinds=sorted({k for r in R.values() for k,_,_ in r})
            for k in kinds: test([(q,k,v,m) for q in R for kk,v,m in R[q] if kk==k])       # all of them
            # whole numbers as integers in one argument, every kind in another one; all sub-sets of integers when few arguments
            INT=('int','int64','ints'); qs=[q for q in R if any(k in INT for k,_,_ in R[q])]; pick={q:[(q,k,v,m) for k,v,m in R[q] if k in INT][0] for q in qs}
            if vn.startswith('whole x') or vn=='given':
                if len(qs)<=(9 if ck.thorough else 6):
                    for b in itertools.product((0,1),repeat=len(qs)):
                        if sum(b)>1: test([pick[q] for q,x in zip(qs,b) if x])
                else:
                    for a,b in itertools.combinations(qs,2): test([pick[a],pick[b]])
            if ck.thorough and vn in ('given','single precision','whole x2'):
                for a,b in itertools.combinations(R,2):
                    for (k,v,m),(k2,v2,m2) in itertools.product(R[a],R[b]): test([(a,k,v,m),(b,k2,v2,m2)])
        ck.expect(ran>0,'refused:'+name,{'function':name}); ck.extra['functions']=1
def run(ck):
    ck.level='exploration'
    ck.rule='case = one call with one or several arguments in another numeric type or layout, compared with the call with the same numbers in double precision arrays; non-trivial = not refused'
    with quiet(): names=list(table())
    ck.sample({'functions':names}); pmap(ck,one,[(n,) for n in names])
