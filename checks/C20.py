"""Linearity in the intensity, superposition, stacking, rings limit"""
import numpy as np, itertools
from common import pmap
from oracle import axis_frames, oblique_frames
from wt import query, fquery, WindTurbine, WindFarm
import api, wiz.VortexCylinder as VC, wiz.VortexCylinderSkewed as SK, wiz.VortexDoublet as DB, wiz.VortexRing as VR, wiz.VortexPoint as VP, wiz.VortexLine as VL
A=np.array
def C(x): return np.array(x,float)
def field(ck,i):
    f=api.F[i]
    for L in (1.,.03,63.):
        for sp in (True,False):
            c=api.points(f.coords,L,sp); base=f.f(*[q.copy() for q in c],L,1.)
            mag=0.
            for b in base: mag=mag+(np.where(np.isfinite(b),np.abs(b),0) if np.ndim(b)==1 and len(b)==len(c[0]) else 0.)      # rounding is relative to the vector
            for s in (0.,-1.,2.5,-1e-3,1e6,-1e-12,1.):
                got=f.f(*[q.copy() for q in c],L,s)
                ck.expect(len(got)==len(base),'outputs:'+f.name,{'function':f.name})
                for j,(g,b) in enumerate(zip(got,base)):
                    b=np.asarray(b); g=np.asarray(g); k=np.isfinite(b); ck.case(b.size,int(np.sum(b!=0))*(s!=0))
                    ck.close(np.where(k,g,0),np.where(k,b,0)*s,'linear:'+f.name,lambda:{'function':f.name,'L':L,'intensity':s,'output':j,'points':[list(map(float,q)) for q in c]},rtol=1e-10,atol=1e-14*abs(s)*L**-f.sdim,scale=abs(s)*mag*1e-2 if np.ndim(mag) and b.shape==mag.shape else None)
POS=[(0.,0.,0.),(3.,.4,-.3),(-1.2,2.5,1.1)]; RAD=[(.5,1.),(.3,.8),(1.2,.25)]; MM=[(.3,-.2),(.1,.4),(0.,.6)]
def pts():
    x,y,z=[q.ravel() for q in np.meshgrid([-2.2,.11,.72,3.63],[-.6,.13,1.9],[-.55,.37,2.4],indexing='ij')]
    return x,y,z
def multi(ck,it):
    """ all subsets of 3 turbines x all on/off patterns of their two concentric cylinders, intensities of one sign too when all are active """
    G=A([[1.3,-.4],[.7,2e-4],[-1.1,.3]])
    for g in (G,abs(G),-abs(G)) if all(it[2]) else (G,): multi1(ck,it,g)
def multi1(ck,it,G):
    kind,gr,pat=it
    P=pts(); X,Y,Z=[A([p[k] for p in POS]) for k in range(3)]; R=A(RAD); M=A(MM)
    on=A(pat,float).reshape(3,2)
    f={'vcs_tang':lambda g,R,M,X,Y,Z: VC.vcs_tang_u(*C(P),g,R,X,Y,Z,Ground=gr),'vcs_eps':lambda g,R,M,X,Y,Z: VC.vcs_tang_u(*C(P),g,R,X,Y,Z,Ground=gr,epsilon=.07),
       'vcs_longi':lambda g,R,M,X,Y,Z: VC.vcs_longi_u(*C(P),g,R,X,Y,Z,Ground=gr),
       'svcs_tang':lambda g,R,M,X,Y,Z: SK.svcs_tang_u(*C(P),g,R,M,X,Y,Z,ntheta=60,Ground=gr),'svcs_longi':lambda g,R,M,X,Y,Z: SK.svcs_longi_u(*C(P),g,R,M,X,Y,Z,ntheta=60,Ground=gr)}[kind]
    base={'vcs_tang':lambda x,y,z,g,r,m: VC.vc_tang_u(x,y,z,g,r,polar_out=False),'vcs_eps':lambda x,y,z,g,r,m: VC.vc_tang_u(x,y,z,g,r,polar_out=False,epsilon=.07),'vcs_longi':lambda x,y,z,g,r,m: VC.vc_longi_u(x,y,z,g,r,polar_out=False),
       'svcs_tang':lambda x,y,z,g,r,m: SK.svc_tang_u(x,y,z,g,r,m,ntheta=60,polar_out=False),'svcs_longi':lambda x,y,z,g,r,m: SK.svc_longi_u(x,y,z,g,r,m,ntheta=60,polar_out=False)}[kind]
    want=np.zeros((3,len(P[0]))); ok=np.ones(len(P[0]),bool)
    sgn=-1 if 'longi' in kind else 1      # image in the ground plane y=0: axial velocity even, vorticity along z reversed
    for i,j in itertools.product(range(3),range(2)):
        if not on[i,j]: continue
        want+=A(base(P[0]-X[i],P[1]-Y[i],P[2]-Z[i],G[i,j],R[i,j],M[i,j]))
        if gr:
            a=A(base(P[0]-X[i],-P[1]-Y[i],P[2]-Z[i],G[i,j],R[i,j],M[i,j])); a[1]*=-1
            b=A(base(P[0]-X[i],P[1]+Y[i],P[2]-Z[i],G[i,j],R[i,j],M[i,j]))*sgn
            if sgn<0: a=b
            else: ok&=(np.abs(a-b)<=1e-10*(1+np.abs(a))).all(axis=0)     # image velocity evaluated in two ways: where they differ the azimuthal quadrature is not converged
            want+=b
    d=lambda:{'function':kind,'ground':gr,'active (turbine,cylinder)':on,'intensities':G,'radii':R,'positions':POS}
    got=A(f(G*on,R.copy(),M.copy(),X.copy(),Y.copy(),Z.copy())); ck.case(got.size,got.size if any(pat) else 0)
    ck.close(got[:,ok],want[:,ok],'superposition:%s:%s'%(kind,'ground' if gr else 'free'),d,rtol=1e-9,scale=1.)
    act=[i for i in range(3) if on[i].any()]
    if act:                                # only the turbines involved, in any order
        for o in itertools.permutations(act):
            o=list(o); got=A(f((G*on)[o],R[o],M[o],X[o],Y[o],Z[o])); ck.case(got.size); ck.close(got[:,ok],want[:,ok],'order:%s:%s'%(kind,'ground' if gr else 'free'),d,rtol=1e-9,scale=1.)
        got=A(f((G*on)[:,::-1].copy(),R[:,::-1].copy(),M[:,::-1].copy(),X.copy(),Y.copy(),Z.copy())); ck.case(got.size); ck.close(got[:,ok],want[:,ok],'order of cylinders:%s'%kind,d,rtol=1e-9,scale=1.)
def lat():
    r,z=[q.ravel() for q in np.meshgrid([0.,1e-5,.31,.9,.999,1.001,1.1,2.3,40.],[-30.,-2.01,-1.,-.03,-1e-6,.02,.4,.93,1.7,3.3,28.],indexing='ij')]
    return r*np.cos(.8),r*np.sin(.8),z
def stack(ck,it):
    kind,R,cuts=it; X,Y,Z=[q*R for q in lat()]; cuts=[c*R for c in cuts]
    d=lambda:{'kind':kind,'R':R,'ends/R':[c/R for c in cuts]}
    g=-1.7; n=Z.size
    if kind=='cyl':
        for pol in (True,False):
            tot=A(VC.cylinder_tang_u(X,Y,Z,g,R,cuts[0],cuts[-1],polar_out=pol)); s=sum(A(VC.cylinder_tang_u(X,Y,Z,g,R,a,b,polar_out=pol)) for a,b in zip(cuts[:-1],cuts[1:]))
            ck.case(tot.size); ck.close(s,tot,'stack:cylinders',d,rtol=1e-9,atol=1e-11)
            semi=A(VC.vc_tang_u(X,Y,Z-cuts[0],g,R,polar_out=pol)); rest=A(VC.vc_tang_u(X,Y,Z-cuts[-1],g,R,polar_out=pol))
            ck.case(tot.size); ck.close(tot+rest,semi,'stack:semi-infinite',d,rtol=1e-9,atol=1e-11)
    elif kind=='line':
        for m in (0.,.3,-.7):
            off=A([np.abs(Y)<1e-6*R])[0]
            f=lambda a,L: A(DB.doublet_line_u(X-m*a,Y,Z-a,g,m=m,L=L))
            k=(np.hypot(X,Y)>.2*R)&(np.hypot(X-m*Z,Y)>.2*R)
            tot=f(cuts[0],cuts[-1]-cuts[0])[:,k]; s=sum(f(a,b-a)[:,k] for a,b in zip(cuts[:-1],cuts[1:])); sc=np.max(np.abs(tot))
            ck.case(tot.size); ck.close(s,tot,'stack:doublet lines',d,rtol=1e-9,atol=1e-9*sc)
            ck.case(tot.size); ck.close(tot+f(cuts[-1],np.inf)[:,k],f(cuts[0],np.inf)[:,k],'stack:doublet semi-infinite',d,rtol=1e-9,atol=1e-9*sc)
    elif kind=='rings':
        k=np.abs(np.hypot(X,Y)-R)>.05*R; x,y,z=X[k],Y[k],Z[k]
        t,w=np.polynomial.legendre.leggauss(40); zs=[];ws=[]
        a,b=cuts[0],cuts[-1]; npan=int(np.ceil((b-a)/(.25*R)))
        for p in range(npan):
            l=(b-a)/npan; zs+=list(a+l*(p+.5+.5*t)); ws+=list(w*l/2)
        for pol in (True,False):
            u=A(VR.rings_u(x,y,z,g*A(ws),R+0*A(ws),0*A(ws),0*A(ws),A(zs),polar_out=pol)); tot=A(VC.cylinder_tang_u(x,y,z,g,R,a,b,polar_out=pol))
            ck.case(tot.size); ck.close(u,tot,'rings limit',d,rtol=1e-8,atol=1e-9)
LOADN=4
def turbine(ck,it):
    """ turbine velocities are linear in the intensities of its cylinders and in its components; farms of superposed turbines """
    (es,ev),yaw,skew,opt,gr=it; R=2.; T=np.column_stack((np.cross(ev,es),ev,es)); hub=T@A([.3,3.1,-.5]); U0=T@(7*A([np.sin(yaw+skew),0,np.cos(yaw+skew)]))
    P=(A([(.31,.12,-1.1),(.42,-.75,.31),(2.3,.8,.9),(-1.4,.5,2.6),(.17,.13,1.7),(.05,-.63,11.)])*R)@T.T+hub
    def mk(g=None,**kw):
        W=WindTurbine(R=R,r_hub=list(hub),e_shaft_yaw0=list(es),e_vert=list(ev),U0=list(U0))
        if g is None: W.update_loading(**kw)
        else: W.update_loading(r=np.linspace(0,R,len(g)),Ct=np.zeros(len(g)),nCyl=len(g),Lambda=np.inf,gamma_t_Ct=lambda c: A(g,float))
        W.update_yaw_pos(yaw); return W
    q=lambda W,**kw: query(W,P,only_ind=True,ground=gr,**dict(opt,**kw))
    d=lambda:{'frame':[es,ev],'yaw':yaw,'skew':skew,'query':opt,'ground':gr}
    for n in ((1,) if 'Model' in opt else (1,LOADN)):
        E=[q(mk(list(np.eye(n)[i]))) for i in range(n)]
        for g in itertools.product([0.,-1.3,.7],repeat=n):
            ck.case(1,int(any(g))); ck.close(q(mk(list(g))),sum(a*b for a,b in zip(g,E)),'turbine:intensities',lambda:dict(d(),gamma=g),rtol=1e-10,scale=1.)
    if 'Model' not in opt:
        for load in (dict(Ct=.7,Lambda=5.),dict(r=A([.1,1.,2.]),Ct=A([.3,.8,.6]),nCyl=3,Lambda=7.)):
            W=mk(**load); c={k:q(W,tang=k=='t',longi=k=='l',root=k=='r') for k in 'tlr'}
            for S in itertools.product((False,True),repeat=3):
                ck.case(1,int(any(S))); ck.close(q(W,tang=S[0],longi=S[1],root=S[2]),sum([c[k] for k,b in zip('tlr',S) if b],np.zeros(P.shape)),'turbine:components',lambda:dict(d(),components=S),rtol=1e-10,scale=1e-3)
            k=3; F=WindFarm([mk(**load) for _ in range(k)]); ck.case(1)
            if not gr: ck.close(fquery(F,P,**opt),k*query(W,P,only_ind=True,ground=False,**opt),'farm of identical turbines',d,rtol=1e-10,scale=1e-3)
def misc(ck):
    x,y,z=pts()
    for m in (A([0,0,1.]),A([1.,0,0]),A([.2,-.5,0.])):
        for m2 in (A([0,1.,0]),A([-.3,.1,2.])):
            f=lambda q: A(DB.doublet_u(x,y,z,list(q),x0=[.1,.2,-.1])); ck.case(x.size); ck.close(f(m+m2),f(m)+f(m2),'doublet:vector',{'m':m,'m2':m2},rtol=1e-10,scale=1e-6)
    for pat in itertools.product((0.,1.),repeat=4):
        G=A([1.,-2.,.5,3.]); on=A(pat); V=A([[.3,.1],[-1.,.4],[2.,2.],[.7,-1.3]]); S=A([.3,.2,.5,.4]); CP=np.column_stack((x,y))
        for mod,o in itertools.product((0,1,2),(2,4,6)):
            if mod==0 and o!=2: continue
            f=lambda k: VP.vps_u(CP,V[k],(G*on)[k],mod,o,S[k])
            want=sum(f([i]) for i in range(4)); ck.case(want.size); ck.close(f([0,1,2,3]),want,'vortex points',{'active':pat,'model':mod,'order':o},rtol=1e-10,scale=1e-6)
            ck.close(f([3,1,0,2]),want,'vortex points order',{'active':pat,'model':mod,'order':o},rtol=1e-10,scale=1e-6)
        Rr,X,Y,Z=A([1.,.5,1.2,.3]),A([0,.4,-1.,2.]),A([0,.3,.9,-.4]),A([0,-.6,1.3,.2])
        for pol in (True,False):
            if pol: X=Y=0*X
            f=lambda k,pol=pol: A(VR.rings_u(x,y,z,(G*on)[k],Rr[k],X[k],Y[k],Z[k],polar_out=pol))
            ck.case(x.size); ck.close(f([0,1,2,3]),sum(f([i]) for i in range(4)),'rings',{'active':pat,'polar':pol},rtol=1e-10,scale=1e-6)
    r,p=np.hypot(x,y),np.arctan2(y,x)
    for a in itertools.product((0.,1.,-.6),repeat=3):
        for m in (0.,.4,-.8):
            s=A(SK.svc_u_polar(r,p,z,a[0],a[1],a[2],R=1.,m=m,ntheta=60)); w=0
            for c,f in zip(a,(SK.svc_tang_u_polar,SK.svc_longi_u_polar)): w=w+A(f(r,p,z,c,R=1.,m=m,ntheta=60))
            w=w+A(SK.svc_root_u_polar(r,p,z,a[2],m=m)); ck.case(s.size); ck.close(s,w,'svc_u_polar',{'intensities':a,'m':m},rtol=1e-10,scale=1e-6)
def run(ck):
    ck.level='exploration'
    ck.rule='case = one velocity component of one function at one point for one intensity, one on/off pattern of a multi-cylinder set (all 2^6 patterns, with all orders), one stack of cylinders/lines/rings, or one combination of cylinder intensities/components of a turbine (all enumerated); non-trivial = non-zero intensity'
    pmap(ck,field,list(range(len(api.F))))
    pats=list(itertools.product((0,1),repeat=6))
    pmap(ck,multi,[(k,g,p) for k in ('vcs_tang','vcs_eps','vcs_longi','svcs_tang','svcs_longi') for g in (False,True) for p in (pats if ck.thorough or k[0]=='v' else pats[1::5]+pats[-1:])])
    pmap(ck,stack,[(k,R,c) for k in ('cyl','line','rings') for R in (1.,.02,63.) for c in ([-1.5,.7],[0.,.5,2.],[-2.,-1.9,0.,3.],[.1,.2,.3,.4,.5])])
    ax=axis_frames(); fr=[ax[16],oblique_frames()[0]]+([ax[3],oblique_frames()[1]] if ck.thorough else [])
    its=[(f,y,s,o,g) for f in fr for y,s,oo in ((0.,0.,[dict(),dict(Model='VCFF',R_far_field=2.),dict(Model='VD'),dict(Model='SS'),dict(no_wake=True)]),(.5,0.,[dict()]),(-.4,.3,[dict()])) for o in oo for g in (False,True)]
    pmap(ck,turbine,its); misc(ck)
