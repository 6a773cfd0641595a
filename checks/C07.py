"""Ground effect: mirror image"""
import numpy as np, itertools
import wiz.VortexCylinder as VC, wiz.VortexCylinderSkewed as SK
from common import pmap
from oracle import rot, axis_frames, oblique_frames
from wt import Ref, Loading, Refused, WindTurbine, WindFarm, query, fquery, away
R=2.
r3=np.array([0,.3,.7,1])*R
LOADS={'n1':Loading(Ct=.7),'n1swirl':Loading(Ct=.6,Lambda=6.),'n2swirl':Loading(r=r3,Ct=np.array([.3,.7,.6,.2]),Lambda=7.,nCyl=2),
       'n4':Loading(r=r3,Gamma=np.array([1.,6.,7.,2.])*R,Lambda=9.,nCyl=4),'n3':Loading(r=r3,Ct=np.array([.2,.9,.5,.1]),nCyl=3)}
COMPS={'tang':dict(),'longi':dict(tang=False,longi=True),'root':dict(tang=False,root=True),'all':dict(longi=True,root=True),'nowake':dict(no_wake=True,longi=True),
       'VCFF':dict(Model='VCFF',R_far_field=2.),'VD':dict(Model='VD'),'SS':dict(Model='SS')}
HEIGHTS=(0.,.3,1.,1.5,5.,-1.4,12.,70.)
YS=((0.,0.),(.5,0.),(.3,.25),(-1.,-.4))   # yaw, skew
# ground points (lateral, longitudinal), and points in the air, frame of the rotor's reference axes
G=np.array([[.37,-1.9],[-.61,.42],[2.9,.8],[-1.7,3.1],[.2,-.3],[-4.4,-2.6],[1.15,7.3],[30.,-20.]])*R
AIR=np.array([[.3,.8,-1.3],[-.4,.3,2.2],[2.6,1.4,.9],[-1.2,2.9,-.6],[.2,-.7,4.],[7.,3.,9.]])*R
def item(ck,it):
    ln,h,(yaw,skew),fr=it
    es,ev=fr; A=np.column_stack((np.cross(ev,es),ev,es))
    U0=A@(9*np.array([np.sin(yaw+skew),0,np.cos(yaw+skew)]))
    hub=A@np.array([.7,h*R,-1.1])
    def new(**k):
        W=WindTurbine(R=R,r_hub=list(hub),e_shaft_yaw0=list(es),e_vert=list(ev),U0=list(U0),**k); W.update_loading(**LOADS[ln].kw()); W.update_yaw_pos(yaw); return W
    ref=Ref(R=R,hub=hub,es=es,ev=ev,U0=U0); ref.load(LOADS[ln]); ref.yaw=yaw
    gp=np.column_stack((G[:,0],0*G[:,0],G[:,1]))@A.T
    gp=gp[away(ref,gp,True,margin=.25)]
    air=AIR@A.T
    if h>4: air=np.concatenate((air,air+h*R*ev,air-h*R*ev))   # around the rotor and its image
    air=air[away(ref,air,True,margin=.25)]
    mir=lambda V: V-2*np.outer(V@ev,ev)
    W=new(); WG=new(Ground=True)
    for cn,c in COMPS.items():
        d=lambda:{'load':ln,'height/R':h,'yaw':yaw,'skew':skew,'shaft':es,'vertical':ev,'query':c}
        def ask(W,P,**k):
            try: return query(W,P,only_ind=True,**dict(c,**k))
            except Exception: return None
        try: e0=ref.u(air,only_ind=True,ground=False,**c)
        except Refused: e0=None
        f0=ask(W,air); ck.case(1)
        if (f0 is None)!=(e0 is None): ck.fail('refusal:'+cn,d()); continue
        g=ask(W,air,ground=True)
        if (g is None)!=(f0 is None): ck.fail('refusal:'+cn,d()); continue
        if f0 is None: continue
        scale=max(np.abs(f0).max(),1e-3)
        pre='multi' if len(ref.cyl)>1 else 'single'
        if 'no_wake' not in c:
            m=mir(ask(W,mir(air)))
            ck.close(g,f0+m,'image:%s:%s'%(cn,pre),d,rtol=1e-7,scale=scale)
            # image turbine built as such for mirror-symmetric components: below ground
            s=ask(W,gp,ground=True); ck.case(len(gp))
            ck.expect(s is not None and np.all(np.abs(s@ev)<=1e-7*scale),'normal:%s:%s'%(cn,pre),lambda:dict(d(),points=gp,normal_velocity=None if s is None else s@ev))
            ck.close(s,2*(ask(W,gp)-np.outer(ask(W,gp)@ev,ev)),'ground:%s:%s'%(cn,pre),d,rtol=1e-7,scale=scale)
        try: e=ref.u(air,only_ind=True,ground=True,**c)
        except Refused: e=None
        if e is not None: ck.close(g,e,'ref:%s:%s'%(cn,pre),d,rtol=1e-8,scale=scale)
        # precedence of the option of the query
        ck.case(3)
        for X,k,r,t in ((WG,{},g,'own'),(WG,dict(ground=True),g,'both'),(WG,dict(ground=False),f0,'override'),(W,dict(ground=None),f0,'none'),(WG,dict(ground=None),g,'none')):
            v=ask(X,air,**k)
            if ck.expect(v is not None,'precedence:'+t,d): ck.close(v,r,'precedence:'+t,d,rtol=1e-9,scale=scale)
    # the mirrored turbine, built as an ordinary turbine, for the tangential vorticity (which is mirror symmetric)
    ck.case(1)
    I=WindTurbine(R=R,r_hub=list(mir(hub[None,:])[0]),e_shaft_yaw0=list(es),e_vert=list(ev),U0=list(U0)); I.update_loading(**LOADS[ln].kw()); I.update_yaw_pos(yaw)
    f=WindFarm([W,I])
    a=fquery(f,air); b=query(W,air,only_ind=True,ground=True)
    ck.close(b,a,'farm_of_images',lambda:{'load':ln,'height/R':h,'yaw':yaw,'skew':skew,'shaft':es,'vertical':ev},rtol=1e-7,scale=1.)
def low(ck,it):
    """ sets of cylinders of different heights, low level functions """
    kind,pat,hs=it
    x,y,z=[q.ravel() for q in np.meshgrid([-2.2,.11,.72,3.63],[0.,.13,1.9]+[s*h+.21 for h in hs for s in (1,-1) if h>10],[-.55,.37,2.4],indexing='ij')]
    n=len(hs); X=np.array([0.,3.1,-4.])[:n]; Z=np.array([0.,1.,-2.])[:n]; Y=np.array(hs)
    Rr=np.array([[1.,.5],[.7,.31],[1.2,.8]])[:n]; M=np.array([[.3,-.5],[-.2,.6],[0.,.4]])[:n]; Ga=np.array([[1.5,-.4],[.3,1.],[-.8,.7]])[:n]*np.array(pat).reshape(-1,2)[:n]
    f={'vcs_tang':lambda y,gr: VC.vcs_tang_u(x.copy(),y,z.copy(),Ga,Rr,X,Y,Z,Ground=gr),'vcs_longi':lambda y,gr: VC.vcs_longi_u(x.copy(),y,z.copy(),Ga,Rr,X,Y,Z,Ground=gr),
       'svcs_tang':lambda y,gr: SK.svcs_tang_u(x.copy(),y,z.copy(),Ga,Rr,M,X,Y,Z,ntheta=120,Ground=gr),'svcs_longi':lambda y,gr: SK.svcs_longi_u(x.copy(),y,z.copy(),Ga,Rr,M,X,Y,Z,ntheta=120,Ground=gr)}[kind]
    g=np.array(f(y.copy(),True)); e=np.array(f(y.copy(),False)); m=np.array(f(-y,False)); m[1]*=-1
    ok=np.ones(x.size,bool)
    for i,j in itertools.product(range(n),range(2)):      # away from the sheets of the cylinders and of their images
        for s in (1,-1):
            zz=np.maximum(z-Z[i],0); mm=M[i,j] if kind[0]=='s' else 0
            ok&=(np.abs(np.hypot(x-X[i]-mm*zz,s*y-Y[i])-Rr[i,j])>.2)
    d=lambda:{'function':kind,'heights':hs,'intensities':Ga,'radii':Rr}
    ck.case(int(ok.sum()),int(ok.sum())*bool(Ga.any())); ck.close(g[:,ok],(e+m)[:,ok],'image:'+kind,d,rtol=1e-6,scale=1.)
    q=ok&(y==0); ck.expect(np.all(np.abs(g[1,q])<1e-6),'normal:'+kind,d)
def run(ck):
    ck.level='exploration'
    ck.rule='case = one (loading, hub height, yaw, skew, frame, components/model) for which ground effect is compared with the mirror image, or one ground point where the normal velocity must vanish'
    ax=axis_frames(); fr=[ax[i] for i in (range(24) if ck.thorough else (16,0,11,22))]+oblique_frames()[:(3 if ck.thorough else 1)]
    items=list(itertools.product(LOADS,HEIGHTS,YS,fr))
    if not ck.thorough: items=[it for i,it in enumerate(items) if (i//len(fr)+i)%2==0]
    pmap(ck,item,items)
    pmap(ck,low,[(k,p,h) for k in ('vcs_tang','vcs_longi','svcs_tang','svcs_longi') for h in ((1.2,),(.3,1.2),(0.,2.,.8),(2.,2.,2.),(-1.,3.,.5),(15.,1.),(80.,15.)) for p in itertools.product((0,1),repeat=2*len(h)) if any(p) and (ck.thorough or sum(p)<=2 or all(p))])
