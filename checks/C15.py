"""Self-similar model"""
import numpy as np, lattice, itertools, oracle
from common import pmap
from numcheck import compare
from wiz.SelfSimilar import ss_u
from wt import Ref, Loading, WindTurbine, WindFarm, query, fquery
def ref(r,z,g,R,lam=.587,eta=1.32):
    """ Troldborg & Meyer Forsting 2016:  axial shape x radial shape """
    x=z/R
    # 1+x/sqrt(1+x^2) without cancellation upstream
    ax=np.where(x<0,1/(np.sqrt(1+x*x)*(np.sqrt(1+x*x)+np.abs(x))),1+x/np.sqrt(1+x*x))
    half=np.sqrt(lam*(eta+x*x)); e=np.minimum(np.sqrt(2)*np.abs(r)/R/half,300.)
    return np.where(z>0,0.,g/2*ax*(2/(np.exp(e)+np.exp(-e)))**(8/9.))
def kernel(ck,it):
    R,g,le=it
    r=np.concatenate(([0.],10.**np.arange(-12,3),[.2,.5,.9,1.1,1.5,2,3,5,20,50])); z=np.concatenate(([0.],-10.**np.arange(-15,4.),10.**np.arange(-15,4.),[-.3,-.5,-.8,-1.5,-2,-3,-5,.4,2,-1e-300,1e-300]))
    r,z=lattice.grid(np.sort(r),np.sort(z)); b={'R':R,'gamma_t':g,'lambda,eta':le}
    kw={} if le is None else {'lambda_':le[0],'eta':le[1]}
    e=ref(r*R,z*R,g,R,*(le or ())); tol=abs(g)*(2e-16*3+1e-11*np.abs(e/g) if g else 1e-300)
    for ps in (0.,.9,np.pi/2,np.pi,-2.3):
        X=(r*R*np.cos(ps),r*R*np.sin(ps) if ps else 0*r,z*R)
        compare(ck,'field','ss_u',X,ss_u(*X,g,R,**kw),e,tol,b)
    compare(ck,'kwargs','ss_u',X,ss_u(*X,gamma_t=g,R=R,**kw),e,tol,b)
    if le is None:
        # on the axis upstream: the vortex cylinder; even radially; zero downstream; decreasing radially
        za=np.sort(np.concatenate((-10.**np.arange(-6,3.),[-.4,-2.5,0.])))*R
        a=ss_u(0*za,0*za,za,g,R); _,c=oracle.cyl_tang(0*za,za,g,R); compare(ck,'axis','ss_u',(za,),a,c,abs(g)*1e-13,b)
        q=np.sort(np.array([0,.1,.3,.7,1.2,2.,4.,8.]))*R
        for zz in (-.05*R,-.5*R,-R,-3*R,-10*R):
            u=ss_u(q,0*q,0*q+zz,g,R); v=ss_u(-q,0*q,0*q+zz,g,R); w=ss_u(0*q,-q,0*q+zz,g,R); ck.case(3*len(q))
            ck.expect(np.allclose(u,v,rtol=1e-13,atol=0) and np.allclose(u,w,rtol=1e-13,atol=0),'even',dict(b,z=zz))
            ck.expect(g==0 or np.all(np.diff(np.abs(u))<0),'decreasing',dict(b,z=zz,got=u))
            half=R*np.sqrt(.587*(1.32+(zz/R)**2)); s=(1/np.cosh(np.sqrt(2)))**(8/9.)
            ck.close(ss_u(np.array([half]),np.array([0.]),np.array([zz]),g,R),s*u[:1],'half_width',lambda:dict(b,z=zz),rtol=1e-10)
P=np.array([[.4,.7,-1.],[.3,1.2,2.3],[-3.,1.,-2.],[1.,-2.,4.6],[0,0,-.7],[0,0,1.3],[-2.,3.3,-4.],[.3,.2,-.01],[.2,.1,.01],[1.,.3,-.4]])
def turbine(ck,it):
    R,h,yaw,gr,(es,ev),own=it
    A=np.column_stack((np.cross(ev,es),ev,es)); hub=A@np.array([.5,h,-.3])*R
    rf=Ref(R=R,hub=hub,es=es,ev=ev,U0=A@(8*np.array([np.sin(yaw),0,np.cos(yaw)]))); rf.load(Loading(Ct=.7)); rf.yaw=yaw
    W=WindTurbine(R=R,r_hub=list(hub),e_shaft_yaw0=list(es),e_vert=list(ev),U0=list(rf.U0),Model='SS' if own else 'VC'); W.update_loading(Ct=.7); W.update_yaw_pos(yaw)
    X=(P*R)@oracle.rot((0,1,0),yaw).T@A.T+hub; g=rf.cyl[0][1]; n=rf.e_s
    def one(Q): L=rf.local(Q); return np.outer(ref(np.hypot(L[:,0],L[:,1]),L[:,2],g,R),n)
    k=dict(only_ind=True,ground=gr); k.update({} if own else {'Model':'SS'})
    u=query(W,X,**k); e=one(X); M=lambda V: V-2*np.outer(V@ev,ev)
    if gr: e=e+M(one(M(X)))
    ck.case(len(X)); d=lambda:{'R':R,'hub':hub,'yaw':yaw,'query':k,'shaft':es,'vertical':ev}
    ck.close(u,e,'turbine',d,rtol=1e-8,scale=1.)
    ck.close(query(W,X,**dict(k,only_ind=False)),e+rf.U0,'turbine',d,rtol=1e-8,scale=1.)
    ck.close(fquery(WindFarm([W]),X,**{a:b for a,b in k.items() if a!='only_ind'}),e,'farm',d,rtol=1e-8,scale=1.)
def run(ck):
    ck.level='exploration'
    ck.rule='case = velocity at one lattice point (each decade of radius and axial distance on both sides of the rotor plane), radius, intensity and shape parameters vs the published shape; or one turbine query; non-trivial = expected value not negligible'
    pmap(ck,kernel,list(itertools.product((1.,.02,63.,5.5),(-1.,-7.,2.,0.),(None,(.4,1.1),(.9,2.)))))
    fr=oracle.axis_frames()+oracle.oblique_frames()
    pmap(ck,turbine,[(R,h,y,gr,f,own) for R in (1.,40.) for h in (0.,1.7) for y in (0.,.6) for gr in (False,True) for f in (fr if ck.thorough else fr[::4]+fr[-3:]) for own in (True,False)])
