"""Far wake of a yawed turbine (curled wake): closed forms of the ellipse of vorticity"""
import numpy as np, itertools, os, sys, importlib.util, contextlib, io
from common import pmap, quiet
from oracle import axis_frames, oblique_frames, rot
from wt import WindTurbine, WindFarm, query, fquery
from wiz.VortexPoint import vps_u
def ellipse(y,z,R,chi):
    """ velocity (y,z) per unit gamma_t far downstream of a skewed cylinder (wake axis x, vertical z, shaft at the angle chi about z from the wake
    axis), and inside flag.  Sheet on the ellipse of semi-axes (R cos chi, R), circulation R gamma_t sin(chi) sin(theta) dtheta """
    g=np.sin(chi); a=R*np.cos(chi); b=R; al=(a+b)/2; be=(a-b)/2
    ins=(y/a)**2+(z/b)**2<1
    if ins: return np.array([np.tan(chi/2),0.]),True
    zt=y+1j*z; sq=np.sqrt(zt*zt-4*al*be+0j); s=[(zt+sq)/(2*al),(zt-sq)/(2*al)]; s0=max(s,key=abs)
    w=R*g*2*b/(a+b)**2/(s0*s0-be/al)
    return np.array([w.real,-w.imag]),False
def pts(R,chi,rr,n=6):
    """ points at relative elliptic radii rr """
    o=[]
    for f in rr:
        for t in np.arange(n)*2*np.pi/n+.1: o.append((f*R*np.cos(chi)*np.cos(t),f*R*np.sin(t)))
    return o+[(0.,0.),(.3*R*np.cos(chi),0.),(0.,-.3*R)]
def item(ck,it):
    (es,ev),yaw,R,U,load,hub,pres,gr=it
    d0={'frame':[es,ev],'yaw':yaw,'R':R,'wind':U,'loading':load,'hub':hub,'skew prescribed':pres,'ground':gr}
    ew=es if not pres else rot(ev,.3)@es          # wind direction
    if pres:   # the wake goes along e_wake because the skew is prescribed, whatever the wind
        W=WindTurbine(R=R,r_hub=list(hub),e_shaft_yaw0=list(es),e_vert=list(ev),U0=list(U*ew)); W.update_yaw_pos(yaw); W.set_chi(-yaw)
    else:
        W=WindTurbine(R=R,r_hub=list(hub),e_shaft_yaw0=list(es),e_vert=list(ev),U0=list(U*es)); W.update_yaw_pos(yaw)
    if isinstance(load,float): W.update_loading(Ct=load); rc=[R]
    else: W.update_loading(r=np.linspace(0,R,len(load)),Ct=np.array(load),nCyl=3); rc=np.linspace(.005,.995,3)*R
    gt=np.array(W.gamma_t,float).ravel(); ex=es; ez=ev; ey=np.cross(ev,es)
    X=1000*R; yz=pts(R,yaw,(.35,.7,1.4,2.5,6.)) if isinstance(load,float) else pts(R,yaw,(.25,.75,1.5,3.),4)
    hub=np.array(hub,float)
    if gr: hh=hub@ev; yz=yz+[(y,z-2*hh) for y,z in yz[::3]]      # and in the wake of the image
    def field(y,z):
        v=np.zeros(3)
        for g,r in zip(gt,rc):
            e,ins=ellipse(y,z,r,yaw); v+=g*np.array([1. if ins else 0.,e[0],e[1]])
        return v
    P=[];want=[]
    for y,z in yz:
        P.append(hub+X*ex+y*ey+z*ez); v=field(y,z)
        want.append(v)
    if gr:
        for k,(y,z) in enumerate(yz):
            # image of the turbine about the ground: velocity of the mirrored turbine at the point = mirrored velocity at the mirrored point
            m=field(y,-(z+2*hh)); want[k]=field(y,z)+np.array([m[0],m[1],-m[2]])
    P=np.array(P); want=np.array(want); B=np.column_stack((ex,ey,ez))
    u=query(W,P,only_ind=True,ground=True if gr else None)@B
    ck.case(len(P),int(np.sum(np.max(np.abs(want),axis=1)>1e-9*U)))
    sc=np.array([U*1e-9+sum(abs(g)*(15*(r/X)**2+3e-14*(X/(max(r,np.hypot(y,z))*np.cos(yaw)))**2+1e-7) for g,r in zip(gt,rc)) for y,z in yz])[:,None]     # truncation of the wake, rounding, quadrature
    bad=np.any(~(np.abs(u-want)<=sc),axis=1)
    if np.any(bad):
        k=int(np.argmax(np.max(np.abs(u-want),axis=1))); y,z=yz[k]; ck.fail('far wake:%s'%('ground' if gr else 'multi' if not isinstance(load,float) else 'single'),dict(d0,point={'downstream':X,'lateral':y,'vertical':z},got=u[k],expected=want[k]))
    # far upstream: nothing
    u0=query(W,P-2*X*ex,only_ind=True); ck.case(len(P),0)
    ck.expect(np.all(np.abs(u0)<=4*np.abs(gt).sum()*(R/X)**2+1e-9*U),'far upstream',d0)
    # farm and free stream
    ck.close(fquery(WindFarm([W]),P,U0=U*ew,ground=True if gr else None)@B,u+U*(ew@B),'farm',d0,rtol=1e-9,scale=U)
    if not gr and isinstance(load,float):
        # discrete vortex points on the ellipse (trapezoidal rule: converges exponentially away from the sheet)
        n=720; t=(np.arange(n)+.5)*2*np.pi/n; XV=np.column_stack((R*np.cos(yaw)*np.cos(t),R*np.sin(t))); G=R*gt[0]*np.sin(yaw)*np.sin(t)*2*np.pi/n
        v=vps_u(np.array(yz),XV,G); ck.case(len(yz),len(yz))
        ck.close(v,want[:,1:],'vortex points',d0,rtol=1e-9,scale=U)
        # the same with positions in space: the third coordinate plays no role
        v=vps_u(np.column_stack((np.array(yz),np.linspace(-X,X,len(yz)))),np.column_stack((XV,np.linspace(0,3*R,n))),G); ck.case(len(yz),len(yz))
        ck.close(v,np.column_stack((want[:,1:],0*want[:,0])),'vortex points in space',d0,rtol=1e-9,scale=U)
def example(ck):
    """ the functions of the curled wake example """
    f=os.path.join(os.environ.get('VERIF_REPO','/repo'),'wiz/examples/CurledWake_2D.py')
    if not os.path.exists(f): return
    sp=importlib.util.spec_from_file_location('curledwake2d',f); M=importlib.util.module_from_spec(sp)
    import matplotlib; matplotlib.use('Agg')
    sp.loader.exec_module(M)
    th=np.linspace(0,2*np.pi,721)
    for R in (1.,65.):
        for yaw in (-.6,-.1,.2,.9):
            g=-.7*np.sin(yaw)*np.sin(th); yz=pts(R,yaw,(.3,.75,1.3,3.)); Y=np.array([p[0] for p in yz]); Z=np.array([p[1] for p in yz])
            want=np.array([-.7*ellipse(y,z,R,yaw)[0] for y,z in yz]); d={'R':R,'yaw':yaw}
            for sg in (None,1e-3*R*np.ones(len(th))):
                ck.case(2*len(yz),2*len(yz))
                for sh in ((len(yz),),(1,len(yz)),(3,len(yz)//3)):
                    n=int(np.prod(sh)); y=Y[:n].reshape(sh); z=Z[:n].reshape(sh)
                    v=M.ve_u(y,z,R,th,yaw,g,sg); ck.close(np.column_stack([q.ravel() for q in v]),want[:n],'ellipse',dict(d,shape=sh),rtol=1e-8,scale=1.)
                    v=M.vcl_u(y*0+1e4*R,y,z,R,th,yaw,g,sg); ck.close(np.column_stack([q.ravel() for q in v]),want[:n],'longitudinal far',dict(d,shape=sh),rtol=1e-5,scale=1.)
                    v=M.vcl_u(y*0-1e4*R,y,z,R,th,yaw,g,sg); ck.close(np.column_stack([q.ravel() for q in v]),0*want[:n],'longitudinal upstream',dict(d,shape=sh),rtol=1e-5,scale=1.)
            # sum of the semi-infinite vortex lines starting on the rotor disk
            xs=np.array([-1.,0.3,2.])*R
            for x in xs:
                t=th[:-1]; A=np.column_stack((-R*np.cos(t)*np.sin(yaw),R*np.cos(t)*np.cos(yaw),R*np.sin(t))); Gm=R*g[:-1]*2*np.pi/720
                w=[]
                for y,z in yz:
                    r=np.array([x,y,z])-A; n=np.linalg.norm(r,axis=1); c=np.column_stack((0*n,-r[:,2],r[:,1])); h2=r[:,1]**2+r[:,2]**2
                    w.append(np.sum((Gm/(4*np.pi)*(1+r[:,0]/n)/h2)[:,None]*c,axis=0)[1:])
                v=M.vcl_u(Y*0+x,Y,Z,R,th,yaw,g); ck.case(len(yz),len(yz)); ck.close(np.column_stack(v),np.array(w),'longitudinal lines',dict(d,x=x),rtol=1e-8,scale=1.)
def run(ck):
    ck.level='exploration'
    ck.rule='case = velocity at one point (inside/outside the wake, far downstream or upstream) of a turbine of one yaw, frame, loading, ground option, vs the closed form of the ellipse of vorticity; non-trivial = velocity differing from zero'
    fr=axis_frames(); ob=oblique_frames(); th=ck.thorough
    F=[fr[0],fr[9],ob[0]]+(fr[1::4]+ob[1:] if th else [])
    Y=[-1.,-.5236,-.2,-.02,.05,.35,.7,1.2]+([-1.3,-.8,.001,.1,1.25] if th else [])
    L=[.3,.8,1.05,(.2,.8,.5),(.9,.9,.3),(.0,.6,.6)]
    its=[]
    for f,y in itertools.product(F,Y):
        for k,l in enumerate(L):
            for pres in (False,True):
                for gr in (None,True):
                    if not th and (pres or gr) and k%2: continue
                    for R,U in ((1.,8.),(65.,10.)) if th else (((1.,8.),) if k%3 else ((65.,10.),)):
                        ev=np.array(f[1],float); hub=(2.2*R*ev+.4*R*np.array(f[0])) if gr else np.array([.3,-.2,.1])*R
                        its.append((f,y,R,U,l,tuple(hub),pres,gr))
                        if gr and (th or k%3==0 or y<0):
                            for h in (.4,14.) if th else (14.,): its.append((f,y,R,U,l,tuple(h*R*ev+.4*R*np.array(f[0])),pres,gr))
    ck.extra['configurations']=len(its); ck.sample({'yaw':its[3][1],'loading':its[3][4]})
    pmap(ck,item,its)
    example(ck)
