"""
Registry of the velocity functions of the library, in a uniform form  f(c1,c2,c3,L,s) -> tuple of velocity components
 coords: 'xyz' | 'rpz' (c=r,psi,z) | 'rz' (c=r,unused,z)
 L: length unit of all the lengths of the case, s: value of the vortex intensity
 sdim: unit of the intensity is velocity*length**sdim   (0: sheet, 1: circulation, 2: doublet per length, 3: doublet)
 outs: 'u' all outputs are velocities
"""
import numpy as np
import wiz.VortexCylinder as VC, wiz.VortexCylinderSkewed as SK, wiz.VortexDoublet as DB, wiz.SelfSimilar as SS
import wiz.VortexRing as VR, wiz.VortexLine as VL, wiz.VortexPoint as VP, wiz.WindFarm as WF
A=np.array
class Field:
    def __init__(self,name,coords,sdim,f,nan=True,empty=True,zero=True,scalar=False,skew=False,nonneg_r=False,fast=True):
        self.name,self.coords,self.sdim,self.f=name,coords,sdim,f
        self.skew=skew      # uses the azimuthal quadrature (costly)
    def __repr__(self): return self.name
F=[]
def add(name,coords,sdim,f,**kw): F.append(Field(name,coords,sdim,f,**kw))

for pol in (True,False):
    p='pol' if pol else 'cart'
    add('vc_tang_u:'+p,'xyz',0,lambda x,y,z,L,s,pol=pol: VC.vc_tang_u(x,y,z,gamma_t=s,R=L,polar_out=pol))
    add('vc_tang_u:eps:'+p,'xyz',0,lambda x,y,z,L,s,pol=pol: VC.vc_tang_u(x,y,z,gamma_t=s,R=L,polar_out=pol,epsilon=.1*L))
    add('vc_tang_u_doublet:'+p,'xyz',0,lambda x,y,z,L,s,pol=pol: VC.vc_tang_u_doublet(x,y,z,gamma_t=s,R=L,polar_out=pol,r_bar_Cut=2.1))
    add('vc_longi_u:'+p,'xyz',0,lambda x,y,z,L,s,pol=pol: VC.vc_longi_u(x,y,z,gamma_l=s,R=L,polar_out=pol))
    add('vc_longi_u_polar:'+p,'rpz',0,lambda r,t,z,L,s,pol=pol: VC.vc_longi_u_polar(r,t,z,gamma_l=s,R=L,polar_out=pol))
    add('vc_root_u:'+p,'xyz',1,lambda x,y,z,L,s,pol=pol: VC.vc_root_u(x,y,z,Gamma_r=s,polar_out=pol))
    add('cylinder_tang_u:'+p,'xyz',0,lambda x,y,z,L,s,pol=pol: VC.cylinder_tang_u(x,y,z,gamma_t=s,R=L,z1=-1.1*L,z2=.7*L,polar_out=pol))
    for m in (.4,-.25,0.):
        q='%s:m%g'%(p,m)
        add('svc_tang_u_polar:'+q,'rpz',0,lambda r,t,z,L,s,pol=pol,m=m: SK.svc_tang_u_polar(r,t,z,gamma_t=s,R=L,m=m,ntheta=60,polar_out=pol),skew=True)
        add('svc_longi_u_polar:'+q,'rpz',0,lambda r,t,z,L,s,pol=pol,m=m: SK.svc_longi_u_polar(r,t,z,gamma_l=s,R=L,m=m,ntheta=60,polar_out=pol),skew=True)
        add('svc_root_u_polar:'+q,'rpz',1,lambda r,t,z,L,s,pol=pol,m=m: SK.svc_root_u_polar(r,t,z,Gamma_r=s,m=m,polar_out=pol),skew=True)
    add('svc_tang_u:'+p,'xyz',0,lambda x,y,z,L,s,pol=pol: SK.svc_tang_u(x,y,z,gamma_t=s,R=L,m=.3,ntheta=60,polar_out=pol),skew=True)
    add('svc_longi_u:'+p,'xyz',0,lambda x,y,z,L,s,pol=pol: SK.svc_longi_u(x,y,z,gamma_l=s,R=L,m=.3,ntheta=60,polar_out=pol),skew=True)
    add('svc_root_u:'+p,'xyz',1,lambda x,y,z,L,s,pol=pol: SK.svc_root_u(x,y,z,Gamma_r=s,m=.3,polar_out=pol),skew=True)
    add('vl_semiinf_straight_u:'+p,'xyz',1,lambda x,y,z,L,s,pol=pol: VL.vl_semiinf_straight_u(x,y,z,Gamma_r=s,polar_out=pol))
    add('vl_semiinf_straight_u_polar:'+p,'rpz',1,lambda r,t,z,L,s,pol=pol: VL.vl_semiinf_straight_u_polar(r,t,z,Gamma_r=s,polar_out=pol))
    add('ring_u:'+p,'xyz',1,lambda x,y,z,L,s,pol=pol: VR.ring_u(x,y,z,Gamma=s,R=L,polar_out=pol))
    add('rings_u:'+p,'xyz',1,lambda x,y,z,L,s,pol=pol: VR.rings_u(x,y,z,s*A([1.,-2.,.5]),L*A([1.,.5,1.2]),L*A([0,0,0.]),L*A([0,0,0.]),L*A([0,.3,-2.]),polar_out=pol))
add('svc_u_polar','rpz',0,lambda r,t,z,L,s: SK.svc_u_polar(r,t,z,s,.4*s,-.7*s*L,R=L,m=.3,ntheta=60),skew=True)
add('fV_Tangential','rpz',0,lambda r,t,z,L,s: SK.fV_Tangential(r/L,t,z/L,.3,s,60),skew=True)
add('fV_Trailed','rpz',0,lambda r,t,z,L,s: SK.fV_Trailed(r/L,t,z/L,.3,s,60),skew=True)
add('fV_Root','rpz',1,lambda r,t,z,L,s: SK.fV_Root(r,t,z,m=.3,Gamma_r=s,nout=7),skew=True)
_r2=A([[.5,1.],[.3,.8]]); _x2=A([0.,3.]); _y2=A([.4,-.2]); _z2=A([-.3,1.1]); _g2=A([[1.,-.3],[.2,0.]])
for gr in (False,True):
    g='ground' if gr else 'free'
    add('vcs_tang_u:'+g,'xyz',0,lambda x,y,z,L,s,gr=gr: VC.vcs_tang_u(x,y,z,s*_g2,L*_r2,L*_x2,L*_y2,L*_z2,Ground=gr))
    add('vcs_longi_u:'+g,'xyz',0,lambda x,y,z,L,s,gr=gr: VC.vcs_longi_u(x,y,z,s*_g2,L*_r2,L*_x2,L*_y2,L*_z2,Ground=gr))
    add('svcs_tang_u:'+g,'xyz',0,lambda x,y,z,L,s,gr=gr: SK.svcs_tang_u(x,y,z,s*_g2,L*_r2,0*_r2+.3,L*_x2,L*_y2,L*_z2,ntheta=40,Ground=gr),skew=True)
    add('svcs_longi_u:'+g,'xyz',0,lambda x,y,z,L,s,gr=gr: SK.svcs_longi_u(x,y,z,s*_g2,L*_r2,0*_r2+.3,L*_x2,L*_y2,L*_z2,ntheta=40,Ground=gr),skew=True)
add('cylinder_raw','xyz',0,lambda x,y,z,L,s: VC.cylinder_tang_semi_inf_u_raw(x,y,z,gamma_t=s,R=L))
add('vcs_tang_u:eps','xyz',0,lambda x,y,z,L,s: VC.vcs_tang_u(x,y,z,s*_g2,L*_r2,L*_x2,L*_y2,L*_z2,epsilon=.05*L))
add('doublet_u','xyz',3,lambda x,y,z,L,s: DB.doublet_u(x,y,z,[.3*s,-.4*s,s],x0=[.1*L,.2*L,-.1*L]))
add('doublet_u_polar','rz',3,lambda r,t,z,L,s: DB.doublet_u_polar(r,z,s,z0=.3*L))
add('doublet_line_polar_u','rz',2,lambda r,t,z,L,s: DB.doublet_line_polar_u(r,z,s))
add('doublet_line_polar_u_num','rz',2,lambda r,t,z,L,s: DB.doublet_line_polar_u_num(r,z,s,z0=.2*L,zmax=50*L,nQuad=30))
add('doublet_line_u','xyz',2,lambda x,y,z,L,s: DB.doublet_line_u(x,y,z,s))
add('doublet_line_u:m','xyz',2,lambda x,y,z,L,s: DB.doublet_line_u(x,y,z,s,m=.3))
add('doublet_line_u:L','xyz',2,lambda x,y,z,L,s: DB.doublet_line_u(x,y,z,s,m=.3,L=2.2*L))
add('doublet_line_u:L0','xyz',2,lambda x,y,z,L,s: DB.doublet_line_u(x,y,z,s,L=2.2*L))
add('doublet_line_u_num','xyz',2,lambda x,y,z,L,s: DB.doublet_line_u_num(x,y,z,s,m=.3,zmax=50*L,nQuad=30))
add('ring_u_polar_singular','rz',1,lambda r,t,z,L,s: VR.ring_u_polar_singular(r,z,s,L))
add('ring_u_polar_singularb','rz',1,lambda r,t,z,L,s: VR.ring_u_polar_singularb(r,z,s,L))
add('ring_u_polar','rz',1,lambda r,t,z,L,s: VR.ring_u_polar(r,z,s,L,z0=.2*L))
add('ring_u_polar:saffman','rz',1,lambda r,t,z,L,s: VR.ring_u_polar(r,z,s,L,epsilon=.1*L))
add('ring_u_polar:linear','rz',1,lambda r,t,z,L,s: VR.ring_u_polar(r,z,s,L,epsilon=.1*L,reg_method='linear'))
add('ring_u:eps','xyz',1,lambda x,y,z,L,s: VR.ring_u(x,y,z,Gamma=s,R=L,epsilon=.1*L))
add('ss_u','xyz',0,lambda x,y,z,L,s: (SS.ss_u(x,y,z,s,R=L),))
def _vps(x,y,L,s,model,order):
    U=VP.vps_u(np.column_stack((np.ravel(x),np.ravel(y))),L*A([[.3,.1],[-1.,.4],[2.,2.]]),s*A([1.,-.5,2.]),model,order,L*A([.3,.2,.5]))
    return U[:,0].reshape(np.shape(x)),U[:,1].reshape(np.shape(x))
for model,order in ((0,2),(1,2),(1,4),(2,6)):
    add('vps_u:%d:%d'%(model,order),'xyz',1,lambda x,y,z,L,s,model=model,order=order: _vps(x,y,L,s,model,order))
add('vp_u','xyz',1,lambda x,y,z,L,s: VP.vp_u(A([x,y]),A([.3*L,.1*L]).reshape((2,)+(1,)*np.ndim(x)),Gamma=s))
add('vp_u:visc','xyz',1,lambda x,y,z,L,s: VP.vp_u(A([x,y]),A([.3*L,.1*L]).reshape((2,)+(1,)*np.ndim(x)),Gamma=s,rcore=.3*L,bViscous=True))
def points(kind,L=1.,special=True):
    """ control points hitting every branch; columns c1,c2,c3 """
    g=[(.5,.3,.4),(1.6,-.7,-1.2),(.2,2.1,5.),(3.,-2.9,.8),(.9,1.2,-.05),(1.1,.1,2.)]
    s=[(0.,0.,-1.),(0.,0.,2.),(0.,.4,0.),(1.,.2,-.6),(1.,-.4,.7),(.7,1.5,0.),(1.,0.,0.),(7.,1.,30.),(5e-8,.3,1.)] if special else []
    P=np.array(g+s)
    r,t,z=P.T
    if kind=='xyz':
        x,y=r*np.cos(t),r*np.sin(t)
        x[t==0]=r[t==0]; y[t==0]=0
        return np.array([x*L,y*L,z*L])
    return np.array([r*L,t,z*L])
