"""
Reference model of a wind turbine: a record of the latest value of each setting, and the velocity field defined from it
(own rotations, own mirror image, own dispatch; the velocity kernels and the solver are called one cylinder at a time,
they are the subject of other properties).
"""
import numpy as np
from oracle import rot, wrap
import wiz.VortexCylinder as VC, wiz.VortexCylinderSkewed as SK, wiz.VortexDoublet as DB, wiz.SelfSimilar as SS, wiz.Solver as SV
from wiz.WindTurbine import WindTurbine
from wiz.WindFarm import WindFarm

class Refused(Exception): pass

def v3(x): return np.array([float(np.asarray(t).ravel()[0]) for t in x]) if not isinstance(x,np.ndarray) else np.array(x,float).ravel()

class Loading:
    """ one update_loading call, as plain data """
    def __init__(self,r=None,Ct=None,Gamma=None,Lambda=None,nCyl=1,gamma_t_Ct=None):
        self.__dict__.update(r=r,Ct=Ct,Gamma=Gamma,Lambda=Lambda,nCyl=nCyl,gamma_t_Ct=gamma_t_Ct)
    def kw(self):
        c=lambda x: np.array(x,dtype=float) if isinstance(x,(np.ndarray,list)) else x
        return {k:c(v) for k,v in vars(self).items() if not (v is None and k!='nCyl')}

class Ref:
    def __init__(self,R,hub=(0,0,0),es=(0,0,1),ev=(0,1,0),U0=(0,0,10),Lambda=np.inf,Ground=False,Model='VC'):
        self.R=float(R); self.es0=v3(es); self.ev=v3(ev); self.hub=v3(hub); self.U0=v3(U0)
        self.Lambda=Lambda; self.Ground=Ground; self.Model=Model; self.chi_user=None; self.yaw=0.
        self.cyl=None   # list of (radius, gamma_t, gamma_l), Gamma_r
        self.Gamma_r=None
    def copy(self):
        o=Ref.__new__(Ref); o.__dict__.update(self.__dict__); return o
    def key(self):
        f=lambda x: None if x is None else tuple(np.asarray(x,float).ravel().tolist())
        return repr((self.R,f(self.es0),f(self.ev),f(self.hub),f(self.U0),self.Lambda,self.Ground,self.Model,self.chi_user,self.yaw,
                     self.cyl,self.Gamma_r))
    # --- settings
    def set_coord(self,es,ev): self.es0=v3(es); self.ev=v3(ev); self.yaw=0.
    def load(self,L):
        U0=float(np.sqrt(self.U0@self.U0)); R=self.R
        Lam=self.Lambda if L.Lambda is None else L.Lambda
        if L.nCyl==1:
            st=np.array([.995*R]); rc=[R]
            f=lambda q: None if q is None else np.array([float(np.mean(np.asarray(q,float)))])
        else:
            st=np.linspace(.005,.995,L.nCyl)*R; rc=list(st)
            f=lambda q: None if q is None else np.interp(st,np.array(L.r,float),np.array(q,float))
        Ct=f(L.Ct); Gm=f(L.Gamma)
        if L.gamma_t_Ct is not None: gt,gl,Gr=np.array(L.gamma_t_Ct(np.array(Ct)),float),None,None
        elif Ct is not None: gt,gl,Gr,_=SV.WakeVorticityFromCt(np.array(st),Ct,R,U0,Lam*U0/R)
        else: gt,gl,Gr,_=SV.WakeVorticityFromGamma(np.array(st),Gm,R,U0,Lam*U0/R)
        gt=np.array(gt,float).ravel(); gl=[None]*len(gt) if gl is None else np.array(gl,float).ravel().tolist()
        self.cyl=[(float(a),float(b),c) for a,b,c in zip(rc,gt,gl)]
        self.Gamma_r=None if Gr is None else float(np.asarray(Gr).ravel()[0]); self.Lambda=Lam
    # --- angles
    @property
    def e_s(self): return rot(self.ev,self.yaw)@self.es0
    @property
    def yaw_wind(self):
        Uh=self.U0-(self.U0@self.ev)*self.ev
        return float(np.arctan2(np.cross(self.es0,Uh)@self.ev,self.es0@Uh))
    @property
    def chi(self):
        if self.chi_user is not None: return self.chi_user
        return wrap(self.yaw_wind-self.yaw)
    def T(self):
        """ columns: cylinder axes x,y,z in global coordinates """
        es=self.e_s
        return np.column_stack((np.cross(self.ev,es),self.ev,es))
    def local(self,P): return (np.asarray(P,float)-self.hub)@self.T()
    # --- velocity of one component of the vorticity, without ground, in the cylinder frame. Q (n,3) in this frame
    def comp(self,Q,comp,Model,Rff=6):
        chi=self.chi; m=np.tan(chi); skew=abs(chi)>1e-7
        x,y,z=[np.array(q) for q in Q.T]; U=np.zeros(Q.shape)
        if comp=='root':
            if self.Gamma_r:
                u=SK.svc_root_u(x,y,z,Gamma_r=self.Gamma_r,m=m,polar_out=False) if skew else VC.vc_root_u(x,y,z,Gamma_r=self.Gamma_r,polar_out=False)
                U+=np.column_stack(u)
            return U
        multi=len(self.cyl)>1
        if multi and Model!='VC': raise Refused()
        for (rc,gt,gl) in self.cyl:
            g=gt if comp=='tang' else gl
            if g is None or (g==0): continue
            if Model!='VC' and (skew or comp=='longi'): raise Refused()
            if comp=='tang':
                if Model=='VC': u=SK.svc_tang_u(x,y,z,gamma_t=g,R=rc,m=m,polar_out=False) if skew else VC.vc_tang_u(x,y,z,gamma_t=g,R=rc,polar_out=False)
                elif Model=='VCFF':
                    far=np.sqrt(x**2+y**2+z**2)>Rff*rc
                    a=VC.vc_tang_u(x,y,z,gamma_t=g,R=rc,polar_out=False); b=DB.doublet_line_u(x,y,z,dmz_dz=g*np.pi*rc**2)
                    u=[np.where(far,q,p) for p,q in zip(a,b)]
                elif Model=='VD': u=DB.doublet_line_u(x,y,z,dmz_dz=g*np.pi*rc**2)
                elif Model=='SS': u=[0*x,0*x,SS.ss_u(x,y,z,gamma_t=g,R=rc)]
                else: raise Refused()
            else:
                u=SK.svc_longi_u(x,y,z,gamma_l=g,R=rc,m=m,polar_out=False) if skew else VC.vc_longi_u(x,y,z,gamma_l=g,R=rc,polar_out=False)
            U+=np.column_stack(u)
        return U
    def induced(self,P,comps,Model,Rff=6):
        """ global coordinates, without ground. P (n,3) """
        Q=self.local(P); U=np.zeros(Q.shape)
        for c in comps: U+=self.comp(Q,c,Model,Rff)
        return U@self.T().T
    def u(self,P,only_ind=False,longi=False,tang=True,root=False,no_wake=False,ground=None,Model=None,R_far_field=6):
        P=np.asarray(P,float)
        if self.cyl is None: raise Refused()
        if ground is None: ground=self.Ground
        if Model is None: Model=self.Model
        comps=[c for c,b in (('tang',tang),('longi',longi),('root',root)) if b]
        if len(self.cyl)>1 and Model!='VC': raise Refused()
        U=self.induced(P,comps,Model,R_far_field)
        if ground:
            M=lambda V: V-2*np.outer(V@self.ev,self.ev)       # mirror about the plane through the origin
            U=U+M(self.induced(M(P),comps,Model,R_far_field))
        if no_wake:
            Q=self.local(P)
            U[(np.hypot(Q[:,0],Q[:,1])<1.001*self.R)&(Q[:,2]>=-.6*self.R)]=0
        if not only_ind: U=U+self.U0
        return U

def query(WT,P,**kw):
    P=np.asarray(P,float)
    u=WT.compute_u(P[:,0].copy(),P[:,1].copy(),P[:,2].copy(),**kw)
    return np.column_stack([np.asarray(c,float) for c in u])
def fquery(F,P,**kw):
    P=np.asarray(P,float)
    u=F.velocity_field(P[:,0].copy(),P[:,1].copy(),P[:,2].copy(),**kw)
    return np.column_stack([np.asarray(c,float) for c in u])

def fresh(ref,loadings,sk=None):
    """ a new turbine brought to the same settings by the shortest route.
      loadings: (Loading, wind, Lambda in force) of the last loading or None """
    WT=WindTurbine(R=ref.R,r_hub=list(ref.hub),e_shaft_yaw0=list(ref.es0),e_vert=list(ref.ev),U0=list(ref.U0),Ground=ref.Ground,Model=ref.Model)
    if loadings is not None:
        L,U,Lam=loadings
        WT.update_wind(list(U)); kw=L.kw(); kw['Lambda']=Lam
        WT.update_loading(**kw)
        WT.update_wind(list(ref.U0))
    WT.update_yaw_pos(ref.yaw)
    if ref.chi_user is not None: WT.set_chi(ref.chi_user)
    return WT

def away(ref,P,ground=None,margin=.3):
    """ points far enough from the vortex sheets (and their images, and the root lines) for the azimuthal quadrature of the skewed models to have converged """
    P=np.asarray(P,float)
    if ground is None: ground=ref.Ground
    ok=np.ones(len(P),bool); m=np.tan(ref.chi); c=np.sqrt(1+m*m)
    for S in [P]+([P-2*np.outer(P@ref.ev,ref.ev)] if ground else []):
        x,y,z=ref.local(S).T
        rho=np.hypot(x-m*z,y)
        ok&=~((z>-margin*ref.R)&(rho<margin*ref.R*c*.3))
        for (rc,_,_) in ref.cyl or []:
            ok&=~((np.abs(rho-rc)<margin*rc*c)&(z>-margin*rc))
            ok&=~((np.abs(np.hypot(x,y)-rc)<margin*rc)&(np.abs(z)<margin*rc))
    return ok
