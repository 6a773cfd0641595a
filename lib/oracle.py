"""
Independent reference velocities (Biot-Savart), obtained by graded Gauss-Legendre quadrature along the
azimuth, of elementary closed-form axial integrals written in cancellation-free form.
None of the formulas of the repository (elliptic integrals, Carlson iterations, trapezoidal sums) is used.
"""
import itertools
import numpy as np
_x,_w=np.polynomial.legendre.leggauss(14)

def graded(a,b,K=44,at='a'):
    """ nodes/weights on [a,b], panels refined geometrically (factor 2) towards `a` """
    edges=np.concatenate(([0.],2.0**np.arange(-K,1)))*(b-a)
    h=np.diff(edges)/2; mid=(edges[:-1]+edges[1:])/2
    t=(mid[:,None]+h[:,None]*_x[None,:]).ravel(); w=(h[:,None]*_w[None,:]).ravel()
    return (a+t,w) if at=='a' else (b-t,w)
def panels(a,b,n):
    edges=np.linspace(a,b,n+1); h=np.diff(edges)/2; mid=(edges[:-1]+edges[1:])/2
    return (mid[:,None]+h[:,None]*_x[None,:]).ravel(),(h[:,None]*_w[None,:]).ravel()

_T,_WT=graded(0,np.pi)        # azimuth, measured from the control point
_H,_WH=graded(0,np.pi/2)

def _chunk(n,size=4000): 
    for i in range(0,n,size): yield slice(i,min(n,i+size))

# ------------------------------------------------------------ right cylinder, tangential vorticity
def cyl_tang(r,z,gamma=-1.,R=1.):
    """ ur,uz of a semi-infinite right cylinder starting at z=0, r>=0 not on the sheet (r==R only if z<0) """
    r=np.atleast_1d(np.asarray(r,float)).ravel(); z=np.atleast_1d(np.asarray(z,float)).ravel()
    ur=np.zeros(r.shape); uz=np.zeros(r.shape)
    for sl in _chunk(len(r)):
        rr=r[sl,None]/R; zz=z[sl,None]/R
        s2=np.sin(_T/2)**2
        dd=(r[sl,None]-R)/R                                                  # exact close to r=R
        rho2=dd**2+4*rr*s2
        a=np.sqrt(rho2+zz**2)
        num=-dd+2*rr*s2
        with np.errstate(all='ignore'):
            f=np.where(zz<=0, num/(a*(a-np.minimum(zz,0))), 0)           # upstream: int dz'/|d|^3 = 1/(a(a-z))
            g=np.where(zz>0 , num/(a*np.maximum(rho2,1e-300))*zz, 0)     # downstream: 1/rho^2 part integrated exactly (1/2 inside, 0 outside)
        uz[sl]=gamma/(2*np.pi)*((f+g)@_WT)+np.where((z[sl]>0)&(r[sl]<R),gamma/2,0)+np.where((z[sl]>0)&(r[sl]==R),gamma/4,0)
        c=np.cos(_H); sh=np.sin(_H/2)**2
        a1=np.sqrt(dd**2+4*rr*sh+zz**2)                    # azimuth phi
        a2=np.sqrt((rr+1)**2-4*rr*sh+zz**2)                # azimuth pi-phi
        ur[sl]=-gamma/(2*np.pi)*((4*rr*c**2/(a1*a2*(a1+a2)))@_WH)
    return ur,uz

def cyl_tang_finite(r,z,gamma=-1.,R=1.,z1=-2.,z2=2.):
    """ direct integration over the finite cylinder (no difference of semi-infinite ones) """
    r=np.atleast_1d(np.asarray(r,float)).ravel(); z=np.atleast_1d(np.asarray(z,float)).ravel()
    ur=np.zeros(r.shape); uz=np.zeros(r.shape)
    s2=np.sin(_T/2)**2
    for sl in _chunk(len(r)):
        rr=r[sl,None]/R; sA=(z1-z[sl,None])/R; sB=(z2-z[sl,None])/R
        dd=(r[sl,None]-R)/R
        rho2=dd**2+4*rr*s2
        num=-dd+2*rr*s2
        qA=np.sqrt(rho2+sA**2); qB=np.sqrt(rho2+sB**2)
        sgA=np.where(sA>=0,1,-1); sgB=np.where(sB>=0,1,-1)
        F=-sgB/(qB*(qB+np.abs(sB)))+sgA/(qA*(qA+np.abs(sA)))
        inside=(sgB-sgA)/2*np.where(r[sl]<R,1.,np.where(r[sl]==R,.5,0.))[:,None]  # (sgB-sgA)/rho^2 integrated exactly
        uz[sl]=gamma/(2*np.pi)*((num*F)@_WT)+gamma*inside[:,0]
        ur[sl]=gamma/(2*np.pi)*((np.cos(_T)*(qA**2-qB**2)/(qA*qB*(qA+qB)))@_WT)
    return ur,uz

# ------------------------------------------------------------ right cylinder, longitudinal vorticity
def cyl_longi(r,z,gamma_l=-1.,R=1.):
    """ u_psi of the longitudinal vorticity (sheet of semi-infinite lines along +z) """
    r=np.atleast_1d(np.asarray(r,float)).ravel(); z=np.atleast_1d(np.asarray(z,float)).ravel()
    u=np.zeros(r.shape); s2=np.sin(_T/2)**2
    for sl in _chunk(len(r)):
        rr=r[sl,None]/R; zz=z[sl,None]/R
        dd=(r[sl,None]-R)/R
        rho2=dd**2+4*rr*s2; a=np.sqrt(rho2+zz**2)
        num=dd+2*s2                                     # r - cos(phi)
        with np.errstate(all='ignore'):
            f=np.where(zz<=0,num/(a*(a-np.minimum(zz,0))),0)
            g=np.where(zz>0,num/(a*np.maximum(rho2,1e-300))*zz,0)
            inner=np.where(r[sl]>0,1/np.maximum(r[sl]/R,1e-300),0)
        u[sl]=gamma_l/(2*np.pi)*((f+g)@_WT)+np.where(z[sl]>0,gamma_l/2*np.where(r[sl]>R,inner,np.where(r[sl]==R,.5,0)),0)
    return u

# ------------------------------------------------------------ lines, rings
def line_semiinf(P,e,Gamma=1.):
    """ semi-infinite line from the origin along unit vector e. P: (n,3) """
    P=np.asarray(P,float); e=np.asarray(e,float); e=e/np.sqrt(e@e)
    a=np.sqrt((P**2).sum(1)); B=P@e
    cr=np.cross(e,P)
    h2=(cr**2).sum(1)
    with np.errstate(all='ignore'):
        am=np.where(B>0,h2/(a+B),a-B)                       # |a|-a.e without cancellation
        return Gamma/(4*np.pi)*cr/(a*am)[:,None]

def ring(r,z,Gamma=-1.,R=1.):
    r=np.atleast_1d(np.asarray(r,float)).ravel(); z=np.atleast_1d(np.asarray(z,float)).ravel()
    ur=np.zeros(r.shape); uz=np.zeros(r.shape)
    s2=np.sin(_T/2)**2; c=np.cos(_T); ch=np.cos(_H); sh=np.sin(_H/2)**2
    for sl in _chunk(len(r)):
        rr=r[sl,None]/R; zz=z[sl,None]/R
        dd=(r[sl,None]-R)/R
        a=np.sqrt(dd**2+4*rr*s2+zz**2)
        uz[sl]=Gamma/R/(2*np.pi)*(((-dd+2*rr*s2)/a**3)@_WT)
        a1=np.sqrt(dd**2+4*rr*sh+zz**2); a2=np.sqrt((rr+1)**2-4*rr*sh+zz**2)
        d=4*rr*ch*(a2**2+a1*a2+a1**2)/((a1+a2)*a1**3*a2**3)  # 1/a1^3-1/a2^3
        ur[sl]=Gamma/R/(2*np.pi)*((zz*ch*d)@_WH)
    return ur,uz

# ------------------------------------------------------------ skewed cylinder
_S,_WS=panels(0,2*np.pi,160)
def skew_tang(P,gamma=-1.,R=1.,m=0.):
    """ axis along (m,0,1); gamma: circulation per unit length along the (true) axis. P: (n,3) away from the sheet """
    P=np.asarray(P,float)/R; U=np.zeros(P.shape)
    ct=np.cos(_S); st=np.sin(_S); c=np.sqrt(1+m*m)
    for i,(x,y,z) in enumerate(P):
        dx=x-ct; dy=y-st; dz=z
        a=np.sqrt(dx**2+dy**2+dz**2); B=m*dx+dz
        h2=dy**2*(1+m*m)+(m*dz-dx)**2
        acB=np.where(B>0,h2/(a*c+B),a*c-B)
        I0=1/(a*acB); I1=1/(c*acB)
        t=z*I0-I1
        w=gamma*c/(4*np.pi)*_WS
        U[i]=[np.sum(w*ct*t),np.sum(w*st*t),np.sum(w*((1-x*ct-y*st)*I0+m*ct*I1))]
    return U
def skew_longi(P,gamma_l=-1.,R=1.,m=0.):
    P=np.asarray(P,float)/R; U=np.zeros(P.shape)
    ct=np.cos(_S); st=np.sin(_S)
    for i,p in enumerate(P):
        Q=np.column_stack((p[0]-ct,p[1]-st,0*ct+p[2]))
        U[i]=(line_semiinf(Q,[m,0,1],gamma_l)*_WS[:,None]).sum(0)
    return U

# ------------------------------------------------------------ doublets
def doublet(P,m):
    P=np.asarray(P,float); m=np.asarray(m,float)
    n=np.sqrt((P**2).sum(1))[:,None]; h=P/n
    return (3*h*(h@m)[:,None]-m[None,:])/(4*np.pi*n**3)
def doublet_line(P,dmz=1.,m=0.,L=np.inf):
    """ integral of dipoles (0,0,dmz)dz' located at (m z',0,z'), z' in [0,L] """
    P=np.asarray(P,float); U=np.zeros(P.shape)
    for i,(x,y,z) in enumerate(P):
        n=np.sqrt(x*x+y*y+z*z)
        zs=(m*x+z)/(1+m*m)                                  # closest parameter
        d=max(np.sqrt((x-m*zs)**2+y*y+(z-zs)**2),1e-3*n)
        # graded panels on both sides of the closest parameter
        tot=np.zeros(3)
        z0=min(max(zs,0.),L)
        segs=[]
        if z0>0: segs.append((z0,0.))
        if L>z0: segs.append((z0,L))
        for (p,q) in segs:
            # t = d*sinh(s): smooth and exponentially graded
            end=np.inf if np.isinf(q) else np.arcsinh(abs(q-p)/d)
            if np.isinf(end): end=45.
            s,w=panels(0,end,80)
            t=d*np.sinh(s); w=w*d*np.cosh(s)
            zp=p+np.sign(q-p)*t if not np.isinf(q) else p+t
            DX=x-m*zp; DY=y; DZ=z-zp
            r2=DX**2+DY**2+DZ**2; r5=r2**2.5
            f=dmz/(4*np.pi)*w/r5
            tot+=np.array([np.sum(f*3*DX*DZ),np.sum(f*3*DY*DZ),np.sum(f*(3*DZ**2-r2))])
        U[i]=tot
    return U

# ------------------------------------------------------------ frames
def rot(axis,ang):
    """ rotation matrix by quaternion """
    axis=np.asarray(axis,float); axis=axis/np.sqrt(axis@axis)
    w=np.cos(ang/2); x,y,z=axis*np.sin(ang/2)
    return np.array([[1-2*(y*y+z*z),2*(x*y-z*w),2*(x*z+y*w)],[2*(x*y+z*w),1-2*(x*x+z*z),2*(y*z-x*w)],[2*(x*z-y*w),2*(y*z+x*w),1-2*(x*x+y*y)]])
def wrap(a):
    return np.arctan2(np.sin(a),np.cos(a))
def axis_frames():
    """ the 24 (shaft, vertical) pairs along the axes """
    out=[]
    for i in range(3):
        for s in (1,-1):
            for j in range(3):
                if j==i: continue
                for t in (1,-1):
                    a=np.zeros(3); a[i]=s; b=np.zeros(3); b[j]=t
                    out.append((a,b))
    return out
def diagonal_frames():
    """ frames whose shaft or vertical has two or three components equal in absolute value, as given by the possible roundings of the unit vector """
    out=[]
    for s in itertools.product((1,-1),repeat=3):
        s=np.array(s,float)
        u=s/np.linalg.norm(s)
        for k,v in [(j%3,u*(1+j*2.**-53)) for j in range(-6,7)]:
            b=np.zeros(3); i,j=((0,1),(1,2),(2,0))[k]; b[i]=s[i]; b[j]=-s[j]
            out.append((v,b/np.linalg.norm(b)))
    for i,j in ((0,1),(1,2),(2,0)):
        for si in (1,-1):
            for sj in (1,-1):
                v=np.zeros(3); v[i]=si; v[j]=sj; v/=np.linalg.norm(v); b=np.zeros(3); b[3-i-j]=si
                out.append((v,b)); out.append((b,v))
    return out
def oblique_frames():
    out=[]
    for ax,ang in (([1,2,3],0.7),([-2,1,0.5],2.1),([0.3,-1,2],-1.3)):
        Q=rot(ax,ang)
        out.append((Q@np.array([0,0,1.]),Q@np.array([0,1.,0])))
    return out
