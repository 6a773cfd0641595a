"""Vortex rings"""
import numpy as np, oracle, lattice, itertools
from numcheck import compare
from wiz.VortexRing import ring_u, ring_u_polar, ring_u_polar_singular, ring_u_polar_singularb, rings_u
def run(ck):
    ck.level='exploration'
    ck.rule='case = one velocity component at one lattice point (every decade of distance to the axis, the ring, and infinity) for each formulation, radius, intensity, azimuth, compared with Biot-Savart quadrature; or one subset of a set of rings; non-trivial = expected value not negligible'
    rr=lattice.radial(ck.thorough,kmin=-9,kmax=3); zz=lattice.axial(ck.thorough,kmin=-9,kmax=3)
    r,z=lattice.grid(rr,zz)
    d=np.maximum(np.abs(r-1),np.abs(z))
    for R in ([1.,.37,63.,1e2] if not ck.thorough else [1.,.37,63.,1e2,5.5,1e3]):
        s=d>=1.01e-6
        X=np.where(r==1,R,r*R)[s]; Z=(z*R)[s]; rs=r[s]; zs=z[s]; ds=d[s]
        for G in (-1.,3.):
            ur,uz=oracle.ring(X,Z,G,R)
            D=np.maximum(1,np.hypot(rs,zs))
            # closed forms: 1-m in floating point -> relative error eps/d^2; cancellations far away
            t=abs(G)/R*(1e-9/ds*np.minimum(1,1)+3e-15/ds**3+np.where(rs<1.001e-7,3*rs,0)+np.where((rs>0)&(rs<1e-2),1e-15*(1+np.abs(zs))/np.maximum(rs,1e-9),0))
            t=np.where(ds>=.1,abs(G)/R*(1e-10+np.where(rs<1.001e-7,3*rs,0)+np.where((rs>0)&(rs<1e-2),1e-15*(1+np.abs(zs))/np.maximum(rs,1e-9),0)),t)
            b={'R':R,'Gamma':G}
            for z0 in (0.,-3.*R,5.*R):
                o=ring_u_polar(X,Z+z0,Gamma=G,r0=R,z0=z0)
                q=t if z0==0 else t+abs(G)/R*1e-13/ds**2
                if z0!=0:
                    k=ds>=1e-3
                    o=[v[k] for v in o]; compare(ck,'polar:ur','ring_u_polar',(X[k],Z[k]+z0),o[0],ur[k],q[k],dict(b,z0=z0)); compare(ck,'polar:uz','ring_u_polar',(X[k],Z[k]+z0),o[1],uz[k],q[k],dict(b,z0=z0))
                else:
                    compare(ck,'polar:ur','ring_u_polar',(X,Z),o[0],ur,q,b); compare(ck,'polar:uz','ring_u_polar',(X,Z),o[1],uz,q,b)
            k=rs>=1e-4
            for nm,f in (('ring_u_polar_singular',ring_u_polar_singular),('ring_u_polar_singularb',ring_u_polar_singularb)):
                o=f(X[k],Z[k],G,R)
                compare(ck,nm+':ur',nm,(X[k],Z[k]),o[0],ur[k],t[k],b); compare(ck,nm+':uz',nm,(X[k],Z[k]),o[1],uz[k],t[k],b)
            for psi in (0,2.2,-1.1,np.pi/2):
                k=np.ones(rs.shape,bool) if psi==0 else (ds>=1e-3)
                P=(X[k]*np.cos(psi),X[k]*np.sin(psi),Z[k])
                o=ring_u(*P,Gamma=G,R=R,polar_out=True); c=ring_u(*P,Gamma=G,R=R,polar_out=False)
                for nm,got,rf in (('ur',o[0],ur[k]),('uz',o[1],uz[k]),('ux',c[0],ur[k]*np.cos(psi)),('uy',c[1],ur[k]*np.sin(psi)),('uzc',c[2],uz[k])):
                    compare(ck,'ring_u:'+nm,'ring_u',P,got,rf,t[k],b)
            # relative accuracy in the far field (dipole), moderate distances
            k=(ds>=.3)&(np.hypot(rs,zs)<=50)&(rs>=1e-2)
            mag=np.hypot(ur,uz)[k]
            for nm,o in (('ring_u',ring_u(X[k],0*X[k],Z[k],Gamma=G,R=R)),('ring_u_polar',ring_u_polar(X[k],Z[k],Gamma=G,r0=R))):
                err=np.hypot(o[0]-ur[k],o[1]-uz[k])
                compare(ck,'far:'+nm,nm,(X[k],Z[k]),err/mag,0*mag,2e-7,b)
        # on the ring: finite, documented value
        for G in (-1.,3.):
            for psi in (0,np.pi):
                x=R*np.cos(psi)
                o=ring_u(np.array([x]),np.array([0.]),np.array([0.]),Gamma=G,R=R); o2=ring_u_polar(np.array([R]),np.array([0.]),Gamma=G,r0=R); ck.case(2)
                for v in (o,o2):
                    ck.expect(np.all(np.isfinite(v)) and abs(v[0][0])<1e-12,'on_ring',lambda:{'R':R,'Gamma':G,'got':v})
            # vicinity: finite
            e=np.concatenate(([0],lattice.scales(-16,-6))); rv,zv=lattice.grid(np.unique(np.concatenate((1+e,1-e))),np.unique(np.concatenate((e,-e))))
            for nm,v in (('ring_u',ring_u(rv*R,0*rv,zv*R,Gamma=G,R=R)),('ring_u_polar',ring_u_polar(rv*R,zv*R,Gamma=G,r0=R))):
                ck.case(rv.size)
                near=(np.maximum(np.abs(rv-1),np.abs(zv))<9e-8)&(np.abs(zv)*R<9e-8)
                ck.expect(np.all(np.isfinite(v[0][near])) and np.all(np.isfinite(v[1][near])),'vicinity:'+nm,lambda:{'R':R,'r/R':rv[near],'z/R':zv[near],'got':[v[0][near],v[1][near]]})
        # smoothing acts in the core only; finite in the core
        for eps in (.3,.1,1e-2,1e-3):
            rho=np.hypot(rs-1,zs)
            for meth in ('Saffman','linear'):
                o=ring_u_polar(X,Z,Gamma=-1.,r0=R,epsilon=eps*R,reg_method=meth); ur,uz=ring_u_polar(X,Z,Gamma=-1.,r0=R)
                out=rho>.5001*eps
                compare(ck,'smooth:%s:out:ur'%meth,'ring_u_polar',(X[out],Z[out]),o[0][out],ur[out],1e-9*(1+np.abs(ur[out])),{'R':R,'eps/R':eps})
                compare(ck,'smooth:%s:out:uz'%meth,'ring_u_polar',(X[out],Z[out]),o[1][out],uz[out],1e-9*(1+np.abs(uz[out])),{'R':R,'eps/R':eps})
                i=rho<.4999*eps; ck.case(2*i.sum())
                bound=20./(eps*R)
                ck.expect(np.all(np.abs(o[0][i])<=bound) and np.all(np.abs(o[1][i])<=bound),'smooth:%s:core'%meth,lambda:{'R':R,'eps/R':eps,'got':[o[0][i],o[1][i]]})
                # same smoothing wherever the ring is along its axis (in units of the core)
                for z0 in (-2.*R,.6*eps*R,.2*eps*R,7*R):
                    k=(np.abs(rho-.5*eps)>1e-6)&((rho>1e-3*eps)|(rho<=0)); g=ring_u_polar(X[k],Z[k]+z0,Gamma=-1.,r0=R,z0=z0,epsilon=eps*R,reg_method=meth)
                    tt=1e-9*(1+np.hypot(o[0],o[1])[k])*(1+1e-3/np.maximum(rho[k],1e-3*eps))
                    compare(ck,'smooth:%s:z0:ur'%meth,'ring_u_polar',(X[k],Z[k]+z0),g[0],o[0][k],tt,{'R':R,'eps/R':eps,'z0':z0}); compare(ck,'smooth:%s:z0:uz'%meth,'ring_u_polar',(X[k],Z[k]+z0),g[1],o[1][k],tt,{'R':R,'eps/R':eps,'z0':z0})
            o=ring_u(X,0*X,Z,Gamma=-1.,R=R,epsilon=eps*R); u=ring_u(X,0*X,Z,Gamma=-1.,R=R)
            out=rho>1.01e-6
            for k_ in (0,1): compare(ck,'smooth:ring_u','ring_u',(X[out],Z[out]),o[k_][out],u[k_][out],1e-9*(1+np.abs(u[k_][out])),{'R':R,'eps/R':eps})
            v=ring_u(np.array([R]),np.array([0.]),np.array([0.]),Gamma=-1.,R=R,epsilon=eps*R); ck.case()
            ck.expect(np.all(np.isfinite(v)) and abs(v[1][0])<=5./(R*1)*np.log(20/eps),'smooth:ring_u:core',lambda:{'R':R,'eps/R':eps,'got':v})
    # set of rings: all subsets, intensities including zero
    rings=[(-1.,1.,0.,0.,0.),(2.,.5,.3,-.2,1.),(0.,2.,1.,1.,1.),(-.7,3.,-1.,.5,-2.)]
    P=[v.astype(float) for v in lattice.grid([-2.,.1,.7,3.],[-1.,0.2,.9],[-3.,.4,2.2])]
    singles=[np.zeros((3,)+P[0].shape) if G==0 else None for (G,R,x,y,z) in rings]
    for i,(G,R,x,y,z) in enumerate(rings):
        if G!=0:
            a,b=oracle.ring(np.hypot(P[0]-x,P[1]-y),P[2]-z,G,R); ps=np.arctan2(P[1]-y,P[0]-x); singles[i]=np.array([a*np.cos(ps),a*np.sin(ps),b])
    for n in range(len(rings)+1):
        for sub in itertools.permutations(range(len(rings)),n):
            A=[np.array([rings[i][k] for i in sub]) for k in range(5)]
            o=rings_u(*P,*A,polar_out=False); ref=sum((singles[i] for i in sub),np.zeros((3,)+P[0].shape))
            for k in range(3): compare(ck,'rings_u','rings_u',P,o[k],ref[k],1e-9,{'rings':[rings[i] for i in sub],'component':k})
            if n==1 and rings[sub[0]][2]==0:
                o=rings_u(*P,*A,polar_out=True); G,R,x,y,z=rings[sub[0]]; a,b=oracle.ring(np.hypot(P[0],P[1]),P[2],G,R)
                compare(ck,'rings_u:polar','rings_u',P,o[0],a,1e-9); compare(ck,'rings_u:polar','rings_u',P,o[1],b,1e-9)
    Z2=[np.array([0.,2.,-1.]),np.array([1.,2.,.5]),np.array([-1.,2.,.3])]
    o=rings_u(P[0],P[1],P[2],*Z2[:2],np.zeros(3),np.zeros(3),Z2[2],polar_out=True)
    ref=[sum(oracle.ring(np.hypot(P[0],P[1]),P[2]-zz_,G,R)[k] for G,R,zz_ in zip(*Z2) if G!=0) for k in (0,1)]
    for k in (0,1): compare(ck,'rings_u:polar3','rings_u',P,o[k],ref[k],1e-9)
    ck.sample({'rings':rings,'n_lattice':int(r.size)})
