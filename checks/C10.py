"""Longitudinal vorticity of a right cylinder and straight root vortex: multi-scale lattice against Biot-Savart"""
import numpy as np, oracle, lattice
from numcheck import compare
from wiz.VortexCylinder import vc_longi_u, vc_longi_u_polar, vc_root_u
from wiz.VortexLine import vl_semiinf_straight_u, vl_semiinf_straight_u_polar
def run(ck):
    ck.level='exploration'
    ck.rule='case = one velocity component at one lattice point (radius x axial position at every decade around 0 and R, x azimuth), compared with Biot-Savart quadrature (cylinder) or the cancellation-free line integral (root); non-trivial = expected value not negligible'
    rr=lattice.radial(ck.thorough); zz=lattice.axial(ck.thorough)
    r,z=lattice.grid(rr,zz)
    k=np.maximum(np.abs(r-1),np.abs(z))>1e-15     # not on the edge itself
    r,z=r[k],z[k]
    psis=[0,2.2,-1.1,np.pi/2,np.pi,-3]
    for R in ([1.,.37,63.,1e3] if not ck.thorough else [1.,.37,63.,1e3,1e-2,5.5,120.]):
        X=np.where(r==1,R,r*R); Z=z*R
        for g in (-1.,2.5):
            u=oracle.cyl_longi(X,Z,g,R)
            t=abs(g)*(2e-9+np.where(r<1.001e-7,2*r,0)+np.where((r>0)&(r<1e-2),4e-16*(1+np.abs(z))/np.maximum(r,1e-12),0))
            b={'R':R,'gamma_l':g}
            for psi in psis:
                o=vc_longi_u_polar(X,0*X+psi,Z,gamma_l=g,R=R,polar_out=True)
                compare(ck,'longi:polar:u_psi','vc_longi_u_polar',(X,0*X+psi,Z),o[1],u,t,b)
                compare(ck,'longi:polar:u_r','vc_longi_u_polar',(X,0*X+psi,Z),o[0],0*u,1e-12,b)
                compare(ck,'longi:polar:u_z','vc_longi_u_polar',(X,0*X+psi,Z),o[2],0*u,1e-12,b)
                c=vc_longi_u_polar(X,0*X+psi,Z,gamma_l=g,R=R,polar_out=False)
                compare(ck,'longi:cart:u_x','vc_longi_u_polar',(X,0*X+psi,Z),c[0],-u*np.sin(psi),t,b)
                compare(ck,'longi:cart:u_y','vc_longi_u_polar',(X,0*X+psi,Z),c[1],u*np.cos(psi),t,b)
                compare(ck,'longi:cart:u_z','vc_longi_u_polar',(X,0*X+psi,Z),c[2],0*u,1e-12,b)
                s=(np.abs(r-1)>=1e-5) if psi!=0 else np.ones(r.shape,bool)
                P=(X[s]*np.cos(psi),X[s]*np.sin(psi),Z[s])
                c=vc_longi_u(*P,gamma_l=g,R=R,polar_out=False); o=vc_longi_u(*P,gamma_l=g,R=R,polar_out=True)
                tt=t[s]+1e-9
                compare(ck,'longi:xyz:u_x','vc_longi_u',P,c[0],-u[s]*np.sin(psi),tt,b)
                compare(ck,'longi:xyz:u_y','vc_longi_u',P,c[1],u[s]*np.cos(psi),tt,b)
                compare(ck,'longi:xyz:u_psi','vc_longi_u',P,o[1],u[s],tt,b)
    # sheet edge: finite
    for R in (1.,.37,63.,2.,1024.):
        for e in (0,1e-16,-1e-16,1e-12,-1e-12):
            o=vc_longi_u_polar(np.array([R*(1+e)]),np.array([0.]),np.array([0.]),gamma_l=-1.,R=R,polar_out=True); ck.case()
            ck.expect(np.all(np.isfinite(o)) and abs(o[1][0])<=.5+1e-9,'longi:edge',lambda:{'R':R,'eps':e,'got':o})
    # --- root vortex
    rr=lattice.scales(-6,4,.5 if ck.thorough else 1); rr=np.concatenate((rr,[.3,.7,2,5])); zz=lattice.axial(ck.thorough,-8,4)
    r,z=lattice.grid(rr,zz)
    for G in (-1.,3.):
        ref=oracle.line_semiinf(np.column_stack((r,0*r,z)),[0,0,1],G)[:,1]
        t=1e-9*np.abs(ref)+abs(G)*3e-16/r*10
        for psi in psis:
            for nm,f,args in (('vl_semiinf_straight_u_polar',vl_semiinf_straight_u_polar,(r,0*r+psi,z)),('vl_semiinf_straight_u',vl_semiinf_straight_u,(r*np.cos(psi),r*np.sin(psi),z)),('vc_root_u',vc_root_u,(r*np.cos(psi),r*np.sin(psi),z))):
                b={'Gamma':G,'psi':psi}
                o=f(*args,Gamma_r=G,polar_out=True); c=f(*args,Gamma_r=G,polar_out=False)
                compare(ck,'root:u_psi:'+nm,nm,args,o[1],ref,t,b); compare(ck,'root:u_r:'+nm,nm,args,o[0],0*ref,0,b); compare(ck,'root:u_z:'+nm,nm,args,o[2],0*ref,0,b)
                compare(ck,'root:u_x:'+nm,nm,args,c[0],-ref*np.sin(psi),2*t,b); compare(ck,'root:u_y:'+nm,nm,args,c[1],ref*np.cos(psi),2*t,b); compare(ck,'root:uz:'+nm,nm,args,c[2],0*ref,0,b)
        # axis
        zx=lattice.axial(False,-8,4)
        for x in (0.,-0.,1e-12,1e-9):
            for f in (vl_semiinf_straight_u,vc_root_u):
                o=f(0*zx+x,0*zx,zx,Gamma_r=G,polar_out=False); ck.case(zx.size)
                ck.expect(np.all(np.asarray(o)==0),'root:axis',lambda:{'x':x,'got':o})
    ck.sample({'R':[1.,.37,63.,1e3],'n_r':len(rr),'n_z':len(zz),'psi':psis})
