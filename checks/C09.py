"""Right vortex cylinder, tangential vorticity: exhaustive multi-scale lattice against Biot-Savart"""
import numpy as np, common, oracle, lattice
from wiz.VortexCylinder import vc_tang_u, cylinder_tang_u
def tol(r,z,g,dz=1.):
    """ absolute tolerance: close to machine accuracy + size of the axis regularisation (r<1e-7R) """
    return abs(g)*(2e-9+np.where(r<1.001e-7,2*r,0)+noise(r,z))
def noise(r,z):
    """ rounding errors of the radial velocity close to the axis (difference of K and E) """
    return np.where((r>0)&(r<1e-2),2e-15*(1+np.abs(z))/np.maximum(r,1e-12),0)
def check(ck,name,f,ref,r,z,R,g,psis,key,zr=None):
    """ all outputs conventions of f at r,z (units of R); ref=(ur,uz) """
    ur,uz=ref
    for psi in psis:
        x,y=(r*R,0*r) if psi==0 else (r*R*np.cos(psi),r*R*np.sin(psi))
        sel=np.ones(r.shape,bool) if psi==0 else (np.abs(r-1)>=1e-5)|(r==0)
        xs,ys,zs=x[sel],y[sel],z[sel]*R
        t=tol(r[sel],z[sel],g)+(1e-7*abs(g) if psi!=0 else 0)*(np.abs(r[sel]-1)<1e-3)
        d=lambda:{'function':name,'R':R,'gamma':g,'psi':psi,'r/R':r[sel],'z/R':z[sel]}
        o=f(xs,ys,zs,True); ck.case(2*sel.sum(),0)
        c=f(xs,ys,zs,False); ck.case(3*sel.sum(),0)
        for nm,got,rf in (('ur',o[0],ur[sel]),('uz',o[1],uz[sel]),('ux',c[0],ur[sel]*np.cos(psi)),('uy',c[1],ur[sel]*np.sin(psi)),('uz_cart',c[2],uz[sel])):
            ok=np.abs(np.asarray(got)-rf)<=t
            ck.nontriv+=int(np.sum(np.abs(rf)>1e-12*abs(g)))
            if np.shape(got)!=rf.shape or not np.all(ok):
                i=int(np.argmax(~ok)) if np.shape(got)==rf.shape else -1
                ck.fail('%s:%s:%s'%(key,name,nm),{'function':name,'R':R,'gamma':g,'psi':psi,'point':[xs[i],ys[i],zs[i]],'r/R':r[sel][i],'z/R':z[sel][i],'component':nm,'got':np.asarray(got).ravel()[i],'expected':rf[i],'n_bad':int(np.sum(~ok))})
def run(ck):
    ck.level='exploration'
    ck.rule='case = one velocity component at one lattice point compared with an independent Biot-Savart quadrature; lattice: radial/axial positions at every power of ten around 0 and R (units R), all R, gamma, azimuths, output conventions; non-trivial = points where the expected component is not negligible (>1e-12 gamma)'
    rr=lattice.radial(ck.thorough); zz=lattice.axial(ck.thorough)
    r,z=lattice.grid(rr,zz)
    rim=np.maximum(np.abs(r-1),np.abs(z))
    ok=rim>3e-8                                    # outside of the (documented) regularised rotor edge
    r,z=r[ok],z[ok]
    Rs=[1.,.37,63.,1e3] if not ck.thorough else [1.,.37,63.,1e3,1e-2,5.5,120.]
    gs=[-1.,2.5]
    for R in Rs:
        # exact floating point representation of r*R, z*R used for the reference
        X=r*R; Z=z*R; X=np.where(r==1,R,X)
        for g in gs:
            ur,uz=oracle.cyl_tang(X,Z,g,R)
            check(ck,'semi-infinite',lambda x,y,zz_,p:vc_tang_u(x,y,zz_,gamma_t=g,R=R,polar_out=p),(ur,uz),np.where(r==1,1,r),z,R,g,(0,2.2,-1.1,np.pi/2),'vc')
        # far field: relative accuracy
        d=np.hypot(r,z); far=(d>=2)&(d<=100)&((z<=0)|(r>1.2))
        a=vc_tang_u(X[far],0*X[far],Z[far],gamma_t=-1.,R=R); ur,uz=oracle.cyl_tang(X[far],Z[far],-1.,R)
        mag=np.hypot(ur,uz); err=np.hypot(a[0]-ur,a[1]-uz); ck.case(far.sum())
        if not np.all(err<=1e-8*mag+noise(r[far],z[far])):
            i=int(np.argmax(np.where(np.isnan(err),9,(err-noise(r[far],z[far]))/mag))); ck.fail('far:semi-infinite',{'R':R,'r/R':r[far][i],'z/R':z[far][i],'got':[a[0][i],a[1][i]],'expected':[ur[i],uz[i]]})
    ck.sample({'r/R':r[::max(1,len(r)//8)],'z/R':z[::max(1,len(r)//8)],'R':Rs,'gamma':gs})
    # --- rotor edge
    for R in Rs+[2**k for k in range(-8,11,2)]:
        for e1 in (0,-1e-16,1e-16,3e-16,-2e-16):
            for g in gs:
                for psi in (0,np.pi):
                    x=R*(1+e1)*np.cos(psi)
                    for sh in (lambda v:np.array([v]),lambda v:v,lambda v:np.array([[v]])):
                        ur,uz=vc_tang_u(sh(x),sh(0.),sh(0.),gamma_t=g,R=R); ck.case()
                        ck.expect(np.all(np.asarray(ur)==0) and np.all(np.abs(np.asarray(uz)-g/4)<=1e-9*abs(g)),'edge',lambda:{'R':R,'x':x,'gamma':g,'got':[ur,uz],'expected':[0,g/4]})
    # --- vicinity of the edge: finite and bounded (axial velocity between the values of both sides)
    e=np.concatenate(([0],lattice.scales(-16,-7)))
    rv,zv=lattice.grid(np.unique(np.concatenate((1+e,1-e))),np.unique(np.concatenate((e,-e))))
    for R in Rs:
        ur,uz=vc_tang_u(rv*R,0*rv,zv*R,gamma_t=-1.,R=R); ck.case(rv.size)
        bad=~((uz<=.26)&(uz>=-1.01)&np.isfinite(ur)&(np.abs(ur)<=10))
        ck.expect(not bad.any(),'edge_vicinity',lambda:{'R':R,'r/R':rv[bad][0],'z/R':zv[bad][0],'got':[ur[bad][0],uz[bad][0]]})
    # --- finite cylinders
    z1z2=[(-2.,2.),(0.,1.),(-1.,.5),(1.,1.001),(-30.,40.)]+([(-.1,.1),(0.,1e3),(-500.,-3.)] if ck.thorough else [])
    rr=lattice.radial(ck.thorough,kmin=-9,kmax=2)
    for (a,b) in z1z2:
        zl=lattice.axial(False,kmin=-7,kmax=2)
        zs=np.unique(np.concatenate((zl+a,zl+b,[(a+b)/2])))
        for R in Rs[:3]:
            r,z=lattice.grid(rr,zs); X=np.where(r==1,R,r*R); Z=z*R
            z1,z2=a*R,b*R
            keep=(np.maximum(np.abs(r-1),np.abs(Z-z1)/R)>1e-6)&(np.maximum(np.abs(r-1),np.abs(Z-z2)/R)>1e-6)
            r,z,X,Z=r[keep],z[keep],X[keep],Z[keep]
            for g in gs:
                ref=oracle.cyl_tang_finite(X,Z,g,R,z1,z2)
                check(ck,'finite[%g,%g]'%(a,b),lambda x,y,q,p:cylinder_tang_u(x,y,q,gamma_t=g,R=R,z1=z1,z2=z2,polar_out=p),ref,r,z,R,g,(0,2.2),'cyl')
    # --- smoothing: no effect upstream, finite, consistent in the limit
    rr=lattice.radial(False,kmin=-9,kmax=1); zz=lattice.axial(False,kmin=-9,kmax=1)
    r,z=lattice.grid(rr,zz)
    for R in (1.,63.):
        X=np.where(r==1,R,r*R); Z=z*R
        u0=vc_tang_u(X,0*X,Z,gamma_t=-1.,R=R)
        for eps in (1e-1,1e-2,1e-4,1e-6):
            u=vc_tang_u(X,0*X,Z,gamma_t=-1.,R=R,epsilon=eps*R); ck.case(2*r.size)
            up=z<0
            for k in (0,1):
                ck.close(u[k][up],u0[k][up],'smooth:upstream',{'R':R,'epsilon/R':eps,'component':k,'r/R':r[up],'z/R':z[up]},rtol=1e-9,atol=1e-9)
            ck.expect(np.all(np.isfinite(u[0]))and np.all(np.isfinite(u[1])),'smooth:finite',lambda:{'R':R,'epsilon/R':eps})
            dn=(z>=.3)&(np.abs(r-1)>=.2)
            for k in (0,1):
                ck.close(u[k][dn],u0[k][dn],'smooth:limit',{'R':R,'epsilon/R':eps,'component':k},rtol=0,atol=20*eps)
            # across the sheet of a smoothed cylinder (semi-infinite or finite) the velocity is continuous
            d=eps*R*np.array([0,1e-7,1e-5,1e-3]); zc=np.array([.2,.7,1.,1.9])*R
            for nm,f in (('semi-infinite',lambda x,y,q:vc_tang_u(x,y,q,gamma_t=-1.,R=R,epsilon=eps*R)),('finite',lambda x,y,q:cylinder_tang_u(x,y,q,gamma_t=-1.,R=R,z1=-.5*R,z2=2.5*R,epsilon=eps*R))):
                a=[f(R+0*zc+q,0*zc,zc) for q in d]; b=[f(R+0*zc-q,0*zc,zc) for q in d]; ck.case(4*len(d))
                for i in range(1,len(d)):
                    ck.expect(np.max(np.abs(a[i][1]-b[i][1]))<=3*d[i]/(eps*R)+1e-8,'smooth:continuous:'+nm,lambda:{'R':R,'epsilon/R':eps,'distance':d[i],'outside':a[i][1],'inside':b[i][1]})
            # finite cylinder: same properties, upstream of it and in the limit
            zf=np.array([-3.,-1.2,-.51]); rf=np.array([0.,.3,1.,1.5]); G=np.meshgrid(rf*R,zf*R); u1=cylinder_tang_u(G[0],0*G[0],G[1],gamma_t=-1.,R=R,z1=-.5*R,z2=2.5*R,epsilon=eps*R); u2=cylinder_tang_u(G[0],0*G[0],G[1],gamma_t=-1.,R=R,z1=-.5*R,z2=2.5*R)
            for k in (0,1): ck.close(u1[k],u2[k],'smooth:finite cylinder upstream',{'R':R,'epsilon/R':eps,'component':k},rtol=1e-9,atol=1e-9)
            zf=np.array([-.1,.5,2.,3.5]); rf=np.array([.2,.7,1.3,3.]); G=np.meshgrid(rf*R,zf*R); u1=cylinder_tang_u(G[0],0*G[0],G[1],gamma_t=-1.,R=R,z1=-.5*R,z2=2.5*R,epsilon=eps*R); u2=cylinder_tang_u(G[0],0*G[0],G[1],gamma_t=-1.,R=R,z1=-.5*R,z2=2.5*R)
            for k in (0,1): ck.close(u1[k],u2[k],'smooth:finite cylinder limit',{'R':R,'epsilon/R':eps,'component':k},rtol=0,atol=40*eps)
            dn=(z>=.3)&(np.abs(r-1)>=.2)
            if eps<=1e-4:
                for k in (0,1): ck.close(u[k][dn],u0[k][dn],'smooth:limit2',{'R':R,'epsilon/R':eps,'component':k},rtol=0,atol=300*eps**2+1e-9+noise(r[dn],z[dn]))
