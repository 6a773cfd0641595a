"""Doublets: points and lines"""
import numpy as np, oracle, lattice, itertools
from common import pmap
from numcheck import compare
import wiz.VortexDoublet as DB
def dist_line(P,m,L=np.inf):
    x,y,z=P.T; s=np.clip((m*x+z)/(1+m*m),0,L); return np.sqrt((x-m*s)**2+y*y+(z-s)**2)
def vec(ck,key,name,P,u,ref,tol,base):
    for k,c in enumerate('xyz'): compare(ck,key+':u'+c,name,P.T,u[k],ref[:,k],tol,base)
def points(th):
    r=[0.]+list(10.**np.arange(-2,3.1,.5 if th else 1))+[.3,.7,1.5,3.]; ps=[0,.9,np.pi/2,2.3,np.pi,-1.,-2.4]; z=list(10.**np.arange(-2,3.1,.5 if th else 1))+[.2,.6,1.4,2.7]; z=[0.]+z+[-q for q in z]
    r,p,z=lattice.grid(sorted(set(r)),ps,sorted(set(z))); y=np.where(p==0,0,r*np.sin(p))
    return np.column_stack((r*np.cos(p),y,z)),r,p
def f_point(ck,it):
    m,x0,sc=it
    P,_,_=points(ck.thorough); P=P*sc; n=np.sqrt((P**2).sum(1)); k=n>=4e-3; P=P[k]; n=n[k]
    ref=oracle.doublet(P,m); M=np.sqrt(np.dot(m,m)); X=P+x0
    tol=M/n**3*(1e-12+1e-15*np.abs(x0).max()/n*5); b={'m':m,'x0':x0}
    u=DB.doublet_u(*X.T,m=m,x0=x0); vec(ck,'point','doublet_u',X,u,ref,tol,b)
    v=DB.doublet_u(X[:,0],X[:,1],X[:,2],list(m),np.array(x0)); vec(ck,'point:types','doublet_u',X,v,ref,tol,b)
    for k,p in enumerate(X[::37]):
        w=DB.doublet_u(float(p[0]),float(p[1]),float(p[2]),m,x0); ck.case(1); ck.close(np.array([float(q) for q in w]),ref[::37][k],'point:scalar',lambda:dict(b,point=p),rtol=0,atol=tol[::37][k])
    o=DB.doublet_u(np.array([x0[0]]),np.array([x0[1]]),np.array([x0[2]]),m,x0); ck.case(1); ck.expect(np.all(np.isfinite(o)),'point:singular',b)
def f_line(ck,it):
    m,L,g,sc=it
    P,r,p=points(ck.thorough); P=P*sc; n=np.sqrt((P**2).sum(1)); b={'m':m,'L':L,'intensity':g}
    d=dist_line(P,m,L); k=(d>=1e-3*n)&(d>1e-2*sc*.5) if np.isinf(L) else (d>=1e-3*n)&(d>5e-3*sc)
    if not np.isinf(L): k&=(n<500*L)
    P,n,d=P[k],n[k],d[k]
    ref=oracle.doublet_line(P,g,m,L)
    tol=abs(g)*np.maximum(1/n**2,1/d**2)*(1e-11 if np.isinf(L) else 1e-9)+(0 if np.isinf(L) else abs(g)*1e-13*np.maximum(n/L,1)**2/n**2)
    tol=tol+abs(g)*1e-16*(n/d)**3/d**2*3 + np.where(d<.02*n,abs(g)/d**2*1e-5,0)     # (precision of the reference integral)
    u=DB.doublet_line_u(*P.T,g,m=m,L=L); vec(ck,'line:%s'%('inf' if np.isinf(L) else 'finite'),'doublet_line_u',P,u,ref,tol,b)
    # opposite skew: mirrored
    v=DB.doublet_line_u(-P[:,0],P[:,1],P[:,2],g,m=-m,L=L)
    for c,s in enumerate((-1,1,1)): compare(ck,'line:mirror%d'%c,'doublet_line_u',P.T,v[c],s*np.asarray(u[c]),2*tol,b)
    v=DB.doublet_line_u(P[:,0],-P[:,1],P[:,2],g,m=m,L=L)
    for c,s in enumerate((1,-1,1)): compare(ck,'line:mirrory%d'%c,'doublet_line_u',P.T,v[c],s*np.asarray(u[c]),2*tol,b)
    # vicinity of the line: finite; leading order for infinite ones
    t=np.array([0,.1,.5,1,3.,10.,40.])*sc
    if not np.isinf(L): t=np.concatenate((t[t<L],[L*.5,L*.999]))
    e=np.concatenate(([0],10.**np.arange(-16,-2)))*sc
    for ps in (0,1.1,np.pi/2,2.8,-2.):
        Z,E=[q for q in lattice.grid(t,e)]; X=m*Z+E*np.cos(ps); Y=E*np.sin(ps)
        u=DB.doublet_line_u(X,Y,Z,g,m=m,L=L); ck.case(3*X.size)
        ok=np.isfinite(u).all(axis=0)
        ck.expect(ok.all(),'line:vicinity:finite',lambda:dict(b,point=[X[~ok][0],Y[~ok][0],Z[~ok][0]]))
        if np.isinf(L):
            # two-dimensional doublet of the transverse part of the dipoles: exact to O(h/z)
            q=(E<=1e-3*Z)&(E>=1e-6*Z)&(E>2e-8)&(Z>0)
            a=np.array([m,0,1.])/np.sqrt(1+m*m); H=np.column_stack((X-m*Z,Y,0*Y)); H=H-np.outer(H@a,a); h2=(H**2).sum(1)+1e-300; mt=np.array([0,0,1.])-a*a[2]
            lam=g/np.sqrt(1+m*m)
            U=lam/(2*np.pi)*(2*H*(H@mt)[:,None]/h2[:,None]**2-mt[None,:]/h2[:,None])
            vec(ck,'line:vicinity','doublet_line_u',np.column_stack((X,Y,Z))[q],[c[q] for c in u],U[q],abs(g)*(3*(1+m*m)**2/(np.sqrt(h2)*Z+1e-300)+1e-8/h2)[q],b)
def f_polar(ck,it):
    g,sc=it
    r=np.concatenate(([0.],10.**np.arange(-7,4.),[.3,.8,2,6.]))*sc; z=np.concatenate(([0.],10.**np.arange(-6,4),-10.**np.arange(-6,4),[.4,-.4,3,-3]))*sc
    r,z=lattice.grid(np.sort(r),np.sort(z)); n=np.hypot(r,z); b={'intensity':g}
    k=(n>0)&~((r==0)&(z>0)); r1,z1,n1=r[k],z[k],n[k]
    # exact integral of the dipoles of a straight semi-infinite line: point sink at its end
    er=-g/(4*np.pi)*r1/n1**3; ez=-g/(4*np.pi)*z1/n1**3; tol=abs(g)/n1**2*1e-12
    for nm,o in (('polar',DB.doublet_line_polar_u(r1,z1,g)),):
        small=(np.abs(z1)<1e-8)|(r1<1e-8)
        compare(ck,'straight:%s:ur'%nm,'doublet_line_polar_u',(r1,z1),o[0],er,tol,b); compare(ck,'straight:%s:uz'%nm,'doublet_line_polar_u',(r1,z1),o[1],ez,tol,b)
    for ps in (0,.8,np.pi/2,-2.):
        X=(r1*np.cos(ps),r1*np.sin(ps) if ps else 0*r1,z1); u=DB.doublet_line_u(*X,g)
        for c,e in enumerate((er*np.cos(ps),er*np.sin(ps),ez)): compare(ck,'straight:cart%d'%c,'doublet_line_u',X,u[c],e,tol+1e-16*abs(g)/n1**2,b)
    o=DB.doublet_line_polar_u(r,z,g); u=DB.doublet_line_u(r,0*r,z,g); ck.case(5*r.size); ck.expect(np.isfinite(o).all() and np.isfinite(u).all(),'straight:finite',b)
    # oracle cross-check of the closed form, and points of a doublet on the axis
    q=(n1>=.05*sc)&(n1<500*sc)&(r1>=.04*n1); q[np.where(q)[0][::2]]=False
    P=np.column_stack((r1,0*r1,z1))[q]; ref=oracle.doublet_line(P,g,0.); compare(ck,'straight:oracle','doublet_line_u',P.T,DB.doublet_line_u(*P.T,g)[0],ref[:,0],abs(g)/n1[q]**2*1e-10,b); compare(ck,'straight:oracle','doublet_line_u',P.T,DB.doublet_line_u(*P.T,g)[2],ref[:,2],abs(g)/n1[q]**2*1e-10,b)
    for z0 in (0.,.7,-2.,30.,1234.56,-98765.4321):
        q=n>=4e-3
        ref=oracle.doublet(np.column_stack((r,0*r,z))[q],[0,0,g]); o=DB.doublet_u_polar(r[q],z[q]+z0,g,z0=z0); t=abs(g)/n[q]**3*(1e-12+3e-15*abs(z0)/n[q])
        compare(ck,'point:polar:ur','doublet_u_polar',(r[q],z[q]+z0),o[0],ref[:,0],t,dict(b,z0=z0)); compare(ck,'point:polar:uz','doublet_u_polar',(r[q],z[q]+z0),o[1],ref[:,2],t,dict(b,z0=z0))
        o=DB.doublet_u_polar(np.array([0.]),np.array([z0]),g,z0=z0); ck.case(1); ck.expect(np.isfinite(o).all(),'point:polar:singular',dict(b,z0=z0))
    for f in (lambda: DB.doublet_u_polar(np.array([.5,-1.]),np.array([1.,1.]),g), lambda: DB.doublet_line_polar_u(np.array([.5,-1.]),np.array([1.,1.]),g)):
        ck.case(1)
        try: f(); ck.fail('polar:negative_r',{'note':'negative radius accepted'})
        except Exception: pass
def f_num(ck,it):
    m,L,g=it
    P,r,p=points(False); n=np.sqrt((P**2).sum(1)); d=dist_line(P,m,L); k=(d>.25)&(n<60); P,n,d=P[k],n[k],d[k]
    ref=oracle.doublet_line(P,g,m,L); E=[]
    M=lambda Q: abs(g)/(2*np.pi)/Q**3
    d0=n; d1=np.sqrt((P[:,0]-m*L)**2+P[:,1]**2+(P[:,2]-L)**2)
    for N in (400,1600):
        dz=L/(N-1); b={'m':m,'L':L,'intensity':g,'nQuad':N}
        tol=dz*(M(d0)+M(d1))*.51+dz**2*M(d)/d*6      # end points of the sum count fully at most
        u=DB.doublet_line_u_num(*P.T,g,m=m,zmax=L,nQuad=N); vec(ck,'num:line','doublet_line_u_num',P,u,ref,tol,b)
        if m==0:
            for z0 in (0.,-1.3):
                rr=np.hypot(P[:,0],P[:,1]); o=DB.doublet_line_polar_u_num(rr,P[:,2]+z0,g,z0=z0,zmax=L+z0,nQuad=N); ps=np.arctan2(P[:,1],P[:,0])
                compare(ck,'num:polar:ur','doublet_line_polar_u_num',P.T,o[0],ref[:,0]*np.cos(ps)+ref[:,1]*np.sin(ps),tol,dict(b,z0=z0)); compare(ck,'num:polar:uz','doublet_line_polar_u_num',P.T,o[1],ref[:,2],tol,dict(b,z0=z0))
    # integrals used by the line: closed forms against their numerical quadratures
def f_int(ck,m):
    """ the elementary integrals along the line, \\int x^k/(a^2-2bx+c^2x^2)^(n/2) dx, given by the library (3 times for n=5) """
    import mpmath as mp
    mp.mp.dps=20; nm=(('I30',3,0,1),('tI50',5,0,3),('tI51',5,1,3),('tI52',5,2,3))
    for x,y,z in itertools.product((-2.,0.,.4,3.),(0.,.7,-5.),(-3.,-.5,0.,.6,4.)):
        if y==0 and x==m*z and z>=0: continue                  # on the line
        a=float(np.sqrt(x*x+y*y+z*z)); b=m*x+z; c=float(np.sqrt(1+m*m)); s0=max(0.,b/c**2)
        A,B,C=mp.mpf(a)**2,mp.mpf(b),mp.mpf(c)**2
        for L in (mp.inf,.5,3.,100.):
            if L!=mp.inf and 1e-12<1-b*b/(a*a*c*c)<1e-2: continue         # loss of precision; not used by the velocity functions
            cuts=[mp.mpf(0)]+[t for t in (mp.mpf(s0),mp.mpf(s0+a)) if 0<t<L]+[mp.mpf(L)]
            ref=[float(k*mp.quad(lambda t: t**q/(A-2*B*t+C*t*t)**(mp.mpf(n)/2),cuts)) for _,n,q,k in nm]
            if L==mp.inf: got=[getattr(DB,n)(a,b,c) for n,_,_,_ in nm]
            elif hasattr(DB,'_integrals_DL_finite'): got=DB._integrals_DL_finite(a,b,c,float(L))
            else: continue
            for (n,_,_,_),g,r in zip(nm,got,ref):
                ck.case(1); ck.expect(np.ndim(g)==0 and abs(float(g)-r)<=1e-7*abs(r)+1e-9,'integral:'+n,{'a':a,'b':b,'c':c,'length':float(L),'got':g,'expected':r})
def run(ck):
    ck.level='exploration'
    ck.rule='case = one velocity component at one lattice point (each decade of distance, around the singularity, its extension, and beside the line) for each skew, length, intensity, position and formulation, compared with the dipole field or its graded quadrature; non-trivial = expected value not negligible'
    ms=[(0,0,1.),(1.,0,0),(0,-2.,0),(.3,-.4,1.2)]; x0=[(0,0,0),(1.,-2.,.5),(-40,3.,90.),(3012.37,-10480.61,803.19),(-70000.3,.123,-5e5-.7)]
    pmap(ck,f_point,list(itertools.product([np.array(m,float) for m in ms],[np.array(x,float) for x in x0],(1.,) if not ck.thorough else (1.,50.))))
    sk=[0.,1e-3,.3,-.3,1.,-2.] if not ck.thorough else [0.,1e-6,1e-3,.1,.3,-.3,.7,1.,-1.,2.,-2.,4.]
    pmap(ck,f_line,list(itertools.product(sk,(np.inf,1.,30.,.1) if not ck.thorough else (np.inf,.1,1.,5.,30.,100.),(-1.3,) if not ck.thorough else (-1.3,4.),(1.,))))
    pmap(ck,f_polar,[(g,sc) for g in (-1.,2.5) for sc in (1.,7.)])
    pmap(ck,f_num,list(itertools.product((0.,.4,-1.),(3.,20.),(-1.,2.))))
    pmap(ck,f_int,[0.,.3,-1.,2.5,-.01])
