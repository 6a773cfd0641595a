"""Skewed cylinders"""
import numpy as np, oracle, lattice, itertools
from common import pmap
from numcheck import compare
import wiz.VortexCylinderSkewed as SK, wiz.VortexCylinder as VC
from wt import Ref, Loading, WindTurbine, query
from oracle import rot
TH=np.linspace(0,2*np.pi,721)
def dist_sheet(x,y,z,m):
    c2=1+m*m; D=np.inf*np.ones(x.shape)
    for t in TH:
        dx,dy=x-np.cos(t),y-np.sin(t); s=np.maximum((m*dx+z)/c2,0); D=np.minimum(D,np.sqrt((dx-m*s)**2+dy**2+(z-s)**2))
    return D
def dist_line(x,y,z,m):
    s=np.maximum((m*x+z)/(1+m*m),0); return np.sqrt((x-m*s)**2+y*y+(z-s)**2)
def lat(th):
    r=[0,1e-12,1e-8,1e-6,1e-3,.1,.3,.5,.7,.82,.9,1.1,1.25,1.6,2.5,5,20,100,1e3]; ps=[0,.4,np.pi/2,2.,np.pi,-1.2,-2.6]; z=[-1e3,-100,-10,-2,-.7,-.3,-.1,-1e-3,-1e-6,-1e-10,0,1e-10,1e-6,1e-3,.1,.3,.8,2.,5,20,100,1e3]
    if th: r+=[1e-5,.02,.2,.4,.6,.95,1.06,1.4,3,9]; ps+=[1.,1.5,2.5,3.,-.4,-np.pi/2,-np.pi,-2.]; z+=[-4,-1.,-.5,-.03,.03,.5,1.2,3,8,50]
    else: r=[q for q in r if q not in (1e-12,1e-3,.5,.82,1.1)]; z=[q for q in z if q not in (-1e3,-10,-.3,-1e-6,-1e-10,1e-3,.8)]
    return [a for a in lattice.grid(sorted(r),ps,sorted(z))]
def polar(ck,key,name,P,up,uc,psi,tol,base):
    compare(ck,key+':ur',name,P,up[0],uc[0]*np.cos(psi)+uc[1]*np.sin(psi),tol,base)
    compare(ck,key+':upsi',name,P,up[1],-uc[0]*np.sin(psi)+uc[1]*np.cos(psi),tol,base)
    compare(ck,key+':uz',name,P,up[2],uc[2],tol,base)
def cart(ck,key,name,P,u,ref,tol,base):
    for k,c in enumerate(('ux','uy','uz')): compare(ck,key+':'+c,name,P,u[k],ref[:,k],tol,base)
def item(ck,it):
    m,R,g=it
    r,psi,z=lat(ck.thorough); x,y=r*np.cos(psi),r*np.sin(psi)
    y=np.where(psi==0,0,y)
    D=dist_sheet(x,y,z,m); base={'m':m,'R':R,'intensity':g}
    k=D>=.06; r,psi,z,x,y,D=[q[k] for q in (r,psi,z,x,y,D)]
    P=np.column_stack((x,y,z)); n=np.hypot(r,z)
    # resolution of 179 intervals, and rounding far downstream along the wake (cancellation of order eps n^2)
    tol=np.where(D<.16,np.where(D<.12,2e-3,3e-6),1e-9)+4e-15*(1+n**2)*(np.abs(np.hypot(x-m*z,y))<3*np.sqrt(1+m*m))+1e-13
    A=(r*R,psi,z*R); X=(x*R,y*R,z*R)
    for nm,ref,fp,fc,gn in (('tang',oracle.skew_tang(P,g,1.,m),SK.svc_tang_u_polar,SK.svc_tang_u,'gamma_t'),('longi',oracle.skew_longi(P,g,1.,m),SK.svc_longi_u_polar,SK.svc_longi_u,'gamma_l')):
        t=abs(g)*tol; b=dict(base,component=nm); kw={gn:g,'R':R,'m':m}
        cart(ck,nm+':polar_in','svc_%s_u_polar'%nm,A,fp(*A,**kw),ref,t,b)
        uc=fc(*X,**kw); cart(ck,nm+':cart_in','svc_%s_u'%nm,X,uc,ref,t,b)
        rc=(ref[:,0],ref[:,1],ref[:,2])
        polar(ck,nm+':pol_pol','svc_%s_u_polar'%nm,A,fp(*A,polar_out=True,**kw),rc,psi,t,b)
        polar(ck,nm+':cart_pol','svc_%s_u'%nm,X,fc(*X,polar_out=True,**kw),rc,np.arctan2(y,x),t,b)
        # relative accuracy away from the wake
        far=(n>=5)&(D>=.5*n); mag=np.sqrt((ref**2).sum(1)); err=np.sqrt(((np.column_stack(uc)-ref)**2).sum(1))
        q=far&(mag>1e-7*abs(g)); compare(ck,nm+':far','svc_%s_u'%nm,[c[q] for c in X],(err/np.maximum(mag,1e-300))[q],0*mag[q],1e-5,b)
        # the other number of points, convergence next to the sheet
        k4=(D>=.2)&(n<20)
        cart(ck,nm+':ntheta','svc_%s_u_polar'%nm,[c[k4] for c in A],fp(*[c[k4] for c in A],ntheta=361,**kw),ref[k4],abs(g)*3e-10,b)
        k5=(D<.16)&(n<20)
        if k5.any(): cart(ck,nm+':converges','svc_%s_u_polar'%nm,[c[k5] for c in A],fp(*[c[k5] for c in A],ntheta=721,**kw),ref[k5],abs(g)*1e-8,b)
        k6=(D>=.9)&(n<20)
        if k6.any(): cart(ck,nm+':coarse','svc_%s_u_polar'%nm,[c[k6] for c in A],fp(*[c[k6] for c in A],ntheta=45,**kw),ref[k6],abs(g)*1e-6,b)
        # mirrored flow for the opposite skew:  x -> -x
        s=-1 if nm=='longi' else 1
        v=fc(-X[0],X[1],X[2],**dict(kw,m=-m))
        for c,(got,exp) in enumerate(zip(v,(-s*uc[0],s*uc[1],s*uc[2]))): compare(ck,nm+':mirror%d'%c,'svc_%s_u'%nm,X,got,exp,2*t,b)
        w=fc(X[0],-X[1],X[2],**kw)
        for c,(got,exp) in enumerate(zip(w,(s*uc[0],-s*uc[1],s*uc[2]))): compare(ck,nm+':mirrory%d'%c,'svc_%s_u'%nm,X,got,exp,2*t,b)
        if abs(m)<=1e-6:   # limit: right cylinder
            vr=(VC.vc_tang_u if nm=='tang' else VC.vc_longi_u)(*X,**{gn:g,'R':R,'polar_out':False})
            q=(r==0)|(r>=.05)     # (the right cylinder itself is the subject of other checks)
            for c in range(3): compare(ck,nm+':right%d'%c,'svc_%s_u'%nm,[v[q] for v in X],uc[c][q],vr[c][q],(t+10*abs(g*m)*(1+n))[q],b)
        # article-style wrappers (unit radius)
        if R==1:
            f={'tang':SK.fV_Tangential,'longi':SK.fV_Trailed}[nm]
            wrappers(ck,nm,lambda no: f(r,psi,z,m,g,180,nout=no),ref,psi,m,t,A,b)
    root(ck,m,R,g)
def wrappers(ck,nm,f,ref,psi,m,t,A,b):
    c=1/np.sqrt(1+m*m); s=m*c
    exp=[ref[:,2],-ref[:,0]*np.sin(psi)+ref[:,1]*np.cos(psi),ref[:,0],ref[:,1],ref[:,2]*c+ref[:,0]*s,-ref[:,2]*s+ref[:,0]*c,ref[:,0]*np.cos(psi)+ref[:,1]*np.sin(psi)]
    for no in range(1,8):
        o=f(no); 
        if no==1: o=(o,) if not isinstance(o,tuple) else o
        if not ck.expect(len(o)==no,'wrapper:%s:nout'%nm,lambda:dict(b,nout=no,got=len(o))): continue
        for k in range(no) if no in (1,7) else (no-1,): compare(ck,'wrapper:%s:%d'%(nm,k),'fV_'+nm,A,o[k],exp[k],2*t,dict(b,nout=no))
def root(ck,m,R,g):
    r,psi,z=lat(ck.thorough); x,y=r*np.cos(psi),r*np.sin(psi); y=np.where(psi==0,0,y)
    d=dist_line(x,y,z,m); n=np.hypot(r,z)
    k=(d>=1e-3)&(d>=1e-4*n)&((r==0)|(r*R>1.1e-7)); r,psi,z,x,y,d,n=[q[k] for q in (r,psi,z,x,y,d,n)]
    G=g*R; A=(r*R,psi,z*R); X=(x*R,y*R,z*R); b={'m':m,'R':R,'intensity':G,'component':'root'}
    ref=oracle.line_semiinf(np.column_stack(X),[m,0,1.],G)
    t=abs(G)/R*((1e-13+1e-14*(n/d)**2)/d+5e-16/np.maximum(r,1e-7))
    cart(ck,'root:polar_in','svc_root_u_polar',A,SK.svc_root_u_polar(*A,Gamma_r=G,m=m),ref,t,b)
    cart(ck,'root:cart_in','svc_root_u',X,SK.svc_root_u(*X,Gamma_r=G,m=m),ref,t,b)
    rc=(ref[:,0],ref[:,1],ref[:,2])
    polar(ck,'root:pol_pol','svc_root_u_polar',A,SK.svc_root_u_polar(*A,Gamma_r=G,m=m,polar_out=True),rc,psi,2*t,b)
    polar(ck,'root:cart_pol','svc_root_u',X,SK.svc_root_u(*X,Gamma_r=G,m=m,polar_out=True),rc,np.arctan2(y,x),2*t,b)
    if R==1: wrappers(ck,'root',lambda no: SK.fV_Root(r,psi,z,m=m,Gamma_r=G,nout=no),ref,psi,m,t,A,b)
    for f,C in ((SK.svc_root_u_polar,A),(SK.svc_root_u,X)):
        o=f(*C,Gamma_r=0.,m=m); ck.case(1); ck.expect(all(np.all(np.asarray(q)==0) for q in o),'root:zero',b)
    # axis and rotor centre: finite
    q=np.array([0.,0.,0.,1e-9,1e-8]); zz=np.array([0.,-1.,2.,0.,0.])*R
    o=SK.svc_root_u(q,0*q,zz,Gamma_r=G,m=m); ck.case(len(q)); ck.expect(np.all(np.isfinite(o)),'root:axis',lambda:dict(b,got=o))
def wrap_sets(ck):
    """ sets of cylinders, sum of the components """
    x,y,z=lattice.grid([-2.3,.1,.7,1.9],[-1.4,.45,2.2],[-3.,-.4,.9,2.6,5.7])
    P=np.column_stack((x,y,z))
    for nCyl,nr in itertools.product((1,2,3),(1,2)):
        C=np.array([[0,.3,-.2],[3.1,1.2,1.],[-4.,.8,-2.]])[:nCyl]; Rr=(np.array([[1.,.5],[.7,.31],[1.2,.8]])[:nCyl,:nr])
        for sg in range(2**(nCyl*nr)) if nCyl*nr<=3 else (2**(nCyl*nr)-1,5):
            G=np.array([[1.5,-.4],[.3,1.],[-.8,.7]])[:nCyl,:nr]*np.array([(sg>>i)&1 for i in range(nCyl*nr)]).reshape(nCyl,nr)
            M=np.array([[.3,-.5],[-.2,.6],[0.,.4]])[:nCyl,:nr]
            for gr in (False,True):
                for nm,f,orc in (('tang',SK.svcs_tang_u,oracle.skew_tang),('longi',SK.svcs_longi_u,oracle.skew_longi)):
                    ref=np.zeros(P.shape); ok=np.ones(len(P),bool)
                    for i in range(nCyl):
                        for j in range(nr):
                            for img in ((0,1) if gr else (0,)):
                                S=P*([1,-1,1] if img else [1,1,1])
                                Q=(S-C[i])/Rr[i,j]; ok&=dist_sheet(*Q.T,M[i,j])>.16
                                if G[i,j]!=0:
                                    u=orc(Q,G[i,j],1.,M[i,j]); ref+=u*([1,-1,1] if img else [1,1,1])
                    for shape in ((-1,),(4,15)):
                        u=f(x.reshape(shape),y.reshape(shape),z.reshape(shape),G,Rr,M,C[:,0],C[:,1],C[:,2],Ground=gr)
                        for c in range(3): compare(ck,'set:%s:%s:%d'%(nm,'ground' if gr else 'free',c),'svcs_%s_u'%nm,(x[ok],y[ok],z[ok]),np.ravel(u[c])[ok] if np.shape(u[c])==np.shape(x.reshape(shape)) else u[c],ref[ok,c],1e-8,{'gamma':G,'R':Rr,'m':M,'centres':C})
    # prescribed number of points, next to the sheets (not converged: same points as for one cylinder)
    r,psi,z=[q for q in lattice.grid([.95,.985,1.02],[0,1.1,-2.],[-.3,.05,.2])]; x,y=r*np.cos(psi),r*np.sin(psi)
    for nt,m in itertools.product((25,90,361,2000),(.3,-.8)):
        for nm,f,g in (('tang',SK.svcs_tang_u,SK.svc_tang_u),('longi',SK.svcs_longi_u,SK.svc_longi_u)):
            e=g(x,y,z,-1.2,1.,m,ntheta=nt)
            for gr in (False,True):
                h=np.array([60. if gr else 0.])      # high above the ground: the mirror image is of order 1e-3 and smooth
                e2=g(x,y,z,-1.2,1.,m,ntheta=nt); u=f(x,y+h[0],z,np.array([[-1.2]]),np.array([[1.]]),np.array([[m]]),np.zeros(1),h,np.zeros(1),ntheta=nt,Ground=gr)
                for c in range(3): compare(ck,'set:%s:ntheta:%d'%(nm,c),'svcs_%s_u'%nm,(x,y,z),u[c],e[c],5e-3 if gr else 1e-9,{'m':m,'ntheta':nt,'ground':gr})
    r,psi,z=[q for q in lattice.grid([0.,.4,.7,1.6,4.],[0,1.1,3.,-2.],[-2.,-.4,.5,1.9])]
    x,y=r*np.cos(psi),r*np.sin(psi)
    for m in (0.,.3,-.8):
        k=(dist_sheet(x/1.3,y/1.3,z/1.3,m)>.16)&(dist_line(x,y,z,m)>.05); P=np.column_stack((x,y,z))[k]
        for w in itertools.product((0.,-1.2),(0.,.7),(0.,2.)):
            ref=oracle.skew_tang(P,w[0],1.3,m)+oracle.skew_longi(P,w[1],1.3,m)+(oracle.line_semiinf(P,[m,0,1.],w[2]) if w[2] else 0)
            o=SK.svc_u_polar(r[k],psi[k],z[k],w[0],w[1],w[2],R=1.3,m=m)
            cart(ck,'sum','svc_u_polar',(r[k],psi[k],z[k]),o,ref,1e-8,{'m':m,'gamma_t,gamma_l,Gamma_r':w})
            o=SK.svc_u_polar(r[k],psi[k],z[k],w[0],w[1],w[2],R=1.3,m=m,polar_out=True); c,s=np.cos(psi[k]),np.sin(psi[k])
            cart(ck,'sum:polar','svc_u_polar',(r[k],psi[k],z[k]),(o[0]*c-o[1]*s,o[0]*s+o[1]*c,o[2]),ref,1e-8,{'m':m,'gamma_t,gamma_l,Gamma_r':w,'polar_out':True})
def turbine(ck,it):
    """ turbines from an exact alignment to large skews, by the yaw, the wind or a prescribed angle: integrals over the skewed cylinder of each annulus """
    chi,how,R,ln=it; s=np.linspace(0,1,4)*R
    L={'one':Loading(Ct=.7),'swirl':Loading(Ct=.7,Lambda=6),'annuli':Loading(r=s,Ct=np.array([.2,.7,.9,.3]),nCyl=3),'annuli swirl':Loading(r=s,Ct=np.array([.2,.7,.9,.3]),nCyl=4,Lambda=8.)}[ln]
    U=9.; hub=np.array([.3,2.,-.4])*R; W=WindTurbine(R=R,r_hub=list(hub),U0=[0,0,U]); ref=Ref(R,hub=hub,U0=(0,0,U)); ev=ref.ev
    ref.load(L); W.update_loading(**L.kw())
    if how=='prescribed': W.set_chi(chi); ref.chi_user=chi
    elif how=='yaw': W.update_yaw_pos(-chi); ref.yaw=-chi
    else: U0=rot(ev,chi)@np.array([0,0,U]); W.update_wind(list(U0)); ref.U0=U0
    x,y,z=lattice.grid([-2.3,-.6,.1,.7,1.9],[-1.4,.45,2.2],[-3.,-.4,.9,2.6,7.]); Q=np.column_stack((x,y,z))*R; m=np.tan(chi)
    ok=dist_line(*(Q/R).T,m)>.02
    for rc,_,_ in ref.cyl: ok&=dist_sheet(*(Q/rc).T,m)>.16
    Q=Q[ok]; T=ref.T(); P=Q@T.T+hub
    u={'tang':np.zeros(Q.shape),'longi':np.zeros(Q.shape),'root':np.zeros(Q.shape)}
    for rc,gt,gl in ref.cyl:
        if gt: u['tang']+=oracle.skew_tang(Q/rc,gt,1.,m)
        if gl: u['longi']+=oracle.skew_longi(Q/rc,gl,1.,m)
    if ref.Gamma_r: u['root']+=oracle.line_semiinf(Q,[m,0,1.],ref.Gamma_r)
    for c in ('tang','longi','root'):
        g=query(W,P,only_ind=True,**{k:k==c for k in u})@T
        d={'skew':chi,'by':how,'R':R,'loading':ln,'component':c}
        # below 1e-6 rad the right cylinder may stand in for the skewed one
        tol=U*(1e-8+(3*abs(chi) if abs(chi)<5e-7 else 0))
        for k in range(3): compare(ck,'turbine:%s:%d'%(c,k),'WindTurbine.compute_u',Q.T,g[:,k],u[c][:,k],tol,d)
def run(ck):
    ck.level='exploration'
    ck.rule='case = one velocity component at one lattice point at more than 0.06 radius from the sheet (cylindrical lattice, each decade) for each component, skew, radius, intensity and input/output convention, compared with the Biot-Savart integrals over the skewed vorticity; non-trivial = expected value not negligible'
    ms=[0.,1e-9,1e-6,.1,-.1,.5,-.5,1.,-1.,2.,-3.]
    its=[(m,R,g) for m in ms for R in ((1.,.37,63.) if ck.thorough else (1.,63.) if m in (.5,-1.) else (1.,) if m in (0.,1e-6,-.1,2.) else (.37,)) for g in ((-1.,3.) if ck.thorough else (-1.4,))]
    pmap(ck,item,its)
    pmap(ck,lambda c,_: wrap_sets(c),[0])
    A=[0.]+[s*10.**-k for k in (8,6,5,4,3,2,1) for s in (1,-1)]+[3e-6,-4e-4,.7,-.9]
    pmap(ck,turbine,[(a,h,R,l) for a in A for h in ('prescribed','yaw','wind') for R in (1.,50.) for l in ('one','swirl','annuli','annuli swirl') if ck.thorough or (R==1.)==(h!='yaw')])
