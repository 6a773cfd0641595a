"""Flux through boxes, circulation along loops: conservation laws of the flow returned by the turbines"""
import numpy as np, itertools
from common import pmap
from oracle import axis_frames, oblique_frames, rot
from wt import Ref, Loading, WindTurbine, WindFarm, query, fquery, away
R=1.5
r_=np.array([.1,.5,.9])*R
LOADS={'n1':Loading(Ct=.7,Lambda=np.inf),'n1s':Loading(Ct=.7,Lambda=6.),'n3s':Loading(r=r_,Ct=np.array([.4,.8,.6]),Lambda=6.,nCyl=3),'n2g':Loading(r=r_,Gamma=np.array([1.,4.,3.]),Lambda=6.,nCyl=2)}
G24=np.polynomial.legendre.leggauss(24)
def box(c,h,A,n=24):
    """ nodes, outward normals*weights of a parallelepiped of axes A (columns), half sizes h """
    t,w=np.polynomial.legendre.leggauss(n); X=[];N=[]
    a,b=[q.ravel() for q in np.meshgrid(t,t)]; ww=np.outer(w,w).ravel()
    for k in range(3):
        i,j=[q for q in range(3) if q!=k]
        for s in (1,-1):
            L=np.zeros((len(a),3)); L[:,k]=s*h[k]; L[:,i]=a*h[i]; L[:,j]=b*h[j]
            X.append(c+L@A.T); N.append(s*np.outer(ww*h[i]*h[j],A[:,k]))
    return np.vstack(X),np.vstack(N)
def loop(c,h,A,k,n=24):
    """ nodes, tangents*weights of a rectangle normal to axis k """
    t,w=np.polynomial.legendre.leggauss(n); i,j=[q for q in range(3) if q!=k]; X=[];D=[]
    for (u,v,hu,hv,s) in ((i,j,h[i],h[j],1),(j,i,h[j],h[i],1),(i,j,h[i],h[j],-1),(j,i,h[j],h[i],-1)):
        L=np.zeros((n,3)); L[:,u]=s*t*hu; L[:,v]=(-s if u==i else s)*hv
        X.append(c+L@A.T); D.append(s*np.outer(w*hu,A[:,u]))
    return np.vstack(X),np.vstack(D)
def circle(c,rad,A,k,n=48):
    a=2*np.pi*np.arange(n)/n; i,j=[q for q in range(3) if q!=k]; L=np.zeros((n,3)); D=np.zeros((n,3))
    L[:,i]=rad*np.cos(a); L[:,j]=rad*np.sin(a); D[:,i]=-rad*np.sin(a)*2*np.pi/n; D[:,j]=rad*np.cos(a)*2*np.pi/n
    return c+L@A.T,D@A.T
# local geometries, in rotor radii: center (rotor axes), half sizes, extra rotation
BOX=[((0,0,-1.5),(.5,.4,.5),0),((.1,.2,-1.2),(.4,.4,.3),1),((2.,.3,0),(.4,.5,.5),0),((-1.9,.5,.3),(.3,.4,.5),1),((.4,2.2,1.),(.5,.5,.5),1),((.3,-2.,2.),(.4,.3,.5),0),((2.5,.2,5.),(.5,.5,.5),1),((0,.05,1.5),(.15,.15,.4),0),((.3,.25,.8),(.12,.1,.2),1),((-.4,0,3.),(.1,.1,.3),0),((5.,4.,9.),(1.5,1.5,1.5),0),((3.,8.,-12.),(2.,2.,2.),1),((0,.3,-5.),(1.,1.,1.),1),((12.,1.,20.),(3.,3.,3.),0)]
XR=rot(np.array([1.,2.,.5])/np.sqrt(5.25),.7)
def item(ck,it):
    fi,(es,ev),yaw,chi,ln,ground=it
    T=np.column_stack((np.cross(ev,es),ev,es)); hub=T@np.array([.3,2.8,-.4])*R; U0=T@np.array([9*np.sin(yaw),0,9*np.cos(yaw)])
    ref=Ref(R,hub=hub,es=es,ev=ev,U0=U0,Ground=ground); W=WindTurbine(R=R,r_hub=list(hub),e_shaft_yaw0=list(es),e_vert=list(ev),U0=list(U0),Ground=ground)
    L=LOADS[ln]; W.update_loading(**L.kw()); ref.load(L); W.update_yaw_pos(yaw); ref.yaw=yaw
    if chi is not None: W.set_chi(chi); ref.chi_user=chi
    A=ref.T(); skew=chi not in (None,0); F=WindFarm([W])
    q=[('VC',c) for c in itertools.product((False,True),repeat=3) if any(c)]
    if len(ref.cyl)==1 and not skew: q+=[('VD',(True,False,False)),('VCFF',(True,False,False))]
    d=lambda **k: dict(k,frame=[es,ev],yaw=yaw,skew=chi,load=ln,ground=ground)
    nd=24 if ck.thorough else 16
    def field(P,M,c,farm=False,**k):
        kw=dict(Model=M,tang=c[0],longi=c[1],root=c[2],**k)
        return fquery(F,P,U0=U0,**kw) if farm else query(W,P,only_ind=True,**kw)
    sizes=0
    for ib,(c,h,rt) in enumerate(BOX):
        B=A@XR if rt else A; cg=hub+A@np.array(c)*R; hh=np.array(h)*R
        if skew and (ib+fi)%(2 if ck.thorough else 3): continue
        P,N=box(cg,hh,B,nd); margin=.6*np.linalg.norm(h)
        if not np.all(away(ref,P,ground,min(margin,.5 if max(h)<.5 else margin))): continue
        sizes+=1
        for M,comp in q:
            if skew and not ck.thorough and comp not in ((True,False,False),(True,True,True),(False,True,False)): continue
            if M=='VCFF':
                dist=np.linalg.norm(P-hub,axis=1)/R; dm=np.linalg.norm((P-2*np.outer(P@ev,ev))-hub,axis=1)/R if ground else dist
                kk=[dict(R_far_field=v) for v in (.5*min(dist.min(),dm.min()),2*max(dist.max(),dm.max()))]
            else: kk=[{}]
            for k in kk:
                u=field(P,M,comp,farm=(ib%2==1),**k); fl=np.sum(u*N); s=np.sum(np.abs(np.sum(u*N,axis=1)))+1e-9*9*np.sum(np.linalg.norm(N,axis=1))
                ck.case(1,int(np.max(np.abs(u-(U0 if ib%2 else 0)))>1e-12))
                ck.extra['max_flux']=max(ck.extra.get('max_flux',0),float(abs(fl)/s))
                ck.expect(abs(fl)<=1e-9*s,'flux:%s:%s'%(M,comp),d(box=[c,h,rt],model=M,components=comp,relative_flux=float(fl/s),**k))
                if comp[1] or comp[2]: continue
                for kx in range(3):
                    X,D=loop(cg,hh,B,kx); u=field(X,M,comp,farm=(ib%2==1),**k); g=np.sum(u*D); s=np.sum(np.abs(np.sum(u*D,axis=1)))+1e-9*9*np.sum(np.linalg.norm(D,axis=1)); ck.case()
                    ck.extra['max_circ']=max(ck.extra.get('max_circ',0),float(abs(g)/s))
                    ck.expect(abs(g)<=1e-9*s,'circulation:%s'%M,d(loop=[c,h,rt,kx],model=M,relative_circulation=float(g/s),**k))
    # circles around the wake: no circulation from the tangential vorticity
    if not skew:
        for z,rad in ((-1.,.7),(-.6,2.),(.7,1.9),(3.,1.6),(2.,.3),(6.,.2)):
            X,D=circle(hub+A@np.array([0,0,z])*R,rad*R,A,2)
            if not np.all(away(ref,X,ground,.05)): continue
            for M,comp in q:
                if comp!=(True,False,False): continue
                u=field(X,M,comp,R_far_field=100.); g=np.sum(u*D); s=np.sum(np.linalg.norm(u,axis=1)*np.linalg.norm(D,axis=1))+1e-9; ck.case()
                ck.expect(abs(g)<=1e-8*s,'around:%s'%M,d(circle=[z,rad],model=M,relative=float(g/s)))
        # control volume around the rotor, crossing the wake: coaxial cylinder, panels split at each sheet
        if not ground:
            rs=sorted(c[0]/R for c in ref.cyl); 
            for z1,z2,r0 in ((-1.2,1.3,1.7),(-.8,3.,2.2),(.6,2.,1.5),(-2.,-.4,.8),(.9,1.8,.45)):
                if min(abs(r0-x) for x in rs)<.2 and z2>-.3: continue
                t,w=np.polynomial.legendre.leggauss(nd); na=8; tot=0; ss=0; an=2*np.pi*(np.arange(na)+.37)/na
                edges=[0]+[x for x in rs if x<r0]+[r0]
                zz=(z2-z1)/2*t+(z1+z2)/2
                def add(P,nrm,ww,comp,M):
                    u=field(hub+(P@A.T)*R,M,comp,R_far_field=100.); un=np.sum((u@A)*nrm,axis=1)*ww; return np.sum(un),np.sum(np.abs(un))
                for M,comp in q:
                    if M=='VD': continue
                    tot=ss=0.
                    for zc,sg in ((z1,-1),(z2,1)):
                        for a,b in zip(edges[:-1],edges[1:]):
                            rr=(b-a)/2*t+(a+b)/2; 
                            rg,ag=[x.ravel() for x in np.meshgrid(rr,an,indexing='ij')]; ww=np.repeat((b-a)/2*w*rr,na)*2*np.pi/na
                            f,s=add(np.column_stack((rg*np.cos(ag),rg*np.sin(ag),0*rg+zc)),np.array([0,0,sg]),ww,comp,M); tot+=f; ss+=s
                    zg,ag=[x.ravel() for x in np.meshgrid(zz,an,indexing='ij')]; ww=np.repeat((z2-z1)/2*w*r0,na)*2*np.pi/na
                    f,s=add(np.column_stack((r0*np.cos(ag),r0*np.sin(ag),zg)),np.column_stack((np.cos(ag),np.sin(ag),0*ag)),ww,comp,M); tot+=f; ss+=s
                    ck.case(); ck.extra['max_cv']=max(ck.extra.get('max_cv',0),float(abs(tot)/(ss+1e-6)))
                    ck.expect(abs(tot)<=1e-7*ss+1e-10,'control volume:%s:%s'%(M,comp),d(volume=[z1,z2,r0],model=M,components=comp,relative=float(tot/(ss+1e-12))))
    ck.extra['boxes']=ck.extra.get('boxes',0)+sizes
def run(ck):
    ck.level='exploration'
    ck.rule='case = flux of the velocity (turbine or farm query) through one closed box / coaxial control volume, or circulation along one loop, for one configuration (frame x yaw x skew x loading x ground x model x components); integrals by Gauss quadrature, boxes kept only when away from the vorticity and its image; non-trivial = velocity not zero'
    fr=axis_frames(); ob=oblique_frames()
    fs=(fr[::6]+ob) if ck.thorough else [fr[0],fr[7],ob[0]]
    its=[]
    for fi,f in enumerate(fs):
        for yaw,chi in ((0.,None),(.35,0.),(-.4,.3),(0.,-.5)) if (ck.thorough or fi!=1) else ((0.,None),(.35,0.)):
            for ln in LOADS:
                for g in (False,True): its.append((fi,f,yaw if chi is not None else 0.,chi,ln,g))
    ck.sample({'frame':its[0][1],'yaw':its[0][2],'box':BOX[1]})
    pmap(ck,item,its)
