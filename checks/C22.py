"""Vortex points with smoothing kernels; semi-infinite line vortex with core models"""
import numpy as np, itertools
from scipy.special import eval_laguerre
from common import pmap
from oracle import line_semiinf
import wiz.VortexPoint as VP, wiz.VortexLine as VL
A=np.array
def kern(model,order,rho2):
    """ fraction of the circulation seen: 1 - L_k(x) exp(-x) """
    if model==0 or order==0: return np.ones_like(rho2)
    x=rho2/2 if (model==2 and order>2) else rho2
    return 1-eval_laguerre(order//2-1,x)*np.exp(-x)
MO=[(0,2),(0,0),(1,2),(1,4),(1,6),(1,8),(2,2),(2,4),(2,6),(2,8),(2,10)]
def ref(CP,V,G,model,order,S):
    U=np.zeros((len(CP),2))
    for i,p in enumerate(CP):
        for v,g,s in zip(V,G,S):
            dx,dy=float(p[0]-v[0]),float(p[1]-v[1]); r2=dx*dx+dy*dy
            if r2==0: continue
            q=g/(2*np.pi*r2)*float(kern(model,order,np.float64(r2/s**2)))
            U[i]+=(-dy*q,dx*q)
    return U
SITES=[(0.,0.),(.3,.1),(-1.,.4),(2.,-2.),(.3,.1)]
GS=[1.,-.5,2.,-3.,.7]; SS=[.3,.2,.5,1.,.05]
def sets(ck,it):
    sub,(model,order)=it; L=[1e-3,1.,80.] if ck.thorough else [1.,80.]
    for l in L:
        V=A([SITES[k] for k in sub],float).reshape(-1,2)*l; G=A([GS[k] for k in sub]); S=A([SS[k] for k in sub])*l
        CP=np.vstack((A(SITES)*l,A([[x,y] for x in (-2.,.05,.31,1.4) for y in (-1.3,.11,.9)])*l,A(SITES)[:3]*l+A([1e-3,-2e-3])*l,[[40.*l,-70.*l]]))
        if model==0 or order==0: CP=np.vstack((CP,A(SITES)*l+A([2e-6,-1e-6]),A(SITES)[:2]*l+A([0,7e-8])))      # next to the vortices (the smoothing kernels are cancellations there)
        want=ref(CP,V,G,model,order,S); mag=np.sum(np.abs(G))/(2*np.pi*l) if len(G) else 1
        for o in (itertools.permutations(range(len(sub))) if len(sub)<=3 or ck.thorough else [tuple(range(len(sub))),tuple(range(len(sub)))[::-1]]):
            o=list(o); d=lambda:{'vortices':V[o],'Gammas':G[o],'smoothing':S[o],'model':model,'order':order}
            kw=dict(SmoothModel=model,KernelOrder=order,SmoothParam=S[o].copy()) if model else dict(KernelOrder=order)
            got=VP.vps_u(CP.copy(),V[o].copy(),G[o].copy(),**kw)
            ck.case(len(CP),len(CP)*(len(sub)>0)); ck.close(got,want,'points:%d:%d'%(model,order),d,rtol=1e-9,atol=1e-11*mag)
        g3=VP.vps_u(np.column_stack((CP,np.linspace(-3,3,len(CP)))),np.column_stack((V,np.linspace(-1,1,len(V)))),G.copy(),**(dict(kw,SmoothParam=S.copy()) if model else {}))
        ck.case(len(CP)); ck.expect(g3.shape==(len(CP),3),'points 3d shape',{}) and ck.close(g3[:,:2],want,'points 3d',d,rtol=1e-9,atol=1e-11*mag) and ck.close(g3[:,2],0*want[:,0],'points 3d',d)
def single(ck):
    for c,G,rc,visc in itertools.product(SITES[:4],(1.,-2.5,0.),(.05,.4,3.),(False,True)):
        CP=np.vstack((A(SITES),A([[x,y] for x in (-2.,.05,.31) for y in (-1.3,.11)])))
        w=ref(CP,[c],[G],1 if visc else 0,2,[rc])
        for i,p in enumerate(CP):
            u=A(VP.vp_u(p.copy(),A(c),G,rcore=rc,bViscous=visc)); ck.case(1); ck.close(u,w[i],'vp_u',{'CP':p,'vortex':c,'Gamma':G,'rcore':rc,'viscous':visc},rtol=1e-10,atol=1e-14)
        u=A(VP.vp_u(CP.T.copy(),A(c).reshape(2,1),G,rcore=rc,bViscous=visc)); ck.close(u.T,w,'vp_u array',{'vortex':c,'Gamma':G},rtol=1e-10,atol=1e-14)
    for m,o in ((1,3),(1,10),(2,12),(3,2)):
        try: VP.vps_u(A([[1.,2]]),A([[0.,0]]),A([1.]),m,o,A([1.])); ck.fail('unknown kernel accepted',{'model':m,'order':o})
        except Exception: ck.case(1)
def many(ck):
    """ many vortices, many control points """
    for n,nc in ((10,7),(33,50),(65,3),(130,21),(300,2),(1000,5),(2,3000)):
        i=np.arange(n); V=np.column_stack((np.cos(2.4*i)*np.sqrt(i+.5)*.3,np.sin(2.4*i)*np.sqrt(i+.5)*.3)); G=np.where(i%3==0,-1.2,.7)+.01*(i%11); S=.2+.05*(i%4)
        j=np.arange(nc); CP=np.column_stack((np.sin(1.7*j+.2)*(1+j%6),np.cos(.9*j+.1)*(1+j%5)))
        for model,order in ((0,2),(1,4),(2,6)):
            kw=dict(SmoothModel=model,KernelOrder=order,SmoothParam=S.copy()) if model else dict(KernelOrder=order)
            ck.case(nc,nc); ck.close(VP.vps_u(CP.copy(),V.copy(),G.copy(),**kw),ref(CP,V,G,model,order,S),'many points:%d:%d'%(model,order),{'vortices':n,'points':nc},rtol=1e-9,atol=1e-11*np.sum(np.abs(G)))
def moments(ck):
    """ a kernel of order m conserves the circulation and has vanishing moments up to m-2: radial integral of its vorticity, from the velocities """
    x,w=np.polynomial.legendre.leggauss(200); r=(x+1)*5; w=w*5           # smoothing length 1, kernel negligible beyond 10
    for m,o in MO:
        if m==0 or o==0: continue
        u=VP.vps_u(np.column_stack((r,0*r)),A([[0.,0.]]),A([1.]),m,o,A([1.]))[:,1]; q=2*np.pi*r*u      # circulation within r
        for j in range(1,o//2):
            I=np.sum(w*2*j*r**(2*j-1)*(1-q)); ck.case(1)       # int r^(2j) dq
            ck.close(I,0.,'moment',{'model':m,'order':o,'moment':2*j},atol=1e-8*10**(2*j)*1e-2)
        ck.close(q[-1],1.,'total circulation',{'model':m,'order':o},rtol=1e-12)
def dirs(th):
    D=[d for d in itertools.product((-1,0,1),repeat=3) if any(d)]+[(.3,-.8,.2),(-.1,.05,.99)]
    return [A(d,float)/np.linalg.norm(d) for d in (D if th else D[::2]+D[-2:])]
def frame(e):
    t=A([1.,0,0]) if abs(e[0])<.6 else A([0,1.,0]); a=np.cross(e,t); a/=np.linalg.norm(a); return a,np.cross(e,a)
def lines(ck,it):
    e,=it; a,b=frame(e)
    for s,h,ps in itertools.product([-50.,-1.,-.01,0.,.02,1.,7.,300.],[1e-3,.03,.2,1.,5.,100.],[.3,2.,4.4]):
        P=s*e+h*(np.cos(ps)*a+np.sin(ps)*b)
        if s*s+h*h<1e-8: continue
        h_=np.linalg.norm(np.cross(e,P)); rt=1e-9+8e-16*max(0,s)*(s*s+h*h)**.5/h**2*8
        w=line_semiinf(P[None],e,1.)[0]; n=np.sqrt(P@P); den=n*(n-P@e)if P@e<=0 else n*h_**2/(n+P@e)
        for G in (1.,-2.5):
            d=lambda:{'point':P,'direction':e,'Gamma':G,'model':vm,'t':t}
            for vm,t in itertools.product(range(6),(.01,.3,2.)):
                Kv={0:1.,1:min(1.,h_**2/t**2),2:1-np.exp(-1.25643*h_**2/t**2),3:h_**2/np.sqrt(t**4+h_**4),4:den/(den+t),5:den/(den+t)}[vm]
                u=A(VL.vl_semiinf_u(P[0],P[1],P[2],e[0],e[1],e[2],G,vm,t),float).ravel(); ck.case(1)
                ck.close(u,w*G*Kv,'line:model%d'%vm,d,rtol=rt,scale=np.linalg.norm(w*G*Kv))
                if vm: ck.expect(np.linalg.norm(u)<=1.2*abs(G)/(2*np.pi*(t if vm<4 else np.sqrt(t))),'line:bounded:model%d'%vm,d)
        u=A(VL.vl_semiinf_u(P[0],P[1],P[2],e[0],e[1],e[2],0.,0,0.),float).ravel(); ck.close(u,0*u,'line:zero',{'point':P})
    for P in (A([0.,0,0]),e*.7,e*40.,a*1e-9):          # on the line: no velocity
        for vm in range(6):
            u=A(VL.vl_semiinf_u(P[0],P[1],P[2],e[0],e[1],e[2],1.3,vm,.1),float).ravel(); ck.case(1); ck.expect(np.all(np.isfinite(u)) and np.linalg.norm(u)<1e-5,'line:on the line',{'P':P,'e':e,'model':vm,'u':u})
    u=A(VL.vl_semiinf_u(*(-3*e),*e,1.3,0,0.),float).ravel(); ck.close(u,0*u,'line:ahead',{'e':e},atol=1e-12)
def run(ck):
    ck.level='exploration'
    ck.rule='case = one control point of one set of vortices (all subsets of 5 vortices, coincident ones and control points on vortices included, in all orders up to 3 vortices, all kernels and orders), one kernel moment, or one point of a multi-scale lattice around a line of one direction with one core model; non-trivial = at least a vortex'
    subs=[s for n in range(0,5) for s in itertools.combinations(range(5),n)]
    pmap(ck,sets,[(s,mo) for s in subs for mo in MO]); single(ck); many(ck); moments(ck)
    pmap(ck,lines,[(e,) for e in dirs(ck.thorough)])
