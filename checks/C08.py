"""no_wake: zero induction exactly in the rotor stream tube"""
import numpy as np, itertools
from common import pmap
from oracle import rot, axis_frames, oblique_frames
from wt import Ref, Loading, WindTurbine, WindFarm, query, fquery
LOADS=lambda R:{'n1':Loading(Ct=.7),'n1swirl':Loading(Ct=.6,Lambda=6.),'n3swirl':Loading(r=np.array([0,.4,.8,1])*R,Ct=np.array([.3,.7,.6,.2]),Lambda=7.,nCyl=3)}
OPT={'VC':dict(),'VClr':dict(longi=True,root=True),'longi':dict(tang=False,longi=True),'root':dict(tang=False,root=True),'none':dict(tang=False),'VCFF':dict(Model='VCFF',R_far_field=1.5),'VD':dict(Model='VD'),'SS':dict(Model='SS')}
B=1e-9
RHO=[0.,1e-6,.3,.9,.999,1.0,1.0005,1.001-B,1.001+B,1.002,1.01,1.05,1.3,3.,50.]
Z=[-60.,-5.,-1.,-.7,-.61,-.6-B,-.6+B,-.55,-.3,-1e-9,0.,1e-9,.1,.4,1.,1.8,7.,80.]
def lattice(thorough):
    ps=np.array([.1,1.,2.3,3.7,5.2]) if not thorough else np.arange(13)*.5+.05
    r,z,p=[v.ravel() for v in np.meshgrid(RHO,Z,ps,indexing='ij')]
    return r,z,p
def item(ck,it):
    R,ln,(yaw,skew),(es,ev),hub=it
    A=np.column_stack((np.cross(ev,es),ev,es)); Y=rot((0,1,0),yaw); T=A@np.asarray(hub,float)*R
    U0=A@(7*np.array([np.sin(yaw+skew),0,np.cos(yaw+skew)]))
    W=WindTurbine(R=R,r_hub=list(T),e_shaft_yaw0=list(es),e_vert=list(ev),U0=list(U0)); W.update_loading(**LOADS(R)[ln].kw()); W.update_yaw_pos(yaw)
    r,z,p=lattice(ck.thorough)
    if skew!=0: k=np.argsort((r*7.3+z*3.1+p)%1.,kind='stable'); k=np.sort(k[:len(r)//3]); r,z,p=r[k],z[k],p[k]   # costly quadrature: a fixed third of the lattice per item
    L=np.column_stack((r*np.cos(p),r*np.sin(p),z))*R
    P=(L@Y.T)@A.T+T
    inside=(r<1.001)&(z>=-.6)
    near=R*1e-9*.5<(np.abs(T).max()+60*R)*4e-16*4   # rounding of the coordinates larger than the bracket: skip the bracket points
    keep=~((np.abs(np.abs(r-1.001)-B)<1e-12)|(np.abs(np.abs(z+.6)-B)<1e-12)) if near else np.ones(r.shape,bool)
    for on,o in OPT.items():
        for gr in (False,True):
            d=lambda:{'R':R,'load':ln,'yaw':yaw,'skew':skew,'shaft':es,'vertical':ev,'hub':T,'query':dict(o,ground=gr)}
            def ask(**k):
                try: return query(W,P,ground=gr,**dict(o,**k))
                except Exception: return None
            f=ask(only_ind=True); g=ask(only_ind=True,no_wake=True)
            if f is None or g is None:
                ck.expect(f is None and g is None,'refusal:'+on,d); continue
            ck.case(keep.sum(),int((keep&inside).sum()))
            i=keep&inside; bad=i&(np.abs(g).max(axis=1)!=0)
            ck.expect(not bad.any(),'inside:'+on,lambda:dict(d(),**{'r/R':r[bad][:3],'z/R':z[bad][:3],'psi':p[bad][:3],'got':g[bad][:3]}))
            o_=keep&~inside; bad=o_&~((np.abs(g-f).max(axis=1)<=1e-12*(1+np.abs(f).max(axis=1)))|(np.isnan(g)&np.isnan(f)).any(axis=1))
            ck.expect(not bad.any(),'outside:'+on,lambda:dict(d(),**{'r/R':r[bad][:3],'z/R':z[bad][:3],'psi':p[bad][:3],'got':g[bad][:3],'expected':f[bad][:3]}))
            h=ask(no_wake=True)
            if ck.expect(h is not None,'refusal2:'+on,d):
                ck.close(h[keep],(g+U0)[keep],'freestream:'+on,d,rtol=0,atol=1e-10)
            n=ask(only_ind=True,no_wake=False); ck.expect(n is not None and np.array_equal(n,f,equal_nan=True),'off:'+on,d)
    # the same through a farm
    F=WindFarm([W]); ck.case(1)
    ck.close(fquery(F,P,no_wake=True)[keep],query(W,P,no_wake=True,only_ind=True)[keep],'farm',lambda:{'R':R,'load':ln,'yaw':yaw},rtol=0,atol=1e-12)
    ck.close(fquery(F,P,no_wake=True,U0=U0)[keep],query(W,P,no_wake=True)[keep],'farm',lambda:{'R':R,'load':ln,'yaw':yaw},rtol=0,atol=1e-10)
def run(ck):
    ck.level='exploration'
    ck.rule='case = one lattice point (bracketing the radius 1.001R and the plane -0.6R to 1e-9 R, all azimuths) x orientation x yaw/skew x hub x radius x loading x components/model x ground; non-trivial = point inside the stream tube'
    ax=axis_frames(); fr=[ax[i] for i in (range(24) if ck.thorough else (16,3,10,21))]+oblique_frames()
    ys=[(0.,0.),(.6,0.),(-2.2,0.),(.4,.3),(0.,-.35)]
    hubs=[(0,0,0),(2.,1.5,-3.),(-30.,4.,70.)]
    items=[(R,ln,y,f,h) for R in (1.,.013,63.) for ln in LOADS(1.) for y in ys for f in fr for h in hubs]
    if not ck.thorough: items=[it for i,it in enumerate(items) if (i+i//7+i//21)%9==0 and (it[2][1]==0 or it[1]!='n3swirl' or i%4==0)]
    pmap(ck,item,items)
