"""Far-field variant of the vortex cylinder"""
import numpy as np, oracle, lattice, itertools
from common import pmap
from numcheck import compare
from wiz.VortexCylinder import vc_tang_u_doublet, vc_tang_u
from wt import Ref, Loading, WindTurbine, WindFarm, query, fquery
B=1e-9
def pts(cut,th):
    """ spherical lattice around the cut-off (units of R) """
    rho=np.unique(np.concatenate(([.05,.3,.7,1.3,2.,3.3,5.,5.9,6.1,9.,20.,70.,400.],cut*np.array([.5,.9,1-1e-3,1-B,1+B,1+1e-3,1.1,2.,10.]))))
    th_=np.concatenate((np.linspace(0,np.pi,25 if th else 13),[1e-3,.05,np.pi-1e-3,np.pi/2-1e-3])); ps=[0,1.1,np.pi,-2.] if not th else [0,.5,np.pi/2,1.9,np.pi,-.7,-2.]
    q,t,p=lattice.grid(rho,th_,ps)
    r=q*np.sin(t); z=q*np.cos(t); r[t==0]=0; r[t==np.pi]=0; z[t==np.pi/2]=0
    k=np.maximum(np.abs(r-1),0)>1e-4; k|=(z<-1e-3)
    return q[k],r[k],np.array(p)[k],z[k]
def kernel(ck,it):
    cut,R,g=it
    q,r,p,z=pts(cut,ck.thorough); out=q>cut; x,y=r*np.cos(p),np.where(p==0,0,r*np.sin(p))
    rc=np.hypot(x,y)          # as rounded
    ur,uz=oracle.cyl_tang(r,z,g,1.)
    n=np.hypot(r,z); dr=-g/4*r/n**3; dz=-g/4*z/n**3; on=(r==0)&(z>0)
    dr[on]=0; dz[on]=0
    er=np.where(out,dr,ur); ez=np.where(out,dz,uz)
    tol=np.where(out,abs(g)*1e-11/n**2,abs(g)*(1e-8/np.maximum(np.hypot(r-1,np.minimum(np.abs(z),np.inf)),1e-3)*1e-1+1e-13*(1+np.abs(z))/np.maximum(r,1e-3)))
    P=(x*R,y*R,z*R); b={'cut':cut,'R':R,'gamma_t':g}
    o=vc_tang_u_doublet(*P,gamma_t=g,R=R,r_bar_Cut=cut); c=vc_tang_u_doublet(*P,gamma_t=g,R=R,r_bar_Cut=cut,polar_out=False)
    nm='vc_tang_u_doublet'
    for k,got,e in (('ur',o[0],er),('uz',o[1],ez),('ux',c[0],er*np.cos(p)),('uy',c[1],er*np.sin(p)),('uzc',c[2],ez)):
        ax=on&out
        s=~ax; compare(ck,'%s:%s'%('far' if False else 'field',k),nm,[v[s] for v in P],np.asarray(got)[s],e[s],tol[s],b)
    # the points inside are those of the full model
    f=vc_tang_u(*P,gamma_t=g,R=R); i=~out
    for k in (0,1): compare(ck,'inside','vc_tang_u_doublet',[v[i] for v in P],np.asarray(o[k])[i],np.asarray(f[k])[i],abs(g)*1e-11,b)
    # each point independently: alone, and in a call with points of the other side only
    for j in range(0,len(q),11 if not ck.thorough else 3):
        a=vc_tang_u_doublet(P[0][j:j+1],P[1][j:j+1],P[2][j:j+1],gamma_t=g,R=R,r_bar_Cut=cut); ck.case(1)
        ck.expect(np.allclose([a[0][0],a[1][0]],[o[0][j],o[1][j]],rtol=1e-12,atol=1e-13*abs(g)),'alone',lambda:dict(b,point=[v[j] for v in P],got=a,expected=[o[0][j],o[1][j]]))
def decay(ck,it):
    R,g=it
    # difference of both models beyond the cut-off, upstream and outside of the wake
    cuts=[2.,3.,4.,6.,10.,20.,50.]; sup=[]
    for cut in cuts:
        q,t=lattice.grid(cut*np.array([1.0001,1.2,2.,5.]),np.linspace(np.arcsin(min(1.,1.6/cut)),np.pi,31)); r=q*np.sin(t)*R; z=q*np.cos(t)*R
        k=(z<0)|(r>1.5*R); r,z,q=r[k],z[k],q[k]
        o=vc_tang_u_doublet(r,0*r,z,gamma_t=g,R=R,r_bar_Cut=cut); f=vc_tang_u(r,0*r,z,gamma_t=g,R=R)
        D=np.hypot(o[0]-f[0],o[1]-f[1])/abs(g); ck.case(len(r))
        up=z<=0
        ck.expect(np.all(D[up]<=1./q[up]**4),'decay:upstream',lambda:{'cut':cut,'R':R,'gamma_t':g,'sup difference/gamma':D[up].max(),'bound':1/cut**4})
        sup.append(D[up].max())
        # outside of the wake at a given angle from it
        side=(r>.3*np.hypot(r,z)); ck.expect(np.all(D[side]<=30./q[side]**4),'decay:side',lambda:{'cut':cut,'R':R,'sup':D[side].max()})
    ck.expect(all(a>b for a,b in zip(sup,sup[1:])),'decay:monotone',lambda:{'R':R,'cuts':cuts,'sup':sup})
P=np.array([[.4,.7,-1.],[.3,1.2,2.3],[2.1,-.3,1.],[-3.,1.,-2.],[1.,-2.,4.6],[9.,2,-5.],[-2.,6.3,-7.],[.3,.2,-5.95],[.2,.1,-6.05],[-31.,4.,12.],[1.4,.6,30.],[2.,2.,-.4],[0.1,-.3,-2.3],[1.9,.5,-2.2]])
def turbine(ck,it):
    R,h,yaw,gr,cut,es,ev=it
    A=np.column_stack((np.cross(ev,es),ev,es)); hub=A@np.array([.5,h,-.3])*R
    ref=Ref(R=R,hub=hub,es=es,ev=ev,U0=A@(8*np.array([np.sin(yaw),0,np.cos(yaw)])),Model='VCFF'); ref.load(Loading(Ct=.7)); ref.yaw=yaw
    kw=dict(R=R,r_hub=list(hub),e_shaft_yaw0=list(es),e_vert=list(ev),U0=list(ref.U0))
    X=(P*R)@oracle.rot((0,1,0),yaw).T@A.T+hub
    # stay away from the cut-off sphere and sheets
    for own in (True,False):
        W=WindTurbine(Model='VCFF' if own else 'VC',**kw); W.update_loading(Ct=.7); W.update_yaw_pos(yaw)
        for q in (dict(),dict(only_ind=True),dict(no_wake=True)):
            k=dict(q,ground=gr); 
            if not own: k['Model']='VCFF'
            if cut is not None: k['R_far_field']=cut
            ck.case(len(X))
            d=lambda:{'R':R,'hub':hub,'yaw':yaw,'query':k,'model of':'turbine' if own else 'query'}
            e=ref.u(X,Model='VCFF',R_far_field=6 if cut is None else cut,**dict(q,ground=gr))
            ck.close(query(W,X,**k),e,'turbine:%s'%('default' if cut is None else 'cut'),d,rtol=1e-9,scale=1.)
            if 'only_ind' in q: ck.close(fquery(WindFarm([W]),X,**{a:b for a,b in k.items() if a!='only_ind'}),e,'farm',d,rtol=1e-9,scale=1.)
def run(ck):
    ck.level='exploration'
    ck.rule='case = one velocity component at one point of a spherical lattice bracketing the cut-off distance (to 1e-9), for each cut-off, radius, intensity and output convention, vs the Biot-Savart integral inside and the doublet line outside; or a turbine query; non-trivial = expected value not negligible'
    pmap(ck,kernel,list(itertools.product((0.,.5,1.,1.5,2.5,6.,40.) if ck.thorough else (0.,.5,1.5,2.5,6.,40.),(1.,.3,63.),(-1.,2.))))
    pmap(ck,decay,[(R,g) for R in (1.,.3,63.) for g in (-1.,2.)])
    fr=oracle.axis_frames()+oracle.oblique_frames()
    pmap(ck,turbine,[(R,h,y,gr,c,*f) for R in (1.,30.) for h in (0.,1.5) for y in (0.,.7) for gr in (False,True) for c in (None,1.,2.,3.3,6.,25.) for f in ([fr[16],fr[0],fr[25]] if not ck.thorough else fr)])
