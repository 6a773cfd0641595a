"""End to end: thrust distribution -> velocities at the rotor, in the wake and far away"""
import numpy as np, itertools
from common import pmap
from oracle import axis_frames, oblique_frames
from wt import WindTurbine, WindFarm, query, fquery
def mom(Ct):
    """ momentum theory, linear beyond the critical thrust (Glauert/Spera, ac=.34), independent of the library """
    Ct=np.asarray(Ct,float); ac=.34; Cc=4*ac*(1-ac)
    return np.where(Ct>Cc,(Ct-4*ac**2)/(4*(1-2*ac)),.5*(1-np.sqrt(1-np.minimum(Ct,Cc))))
def item(ck,it):
    lev,n,(es,ev),U,R,kind,hub=it
    T=np.column_stack((np.cross(ev,es),ev,es)); h=T@(np.array(hub,float)*R); d0={'thrust':lev,'cylinders':n,'frame':[es,ev],'wind':U,'R':R,'how':kind,'hub':hub}
    W=WindTurbine(R=R,r_hub=list(h),e_shaft_yaw0=list(es),e_vert=list(ev),U0=list(U*es),Ct=lev[0] if kind=='ctor' else None)
    if kind=='ctor': pass
    elif kind=='scalar': W.update_loading(Ct=lev[0])
    elif kind=='mean': W.update_loading(r=np.linspace(0,R,len(lev)),Ct=np.array(lev))
    elif kind=='direct': W.update_loading(r=np.linspace(.2,1,n)*R,Ct=np.array(lev),nCyl=None)
    elif kind=='lambda': W.update_loading(r=np.linspace(.005,.995,n)*R,Ct=np.array(lev),nCyl=n,Lambda=np.inf)
    elif kind=='fast': W.update_loading(r=np.linspace(.005,.995,n)*R,Ct=np.array(lev),nCyl=n,Lambda=500.)
    else: W.update_loading(r=np.linspace(0,R,len(lev)),Ct=np.array(lev),nCyl=n)
    if kind in ('ctor','scalar'): rc=np.array([1.]); a=mom([lev[0]])
    elif kind=='mean': rc=np.array([1.]); a=mom([np.mean(lev)])
    elif kind=='direct': rc=np.linspace(.2,1,n); a=mom(lev)
    elif kind in ('lambda','fast'): rc=np.linspace(.005,.995,n); a=mom(lev)
    else: rc=np.linspace(.005,.995,n); a=mom(np.interp(rc,np.linspace(0,1,len(lev)),lev))
    # annulus of control points between two cylinders: the induction of the outer one applies
    e=np.concatenate(([0.],rc)); far=300.
    aa=np.concatenate((a,[0.]))
    rows=[];want=[];tol=[];what=[]
    for k in range(len(rc)):
        for f in ((.5,.15,.85) if k else (0.,.4,.9)):
            r=e[k]+f*(e[k+1]-e[k])
            for psi in (0.,2.1):
                P=[r*np.cos(psi),r*np.sin(psi)]
                gap=min(abs(r-x) for x in rc)
                rows.append(P+[0.]); want.append(1-a[k]); tol.append(1e-7); what.append('rotor')
                rows.append(P+[far]); want.append(1-2*a[k]); tol.append(3/far**2*2); what.append('far wake')
                rows.append(P+[-far]); want.append(1.); tol.append(3/far**2); what.append('upstream')
    for r,z in ((1.5,far),(4.,far),(far,0.),(far,5.),(far,-8.),(2.,-far),(1.5,300*far)):
        rows.append([r*.6,r*.8,z]); want.append(1.); tol.append(3/far**2*2); what.append('outer')
    for r in (1.0001,1.3,5.): rows.append([r,0.,0.]); want.append(1.); tol.append(1e-5); what.append('rotor plane outside')
    # on the axis, at all distances: sum of the cylinders
    for z in (-5.,-1.,-.3,-.01,.01,.2,1.,6.):
        g=aa[:-1]-aa[1:]; v=1-sum(gk*(1+z/np.hypot(z,q)) for gk,q in zip(g,rc))
        rows.append([0.,0.,z]); want.append(v); tol.append(1e-9); what.append('axis')
    P=np.array(rows)*R; u=query(W,P@T.T+h)/U; uz=u@es; want=np.array(want); tol=np.array(tol)
    ck.case(len(P),int(np.sum(np.abs(want-1)>1e-12)))
    bad=~(np.abs(uz-want)<=tol)
    for w in sorted(set(what)):
        i=[k for k in range(len(what)) if what[k]==w and bad[k]]
        if i: ck.fail(w+':'+kind,dict(d0,point=rows[i[0]],axial_velocity=uz[i[0]],expected=want[i[0]]))
    # lateral velocities: none on the axis, in the far field; the in-plane ones are radial
    ut=u-np.outer(uz,es); x=P@T.T; rad=x-np.outer(x@es,es); rr=np.linalg.norm(rad,axis=1)
    az=np.sum(ut*np.cross(es,rad),axis=1)/np.where(rr>0,rr,1); ck.expect(np.all(np.abs(az)<=1e-9),'azimuthal:'+kind,d0)
    i=[k for k in range(len(what)) if what[k]!='rotor' and not what[k].startswith('rotor') ]
    lat=np.linalg.norm(ut[i],axis=1); ck.expect(np.all(lat<=np.where(rr[i]==0,1e-9,1.2*R/np.maximum(np.abs((x@es)[i]),rr[i]) if False else 3./far)),'lateral:'+kind,dict(d0,worst=float(lat.max())))
    # options which do not matter here: farm, other components (no swirl), no_wake outside
    ck.close(fquery(WindFarm([W]),P@T.T+h,U0=U*es),u*U,'farm:'+kind,d0,rtol=1e-10,scale=U)
    ck.close(query(W,P@T.T+h,longi=True,root=True),u*U,'no swirl:'+kind,d0,rtol=1e-10,scale=U)
def run(ck):
    ck.level='exploration'
    ck.rule='case = axial velocity at one point (rotor disk, far wake, far upstream, outside, axis) of an aligned turbine loaded with one thrust distribution (all vectors of the stated levels), for one wind speed, size, frame and way of giving the loading, vs momentum theory per annulus; non-trivial = velocity differing from the free stream'
    fr=axis_frames(); ob=oblique_frames(); th=ck.thorough
    lv=[0.,.3,.7,.8976,.95,1.1] if th else [0.,.4,.95]
    F=[fr[0],fr[9],ob[0]]+(fr[2::5]+ob[1:] if th else [])
    its=[]
    S=[(8.,1.,(0,0,0)),(.1,50.,(1.,2.,-3.)),(25.,.02,(0,3,0))]
    one=[0.,1e-6,.1,.3,.5,.7,.8,.888,.8975,.8976,.8977,.9,.95,1.,1.1,1.2,-.2]
    for c in one:
        for f in F:
            for U,R,h in S:
                for k in ('ctor','scalar'): its.append(((c,),1,f,U,R,k,h))
    m=0
    for n in (2,3,4) if th else (2,3):
        for v in itertools.product(lv,repeat=n):
            if n==4 and len(set(v))>3: continue
            for k in ('direct','interp','mean','lambda','fast'):
                m+=1
                for j,(U,R,h) in enumerate(S):
                    if n>2 and j!=m%3 : continue
                    its.append((v,n,F[(m+j)%len(F)],U,R,k,h))
    for v in itertools.product(lv[:3],repeat=2):
        for n in (2,5,8): its.append((v,n,F[n%len(F)],8.,1.,'interp',(0,0,0)))
    for n in (20,70)+((150,) if th else ()):            # many cylinders
        for v in ((.4,.95),(0.,.8,.8,.1),(.9,.2)): its.append((v,n,F[n%len(F)],8.,1.,'interp',(0,0,0)))
    ck.sample({'thrust':its[-3][0],'cylinders':its[-3][1],'loading':'interpolated'}); ck.extra['configurations']=len(its)
    pmap(ck,item,its)
