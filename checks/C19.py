"""Scaling with the units of length and velocity"""
import numpy as np, itertools
from common import pmap
from oracle import axis_frames, oblique_frames
from wt import query, fquery, WindTurbine, WindFarm
import api, wiz.Solver as SV, wiz.WindFarm as WF, wiz.VortexLine as VL
def field(ck,f):
    f=api.F[f]
    LS=[(2.**-10,1),(2.**-3,1),(64.,1),(2.**14,1),(1e-3,0),(.1,0),(63.,0),(1e5,0)]
    if ck.thorough: LS+=[(2.**k,1) for k in (-8,-5,-1,3,9,17)]+[(10.**k,0) for k in (-2.5,-1.3,.4,1.1,3.3)]
    for L,sp in LS:
        if f.name.startswith('doublet'):
            sp=0                                                   # the velocity on a doublet line is forced to zero within an absolute length of 1e-8
            if (f.name[8:9]=='u' or 'num' in f.name) and L<.1: continue     # point doublets have an absolute core of 2e-3
        root=sp and ('root' in f.name.lower() or 'semiinf' in f.name or f.name=='svc_u_polar')   # their core is an absolute length (1e-7)
        cut=lambda c: tuple(q[:-1] if root else q for q in c)
        c=cut(api.points(f.coords,1.,bool(sp))); base=f.f(*[q.copy() for q in c],1.,1.3)
        sc=max(np.nanmax(np.abs(b)) for b in f.f(*api.points(f.coords,1.,False),1.,1.3))
        for V in (1.,-12.,3e-4,1e-6,2e-9,-1e-14,3e5) if L in (64.,.1) or ck.thorough else (-12.,4e-7) if L in (2.**-10,1e5) else (-12.,):
            got=f.f(*[q.copy() for q in cut(api.points(f.coords,L,bool(sp)))],L,1.3*V*L**f.sdim)
            for j,(g,b) in enumerate(zip(got,base)):
                b=np.asarray(b); g=np.asarray(g); ck.case(b.size,int(np.sum(np.abs(b)>0)))
                ck.expect(g.shape==b.shape and np.array_equal(np.isfinite(b),np.isfinite(g)),'field:finite:'+f.name,lambda:{'function':f.name,'length unit':L})
                ck.close(np.where(np.isfinite(b),g,0),np.where(np.isfinite(b),b*V,0),'field:'+f.name,lambda:{'function':f.name,'length unit':L,'velocity unit':V,'output':j,'points':[list(map(float,q)) for q in c]},rtol=1e-8,atol=1e-9*sc*abs(V))
def edge(ck,_):
    """ next to the edge of the rotor, at distances which are small lengths in small units """
    import wiz.VortexCylinder as VC, wiz.VortexCylinderSkewed as SK, wiz.VortexRing as VR
    zz=np.array([-.5,-.05,-5e-3,-1e-4,-1e-6,1e-6,1e-4,5e-3,.05,.5]); F={}
    for e in (0.,1e-6,-1e-6,1e-3,-1e-3,.05,-.05):
        r=np.full(zz.shape,1+e)
        F['vc_tang_u',e]=lambda L,r=r: VC.vc_tang_u(r*L,0*r,zz*L,gamma_t=-1.3,R=L)
        F['vc_longi_u',e]=lambda L,r=r: VC.vc_longi_u(r*L,0*r,zz*L,gamma_l=-1.3,R=L)
        F['vcs_tang_u',e]=lambda L,r=r: VC.vcs_tang_u(r*L,0*r,zz*L,A([[-1.3]]),A([[L]]),A([0.]),A([0.]),A([0.]))
        F['cylinder_tang_u',e]=lambda L,r=r: VC.cylinder_tang_u(r*L,0*r,zz*L,-1.3,L,0.,2*L)
        F['vc_tang_u:eps',e]=lambda L,r=r: VC.vc_tang_u(r*L,0*r,zz*L,gamma_t=-1.3,R=L,epsilon=.02*L)
        F['svc_tang_u',e]=lambda L,r=r: SK.svc_tang_u(r*L,0*r,zz*L,-1.3,L,.3)
        F['svc_longi_u',e]=lambda L,r=r: SK.svc_longi_u(r*L,0*r,zz*L,-1.3,L,.3)
        F['vc_tang_u_doublet',e]=lambda L,r=r: VC.vc_tang_u_doublet(r*L,0*r,zz*L,-1.3,L,r_bar_Cut=1.5)
    for (nm,e),f in F.items():
        b=f(1.)
        for L in (1e-6,1e-3,2.**-10,.1,80.,1e4,1e6):
            for k,(g,w) in enumerate(zip(f(L),b)):
                # L*(1+e) is rounded: relative to the distance to the edge
                s=1+np.nanmax(np.abs(w)); dist=np.hypot(e,zz); tol=s*(1e-9+1e-15/np.maximum(dist,1e-9)**1.)*10
                q=np.isfinite(w); ck.case(int(q.sum()))
                bad=q&~(np.abs(g-w)<=tol)
                if bad.any(): j=int(np.argmax(bad)); ck.fail('edge:'+nm,{'function':nm,'r/R-1':e,'z/R':zz[j],'length unit':L,'component':k,'got':g[j],'expected':w[j]})
A=np.array
LOADS={'Ct':dict(Ct=.7),'Ctr':dict(r=[.1,.5,1.],Ct=[.2,.9,.6],nCyl=3),'swirl':dict(r=[.1,.5,1.],Ct=[.2,.9,.6],nCyl=3,Lambda=6.),'swirl1':dict(Ct=.8,Lambda=4.),'Gamma':dict(r=[.1,.5,1.],Gamma=[.2,.3,.3],nCyl=4,Lambda=6.),'inf':dict(r=[.1,.5,1.],Ct=[.2,.9,.6],nCyl=3,Lambda=np.inf),'L20':dict(Ct=.8,Lambda=20.),'L199':dict(Ct=.8,Lambda=19.9)}
OPT=[dict(),dict(longi=True,root=True),dict(only_ind=True,ground=True),dict(no_wake=True),dict(Model='VCFF',R_far_field=2.3),dict(Model='VD'),dict(Model='SS'),dict(only_ind=True,tang=False,longi=True),dict(tang=False,root=True,ground=True)]
P0=np.array([(.31,.12,-1.1),(.4,-.7,.3),(2.3,.8,.9),(-1.4,.5,2.6),(.2,.1,1.7),(0.,0.,-2.),(.05,-.6,11.)])
def make(L,V,load,fr,yaw,skew):
    es,ev=fr; A=np.column_stack((np.cross(ev,es),ev,es)); hub=A@np.array([.2,1.3,-.4])
    U=A@(8*np.array([np.sin(yaw+skew),0,np.cos(yaw+skew)]))
    W=WindTurbine(R=1.*L,r_hub=list(hub*L),e_shaft_yaw0=list(es),e_vert=list(ev),U0=list(U*V))
    kw={k:(np.array(v,float) if isinstance(v,list) else v) for k,v in LOADS[load].items()}
    if 'r' in kw: kw['r']=kw['r']*L
    if 'Gamma' in kw: kw['Gamma']=kw['Gamma']*8*V*L
    W.update_loading(**dict({'Lambda':np.inf},**kw)) if 'Lambda' not in kw else W.update_loading(**kw)
    W.update_yaw_pos(yaw)
    P=(P0@np.column_stack((np.cross(ev,es),ev,es)).T)+hub
    return W,P*L
def turbine(ck,it):
    load,fr,yaw,skew=it
    W1,P1=make(1.,1.,load,fr,yaw,skew)
    def ask(W,P,o):
        try: return query(W,P,**o)
        except Exception as e: return None
    b={i:ask(W1,P1,o) for i,o in enumerate(OPT)}
    F1=WindFarm([W1]); fb=fquery(F1,P1,U0=[1.,2.,3.])
    for L,V in [(64.,.5),(.02,30.),(1e-3,1.),(1.,100.),(1e4,1e-2),(2.,1e-6),(1.,1e-9)]+([(3.3,7.),(1e-2,1e-3),(1e6,1e3)] if ck.thorough else []):
        W,P=make(L,V,load,fr,yaw,skew); d=lambda:{'load':load,'frame':fr,'yaw':yaw,'skew':skew,'length unit':L,'velocity unit':V,'query':OPT[i]}
        for i,o in enumerate(OPT):
            g=ask(W,P,o)
            if g is None or b[i] is None: ck.expect(g is None and b[i] is None,'turbine:refusal',d); continue
            ck.case(1); ck.close(g,b[i]*V,'turbine:%s:%d'%(load,i),d,rtol=1e-7,atol=1e-8*8*V)
        i=0; ck.close(fquery(WindFarm([W]),P,U0=[V,2*V,3*V]),fb*V,'farm',d,rtol=1e-7,atol=1e-8*8*V)
        ck.close([W.yaw_pos,W.yaw_wind,W.yaw_error],[W1.yaw_pos,W1.yaw_wind,W1.yaw_error],'angles',d,rtol=1e-9,atol=1e-6)
        if load in ('inf','L20','Ct','Ctr'):     # no swirl, whatever the rotor
            ck.case(1); ck.close(query(W,P,longi=True,root=True),query(W,P),'no swirl',d,rtol=0,atol=0)
        if load=='L199': ck.case(1); ck.expect(np.max(np.abs(query(W,P,longi=True,root=True)-query(W,P)))>1e-3*V,'swirl below 20',d)
def solver(ck):
    rb=np.array([.1,.4,.7,.97]); 
    for Lam in (3.,9.,19.9,20.,25.,np.inf):
        Ct=np.array([.3,.9,.95,.6]); G=np.array([.1,.25,.25,.2]) if Lam<20 else np.array([.005,.01,.01,.003])
        for corr in (True,):
            def run_(L,V):
                Om=Lam*V/L; out={}
                out['Ct']=SV.WakeVorticityFromCt(rb*L,Ct.copy(),L,V,Om)
                out['Ga']=SV.WakeVorticityFromGamma(rb*L,G*V*L,L,V,Om)
                if np.isfinite(Lam):
                    out['D']=SV.WakeVorticityFromCirculation_Discr(rb*L,G*V*L/3,L,V,Om,3,True)
                    out['C']=SV.WakeVorticityFromCirculation_Cont(rb*L,G*V*L,L,V,Om,True)
                    out['C0']=SV.WakeVorticityFromCirculation_Cont(rb*L,G*V*L,L,V,Om,False)
                return out
            b=run_(1.,1.)
            for L,V in itertools.product((1e-3,.1,7.,63.,1e4),(1e-9,1e-5,1e-2,1.,13.,500.)):
                g=run_(L,V); d=lambda:{'Lambda':Lam,'R':L,'U0':V}
                for k in b:
                    ck.case(1); ck.close(g[k][0],np.array(b[k][0])*V,'solver:%s:gamma_t'%k,d,rtol=1e-8,scale=V*1e-3)
                    for j,u in ((1,V),(2,V*L)):
                        if b[k][j] is None or g[k][j] is None: ck.expect(b[k][j] is None and g[k][j] is None,'solver:%s:swirl'%k,d)
                        else: ck.close(g[k][j],np.array(b[k][j])*u,'solver:%s:%d'%(k,j),d,rtol=1e-8,scale=u*1e-3)
                    for q,u in (('a',1.),('a_prime',1.),('h',L),('Gamma_cp',V*L),('r_cp',L)):
                        ck.close(g[k][3][q],np.array(b[k][3][q])*u,'solver:%s:%s'%(k,q),d,rtol=1e-7,scale=u*1e-4)
    P=[np.array([.3,2.,5.]),np.array([.4,1.5,2.]),np.array([-1.,2.,.3])]
    f=lambda L,V: np.array(WF.windfarm_gridlayout_CTconst(P[0]*L,P[1]*L,P[2]*L,L,.7,9*V,2,4.*L,2,5.*L,1.5*L,True))
    b=f(1.,1.)
    for L,V in itertools.product((1e-4,1e-2,8.,63.,1e4),(1e-9,1e-5,.1,1.,20.)): ck.case(1); ck.close(f(L,V),b*V,'grid farm',lambda:{'L':L,'V':V},rtol=1e-8,atol=1e-9*V)
    # line vortex, all core models; its cores are lengths, absolute cut-offs 1e-5
    for visc,t in itertools.product((0,1,2,3,4,5),(.05,.5,2.)):
        for e in ([0,0,1.],[1.,2.,-.5],[-1.,0,0]):
            for p in ([.3,.2,.1],[1.,-.2,.4],[-.5,.7,2.]):
                g=lambda L,V: np.ravel(VL.vl_semiinf_u(p[0]*L,p[1]*L,p[2]*L,*e,1.7*V*L,visc,t*(L if visc<4 else L*L)))      # models 4, 5: t is added to the denominator, an area
                b=g(1.,1.)
                for L,V in ((.1,3.),(40.,.2),(1e3,-5.)): ck.case(1); ck.close(g(L,V),b*V,'line:visc%d'%visc,lambda:{'L':L,'V':V,'visc':visc,'t':t,'e':e,'P':p},rtol=1e-9,atol=1e-12*abs(V))
    # vortex points: their cores are lengths
    import wiz.VortexPoint as VP
    CP=np.array([(.31,.12),(-2.,1.4),(4.,-.7),(.02,.03),(1.1,1.)]); XV=np.array([(0,0),(1.,1.),(-.5,2.)]); G=np.array([.4,-1.1,2.]); S=np.array([.3,.5,.1])
    def pts(L,V,nc):
        o={('vps',M,k):VP.vps_u(CP*L,XV*L,G*V*L,M,k,S*L) for M,k in [(0,2)]+[(1,k) for k in (2,4,6,8)]+[(2,k) for k in (2,4,6,8,10)]}
        o.update({('vp',c,v):np.array([VP.vp_u(q*L,XV[1]*L,1.7*V*L,c*L,v) for q in CP]) for c,v in ((.3,True),(.05,True),(0,False))})
        o['vp:arrays']=np.array(VP.vp_u(CP.T*L,XV[1][:,None]*L,1.7*V*L,.3*L,True)); return o
    b=pts(1.,1.,0)
    for L,V in itertools.product((1e-4,2.**-10,.1,63.,1e4,1e7),(1e-9,.3,1.,-20.)):
        g=pts(L,V,0)
        for k in b: ck.case(b[k].size); ck.close(g[k],b[k]*V,'vortex points',lambda:{'L':L,'V':V,'function':k},rtol=1e-8,atol=1e-9*abs(V))
def run(ck):
    ck.level='exploration'
    ck.rule='case = one velocity function/solver interface/turbine query at one pair of length and velocity units (all pairs enumerated), compared to the result in unit units; non-trivial = non-zero velocity'
    pmap(ck,field,list(range(len(api.F)))); pmap(ck,edge,[0])
    ax=axis_frames(); fr=[ax[16],ax[3]]+oblique_frames()[:(3 if ck.thorough else 1)]
    pmap(ck,turbine,[(l,f,y,s) for l in LOADS for f in fr for y,s in ((0.,0.),(.5,0.),(-.4,.3))])
    solver(ck)
    ck.extra['velocity_functions']=len(api.F)
