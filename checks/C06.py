"""Rotations and translations of the frame"""
import numpy as np, itertools
from common import pmap
from oracle import rot, wrap, axis_frames, oblique_frames, diagonal_frames
from wt import Ref, Loading, Refused, WindTurbine, query
R=1.7
r3=np.array([0,.4,.8,1])*R
LOADS={'n1':Loading(Ct=.7),'n1swirl':Loading(Ct=.6,Lambda=6.),'n3swirl':Loading(r=r3,Ct=np.array([.2,.7,.8,.3]),Lambda=7.,nCyl=3)}
# points in the frame of the canonical rotor (x lateral, y vertical, z downstream), away from the sheets
PC=np.array([[.3,.5,-1.2],[-.4,.2,.5],[1.7,-.6,.4],[-.2,2.1,3.],[.1,-.3,5.],[-3.,.4,-.7],[.2,.1,-8.],[6.,-4.,12.]])*R
QS=[dict(),dict(only_ind=True,tang=False,longi=True),dict(only_ind=True,tang=False,root=True),dict(only_ind=True,longi=True,root=True,ground=True),dict(no_wake=True),
    dict(only_ind=True,Model='VCFF',R_far_field=2.5),dict(only_ind=True,Model='VD'),dict(only_ind=True,Model='SS',ground=True)]
YAWS=(0.,.35,-1.2,2.9); SKEWS=(0.,.3,-.5); VERT=(0.,1.5)
HUBS=((0,0,0),(3.,1.2,-7.),(-40.,2.5,90.))   # lateral, height, longitudinal
def wind(a,w): return np.array([9*np.sin(a),w,9*np.cos(a)])
def make(A,hub,ln,yaw,a,w,Lam=None):
    """ turbine in the frame of matrix A (columns: lateral, vertical, shaft) """
    W=WindTurbine(R=R,r_hub=list(A@np.asarray(hub,float)),e_shaft_yaw0=list(A[:,2]),e_vert=list(A[:,1]),U0=list(A@wind(a,w)))
    W.update_loading(**LOADS[ln].kw()); W.update_yaw_pos(yaw)
    return W
def ask(W,P,q):
    try: return query(W,P,**q)
    except Exception: return None
def A_of(f):
    es,ev=f; return np.column_stack((np.cross(ev,es),ev,es))
EYE=np.eye(3)
def item(ck,it):
    ln,yaw,sk,w,frames=it
    a=yaw+sk
    base={}
    for ih,hub in enumerate(HUBS):
        Y=rot((0,1,0),yaw); P0=PC@Y.T
        # --- canonical frame, hub at the lateral origin (the height matters for the ground only)
        W0=make(EYE,(0,hub[1],0),ln,yaw,a,w)
        Pc=P0+np.array([0,hub[1],0])
        ref=Ref(R=R,hub=(0,hub[1],0),U0=wind(a,w)); ref.load(LOADS[ln]); ref.yaw=yaw
        U0=[ask(W0,Pc,q) for q in QS]
        for q,u in zip(QS,U0):
            try: e=ref.u(Pc,**q)
            except Refused: e=None
            ck.case(1)
            d=lambda:{'load':ln,'yaw':yaw,'skew':sk,'vertical wind':w,'hub':hub,'query':q}
            if (u is None)!=(e is None): ck.fail('refusal',dict(d(),got=None if u is None else 'field')); continue
            if u is not None: ck.close(u,e,'canonical',d,rtol=1e-9,scale=1.)
        for kf,f in frames:
            A=A_of(f); T=A@np.asarray(hub,float)
            W=make(A,hub,ln,yaw,a,w)
            P=P0@A.T+T
            d0={'shaft':f[0],'vertical':f[1],'hub':T,'load':ln,'yaw':yaw,'skew':sk,'vertical wind':w}
            key='axis' if kf<24 else 'oblique'
            ck.case(4)
            g=np.array([W.yaw_pos-yaw,wrap(W.yaw_wind-a),wrap(W.chi-sk)])
            ck.expect(np.all(np.abs(g)<1e-8),'angles:'+key,lambda:dict(d0,got=[W.yaw_pos,W.yaw_wind,W.chi],expected=[yaw,wrap(a),sk]))
            if w==0: ck.expect(abs(wrap(W.yaw_error-(yaw-a)))<1e-7 and abs(W.yaw_error)<=np.pi+1e-9,'yaw_error:'+key,lambda:dict(d0,got=W.yaw_error,expected=wrap(yaw-a)))
            es=A@Y@np.array([0,0,1.])
            ck.close(np.ravel(W.e_shaft_g),es,'shaft:'+key,lambda:d0,rtol=0,atol=1e-9)
            disk(ck,W,T,es,f[1],7,'disk:'+key,d0)
            for q,u in zip(QS,U0):
                g=ask(W,P,q); ck.case(1)
                d=lambda:dict(d0,query=q)
                if (g is None)!=(u is None): ck.fail('refusal:'+key,dict(d(),got=None if g is None else 'field')); continue
                if u is not None: ck.close(g,u@A.T,'field:'+key,d,rtol=1e-8,scale=1.)
            # a turbine whose reference axis is already turned
            if kf<24 and ih==1:
                V=WindTurbine(R=R,r_hub=list(T),e_shaft_yaw0=list(es),e_vert=list(f[1]),U0=list(A@wind(a,w))); V.update_loading(**LOADS[ln].kw())
                g=ask(V,P,QS[0]); ck.case(1)
                if g is None or U0[0] is None: ck.expect(g is None and U0[0] is None,'turned',lambda:d0)
                else: ck.close(g,U0[0]@A.T,'turned',lambda:d0,rtol=1e-8,scale=1.)
def disk(ck,W,T,es,ev,n,key,d0):
    D=np.asarray(W.rotor_disk_points(n)); ck.case(1)
    d=lambda:dict(d0,nP=n,got=D)
    if not ck.expect(D.shape==(3,n),key+':shape',d): return
    V=D.T-T
    ok=np.all(np.abs(np.sqrt((V**2).sum(1))-R)<1e-9*(1+np.abs(T).max())) and np.all(np.abs(V@es)<1e-9*(1+np.abs(T).max()))
    x=np.cross(ev,es); y=np.cross(es,x); th=np.sort(np.mod(np.arctan2(V@y,V@x),2*np.pi)); gaps=np.diff(np.concatenate((th,[th[0]+2*np.pi])))
    ck.expect(ok and np.max(gaps)<2*np.pi/max(n-1,1)*(1+1e-6),key,d)
def run(ck):
    ck.level='exploration'
    ck.rule='case = one (frame, hub, yaw, skew, vertical wind, loading, query) compared with the same configuration in the canonical frame (itself compared with the reference model), or the angles, shaft and disk of this configuration; 24 axis-aligned + 3 oblique frames; all are non-trivial'
    frames=list(enumerate(axis_frames()+oblique_frames()))
    items=[(ln,y,s,w,frames) for ln in LOADS for y in YAWS for s in SKEWS for w in VERT]
    if not ck.thorough:   # every frame with every value of each other option, pairs of options covered
        items=[it for i,it in enumerate(items) if it[0]!='n1swirl' or it[3]==0]
        items=[(ln,y,s,w,[f for f in frames if (f[0]+iy)%3==0 or f[0]>=24-(s==0)]) for (ln,y,s,w,_) in items for iy in [YAWS.index(y)+int(w>0)]]
    pmap(ck,item,items)
    # angles on a finer lattice, all frames
    n=48 if ck.thorough else 16
    def angles(ck,fr):
        kf,f=fr
        A=A_of(f)
        W=WindTurbine(R=R,e_shaft_yaw0=list(f[0]),e_vert=list(f[1]))
        for i in range(-n,n+1):
            yaw=i*np.pi/n*2
            W.update_yaw_pos(yaw)
            es=A@rot((0,1,0),yaw)@np.array([0,0,1.])
            ck.close(np.ravel(W.e_shaft_g),es,'shaft:fine',lambda:{'frame':f,'yaw':yaw},rtol=0,atol=1e-9)
            disk(ck,W,np.zeros(3),es,f[1],5,'disk:fine',{'frame':f,'yaw':yaw})
            for j in range(-n//2,n//2+1,2):
                a=j*np.pi/n*2
                W.update_wind(list(A@wind(a,0))); ck.case(1)
                ck.expect(abs(wrap(W.yaw_error-(yaw-a)))<1e-6 and abs(wrap(W.yaw_wind-a))<1e-6 and abs(wrap(W.chi-(a-yaw)))<1e-6 and abs(W.yaw_pos-yaw)<1e-12 and abs(W.yaw_error)<=np.pi+1e-9,'angles:fine',
                    lambda:{'frame':f,'yaw':yaw,'wind angle':a,'got yaw_error,yaw_wind,chi':[W.yaw_error,W.yaw_wind,W.chi]})
        # small angles next to quarter turns
        for q in range(-2,3):
            for e in range(1,10):
                for sg in (1,-1):
                    yaw=q*np.pi/2+sg*3.*10.**-e; W.update_yaw_pos(yaw)
                    es=A@rot((0,1,0),yaw)@np.array([0,0,1.])
                    ck.close(np.ravel(W.e_shaft_g),es,'shaft:small angle',lambda:{'frame':f,'yaw':yaw},rtol=0,atol=1e-13)
                    disk(ck,W,np.zeros(3),es,f[1],4,'disk:small angle',{'frame':f,'yaw':yaw})
        W.update_yaw_pos(0)
        for k in (2,3,50,100,199,360,1000): disk(ck,W,np.zeros(3),np.ravel(W.e_shaft_g),f[1],k,'disk:n',{'frame':f,'yaw':yaw})
    pmap(ck,angles,frames+[(99,f) for f in diagonal_frames()])
    # periodicity of the yaw
    def period(ck,it):
        ln,yaw,sk,kf=it
        A=A_of(frames[kf][1]); P=(PC@rot((0,1,0),yaw).T+np.array([1.,2.,3.]))@A.T
        W=make(A,(1.,2.,3.),ln,yaw,yaw+sk,0.)
        for q in QS:
            u=ask(W,P,q)
            for k in (1,-1,2,-5,100):
                V=make(A,(1.,2.,3.),ln,yaw+2*np.pi*k,yaw+sk,0.); ck.case(1)
                V2=make(A,(1.,2.,3.),ln,0.,yaw+sk+2*np.pi*k,0.); V2.update_yaw_pos(yaw+2*np.pi*k)
                for v in (V,V2):
                    g=ask(v,P,q); d=lambda:{'load':ln,'yaw':yaw,'turns':k,'skew':sk,'query':q}
                    if (g is None)!=(u is None): ck.fail('period:refusal',d()); continue
                    if u is not None: ck.close(g,u,'period',d,rtol=1e-8,scale=1.)
    pmap(ck,period,[(ln,y,s,kf) for ln in LOADS for y in YAWS for s in (0.,.3) for kf in ((0,11) if not ck.thorough else (0,5,11,25))])
