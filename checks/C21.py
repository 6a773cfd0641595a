"""Every model/option combination is honoured or refused"""
import numpy as np, itertools
from common import pmap
from oracle import axis_frames, oblique_frames
from wt import Ref, Refused, Loading, WindTurbine, WindFarm, query, fquery, away
R=2.
def loads():
    r=np.array([.1,.5,.9])*R
    return {'none':None,'n1':Loading(Ct=.7,Lambda=np.inf),'n1s':Loading(Ct=.7,Lambda=6.),'n1g':Loading(Gamma=3.,Lambda=5.),'n1f':Loading(Ct=.7,Lambda=np.inf,gamma_t_Ct=lambda c:-3.1*c),'zero':Loading(Ct=0.,Lambda=7.),
      'n2':Loading(r=r,Ct=np.array([.4,.8,.6]),Lambda=np.inf,nCyl=2),'n3s':Loading(r=r,Ct=np.array([.4,.8,.6]),Lambda=6.,nCyl=3),'n2g':Loading(r=r,Gamma=np.array([1.,4.,3.]),Lambda=6.,nCyl=2),'n2f':Loading(r=r,Ct=np.array([.4,.8,.6]),Lambda=np.inf,nCyl=2,gamma_t_Ct=lambda c:-3.1*np.asarray(c))}
MODELS=['VC','VCFF','VD','SS']; BAD=['XX','vc','']
P0=np.array([(.31,.12,-2.1),(.1,2.2,-.9),(3.3,.4,.7),(-2.9,-.8,4.),(.2,-.1,1.9),(0.,.05,-9.),(.4,6.,25.)])*R
def item(ck,it):
    (es,ev),yaw,skew,chi,ln,cm,cg=it
    T=np.column_stack((np.cross(ev,es),ev,es)); hub=T@np.array([.3,2.6,-.4])*R; U0=T@(9*np.array([np.sin(yaw+skew),0,np.cos(yaw+skew)]))
    ref=Ref(R,hub=hub,es=es,ev=ev,U0=U0,Ground=cg,Model=cm)
    W=WindTurbine(R=R,r_hub=list(hub),e_shaft_yaw0=list(es),e_vert=list(ev),U0=list(U0),Ground=cg,Model=cm); L=loads()[ln]
    if L is not None: W.update_loading(**L.kw()); ref.load(L)
    W.update_yaw_pos(yaw); ref.yaw=yaw
    if chi is not None: W.set_chi(chi); ref.chi_user=chi
    P=P0@ref.T().T+hub; ok=away(ref,P,True,.3)
    P=P[ok]; F=WindFarm([W]); cache={}
    def part(c,M,Rff):
        """ velocity of one component and its image; None if refused """
        k=(c,M,Rff)
        if k not in cache:
            try: cache[k]=(ref.induced(P,[c],M,Rff), ref.induced(P-2*np.outer(P@ref.ev,ref.ev),[c],M,Rff))
            except Refused: cache[k]=None
        return cache[k]
    for qm,g,comps,(noind,nw),Rff in itertools.product([None]+MODELS+BAD,(None,False,True),itertools.product((False,True),repeat=3),((False,False),(True,False),(False,True)),(6,.9)):
        M=cm if qm is None else qm
        if Rff!=6 and (M!='VCFF' or not comps[0]): continue
        if (noind,nw)!=(False,False) and (g is None or qm not in (None,cm)) and not ck.thorough: continue
        kw=dict(tang=comps[0],longi=comps[1],root=comps[2],only_ind=not noind,no_wake=nw)
        if Rff!=6: kw['R_far_field']=Rff
        if qm is not None: kw['Model']=qm
        if g is not None: kw['ground']=g
        d=lambda:{'frame':[es,ev],'yaw':yaw,'wind angle':yaw+skew,'prescribed skew':chi,'load':ln,'Model(ctor)':cm,'Ground(ctor)':cg,'query':kw}
        names=[c for c,b in zip(('tang','longi','root'),comps) if b]
        if L is None: want=None; either=False
        else:
            want=np.zeros(P.shape); either=False; gg=cg if g is None else g
            if M not in MODELS and not (comps[0] and any(c[1] for c in ref.cyl)) and not (comps[1] and any(c[2] for c in ref.cyl)) : either=True     # unknown model with nothing to compute with it
            if len(ref.cyl)>1 and M!='VC': 
                want=None
                if not (comps[0] or (comps[1] and ref.cyl[0][2] is not None)): either=True; want=np.zeros(P.shape)
            if want is not None:
                for c in names:
                    try: p=part(c,M,Rff)
                    except Exception: p=None
                    if p is None: want=None; break
                    want=want+p[0]
                    if gg: want=want+p[1]-2*np.outer(p[1]@ref.ev,ref.ev)
            if want is not None:
                if nw:
                    Q=ref.local(P); want=want.copy(); want[(np.hypot(Q[:,0],Q[:,1])<1.001*R)&(Q[:,2]>=-.6*R)]=0
                if noind: want=want+U0
        try: got=query(W,P,**kw)
        except Exception as e: got=None
        ck.case(1,int(want is None or bool(names)))
        key='%s:%s:%s:%s'%(M,'+'.join(names),'skew' if abs(ref.chi)>1e-7 else 'aligned',ln)
        if got is None:
            ck.expect(want is None or either,'refused:'+key,d); continue
        if want is None:
            ck.expect(either,'not refused:'+key,d); continue
        ck.close(got,want,'velocity:'+key,d,rtol=2e-6,scale=.1)
        if not noind:
            fk={k:v for k,v in kw.items() if k!='only_ind'}
            try: gf=fquery(F,P,**fk)
            except Exception: ck.fail('farm refused:'+key,d()); continue
            ck.close(gf,got,'farm:'+key,d,rtol=1e-12,scale=1e-3)
def run(ck):
    ck.level='exploration'
    ck.rule='case = one turbine (frame, skew case, loading kind, constructor model and ground) queried with one combination of model (4 known, 3 unknown, default), ground, components (all 8), induction-only/no-wake and far-field distance: all combinations; non-trivial = a component requested or a refusal expected'
    ax=axis_frames(); fr=[ax[16],oblique_frames()[0]]+([ax[5]] if ck.thorough else [])
    sk=[(0.,0.,None),(.5,0.,None),(.2,.35,None),(0.,0.,-.4),(.3,.3,0.)]
    its=[(f,y,s,c,l,m,g) for f in fr for (y,s,c) in sk for l in loads() for m in MODELS for g in (False,True)]
    if not ck.thorough: its=[it for i,it in enumerate(its) if it[5]=='VC' or ((i//2)%3==0 and it[6]) or (it[1:4]==sk[0] and it[4] in ('n1','n1s'))]
    if not ck.thorough: its=[it for i,it in enumerate(its) if it[1:4]==sk[0] or (it[0] is fr[1])==(it[1]!=.5 and it[3]!=-.4)]
    pmap(ck,item,its)
