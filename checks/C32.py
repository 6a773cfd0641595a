"""Summaries and saved copies of turbines and farms show their current state"""
import numpy as np, itertools, re, pickle, copy, tempfile, os, shutil
from common import pmap, quiet
from oracle import rot, wrap
from wt import Ref, Loading, WindTurbine, WindFarm, query, fquery
NUM=re.compile(r'[-+]?(?:nan|inf|\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+)')
FR=[((0,0,1),(0,1,0)),((1,0,0),(0,0,1)),((.6,.8,0),(0,0,1)),((0,-1,0),(.6,0,-.8))]
OPS=[('yaw',.3),('yaw',-2.9),('yaw',3.5),('wind',(3.01253,.53127,9.)),('wind',(-7.,1.,-2.)),('wind',(0.,-4.,.5)),('pos',(123456.75,-20.03127,3.25)),('pos',(.12345,0.,-1.50002)),('coord',FR[1]),('coord',FR[2]),('coord',FR[3]),('chi',.4),('load',Loading(Ct=.6,Lambda=7.)),('load',Loading(Ct=.3)),('query',None),('show',None),('load',Loading(Ct=.5,gamma_t_Ct=lambda C: -4.*C))]     # an anonymous function cannot be pickled
def apply(W,r,op):
    k,v=op
    if k=='yaw': W.update_yaw_pos(v); r.yaw=v
    elif k=='wind': W.update_wind(list(v)); r.U0=np.array(v)
    elif k=='pos': W.update_position(list(v)); r.hub=np.array(v)
    elif k=='coord': W.set_yaw0_coord(list(v[0]),list(v[1])); r.set_coord(*v)
    elif k=='chi': W.set_chi(v); r.chi_user=v
    elif k=='load': W.update_loading(**v.kw()); r.load(v)
    elif k=='query':
        if r.cyl is not None: query(W,[[1.,2.,3.]])
    else: repr(W); W.tostring()
def sections(s):
    """ name -> numbers of each entry ' - name : values' (repeated entries in a list) """
    o={}; cur=None
    for l in s.split('\n')[1:]:
        m=re.match(r'^\s*-\s*([A-Za-z_0-9 ]+?)\s*:(.*)$',l)
        if m: cur=m.group(1).strip(); o.setdefault(cur,[]).append([]); l=m.group(2)
        if cur is not None: o[cur][-1]+=[float(x) for x in NUM.findall(l)]
    return o
def near(a,b,tol): a=np.array(a,float).ravel(); b=np.array(b,float).ravel(); return a.shape==b.shape and bool(np.all(np.abs(a-b)<=tol))
def angle(a,b,tol): return len(a)==1 and abs(wrap(np.radians(a[0]-b)))<=np.radians(tol)
def show(ck,W,r,d,name):
    es=r.e_s; ew=r.yaw_wind; Tw=np.column_stack((es,np.cross(r.ev,es),r.ev)); want={}
    for short in (True,False):
        s=W.tostring(short=short); o=sections(s); ck.case(1,1)
        def put(n,ok): ck.expect(n in o and ok(o[n]),'%s:%s'%('short' if short else 'full',n),dict(d,shown=o.get(n),text=s))
        ck.expect('WindTurbine' in s.split('\n')[0] and name in s.split('\n')[0],'heading',dict(d,text=s))
        put('R',lambda v:near(v,[[r.R]],1e-9*r.R)); put('r_hub',lambda v:near(v,r.hub,1e-6)); put('U0',lambda v:near(v,r.U0,1e-6))
        e=np.degrees(wrap(r.yaw-r.yaw_wind)); # the summary gives the angle between wind and shaft, which is the horizontal one when the wind is horizontal
        e3=np.degrees(np.arccos(np.clip(es@r.U0/np.linalg.norm(r.U0),-1,1)))*(1 if e>=0 else -1)
        tol=1e-5 if abs(abs(e3)-90)<89 else 1e-4
        put('yaw_err',lambda v:all(angle(q,e,tol) or angle(q,e3,tol) or (abs(abs(e)-180)<1e-6 and angle(q,-e3,tol)) for q in v) and angle(v[0],e3,tol) or abs(abs(e)-180)<1e-6 and angle(v[0],-e3,tol))
        if short: continue
        put('wd',lambda v:angle(v[0],np.degrees(r.yaw_wind),1e-6) and abs(v[0][0])<=180.000001); put('e_shaft',lambda v:near(v,es,1.1e-4/2)); put('yaw_pos',lambda v:near(v,[np.degrees(r.yaw)],1e-6))
        put('T_c2g',lambda v:near(v,r.T(),1.1e-4/2))
        # the matrices shown are consistent with each other: cylinder -> turbine -> global
        try: A,B,C=[np.array(o[k][0]).reshape(3,3) for k in ('T_wt2g','T_c2wt','T_c2g')]; ok=np.allclose(A@B,C,atol=3e-4)
        except Exception: ok=False
        ck.expect(ok,'matrices',dict(d,text=s))
    ck.expect(repr(W)==W.tostring(short=False)==W.tostring(False),'repr',d)
P=np.array([[1.,2.,3.],[-4.,.3,7.],[.4,.5,-6.],[20.,-3.,11.]])
def state(W):
    o=[W.R,np.ravel(W.r_hub),np.ravel(W.U0_g),np.ravel(W.e_shaft_g),W.yaw_pos,float(np.ravel(W.yaw_error)[0]),float(np.ravel(W.chi)[0]),W.name,W.Model,W.Ground,W.tostring(False)]
    return o
def eq(a,b): return all(np.array_equal(x,y) if isinstance(x,np.ndarray) else x==y for x,y in zip(a,b))
def copies(ck,W,r,d,op,root):
    loaded=r.cyl is not None
    s0=state(W); u0=query(W,P) if loaded else None
    def via_pickle(o,p): return pickle.loads(pickle.dumps(o,protocol=p))
    import wiz.article_blockage.helper_functions as H
    def via_file(o): n=os.path.join(root,'o'); H.save_obj(o,n); return H.load_obj(n)
    for nm,f in (('deepcopy',copy.deepcopy),('pickle',lambda o:via_pickle(o,2)),('pickle latest',lambda o:via_pickle(o,-1)))+((('file',via_file),) if root else ()):
        C=f(W); ck.case(1,1); dd=dict(d,copy=nm)
        ck.expect(eq(state(C),s0),'copy:state',dd)
        if loaded: ck.close(query(C,P),u0,'copy:flow',dd,rtol=1e-12,scale=10.)
        # the copy is independent of the original, both ways
        q=r.copy(); apply(C,q,op); ck.expect(eq(state(W),s0),'copy:original changed',dict(dd,then=str(op[0])))
        if loaded: ck.close(query(W,P),u0,'copy:original changed',dict(dd,then=str(op[0])),rtol=1e-12,scale=10.)
        if q.cyl is not None: ck.close(query(C,P),q.u(P),'copy:continues',dict(dd,then=str(op[0])),rtol=1e-7,scale=10.)
        C2=f(W); q=r.copy(); s2=state(C2); W2=copy.deepcopy(W); 
        for k,v in list(vars(C2).items()):
            if isinstance(v,np.ndarray): ck.expect(not np.shares_memory(v,getattr(W,k)),'copy:shared memory',dict(dd,attribute=k))
        # farms: members are copied with it
        F=WindFarm([W,W2],name='F'); G=f(F); ck.expect(isinstance(G,WindFarm) and G.name=='F' and len(G)==2 and repr(G)==repr(F),'copy:farm',dd)
        if loaded: ck.close(fquery(G,P,U0=[1,2,3]),fquery(F,P,U0=[1,2,3]),'copy:farm flow',dd,rtol=1e-12,scale=10.)
        G[0].update_position([99.,98.,97.]); ck.expect(eq(state(W),s0),'copy:farm original changed',dd)
def hist(ck,it):
    fi,R,h,do=it; es,ev=FR[fi]; name=['','WT 1','a-b: 3'][(fi+len(h))%3]
    W=WindTurbine(R=R,e_shaft_yaw0=list(es),e_vert=list(ev),name=name); r=Ref(R,es=es,ev=ev)
    for op in h: apply(W,r,op); ck.trans()
    ck.state()
    d={'frame':FR[fi],'R':R,'history':[(k,str(v) if k!='load' else vars(v)) for k,v in h]}
    if not abs(np.linalg.norm(r.U0-(r.U0@r.ev)*r.ev))>1e-9: return
    show(ck,W,r,d,name)
    if do:
        root=tempfile.mkdtemp(prefix='c32_')
        try: copies(ck,W,r,d,do,root)
        finally: shutil.rmtree(root)
def farm(ck,it):
    pos,edits,name=it; WS=[WindTurbine(R=1.,r_hub=list(p)) for p in pos]; F=WindFarm(WS,name=name); M=[np.array(p,float) for p in pos]
    for e,v in edits:
        if e=='append': W=WindTurbine(R=1.,r_hub=list(v)); F.append(W); M.append(np.array(v,float))
        elif e=='layout' and M: F.layout=np.array(M)[::-1]+v; M=[m+np.array(v) for m in M[::-1]]
        elif e=='move':
            if M: F[0].update_position(list(v)); M[0]=np.array(v,float)
        elif e=='pop':
            if M: F.pop(); M.pop()
    d={'positions':pos,'edits':str(edits),'name':name}; ck.case(1,1)
    for s in (F.tostring(),F.tostring(short=False),repr(F)):
        ck.expect('WindFarm' in s.split('\n')[0] and name in s.split('\n')[0],'farm heading',dict(d,text=s)); o=sections(s)
        ck.expect(o.get('Number of turbines')==[[float(len(M))]],'farm number',dict(d,text=s)); ck.expect(near(o.get('layout',[[np.nan]])[0],np.array(M),1e-6) if M else o.get('layout')==[[]],'farm layout',dict(d,text=s))
def one(ck,it):
    with quiet(): {'h':hist,'f':farm}[it[0]](ck,it[1])
def run(ck):
    ck.level='model'
    ck.rule='case = one summary or copy of a turbine or farm after one history; state = history (not merged); transition = one operation'
    th=ck.thorough; its=[]
    for fi in range(len(FR)):
        for n in range(0,5 if th else 4):
            for k,h in enumerate(itertools.product(OPS if n<4 else OPS[::2]+OPS[9:10],repeat=n)):
                if n==3 and not th and (k+fi)%5: continue
                its.append(('h',(fi,(1.,63.25437)[fi%2],h,OPS[(k*5+fi)%13] if n<2 or k%(7 if not th else 3)==fi and (n<3 or th and n<4) else None)))
    A=[(0,0,0),(5.51237,-2.00003,1e3),(.25,7,-3)]; E=[('append',(1.,2.,3.)),('layout',(1.,0,-2.)),('move',(7.,8.,9.)),('pop',None)]
    for n in range(0,4):
        for p in itertools.product(A,repeat=n):
            for m in range(0,3):
                for e in itertools.product(E,repeat=m): its.append(('f',(p,e,('','farm 2')[n%2])))
    ck.sample({'history':str(its[40][1][2])})
    pmap(ck,one,its)
