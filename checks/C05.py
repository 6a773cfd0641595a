"""Layouts"""
import numpy as np, itertools
from common import pmap, fhash
from wt import WindTurbine, WindFarm
import wiz.WindFarm as WF
from oracle import cyl_tang
def run(ck):
    ck.level='model_checking'
    # --- explicit-state search: farm of up to 3 turbines, layout operations. Reference: list of [turbine id, position]
    LAY={1:[np.array([[5.,6,7]]),[[1,2,3]]],2:[np.array([[5.,6,7],[8,9,1]]),[(1,2,3),(4,5,6)],np.asfortranarray(np.arange(6.).reshape(2,3))],3:[np.arange(9.).reshape(3,3)*1.5,np.arange(18.).reshape(3,6)[:,::2]],0:[np.zeros((0,3))]}
    BAD=[np.zeros(3),np.zeros((4,3)),np.zeros((2,2)),np.zeros((3,2)),np.zeros((1,3,1)),[[1,2]],np.zeros((3,4)),0.,np.zeros((3,3,3)),np.zeros((2,3,1)),np.zeros(6),np.zeros(9)]
    def ops(nw):
        o=[('app',i) for i in range(3)]+[('pop',-1),('pop',0),('rev',),('ins',2)]
        o+=[('lay',nw,k) for k in range(len(LAY.get(nw,[])))]+[('bad',k) for k in range(len(BAD)) if np.shape(BAD[k])!=(nw,3)]
        o+=[('move',i,p) for i in range(min(nw,3)) for p in ((9.,8.,7.),)]+[('movecol',0)]*(nw>0)
        o+=[('repr',),('nonturbine',)]
        return o
    POS=[[1.,2.,3.],[4.,5.,6.],[-1.,0,.5]]
    def apply(F,pool,N,op,ck=None,hist=None):
        k=op[0]
        if k=='app':
            if len(N)>=3: return
            F.append(pool[op[1]]); N.append(op[1])
        elif k=='ins':
            if len(N)>=3: return
            F.insert(0,pool[op[1]]); N.insert(0,op[1])
        elif k=='pop':
            if N: F.pop(op[1]); N.pop(op[1])
        elif k=='rev': F.reverse(); N.reverse()
        elif k=='lay':
            l=LAY[op[1]][op[2]]; F.layout=l
            for i,n in enumerate(N): POSREF[n]=np.array(l,float)[i]
        elif k=='bad':
            try: F.layout=BAD[op[1]]; ok=False
            except Exception: ok=True
            if ck is not None: ck.expect(ok,'accepted',{'history':hist,'layout shape':list(np.shape(BAD[op[1]])),'nWT':len(N)})
        elif k=='move': F[op[1]].update_position(list(op[2])); POSREF[N[op[1]]]=np.array(op[2])
        elif k=='movecol': F[0].update_position(np.array([[3.],[2.],[1.]])); POSREF[N[0]]=np.array([3.,2,1])
        elif k=='repr': repr(F); F.layout; F.nWT
        elif k=='nonturbine':
            try: F.append('x')
            except Exception: pass
    POSREF={}
    def build(hist,ck=None):
        pool=[WindTurbine(R=1.,r_hub=p,name=str(i)) for i,p in enumerate(POS)]; F=WindFarm(); N=[]
        POSREF.clear(); POSREF.update({i:np.array(p) for i,p in enumerate(POS)})
        for i,h in enumerate(hist): apply(F,pool,N,h,ck if i==len(hist)-1 else None,hist)
        return F,pool,N
    depth=5 if ck.thorough else 4
    seen=set(); level=[()]; nrep=0
    for d in range(depth+1):
        new=[]
        for hist in level:
            try: F,pool,N=build(hist,ck)
            except Exception as e: ck.fail('error:'+hist[-1][0],{'history':hist,'error':repr(e)}); continue
            ck.trans()
            exp=np.array([POSREF[n] for n in N]).reshape(len(N),3); ok=True
            k=fhash([F,pool])+repr(N)+repr(sorted((a,tuple(b)) for a,b in POSREF.items()))
            if k in seen: continue
            seen.add(k); ck.state(); ck.trace()
            l=F.layout
            ok&=ck.expect(np.shape(l)==exp.shape and np.array_equal(l,exp),'layout:'+(hist[-1][0] if hist else 'init'),{'history':hist,'got':l,'expected':exp})
            ok&=ck.expect(F.nWT==len(N),'nWT',{'history':hist})
            for i in range(3): ok&=ck.expect(np.array_equal(np.ravel(pool[i].r_hub),POSREF[i]),'hub:'+(hist[-1][0] if hist else 'init'),{'history':hist,'turbine':i,'got':pool[i].r_hub,'expected':POSREF[i]})
            if ok and d<depth: new.append((hist,len(N)))
        level=[h+(o,) for h,nw in new for o in ops(nw)]
        if level: ck.sample({'history':level[len(level)//2]})
    ck.extra['depth']=depth; ck.extra['closed']=not level
    # --- long histories: every pair of operations of a farm of two turbines repeated
    O=[('app',0),('app',2),('pop',-1),('pop',0),('rev',),('ins',2),('move',0,(9.,8.,7.)),('movecol',0),('repr',),('nonturbine',)]+[('lay*',k) for k in (0,1)]+[('bad',1)]
    def seq(ops):
        pool=[WindTurbine(R=1.,r_hub=p,name=str(i)) for i,p in enumerate(POS)]; F=WindFarm(); N=[]
        POSREF.clear(); POSREF.update({i:np.array(p) for i,p in enumerate(POS)})
        for o in ops:
            if o[0]=='lay*': o=('lay',len(N),o[1]%len(LAY[len(N)]))
            if o[0] in ('move','movecol') and not N: continue
            apply(F,pool,N,o); ck.trans()
        exp=np.array([POSREF[n] for n in N]).reshape(len(N),3); l=F.layout; ck.state(); ck.trace()
        ck.expect(np.shape(l)==exp.shape and np.array_equal(l,exp) and F.nWT==len(N),'long',{'operations':list(ops[:2])+['then repeated']+list(ops[2:4]),'got':l,'expected':exp})
    for x,y in itertools.product(O,repeat=2): seq([('app',0),('app',1)]+[x,y]*(60 if ck.thorough else 25))
    for n in (1,2,5):       # one farm brought to many different layouts
        F=WindFarm([WindTurbine(R=1.,r_hub=[0,0,float(i)]) for i in range(n)])
        for i in range(400 if ck.thorough else 150):
            l=np.array([[np.sin(1.3*i+k)*7,1.+.01*i,k*5.-i*.37] for k in range(n)]); ck.trans()
            if i%3==2: l=F.layout; l[i%n]=[i+.5,.25*i,-1.]; F[i%n].update_position(l[i%n].tolist())
            else: F.layout=l
            if not ck.expect(np.array_equal(F.layout,l) and all(np.array_equal(np.ravel(F[k].r_hub),l[k]) for k in range(n)),'many layouts',{'turbines':n,'updates':i+1,'got':F.layout,'expected':l}): break
    for r in (7,40): seq(O*r); seq(O[::-1]*r)
    # --- a layout of wrong values does not leave the farm half moved: see C24
    # --- grid layouts: complete enumeration
    n=6 if ck.thorough else 5; ng=0
    big=[(m,1) for m in (7,8,9,10,11,16,17,33,50,101,256)]; big+=[(b,a) for a,b in big]+[(12,13),(9,20),(21,11)]
    for nx,nz in list(itertools.product(range(0,n+1),repeat=2))+big:
        for xs,zs in itertools.product((1.,3.5,-2.),(None,1.,7.25,0.)):
            for hub in (0,2.5,-1):
                for mir in (False,True):
                    for form in (0,1):
                        ng+=1; ck.trace(); ck.state(); ck.trans()
                        if form==0: g=WF.gridLayout(nx,xs,nz,zs,hub,mir)
                        else: g=WF.gridLayout(nx=nx,xSpacing=xs,nz=nz,zSpacing=zs,hub_height=hub,mirror=mir)
                        zz=xs if zs is None else zs
                        j0=nx//2                                    # a turbine at x=0, odd: centered
                        e=[((j-j0)*xs,hub,i*zz) for i in range(nz) for j in range(nx)]
                        if mir: e+=[(x,-hub,z) for (x,y,z) in e]
                        G=list(zip(*[np.asarray(v,float).tolist() for v in g]))
                        d={'nx':nx,'nz':nz,'xSpacing':xs,'zSpacing':zs,'hub':hub,'mirror':mir}
                        m=nx*nz
                        ck.expect(all(np.shape(v)==(len(e),) for v in g),'grid:shape',dict(d,got=[list(np.shape(v)) for v in g]))
                        srt=lambda q: sorted((round(a,9)+0.,round(b,9)+0.,round(c,9)+0.) for a,b,c in q)
                        ck.expect(srt(G[:m])==srt(e[:m]),'grid:positions',dict(d,got=G,expected=e))
                        ck.expect(srt(G[m:])==srt(e[m:]),'grid:mirror',dict(d,got=G[m:],expected=e[m:]))
    ck.extra['grids']=ng
    # --- farm on a grid: the positions are used
    P=np.array([[.3,.4,-2.],[3.4,.2,1.],[-1.2,.9,4.2],[5,1.5,8.3]])
    for nx,nz,mir,hub in itertools.product((1,2,3),(1,2),(False,True),(0.,1.7)):
        for U0,CT,R in ((8.,.6,1.),(5.,.3,.5)):
            for shape in ((4,),(2,2)):
                u=WF.windfarm_gridlayout_CTconst(*[P[:,k].reshape(shape).copy() for k in range(3)],R,CT,U0,nx,4.,nz,6.,hub,mir); ck.trace(); ck.trans()
                a=.5*(1-np.sqrt(1-CT)); U=np.zeros((4,3))
                for i,j in itertools.product(range(nz),range(nx)):
                    for s in ((1,-1) if mir else (1,)):
                        Q=P-np.array([(j-nx//2)*4.,s*hub,i*6.]); r=np.hypot(Q[:,0],Q[:,1])
                        ur,uz=cyl_tang(r,Q[:,2],-2*U0*a,R); U+=np.column_stack((ur*Q[:,0]/r,ur*Q[:,1]/r,uz))
                for k in range(3): ck.close(np.asarray(u[k]),U[:,k].reshape(shape),'gridCT',{'nx':nx,'nz':nz,'mirror':mir,'hub':hub,'component':k,'CT':CT,'U0':U0,'R':R},rtol=1e-6,scale=.1)
