"""Velocity at a point does not depend on the batch it is computed in"""
import numpy as np, itertools
from common import pmap
import api
from wt import WindTurbine, WindFarm
import wiz.elliptic as EL

def targets():
    """ name, coords, function of (c1,c2,c3) returning a tuple of arrays """
    for f in api.F: yield f.name,f.coords,(lambda a,b,c,f=f: f.f(a,b,c,1.3,-2.)),f.skew
    for f in api.F: yield f.name+':zero',f.coords,(lambda a,b,c,f=f: f.f(a,b,c,1.3,0.)),None
    r=np.linspace(0,1.3,5); Ct=np.array([.1,.6,.8,.7,.2])
    def W(yaw=0,**k):
        w=WindTurbine(R=1.3,r_hub=[.1,.7,-.2]); w.update_loading(**k); w.update_yaw_pos(yaw); return w
    T={'single':W(Ct=.6,Lambda=6),'multi':W(r=r,Ct=Ct,nCyl=2,Lambda=6),'yawed':W(.3,Ct=.6,Lambda=6),'yawedmulti':W(.3,r=r,Ct=Ct,nCyl=2,Lambda=6)}
    O={'':dict(),'all':dict(longi=True,root=True,ground=True),'nowake':dict(no_wake=True,only_ind=True)}
    for tn,w in T.items():
        for on,o in O.items(): yield 'turbine:%s:%s'%(tn,on),'xyz',(lambda a,b,c,w=w,o=o: w.compute_u(a,b,c,**o)),tn[:3]=='yaw'
    for M in ('VCFF','VD','SS'): yield 'turbine:'+M,'xyz',(lambda a,b,c,M=M: T['single'].compute_u(a,b,c,Model=M,only_ind=True,R_far_field=2.)),False
    F=WindFarm([T['single'],W(r=r,Ct=Ct,nCyl=2)])
    yield 'farm','xyz',(lambda a,b,c: F.velocity_field(a,b,c,U0=[1,2,3.])),False
    yield 'farm:empty','xyz',(lambda a,b,c: WindFarm().velocity_field(a,b,c,U0=[1,2,3.])),False
    yield 'ellipticPi','pi',(lambda n,m,_: (EL.ellipticPiCarlson(n,m),)),False

def pts(coords):
    if coords=='pi':
        n=np.array([.1,.5,-2.,0.,.99,1-1e-9,-1e6,.3,.999,-.1,.2,.7]); m=np.array([.3,.9,-1.,0.,.5,.2,.1,1-1e-9,.999,-50.,.1,.6]); return np.array([n,m,0*n]),np.arange(6)
    P=api.points(coords,1.3); core=np.array([0,2,6,7,9,11])
    return P,core
def call(f,C):
    o=f(*C)
    return [np.asarray(x) for x in o]
def run(ck):
    ck.level='exploration'
    ck.rule='case = one call of a function (or turbine/farm query) on a batch of control points, every output entry compared with the one of the point computed alone; batches: every ordered pair of the points (all branches present), every subset and permutation of a core of points, NaN inserted at every position, shapes/strides/orders/number types, empty arrays'
    TG=list(targets())
    def one(ck,tg):
        nm,coords,f,skew=tg; key=nm.split(':')[0]+(':'+nm.split(':')[1] if nm.startswith('turbine') else '')
        P,core=pts(coords); n=P.shape[1]
        alone=np.array([[x[0] for x in call(f,[P[k,[i]] for k in range(3)])] for i in range(n)])    # (n,nout)
        fin=np.isfinite(alone); mag=np.max(np.abs(alone[fin])) if fin.any() else 1.
        scale=np.maximum(np.abs(alone),min(mag,2.))
        def same(out,idx,what,tol=1e-9):
            ck.case()
            sh=idx.shape
            for k,o in enumerate(out):
                if o.shape!=sh: ck.fail('shape:'+key,{'function':nm,'batch':what,'points':P[:,idx.ravel()],'got_shape':list(o.shape),'expected_shape':list(sh)}); return
                e=alone[idx,k]; s=scale[idx,k]
                ok=(np.abs(o-e)<=tol*s)|(~np.isfinite(e)&~np.isfinite(o))
                if not np.all(ok):
                    j=tuple(np.argwhere(~np.atleast_1d(ok))[0]) if np.ndim(ok) else ()
                    ck.fail('batch:'+key,{'function':nm,'batch':what,'points':P[:,idx.ravel()],'component':k,'index':list(j),'got':o[j] if np.ndim(o) else o,'expected':e[j] if np.ndim(o) else e}); return
        def go(idx,what,conv=lambda q:q,tol=1e-9):
            idx=np.asarray(idx)
            C=[conv(P[k][idx]) for k in range(3)]
            try: o=call(f,C)
            except Exception as ex:
                if np.ndim(idx)==0: return            # isolated scalars may be refused
                ck.fail('error:'+key,{'function':nm,'batch':what,'points':P[:,idx.ravel()],'error':repr(ex)}); return
            if np.ndim(idx)==0 and nm.startswith('turbine'): o=[x.reshape(()) if x.size==1 else x for x in o]     # not supported by turbines, which may return one value
            same(o,idx,what,tol)
        # ordered pairs, with repetition
        if skew is None: core=core[:3]      # no vorticity: shapes, types
        prs=[(1,1),(0,n-1)] if skew is None else itertools.product(range(n),repeat=2) if not skew or ck.thorough else itertools.product(core,repeat=2)
        for i,j in prs: go([i,j],'pair')
        # subsets / permutations
        for k in range(1,len(core)+1) if skew is not None else ():
            for c in itertools.combinations(core,k): go(c,'subset')
        for c in itertools.permutations(core[:5] if ck.thorough else core[:4]): go(c,'permutation')
        for i in range(n): go(np.roll(np.arange(n),i),'rotation')
        if ck.thorough:
            for c in itertools.permutations(core,3): go(c,'triple')
            for c in itertools.combinations(range(n),3): go(c,'triple')
        # shapes and layouts
        full=np.arange(n-n%6) if n>=12 else np.arange(n); q=len(full)
        for sh in ((q,),(q,1),(1,q),(2,q//2),(q//2,2),(2,3,q//6),(1,)):
            idx=np.resize(full,sh)
            go(idx,'shape%s'%(sh,))
            go(idx,'fortran%s'%(sh,),lambda a: np.asfortranarray(a))
            go(idx,'strided%s'%(sh,),lambda a: np.repeat(a,2,axis=-1)[...,::2])
            go(idx,'reversed%s'%(sh,),lambda a: np.ascontiguousarray(a[...,::-1])[...,::-1])
            go(idx,'transposed%s'%(sh,),lambda a: np.ascontiguousarray(a.T).T)
        # number of points
        for N in list(range(1,41 if not skew or ck.thorough else 8))+[63,64,65,100,128,257,513,1025]+([2049,4097,10001] if not skew or ck.thorough else [4097]): go(np.resize(np.arange(n),N),'%d points'%N)
        for i in range(n):
            go(np.array(i),'0-d',lambda a: np.array(a))
        # empty
        for sh in ((0,),(0,3),(3,0)):
            try: o=call(f,[np.zeros(sh)]*3); ck.case()
            except Exception as ex: ck.fail('empty:'+key,{'function':nm,'shape':list(sh),'error':repr(ex)}); continue
            ck.expect(all(x.shape==sh for x in o),'empty:'+key,{'function':nm,'shape':list(sh),'got':[list(x.shape) for x in o]})
        # not a number, at every position, in every coordinate
        if coords!='pi':
            for pos in range(0,n+1):
                for cd in (0,1,2,None):
                    C=[np.insert(P[k],pos,np.nan if cd in (k,None) else .5) for k in range(3)]
                    keep=np.delete(np.arange(n+1),pos)
                    try: o=call(f,C)
                    except Exception as ex: ck.fail('nan:'+key,{'function':nm,'position':pos,'coordinate':cd,'error':repr(ex)}); break
                    if any(x.shape!=(n+1,) for x in o): ck.fail('nan:'+key,{'function':nm,'shape':[list(x.shape) for x in o]}); break
                    same([x[keep] for x in o],np.arange(n),'nan at %d, coordinate %s'%(pos,cd))
        # number types
        if coords!='pi':
            I=np.array([[1,2,-3,0,5,3],[1,-1,2,2,3,0],[-2,1,4,-1,3,-2]])
            if coords!='xyz': I=np.abs(I*[[1],[1],[1]]); 
            ref=call(f,[I[k].astype(float) for k in range(3)])
            for dt in ('int64','int32','float32'):
                try: o=call(f,[I[k].astype(dt) for k in range(3)])
                except Exception as ex: ck.fail('type:'+key,{'function':nm,'dtype':dt,'error':repr(ex)}); continue
                ck.case()
                for a,b in zip(o,ref):
                    s=np.max(np.abs(b[np.isfinite(b)]),initial=1e-3)
                    ck.expect(a.shape==b.shape and np.all((np.abs(a-b)<=(1e-9 if dt!='float32' else 2e-4)*s)|(~np.isfinite(b)&~np.isfinite(a))),'type:'+key,{'function':nm,'dtype':dt,'points':I,'got':a,'expected':b})
            for dts in itertools.product(('int64','float64'),repeat=3):
                o=call(f,[I[k].astype(dts[k]) for k in range(3)]); ck.case()
                for a,b in zip(o,ref): ck.expect(np.all((np.abs(a-b)<=1e-9*np.max(np.abs(b[np.isfinite(b)]),initial=1e-3))|(~np.isfinite(b)&~np.isfinite(a))),'type:'+key,{'function':nm,'dtypes':dts,'got':a,'expected':b})
    pmap(ck,one,TG)
    ck.sample({'functions':[t[0] for t in TG][::8]}); ck.extra['functions']=len(TG)
    ck.sample({'points':api.points('xyz',1.3)})
