"""Complete elliptic integral of the third kind"""
import numpy as np, itertools, mpmath
from common import pmap
from numcheck import compare
from wiz.elliptic import ellipticPiCarlson as PI
mp=mpmath.mp
def axis(th,neg):
    """ values v<1 given as (v, 1-v): both exactly representable roundings of the same real number """
    st=.5 if th else 1.
    out=[]
    for c in 10.**np.arange(-15,0,st): out.append(('c',c))                  # 1-v=c
    for v in [.05,.2,.25,.4,.5,.6,.75,.8]: out.append(('v',v))
    for v in np.concatenate(([0.],10.**np.arange(-15,0,st*2))): out.append(('v',v))
    for v in 10.**np.arange(-15,neg+.1,st*(1 if th else 2)): out.append(('v',-v))
    for v in [.5,2.,3.7,50.]: out.append(('v',-v))
    for c in (1e-18,1e-30): out.append(('c',c))
    return out
def both(a):
    k,v=a
    return (1-v,v) if k=='c' else (v,1-v)
def exact(a):
    k,v=a; return (1-mp.mpf(float(v))) if k=='c' else mp.mpf(float(v))
def row(ck,it):
    n,ms=it
    mp.dps=130 if n[0]=='c' and n[1]<1e-20 else 60
    ref=[]
    for m in ms:
        if m[0]=='c' and m[1]<1e-20: mp.dps=130
        ref.append(float(mp.ellippi(exact(n),exact(m))))
    ref=np.array(ref)
    nv,n1=both(n); mv=np.array([both(m)[0] for m in ms]); m1=np.array([both(m)[1] for m in ms]); N=np.full(len(ms),nv); N1=np.full(len(ms),n1)
    tol=np.abs(ref)*1e-12*np.sqrt(1+max(0,-nv))*10
    got=PI(N,mv.copy(),n1=N1,m1=m1.copy()); b={'n':repr(nv),'1-n':repr(n1)}
    compare(ck,'complements','ellipticPiCarlson',(mv,m1),got,ref,tol,b)
    # without complements: the values given are the exact arguments
    ok=[j for j,m in enumerate(ms) if m[0]=='v' or m[1]>=1e-2]
    if n[0]=='v' or n[1]>=1e-2:
        mp.dps=40; r2=np.array([float(mp.ellippi(mp.mpf(float(nv)),mp.mpf(float(mv[j])))) for j in ok])
        compare(ck,'plain','ellipticPiCarlson',(mv[ok],),PI(N[ok],mv[ok]),r2,np.abs(r2)*1e-11*np.sqrt(1+max(0,-nv)),b)
        for j in ok[::3]:
            g=PI(float(nv),float(mv[j])); ck.case(1); ck.close(float(g),r2[ok.index(j)],'scalar',lambda:dict(b,m=mv[j]),rtol=1e-11*np.sqrt(1+max(0,-nv)))
    return got
def run(ck):
    ck.level='exploration'
    ck.rule='case = one (n,m) pair of the lattice (each decade of n, m, 1-n, 1-m, both signs), given with and without complements, vs mpmath at 60-130 digits; or one value in one batch composition, order or shape; non-trivial = all'
    ns=axis(ck.thorough,12); ms=axis(ck.thorough,6)
    rows=pmap(ck,row,[(n,ms) for n in ns])
    # batches: everything in one call, reversed, matrix, with nan and infinite neighbours
    if any(r is None for r in rows): return
    G=np.array(rows); nv=np.array([both(a)[0] for a in ns]); n1=np.array([both(a)[1] for a in ns]); mv=np.array([both(a)[0] for a in ms]); m1=np.array([both(a)[1] for a in ms])
    Nv,Mv=np.meshgrid(nv,mv,indexing='ij'); N1,M1=np.meshgrid(n1,m1,indexing='ij'); t=np.abs(G)*2e-11*np.sqrt(1+np.maximum(0,-Nv))
    compare(ck,'batch:matrix','ellipticPiCarlson',(Nv,Mv),PI(Nv,Mv,n1=N1,m1=M1),G,t)
    f=lambda a: a.ravel()[::-1].copy()
    compare(ck,'batch:flat','ellipticPiCarlson',(f(Nv),f(Mv)),PI(f(Nv),f(Mv),n1=f(N1),m1=f(M1)),f(G),f(t))
    compare(ck,'batch:3d','ellipticPiCarlson',(Nv[None],Mv[None]),PI(Nv[None],Mv[None],n1=N1[None],m1=M1[None]),G[None],t[None])
    compare(ck,'batch:T','ellipticPiCarlson',(Nv.T,Mv.T),PI(Nv.T,Mv.T,n1=N1.T,m1=M1.T),G.T,t.T)
    easy=(Nv.ravel()<.9)&(Nv.ravel()>-50)&(Mv.ravel()<.9)&(Mv.ravel()>-50); a,b,c=Nv.ravel()[easy][::7],Mv.ravel()[easy][::7],G.ravel()[easy][::7]
    bad=[(np.nan,.3),(.3,np.nan),(-1e300,.2),(1.,.5),(.3,1.),(-3e15,.999999),(1-1e-16,1-1e-16)]
    for k,(x,y) in enumerate(bad):
        for pos in (0,len(a)//2,len(a)):
            A=np.insert(a,pos,x); M=np.insert(b,pos,y); g=np.delete(PI(A,M),pos)
            compare(ck,'batch:neighbour%d'%k,'ellipticPiCarlson',(a,b),g,c,np.abs(c)*1e-10)
    for j in range(len(a)):
        compare(ck,'batch:alone','ellipticPiCarlson',(a[j:j+1],b[j:j+1]),PI(a[j:j+1],b[j:j+1]),c[j:j+1],np.abs(c[j:j+1])*1e-10)
