"""Rotor-plane flow expansion functions vs their defining integrals and the Biot-Savart velocities of the rotor plane"""
import numpy as np, warnings
import mpmath as mp
from common import pmap
import oracle as O
import wiz.VortexCylinderSkewed as SK
def J(r,m):
    """ int_0^pi sin^2/(D (D^2+m^2 sin^2)), D^2=1+r^2-2r cos : panels graded to the near singularities (rotor edge, steep skew) """
    mp.mp.dps=25
    r,m=mp.mpf(float(r)),mp.mpf(float(m))
    f=lambda t: mp.sin(t)**2/(mp.sqrt((1-r)**2+4*r*mp.sin(t/2)**2)*((1-r)**2+4*r*mp.sin(t/2)**2+m*m*mp.sin(t)**2))
    b=sorted({mp.mpf(0),mp.pi}|{mp.mpf(10)**-k for k in range(0,9)}|{3*mp.mpf(10)**-k for k in range(1,9)}|{mp.pi-mp.mpf(10)**-k for k in range(0,4)}|{mp.pi-3*mp.mpf(10)**-k for k in range(1,5)}|{mp.mpf(2)})
    return mp.quad(f,b,maxdegree=6)
def refs(r,m):
    j=J(r,m); m=mp.mpf(float(m)); r=mp.mpf(float(r))
    return float(r*(1+m*m)/mp.pi*j),float(r*m*mp.sqrt(1+m*m)/mp.pi*j)
def call(f,*a,**k):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore'); return f(*a,**k)
def run(ck):
    ck.level='exploration'
    ck.rule='case = value of one expansion function at one (radius, skew), radii and skews covering every decade next to 0, to the rotor edge and to 0/large skew (both signs), vs its defining integral (25 digits), in several batches; and Biot-Savart velocity of the rotor plane at azimuths 0 and pi; non-trivial = radius off axis'
    ds=range(1,8 if ck.thorough else 5)
    rs=np.unique(np.concatenate(([0.,.2,.35,.5,.65,.8],[10.**-k for k in ds],[3*10.**-k for k in ds],[1-10.**-k for k in range(1,5 if ck.thorough else 4)],[1-3*10.**-k for k in range(1,4)])))
    mm=[1e-9,1e-6,1e-4,1e-3,1e-2,.03,.07,.099,.0999999,.1,.1000001,.101,.15,.3,.577,1.,1.7,3.,10.]
    if ck.thorough: mm+=[1e-12,3e-8,1e-5,3e-3,.05,.2,.45,2.2,5.,30.]
    ms=[0.]+[s*m for m in mm for s in (1,-1)]
    ck.sample({'r':float(rs[3]),'m':ms[3]}); ck.extra['radii']=len(rs); ck.extra['skews']=len(ms)
    def one(ck,m):
        ref=np.array([refs(r,m) for r in rs]); kx,kz=ref.T; oye=.5*(rs+.4*rs**3+.4*rs**5)
        d=lambda w: {'m':m,'function':w,'r':rs.tolist()}
        # closed forms (accuracy: cancellation in 1/m^2 for |m|>=.1, and next to the rotor edge)
        tol=1e-11+ (3e-14*(1+1/m**2)/(1-rs)**2 if abs(m)>=.09 else (1e-14/(1-rs)**2+3e-15/(rs+1e-4)**2 if m==0 else 1e-14/(1-rs)))
        def close(name,got,ref,tol,atol=3e-7,sel=slice(None)):
            g=np.asarray(got,float); ck.case(g.size,int(np.sum(rs[sel]>0)) if g.size==len(rs[sel]) else g.size)
            ck.expect(g.shape==np.shape(ref) and bool(np.all(np.abs(g-ref)<=tol*np.abs(ref)+atol*(np.abs(ref)<2e-7)+2e-9*(np.abs(ref)<2e-4))),name+(':m=0' if m==0 else ''),dict(d(name),got=g,expected=np.asarray(ref)))
        K=call(SK.fKxit,rs.copy(),m); ck.expect(len(K)==3,'nout:fKxit',d('fKxit'))
        close('Kxit',K[0],kx,tol); close('fOye',K[2],oye,1e-14)
        num=(rs<=.9) if abs(m)<=1 else (rs<=.7) if abs(m)<=3 else (rs<=.35)&(abs(m)<=5)
        close('Kxit_num',K[1][num],kx[num],1e-7,sel=num)
        for k in (range(len(rs)) if ck.thorough else (0,1,5,len(rs)-1)):                 # one at a time, same value
            a=call(SK.fKxit,rs[k:k+1].copy(),m); ck.case()
            for i in range(3): ck.close(a[i],K[i][k:k+1],'batch:Kxit',dict(d('fKxit'),index=k),rtol=1e-12,atol=1e-15)
        a=call(SK.fKxit,rs[::-1].copy(),m)
        for i in range(3): ck.close(a[i][::-1],K[i],'batch:Kxit',dict(d('fKxit'),batch='reversed'),rtol=1e-12,atol=1e-15)
        if m==0: return
        for n in range(1,7):
            Z=call(SK.fKzt,rs.copy(),m,n); 
            if n==1:
                ck.expect(isinstance(Z,np.ndarray) and Z.shape==rs.shape,'nout:fKzt',d('fKzt')); close('Kzt:nout1',Z,kz,tol); continue
            if not ck.expect(isinstance(Z,tuple) and len(Z)==n,'nout:fKzt',dict(d('fKzt'),nout=n,got=len(Z))): continue
            close('Kzt',Z[0],kz,tol)
            if abs(m)>=.01: close('Kzt_num',Z[1][num],kz[num],1e-7+1e-13/m**2,sel=num)
            if n>2: close('fOye:z',Z[2],oye,1e-14)
            for q in range(3,n): close('Kzt_num%d'%(q-1),Z[q][num],kz[num],1e-7,sel=num)
        D=call(SK.fKzt,rs.copy(),m); ck.expect(isinstance(D,tuple) and len(D)==2,'nout:fKzt default',d('fKzt'))
        for k in (range(len(rs)) if ck.thorough else (0,1,5,len(rs)-1)):
            a=call(SK.fKzt,rs[k:k+1].copy(),m); ck.case()
            for i in range(2): ck.close(a[i],D[i][k:k+1],'batch:Kzt',dict(d('fKzt'),index=k),rtol=1e-12,atol=1e-15)
        # what they are for: velocities of the rotor plane
        if 1e-3<=abs(m)<=3:
            chi=np.arctan(m); sel=np.where((rs>=.01)&(rs<=.9))[0]
            for sgn in (1,-1):
                P=np.array([[sgn*rs[k],0.,0.] for k in sel]); u=np.array(O.skew_tang(P,-2.,1.,m)).reshape(-1,3) if np.array(O.skew_tang(P,-2.,1.,m)).shape[-1]==3 else np.array(O.skew_tang(P,-2.,1.,m)).T
                ck.case(2*len(sel))
                ck.close(-1.*(1+sgn*K_(D[0],sel)),u[:,2],'plane:uz',dict(d('fKzt'),psi=0 if sgn>0 else 180),rtol=1e-9,scale=1.)
                ck.close(-1.*(np.tan(chi/2)-sgn*np.cos(chi)*K_(K[0],sel)),u[:,0],'plane:ux',dict(d('fKxit'),psi=0 if sgn>0 else 180),rtol=1e-9,scale=1.)
    def K_(a,sel): return np.asarray(a)[sel]
    pmap(ck,one,ms)
    # limit without skew
    for m in (1e-8,-1e-8,1e-5):
        ck.close(call(SK.fKxit,rs.copy(),m)[0],call(SK.fKxit,rs.copy(),0.)[0],'limit',{'m':m},rtol=1e-7,atol=1e-7); ck.case(len(rs))
