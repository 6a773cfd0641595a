"""Helpers for the lattice checks"""
import numpy as np
def compare(ck,key,name,coords,got,ref,tol,base=None):
    """ component-wise comparison |got-ref|<=tol at lattice points; counts evaluations and non-negligible expected values """
    ref=np.asarray(ref,float); 
    ck.case(ref.size,0)
    mag=np.max(np.abs(ref)) if ref.size else 0
    ck.nontriv+=int(np.sum(np.abs(ref)>1e-10*max(mag,1e-300)))
    g=np.asarray(got)
    if g.shape!=ref.shape:
        ck.fail(key,dict(base or {},function=name,got_shape=list(g.shape),expected_shape=list(ref.shape)))
        return False
    t=np.broadcast_to(np.asarray(tol,float),ref.shape)
    with np.errstate(all='ignore'):
        ok=np.abs(g-ref)<=t
    if np.all(ok): return True
    with np.errstate(all='ignore'):
        e=np.abs(g-ref)/np.maximum(t,1e-300)
    e=np.where(ok,-1,np.where(np.isnan(e),np.inf,e)); i=int(np.argmax(e))
    pt=[float(np.broadcast_to(c,ref.shape).ravel()[i]) for c in coords]
    ck.fail(key,dict(base or {},function=name,point=pt,got=g.ravel()[i],expected=ref.ravel()[i],tolerance=t.ravel()[i],n_bad=int(np.sum(~ok))))
    return False
