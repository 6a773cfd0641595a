"""Multi-scale lattices of control points (in units of the radius)"""
import numpy as np
def scales(kmin,kmax,step=1):
    return 10.0**np.arange(kmin,kmax+step/2,step)
def radial(thorough=False,kmin=-12,kmax=3):
    st=.5 if thorough else 1.
    e=scales(kmin,kmax,st); d=scales(kmin,-1,st)
    return np.unique(np.concatenate(([0.,1.],e,1+d,1-d,[.2,.25,.4,.5,.6,.75,.9,1.1,1.25,1.5,2,2.5,3,5,7.5,20])))
def axial(thorough=False,kmin=-12,kmax=3):
    st=.5 if thorough else 1.
    e=scales(kmin,kmax,st); f=np.array([.25,.5,.6,.75,1.5,2,3,5,7.5,20])
    return np.unique(np.concatenate(([0.],e,-e,f,-f)))
def grid(*a):
    g=np.meshgrid(*a,indexing='ij')
    return [x.ravel() for x in g]
