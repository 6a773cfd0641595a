"""Colormaps interpolate the given colors at the given positions"""
import numpy as np, itertools
from common import pmap
import matplotlib; matplotlib.use('Agg')
import wiz.plotting_functions as PF
PAL=[(0.,0.,0.),(1.,.5,0.),(.2,.9,1.),(.6,.6,.1)]
AL=[1.,0.,.3,.8]
def expected(cols,pos,x):
    """ piecewise-linear interpolation, right limit where positions coincide inside, independent of np.interp """
    cols=[tuple(c) for c in cols]; out=np.zeros((len(x),len(cols[0])))
    for i,v in enumerate(x):
        j=max(k for k in range(len(pos)) if pos[k]<=v+1e-15)
        if j>=len(pos)-1: out[i]=cols[-1]; continue
        t=(v-pos[j])/(pos[j+1]-pos[j]); out[i]=[(1-t)*a+t*b for a,b in zip(cols[j],cols[j+1])]
    return out
def check(ck,cm,cols,pos,d,key):
    N=cm.N; k=np.arange(N); x=k/(N-1.)
    got=np.asarray(cm(k)); ref=expected(cols,pos,x); al=len(cols[0])==4
    ok=ck.close(got[:,:3],ref[:,:3],key+':rgb',d,rtol=0,atol=1e-9)
    ok&=ck.close(got[:,3],ref[:,3] if al else np.ones(N),key+':alpha',d,rtol=0,atol=1e-9)
    # at the positions themselves: the color, up to the resolution of the table
    for p,c in zip(pos,cols):
        i=[j for j in range(len(pos)) if pos[j]==p]
        if len(i)>1: continue
        g=np.asarray(cm(float(p))); q=np.linspace(max(0,p-1.01/N),min(1,p+1.01/N),41)
        s=np.max(np.abs(expected(cols,pos,q)-np.array(c)))+1e-9
        ok&=ck.expect(np.all(np.abs(g[:len(c)]-np.array(c))<=s),key+':position',dict(d,position=p,color=c,got=g))
    return ok
def run(ck):
    ck.level='exploration'
    ck.rule='case = one colormap (all sequences of colors of a palette, with all transparencies of a set or none, all increasing positions of a grid or default ones, container types; all speed ranges of a set): the whole table vs piecewise-linear interpolation; non-trivial = at least two distinct colors'
    th=ck.thorough; n=4 if th else 3
    grid=[0.,.1,.35,.5,.8,.97,1.]
    its=[]
    for m in range(2,6 if th else 5):
        seqs=list(itertools.product(PAL[:n],repeat=m))
        for i,s in enumerate(seqs):
            its.append((m,s))
    ck.sample({'colors':its[5][1],'positions':None}); ck.sample({'speed range':[.4,1.2]})
    def one(ck,it):
        m,s=it; P=[None]+[(0.,)+c+(1.,) for c in itertools.combinations(grid[1:-1],m-2)]
        A=[None,[1.]*m]+[list(a) for a in itertools.product(AL,repeat=m)][1::(3 if m<4 else 61)]
        for a in A:
            cols=[tuple(c)+((x,) if a else ()) for c,x in zip(s,a or s)]
            for ip,p in enumerate(P if a is None else P[:2]+P[-1:]):
                pos=[i/(m-1.) for i in range(m)] if p is None else list(p)
                d={'colors':cols,'positions':p}
                before=repr((cols,p))
                cm=PF.make_colormap(cols) if p is None else PF.make_colormap(cols,values=p)
                ck.case(1,int(len(set(s))>1)); ck.expect(repr((cols,p))==before,'modified',d)
                if not check(ck,cm,cols,pos,d,'map'): return
        # containers
        for f in (list,np.array,lambda q: [np.array(x) for x in q],tuple):
            for v in (list,np.array):
                if m==2 or th or s[0]!=s[1]:
                    p=P[-1]; cols=list(s); ck.case(1); cm=PF.make_colormap(f(cols),values=v(p)); check(ck,cm,cols,list(p),{'colors':cols,'positions':p,'container':str(f)},'container')
    pmap(ck,one,its)
    # long palettes
    for m in (6,9,16,17,24,33,64,100):
        cols=[tuple((.5+.5*np.sin(q*(i+1)+q)) for q in (1.,2.3,3.1)) for i in range(m)]; u=[i/(m-1.) for i in range(m)]; v=[t*t for t in u]
        for pos in (None,u,v):
            for c in (cols,[k+((i%5)/5.,) for i,k in enumerate(cols)]):
                d={'colors':c,'positions':pos}; ck.case(1,1); cm=PF.make_colormap(c) if pos is None else PF.make_colormap(c,values=pos); check(ck,cm,c,u if pos is None else pos,d,'long')
    # colors without white band have a jump when positions coincide: both sides kept
    c=[PAL[0],PAL[1],PAL[2],PAL[3]]; cm=PF.make_colormap(c,values=[0.,.5,.5,1.]); x=np.arange(cm.N)/(cm.N-1.); g=np.asarray(cm(np.arange(cm.N))); ck.case()
    ref=np.array([[(1-v/.5)*a+v/.5*b for a,b in zip(c[0],c[1])] if v<.5 else [(1-(v-.5)/.5)*a+(v-.5)/.5*b for a,b in zip(c[2],c[3])] for v in x])
    ck.close(g[:,:3],ref,'jump',{'positions':[0,.5,.5,1]},rtol=0,atol=1e-9)
    # refused: positions not spanning 0..1 or decreasing
    for p in ([.1,.5,1.],[0.,.5,.9],[0.,1.2,1.],[0.,.7,.3,1.]):
        cc=c[:len(p)]; ck.case()
        try: PF.make_colormap(cc,values=p)(.5)
        except Exception: pass
        else: ck.fail('accepted',{'positions':p})
    # speed colormap
    W=np.array([1.,1,1]); DB=np.array([63,63,153])/255.; LB=np.array([159,159,204])/255.; LG=np.array([158,204,170])/255.; LO=np.array([255,212,96])/255.; DR=np.array([138,42,93])/255.
    los=[0.,.2,.5,.7,.85,.89]+([.1,.3,.4,.6,.8,.875,-1.] if th else [])
    his=[1.002,1.01,1.05,1.1,1.4,2.]+([1.0011,1.02,1.2,1.3,3.,10.] if th else [])
    for lo in los:
        for hi in his:
            for al in (1,.5,0,1.,None):
                d={'range':[lo,hi],'alpha':al}
                cm,lev=PF.get_cmap(lo,hi) if al is None else PF.get_cmap(lo,hi,alpha=al)
                v=np.array([lo,.9,.95,.98,.999,1.,1.001,hi]); pos=((v-lo)/(hi-lo)).tolist(); a=1. if al is None else float(al)
                cols=[tuple(q)+(a,) for q in (DB,LB,LG,LO,W,W,W,DR)]; ck.case()
                check(ck,cm,cols,pos,d,'speed')
                lev=np.asarray(lev); ck.expect(abs(lev[0]-lo)<.006 and abs(lev[-1]-hi)<1e-12 and np.all(np.diff(lev)>=0),'levels',dict(d,levels=lev))
                # white at one, colored elsewhere (up to the resolution of the table)
                one=np.asarray(cm((1.-lo)/(hi-lo))); h=(hi-lo)/255
                ck.expect(np.all(np.abs(one[:3]-1)<=h/.019+h/(hi-1.001)*.9+1e-9),'white',dict(d,got=one))
    for c0 in (.95,.4,.8):
        a,b=PF.get_contours(c0); ck.case(); ck.expect(np.all(np.diff(a)>0) and np.all(np.diff(b)>0) and set(b)<=set(a),'contours',{'CT0':c0,'levels':a})
