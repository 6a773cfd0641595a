"""Article and coupling set-ups: flow, data and errors of the case asked for"""
import numpy as np, itertools, os, sys, types, tempfile, shutil, importlib.util
import matplotlib; matplotlib.use('Agg')
from common import pmap, quiet
from wt import Ref, Loading, Refused, query, fquery, WindTurbine, WindFarm
import wiz.article_blockage.helper_functions as H
def ctr(c,cut):
    r=np.linspace(0,1,100); return r,np.where(r<cut,c*r/cut if cut else c,c)
def ref_single(CT,HH,Lambda,Yaw,U0,Model,gt=None):
    y=np.radians(Yaw); r=Ref(1.,hub=(0,HH,0),es=(0,0,1),ev=(0,1,0),U0=(U0*np.sin(y),0,U0*np.cos(y)),Ground=HH<9,Model=Model)
    r.chi_user=y*(1+.3*(1-np.sqrt(1-CT)))
    few=Lambda<30; rr,C=ctr(CT,.1 if few else 0.); r.load(Loading(r=rr,Ct=C,Lambda=Lambda,nCyl=30 if few else 1))
    if gt is not None: r.cyl=[(1.,gt,None)]
    return r
def same(ck,got,X,Y,Z,r,key,d,U0):
    """ velocities (3 arrays or the ones present) at points """
    P=np.column_stack([np.ravel(np.broadcast_to(q,np.shape(X)).astype(float)) for q in (X,Y,Z)])
    want=r.u(P)
    for k,g in got:
        ck.expect(np.shape(g)==np.shape(X),key+':shape',dict(d,got=np.shape(g),expected=np.shape(X)))
        ck.close(np.ravel(g),want[:,k],key,dict(d,component=k),rtol=1e-7,scale=U0)
    ck.case(len(P),len(P))
X3=np.array([.31,-.72,1.6,.05,-2.3,3.1,.44]); Y3=np.array([.21,.53,-.37,-1.4,.66,.02,.11]); Z3=np.array([-.9,1.3,-3.4,.6,2.7,-.2,-5.])
AX=np.array([-6.,-2.5,-.4,.7,1.9]); RD0=np.array([-2.7,-1.3,-.6,.15,.8,1.6]); V1=np.array([-1.4,-.35,.2,.62,1.7]); V2=np.array([-4.,-1.1,-.3,.45,1.2,3.3])
def single(ck,it):
    CT,HH,Lam,Yaw,U0,Model,gt,how,hor=it; d=dict(zip(('CT','HH','Lambda','Yaw','U0','Model','gamma_t','how','horizontal'),it))
    kw=dict(U0=U0,gamma_t=gt,Model=Model); g=gt
    if how=='args': a=dict(CT=CT,HH=HH,Lambda=Lam,Horizontal=hor,Yaw=Yaw)
    else:
        A=H.OutputAD(); A.CT,A.HH,A.Lambda,A.Yaw,A.Horizontal,A.Vertical=CT,HH,Lam,Yaw,hor,not hor
        A.x=A.y=np.array([-1.,-.25,.2,1.]); A.z=np.array([-2.,.1,1.]); A.W=(U0*(.5+.03*np.arange(12))).reshape(3,4)
        a=dict(AD=A)
        # the data are the case: explicit arguments are ignored
        if how=='AD other': a.update(CT=.11,HH=4.,Lambda=8.,Horizontal=not hor,Yaw=5)
        if how=='match':
            a['MatchMidVel']=True
            if g is None: g=-2*(U0*np.cos(np.radians(Yaw))-A.W[1,2])
    r=ref_single(CT,HH,Lam,Yaw,U0,Model,g)
    refused=Model!='VC' and (r.chi!=0 or len(r.cyl)>1)
    try: V=H.setupModel(**a,**kw); V.fAxial(AX)
    except Exception as e:
        ck.expect(refused,'refused',dict(d,error=repr(e))); ck.case(1); return
    if not ck.expect(not refused,'not refused',d): return
    ck.expect((V.CT,V.HH,V.Lambda,V.Yaw,V.Horizontal)==(CT,HH,Lam,Yaw,hor),'settings',d)
    for sh in ((7,),(1,7),(7,1)): same(ck,list(enumerate(V.fU(X3.reshape(sh),Y3.reshape(sh),Z3.reshape(sh)))),X3.reshape(sh),Y3.reshape(sh)+HH,Z3.reshape(sh),r,'fU',d,U0)
    same(ck,list(enumerate(V.fAxial(AX))),0*AX,0*AX+HH,AX,r,'fAxial',d,U0)
    for z0 in (None,-2.5,.3):
        RD=RD0 if hor or HH>9 else RD0[RD0>-HH]      # above the ground
        u=V.fRadial(RD) if z0 is None else V.fRadial(RD,z0); z=0*RD+(z0 or 0.)
        if hor: same(ck,list(enumerate(u)),RD,0*RD+HH,z,r,'fRadial',d,U0)
        else: same(ck,list(enumerate(u)),0*RD,RD+HH,z,r,'fRadial',d,U0)
    a,b,u,w=V.fHorz(V1,V2); gx,gz=np.meshgrid(V1,V2)
    ck.close(a,gx,'fHorz:coordinates',d); ck.close(b,gz,'fHorz:coordinates',d); same(ck,[(0,u),(2,w)],gx,0*gx+HH,gz,r,'fHorz',d,U0)
    a,b,v,w=V.fVert(V1,V2); ck.close(a,gx,'fVert:coordinates',d); ck.close(b,gz,'fVert:coordinates',d); same(ck,[(1,v),(2,w)],0*gx,gx+HH,gz,r,'fVert',d,U0)
def farm_ref(pos,CTs,f,Model='VC',gnd=None):
    """ sum of single turbines, wind 1 along x, z vertical, R=.5 """
    L=[]
    for p,c in zip(pos,CTs):
        r=Ref(.5,hub=p,es=(1,0,0),ev=(0,0,1),U0=(1,0,0),Ground=gnd,Model=Model); r.load(Loading(Ct=float(c),gamma_t_Ct=f)); L.append(r)
    return L
def fu(L,P): return sum(r.u(P,only_ind=True) for r in L)+np.array([1.,0,0])
FUN=[None,lambda c:-.9*c,lambda c:H.gamma_CT_fun(c,.3,.1,.05,.02)]
PF=np.array([[-2.3,.1,.2],[1.2,.8,.31],[3.3,-1.7,.9],[-.6,2.2,1.4],[7.1,.15,.77]])
def farms(ck,it):
    kind,a,HH,kf=it; f=FUN[kf]; d={'kind':kind,'layout':a,'hub height':HH,'function':kf}
    ff=None if f is None else (lambda c:np.array(c)*0+f(c))
    if kind=='grid':
        (nx,ny),S,Model,perm=a; n=nx*ny
        C=(np.array([.15,.4,.62,.8,.9,.33,.5,.71,.27])[np.roll(np.arange(9),perm)][:n]).reshape(nx,ny)
        F=H.VCFarmFromFloris(C.copy(),HH,S,gamma_t_Ct=f,Model=Model); pos=[];ct=[]
        for i in range(ny):
            for j in range(nx): pos.append((i*S,(j-nx//2)*S,HH)); ct.append(C[j,i])
        L=farm_ref(pos,ct,ff,Model,HH<10)
        ck.expect(len(F)==n,'number of turbines',d)
        # turbines are the ones of the grid, each with its own thrust, in any order
        got=sorted((tuple(np.round(np.ravel(W.r_hub),9)),) for W in F); ck.expect(got==sorted((tuple(np.round(np.array(p,float),9)),) for p in pos),'positions',dict(d,got=got))
        P=PF*np.array([S,S,1.])/2+np.array([0,0,HH]); ck.case(2*len(P),2*len(P))
        ck.close(fquery(F,P,U0=[1,0,0]),fu(L,P),'grid farm',dict(d,CT=C.tolist()),rtol=1e-9,scale=1.)
        for W in F:
            k=int(np.argmin([np.linalg.norm(np.ravel(W.r_hub)-np.array(p)) for p in pos])); ck.close(query(W,P),L[k].u(P),'turbine of the grid',dict(d,CT=C.tolist(),turbine=k),rtol=1e-9,scale=1.)
    else:
        pos,ct=a; n=len(pos); pos=np.array(pos,float)+np.array([0,0,HH])
        xyz=np.zeros((len(PF),3,2)); xyz[:,:,0]=PF+np.array([0,0,HH]); xyz[:,:,1]=PF*np.array([1,-1,1.])+np.array([.2,.3,HH])
        D={'xyz_wt':pos,'ct_wt':np.array(ct),'xyz':xyz,'uvw':0*xyz}
        um,ut=H.ADFarm2VCFarm(D,'name',gamma_t_Ct=f); L=farm_ref(pos,ct,ff,'VC',HH<10); ck.case(2*len(PF),2*len(PF))
        ck.close(um,fu(L,xyz[:,:,0])[:,0],'AD farm mid',d,rtol=1e-9,scale=1.)
        ck.close(ut,fu(L,xyz[:,:,1])[:,0] if n>1 else 0*um,'AD farm top',d,rtol=1e-9,scale=1.)
def poly(a,b,k): return k+1.+.3*a-.2*b*k+.05*a*b+.01*(k+1)*a**3-.02*b**2*a+.004*b**3
def scratch(): return tempfile.mkdtemp(prefix='c31_')
def write(root,name,HH,hor,val,x=None,z=None,y=None):
    """ data file of a plane; val(a,z,k) gives component k """
    D=os.path.join(root,'data'); G=os.path.join(D,'Ground'); os.makedirs(G,exist_ok=True); os.makedirs(os.path.join(root,'run'),exist_ok=True)
    import scipy.io
    if HH>9:
        X,Z=np.meshgrid(x,z); scipy.io.savemat(os.path.join(D,'AD_'+name+'.mat'),dict(x=X,z=Z,u=val(X,Z,0),v=val(X,Z,1),w=val(X,Z,2)))
        return
    sd='Horizontal' if hor else 'Vertical'
    sv=lambda f,a: np.savetxt(os.path.join(G,f),a,delimiter=',',fmt='%.17g')
    if hor: A,Z=np.meshgrid(x,z); sv('Horizontal_X.csv',x); sv('Horizontal_Z.csv',z)
    else: A,Z=np.meshgrid(y,z); sv('Vertical_Z.csv',z); sv('Vertical_Y_HH%d.csv'%(20 if HH==2. else 15),y)
    for k,n in enumerate(('U','V','W','Om')): sv('%s_%s_%s.csv'%(name,sd,n),val(A,Z,k))
xs=np.array([-2.,-1.3,-.6,-.1,.3,.9,1.7,2.4]); zs=np.array([-5.,-3.,-1.6,-.7,.05,.4,1.1,2.,3.]); ys=np.array([-1.5,-1.,-.4,.05,.6,1.2,2.])
def planes(ck,it):
    CT,HH,Lam,Yaw,hor=it; d=dict(zip(('CT','HH','Lambda','Yaw','horizontal'),it)); root=scratch(); cwd=os.getcwd()
    try:
        far=HH>9; h=9.9 if far else HH; l=99 if Lam>20 else Lam
        nm=lambda c:'CT0%d_HH%02d_Lambda%02d_Yaw%02d'%(round(c*100),round(h*10),l,-Yaw)
        for c in (CT-.01,CT,CT+.01):      # neighbouring cases are there too
            for lam in (l,):
                write(root,nm(c),h,hor,lambda a,b,k,c=c:poly(a,b,k)+10*(c-CT),xs,zs,ys)
        os.chdir(os.path.join(root,'run'))
        avail=(far and hor and (Yaw==0 or l==99)) or (not far and Yaw==0 and l in (6,99))
        A=H.loadPlane(CT,HH,Lam,hor,Yaw); ck.case(1,1)
        if not avail: ck.expect(A is None,'unavailable',d); return
        a=xs if hor else ys; GX,GZ=np.meshgrid(a,zs); U=[poly(GX,GZ,k) for k in range(3)]
        ck.expect((A.CT,A.Horizontal,A.Vertical,A.Yaw)==(CT,hor,not hor,Yaw),'settings of the plane',d)
        for k,q in enumerate((A.U,A.V,A.W)): ck.close(q,U[k],'loaded values',dict(d,component=k),rtol=1e-12,scale=1.)
        ck.close(A.X if hor else A.Y,GX,'loaded coordinates',d,rtol=1e-12,scale=1.); ck.close(A.Z,GZ,'loaded coordinates',d,rtol=1e-12,scale=1.)
        # planes
        for f,ok,kk in ((A.fHorz,hor or far,0 if hor else 1),(A.fVert,(not hor) or far,1 if not hor else 0)):
            try: o=f(a,zs)
            except Exception as e: ck.expect(not ok,'plane refused',d); continue
            if not ck.expect(ok,'plane not refused',d): continue
            ck.close(o[0],GX,'plane',d); ck.close(o[1],GZ,'plane',d); ck.close(o[2],U[kk],'plane',d); ck.close(o[3],U[2],'plane',d)
        i0=int(np.argmin(np.abs(a))); k0=int(np.argmin(np.abs(zs)))
        ck.close(A.fCenter(),U[2][k0,i0],'center',d)
        zz=np.array([-4.,-1.6,.2,2.9]); 
        for k,q in enumerate(A.fAxial(zz)): ck.close(q,np.interp(zz,zs,U[k][:,i0]),'axial',dict(d,component=k))
        rr=np.array([-1.2,.05,.7,1.9])
        for z0 in zs:
            kz=int(np.argmin(np.abs(zs-z0)))
            for k,q in enumerate(A.fRadial(rr,z0)): ck.close(q,np.interp(rr,a,U[k][kz]),'radial',dict(d,component=k,z=z0))
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore'); A.setupInterpolants()
            xa=np.array([[-1.1,.2,.77],[1.2,-.33,1.9]]); za=np.array([[.6,-4.1,2.2],[-.2,1.3,-2.]])
            x,y=(xa,0*xa) if hor else (0*xa,xa)
            u,v,w=A.fU(x,y,za); u2,v2,w2=A.fW(x,y,za); ck.case(12,12)
            for g,k in ((w,2),(w2,2),(u if hor else v,0 if hor else 1)): ck.close(g,poly(xa,za,k),'interpolated',dict(d,component=k),rtol=1e-9,scale=1.)
            for g in (v if hor else u,u2,v2): ck.close(g,0*xa,'interpolated zero',d)
        # model of that case
        V=H.setupModel(A); r=ref_single(CT,A.HH,A.Lambda,Yaw,1,'VC'); same(ck,list(enumerate(V.fU(X3,Y3,Z3))),X3,Y3+A.HH,Z3,r,'model of the data',d,1.)
        V=H.setupModel(A,MatchMidVel=True) if l==99 else None
        if V is not None:
            r=ref_single(CT,A.HH,A.Lambda,Yaw,1,'VC',-2*(np.cos(np.radians(Yaw))-U[2][k0,i0])); same(ck,list(enumerate(V.fU(X3,Y3,Z3))),X3,Y3+A.HH,Z3,r,'matched model',d,1.)
    finally: os.chdir(cwd); shutil.rmtree(root)
def errors(ck,it):
    """ relative errors of the models with respect to data made of one of the models """
    CT,HH,hor,src,match,rho_=it; d=dict(zip(('CT','HH','horizontal','data','matched','polar'),it)); root=scratch(); cwd=os.getcwd()
    try:
        x=np.linspace(-6.,6.,241); z=np.linspace(-6.,-.8,209); z=np.append(z,[0.]); gt=-(1-np.sqrt(1-CT))
        import warnings
        def val(a,b,k):
            r=ref_single(CT,9.9 if HH>9 else HH,np.inf,0,1,src); P=np.column_stack((a.ravel(),0*a.ravel()+r.hub[1],b.ravel())) if hor else np.column_stack((0*a.ravel(),a.ravel()+r.hub[1],b.ravel()))
            return (r.u(P)[:,k] if k<3 else P[:,0]*0).reshape(a.shape)
        y=x[x>-1.4] if not hor and HH<9 else x
        write(root,'CT0%d_HH%02d_Lambda99_Yaw00'%(round(CT*100),99 if HH>9 else round(HH*10)),HH,hor,val,x,z,y)
        os.makedirs(os.path.join(root,'data','ProjCorr'))
        x1=np.linspace(-6,0,30); y1=np.linspace(-6,6,25); z1=(9.9 if HH>9 else HH)+np.linspace(-6,6,31); hh=9.9 if HH>9 else HH
        A,B,C=np.meshgrid(x1,y1,z1,indexing='ij'); gp=1-.1*np.exp(-.05*(A**2+B**2+2*(C-hh)**2))
        np.savez(os.path.join(root,'data','ProjCorr','Layout1x1_CT0%02dS.npz'%round(CT*100)),x1=x1,y1=y1,z1=z1,u=gp,v=gp*0,w=gp*0)
        os.chdir(os.path.join(root,'run'))
        ang=np.array([0.,.4,.9]); off=np.array([0.,.3,1.2]); rho=np.array([-1.4,-2.5,-4.2])
        M=[{'name':n} for n in ('VC','VD','SS','AD')]
        if hor or HH<9: M.append({'name':'GP'})
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            RE,MRE=H.getModelsRelErr(ang,off,rho,rho_,CT,M,match,HH=HH,Lambda=np.inf,Yaw=0,Horizontal=hor,suffix_GP='S',HH_GP=hh)
        for t,(th,ro) in enumerate(zip(ang,off)):
            Z=rho*np.cos(th) if rho_ else rho; a=-rho*np.sin(th) if rho_ else 0*rho+ro
            P=np.column_stack((a,0*a+hh,Z)) if hor else np.column_stack((0*a,a+hh,Z))
            k=int(np.argmin(np.abs(z))); yy=y if not hor else x; ic=int(np.argmin(np.abs(yy)))
            S=ref_single(CT,hh,np.inf,0,1,src); w0=S.u(P)[:,2]; g=None
            if match:
                q=np.array([[yy[ic],hh,z[k]]]) if hor else np.array([[0,yy[ic]+hh,z[k]]]); g=-2*(1-S.u(q)[0,2])
            for n,m in enumerate(M):
                ck.case(len(rho),len(rho))
                if m['name']=='AD': want=w0
                elif m['name']=='GP': want=1-.1*np.exp(-.05*(Z**2+2*a**2*(not hor)+a**2*hor))
                else: want=ref_single(CT,hh,np.inf,0,1,m['name'],g).u(P)[:,2]
                ck.close(RE[n][t],(want-w0)/w0*100,'relative error',dict(d,model=m['name'],direction=t),rtol=0,scale=1e12*(1e-3 if m['name']!='GP' else .02)) if False else \
                    ck.expect(np.all(np.abs(RE[n][t]-(want-w0)/w0*100)<=(2e-3 if m['name']!='GP' else .05)),'relative error',dict(d,model=m['name'],direction=t,got=RE[n][t],expected=(want-w0)/w0*100))
        for n in range(len(M)): ck.close(MRE[n],np.mean(RE[n],axis=0),'mean relative error',d)
    finally: os.chdir(cwd); shutil.rmtree(root)
def small(ck):
    v=[-2.,-.7,.1,.4,3.]
    for n in (1,2,3,4):
        for a in itertools.permutations(v,n):
            for x in (-3.,-.71,.2,.39,9.):
                ck.case(1,1); b,i=H.find_nearest(list(a) if n%2 else np.array(a),x); m=min(abs(q-x) for q in a)
                ck.expect(abs(abs(b-x)-m)<1e-15 and a[i]==b,'find_nearest',{'array':a,'value':x,'got':(b,i)})
    for p in itertools.product((0.,.7,-.2),repeat=4):
        for x in (0.,.3,.95,np.array([.2,.8])):
            ck.case(1,1); ck.close(H.gamma_CT_fun(x,*p),-2*sum(c*np.asarray(x,float)**(k+1) for k,c in enumerate(p)),'gamma_CT_fun',{'x':x,'p':p},scale=1.)
    X=np.linspace(-6,2,801)
    for a,b,k in itertools.product((.2,.5),(.9,1.,1.1),(1.,7.)):
        U1=k*(1-a*(1+X/np.sqrt(1+X**2))/2); U2=b*U1; d={'a':a,'ratio':b,'scale':k}; ck.case(4,3)
        for f in (H.relerrinduction,lambda *q:H.relerrinduction(*q,x1=-3.,x2=-.5),H.relerrinduction_mid,H.relerrinduction_25): ck.close(f(X,U1,U2),abs(b-1)*100,'relative error of profiles',d,rtol=1e-9,scale=1e-3)
        # difference at one place only
        for c,f in ((0.,H.relerrinduction_mid),(-2.5,H.relerrinduction_25)):
            U3=U1*(1+.1*(np.abs(X-c)<.3)); ck.close(f(X,U1,U3),10.,'relative error at a station',dict(d,station=c),rtol=1e-9,scale=1e-3)
            U3=U1*(1+.1*(np.abs(X-c)>.3)); ck.close(f(X,U1,U3),0.,'relative error at a station',dict(d,station=c),rtol=1e-9,scale=1e-3)
    # plotted planes
    import matplotlib.pyplot as plt
    class D: pass
    for na,nz in ((2,3),(4,4),(5,3)):
        for comp,hor in itertools.product(('Axial','Speed','Vorticity'),(True,False)):
            a=np.linspace(-1,1.3,na); z=np.linspace(-2,1,nz); A,Z=np.meshgrid(a,z); P=[1+poly(A,Z,k)**2 for k in range(3)]
            o=D(); o.U,o.V,o.W=P; o.X=o.Y=A; o.Z=Z; o.O=poly(A,Z,3)**3; d={'shape':(na,nz),'component':comp,'horizontal':hor}
            lat=P[0] if hor else P[1]; want=P[2] if comp=='Axial' else o.O if comp=='Vorticity' else np.sqrt(lat**2+P[2]**2)
            for lim in (None,(.3,1.4)):
                for wh in ('plane','vert')[:1 if comp=='Vorticity' else 2]:
                    fig,ax=plt.subplots(); kw={} if lim is None else dict(minSpeed=lim[0],maxSpeed=lim[1])
                    if wh=='plane': im,_,_=H.plotPlane(o,ax=ax,component=comp,Horizontal=hor,**kw)
                    else: im,_,_=H.plotPlaneVert(A,Z,lat,P[2],ax=ax,component=comp,**kw)
                    ck.case(na*nz,na*nz); C=im.get_coordinates(); val=np.array(im.get_array(),float)
                    sh=(C.shape[0]-1,C.shape[1]-1); val=val.reshape(sh); xc=(C[1:,1:]+C[:-1,:-1])[...,0]/2; yc=(C[1:,1:]+C[:-1,:-1])[...,1]/2
                    # abscissa: axial coordinate, ordinate: lateral
                    for i in range(sh[0]):
                        for j in range(sh[1]):
                            q=np.argmin((Z-xc[i,j])**2+(A-yc[i,j])**2); ck.close(val[i,j],want.ravel()[q],'plotted value',dict(d,function=wh,point=(xc[i,j],yc[i,j])),rtol=1e-12)
                    w=(want.min(),want.max()) if lim is None else lim; ck.close(np.array(im.get_clim()),np.array(w),'color range',dict(d,function=wh)); plt.close(fig)
            # contours: at the levels asked for, on the data
            if comp=='Vorticity': continue
            lev=[want.min()+q*np.ptp(want) for q in (.15,.4,.45,.8)]
            for wh in ('plane','vert'):
                fig,ax=plt.subplots(); kw=dict(ax=ax,component=comp,levelsContour=lev,levelsLines=lev[1:3],minSpeed=want.min(),maxSpeed=want.max())
                im,ax2,_=H.plotPlane(o,Horizontal=hor,**kw) if wh=='plane' else H.plotPlaneVert(A,Z,lat,P[2],**kw); ck.case(2,2); dd=dict(d,function=wh,levels=lev)
                ck.expect(ax2 is ax and im.axes is ax and np.allclose(im.levels,lev,rtol=1e-12),'contour levels',dd); ck.expect(np.allclose(im.zmin,want.min()) and np.allclose(im.zmax,want.max()),'contour data',dd)
                ext=[b for b in (ax.dataLim.x0,ax.dataLim.x1,ax.dataLim.y0,ax.dataLim.y1)]; ck.expect(np.allclose(ext,[z[0],z[-1],a[0],a[-1]]),'contour extent',dict(dd,got=ext)); plt.close(fig)
            # missing data are not shown
            if comp=='Axial':
                bad=P[2].copy(); bad[1,0]=np.nan; o2=D(); o2.__dict__.update(o.__dict__); o2.W=bad; fig,ax=plt.subplots(); im,_,_=H.plotPlane(o2,ax=ax,Horizontal=hor,minSpeed=0.,maxSpeed=2.)
                m=np.ma.getmaskarray(im.get_array()); ck.case(1,1); ck.expect(m.sum()==(1 if m.size==bad.size else m.sum()) and np.array_equal(im.get_clim(),(0.,2.)),'missing data',dict(d,masked=int(m.sum()))); plt.close(fig)
def lines(ck):
    """ lines of the farms computed by an actuator disk: the ones of the case asked for """
    root=scratch(); cwd=os.getcwd()
    try:
        os.makedirs(os.path.join(root,'data')); os.makedirs(os.path.join(root,'run')); os.chdir(os.path.join(root,'run')); D={}; X=np.linspace(-5.,1.,25)
        for k,(S,lay,CT,HH) in enumerate(itertools.product((0,4,12),('1x1','2x3','3x1','3x3'),(.2,.57,.64,.95),(1.5,9.99))):
            if (S==0)!=(lay=='1x1'): continue
            nr,nc=[int(q) for q in lay.split('x')]; n=nr*nc; xyz=np.zeros((len(X),3,2)); xyz[:,0,0]=X; xyz[:,0,1]=2*X+1; uvw=np.zeros((len(X),3,2)); uvw[:,0,0]=1-.01*k+.02*X; uvw[:,0,1]=2-.01*k+.03*X
            pos=np.array([(j*S,i*4.,0.) for i in range(nr) for j in range(nc)]) if S else np.zeros((1,3))
            D['d%d_%s_ct%.2f_hh%.2f'%(S,lay,CT,HH)]=dict(xyz=xyz,uvw=uvw,xyz_wt=pos,ct_wt=CT+.01*np.arange(n))
        H.save_obj(D,'../data/CFD_AD_Farm_lines_All'); L=H.OutputADLines(); ck.expect(set(L)==set(D),'farm lines',{'cases':len(L)})
        for S,lay,CT,HH in itertools.product((0,4,12),('1x1','2x3','3x1','3x3'),(.2,.57,.64,.95),(1.5,9.99)):
            if S==0 and lay!='1x1': continue
            key='d%d_%s_ct%.2f_hh%.2f'%(0 if lay=='1x1' else S,lay,CT,HH); w=D[key]; d={'S':S,'layout':lay,'CT':CT,'HH':HH}; nr,nc=[int(q) for q in lay.split('x')]
            for s in (S,float(S)):
                A,x,u=L.getSim(s,lay,CT,HH); ck.case(4,4); ck.expect(np.array_equal(x,w['xyz'][:,0,0]) and np.array_equal(u,w['uvw'][:,0,0]) and np.array_equal(A['ct_wt'],w['ct_wt']),'farm lines:mid',d)
                ck.close(L.get25(s,lay,CT,HH),np.interp(-2.5,w['xyz'][:,0,0],w['uvw'][:,0,0]),'farm lines:2.5',d)
                if lay!='1x1': A,x,u=L.getSimTop(s,lay,CT,HH); ck.expect(np.array_equal(x,w['xyz'][:,0,1]) and np.array_equal(u,w['uvw'][:,0,1]),'farm lines:top',d)
            x,C=L.getSimCTs(S,lay,CT,HH); ck.expect(np.shape(C)==(nc,nr) and np.array_equal(np.ravel(C),w['ct_wt']),'farm lines:thrusts',d)
            if lay!='1x1': ck.close(x,np.arange(nc)*1.,'farm lines:positions',d)
            for bad in ((S+.5,lay,CT,HH),(S,'9x9',CT,HH)):
                if lay=='1x1' and bad[1]==lay: continue
                try: L.getSim(*bad); ck.fail('farm lines:absent case',dict(d,asked=bad))
                except Exception: pass
            ck.expect(all(np.array_equal(L[key][q],w[q]) for q in w),'farm lines:data modified',d)
    finally: os.chdir(cwd); shutil.rmtree(root)
def coupling(ck):
    """ planes written and read back; floris is replaced by an empty stand-in """
    f=os.path.join(os.environ.get('VERIF_REPO','/repo'),'coupling_examples/helper_functions.py')
    if not os.path.exists(f): return
    old={k:sys.modules.get(k) for k in ('floris','floris.tools','floris.utilities')}
    fl=types.ModuleType('floris'); to=types.ModuleType('floris.tools'); ut=types.ModuleType('floris.utilities'); ut.Vec3=lambda *a:a; fl.tools=to; fl.utilities=ut
    sys.modules.update({'floris':fl,'floris.tools':to,'floris.utilities':ut}); root=scratch()
    try:
        sp=importlib.util.spec_from_file_location('coupling_hf',f); M=importlib.util.module_from_spec(sp); sp.loader.exec_module(M)
        x=np.array([1.,2,4]); y=np.array([-1.,3.]); u=np.arange(6.).reshape(2,3)+1; v=-u**2
        for form,U0,pre in itertools.product(('args','tuple'),(None,4.,1.),('a_','b.c','sub/../d')):
            os.makedirs(os.path.join(root,'sub'),exist_ok=True); b=os.path.join(root,pre); c=[q.copy() for q in (x,y,u,v)]
            if form=='args': M.savePlane(*c,base=b,U0=U0)
            else: M.savePlane(tuple(c)+(None,),b,U0=U0)
            k=U0 or 1.; o=M.loadPlane(b); ck.case(4,4); d={'form':form,'U0':U0,'base':pre}
            for n,(g,w) in enumerate(zip(o,(x,y,u/k,v/k))): ck.close(g,w,'written and read',dict(d,array=n))
            for g,w in zip(c,(x,y,u,v)): ck.expect(np.array_equal(g,w),'arrays modified',d)
        # two planes next to each other
        M.savePlane(x,y,u,v,base=os.path.join(root,'p1')); M.savePlane(2*x,y,3*u,v,base=os.path.join(root,'p2'),U0=2.)
        for n,(g,w) in enumerate(zip(M.loadPlane(os.path.join(root,'p1')),(x,y,u,v))): ck.close(g,w,'two planes',{'array':n})
        for n,(g,w) in enumerate(zip(M.loadPlane(os.path.join(root,'p2')),(2*x,y,1.5*u,v/2))): ck.close(g,w,'two planes',{'array':n})
        # objects
        for o in ({'a':1,'b':[2,3]},[1,'x'],x):
            n=os.path.join(root,'obj.v1'); H.save_obj(o,n); g=H.load_obj(n); ck.case(1,1); ck.expect(np.array_equal(g,o) if isinstance(o,np.ndarray) else g==o,'object written and read',{'object':str(o)})
    finally:
        shutil.rmtree(root)
        for k,m in old.items():
            if m is None: sys.modules.pop(k,None)
            else: sys.modules[k]=m
def one(ck,it): 
    with quiet(): {'single':single,'farms':farms,'planes':planes,'errors':errors}[it[0]](ck,it[1])
def run(ck):
    ck.level='exploration'
    ck.rule='case = velocity at one point, plane value, error or file of one set-up; non-trivial = compared value not identically zero'
    with quiet(): small(ck); lines(ck); coupling(ck)
    th=ck.thorough; its=[]
    for CT,HH,Lam,Yaw,U0 in itertools.product((.2,.4,.95) if not th else (.2,.4,.57,.95,1.),(1.5,2.,8.9,9.,9999),(6,25.,30,99,np.inf) if not th else (2.,6,29.9,30,np.inf),(0,-30,15) if not th else (0,-30,15,40),(1,8.)):
        few=Lam<30
        for Model,gt,how,hor in itertools.product(('VC','VD','SS','VCFF'),(None,-.37),('args','AD','AD other','match'),(True,False)):
            if few and (gt is not None or how=='match'): continue
            if th and few and (U0!=1)!=(HH in (2.,9.)): continue
            if th and Model!='VC' and (U0!=1)!=(HH in (2.,9.)): continue
            if not th:
                if Model!='VC' and (HH in (2.,9.) or Lam in (25.,30,99) or CT==.2 or how=='AD'): continue
                if few and (U0!=1 or (hor and how!='args') or CT==.2 or HH in (2.,9.) or (Lam==25. and (Yaw or HH!=1.5))): continue
                if not few and ((U0!=1)!=(HH in (2.,9.)) or (Lam==99 and HH!=1.5)): continue
                if Model=='VC' and Yaw and hor==(how!='args'): continue
            its.append(('single',(CT,HH,Lam,Yaw,U0,Model,gt,how,hor)))
    n0=len(its)
    for sh in itertools.product((1,2,3),repeat=2):
        for S,Model,perm,HH,kf in itertools.product((2.,5.),('VC','VCFF','VD','SS'),(0,4),(1.,9.9,10.,500.),(0,1,2)):
            if Model!='VC' and (S!=5. or kf==1 or HH in (9.9,10.)) and not th: continue
            if not th and kf and HH in (9.9,500.): continue
            its.append(('farms',('grid',(sh,S,Model,perm),HH,kf)))
    lay=[(0,0,0)],[(0,0,0),(4,0,0)],[(4,1,0),(0,0,0)],[(0,0,0),(0,3,0),(5,0,0)],[(0,0,0),(0,3,0),(5,0,0),(5,3,0)]
    for p,HH,kf in itertools.product(lay,(1.,9.9,10.,500.),(0,1,2)):
        for ct in itertools.permutations((.2,.5,.9,.75)[:len(p)]): its.append(('farms',('AD',(p,ct),HH,kf)))
    CTS=[c/100 for c in range(10,100)]
    for c in CTS: its.append(('planes',(c,9999,np.inf,0,True)))
    for CT,HH,Lam,Yaw,hor in itertools.product((.4,.57,.95),(1.5,2.,9999),(6,10,20,21,99,np.inf),(0,-30,-5),(True,False)): its.append(('planes',(CT,HH,Lam,Yaw,hor)))
    for CT,HH,hor,src,match,r in itertools.product((.4,.95),(1.5,9999),(True,False),('VC','SS'),(False,True),(True,False)):
        if HH>9 and not hor: continue
        its.append(('errors',(CT,HH,hor,src,match,r)))
    ck.extra['set-ups']={'single':n0,'all':len(its)}; ck.sample({'CT':.4,'HH':1.5})
    import random; idx=np.argsort([(i*7919)%len(its) for i in range(len(its))],kind='stable'); its=[its[i] for i in idx]    # spread the expensive ones
    pmap(ck,one,its)

