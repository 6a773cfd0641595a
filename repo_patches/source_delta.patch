From bfc4897f47713b8de602a0d90fcddb72abf51b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 01/43] fix: WindTurbine.compute_u reused the wake skew angle
 of its first call after yaw/wind changes

---
 wiz/WindTurbine.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 6405d68..801e1f6 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -240,6 +240,22 @@ class WindTurbine:
         return points
 
 
+    @property
+    def chi(self):
+        """ Wake skew angle [rad]. Value prescribed by the user if any (see `set_chi`), otherwise,
+            the angle between the current wind direction and the current yaw position """
+        if self._chi is not None:
+            return self._chi
+        # TODO TODO chi needs induction effect!
+        # Detecting whether our vertical convention match
+        T_c2g    = np.dot(self.T_wt2g,self.T_c2wt)
+        e_vert_c = np.dot(T_c2g.T , self.e_vert_g)
+        return np.sign(e_vert_c.ravel()[1])* (self.yaw_wind-self.yaw_pos)
+
+    @chi.setter
+    def chi(self,chi):
+        self._chi=chi
+
     def set_chi(self,chi):
         self.chi=chi
     
@@ -269,18 +285,14 @@ class WindTurbine:
         # Control points in "Cylinder coordinate system" (rotation only)
         T_c2g=np.dot(self.T_wt2g,self.T_c2wt)
         Xc,Yc,Zc = transform_T(T_c2g, Xg,Yg,Zg)
-        # Detecting whether our vertical convention match, and define chi
-        e_vert_c = np.dot(T_c2g.T , self.e_vert_g)
-        if self.chi is None:
-            # TODO TODO chi needs induction effect!
-            self.chi= np.sign(e_vert_c.ravel()[1])* (self.yaw_wind-self.yaw_pos)
+        chi = self.chi
         if self.gamma_t is None:
             raise Exception('Please set loading with `update_loading` before calling `compute_u`')
 
         uxc = np.zeros(Xg.shape)
         uyc = np.zeros(Xg.shape)
         uzc = np.zeros(Xg.shape)
-        m=np.tan(self.chi)
+        m=np.tan(chi)
         # Cylinder position in "Cylinder coordinate system) (rotation only)
         Xcyl, Ycyl, Zcyl = transform_T(T_c2g,np.array([self.r_hub[0]]), np.array([self.r_hub[1]]),  np.array([self.r_hub[2]]))
         # Translate control points such that origin is at rotor center. NOTE: not all routines use this
@@ -296,7 +308,7 @@ class WindTurbine:
         # --- Root vortex influence
         if root and  (self.Gamma_r is not None) and self.Gamma_r!=0:
             for Y in Ylist:
-                if np.abs(self.chi)>1e-7:
+                if np.abs(chi)>1e-7:
                     uxc0,uyc0,uzc0 = svc_root_u(Xc0,Y,Zc0,Gamma_r=self.Gamma_r,m=m,polar_out=False)
                 else:
                     uxc0,uyc0,uzc0 =  vc_root_u(Xc0,Y,Zc0,Gamma_r=self.Gamma_r,polar_out=False)
@@ -309,7 +321,7 @@ class WindTurbine:
             # --- Tangential and longi - ONE Cylinder only
             for iY,Y in enumerate(Ylist):
                 if tang and (self.gamma_t!=0):
-                    if np.abs(self.chi)>1e-7:
+                    if np.abs(chi)>1e-7:
                         if Model =='VC':
                             uxc0,uyc0,uzc0 = svc_tang_u(Xc0,Y,Zc0,gamma_t=self.gamma_t,R=self.R,m=m,polar_out=False)
                         else:
@@ -331,7 +343,7 @@ class WindTurbine:
                     uyc += uyc0
                     uzc += uzc0
                 if longi and (self.gamma_l is not None) and self.gamma_l!=0 :
-                    if np.abs(self.chi)>1e-7:
+                    if np.abs(chi)>1e-7:
                         if Model =='VC':
                             uxc0,uyc0,uzc0 = svc_longi_u(Xc0,Y,Zc0,gamma_l=self.gamma_l,R=self.R,m=m,polar_out=False)
                         else:
@@ -358,7 +370,7 @@ class WindTurbine:
                 vR      = self.r.reshape((nWT,nr))
                 vm       = m* np.ones((nWT,nr))
                 if tang:
-                    if np.abs(self.chi)>1e-7:
+                    if np.abs(chi)>1e-7:
                         uxc0,uyc0,uzc0 = svcs_tang_u(Xc,Yc,Zc,gamma_t=gamma_t,R=vR,m=vm,Xcyl=Xcyl,Ycyl=Ycyl,Zcyl=Zcyl,Ground=ground)
                     else:
                         uxc0,uyc0,uzc0 = vcs_tang_u (Xc,Yc,Zc,gamma_t=gamma_t,R=vR    ,Xcyl=Xcyl,Ycyl=Ycyl,Zcyl=Zcyl, Ground=ground)
@@ -366,7 +378,7 @@ class WindTurbine:
                     uyc += uyc0
                     uzc += uzc0
                 if longi and (self.gamma_l is not None):
-                    if np.abs(self.chi)>1e-7:
+                    if np.abs(chi)>1e-7:
                         uxc0,uyc0,uzc0 = svcs_longi_u(Xc,Yc,Zc,gamma_l=gamma_l,R=vR,m=vm,Xcyl=Xcyl,Ycyl=Ycyl,Zcyl=Zcyl, Ground=ground)
                     else:
                         uxc0,uyc0,uzc0 = vcs_longi_u (Xc,Yc,Zc,gamma_l=gamma_l,R=vR      ,Xcyl=Xcyl,Ycyl=Ycyl,Zcyl=Zcyl, Ground=ground)
-- 
2.43.0


From 8e8da1114aa24cc702328fc00461479870467089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 02/43] fix: WindTurbine kept references to caller arrays (hub
 position, wind, axes, radii)

---
 wiz/WindTurbine.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 801e1f6..40f80f3 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -89,9 +89,9 @@ class WindTurbine:
         self.Model=Model
 
     def set_yaw0_coord(self,e_shaft_yaw0,e_vert):
-        self.e_shaft_g = np.asarray(e_shaft_yaw0).ravel().reshape(3,1)
+        self.e_shaft_g = np.array(e_shaft_yaw0).ravel().reshape(3,1)
         self.e_shaft_g0= self.e_shaft_g
-        self.e_vert_g  = np.asarray(e_vert).ravel().reshape(3,1)
+        self.e_vert_g  = np.array(e_vert).ravel().reshape(3,1)
         v_horz0 = self.e_shaft_g -np.dot(self.e_shaft_g.T,self.e_vert_g)
         self.e_horz_g = v_horz0/np.linalg.norm(v_horz0)
         self.e_FAST_z = self.e_vert_g
@@ -115,10 +115,10 @@ class WindTurbine:
         self.e_shaft_g=np.dot(self.T_wt2g , self.e_shaft_g0)
 
     def update_position(self,r_hub):
-        self.r_hub=np.asarray(r_hub).ravel().reshape(3,1)
+        self.r_hub=np.array(r_hub).ravel().reshape(3,1)
 
     def update_wind(self,U0_g):
-        self.U0_g = np.asarray(U0_g).ravel().reshape(3,1)
+        self.U0_g = np.array(U0_g).ravel().reshape(3,1)
 
     def update_loading(self,r=None,Ct=None,Gamma=None,Lambda=None,nCyl=1,gamma_t_Ct=None):
         """ 
@@ -155,6 +155,8 @@ class WindTurbine:
                 else:
                     Gamma = np.interp(vr0,r,Gamma)
             r=vr0
+        elif r is not None:
+            r=np.array(r)
 
         # Updating Lambda
         if Lambda is None:
-- 
2.43.0


From b6ab597abe3e2a73902109f959e4026523c24fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 03/43] fix: Solver functions modified, or returned, the arrays
 provided by the caller

---
 wiz/Solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index b1a6be4..09167fa 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -58,7 +58,7 @@ def CirculationFromPrescribedCt(vr_bar,vCt,Lambda,bSwirl):
                 res=sciopt.minimize_scalar(lambda k:np.abs(k*(1+k/(4*lambda_r**2))-Ct), bounds=[0,1.8], method='bounded')
                 vk[ir] = res.x
     else:
-        vk = vCt
+        vk = np.array(vCt) # NOTE: copy, the output should not refer to the input
     return vk
 
 
@@ -78,6 +78,7 @@ def InductionsFromCirculation_VC_Cont(vr_bar,lambda_r,k,bSwirl,method='analytica
     misc={}
     # Safety
     if lambda_r[0]==0:
+        lambda_r=np.array(lambda_r,dtype=float) # NOTE: copy, the input should not be modified
         lambda_r[0]=lambda_r[1]*0.01;
     # --- Finding Cylinders intensities
     if method.lower()=='analytical':
@@ -123,6 +124,7 @@ def WakeVorticityFromCirculation_Cont(r_cp,Gamma_cp,R,U0,Omega,bSwirl,method='an
     r_cp     = np.asarray(r_cp).ravel()
     Gamma_cp = np.asarray(Gamma_cp).ravel()
     if r_cp[0]==0:
+        r_cp=np.array(r_cp,dtype=float) # NOTE: copy, the input should not be modified
         r_cp[0]=r_cp[1]*0.5;
     # Non dimensional parameters
     k        = Omega*Gamma_cp/(np.pi*U0**2)
-- 
2.43.0


From 55dc7de6fa2ff3412d1ac751b22715441cee1ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 04/43] fix: Solver crashed (missing import, leftover
 breakpoint) instead of warning when cylinders do not enclose control points

---
 wiz/Solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index 09167fa..1ef07d4 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -11,6 +11,7 @@ from __future__ import division
 from __future__ import print_function
 # --- General
 import unittest
+import warnings
 import numpy as np
 import scipy.optimize as sciopt
 import scipy.integrate as sciint
@@ -172,7 +173,6 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
     # --- Checks
     if np.amax(r_cyl) < np.amax(r_cp):
         warnings.warn('Cylinders are assumed to enclose the control points')
-        import pdb; pdb.set_trace()
     if r_cyl[0] == 0:
         raise Exception('First cylinder at 0, impossible')
 
-- 
2.43.0


From d9afdd46a75c1bb8a99aed8ea5bd54b58da124a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 05/43] fix: Solver tangential convection velocity used (4 pi
 Omega R)^2 instead of 4 pi Omega R^2 (Eq. 26), and was applied without swirl

---
 wiz/Solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index 1ef07d4..238ace8 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -192,14 +192,14 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
         # ---  Case 1: Using k / ct to determine gamma
         # Using a_prime to correct Ct
         # Tangential convection velocity
-        if not bTanInd_k:
+        if not bTanInd_k or not bSwirl: # NOTE: no tangential induction without swirl
             ap_cyl_conv = 0 * Gamma_cp
         else:
             # Tangential convection velocity as the mean of velocity on both side of the cylinder)
             # See Equation (26) of [1]:  a'_c,i = (\Gamma_i+\Gamma_i+1)/(4 pi Omega R_i^2)
             ap_cyl_conv      = np.zeros(Gamma_cp.shape)
-            ap_cyl_conv[:-1] = (Gamma_cp[:-1] + Gamma_cp[1:])/(4*np.pi*Omega*r_cyl[:-1])**2
-            ap_cyl_conv[-1]  = Gamma_cp[-1]/(4*np.pi*Omega*r_cyl[-1])**2
+            ap_cyl_conv[:-1] = (Gamma_cp[:-1] + Gamma_cp[1:])/(4*np.pi*Omega*r_cyl[:-1]**2)
+            ap_cyl_conv[-1]  = Gamma_cp[-1]/(4*np.pi*Omega*r_cyl[-1]**2)
         # --- Allocation
         b           = np.zeros(n) # Cummulative sum of gamma_bar
         S           = np.zeros(n) # Term under the square root
-- 
2.43.0


From c1b523597ef146cb751ad0477ea60055f96a7851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 06/43] fix: infinite tip-speed ratio was replaced by a
 dimensional rotational speed, introducing swirl for small rotors

---
 wiz/Solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index 238ace8..1ea466f 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -293,7 +293,7 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
 def WakeVorticityFromCt(r,Ct,R,U0,Omega):
     """ Returns the wake vorticity intensity for a given Ct"""
     if Omega==np.inf:
-        Omega=800 # TODO, implement infinite lambd formulae directly
+        Omega=800*U0/R # Tip speed ratio of 800. TODO, implement infinite lambd formulae directly
     Lambda=Omega*R/U0
     bSwirl=Lambda<20
     vk=CirculationFromPrescribedCt(r/R,Ct,Lambda,bSwirl)
@@ -303,7 +303,7 @@ def WakeVorticityFromCt(r,Ct,R,U0,Omega):
 def WakeVorticityFromGamma(r,Gamma,R,U0,Omega):
     """ Returns the wake vorticity intensity for a given circulation """
     if Omega==np.inf:
-        Omega=800 # TODO, implement infinite lambd formulae directly
+        Omega=800*U0/R # Tip speed ratio of 800. TODO, implement infinite lambd formulae directly
     Lambda=Omega*R/U0
     bSwirl=Lambda<20
     return WakeVorticityFromCirculation_Discr(r,Gamma,R,U0,Omega,nB=1,bSwirl=bSwirl)
-- 
2.43.0


From 907c718543db4ff68c3e1df7697c40d46310fb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 07/43] fix: without swirl, the induction of a section depended
 on the high-thrust correction of the outer sections

---
 wiz/Solver.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index 1ea466f..f38851c 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -232,10 +232,8 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
                 Cti[i]   = k_r[i]*(1+k_r[i]/(4*lambda_R[i]**2)) # Eq.(32)
             Cteff[i] = Cti[i] - Ctrot[i] #Eq.(38)
             Sbis[i] = 1 - Cteff[i]
-            if bSwirl :
-                gamma_t_bar[i] = - b[i] + np.sqrt(Sbis[i]) #Eq.(28)
-            else:
-                gamma_t_bar[i] = - b[i] + np.sqrt(S[i]) 
+            # NOTE: without swirl, S==Sbis unless the high-thrust correction is active on an outer cylinder
+            gamma_t_bar[i] = - b[i] + np.sqrt(Sbis[i]) #Eq.(28)
 #             print('b',b,'S',S)
             if bHighThrustCorr:
                 if (Cteff[i] > Ct_c):
-- 
2.43.0


From 6cc7c9ab2beb81aa7d4c179772fa0162015e2566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 08/43] fix: a nan in the inputs of ellipticPiCarlson stopped
 the iterations of all the other points

---
 wiz/elliptic.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wiz/elliptic.py b/wiz/elliptic.py
index 1d7f98d..f51c970 100644
--- a/wiz/elliptic.py
+++ b/wiz/elliptic.py
@@ -17,6 +17,9 @@ def ellipticPiCarlson(n,m):
     # --- Performance parameters
     RES   = 1.e-12  # 
     ITMAX = 20      # 20 iterations usually sufficient
+    # --- Residual. NOTE: a nan at one point should not stop the iterations of the other points
+    def maxabs(x):
+        return np.amax(np.nan_to_num(np.abs(x)))
     # --- Subfunctions RF, RJ, RC
     def ellipticRF(y = None): 
         xo = np.zeros(y.shape)
@@ -46,7 +49,7 @@ def ellipticPiCarlson(n,m):
             s13 = s12*s1
             r = 5./26 * s13 + 3./ 26 * s2 ** 2
             RF = (mu**-0.5) * (1 + s1/5 + s2/7 + s12/6 + 3/11*s1*s2 + r)
-            res = np.amax(np.abs(RF - RFo))
+            res = maxabs(RF - RFo)
             RFo = RF
             xo = xn
             yo = yn
@@ -109,7 +112,7 @@ def ellipticPiCarlson(n,m):
                 rhs1 = rhs1 + 3 * 4 ** - nIt * ellipticRC(alfa,bet)
                 rhs2 = (4**-(nIt+1) * mu**-1.5) * (1+3/7*s1 + s2/3 + 3/22*s12 + 3/11*s3 + 3/13*(s1*s2 + s4) + r)
                 RJLoc = rhs1 + rhs2
-                res = np.amax(np.abs(RJLoc - RJo))
+                res = maxabs(RJLoc - RJo)
                 RJo = RJLoc
                 xo = xn
                 yo = yn
@@ -140,7 +143,7 @@ def ellipticPiCarlson(n,m):
             s5 = s4*s
             s6 = s5*s
             RC = (mu**-0.5)*(1+3/10*s2 + s3/7 + 3/8*s4 + 9/22*s5 + 159/208*s6)
-            res = np.amax(np.abs(RC - RCo))
+            res = maxabs(RC - RCo)
             RCo = RC
             xo = xn
             yo = yn
-- 
2.43.0


From 9615fc6160b8d12a41e04c936a7730e47e8cd5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 09/43] fix: wrong axial velocity of the vortex cylinder for
 control points at r=R to rounding error (loss of precision)

---
 wiz/VortexCylinder.py | 15 ++++++++++-----
 wiz/elliptic.py       | 13 +++++++++----
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index d3c0836..1723483 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -13,11 +13,11 @@ import numpy as np
 import numpy.matlib
 # --- Local
 try:
-    from .elliptic import ellipticPiCarlson, ellipe, ellipk
+    from .elliptic import ellipticPiCarlson, ellipe, ellipk, ellipkm1
     from .VortexLine import vl_semiinf_straight_u
     from .VortexDoublet import doublet_line_polar_u
 except:
-    from elliptic import ellipticPiCarlson, ellipe, ellipk
+    from elliptic import ellipticPiCarlson, ellipe, ellipk, ellipkm1
     from VortexLine import vl_semiinf_straight_u
     from VortexDoublet import doublet_line_polar_u
 
@@ -116,17 +116,22 @@ def vc_tang_u(Xcp,Ycp,Zcp,gamma_t=-1,R=1,polar_out=True,epsilon=0):
     if epsilon==0:
         k_2  = 4 * r * R / ((R + r)**2 + z**2)
         k0_2 = 4 * r * R/  ((R + r)**2       )
+        # Complements, 1-k_2 and 1-k0_2 (not computed as such to avoid the loss of precision close to r=R)
+        k_2c  = ((R - r)**2 + z**2) / ((R + r)**2 + z**2)
+        k0_2c = ((R - r)**2       ) / ((R + r)**2       )
     else:
         epsilon2= r*0+epsilon**2
         epsilon2[z<0]=0 # No regularization when z<0 # TODO
         k_2  = 4 * r * R / ((R + r)**2 + z**2 + epsilon2)
         k0_2 = 4 * r * R/  ((R + r)**2        + epsilon2)
+        k_2c  = ((R - r)**2 + z**2 + epsilon2) / ((R + r)**2 + z**2 + epsilon2)
+        k0_2c = ((R - r)**2        + epsilon2) / ((R + r)**2        + epsilon2)
+    k_2 [k_2>1]=1 # Safety purely for numerical precision
     k = np.sqrt(k_2)
     EE = ellipe(k_2)
-    KK = ellipk(k_2)
+    KK = ellipkm1(k_2c)
     #     PI = ellippi(k0_2,k_2)
-    k_2 [k_2>1]=1 # Safety purely for numerical precision
-    PI = ellipticPiCarlson(k0_2,k_2)
+    PI = ellipticPiCarlson(k0_2,k_2,k0_2c,k_2c)
     # --- Special values
     PI[PI==np.inf]=0
     PI[r==R]=0 ; # when r==R, PI=0 TODO, check
diff --git a/wiz/elliptic.py b/wiz/elliptic.py
index f51c970..e9a75db 100644
--- a/wiz/elliptic.py
+++ b/wiz/elliptic.py
@@ -4,15 +4,16 @@ from __future__ import print_function
 # --- General
 import numpy as np
 import unittest
-from scipy.special import ellipk, ellipe
+from scipy.special import ellipk, ellipkm1, ellipe
 
-def ellipticPiCarlson(n,m):
+def ellipticPiCarlson(n,m,n1=None,m1=None):
     """
     Elliptic integral of the third kind using the method of Carlson
         PI(n,m)=int(1/((1-n*sin(t)^2)*sqrt(1-m*sin(t)^2)),t=0,pi/2)
      AUTHOR: N. Troldborg
      REF: B.C. Carlson (1979) "Computing Elliptic Integrals by Duplication"
      NOTE: m <=1 
+     Optional inputs: the complements n1=1-n and m1=1-m, when known with better accuracy (n or m close to 1)
     """
     # --- Performance parameters
     RES   = 1.e-12  # 
@@ -156,8 +157,12 @@ def ellipticPiCarlson(n,m):
         n=np.array(n)
     if m.shape==(0,):
         return np.array([])
-    RF = ellipticRF(1-m)
-    RJ = ellipticRJ(1-m,1-n)
+    if n1 is None:
+        n1 = 1-n
+    if m1 is None:
+        m1 = 1-m
+    RF = ellipticRF(m1)
+    RJ = ellipticRJ(m1,n1)
     PI = RF + 1/3*n*RJ
     return PI
     
-- 
2.43.0


From a84b37a8ac90d5a66cb823b87c98ec3f55f7efc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 10/43] fix: longitudinal vorticity of a straight cylinder
 returned nan on the axis and at r=R

---
 wiz/VortexCylinder.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index 1723483..6d95659 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -169,15 +169,29 @@ def vc_longi_u_polar(vr,vpsi,vz,gamma_l=-1,R=1,polar_out=False):
     Reference: [1,2],  in particular, equation (21) from [1]
     """
     EPSILON_AXIS=1e-7; # relative threshold for using axis formula
-    # Flattening, and dimensionless!
+    vr=np.asarray(vr)
+    vz=np.asarray(vz)
     shape_in=vr.shape
-    m     = 4*vr*R/((vr+R)**2+vz**2)
-    m0    = 4*vr*R/((vr+R)**2)
-    K     = ellipk(m)
-    PI    = ellipticPiCarlson(m0,m)
-    Ar    = (vr-R+np.abs(R-vr))/(2*np.abs(R-vr))
-    Az    = vz*np.sqrt(m)/(2*np.pi*np.sqrt(vr*R))*(K-(R-vr)/(R+vr)*PI)
-    u_psi = gamma_l/2*R/vr*(Ar +Az)
+    u_psi = np.zeros(shape_in)
+    # Axis: u_psi=0 by symmetry. From this point on, variables have the size of ~Iz..
+    bnIz = vr >= (EPSILON_AXIS * R)
+    r = vr[bnIz]
+    z = vz[bnIz]
+    # Elliptic integrals, and complements of the parameters (accurate close to r=R)
+    m     = 4*r*R/((r+R)**2+z**2)
+    m0    = 4*r*R/((r+R)**2)
+    mc    = ((r-R)**2+z**2)/((r+R)**2+z**2)
+    m0c   = ((r-R)**2     )/((r+R)**2)
+    K     = ellipkm1(mc)
+    PI    = ellipticPiCarlson(m0,m,m0c,mc)
+    # Special values, see vc_tang_u
+    PI[r==R]     = 0 # when r==R, (R-r)PI=0
+    K[K==np.inf] = 0 # when r==R and z=0, zK=0
+    Ar       = np.zeros(r.shape)
+    Ar[r==R] = 1/2
+    Ar[r>R]  = 1
+    Az    = z*np.sqrt(m)/(2*np.pi*np.sqrt(r*R))*(K-(R-r)/(R+r)*PI)
+    u_psi[bnIz] = gamma_l/2*R/r*(Ar +Az)
     u_z = np.zeros(shape_in)
     if polar_out:
         u_r = np.zeros(shape_in)
-- 
2.43.0


From 139d40879371a8eccd80045ff4c2e9db01999d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 11/43] fix: straight root vortex returned nan or inf on its
 axis

---
 wiz/VortexLine.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wiz/VortexLine.py b/wiz/VortexLine.py
index 065dca8..2f631e7 100644
--- a/wiz/VortexLine.py
+++ b/wiz/VortexLine.py
@@ -78,7 +78,12 @@ def vl_semiinf_straight_u_polar(vr,vpsi,vz,Gamma_r=-1,polar_out=False):
     vpsi     = np.asarray(vpsi)
     vz       = np.asarray(vz)
 
-    u_psi = Gamma_r/(4*np.pi*vr) * ( 1 + vz/np.sqrt(vr**2 + vz**2) ) 
+    # NOTE: velocity set to 0 on the axis (as done for the skewed line)
+    u_psi = np.zeros(shape_in)
+    bnIz  = vr > EPSILON_AXIS
+    r = vr[bnIz]
+    z = vz[bnIz]
+    u_psi[bnIz] = Gamma_r/(4*np.pi*r) * ( 1 + z/np.sqrt(r**2 + z**2) ) 
 
     u_z = np.zeros(shape_in)
     if polar_out:
-- 
2.43.0


From dbee8ec6132144ac92861455eb0707191f04b9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 12/43] fix: finite vortex cylinder returned nan on the axis,
 and nan or inaccurate values at r=R

---
 wiz/VortexCylinder.py | 31 +++++--------------------------
 1 file changed, 5 insertions(+), 26 deletions(-)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index 6d95659..e473fad 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -315,8 +315,6 @@ def cylinder_tang_u(Xcp,Ycp,Zcp,gamma_t=-1,R=1,z1=-2,z2=2,polar_out=True,epsilon
       z1,z2: extent of the cylinder
       epsilon : Regularization parameter, e.g. epsilon=0.0001*R
     Reference: [1]"""
-    EPSILON_AXIS=1e-7; # relative threshold for using axis formula
-
     # --- Main corpus
     Xcp=np.asarray(Xcp)
     Ycp=np.asarray(Ycp)
@@ -327,30 +325,11 @@ def cylinder_tang_u(Xcp,Ycp,Zcp,gamma_t=-1,R=1,z1=-2,z2=2,polar_out=True,epsilon
         else:
             return np.array([]),np.array([]),np.array([]),
 
-    r = np.sqrt(Xcp ** 2 + Ycp ** 2)
-    ur = np.full(r.shape,np.nan)
-    uz = np.full(r.shape,np.nan)
-    ## Vectorialization
-    zz1 = Zcp - z1
-    zz2 = Zcp - z2
-    
-    # Eliptic integrals
-    k1_2 = 4 * r * R / ((R + r) ** 2 + zz1 ** 2)
-    k2_2 = 4 * r * R / ((R + r) ** 2 + zz2 ** 2)
-    k1 = np.sqrt(k1_2)
-    k2 = np.sqrt(k2_2)
-    k0_2 = 4 * r * R / ((R + r) ** 2)
-
-    EE1 = ellipe(k1_2)
-    KK1 = ellipk(k1_2)
-    EE2 = ellipe(k2_2)
-    KK2 = ellipk(k2_2)
-    PI1 = ellipticPiCarlson(k0_2,k1_2)
-    PI2 = ellipticPiCarlson(k0_2,k2_2)
-    # ur
-    ur = np.multiply(gamma_t / (2 * np.pi) * np.sqrt(R / r),((np.multiply((2 - k2_2) / k2,KK2) - np.multiply(2.0 / k2,EE2)) - (np.multiply((2 - k1_2) / k1,KK1) - np.multiply(2.0 / k1,EE1))))
-    # uz
-    uz = np.multiply(- gamma_t / (4 * np.pi * np.sqrt(r * R)),((np.multiply(np.multiply(zz2,k2),(KK2 + np.multiply((R - r) / (R + r),PI2)))) - (np.multiply(np.multiply(zz1,k1),(KK1 + np.multiply((R - r) / (R + r),PI1))))))
+    # Difference of two semi-infinite cylinders, see vc_tang_u for the special values (axis and r=R)
+    ur1,uz1 = vc_tang_u(Xcp,Ycp,Zcp-z1,gamma_t=gamma_t,R=R,polar_out=True)
+    ur2,uz2 = vc_tang_u(Xcp,Ycp,Zcp-z2,gamma_t=gamma_t,R=R,polar_out=True)
+    ur = ur1-ur2
+    uz = uz1-uz2
     if polar_out:
         return ur,uz
     else:
-- 
2.43.0


From 43b234231210d248507bdd1d8232414b27fae1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 13/43] fix: yaw_wind and yaw_error returned nan when rounding
 errors lead to the arccos of a value slightly above 1

---
 wiz/WindTurbine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 40f80f3..ce2762e 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -199,9 +199,9 @@ class WindTurbine:
         e_w    = u_horz/np.linalg.norm(u_horz)
         sign = np.sign  ( np.dot(np.cross(self.e_horz_g.T, self.U0_g.T),self.e_vert_g) )
         if sign==0:
-            yaw_wind = np.arccos(np.dot(e_w.T,self.e_horz_g))
+            yaw_wind = np.arccos(np.clip(np.dot(e_w.T,self.e_horz_g),-1,1))
         else:
-            yaw_wind = sign * np.arccos(np.dot(e_w.T,self.e_horz_g))
+            yaw_wind = sign * np.arccos(np.clip(np.dot(e_w.T,self.e_horz_g),-1,1))
         return yaw_wind.ravel()[0]
 
     @property
@@ -211,7 +211,7 @@ class WindTurbine:
         u_skew  = self.U0_g-np.dot(self.U0_g.T,e_horz)*e_horz-np.dot(self.U0_g.T,self.e_vert_g)*self.e_vert_g
         e_w=self.U0_g/np.linalg.norm(self.U0_g)
         yaw_sign=np.sign  ( np.dot(np.cross(e_w.T,self.e_shaft_g.T),self.e_vert_g) )
-        yaw_error=yaw_sign * np.arccos(np.dot(e_w.T,self.e_shaft_g))
+        yaw_error=yaw_sign * np.arccos(np.clip(np.dot(e_w.T,self.e_shaft_g),-1,1))
 #         U0_wt = np.dot( self.T_wt2g.T , self.U0_g)
 #         e_skew=u_skew/np.linalg.norm(u_skew)
 #         print('e_skew',e_skew.T)
-- 
2.43.0


From b124d248abde273a64f962e6372f76e65040d360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 14/43] fix: a rotor aligned with the wind to a multiple of 2
 pi was treated as skewed

---
 wiz/WindTurbine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index ce2762e..031888d 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -252,7 +252,8 @@ class WindTurbine:
         # Detecting whether our vertical convention match
         T_c2g    = np.dot(self.T_wt2g,self.T_c2wt)
         e_vert_c = np.dot(T_c2g.T , self.e_vert_g)
-        return np.sign(e_vert_c.ravel()[1])* (self.yaw_wind-self.yaw_pos)
+        chi = np.sign(e_vert_c.ravel()[1])* (self.yaw_wind-self.yaw_pos)
+        return np.arctan2(np.sin(chi),np.cos(chi)) # NOTE: between -pi and pi
 
     @chi.setter
     def chi(self,chi):
-- 
2.43.0


From 014882f9bf2afca5561c119b9361a76352557bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 15/43] fix: set_yaw0_coord left the turbine half modified when
 the vertical vector was invalid

---
 wiz/WindTurbine.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 031888d..07334a2 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -89,9 +89,12 @@ class WindTurbine:
         self.Model=Model
 
     def set_yaw0_coord(self,e_shaft_yaw0,e_vert):
-        self.e_shaft_g = np.array(e_shaft_yaw0).ravel().reshape(3,1)
-        self.e_shaft_g0= self.e_shaft_g
-        self.e_vert_g  = np.array(e_vert).ravel().reshape(3,1)
+        # NOTE: both inputs are checked before self is modified
+        e_shaft_g = np.array(e_shaft_yaw0).ravel().reshape(3,1)
+        e_vert_g  = np.array(e_vert).ravel().reshape(3,1)
+        self.e_shaft_g = e_shaft_g
+        self.e_shaft_g0= e_shaft_g
+        self.e_vert_g  = e_vert_g
         v_horz0 = self.e_shaft_g -np.dot(self.e_shaft_g.T,self.e_vert_g)
         self.e_horz_g = v_horz0/np.linalg.norm(v_horz0)
         self.e_FAST_z = self.e_vert_g
-- 
2.43.0


From 93b7a0c18af022e34dedc68ac42e1288dcd47ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 16/43] fix: with ground effect, the flow of the longitudinal
 and root vorticity went through the ground (mirror absent, misplaced or of
 wrong sign)

---
 wiz/VortexCylinder.py       | 26 ++++++++++++++++++--------
 wiz/VortexCylinderSkewed.py |  3 ++-
 wiz/WindTurbine.py          | 12 +++++++-----
 3 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index e473fad..594a5e1 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -284,7 +284,7 @@ def vcs_tang_u(Xcp,Ycp,Zcp,gamma_t,R,Xcyl,Ycyl,Zcyl,epsilon=0,Ground=False):
     
 def vcs_longi_u(Xcp,Ycp,Zcp,gamma_l,R,Xcyl,Ycyl,Zcyl,Ground=False):
     """ see vcs_tang_u 
-    NOTE: Longi vorticity shouldn't matter for ground effect
+    NOTE: the longitudinal vorticity of the ground mirror is of opposite sign
     """ 
     Xcp=np.asarray(Xcp)
     Ycp=np.asarray(Ycp)
@@ -296,13 +296,23 @@ def vcs_longi_u(Xcp,Ycp,Zcp,gamma_l,R,Xcyl,Ycyl,Zcyl,Ground=False):
     print('Longi. (straight) ',end='')
     for i in np.arange(nCyl):
         Xcp0,Ycp0,Zcp0=Xcp-Xcyl[i],Ycp-Ycyl[i],Zcp-Zcyl[i]
-        for j in np.arange(nr):
-            print('.',end='')
-            if np.abs(gamma_l[i,j]) > 0:
-                ux1,uy1,uz1 = vc_longi_u(Xcp0,Ycp0,Zcp0,gamma_l[i,j],R[i,j],polar_out=False)
-                ux = ux + ux1
-                uy = uy + uy1
-                uz = uz + uz1
+        if Ground:
+            YcpMirror = Ycp0+2*Ycyl[i]
+            Ylist = [Ycp0,YcpMirror]
+        else:
+            Ylist = [Ycp0]
+        for iy,Y in enumerate(Ylist):
+            for j in np.arange(nr):
+                if iy==0:
+                    print('.',end='')
+                else:
+                    print('m',end='')
+                if np.abs(gamma_l[i,j]) > 0:
+                    gl = gamma_l[i,j] if iy==0 else -gamma_l[i,j]
+                    ux1,uy1,uz1 = vc_longi_u(Xcp0,Y,Zcp0,gl,R[i,j],polar_out=False)
+                    ux = ux + ux1
+                    uy = uy + uy1
+                    uz = uz + uz1
     print('')
     return ux,uy,uz
 
diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index d1001c9..f969870 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -359,7 +359,8 @@ def svcs_longi_u(Xcp,Ycp,Zcp,gamma_l,R,m,Xcyl,Ycyl,Zcyl,ntheta=180,Ground=False)
                 else:
                     print('m',end='')
                 if np.abs(gamma_l[i,j]) > 0:
-                    ux1,uy1,uz1 = svc_longi_u(Xcp0,Ycp0,Zcp0,gamma_l[i,j],R[i,j],m[i,j],ntheta=ntheta,polar_out=False)
+                    gl = gamma_l[i,j] if iy==0 else -gamma_l[i,j] # NOTE: opposite rotation for the ground mirror
+                    ux1,uy1,uz1 = svc_longi_u(Xcp0,Y,Zcp0,gl,R[i,j],m[i,j],ntheta=ntheta,polar_out=False)
                     ux = ux + ux1
                     uy = uy + uy1
                     uz = uz + uz1
diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 07334a2..40bf991 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -313,11 +313,12 @@ class WindTurbine:
 
         # --- Root vortex influence
         if root and  (self.Gamma_r is not None) and self.Gamma_r!=0:
-            for Y in Ylist:
+            for iY,Y in enumerate(Ylist):
+                Gamma_r = self.Gamma_r if iY==0 else -self.Gamma_r # NOTE: opposite rotation for the ground mirror
                 if np.abs(chi)>1e-7:
-                    uxc0,uyc0,uzc0 = svc_root_u(Xc0,Y,Zc0,Gamma_r=self.Gamma_r,m=m,polar_out=False)
+                    uxc0,uyc0,uzc0 = svc_root_u(Xc0,Y,Zc0,Gamma_r=Gamma_r,m=m,polar_out=False)
                 else:
-                    uxc0,uyc0,uzc0 =  vc_root_u(Xc0,Y,Zc0,Gamma_r=self.Gamma_r,polar_out=False)
+                    uxc0,uyc0,uzc0 =  vc_root_u(Xc0,Y,Zc0,Gamma_r=Gamma_r,polar_out=False)
                 uxc += uxc0
                 uyc += uyc0
                 uzc += uzc0
@@ -349,14 +350,15 @@ class WindTurbine:
                     uyc += uyc0
                     uzc += uzc0
                 if longi and (self.gamma_l is not None) and self.gamma_l!=0 :
+                    gamma_l = self.gamma_l if iY==0 else -self.gamma_l # NOTE: opposite rotation for the ground mirror
                     if np.abs(chi)>1e-7:
                         if Model =='VC':
-                            uxc0,uyc0,uzc0 = svc_longi_u(Xc0,Y,Zc0,gamma_l=self.gamma_l,R=self.R,m=m,polar_out=False)
+                            uxc0,uyc0,uzc0 = svc_longi_u(Xc0,Y,Zc0,gamma_l=gamma_l,R=self.R,m=m,polar_out=False)
                         else:
                             raise NotImplementedError('Model '+Model + ', longi component.')
                     else:
                         if Model =='VC':
-                            uxc0,uyc0,uzc0 = vc_longi_u (Xc0,Y,Zc0,gamma_l=self.gamma_l,R=self.R    ,polar_out=False)
+                            uxc0,uyc0,uzc0 = vc_longi_u (Xc0,Y,Zc0,gamma_l=gamma_l,R=self.R    ,polar_out=False)
                         else:
                             raise NotImplementedError('Model'+Model + ', longi component.')
                     uxc += uxc0
-- 
2.43.0


From 9843005d9d083e80db29f11af36026afc5d96000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 17/43] fix: radial velocity of the skewed longitudinal and
 root vorticity in polar output was wrong, or of wrong shape

---
 wiz/VortexCylinderSkewed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index f969870..2b7cbf8 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -153,7 +153,7 @@ def svc_longi_u_polar(vr,vpsi,vz,gamma_l=-1,R=1,m=0,ntheta=180,polar_out=False):
             u_psi[i] = np.trapz((r - m*z*np.cos(psi) - np.cos(vtheta-psi))*DenInv,vtheta)
             u_z[i]   = np.trapz(m * (-np.sin(vtheta) + r*np.sin(psi))     *DenInv,vtheta)
         # Reshaping to input shape
-        u_r   =  u_psi.reshape(shape_in) 
+        u_r   =  u_r.reshape(shape_in) 
         u_psi =  u_psi.reshape(shape_in) 
         u_z   =  u_z.reshape(shape_in)   
         return (u_r,u_psi,u_z)
@@ -224,6 +224,7 @@ def svc_root_u_polar(vr,vpsi,vz,Gamma_r=-1,m=0,polar_out=False):
     u_z   =  u_z.reshape(shape_in) 
     if polar_out:
         u_r   = u_x * np.cos(vpsi) + u_y * np.sin(vpsi)
+        u_r   = u_r.reshape(shape_in) 
         u_psi = u_psi.reshape(shape_in) 
         return (u_r,u_psi,u_z)
     else:
-- 
2.43.0


From c81eeedf65a9c9e4443868ec6a5ce34734c6698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 18/43] fix: skewed root vortex velocity at a point depended on
 the other points provided, and was nan on the axis without skew

---
 wiz/VortexCylinderSkewed.py | 39 ++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 2b7cbf8..d3f494f 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -194,32 +194,27 @@ def svc_root_u_polar(vr,vpsi,vz,Gamma_r=-1,m=0,polar_out=False):
     vz   = np.asarray(vz).ravel()
     # --- Computes ux, uy, uz, upsi
     u_z = np.zeros(vr.shape)
+    Iz  = vr > (EPSILON_AXIS)
     if (m == 0):
-        u_psi = np.multiply(Gamma_r/(4*np.pi*vr), (1+vz/np.sqrt(vr** 2 + vz**2)))
+        u_psi = np.zeros(vr.shape)
+        u_psi[Iz] = np.multiply(Gamma_r/(4*np.pi*vr[Iz]), (1+vz[Iz]/np.sqrt(vr[Iz]** 2 + vz[Iz]**2)))
         u_x   = -np.sin(vpsi)*u_psi
         u_y   =  np.cos(vpsi)*u_psi
     else:
-        if (np.max(np.abs(vz)) > 0):
-            # need to use general formula
-            u_x = np.zeros(vr.shape)
-            u_y = np.zeros(vr.shape)
-            e = np.array([np.sin(chi),0,np.cos(chi)])
-            for i,(r,psi,z) in enumerate(zip(vr,vpsi,vz)):
-                u_x[i],u_y[i],u_z[i]= vl_semiinf_u(r*np.cos(psi),r*np.sin(psi),z,e[0],e[1],e[2],Gamma_r,visc_model=0,t=0)
-            u_psi = - u_x*np.sin(vpsi) + u_y* np.cos(vpsi)
-        else:
-            # rotor plane analytical (see Yaw article)
-            u_psi = np.zeros(vr.shape)
-            coschi = 1 / np.sqrt(1 + m ** 2)
-            sinchi = m / np.sqrt(1 + m ** 2)
-            Iz = vr > (EPSILON_AXIS)
-            bnIz = np.logical_not(Iz)
-            u_z  [Iz] = np.multiply(Gamma_r/(4*np.pi*vr[Iz]), 1.0/(1-np.cos(vpsi[Iz])*sinchi)*sinchi*np.sin(vpsi[Iz]))
-            u_psi[Iz] = np.multiply(Gamma_r/(4*np.pi*vr[Iz]), 1.0/(1-np.cos(vpsi[Iz])*sinchi)*coschi)
-            u_z  [bnIz] =0
-            u_psi[bnIz] =0
-            u_x = -np.sin(vpsi)*u_psi
-            u_y =  np.cos(vpsi)*u_psi
+        # NOTE: the choice of formula is made for each control point, independently of the other ones
+        # rotor plane analytical (see Yaw article)
+        u_psi = np.zeros(vr.shape)
+        coschi = 1 / np.sqrt(1 + m ** 2)
+        sinchi = m / np.sqrt(1 + m ** 2)
+        Ip = np.logical_and(Iz, vz==0)
+        u_z  [Ip] = np.multiply(Gamma_r/(4*np.pi*vr[Ip]), 1.0/(1-np.cos(vpsi[Ip])*sinchi)*sinchi*np.sin(vpsi[Ip]))
+        u_psi[Ip] = np.multiply(Gamma_r/(4*np.pi*vr[Ip]), 1.0/(1-np.cos(vpsi[Ip])*sinchi)*coschi)
+        u_x = -np.sin(vpsi)*u_psi
+        u_y =  np.cos(vpsi)*u_psi
+        # need to use general formula
+        for i in np.where(vz!=0)[0]:
+            u_x[i],u_y[i],u_z[i]= vl_semiinf_u(vr[i]*np.cos(vpsi[i]),vr[i]*np.sin(vpsi[i]),vz[i],np.sin(chi),0,np.cos(chi),Gamma_r,visc_model=0,t=0)
+        u_psi = - u_x*np.sin(vpsi) + u_y* np.cos(vpsi)
     # Reshaping to input shape
     u_z   =  u_z.reshape(shape_in) 
     if polar_out:
-- 
2.43.0


From 8c17349ee9fb675d1a1004b0b36d00d94d05437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 19/43] fix: straight semi-infinite doublet line returned huge
 or nan velocities in the vicinity of its axis (loss of precision)

---
 wiz/VortexDoublet.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/wiz/VortexDoublet.py b/wiz/VortexDoublet.py
index 348affe..918727d 100644
--- a/wiz/VortexDoublet.py
+++ b/wiz/VortexDoublet.py
@@ -133,7 +133,7 @@ def doublet_line_polar_u(rcp,zcp,dmz_dz, bSelfInd=False):
     ur=np.zeros(r.shape)
 
     norm2 = r**2+z**2
-    uz[bOK]  = dmz_dz/(4*np.pi) * 1/r[bOK]**2 * ( z[bOK]**3/(norm2[bOK])**(3/2) - z[bOK]/(norm2[bOK])**(1/2) )
+    uz[bOK]  =-dmz_dz/(4*np.pi) * z[bOK]          *  1/(norm2[bOK]  )**(3/2) # NOTE: no division by r**2, accurate close to the axis
     uz[bZ0Rp] = 0
     uz[bR0Zm] = dmz_dz/(4*np.pi) * 1/norm2[bR0Zm]
     #uz[bR0Zp] = dmz_dz/(4*np.pi) * 1/norm2[bR0Zp] #<<< No singularity there, but we force it to 0
@@ -194,6 +194,14 @@ def doublet_line_u(Xcp,Ycp,Zcp,dmz_dz,m=0,L=np.inf):
         Ycp=Ycp[bOK]
         Zcp=Zcp[bOK]
 
+        if L==np.inf and np.all(np.asarray(m)==0):
+            # NOTE: the general formula looses its precision in the vicinity of the line
+            fact = -dmz_dz/(4*np.pi) / a**3
+            ux[bOK] = fact * Xcp
+            uy[bOK] = fact * Ycp
+            uz[bOK] = fact * Zcp
+            return ux,uy,uz
+
         if L==np.inf:
             i30  = I30 (a,b,c) # NOTE: not scaling
             ti50 = tI50(a,b,c) # = 3 x I50
-- 
2.43.0


From a7577277d05d24c74884582505c8c5b334cfa726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 20/43] fix: fKxit used a selection mask instead of the
 coefficient b1, wrong analytical result for m!=0

---
 wiz/VortexCylinderSkewed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index d3f494f..1e05af2 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -430,9 +430,9 @@ def fKxit(vr,m):
         Kxit[b1] = np.multiply(1/(np.pi)*np.sqrt(1.0/vr[b1]),(np.multiply((2 - k2[b1]) / k[b1],K[b1]) - np.multiply(2.0/k[b1],E[b1])))
         Kxit[b0] = 0
     else:
-        b1 = (vr) > (EPSILON_AXIS) 
-        b0 = np.logical_not(b1)
-        Kxit[b1] = np.multiply(2*(1+m**2)*vr[b1]/(m**2*np.pi),kr2[b1]) - np.multiply(np.multiply(vr[b1],(vr[b1] + 1))*np.sqrt(m ** 2 + 1)/(2*m**2*np.pi*np.sqrt(m**2+vr[b1]**2)),(np.multiply((b1[b1]+j2[b1]),Pi1[b1]) + np.multiply((b2[b1]-j2[b1]),Pi2[b1])))
+        bI = (vr) > (EPSILON_AXIS) 
+        b0 = np.logical_not(bI)
+        Kxit[bI] = np.multiply(2*(1+m**2)*vr[bI]/(m**2*np.pi),kr2[bI]) - np.multiply(np.multiply(vr[bI],(vr[bI] + 1))*np.sqrt(m ** 2 + 1)/(2*m**2*np.pi*np.sqrt(m**2+vr[bI]**2)),(np.multiply((b1[bI]+j2[bI]),Pi1[bI]) + np.multiply((b2[bI]-j2[bI]),Pi2[bI])))
         Kxit[b0] = 0
     # See yaw article
     chi = np.arctan(m)
-- 
2.43.0


From 7e300f33e77d077f6f6a1c46a66005c36c2efade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 21/43] fix: fKzt crashed when more than three outputs were
 requested (chi undefined)

---
 wiz/VortexCylinderSkewed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 1e05af2..4abf878 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -448,6 +448,7 @@ def fKzt(r,m,nout=2):
     """ Returns Kzt according to yaw article """
     fOye = 0.5 * (r + 0.4 * r ** 3 + 0.4 * r ** 5)
     vr = r
+    chi = np.arctan(m)
     Kzt = np.zeros(vr.shape)
     Kztnum = np.zeros(vr.shape)
     if m == 0:
-- 
2.43.0


From 03e4f8fe78d9146e76b94feac4581eb338fbb555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 22/43] fix: gridLayout crashed with its default zSpacing

---
 wiz/WindFarm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiz/WindFarm.py b/wiz/WindFarm.py
index a3b4794..523bba2 100644
--- a/wiz/WindFarm.py
+++ b/wiz/WindFarm.py
@@ -92,6 +92,8 @@ def gridLayout(nx,xSpacing,nz,zSpacing=None,hub_height=0,mirror=False):
           z is longi, positive along the wake
       If mirror is true, mirrored turbines are placed at y=-hubheight
     """
+    if zSpacing is None:
+        zSpacing=xSpacing
     if mirror:
         ny=2
     else:
-- 
2.43.0


From 0789d6bde2936642182446c0180b469da8afeb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 23/43] fix: colormaps made from RGB tuples (without alpha)
 could not be used

---
 wiz/plotting_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiz/plotting_functions.py b/wiz/plotting_functions.py
index b277f3e..f986e0c 100644
--- a/wiz/plotting_functions.py
+++ b/wiz/plotting_functions.py
@@ -44,6 +44,8 @@ def make_colormap(seq,values=None):
         cdict['blue'].append([v, b1, b2])
         if hasAlpha:
             cdict['alpha'].append([v, a1, a2])
+    if not hasAlpha:
+        del cdict['alpha']
     #print(cdict)
     return mcolors.LinearSegmentedColormap('CustomMap', cdict)
 
-- 
2.43.0


From b7cf1debcf48aa831cd21b2ff98966aab883cb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 24/43] fix: linear regularization of the vortex ring ignored
 the intensity and radius of the ring

---
 wiz/VortexRing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiz/VortexRing.py b/wiz/VortexRing.py
index 913f879..7fd81c4 100644
--- a/wiz/VortexRing.py
+++ b/wiz/VortexRing.py
@@ -87,8 +87,8 @@ def ring_u_polar(r,z,Gamma=-1,r0=1,z0=0,epsilon=0, reg_method='Saffman'):
             # Continuity in z
             rr= r0-epsilon/2
             zz= 0
-            _,uzp = ring_u_polar_singular(r0+epsilon/2, 0)
-            _,uzm = ring_u_polar_singular(r0-epsilon/2, 0)
+            _,uzp = ring_u_polar_singular(r0+epsilon/2, 0, Gamma, r0)
+            _,uzm = ring_u_polar_singular(r0-epsilon/2, 0, Gamma, r0)
             uz_mean = uzp+uzm
             #r_ref = 
             #Ir = rho < epsilon/2 
-- 
2.43.0


From 295225035be12424808c878687e14643b0a50820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 25/43] fix: update_yaw_pos stored the yaw position before
 failing on an invalid one

---
 wiz/WindTurbine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 40bf991..925c11b 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -112,8 +112,9 @@ class WindTurbine:
         """ 
             yaw : radians, turbine yaw angle (with respect to the 0 yaw position defined at init)
         """
+        T_wt2g  = RotMat_AxisAngle(self.e_vert_g,yaw) # NOTE: may fail, done before self is modified
         self.yaw_pos = yaw
-        self.T_wt2g  = RotMat_AxisAngle(self.e_vert_g,yaw)
+        self.T_wt2g  = T_wt2g
         # Rotating the shaft vector so that its coordinate follow the new yaw position
         self.e_shaft_g=np.dot(self.T_wt2g , self.e_shaft_g0)
 
-- 
2.43.0


From f58e849254df44cfaae5b769d06cbf092753f102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 26/43] fix: thrust coefficient given at the creation of a
 WindTurbine was ignored

---
 wiz/WindTurbine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 925c11b..cdcd44d 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -87,6 +87,8 @@ class WindTurbine:
         self.Ground=Ground # Ground effect will be included in calculation of induced velocity
         self.chi=None
         self.Model=Model
+        if Ct is not None:
+            self.update_loading(Ct=Ct)
 
     def set_yaw0_coord(self,e_shaft_yaw0,e_vert):
         # NOTE: both inputs are checked before self is modified
-- 
2.43.0


From 371d7c1a968cf5a092e7e4e47d6484b124a88584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 27/43] fix: regularized semi-infinite vortex line crashed
 (undefined second extremity)

---
 wiz/VortexLine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wiz/VortexLine.py b/wiz/VortexLine.py
index 2f631e7..a911007 100644
--- a/wiz/VortexLine.py
+++ b/wiz/VortexLine.py
@@ -31,7 +31,7 @@ def vl_semiinf_u(xa,ya,za,xe,ye,ze,Gamma,visc_model,t):
         Kv = 1.0
     elif visc_model==1:
         # Rankine  - t<=>rc 
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
+        norm_r0 = np.sqrt(xe**2 + ye**2 + ze**2)
         h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2) / norm_r0
         if (h < t):
             Kv = h * h / t / t
@@ -39,17 +39,17 @@ def vl_semiinf_u(xa,ya,za,xe,ye,ze,Gamma,visc_model,t):
             Kv = 1.0
     elif visc_model==2:
         # Lamb-Oseen  - t<=>rc
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
+        norm_r0 = np.sqrt(xe**2 + ye**2 + ze**2)
         h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2) / norm_r0
         Kv = 1.0 - np.exp(- 1.25643 * h * h / t / t)
     elif visc_model==3:
         # Vatistas n=2  - t<=>rc */
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
+        norm_r0 = np.sqrt(xe**2 + ye**2 + ze**2)
         h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2) / norm_r0
         Kv = h * h / np.sqrt(t ** 4 + h ** 4)
     elif visc_model==4:
         # Cut-off radius no dimensions - delta*norm(r0)^2 - t<=>delta^2
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
+        norm_r0 = np.sqrt(xe**2 + ye**2 + ze**2)
         denominator = denominator + t * norm_r0
         Kv = 1.0
     elif visc_model==5:
-- 
2.43.0


From 1ba010c87792af083adea0326ed3f24290040ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 28/43] fix: self similar model crashed for scalar control
 points

---
 wiz/SelfSimilar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiz/SelfSimilar.py b/wiz/SelfSimilar.py
index 4a77ca7..b197110 100644
--- a/wiz/SelfSimilar.py
+++ b/wiz/SelfSimilar.py
@@ -25,8 +25,8 @@ def ss_u(Xcp, Ycp, Zcp, gamma_t, R=1, lambda_= 0.587, eta=1.32):
     FEPS = (1/np.cosh(beta * epsilon)) ** alpha                  # Eq. (6) from [1]
 
     ui0_x = ui0*(1 + z/np.sqrt(z**2 + R**2))          # Eq. (7) from [1]
-    uz    = ui0_x * FEPS
-    bWake=Zcp>0
+    uz    = np.asarray(ui0_x * FEPS)
+    bWake=z>0
     uz[bWake]=0
     return uz
 
-- 
2.43.0


From 7be70750e6054d85b75b2349c21c7cdde3638268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 29/43] fix: wrong integral in the velocity of a doublet line
 of finite length

---
 wiz/VortexDoublet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexDoublet.py b/wiz/VortexDoublet.py
index 918727d..b3355fb 100644
--- a/wiz/VortexDoublet.py
+++ b/wiz/VortexDoublet.py
@@ -351,7 +351,7 @@ def _integrals_DL_finite(a,b,c,L):
         s=np.sign(b)
         return 3*s/(4*c*(a -s*c*x)**4)
     def i50indef_norm(a,b,c,x):
-        return ( b*(b**2 - 3*a**2*c**2) + 2*c**2*(b**2 + a**2*c**2)*x - 6*b*c**4*x**2 + 2*c**6*x**3 )/ ((b**2 - a**2*c**2)**2*(a**2 - 2*b*x + c**2*x**2)**(3/2) ) 
+        return ( b*(b**2 - 3*a**2*c**2) + 3*c**2*(b**2 + a**2*c**2)*x - 6*b*c**4*x**2 + 2*c**6*x**3 )/ ((b**2 - a**2*c**2)**2*(a**2 - 2*b*x + c**2*x**2)**(3/2) ) 
     # I51 = \int_0^L  x'   / ( a^2  - 2 b x'  + c^2 x'^2 )^(5/2) dx'
     def i51indef_sing(a,b,c,x):
         s=np.sign(b)
-- 
2.43.0


From 3a19aa921e77df45bf315c2a6d4b416bb26e4113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 30/43] fix: wake vorticity outputs should not share memory
 with the input radius and circulation

---
 wiz/Solver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index f38851c..e89f415 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -122,8 +122,8 @@ def WakeVorticityFromCirculation_Cont(r_cp,Gamma_cp,R,U0,Omega,bSwirl,method='an
     Uses continuous formulation to find wake vorticity that matches a given circulation distribution
     (need to solve for pitch angle, and hence induction)
     """
-    r_cp     = np.asarray(r_cp).ravel()
-    Gamma_cp = np.asarray(Gamma_cp).ravel()
+    r_cp     = np.array(r_cp).ravel()     # NOTE: copy, the outputs should not refer to the inputs
+    Gamma_cp = np.array(Gamma_cp).ravel()
     if r_cp[0]==0:
         r_cp=np.array(r_cp,dtype=float) # NOTE: copy, the input should not be modified
         r_cp[0]=r_cp[1]*0.5;
@@ -158,8 +158,8 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
     """ 
     Implements discrete algorithm from [1] to find gamma_t, and the inductions
     """
-    r_cp     = np.asarray(r_cp).ravel()
-    Gamma_cp = np.asarray(Gamma_cp).ravel()
+    r_cp     = np.array(r_cp).ravel()     # NOTE: copy, the outputs should not refer to the inputs
+    Gamma_cp = np.array(Gamma_cp).ravel()
     if r_cyl is None:
         r_cyl    = np.zeros(r_cp.shape)
         if len(r_cyl)==1:
-- 
2.43.0


From d7d4f480be27c20ab944fd4d6e663a36fdf8e378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 31/43] fix: turbine should not refer to the thrust coefficient
 array given when nCyl is None

---
 wiz/WindTurbine.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index cdcd44d..3ae830b 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -161,8 +161,10 @@ class WindTurbine:
                 else:
                     Gamma = np.interp(vr0,r,Gamma)
             r=vr0
-        elif r is not None:
-            r=np.array(r)
+        else:
+            # NOTE: copies, the turbine should not refer to the inputs
+            r  = r  if r  is None else np.array(r)
+            Ct = Ct if Ct is None else np.array(Ct)
 
         # Updating Lambda
         if Lambda is None:
-- 
2.43.0


From 3a58893a2e451f12445be260773fc6a9deafd024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 32/43] fix: elliptic integral of the third kind of an empty
 multi-dimensional array

---
 wiz/elliptic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiz/elliptic.py b/wiz/elliptic.py
index e9a75db..5a4bbdc 100644
--- a/wiz/elliptic.py
+++ b/wiz/elliptic.py
@@ -155,8 +155,8 @@ def ellipticPiCarlson(n,m,n1=None,m1=None):
     if type(m) is not np.ndarray:
         m=np.array(m)
         n=np.array(n)
-    if m.shape==(0,):
-        return np.array([])
+    if m.size==0:
+        return np.zeros(m.shape)
     if n1 is None:
         n1 = 1-n
     if m1 is None:
-- 
2.43.0


From ed6fd3ff8f40504b671a01865446cee227db01e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 33/43] fix: elliptic integral of the third kind inaccurate for
 large negative characteristics

---
 wiz/elliptic.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/wiz/elliptic.py b/wiz/elliptic.py
index 5a4bbdc..6e0ba43 100644
--- a/wiz/elliptic.py
+++ b/wiz/elliptic.py
@@ -17,10 +17,11 @@ def ellipticPiCarlson(n,m,n1=None,m1=None):
     """
     # --- Performance parameters
     RES   = 1.e-12  # 
-    ITMAX = 20      # 20 iterations usually sufficient
+    ITMAX = 60      # NOTE: iterations stop at convergence, many are needed for large negative n
     # --- Residual. NOTE: a nan at one point should not stop the iterations of the other points
-    def maxabs(x):
-        return np.amax(np.nan_to_num(np.abs(x)))
+    #      Relative, the integrals may be small or multiplied by a large number
+    def maxres(x,xo):
+        return np.amax(np.nan_to_num(np.abs(x-xo)/np.abs(x)))
     # --- Subfunctions RF, RJ, RC
     def ellipticRF(y = None): 
         xo = np.zeros(y.shape)
@@ -50,7 +51,7 @@ def ellipticPiCarlson(n,m,n1=None,m1=None):
             s13 = s12*s1
             r = 5./26 * s13 + 3./ 26 * s2 ** 2
             RF = (mu**-0.5) * (1 + s1/5 + s2/7 + s12/6 + 3/11*s1*s2 + r)
-            res = maxabs(RF - RFo)
+            res = maxres(RF,RFo)
             RFo = RF
             xo = xn
             yo = yn
@@ -113,7 +114,7 @@ def ellipticPiCarlson(n,m,n1=None,m1=None):
                 rhs1 = rhs1 + 3 * 4 ** - nIt * ellipticRC(alfa,bet)
                 rhs2 = (4**-(nIt+1) * mu**-1.5) * (1+3/7*s1 + s2/3 + 3/22*s12 + 3/11*s3 + 3/13*(s1*s2 + s4) + r)
                 RJLoc = rhs1 + rhs2
-                res = maxabs(RJLoc - RJo)
+                res = maxres(RJLoc,RJo)
                 RJo = RJLoc
                 xo = xn
                 yo = yn
@@ -144,7 +145,7 @@ def ellipticPiCarlson(n,m,n1=None,m1=None):
             s5 = s4*s
             s6 = s5*s
             RC = (mu**-0.5)*(1+3/10*s2 + s3/7 + 3/8*s4 + 9/22*s5 + 159/208*s6)
-            res = maxabs(RC - RCo)
+            res = maxres(RC,RCo)
             RCo = RC
             xo = xn
             yo = yn
-- 
2.43.0


From 74b629045c1b8dad7dda3da6ce88d405c573b158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 34/43] fix: yaw_error was zero for a rotor facing exactly away
 from the wind

---
 wiz/WindTurbine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 3ae830b..0fdb553 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -219,6 +219,8 @@ class WindTurbine:
         u_skew  = self.U0_g-np.dot(self.U0_g.T,e_horz)*e_horz-np.dot(self.U0_g.T,self.e_vert_g)*self.e_vert_g
         e_w=self.U0_g/np.linalg.norm(self.U0_g)
         yaw_sign=np.sign  ( np.dot(np.cross(e_w.T,self.e_shaft_g.T),self.e_vert_g) )
+        if yaw_sign==0:
+            yaw_sign=1 # NOTE: rotor aligned with the wind, or facing away from it (180 deg)
         yaw_error=yaw_sign * np.arccos(np.clip(np.dot(e_w.T,self.e_shaft_g),-1,1))
 #         U0_wt = np.dot( self.T_wt2g.T , self.U0_g)
 #         e_skew=u_skew/np.linalg.norm(u_skew)
-- 
2.43.0


From 3b67cd65633814d8139561494e7a00c4ad300a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 35/43] fix: skewed doublet line returned nan or inaccurate
 velocities in the vicinity of the line (loss of precision)

---
 wiz/VortexDoublet.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/wiz/VortexDoublet.py b/wiz/VortexDoublet.py
index b3355fb..b75f576 100644
--- a/wiz/VortexDoublet.py
+++ b/wiz/VortexDoublet.py
@@ -203,10 +203,22 @@ def doublet_line_u(Xcp,Ycp,Zcp,dmz_dz,m=0,L=np.inf):
             return ux,uy,uz
 
         if L==np.inf:
-            i30  = I30 (a,b,c) # NOTE: not scaling
-            ti50 = tI50(a,b,c) # = 3 x I50
-            ti51 = tI51(a,b,c) # = 3 x I50
-            ti52 = tI52(a,b,c) # = 3 x I50
+            # NOTE: combination of I30, 3*I50, 3*I51, 3*I52 (see functions I30, tI50, tI51, tI52), arranged such that 
+            #       the differences that vanish on the line (ac-b, cz-a, cx-ma) are computed without loss of precision
+            DX  = Xcp-m*Zcp
+            acb = a*c-b
+            cza = c*Zcp-a
+            Ib  = b>0
+            Iz  = Zcp>0
+            acb[Ib] =  (DX**2 + (c*Ycp)**2)[Ib]/(a*c+b)[Ib]
+            cza[Iz] = -(DX*(Xcp+m*Zcp) + Ycp**2)[Iz]/(c*Zcp+a)[Iz]
+            cxma    = c*DX + m*cza
+            fact1 = 1/(acb*a**3)
+            fact2 = cza/(acb**2*a**2*c)
+            uz[bOK] = dmz_dz/(4*np.pi)  * (fact1 * (Zcp**2-a**2) + fact2 * cza  )
+            ux[bOK] = dmz_dz/(4*np.pi)  * (fact1 * Xcp*Zcp       + fact2 * cxma )
+            uy[bOK] = dmz_dz/(4*np.pi)  * (fact1 * Ycp*Zcp       + fact2 * c*Ycp)
+            return ux,uy,uz
         else:
             i30, ti50, ti51, ti52 = _integrals_DL_finite(a,b,c,L) #= I30, 3*I50, 3*I51, 3*I52
 
-- 
2.43.0


From 4498d7565206f85b138d3fe88cf633c7ddd524a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 36/43] fix: wrong velocity of a doublet line of finite length
 next to its extensions (loss of precision)

---
 wiz/VortexDoublet.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/wiz/VortexDoublet.py b/wiz/VortexDoublet.py
index b75f576..92d4b83 100644
--- a/wiz/VortexDoublet.py
+++ b/wiz/VortexDoublet.py
@@ -220,11 +220,17 @@ def doublet_line_u(Xcp,Ycp,Zcp,dmz_dz,m=0,L=np.inf):
             uy[bOK] = dmz_dz/(4*np.pi)  * (fact1 * Ycp*Zcp       + fact2 * c*Ycp)
             return ux,uy,uz
         else:
-            i30, ti50, ti51, ti52 = _integrals_DL_finite(a,b,c,L) #= I30, 3*I50, 3*I51, 3*I52
-
-        uz[bOK] = dmz_dz/(4*np.pi)  * (       Zcp**2 * ti50 +   ti52 - 2*Zcp * ti51 - i30 )
-        ux[bOK] = dmz_dz/(4*np.pi)  * ( Xcp * Zcp    * ti50 + m*ti52 - (m*Zcp+Xcp) * ti51 )
-        uy[bOK] = dmz_dz/(4*np.pi)  * ( Ycp * Zcp    * ti50         -        Ycp   * ti51 )
+            # NOTE: the integrals of the finite line (see _integrals_DL_finite) loose their precision next to the line and its extensions.
+            #       A difference of two semi-infinite lines is used, starting from both ends. They both go along the line, towards the 
+            #       positive z or negative z (inversion of the coordinates), such that the control points beyond the ends are not on them.
+            s = np.where(b < c**2*L/2, 1, -1)
+            X0, Y0, Z0 = s* Xcp      , s*Ycp, s* Zcp
+            XL, YL, ZL = s*(Xcp-m*L) , s*Ycp, s*(Zcp-L)
+            ux0, uy0, uz0 = doublet_line_u(X0, Y0, Z0, dmz_dz, m=m)
+            uxL, uyL, uzL = doublet_line_u(XL, YL, ZL, dmz_dz, m=m)
+            ux[bOK] = s*(ux0 - uxL)
+            uy[bOK] = s*(uy0 - uyL)
+            uz[bOK] = s*(uz0 - uzL)
 
     return ux,uy,uz 
 
-- 
2.43.0


From 8da4eaa8eac41067142abc68806d4233b9dab609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:02 +0000
Subject: [PATCH 37/43] fix: vp_u returned NaN on the vortex itself (no
 velocity, as in vps_u)

---
 wiz/VortexPoint.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wiz/VortexPoint.py b/wiz/VortexPoint.py
index 556081f..0e2740d 100644
--- a/wiz/VortexPoint.py
+++ b/wiz/VortexPoint.py
@@ -13,8 +13,11 @@ def vp_u(CP,Pv,Gamma=1,rcore=0,bViscous=False):
     Pv: position of vortex
     """
     DP = CP - Pv
-    r2 = DP[0] ** 2 + DP[1] ** 2
-    t = np.array([- DP[1],DP[0]])
+    r2 = np.asarray(DP[0] ** 2 + DP[1] ** 2, dtype=float)
+    # NOTE: no velocity on the vortex itself, whatever the model (as done in vps_u)
+    bSelf = r2 < 1e-15
+    r2 = np.where(bSelf, 1, r2)
+    t = np.where(bSelf, 0, np.array([- DP[1],DP[0]]))
     if bViscous:
         U = Gamma * t[0] / r2 / (2 * np.pi) * (1 - np.exp(- r2 / rcore ** 2))
         V = Gamma * t[1] / r2 / (2 * np.pi) * (1 - np.exp(- r2 / rcore ** 2))
-- 
2.43.0


From e7a6ab489b2ac55dabe463e937f60483ca01e4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:07 +0000
Subject: [PATCH 38/43] fix: fKxit and fKzt were inaccurate for small skews
 (loss of precision in 1/m^2)

---
 wiz/VortexCylinderSkewed.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 4abf878..ebef667 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -405,6 +405,19 @@ def fV_Root(vr,vpsi,vz, m =0, Gamma_r=-1,nout=1):
 # --------------------------------------------------------------------------------}
 # --- Rotor plane flow expansions 
 # --------------------------------------------------------------------------------{
+def fKxit_small_skew(vr,m,n=1000):
+    """ Returns Kxit for small m=tan(chi), where the closed form loses its precision (differences of terms in 1/m^2).
+    Azimuthal integration (see "alternative form 1" in fKzt), with nodes clustered next to the rotor edge. """
+    s   = (np.arange(n)+0.5)*np.pi/n
+    Kxit= np.zeros(vr.shape)
+    for ir,r in enumerate(vr):
+        k       = (1-r)/(1+r)
+        q       = np.cos(s/2)**2 + k*np.sin(s/2)**2             # tan(theta/2) = sqrt(k) tan(s/2)
+        sin2    = k*np.sin(s)**2/q**2                           # sin^2(theta)
+        D2      = (1-r)**2 + 4*r*k*np.sin(s/2)**2/q             # 1+r^2-2r cos(theta)
+        Kxit[ir]= r*(1+m**2)/n * np.sum(sin2/(np.sqrt(D2)*(D2+m**2*sin2)) * np.sqrt(k)/q)
+    return Kxit
+
 def fKxit(vr,m):
     """ Returns Kxit according to yaw article . vr is in [0;1], m=tan(chi)"""
     EPSILON_AXIS=1e-7; # relative threshold for using axis formula
@@ -429,6 +442,8 @@ def fKxit(vr,m):
         b0 = np.logical_not(b1)
         Kxit[b1] = np.multiply(1/(np.pi)*np.sqrt(1.0/vr[b1]),(np.multiply((2 - k2[b1]) / k[b1],K[b1]) - np.multiply(2.0/k[b1],E[b1])))
         Kxit[b0] = 0
+    elif abs(m)<0.1:
+        Kxit = fKxit_small_skew(vr,m)
     else:
         bI = (vr) > (EPSILON_AXIS) 
         b0 = np.logical_not(bI)
@@ -463,6 +478,8 @@ def fKzt(r,m,nout=2):
     Pi1 = ellipticPiCarlson(- b1,j2)
     Pi2 = ellipticPiCarlson(b2,j2)
     Kzt = np.multiply(2 * np.sqrt(1 + m ** 2) * r / (m * np.pi),kr2) - np.multiply(np.multiply(r,(r + 1)) / (2 * m * np.pi * np.sqrt(m ** 2 + r ** 2)),(np.multiply((b1 + j2),Pi1) + np.multiply((b2 - j2),Pi2)))
+    if abs(m)<0.1:
+        Kzt = np.sin(chi)*fKxit_small_skew(vr,m)
     # Coleman formula B.5 term 3 and 4  !!!!! Note the minus sign added
     vtheta = np.linspace(0,np.pi,1000)
     for ir,r in enumerate(vr):
-- 
2.43.0


From 33ed99e9a5c327cee460644bc46b3a50e3d22303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 39/43] fix: loadPlane opens the data of the neighbouring CT
 for some values (e.g. 0.57 -> CT056)

---
 wiz/article_blockage/helper_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/article_blockage/helper_functions.py b/wiz/article_blockage/helper_functions.py
index 9107f7e..e72f5ac 100644
--- a/wiz/article_blockage/helper_functions.py
+++ b/wiz/article_blockage/helper_functions.py
@@ -473,7 +473,7 @@ def loadPlane(CT,HH,Lambda,Horizontal,Yaw):
     if HH>9:
         HH=9.9
 
-    base='CT0{:d}_HH{:02d}_Lambda{:02d}_Yaw{:02d}'.format(int(CT*100),int(HH*10),Lambda,-Yaw)
+    base='CT0{:d}_HH{:02d}_Lambda{:02d}_Yaw{:02d}'.format(int(round(CT*100)),int(HH*10),Lambda,-Yaw)
 
     if HH>9:
         # Handling unavailable data
-- 
2.43.0


From 4b33f4b6dbf66d91fdc89fae2797683d91b45443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:17 +0000
Subject: [PATCH 40/43] fix: cylinder_tang_u ignored its regularization
 parameter

---
 wiz/VortexCylinder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index 594a5e1..e345841 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -336,8 +336,8 @@ def cylinder_tang_u(Xcp,Ycp,Zcp,gamma_t=-1,R=1,z1=-2,z2=2,polar_out=True,epsilon
             return np.array([]),np.array([]),np.array([]),
 
     # Difference of two semi-infinite cylinders, see vc_tang_u for the special values (axis and r=R)
-    ur1,uz1 = vc_tang_u(Xcp,Ycp,Zcp-z1,gamma_t=gamma_t,R=R,polar_out=True)
-    ur2,uz2 = vc_tang_u(Xcp,Ycp,Zcp-z2,gamma_t=gamma_t,R=R,polar_out=True)
+    ur1,uz1 = vc_tang_u(Xcp,Ycp,Zcp-z1,gamma_t=gamma_t,R=R,polar_out=True,epsilon=epsilon)
+    ur2,uz2 = vc_tang_u(Xcp,Ycp,Zcp-z2,gamma_t=gamma_t,R=R,polar_out=True,epsilon=epsilon)
     ur = ur1-ur2
     uz = uz1-uz2
     if polar_out:
-- 
2.43.0


From af8d744f96c01b53809d0a680de3b46bb1822ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:48 +0000
Subject: [PATCH 41/43] fix: svc_u_polar ignored polar_out and returned
 Cartesian components

---
 wiz/VortexCylinderSkewed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index ebef667..283a8f1 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -233,12 +233,12 @@ def svc_u_polar(vr,vpsi,vz,gamma_t,gamma_l,Gamma_r,R=1,m=0,ntheta=180,polar_out=
        - longitudinal vorticity gamma_l
        - a root vortex, Gamma_r
     """
-    u1 ,u2 ,u3  = svc_longi_u_polar(vr,vpsi,vz,gamma_l,R=R,m=m,ntheta=ntheta,polar_out=False)
-    u1t,u2t,u3t = svc_tang_u_polar (vr,vpsi,vz,gamma_t,R=R,m=m,ntheta=ntheta,polar_out=False)
+    u1 ,u2 ,u3  = svc_longi_u_polar(vr,vpsi,vz,gamma_l,R=R,m=m,ntheta=ntheta,polar_out=polar_out)
+    u1t,u2t,u3t = svc_tang_u_polar (vr,vpsi,vz,gamma_t,R=R,m=m,ntheta=ntheta,polar_out=polar_out)
     u1 += u1t
     u2 += u2t
     u3 += u3t
-    u1t,u2t,u3t = svc_root_u_polar (vr,vpsi,vz,Gamma_r    ,m=m,           polar_out=False)
+    u1t,u2t,u3t = svc_root_u_polar (vr,vpsi,vz,Gamma_r    ,m=m,           polar_out=polar_out)
     u1 += u1t
     u2 += u2t
     u3 += u3t
-- 
2.43.0


From b2b68bf41e2f8076ab9bc93f4d7e31ec903dbc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:53 +0000
Subject: [PATCH 42/43] fix: orth_vect (and rotor_disk_points) failed for
 vectors with three equal components

---
 wiz/WindTurbine.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 0fdb553..ca608c6 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -32,11 +32,12 @@ def RotMat_AxisAngle(u,theta):
 def orth_vect(u):
     """ Given one vector, returns a 3x1 orthonormal vector to it"""
     u=(u/np.linalg.norm(u)).ravel()
-    if abs(u[0])>=1/np.sqrt(3):
+    lim=(1-1e-10)/np.sqrt(3) # NOTE: margin for round-off errors when the three components are equal
+    if abs(u[0])>=lim:
         v = np.array([[-u[1]],[u[0]] ,[0]]    )
-    elif abs(u[1])>=1/np.sqrt(3):
+    elif abs(u[1])>=lim:
         v = np.array([[0]    ,[-u[2]],[u[1]]] )
-    elif abs(u[2])>=1/np.sqrt(3):
+    elif abs(u[2])>=lim:
         v = np.array([[u[2]] ,[0]    ,[-u[0]]])
     else:
         raise Exception('Cannot find orthogonal vector to a zero vector: {} '.format(u))
-- 
2.43.0


From f36fad20898fd075c506e8c812f06fea2c4db0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:15 +0000
Subject: [PATCH 43/43] fix: plotting planes with lines no longer changes the
 matplotlib settings of the user

---
 coupling_examples/helper_functions.py    |  6 +++---
 wiz/article_blockage/helper_functions.py | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/coupling_examples/helper_functions.py b/coupling_examples/helper_functions.py
index 76d2ae2..19281b7 100644
--- a/coupling_examples/helper_functions.py
+++ b/coupling_examples/helper_functions.py
@@ -1,7 +1,7 @@
 import numpy as np
 import os
 import matplotlib.pyplot as plt
-from matplotlib import rcParams
+from matplotlib import rc_context
 import matplotlib.colors as mcolors
 from mpl_toolkits.axes_grid1 import make_axes_locatable
 
@@ -71,8 +71,8 @@ def plotPlane(x,y,u,v,ax,minSpeed=None,maxSpeed=None, cmap='coolwarm', colors='w
     # Plot the cut-through
     im = ax.pcolormesh(x, y, Z, cmap=cmap, vmin=minSpeed, vmax=maxSpeed)
     if levelsLines is not None:
-        rcParams['contour.negative_linestyle'] = 'solid'
-        cs=ax.contour(x, y, Z, levels=levelsLines, colors=colors, linewidths=linewidths, alpha=alpha)
+        with rc_context({'contour.negative_linestyle':'solid'}): # NOTE: the settings of the user are kept
+            cs=ax.contour(x, y, Z, levels=levelsLines, colors=colors, linewidths=linewidths, alpha=alpha)
 
     if nStreamlines>0:
         yseed=np.linspace(min(y)*0.9,max(y)*0.9,nStreamlines)
diff --git a/wiz/article_blockage/helper_functions.py b/wiz/article_blockage/helper_functions.py
index e72f5ac..4073306 100644
--- a/wiz/article_blockage/helper_functions.py
+++ b/wiz/article_blockage/helper_functions.py
@@ -2,7 +2,7 @@ import numpy as np
 import os
 import matplotlib
 import matplotlib.pyplot as plt
-from matplotlib import rcParams
+from matplotlib import rc_context
 import matplotlib.colors as mcolors
 from mpl_toolkits.axes_grid1 import make_axes_locatable
 import scipy.io
@@ -691,8 +691,8 @@ def plotPlane(data,X=None,Y=None,Z=None,ax=None,minSpeed=None,maxSpeed=None, cma
         im = ax.contourf  (x, y, Z, levels=levelsContour, cmap=cmap, vmin=minSpeed, vmax=maxSpeed)
 
     if levelsLines is not None:
-        rcParams['contour.negative_linestyle'] = 'solid'
-        cs=ax.contour(x, y, Z, levels=levelsLines, colors=colors, linewidths=linewidths, alpha=alpha, linestyles=ls)
+        with rc_context({'contour.negative_linestyle':'solid'}): # NOTE: the settings of the user are kept
+            cs=ax.contour(x, y, Z, levels=levelsLines, colors=colors, linewidths=linewidths, alpha=alpha, linestyles=ls)
 #         ax.clabel(cs,list(levelsLines))
 
     if nStreamlines>0:
@@ -746,8 +746,8 @@ def plotPlaneVert(Y,Z,V,W,ax=None,minSpeed=None,maxSpeed=None, cmap='coolwarm',
         im = ax.contourf  (vz, vy, Z.T, levels=levelsContour, cmap=cmap, vmin=minSpeed, vmax=maxSpeed)
 
     if levelsLines is not None:
-        rcParams['contour.negative_linestyle'] = 'solid'
-        cs=ax.contour(vz, vy, Z.T, levels=levelsLines, colors=colors, linewidths=linewidths, alpha=alpha, linestyles=ls)
+        with rc_context({'contour.negative_linestyle':'solid'}): # NOTE: the settings of the user are kept
+            cs=ax.contour(vz, vy, Z.T, levels=levelsLines, colors=colors, linewidths=linewidths, alpha=alpha, linestyles=ls)
 #         ax.clabel(cs,list(levelsLines))
 
     ax.set_ylabel('z/R [-]')
-- 
2.43.0

