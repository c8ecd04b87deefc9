From 2b941375cd960561d8da38bddb061ec7ccdb9644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 01/24] fix: finite doublet line, coefficient of the linear
 term of the I50 antiderivative

---
 wiz/VortexDoublet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexDoublet.py b/wiz/VortexDoublet.py
index 348affe..3b95f2f 100644
--- a/wiz/VortexDoublet.py
+++ b/wiz/VortexDoublet.py
@@ -343,7 +343,7 @@ def _integrals_DL_finite(a,b,c,L):
         s=np.sign(b)
         return 3*s/(4*c*(a -s*c*x)**4)
     def i50indef_norm(a,b,c,x):
-        return ( b*(b**2 - 3*a**2*c**2) + 2*c**2*(b**2 + a**2*c**2)*x - 6*b*c**4*x**2 + 2*c**6*x**3 )/ ((b**2 - a**2*c**2)**2*(a**2 - 2*b*x + c**2*x**2)**(3/2) ) 
+        return ( b*(b**2 - 3*a**2*c**2) + 3*c**2*(b**2 + a**2*c**2)*x - 6*b*c**4*x**2 + 2*c**6*x**3 )/ ((b**2 - a**2*c**2)**2*(a**2 - 2*b*x + c**2*x**2)**(3/2) ) 
     # I51 = \int_0^L  x'   / ( a^2  - 2 b x'  + c^2 x'^2 )^(5/2) dx'
     def i51indef_sing(a,b,c,x):
         s=np.sign(b)
-- 
2.43.0


From f1483d720538c905c0838512c59f8f898307b2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 02/24] fix: svc_longi_u_polar returned u_psi as the radial
 component

---
 wiz/VortexCylinderSkewed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index d1001c9..8dda673 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -153,7 +153,7 @@ def svc_longi_u_polar(vr,vpsi,vz,gamma_l=-1,R=1,m=0,ntheta=180,polar_out=False):
             u_psi[i] = np.trapz((r - m*z*np.cos(psi) - np.cos(vtheta-psi))*DenInv,vtheta)
             u_z[i]   = np.trapz(m * (-np.sin(vtheta) + r*np.sin(psi))     *DenInv,vtheta)
         # Reshaping to input shape
-        u_r   =  u_psi.reshape(shape_in) 
+        u_r   =  u_r.reshape(shape_in) 
         u_psi =  u_psi.reshape(shape_in) 
         u_z   =  u_z.reshape(shape_in)   
         return (u_r,u_psi,u_z)
-- 
2.43.0


From 95436904c9004c605cd2ec4172362b086e278171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 03/24] fix: svc_root_u_polar, radial component did not have
 the shape of the control points

---
 wiz/VortexCylinderSkewed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 8dda673..c6139c9 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -223,7 +223,7 @@ def svc_root_u_polar(vr,vpsi,vz,Gamma_r=-1,m=0,polar_out=False):
     # Reshaping to input shape
     u_z   =  u_z.reshape(shape_in) 
     if polar_out:
-        u_r   = u_x * np.cos(vpsi) + u_y * np.sin(vpsi)
+        u_r   = (u_x * np.cos(vpsi) + u_y * np.sin(vpsi)).reshape(shape_in)
         u_psi = u_psi.reshape(shape_in) 
         return (u_r,u_psi,u_z)
     else:
-- 
2.43.0


From 3c219a839289c01169a3f30a5a0ae6b864082382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 04/24] fix: WindTurbine, wake skew angle follows updates of
 the wind and yaw position

---
 wiz/WindTurbine.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 6405d68..364e269 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -86,6 +86,7 @@ class WindTurbine:
         self.Lambda=Lambda
         self.Ground=Ground # Ground effect will be included in calculation of induced velocity
         self.chi=None
+        self.chi_set=False # True once the skew angle is prescribed with `set_chi`
         self.Model=Model
 
     def set_yaw0_coord(self,e_shaft_yaw0,e_vert):
@@ -242,6 +243,7 @@ class WindTurbine:
 
     def set_chi(self,chi):
         self.chi=chi
+        self.chi_set=chi is not None
     
     def compute_u(self, Xg, Yg, Zg, only_ind=False, longi=False, tang=True, root=False, no_wake=False, ground=None, Model=None, R_far_field=6): 
         """ 
@@ -271,7 +273,8 @@ class WindTurbine:
         Xc,Yc,Zc = transform_T(T_c2g, Xg,Yg,Zg)
         # Detecting whether our vertical convention match, and define chi
         e_vert_c = np.dot(T_c2g.T , self.e_vert_g)
-        if self.chi is None:
+        if not self.chi_set:
+            # NOTE: wind and yaw position may have changed since the last call
             # TODO TODO chi needs induction effect!
             self.chi= np.sign(e_vert_c.ravel()[1])* (self.yaw_wind-self.yaw_pos)
         if self.gamma_t is None:
-- 
2.43.0


From 3858e34a49b1ac75a1b0cdde72258575d066f091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 05/24] fix: vl_semiinf_u, viscous core models 1-3 used the
 undefined end point of the line

---
 wiz/VortexLine.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/wiz/VortexLine.py b/wiz/VortexLine.py
index 065dca8..da5293d 100644
--- a/wiz/VortexLine.py
+++ b/wiz/VortexLine.py
@@ -31,21 +31,18 @@ def vl_semiinf_u(xa,ya,za,xe,ye,ze,Gamma,visc_model,t):
         Kv = 1.0
     elif visc_model==1:
         # Rankine  - t<=>rc 
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
-        h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2) / norm_r0
+        h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2) # distance to the line
         if (h < t):
             Kv = h * h / t / t
         else:
             Kv = 1.0
     elif visc_model==2:
         # Lamb-Oseen  - t<=>rc
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
-        h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2) / norm_r0
+        h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2) # distance to the line
         Kv = 1.0 - np.exp(- 1.25643 * h * h / t / t)
     elif visc_model==3:
         # Vatistas n=2  - t<=>rc */
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
-        h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2) / norm_r0
+        h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2) # distance to the line
         Kv = h * h / np.sqrt(t ** 4 + h ** 4)
     elif visc_model==4:
         # Cut-off radius no dimensions - delta*norm(r0)^2 - t<=>delta^2
-- 
2.43.0


From 15b043d588da28085deee10f20eaa55dfa259816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 06/24] fix: continuous wake vorticity solver overwrote the
 radial stations of the caller

---
 wiz/Solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index b1a6be4..f10dbe6 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -77,6 +77,7 @@ def InductionsFromCirculation_VC_Cont(vr_bar,lambda_r,k,bSwirl,method='analytica
     Ct_c = 4*ac*(1-ac)
     misc={}
     # Safety
+    lambda_r = np.array(lambda_r,dtype=float) # copy, inputs are left untouched
     if lambda_r[0]==0:
         lambda_r[0]=lambda_r[1]*0.01;
     # --- Finding Cylinders intensities
@@ -120,7 +121,7 @@ def WakeVorticityFromCirculation_Cont(r_cp,Gamma_cp,R,U0,Omega,bSwirl,method='an
     Uses continuous formulation to find wake vorticity that matches a given circulation distribution
     (need to solve for pitch angle, and hence induction)
     """
-    r_cp     = np.asarray(r_cp).ravel()
+    r_cp     = np.array(r_cp,dtype=float).ravel() # copy, inputs are left untouched
     Gamma_cp = np.asarray(Gamma_cp).ravel()
     if r_cp[0]==0:
         r_cp[0]=r_cp[1]*0.5;
-- 
2.43.0


From 068857525dc78424c64496f432acb454034994b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 07/24] fix: discrete wake vorticity solver, tangential
 convection velocity of Eq. (26)

---
 wiz/Solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index f10dbe6..9440429 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -197,8 +197,8 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
             # Tangential convection velocity as the mean of velocity on both side of the cylinder)
             # See Equation (26) of [1]:  a'_c,i = (\Gamma_i+\Gamma_i+1)/(4 pi Omega R_i^2)
             ap_cyl_conv      = np.zeros(Gamma_cp.shape)
-            ap_cyl_conv[:-1] = (Gamma_cp[:-1] + Gamma_cp[1:])/(4*np.pi*Omega*r_cyl[:-1])**2
-            ap_cyl_conv[-1]  = Gamma_cp[-1]/(4*np.pi*Omega*r_cyl[-1])**2
+            ap_cyl_conv[:-1] = (Gamma_cp[:-1] + Gamma_cp[1:])/(4*np.pi*Omega*r_cyl[:-1]**2)
+            ap_cyl_conv[-1]  = Gamma_cp[-1]/(4*np.pi*Omega*r_cyl[-1]**2)
         # --- Allocation
         b           = np.zeros(n) # Cummulative sum of gamma_bar
         S           = np.zeros(n) # Term under the square root
-- 
2.43.0


From 06e582dde10effe85fc16ba941d784a3711aaad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 08/24] fix: discrete wake vorticity solver, warning for
 enclosed control points stopped in the debugger

---
 wiz/Solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index 9440429..97c0bcf 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -14,6 +14,7 @@ import unittest
 import numpy as np
 import scipy.optimize as sciopt
 import scipy.integrate as sciint
+import warnings
 
 
 def Ct_const_cutoff(CT0,r_bar_cut,vr_bar,r_bar_tip=None):
@@ -171,7 +172,6 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
     # --- Checks
     if np.amax(r_cyl) < np.amax(r_cp):
         warnings.warn('Cylinders are assumed to enclose the control points')
-        import pdb; pdb.set_trace()
     if r_cyl[0] == 0:
         raise Exception('First cylinder at 0, impossible')
 
-- 
2.43.0


From 23b0e04712f63cd421d1374dda225f658470d86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 09/24] fix: vps_u, dimension check compared the vortex
 positions with themselves

---
 wiz/VortexPoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexPoint.py b/wiz/VortexPoint.py
index 556081f..e36ea4c 100644
--- a/wiz/VortexPoint.py
+++ b/wiz/VortexPoint.py
@@ -39,7 +39,7 @@ def vps_u(CP,XV,Gammas,SmoothModel=0,KernelOrder=2,SmoothParam=None):
     ncp    = CP.shape[0]
     nv     = XV.shape[0]
     ndim   = XV.shape[1]
-    ndimCP = XV.shape[1]
+    ndimCP = CP.shape[1]
     if ndim != ndimCP:
         raise Exception('Your control points and vortex point do not have the same dimension.')
 
-- 
2.43.0


From fea25a419e301c156dd27dd1644f1815de3653a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 10/24] fix: gridLayout failed with the default longitudinal
 spacing

---
 wiz/WindFarm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiz/WindFarm.py b/wiz/WindFarm.py
index a3b4794..523bba2 100644
--- a/wiz/WindFarm.py
+++ b/wiz/WindFarm.py
@@ -92,6 +92,8 @@ def gridLayout(nx,xSpacing,nz,zSpacing=None,hub_height=0,mirror=False):
           z is longi, positive along the wake
       If mirror is true, mirrored turbines are placed at y=-hubheight
     """
+    if zSpacing is None:
+        zSpacing=xSpacing
     if mirror:
         ny=2
     else:
-- 
2.43.0


From 4b87fcbd294eff4bcf6fa63e5c8f83cac0f36f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 11/24] fix: ring_u_polar, linear regularization ignored the
 intensity and radius of the ring

---
 wiz/VortexRing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiz/VortexRing.py b/wiz/VortexRing.py
index 913f879..7fd81c4 100644
--- a/wiz/VortexRing.py
+++ b/wiz/VortexRing.py
@@ -87,8 +87,8 @@ def ring_u_polar(r,z,Gamma=-1,r0=1,z0=0,epsilon=0, reg_method='Saffman'):
             # Continuity in z
             rr= r0-epsilon/2
             zz= 0
-            _,uzp = ring_u_polar_singular(r0+epsilon/2, 0)
-            _,uzm = ring_u_polar_singular(r0-epsilon/2, 0)
+            _,uzp = ring_u_polar_singular(r0+epsilon/2, 0, Gamma, r0)
+            _,uzm = ring_u_polar_singular(r0-epsilon/2, 0, Gamma, r0)
             uz_mean = uzp+uzm
             #r_ref = 
             #Ir = rho < epsilon/2 
-- 
2.43.0


From 53250f3f452e76ef5980b997a14e49aaee38b3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 12/24] fix: straight vortex line, velocity on the axis was not
 finite

---
 wiz/VortexLine.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wiz/VortexLine.py b/wiz/VortexLine.py
index da5293d..7e4f357 100644
--- a/wiz/VortexLine.py
+++ b/wiz/VortexLine.py
@@ -75,7 +75,10 @@ def vl_semiinf_straight_u_polar(vr,vpsi,vz,Gamma_r=-1,polar_out=False):
     vpsi     = np.asarray(vpsi)
     vz       = np.asarray(vz)
 
-    u_psi = Gamma_r/(4*np.pi*vr) * ( 1 + vz/np.sqrt(vr**2 + vz**2) ) 
+    # Velocity is zero on the axis (upstream by symmetry, by convention on the line)
+    bAxis = vr==0
+    vr    = np.where(bAxis, 1, vr)
+    u_psi = np.where(bAxis, 0, Gamma_r/(4*np.pi*vr) * ( 1 + vz/np.sqrt(vr**2 + vz**2) ))
 
     u_z = np.zeros(shape_in)
     if polar_out:
-- 
2.43.0


From ff8b308a758420dcc9b40a5041666adc7f63213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 13/24] fix: root vortex without skew, velocity on the axis was
 not finite

---
 wiz/VortexCylinderSkewed.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index c6139c9..f3a8cac 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -195,7 +195,9 @@ def svc_root_u_polar(vr,vpsi,vz,Gamma_r=-1,m=0,polar_out=False):
     # --- Computes ux, uy, uz, upsi
     u_z = np.zeros(vr.shape)
     if (m == 0):
-        u_psi = np.multiply(Gamma_r/(4*np.pi*vr), (1+vz/np.sqrt(vr** 2 + vz**2)))
+        bAxis = vr==0 # velocity is zero on the axis (upstream by symmetry, by convention on the line)
+        vr    = np.where(bAxis, 1, vr)
+        u_psi = np.where(bAxis, 0, np.multiply(Gamma_r/(4*np.pi*vr), (1+vz/np.sqrt(vr** 2 + vz**2))))
         u_x   = -np.sin(vpsi)*u_psi
         u_y   =  np.cos(vpsi)*u_psi
     else:
-- 
2.43.0


From 4e3ca473f699f43d41df9d272a812f4fbc1877f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 14/24] fix: cylinder of longitudinal vorticity, velocity on
 the axis and at r=R was not finite

---
 wiz/VortexCylinder.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index d3c0836..f42b20d 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -166,6 +166,9 @@ def vc_longi_u_polar(vr,vpsi,vz,gamma_l=-1,R=1,polar_out=False):
     EPSILON_AXIS=1e-7; # relative threshold for using axis formula
     # Flattening, and dimensionless!
     shape_in=vr.shape
+    bAxis = vr<EPSILON_AXIS*R
+    bRim  = vr==R
+    vr    = np.where(np.logical_or(bAxis,bRim), R/2, vr) # Temporary, replaced below
     m     = 4*vr*R/((vr+R)**2+vz**2)
     m0    = 4*vr*R/((vr+R)**2)
     K     = ellipk(m)
@@ -173,6 +176,11 @@ def vc_longi_u_polar(vr,vpsi,vz,gamma_l=-1,R=1,polar_out=False):
     Ar    = (vr-R+np.abs(R-vr))/(2*np.abs(R-vr))
     Az    = vz*np.sqrt(m)/(2*np.pi*np.sqrt(vr*R))*(K-(R-vr)/(R+vr)*PI)
     u_psi = gamma_l/2*R/vr*(Ar +Az)
+    # --- Special values: on the axis, and at r=R (mean value over the sheet, the term with PI vanishes)
+    u_psi = np.where(bAxis, 0, u_psi)
+    mR    = 4*R**2/(4*R**2+vz**2)
+    mR    = np.where(vz==0, 0, mR)
+    u_psi = np.where(bRim, gamma_l/2*(1/2 + vz*np.sqrt(mR)/(2*np.pi*R)*ellipk(mR)), u_psi)
     u_z = np.zeros(shape_in)
     if polar_out:
         u_r = np.zeros(shape_in)
-- 
2.43.0


From 8a57ae93b30ebc9d613f7856a50f822721f37c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 15/24] fix: finite vortex cylinder, velocity on the axis and
 at r=R was not finite

---
 wiz/VortexCylinder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index f42b20d..b8e9687 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -322,6 +322,8 @@ def cylinder_tang_u(Xcp,Ycp,Zcp,gamma_t=-1,R=1,z1=-2,z2=2,polar_out=True,epsilon
     ## Vectorialization
     zz1 = Zcp - z1
     zz2 = Zcp - z2
+    Iz  = r < (EPSILON_AXIS * R)
+    r   = np.where(Iz, R, r) # Temporary, replaced by the axis formula below
     
     # Eliptic integrals
     k1_2 = 4 * r * R / ((R + r) ** 2 + zz1 ** 2)
@@ -336,10 +338,15 @@ def cylinder_tang_u(Xcp,Ycp,Zcp,gamma_t=-1,R=1,z1=-2,z2=2,polar_out=True,epsilon
     KK2 = ellipk(k2_2)
     PI1 = ellipticPiCarlson(k0_2,k1_2)
     PI2 = ellipticPiCarlson(k0_2,k2_2)
+    PI1 = np.where(r==R, 0, PI1) # when r==R, (R-r)*PI=0
+    PI2 = np.where(r==R, 0, PI2)
     # ur
     ur = np.multiply(gamma_t / (2 * np.pi) * np.sqrt(R / r),((np.multiply((2 - k2_2) / k2,KK2) - np.multiply(2.0 / k2,EE2)) - (np.multiply((2 - k1_2) / k1,KK1) - np.multiply(2.0 / k1,EE1))))
     # uz
     uz = np.multiply(- gamma_t / (4 * np.pi * np.sqrt(r * R)),((np.multiply(np.multiply(zz2,k2),(KK2 + np.multiply((R - r) / (R + r),PI2)))) - (np.multiply(np.multiply(zz1,k1),(KK1 + np.multiply((R - r) / (R + r),PI1))))))
+    # Axis formula
+    ur = np.where(Iz, 0, ur)
+    uz = np.where(Iz, -gamma_t/2*(zz2/np.sqrt(zz2**2+R**2) - zz1/np.sqrt(zz1**2+R**2)), uz)
     if polar_out:
         return ur,uz
     else:
-- 
2.43.0


From bb199111be75ec392c76bd475a253158af02d198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 16/24] fix: fKxit, the parameter b1 of the skewed case was
 overwritten by a mask

---
 wiz/VortexCylinderSkewed.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index f3a8cac..0d59135 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -435,10 +435,10 @@ def fKxit(vr,m):
         Kxit[b1] = np.multiply(1/(np.pi)*np.sqrt(1.0/vr[b1]),(np.multiply((2 - k2[b1]) / k[b1],K[b1]) - np.multiply(2.0/k[b1],E[b1])))
         Kxit[b0] = 0
     else:
-        b1 = (vr) > (EPSILON_AXIS) 
-        b0 = np.logical_not(b1)
-        Kxit[b1] = np.multiply(2*(1+m**2)*vr[b1]/(m**2*np.pi),kr2[b1]) - np.multiply(np.multiply(vr[b1],(vr[b1] + 1))*np.sqrt(m ** 2 + 1)/(2*m**2*np.pi*np.sqrt(m**2+vr[b1]**2)),(np.multiply((b1[b1]+j2[b1]),Pi1[b1]) + np.multiply((b2[b1]-j2[b1]),Pi2[b1])))
-        Kxit[b0] = 0
+        I1 = (vr) > (EPSILON_AXIS) 
+        I0 = np.logical_not(I1)
+        Kxit[I1] = np.multiply(2*(1+m**2)*vr[I1]/(m**2*np.pi),kr2[I1]) - np.multiply(np.multiply(vr[I1],(vr[I1] + 1))*np.sqrt(m ** 2 + 1)/(2*m**2*np.pi*np.sqrt(m**2+vr[I1]**2)),(np.multiply((b1[I1]+j2[I1]),Pi1[I1]) + np.multiply((b2[I1]-j2[I1]),Pi2[I1])))
+        Kxit[I0] = 0
     # See yaw article
     chi = np.arctan(m)
     vtheta = np.linspace(0,np.pi / 2,1000)
-- 
2.43.0


From fbc1ae6387ee81c08c5c49c627ec75e37c7b99a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 17/24] fix: fKzt, undefined skew angle with more than 3
 outputs

---
 wiz/VortexCylinderSkewed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 0d59135..f1b1033 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -457,6 +457,7 @@ def fKzt(r,m,nout=2):
     Kztnum = np.zeros(vr.shape)
     if m == 0:
         raise Exception('Not intended for m==0')
+    chi = np.arctan(m)
     k2 = ((1 - r) ** 2) / ((1 + r) ** 2)
     m1 = (np.sqrt(1 + m ** 2) + np.sqrt(r ** 2 + m ** 2)) / (1 + r)
     m2 = (np.sqrt(1 + m ** 2) - np.sqrt(r ** 2 + m ** 2)) / (1 + r)
-- 
2.43.0


From b3eac221234007c35c776e995375af499d173431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:54 +0000
Subject: [PATCH 18/24] fix: svcs_longi_u: ground effect evaluated the image at
 the point itself

---
 wiz/VortexCylinderSkewed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index f1b1033..1d88ed4 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -361,7 +361,7 @@ def svcs_longi_u(Xcp,Ycp,Zcp,gamma_l,R,m,Xcyl,Ycyl,Zcyl,ntheta=180,Ground=False)
                 else:
                     print('m',end='')
                 if np.abs(gamma_l[i,j]) > 0:
-                    ux1,uy1,uz1 = svc_longi_u(Xcp0,Ycp0,Zcp0,gamma_l[i,j],R[i,j],m[i,j],ntheta=ntheta,polar_out=False)
+                    ux1,uy1,uz1 = svc_longi_u(Xcp0,Y,Zcp0,gamma_l[i,j],R[i,j],m[i,j],ntheta=ntheta,polar_out=False)
                     ux = ux + ux1
                     uy = uy + uy1
                     uz = uz + uz1
-- 
2.43.0


From 1bb27bdfa2604492f28f801af8e185070b6adf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:24 +0000
Subject: [PATCH 19/24] fix: svc_u_polar: ignored the polar_out option

---
 wiz/VortexCylinderSkewed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 1d88ed4..72d4c97 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -239,12 +239,12 @@ def svc_u_polar(vr,vpsi,vz,gamma_t,gamma_l,Gamma_r,R=1,m=0,ntheta=180,polar_out=
        - longitudinal vorticity gamma_l
        - a root vortex, Gamma_r
     """
-    u1 ,u2 ,u3  = svc_longi_u_polar(vr,vpsi,vz,gamma_l,R=R,m=m,ntheta=ntheta,polar_out=False)
-    u1t,u2t,u3t = svc_tang_u_polar (vr,vpsi,vz,gamma_t,R=R,m=m,ntheta=ntheta,polar_out=False)
+    u1 ,u2 ,u3  = svc_longi_u_polar(vr,vpsi,vz,gamma_l,R=R,m=m,ntheta=ntheta,polar_out=polar_out)
+    u1t,u2t,u3t = svc_tang_u_polar (vr,vpsi,vz,gamma_t,R=R,m=m,ntheta=ntheta,polar_out=polar_out)
     u1 += u1t
     u2 += u2t
     u3 += u3t
-    u1t,u2t,u3t = svc_root_u_polar (vr,vpsi,vz,Gamma_r    ,m=m,           polar_out=False)
+    u1t,u2t,u3t = svc_root_u_polar (vr,vpsi,vz,Gamma_r    ,m=m,           polar_out=polar_out)
     u1 += u1t
     u2 += u2t
     u3 += u3t
-- 
2.43.0


From 4414d60499573a2b49988a3499ad6873b95ff2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:05 +0000
Subject: [PATCH 20/24] fix: compute_u, skew angle off by a full turn when wind
 and yaw angles are on different turns

---
 wiz/WindTurbine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 364e269..51e8e61 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -277,6 +277,8 @@ class WindTurbine:
             # NOTE: wind and yaw position may have changed since the last call
             # TODO TODO chi needs induction effect!
             self.chi= np.sign(e_vert_c.ravel()[1])* (self.yaw_wind-self.yaw_pos)
+            # Angle difference between -pi and pi (yaw_wind and yaw_pos are defined modulo 2pi)
+            self.chi= np.arctan2(np.sin(self.chi), np.cos(self.chi))
         if self.gamma_t is None:
             raise Exception('Please set loading with `update_loading` before calling `compute_u`')
 
-- 
2.43.0


From 5d16bd1a0e517ec4308734a56075894921a6d698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:21 +0000
Subject: [PATCH 21/24] fix: yaw angles are not nan when the wind is aligned
 with the shaft, and the yaw error is pi when it is opposite

---
 wiz/WindTurbine.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 51e8e61..25ce211 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -196,11 +196,8 @@ class WindTurbine:
         """
         u_horz = self.U0_g - np.dot(self.U0_g.T,self.e_vert_g)*self.e_vert_g
         e_w    = u_horz/np.linalg.norm(u_horz)
-        sign = np.sign  ( np.dot(np.cross(self.e_horz_g.T, self.U0_g.T),self.e_vert_g) )
-        if sign==0:
-            yaw_wind = np.arccos(np.dot(e_w.T,self.e_horz_g))
-        else:
-            yaw_wind = sign * np.arccos(np.dot(e_w.T,self.e_horz_g))
+        # NOTE: arctan2 instead of arccos, for which rounding may lead to nan when the wind is aligned with e_horz
+        yaw_wind = np.arctan2(np.dot(np.cross(self.e_horz_g.T, e_w.T),self.e_vert_g), np.dot(e_w.T,self.e_horz_g))
         return yaw_wind.ravel()[0]
 
     @property
@@ -209,8 +206,8 @@ class WindTurbine:
         e_horz = v_horz/np.linalg.norm(v_horz)
         u_skew  = self.U0_g-np.dot(self.U0_g.T,e_horz)*e_horz-np.dot(self.U0_g.T,self.e_vert_g)*self.e_vert_g
         e_w=self.U0_g/np.linalg.norm(self.U0_g)
-        yaw_sign=np.sign  ( np.dot(np.cross(e_w.T,self.e_shaft_g.T),self.e_vert_g) )
-        yaw_error=yaw_sign * np.arccos(np.dot(e_w.T,self.e_shaft_g))
+        # NOTE: arctan2 instead of arccos, for which rounding may lead to nan when the wind is aligned with the shaft
+        yaw_error=np.arctan2(np.dot(np.cross(e_w.T,self.e_shaft_g.T),self.e_vert_g), np.dot(e_w.T,self.e_shaft_g))
 #         U0_wt = np.dot( self.T_wt2g.T , self.U0_g)
 #         e_skew=u_skew/np.linalg.norm(u_skew)
 #         print('e_skew',e_skew.T)
-- 
2.43.0


From f4f82beabf93469749693de29f792bb438cf4ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:28 +0000
Subject: [PATCH 22/24] fix: velocity at points on the surface of a cylinder,
 up to rounding of their radius, is the mean value and not nan

---
 wiz/VortexCylinder.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index b8e9687..de99772 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -83,6 +83,7 @@ def vc_tang_u(Xcp,Ycp,Zcp,gamma_t=-1,R=1,polar_out=True,epsilon=0):
 
     Reference: [1,2],  in particular, equations (7-8) from [1]"""
     EPSILON_AXIS=1e-7; # relative threshold for using axis formula
+    EPSILON_RIM=1e-7; # relative threshold for using the mean value over the vortex sheet
 
     # --- Main corpus
     Xcp=np.asarray(Xcp)
@@ -104,6 +105,7 @@ def vc_tang_u(Xcp,Ycp,Zcp,gamma_t=-1,R=1,polar_out=True,epsilon=0):
     uz[Iz] = gamma_t/2 * (1 + z[Iz] / np.sqrt(z[Iz]** 2 + R**2))
     # Singularity on rotor and close to R
     IR = np.logical_and(np.abs((r-R))/R <1e-8 , np.abs(z/R)< 1e-8)
+    r  = np.where(np.abs(r-R)<EPSILON_RIM*R, R, r) # On the surface, up to rounding
     ur[IR] = 0          # TODO radial velocity is continuous
     uz[IR] = gamma_t/4 
 
@@ -164,10 +166,11 @@ def vc_longi_u_polar(vr,vpsi,vz,gamma_l=-1,R=1,polar_out=False):
     Reference: [1,2],  in particular, equation (21) from [1]
     """
     EPSILON_AXIS=1e-7; # relative threshold for using axis formula
+    EPSILON_RIM=1e-7; # relative threshold for using the mean value over the vortex sheet
     # Flattening, and dimensionless!
     shape_in=vr.shape
     bAxis = vr<EPSILON_AXIS*R
-    bRim  = vr==R
+    bRim  = np.abs(vr-R)<EPSILON_RIM*R
     vr    = np.where(np.logical_or(bAxis,bRim), R/2, vr) # Temporary, replaced below
     m     = 4*vr*R/((vr+R)**2+vz**2)
     m0    = 4*vr*R/((vr+R)**2)
@@ -305,6 +308,7 @@ def cylinder_tang_u(Xcp,Ycp,Zcp,gamma_t=-1,R=1,z1=-2,z2=2,polar_out=True,epsilon
       epsilon : Regularization parameter, e.g. epsilon=0.0001*R
     Reference: [1]"""
     EPSILON_AXIS=1e-7; # relative threshold for using axis formula
+    EPSILON_RIM=1e-7; # relative threshold for using the mean value over the vortex sheet
 
     # --- Main corpus
     Xcp=np.asarray(Xcp)
@@ -324,6 +328,7 @@ def cylinder_tang_u(Xcp,Ycp,Zcp,gamma_t=-1,R=1,z1=-2,z2=2,polar_out=True,epsilon
     zz2 = Zcp - z2
     Iz  = r < (EPSILON_AXIS * R)
     r   = np.where(Iz, R, r) # Temporary, replaced by the axis formula below
+    r   = np.where(np.abs(r-R)<EPSILON_RIM*R, R, r) # On the surface, up to rounding
     
     # Eliptic integrals
     k1_2 = 4 * r * R / ((R + r) ** 2 + zz1 ** 2)
-- 
2.43.0


From 520b3d9d061b414f94f1f7ddfc4101bd7a5157a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:09 +0000
Subject: [PATCH 23/24] fix: longitudinal velocity at the rim of the rotor is
 not nan when rounding moves the point off the rotor plane

---
 wiz/VortexCylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index de99772..79b0965 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -182,7 +182,7 @@ def vc_longi_u_polar(vr,vpsi,vz,gamma_l=-1,R=1,polar_out=False):
     # --- Special values: on the axis, and at r=R (mean value over the sheet, the term with PI vanishes)
     u_psi = np.where(bAxis, 0, u_psi)
     mR    = 4*R**2/(4*R**2+vz**2)
-    mR    = np.where(vz==0, 0, mR)
+    mR    = np.where(mR>=1, 0, mR) # vz=0, up to rounding
     u_psi = np.where(bRim, gamma_l/2*(1/2 + vz*np.sqrt(mR)/(2*np.pi*R)*ellipk(mR)), u_psi)
     u_z = np.zeros(shape_in)
     if polar_out:
-- 
2.43.0


From f103f33e1bab0048bfc9439d5c0e61e67477bee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:25 +0000
Subject: [PATCH 24/24] fix: ellipticPiCarlson stops on the relative change,
 absolute one was reached too early for large negative n

---
 wiz/elliptic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/wiz/elliptic.py b/wiz/elliptic.py
index 1d7f98d..6fffa07 100644
--- a/wiz/elliptic.py
+++ b/wiz/elliptic.py
@@ -15,8 +15,8 @@ def ellipticPiCarlson(n,m):
      NOTE: m <=1 
     """
     # --- Performance parameters
-    RES   = 1.e-12  # 
-    ITMAX = 20      # 20 iterations usually sufficient
+    RES   = 1.e-12  # relative change between two iterations
+    ITMAX = 50      # 20 iterations usually sufficient, more for large negative n
     # --- Subfunctions RF, RJ, RC
     def ellipticRF(y = None): 
         xo = np.zeros(y.shape)
@@ -46,7 +46,7 @@ def ellipticPiCarlson(n,m):
             s13 = s12*s1
             r = 5./26 * s13 + 3./ 26 * s2 ** 2
             RF = (mu**-0.5) * (1 + s1/5 + s2/7 + s12/6 + 3/11*s1*s2 + r)
-            res = np.amax(np.abs(RF - RFo))
+            res = np.amax(np.abs(RF - RFo)/np.abs(RF))
             RFo = RF
             xo = xn
             yo = yn
@@ -109,7 +109,7 @@ def ellipticPiCarlson(n,m):
                 rhs1 = rhs1 + 3 * 4 ** - nIt * ellipticRC(alfa,bet)
                 rhs2 = (4**-(nIt+1) * mu**-1.5) * (1+3/7*s1 + s2/3 + 3/22*s12 + 3/11*s3 + 3/13*(s1*s2 + s4) + r)
                 RJLoc = rhs1 + rhs2
-                res = np.amax(np.abs(RJLoc - RJo))
+                res = np.amax(np.abs(RJLoc - RJo)/np.abs(RJLoc))
                 RJo = RJLoc
                 xo = xn
                 yo = yn
@@ -140,7 +140,7 @@ def ellipticPiCarlson(n,m):
             s5 = s4*s
             s6 = s5*s
             RC = (mu**-0.5)*(1+3/10*s2 + s3/7 + 3/8*s4 + 9/22*s5 + 159/208*s6)
-            res = np.amax(np.abs(RC - RCo))
+            res = np.amax(np.abs(RC - RCo)/np.abs(RC))
             RCo = RC
             xo = xn
             yo = yn
-- 
2.43.0

