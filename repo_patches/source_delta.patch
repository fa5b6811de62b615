From cc189d47a34106e1b723080e1f0d1f892eb867aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 01/40] fix: return zero where cos(latitude) is below the
 tolerance, as documented

---
 src/falwa/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index 6724dd4..23f8573 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -229,6 +229,7 @@ def zonal_convergence(field, clat, dlambda, planet_radius=6.378e+6, tol=1.e-5):
 
     zonal_diff[finite_clat, :] = zonal_diff[finite_clat, :] * \
                                  (-1./(planet_radius * clat[finite_clat, np.newaxis] * 2. * dlambda))
+    zonal_diff[~finite_clat, :] = 0.
 
     return zonal_diff
 
@@ -276,6 +277,7 @@ def meridional_divergence(field, clat, dphi, planet_radius=6.378e+6, tol=1.e-5):
 
     meridional_diff[finite_clat, :] = \
         meridional_diff[finite_clat, :] / (planet_radius * clat[finite_clat, np.newaxis] * 2. * dphi)
+    meridional_diff[~finite_clat, :] = 0.
 
     return meridional_diff
 
-- 
2.43.0


From 4935d719bc8a14b24cddedfe4e2650da6544c59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 02/40] fix: normalise the one-sided meridional differences by
 their own spacing

---
 src/falwa/utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index 23f8573..b4986d0 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -269,8 +269,9 @@ def meridional_divergence(field, clat, dphi, planet_radius=6.378e+6, tol=1.e-5):
 
     meridional_diff = np.zeros_like(field)
     meridional_diff[1:-1, :] = field[2:, :] * clat[2:, np.newaxis] - field[:-2, :] * clat[:-2, np.newaxis]
-    meridional_diff[0, :] = field[1, :] * clat[1] - field[0, :] * clat[0]
-    meridional_diff[-1, :] = field[-1, :] * clat[-1] - field[-2, :] * clat[-2]
+    # One-sided differences span dphi only
+    meridional_diff[0, :] = 2. * (field[1, :] * clat[1] - field[0, :] * clat[0])
+    meridional_diff[-1, :] = 2. * (field[-1, :] * clat[-1] - field[-2, :] * clat[-2])
 
     # This is to avoid divided by zero
     finite_clat = np.abs(clat) > tol
-- 
2.43.0


From 84c5f021985035040805e02ba56b694f57f88d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 03/40] fix: compute_qgpv_givenvort leaves no row uninitialised
 on odd grids

---
 src/falwa/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index b4986d0..89f7c91 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -149,7 +149,7 @@ def compute_qgpv_givenvort(omega, nlat, nlon, kmax, unih, ylat, avort,
     """
 
     if nlat_s is None:
-        nlat_s = nlat // 2
+        nlat_s = nlat - nlat // 2  # no row (the equator of an odd grid) may stay undefined
 
     # --- Next, calculate PV ---
     qgpv = np.empty_like(potential_temp)  # av1+av2+av3+dzdiv
-- 
2.43.0


From 8fc099d427862dec836ad488e273be591fcac851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 04/40] fix: barotropic_input_qref_to_compute_lwa returns the
 wave activity, not a tuple

---
 src/falwa/wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index b0d669a..a37cfb7 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -82,7 +82,7 @@ def barotropic_input_qref_to_compute_lwa(ylat, qref, vort, area, dmu, planet_rad
     """
     nlat = vort.shape[0]
     nlon = vort.shape[1]
-    lwa_result = basis.lwa(nlon, nlat, vort, qref, dmu)
+    lwa_result, _ = basis.lwa(nlon, nlat, vort, qref, dmu)
     return lwa_result
 
 
-- 
2.43.0


From 53e8189a23977b479a8348d8da4bce26728d801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 05/40] fix: restore the sign of the northern reference profile
 in the eqvlat wrappers

---
 src/falwa/wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index a37cfb7..cee2e1b 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -130,7 +130,7 @@ def eqvlat_hemispheric(ylat, vort, area, nlat_s=None, n_points=None, planet_radi
     vort2 = -vort[::-1, :]
     qref2, _ = basis.eqvlat_fawa(ylat[:nlat_s], vort2[:nlat_s, :], area[:nlat_s, :],
                             n_points, planet_radius=planet_radius)
-    qref[-nlat_s:] = qref2[::-1]
+    qref[-nlat_s:] = -qref2[::-1]
 
     return qref
 
@@ -190,7 +190,7 @@ def eqvlat_bracket_hemispheric(ylat, vort, area, nlat_s=None, n_points=None, pla
                                 n_points, planet_radius=planet_radius,
                                 vgrad=vgrad)
 
-    qref[-nlat_s:] = qref2[::-1]
+    qref[-nlat_s:] = -qref2[::-1]
 
     brac[:nlat_s] = brac1
     brac[-nlat_s:] = brac2[::-1]
-- 
2.43.0


From 84d5a47ac55afa7690b865bcf060e234253976ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 06/40] fix: hemispheric contour averages call the routine that
 computes them, per hemisphere

---
 src/falwa/wrapper.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index cee2e1b..5e668a2 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -177,23 +177,26 @@ def eqvlat_bracket_hemispheric(ylat, vort, area, nlat_s=None, n_points=None, pla
         n_points = nlat_s
 
     # --- Southern Hemisphere ---
-    qref1, brac1 = basis.eqvlat_fawa(ylat[:nlat_s], vort[:nlat_s, :],
+    qref1, brac1 = basis.eqvlat_vgrad(ylat[:nlat_s], vort[:nlat_s, :],
                                 area[:nlat_s, :],
                                 n_points, planet_radius=planet_radius,
-                                vgrad=vgrad)
+                                vgrad=None if vgrad is None else vgrad[:nlat_s, :])
     qref[:nlat_s] = qref1
 
     # --- Northern Hemisphere ---
     vort2 = -vort[::-1, :]
-    qref2, brac2 = basis.eqvlat_fawa(ylat[:nlat_s], vort2[:nlat_s, :],
+    qref2, brac2 = basis.eqvlat_vgrad(ylat[:nlat_s], vort2[:nlat_s, :],
                                 area[:nlat_s, :],
                                 n_points, planet_radius=planet_radius,
-                                vgrad=vgrad)
+                                vgrad=None if vgrad is None else -vgrad[::-1, :][:nlat_s, :])
 
     qref[-nlat_s:] = -qref2[::-1]
 
+    if vgrad is None:
+        return qref, None
+
     brac[:nlat_s] = brac1
-    brac[-nlat_s:] = brac2[::-1]
+    brac[-nlat_s:] = -brac2[::-1]
 
     return qref, brac
 
@@ -406,7 +409,7 @@ def qgpv_eqlat_lwa_options(ylat, vort, area, dmu, nlat_s=None, n_points=None, vg
                                    area[:nlat_s, :],
                                    n_points, planet_radius=planet_radius)
     else:
-        qref1, brac = basis.eqvlat_fawa(ylat[:nlat_s], vort[:nlat_s, :],
+        qref1, brac = basis.eqvlat_vgrad(ylat[:nlat_s], vort[:nlat_s, :],
                                    area[:nlat_s, :],
                                    n_points, planet_radius=planet_radius,
                                    vgrad=vgrad[:nlat_s, :])
@@ -435,7 +438,7 @@ def qgpv_eqlat_lwa_options(ylat, vort, area, dmu, nlat_s=None, n_points=None, vg
                                    n_points, planet_radius=planet_radius)
     else:
         vgrad2 = -vgrad[::-1, :]  # Is this correct?
-        qref2, brac = basis.eqvlat_fawa(ylat[:nlat_s], vort2[:nlat_s, :],
+        qref2, brac = basis.eqvlat_vgrad(ylat[:nlat_s], vort2[:nlat_s, :],
                                    area[:nlat_s, :],
                                    n_points, planet_radius=planet_radius,
                                    vgrad=vgrad2[:nlat_s, :])
-- 
2.43.0


From 7aa66f448ccd12fdfddd716cac9c92ed3073e297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 07/40] fix: northern surface wave activity is that of the
 mirror image, as for the reference profile

---
 src/falwa/wrapper.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index 5e668a2..34ed4f3 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -569,9 +569,8 @@ def theta_lwa(ylat, theta, area, dmu, nlat_s=None, n_points=None, planet_radius=
                                area[:nlat_s, :],
                                n_points, planet_radius=planet_radius)
     qref[-nlat_s:] = qref2[::-1]
-    lwa_result[-nlat_s:, :], dummy = basis.lwa(nlon, nlat_s,
-                                               theta[-nlat_s:, :],
-                                               qref[-nlat_s:],
-                                               dmu[-nlat_s:])
+    # The reference profile decreases northward here, so the mirror image is analysed
+    lwa2, dummy = basis.lwa(nlon, nlat_s, theta2[:nlat_s, :], qref2, dmu[::-1][:nlat_s])
+    lwa_result[-nlat_s:, :] = lwa2[::-1, :]
 
     return qref, lwa_result
-- 
2.43.0


From df07d215f067b2312c70e133bd27d8039d73fb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 08/40] fix: integration_seconds is in seconds for every
 resolution of the time coordinate

---
 src/falwa/xarrayinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 55d6442..9c1b886 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -731,7 +731,7 @@ def integrate_budget(ds, var_names=None):
     attrs = dict(ds.attrs)
     attrs["integration_start"] = str(start)
     attrs["integration_stop"] = str(stop)
-    attrs["integration_seconds"] = (stop - start) / np.timedelta64(1000000000)
+    attrs["integration_seconds"] = (stop - start) / np.timedelta64(1, "s")
     return xr.Dataset(data_vars, ds.coords, attrs)
 
 
-- 
2.43.0


From 6a23a60738909579ad79c35c27ff1018c9a0908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 09/40] fix: hemisphere_to_globe leaves variables without
 latitude as they are

---
 src/falwa/xarrayinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 9c1b886..b08efe6 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -788,4 +788,4 @@ def hemisphere_to_globe(ds, var_names=None):
     except KeyError:
         pass
     # Assemble global dataset
-    return xr.concat([sd, ds] if eq0 else [ds, sd], dim=ylat_name)
+    return xr.concat([sd, ds] if eq0 else [ds, sd], dim=ylat_name, data_vars="minimal")
-- 
2.43.0


From 651f554480faeca01d364f50cada9198c46c7cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 10/40] fix: zonal derivative in the vorticity of the QGPV
 kernels uses the longitude spacing

---
 src/falwa/f90_modules/compute_qgpv.f90            | 9 +++++----
 src/falwa/f90_modules/compute_qgpv_direct_inv.f90 | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/falwa/f90_modules/compute_qgpv.f90 b/src/falwa/f90_modules/compute_qgpv.f90
index 1cbebfb..a626d28 100644
--- a/src/falwa/f90_modules/compute_qgpv.f90
+++ b/src/falwa/f90_modules/compute_qgpv.f90
@@ -16,12 +16,13 @@ SUBROUTINE compute_qgpv(nlon, nlat, kmax, ut, vt, theta, height, t0, stat, &
     REAL ::  st(nlon,nlat),zmst(nlat)
     REAL ::  zmav(nlat,kmax)
     REAL ::  zmpv(nlat,kmax)
-    REAL :: rkappa, pi, dphi
+    REAL :: rkappa, pi, dphi, dlambda
 
 
     rkappa = rr/cp
     pi = acos(-1.)
     dphi = pi/float(nlat-1)
+    dlambda = 2.*pi/float(nlon)
 
     !  **** compute zonal mean ****
     tz = 0.
@@ -67,17 +68,17 @@ SUBROUTINE compute_qgpv(nlon, nlat, kmax, ut, vt, theta, height, t0, stat, &
 
             do i = 2,nlon-1
                 av1 = 2.*omega*sin(phi0)
-                av2 = (vt(i+1,j,kk)-vt(i-1,j,kk))/(2.*aa*cos(phi0)*dphi)
+                av2 = (vt(i+1,j,kk)-vt(i-1,j,kk))/(2.*aa*cos(phi0)*dlambda)
                 av3 = -(ut(i,j+1,kk)*cos(phip)-ut(i,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)  
                 avort(i,j,kk) = av1+av2+av3
             enddo
 
             av1 = 2.*omega*sin(phi0)
-            av2 = (vt(2,j,kk)-vt(nlon,j,kk))/(2.*aa*cos(phi0)*dphi)
+            av2 = (vt(2,j,kk)-vt(nlon,j,kk))/(2.*aa*cos(phi0)*dlambda)
             av3 = -(ut(1,j+1,kk)*cos(phip)-ut(1,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)  
             avort(1,j,kk) = av1+av2+av3
             av4 = 2.*omega*sin(phi0)
-            av5 = (vt(1,j,kk)-vt(nlon-1,j,kk))/(2.*aa*cos(phi0)*dphi)
+            av5 = (vt(1,j,kk)-vt(nlon-1,j,kk))/(2.*aa*cos(phi0)*dlambda)
             av6 =   & 
             -(ut(nlon,j+1,kk)*cos(phip)-ut(nlon,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)
             avort(nlon,j,kk) = av4+av5+av6
diff --git a/src/falwa/f90_modules/compute_qgpv_direct_inv.f90 b/src/falwa/f90_modules/compute_qgpv_direct_inv.f90
index e53da8c..dd29944 100644
--- a/src/falwa/f90_modules/compute_qgpv_direct_inv.f90
+++ b/src/falwa/f90_modules/compute_qgpv_direct_inv.f90
@@ -19,6 +19,7 @@ SUBROUTINE compute_qgpv_direct_inv(nlon, nlat, kmax, jd, uq, vq, tq, height, &
    rkappa = rr/cp
    pi = acos(-1.)
    dphi = pi/float(nlat-1)
+   dlambda = 2.*pi/float(nlon)
 
   write(6,*) 'nlon, nlat, kmax, jd'
   write(6,*) nlon, nlat, kmax, jd
@@ -33,17 +34,17 @@ SUBROUTINE compute_qgpv_direct_inv(nlon, nlat, kmax, jd, uq, vq, tq, height, &
 
       do i = 2,nlon-1
         av1 = 2.*omega*sin(phi0)
-        av2 = (vq(i+1,j,kk)-vq(i-1,j,kk))/(2.*aa*cos(phi0)*dphi)
+        av2 = (vq(i+1,j,kk)-vq(i-1,j,kk))/(2.*aa*cos(phi0)*dlambda)
         av3 = -(uq(i,j+1,kk)*cos(phip)-uq(i,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)
         avort(i,j,kk) = av1+av2+av3
       enddo
 
       av1 = 2.*omega*sin(phi0)
-      av2 = (vq(2,j,kk)-vq(nlon,j,kk))/(2.*aa*cos(phi0)*dphi)
+      av2 = (vq(2,j,kk)-vq(nlon,j,kk))/(2.*aa*cos(phi0)*dlambda)
       av3 = -(uq(1,j+1,kk)*cos(phip)-uq(1,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)
       avort(1,j,kk) = av1+av2+av3
       av4 = 2.*omega*sin(phi0)
-      av5 = (vq(1,j,kk)-vq(nlon-1,j,kk))/(2.*aa*cos(phi0)*dphi)
+      av5 = (vq(1,j,kk)-vq(nlon-1,j,kk))/(2.*aa*cos(phi0)*dlambda)
       av6 =   &
       -(uq(nlon,j+1,kk)*cos(phip)-uq(nlon,j-1,kk)*cos(phim))/(2.*aa*cos(phi0)*dphi)
       avort(nlon,j,kk) = av4+av5+av6
-- 
2.43.0


From 609d36b7c5b2bad62486fd2adcb3e45406946de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 11/40] fix: southern boundary circulation of NHN22 is that of
 the southern absolute vorticity

---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 82aadbb..0b054c3 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1800,7 +1800,7 @@ class QGFieldNHN22(QGFieldBase):
                 self._compute_reference_states_nhn22_hemispheric_wrapper(
                     qgpv=-self._interpolated_field_storage.qgpv[:, ::-1, :],
                     u=self._interpolated_field_storage.interpolated_u[:, ::-1, :],
-                    avort=self._interpolated_field_storage.interpolated_avort[:, ::-1, :],
+                    avort=-self._interpolated_field_storage.interpolated_avort[:, ::-1, :],
                     theta=self._interpolated_field_storage.interpolated_theta[:, ::-1, :],
                     t0=self._domain_average_storage.ts0,
                     static_stability=self._domain_average_storage.static_stability_s)
-- 
2.43.0


From d479f47fe7d5a548e264aedf04ed292c49b81ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 12/40] fix: southern reference temperature of NHN22 is about
 the southern mean profile

---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 0b054c3..93b4adf 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1875,7 +1875,7 @@ class QGFieldNHN22(QGFieldBase):
             sjk=sjk,
             tjk=tjk,
             ckref=ckref,
-            tb=self._domain_average_storage.tn0,
+            tb=t0,
             qref_over_cor=qref_over_sin,
             a=self.planet_radius,
             om=self.omega,
-- 
2.43.0


From 19b0d0277be88c3ade38a7be54b9b818f1acbecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 13/40] fix: compute_lwa_only stores the two parts of the
 southern wave activity

---
 src/falwa/oopinterface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 93b4adf..ede19b3 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -686,8 +686,8 @@ class QGFieldBase(ABC):
                     cp=self.cp,
                     prefac=self.prefactor)
             self._layerwise_flux_terms_storage.lwa_shem = np.abs(astar1 + astar2)
-            self._layerwise_flux_terms_storage.astar1_baro_shem = np.abs(astar1)
-            self._layerwise_flux_terms_storage.astar2_baro_shem = np.abs(astar2)
+            self._layerwise_flux_terms_storage.astar1_shem = np.abs(astar1)
+            self._layerwise_flux_terms_storage.astar2_shem = np.abs(astar2)
 
     @staticmethod
     def _prepare_coordinates_and_ref_states(
-- 
2.43.0


From ea5ed10661059223c75be8b24e5e9cbe184b49de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 14/40] fix: layerwise fluxes without forcing work on even
 latitude grids

---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index ede19b3..fd5bf85 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1075,7 +1075,7 @@ class QGFieldBase(ABC):
 
         # *** The chunk below has duplication. TODO: think of ways to refactor ***
         if ncforce is None:
-            ncforce = np.zeros((self.nlon, self.nlat, self.kmax))  # fortran indexing
+            ncforce = np.zeros((self.nlon, self._nlat_analysis, self.kmax))  # fortran indexing
         else:  # There is input
             ncforce = np.swapaxes(ncforce, 0, 2)
             assert ncforce.shape == self._interpolated_field_storage.interpolated_theta.shape
-- 
2.43.0


From 9799ab3c662201d09b943ab2cbccecb9a69f0c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 15/40] fix: vertical averages cover the layers their
 normalisation covers

---
 src/falwa/oopinterface.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index fd5bf85..f288229 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -405,9 +405,9 @@ class QGFieldBase(ABC):
     def _vertical_average(self, var_3d, lowest_layer_index=1, height_axis=-1):
         dc = self.dz / self.prefactor
 
-        # Build dynamic slicer for var_3d
+        # Build dynamic slicer for var_3d (the layers that the prefactor is the integral of)
         slicer = [slice(None)] * var_3d.ndim
-        slicer[height_axis] = slice(lowest_layer_index, None)
+        slicer[height_axis] = slice(lowest_layer_index, self.kmax - 1)
 
         # Build dynamic shape for height broadcasting
         height_shape = [1] * var_3d.ndim
@@ -415,7 +415,7 @@ class QGFieldBase(ABC):
 
         var_baro = np.sum(
             var_3d[tuple(slicer)]
-            * np.exp(-self.height[lowest_layer_index:].reshape(height_shape) / self.scale_height) * dc,
+            * np.exp(-self.height[lowest_layer_index:self.kmax - 1].reshape(height_shape) / self.scale_height) * dc,
             axis=height_axis)
         return var_baro
 
@@ -459,7 +459,7 @@ class QGFieldBase(ABC):
         ncforce_baro = self._vertical_average(ncforce3d, lowest_layer_index=1)
 
         uref_baro = np.sum(
-            uref[-jd:, 1:] * np.exp(-self.height[np.newaxis, 1:] / self.scale_height) * self.dz / self.prefactor,axis=-1)
+            uref[-jd:, 1:-1] * np.exp(-self.height[np.newaxis, 1:-1] / self.scale_height) * self.dz / self.prefactor, axis=-1)
 
         return astar_baro, u_baro, uref_baro, ua1baro, ua2baro, ep1baro, ep2baro, ep3baro, ep4, \
             astar1, astar2, astar1_baro, astar2_baro, ncforce_baro
-- 
2.43.0


From 852bf85ef68c8ca008e708c5817d275586ab5eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 16/40] fix: displaced momentum fluxes at the equatorward
 boundary row stay inside the arrays

---
 src/falwa/f90_modules/compute_flux_dirinv.f90 | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/falwa/f90_modules/compute_flux_dirinv.f90 b/src/falwa/f90_modules/compute_flux_dirinv.f90
index 519c4db..158bb47 100644
--- a/src/falwa/f90_modules/compute_flux_dirinv.f90
+++ b/src/falwa/f90_modules/compute_flux_dirinv.f90
@@ -149,10 +149,18 @@ SUBROUTINE compute_flux_dirinv_nshem( &
         ! meridional eddy momentum flux one grid north and south
         if (is_nhem) then
           ep2(i,j,k) = (uu(i,j+nd,k)-uref(j-jb+1,k))*cosp*cosp * vv(i,j+nd,k)
-          ep3(i,j,k) = (uu(i,j+nd-2,k)-uref(j-jb-1,k))*cosm*cosm * vv(i,j+nd-2,k)
+          if (j.gt.jstart) then
+            ep3(i,j,k) = (uu(i,j+nd-2,k)-uref(j-jb-1,k))*cosm*cosm * vv(i,j+nd-2,k)
+          else  ! no reference state beyond the boundary row: one-sided
+            ep3(i,j,k) = (uu(i,j+nd-1,k)-uref(j-jb,k))*cos0*cos0 * vv(i,j+nd-1,k)
+          endif
         else
           ! TODO: double check.
-          ep2(i,j,k) = (uu(i,j+1,k)-uref(j+1,k))*cosp*cosp * vv(i,j+1,k)
+          if (j.lt.jend) then
+            ep2(i,j,k) = (uu(i,j+1,k)-uref(j+1,k))*cosp*cosp * vv(i,j+1,k)
+          else  ! no reference state beyond the boundary row: one-sided
+            ep2(i,j,k) = (uu(i,j,k)-uref(j,k))*cos0*cos0 * vv(i,j,k)
+          endif
           ep3(i,j,k) = (uu(i,j-1,k)-uref(j-1,k))*cosm*cosm * vv(i,j-1,k)
         endif
 
@@ -170,12 +178,6 @@ SUBROUTINE compute_flux_dirinv_nshem( &
           ep4(i,j) = ep41*(ep42+ep43)   ! low-level heat flux
         endif
       enddo
-      phip = dp*jb
-      phi0 = dp*(jb-1)
-      cosp = cos(phip)          ! cosine for one grid north
-      cos0 = cos(phi0)          ! cosine for latitude grid
-      ep2(i,jb,k) = (uu(i,nd+jb+1,k)-uref(2,k))*cosp*cosp*vv(i,nd+jb+1,k)
-      ep3(i,jb,k) = (uu(i,nd+jb,k)-uref(1,k))*cos0*cos0*vv(i,nd+jb,k)
     enddo
   enddo
 
-- 
2.43.0


From d4884e56aae2983df609d8729e90072c23670e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 17/40] fix: the direct inversion returns the reference wind of
 its equatorward boundary row

---
 src/falwa/f90_modules/upward_sweep.f90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/falwa/f90_modules/upward_sweep.f90 b/src/falwa/f90_modules/upward_sweep.f90
index e4e4c7d..2c4ad31 100644
--- a/src/falwa/f90_modules/upward_sweep.f90
+++ b/src/falwa/f90_modules/upward_sweep.f90
@@ -43,6 +43,10 @@ SUBROUTINE upward_sweep(jmax, kmax, nd, jb, jd, sjk, tjk, ckref, tb, qref_over_c
   ! *** Corner boundary conditions ***
   u(1,1) = 0.
   u(jd,1) = 0.
+  ! *** Equatorward boundary condition (as in matrix_b4_inversion) ***
+  do k = 2,kmax-1
+    u(1,k) = ckref(1+jb,k)/(2.*pi*a)-om*a*cos(dp*float(jb))
+  enddo
   !        u(1,kmax) = ubar(1+jb,kmax)*cos(dp*float(jb))
   u(1,kmax) = ckref(1+jb,kmax)/(2.*pi*a)-om*a*cos(dp*float(jb))
   u(jd,kmax) = 0.
-- 
2.43.0


From df43a047f47d819276dea93c0f9fa18169ab276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 18/40] fix: hemispheric static stability is labelled with its
 own hemisphere

---
 src/falwa/xarrayinterface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index b08efe6..8004039 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -487,9 +487,10 @@ class QGDataset:
             return self.metadata.as_dataarray(stability, "static_stability")
         elif stability.ndim == 3 and stability.shape[-2] == 2:
             # Two vertical profiles of static stability per field: hemispheric
+            # QGField returns the southern hemisphere first
             return (
-                self.metadata.as_dataarray(stability[:,0,:], "static_stability_n"),
-                self.metadata.as_dataarray(stability[:,1,:], "static_stability_s")
+                self.metadata.as_dataarray(stability[:,1,:], "static_stability_n"),
+                self.metadata.as_dataarray(stability[:,0,:], "static_stability_s")
             )
         else:
             raise ValueError(f"cannot process shape of returned static stability field: {stability.shape}")
-- 
2.43.0


From 88290c80a90b527f675038e391e320afff26ab88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 19/40] fix: non-conservative forcing works on even latitude
 grids

---
 src/falwa/oopinterface.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index f288229..6a635da 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -689,6 +689,20 @@ class QGFieldBase(ABC):
             self._layerwise_flux_terms_storage.astar1_shem = np.abs(astar1)
             self._layerwise_flux_terms_storage.astar2_shem = np.abs(astar2)
 
+    def _prepare_ncforce(self, ncforce):
+        """
+        Private function. Put the non-conservative forcing of dimension (kmax, nlat, nlon) onto the latitude grid used
+        in the analysis and convert it to fortran indexing. The forcing is zero if None is given.
+        """
+        if ncforce is None:
+            return np.zeros((self.nlon, self._nlat_analysis, self.kmax))  # fortran indexing
+        ncforce = np.asarray(ncforce)
+        if self.need_latitude_interpolation and ncforce.shape[1] == self.nlat:
+            ncforce = interp1d(self._input_ylat, ncforce, axis=1, fill_value="extrapolate")(self._ylat)
+        ncforce = np.swapaxes(ncforce, 0, 2)  # Convert from python to fortran indexing
+        assert ncforce.shape == self._interpolated_field_storage.interpolated_theta.shape
+        return ncforce
+
     @staticmethod
     def _prepare_coordinates_and_ref_states(
         _ylat, _interpolated_field_storage, _reference_states_storage, omega, equator_idx, northern_hemisphere_results_only):
@@ -895,13 +909,7 @@ class QGFieldBase(ABC):
             raise ValueError("Reference states have not been computed yet.")
 
         # TODO: need a check for reference states computed. If not, throw an error.
-        if ncforce is None:
-            print("line 748: ncforce is None")
-            ncforce = np.zeros((self.nlon, self._nlat_analysis, self.kmax))  # fortran indexing
-        else:  # There is input
-            print("line 751: ncforce has values")
-            ncforce = np.swapaxes(ncforce, 0, 2)  # Convert from python to fortran indexing
-            assert ncforce.shape == self._interpolated_field_storage.interpolated_theta.shape
+        ncforce = self._prepare_ncforce(ncforce)
 
         self._compute_intermediate_barotropic_flux_terms(ncforce=ncforce)
 
@@ -1002,6 +1010,10 @@ class QGFieldBase(ABC):
             :math:`\\dot{ q } = f e^{z/H} \\frac{d}{dz} ( \\frac{e^{-z/H} \\dot{\\theta}}{d\\theta/dz})`
         """
 
+        # Interpolate onto the latitude grid used in the analysis if needed
+        if self.need_latitude_interpolation:
+            heating_rate = interp1d(self._input_ylat, heating_rate, axis=1, fill_value="extrapolate")(self._ylat)
+
         # Interpolate potential temperature tendency onto regular z-grid first. Result has dimension (kmax, nlat, nlon)
         interpolated_heating_rate = self._vertical_interpolation(heating_rate, kind="linear", axis=0)
 
@@ -1014,8 +1026,10 @@ class QGFieldBase(ABC):
             dz=self.dz,
             density_decay=np.exp(-self.height / self.scale_height),
             gfunc=interpolated_heating_rate,
-            multiplier=2 * self.omega * np.sin(np.deg2rad(self.ylat[np.newaxis, :])) * np.exp(
+            multiplier=2 * self.omega * np.sin(np.deg2rad(self._ylat[np.newaxis, :])) * np.exp(
                 self.height[:, np.newaxis] / self.scale_height))
+        if self.need_latitude_interpolation:
+            return self._interp_back(ncforce_input, self._ylat, self._input_ylat, which_axis=1)
         return ncforce_input
 
     def _compute_stretch_term(self, stat_n, stat_s):
@@ -1073,13 +1087,7 @@ class QGFieldBase(ABC):
             self._ylat, self._interpolated_field_storage, self._reference_states_storage,
             self.omega, self.equator_idx, self.northern_hemisphere_results_only)
 
-        # *** The chunk below has duplication. TODO: think of ways to refactor ***
-        if ncforce is None:
-            ncforce = np.zeros((self.nlon, self._nlat_analysis, self.kmax))  # fortran indexing
-        else:  # There is input
-            ncforce = np.swapaxes(ncforce, 0, 2)
-            assert ncforce.shape == self._interpolated_field_storage.interpolated_theta.shape
-        # *** The chunk above has duplication. ***
+        ncforce = self._prepare_ncforce(ncforce)
 
         # Northern hemisphere
         self._layerwise_flux_terms_storage.astar1_nhem, \
-- 
2.43.0


From e0997011ebea86c60eaec9a4c3af8eb2f1e05fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 20/40] fix: heating rates of a QGDataset follow the order and
 latitudes of its fields

---
 src/falwa/xarrayinterface.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 8004039..4eb38f4 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -229,7 +229,7 @@ _MetadataServiceProvider.register_var("flux_vector_lambda_baro", ("ylat", "xlon"
 _MetadataServiceProvider.register_var("flux_vector_phi_baro", ("ylat", "xlon"), dim_names=("ylat_ref_states", "xlon"))
 # 3-dimensional LWA (full x-y-z fields)
 _MetadataServiceProvider.register_var("lwa", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
-_MetadataServiceProvider.register_var("ncforce", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
+_MetadataServiceProvider.register_var("ncforce", ("height", "ylat", "xlon"))
 _MetadataServiceProvider.register_var("ua1", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
 _MetadataServiceProvider.register_var("ua2", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
 _MetadataServiceProvider.register_var("ep1", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
@@ -383,7 +383,7 @@ class QGDataset:
         t = da_t.data.reshape(_shape)
         # Automatically determine how fields need to be flipped so they match
         # the requirements of QGField and extract coordinate values
-        flip = []
+        self._flip = flip = []
         # Ensure that ylat is ascending
         ylat = da_ylat.values
         if not _is_ascending(ylat):
@@ -657,7 +657,11 @@ class QGDataset:
         ncforce_input_list = []
 
         for field, coord in zip(self._fields, self.metadata.iter_other()):
-            output = field.compute_ncforce_from_heating_rate(heating_rate=heating_rate.sel(coord))
+            heating_rate_field = heating_rate.sel(coord).values
+            # Apply the reordering of the input fields
+            if self._flip:
+                heating_rate_field = np.flip(heating_rate_field, axis=self._flip)
+            output = field.compute_ncforce_from_heating_rate(heating_rate=heating_rate_field)
             ncforce_input_list.append(output)
         return self.metadata.as_dataarray(ncforce_input_list, var="ncforce")
 
-- 
2.43.0


From ea8f54180b56becdd3b368821f5f45eb380f3a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 21/40] fix: interpolated fields of northern-hemisphere-only
 analysis on even latitude grids

---
 src/falwa/oopinterface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 6a635da..01ba74b 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -392,7 +392,9 @@ class QGFieldBase(ABC):
             The interpolated variable(numpy.ndarray)
         """
         if self.need_latitude_interpolation:
-            if self.northern_hemisphere_results_only:
+            # The interpolated fields are global even if only northern hemispheric results are computed
+            is_global = variable.shape[interp_axis] == self._nlat_analysis
+            if self.northern_hemisphere_results_only and not is_global:
                 return self._interp_back(
                     variable, self._ylat[-(self._nlat_analysis // 2 + 1):],
                     self._input_ylat[-(self.nlat // 2):],
-- 
2.43.0


From 3996c81d122d64cdee704d829186a0f9aab3c17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:04 +0000
Subject: [PATCH 22/40] fix: boundary circulation of the direct inversion is
 defined up to the top level

---
 src/falwa/f90_modules/compute_qref_and_fawa_first.f90 | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90 b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
index 41de5f2..6408807 100644
--- a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
+++ b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
@@ -57,7 +57,6 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
 
   do k = 2,kmax-1
     pv2(:,:) = pv(:,:,k)
-    vort2(:,:) = vort(:,:,k)
 
     !  **** compute qref via area analysis ****
     qmax = maxval(pv2)
@@ -103,8 +102,12 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
       *a*dphi*2.*pi*a*cos(phi0)
     enddo
 
-    ! **** compute Kelvin's circulation based on absolute vorticity (for b.c.) ****
+  enddo
+
+  ! **** compute Kelvin's circulation based on absolute vorticity (for b.c., including the top level) ****
 
+  do k = 2,kmax
+    vort2(:,:) = vort(:,:,k)
 
     qmax = maxval(vort2)
     qmin = minval(vort2)
-- 
2.43.0


From abbb3355cde1543f75ccef4e14e3be02421284e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:04 +0000
Subject: [PATCH 23/40] fix: both boundary terms of the direct inversion apply
 when they fall on the same row

---
 src/falwa/f90_modules/matrix_b4_inversion.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/f90_modules/matrix_b4_inversion.f90 b/src/falwa/f90_modules/matrix_b4_inversion.f90
index 3631ba6..d21a725 100644
--- a/src/falwa/f90_modules/matrix_b4_inversion.f90
+++ b/src/falwa/f90_modules/matrix_b4_inversion.f90
@@ -57,8 +57,8 @@ SUBROUTINE matrix_b4_inversion(k,jmax,kmax,nd,jb,jd,z,statn,qref,ckref,sjk,&
     u(1,k) = ckref(jb+1,k)/(2.*pi*a)-om*a*cos(phi0)
 
     rj(j-1) = fjk
-    if(j.eq.2) rj(j-1) = fjk - bjk*u(1,k)
-    if(j.eq.jd-1) rj(j-1) = fjk - ajk*u(jd,k)
+    if(j.eq.2) rj(j-1) = rj(j-1) - bjk*u(1,k)
+    if(j.eq.jd-1) rj(j-1) = rj(j-1) - ajk*u(jd,k)
 
     ! ***** Specify Ck & Dk (Eqs. 18-19) *****
     cjj(j-1,j-1) = cjk
-- 
2.43.0


From 0751c94667e7f8281485c4f5d62a452653e729c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:48 +0000
Subject: [PATCH 24/40] fix: top condition of the direct inversion takes the
 temperature gradient at its own latitude

---
 src/falwa/f90_modules/compute_qref_and_fawa_first.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90 b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
index 6408807..a6ef583 100644
--- a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
+++ b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
@@ -172,7 +172,7 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
     cos0 = cos(phi0)
     sin0 = sin(phi0)
     tjk(j-1,kmax-1) = -dz*rr*cos0*exp(-z(kmax-1)*rkappa/h)
-    tjk(j-1,kmax-1) = tjk(j-1,kmax-1)*(tbar(j+1,kmax)-tbar(j-1,kmax))
+    tjk(j-1,kmax-1) = tjk(j-1,kmax-1)*(tbar(jj+1,kmax)-tbar(jj-1,kmax))
     tjk(j-1,kmax-1) = tjk(j-1,kmax-1)/(4.*omega*sin0*dphi*h*a)
     sjk(j-1,j-1,kmax-1) = 1.
   enddo
-- 
2.43.0


From f5b689cdc9316bcc83abaeb1b273b5957d8b9629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:59 +0000
Subject: [PATCH 25/40] fix: results and steps requested before their
 prerequisites raise an error

---
 src/falwa/oopinterface.py | 60 ++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 01ba74b..8e86f2e 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -184,6 +184,10 @@ class QGFieldBase(ABC):
 
         # === Stage completion indicator ===
         self._reference_states_computed: bool = False
+        self._reference_states_available: bool = False  # also True if Qref is computed but Uref does not converge
+        self._lwa_computed: bool = False
+        self._lwa_baro_computed: bool = False
+        self._barotropic_fluxes_computed: bool = False
         self._layerwise_fluxes_computed: bool = False
 
     def _initialize_storage(self):
@@ -603,6 +607,7 @@ class QGFieldBase(ABC):
             raise ValueError("QGField.interpolate_fields has to be called before QGField.compute_reference_states.")
 
         self._compute_reference_states()
+        self._reference_states_available = True
 
         if not self._nonconvergent_uref:  # Successfully compute reference states
             self._reference_states_computed = True
@@ -641,6 +646,7 @@ class QGFieldBase(ABC):
         >>> u_baro = QGField.u_baro    # barotropic U
         >>> lwa = QGField.lwa       # 3-D LWA
         """
+        self._check_computed(self._reference_states_available, "Reference states")
 
         ylat_input = self._ylat[-self.equator_idx:] if self.northern_hemisphere_results_only else self._ylat
         qref_correct_unit = self._reference_states_storage.qref_correct_unit(
@@ -690,6 +696,8 @@ class QGFieldBase(ABC):
             self._layerwise_flux_terms_storage.lwa_shem = np.abs(astar1 + astar2)
             self._layerwise_flux_terms_storage.astar1_shem = np.abs(astar1)
             self._layerwise_flux_terms_storage.astar2_shem = np.abs(astar2)
+        self._lwa_computed = True
+        self._lwa_baro_computed = True
 
     def _prepare_ncforce(self, ncforce):
         """
@@ -952,6 +960,9 @@ class QGFieldBase(ABC):
 
         # Barotropic wave activity flux vectors (Zonal, Lee & Nakamura 2024, eqs. 7)
         self._output_barotropic_flux_terms_storage.flux_vector_phi_baro = self._compute_flux_vector_phi_baro()
+        self._lwa_computed = True
+        self._lwa_baro_computed = True
+        self._barotropic_fluxes_computed = True
 
         # === Return the named tuple ===
         if return_named_tuple:
@@ -1084,6 +1095,15 @@ class QGFieldBase(ABC):
         ----------
         ncforce : np.ndarray of dimension (kmax, nlat, nlon) which is output from self.compute_ncforce_from_heating_rate
         """
+        # Check if previous steps have been done.
+        if self._nonconvergent_uref:
+            raise ValueError(
+                """
+                Uref was not properly solved. This method cannot be called. 
+                Try compute_lwa_only instead if you deem appropriate.
+                """)
+        self._check_computed(self._reference_states_computed, "Reference states")
+
         # Turn qref back to correct unit
         ylat_input, qref_correct_unit = self._prepare_coordinates_and_ref_states(
             self._ylat, self._interpolated_field_storage, self._reference_states_storage,
@@ -1163,8 +1183,17 @@ class QGFieldBase(ABC):
 
         # *** Compute the layerwise version of ep4 ***
         self._compute_stretch_term(stat_n=stat_n, stat_s=stat_s)
+        self._lwa_computed = True
         self._layerwise_fluxes_computed = True
 
+    @staticmethod
+    def _check_computed(computed: bool, name: str):
+        """
+        Private function. Raise an error if the variable requested has not been computed.
+        """
+        if not computed:
+            raise ValueError(f"{name} is not computed yet.")
+
     @staticmethod
     def _check_nan(name, var):
         nan_num = np.count_nonzero(np.isnan(var))
@@ -1280,8 +1309,7 @@ class QGFieldBase(ABC):
         """
         Reference state of QGPV (Qref).
         """
-        if self._reference_states_storage.qref is None:
-            raise ValueError('qref is not computed yet.')
+        self._check_computed(self._reference_states_available, "qref")
         return self._return_interp_variables(
             variable=self._reference_states_storage.qref_correct_unit(
                 self.ylat_ref_states_analysis, self.omega), interp_axis=1)
@@ -1291,8 +1319,7 @@ class QGFieldBase(ABC):
         """
         Reference state of zonal wind (Uref).
         """
-        if self._reference_states_storage.uref is None:
-            raise ValueError('uref is not computed yet.')
+        self._check_computed(self._reference_states_available, "uref")
         return self._return_interp_variables(
             variable=self._reference_states_storage.fortran_to_python(self._reference_states_storage.uref),
             interp_axis=1)
@@ -1302,8 +1329,7 @@ class QGFieldBase(ABC):
         """
         Reference state of potential temperature (\\Theta_ref).
         """
-        if self._reference_states_storage.ptref is None:
-            raise ValueError('ptref is not computed yet.')
+        self._check_computed(self._reference_states_available, "ptref")
         return self._return_interp_variables(
             variable=self._reference_states_storage.fortran_to_python(self._reference_states_storage.ptref),
             interp_axis=1)
@@ -1313,6 +1339,7 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of the second-order eddy term in zonal advective flux, i.e. F1 in equation 3 of NH18
         """
+        self._check_computed(self._barotropic_fluxes_computed, "adv_flux_f1")
         return self._return_interp_variables(
             variable=self._output_barotropic_flux_terms_storage.adv_flux_f1,
             interp_axis=0)
@@ -1322,6 +1349,7 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of the third-order eddy term in zonal advective flux, i.e. F2 in equation 3 of NH18
         """
+        self._check_computed(self._barotropic_fluxes_computed, "adv_flux_f2")
         return self._return_interp_variables(
             variable=self._output_barotropic_flux_terms_storage.adv_flux_f2,
             interp_axis=0)
@@ -1331,6 +1359,7 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of the remaining term in zonal advective flux, i.e. F3 in equation 3 of NH18
         """
+        self._check_computed(self._barotropic_fluxes_computed, "adv_flux_f3")
         return self._return_interp_variables(
             variable=self._output_barotropic_flux_terms_storage.adv_flux_f3,
             interp_axis=0)
@@ -1340,6 +1369,7 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of the convergence of zonal advective flux, i.e. -div(F1+F2+F3) in equation 3 of NH18
         """
+        self._check_computed(self._barotropic_fluxes_computed, "convergence_zonal_advective_flux")
         return self._return_interp_variables(
             variable=self._output_barotropic_flux_terms_storage.convergence_zonal_advective_flux,
             interp_axis=0)
@@ -1349,6 +1379,7 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of the divergence of eddy momentum flux, i.e. (II) in equation 2 of NH18
         """
+        self._check_computed(self._barotropic_fluxes_computed, "divergence_eddy_momentum_flux")
         return self._return_interp_variables(
             variable=self._output_barotropic_flux_terms_storage.divergence_eddy_momentum_flux,
             interp_axis=0)
@@ -1358,6 +1389,7 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of the low-level meridional heat flux, i.e. (III) in equation 2 of NH18
         """
+        self._check_computed(self._barotropic_fluxes_computed, "meridional_heat_flux")
         return self._return_interp_variables(
             variable=self._output_barotropic_flux_terms_storage.meridional_heat_flux,
             interp_axis=0)
@@ -1373,6 +1405,7 @@ class QGFieldBase(ABC):
         :math:`\\langle \\text{adv\_f2} \\rangle \\equiv - a \\langle \\int_0^{\\Delta\\phi} u_e q_e \\cos(\\phi + \\phi') \\mathrm{d}\\phi^\\prime \\rangle`,
         :math:`\\langle \\text{adv\_f3} \\rangle \\equiv \\frac{\\cos(\\phi)}{2} \\left\\langle v_e^2 - u_e^2 - \\frac{R}{H} \\frac{e^{-\\kappa z / H} \\theta_e^2}{\\partial \\tilde\\theta / \\partial z} \\right\\rangle`
         """
+        self._check_computed(self._barotropic_fluxes_computed, "flux_vector_lambda_baro")
         return self._return_interp_variables(
             variable=self._output_barotropic_flux_terms_storage.flux_vector_lambda_baro,
             interp_axis=0)
@@ -1387,6 +1420,7 @@ class QGFieldBase(ABC):
 
         Computed as -0.5 * (ep2baro + ep3baro) / cos(phi).
         """
+        self._check_computed(self._barotropic_fluxes_computed, "flux_vector_phi_baro")
         return self._return_interp_variables(
             variable=self._output_barotropic_flux_terms_storage.flux_vector_phi_baro,
             interp_axis=0)
@@ -1396,8 +1430,7 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of barotropic local wave activity (with cosine weighting).
         """
-        if self._barotropic_flux_terms_storage.lwa_baro is None:
-            raise ValueError('lwa_baro is not computed yet.')
+        self._check_computed(self._lwa_baro_computed, "lwa_baro")
         return self._return_interp_variables(
             variable=self._barotropic_flux_terms_storage.fortran_to_python(
                 self._barotropic_flux_terms_storage.lwa_baro),
@@ -1410,8 +1443,7 @@ class QGFieldBase(ABC):
         corresponding barotropic component of non-conservative force contribution with respect to the wave
         activity budget equation in Lubis et al (2025, Nature Comm) Eq.(11).
         """
-        if self._barotropic_flux_terms_storage.ncforce_baro is None:
-            raise ValueError('ncforce_baro is not computed yet.')
+        self._check_computed(self._barotropic_fluxes_computed, "ncforce_baro")
         return self._return_interp_variables(
             variable=self._barotropic_flux_terms_storage.fortran_to_python(
                 self._barotropic_flux_terms_storage.ncforce_baro),
@@ -1422,8 +1454,7 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of barotropic zonal wind (without cosine weighting).
         """
-        if self._barotropic_flux_terms_storage.u_baro is None:
-            raise ValueError('u_baro is not computed yet.')
+        self._check_computed(self._lwa_baro_computed, "u_baro")
         return self._return_interp_variables(
             variable=self._barotropic_flux_terms_storage.fortran_to_python(
                 self._barotropic_flux_terms_storage.u_baro),
@@ -1434,8 +1465,7 @@ class QGFieldBase(ABC):
         """
         Three-dimensional array of local wave activity
         """
-        if self._layerwise_flux_terms_storage.lwa is None:
-            raise ValueError('lwa is not computed yet.')
+        self._check_computed(self._lwa_computed, "lwa")
         return self._return_interp_variables(
             variable=self._layerwise_flux_terms_storage.fortran_to_python(self._layerwise_flux_terms_storage.lwa),
             interp_axis=1)
@@ -1694,6 +1724,7 @@ class QGFieldNH18(QGFieldBase):
         """
         The interpolated static stability.
         """
+        self._check_computed(self._domain_average_storage.static_stability is not None, "static_stability")
         return self._domain_average_storage.static_stability
 
 
@@ -1902,6 +1933,7 @@ class QGFieldNHN22(QGFieldBase):
         """
         The interpolated static stability.
         """
+        self._check_computed(self._domain_average_storage.static_stability_n is not None, "static_stability")
         if self.northern_hemisphere_results_only:
             return self._domain_average_storage.static_stability_n
         else:
-- 
2.43.0


From 6fc4c85ef05d4cbf8ca78d6a404af4ea564df180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:36 +0000
Subject: [PATCH 26/40] fix: reference PV and circulation are assigned where
 more than the binned area is enclosed

---
 src/falwa/f90_modules/compute_qref_and_fawa_first.f90 | 5 +++++
 src/falwa/f90_modules/compute_reference_states.f90    | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90 b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
index a6ef583..06d95df 100644
--- a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
+++ b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
@@ -84,6 +84,9 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
       ccn(nn) = ccn(nn-1)+cn(nn)
     enddo
     do j = 1,nd-1
+      ! more than the area counted in the bins is enclosed: lowest contour
+      qref(j,k) = qn(nnd)
+      cref(j,k) = ccn(nnd)
       do nn = 1,nnd-1
         if(aan(nn).le.alat(j).and.aan(nn+1).gt.alat(j)) then
           dd = (alat(j)-aan(nn))/(aan(nn+1)-aan(nn))
@@ -134,6 +137,8 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
       ccn(nn) = ccn(nn-1)+cn(nn)
     enddo
     do j = 1,nd-1
+      ! more than the area counted in the bins is enclosed: lowest contour
+      ckref(j,k) = ccn(nnd)
       do nn = 1,nnd-1
         if(aan(nn).le.alat(j).and.aan(nn+1).gt.alat(j)) then
           dd = (alat(j)-aan(nn))/(aan(nn+1)-aan(nn))
diff --git a/src/falwa/f90_modules/compute_reference_states.f90 b/src/falwa/f90_modules/compute_reference_states.f90
index e48f6d3..2a7ad37 100644
--- a/src/falwa/f90_modules/compute_reference_states.f90
+++ b/src/falwa/f90_modules/compute_reference_states.f90
@@ -96,6 +96,9 @@ SUBROUTINE compute_reference_states(pv,uu,pt,stat,nlon,nlat,kmax,jd,npart,maxits
             ccn(nn) = ccn(nn-1)+cn(nn) 
         enddo
         do j = 1,(jd-1)
+            ! more than the area counted in the bins is enclosed: lowest contour
+            qref(j,k) = qn(npart)
+            cref(j,k) = ccn(npart)
             do nn = 1,npart-1
                 if(aan(nn).le.alat(j).and.aan(nn+1).gt.alat(j)) then
                     dd = (alat(j)-aan(nn))/(aan(nn+1)-aan(nn))
-- 
2.43.0


From 2377e9697c2176d565cb895f14093328c45b8e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 27/40] fix: return fluxes on the input latitudes from
 compute_lwa_and_barotropic_fluxes for even grids

---
 src/falwa/oopinterface.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 8e86f2e..ae4fe4e 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -971,15 +971,15 @@ class QGFieldBase(ABC):
                 ['adv_flux_f1', 'adv_flux_f2', 'adv_flux_f3', 'convergence_zonal_advective_flux',
                  'divergence_eddy_momentum_flux', 'meridional_heat_flux', 'lwa_baro', 'u_baro', 'lwa'])
             lwa_and_fluxes = LWA_and_fluxes(
-                self._output_barotropic_flux_terms_storage.adv_flux_f1,
-                self._output_barotropic_flux_terms_storage.adv_flux_f2,
-                self._output_barotropic_flux_terms_storage.adv_flux_f3,
-                self._output_barotropic_flux_terms_storage.convergence_zonal_advective_flux,
-                self._output_barotropic_flux_terms_storage.divergence_eddy_momentum_flux,
-                self._output_barotropic_flux_terms_storage.meridional_heat_flux,
-                self._barotropic_flux_terms_storage.fortran_to_python(self._barotropic_flux_terms_storage.lwa_baro),
-                self._barotropic_flux_terms_storage.fortran_to_python(self._barotropic_flux_terms_storage.u_baro),
-                self._layerwise_flux_terms_storage.fortran_to_python(self._layerwise_flux_terms_storage.lwa))
+                self.adv_flux_f1,
+                self.adv_flux_f2,
+                self.adv_flux_f3,
+                self.convergence_zonal_advective_flux,
+                self.divergence_eddy_momentum_flux,
+                self.meridional_heat_flux,
+                self.lwa_baro,
+                self.u_baro,
+                self.lwa)
             return lwa_and_fluxes
 
     def _compute_flux_vector_phi_baro(self):
-- 
2.43.0


From 282603486ea5a516b05d17df747aa55bb5c9bb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 28/40] fix: accept extra dimensions without labels in
 QGDataset

---
 src/falwa/xarrayinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 4eb38f4..da75d87 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -412,7 +412,7 @@ class QGDataset:
         assert self._fields, "empty input"
         # Tailored metadata access
         self.metadata = _MetadataServiceProvider(self._fields[0], other_coords={
-            dim: self._ds.coords[dim] for dim in other_dims
+            dim: self._ds[dim] for dim in other_dims
         })
 
     @property
-- 
2.43.0


From 785ba2bd2a357c6c57d240d9c752b46c54da65f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 29/40] fix: forcing and heating rates given to a QGDataset are
 taken in the order of their own coordinates

---
 src/falwa/xarrayinterface.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index da75d87..25ba3b3 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -383,7 +383,7 @@ class QGDataset:
         t = da_t.data.reshape(_shape)
         # Automatically determine how fields need to be flipped so they match
         # the requirements of QGField and extract coordinate values
-        self._flip = flip = []
+        flip = []
         # Ensure that ylat is ascending
         ylat = da_ylat.values
         if not _is_ascending(ylat):
@@ -429,6 +429,17 @@ class QGDataset:
         """Metadata dictionary that is attached to output datasets."""
         return self.metadata.attrs()
 
+    @staticmethod
+    def _select_in_field_order(da, coord, is_level_ordered):
+        """Values of the 3D field at the given coordinates of the other dimensions, ordered like the fields of QGField"""
+        da = da.sel(coord)
+        flip = []
+        if da.dims[-2] in da.coords and not _is_ascending(da.coords[da.dims[-2]].values):
+            flip.append(-2)
+        if da.dims[-3] in da.coords and not is_level_ordered(da.coords[da.dims[-3]].values):
+            flip.append(-3)
+        return np.flip(da.values, axis=flip) if flip else da.values
+
     def interpolate_fields(self, return_dataset=True):
         """Call `interpolate_fields` on all contained fields.
 
@@ -545,7 +556,8 @@ class QGDataset:
         xarray.Dataset or None
         """
         for field, coord in zip(self._fields, self.metadata.iter_other()):
-            ncforce_sliced = ncforce.sel(coord) if ncforce is not None else None
+            ncforce_sliced = self._select_in_field_order(ncforce, coord, _is_ascending) \
+                if ncforce is not None else None
             field.compute_lwa_and_barotropic_fluxes(ncforce=ncforce_sliced, return_named_tuple=False)
         if return_dataset:
             data_vars = {
@@ -618,7 +630,8 @@ class QGDataset:
         xarray.Dataset or None
         """
         for field, coord in zip(self._fields, self.metadata.iter_other()):
-            ncforce_sliced = ncforce.sel(coord) if ncforce is not None else None
+            ncforce_sliced = self._select_in_field_order(ncforce, coord, _is_ascending) \
+                if ncforce is not None else None
             field.compute_layerwise_lwa_fluxes(ncforce=ncforce_sliced)
         if return_dataset:
             data_vars = {
@@ -657,11 +670,8 @@ class QGDataset:
         ncforce_input_list = []
 
         for field, coord in zip(self._fields, self.metadata.iter_other()):
-            heating_rate_field = heating_rate.sel(coord).values
-            # Apply the reordering of the input fields
-            if self._flip:
-                heating_rate_field = np.flip(heating_rate_field, axis=self._flip)
-            output = field.compute_ncforce_from_heating_rate(heating_rate=heating_rate_field)
+            output = field.compute_ncforce_from_heating_rate(
+                heating_rate=self._select_in_field_order(heating_rate, coord, _is_descending))
             ncforce_input_list.append(output)
         return self.metadata.as_dataarray(ncforce_input_list, var="ncforce")
 
-- 
2.43.0


From ad4f52fd7116b2812b336b2502bcedb67e6030da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 30/40] fix: reject ascending pressure levels also for evenly
 spaced data

---
 src/falwa/oopinterface.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index ae4fe4e..a7b2a1a 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -108,6 +108,7 @@ class QGFieldBase(ABC):
         # === Variables related to the Vertical grid ===
         self._data_on_evenly_spaced_pseudoheight_grid = data_on_evenly_spaced_pseudoheight_grid
         if self._data_on_evenly_spaced_pseudoheight_grid:
+            self._check_plev_order(plev)
             self.plev = plev
             self.kmax = plev.size
             self._plev_to_height = -scale_height * np.log(plev / P_GROUND)
@@ -282,6 +283,14 @@ class QGFieldBase(ABC):
             variable = variable.data
         return variable
 
+    @staticmethod
+    def _check_plev_order(plev):
+        """
+        Private function. Check if plev is in decending order.
+        """
+        if np.diff(plev)[0] > 0:
+            raise TypeError("plev must be in decending order (i.e. from ground level to aloft)")
+
     def _check_valid_plev(self, plev, scale_height, kmax, dz):
         """
         Private function. Check the validity of plev to see
@@ -299,9 +308,7 @@ class QGFieldBase(ABC):
         dz : float, optional
                Size of uniform pseudoheight grids (in meters).
         """
-        # Check if plev is in decending order
-        if np.diff(plev)[0] > 0:
-            raise TypeError("plev must be in decending order (i.e. from ground level to aloft)")
+        self._check_plev_order(plev)
         self.plev = plev
         self._plev_to_height = -scale_height * np.log(plev / P_GROUND)
 
-- 
2.43.0


From 117eda756f0b43fa7e6cae2d195adc27eaf742ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 31/40] fix: reject temperature fields whose shape does not
 match the coordinates

---
 src/falwa/oopinterface.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index a7b2a1a..364a1b4 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -125,8 +125,7 @@ class QGFieldBase(ABC):
         # === Check whether the input field is masked array. If so, turn them to normal array ===
         u_field = self._convert_masked_data(u_field, "u_field")
         v_field = self._convert_masked_data(v_field, "v_field")
-        theta_field = self._convert_masked_data(t_field, "t_field") * np.exp(
-            dry_gas_constant / cp * self._plev_to_height[:, np.newaxis, np.newaxis] / scale_height)
+        t_field = self._convert_masked_data(t_field, "t_field")
 
         # === Check if ylat is in ascending order and include the equator ===
         ylat = self._convert_masked_data(ylat, "ylat")
@@ -143,7 +142,11 @@ class QGFieldBase(ABC):
         expected_dimension = (self.nlev, self.nlat, self.nlon)
         self._check_dimension_of_fields(field=u_field, field_name='u_field', expected_dim=expected_dimension)
         self._check_dimension_of_fields(field=v_field, field_name='v_field', expected_dim=expected_dimension)
-        self._check_dimension_of_fields(field=theta_field, field_name='theta_field', expected_dim=expected_dimension)
+        self._check_dimension_of_fields(field=t_field, field_name='t_field', expected_dim=expected_dimension)
+
+        # === Compute potential temperature ===
+        theta_field = t_field * np.exp(
+            dry_gas_constant / cp * self._plev_to_height[:, np.newaxis, np.newaxis] / scale_height)
 
         # === Do Interpolation on latitude grid if needed ===
         if self.need_latitude_interpolation:
-- 
2.43.0


From 3e8067dffafcfd0285ff3d26598f97eb4f5f5c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:10 +0000
Subject: [PATCH 32/40] fix: direct inversion failed when rounding made the
 list of level heights one level too long

---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 364a1b4..0fad624 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1893,7 +1893,7 @@ class QGFieldNHN22(QGFieldBase):
                 jmax=self._nlat_analysis,
                 jb=self.eq_boundary_index,  # 5
                 jd=self.jd,
-                z=np.arange(0, self.kmax * self.dz, self.dz),
+                z=self.dz * np.arange(self.kmax),
                 statn=static_stability,
                 qref=qref_over_sin,
                 ckref=ckref,
-- 
2.43.0


From 72f9bfd5b4d40db81257d12cff8164c59d7b925e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:33 +0000
Subject: [PATCH 33/40] fix: difference operators of integer fields are not
 truncated to integers

---
 src/falwa/utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index 89f7c91..2445e69 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -219,7 +219,7 @@ def zonal_convergence(field, clat, dlambda, planet_radius=6.378e+6, tol=1.e-5):
 
     """
 
-    zonal_diff = np.zeros_like(field)
+    zonal_diff = np.zeros(field.shape)
     zonal_diff[:, 1:-1] = field[:, 2:] - field[:, :-2]
     zonal_diff[:, 0] = field[:, 1] - field[:, -1]
     zonal_diff[:, -1] = field[:, 0] - field[:, -2]
@@ -267,7 +267,7 @@ def meridional_divergence(field, clat, dphi, planet_radius=6.378e+6, tol=1.e-5):
 
     """
 
-    meridional_diff = np.zeros_like(field)
+    meridional_diff = np.zeros(field.shape)
     meridional_diff[1:-1, :] = field[2:, :] * clat[2:, np.newaxis] - field[:-2, :] * clat[:-2, np.newaxis]
     # One-sided differences span dphi only
     meridional_diff[0, :] = 2. * (field[1, :] * clat[1] - field[0, :] * clat[0])
@@ -289,7 +289,7 @@ def curl_2d(ufield, vfield, clat, dlambda, dphi, planet_radius=6.378e+6):
     of velocity on a pressure level in spherical coordinates.
     """
 
-    ans = np.zeros_like(ufield)
+    ans = np.zeros(ufield.shape)
     ans[1:-1, 1:-1] = (vfield[1:-1, 2:] - vfield[1:-1, :-2])/(2.*dlambda) - \
                       (ufield[2:, 1:-1] * clat[2:, np.newaxis] -
                        ufield[:-2, 1:-1] * clat[:-2, np.newaxis])/(2.*dphi)
-- 
2.43.0


From 88ed511f688be23a5db88c12bf314054adbf095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:33 +0000
Subject: [PATCH 34/40] fix: compute_qgpv_givenvort of an integer temperature
 field is not truncated to integers

---
 src/falwa/utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index 2445e69..ca7c9fb 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -152,14 +152,14 @@ def compute_qgpv_givenvort(omega, nlat, nlon, kmax, unih, ylat, avort,
         nlat_s = nlat - nlat // 2  # no row (the equator of an odd grid) may stay undefined
 
     # --- Next, calculate PV ---
-    qgpv = np.empty_like(potential_temp)  # av1+av2+av3+dzdiv
+    qgpv = np.empty(potential_temp.shape)  # av1+av2+av3+dzdiv
 
     av1 = np.ones((kmax, nlat, nlon)) * \
         2*omega*np.sin(np.deg2rad(ylat[np.newaxis, :, np.newaxis]))
 
     # Calculate the z-divergence term
-    zdiv = np.empty_like(potential_temp)
-    dzdiv = np.empty_like(potential_temp)
+    zdiv = np.empty(potential_temp.shape)
+    dzdiv = np.empty(potential_temp.shape)
     for kk in range(kmax):  # This is more efficient
         zdiv[kk, :nlat_s, :] = exp(-unih[kk]/scale_height)*(
             potential_temp[kk, :nlat_s, :] - t0_cs[kk]
-- 
2.43.0


From 5cc1061ee760e71cf7efd2fcdc39bc4877b1e88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:10 +0000
Subject: [PATCH 35/40] fix: compare_two_fields_on_map accepts diff_factor=None
 as documented

---
 src/falwa/plot_utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/falwa/plot_utils.py b/src/falwa/plot_utils.py
index 4925810..7dbd259 100644
--- a/src/falwa/plot_utils.py
+++ b/src/falwa/plot_utils.py
@@ -67,8 +67,11 @@ def compare_two_fields_on_map(
     cs2 = map_on_axis(ax2, x_coord, y_coord, field_b, levels=np.linspace(cmin, cmax, 31), title=b_title,
                       colorbar_label='')
     ax3 = fig.add_subplot(1, 3, 3, projection=ccrs.PlateCarree(180))
-    cs3 = map_on_axis(ax3, x_coord, y_coord, np.abs(field_a - field_b),
-                      levels=np.linspace(0, diff_factor * max([np.abs(cmin), np.abs(cmax)]), 31),
+    if diff_factor:
+        diff_levels = np.linspace(0, diff_factor * max([np.abs(cmin), np.abs(cmax)]), 31)
+    else:
+        diff_levels = None  # auto-colorscale
+    cs3 = map_on_axis(ax3, x_coord, y_coord, np.abs(field_a - field_b), levels=diff_levels,
                       title=f'Abs difference',
                       colorbar_label='')
     plt.suptitle(title)
@@ -88,7 +91,8 @@ def map_on_axis(ax_obj, xlon, ylat, field, levels, title, colorbar_label='ua2 (m
     lat_formatter = LatitudeFormatter()
     ax_obj.xaxis.set_major_formatter(lon_formatter)
     ax_obj.yaxis.set_major_formatter(lat_formatter)
-    ott = ax_obj.contourf(xlon, ylat, field, levels, transform=ccrs.PlateCarree(), cmap='rainbow')
+    # levels = None leaves the choice of contour levels to matplotlib
+    ott = ax_obj.contourf(xlon, ylat, field, levels=levels, transform=ccrs.PlateCarree(), cmap='rainbow')
     ax_obj.set_title(title)
     plt.colorbar(ott, ax=ax_obj, label=colorbar_label)
     return ott
-- 
2.43.0


From 2a993c903a3ff4be6d8d7433217bd69ff89d62b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:10 +0000
Subject: [PATCH 36/40] fix: compare_two_fields_on_map uses the colour map it
 is given

---
 src/falwa/plot_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/falwa/plot_utils.py b/src/falwa/plot_utils.py
index 7dbd259..02c09e8 100644
--- a/src/falwa/plot_utils.py
+++ b/src/falwa/plot_utils.py
@@ -62,10 +62,10 @@ def compare_two_fields_on_map(
     fig = plt.figure(figsize=figsize)
     ax1 = fig.add_subplot(1, 3, 1, projection=ccrs.PlateCarree(180))
     cs1 = map_on_axis(ax1, x_coord, y_coord, field_a, levels=np.linspace(cmin, cmax, 31), title=a_title,
-                      colorbar_label='')
+                      colorbar_label='', cmap=cmap)
     ax2 = fig.add_subplot(1, 3, 2, projection=ccrs.PlateCarree(180))
     cs2 = map_on_axis(ax2, x_coord, y_coord, field_b, levels=np.linspace(cmin, cmax, 31), title=b_title,
-                      colorbar_label='')
+                      colorbar_label='', cmap=cmap)
     ax3 = fig.add_subplot(1, 3, 3, projection=ccrs.PlateCarree(180))
     if diff_factor:
         diff_levels = np.linspace(0, diff_factor * max([np.abs(cmin), np.abs(cmax)]), 31)
@@ -73,7 +73,7 @@ def compare_two_fields_on_map(
         diff_levels = None  # auto-colorscale
     cs3 = map_on_axis(ax3, x_coord, y_coord, np.abs(field_a - field_b), levels=diff_levels,
                       title=f'Abs difference',
-                      colorbar_label='')
+                      colorbar_label='', cmap=cmap)
     plt.suptitle(title)
     plt.tight_layout()
     if savefig_fname:
@@ -81,7 +81,7 @@ def compare_two_fields_on_map(
     plt.show()
 
 
-def map_on_axis(ax_obj, xlon, ylat, field, levels, title, colorbar_label='ua2 (m/s**2)'):
+def map_on_axis(ax_obj, xlon, ylat, field, levels, title, colorbar_label='ua2 (m/s**2)', cmap='rainbow'):
     # ax_obj.set_extent([0, 360, ylat.min(), ylat.max()], ccrs.PlateCarree())
     ax_obj.coastlines(color='black', alpha=1)
     ax_obj.set_aspect('auto')
@@ -92,7 +92,7 @@ def map_on_axis(ax_obj, xlon, ylat, field, levels, title, colorbar_label='ua2 (m
     ax_obj.xaxis.set_major_formatter(lon_formatter)
     ax_obj.yaxis.set_major_formatter(lat_formatter)
     # levels = None leaves the choice of contour levels to matplotlib
-    ott = ax_obj.contourf(xlon, ylat, field, levels=levels, transform=ccrs.PlateCarree(), cmap='rainbow')
+    ott = ax_obj.contourf(xlon, ylat, field, levels=levels, transform=ccrs.PlateCarree(), cmap=cmap)
     ax_obj.set_title(title)
     plt.colorbar(ott, ax=ax_obj, label=colorbar_label)
     return ott
-- 
2.43.0


From 497ba490a9ce12da8066f6e5aa6561223e54d911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:28 +0000
Subject: [PATCH 37/40] fix: vertical_interpolation_to_pressure depends on a
 global of the main block and fails without a logging method

---
 ...erpolation_hybrid_to_pressure_poisson_filled_below_topo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py b/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py
index 848dcea..c83e10c 100644
--- a/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py
+++ b/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py
@@ -31,6 +31,8 @@ def gridfill_all_levels_each_time(new_variable_each_time, logging_object):
 def vertical_interpolation_to_pressure(ds, variable, save_topography=False, logging_method=None,
                                        new_lev = np.array([200, 300]), var='U'):
     start_interp = ti.time()
+    if logging_method is None:
+        logging_method = print
 
     KIND = 'linear'
     ai, bi, PS, P0 = ds.hyai.values, ds.hybi.values, ds.PS.values, ds.P0.values
@@ -88,7 +90,7 @@ def vertical_interpolation_to_pressure(ds, variable, save_topography=False, logg
             ## save a copy for topography file where there no values for certain pressure cooridinates.
             topography[t, ...] = new_variable[t, ...]
 
-        new_variable[t, ...] = gridfill_all_levels_each_time(new_variable[t, ...], logging_object)
+        new_variable[t, ...] = gridfill_all_levels_each_time(new_variable[t, ...], logging_method)
 
     if save_topography:
         topography[~np.isnan(topography)] = 1
-- 
2.43.0


From 7117e1dea01bf483c470e367af854b8a7b859c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:28 +0000
Subject: [PATCH 38/40] fix: keep the attributes of variables interpolated to
 pressure levels and leave those of the source alone

---
 ...rpolation_hybrid_to_pressure_poisson_filled_below_topo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py b/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py
index c83e10c..3fbac13 100644
--- a/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py
+++ b/scripts/pre_process_data_in_hybrid_coordinates/vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py
@@ -140,11 +140,12 @@ def update_new_variable_to_pressure(var, new_data, ds, ds_copy, default_attrs=No
     
     if default_attrs is None:
         default_attrs = ds[var].attrs
-        
+    new_attrs = {**default_attrs, 'description': '%s interpolated from model levels to pressure coords in hPa'%(var)}
+
     ds_copy[var]   = xr.DataArray(new_data, \
             dims   = tuple(new_coordinate_system), \
             coords = {key:ds_copy.coords[key].values for key in new_coordinate_system}, \
-            attrs  = default_attrs.update({'description': '%s interpolated from model levels to pressure coords in hPa'%(var)}))   
+            attrs  = new_attrs)
     
     del new_data
     gc.collect()
-- 
2.43.0


From e0329ca9fdf766c7fcd2323d79d4c4a433d110d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:28 +0000
Subject: [PATCH 39/40] fix: flip the fields together with the axes in the
 budget and heating scripts

---
 scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py | 10 +++++++---
 scripts/lubis_et_al_2025/cal_ncforce_loop.py     | 12 ++++++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py b/scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py
index 3f0a54e..48be366 100755
--- a/scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py
+++ b/scripts/lubis_et_al_2025/cal_lwa_budget_NHN22.py
@@ -38,15 +38,19 @@ for i in year:
     
     # latitude has to be in ascending order
     ylat = u_file.variables['lat'][:]
+    lat_step = 1
     if np.diff(ylat)[0]<0:
         print('Flip ylat.')
         ylat = ylat[::-1]
+        lat_step = -1  # the fields have to be flipped as well
     
     # pressure level has to be in descending order (ascending height)
     plev = u_file.variables['level'][:] #/100.
+    lev_step = 1
     if np.diff(plev)[0]>0:
         print('Flip plev.')    
         plev = plev[::-1]
+        lev_step = -1  # the fields have to be flipped as well
     
     nlon = xlon.size
     nlat = ylat.size
@@ -133,9 +137,9 @@ for i in year:
     
     for tstep in range(ntimes):  # or ntimes
         
-        uu = u_file.variables['U'][tstep, :, :, :].data
-        vv = v_file.variables['V'][tstep, :, :, :].data
-        tt = t_file.variables['T'][tstep, :, :, :].data
+        uu = u_file.variables['U'][tstep, ::lev_step, ::lat_step, :].data
+        vv = v_file.variables['V'][tstep, ::lev_step, ::lat_step, :].data
+        tt = t_file.variables['T'][tstep, ::lev_step, ::lat_step, :].data
     
         qgfield_object = QGFieldNHN22(xlon, ylat, plev, uu, vv, tt, eq_boundary_index=eq_boundary_index, northern_hemisphere_results_only=False)
         equator_idx = qgfield_object.equator_idx
diff --git a/scripts/lubis_et_al_2025/cal_ncforce_loop.py b/scripts/lubis_et_al_2025/cal_ncforce_loop.py
index 28852e8..5266a4d 100755
--- a/scripts/lubis_et_al_2025/cal_ncforce_loop.py
+++ b/scripts/lubis_et_al_2025/cal_ncforce_loop.py
@@ -41,15 +41,19 @@ for i in years:
 
     # Latitude must be in ascending order
     ylat = u_file.variables['lat'][:]
+    lat_step = 1
     if np.diff(ylat)[0] < 0:
         print('Flip ylat.')
         ylat = ylat[::-1]
+        lat_step = -1  # the fields have to be flipped as well
 
     # Pressure levels must be in descending order (ascending height)
     plev = u_file.variables['level'][:] #/ 100.0  # Convert to hPa
+    lev_step = 1
     if np.diff(plev)[0] > 0:
         print('Flip plev.')
         plev = plev[::-1]
+        lev_step = -1  # the fields have to be flipped as well
 
     nlon = xlon.size
     nlat = ylat.size
@@ -91,10 +95,10 @@ for i in years:
 
     # Process and compute ncforce_3D for each timestep
     for tstep in range(ntimes):
-        uu = u_file.variables['U'][tstep, :, :, :]
-        vv = v_file.variables['V'][tstep, :, :, :]
-        tt = t_file.variables['T'][tstep, :, :, :]
-        dtdt = dtdt_file.variables['DTDTMST'][tstep, :, :, :]
+        uu = u_file.variables['U'][tstep, ::lev_step, ::lat_step, :]
+        vv = v_file.variables['V'][tstep, ::lev_step, ::lat_step, :]
+        tt = t_file.variables['T'][tstep, ::lev_step, ::lat_step, :]
+        dtdt = dtdt_file.variables['DTDTMST'][tstep, ::lev_step, ::lat_step, :]
 
         # Initialize QGFieldNHN22 object
         qgfield = QGFieldNHN22(
-- 
2.43.0


From 7247add6198896c6a055eea947d324e9602e36aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:22 +0000
Subject: [PATCH 40/40] fix: integrate the legacy temperature correction with
 the Coriolis parameter of the row of the wind, up to the pole

---
 src/falwa/legacy/beta_version.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/legacy/beta_version.py b/src/falwa/legacy/beta_version.py
index 84fbced..61bca66 100644
--- a/src/falwa/legacy/beta_version.py
+++ b/src/falwa/legacy/beta_version.py
@@ -366,10 +366,10 @@ def solve_uref_both_bc(tstamp, zmum, FAWA_cos, ylat, ephalf2, Delta_PT,
         # ---- Back out temperature correction here -----
         T_MassCorr = np.zeros_like(u_MassCorr)
         for k in range(1,kmax-2):
-            for j in range(2,jmax1,2): # This is temperature not potential temperature!!! Need to check.
+            for j in range(2,jmax1+2,2): # This is temperature not potential temperature!!! Need to check.
                 # print 'alat['+str(j)+']=',alat[j]
                 # T_MassCorr[j,k] = T_MassCorr[j-2,k] - (2.*om*gl[j])*aa*hh*dmdz / (r0 * cosl[j]) * (u_MassCorr[j,k+1]-u_MassCorr[j,k-1])
-                T_MassCorr[j,k] = T_MassCorr[j-2,k] - (2.*om*gl[j-1])*aa*hh*dmdz / (r0 * cosl[j-1]) * (u_MassCorr[j-1,k+1]-u_MassCorr[j-1,k-1])
+                T_MassCorr[j,k] = T_MassCorr[j-2,k] - (2.*om*gl[j-2])*aa*hh*dmdz / (r0 * cosl[j-2]) * (u_MassCorr[j-1,k+1]-u_MassCorr[j-1,k-1])
             # ---- First do interpolation (gl is regular grid) ----
             # f_Todd = interpolate.interp1d(gl[:-1:2],T_MassCorr[1:-1:2,k])    #[jmax x kmax]
             #f_Todd = interpolate.interp1d(gl_2[::2],T_MassCorr[::2,k])    #[jmax x kmax]
-- 
2.43.0

