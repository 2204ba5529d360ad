From 4e8a7125232c2988e2cb6921b49ef2f0c2e2f474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 01/58] fix: reject azimuthal orders |m| > n in the ZernPol
 initialization

---
 src/zernpy/zernikepol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 5a03ed2..fa43dbf 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -117,8 +117,8 @@ class ZernPol:
                                     raise ValueError("Failed sanity check: order n less than 0")
                                 elif self.__n == 0 and self.__m != 0:
                                     raise ValueError("Failed sanity check: when n == 0, m should be also == 0")
-                                elif self.__n < 0:
-                                    raise ValueError("Failed sanity check: order n less than 0")
+                                elif abs(self.__m) > self.__n:
+                                    raise ValueError("Failed sanity check: |m| should be not more than n")
                                 elif self.__n > 54:
                                     raise ValueError("Initialization of Zernike with radial order higher than 54"
                                                      + " is meaningless because of very slow calculation performance")
-- 
2.43.0


From 3e73fa58aacc96c47067e5788b80d72524c84ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 02/58] fix: radial derivative of m = 0 polynomials for orders
 above 38 (product rule term)

---
 src/zernpy/calculations/calc_zernike_pol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_zernike_pol.py b/src/zernpy/calculations/calc_zernike_pol.py
index 65f2b67..e636aa3 100644
--- a/src/zernpy/calculations/calc_zernike_pol.py
+++ b/src/zernpy/calculations/calc_zernike_pol.py
@@ -547,7 +547,7 @@ def radial_polynomial_coeffs_dr(zernike_pol, r):
         if abs(m) == n:  # simplified recurrence formula from [3]
             r_sum = float(n)*np.power(r, n-1)
         elif m == 0:  # derivative from the simplified recurrence formula from [3]
-            r_sum = (2.0*(radial_polynomial_coeffs_dr((1, n-1), r) + r*radial_polynomial_coeffs_dr((1, n-1), r))
+            r_sum = (2.0*(radial_polynomial_coeffs((1, n-1), r) + r*radial_polynomial_coeffs_dr((1, n-1), r))
                      - radial_polynomial_coeffs_dr((0, n-2), r))
         elif abs(m) == n-2:  # derivative from my guess about overall equation
             r_sum = float(n)*float(n)*np.power(r, n-1) - float(n-1)*float(n-2)*np.power(r, n-3)
-- 
2.43.0


From be63183f6cc7ae56ac4d9b032f8f8e6706487337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 03/58] fix: reject steps out of range in
 gen_polar_coordinates, as documented

---
 src/zernpy/zernikepol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index fa43dbf..eb1f43c 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -1014,9 +1014,9 @@ class ZernPol:
             Theta - vector with theta angles values [0.0, theta_rad_step, ... 2*pi].
 
         """
-        if 0.0 >= r_step > 0.5:
+        if not 0.0 < r_step <= 0.5:
             raise ValueError("Provided step on radiuses less than 0.0 or more than 0.5")
-        if 0.0 >= theta_rad_step > np.pi:
+        if not 0.0 < theta_rad_step <= np.pi:
             raise ValueError("Provided step on theta angles less than 0.0 or more than pi")
         Rs = np.arange(0.0, 1.0+r_step, r_step); Thetas = np.arange(0.0, 2.0*np.pi+theta_rad_step, theta_rad_step)
         # Check that the last values on the generated ranges appeared not outside of ranges
-- 
2.43.0


From 4d9f24ff5687521b922834de9a3dcd58f5b548c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 04/58] fix: raise ValueError for indices not found by
 index2orders instead of returning wrong orders

---
 src/zernpy/zernikepol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index eb1f43c..8450817 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -756,6 +756,8 @@ class ZernPol:
                 m += 2
             if stop_search:
                 break
+        if not stop_search:
+            raise ValueError(f"Provided index {kwargs} doesn't correspond to any polynomial with the radial order < {highest_order}")
         return m, n
 
     @staticmethod
-- 
2.43.0


From aa7874a20f81cad489156746404f80710ea8fbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 05/58] fix: return Fringe index as int, accepted back by the
 ZernPol and fringe2osa

---
 src/zernpy/zernikepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 8450817..087eb4c 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -711,7 +711,7 @@ class ZernPol:
             Fringe index.
 
         """
-        return (1 + (n + abs(m))//2)**2 - 2*abs(m) + (1 - np.sign(m))//2
+        return (1 + (n + abs(m))//2)**2 - 2*abs(m) + (1 - int(np.sign(m)))//2
 
     @staticmethod
     def index2orders(**kwargs) -> tuple:
-- 
2.43.0


From 3bd719c2714003d283c9fe4af224796a5942d2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 06/58] fix: include all angles in the Simpson integration of
 the PSF diffraction integral

---
 src/zernpy/calculations/calc_psfs.py       | 21 +++++++++++----------
 src/zernpy/calculations/calc_psfs_numba.py | 10 ++++++----
 src/zernpy/zernpsf.py                      |  7 ++++---
 3 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 406d067..86eb234 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -63,8 +63,6 @@ def airy_ref_pattern(r: float):
         ratio = jv(1, 1E-11)/1E-11
     else:
         ratio = jv(1, r)/r
-    # NOTE that the values produced by exact equation below is off with the direct computation of diffraction integral
-    # apporoximate coefficient is 0.986711 for a central point. Most likely, the difference because of numerical integration
     return 4.0*pow(ratio, 2)
 
 
@@ -216,10 +214,11 @@ def get_psf_point_r(zernike_pol, r: float, theta: float, alpha: float, n_int_r_p
 
     """
     # Integration on the pupil radius using Simpson equation
+    n_int_phi_points += n_int_phi_points % 2  # Simpson rule requires even number of intervals
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
-    for i in range(2, n_int_phi_points-2, 2):
+    for i in range(2, n_int_phi_points-1, 2):
         phi = i*h_phi; even_sum += radial_integral(zernike_pol, r, theta, phi, alpha, n_int_r_points)
-    for i in range(1, n_int_phi_points-1, 2):
+    for i in range(1, n_int_phi_points, 2):
         phi = i*h_phi; odd_sum += radial_integral(zernike_pol, r, theta, phi, alpha, n_int_r_points)
     yA = radial_integral(zernike_pol, r, theta, 0.0, alpha, n_int_r_points)
     yB = radial_integral(zernike_pol, r, theta, 2.0*pi, alpha, n_int_r_points)
@@ -256,6 +255,7 @@ def get_psf_point_r_parallel(zernike_pol, r: float, theta: float, alpha: float,
         |U|**2 - the module and square of the amplitude, intensity as the PSF value.
 
     """
+    n_int_phi_points += n_int_phi_points % 2  # Simpson rule requires even number of intervals
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
     # below - wrapping the callable function with the fixed arguments for using in the paralleled framework call
     radial_integral_fixed_args = partial(radial_integral_args, zernike_pol=zernike_pol, r=r, theta=theta,
@@ -263,14 +263,14 @@ def get_psf_point_r_parallel(zernike_pol, r: float, theta: float, alpha: float,
 
     # Vectorized or parallelized form of for loop for even and odd phi-s
     if not joblib_installed or paralleljobs is None:
-        even_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points-2, 2)]
+        even_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points-1, 2)]
         even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
-        odd_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points-1, 2)]
+        odd_sums = [radial_integral(zernike_pol, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points, 2)]
         odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     else:
         if paralleljobs is not None and isinstance(paralleljobs, Parallel):
-            even_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(2, n_int_phi_points-2, 2))
-            odd_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(1, n_int_phi_points-1, 2))
+            even_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(2, n_int_phi_points-1, 2))
+            odd_sums = paralleljobs(delayed(radial_integral_fixed_args)(i*h_phi) for i in range(1, n_int_phi_points, 2))
             # even_sum = sum(even_sums, start=even_sum); odd_sum = sum(even_sums, start=odd_sum)
             even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums); odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
 
@@ -590,11 +590,12 @@ def get_psf_point_r_pols(polynomials, amplitudes: np.ndarray, r: float, theta: f
         |U|**2 - the module and square of the amplitude, intensity as the PSF value.
 
     """
+    n_int_phi_points += n_int_phi_points % 2  # Simpson rule requires even number of intervals
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
     # Vectorized or parallelized form of for loop for even and odd phi-s
-    even_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(2, n_int_phi_points-2, 2)]
+    even_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(2, n_int_phi_points-1, 2)]
     even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
-    odd_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(1, n_int_phi_points-1, 2)]
+    odd_sums = [radial_integral_pols(polynomials, amplitudes, r, theta, i*h_phi, n_int_r_points) for i in range(1, n_int_phi_points, 2)]
     odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     # Simpson integration rule implementation
     yA = radial_integral_pols(polynomials, amplitudes, r, theta, 0.0, n_int_r_points)
diff --git a/src/zernpy/calculations/calc_psfs_numba.py b/src/zernpy/calculations/calc_psfs_numba.py
index c569a67..2eaaabe 100644
--- a/src/zernpy/calculations/calc_psfs_numba.py
+++ b/src/zernpy/calculations/calc_psfs_numba.py
@@ -257,10 +257,11 @@ def get_psf_point_r_comp(orders: tuple, r: float, theta: float, alpha: float, n_
         |U|**2 - the module and square of the amplitude, intensity as the PSF value.
 
     """
+    n_int_phi_points += n_int_phi_points % 2  # Simpson rule requires even number of intervals
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
-    even_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points-2, 2)]
+    even_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(2, n_int_phi_points-1, 2)]
     even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
-    odd_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points-1, 2)]
+    odd_sums = [radial_integral_comp(orders, r, theta, i*h_phi, alpha, n_int_r_points) for i in range(1, n_int_phi_points, 2)]
     odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     # Simpson integration rule implementation
     yA = radial_integral_comp(orders, r, theta, 0.0, alpha, n_int_r_points)
@@ -539,12 +540,13 @@ def get_psf_point_r_pols_comp(polynomials_orders: tuple, amplitudes: np.ndarray,
         |U|**2 - the module and square of the amplitude, intensity as the PSF value.
 
     """
+    n_int_phi_points += n_int_phi_points % 2  # Simpson rule requires even number of intervals
     h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
     even_sums = [radial_integral_pols_comp(polynomials_orders, amplitudes, r, theta, i*h_phi, n_int_r_points)
-                 for i in range(2, n_int_phi_points-2, 2)]
+                 for i in range(2, n_int_phi_points-1, 2)]
     even_sums = np.asarray(even_sums); even_sum = np.sum(even_sums)
     odd_sums = [radial_integral_pols_comp(polynomials_orders, amplitudes, r, theta, i*h_phi, n_int_r_points)
-                for i in range(1, n_int_phi_points-1, 2)]
+                for i in range(1, n_int_phi_points, 2)]
     odd_sums = np.asarray(odd_sums); odd_sum = np.sum(odd_sums)
     # Simpson integration rule implementation
     yA = radial_integral_pols_comp(polynomials_orders, amplitudes, r, theta, 0.0, n_int_r_points)
diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index f7f937b..95b8254 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -690,17 +690,18 @@ class ZernPSF:
             Each point for PSF kernel.
 
         """
-        h_phi = 2.0*pi/self.n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
+        n_int_phi_points = self.n_int_phi_points + self.n_int_phi_points % 2  # Simpson rule requires even number of intervals
+        h_phi = 2.0*pi/n_int_phi_points; even_sum = 0.0j; odd_sum = 0.0j
         if self.__ParallelCalc is not None:
             # t1 = time.perf_counter()
             constants = (self.zernpol, r, theta, self.alpha, self.n_int_r_points)
-            self.__integration_params = [(i*h_phi, constants) for i in range(2, self.n_int_phi_points-2, 2)]
+            self.__integration_params = [(i*h_phi, constants) for i in range(2, n_int_phi_points-1, 2)]
             self.__ParallelCalc.update_params(self.__integration_params)
             # print("Forming params takes ms:", int(round(1000*(time.perf_counter() - t1), 0)))
             # t1 = time.perf_counter()
             even_sum = np.sum(np.asarray(self.__ParallelCalc.compute()))
             # print("Calculation takes ms:", int(round(1000*(time.perf_counter() - t1), 0)))
-            self.__integration_params = [(i*h_phi, constants) for i in range(1, self.n_int_phi_points-1, 2)]
+            self.__integration_params = [(i*h_phi, constants) for i in range(1, n_int_phi_points, 2)]
             self.__ParallelCalc.update_params(self.__integration_params)
             odd_sum = np.sum(np.asarray(self.__ParallelCalc.compute()))
         # Simpson integration rule implementation
-- 
2.43.0


From 7efb4694ebc5386e181ddc5f7e3932a9a69dc437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 07/58] fix: exclude the pupil border from inner points of the
 radial PSF integration

---
 src/zernpy/calculations/calc_psfs.py       | 6 +++---
 src/zernpy/calculations/calc_psfs_numba.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 86eb234..247507a 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -127,7 +127,7 @@ def radial_integral(zernike_pol, r: float, theta: float, phi: float, alpha: floa
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(start=h_p, stop=1.0, step=h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r(zernike_pol, alpha, phi, 0.0, theta, r)
     fb = diffraction_integral_r(zernike_pol, alpha, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r(zernike_pol, alpha, phi, p, theta, r)) + 0.5*(fa + fb)
@@ -162,7 +162,7 @@ def radial_integral_args(phi: float, zernike_pol, r: float, theta: float, alpha:
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(start=h_p, stop=1.0, step=h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r(zernike_pol, alpha, phi, 0.0, theta, r)
     fb = diffraction_integral_r(zernike_pol, alpha, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r(zernike_pol, alpha, phi, p, theta, r)) + 0.5*(fa + fb)
@@ -558,7 +558,7 @@ def radial_integral_pols(polynomials, amplitudes: np.ndarray, r: float, theta: f
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(start=h_p, stop=1.0, step=h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r_pols(polynomials, amplitudes, phi, 0.0, theta, r)
     fb = diffraction_integral_r_pols(polynomials, amplitudes, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r_pols(polynomials, amplitudes, phi, p, theta, r)) + 0.5*(fa + fb)
diff --git a/src/zernpy/calculations/calc_psfs_numba.py b/src/zernpy/calculations/calc_psfs_numba.py
index 2eaaabe..ccd3966 100644
--- a/src/zernpy/calculations/calc_psfs_numba.py
+++ b/src/zernpy/calculations/calc_psfs_numba.py
@@ -221,7 +221,7 @@ def radial_integral_comp(orders: tuple, r: float, theta: float, phi: float, alph
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(h_p, 1.0, h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r_comp(orders, alpha, phi, 0.0, theta, r)
     fb = diffraction_integral_r_comp(orders, alpha, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r_comp(orders, alpha, phi, p, theta, r)) + 0.5*(fa + fb)
@@ -502,7 +502,7 @@ def radial_integral_pols_comp(polynomials_orders: tuple, amplitudes: np.ndarray,
 
     """
     # Integration on the pupil angle. Vectorized form of the trapezoidal rule
-    h_p = 1.0/n_int_r_points; p = np.arange(h_p, 1.0, h_p)
+    h_p = 1.0/n_int_r_points; p = h_p*np.arange(1, n_int_r_points)
     fa = diffraction_integral_r_pols_comp(polynomials_orders, amplitudes, phi, 0.0, theta, r)
     fb = diffraction_integral_r_pols_comp(polynomials_orders, amplitudes, phi, 1.0, theta, r)
     ang_int = np.sum(diffraction_integral_r_pols_comp(polynomials_orders, amplitudes, phi, p, theta, r)) + 0.5*(fa + fb)
-- 
2.43.0


From db00508523a102655f1b3de5a105e9a56e06d69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 08/58] fix: accelerated PSF calculation for polynomials with
 |m| = n (n > 7) and |m| = n-2 (n > 10)

---
 src/zernpy/calculations/calc_psfs_numba.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs_numba.py b/src/zernpy/calculations/calc_psfs_numba.py
index ccd3966..65438f7 100644
--- a/src/zernpy/calculations/calc_psfs_numba.py
+++ b/src/zernpy/calculations/calc_psfs_numba.py
@@ -151,9 +151,9 @@ def zernpol_value(orders: tuple, r: Union[float, np.ndarray], theta: Union[float
         # 252r^10 - 630r^8 + 560r^6 - 210r^4 + 30r^2 - 1
         radial = 252.0*np.power(r, 10) - 630.0*np.power(r, 8) + 560.0*np.power(r, 6) - 210.0*np.power(r, 4) + 30.0*np.power(r, 2) - 1.0
     elif n > 7 and abs(m) == n:  # equation for high order polynomials (equal orders)
-        return np.power(r, n)
+        radial = np.power(r, n)
     elif n > 10 and abs(m) == n-2:  # equation for high order polynomials (orders with abs(m) == n-2)
-        return float(n)*np.power(r, n) - float(n-1)*np.power(r, n-2)
+        radial = float(n)*np.power(r, n) - float(n-1)*np.power(r, n-2)
     # Polynomial value as the multiplication of calculated above components
     return norm*triangular*radial
 
@@ -312,7 +312,7 @@ def get_psf_kernel_comp(zernike_pol, len2pixels: float, alpha: Union[float, np.n
     Raises
     ------
     ValueError
-        If the Zernike polynomial has the radial order > 10 and (abs(m) != n or abs(m) != n-2).
+        If the Zernike polynomial has the radial order > 10 and (abs(m) != n and abs(m) != n-2).
 
     Returns
     -------
@@ -335,7 +335,7 @@ def get_psf_kernel_comp(zernike_pol, len2pixels: float, alpha: Union[float, np.n
     if not hasattr(zernike_pol, "__len__") and isinstance(alpha, float):
         alpha /= wavelength  # normalize to wavelength (physical units)
         m, n = zernike_pol.get_mn_orders(); single_polynomial_provided = True
-        if n > 10 and (abs(m) != n or abs(m) != n-2):
+        if n > 10 and abs(m) != n and abs(m) != n-2:
             raise ValueError(f"The calculation PSF function isn't implemented for these orders: {m, n}")
     else:
         if not isinstance(alpha, np.ndarray):
@@ -343,7 +343,7 @@ def get_psf_kernel_comp(zernike_pol, len2pixels: float, alpha: Union[float, np.n
         polynomials_orders = []  # for checking and providing for further compilation polynomials in a tuple
         for pol in zernike_pol:
             m, n = pol.get_mn_orders(); polynomials_orders.append((m, n))
-            if n > 10 and (abs(m) != n or abs(m) != n-2):
+            if n > 10 and abs(m) != n and abs(m) != n-2:
                 raise ValueError(f"The calculation PSF function isn't implemented for these orders: {m, n}")
         polynomials_orders = tuple(polynomials_orders)  # convert list to tuple
     # Check that the calibration coefficient is sufficient for calculation
-- 
2.43.0


From ee92c944a867c8c4beec050f7d4e3923cf767e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 09/58] fix: raise ValueError if ZernPSF is initialized not
 with ZernPol instances

---
 src/zernpy/zernpsf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 95b8254..7106535 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -120,6 +120,8 @@ class ZernPSF:
                 raise ValueError("Provided empty Sequence, expected - Sequence with the 'ZernPol' class instances")
             # Single element should be unpacked and used
             elif seq_length == 1:
+                if not isinstance(zernpol[0], ZernPol):
+                    raise ValueError("Not all objects in Sequence are instances of the 'ZernPol' class")
                 self.zernpol = zernpol[0]; m, n = self.zernpol.get_mn_orders()
                 if m == 0 and n == 0:
                     self.airy = True
@@ -145,7 +147,7 @@ class ZernPSF:
                 else:
                     raise ValueError("Not all objects in Sequence are instances of the 'ZernPol' class")
         else:
-            ValueError("ZernPSF class requires single 'ZernPol' instance or Sequence (class with __len__ attr.) with 'ZernPol' instances")
+            raise ValueError("ZernPSF class requires single 'ZernPol' instance or Sequence (class with __len__ attr.) with 'ZernPol' instances")
 
     # %% Set properties
     def set_physical_props(self, NA: float, wavelength: float, expansion_coeff: Union[float, Sequence[float]], pixel_physical_size: float):
-- 
2.43.0


From a1c6370802f45a5880765864ffee1a159e5178c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 10/58] fix: keep workers of each DispenserManager instance
 separated

---
 src/zernpy/utils/intmproc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 84107fe..9c6c746 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -53,6 +53,7 @@ class DispenserManager():
         DispenserManager instance.
 
         """
+        self.__workers_pool = []; self.__triggers = []; self.__queues = []  # individual for each instance
         self.verbose_info = verbose_info
         if self.verbose_info:
             t1 = time.perf_counter(); self.done_jobs_percentage = 0
-- 
2.43.0


From 9519eb0b30d2ed938afb4205dc8198d688b96850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 11/58] fix: reject NA = 0 in set_physical_props with the
 documented ValueError

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 7106535..18d1416 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -187,7 +187,7 @@ class ZernPSF:
 
         """
         # Sanity check for NA
-        if NA < 0.0 or NA > 1.7:
+        if not 0.0 < NA <= 1.7:
             raise ValueError("NA should lay in the range of (0.0, 1.7] at most - for common microscopic objectives")
         # Sanity check for wavelength
         if wavelength <= 0.0:
-- 
2.43.0


From 11c89739d2f68d2badb11256d212666c9937d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 12/58] fix: calculate angular frequency k from the provided
 wavelength, not from the previous one

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 18d1416..e3756bf 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -192,7 +192,7 @@ class ZernPSF:
         # Sanity check for wavelength
         if wavelength <= 0.0:
             raise ValueError("Wavelength should be positive real number")
-        self.k = 2.0*pi/self.wavelength  # Calculate angular frequency (k)
+        self.k = 2.0*pi/wavelength  # Calculate angular frequency (k)
         self.NA = NA; self.wavelength = wavelength  # save as the class properties
         # Sanity check of provided wavelength, pixel physical size (Nyquist criteria)
         self.pixel_size_nyquist = 0.5*0.5*wavelength/NA  # based on half of the Abbe resolution limit, see references in the docstring
-- 
2.43.0


From ab949c6b18c41ddb87dc6b41e068812808c5ea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 13/58] fix: keep stored ZernPSF properties unchanged if the
 provided ones are rejected

---
 src/zernpy/zernpsf.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index e3756bf..f47ea72 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -192,17 +192,14 @@ class ZernPSF:
         # Sanity check for wavelength
         if wavelength <= 0.0:
             raise ValueError("Wavelength should be positive real number")
-        self.k = 2.0*pi/wavelength  # Calculate angular frequency (k)
-        self.NA = NA; self.wavelength = wavelength  # save as the class properties
         # Sanity check of provided wavelength, pixel physical size (Nyquist criteria)
-        self.pixel_size_nyquist = 0.5*0.5*wavelength/NA  # based on half of the Abbe resolution limit, see references in the docstring
-        self.pixel_size_nyquist_eStr = "{:.3e}".format(self.pixel_size_nyquist)  # formatting calculated pixel size in scientific notation
+        pixel_size_nyquist = 0.5*0.5*wavelength/NA  # based on half of the Abbe resolution limit, see references in the docstring
+        pixel_size_nyquist_eStr = "{:.3e}".format(pixel_size_nyquist)  # formatting calculated pixel size in scientific notation
         if pixel_physical_size <= 0.0:
             raise ValueError("Pixel physical size should be positive real number")
-        if pixel_physical_size > self.pixel_size_nyquist:
-            raise ValueError(f"Pixel physical size should be less than Nyquist pixel size {self.pixel_size_nyquist_eStr}"
+        if pixel_physical_size > pixel_size_nyquist:
+            raise ValueError(f"Pixel physical size should be less than Nyquist pixel size {pixel_size_nyquist_eStr}"
                              + f" computed from the Abbe's resolution limit (0.5*{lambda_char}/NA)")
-        self.pixel_size = pixel_physical_size
         # Check which type is provided as the expansion_coeff parameter
         if hasattr(expansion_coeff, '__len__'):
             coeffs_len = len(expansion_coeff)  # for checking how many amplitudes provided
@@ -213,7 +210,7 @@ class ZernPSF:
                     self.__warn_message = _sanity_check_expansion_coefficient(abs(expansion_coeff) / wavelength)
                     if len(self.__warn_message) > 0:
                         warnings.warn(self.__warn_message); self.__warn_message = ""
-                    self.expansion_coeff = expansion_coeff; self.alpha = self.expansion_coeff / self.wavelength
+                    self.expansion_coeff = expansion_coeff; self.alpha = self.expansion_coeff / wavelength
                 else:
                     raise ValueError(f"Length of provided coefficients ({coeffs_len}) is not equal to stored number "
                                      + f"of polynomials ({len(self.polynomials)})")
@@ -224,7 +221,7 @@ class ZernPSF:
                 self.__warn_message = _sanity_check_expansion_coefficient(abs(max_module_coeff) / wavelength, max_coeff_check=True)
                 if len(self.__warn_message) > 0:
                     warnings.warn(self.__warn_message); self.__warn_message = ""
-                self.amplitudes = self.coefficients / self.wavelength
+                self.amplitudes = self.coefficients / wavelength
         else:
             # Check consistency of provided type of polynomials and coefficients
             if self.zernpol is None and len(self.polynomials) > 1:  # only if 2 and more polynomials provided
@@ -237,7 +234,11 @@ class ZernPSF:
             self.__warn_message = _sanity_check_expansion_coefficient(abs(expansion_coeff) / wavelength)
             if len(self.__warn_message) > 0:
                 warnings.warn(self.__warn_message); self.__warn_message = ""
-            self.expansion_coeff = expansion_coeff; self.alpha = self.expansion_coeff / self.wavelength
+            self.expansion_coeff = expansion_coeff; self.alpha = self.expansion_coeff / wavelength
+        # Save all accepted physical properties as the class properties, after all checks above to not mix them with previous ones
+        self.k = 2.0*pi/wavelength  # Calculate angular frequency (k)
+        self.NA = NA; self.wavelength = wavelength; self.pixel_size = pixel_physical_size
+        self.pixel_size_nyquist = pixel_size_nyquist; self.pixel_size_nyquist_eStr = pixel_size_nyquist_eStr
         # Kernel size estimation (could be changed explicitly in the method 'set_calculation_props'). Redefine it for each call
         if self.zernpol is not None:  # for single polynomial
             self.kernel_size = get_kernel_size(zernike_pol=self.zernpol, len2pixels=self.pixel_size, alpha=self.alpha,
@@ -295,6 +296,11 @@ class ZernPSF:
         # Sanity check for kernel size
         if kernel_size < 3:
             raise ValueError("Kernel size should be more than 3")
+        # Sanity checks for n_integration_points_r and n_integration_points_phi
+        if n_integration_points_r < 20:
+            raise ValueError("# of integration points for radius should be not less than 20")
+        if n_integration_points_phi < 36:
+            raise ValueError("# of integration points for angle phi should be not less than 36")
         # Check provided kernel size and the estimated one
         if kernel_size % 2 == 0:
             kernel_size += 1; print("Note that kernel_size should be odd integer for centering PSF kernel")
@@ -307,11 +313,6 @@ class ZernPSF:
             self.__warn_message = "Please set the physical properties first for estimation of kernel size and after call this method"
             warnings.warn(self.__warn_message); self.__warn_message = ""
         self.kernel_size = kernel_size  # overwrite stored property, show before all warnings if kernel size is inconsistent
-        # Sanity checks for n_integration_points_r and n_integration_points_phi
-        if n_integration_points_r < 20:
-            raise ValueError("# of integration points for radius should be not less than 20")
-        if n_integration_points_phi < 36:
-            raise ValueError("# of integration points for angle phi should be not less than 36")
         self.n_int_r_points = n_integration_points_r; self.n_int_phi_points = n_integration_points_phi
         # Associated with slow calculations warnings
         if n_integration_points_r > 500 and n_integration_points_phi > 400:
-- 
2.43.0


From 6707b7ddcbaccacb87b9cc33dfe7e93e9b0687d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 14/58] fix: reset all polynomials attributes of ZernPSF on
 reading JSON with a single polynomial

---
 src/zernpy/zernpsf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index f47ea72..b2f6baa 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -636,9 +636,11 @@ class ZernPSF:
                 # Getting and reassigning used polynomial(-s)
                 elif key == "Polynomial":
                     osa_index = item; self.zernpol = ZernPol(osa=osa_index)
+                    self.polynomials = (); self.airy = (osa_index == 0)
                 elif key == "Polynomials":
                     osa_indices = item; pols = []; pols_len = len(osa_indices)
                     if pols_len == 1:
+                        self.polynomials = ()
                         self.zernpol = ZernPol(osa=osa_indices[0])
                         if osa_indices[0] == 0:
                             self.airy = True
-- 
2.43.0


From 99f2012506c07e875179c1a30ad6316b18422b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 15/58] fix: keep the kernel size read from JSON file

---
 src/zernpy/zernpsf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index b2f6baa..e2c49cd 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -652,7 +652,9 @@ class ZernPSF:
                         self.polynomials = pols; self.zernpol = None; self.airy = False
             # Assign read physical properties
             if read_props == 8:
+                kernel_size = self.kernel_size  # read from the file, it's re-estimated by the following call
                 self.set_physical_props(NA=na, wavelength=wavelen, expansion_coeff=a, pixel_physical_size=ps)
+                self.kernel_size = kernel_size
             else:
                 self.__warn_message = "Provided json file doesn't contain all necessary keys for physical / calculation properties"
                 warnings.warn(self.__warn_message); self.__warn_message = ""
-- 
2.43.0


From 29f0dcdf15ebeebaf89eb62f3ba447d24cfc827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 16/58] fix: accept string paths in save_json, as documented

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index e2c49cd..e47974c 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -571,7 +571,7 @@ class ZernPSF:
         """
         if abs_path is None:
             abs_path = Path(self.json_file_path).joinpath("saved_psfs")  # default folder for storing saved JSON files (root for the package)
-        if not Path.exists(abs_path):
+        if not Path(abs_path).exists():
             abs_path = ""  # the folder "saved_psfs" will be created in the root of the package
         if isinstance(abs_path, Path):
             abs_path = str(abs_path)  # convert to the expected string format
-- 
2.43.0


From ec8c03e8ab39ef6097e83c25c2efb643395657d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 17/58] fix: use the same default folder for each save_json
 call

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index e47974c..9918a8e 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -570,7 +570,7 @@ class ZernPSF:
 
         """
         if abs_path is None:
-            abs_path = Path(self.json_file_path).joinpath("saved_psfs")  # default folder for storing saved JSON files (root for the package)
+            abs_path = Path(__file__).parent.absolute().joinpath("saved_psfs")  # default folder for storing saved JSON files (root for the package)
         if not Path(abs_path).exists():
             abs_path = ""  # the folder "saved_psfs" will be created in the root of the package
         if isinstance(abs_path, Path):
-- 
2.43.0


From 20d7cecd02a3867d97ffd3bae65bd035bfe69985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 18/58] fix: do not damage the saved PSF file if serialization
 of attributes fails

---
 src/zernpy/calculations/calc_psfs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 247507a..7dfdd1c 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -814,8 +814,9 @@ def save_psf(psf_kernel: np.ndarray, NA: float, wavelength: float, pixel_size: f
     if json_file_path.exists() and not overwrite:
         _warn_message = "The file already exists, the content won't be overwritten."; warnings.warn(_warn_message)
     if not json_file_path.exists() or (json_file_path.exists() and overwrite):
+        serialized_data = json.dumps(data4serialization)  # before opening the file for not damaging it if serialization fails
         with open(json_file_path, 'w') as json_write_file:
-            json.dump(data4serialization, json_write_file)
+            json_write_file.write(serialized_data)
     return str(json_file_path.absolute())
 
 
-- 
2.43.0


From e5e62f028d661e89fdc9a5c130ed3efbb06c84d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 19/58] fix: provide NA for the kernel size estimation in
 get_kernel_parallel

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 9918a8e..ed47813 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -736,7 +736,7 @@ class ZernPSF:
         """
         if self.kernel_size < 3 and self.zernpol is not None:
             self.kernel_size = get_kernel_size(zernike_pol=self.zernpol, len2pixels=self.pixel_size, alpha=self.alpha,
-                                               wavelength=self.wavelength)
+                                               wavelength=self.wavelength, NA=self.NA)
         if self.zernpol is None:
             self.kernel_size = 3
         self.kernel = np.zeros(shape=(self.kernel_size, self.kernel_size)); i_center = self.kernel_size//2; j_center = self.kernel_size//2
-- 
2.43.0


From 51f3766d95f91f0b6c111b1e43a42ed1493a9d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 20/58] fix: calculate parallel PSF points sequentially if the
 workers are not initialized

---
 src/zernpy/zernpsf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index ed47813..3bbd2ba 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -711,6 +711,10 @@ class ZernPSF:
             self.__integration_params = [(i*h_phi, constants) for i in range(1, n_int_phi_points, 2)]
             self.__ParallelCalc.update_params(self.__integration_params)
             odd_sum = np.sum(np.asarray(self.__ParallelCalc.compute()))
+        else:  # workers haven't been initialized, sequential calculation
+            constants = (self.zernpol, r, theta, self.alpha, self.n_int_r_points)
+            even_sum = np.sum(np.asarray([radial_integral_s((i*h_phi, constants)) for i in range(2, n_int_phi_points-1, 2)]))
+            odd_sum = np.sum(np.asarray([radial_integral_s((i*h_phi, constants)) for i in range(1, n_int_phi_points, 2)]))
         # Simpson integration rule implementation
         yA = radial_integral(self.zernpol, r, theta, 0.0, self.alpha, self.n_int_r_points)
         yB = radial_integral(self.zernpol, r, theta, 2.0*pi, self.alpha, self.n_int_r_points)
-- 
2.43.0


From 0d1f118788d0d528863493bf67658c133214f1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 21/58] fix: let workers be initialized again after
 deinitialize_workers

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 3bbd2ba..217342a 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -771,7 +771,7 @@ class ZernPSF:
 
         """
         if self.__ParallelCalc is not None:
-            self.__ParallelCalc.close()
+            self.__ParallelCalc.close(); self.__ParallelCalc = None
 
 
 # %% Utility functions
-- 
2.43.0


From 7de6671f3735414ae570c1ea48ff52e7686feb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 22/58] fix: prevent division by zero for scaling of the
 convolved empty image

---
 src/zernpy/calculations/calc_psfs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 7dfdd1c..739703e 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -730,7 +730,8 @@ def convolute_img_psf(img: np.ndarray, psf_kernel: np.ndarray, scale2original: b
         convolved_img /= conv_coeff  # correct the convolution result by dividing to the kernel sum
     if scale2original:
         max_original_intensity = np.max(img); max_conv_pixel = np.max(convolved_img)
-        scaling_factor = max_original_intensity / max_conv_pixel; convolved_img *= scaling_factor
+        if max_conv_pixel != 0.0:  # prevents division by zero, e.g. for the image with all zero pixels
+            scaling_factor = max_original_intensity / max_conv_pixel; convolved_img *= scaling_factor
     convolved_img = convolved_img.astype(dtype=img_type)  # converting convolved image to the initial image
     return convolved_img
 
-- 
2.43.0


From 178f64a2c7eec84e9e2291d3e645c3616782e88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 23/58] fix: do not return the reference to the input array
 from radial (n = 1)

---
 src/zernpy/calculations/calc_zernike_pol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_zernike_pol.py b/src/zernpy/calculations/calc_zernike_pol.py
index e636aa3..b73b6a3 100644
--- a/src/zernpy/calculations/calc_zernike_pol.py
+++ b/src/zernpy/calculations/calc_zernike_pol.py
@@ -114,7 +114,7 @@ def radial_polynomial(zernike_pol, r):
             return np.ones(shape=r.shape)
     # 1st order
     elif ((m == -1) and (n == 1)) or ((m == 1) and (n == 1)):
-        return r
+        return 1.0*r  # new object, not the reference to the input
     # 2nd order
     elif ((m == -2) and (n == 2)) or ((m == 2) and (n == 2)):
         return np.power(r, 2)  # r^2
-- 
2.43.0


From 609237013c9c8dc3e86e34ebe26e89358512101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 24/58] fix: suppressing warnings shouldn't change the kernel
 size of not initialized PSF

---
 src/zernpy/zernpsf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 217342a..8e5b6d9 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -371,9 +371,12 @@ class ZernPSF:
         """
         if len(self.__warn_message) > 0 and not suppress_warnings:
             warnings.warn(self.__warn_message)
-        if not self.__physical_props_set and not suppress_warnings:
-            self.kernel_size = 19; self.__warn_message = "\nPhysical properties haven't been set before, the default ones will be used"
-            warnings.warn(self.__warn_message); self.__warn_message = ""
+        if not self.__physical_props_set:
+            if self.kernel_size < 3:  # keep the size specified by set_calculation_props()
+                self.kernel_size = 19
+            if not suppress_warnings:
+                self.__warn_message = "\nPhysical properties haven't been set before, the default ones will be used"
+                warnings.warn(self.__warn_message); self.__warn_message = ""
         global numba_installed  # access the flag
         # Check provided flag
         if numba_installed and accelerated is None:
-- 
2.43.0


From e928256dd7cde740b61d5aa23c427901fb28a2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 25/58] fix: raise RuntimeError in DispenserManager.compute if
 a worker failed, instead of endless waiting

---
 src/zernpy/utils/intmproc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 9c6c746..88c2db7 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -152,6 +152,8 @@ class DispenserManager():
                             # print(f"Set job for parameter {self.__parameters_vector[current_param_index]}, index {current_param_index}")
                             time.sleep(0.0001)
                     else:
+                        if task_assigned[proc_i] and not self.__workers_pool[proc_i].is_alive():  # e.g., compute_func raised an exception
+                            raise RuntimeError(f"Worker #{proc_i} stopped without result for the parameter #{processing_indices[proc_i]}")
                         time.sleep(0.0001)
                 # print(f"Remaining indices of parameters to compute: {indices2process}")
                 if self.verbose_info:
-- 
2.43.0


From 52298cff7d35796e0d1e7345b6863ba5108910e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:31 +0000
Subject: [PATCH 26/58] fix: store the own copy of provided PSF coefficients
 and only if they are accepted

---
 src/zernpy/zernpsf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 8e5b6d9..8a99d2e 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -215,13 +215,13 @@ class ZernPSF:
                     raise ValueError(f"Length of provided coefficients ({coeffs_len}) is not equal to stored number "
                                      + f"of polynomials ({len(self.polynomials)})")
             else:
-                self.coefficients = np.asarray(expansion_coeff)  # conversion to efficient array format
+                coefficients = np.array(expansion_coeff)  # conversion to efficient array format (as the copy)
                 # Sanity check for the maximum expansion coefficient of the polynomial
-                max_module_coeff = max(np.max(self.coefficients), abs(np.min(self.coefficients)))
+                max_module_coeff = max(np.max(coefficients), abs(np.min(coefficients)))
                 self.__warn_message = _sanity_check_expansion_coefficient(abs(max_module_coeff) / wavelength, max_coeff_check=True)
                 if len(self.__warn_message) > 0:
                     warnings.warn(self.__warn_message); self.__warn_message = ""
-                self.amplitudes = self.coefficients / wavelength
+                self.coefficients = coefficients; self.amplitudes = coefficients / wavelength
         else:
             # Check consistency of provided type of polynomials and coefficients
             if self.zernpol is None and len(self.polynomials) > 1:  # only if 2 and more polynomials provided
-- 
2.43.0


From d6f5f3f2a55d59fc68fe9f36f0c82fc72a449b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:31 +0000
Subject: [PATCH 27/58] fix: reject NaN wavelength and pixel size with the
 documented ValueError

---
 src/zernpy/zernpsf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 8a99d2e..91efe04 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -190,12 +190,12 @@ class ZernPSF:
         if not 0.0 < NA <= 1.7:
             raise ValueError("NA should lay in the range of (0.0, 1.7] at most - for common microscopic objectives")
         # Sanity check for wavelength
-        if wavelength <= 0.0:
+        if not wavelength > 0.0:
             raise ValueError("Wavelength should be positive real number")
         # Sanity check of provided wavelength, pixel physical size (Nyquist criteria)
         pixel_size_nyquist = 0.5*0.5*wavelength/NA  # based on half of the Abbe resolution limit, see references in the docstring
         pixel_size_nyquist_eStr = "{:.3e}".format(pixel_size_nyquist)  # formatting calculated pixel size in scientific notation
-        if pixel_physical_size <= 0.0:
+        if not pixel_physical_size > 0.0:
             raise ValueError("Pixel physical size should be positive real number")
         if pixel_physical_size > pixel_size_nyquist:
             raise ValueError(f"Pixel physical size should be less than Nyquist pixel size {pixel_size_nyquist_eStr}"
-- 
2.43.0


From 2df4c76b72f5320a267650ec4aaa9556011a2718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:31 +0000
Subject: [PATCH 28/58] fix: keep the own container with polynomials provided
 for PSF

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 91efe04..34779af 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -139,7 +139,7 @@ class ZernPSF:
                         if m == 0 and n == 0:
                             self.airy = True  # check if Airy pattern is among provided polynomials
                 if all_are_polls:
-                    self.polynomials = zernpol; self.zernpol = None
+                    self.polynomials = tuple(zernpol); self.zernpol = None  # tuple - own container, independent from the provided one
                     unique_osa_orders = set(osa_orders)  # check that all OSA orders are unique
                     if len(osa_orders) > len(unique_osa_orders):
                         raise ValueError("There might be some repeated polynomials provided, "
-- 
2.43.0


From 5b50a0ea0467dc32de02e3949c110e0f14344997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 29/58] fix: writing failure (e.g., full disk) shouldn't damage
 the already saved PSF file

---
 src/zernpy/calculations/calc_psfs.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 739703e..af4aede 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -16,6 +16,7 @@ from math import sqrt, pi, e
 import time
 from scipy.ndimage import convolve
 import json
+import os
 from matplotlib.patches import Circle
 from functools import partial
 from typing import Union
@@ -816,8 +817,13 @@ def save_psf(psf_kernel: np.ndarray, NA: float, wavelength: float, pixel_size: f
         _warn_message = "The file already exists, the content won't be overwritten."; warnings.warn(_warn_message)
     if not json_file_path.exists() or (json_file_path.exists() and overwrite):
         serialized_data = json.dumps(data4serialization)  # before opening the file for not damaging it if serialization fails
-        with open(json_file_path, 'w') as json_write_file:
-            json_write_file.write(serialized_data)
+        temporary_path = json_file_path.with_name(json_file_path.name + ".tmp")  # writing failure shouldn't damage the existing file
+        try:
+            with open(temporary_path, 'w') as json_write_file:
+                json_write_file.write(serialized_data)
+            os.replace(temporary_path, json_file_path)
+        finally:
+            temporary_path.unlink(missing_ok=True)
     return str(json_file_path.absolute())
 
 
-- 
2.43.0


From 5ddff7f2bdd2cab208dd5a23461de4c0994a6016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 30/58] fix: round convolved values of integer images instead
 of truncation (constant images should stay constant)

---
 src/zernpy/calculations/calc_psfs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index af4aede..6378d03 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -733,6 +733,8 @@ def convolute_img_psf(img: np.ndarray, psf_kernel: np.ndarray, scale2original: b
         max_original_intensity = np.max(img); max_conv_pixel = np.max(convolved_img)
         if max_conv_pixel != 0.0:  # prevents division by zero, e.g. for the image with all zero pixels
             scaling_factor = max_original_intensity / max_conv_pixel; convolved_img *= scaling_factor
+    if np.issubdtype(img_type, np.integer):
+        convolved_img = np.rint(convolved_img)  # prevents the truncation below, e.g. 99.999... -> 99
     convolved_img = convolved_img.astype(dtype=img_type)  # converting convolved image to the initial image
     return convolved_img
 
-- 
2.43.0


From 354e28ff04cb57139254ffa46b03f5c06d4eca14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 31/58] fix: close() of DispenserManager ends also the workers
 that cannot send their results

---
 src/zernpy/utils/intmproc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 88c2db7..bb8a861 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -188,6 +188,10 @@ class DispenserManager():
             for worker in self.__workers_pool:
                 if worker.is_alive():
                     worker.join(timeout=0.1)  # wait all Processes stopped
+                if worker.is_alive():  # e.g., the worker cannot send its result, because nobody reads it after a failed computation
+                    worker.terminate(); worker.join(timeout=1.0)
+            for queue in self.__queues:
+                queue.cancel_join_thread(); queue.close()  # don't wait for transferring of data to the stopped workers
         self.__initialized = False  # set the global flag to False for preventing calling the computation
         self.__workers_pool = []; self.__global_live_trigger = None  # replace all attributes with the default empty values
         self.__triggers = []; self.__results = []; self.__queues = []; self.__parameters_vector = []   # default empty values
-- 
2.43.0


From f25ae6c056889aa8838b8d90852f9d6ddb58b0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:24 +0000
Subject: [PATCH 32/58] fix: killed workers shouldn't block compute() and
 close() of DispenserManager

---
 src/zernpy/utils/intmproc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index bb8a861..cd8a77f 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -131,6 +131,8 @@ class DispenserManager():
                 if init_step:
                     current_param_index = 0
                     for proc_i in range(len(self.__workers_pool)):
+                        if not self.__workers_pool[proc_i].is_alive():
+                            raise RuntimeError(f"Worker #{proc_i} has been stopped before the computation")
                         self.__queues[proc_i].put(self.__parameters_vector[current_param_index])
                         task_assigned[proc_i] = True; processing_indices[proc_i] = current_param_index
                         self.__triggers[proc_i].set(); time.sleep(0.0001)
@@ -183,8 +185,9 @@ class DispenserManager():
         """
         if self.__initialized:
             self.__global_live_trigger.clear(); time.sleep(0.005)  # set global trigger for all Processes as False
-            for trigger in self.__triggers:
-                trigger.set(); time.sleep(0.005)  # set all triggers for releasing wait() methods for letting all Process run() to stop
+            for worker, trigger in zip(self.__workers_pool, self.__triggers):
+                if worker.is_alive():  # setting of the trigger, on which the stopped Process waited, never returns
+                    trigger.set(); time.sleep(0.005)  # set all triggers for releasing wait() methods for letting all Process run() to stop
             for worker in self.__workers_pool:
                 if worker.is_alive():
                     worker.join(timeout=0.1)  # wait all Processes stopped
-- 
2.43.0


From cb9c450a9eeba6640d857e118951f0fd33040146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:24 +0000
Subject: [PATCH 33/58] fix: not closed workers shouldn't prevent exit from the
 interpreter

---
 src/zernpy/utils/intmproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index cd8a77f..f752274 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -269,7 +269,7 @@ class IndiWorker(Process):
 
         """
         self.__trigger = trigger; self.__data_queue = data_queue; self.computation = compute_func; self.__keep_event = keep_run_trigger
-        Process.__init__(self)
+        Process.__init__(self, daemon=True)  # not closed workers should not prevent exit from the interpreter
 
     def run(self):
         """
-- 
2.43.0


From c629bc1d3e903d4676291825a1d7a16a144014e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 34/58] fix: exit from the interpreter shouldn't wait for
 transferring of data to the stopped workers

---
 src/zernpy/utils/intmproc.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index f752274..ee50ace 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -83,7 +83,7 @@ class DispenserManager():
         self.__global_live_trigger = Event(); self.__global_live_trigger.set(); time.sleep(0.01)
         # print(f"Initializing {self.workers_number} Processes")
         for i in range(self.workers_number):
-            trigger_event = Event(); queue = Queue(); self.__triggers.append(trigger_event)
+            trigger_event = Event(); queue = Queue(); queue.cancel_join_thread(); self.__triggers.append(trigger_event)
             worker = IndiWorker(keep_run_trigger=self.__global_live_trigger, trigger=trigger_event, data_queue=queue, compute_func=compute_func)
             worker.start(); received_confirmation = False  # for waiting of initializaton of the Process
             while not received_confirmation:
@@ -193,8 +193,6 @@ class DispenserManager():
                     worker.join(timeout=0.1)  # wait all Processes stopped
                 if worker.is_alive():  # e.g., the worker cannot send its result, because nobody reads it after a failed computation
                     worker.terminate(); worker.join(timeout=1.0)
-            for queue in self.__queues:
-                queue.cancel_join_thread(); queue.close()  # don't wait for transferring of data to the stopped workers
         self.__initialized = False  # set the global flag to False for preventing calling the computation
         self.__workers_pool = []; self.__global_live_trigger = None  # replace all attributes with the default empty values
         self.__triggers = []; self.__results = []; self.__queues = []; self.__parameters_vector = []   # default empty values
-- 
2.43.0


From f26ee22752ab0936106e32a74c40dbe28f4a316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 35/58] fix: string form of polynomials without name should
 contain the orders and indices as documented

---
 src/zernpy/zernikepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 087eb4c..5bf8e92 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -295,7 +295,7 @@ class ZernPol:
         if len(name) > 0:
             return name + pol_signature
         else:
-            return "Zernike polynomial"
+            return "Zernike polynomial" + pol_signature
 
     def __gt__(self, other) -> bool:
         """
-- 
2.43.0


From 721738924a48b31b9b294ef72c225ed72d6331ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:18 +0000
Subject: [PATCH 36/58] fix: default PSF kernel shouldn't be shared by all
 instances

---
 src/zernpy/zernpsf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 34779af..d2fdc2e 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -107,6 +107,7 @@ class ZernPSF:
 
         """
         self.json_file_path = str(Path(__file__).parent.absolute())  # initialize default path as the root folder containing the script
+        self.kernel = np.ones(shape=(1, 1))  # individual for each instance, preventing changes of the default one shared by all instances
         if not hasattr(zernpol, '__len__') and isinstance(zernpol, ZernPol):
             self.zernpol = zernpol; m, n = self.zernpol.get_mn_orders()
             if m == 0 and n == 0:
-- 
2.43.0


From 0d117b22dd178453d0f88fe3316059b91038500a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:16 +0000
Subject: [PATCH 37/58] fix: save_json failed for many polynomials because of
 the too long composed file name

---
 src/zernpy/calculations/calc_psfs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index 6378d03..d986932 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -16,6 +16,7 @@ from math import sqrt, pi, e
 import time
 from scipy.ndimage import convolve
 import json
+import hashlib
 import os
 from matplotlib.patches import Circle
 from functools import partial
@@ -805,6 +806,10 @@ def save_psf(psf_kernel: np.ndarray, NA: float, wavelength: float, pixel_size: f
             json_file_path = saved_psfs_folder.joinpath(f"psf_{(m, n)}_{expansion_coefficient}.json")
         else:
             json_file_path = saved_psfs_folder.joinpath(f"psf_{osa_indices}_{expansion_coefficient}.json")
+    # File systems restrict the length of a file name (commonly, to 255 bytes), the composed one may be too long for many polynomials
+    if not single_pol_used and len(json_file_path.name.encode()) > 250:
+        digest = hashlib.sha256(f"{osa_indices}_{expansion_coefficient.tolist()}_{additional_file_name}".encode()).hexdigest()[:16]
+        json_file_path = saved_psfs_folder.joinpath(f"psf_{len(osa_indices)}_polynomials_{digest}.json")
     # Data composing for recording
     data4serialization = {}   # python dictionary is similar to the JSON file structure and can be dumped directly there
     data4serialization['PSF Kernel'] = psf_kernel.tolist(); data4serialization['NA'] = NA; data4serialization['Wavelength'] = wavelength
-- 
2.43.0


From 45449cc521cfff185d00f8ab3d79201eb0fcab67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:43 +0000
Subject: [PATCH 38/58] fix: DispenserManager waited forever for a worker which
 cannot start (e.g. function not importable with spawn)

---
 src/zernpy/utils/intmproc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index ee50ace..64c142c 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -94,6 +94,9 @@ class DispenserManager():
                     else:
                         self.__warn_message = f"Not recognized confirmation message '{confirmation}', contact the developer"
                         warnings.warn(self.__warn_message); break
+                elif not worker.is_alive():  # e.g., compute_func cannot be imported in the started Process
+                    self.__initialized = True; self.close()  # release already started workers
+                    raise RuntimeError(f"Worker #{i} has been stopped before the start of computations")
                 else:
                     time.sleep(0.005)
             self.__workers_pool.append(worker); self.__queues.append(queue)
-- 
2.43.0


From 8aece71256c0b52b887c39f651dd6317e629156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:14 +0000
Subject: [PATCH 39/58] fix: reading of an incomplete or invalid JSON file left
 a mixture of two states in the PSF

---
 src/zernpy/zernpsf.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index d2fdc2e..dfbb085 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -609,6 +609,24 @@ class ZernPSF:
         None.
 
         """
+        previous_state = dict(self.__dict__); completely_read = False
+        try:
+            completely_read = self.__read_json(abs_path)
+        finally:
+            if not completely_read:  # incomplete file or invalid values in it: prevents a mixture of the previous and read states
+                self.__dict__.clear(); self.__dict__.update(previous_state)
+
+    def __read_json(self, abs_path: Union[str, Path, None]) -> bool:
+        """
+        Read the JSON file and assign the saved attributes, see 'read_json()' method.
+
+        Returns
+        -------
+        bool
+            True if all necessary attributes have been read and assigned.
+
+        """
+        completely_read = False
         if abs_path is None:
             abs_path = self.json_file_path
         elif isinstance(abs_path, Path):
@@ -658,13 +676,14 @@ class ZernPSF:
             if read_props == 8:
                 kernel_size = self.kernel_size  # read from the file, it's re-estimated by the following call
                 self.set_physical_props(NA=na, wavelength=wavelen, expansion_coeff=a, pixel_physical_size=ps)
-                self.kernel_size = kernel_size
+                self.kernel_size = kernel_size; completely_read = True
             else:
                 self.__warn_message = "Provided json file doesn't contain all necessary keys for physical / calculation properties"
                 warnings.warn(self.__warn_message); self.__warn_message = ""
         else:
             self.__warn_message = "Provided path doesn't contain valid JSON data"
             warnings.warn(self.__warn_message); self.__warn_message = ""
+        return completely_read
 
     # %% Parallelized computing methods
     def initialize_parallel_workers(self):
-- 
2.43.0


From d155f9a112efe130f3df4977ee90356a513b62b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:14 +0000
Subject: [PATCH 40/58] fix: changes of the lists with parameters or results by
 a caller stopped or spoiled DispenserManager computations

---
 src/zernpy/utils/intmproc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index 64c142c..a750280 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -78,7 +78,7 @@ class DispenserManager():
         elif len(params_list) < self.workers_number:
             raise ValueError("There is no sence for trying to split number of jobs less than initialized workers")
         else:
-            self.__results = [None]*len(params_list); self.__parameters_vector = params_list
+            self.__results = [None]*len(params_list); self.__parameters_vector = list(params_list)  # own list, independent from the provided one
         # Initializing the pool with Processes
         self.__global_live_trigger = Event(); self.__global_live_trigger.set(); time.sleep(0.01)
         # print(f"Initializing {self.workers_number} Processes")
@@ -128,6 +128,7 @@ class DispenserManager():
 
         """
         if self.__initialized:
+            self.__results = [None]*len(self.__parameters_vector)  # own list for each computation, the previous one has been returned
             computed_tasks = 0; init_step = True; indices2process = [i for i in range(len(self.__parameters_vector))]
             processing_indices = [None]*len(self.__workers_pool); task_assigned = [False]*len(self.__workers_pool); self.done_jobs_percentage = 0
             while computed_tasks < len(self.__results):
@@ -240,7 +241,7 @@ class DispenserManager():
             elif len(params_list) < self.workers_number:
                 raise ValueError("There is no sence for trying to split number of jobs less than initialized workers")
             else:
-                self.__results = [None]*len(params_list); self.__parameters_vector = params_list
+                self.__results = [None]*len(params_list); self.__parameters_vector = list(params_list)  # own list, independent from the provided one
 
 
 # %% Individual worker special class
-- 
2.43.0


From 3bc96257c04a3116b3a735253b38f888f0b4eec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:14 +0000
Subject: [PATCH 41/58] fix: DispenserManager returned results of an
 interrupted computation in the next one

---
 src/zernpy/utils/intmproc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index a750280..d6654fd 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -21,6 +21,7 @@ class DispenserManager():
 
     __MAX_WORKERS: int = os.cpu_count(); workers_number: int = __MAX_WORKERS // 2; __warn_message: str = ""
     __workers_pool: list = []; __results: list = []; __triggers: list = []; __initialized: bool = False
+    __computing: bool = False  # flag for the computation started, but not completed
     __global_live_trigger: Event = None; __queues: list = []; __parameters_vector: list = []
 
     def __init__(self, compute_func: Callable[..., Any], params_list: list, n_workers: int = None, verbose_info: bool = False):
@@ -128,6 +129,9 @@ class DispenserManager():
 
         """
         if self.__initialized:
+            if self.__computing:  # the workers still have tasks and results of that computation in their queues
+                raise RuntimeError("The previous computation hasn't been completed, please close this manager and initialize a new one")
+            self.__computing = True
             self.__results = [None]*len(self.__parameters_vector)  # own list for each computation, the previous one has been returned
             computed_tasks = 0; init_step = True; indices2process = [i for i in range(len(self.__parameters_vector))]
             processing_indices = [None]*len(self.__workers_pool); task_assigned = [False]*len(self.__workers_pool); self.done_jobs_percentage = 0
@@ -173,6 +177,7 @@ class DispenserManager():
                     if done_jobs_percent - self.done_jobs_percentage >= 10:
                         print(f"Done {done_jobs_percent}% of calculations")
                         self.done_jobs_percentage = done_jobs_percent
+            self.__computing = False
             return self.__results
         else:
             self.__warn_message = ("All workers have been released, no computation has been performed")
-- 
2.43.0


From d1c80490407de54aaf96b691483405e7965d7900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:24 +0000
Subject: [PATCH 42/58] fix: DispenserManager waited forever for parameters and
 results which cannot be sent between processes

---
 src/zernpy/utils/intmproc.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/zernpy/utils/intmproc.py b/src/zernpy/utils/intmproc.py
index d6654fd..2ff34a3 100644
--- a/src/zernpy/utils/intmproc.py
+++ b/src/zernpy/utils/intmproc.py
@@ -8,6 +8,7 @@ Experiment with the multiprocessing speeding up of calculations.
 """
 # %% Global imports
 from multiprocessing import Process, Event, Queue
+from multiprocessing.reduction import ForkingPickler
 import os
 import warnings
 import time
@@ -141,7 +142,7 @@ class DispenserManager():
                     for proc_i in range(len(self.__workers_pool)):
                         if not self.__workers_pool[proc_i].is_alive():
                             raise RuntimeError(f"Worker #{proc_i} has been stopped before the computation")
-                        self.__queues[proc_i].put(self.__parameters_vector[current_param_index])
+                        self.__queues[proc_i].put(_serialize(self.__parameters_vector[current_param_index]))
                         task_assigned[proc_i] = True; processing_indices[proc_i] = current_param_index
                         self.__triggers[proc_i].set(); time.sleep(0.0001)
                         # print(f"Set job for parameter {self.__parameters_vector[current_param_index]}, index {current_param_index}")
@@ -152,12 +153,12 @@ class DispenserManager():
                 for proc_i in range(len(self.__workers_pool)):
                     if task_assigned[proc_i] and not self.__triggers[proc_i].is_set():
                         current_param_index = processing_indices[proc_i]
-                        self.__results[current_param_index] = self.__queues[proc_i].get()
+                        self.__results[current_param_index] = ForkingPickler.loads(self.__queues[proc_i].get())
                         computed_tasks += 1  # computation has been done
                         task_assigned[proc_i] = False  # next comptutation hasn't been yet assigned, check if still jobs are available
                         if len(indices2process) > 0:
                             current_param_index = indices2process.pop(0); task_assigned[proc_i] = True
-                            self.__queues[proc_i].put(self.__parameters_vector[current_param_index])
+                            self.__queues[proc_i].put(_serialize(self.__parameters_vector[current_param_index]))
                             self.__triggers[proc_i].set(); processing_indices[proc_i] = current_param_index
                             # print(f"Set job for parameter {self.__parameters_vector[current_param_index]}, index {current_param_index}")
                             time.sleep(0.0001)
@@ -297,16 +298,37 @@ class IndiWorker(Process):
                     #     parameter = self.__data_queue.get_nowait()
                     # else:
                     #     time.sleep(0.001); attempts += 1
-                    parameter = self.__data_queue.get()
+                    parameter = ForkingPickler.loads(self.__data_queue.get())
                     # print(f"Start computing for parameter {parameter}", flush=True)
                     result = self.computation(parameter)  # computation work
-                    self.__data_queue.put_nowait(result)  # returning the result
+                    self.__data_queue.put_nowait(_serialize(result))  # returning the result
                     self.__trigger.clear()
                     # print(f"Finished computing for parameter {parameter} and report result {result}", flush=True)
                 elif not self.__keep_event.is_set():
                     self.__trigger.clear(); break
 
 
+# %% Serialization of parameters and results
+def _serialize(data: Any) -> bytes:
+    """
+    Serialize data for sending between Processes.
+
+    Queue serializes data in its own thread, not reporting a failure there to the sender, so the receiver would wait the data forever.
+
+    Parameters
+    ----------
+    data : Any
+        Parameter or result of the computation.
+
+    Returns
+    -------
+    bytes
+        Serialized data.
+
+    """
+    return bytes(ForkingPickler.dumps(data))
+
+
 # %% Pickleable functions for tests as the main script (latest section)
 def test_plus(x: Union[float, int]) -> Union[float, int]:
     """
-- 
2.43.0


From 7c0c2a602c6db47b54a4c671d3fecd74d8b4e0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:17 +0000
Subject: [PATCH 43/58] fix: fit of vectors with more phases than points
 returned wrong coefficients instead of rejecting them

---
 src/zernpy/calculations/fit_zernike_pols.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/zernpy/calculations/fit_zernike_pols.py b/src/zernpy/calculations/fit_zernike_pols.py
index 77144a7..bfea916 100644
--- a/src/zernpy/calculations/fit_zernike_pols.py
+++ b/src/zernpy/calculations/fit_zernike_pols.py
@@ -182,6 +182,13 @@ def fit_zernikes(phases_coordinates_vectors: tuple, polynomials: tuple) -> np.nd
     cropped_phases_vector = phases_coordinates_vectors[0]; cropped_radii_vector = phases_coordinates_vectors[1]
     cropped_thetas_vector = phases_coordinates_vectors[2]
     vector_length, = cropped_phases_vector.shape; zernike_coefficients = None
+    radii_length, = cropped_radii_vector.shape; angles_length, = cropped_thetas_vector.shape
+    if radii_length == angles_length:
+        expected_length = radii_length  # coordinates of each point provided
+    else:
+        expected_length = radii_length*angles_length  # mesh of coordinates
+    if vector_length != expected_length:
+        raise ValueError(f"Number of phases ({vector_length}) doesn't correspond to the number of points ({expected_length})")
     # Calculate polynomials values in the unit circle defined by polar coordinates
     zernike_values = np.zeros(shape=(vector_length, len(polynomials)))
     # Checking that all polynomials are unique
-- 
2.43.0


From 49727ca85a82e3aa57ef1ea1ceccb11712a027ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:52 +0000
Subject: [PATCH 44/58] fix: arrays of narrow integers or single precision gave
 wrong polynomial values or raised OverflowError

---
 src/zernpy/zernikepol.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 5bf8e92..d93e52b 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -1284,6 +1284,8 @@ class ZernPol:
         if isinstance(radii, np.ndarray):
             if np.min(radii) < 0.0 or np.max(radii) > 1.0:
                 raise ValueError("Minimal or maximal value of radii laying outside unit circle [0.0, 1.0]")
+            if radii.dtype.kind in "iu" or (radii.dtype.kind == "f" and radii.itemsize < 8):
+                radii = radii.astype(np.float64)  # narrow integers overflow, lower precision isn't enough for the equations of high orders
         elif isinstance(radii, float):
             if radii > 1.0 or radii < 0.0:
                 raise ValueError("Radius laying outside unit circle [0.0, 1.0]")
@@ -1319,6 +1321,8 @@ class ZernPol:
                 angles = np.asarray(angles)  # convert list or tuple to np.array
             else:
                 angles = float(angles)  # attempt to convert to float number, will raise ValueError if it's impossible
+        if isinstance(angles, np.ndarray) and angles.dtype.kind in "iu":
+            angles = angles.astype(np.float64)  # narrow or unsigned integers overflow, if multiplied with the azimuthal order
         # Checking that angles lie in the range [0, 2*pi]
         if isinstance(angles, np.ndarray):
             if np.max(angles) - np.min(angles) > 2.0*np.pi:
@@ -1327,6 +1331,8 @@ class ZernPol:
             elif np.max(angles) > 2.0*np.pi or np.min(angles) < 0.0:
                 _warn_message_ = "Max or min of theta angles lies outside of interval [0.0, 2.0*pi]"
                 warnings.warn(_warn_message_)
+            if angles.dtype.kind == "f" and angles.itemsize < 8:
+                angles = angles.astype(np.float64)  # after checking: 2*pi rounded to lower precision may exceed 2*pi
         elif isinstance(angles, float):
             if angles < 0.0 or angles > 2.0*np.pi:
                 _warn_message_ = "Max or min of theta angles lies outside of interval [0.0, 2.0*pi]"
-- 
2.43.0


From 319eb9909364424944cfc889510e9fd415d63e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:24 +0000
Subject: [PATCH 45/58] fix: save_json raised TypeError for the properties
 accepted as numpy numbers (np.int64, np.float32)

---
 src/zernpy/calculations/calc_psfs.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/calculations/calc_psfs.py b/src/zernpy/calculations/calc_psfs.py
index d986932..8cd6dee 100644
--- a/src/zernpy/calculations/calc_psfs.py
+++ b/src/zernpy/calculations/calc_psfs.py
@@ -741,6 +741,32 @@ def convolute_img_psf(img: np.ndarray, psf_kernel: np.ndarray, scale2original: b
 
 
 # %% Save and read the calculated PSF matrices
+def _convert_numpy_number(value):
+    """
+    Convert numpy number (e.g., np.int64 or np.float32 accepted as the PSF property) to the Python one for its serialization.
+
+    Parameters
+    ----------
+    value : object
+        Value which cannot be serialized by the json library.
+
+    Raises
+    ------
+    TypeError
+        If the provided value isn't a numpy number.
+
+    Returns
+    -------
+    int or float
+
+    """
+    if isinstance(value, np.integer):
+        return int(value)
+    if isinstance(value, np.floating):
+        return float(value)
+    raise TypeError(f"Object of type {type(value).__name__} is not JSON serializable")
+
+
 def save_psf(psf_kernel: np.ndarray, NA: float, wavelength: float, pixel_size: float, expansion_coefficient: Union[float, np.ndarray],
              kernel_size: int, n_int_points_r: int, n_int_points_phi: int, zernike_pol, folder_path: str = None,
              overwrite: bool = True, additional_file_name: str = None) -> str:
@@ -823,7 +849,7 @@ def save_psf(psf_kernel: np.ndarray, NA: float, wavelength: float, pixel_size: f
     if json_file_path.exists() and not overwrite:
         _warn_message = "The file already exists, the content won't be overwritten."; warnings.warn(_warn_message)
     if not json_file_path.exists() or (json_file_path.exists() and overwrite):
-        serialized_data = json.dumps(data4serialization)  # before opening the file for not damaging it if serialization fails
+        serialized_data = json.dumps(data4serialization, default=_convert_numpy_number)  # before opening the file for not damaging it if serialization fails
         temporary_path = json_file_path.with_name(json_file_path.name + ".tmp")  # writing failure shouldn't damage the existing file
         try:
             with open(temporary_path, 'w') as json_write_file:
-- 
2.43.0


From 1206cc0b9751e6d7fb1953097da82e3a8922ac1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:24 +0000
Subject: [PATCH 46/58] fix: not finite or complex coefficients and infinite
 wavelength were accepted or stored along with the raised error

---
 src/zernpy/zernpsf.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index dfbb085..60ae4e7 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -191,7 +191,7 @@ class ZernPSF:
         if not 0.0 < NA <= 1.7:
             raise ValueError("NA should lay in the range of (0.0, 1.7] at most - for common microscopic objectives")
         # Sanity check for wavelength
-        if not wavelength > 0.0:
+        if not 0.0 < wavelength < float("inf"):
             raise ValueError("Wavelength should be positive real number")
         # Sanity check of provided wavelength, pixel physical size (Nyquist criteria)
         pixel_size_nyquist = 0.5*0.5*wavelength/NA  # based on half of the Abbe resolution limit, see references in the docstring
@@ -207,6 +207,8 @@ class ZernPSF:
             if coeffs_len != len(self.polynomials):
                 if coeffs_len == 1 and len(self.polynomials) == 0:  # polynomials maybe provided also as a sequence with 1 element
                     expansion_coeff = float(expansion_coeff[0])
+                    if not np.isfinite(expansion_coeff):
+                        raise ValueError("Expansion coefficient should be finite number")
                     # Sanity check for the expansion coefficient of the polynomial
                     self.__warn_message = _sanity_check_expansion_coefficient(abs(expansion_coeff) / wavelength)
                     if len(self.__warn_message) > 0:
@@ -217,6 +219,10 @@ class ZernPSF:
                                      + f"of polynomials ({len(self.polynomials)})")
             else:
                 coefficients = np.array(expansion_coeff)  # conversion to efficient array format (as the copy)
+                if coefficients.dtype.kind == "O":
+                    coefficients = coefficients.astype(np.float64)  # e.g., fractions
+                if np.iscomplexobj(coefficients) or not np.all(np.isfinite(coefficients)):
+                    raise ValueError("Expansion coefficients should be finite real numbers")
                 # Sanity check for the maximum expansion coefficient of the polynomial
                 max_module_coeff = max(np.max(coefficients), abs(np.min(coefficients)))
                 self.__warn_message = _sanity_check_expansion_coefficient(abs(max_module_coeff) / wavelength, max_coeff_check=True)
@@ -231,6 +237,8 @@ class ZernPSF:
             # explicitly conversion to float for raising implicit conversion errors if not valid type provided
             if not isinstance(expansion_coeff, float):
                 expansion_coeff = float(expansion_coeff)
+            if not np.isfinite(expansion_coeff):
+                raise ValueError("Expansion coefficient should be finite number")
             # Sanity check for the expansion coefficient of the polynomial
             self.__warn_message = _sanity_check_expansion_coefficient(abs(expansion_coeff) / wavelength)
             if len(self.__warn_message) > 0:
-- 
2.43.0


From 0d5f6f0bf829d2917ba234568afc993282fa45c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:24 +0000
Subject: [PATCH 47/58] fix: half precision coefficients stopped the
 accelerated calculation, low precision properties gave less precise kernels

---
 src/zernpy/zernpsf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 60ae4e7..9ab657a 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -201,6 +201,7 @@ class ZernPSF:
         if pixel_physical_size > pixel_size_nyquist:
             raise ValueError(f"Pixel physical size should be less than Nyquist pixel size {pixel_size_nyquist_eStr}"
                              + f" computed from the Abbe's resolution limit (0.5*{lambda_char}/NA)")
+        NA = float(NA); wavelength = float(wavelength); pixel_physical_size = float(pixel_physical_size)  # e.g., np.float32 -> double precision
         # Check which type is provided as the expansion_coeff parameter
         if hasattr(expansion_coeff, '__len__'):
             coeffs_len = len(expansion_coeff)  # for checking how many amplitudes provided
@@ -219,8 +220,8 @@ class ZernPSF:
                                      + f"of polynomials ({len(self.polynomials)})")
             else:
                 coefficients = np.array(expansion_coeff)  # conversion to efficient array format (as the copy)
-                if coefficients.dtype.kind == "O":
-                    coefficients = coefficients.astype(np.float64)  # e.g., fractions
+                if coefficients.dtype.kind == "O" or (coefficients.dtype.kind == "f" and coefficients.itemsize < 8):
+                    coefficients = coefficients.astype(np.float64)  # amplitudes should be calculated with double precision
                 if np.iscomplexobj(coefficients) or not np.all(np.isfinite(coefficients)):
                     raise ValueError("Expansion coefficients should be finite real numbers")
                 # Sanity check for the maximum expansion coefficient of the polynomial
-- 
2.43.0


From 9b5181c1af90aa618bcc8c89f24810f9d66490e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:35 +0000
Subject: [PATCH 48/58] fix: numbers of integration points and kernel size as
 narrow numpy integers gave wrong kernels or OverflowError

---
 src/zernpy/zernpsf.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 9ab657a..92f83af 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -311,6 +311,13 @@ class ZernPSF:
             raise ValueError("# of integration points for radius should be not less than 20")
         if n_integration_points_phi < 36:
             raise ValueError("# of integration points for angle phi should be not less than 36")
+        # Conversion of numpy integers (narrow or unsigned ones overflow in the calculations)
+        if isinstance(kernel_size, np.integer):
+            kernel_size = int(kernel_size)
+        if isinstance(n_integration_points_r, np.integer):
+            n_integration_points_r = int(n_integration_points_r)
+        if isinstance(n_integration_points_phi, np.integer):
+            n_integration_points_phi = int(n_integration_points_phi)
         # Check provided kernel size and the estimated one
         if kernel_size % 2 == 0:
             kernel_size += 1; print("Note that kernel_size should be odd integer for centering PSF kernel")
-- 
2.43.0


From c2a190ea850a880a615aeb288450aeeef228cd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:09 +0000
Subject: [PATCH 49/58] fix: images generated for sizes given as unsigned or
 narrow numpy integers were wrong

---
 src/zernpy/zernikepol.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index d93e52b..f780d2d 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -1432,6 +1432,8 @@ def generate_random_phases(max_order: int = 4, img_width: int = 513, img_height:
         else:
             polynomials_amplitudes[index] = rand_ampl
     # Generate random phases image - sum of polynomials on the 2D array of pixels converted to polar coordinates
+    if isinstance(img_width, np.integer) or isinstance(img_height, np.integer):
+        img_width = int(img_width); img_height = int(img_height)  # unsigned or narrow integers overflow below
     phases_image = np.zeros(shape=(img_height, img_width))  # blank image
     row_center = img_height // 2; cols_center = img_width // 2
     # Below - define radius of the Zernike circular profile, it is +1 for including more pixels in profile
@@ -1483,6 +1485,8 @@ def generate_phases_image(polynomials: tuple = (), polynomials_amplitudes: tuple
 
     """
     # Generate random phases image - sum of polynomials on the 2D array of pixels converted to polar coordinates
+    if isinstance(img_width, np.integer) or isinstance(img_height, np.integer):
+        img_width = int(img_width); img_height = int(img_height)  # unsigned or narrow integers overflow below
     phases_image = np.zeros(shape=(img_height, img_width))  # blank image
     row_center = img_height // 2; cols_center = img_width // 2
     # Below - define radius of the Zernike circular profile, it is +1 for including more pixels in profile
-- 
2.43.0


From b2c7ebd83d0ced74576043e44e81a97d18a70900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:09 +0000
Subject: [PATCH 50/58] fix: polar coordinates generated with a single
 precision step didn't reach the border of the unit circle

---
 src/zernpy/zernikepol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index f780d2d..5e63c28 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -1020,6 +1020,7 @@ class ZernPol:
             raise ValueError("Provided step on radiuses less than 0.0 or more than 0.5")
         if not 0.0 < theta_rad_step <= np.pi:
             raise ValueError("Provided step on theta angles less than 0.0 or more than pi")
+        r_step = float(r_step); theta_rad_step = float(theta_rad_step)  # lower precision of steps excludes the border of the unit circle
         Rs = np.arange(0.0, 1.0+r_step, r_step); Thetas = np.arange(0.0, 2.0*np.pi+theta_rad_step, theta_rad_step)
         # Check that the last values on the generated ranges appeared not outside of ranges
         if Rs[Rs.shape[0]-1] > 1.0:
-- 
2.43.0


From 5b19723dca91ec4f87fb1c30d11c8656ce707434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:02 +0000
Subject: [PATCH 51/58] fix: repeated plotting of kernels under the same name
 piled up images and colorbars of the previous kernels

---
 src/zernpy/zernpsf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 92f83af..8f165c5 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -479,7 +479,7 @@ class ZernPSF:
             fig_title = f"Composed kernel for #{len(self.polynomials)} polynomials: {orders} {id_str}"
         if not plt.isinteractive():
             plt.ion()
-        plt.figure(fig_title, figsize=(6, 6)); plt.imshow(self.kernel, cmap=plt.cm.viridis, origin='upper'); plt.colorbar(); plt.tight_layout()
+        plt.figure(fig_title, figsize=(6, 6), clear=True); plt.imshow(self.kernel, cmap=plt.cm.viridis, origin='upper'); plt.colorbar(); plt.tight_layout()
 
     # %% Utilities
     def convolute_img(self, image: np.ndarray, scale2original: bool = True) -> np.ndarray:
@@ -520,9 +520,9 @@ class ZernPSF:
         target_disk = get_bumped_circle(radius, max_intensity)  # get the sample image of the even centered circle with blurred edges
         if not plt.isinteractive():
             plt.ion()
-        plt.figure("Sample Image: Disk", figsize=(6, 6)); plt.imshow(target_disk, cmap=plt.cm.viridis, origin='upper')
+        plt.figure("Sample Image: Disk", figsize=(6, 6), clear=True); plt.imshow(target_disk, cmap=plt.cm.viridis, origin='upper')
         plt.axis('off'); plt.tight_layout()
-        convolved_img = self.convolute_img(image=target_disk); plt.figure("Convolved PSF and Disk", figsize=(6, 6))
+        convolved_img = self.convolute_img(image=target_disk); plt.figure("Convolved PSF and Disk", figsize=(6, 6), clear=True)
         plt.imshow(convolved_img, cmap=plt.cm.viridis, origin='upper'); plt.axis('off'); plt.tight_layout()
 
     def crop_kernel(self, min_part_of_max: float = 0.01):
-- 
2.43.0


From 279542b79b9b66d48f777cfa9474a540330b39db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:53 +0000
Subject: [PATCH 52/58] fix: a message of a warning turned into an error was
 emitted again by all further calculations of kernels

---
 src/zernpy/zernpsf.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 8f165c5..1695670 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -386,8 +386,6 @@ class ZernPSF:
             2D PSF kernel.
 
         """
-        if len(self.__warn_message) > 0 and not suppress_warnings:
-            warnings.warn(self.__warn_message)
         if not self.__physical_props_set:
             if self.kernel_size < 3:  # keep the size specified by set_calculation_props()
                 self.kernel_size = 19
-- 
2.43.0


From 6c3fa0d18b4963027f336e451c3e023696f75646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:53 +0000
Subject: [PATCH 53/58] fix: kernel for several polynomials couldn't be
 calculated and saved with the default physical properties

---
 src/zernpy/zernpsf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 1695670..f86bfad 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -145,6 +145,8 @@ class ZernPSF:
                     if len(osa_orders) > len(unique_osa_orders):
                         raise ValueError("There might be some repeated polynomials provided, "
                                          + f"# of provided: {len(osa_orders)} and # of unique: {len(unique_osa_orders)}")
+                    # Default coefficients, used if the physical properties aren't set before calculations - the same one for each polynomial
+                    self.coefficients = np.full(seq_length, self.expansion_coeff); self.amplitudes = self.coefficients / self.wavelength
                 else:
                     raise ValueError("Not all objects in Sequence are instances of the 'ZernPol' class")
         else:
-- 
2.43.0


From 7a5e60ba9be34064559bd468f215a4f4dd13ed46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:46 +0000
Subject: [PATCH 54/58] fix: kernel wasn't cropped if a small size had been
 specified for the next calculation

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index f86bfad..6d0f9c0 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -547,7 +547,7 @@ class ZernPSF:
         None.
 
         """
-        if self.kernel_size > 3:  # crop redundant points in kernel
+        if self.kernel.shape[0] > 3:  # crop redundant points in kernel, 'kernel_size' may be already changed for the next calculation
             max_kernel_value = np.max(self.kernel)  # if kernel normalized, will be 1.0
             if min_part_of_max <= 0.0:
                 raise ValueError("\nParameter 'min_part_of_max' should be > 0.0, but it is:", min_part_of_max)
-- 
2.43.0


From 9dd96dd15babe735cd2e6dda67e74d8a59d3e3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:45 +0000
Subject: [PATCH 55/58] fix: warning about a large expansion coefficient was
 missed for the lowest value of integer types

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 6d0f9c0..1a38946 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -227,7 +227,7 @@ class ZernPSF:
                 if np.iscomplexobj(coefficients) or not np.all(np.isfinite(coefficients)):
                     raise ValueError("Expansion coefficients should be finite real numbers")
                 # Sanity check for the maximum expansion coefficient of the polynomial
-                max_module_coeff = max(np.max(coefficients), abs(np.min(coefficients)))
+                max_module_coeff = max(float(np.max(coefficients)), abs(float(np.min(coefficients))))
                 self.__warn_message = _sanity_check_expansion_coefficient(abs(max_module_coeff) / wavelength, max_coeff_check=True)
                 if len(self.__warn_message) > 0:
                     warnings.warn(self.__warn_message); self.__warn_message = ""
-- 
2.43.0


From 889177632075054b8aa9a323947f3f059ba84158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:45 +0000
Subject: [PATCH 56/58] fix: cropping of the kernel accepted NaN as the
 parameter

---
 src/zernpy/zernpsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index 1a38946..cc6f8e3 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -549,7 +549,7 @@ class ZernPSF:
         """
         if self.kernel.shape[0] > 3:  # crop redundant points in kernel, 'kernel_size' may be already changed for the next calculation
             max_kernel_value = np.max(self.kernel)  # if kernel normalized, will be 1.0
-            if min_part_of_max <= 0.0:
+            if not min_part_of_max > 0.0:
                 raise ValueError("\nParameter 'min_part_of_max' should be > 0.0, but it is:", min_part_of_max)
             if min_part_of_max >= 0.5:
                 raise ValueError("\nParameter 'min_part_of_max' should be < 0.5, but it is:", min_part_of_max)
-- 
2.43.0


From 72387fea7316a5fd3c8a9bd2be5e5f012885ec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:45 +0000
Subject: [PATCH 57/58] fix: fractional and not finite kernel sizes and numbers
 of integration points were accepted

---
 src/zernpy/zernpsf.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/zernpy/zernpsf.py b/src/zernpy/zernpsf.py
index cc6f8e3..85ce612 100644
--- a/src/zernpy/zernpsf.py
+++ b/src/zernpy/zernpsf.py
@@ -313,13 +313,11 @@ class ZernPSF:
             raise ValueError("# of integration points for radius should be not less than 20")
         if n_integration_points_phi < 36:
             raise ValueError("# of integration points for angle phi should be not less than 36")
-        # Conversion of numpy integers (narrow or unsigned ones overflow in the calculations)
-        if isinstance(kernel_size, np.integer):
-            kernel_size = int(kernel_size)
-        if isinstance(n_integration_points_r, np.integer):
-            n_integration_points_r = int(n_integration_points_r)
-        if isinstance(n_integration_points_phi, np.integer):
-            n_integration_points_phi = int(n_integration_points_phi)
+        # Conversion to integers (narrow or unsigned numpy integers overflow in the calculations)
+        if kernel_size % 1 != 0 or n_integration_points_r % 1 != 0 or n_integration_points_phi % 1 != 0:
+            raise ValueError("Kernel size and # of integration points should be integers")
+        kernel_size = int(kernel_size); n_integration_points_r = int(n_integration_points_r)
+        n_integration_points_phi = int(n_integration_points_phi)
         # Check provided kernel size and the estimated one
         if kernel_size % 2 == 0:
             kernel_size += 1; print("Note that kernel_size should be odd integer for centering PSF kernel")
-- 
2.43.0


From 6bc182451278b8c6e9ac1c4cf785c7960fbf84b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:45 +0000
Subject: [PATCH 58/58] fix: cropped image contained NaN outside of the
 aperture if the fitted image has such values there

---
 src/zernpy/zernikepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zernpy/zernikepol.py b/src/zernpy/zernikepol.py
index 5e63c28..c0f2dcd 100644
--- a/src/zernpy/zernikepol.py
+++ b/src/zernpy/zernikepol.py
@@ -1555,7 +1555,7 @@ def fit_polynomials(phases_image: np.ndarray, polynomials: tuple, crop_radius: f
     zernike_coefficients = np.zeros(shape=(len(polynomials), ))
     logic_mask, cropped_phases_coordinates = crop_phases_img(phases_image, crop_radius, suppress_warnings, strict_circle_border)
     if return_cropped_image:
-        cropped_image = logic_mask*phases_image  # for debugging
+        cropped_image = np.where(logic_mask > 0, phases_image, 0)  # for debugging
     zernike_coefficients = fit_zernikes(cropped_phases_coordinates, polynomials)
     zernike_coefficients = np.round(zernike_coefficients, round_digits)
     if return_cropped_image:
-- 
2.43.0

