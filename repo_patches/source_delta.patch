From 33d69d43a3554d80eb3365093a89cca49366d696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 01/24] fix: isothermal choking pressure of long pipelines
 (fd*L/D above 700)

exp(-(1 + fd*L/D)) underflows there, so the choking pressure came out as 0,
inf or nan and isothermal_gas could not solve for either pressure.
---
 fluids/compressible.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/fluids/compressible.py b/fluids/compressible.py
index 65c87e7..70172a2 100644
--- a/fluids/compressible.py
+++ b/fluids/compressible.py
@@ -560,7 +560,14 @@ def P_isothermal_critical_flow(P: float, fd: float, D: float, L: float) -> float
        2005.
     """
     # Correct branch of lambertw found by trial and error
-    lambert_term = float((lambertw(-exp((-D - L*fd)/D), -1)).real)
+    x = (D + L*fd)/D
+    if x < 700.0:
+        lambert_term = float(lambertw(-exp(-x), -1).real)
+    else:
+        # exp(-x) underflows; solve w = -x - log(-w), which contracts by 1/x
+        lambert_term = -x - log(x)
+        for _ in range(6):
+            lambert_term = -x - log(-lambert_term)
     return P*exp((D*(lambert_term + 1.0) + L*fd)/(2.0*D))
 
 
@@ -573,7 +580,14 @@ def P_upstream_isothermal_critical_flow(P: float, fd: float, D: float, L: float)
     ... L=1000., D=0.5)
     1000000.00000
     """
-    lambertw_term = float(lambertw(-exp(-(fd*L+D)/D), -1).real)
+    x = (fd*L + D)/D
+    if x < 700.0:
+        lambertw_term = float(lambertw(-exp(-x), -1).real)
+    else:
+        # exp(-x) underflows; solve w = -x - log(-w), which contracts by 1/x
+        lambertw_term = -x - log(x)
+        for _ in range(6):
+            lambertw_term = -x - log(-lambertw_term)
     return exp(-0.5*(D*lambertw_term+fd*L+D)/D)*P
 
 
-- 
2.43.0


From d80c535f584fd96cc34c775b232c69d090dd1827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:48 +0000
Subject: [PATCH 02/24] fix: size_control_valve_l raised NameError without
 full_output when the piping iteration does not converge

---
 fluids/control_valve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/control_valve.py b/fluids/control_valve.py
index 5583536..3b87e21 100644
--- a/fluids/control_valve.py
+++ b/fluids/control_valve.py
@@ -742,9 +742,9 @@ def size_control_valve_l(rho: float, Psat: float, Pc: float, mu: float, P1: floa
                     C = Q/N1/FP*sqrt(rho/rho0/dP)
                 if Ci/C < 0.99 and iterations < MAX_ITER and Ci < MAX_C_POSSIBLE:
                     C = iterate_piping_turbulent_l(C, iterations+1)
-                if MAX_ITER == iterations or Ci >= MAX_C_POSSIBLE:
-                    ans["warning"] = "Not converged in inner loop"
                 if full_output:
+                    if MAX_ITER == iterations or Ci >= MAX_C_POSSIBLE:
+                        ans["warning"] = "Not converged in inner loop"
                     ans["FLP"] = FLP
                     ans["FP"] = FP
                 return C
-- 
2.43.0


From a3cdd5703156ff35842e13137f1c62c721b1144f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:46 +0000
Subject: [PATCH 03/24] fix: API520_A_l raised TypeError when neither Kv nor mu
 was given, both of which are optional

---
 fluids/safety_valve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/safety_valve.py b/fluids/safety_valve.py
index 91c727a..c98cb47 100644
--- a/fluids/safety_valve.py
+++ b/fluids/safety_valve.py
@@ -1084,6 +1084,8 @@ def API520_A_l(m, rho, P1, P2, overpressure, Kd=0.65, Kc=1.0,
         v = (Q/60000.0)/A0
         Re = rho*v*D/mu
         Kv = API520_Kv(Re, edition)
+    elif Kv is None:
+        Kv = 1.0 # No viscosity correction
     P1 = P1*1e-3 # Pa to kPa
     P2 = P2*1e-3 # Pa to kPa
     A = 11.78*Q*sqrt(G1/(P1-P2))/(Kd*Kw*Kc*Kv)
-- 
2.43.0


From 35af5af0c46fc6d06030d10e0acc3cfa1e13e033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:18 +0000
Subject: [PATCH 04/24] fix: SA_partial_horiz_spherical_head returned a
 negative or excessive area outside the head when a == R

---
 fluids/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index d88f3dd..0cef4a0 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -1987,12 +1987,12 @@ def SA_partial_horiz_spherical_head(D: float, a: float, h: float) -> float:
        April 2017. https://www.chemicalprocessing.com/assets/Uploads/calculating-tank-wetted-area.pdf
     """
     R = 0.5*D
-    if a == R:
-        return pi*R*h
-    elif h < 0.0:
+    if h < 0.0:
         return 0.0
     elif h > D:
         h = D
+    if a == R:
+        return pi*R*h
 
     fact = (a*a + R*R)/abs(a)
     R2 = R*R
-- 
2.43.0


From a54e19d94747fb25ef351892ae367255bb5ef8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:18 +0000
Subject: [PATCH 05/24] fix: circle_segment_h_from_A returned the radius for
 every area above half of the circle

---
 fluids/geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 0cef4a0..65f9c2c 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -1876,6 +1876,10 @@ def circle_segment_h_from_A(A: float, D: float) -> float:
     if A == 0.0:
         return 0.0
     R = 0.5*D
+    A_total = pi*R*R
+    if A > 0.5*A_total:
+        # More than half full - solve for the height of the empty segment
+        return D - circle_segment_h_from_A(max(A_total - A, 0.0), D)
     return newton(circle_segment_area_inner, x0=0.25*R, fprime=True, high=R, low=0.0,
                   args=(R, A), xtol=1e-12, bisection=True)
 
-- 
2.43.0


From 7338176474f11c4a7453f8e5c4f5a67f68f10156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:18 +0000
Subject: [PATCH 06/24] fix: TANK.add_thickness gave flat heads a length,
 counting the thickness twice in h_max

---
 fluids/geometry.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 65f9c2c..ceda4b6 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -3655,12 +3655,17 @@ class TANK:
         # parameters which are already functions of diameter, and so will be
         # fixed automatically; if the `a` parameters are specified they would
         # not be corrected
-        if self.sideA != "torispherical":
+        # Flat heads have no `a` dimension to extend
+        if self.sideA is None:
+            pass
+        elif self.sideA != "torispherical":
             kwargs["sideA_a"] += sideA_thickness
         else:
             del kwargs["sideA_a"]
 
-        if self.sideB != "torispherical":
+        if self.sideB is None:
+            pass
+        elif self.sideB != "torispherical":
             kwargs["sideB_a"] += sideB_thickness
         else:
             del kwargs["sideB_a"]
-- 
2.43.0


From 4c09c0b9b9453967fcaab72313536deba5836ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:50 +0000
Subject: [PATCH 07/24] fix: V_horiz_spherical math domain error from rounding
 at levels within rounding of the top or bottom

---
 fluids/geometry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index ceda4b6..adf86bf 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -565,8 +565,12 @@ def V_horiz_spherical(D: float, L: float, a: float, h: float, headonly: bool=Fal
         Vf = pi*a*h*h*(1.0 - h/R*(1.0/3.0))
     elif abs(a) >= 0.01*D:
         R_r = R/r
+        # Both of these are within [-1, 1] except for floating point error,
+        # which matters when the head is almost completely full
+        c1 = min(1.0, max(-1.0, (R*R - r*w)/(R*(w-r))))
+        c2 = min(1.0, max(-1.0, (R*R + r*w)/(R*(w+r))))
         Vf = a/abs(a)*(
-        (2.0/3.0)*r*r*r*(acos((R*R - r*w)/(R*(w-r))) + acos((R*R+r*w)/(R*(w+r)))
+        (2.0/3.0)*r*r*r*(acos(c1) + acos(c2)
         - z/r*(2.0+R_r*R_r)*acos(w/R))
         - 2.0*(w*r*r - w*w*w*(1.0/3.0))*atan(y/z) + (4.0/3.0)*w*y*z)
     else:
-- 
2.43.0


From 607bd916901cb8d9ad0c3e990cc28956dd770e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:40 +0000
Subject: [PATCH 08/24] fix: AirCooledExchanger rejected pitch_ratio in place
 of pitch

---
 fluids/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index adf86bf..65aef5a 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -4964,7 +4964,7 @@ class AirCooledExchanger:
         self.fan_diameter = fan_diameter
 
         if pitch_ratio is not None:
-            if pitch is not None:
+            if pitch is None:
                 pitch = self.tube_diameter*pitch_ratio
             else:
                 raise ValueError("Specify only one of `pitch_ratio` or `pitch`")
-- 
2.43.0


From 9fc8a76220dba705b42366614ed0107df8f6cd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:27 +0000
Subject: [PATCH 09/24] fix: bend_rounded Crane method rejected every bend
 radius given as rc except five diameters

---
 fluids/fittings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/fittings.py b/fluids/fittings.py
index 9b2247a..6802674 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -1532,7 +1532,7 @@ def bend_rounded(Di: float, angle: float, fd: float | None=None, rc: float | Non
                                    L_unimpeded=L_unimpeded)
     elif method == "Crane":
         return bend_rounded_Crane(Di=Di, angle=angle, rc=rc,
-                                  bend_diameters=bend_diameters2)
+                                  bend_diameters=bend_diameters)
     elif method == "Crane standard":
         return ft_Crane(Di)*interp(angle, crane_standard_bend_angles, crane_standard_bend_losses, extrapolate=True)
     elif method == "Ito":
-- 
2.43.0


From 25bbce6c7834d95297f34996ce39dc0ffd4f2454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:27 +0000
Subject: [PATCH 10/24] fix: diffuser_conical_Crane computed a negative angle,
 and loss coefficient, from a length

---
 fluids/fittings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/fittings.py b/fluids/fittings.py
index 6802674..0b8ccf6 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -2628,7 +2628,7 @@ def diffuser_conical_Crane(Di1, Di2, l=None, angle=None):
         angle_deg = angle
     elif l is not None:
         if l != 0.0:
-            angle_rad = 2.0*atan((Di1-Di2)/(2.0*l))
+            angle_rad = 2.0*atan((Di2-Di1)/(2.0*l))
             angle_deg = degrees(angle_rad)
         else:
             angle_rad = pi
-- 
2.43.0


From bb92bef2fe98d51ceade9a8608dc4e54130aaf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:27 +0000
Subject: [PATCH 11/24] fix: K_tilting_disk_check_valve_Crane changes
 coefficients above 9 and 15 inches for 15 degree disks too, as documented

---
 fluids/fittings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/fittings.py b/fluids/fittings.py
index 0b8ccf6..8d37695 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -4078,10 +4078,10 @@ def K_tilting_disk_check_valve_Crane(D: float, angle: float, fd: float | None=No
             return 20*fd
     else:
         # 15 degree case
-        if D < 0.2286:
+        if D <= 0.2286:
             # 2-8 inches
             return 120*fd
-        elif D < 0.381:
+        elif D <= 0.381:
             # 10-14 inches
             return 90*fd
         else:
-- 
2.43.0


From 1fe279ff403737443500983f0578b9f9c8e4fbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:17 +0000
Subject: [PATCH 12/24] fix: Lockhart_Martinelli divided by zero for
 liquid-only flow (x = 0)

---
 fluids/two_phase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fluids/two_phase.py b/fluids/two_phase.py
index 1d7c92c..4fb38b7 100644
--- a/fluids/two_phase.py
+++ b/fluids/two_phase.py
@@ -2304,7 +2304,9 @@ def Lockhart_Martinelli(m: float, x: float, rhol: float, rhog: float, mul: float
     # Friction factor as in the original model
     x_only_liquid_tol = 1e-30
     x_only_vapor_tol = 1e-13
-    fd_g =  64./Re_g if Re_g < Re_c else 0.184*Re_g**-0.2
+    fd_g = 0.0
+    if x > 0.0:
+        fd_g =  64./Re_g if Re_g < Re_c else 0.184*Re_g**-0.2
     dP_g = fd_g*L/D*(0.5*rhog*v_g**2)
     if x > 1.0 - x_only_vapor_tol:
         return dP_g
-- 
2.43.0


From a79ca016952884d968fefbc775f4297e6ec561e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:08 +0000
Subject: [PATCH 13/24] fix: size_tee exponent for one side stream above B =
 0.7

The regime above the limit started from 1/33 instead of 1.33, the value
below the limit, so the coefficient of variation jumped at B = 0.7; the
other numbers of side streams are continuous there.
---
 fluids/mixing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/mixing.py b/fluids/mixing.py
index d5ab3f4..939bd0f 100644
--- a/fluids/mixing.py
+++ b/fluids/mixing.py
@@ -300,7 +300,7 @@ def size_tee(Q1: float, Q2: float, D: float, D2: float | None, n: int=1, pipe_di
         if B < 0.7:
             E = 1.33
         else:
-            E = 1/33. + 0.95*log(B/0.7)
+            E = 1.33 + 0.95*log(B/0.7)
     elif n == 2:
         if B < 0.8:
             E = 1.44
-- 
2.43.0


From 1cadc1cff790187239c23e9d98c31203000839ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:40 +0000
Subject: [PATCH 14/24] fix: liquid_jet_pump no longer returns the absolute
 value of a negative result

With P5 missing, a negative outlet pressure (or other missing variable) was
returned as its absolute value, which satisfies none of the equations.
Raise the same error as for other pumps without a solution.
---
 fluids/jet_pump.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluids/jet_pump.py b/fluids/jet_pump.py
index a22c2e7..c88205a 100644
--- a/fluids/jet_pump.py
+++ b/fluids/jet_pump.py
@@ -562,6 +562,9 @@ def liquid_jet_pump(rhop, rhos, Kp=0.0, Ks=0.1, Km=.15, Kd=0.1,
                                P1=vals["P1"], P5=None,
                                nozzle_retracted=nozzle_retracted, d_diffuser=d_diffuser)["P5"]
         # Compute the remaining parameters
+        if vals[unknown_vars[0]] < 0.0 or vals[unknown_vars[1]] < 0.0:
+            # obj_err would turn them into positive values which are no solution
+            raise ValueError("Could not solve")
         obj_err([vals[unknown_vars[0]], vals[unknown_vars[1]]])
         return vals
 
-- 
2.43.0


From 0278707b6267d3cc29b6ae11b49ba5e4d2af823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:13 +0000
Subject: [PATCH 15/24] fix: PSDGatesGaudinSchuhman with d_max raised
 AttributeError

d_max was read from the attribute which is only set further down.
---
 fluids/particle_size_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index cdd0d91..029857f 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2132,7 +2132,7 @@ class PSDGatesGaudinSchuhman(ParticleSizeDistributionContinuous):
 
         if d_max is not None:
             # PDF above this is zero
-            self.d_excessive = self.d_max
+            self.d_excessive = d_max
         else:
             self.d_excessive = self.d_characteristic
         if d_min is not None:
-- 
2.43.0


From a551a8980bd1b7b4a462c52a6fc9574d9b13fa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:13 +0000
Subject: [PATCH 16/24] fix: PSDGatesGaudinSchuhman order conversions above
 d_characteristic

The cumulative distribution converted to another order kept rising above 1
for sizes above the largest particle size.
---
 fluids/particle_size_distribution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 029857f..2e07246 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2163,6 +2163,8 @@ class PSDGatesGaudinSchuhman(ParticleSizeDistributionContinuous):
         return cdf_Gates_Gaudin_Schuhman(d, d_characteristic=self.d_characteristic, m=self.m)
 
     def _pdf_basis_integral(self, d: float, n: float) -> float:
+        # There are no particles above d_characteristic
+        d = min(d, self.d_characteristic)
         return pdf_Gates_Gaudin_Schuhman_basis_integral(d, d_characteristic=self.d_characteristic, m=self.m, n=n)
 
 
-- 
2.43.0


From a2bf8f40faf82dbe121d6234fe6693a882da4c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:14 +0000
Subject: [PATCH 17/24] fix: order conversions of truncated particle size
 distributions

The converted distribution was normalized over the whole size range and
then a second time with the unconverted cumulative distribution at the
limits, so it did not run from 0 to 1 between them.
---
 fluids/particle_size_distribution.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 2e07246..380c5c2 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -1304,17 +1304,20 @@ class ParticleSizeDistributionContinuous:
            Generation. CRC Press, 2006.
         """
         ans = self._pdf(d=d)
-        if n is not None and n != self.order:
+        converted = n is not None and n != self.order
+        if converted:
             power = n - self.order
             numerator = d**power*ans
-            denominator = self._pdf_basis_integral_definite(d_min=0.0, d_max=self.d_excessive, n=power)
+            d_min = self.d_min if self.truncated else 0.0
+            denominator = self._pdf_basis_integral_definite(d_min=d_min, d_max=self.d_excessive, n=power)
             ans = numerator/denominator
         # Handle splines which might go below zero
         ans = max(ans, 0.0)
         if self.truncated:
             if d < self.d_min or d > self.d_max:
                 return 0.0
-            ans = (ans)/(self._cdf_d_max - self._cdf_d_min)
+            if not converted:
+                ans = (ans)/(self._cdf_d_max - self._cdf_d_min)
         return ans
 
     def cdf(self, d: float, n: float | None=None) -> float:
@@ -1352,12 +1355,14 @@ class ParticleSizeDistributionContinuous:
         >>> [psd.cdf(5e-6, n) for n in range(4)]
         [0.933192798731, 0.8413447460685, 0.6914624612740, 0.5]
         """
-        if n is not None and n != self.order:
+        converted = n is not None and n != self.order
+        if converted:
             power = n - self.order
+            d_min = self.d_min if self.truncated else 0.0
             # One of the pdf_basis_integral calls could be saved except for
             # support for numerical integrals
-            numerator = self._pdf_basis_integral_definite(d_min=0.0, d_max=d, n=power)
-            denominator = self._pdf_basis_integral_definite(d_min=0.0, d_max=self.d_excessive, n=power)
+            numerator = self._pdf_basis_integral_definite(d_min=d_min, d_max=d, n=power)
+            denominator = self._pdf_basis_integral_definite(d_min=d_min, d_max=self.d_excessive, n=power)
             ans =  max(numerator/denominator, 0.0)
         # Handle splines which might go below zero
         else:
@@ -1367,7 +1372,8 @@ class ParticleSizeDistributionContinuous:
                 return 0.0
             elif d >= self.d_max:
                 return 1.0
-            ans = (ans - self._cdf_d_min)/(self._cdf_d_max - self._cdf_d_min)
+            if not converted:
+                ans = (ans - self._cdf_d_min)/(self._cdf_d_max - self._cdf_d_min)
         return ans
 
     def delta_cdf(self, d_min, d_max, n=None):
-- 
2.43.0


From fe666d60dc5614e09e0d01a579266a4f8d646b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:14 +0000
Subject: [PATCH 18/24] fix: ParticleSizeDistribution dropped the first value
 of a cumulative input

With as many diameters as cumulative fractions the fraction of the first
size was replaced by zero, so the fractions did not add up to 1.
---
 fluids/particle_size_distribution.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 380c5c2..5717cab 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -1856,11 +1856,7 @@ class ParticleSizeDistribution(ParticleSizeDistributionContinuous):
 
         if cdf:
             # Convert a cdf to fraction set
-            if len(fractions)+1 == len(ds):
-                fractions = [fractions[0]] + diff(fractions)
-            else:
-                fractions_diff = diff(fractions)
-                fractions = [0.0] + fractions_diff
+            fractions = [fractions[0]] + diff(fractions)
         elif sum(fractions) != 1.0:
             # Normalize flow inputs
             tot_inv = 1.0/sum(fractions)
-- 
2.43.0


From c0e92ffa3948500191aaf7afd263f08f3942aac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:35 +0000
Subject: [PATCH 19/24] fix: order conversions and mean sizes of
 PSDGatesGaudinSchuhman

They need the basis integral at a diameter of zero, which raised
ZeroDivisionError for the negative exponents of most conversions although
the integral is zero there.
---
 fluids/particle_size_distribution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 5717cab..328452f 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -912,6 +912,9 @@ def pdf_Gates_Gaudin_Schuhman_basis_integral(d: float, d_characteristic: float,
     >>> pdf_Gates_Gaudin_Schuhman_basis_integral(d=2E-4, d_characteristic=1E-3, m=2.3, n=-3)
     -10136984887.543015
     """
+    if d == 0.0 and m + n > 0.0:
+        # d**n alone has no value for a negative n
+        return 0.0
     return m/(m+n)*d**n*(d/d_characteristic)**m
 
 
-- 
2.43.0


From 72a2faeaeaf93c9950430e0b4d49013adef840a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:06 +0000
Subject: [PATCH 20/24] fix: di_power of size classes divided by zero for the
 power -1 (harmonic mean sizes)

---
 fluids/particle_size_distribution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 328452f..9502d0d 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2002,6 +2002,9 @@ class ParticleSizeDistribution(ParticleSizeDistributionContinuous):
         """
         if self.size_classes:
             rt = power + 1
+            if rt == 0:
+                # limit of the general expression
+                return log(self.ds[i+1]/self.ds[i])/(self.ds[i+1] - self.ds[i])
             return ((self.ds[i+1]**rt - self.ds[i]**rt)/((self.ds[i+1] - self.ds[i])*rt))
         else:
             return self.ds[i]**power
-- 
2.43.0


From b19a8017c051fd74029ddff225620e6ed935e44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:47 +0000
Subject: [PATCH 21/24] fix: best_bounding_bounds compared the largest negative
 history value with the positive one for the upper end

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 6fc1589..7148b21 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2631,7 +2631,7 @@ def best_bounding_bounds(low, high, f=None, xs_pos=None, ys_pos=None,
             if y_min_neg > fa:
                 fa, low = y_min_neg, x_min_neg
         else:
-            if y_min_pos > fb:
+            if y_min_neg > fb:
                 fb, high = y_min_neg, x_min_neg
 
     if fa*fb > 0:
-- 
2.43.0


From d5c72697a23d9206f648ccaf136fc78120839868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:47 +0000
Subject: [PATCH 22/24] fix: det of a 1x1 matrix returned the row instead of
 the number

---
 fluids/numerics/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/arrays.py b/fluids/numerics/arrays.py
index 9c8a329..329e8cb 100644
--- a/fluids/numerics/arrays.py
+++ b/fluids/numerics/arrays.py
@@ -152,7 +152,7 @@ def det(matrix):
     """
     size = len(matrix)
     if size == 1:
-        return matrix[0]
+        return matrix[0][0]
     elif size == 2:
         (a, b), (c, d) = matrix
         return a*d - c*b
-- 
2.43.0


From 5ad3215d297b9a4e1ea074513c3617c25191b198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:47 +0000
Subject: [PATCH 23/24] fix: ridder tolerance became negative for large
 negative roots, so it did not converge

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 7148b21..d3f96f1 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2707,7 +2707,7 @@ def ridder(f, a, b, args=(), xtol=_xtol, rtol=_rtol, maxiter=_iter,
         else:
             a = xn
             fa = fn
-        tol = xtol + rtol*xn
+        tol = xtol + rtol*fabs(xn)
         if (fn == 0.0 or fabs(b - a) < tol):
             return xn
     raise UnconvergedError(f"Failed to converge after {maxiter} iterations") # numba: delete
-- 
2.43.0


From 881ff51f3843932e199b45a999f5f015f671b4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:47 +0000
Subject: [PATCH 24/24] fix: nelder_mead with only an upper limit raised
 TypeError (bounds_clip_naive used len(low))

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index d3f96f1..53b79e8 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -5445,7 +5445,7 @@ else:
     quad = lazy_quad
 
 def bounds_clip_naive(x, low, high):
-    N = len(low)
+    N = len(x)
     if low is not None:
         for i in range(N):
             if x[i] < low[i]:
-- 
2.43.0

