From 72df26714f3764f649219f0da12a813e3b018af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:36 +0000
Subject: [PATCH 001/161] fix: SIS_TRUNCATED Hessian uses coordinates relative
 to the lens centre

---
 lenstronomy/LensModel/Profiles/sis_truncate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Profiles/sis_truncate.py b/lenstronomy/LensModel/Profiles/sis_truncate.py
index 9135f08..8be8892 100644
--- a/lenstronomy/LensModel/Profiles/sis_truncate.py
+++ b/lenstronomy/LensModel/Profiles/sis_truncate.py
@@ -109,7 +109,7 @@ class SIS_truncate(LensProfileBase):
         y_shift = y - center_y
         dphi_dr = self._dphi_dr(x_shift, y_shift, theta_E, r_trunc)
         d2phi_dr2 = self._d2phi_dr2(x_shift, y_shift, theta_E, r_trunc)
-        dr_dx, dr_dy = self._dr_dx(x, y)
+        dr_dx, dr_dy = self._dr_dx(x_shift, y_shift)
         d2r_dx2, d2r_dy2, d2r_dxy = self._d2r_dx2(x_shift, y_shift)
         f_xx = d2r_dx2 * dphi_dr + dr_dx**2 * d2phi_dr2
         f_yy = d2r_dy2 * dphi_dr + dr_dy**2 * d2phi_dr2
-- 
2.43.0


From ed853ffe0c7b1e154212d39dd50f3ecf2d76bfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:36 +0000
Subject: [PATCH 002/161] fix: SIS_TRUNCATED array evaluation at exactly
 r_trunc and 2 r_trunc matches scalar evaluation

---
 lenstronomy/LensModel/Profiles/sis_truncate.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/sis_truncate.py b/lenstronomy/LensModel/Profiles/sis_truncate.py
index 8be8892..55dd469 100644
--- a/lenstronomy/LensModel/Profiles/sis_truncate.py
+++ b/lenstronomy/LensModel/Profiles/sis_truncate.py
@@ -64,12 +64,12 @@ class SIS_truncate(LensProfileBase):
         else:
             f_ = np.zeros_like(r)
             f_[r < r_trunc] = theta_E * r[r < r_trunc]
-            r_ = r[(r < 2 * r_trunc) & (r > r_trunc)]
-            f_[(r < 2 * r_trunc) & (r > r_trunc)] = (
+            r_ = r[(r < 2 * r_trunc) & (r >= r_trunc)]
+            f_[(r < 2 * r_trunc) & (r >= r_trunc)] = (
                 theta_E * r_trunc
                 + 1.0 / 2 * theta_E * (3 - r_ / r_trunc) * (r_ - r_trunc)
             )
-            f_[r > 2 * r_trunc] = 3.0 / 2 * theta_E * r_trunc
+            f_[r >= 2 * r_trunc] = 3.0 / 2 * theta_E * r_trunc
         return f_
 
     def derivatives(self, x, y, theta_E, r_trunc, center_x=0, center_y=0):
@@ -165,8 +165,8 @@ class SIS_truncate(LensProfileBase):
         else:
             a = np.zeros_like(r)
             a[r < r_trunc] = 0
-            a[(r < 2 * r_trunc) & (r > r_trunc)] = -theta_E / r_trunc
-            a[r > 2 * r_trunc] = 0
+            a[(r < 2 * r_trunc) & (r >= r_trunc)] = -theta_E / r_trunc
+            a[r >= 2 * r_trunc] = 0
         return a
 
     def _dr_dx(self, x, y):
-- 
2.43.0


From a258419f42724e3997663529113da3f817445fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:36 +0000
Subject: [PATCH 003/161] fix: CNFW enclosed-mass function is continuous at the
 core radius (constant is ln 4)

---
 lenstronomy/LensModel/Profiles/cnfw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/cnfw.py b/lenstronomy/LensModel/Profiles/cnfw.py
index a866882..4568d49 100644
--- a/lenstronomy/LensModel/Profiles/cnfw.py
+++ b/lenstronomy/LensModel/Profiles/cnfw.py
@@ -355,7 +355,7 @@ class CNFW(LensProfileBase):
 
             output[inds1] = prefac * (
                 2 * (1 - 2 * b + b**3) * self._nfw_func(b)
-                + fac * (-1.38692 + np.log(b2))
+                + fac * (-np.log(4) + np.log(b2))
                 - b2 * np.log(b2)
             )
 
@@ -371,7 +371,7 @@ class CNFW(LensProfileBase):
             if np.absolute(X - b) <= c:
                 output = prefac * (
                     2 * (1 - 2 * b + b**3) * self._nfw_func(b)
-                    + fac * (-1.38692 + np.log(b2))
+                    + fac * (-np.log(4) + np.log(b2))
                     - b2 * np.log(b2)
                 )
             else:
-- 
2.43.0


From ffc5e31dfde2b17cc1c136f30d2910cba27cd395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:36 +0000
Subject: [PATCH 004/161] fix: MULTIPOLE_ELL near-circular branch is evaluated
 in the frame rotated by phi_ref

---
 lenstronomy/LensModel/Profiles/multipole.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/multipole.py b/lenstronomy/LensModel/Profiles/multipole.py
index 682caa0..a4ec0a0 100644
--- a/lenstronomy/LensModel/Profiles/multipole.py
+++ b/lenstronomy/LensModel/Profiles/multipole.py
@@ -227,7 +227,7 @@ class EllipticalMultipole(LensProfileBase):
         ):  # avoid numerical instability when q is too close to 1 by taking circular multipole solution
             sph_multipole = Multipole()
             f_ = sph_multipole.function(
-                x, y, m, a_m, varphi_m, center_x=center_x, center_y=center_y, r_E=r_E
+                r * np.cos(phi), r * np.sin(phi), m, a_m, varphi_m, r_E=r_E
             )
 
         else:
@@ -302,7 +302,7 @@ class EllipticalMultipole(LensProfileBase):
         ):  # avoid numerical instability when q is too close to 1 by taking circular multipole solution
             sph_multipole = Multipole()
             f_x, f_y = sph_multipole.derivatives(
-                x, y, m, a_m, varphi_m, center_x=center_x, center_y=center_y, r_E=r_E
+                r * np.cos(phi), r * np.sin(phi), m, a_m, varphi_m, r_E=r_E
             )
 
         else:
@@ -395,7 +395,7 @@ class EllipticalMultipole(LensProfileBase):
         ):  # avoid numerical instability when q is too close to 1 by taking circular multipole solution
             sph_multipole = Multipole()
             f_xx, f_xy, f_xy, f_yy = sph_multipole.hessian(
-                x, y, m, a_m, varphi_m, center_x=center_x, center_y=center_y, r_E=r_E
+                r * np.cos(phi), r * np.sin(phi), m, a_m, varphi_m, r_E=r_E
             )
 
         else:
-- 
2.43.0


From 6748530eea0a7ff4b4f142fb080adfdfeadae98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:52 +0000
Subject: [PATCH 005/161] fix: HERNQUIST deflection and enclosed mass are
 regular near r = Rs

---
 lenstronomy/LensModel/Profiles/hernquist.py | 28 ++++++++++++---------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/hernquist.py b/lenstronomy/LensModel/Profiles/hernquist.py
index adc0f5e..0418e69 100644
--- a/lenstronomy/LensModel/Profiles/hernquist.py
+++ b/lenstronomy/LensModel/Profiles/hernquist.py
@@ -141,7 +141,7 @@ class Hernquist(LensProfileBase):
         :return: mass enclosed 2d projected radius
         """
         X = r / Rs
-        alpha_r = 2 * sigma0 * Rs * X * (1 - self._F(X)) / (X**2 - 1)
+        alpha_r = 2 * sigma0 * Rs * X * self._f_alpha(X)
         mass_2d = alpha_r * r * np.pi
         return mass_2d
 
@@ -198,17 +198,7 @@ class Hernquist(LensProfileBase):
         r = np.sqrt(x_**2 + y_**2)
         r = np.maximum(r, self._s)
         X = r / Rs
-        if isinstance(r, int) or isinstance(r, float):
-            # f = (1 - self._F(X)) / (X ** 2 - 1)  # this expression is 1/3 for X=1
-            if X == 1:
-                f = 1.0 / 3
-            else:
-                f = (1 - self._F(X)) / (X**2 - 1)
-        else:
-            f = np.empty_like(X)
-            f[X == 1] = 1.0 / 3
-            X_ = X[X != 1]
-            f[X != 1] = (1 - self._F(X_)) / (X_**2 - 1)
+        f = self._f_alpha(X)
         alpha_r = 2 * sigma0 * Rs * f * X
         f_x = alpha_r * x_ / r
         f_y = alpha_r * y_ / r
@@ -268,6 +258,20 @@ class Hernquist(LensProfileBase):
         """
         return sigma0 / Rs
 
+    def _f_alpha(self, X):
+        """Function (1 - F(X)) / (X^2 - 1), regular at X=1 where it is 1/3.
+
+        :param X: r/Rs
+        :return: (1 - F(X)) / (X^2 - 1), evaluated with its series expansion around X=1
+            where the closed form looses all significant digits
+        """
+        u = X**2 - 1
+        near = np.abs(u) < 0.001
+        series = 1.0 / 3 - u / 5 + u**2 / 7 - u**3 / 9 + u**4 / 11
+        if isinstance(X, int) or isinstance(X, float):
+            return series if near else (1 - self._F(X)) / u
+        return np.where(near, series, (1 - self._F(X)) / np.where(near, 1.0, u))
+
     def _F(self, X):
         """
         function 48 in https://arxiv.org/pdf/astro-ph/0102341.pdf
-- 
2.43.0


From b96f3e1d7510c9b8831d857ca68f285f7bba3d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:18 +0000
Subject: [PATCH 006/161] fix: NFW and TNFW closed forms are regular near r =
 Rs

---
 lenstronomy/LensModel/Profiles/nfw.py  | 30 ++++++++++++++++++--------
 lenstronomy/LensModel/Profiles/tnfw.py | 11 ++++++----
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/nfw.py b/lenstronomy/LensModel/Profiles/nfw.py
index 8cfd31d..b9982a7 100644
--- a/lenstronomy/LensModel/Profiles/nfw.py
+++ b/lenstronomy/LensModel/Profiles/nfw.py
@@ -334,7 +334,10 @@ class NFW(LensProfileBase):
         :type X: float >0
         """
         if isinstance(X, int) or isinstance(X, float):
-            if X < 1 and X > 0:
+            if abs(X - 1) < 1e-4:
+                # closed forms below cancel at X = 1
+                a = 1.0 / 3 - 2.0 / 5 * (X - 1) + 13.0 / 35 * (X - 1) ** 2
+            elif X < 1 and X > 0:
                 a = (
                     1
                     / (X**2 - 1)
@@ -343,8 +346,6 @@ class NFW(LensProfileBase):
                         - 2 / np.sqrt(1 - X**2) * np.arctanh(np.sqrt((1 - X) / (1 + X)))
                     )
                 )
-            elif X == 1:
-                a = 1.0 / 3
             elif X > 1:
                 a = (
                     1
@@ -371,14 +372,17 @@ class NFW(LensProfileBase):
                 * (1 - 2 / np.sqrt(1 - x**2) * np.arctanh(np.sqrt((1 - x) / (1 + x))))
             )
 
-            a[X == 1] = 1.0 / 3.0
-
             x = X[X > 1]
             a[X > 1] = (
                 1
                 / (x**2 - 1)
                 * (1 - 2 / np.sqrt(x**2 - 1) * np.arctan(np.sqrt((x - 1) / (1 + x))))
             )
+
+            # closed forms above cancel at X = 1
+            near = np.abs(X - 1) < 1e-4
+            x = X[near]
+            a[near] = 1.0 / 3 - 2.0 / 5 * (x - 1) + 13.0 / 35 * (x - 1) ** 2
             # a[X>y] = 0
 
             c = 0.0000001
@@ -424,20 +428,28 @@ class NFW(LensProfileBase):
         if isinstance(X, int) or isinstance(X, float):
             if X < 1:
                 x = max(c, X)
-                a = np.log(x / 2.0) + 1 / np.sqrt(1 - x**2) * np.arccosh(1.0 / x)
+                a = np.log(x / 2.0) + 2 / np.sqrt(1 - x**2) * np.arctanh(
+                    np.sqrt((1 - x) / (1 + x))
+                )
             elif X == 1:
                 a = 1 + np.log(1.0 / 2.0)
             else:  # X > 1:
-                a = np.log(X / 2) + 1 / np.sqrt(X**2 - 1) * np.arccos(1.0 / X)
+                a = np.log(X / 2) + 2 / np.sqrt(X**2 - 1) * np.arctan(
+                    np.sqrt((X - 1) / (1 + X))
+                )
 
         else:
             a = np.empty_like(X)
             X[X <= c] = c
             x = X[X < 1]
-            a[X < 1] = np.log(x / 2.0) + 1 / np.sqrt(1 - x**2) * np.arccosh(1.0 / x)
+            a[X < 1] = np.log(x / 2.0) + 2 / np.sqrt(1 - x**2) * np.arctanh(
+                np.sqrt((1 - x) / (1 + x))
+            )
             a[X == 1] = 1 + np.log(1.0 / 2.0)
             x = X[X > 1]
-            a[X > 1] = np.log(x / 2) + 1 / np.sqrt(x**2 - 1) * np.arccos(1.0 / x)
+            a[X > 1] = np.log(x / 2) + 2 / np.sqrt(x**2 - 1) * np.arctan(
+                np.sqrt((x - 1) / (1 + x))
+            )
         return a
 
     def h_(self, X):
diff --git a/lenstronomy/LensModel/Profiles/tnfw.py b/lenstronomy/LensModel/Profiles/tnfw.py
index 8c3e130..cf83835 100644
--- a/lenstronomy/LensModel/Profiles/tnfw.py
+++ b/lenstronomy/LensModel/Profiles/tnfw.py
@@ -317,12 +317,15 @@ class TNFW(LensProfileBase):
         if isinstance(X, np.ndarray):
             # b = (t2 + 1) * (X ** 2 - 1) ** -1 * (1 - _F)
             b = np.ones_like(X)
-            b[X == 1] = (t2 + 1) * 1.0 / 3
-            b[X != 1] = (t2 + 1) * (X[X != 1] ** 2 - 1) ** -1 * (1 - _F[X != 1])
+            near = np.abs(X - 1) < 1e-4  # the closed form cancels at X = 1
+            dx = X[near] - 1
+            b[near] = (t2 + 1) * (1.0 / 3 - 2.0 / 5 * dx + 13.0 / 35 * dx**2)
+            b[~near] = (t2 + 1) * (X[~near] ** 2 - 1) ** -1 * (1 - _F[~near])
 
         elif isinstance(X, float) or isinstance(X, int):
-            if X == 1:
-                b = (t2 + 1) * 1.0 / 3
+            if abs(X - 1) < 1e-4:
+                dx = X - 1
+                b = (t2 + 1) * (1.0 / 3 - 2.0 / 5 * dx + 13.0 / 35 * dx**2)
             else:
                 b = (t2 + 1) * (X**2 - 1) ** -1 * (1 - _F)
         else:
-- 
2.43.0


From fecba06b56fbc12eb1c1fee3e5fc455d6c4389cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:18 +0000
Subject: [PATCH 007/161] fix: coreBURKERT convergence at r = r_core, and
 rounding around it

---
 lenstronomy/LensModel/Profiles/coreBurkert.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/coreBurkert.py b/lenstronomy/LensModel/Profiles/coreBurkert.py
index 6cbb91b..7396475 100644
--- a/lenstronomy/LensModel/Profiles/coreBurkert.py
+++ b/lenstronomy/LensModel/Profiles/coreBurkert.py
@@ -238,11 +238,13 @@ class CoreBurkert(LensProfileBase):
 
     @staticmethod
     def _g(x, p):
-        return np.sqrt(1 - x**2 * p**2)
+        # x * p may round to either side of 1
+        return np.sqrt(np.maximum(1 - x**2 * p**2, 1e-16))
 
     @staticmethod
     def _f(x, p):
-        return np.sqrt(x**2 * p**2 - 1)
+        # x * p may round to either side of 1
+        return np.sqrt(np.maximum(x**2 * p**2 - 1, 1e-16))
 
     def _H(self, x, p):
         prefactor = (p + p**3) ** -1 * p
@@ -397,7 +399,7 @@ class CoreBurkert(LensProfileBase):
 
             func[inds0] = self._u(x[inds0]) ** -1 * (
                 np.pi + 2 * p * np.arctanh(self._u(x[inds0]) ** -1)
-            )
+            ) - (2 * p)
 
             func[inds1] = self._u(x[inds1]) ** -1 * (
                 np.pi + 2 * p * np.arctanh(self._u(x[inds1]) ** -1)
@@ -411,7 +413,9 @@ class CoreBurkert(LensProfileBase):
 
         else:
             if x * p == 1:
-                func = self._u(x) ** -1 * (np.pi + 2 * p * np.arctanh(self._u(x) ** -1))
+                func = self._u(x) ** -1 * (
+                    np.pi + 2 * p * np.arctanh(self._u(x) ** -1)
+                ) - (2 * p)
             elif x * p < 1:
                 func = self._u(x) ** -1 * (
                     np.pi + 2 * p * np.arctanh(self._u(x) ** -1)
-- 
2.43.0


From 70d0b5fe1d7c52b2ecea9c58817cabe9709e4431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:35 +0000
Subject: [PATCH 008/161] fix: NFW deflection keeps full precision near r = Rs

---
 lenstronomy/LensModel/Profiles/nfw.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/nfw.py b/lenstronomy/LensModel/Profiles/nfw.py
index b9982a7..124d132 100644
--- a/lenstronomy/LensModel/Profiles/nfw.py
+++ b/lenstronomy/LensModel/Profiles/nfw.py
@@ -428,13 +428,13 @@ class NFW(LensProfileBase):
         if isinstance(X, int) or isinstance(X, float):
             if X < 1:
                 x = max(c, X)
-                a = np.log(x / 2.0) + 2 / np.sqrt(1 - x**2) * np.arctanh(
+                a = np.log(x / 2.0) + 2 / np.sqrt((1 - x) * (1 + x)) * np.arctanh(
                     np.sqrt((1 - x) / (1 + x))
                 )
             elif X == 1:
                 a = 1 + np.log(1.0 / 2.0)
             else:  # X > 1:
-                a = np.log(X / 2) + 2 / np.sqrt(X**2 - 1) * np.arctan(
+                a = np.log(X / 2) + 2 / np.sqrt((X - 1) * (X + 1)) * np.arctan(
                     np.sqrt((X - 1) / (1 + X))
                 )
 
@@ -442,12 +442,12 @@ class NFW(LensProfileBase):
             a = np.empty_like(X)
             X[X <= c] = c
             x = X[X < 1]
-            a[X < 1] = np.log(x / 2.0) + 2 / np.sqrt(1 - x**2) * np.arctanh(
+            a[X < 1] = np.log(x / 2.0) + 2 / np.sqrt((1 - x) * (1 + x)) * np.arctanh(
                 np.sqrt((1 - x) / (1 + x))
             )
             a[X == 1] = 1 + np.log(1.0 / 2.0)
             x = X[X > 1]
-            a[X > 1] = np.log(x / 2) + 2 / np.sqrt(x**2 - 1) * np.arctan(
+            a[X > 1] = np.log(x / 2) + 2 / np.sqrt((x - 1) * (x + 1)) * np.arctan(
                 np.sqrt((x - 1) / (1 + x))
             )
         return a
-- 
2.43.0


From ec5d042b53e7dbe18f9e652c62de779ea777e241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:35 +0000
Subject: [PATCH 009/161] fix: TNFW mass_3d takes the truncation radius in
 angular units for any Rs

---
 lenstronomy/LensModel/Profiles/tnfw.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LensModel/Profiles/tnfw.py b/lenstronomy/LensModel/Profiles/tnfw.py
index cf83835..e7fac9c 100644
--- a/lenstronomy/LensModel/Profiles/tnfw.py
+++ b/lenstronomy/LensModel/Profiles/tnfw.py
@@ -206,6 +206,7 @@ class TNFW(LensProfileBase):
 
         x = r * Rs**-1
         x = np.maximum(x, self._s)
+        r_trunc = r_trunc / Rs  # truncation radius in units of Rs
         func = (
             r_trunc**2
             * (
-- 
2.43.0


From 6b8b1dc53ddf1a98d73c3921e81d24f8e9a912b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:24 +0000
Subject: [PATCH 010/161] fix: CNFW enclosed mass is not held constant around
 the core radius

---
 lenstronomy/LensModel/Profiles/cnfw.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/cnfw.py b/lenstronomy/LensModel/Profiles/cnfw.py
index 4568d49..aee722f 100644
--- a/lenstronomy/LensModel/Profiles/cnfw.py
+++ b/lenstronomy/LensModel/Profiles/cnfw.py
@@ -350,8 +350,8 @@ class CNFW(LensProfileBase):
         if isinstance(X, np.ndarray):
             output = np.ones_like(X)
 
-            inds1 = np.where(np.absolute(X - b) <= c)
-            inds2 = np.where(np.absolute(X - b) > c)
+            inds1 = np.where(X == b)
+            inds2 = np.where(X != b)
 
             output[inds1] = prefac * (
                 2 * (1 - 2 * b + b**3) * self._nfw_func(b)
@@ -368,7 +368,7 @@ class CNFW(LensProfileBase):
             return 0.5 * output
 
         else:
-            if np.absolute(X - b) <= c:
+            if X == b:
                 output = prefac * (
                     2 * (1 - 2 * b + b**3) * self._nfw_func(b)
                     + fac * (-np.log(4) + np.log(b2))
-- 
2.43.0


From 39a7e986c0686703692180519ba8027492752c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:35 +0000
Subject: [PATCH 011/161] fix: SHAPELETS_CART honours the centre for single
 positions

---
 .../Profiles/shapelet_pot_cartesian.py        | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py b/lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py
index 5bedbd9..65f8145 100644
--- a/lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py
+++ b/lenstronomy/LensModel/Profiles/shapelet_pot_cartesian.py
@@ -28,7 +28,9 @@ class CartShapelets(LensProfileBase):
         n_order = self._get_num_n(len(coeffs))
         n = len(np.atleast_1d(x))
         if n <= 1:
-            f_ = self._shapeletOutput(x, y, beta, shapelets, precalc=False)
+            f_ = self._shapeletOutput(
+                x - center_x, y - center_y, beta, shapelets, precalc=False
+            )
         else:
             H_x, H_y = self.pre_calc(x, y, beta, n_order, center_x, center_y)
             f_ = self._shapeletOutput(H_x, H_y, beta, shapelets)
@@ -42,8 +44,12 @@ class CartShapelets(LensProfileBase):
         dy_shapelets = self._dy_shapelets(shapelets, beta)
         n = len(np.atleast_1d(x))
         if n <= 1:
-            f_x = self._shapeletOutput(x, y, beta, dx_shapelets, precalc=False)
-            f_y = self._shapeletOutput(x, y, beta, dy_shapelets, precalc=False)
+            f_x = self._shapeletOutput(
+                x - center_x, y - center_y, beta, dx_shapelets, precalc=False
+            )
+            f_y = self._shapeletOutput(
+                x - center_x, y - center_y, beta, dy_shapelets, precalc=False
+            )
         else:
             H_x, H_y = self.pre_calc(x, y, beta, n_order + 1, center_x, center_y)
             f_x = self._shapeletOutput(H_x, H_y, beta, dx_shapelets)
@@ -60,9 +66,15 @@ class CartShapelets(LensProfileBase):
         dxy_shapelets = self._dxy_shapelets(shapelets, beta)
         n = len(np.atleast_1d(x))
         if n <= 1:
-            f_xx = self._shapeletOutput(x, y, beta, dxx_shapelets, precalc=False)
-            f_yy = self._shapeletOutput(x, y, beta, dyy_shapelets, precalc=False)
-            f_xy = self._shapeletOutput(x, y, beta, dxy_shapelets, precalc=False)
+            f_xx = self._shapeletOutput(
+                x - center_x, y - center_y, beta, dxx_shapelets, precalc=False
+            )
+            f_yy = self._shapeletOutput(
+                x - center_x, y - center_y, beta, dyy_shapelets, precalc=False
+            )
+            f_xy = self._shapeletOutput(
+                x - center_x, y - center_y, beta, dxy_shapelets, precalc=False
+            )
         else:
             H_x, H_y = self.pre_calc(x, y, beta, n_order + 2, center_x, center_y)
             f_xx = self._shapeletOutput(H_x, H_y, beta, dxx_shapelets)
-- 
2.43.0


From f68c085ee3a1268be1281848781cfb583c31e21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:25 +0000
Subject: [PATCH 012/161] fix: CNFW convergence is accurate at r = Rs

---
 lenstronomy/LensModel/Profiles/cnfw.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/cnfw.py b/lenstronomy/LensModel/Profiles/cnfw.py
index aee722f..f4a76bc 100644
--- a/lenstronomy/LensModel/Profiles/cnfw.py
+++ b/lenstronomy/LensModel/Profiles/cnfw.py
@@ -295,7 +295,8 @@ class CNFW(LensProfileBase):
         prefac = (b - 1) ** -2
 
         if isinstance(X, np.ndarray):
-            X[np.where(X == 1)] = 1 - c
+            # closed form cancels at X = 1
+            X = np.where(np.absolute(X - 1) < 1e-6, 1 - 1e-6, X)
 
             output = np.empty_like(X)
 
@@ -313,8 +314,8 @@ class CNFW(LensProfileBase):
             )
 
         else:
-            if X == 1:
-                X = 1 - c
+            if np.absolute(X - 1) < 1e-6:
+                X = 1 - 1e-6
 
             if np.absolute(X - b) < c:
                 output = (
-- 
2.43.0


From fa13039d742153745ad5588ec6177cd711b91712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:31 +0000
Subject: [PATCH 013/161] fix: INTERPOL do_interp orders the table axes like
 the evaluation (y, x)

---
 lenstronomy/LensModel/Profiles/interpol.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/interpol.py b/lenstronomy/LensModel/Profiles/interpol.py
index e00e295..f3be1b3 100644
--- a/lenstronomy/LensModel/Profiles/interpol.py
+++ b/lenstronomy/LensModel/Profiles/interpol.py
@@ -327,25 +327,25 @@ class Interpol(LensProfileBase):
 
     def do_interp(self, x_grid, y_grid, f_, f_x, f_y, f_xx=None, f_yy=None, f_xy=None):
         self._f_interp = scipy.interpolate.RectBivariateSpline(
-            x_grid, y_grid, f_, **self._kwargs_spline
+            y_grid, x_grid, f_, **self._kwargs_spline
         )
         self._f_x_interp = scipy.interpolate.RectBivariateSpline(
-            x_grid, y_grid, f_x, **self._kwargs_spline
+            y_grid, x_grid, f_x, **self._kwargs_spline
         )
         self._f_y_interp = scipy.interpolate.RectBivariateSpline(
-            x_grid, y_grid, f_y, **self._kwargs_spline
+            y_grid, x_grid, f_y, **self._kwargs_spline
         )
         if f_xx is not None:
             self._f_xx_interp = scipy.interpolate.RectBivariateSpline(
-                x_grid, y_grid, f_xx, **self._kwargs_spline
+                y_grid, x_grid, f_xx, **self._kwargs_spline
             )
         if f_xy is not None:
             self._f_xy_interp = scipy.interpolate.RectBivariateSpline(
-                x_grid, y_grid, f_xy, **self._kwargs_spline
+                y_grid, x_grid, f_xy, **self._kwargs_spline
             )
         if f_yy is not None:
             self._f_yy_interp = scipy.interpolate.RectBivariateSpline(
-                x_grid, y_grid, f_yy, **self._kwargs_spline
+                y_grid, x_grid, f_yy, **self._kwargs_spline
             )
 
 
-- 
2.43.0


From 3d8a1a8a018a136822e97eaec253bb3a0fbb8fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:31 +0000
Subject: [PATCH 014/161] fix: RADIAL_INTERPOL set_dynamic drops every cached
 table

---
 lenstronomy/LensModel/Profiles/radial_interpolated.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Profiles/radial_interpolated.py b/lenstronomy/LensModel/Profiles/radial_interpolated.py
index af2f4d8..de921de 100644
--- a/lenstronomy/LensModel/Profiles/radial_interpolated.py
+++ b/lenstronomy/LensModel/Profiles/radial_interpolated.py
@@ -105,7 +105,7 @@ class RadialInterpolate(LensProfileBase):
         kappa = self._kappa_r_interp(r, r_bin, kappa_r)
         # shear in the spherical case is the average convergence enclosed minus the convergence at the radius
         # source: Kaiser 1995
-        gamma = 1 * (self._mass_enclosed(r, r_bin, kappa) / (np.pi * r**2) - kappa)
+        gamma = 1 * (self._mass_enclosed(r, r_bin, kappa_r) / (np.pi * r**2) - kappa)
         # turn in to vector for gamma and cartesian derivatives
         gamma1 = -np.cos(2.0 * phi) * gamma
         gamma2 = -np.sin(2.0 * phi) * gamma
@@ -245,6 +245,8 @@ class RadialInterpolate(LensProfileBase):
 
         :return: no return, deletes pre-computed variables for certain lens models
         """
+        if hasattr(self, "_interp_m_enclosed"):
+            del self._interp_m_enclosed
         if hasattr(self, "_interp_m_enclosed_over_r"):
             del self._interp_m_enclosed_over_r
         if hasattr(self, "_interp_kappa"):
-- 
2.43.0


From 6316c8d0490091775b40d6874c064b9e40520838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:30 +0000
Subject: [PATCH 015/161] fix: INTERPOL_SCALED scales the mixed Hessian terms
 once

---
 lenstronomy/LensModel/Profiles/interpol.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/interpol.py b/lenstronomy/LensModel/Profiles/interpol.py
index f3be1b3..3dbf95a 100644
--- a/lenstronomy/LensModel/Profiles/interpol.py
+++ b/lenstronomy/LensModel/Profiles/interpol.py
@@ -486,8 +486,9 @@ class InterpolScaled(LensProfileBase):
         f_xx_out, f_xy_out, f_yx_out, f_yy_out = self.interp_func.hessian(
             x, y, grid_interp_x, grid_interp_y, f_, f_x, f_y, f_xx, f_yy, f_xy
         )
-        f_xx_out *= scale_factor
-        f_yy_out *= scale_factor
-        f_xy_out *= scale_factor
-        f_yx_out *= scale_factor
+        # f_xy and f_yx can be the same array, they must not be scaled in place
+        f_xx_out = f_xx_out * scale_factor
+        f_yy_out = f_yy_out * scale_factor
+        f_xy_out = f_xy_out * scale_factor
+        f_yx_out = f_yx_out * scale_factor
         return f_xx_out, f_xy_out, f_yx_out, f_yy_out
-- 
2.43.0


From c7b7fbb5dc62ee6dfcc4cfc2dbeff520a99320d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:22 +0000
Subject: [PATCH 016/161] fix: NFW and HERNQUIST deflections keep their
 accuracy at very small radii

---
 lenstronomy/LensModel/Profiles/hernquist.py |  4 +++-
 lenstronomy/LensModel/Profiles/nfw.py       | 16 +++++++++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/hernquist.py b/lenstronomy/LensModel/Profiles/hernquist.py
index 0418e69..b69d8c9 100644
--- a/lenstronomy/LensModel/Profiles/hernquist.py
+++ b/lenstronomy/LensModel/Profiles/hernquist.py
@@ -270,7 +270,9 @@ class Hernquist(LensProfileBase):
         series = 1.0 / 3 - u / 5 + u**2 / 7 - u**3 / 9 + u**4 / 11
         if isinstance(X, int) or isinstance(X, float):
             return series if near else (1 - self._F(X)) / u
-        return np.where(near, series, (1 - self._F(X)) / np.where(near, 1.0, u))
+        # _F() clips its argument in place
+        F = self._F(np.array(X))
+        return np.where(near, series, (1 - F) / np.where(near, 1.0, u))
 
     def _F(self, X):
         """
diff --git a/lenstronomy/LensModel/Profiles/nfw.py b/lenstronomy/LensModel/Profiles/nfw.py
index 124d132..351725f 100644
--- a/lenstronomy/LensModel/Profiles/nfw.py
+++ b/lenstronomy/LensModel/Profiles/nfw.py
@@ -428,9 +428,12 @@ class NFW(LensProfileBase):
         if isinstance(X, int) or isinstance(X, float):
             if X < 1:
                 x = max(c, X)
-                a = np.log(x / 2.0) + 2 / np.sqrt((1 - x) * (1 + x)) * np.arctanh(
-                    np.sqrt((1 - x) / (1 + x))
-                )
+                # arccosh(1/x), in the form accurate at small x and close to x = 1
+                if x < 0.5:
+                    u = np.arccosh(1.0 / x)
+                else:
+                    u = 2 * np.arctanh(np.sqrt((1 - x) / (1 + x)))
+                a = np.log(x / 2.0) + u / np.sqrt((1 - x) * (1 + x))
             elif X == 1:
                 a = 1 + np.log(1.0 / 2.0)
             else:  # X > 1:
@@ -442,9 +445,12 @@ class NFW(LensProfileBase):
             a = np.empty_like(X)
             X[X <= c] = c
             x = X[X < 1]
-            a[X < 1] = np.log(x / 2.0) + 2 / np.sqrt((1 - x) * (1 + x)) * np.arctanh(
-                np.sqrt((1 - x) / (1 + x))
+            u = np.where(
+                x < 0.5,
+                np.arccosh(1.0 / x),
+                2 * np.arctanh(np.sqrt((1 - x) / (1 + x))),
             )
+            a[X < 1] = np.log(x / 2.0) + u / np.sqrt((1 - x) * (1 + x))
             a[X == 1] = 1 + np.log(1.0 / 2.0)
             x = X[X > 1]
             a[X > 1] = np.log(x / 2) + 2 / np.sqrt((x - 1) * (x + 1)) * np.arctan(
-- 
2.43.0


From c67a00f9fb96149bbc3bede6fa79ce2100b75d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:56 +0000
Subject: [PATCH 017/161] fix: hyper2F2_array returns a float for a single
 value

---
 lenstronomy/Util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/util.py b/lenstronomy/Util/util.py
index 45d6ada..3511cc6 100644
--- a/lenstronomy/Util/util.py
+++ b/lenstronomy/Util/util.py
@@ -679,7 +679,7 @@ def hyper2F2_array(a, b, c, d, x):
     import mpmath
 
     if isinstance(x, int) or isinstance(x, float):
-        out = mpmath.hyp2f2(a, b, c, d, x)
+        out = float(mpmath.hyp2f2(a, b, c, d, x))
     else:
         n = len(x)
         out = np.zeros(n)
-- 
2.43.0


From c7c0c940f9e6b1efa2fd0c8483cfeeed31303c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:04 +0000
Subject: [PATCH 018/161] fix: selecting one lens component by its index keeps
 the redshift scaling and the input shape

---
 lenstronomy/LensModel/single_plane.py | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/lenstronomy/LensModel/single_plane.py b/lenstronomy/LensModel/single_plane.py
index 81aa8a6..3479b8b 100644
--- a/lenstronomy/LensModel/single_plane.py
+++ b/lenstronomy/LensModel/single_plane.py
@@ -92,8 +92,6 @@ class SinglePlane(ProfileListBase):
         y = np.array(y, dtype=float)
 
         # NOTE: jax arrays are converted back into regular numpy arrays in cases where use_jax is True.
-        if isinstance(k, int):
-            return np.asarray(self.func_list[k].function(x, y, **kwargs[k]))
         bool_list = self._bool_list(k)
         potential = np.zeros_like(x)
         for i, func in enumerate(self.func_list):
@@ -116,9 +114,6 @@ class SinglePlane(ProfileListBase):
         x = np.array(x, dtype=float)
         y = np.array(y, dtype=float)
         # NOTE: jax arrays are converted back into regular numpy arrays in cases where use_jax is True.
-        if isinstance(k, int):
-            f_x, f_y = self.func_list[k].derivatives(x, y, **kwargs[k])
-            return np.asarray(f_x), np.asarray(f_y)
         bool_list = self._bool_list(k)
         f_x, f_y = np.zeros_like(x), np.zeros_like(x)
         for i, func in enumerate(self.func_list):
@@ -148,15 +143,6 @@ class SinglePlane(ProfileListBase):
         y = np.array(y, dtype=float)
 
         # NOTE: jax arrays are converted back into regular numpy arrays in cases where use_jax is True.
-        if isinstance(k, int):
-            f_xx, f_xy, f_yx, f_yy = self.func_list[k].hessian(x, y, **kwargs[k])
-            return (
-                np.asarray(f_xx),
-                np.asarray(f_xy),
-                np.asarray(f_yx),
-                np.asarray(f_yy),
-            )
-
         bool_list = self._bool_list(k)
         f_xx, f_xy, f_yx, f_yy = (
             np.zeros_like(x),
-- 
2.43.0


From d4525c0e7c911761a1182b939032ce811a38025f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:48 +0000
Subject: [PATCH 019/161] fix: CURVED_ARC_CONST evaluates single positions
 given as numpy scalars and is zero outside its curvature radius on both sides

---
 lenstronomy/LensModel/Profiles/curved_arc_const.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/curved_arc_const.py b/lenstronomy/LensModel/Profiles/curved_arc_const.py
index 3a22d3e..7bfc38b 100644
--- a/lenstronomy/LensModel/Profiles/curved_arc_const.py
+++ b/lenstronomy/LensModel/Profiles/curved_arc_const.py
@@ -230,7 +230,7 @@ class CurvedArcConst(LensProfileBase):
         # evaluate
 
         # move x-coordinate to circle intercept with x-axis
-        if isinstance(x, int) or isinstance(x, float):
+        if np.ndim(y__) == 0:
             if abs(y__) > r:
                 f__x, f__y = 0, 0
             else:
@@ -238,10 +238,10 @@ class CurvedArcConst(LensProfileBase):
 
         else:
             f__x, f__y = np.zeros_like(x__), np.zeros_like(y__)
-            _y__ = y__[y__ <= r]
-            _f__x, _f__y = self._deflection(_y__, r, tangential_stretch)
-            f__x[y__ <= r] = _f__x
-            f__y[y__ <= r] = _f__y
+            inside = np.abs(y__) <= r
+            _f__x, _f__y = self._deflection(y__[inside], r, tangential_stretch)
+            f__x[inside] = _f__x
+            f__y[inside] = _f__y
 
         # rotate back
         f_x, f_y = util.rotate(f__x, f__y, -direction)
-- 
2.43.0


From 1ee1ace2c06e11b7ab4950eb5ae07abb399cc879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:11 +0000
Subject: [PATCH 020/161] fix: hessian_z1z2 starts the ray at the given y
 coordinate

---
 lenstronomy/LensModel/MultiPlane/multi_plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/MultiPlane/multi_plane.py b/lenstronomy/LensModel/MultiPlane/multi_plane.py
index 626d520..ee3efb6 100644
--- a/lenstronomy/LensModel/MultiPlane/multi_plane.py
+++ b/lenstronomy/LensModel/MultiPlane/multi_plane.py
@@ -586,7 +586,7 @@ class MultiPlane(object):
 
         T_0z1 = self._multi_plane_base._cosmo_bkg.T_xy(0, z1)
         x = theta_x * T_0z1
-        y = theta_x * T_0z1
+        y = theta_y * T_0z1
         x_s0, y_s0, _, _ = self.ray_shooting_partial_comoving(
             x=x,
             y=y,
-- 
2.43.0


From 9b97e5e1d6c483de570a7eaac8eb9052819493f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:11 +0000
Subject: [PATCH 021/161] fix: observed position convention uses the distance
 of its own plane for unsorted redshift lists

---
 lenstronomy/LensModel/MultiPlane/multi_plane.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/MultiPlane/multi_plane.py b/lenstronomy/LensModel/MultiPlane/multi_plane.py
index ee3efb6..d71ce0e 100644
--- a/lenstronomy/LensModel/MultiPlane/multi_plane.py
+++ b/lenstronomy/LensModel/MultiPlane/multi_plane.py
@@ -766,7 +766,9 @@ class LensedLocation(object):
                 T_ij_end=None,
             )
 
-            T = self._multiplane.T_z_list[ind]
+            # T_z_list is ordered by redshift
+            index = list(self._multiplane.sorted_redshift_index).index(ind)
+            T = self._multiplane.T_z_list[index]
             new_kwargs[ind]["center_x"] = x / T
             new_kwargs[ind]["center_y"] = y / T
 
-- 
2.43.0


From ef736362535254902cfe8f9a6e477ec86cd58298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:54 +0000
Subject: [PATCH 022/161] fix: multi-plane geometric delay uses the last plane
 in front of the source

---
 lenstronomy/LensModel/MultiPlane/multi_plane_base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/MultiPlane/multi_plane_base.py b/lenstronomy/LensModel/MultiPlane/multi_plane_base.py
index deb1c8f..390cd2e 100644
--- a/lenstronomy/LensModel/MultiPlane/multi_plane_base.py
+++ b/lenstronomy/LensModel/MultiPlane/multi_plane_base.py
@@ -353,11 +353,12 @@ class MultiPlaneBase(ProfileListBase):
 
         # NOTE: jax arrays are converted back into regular numpy arrays in cases where use_jax is True.
 
-        i = 0
+        i_last = None
         z_lens_last = 0
         for i, index in enumerate(self._sorted_redshift_index):
             z_lens = self._lens_redshift_list[index]
             if z_lens <= z_stop:
+                i_last = i
                 T_ij = self._T_ij_list[i]
                 x_new, y_new = self._ray_step(x, y, alpha_x, alpha_y, T_ij)
                 if i == 0:
@@ -382,11 +383,14 @@ class MultiPlaneBase(ProfileListBase):
         if T_ij_end is None:
             T_ij_end = self._cosmo_bkg.T_xy(z_lens_last, z_stop)
         T_ij = T_ij_end
+        if i_last is None or T_ij == 0:
+            # no deflector in front of z_stop, or the last one is in the plane of z_stop
+            return np.asarray(dt_geo), np.asarray(dt_grav)
         x_new, y_new = self._ray_step(x, y, alpha_x, alpha_y, T_ij)
         if T_z_stop is None:
             T_z_stop = self._cosmo_bkg.T_xy(0, z_stop)
         T_j = T_z_stop
-        T_i = self._T_z_list[i]
+        T_i = self._T_z_list[i_last]
         beta_i_x, beta_i_y = x / T_i, y / T_i
         beta_j_x, beta_j_y = x_new / T_j, y_new / T_j
         dt_geo_new = self._geometrical_delay(
-- 
2.43.0


From 54ade4164a840de975d799d2adbea5c9c8cd5e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:09 +0000
Subject: [PATCH 023/161] fix: potential with line-of-sight effects is that of
 the main lens wherever the line-of-sight entry is listed

---
 lenstronomy/LensModel/LineOfSight/single_plane_los.py         | 3 ++-
 lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/LineOfSight/single_plane_los.py b/lenstronomy/LensModel/LineOfSight/single_plane_los.py
index 44ad5af..a082693 100644
--- a/lenstronomy/LensModel/LineOfSight/single_plane_los.py
+++ b/lenstronomy/LensModel/LineOfSight/single_plane_los.py
@@ -400,6 +400,7 @@ class SinglePlaneLOS(SinglePlane):
               derive from a potential.")
 
         # kwargs_main, kwargs_los = self.split_lens_los(kwargs)
-        potential = self._main_lens.potential(x, y, kwargs, k=k)
+        kwargs_main, _ = self.split_lens_los(kwargs)
+        potential = self._main_lens.potential(x, y, kwargs_main, k=k)
 
         return potential
diff --git a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
index b2c9092..b227f10 100644
--- a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
+++ b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
@@ -595,6 +595,7 @@ class SinglePlaneLOSFlexion(SinglePlane):
               derive from a potential.")
 
         # kwargs_main, kwargs_los = self.split_lens_los(kwargs)
-        potential = self._main_lens.potential(x, y, kwargs, k=k)
+        kwargs_main, _ = self.split_lens_los_flexion(kwargs)
+        potential = self._main_lens.potential(x, y, kwargs_main, k=k)
 
         return potential
-- 
2.43.0


From f862fc90c6315e14d595227cd86b478838520aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:09 +0000
Subject: [PATCH 024/161] fix: main lens of the line-of-sight flexion model
 gets its own redshifts

---
 lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
index b227f10..697b5a5 100644
--- a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
+++ b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
@@ -76,7 +76,7 @@ class SinglePlaneLOSFlexion(SinglePlane):
         self._main_lens = SinglePlane(
             lens_model_list_wo_los,
             profile_kwargs_list=profile_kwargs_list_wo_los,
-            lens_redshift_list=lens_redshift_list,
+            lens_redshift_list=lens_redshift_list_wo_los,
             z_source_convention=z_source_convention,
         )
 
-- 
2.43.0


From ce73cd04bfa9165618beac8f4039cf23b7dbdbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:04 +0000
Subject: [PATCH 025/161] fix: Hessian of the line-of-sight flexion model
 contains the rotation of its deflection

---
 lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
index 697b5a5..643e678 100644
--- a/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
+++ b/lenstronomy/LensModel/LineOfSight/single_plane_los_flexion.py
@@ -511,8 +511,8 @@ class SinglePlaneLOSFlexion(SinglePlane):
 
         # LOS contribution in the absence of the main lens
         f_xx += kappa_os + gamma1_os
-        f_xy += gamma2_os
-        f_yx += gamma2_os
+        f_xy += gamma2_os - kwargs_los_flexion["omega_os"]
+        f_yx += gamma2_os + kwargs_los_flexion["omega_os"]
         f_yy += kappa_os - gamma1_os
 
         return f_xx.real, f_xy.real, f_yx.real, f_yy.real
-- 
2.43.0


From fc4211f46316724081b6b9bba8da027b558344fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:38 +0000
Subject: [PATCH 026/161] fix: lens equation solver leaves the lens model
 dynamic when there is no candidate image

---
 lenstronomy/LensModel/Solver/lens_equation_solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LensModel/Solver/lens_equation_solver.py b/lenstronomy/LensModel/Solver/lens_equation_solver.py
index f0e2651..d05397f 100644
--- a/lenstronomy/LensModel/Solver/lens_equation_solver.py
+++ b/lenstronomy/LensModel/Solver/lens_equation_solver.py
@@ -345,6 +345,7 @@ class LensEquationSolver(object):
                 "coordinates %s and %s " % (len(x_mins), x_mins, y_mins)
             )
         if len(x_mins) < 1:
+            self.lensModel.set_dynamic()
             return x_mins, y_mins
         if initial_guess_cut:
             mag = np.abs(self.lensModel.magnification(x_mins, y_mins, kwargs_lens))
-- 
2.43.0


From 1636095d2089e31797f2b900fbc153ebfc53bf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:28 +0000
Subject: [PATCH 027/161] fix: analytical lens equation solver maps the source
 for an offset mass sheet at any list position

---
 .../LensModel/Solver/lens_equation_solver.py  | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/lenstronomy/LensModel/Solver/lens_equation_solver.py b/lenstronomy/LensModel/Solver/lens_equation_solver.py
index d05397f..f434d9f 100644
--- a/lenstronomy/LensModel/Solver/lens_equation_solver.py
+++ b/lenstronomy/LensModel/Solver/lens_equation_solver.py
@@ -195,28 +195,27 @@ class LensEquationSolver(object):
             index_convergence = lens_model_list.index("CONVERGENCE")
 
             # MST in source position and Einstein radius
-            kappa = kwargs_lens_[index_convergence]["kappa"] * alpha_scaling
-            ra0 = kwargs_lens_[index_convergence].get("ra_0", 0)
-            dec0 = kwargs_lens_[index_convergence].get("dec_0", 0)
+            # removing of kwargs_lens of "CONVERGENCE" profile
+            kwargs_convergence = kwargs_lens_.pop(index_convergence)
+            lens_model_list.pop(index_convergence)
+            kappa = kwargs_convergence["kappa"] * alpha_scaling
+            ra0 = kwargs_convergence.get("ra_0", 0)
+            dec0 = kwargs_convergence.get("dec_0", 0)
             lambda_mst = (
                 1 - kappa
             )  # a mass sheet that compensates the convergence field
             # source position mapping
-            x_ = (x - ra0) / lambda_mst
-            y_ = (y - dec0) / lambda_mst
+            x_ = (x - kappa * ra0) / lambda_mst
+            y_ = (y - kappa * dec0) / lambda_mst
             # lens mapping
             # power-law scaling with mst
             # alpha = theta_E * (r2 / theta_E**2) ** (1 - gamma / 2.0)
-            gamma = kwargs_lens[0]["gamma"] if "gamma" in kwargs_lens[0] else 2
+            gamma = kwargs_lens_[0].get("gamma", 2)
 
             kwargs_lens_[0]["theta_E"] /= lambda_mst ** (1.0 / (gamma - 1))
             if "SHEAR" in lens_model_list:
                 kwargs_lens_[1]["gamma1"] /= lambda_mst
                 kwargs_lens_[1]["gamma2"] /= lambda_mst
-
-            # removing of kwargs_lens of "CONVERGENCE" profile
-            kwargs_lens_.pop(index_convergence)
-            lens_model_list.pop(index_convergence)
         else:
             kwargs_lens_ = copy.deepcopy(kwargs_lens)
             x_, y_ = x, y
@@ -228,7 +227,7 @@ class LensEquationSolver(object):
 
         # re-scale solutions if source redshift has changed (i.e. alpha_scaling != 1)
 
-        gamma = kwargs_lens[0]["gamma"] if "gamma" in kwargs_lens[0] else 2
+        gamma = kwargs_lens_[0].get("gamma", 2)
         kwargs_lens_[0]["theta_E"] *= alpha_scaling ** (1.0 / (gamma - 1))
         if "SHEAR" in lens_model_list:
             kwargs_lens_[1]["gamma1"] *= alpha_scaling
-- 
2.43.0


From a1ed34d5165f584a57831300b61fdec390294266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:07 +0000
Subject: [PATCH 028/161] fix: EPL+SHEAR caustics of an off-centre lens include
 the shear displacement of the centre

---
 lenstronomy/LensModel/Solver/epl_shear_solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lenstronomy/LensModel/Solver/epl_shear_solver.py b/lenstronomy/LensModel/Solver/epl_shear_solver.py
index 5f2ffb3..8d1f31d 100644
--- a/lenstronomy/LensModel/Solver/epl_shear_solver.py
+++ b/lenstronomy/LensModel/Solver/epl_shear_solver.py
@@ -344,6 +344,9 @@ def caustics_epl_shear(
     cen = np.expand_dims(
         np.array([kwargs_lens[0]["center_x"], kwargs_lens[0]["center_y"]]), 1
     )
+    if sourceplane:
+        # displacement in the source plane by the shear field at the lens center
+        cen = cen - np.expand_dims(np.array(_check_center(kwargs_lens)), 1)
     theta_gamma -= theta_ell
     gamma1, gamma2 = shear_polar2cartesian(theta_gamma, gamma_mag)
     M = rotmat(-theta_ell)
-- 
2.43.0


From a8d655b0ac6250cdcc84155f09d4ebebe0c9614d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:09 +0000
Subject: [PATCH 029/161] fix: EPL+SHEAR cut and double-image region of an
 isothermal lens

---
 lenstronomy/LensModel/Solver/epl_shear_solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lenstronomy/LensModel/Solver/epl_shear_solver.py b/lenstronomy/LensModel/Solver/epl_shear_solver.py
index 8d1f31d..92c3023 100644
--- a/lenstronomy/LensModel/Solver/epl_shear_solver.py
+++ b/lenstronomy/LensModel/Solver/epl_shear_solver.py
@@ -382,6 +382,9 @@ def caustics_epl_shear(
     ):  # If t>1, get the approximate outer caustic instead (where inverse magnification = maginf).
         usol = np.array(solvequadeq(cc, bb, aa - maginf)).T
         xcr_cut, ycr_cut = pol_to_cart(b * usol[:, 1] ** (-1 / t) * frac_roverR, theta)
+    elif t == 1:
+        # isothermal: the outer critical curve is the center, where the deflection depends on the direction only
+        xcr_cut, ycr_cut = pol_to_cart(1e-12 * b * frac_roverR, theta)
     else:
         usol = np.array(solvequadeq(cc, bb, aa + maginf)).T
         xcr_cut, ycr_cut = pol_to_cart(b * usol[:, 0] ** (-1 / t) * frac_roverR, theta)
-- 
2.43.0


From 63d06e10a9cd0b35609e8fcd75ce1cea7db8ff2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:10 +0000
Subject: [PATCH 030/161] fix: CNFW convergence is not held constant around the
 core radius

---
 lenstronomy/LensModel/Profiles/cnfw.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/cnfw.py b/lenstronomy/LensModel/Profiles/cnfw.py
index f4a76bc..e6e0754 100644
--- a/lenstronomy/LensModel/Profiles/cnfw.py
+++ b/lenstronomy/LensModel/Profiles/cnfw.py
@@ -300,12 +300,12 @@ class CNFW(LensProfileBase):
 
             output = np.empty_like(X)
 
-            inds1 = np.where(np.absolute(X - b) < c)
+            inds1 = np.where(X == b)
             output[inds1] = (
                 prefac * (-2 - b + (1 + b + b**2) * self._nfw_func(b)) * (1 + b) ** -1
             )
 
-            inds2 = np.where(np.absolute(X - b) >= c)
+            inds2 = np.where(X != b)
 
             output[inds2] = prefac * (
                 (X[inds2] ** 2 - 1) ** -1
@@ -317,7 +317,7 @@ class CNFW(LensProfileBase):
             if np.absolute(X - 1) < 1e-6:
                 X = 1 - 1e-6
 
-            if np.absolute(X - b) < c:
+            if X == b:
                 output = (
                     prefac
                     * (-2 - b + (1 + b + b**2) * self._nfw_func(b))
-- 
2.43.0


From 866f39f0e4542a2e814ac2956977f4847661a303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:43 +0000
Subject: [PATCH 031/161] fix: LINEAR light profiles evaluate single positions

---
 lenstronomy/LightModel/Profiles/linear.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lenstronomy/LightModel/Profiles/linear.py b/lenstronomy/LightModel/Profiles/linear.py
index 660ea77..f8bf43f 100644
--- a/lenstronomy/LightModel/Profiles/linear.py
+++ b/lenstronomy/LightModel/Profiles/linear.py
@@ -41,8 +41,7 @@ class Linear(object):
         """
         dis = np.sqrt((x - center_x) ** 2 + (y - center_y) ** 2)
         f = amp * (k / amp * dis + 1)
-        f[f < 0] = 0
-        return f
+        return np.maximum(f, 0)
 
     def total_flux(self, amp, k, center_x=0, center_y=0):
         """Integrated flux of the profile.
-- 
2.43.0


From ad283afc2ac7424ef577489681ca7cd9c5256a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:43 +0000
Subject: [PATCH 032/161] fix: number of linear parameters of
 SERSIC_ELLIPSE_Q_PHI

---
 lenstronomy/LightModel/linear_basis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LightModel/linear_basis.py b/lenstronomy/LightModel/linear_basis.py
index 8e65696..2c5fd52 100644
--- a/lenstronomy/LightModel/linear_basis.py
+++ b/lenstronomy/LightModel/linear_basis.py
@@ -142,6 +142,7 @@ class LinearBasis(LightModelBase):
                 "SERSIC",
                 "SERSIC_ELLIPSE",
                 "SERSIC_ELLIPSE_FLEXION",
+                "SERSIC_ELLIPSE_Q_PHI",
                 "TRIPLE_CHAMELEON",
                 "UNIFORM",
             ]:
-- 
2.43.0


From 6cc02b5a7b98def2afe3a309d4d76b31a3ad2703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:48 +0000
Subject: [PATCH 033/161] fix: HERNQUIST projected density is accurate at r =
 Rs

---
 lenstronomy/LensModel/Profiles/hernquist.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/hernquist.py b/lenstronomy/LensModel/Profiles/hernquist.py
index b69d8c9..967c4ac 100644
--- a/lenstronomy/LensModel/Profiles/hernquist.py
+++ b/lenstronomy/LensModel/Profiles/hernquist.py
@@ -86,13 +86,12 @@ class Hernquist(LensProfileBase):
         r = np.sqrt(x_**2 + y_**2)
         X = r / Rs
         sigma0 = self.rho2sigma(rho0, Rs)
-        if isinstance(X, int) or isinstance(X, float):
-            if X == 1:
-                X = 1.000001
-        else:
-            X[X == 1] = 1.000001
-        sigma = sigma0 / (X**2 - 1) ** 2 * (-3 + (2 + X**2) * self._F(X))
-        return sigma
+        # the closed form cancels at X = 1, where its series is used instead
+        u = X**2 - 1
+        near = np.abs(u) < 1e-3
+        series = 4.0 / 15 - 8 * u / 35 + 4 * u**2 / 21 - 16 * u**3 / 99
+        closed = (-3 + (2 + X**2) * self._F(X)) / np.where(near, 1.0, u) ** 2
+        return sigma0 * np.where(near, series, closed)
 
     @staticmethod
     def mass_3d(r, rho0, Rs):
-- 
2.43.0


From ba615f0cd37486d868b5d4a703d961c19f024a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:34 +0000
Subject: [PATCH 034/161] fix: update_data rejects an image that differs in one
 axis only

---
 lenstronomy/Data/imaging_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Data/imaging_data.py b/lenstronomy/Data/imaging_data.py
index 88a2ff3..fd6a5b6 100644
--- a/lenstronomy/Data/imaging_data.py
+++ b/lenstronomy/Data/imaging_data.py
@@ -142,7 +142,7 @@ class ImageData(PixelGrid, ImageNoise, AngularSensitivity):
         :return: None
         """
         ny, nx = np.shape(image_data)
-        if not self._nx == nx and not self._ny == ny:
+        if not self._nx == nx or not self._ny == ny:
             raise ValueError(
                 "shape of new data %s %s must equal old data %s %s!"
                 % (nx, ny, self._nx, self._ny)
-- 
2.43.0


From 350bfaac8e5144539ce981d7814024ce2cccca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:34 +0000
Subject: [PATCH 035/161] fix: primary beam of a non-square image is compared
 in the same axis order

---
 lenstronomy/Data/imaging_data.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lenstronomy/Data/imaging_data.py b/lenstronomy/Data/imaging_data.py
index fd6a5b6..b22ff7b 100644
--- a/lenstronomy/Data/imaging_data.py
+++ b/lenstronomy/Data/imaging_data.py
@@ -116,8 +116,7 @@ class ImageData(PixelGrid, ImageNoise, AngularSensitivity):
             flux_scaling=flux_scaling,
         )
         if antenna_primary_beam is not None:
-            pbx, pby = np.shape(antenna_primary_beam)
-            if (pbx, pby) != (nx, ny):
+            if np.shape(antenna_primary_beam) != (ny, nx):
                 raise ValueError(
                     "The primary beam should have the same size with the image data!"
                 )
-- 
2.43.0


From 19ea32a43e7db4b084e3f13bb521b917a4417df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:34 +0000
Subject: [PATCH 036/161] fix: ImageNoise does not modify the exposure map
 passed by the user

---
 lenstronomy/Data/image_noise.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lenstronomy/Data/image_noise.py b/lenstronomy/Data/image_noise.py
index a0ef6a8..1cc5a91 100644
--- a/lenstronomy/Data/image_noise.py
+++ b/lenstronomy/Data/image_noise.py
@@ -38,11 +38,7 @@ class ImageNoise(object):
         """
         if exposure_time is not None:
             # make sure no negative exposure values are present no dividing by zero
-            if isinstance(exposure_time, int) or isinstance(exposure_time, float):
-                if exposure_time <= 10 ** (-10):
-                    exposure_time = 10 ** (-10)
-            else:
-                exposure_time[exposure_time <= 10 ** (-10)] = 10 ** (-10)
+            exposure_time = np.maximum(exposure_time, 10 ** (-10))
         self._exp_map = exposure_time
         self._background_rms = background_rms
         self._noise_map = noise_map
-- 
2.43.0


From 713e36afce24b88b3c03d6d72abc268d0ba46ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:34 +0000
Subject: [PATCH 037/161] fix: shift_coordinate_system of PixelGrid moves the
 pixel coordinates

---
 lenstronomy/Data/pixel_grid.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lenstronomy/Data/pixel_grid.py b/lenstronomy/Data/pixel_grid.py
index d36b7c2..80deaab 100644
--- a/lenstronomy/Data/pixel_grid.py
+++ b/lenstronomy/Data/pixel_grid.py
@@ -53,6 +53,16 @@ class PixelGrid(Coordinates):
             self._x_grid, self._y_grid = self.coordinate_grid(self._nx, self._ny)
         return updated_bool
 
+    def shift_coordinate_system(self, x_shift, y_shift, pixel_unit=False):
+        """Shifts the coordinate system (and the pixel coordinates with it).
+
+        :param x_shift: shift in x (or RA)
+        :param y_shift: shift in y (or DEC)
+        :param pixel_unit: bool, if True, units of pixels in input, otherwise RA/DEC
+        """
+        Coordinates.shift_coordinate_system(self, x_shift, y_shift, pixel_unit)
+        self._x_grid, self._y_grid = self.coordinate_grid(self._nx, self._ny)
+
     @property
     def num_pixel(self):
         """
-- 
2.43.0


From 1b44d267bebb04376632ae1d9a9382d8fc9480ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:34 +0000
Subject: [PATCH 038/161] fix: make_grid with left_lower places sub-pixels
 inside their pixels

---
 lenstronomy/Util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/util.py b/lenstronomy/Util/util.py
index 3511cc6..86a1a86 100644
--- a/lenstronomy/Util/util.py
+++ b/lenstronomy/Util/util.py
@@ -222,7 +222,7 @@ def make_grid(num_pix, delta_pix, subgrid_res=1, left_lower=False):
     if left_lower is True:
         # Shift so (0, 0) is in the "lower left"
         # Note this does not shift when subgrid_res = 1
-        shift = -1.0 / 2 + 1.0 / (2 * subgrid_res) * np.array([1, 1])
+        shift = delta_pix * (1.0 / 2 - 1.0 / (2 * subgrid_res)) * np.array([1, 1])
     else:
         # Shift so (0, 0) is centered
         shift = delta_pix_eff * (num_pix_eff - 1) / 2
-- 
2.43.0


From 6096337c72f598902ebc549ad1d542bbabacd3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:34 +0000
Subject: [PATCH 039/161] fix: make_grid_with_coordtransform is centered for
 subgrid_res > 1

---
 lenstronomy/Util/util.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lenstronomy/Util/util.py b/lenstronomy/Util/util.py
index 86a1a86..b37eb39 100644
--- a/lenstronomy/Util/util.py
+++ b/lenstronomy/Util/util.py
@@ -301,14 +301,15 @@ def make_grid_with_coordtransform(
     else:
         delta_x = delta_pix_eff
     if left_lower is True:
-        ra_grid = matrix[:, 0] * delta_x
-        dec_grid = matrix[:, 1] * delta_pix_eff
+        # the first pixel is centered at (0, 0), its first sub-pixel is off-centered
+        shift = (subgrid_res - 1) / 2.0
+        ra_grid = (matrix[:, 0] - shift) * delta_x
+        dec_grid = (matrix[:, 1] - shift) * delta_pix_eff
     else:
         ra_grid = (matrix[:, 0] - (num_pix_eff - 1) / 2.0) * delta_x
         dec_grid = (matrix[:, 1] - (num_pix_eff - 1) / 2.0) * delta_pix_eff
-    shift = (subgrid_res - 1) / (2.0 * subgrid_res) * delta_pix
-    ra_grid += -shift + center_ra
-    dec_grid += -shift + center_dec
+    ra_grid += center_ra
+    dec_grid += center_dec
     ra_at_xy_0 = ra_grid[0]
     dec_at_xy_0 = dec_grid[0]
 
-- 
2.43.0


From a2d53a2cd0bf495e3b4b936a4484be588c07c450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:34 +0000
Subject: [PATCH 040/161] fix: rebin_image bins by bin_size when the image is
 not a multiple of it

---
 lenstronomy/Util/image_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/image_util.py b/lenstronomy/Util/image_util.py
index 1983e27..56387ec 100644
--- a/lenstronomy/Util/image_util.py
+++ b/lenstronomy/Util/image_util.py
@@ -245,7 +245,7 @@ def rebin_image(bin_size, image, wht_map, sigma_bkg, ra_coords, dec_coords, idex
     """
     num_pix = int(len(image) / bin_size)
     num_pix_precut = num_pix * bin_size
-    factor = int(len(image) / num_pix)
+    factor = int(bin_size)
     if not num_pix * bin_size == len(image):
         image_precut = image[0:num_pix_precut, 0:num_pix_precut]
     else:
-- 
2.43.0


From 15a788371b523311b27ebb90df7302eaebe545c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:34 +0000
Subject: [PATCH 041/161] fix: kernel_norm does not modify its input

---
 lenstronomy/Util/kernel_util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index 98c76d4..ef60239 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -128,8 +128,7 @@ def kernel_norm(kernel):
     :return: normalisation of the psf kernel
     """
     norm = np.sum(np.array(kernel))
-    kernel /= norm
-    return kernel
+    return kernel / norm
 
 
 @export
-- 
2.43.0


From 6e9b848370798d40cb55cf40c4b079df5496055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:34 +0000
Subject: [PATCH 042/161] fix: subgrid_kernel keeps the normalisation of the
 kernel for even factors

---
 lenstronomy/Util/kernel_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index ef60239..838bfd9 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -178,7 +178,7 @@ def subgrid_kernel(kernel, subgrid_res, odd=False, num_iter=100):
             kernel_pixel = averaging_even_kernel(kernel_subgrid, subgrid_res)
         else:
             kernel_pixel = util.averaging(kernel_subgrid, num_grid=nx_new, num_pix=nx)
-        delta = kernel - kernel_pixel
+        delta = kernel / norm_kernel - kernel_pixel
         temp_kernel = kernel_input + delta
         kernel_subgrid = image_util.re_size_array(
             x_in, y_in, temp_kernel, x_out, y_out
@@ -192,7 +192,7 @@ def subgrid_kernel(kernel, subgrid_res, odd=False, num_iter=100):
     # print(np.shape(kernel_subgrid))
     # whatever has not been matched is added to zeroth order (in squares of the undersampled PSF)
     if subgrid_res % 2 == 0:
-        return kernel_subgrid
+        return kernel_subgrid * norm_kernel
     kernel_pixel = util.averaging(kernel_subgrid, num_grid=nx_new, num_pix=nx)
     kernel_pixel = kernel_norm(kernel_pixel)
     delta_kernel = kernel_pixel - kernel_norm(kernel)
-- 
2.43.0


From ba1fd301ab86357eb91fcb1eb25390b0e25c7102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:34 +0000
Subject: [PATCH 043/161] fix: degrade_kernel with odd factors covers the full
 kernel

---
 lenstronomy/Util/kernel_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index 838bfd9..5aacbcc 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -439,7 +439,7 @@ def degrade_kernel(kernel_super, degrading_factor):
 def averaging_odd_kernel(kernel_super, degrading_factor):
     """"""
     n_kernel = len(kernel_super)
-    num_pix = int(round(n_kernel / degrading_factor))
+    num_pix = int(np.ceil(n_kernel / degrading_factor))
     if num_pix % 2 == 0:
         num_pix += 1
     n_high = num_pix * degrading_factor
-- 
2.43.0


From d0213047382fd79201915a0c232a741379da75c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:34 +0000
Subject: [PATCH 044/161] fix: cutout_source supports non-square images

---
 lenstronomy/Util/kernel_util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index 5aacbcc..f65d61a 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -523,11 +523,11 @@ def cutout_source(x_pos, y_pos, image, kernelsize, shift=True):
         raise ValueError("even pixel number kernel size not supported!")
     x_int = int(round(x_pos))
     y_int = int(round(y_pos))
-    n = len(image)
+    ny, nx = np.shape(image)
     d = (kernelsize - 1) / 2
-    x_max = int(np.minimum(x_int + d + 1, n))
+    x_max = int(np.minimum(x_int + d + 1, nx))
     x_min = int(np.maximum(x_int - d, 0))
-    y_max = int(np.minimum(y_int + d + 1, n))
+    y_max = int(np.minimum(y_int + d + 1, ny))
     y_min = int(np.maximum(y_int - d, 0))
     image_cut = copy.deepcopy(image[y_min:y_max, x_min:x_max])
     shift_x = x_int - x_pos
@@ -543,8 +543,8 @@ def cutout_source(x_pos, y_pos, image, kernelsize, shift=True):
 
     xk_min = np.maximum(0, -x_int + k_l2_x)
     yk_min = np.maximum(0, -y_int + k_l2_y)
-    xk_max = np.minimum(kernelsize, -x_int + k_l2_x + n)
-    yk_max = np.minimum(kernelsize, -y_int + k_l2_y + n)
+    xk_max = np.minimum(kernelsize, -x_int + k_l2_x + nx)
+    yk_max = np.minimum(kernelsize, -y_int + k_l2_y + ny)
 
     kernel_final[yk_min:yk_max, xk_min:xk_max] = kernel_shift
     return kernel_final
-- 
2.43.0


From 0cb81b39098bba1b41058c268d3fd785c9d54ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:34 +0000
Subject: [PATCH 045/161] fix: estimate_amp of sources in non-square images

---
 lenstronomy/Util/kernel_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index f65d61a..26495d9 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -584,7 +584,7 @@ def estimate_amp(data, x_pos, y_pos, psf_kernel):
     :param psf_kernel:
     :return:
     """
-    num_pix_x, num_pix_y = np.shape(data)
+    num_pix_y, num_pix_x = np.shape(data)
     x_int = int(round(x_pos - 0.49999))
     y_int = int(round(y_pos - 0.49999))
     # TODO: make amplitude estimate not susceptible to rounding effects on which pixels to chose to estimate the amplitude
-- 
2.43.0


From d6092c91589ea5efac424458f348f3cceec94616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:34 +0000
Subject: [PATCH 046/161] fix: PSF returns the same supersampled input kernel
 whatever was requested before

---
 lenstronomy/Data/psf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Data/psf.py b/lenstronomy/Data/psf.py
index 6602610..828f42a 100644
--- a/lenstronomy/Data/psf.py
+++ b/lenstronomy/Data/psf.py
@@ -63,8 +63,7 @@ class PSF(object):
                 raise ValueError(
                     "kernel_point_source needs to be specified for PIXEL PSF type!"
                 )
-            # store the initial input PSF and supersampling factor
-            self._kernel_point_source_init = np.array(kernel_point_source)
+            # store the initial supersampling factor
             self._point_source_supersampling_factor_init = (
                 point_source_supersampling_factor
             )
@@ -77,7 +76,11 @@ class PSF(object):
             else:
                 kernel_point_source_ = copy.deepcopy(kernel_point_source)
             if kernel_point_source_normalisation is True:
-                kernel_point_source_ /= np.sum(kernel_point_source_)
+                kernel_point_source_ = kernel_point_source_ / np.sum(
+                    kernel_point_source_
+                )
+            # store the initial input PSF (with odd axes and normalisation applied)
+            self._kernel_point_source_init = np.array(kernel_point_source_)
             if point_source_supersampling_factor > 1:
                 self._kernel_point_source_supersampled = kernel_point_source_
                 self._point_source_supersampling_factor = (
-- 
2.43.0


From 77f7ea003b614c95d324cdd4cf7e55c7b11d7a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:34 +0000
Subject: [PATCH 047/161] fix: psf_variance_map with GAUSSIAN and NONE PSF
 types

---
 lenstronomy/Data/psf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Data/psf.py b/lenstronomy/Data/psf.py
index 828f42a..c012bdd 100644
--- a/lenstronomy/Data/psf.py
+++ b/lenstronomy/Data/psf.py
@@ -118,8 +118,10 @@ class PSF(object):
                         "psf_variance_map has the same size as the super-sampled kernel. Make sure the units in the"
                         "psf_variance_map are on the down-sampled pixel scale."
                     )
-            if kernel_point_source_normalisation is True:
-                self._psf_variance_map /= np.sum(np.array(kernel_point_source)) ** 2
+            if kernel_point_source_normalisation is True and self.psf_type == "PIXEL":
+                self._psf_variance_map = (
+                    self._psf_variance_map / np.sum(np.array(kernel_point_source)) ** 2
+                )
             self.psf_variance_map_bool = True
         else:
             self.psf_variance_map_bool = False
-- 
2.43.0


From 7bc1e1506efb467fa6fd6f019f061bde2cc3d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:07 +0000
Subject: [PATCH 048/161] fix: set_pixel_size of a GAUSSIAN PSF renews all
 kernels

---
 lenstronomy/Data/psf.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/Data/psf.py b/lenstronomy/Data/psf.py
index c012bdd..4299ca1 100644
--- a/lenstronomy/Data/psf.py
+++ b/lenstronomy/Data/psf.py
@@ -250,10 +250,16 @@ class PSF(object):
         """
         self._pixel_size = delta_pix
         if self.psf_type == "GAUSSIAN":
-            try:
-                del self._kernel_point_source
-            except:
-                pass
+            # the kernels on the previous pixel scale are not valid anymore
+            for name in [
+                "_kernel_point_source",
+                "_kernel_pixel",
+                "_kernel_point_source_supersampled",
+            ]:
+                if hasattr(self, name):
+                    delattr(self, name)
+            if not self.psf_variance_map_bool and hasattr(self, "_psf_variance_map"):
+                del self._psf_variance_map
 
     @property
     def psf_variance_map(self):
-- 
2.43.0


From b9ae4b630c2b3f07613869761f19de8894048f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:30 +0000
Subject: [PATCH 049/161] fix: flux_evaluate_indexes with supersampling selects
 the sub-pixels of the chosen pixels

---
 lenstronomy/ImSim/Numerics/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/Numerics/grid.py b/lenstronomy/ImSim/Numerics/grid.py
index df0cfce..c4d329b 100644
--- a/lenstronomy/ImSim/Numerics/grid.py
+++ b/lenstronomy/ImSim/Numerics/grid.py
@@ -284,7 +284,7 @@ class RegularGrid(Coordinates1D):
         :return: 1d array of equivalent mask in subgrid resolution
         """
         idex_sub = np.repeat(idex_mask, subgrid_res, axis=0)
-        idex_sub = util.array2image(idex_sub, nx=nx, ny=ny * subgrid_res)
+        idex_sub = util.array2image(idex_sub, nx=nx * subgrid_res, ny=ny)
         idex_sub = np.repeat(idex_sub, subgrid_res, axis=0)
         idex_sub = util.image2array(idex_sub)
         return idex_sub
-- 
2.43.0


From 51ea4cf1f62b20871823eced27ded19a83547f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:30 +0000
Subject: [PATCH 050/161] fix: flux_evaluate_indexes in the adaptive grid is a
 2d mask as in the regular grid

---
 lenstronomy/ImSim/Numerics/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/ImSim/Numerics/grid.py b/lenstronomy/ImSim/Numerics/grid.py
index c4d329b..8d05deb 100644
--- a/lenstronomy/ImSim/Numerics/grid.py
+++ b/lenstronomy/ImSim/Numerics/grid.py
@@ -41,6 +41,8 @@ class AdaptiveGrid(Coordinates1D):
         self._x_grid, self._y_grid = self.coordinate_grid(nx, ny)
         if flux_evaluate_indexes is None:
             flux_evaluate_indexes = np.ones_like(self._x_grid, dtype=bool)
+        else:
+            flux_evaluate_indexes = util.image2array(flux_evaluate_indexes)
         supersampled_indexes1d = util.image2array(supersampling_indexes)
         self._high_res_indexes1d = (supersampled_indexes1d) & (flux_evaluate_indexes)
         self._low_res_indexes1d = (np.invert(supersampled_indexes1d)) & (
-- 
2.43.0


From d4589f7faea314b8b0a2bc609e3e81c4441ffead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:19 +0000
Subject: [PATCH 051/161] fix: image modelling of non-square images

---
 lenstronomy/ImSim/Numerics/grid.py                | 15 +++++++++++----
 lenstronomy/ImSim/Numerics/numerics.py            |  2 +-
 lenstronomy/ImSim/Numerics/partial_image.py       |  2 +-
 .../ImSim/Numerics/point_source_rendering.py      |  4 ++--
 lenstronomy/ImSim/image_model.py                  | 10 +++++-----
 5 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/lenstronomy/ImSim/Numerics/grid.py b/lenstronomy/ImSim/Numerics/grid.py
index 8d05deb..8a5bd74 100644
--- a/lenstronomy/ImSim/Numerics/grid.py
+++ b/lenstronomy/ImSim/Numerics/grid.py
@@ -105,7 +105,7 @@ class AdaptiveGrid(Coordinates1D):
         array[self._low_res_indexes1d] = low_res_values
         array_low_res_partial = self._average_subgrid(supersampled_values)
         array[self._high_res_indexes1d] = array_low_res_partial
-        return util.array2image(array)
+        return util.array2image(array, self._nx, self._ny)
 
     def _high_res_image(self, supersampled_values):
         """
@@ -115,8 +115,8 @@ class AdaptiveGrid(Coordinates1D):
         """
         high_res = np.zeros(
             (
-                self._nx * self._supersampling_factor,
                 self._ny * self._supersampling_factor,
+                self._nx * self._supersampling_factor,
             )
         )
         count = 0
@@ -219,8 +219,15 @@ class RegularGrid(Coordinates1D):
             flux_evaluate_indexes, self._supersampling_factor, self._nx, self._ny
         )
 
-        x_grid_sub, y_grid_sub = util.make_subgrid(
-            self._x_grid, self._y_grid, self._supersampling_factor
+        # coordinates of the sub-pixels (also for non-square grids)
+        shift = -1.0 / 2 + 1.0 / (2.0 * supersampling_factor)
+        ra_at_xy_0_sub, dec_at_xy_0_sub = self.map_pix2coord(shift, shift)
+        x_grid_sub, y_grid_sub = util.grid_from_coordinate_transform(
+            nx * supersampling_factor,
+            ny * supersampling_factor,
+            self.transform_pix2angle / supersampling_factor,
+            ra_at_xy_0_sub,
+            dec_at_xy_0_sub,
         )
         self._ra_subgrid = x_grid_sub[self._compute_indexes]
         self._dec_subgrid = y_grid_sub[self._compute_indexes]
diff --git a/lenstronomy/ImSim/Numerics/numerics.py b/lenstronomy/ImSim/Numerics/numerics.py
index 5269ee7..8b3dc4e 100644
--- a/lenstronomy/ImSim/Numerics/numerics.py
+++ b/lenstronomy/ImSim/Numerics/numerics.py
@@ -80,7 +80,7 @@ class Numerics(PointSourceRendering):
         transform_pix2angle = pixel_grid.transform_pix2angle
         ra_at_xy_0, dec_at_xy_0 = pixel_grid.radec_at_xy_0
         if supersampled_indexes is None:
-            supersampled_indexes = np.zeros((nx, ny), dtype=bool)
+            supersampled_indexes = np.zeros((ny, nx), dtype=bool)
         if (
             compute_mode == "adaptive"
         ):  # or (compute_mode == 'regular' and supersampling_convolution is False and supersampling_factor > 1):
diff --git a/lenstronomy/ImSim/Numerics/partial_image.py b/lenstronomy/ImSim/Numerics/partial_image.py
index e565721..c6a37be 100644
--- a/lenstronomy/ImSim/Numerics/partial_image.py
+++ b/lenstronomy/ImSim/Numerics/partial_image.py
@@ -14,7 +14,7 @@ class PartialImage(object):
         :param partial_read_bools: 2d numpy array of bools indicating which indexes to be processed
         """
         self._partial_read_bools = np.array(partial_read_bools, dtype=bool)
-        self._nx, self._ny = np.shape(partial_read_bools)
+        self._ny, self._nx = np.shape(partial_read_bools)
         self._partial_read_bools_array = util.image2array(partial_read_bools)
         self._num_partial = int(np.sum(self._partial_read_bools_array))
 
diff --git a/lenstronomy/ImSim/Numerics/point_source_rendering.py b/lenstronomy/ImSim/Numerics/point_source_rendering.py
index 49b37ab..c3a708d 100644
--- a/lenstronomy/ImSim/Numerics/point_source_rendering.py
+++ b/lenstronomy/ImSim/Numerics/point_source_rendering.py
@@ -44,7 +44,7 @@ class PointSourceRendering(object):
         else:
             kernel_point_source_subgrid = self._kernel_supersampled
         # initialize grid with higher resolution
-        subgrid2d = np.zeros((self._nx * subgrid, self._ny * subgrid))
+        subgrid2d = np.zeros((self._ny * subgrid, self._nx * subgrid))
         # add_layer2image
         if len(x_pos) > len(amp):
             raise ValueError(
@@ -123,7 +123,7 @@ class PointSourceRendering(object):
         # render the unconvolved point source using a PSF of [[0, 0, 0], [0, 1, 0], [0, 0, 0]].
         kernel_point_source_for_unconcolved_image = np.zeros((3, 3))
         kernel_point_source_for_unconcolved_image[1, 1] = 1
-        grid2d = np.zeros((self._nx, self._ny))
+        grid2d = np.zeros((self._ny, self._nx))
         # add_layer2image
         if len(x_pos) > len(amp):
             raise ValueError(
diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index eaf0213..3e2e777 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -88,7 +88,7 @@ class ImageModel(object):
         )
         self._psf_error_map = self.PSF.psf_variance_map_bool
         if likelihood_mask is None:
-            likelihood_mask = np.ones(data_class.num_pixel_axes)
+            likelihood_mask = np.ones(data_class.num_pixel_axes[::-1])
         self.likelihood_mask = np.array(likelihood_mask, dtype=bool)
         self._mask1d = util.image2array(self.likelihood_mask)
 
@@ -299,7 +299,7 @@ class ImageModel(object):
             kwargs_special=kwargs_special, model_index=self.image_index
         )
         if len(self.SourceModel.profile_type_list) == 0:
-            return np.zeros(self.Data.num_pixel_axes)
+            return np.zeros(self.Data.num_pixel_axes[::-1])
         if self._pixelbased_bool is True:
             return self._source_surface_brightness_pixelbased(
                 kwargs_source,
@@ -568,7 +568,7 @@ class ImageModel(object):
         self.update_pixel_grid_coordinates(
             kwargs_special=kwargs_special, model_index=self.image_index
         )
-        point_source_image = np.zeros((self.Data.num_pixel_axes))
+        point_source_image = np.zeros(self.Data.num_pixel_axes[::-1])
         if self.PointSource is None:
             return point_source_image
         ra_pos, dec_pos, amp = self.PointSource.point_source_list(
@@ -629,7 +629,7 @@ class ImageModel(object):
         self.update_pixel_grid_coordinates(
             kwargs_special=kwargs_special, model_index=self.image_index
         )
-        model = np.zeros(self.Data.num_pixel_axes)
+        model = np.zeros(self.Data.num_pixel_axes[::-1])
         if source_add is True:
             model += ImageModel.source_surface_brightness(
                 self,
@@ -820,7 +820,7 @@ class ImageModel(object):
         :param kwargs_special: special parameter keyword arguments
         :return: 2d array of size of the image
         """
-        error_map = np.zeros(self.Data.num_pixel_axes)
+        error_map = np.zeros(self.Data.num_pixel_axes[::-1])
         if self._psf_error_map is True:
             for k, bool_ in enumerate(self._psf_error_map_bool_list):
                 if bool_ is True:
-- 
2.43.0


From 3a59ae458ddf55bc3d9844e6c9089a594299dcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:19 +0000
Subject: [PATCH 052/161] fix: sub-frame evaluation uses the coordinates of the
 selected pixels

---
 lenstronomy/ImSim/Numerics/numerics_subframe.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lenstronomy/ImSim/Numerics/numerics_subframe.py b/lenstronomy/ImSim/Numerics/numerics_subframe.py
index 2d450ff..21aaaa3 100644
--- a/lenstronomy/ImSim/Numerics/numerics_subframe.py
+++ b/lenstronomy/ImSim/Numerics/numerics_subframe.py
@@ -132,10 +132,10 @@ class NumericsSubFrame(PointSourceRendering):
         :return: 2d numpy array of size of image with added zeros on their edges
         """
         if self._subframe_calc is True:
-            image = np.zeros((self._nx, self._ny))
+            image = np.zeros((self._ny, self._nx))
             image[
-                self._x_min_sub : self._x_max_sub + 1,
                 self._y_min_sub : self._y_max_sub + 1,
+                self._x_min_sub : self._x_max_sub + 1,
             ] = image_sub_frame
         else:
             image = image_sub_frame
@@ -149,10 +149,10 @@ class NumericsSubFrame(PointSourceRendering):
             self._x_max_sub, self._y_max_sub = self._nx, self._ny
         else:
             self._subframe_calc = True
-            self._x_min_sub = np.min(np.where(flux_evaluate_indexes)[0])
-            self._x_max_sub = np.max(np.where(flux_evaluate_indexes)[0])
-            self._y_min_sub = np.min(np.where(flux_evaluate_indexes)[1])
-            self._y_max_sub = np.max(np.where(flux_evaluate_indexes)[1])
+            self._x_min_sub = np.min(np.where(flux_evaluate_indexes)[1])
+            self._x_max_sub = np.max(np.where(flux_evaluate_indexes)[1])
+            self._y_min_sub = np.min(np.where(flux_evaluate_indexes)[0])
+            self._y_max_sub = np.max(np.where(flux_evaluate_indexes)[0])
 
     def _cut_frame(self, image):
         """
@@ -162,8 +162,8 @@ class NumericsSubFrame(PointSourceRendering):
         """
         if self._subframe_calc is True and image is not None:
             return image[
-                self._x_min_sub : self._x_max_sub + 1,
                 self._y_min_sub : self._y_max_sub + 1,
+                self._x_min_sub : self._x_max_sub + 1,
             ]
         else:
             return image
-- 
2.43.0


From 9b9ea94214524b88361d07b820137da378acda80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:19 +0000
Subject: [PATCH 053/161] fix: ImageModel.update_data uses the coordinates and
 flux scaling of the new data

---
 lenstronomy/ImSim/image_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index 3e2e777..b6376f1 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -743,7 +743,12 @@ class ImageModel(object):
         :return: no return. Class is updated.
         """
         self.Data = data_class
-        self.ImageNumerics._PixelGrid = data_class
+        if hasattr(self.Data, "flux_scaling"):
+            self._flux_scaling = self.Data.flux_scaling
+        self.PSF.set_pixel_size(self.Data.pixel_width)
+        self.ImageNumerics = NumericsSubFrame(
+            pixel_grid=self.Data, psf=self.PSF, **self._kwargs_numerics
+        )
 
     @property
     def num_data_evaluate(self):
-- 
2.43.0


From 061b382ac97353720466f2d4faaf18e5f0a7aef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:45 +0000
Subject: [PATCH 054/161] fix: PSF variance map with fixed amplitudes uses the
 amplitude of each point source

---
 lenstronomy/ImSim/Numerics/point_source_rendering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/ImSim/Numerics/point_source_rendering.py b/lenstronomy/ImSim/Numerics/point_source_rendering.py
index c3a708d..676258a 100644
--- a/lenstronomy/ImSim/Numerics/point_source_rendering.py
+++ b/lenstronomy/ImSim/Numerics/point_source_rendering.py
@@ -87,10 +87,11 @@ class PointSourceRendering(object):
         x_pos, y_pos = self._pixel_grid.map_coord2pix(ra_pos, dec_pos)
         psf_kernel = self._psf.kernel_point_source
         psf_variance_map = self._psf.psf_variance_map
-        variance_map = np.zeros_like(data)
+        variance_map = np.zeros(np.shape(data))
+        amp = np.broadcast_to(amp, np.shape(x_pos))
         for i in range(len(x_pos)):
             if fix_psf_variance_map is True:
-                amp_estimated = amp
+                amp_estimated = amp[i]
             else:
                 amp_estimated = kernel_util.estimate_amp(
                     data, x_pos[i], y_pos[i], psf_kernel
-- 
2.43.0


From 1cb29fc5fc46b37691c048111e2fb10b6602ee08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:44 +0000
Subject: [PATCH 055/161] fix: sources that all lie in front of the source
 plane of a multi-plane lens model are mapped to their own redshift

---
 lenstronomy/ImSim/image2source_mapping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/ImSim/image2source_mapping.py b/lenstronomy/ImSim/image2source_mapping.py
index 2cb55e3..980673d 100644
--- a/lenstronomy/ImSim/image2source_mapping.py
+++ b/lenstronomy/ImSim/image2source_mapping.py
@@ -87,8 +87,9 @@ class Image2SourceMapping(object):
                         "the one specified in the lens model."
                     )
 
-            # turn off multi source plane if all sources are at the same redshift
-            if len(list(set(self._source_redshift_list))) == 1:
+            # turn off multi source plane if all sources are at the source redshift of
+            # the lens model
+            if set(self._source_redshift_list) == {self._lens_model.z_source}:
                 self._multi_source_plane = False
                 self._sorted_source_redshift_index = [0]
             else:
-- 
2.43.0


From 74728371fd48559840be03954ef2a3e854ef2231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:44 +0000
Subject: [PATCH 056/161] fix: selecting source components k with several
 source planes selects these components

---
 lenstronomy/ImSim/image2source_mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/ImSim/image2source_mapping.py b/lenstronomy/ImSim/image2source_mapping.py
index 980673d..5b4c0b6 100644
--- a/lenstronomy/ImSim/image2source_mapping.py
+++ b/lenstronomy/ImSim/image2source_mapping.py
@@ -270,7 +270,7 @@ class Image2SourceMapping(object):
                     scale_factor = self._deflection_scaling_list[i]
                     x_source = x - x_alpha * scale_factor
                     y_source = y - y_alpha * scale_factor
-                    if k is None or k == i:
+                    if k is None or i in np.atleast_1d(k):
                         flux += self._light_model.surface_brightness(
                             x_source, y_source, kwargs_source, k=i
                         )
@@ -302,7 +302,7 @@ class Image2SourceMapping(object):
                             T_ij_end=T_ij_end,
                         )
 
-                    if k is None or k == i:
+                    if k is None or index_source in np.atleast_1d(k):
                         flux += self._light_model.surface_brightness(
                             x_source, y_source, kwargs_source, k=index_source
                         )
-- 
2.43.0


From 8e67954e2e735f96f05ac70706c0f92294aceab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:44 +0000
Subject: [PATCH 057/161] fix: ImageModel.update_psf uses the PSF variance map
 of the new PSF

---
 lenstronomy/ImSim/image_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index b6376f1..01704e4 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -732,6 +732,7 @@ class ImageModel(object):
         """
         self.PSF = psf_class
         self.PSF.set_pixel_size(self.Data.pixel_width)
+        self._psf_error_map = self.PSF.psf_variance_map_bool
         self.ImageNumerics = NumericsSubFrame(
             pixel_grid=self.Data, psf=self.PSF, **self._kwargs_numerics
         )
-- 
2.43.0


From 772b3cc37fca59136aa7d14ce2ad3e716df2be5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:15 +0000
Subject: [PATCH 058/161] fix: ImageModel.update_data uses the primary beam of
 the new data

---
 lenstronomy/ImSim/image_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index 01704e4..fc9ef08 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -746,6 +746,11 @@ class ImageModel(object):
         self.Data = data_class
         if hasattr(self.Data, "flux_scaling"):
             self._flux_scaling = self.Data.flux_scaling
+        self._pb = getattr(self.Data, "primary_beam", None)
+        if self._pb is not None:
+            self._pb_1d = util.image2array(self._pb)
+        else:
+            self._pb_1d = None
         self.PSF.set_pixel_size(self.Data.pixel_width)
         self.ImageNumerics = NumericsSubFrame(
             pixel_grid=self.Data, psf=self.PSF, **self._kwargs_numerics
-- 
2.43.0


From 4fb987b8f7b0d60ef925156ebe03ade316f36e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:57 +0000
Subject: [PATCH 059/161] fix: point source positions computed without the
 cache are not returned later for other parameters

---
 .../PointSource/point_source_cached.py        | 28 +++++++++----------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/lenstronomy/PointSource/point_source_cached.py b/lenstronomy/PointSource/point_source_cached.py
index 52a0e42..4bb89d4 100644
--- a/lenstronomy/PointSource/point_source_cached.py
+++ b/lenstronomy/PointSource/point_source_cached.py
@@ -57,13 +57,17 @@ class PointSourceCached(object):
         :type additional_images: bool
         :return: image positions in x, y as arrays
         """
+        if not self._save_cache:
+            return self._model.image_position(
+                kwargs_ps,
+                kwargs_lens=kwargs_lens,
+                magnification_limit=magnification_limit,
+                kwargs_lens_eqn_solver=kwargs_lens_eqn_solver,
+                additional_images=additional_images,
+            )
         if additional_images and not self._model.additional_images:
             # ignore cached parts if additional images
-            if (
-                not self._save_cache
-                or not hasattr(self, "_x_image_add")
-                or not hasattr(self, "_y_image_add")
-            ):
+            if not hasattr(self, "_x_image_add") or not hasattr(self, "_y_image_add"):
                 self._x_image_add, self._y_image_add = self._model.image_position(
                     kwargs_ps,
                     kwargs_lens=kwargs_lens,
@@ -72,11 +76,7 @@ class PointSourceCached(object):
                     additional_images=additional_images,
                 )
             return self._x_image_add, self._y_image_add
-        if (
-            not self._save_cache
-            or not hasattr(self, "_x_image")
-            or not hasattr(self, "_y_image")
-        ):
+        if not hasattr(self, "_x_image") or not hasattr(self, "_y_image"):
             self._x_image, self._y_image = self._model.image_position(
                 kwargs_ps,
                 kwargs_lens=kwargs_lens,
@@ -93,11 +93,9 @@ class PointSourceCached(object):
         :param kwargs_lens: lens model keyword argument list (only used when required)
         :return: x, y position
         """
-        if (
-            not self._save_cache
-            or not hasattr(self, "_x_source")
-            or not hasattr(self, "_y_source")
-        ):
+        if not self._save_cache:
+            return self._model.source_position(kwargs_ps, kwargs_lens=kwargs_lens)
+        if not hasattr(self, "_x_source") or not hasattr(self, "_y_source"):
             self._x_source, self._y_source = self._model.source_position(
                 kwargs_ps, kwargs_lens=kwargs_lens
             )
-- 
2.43.0


From eb11242b073757bb655f1aa7f06444740d0ef4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:57 +0000
Subject: [PATCH 060/161] fix: SourcePositions.image_amplitude does not
 multiply the magnification perturbation into the given amplitudes

---
 lenstronomy/PointSource/Types/source_position.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index 4a82889..fcaa570 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -110,8 +110,7 @@ class SourcePositions(PSBase):
                 point_amp = _expand_to_array(point_amp, len(x_pos))
         mag_pert = kwargs_ps.get("mag_pert", 1)
         mag_pert = _shrink_array(mag_pert, len(point_amp))
-        point_amp *= np.array(mag_pert)
-        return np.array(point_amp)
+        return np.array(point_amp) * np.array(mag_pert)
 
     def source_amplitude(self, kwargs_ps, kwargs_lens=None):
         """Intrinsic brightness amplitude of point source When brightnesses are defined
-- 
2.43.0


From 59c73056d50e5fc404708e66a54e947bee0c58ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:57 +0000
Subject: [PATCH 061/161] fix: SourcePositions.image_amplitude uses the given
 lens equation solver settings

---
 lenstronomy/PointSource/Types/source_position.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index fcaa570..8c4b1d0 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -94,13 +94,11 @@ class SourcePositions(PSBase):
             if x_pos is not None and y_pos is not None:
                 ra_image, dec_image = x_pos, y_pos
             else:
-                if kwargs_lens_eqn_solver is None:
-                    kwargs_lens_eqn_solver = {}
                 ra_image, dec_image = self.image_position(
                     kwargs_ps,
                     kwargs_lens=kwargs_lens,
                     magnification_limit=magnification_limit,
-                    **kwargs_lens_eqn_solver
+                    kwargs_lens_eqn_solver=kwargs_lens_eqn_solver,
                 )
             mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
             point_amp = kwargs_ps["source_amp"] * np.abs(mag)
-- 
2.43.0


From 8801980e919457e01b1a67bcfbb5148859e11fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:57 +0000
Subject: [PATCH 062/161] fix: SourcePositions.source_amplitude uses the
 absolute magnification

---
 lenstronomy/PointSource/Types/source_position.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index 8c4b1d0..3d059db 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -127,5 +127,5 @@ class SourcePositions(PSBase):
             ra_image, dec_image = self.image_position(kwargs_ps, kwargs_lens)
             mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
             point_amp = kwargs_ps["point_amp"]
-            source_amp = np.mean(np.array(point_amp) / np.array(mag))
+            source_amp = np.mean(np.array(point_amp) / np.abs(mag))
         return np.array(source_amp)
-- 
2.43.0


From 378f06612b7f33ab02b9711e2e5d8bf24a2313c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:57 +0000
Subject: [PATCH 063/161] fix: PointSource.image_position applies
 width_search_factor

---
 lenstronomy/PointSource/point_source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index dc06ee5..68a0b86 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -269,8 +269,8 @@ class PointSource(object):
         """
         x_image_list = []
         y_image_list = []
-        if width_search_factor != 1 and hasattr(
-            self._kwargs_lens_eqn_solver, "search_window"
+        if (
+            width_search_factor != 1 and "search_window" in self._kwargs_lens_eqn_solver
         ):
             kwargs_lens_eqn_solver = copy.deepcopy(self._kwargs_lens_eqn_solver)
             kwargs_lens_eqn_solver["search_window"] *= width_search_factor
-- 
2.43.0


From 9967664fc8b90bb6ccf1d65bf51ef0c03eb4370a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:57 +0000
Subject: [PATCH 064/161] fix: PointSource does not write its search window in
 the solver settings it is given

---
 lenstronomy/PointSource/point_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 68a0b86..8c7e5c7 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -127,7 +127,7 @@ class PointSource(object):
                 )
         if kwargs_lens_eqn_solver is None:
             kwargs_lens_eqn_solver = {}
-        self._kwargs_lens_eqn_solver = kwargs_lens_eqn_solver
+        self._kwargs_lens_eqn_solver = dict(kwargs_lens_eqn_solver)
         self._magnification_limit = magnification_limit
         self._save_cache = save_cache
 
-- 
2.43.0


From 7666c86a1d883f503b8f68756818225ea0b8cce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:54 +0000
Subject: [PATCH 065/161] fix: the linear response of point sources uses the
 same magnifications as their image amplitudes

---
 lenstronomy/PointSource/point_source.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 8c7e5c7..74f6450 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -423,14 +423,19 @@ class PointSource(object):
                     if with_amp:
                         mag = self.image_amplitude(kwargs_ps, kwargs_lens, k=i)[0]
                     else:
-                        mag = self._lens_model.magnification(x_pos, y_pos, kwargs_lens)
-                        mag = np.abs(mag)
+                        kwargs_unit = list(kwargs_ps)
+                        kwargs_unit[i] = dict(kwargs_ps[i], source_amp=1)
+                        mag = self.image_amplitude(kwargs_unit, kwargs_lens, k=i)[0]
                     amp.append(list(mag))
                 else:
                     if with_amp:
                         mag = self.image_amplitude(kwargs_ps, kwargs_lens, k=i)[0]
                     else:
-                        mag = np.ones_like(x_pos)
+                        kwargs_unit = list(kwargs_ps)
+                        kwargs_unit[i] = dict(
+                            kwargs_ps[i], point_amp=np.ones(len(x_pos))
+                        )
+                        mag = self.image_amplitude(kwargs_unit, kwargs_lens, k=i)[0]
                     for j in range(len(x_pos)):
                         ra_pos.append([x_pos[j]])
                         dec_pos.append([y_pos[j]])
-- 
2.43.0


From 8ccc661aa45af4af47042d554f153e7e7bbd8e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:54 +0000
Subject: [PATCH 066/161] fix: PointSource.image_amplitude applies the
 magnification limit

---
 lenstronomy/PointSource/point_source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 74f6450..94c6719 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -372,6 +372,7 @@ class PointSource(object):
                 image_amp = model.image_amplitude(
                     kwargs_ps=kwargs_ps[i],
                     kwargs_lens=kwargs_lens,
+                    magnification_limit=self._magnification_limit,
                     kwargs_lens_eqn_solver=self._kwargs_lens_eqn_solver,
                 )
                 if self._flux_from_point_source_list[i]:
-- 
2.43.0


From f997fce26d289e9e74978b3002897fa27bf713e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:54 +0000
Subject: [PATCH 067/161] fix: point sources with an own redshift do not leave
 the shared lens model at their redshift

---
 lenstronomy/PointSource/Types/base_ps.py      | 13 +++
 .../PointSource/Types/lensed_position.py      | 83 +++++++++----------
 .../PointSource/Types/source_position.py      | 24 +++---
 3 files changed, 65 insertions(+), 55 deletions(-)

diff --git a/lenstronomy/PointSource/Types/base_ps.py b/lenstronomy/PointSource/Types/base_ps.py
index cf61233..04c5af9 100644
--- a/lenstronomy/PointSource/Types/base_ps.py
+++ b/lenstronomy/PointSource/Types/base_ps.py
@@ -1,4 +1,5 @@
 from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
+from contextlib import contextmanager
 import numpy as np
 
 __all__ = ["PSBase", "_expand_to_array", "_shrink_array"]
@@ -60,6 +61,18 @@ class PSBase(object):
                 "current computation. If you see this warning, please approach the developers."
             )
 
+    @contextmanager
+    def _source_redshift(self):
+        """Sets the lens model to the redshift of the point source and back to the
+        previous source redshift afterwards, as the lens model is shared with other
+        models."""
+        z_source = self._lens_model.z_source
+        self._lens_model.change_source_redshift(self._redshift)
+        try:
+            yield
+        finally:
+            self._lens_model.change_source_redshift(z_source)
+
     def image_position(self, kwargs_ps, **kwargs):
         """On-sky position.
 
diff --git a/lenstronomy/PointSource/Types/lensed_position.py b/lenstronomy/PointSource/Types/lensed_position.py
index 0561e44..550b647 100644
--- a/lenstronomy/PointSource/Types/lensed_position.py
+++ b/lenstronomy/PointSource/Types/lensed_position.py
@@ -51,14 +51,14 @@ class LensedPositions(PSBase):
                 kwargs_lens_eqn_solver = {}
             ra_source, dec_source = self.source_position(kwargs_ps, kwargs_lens)
             # TODO: this solver does not distinguish between different frames/bands with partial lens models
-            self._solver.change_source_redshift(self._redshift)
-            ra_image, dec_image = self._solver.image_position_from_source(
-                ra_source,
-                dec_source,
-                kwargs_lens,
-                magnification_limit=magnification_limit,
-                **kwargs_lens_eqn_solver
-            )
+            with self._source_redshift():
+                ra_image, dec_image = self._solver.image_position_from_source(
+                    ra_source,
+                    dec_source,
+                    kwargs_lens,
+                    magnification_limit=magnification_limit,
+                    **kwargs_lens_eqn_solver
+                )
         else:
             ra_image = kwargs_ps["ra_image"]
             dec_image = kwargs_ps["dec_image"]
@@ -74,20 +74,19 @@ class LensedPositions(PSBase):
         """
         ra_image = kwargs_ps["ra_image"]
         dec_image = kwargs_ps["dec_image"]
-        self._lens_model.change_source_redshift(self._redshift)
-
-        if self.k_list is None:
-            x_source, y_source = self._lens_model.ray_shooting(
-                ra_image, dec_image, kwargs_lens
-            )
-        else:
-            x_source, y_source = [], []
-            for i in range(len(ra_image)):
-                x, y = self._lens_model.ray_shooting(
-                    ra_image[i], dec_image[i], kwargs_lens, k=self.k_list[i]
+        with self._source_redshift():
+            if self.k_list is None:
+                x_source, y_source = self._lens_model.ray_shooting(
+                    ra_image, dec_image, kwargs_lens
                 )
-                x_source.append(x)
-                y_source.append(y)
+            else:
+                x_source, y_source = [], []
+                for i in range(len(ra_image)):
+                    x, y = self._lens_model.ray_shooting(
+                        ra_image[i], dec_image[i], kwargs_lens, k=self.k_list[i]
+                    )
+                    x_source.append(x)
+                    y_source.append(y)
         x_source = np.mean(x_source)
         y_source = np.mean(y_source)
         return np.array(x_source), np.array(y_source)
@@ -116,7 +115,6 @@ class LensedPositions(PSBase):
             details
         :return: array of image amplitudes
         """
-        self._lens_model.change_source_redshift(self._redshift)
         if self._fixed_magnification:
             if x_pos is not None and y_pos is not None:
                 ra_image, dec_image = x_pos, y_pos
@@ -128,16 +126,7 @@ class LensedPositions(PSBase):
                     kwargs_lens_eqn_solver=kwargs_lens_eqn_solver,
                 )
 
-            if self.k_list is None:
-                mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
-            else:
-                mag = []
-                for i in range(len(ra_image)):
-                    mag.append(
-                        self._lens_model.magnification(
-                            ra_image[i], dec_image[i], kwargs_lens, k=self.k_list[i]
-                        )
-                    )
+            mag = self._magnification(ra_image, dec_image, kwargs_lens)
             point_amp = kwargs_ps["source_amp"] * np.abs(mag)
         else:
             point_amp = kwargs_ps["point_amp"]
@@ -158,20 +147,28 @@ class LensedPositions(PSBase):
         if self._fixed_magnification:
             source_amp = kwargs_ps["source_amp"]
         else:
-            self._lens_model.change_source_redshift(self._redshift)
             ra_image, dec_image = np.array(kwargs_ps["ra_image"]), np.array(
                 kwargs_ps["dec_image"]
             )
-            if self.k_list is None:
-                mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
-            else:
-                mag = []
-                for i in range(len(ra_image)):
-                    mag.append(
-                        self._lens_model.magnification(
-                            ra_image[i], dec_image[i], kwargs_lens, k=self.k_list[i]
-                        )
-                    )
+            mag = self._magnification(ra_image, dec_image, kwargs_lens)
             point_amp = kwargs_ps["point_amp"]
             source_amp = np.mean(np.array(point_amp) / np.array(np.abs(mag)))
         return np.array(source_amp)
+
+    def _magnification(self, ra_image, dec_image, kwargs_lens):
+        """Magnification of the images by the lens models of their frame.
+
+        :param ra_image: image positions
+        :param dec_image: image positions
+        :param kwargs_lens: keyword argument list of the lens model(s)
+        :return: magnifications at the redshift of the point source
+        """
+        with self._source_redshift():
+            if self.k_list is None:
+                return self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
+            return [
+                self._lens_model.magnification(
+                    ra_image[i], dec_image[i], kwargs_lens, k=self.k_list[i]
+                )
+                for i in range(len(ra_image))
+            ]
diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index 3d059db..07f1e01 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -45,14 +45,14 @@ class SourcePositions(PSBase):
         if kwargs_lens_eqn_solver is None:
             kwargs_lens_eqn_solver = {}
         ra_source, dec_source = self.source_position(kwargs_ps)
-        self._solver.change_source_redshift(self._redshift)
-        ra_image, dec_image = self._solver.image_position_from_source(
-            ra_source,
-            dec_source,
-            kwargs_lens,
-            magnification_limit=magnification_limit,
-            **kwargs_lens_eqn_solver
-        )
+        with self._source_redshift():
+            ra_image, dec_image = self._solver.image_position_from_source(
+                ra_source,
+                dec_source,
+                kwargs_lens,
+                magnification_limit=magnification_limit,
+                **kwargs_lens_eqn_solver
+            )
         return ra_image, dec_image
 
     def source_position(self, kwargs_ps, **kwargs):
@@ -90,7 +90,6 @@ class SourcePositions(PSBase):
         :return: array of image amplitudes
         """
         if self._fixed_magnification:
-            self._lens_model.change_source_redshift(self._redshift)
             if x_pos is not None and y_pos is not None:
                 ra_image, dec_image = x_pos, y_pos
             else:
@@ -100,7 +99,8 @@ class SourcePositions(PSBase):
                     magnification_limit=magnification_limit,
                     kwargs_lens_eqn_solver=kwargs_lens_eqn_solver,
                 )
-            mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
+            with self._source_redshift():
+                mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
             point_amp = kwargs_ps["source_amp"] * np.abs(mag)
         else:
             point_amp = kwargs_ps["point_amp"]
@@ -123,9 +123,9 @@ class SourcePositions(PSBase):
         if self._fixed_magnification:
             source_amp = kwargs_ps["source_amp"]
         else:
-            self._lens_model.change_source_redshift(self._redshift)
             ra_image, dec_image = self.image_position(kwargs_ps, kwargs_lens)
-            mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
+            with self._source_redshift():
+                mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
             point_amp = kwargs_ps["point_amp"]
             source_amp = np.mean(np.array(point_amp) / np.abs(mag))
         return np.array(source_amp)
-- 
2.43.0


From 910af01857df4670557046f53902629558917acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:56 +0000
Subject: [PATCH 068/161] fix: the unconvolved linear response matrix has
 unconvolved point sources

---
 lenstronomy/ImSim/image_linear_solve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/image_linear_solve.py b/lenstronomy/ImSim/image_linear_solve.py
index 1c51a34..628692f 100644
--- a/lenstronomy/ImSim/image_linear_solve.py
+++ b/lenstronomy/ImSim/image_linear_solve.py
@@ -407,7 +407,7 @@ class ImageLinearFit(ImageModel):
         # response of point sources
         for i in range(0, n_points):
             image = self.ImageNumerics.point_source_rendering(
-                ra_pos[i], dec_pos[i], amp[i]
+                ra_pos[i], dec_pos[i], amp[i], unconvolved=unconvolved
             )
             A[n, :] = np.nan_to_num(self.image2array_masked(image), copy=False)
             n += 1
-- 
2.43.0


From 735b9189761b5ad01d4098513ad3ec6f1a8efe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:56 +0000
Subject: [PATCH 069/161] fix: interferometric linear inversion of images that
 are not square

---
 lenstronomy/ImSim/image_linear_solve.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/ImSim/image_linear_solve.py b/lenstronomy/ImSim/image_linear_solve.py
index 628692f..e79fbe4 100644
--- a/lenstronomy/ImSim/image_linear_solve.py
+++ b/lenstronomy/ImSim/image_linear_solve.py
@@ -758,13 +758,14 @@ class ImageLinearFit(ImageModel):
         [amp_array] is the solved optimal amplitudes.
         """
         num_of_light, num_of_image_pixel = np.shape(A)
+        nx, ny = self.Data.num_pixel_axes
 
         A_convolved = np.zeros(np.shape(A))
 
         # convolve each response separately
         for i in range(num_of_light):
             A_convolved[i] = util.image2array(
-                self._convolution._static_fft(util.array2image(A[i]), mode="same")
+                self._convolution._static_fft(util.array2image(A[i], nx, ny), mode="same")
             )
 
         M = np.zeros((num_of_light, num_of_light))
@@ -790,8 +791,8 @@ class ImageLinearFit(ImageModel):
             unconvolved_temp += param_amps[i] * A[i]
             dirty_temp += param_amps[i] * A_convolved[i]
 
-        unconvolved_model = util.array2image(unconvolved_temp)
-        dirty_model = util.array2image(dirty_temp)
+        unconvolved_model = util.array2image(unconvolved_temp, nx, ny)
+        dirty_model = util.array2image(dirty_temp, nx, ny)
 
         model = [unconvolved_model, dirty_model]
 
-- 
2.43.0


From e65fdcc75c8e3b3bec0dd3cbc2e65ccc5022fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:56 +0000
Subject: [PATCH 070/161] fix: interferometric linear response uses the
 coordinate offsets of the parameters

---
 lenstronomy/ImSim/image_linear_solve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lenstronomy/ImSim/image_linear_solve.py b/lenstronomy/ImSim/image_linear_solve.py
index e79fbe4..d8682e5 100644
--- a/lenstronomy/ImSim/image_linear_solve.py
+++ b/lenstronomy/ImSim/image_linear_solve.py
@@ -647,6 +647,9 @@ class ImageLinearFit(ImageModel):
         :param kwargs_special: list of special keyword arguments
         :return: response matrix (m x n)
         """
+        self.update_pixel_grid_coordinates(
+            kwargs_special=kwargs_special, model_index=self.image_index
+        )
         x_grid, y_grid = self.ImageNumerics.coordinates_evaluate
 
         source_light_response, n_source = self.source_mapping.image_flux_split(
-- 
2.43.0


From 8c42b08fecc3d1dc9b5f03e5183ea10065a2427e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:56 +0000
Subject: [PATCH 071/161] fix: ImageLinearFit.update_psf changes the beam of
 the interferometric inversion

---
 lenstronomy/ImSim/image_linear_solve.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lenstronomy/ImSim/image_linear_solve.py b/lenstronomy/ImSim/image_linear_solve.py
index d8682e5..b0f0699 100644
--- a/lenstronomy/ImSim/image_linear_solve.py
+++ b/lenstronomy/ImSim/image_linear_solve.py
@@ -71,6 +71,19 @@ class ImageLinearFit(ImageModel):
                 kernel=self.PSF.kernel_point_source
             )
 
+    def update_psf(self, psf_class):
+        """Update the instance of the class with a new instance of PSF() with a
+        potentially different point spread function.
+
+        :param psf_class: instance of PSF() class
+        :return: no return. Class is updated.
+        """
+        super(ImageLinearFit, self).update_psf(psf_class)
+        if self.Data.likelihood_method() == "interferometry_natwt":
+            self._convolution = PixelKernelConvolution(
+                kernel=self.PSF.kernel_point_source
+            )
+
     def image_linear_solve(
         self,
         kwargs_lens=None,
-- 
2.43.0


From aa144b6591d5f919406099cf9b5f2406973dcc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:33 +0000
Subject: [PATCH 072/161] fix: a list of point source indexes k selects those
 point sources

---
 lenstronomy/PointSource/point_source.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index 94c6719..e9d235e 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -253,7 +253,7 @@ class PointSource(object):
 
         :param kwargs_ps: point source parameter keyword argument list
         :param kwargs_lens: lens model keyword argument list
-        :param k: None, int or boolean list; only returns a subset of the model
+        :param k: None, int or list of int's; only returns a subset of the model
             predictions
         :param original_position: boolean (only applies to 'LENSED_POSITION' models),
             returns the image positions in the model parameters and does not re-compute
@@ -277,7 +277,7 @@ class PointSource(object):
         else:
             kwargs_lens_eqn_solver = self._kwargs_lens_eqn_solver
         for i, model in enumerate(self._point_source_list):
-            if k is None or k == i:
+            if k is None or i in np.atleast_1d(k):
                 kwargs = kwargs_ps[i]
                 x_image, y_image = model.image_position(
                     kwargs,
@@ -368,7 +368,7 @@ class PointSource(object):
         """
         amp_list = []
         for i, model in enumerate(self._point_source_list):
-            if k is None or k == i:
+            if k is None or i in np.atleast_1d(k):
                 image_amp = model.image_amplitude(
                     kwargs_ps=kwargs_ps[i],
                     kwargs_lens=kwargs_lens,
-- 
2.43.0


From c75ff848215fe879de2297c3a054cfbceb4ec366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:20 +0000
Subject: [PATCH 073/161] fix: point source values saved before the cache is
 turned off are not used

---
 lenstronomy/PointSource/point_source.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index e9d235e..a7e7bc9 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -199,6 +199,9 @@ class PointSource(object):
         """
         self._set_save_cache(save_cache)
         self._save_cache = save_cache
+        if not save_cache:
+            # values saved before must not be used while the cache is off
+            self.delete_lens_model_cache()
 
     def _set_save_cache(self, save_cache):
         """Set the save cache boolean to new value. This function is for use within this
-- 
2.43.0


From 4841a1f427c4434d318f6c6a471e6201a727b8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:20 +0000
Subject: [PATCH 074/161] fix: source amplitudes of SOURCE_POSITION use the
 settings of the lens equation solver

---
 .../PointSource/Types/lensed_position.py      |  2 +-
 .../PointSource/Types/source_position.py      | 20 ++++++++++++++++--
 lenstronomy/PointSource/point_source.py       |  5 ++++-
 .../PointSource/point_source_cached.py        | 21 +++++++++++++++++--
 4 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/PointSource/Types/lensed_position.py b/lenstronomy/PointSource/Types/lensed_position.py
index 550b647..f423893 100644
--- a/lenstronomy/PointSource/Types/lensed_position.py
+++ b/lenstronomy/PointSource/Types/lensed_position.py
@@ -134,7 +134,7 @@ class LensedPositions(PSBase):
                 point_amp = _expand_to_array(point_amp, len(x_pos))
         return np.array(point_amp)
 
-    def source_amplitude(self, kwargs_ps, kwargs_lens=None):
+    def source_amplitude(self, kwargs_ps, kwargs_lens=None, **kwargs):
         """Intrinsic brightness amplitude of point source When brightnesses are defined
         in magnified on-sky positions, the intrinsic brightness is computed as the mean
         in the magnification corrected image position brightnesses.
diff --git a/lenstronomy/PointSource/Types/source_position.py b/lenstronomy/PointSource/Types/source_position.py
index 07f1e01..a793ba3 100644
--- a/lenstronomy/PointSource/Types/source_position.py
+++ b/lenstronomy/PointSource/Types/source_position.py
@@ -110,7 +110,13 @@ class SourcePositions(PSBase):
         mag_pert = _shrink_array(mag_pert, len(point_amp))
         return np.array(point_amp) * np.array(mag_pert)
 
-    def source_amplitude(self, kwargs_ps, kwargs_lens=None):
+    def source_amplitude(
+        self,
+        kwargs_ps,
+        kwargs_lens=None,
+        magnification_limit=None,
+        kwargs_lens_eqn_solver=None,
+    ):
         """Intrinsic brightness amplitude of point source When brightnesses are defined
         in magnified on-sky positions, the intrinsic brightness is computed as the mean
         in the magnification corrected image position brightnesses.
@@ -118,12 +124,22 @@ class SourcePositions(PSBase):
         :param kwargs_ps: keyword arguments of the point source model
         :param kwargs_lens: keyword argument list of the lens model(s), used when
             brightness are defined in magnified on-sky positions
+        :param magnification_limit: float >0 or None, only images above this lensing
+            magnification (absolute value) are computed
+        :param kwargs_lens_eqn_solver: keyword arguments specifying the numerical
+            settings for the lens equation solver see LensEquationSolver() class for
+            details
         :return: brightness amplitude (as numpy array)
         """
         if self._fixed_magnification:
             source_amp = kwargs_ps["source_amp"]
         else:
-            ra_image, dec_image = self.image_position(kwargs_ps, kwargs_lens)
+            ra_image, dec_image = self.image_position(
+                kwargs_ps,
+                kwargs_lens,
+                magnification_limit=magnification_limit,
+                kwargs_lens_eqn_solver=kwargs_lens_eqn_solver,
+            )
             with self._source_redshift():
                 mag = self._lens_model.magnification(ra_image, dec_image, kwargs_lens)
             point_amp = kwargs_ps["point_amp"]
diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index a7e7bc9..fad86bd 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -395,7 +395,10 @@ class PointSource(object):
         amp_list = []
         for i, model in enumerate(self._point_source_list):
             source_amp = model.source_amplitude(
-                kwargs_ps=kwargs_ps[i], kwargs_lens=kwargs_lens
+                kwargs_ps=kwargs_ps[i],
+                kwargs_lens=kwargs_lens,
+                magnification_limit=self._magnification_limit,
+                kwargs_lens_eqn_solver=self._kwargs_lens_eqn_solver,
             )
             if self._flux_from_point_source_list[i]:
                 amp_list.append(source_amp)
diff --git a/lenstronomy/PointSource/point_source_cached.py b/lenstronomy/PointSource/point_source_cached.py
index 4bb89d4..9de1330 100644
--- a/lenstronomy/PointSource/point_source_cached.py
+++ b/lenstronomy/PointSource/point_source_cached.py
@@ -131,12 +131,29 @@ class PointSourceCached(object):
             kwargs_ps, kwargs_lens=kwargs_lens, x_pos=x_pos, y_pos=y_pos
         )
 
-    def source_amplitude(self, kwargs_ps, kwargs_lens=None):
+    def source_amplitude(
+        self,
+        kwargs_ps,
+        kwargs_lens=None,
+        magnification_limit=None,
+        kwargs_lens_eqn_solver=None,
+    ):
         """Intrinsic brightness amplitude of point source.
 
         :param kwargs_ps: keyword arguments of the point source model
         :param kwargs_lens: keyword argument list of the lens model(s), only used when
             positions are defined in image plane and have to be ray-traced back
+        :param magnification_limit: float >0 or None, if float is set and additional
+            images are computed, only those images will be computed that exceed the
+            lensing magnification (absolute value) limit
+        :param kwargs_lens_eqn_solver: keyword arguments specifying the numerical
+            settings for the lens equation solver see LensEquationSolver() class for
+            details
         :return: brightness amplitude (as numpy array)
         """
-        return self._model.source_amplitude(kwargs_ps, kwargs_lens=kwargs_lens)
+        return self._model.source_amplitude(
+            kwargs_ps,
+            kwargs_lens=kwargs_lens,
+            magnification_limit=magnification_limit,
+            kwargs_lens_eqn_solver=kwargs_lens_eqn_solver,
+        )
-- 
2.43.0


From bf7b4bf53be8ec7e49a2cbc1c90fd99c47c13526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:20 +0000
Subject: [PATCH 075/161] fix: check_image_positions traces images to the
 redshift and in the frame of their point source

---
 lenstronomy/PointSource/Types/base_ps.py      | 20 +++++++++++++++++++
 lenstronomy/PointSource/point_source.py       |  3 +--
 .../PointSource/point_source_cached.py        | 10 ++++++++++
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/PointSource/Types/base_ps.py b/lenstronomy/PointSource/Types/base_ps.py
index 04c5af9..14111c6 100644
--- a/lenstronomy/PointSource/Types/base_ps.py
+++ b/lenstronomy/PointSource/Types/base_ps.py
@@ -73,6 +73,26 @@ class PSBase(object):
         finally:
             self._lens_model.change_source_redshift(z_source)
 
+    def ray_shooting(self, x_image, y_image, kwargs_lens):
+        """Maps image positions to the redshift of the point source, each image in its
+        frame when frames are specified.
+
+        :param x_image: image positions
+        :param y_image: image positions
+        :param kwargs_lens: keyword argument list of the lens model(s)
+        :return: x-positions, y-positions in the source plane
+        """
+        with self._source_redshift():
+            if self.k_list is None:
+                return self._lens_model.ray_shooting(x_image, y_image, kwargs_lens)
+            xy = [
+                self._lens_model.ray_shooting(
+                    x_image[i], y_image[i], kwargs_lens, k=self.k_list[i]
+                )
+                for i in range(len(x_image))
+            ]
+        return np.array([x for x, y in xy]), np.array([y for x, y in xy])
+
     def image_position(self, kwargs_ps, **kwargs):
         """On-sky position.
 
diff --git a/lenstronomy/PointSource/point_source.py b/lenstronomy/PointSource/point_source.py
index fad86bd..e4865e2 100644
--- a/lenstronomy/PointSource/point_source.py
+++ b/lenstronomy/PointSource/point_source.py
@@ -510,8 +510,7 @@ class PointSource(object):
             if model in ["LENSED_POSITION", "SOURCE_POSITION"]:
                 x_pos = x_image_list[i]
                 y_pos = y_image_list[i]
-                # TODO: ray-trace to specific source redshift
-                x_source, y_source = self._lens_model.ray_shooting(
+                x_source, y_source = self._point_source_list[i].ray_shooting(
                     x_pos, y_pos, kwargs_lens
                 )
                 dist = np.sqrt(
diff --git a/lenstronomy/PointSource/point_source_cached.py b/lenstronomy/PointSource/point_source_cached.py
index 9de1330..3d5f52a 100644
--- a/lenstronomy/PointSource/point_source_cached.py
+++ b/lenstronomy/PointSource/point_source_cached.py
@@ -131,6 +131,16 @@ class PointSourceCached(object):
             kwargs_ps, kwargs_lens=kwargs_lens, x_pos=x_pos, y_pos=y_pos
         )
 
+    def ray_shooting(self, x_image, y_image, kwargs_lens):
+        """Maps image positions to the redshift of the point source.
+
+        :param x_image: image positions
+        :param y_image: image positions
+        :param kwargs_lens: keyword argument list of the lens model(s)
+        :return: x-positions, y-positions in the source plane
+        """
+        return self._model.ray_shooting(x_image, y_image, kwargs_lens)
+
     def source_amplitude(
         self,
         kwargs_ps,
-- 
2.43.0


From b87cf85950ea76f840959d777e18f5a7b3d4f919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:38 +0000
Subject: [PATCH 076/161] fix: no linear parameters are counted when the linear
 solver is off

---
 lenstronomy/LightModel/light_param.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/LightModel/light_param.py b/lenstronomy/LightModel/light_param.py
index 9ad3824..e10b502 100644
--- a/lenstronomy/LightModel/light_param.py
+++ b/lenstronomy/LightModel/light_param.py
@@ -262,4 +262,6 @@ class LightParam(object):
         """
         :return: number of linear basis set coefficients
         """
+        if not self._linear_solve:
+            return 0
         return self._lightModel.num_param_linear(kwargs_list=self.kwargs_fixed)
-- 
2.43.0


From b93968c7f524795e5ba92b700b267a07dd3bca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:38 +0000
Subject: [PATCH 077/161] fix: bounds on array parameters do not change the
 arguments of the caller

---
 lenstronomy/Sampling/param_group.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/param_group.py b/lenstronomy/Sampling/param_group.py
index 35a75aa..da9495d 100644
--- a/lenstronomy/Sampling/param_group.py
+++ b/lenstronomy/Sampling/param_group.py
@@ -7,6 +7,8 @@ parameters you can safely ignore this.
 __author__ = "jhodonnell"
 __all__ = ["ModelParamGroup", "SingleParam", "ArrayParam"]
 
+import copy
+
 import numpy as np
 
 
@@ -303,7 +305,8 @@ class ArrayParam(ModelParamGroup):
         params = {}
         for name, count in self.param_names.items():
             if name not in kwargs_fixed:
-                params[name] = args[i : i + count]
+                # copy, such that imposing bounds does not change the arguments
+                params[name] = copy.copy(args[i : i + count])
 
                 if kwargs_lower is not None:
                     for j in range(len(params[name])):
-- 
2.43.0


From c4c26e23c25e4a19f26cf1c542f187944e26b933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:38 +0000
Subject: [PATCH 078/161] fix: optical depth models without fixed parameters
 can be sampled

---
 lenstronomy/Sampling/parameters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lenstronomy/Sampling/parameters.py b/lenstronomy/Sampling/parameters.py
index 1556b09..f14d836 100644
--- a/lenstronomy/Sampling/parameters.py
+++ b/lenstronomy/Sampling/parameters.py
@@ -322,6 +322,10 @@ class Param(object):
             kwargs_fixed_tracer_source = [
                 {} for _ in range(len(self._tracer_source_model_list))
             ]
+        if kwargs_fixed_extinction is None:
+            kwargs_fixed_extinction = [
+                {} for _ in range(len(self._optical_depth_model_list))
+            ]
         if kwargs_fixed_special is None:
             kwargs_fixed_special = {}
 
-- 
2.43.0


From c34f3b3eb49c618472021c7a1c836c6e456fcb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:38 +0000
Subject: [PATCH 079/161] fix: the constraint solver uses the sampled redshifts

---
 lenstronomy/Sampling/parameters.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lenstronomy/Sampling/parameters.py b/lenstronomy/Sampling/parameters.py
index f14d836..e1b1e30 100644
--- a/lenstronomy/Sampling/parameters.py
+++ b/lenstronomy/Sampling/parameters.py
@@ -392,6 +392,7 @@ class Param(object):
         except:
             self._num_images = 0
         self._solver_type = solver_type
+        self._solver_param_module = solver_param_module
         if self._solver_type == "NONE" or self._solver_type is None:
             self._solver = False
         else:
@@ -1017,6 +1018,13 @@ class Param(object):
             self._image2SourceMapping = Image2SourceMapping(
                 lens_model=self._lens_model_class, source_model=self._source_model_class
             )
+            if self._solver is True:
+                self._solver_module = Solver(
+                    solver_type=self._solver_type,
+                    lensModel=self._lens_model_class,
+                    num_images=self._num_images,
+                    parameter_module=self._solver_param_module,
+                )
 
     def check_solver(self, kwargs_lens, kwargs_ps):
         """Test whether the image positions map back to the same source position :param
-- 
2.43.0


From 48c6fda0bb31945b9a7752fc5fa3983c4836c93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:52 +0000
Subject: [PATCH 080/161] fix: amplitude lists of SHAPELETS_ELLIPSE and MGE_SET
 light profiles can be sampled

---
 lenstronomy/LightModel/light_param.py | 35 ++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/LightModel/light_param.py b/lenstronomy/LightModel/light_param.py
index e10b502..1f9a980 100644
--- a/lenstronomy/LightModel/light_param.py
+++ b/lenstronomy/LightModel/light_param.py
@@ -79,7 +79,13 @@ class LightParam(object):
             for name in param_names:
                 if name not in kwargs_fixed:
                     if (
-                        model in ["SHAPELETS", "SHAPELETS_POLAR", "SHAPELETS_POLAR_EXP"]
+                        model
+                        in [
+                            "SHAPELETS",
+                            "SHAPELETS_POLAR",
+                            "SHAPELETS_POLAR_EXP",
+                            "SHAPELETS_ELLIPSE",
+                        ]
                         and name == "amp"
                     ):
                         if "n_max" in kwargs_fixed:
@@ -117,6 +123,10 @@ class LightParam(object):
                         num_param = n_scales * n_pixels
                         kwargs["amp"] = args[i : i + num_param]
                         i += num_param
+                    elif model in ["MGE_SET", "MGE_SET_ELLIPSE"] and name == "amp":
+                        num_param = self._lightModel.func_list[k].num_linear
+                        kwargs["amp"] = args[i : i + num_param]
+                        i += num_param
                     else:
                         kwargs[name] = args[i]
                         i += 1
@@ -141,7 +151,13 @@ class LightParam(object):
             for name in param_names:
                 if name not in kwargs_fixed:
                     if (
-                        model in ["SHAPELETS", "SHAPELETS_POLAR", "SHAPELETS_POLAR_EXP"]
+                        model
+                        in [
+                            "SHAPELETS",
+                            "SHAPELETS_POLAR",
+                            "SHAPELETS_POLAR_EXP",
+                            "SHAPELETS_ELLIPSE",
+                        ]
                         and name == "amp"
                     ):
                         n_max = kwargs_fixed.get("n_max", kwargs.get("n_max"))
@@ -196,6 +212,8 @@ class LightParam(object):
                         raise ValueError(
                             "'sigma' must be a fixed keyword argument for MULTI_GAUSSIAN"
                         )
+                    elif model in ["MGE_SET", "MGE_SET_ELLIPSE"] and name == "amp":
+                        args += list(kwargs["amp"])
                     else:
                         args.append(kwargs[name])
         return args
@@ -213,7 +231,13 @@ class LightParam(object):
             for name in param_names:
                 if name not in kwargs_fixed:
                     if (
-                        model in ["SHAPELETS", "SHAPELETS_POLAR", "SHAPELETS_POLAR_EXP"]
+                        model
+                        in [
+                            "SHAPELETS",
+                            "SHAPELETS_POLAR",
+                            "SHAPELETS_POLAR_EXP",
+                            "SHAPELETS_ELLIPSE",
+                        ]
                         and name == "amp"
                     ):
                         if "n_max" not in kwargs_fixed:
@@ -253,6 +277,11 @@ class LightParam(object):
                         num += num_param
                         for i in range(num_param):
                             name_list.append(str(name + "_" + self._type + str(k)))
+                    elif model in ["MGE_SET", "MGE_SET_ELLIPSE"] and name == "amp":
+                        num_param = self._lightModel.func_list[k].num_linear
+                        num += num_param
+                        for i in range(num_param):
+                            name_list.append(str(name + "_" + self._type + str(k)))
                     else:
                         num += 1
                         name_list.append(str(name + "_" + self._type + str(k)))
-- 
2.43.0


From d73a71983792d3824ff55071359a32a55373f1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:54 +0000
Subject: [PATCH 081/161] fix: CONST_MAG default limits leave a range for the
 magnifications

---
 lenstronomy/LensModel/Profiles/const_mag.py | 366 ++++++++++----------
 1 file changed, 183 insertions(+), 183 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/const_mag.py b/lenstronomy/LensModel/Profiles/const_mag.py
index 966e102..26dae58 100644
--- a/lenstronomy/LensModel/Profiles/const_mag.py
+++ b/lenstronomy/LensModel/Profiles/const_mag.py
@@ -1,183 +1,183 @@
-__author__ = "gipagano"
-
-import numpy as np
-from lenstronomy.LensModel.Profiles.base_profile import LensProfileBase
-
-__all__ = ["ConstMag"]
-
-
-class ConstMag(LensProfileBase):
-    """This class implements the macromodel potential of Diego et al.
-
-    `ConstMag` assumes constant radial and tangential magnification components.
-
-    The lensing potential is given by:
-
-    .. math::
-        \\psi(\\theta_x, \\theta_y) = \\frac{\\kappa}{2}(\\theta_x^2 + \\theta_y^2) + \\frac{\\gamma_1}{2}(\\theta_x^2 - \\theta_y^2) - \\gamma_2(\\theta_x \\theta_y)
-
-    where:
-    :math:`\\theta_x` and :math:`\\theta_y` are angular coordinates in the image plane,
-    :math:`\\gamma_1` and :math:`\\gamma_2` are the horizontal and vertical components of shear, respectively, and
-    :math:`\\kappa` is the convergence.
-
-
-    :math:`\\kappa` and :math:`\\gamma` depend on the parity. A negative parity means the image becomes inverted compared to the source.
-
-    For positive parity (:math:`\\text{parity} = +1`):
-
-    .. math::
-        \\gamma = \\frac{1}{2} \\left(\\frac{1}{\\mu_t} - \\frac{1}{\\mu_r}\\right)
-        \\kappa = 1 - \\gamma - \\frac{1}{\\mu_r}
-
-    For negative parity (:math:`\\text{parity} = -1`):
-
-    .. math::
-        \\gamma = \\frac{1}{2} \\left(\\frac{1}{\\mu_t} + \\frac{1}{\\mu_r}\\right)
-        \\kappa = 1 - \\gamma + \\frac{1}{\\mu_r}
-
-    where :math:`mu_r` and :math:`mu_t` are the radial and tangental components of magnification, respectively.
-
-    The shear components are calculated as:
-
-    .. math::
-        \\gamma_1 = \\gamma\\cos{2\\phi_G}
-        \\gamma_2 = -\\gamma\\sin{2\\phi_G}
-
-    where :math:`\\phi_G` is the shear orientation angle relative to the x-axis.
-
-    For a detailed derivation see <https://www.aanda.org/articles/aa/pdf/2019/07/aa35490-19.pdf>`
-    _
-    Convergence and shear are computed according to `Diego2018 <arXiv:1706.10281v2>`
-    """
-
-    param_names = ["center_x", "center_y", "mu_r", "mu_t", "parity", "phi_G"]
-    lower_limit_default = {
-        "center_x": -100,
-        "center_y": -100,
-        "mu_r": 1,
-        "mu_t": 1000,
-        "parity": -1,
-        "phi_G": 0.0,
-    }
-    upper_limit_default = {
-        "center_x": 100,
-        "center_y": 100,
-        "mu_r": 1,
-        "mu_t": 1000,
-        "parity": 1,
-        "phi_G": np.pi,
-    }
-
-    def function(self, x, y, mu_r, mu_t, parity, phi_G, center_x=0, center_y=0):
-        """
-
-        :param x: x-coord (in angles)
-        :param y: y-coord (in angles)
-        :param mu_r: radial magnification
-        :param mu_t: tangential magnification
-        :param parity: parity side of the macromodel. Either +1 (positive parity) or -1 (negative parity)
-        :param phi_G: shear orientation angle (relative to the x-axis)
-        :return: lensing potential
-        """
-
-        # positive parity case
-        if parity == 1:
-            gamma = (1.0 / mu_t - 1.0 / mu_r) * 0.5
-            kappa = 1 - gamma - 1.0 / mu_r
-
-        # negative parity case
-        elif parity == -1:
-            gamma = (1.0 / mu_t + 1.0 / mu_r) * 0.5
-            kappa = 1 - gamma + 1.0 / mu_r
-        else:
-            raise ValueError(
-                "%f is not a valid value for the parity of the macromodel. Choose either +1 or -1."
-                % parity
-            )
-
-        # compute the shear along the x and y directions, rotate the vector in the opposite direction than the reference frame (compare with util.rotate)
-        gamma1, gamma2 = gamma * np.cos(2 * phi_G), -gamma * np.sin(2 * phi_G)
-
-        x_shift = x - center_x
-        y_shift = y - center_y
-        f_ = (
-            1.0 / 2.0 * kappa * (x_shift * x_shift + y_shift * y_shift)
-            + 1.0 / 2.0 * gamma1 * (x_shift * x_shift - y_shift * y_shift)
-            - gamma2 * x_shift * y_shift
-        )
-
-        return f_
-
-    def derivatives(self, x, y, mu_r, mu_t, parity, phi_G, center_x=0, center_y=0):
-        """
-
-        :param x: x-coord (in angles)
-        :param y: y-coord (in angles)
-        :param mu_r: radial magnification
-        :param mu_t: tangential magnification
-        :param parity: parity of the side of the macromodel. Either +1 (positive parity) or -1 (negative parity)
-        :param phi_G: shear orientation angle (relative to the x-axis)
-        :return: deflection angle (in angles)
-        """
-
-        # positive parity case
-        if parity == 1:
-            gamma = (1.0 / mu_t - 1.0 / mu_r) * 0.5
-            kappa = 1 - gamma - 1.0 / mu_r
-
-        # negative parity case
-        elif parity == -1:
-            gamma = (1.0 / mu_t + 1.0 / mu_r) * 0.5
-            kappa = 1 - gamma + 1.0 / mu_r
-        else:
-            raise ValueError(
-                "%f is not a valid value for the parity of the macromodel. Choose either +1 or -1."
-                % parity
-            )
-
-        # compute the shear along the x and y directions, rotate the vector in the opposite direction than the reference frame (compare with util.rotate)
-        gamma1, gamma2 = gamma * np.cos(2 * phi_G), -gamma * np.sin(2 * phi_G)
-
-        x_shift = x - center_x
-        y_shift = y - center_y
-        f_x = (kappa + gamma1) * x_shift - gamma2 * y_shift
-        f_y = (kappa - gamma1) * y_shift - gamma2 * x_shift
-
-        return f_x, f_y
-
-    def hessian(self, x, y, mu_r, mu_t, parity, phi_G, center_x=0, center_y=0):
-        """
-
-        :param x: x-coord (in angles)
-        :param y: y-coord (in angles)
-        :param mu_r: radial magnification
-        :param mu_t: tangential magnification
-        :param parity: parity of the side of the macromodel. Either +1 (positive parity) or -1 (negative parity)
-        :param phi_G: shear orientation angle (relative to the x-axis)
-        :return: hessian matrix (in angles)
-        """
-
-        # positive parity case
-        if parity == 1:
-            gamma = (1.0 / mu_t - 1.0 / mu_r) * 0.5
-            kappa = 1 - gamma - 1.0 / mu_r
-
-        # negative parity case
-        elif parity == -1:
-            gamma = (1.0 / mu_t + 1.0 / mu_r) * 0.5
-            kappa = 1 - gamma + 1.0 / mu_r
-        else:
-            raise ValueError(
-                "%f is not a valid value for the parity of the macromodel. Choose either +1 or -1."
-                % parity
-            )
-
-        # compute the shear along the x and y directions, rotate the vector in the opposite direction than the reference frame (compare with util.rotate)
-        gamma1, gamma2 = gamma * np.cos(2 * phi_G), -gamma * np.sin(2 * phi_G)
-
-        f_xx = kappa + gamma1
-        f_yy = kappa - gamma1
-        f_xy = -gamma2
-
-        return f_xx, f_xy, f_xy, f_yy
+__author__ = "gipagano"
+
+import numpy as np
+from lenstronomy.LensModel.Profiles.base_profile import LensProfileBase
+
+__all__ = ["ConstMag"]
+
+
+class ConstMag(LensProfileBase):
+    """This class implements the macromodel potential of Diego et al.
+
+    `ConstMag` assumes constant radial and tangential magnification components.
+
+    The lensing potential is given by:
+
+    .. math::
+        \\psi(\\theta_x, \\theta_y) = \\frac{\\kappa}{2}(\\theta_x^2 + \\theta_y^2) + \\frac{\\gamma_1}{2}(\\theta_x^2 - \\theta_y^2) - \\gamma_2(\\theta_x \\theta_y)
+
+    where:
+    :math:`\\theta_x` and :math:`\\theta_y` are angular coordinates in the image plane,
+    :math:`\\gamma_1` and :math:`\\gamma_2` are the horizontal and vertical components of shear, respectively, and
+    :math:`\\kappa` is the convergence.
+
+
+    :math:`\\kappa` and :math:`\\gamma` depend on the parity. A negative parity means the image becomes inverted compared to the source.
+
+    For positive parity (:math:`\\text{parity} = +1`):
+
+    .. math::
+        \\gamma = \\frac{1}{2} \\left(\\frac{1}{\\mu_t} - \\frac{1}{\\mu_r}\\right)
+        \\kappa = 1 - \\gamma - \\frac{1}{\\mu_r}
+
+    For negative parity (:math:`\\text{parity} = -1`):
+
+    .. math::
+        \\gamma = \\frac{1}{2} \\left(\\frac{1}{\\mu_t} + \\frac{1}{\\mu_r}\\right)
+        \\kappa = 1 - \\gamma + \\frac{1}{\\mu_r}
+
+    where :math:`mu_r` and :math:`mu_t` are the radial and tangental components of magnification, respectively.
+
+    The shear components are calculated as:
+
+    .. math::
+        \\gamma_1 = \\gamma\\cos{2\\phi_G}
+        \\gamma_2 = -\\gamma\\sin{2\\phi_G}
+
+    where :math:`\\phi_G` is the shear orientation angle relative to the x-axis.
+
+    For a detailed derivation see <https://www.aanda.org/articles/aa/pdf/2019/07/aa35490-19.pdf>`
+    _
+    Convergence and shear are computed according to `Diego2018 <arXiv:1706.10281v2>`
+    """
+
+    param_names = ["center_x", "center_y", "mu_r", "mu_t", "parity", "phi_G"]
+    lower_limit_default = {
+        "center_x": -100,
+        "center_y": -100,
+        "mu_r": 0,
+        "mu_t": 0,
+        "parity": -1,
+        "phi_G": 0.0,
+    }
+    upper_limit_default = {
+        "center_x": 100,
+        "center_y": 100,
+        "mu_r": 1000,
+        "mu_t": 1000,
+        "parity": 1,
+        "phi_G": np.pi,
+    }
+
+    def function(self, x, y, mu_r, mu_t, parity, phi_G, center_x=0, center_y=0):
+        """
+
+        :param x: x-coord (in angles)
+        :param y: y-coord (in angles)
+        :param mu_r: radial magnification
+        :param mu_t: tangential magnification
+        :param parity: parity side of the macromodel. Either +1 (positive parity) or -1 (negative parity)
+        :param phi_G: shear orientation angle (relative to the x-axis)
+        :return: lensing potential
+        """
+
+        # positive parity case
+        if parity == 1:
+            gamma = (1.0 / mu_t - 1.0 / mu_r) * 0.5
+            kappa = 1 - gamma - 1.0 / mu_r
+
+        # negative parity case
+        elif parity == -1:
+            gamma = (1.0 / mu_t + 1.0 / mu_r) * 0.5
+            kappa = 1 - gamma + 1.0 / mu_r
+        else:
+            raise ValueError(
+                "%f is not a valid value for the parity of the macromodel. Choose either +1 or -1."
+                % parity
+            )
+
+        # compute the shear along the x and y directions, rotate the vector in the opposite direction than the reference frame (compare with util.rotate)
+        gamma1, gamma2 = gamma * np.cos(2 * phi_G), -gamma * np.sin(2 * phi_G)
+
+        x_shift = x - center_x
+        y_shift = y - center_y
+        f_ = (
+            1.0 / 2.0 * kappa * (x_shift * x_shift + y_shift * y_shift)
+            + 1.0 / 2.0 * gamma1 * (x_shift * x_shift - y_shift * y_shift)
+            - gamma2 * x_shift * y_shift
+        )
+
+        return f_
+
+    def derivatives(self, x, y, mu_r, mu_t, parity, phi_G, center_x=0, center_y=0):
+        """
+
+        :param x: x-coord (in angles)
+        :param y: y-coord (in angles)
+        :param mu_r: radial magnification
+        :param mu_t: tangential magnification
+        :param parity: parity of the side of the macromodel. Either +1 (positive parity) or -1 (negative parity)
+        :param phi_G: shear orientation angle (relative to the x-axis)
+        :return: deflection angle (in angles)
+        """
+
+        # positive parity case
+        if parity == 1:
+            gamma = (1.0 / mu_t - 1.0 / mu_r) * 0.5
+            kappa = 1 - gamma - 1.0 / mu_r
+
+        # negative parity case
+        elif parity == -1:
+            gamma = (1.0 / mu_t + 1.0 / mu_r) * 0.5
+            kappa = 1 - gamma + 1.0 / mu_r
+        else:
+            raise ValueError(
+                "%f is not a valid value for the parity of the macromodel. Choose either +1 or -1."
+                % parity
+            )
+
+        # compute the shear along the x and y directions, rotate the vector in the opposite direction than the reference frame (compare with util.rotate)
+        gamma1, gamma2 = gamma * np.cos(2 * phi_G), -gamma * np.sin(2 * phi_G)
+
+        x_shift = x - center_x
+        y_shift = y - center_y
+        f_x = (kappa + gamma1) * x_shift - gamma2 * y_shift
+        f_y = (kappa - gamma1) * y_shift - gamma2 * x_shift
+
+        return f_x, f_y
+
+    def hessian(self, x, y, mu_r, mu_t, parity, phi_G, center_x=0, center_y=0):
+        """
+
+        :param x: x-coord (in angles)
+        :param y: y-coord (in angles)
+        :param mu_r: radial magnification
+        :param mu_t: tangential magnification
+        :param parity: parity of the side of the macromodel. Either +1 (positive parity) or -1 (negative parity)
+        :param phi_G: shear orientation angle (relative to the x-axis)
+        :return: hessian matrix (in angles)
+        """
+
+        # positive parity case
+        if parity == 1:
+            gamma = (1.0 / mu_t - 1.0 / mu_r) * 0.5
+            kappa = 1 - gamma - 1.0 / mu_r
+
+        # negative parity case
+        elif parity == -1:
+            gamma = (1.0 / mu_t + 1.0 / mu_r) * 0.5
+            kappa = 1 - gamma + 1.0 / mu_r
+        else:
+            raise ValueError(
+                "%f is not a valid value for the parity of the macromodel. Choose either +1 or -1."
+                % parity
+            )
+
+        # compute the shear along the x and y directions, rotate the vector in the opposite direction than the reference frame (compare with util.rotate)
+        gamma1, gamma2 = gamma * np.cos(2 * phi_G), -gamma * np.sin(2 * phi_G)
+
+        f_xx = kappa + gamma1
+        f_yy = kappa - gamma1
+        f_xy = -gamma2
+
+        return f_xx, f_xy, f_xy, f_yy
-- 
2.43.0


From 801710b93c4b8919b14ffa65745cfba1ce53f8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:54 +0000
Subject: [PATCH 082/161] fix: ElliSLICE default limits include sigma_0

---
 lenstronomy/LensModel/Profiles/elliptical_density_slice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/LensModel/Profiles/elliptical_density_slice.py b/lenstronomy/LensModel/Profiles/elliptical_density_slice.py
index ee0f98d..10eabde 100644
--- a/lenstronomy/LensModel/Profiles/elliptical_density_slice.py
+++ b/lenstronomy/LensModel/Profiles/elliptical_density_slice.py
@@ -41,6 +41,7 @@ class ElliSLICE(LensProfileBase):
         "a": 0.0,
         "b": 0.0,
         "psi": -90.0 / 180.0 * np.pi,
+        "sigma_0": 0.0,
         "center_x": -100.0,
         "center_y": -100.0,
     }
@@ -48,6 +49,7 @@ class ElliSLICE(LensProfileBase):
         "a": 100.0,
         "b": 100.0,
         "psi": 90.0 / 180.0 * np.pi,
+        "sigma_0": 100.0,
         "center_x": 100.0,
         "center_y": 100.0,
     }
-- 
2.43.0


From be62769cb222d0c68ce704167a5ebcb506f25211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:54 +0000
Subject: [PATCH 083/161] fix: ARC_PERT has default parameter limits

---
 .../LensModel/Profiles/arc_perturbations.py        | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lenstronomy/LensModel/Profiles/arc_perturbations.py b/lenstronomy/LensModel/Profiles/arc_perturbations.py
index 12f3a6e..7ffb6f5 100644
--- a/lenstronomy/LensModel/Profiles/arc_perturbations.py
+++ b/lenstronomy/LensModel/Profiles/arc_perturbations.py
@@ -11,6 +11,20 @@ class ArcPerturbations(LensProfileBase):
     directions to perturb a lensing potential."""
 
     param_names = ["coeff", "d_r", "d_phi", "center_x", "center_y"]
+    lower_limit_default = {
+        "coeff": -100,
+        "d_r": 0,
+        "d_phi": 0,
+        "center_x": -100,
+        "center_y": -100,
+    }
+    upper_limit_default = {
+        "coeff": 100,
+        "d_r": 100,
+        "d_phi": 2 * np.pi,
+        "center_x": 100,
+        "center_y": 100,
+    }
 
     def __init__(self):
         super(ArcPerturbations, self).__init__()
-- 
2.43.0


From 03d475f5429e467cdb59155b59034c572a0093ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:54 +0000
Subject: [PATCH 084/161] fix: NIE_SIMPLE lists the parameters it accepts and
 their limits

---
 lenstronomy/LensModel/Profiles/nie.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Profiles/nie.py b/lenstronomy/LensModel/Profiles/nie.py
index 64b5c57..e796e5a 100644
--- a/lenstronomy/LensModel/Profiles/nie.py
+++ b/lenstronomy/LensModel/Profiles/nie.py
@@ -238,7 +238,9 @@ class NIEMajorAxis(LensProfileBase):
 
     """
 
-    param_names = ["b", "s", "q", "center_x", "center_y"]
+    param_names = ["b", "s", "q"]
+    lower_limit_default = {"b": 0, "s": 0, "q": 0}
+    upper_limit_default = {"b": 100, "s": 100, "q": 1}
 
     def __init__(self, diff=0.0000000001):
         self._diff = diff
-- 
2.43.0


From 8bdb00f501aa90031ffb99582d49c901ecc93bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:54 +0000
Subject: [PATCH 085/161] fix: CTNFW_GAUSS_DEC parameter names center_x and
 center_y separated

---
 lenstronomy/LensModel/Profiles/gauss_decomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/Profiles/gauss_decomposition.py b/lenstronomy/LensModel/Profiles/gauss_decomposition.py
index 4ca089e..49d4d79 100644
--- a/lenstronomy/LensModel/Profiles/gauss_decomposition.py
+++ b/lenstronomy/LensModel/Profiles/gauss_decomposition.py
@@ -555,7 +555,7 @@ class CTNFWGaussDec(GaussDecompositionAbstract3D):
     """This class computes the lensing properties of an projection from a spherical
     cored-truncated NFW profile using Shajib (2019)'s Gauss decomposition method."""
 
-    param_names = ["r_s", "r_core", "r_trunc", "a", "rho_s", "center_x" "center_y"]
+    param_names = ["r_s", "r_core", "r_trunc", "a", "rho_s", "center_x", "center_y"]
     lower_limit_default = {
         "r_s": 0,
         "r_core": 0,
-- 
2.43.0


From f345239b94699d5804856326b4b75140c9d8513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:54 +0000
Subject: [PATCH 086/161] fix: upper ellipticity limits of GAUSSIAN_ELLIPSE,
 MULTI_GAUSSIAN_ELLIPSE and LINEAR_ELLIPSE

---
 lenstronomy/LightModel/Profiles/gaussian.py | 8 ++++----
 lenstronomy/LightModel/Profiles/linear.py   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/LightModel/Profiles/gaussian.py b/lenstronomy/LightModel/Profiles/gaussian.py
index 74806de..0c7b2e4 100644
--- a/lenstronomy/LightModel/Profiles/gaussian.py
+++ b/lenstronomy/LightModel/Profiles/gaussian.py
@@ -87,8 +87,8 @@ class GaussianEllipse(object):
     upper_limit_default = {
         "amp": 1000,
         "sigma": 100,
-        "e1": -0.5,
-        "e2": -0.5,
+        "e1": 0.5,
+        "e2": 0.5,
         "center_x": 100,
         "center_y": 100,
     }
@@ -247,8 +247,8 @@ class MultiGaussianEllipse(object):
     upper_limit_default = {
         "amp": 1000,
         "sigma": 100,
-        "e1": -0.5,
-        "e2": -0.5,
+        "e1": 0.5,
+        "e2": 0.5,
         "center_x": 100,
         "center_y": 100,
     }
diff --git a/lenstronomy/LightModel/Profiles/linear.py b/lenstronomy/LightModel/Profiles/linear.py
index f8bf43f..487d7cf 100644
--- a/lenstronomy/LightModel/Profiles/linear.py
+++ b/lenstronomy/LightModel/Profiles/linear.py
@@ -74,8 +74,8 @@ class LinearEllipse(object):
     upper_limit_default = {
         "k": 1000,
         "amp": 100,
-        "e1": -0.5,
-        "e2": -0.5,
+        "e1": 0.5,
+        "e2": 0.5,
         "center_x": 100,
         "center_y": 100,
     }
-- 
2.43.0


From cc93a6d86d96daa24b90fa17a77ffba14c8aa884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:54 +0000
Subject: [PATCH 087/161] fix: CORE_SERSIC default limits include R_sersic

---
 lenstronomy/LightModel/Profiles/sersic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/LightModel/Profiles/sersic.py b/lenstronomy/LightModel/Profiles/sersic.py
index 486f8a8..815bbe4 100644
--- a/lenstronomy/LightModel/Profiles/sersic.py
+++ b/lenstronomy/LightModel/Profiles/sersic.py
@@ -222,6 +222,7 @@ class CoreSersic(SersicUtil):
     ]
     lower_limit_default = {
         "amp": 0,
+        "R_sersic": 0,
         "Rb": 0,
         "n_sersic": 0.5,
         "gamma": 0,
@@ -232,6 +233,7 @@ class CoreSersic(SersicUtil):
     }
     upper_limit_default = {
         "amp": 100,
+        "R_sersic": 100,
         "Rb": 100,
         "n_sersic": 8,
         "gamma": 10,
-- 
2.43.0


From 544bba4694fe02e5f041567ada65e645c4c27170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:00 +0000
Subject: [PATCH 088/161] fix: source-plane covariance with a rotational
 lensing Jacobian

---
 lenstronomy/Sampling/Likelihoods/position_likelihood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/position_likelihood.py b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
index b5f12f1..1c14fe3 100644
--- a/lenstronomy/Sampling/Likelihoods/position_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
@@ -335,5 +335,5 @@ def image2source_covariance(A, Sigma_theta):
     A: Hessian lensing matrix
     Sigma_theta: image plane covariance matrix of uncertainties
     """
-    ATSigma = np.matmul(A.T, Sigma_theta)
-    return np.matmul(ATSigma, A)
+    ASigma = np.matmul(A, Sigma_theta)
+    return np.matmul(ASigma, A.T)
-- 
2.43.0


From 1a8c849ee6336e23be8199a563ada758f8f05961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:00 +0000
Subject: [PATCH 089/161] fix: likelihoods that evaluate to NaN are rejected

---
 lenstronomy/Sampling/Likelihoods/image_likelihood.py    | 2 +-
 lenstronomy/Sampling/Likelihoods/position_likelihood.py | 2 +-
 lenstronomy/Sampling/Likelihoods/tracer_likelihood.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/image_likelihood.py b/lenstronomy/Sampling/Likelihoods/image_likelihood.py
index a16dd7a..d041d19 100644
--- a/lenstronomy/Sampling/Likelihoods/image_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/image_likelihood.py
@@ -82,7 +82,7 @@ class ImageLikelihood(object):
             linear_prior=self._linear_prior,
             check_positive_flux=self._check_positive_flux,
         )
-        if np.isnan(logL) is True:
+        if np.isnan(logL):
             return -(10**15), param
         return logL, param
 
diff --git a/lenstronomy/Sampling/Likelihoods/position_likelihood.py b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
index 1c14fe3..cee0701 100644
--- a/lenstronomy/Sampling/Likelihoods/position_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/position_likelihood.py
@@ -199,7 +199,7 @@ class PositionLikelihood(object):
             )
             dist = (delta_x**2 + delta_y**2) / sigma**2 / 2
             logL = -np.sum(dist)
-            if np.isnan(logL) is True:
+            if np.isnan(logL):
                 return -(10**15)
             return logL
         else:
diff --git a/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py b/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py
index c16686f..9932e05 100644
--- a/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/tracer_likelihood.py
@@ -71,7 +71,7 @@ class TracerLikelihood(object):
             kwargs_extinction=kwargs_extinction,
             kwargs_special=kwargs_special,
         )
-        if np.isnan(logL) is True:
+        if np.isnan(logL):
             return -(10**15)
         return logL
 
-- 
2.43.0


From 3ded98eb0c32448dc3af9f37d3e33f16ab1c15d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:00 +0000
Subject: [PATCH 090/161] fix: number of time-delay data points counts the
 measured delays

---
 lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
index 318828a..f192b2a 100644
--- a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
@@ -237,4 +237,4 @@ class TimeDelayLikelihood(object):
 
         :return: number of time delay measurements
         """
-        return len(self._delays_measured)
+        return int(sum(np.sum(mask) for mask in self._measurement_bool_list))
-- 
2.43.0


From 8afead3fa909e982a8af1fbbd7be54fd856a4888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:00 +0000
Subject: [PATCH 091/161] fix: bimodal time-delay likelihood does not underflow

---
 lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
index f192b2a..3c3e281 100644
--- a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
@@ -164,7 +164,7 @@ class TimeDelayLikelihood(object):
                     logL2 = self._log_delay_masked(
                         delay_days=delay_days, mask=mask, i=1
                     )
-                    logL_sum = np.log(np.exp(logL1) + np.exp(logL2))
+                    logL_sum = np.logaddexp(logL1, logL2)
                     logL += logL_sum
                 else:
                     logL += self._log_delay_masked(
-- 
2.43.0


From 3a758b5ea6a3d00f5be41266e25f4dbecab403e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:18 +0000
Subject: [PATCH 092/161] fix: KDE priors on special and extinction parameters
 are applied

---
 .../Sampling/Likelihoods/prior_likelihood.py  | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/prior_likelihood.py b/lenstronomy/Sampling/Likelihoods/prior_likelihood.py
index 02203b9..8cdcbe7 100644
--- a/lenstronomy/Sampling/Likelihoods/prior_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/prior_likelihood.py
@@ -73,7 +73,18 @@ class PriorLikelihood(object):
             self._prior_source_kde,
             self._prior_lens_light_kde,
             self._prior_ps_kde,
-        ) = (prior_lens_kde, prior_source_kde, prior_lens_light_kde, prior_ps_kde)
+            self._prior_extinction_kde,
+        ) = (
+            prior_lens_kde,
+            prior_source_kde,
+            prior_lens_light_kde,
+            prior_ps_kde,
+            prior_extinction_kde,
+        )
+        # special parameters come as a single keyword argument dictionary
+        if prior_special_kde is not None:
+            prior_special_kde = [[0, name, values] for name, values in prior_special_kde]
+        self._prior_special_kde = prior_special_kde
         (
             self._prior_lens_lognormal,
             self._prior_source_lognormal,
@@ -94,7 +105,8 @@ class PriorLikelihood(object):
         self._kde_source_list = self._init_kde(prior_source_kde)
         self._kde_lens_light_list = self._init_kde(prior_lens_light_kde)
         self._kde_ps_list = self._init_kde(prior_ps_kde)
-        self._kde_lens_light_list = self._init_kde(prior_lens_light_kde)
+        self._kde_special_list = self._init_kde(prior_special_kde)
+        self._kde_extinction_list = self._init_kde(prior_extinction_kde)
 
     @staticmethod
     def _init_kde(prior_list_kde):
@@ -161,6 +173,12 @@ class PriorLikelihood(object):
             kwargs_lens_light, self._prior_lens_light_kde, self._kde_lens_light_list
         )
         logL += self._prior_kde_list(kwargs_ps, self._prior_ps_kde, self._kde_ps_list)
+        logL += self._prior_kde_list(
+            [kwargs_special], self._prior_special_kde, self._kde_special_list
+        )
+        logL += self._prior_kde_list(
+            kwargs_extinction, self._prior_extinction_kde, self._kde_extinction_list
+        )
         return logL
 
     @staticmethod
-- 
2.43.0


From 520c2ac44a091e2fabdc969a0a2090d9b51c3824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:18 +0000
Subject: [PATCH 093/161] fix: KDE priors apply to all entries of an array
 parameter

---
 lenstronomy/Sampling/Likelihoods/prior_likelihood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/prior_likelihood.py b/lenstronomy/Sampling/Likelihoods/prior_likelihood.py
index 8cdcbe7..0090005 100644
--- a/lenstronomy/Sampling/Likelihoods/prior_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/prior_likelihood.py
@@ -195,8 +195,8 @@ class PriorLikelihood(object):
         for i in range(len(prior_list)):
             index, param_name, values = prior_list[i]
             model_value = kwargs_list[index][param_name]
-            likelihood = kde_list[i].likelihood(model_value)[0]
-            logL += np.log(likelihood)
+            likelihood = kde_list[i].likelihood(model_value)
+            logL += np.sum(np.log(likelihood))
         return logL
 
     @staticmethod
-- 
2.43.0


From 11c932cf4546989828813656eb67f9a2f31150d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:18 +0000
Subject: [PATCH 094/161] fix: time-delay measurement flags of the caller are
 not modified

---
 lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
index 3c3e281..fea82b5 100644
--- a/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py
@@ -90,6 +90,7 @@ class TimeDelayLikelihood(object):
                 raise ValueError(
                     "time_delay_measurement_bool_list must have the same length as the number of point sources."
                 )
+            time_delay_measurement_bool_list = list(time_delay_measurement_bool_list)
             for i in range(self._num_point_sources):
                 if isinstance(
                     time_delay_measurement_bool_list[i], (bool, np.bool_, int)
-- 
2.43.0


From 1562ddc5f88f51d67d2b6d255787458dbf8de744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:34 +0000
Subject: [PATCH 095/161] fix: set_param_value leaves the initial values and
 earlier results unchanged

---
 lenstronomy/Workflow/update_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/Workflow/update_manager.py b/lenstronomy/Workflow/update_manager.py
index bedbf0e..e53a835 100644
--- a/lenstronomy/Workflow/update_manager.py
+++ b/lenstronomy/Workflow/update_manager.py
@@ -443,6 +443,8 @@ class UpdateManager(object):
             lens_light = []
         if ps is None:
             ps = []
+        # the current state can be shared with the initial values or earlier results
+        self._kwargs_temp = copy.deepcopy(self._kwargs_temp)
         for items, kwargs_key in zip(
             [lens, source, lens_light, ps],
             ["kwargs_lens", "kwargs_source", "kwargs_lens_light", "kwargs_ps"],
-- 
2.43.0


From 3d6ac9aeb5ff245602f98e6b540748095ceb19e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:34 +0000
Subject: [PATCH 096/161] fix: update_settings does not modify the option
 dictionaries of the caller

---
 lenstronomy/Workflow/update_manager.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Workflow/update_manager.py b/lenstronomy/Workflow/update_manager.py
index e53a835..5213f20 100644
--- a/lenstronomy/Workflow/update_manager.py
+++ b/lenstronomy/Workflow/update_manager.py
@@ -33,9 +33,10 @@ class UpdateManager(object):
          'special': [kwargs_init, kwargs_sigma, kwargs_fixed, kwargs_lower, kwargs_upper]
 
         """
-        self.kwargs_model = kwargs_model
-        self.kwargs_constraints = kwargs_constraints
-        self.kwargs_likelihood = kwargs_likelihood
+        # copies, as the options can be updated during the fitting sequence
+        self.kwargs_model = copy.copy(kwargs_model)
+        self.kwargs_constraints = copy.copy(kwargs_constraints)
+        self.kwargs_likelihood = copy.copy(kwargs_likelihood)
 
         if kwargs_model.get("lens_model_list", None) is not None:
             (
-- 
2.43.0


From 5bcedc9f89f7b0d28c332ce86c314fe852ea4761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:53 +0000
Subject: [PATCH 097/161] fix: fixing and freeing parameters does not modify
 the caller's dictionaries or the state

---
 lenstronomy/Workflow/multi_band_manager.py | 6 +++++-
 lenstronomy/Workflow/update_manager.py     | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/multi_band_manager.py b/lenstronomy/Workflow/multi_band_manager.py
index f51bfa8..c60e4b9 100644
--- a/lenstronomy/Workflow/multi_band_manager.py
+++ b/lenstronomy/Workflow/multi_band_manager.py
@@ -64,10 +64,13 @@ class MultiBandUpdateManager(UpdateManager):
         :param frame_list_fixed: list of indexes of frames whose lens models to be fixed
         :return: updated fixed lens model parameter in the FittingSequence()
         """
+        self._lens_fixed = copy.deepcopy(self._lens_fixed)
         for j in frame_list_fixed:
             if self._index_lens_model_list[j] is not None:
                 for i in self._index_lens_model_list[j]:
-                    self._lens_fixed[i] = self._kwargs_temp["kwargs_lens"][i]
+                    self._lens_fixed[i] = copy.deepcopy(
+                        self._kwargs_temp["kwargs_lens"][i]
+                    )
 
     def undo_frame_fixed(self, frame_list):
         """
@@ -76,6 +79,7 @@ class MultiBandUpdateManager(UpdateManager):
             parameters in the class creation
         :return: updated fixed lens model parameter in the FittingSequence()
         """
+        self._lens_fixed = copy.deepcopy(self._lens_fixed)
         for j in frame_list:
             if self._index_lens_model_list[j] is not None:
                 for i in self._index_lens_model_list[j]:
diff --git a/lenstronomy/Workflow/update_manager.py b/lenstronomy/Workflow/update_manager.py
index 5213f20..3be7b8d 100644
--- a/lenstronomy/Workflow/update_manager.py
+++ b/lenstronomy/Workflow/update_manager.py
@@ -738,6 +738,7 @@ class UpdateManager(object):
          [[i_model, ['param_name1', 'param_name2', ...], [value1, value2, ... (optional)], [], ...]
         :return: updated kwargs_fixed
         """
+        kwargs_fixed = copy.deepcopy(kwargs_fixed)
         if add_fixed is None:
             add_fixed = []
         # fixed_kwargs = copy.deepcopy(kwargs_fixed)
-- 
2.43.0


From 268338644f3df0e789ae0ffff591b5b8aff14a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:53 +0000
Subject: [PATCH 098/161] fix: MCMC settings of the caller do not keep the
 previous samples

---
 lenstronomy/Workflow/fitting_sequence.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/Workflow/fitting_sequence.py b/lenstronomy/Workflow/fitting_sequence.py
index 1c73575..03e776c 100644
--- a/lenstronomy/Workflow/fitting_sequence.py
+++ b/lenstronomy/Workflow/fitting_sequence.py
@@ -143,10 +143,8 @@ class FittingSequence(object):
                 if fitting_type == "MCMC":
                     print("MCMC selected. Sampling with default option emcee.")
                     fitting_type = "emcee"
-                if "init_samples" not in kwargs:
-                    kwargs["init_samples"] = self._mcmc_init_samples
-                elif kwargs["init_samples"] is None:
-                    kwargs["init_samples"] = self._mcmc_init_samples
+                if kwargs.get("init_samples", None) is None:
+                    kwargs = {**kwargs, "init_samples": self._mcmc_init_samples}
                 mcmc_output = self.mcmc(**kwargs, sampler_type=fitting_type)
                 kwargs_result = self._result_from_mcmc(mcmc_output)
                 self._updateManager.update_param_state(**kwargs_result)
-- 
2.43.0


From d24ee317aee484419beaa4523119fc9bfc7cc14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:53 +0000
Subject: [PATCH 099/161] fix: flux calibration is used by the following
 fitting steps

---
 lenstronomy/Workflow/fitting_sequence.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lenstronomy/Workflow/fitting_sequence.py b/lenstronomy/Workflow/fitting_sequence.py
index 03e776c..604c73a 100644
--- a/lenstronomy/Workflow/fitting_sequence.py
+++ b/lenstronomy/Workflow/fitting_sequence.py
@@ -742,6 +742,10 @@ class FittingSequence(object):
             scaling_upper_limit=scaling_upper_limit,
         )
         self.multi_band_list = multi_band_list
+        self.kwargs_data_joint = {
+            **self.kwargs_data_joint,
+            "multi_band_list": multi_band_list,
+        }
         return 0
 
     def update_settings(
-- 
2.43.0


From a4be44943f8fb1f97ac642adfb52fe7cefc0a16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:53 +0000
Subject: [PATCH 100/161] fix: nested sampling with dynesty sets the state to
 the best fit

---
 lenstronomy/Workflow/fitting_sequence.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/fitting_sequence.py b/lenstronomy/Workflow/fitting_sequence.py
index 604c73a..83ad865 100644
--- a/lenstronomy/Workflow/fitting_sequence.py
+++ b/lenstronomy/Workflow/fitting_sequence.py
@@ -571,7 +571,12 @@ class FittingSequence(object):
             )
 
         # update current best fit values
-        self._update_state(samples[-1])
+        if sampler_type == "dynesty":
+            # samples are re-drawn with equal weights and in random order
+            best_fit = results_object.samples[np.argmax(results_object.logl)]
+        else:
+            best_fit = samples[-1]
+        self._update_state(best_fit)
 
         output = [
             sampler_type,
-- 
2.43.0


From 54937c75d91069a973bc5060994c6ce05daa01ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:41 +0000
Subject: [PATCH 101/161] fix: particles of the swarm remember their personal
 best position

---
 lenstronomy/Sampling/Samplers/pso.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/Samplers/pso.py b/lenstronomy/Sampling/Samplers/pso.py
index ff1d1ec..89af49e 100644
--- a/lenstronomy/Sampling/Samplers/pso.py
+++ b/lenstronomy/Sampling/Samplers/pso.py
@@ -144,7 +144,10 @@ class ParticleSwarmOptimizer(object):
                     # print("new global best found %i %s"%(i,
                     # self.global_best.__str__()))
 
-                if particle.fitness > particle.personal_best.fitness:
+                if (
+                    particle.personal_best is particle
+                    or particle.fitness > particle.personal_best.fitness
+                ):
                     particle.update_personal_best()
 
             if i >= max_iter:
-- 
2.43.0


From d43c742f2f3b639cfcbc4196afe82c26466c29f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:47 +0000
Subject: [PATCH 102/161] fix: concentration from the density normalisation for
 every redshift and concentration

---
 lenstronomy/Cosmo/gnfw_param.py | 23 ++++-------------------
 lenstronomy/Cosmo/nfw_param.py  |  9 +++++----
 2 files changed, 9 insertions(+), 23 deletions(-)

diff --git a/lenstronomy/Cosmo/gnfw_param.py b/lenstronomy/Cosmo/gnfw_param.py
index e93b232..57ee82f 100644
--- a/lenstronomy/Cosmo/gnfw_param.py
+++ b/lenstronomy/Cosmo/gnfw_param.py
@@ -129,27 +129,12 @@ class GNFWParam(object):
         :return: concentration parameter c
         :rtype: float
         """
-        c_array = np.linspace(0.1, 30, 100)
-        if not hasattr(self, "_rho0_c_gamma_in_interps"):
-            gamma_in_array = np.linspace(0.1, 2.99, 100)
-            self._rho0_c_gamma_in_interps = []
-
-            for i in range(len(c_array)):
-                rho0_array = self.rho0_c(c_array[i], z, gamma_in_array)
-
-                self._rho0_c_gamma_in_interps.append(
-                    interpolate.InterpolatedUnivariateSpline(
-                        gamma_in_array, rho0_array, w=None, bbox=[None, None], k=3
-                    )
-                )
-
-        rho0_interp = [interp(gamma_in) for interp in self._rho0_c_gamma_in_interps]
-
+        c_array = np.logspace(-2, 3, 1000)
+        rho0_array = self.rho0_c(c_array, z, gamma_in)
         c_rho0_interp = interpolate.InterpolatedUnivariateSpline(
-            rho0_interp, c_array, w=None, bbox=[None, None], k=3
+            np.log(rho0_array), np.log(c_array), w=None, bbox=[None, None], k=3
         )
-
-        return c_rho0_interp(rho0)
+        return np.exp(c_rho0_interp(np.log(rho0)))
 
     def c_M_z(self, M, z):
         """
diff --git a/lenstronomy/Cosmo/nfw_param.py b/lenstronomy/Cosmo/nfw_param.py
index 598971d..99f13de 100644
--- a/lenstronomy/Cosmo/nfw_param.py
+++ b/lenstronomy/Cosmo/nfw_param.py
@@ -103,13 +103,14 @@ class NFWParam(object):
         :rtype: float
         """
         if not hasattr(self, "_c_rho0_interp"):
-            c_array = np.linspace(0.1, 30, 100)
-            rho0_array = self.rho0_c(c_array, z)
+            # the overdensity rho0 / rhoc(z) is a function of concentration only
+            c_array = np.logspace(-2, 3, 1000)
+            delta_array = self.rho0_c(c_array, z) / self.rhoc_z(z)
 
             self._c_rho0_interp = interpolate.InterpolatedUnivariateSpline(
-                rho0_array, c_array, w=None, bbox=[None, None], k=3
+                np.log(delta_array), np.log(c_array), w=None, bbox=[None, None], k=3
             )
-        return self._c_rho0_interp(rho0)
+        return np.exp(self._c_rho0_interp(np.log(rho0 / self.rhoc_z(z))))
 
     @staticmethod
     def c_M_z(M, z):
-- 
2.43.0


From 6fc5308421a8bc2f426809e6e7ec30783175057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:46 +0000
Subject: [PATCH 103/161] fix: rotated frame aperture excludes its rotated
 inner part

---
 lenstronomy/GalKin/aperture_types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/GalKin/aperture_types.py b/lenstronomy/GalKin/aperture_types.py
index 5c508a5..f70c801 100644
--- a/lenstronomy/GalKin/aperture_types.py
+++ b/lenstronomy/GalKin/aperture_types.py
@@ -266,8 +266,9 @@ class Frame(ApertureBase):
             self._angle,
         )
         bins = np.zeros_like(x_grid, dtype=int)
-        mask_inner = (np.abs(x_grid - center_ra) < width_inner / 2) & (
-            np.abs(y_grid - center_dec) < width_inner / 2
+        x_frame, y_frame = _rotate(x_grid - center_ra, y_grid - center_dec, -angle)
+        mask_inner = (np.abs(x_frame) < width_inner / 2) & (
+            np.abs(y_frame) < width_inner / 2
         )
         bins[mask_inner] = -1
 
-- 
2.43.0


From c616111df05481bcc9ba4e2d98cba4e59e352c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:46 +0000
Subject: [PATCH 104/161] fix: shell apertures are centred on their centre

---
 lenstronomy/GalKin/aperture_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/GalKin/aperture_types.py b/lenstronomy/GalKin/aperture_types.py
index f70c801..9b3b109 100644
--- a/lenstronomy/GalKin/aperture_types.py
+++ b/lenstronomy/GalKin/aperture_types.py
@@ -346,7 +346,7 @@ class Shell(ApertureBase):
             self._center_ra,
             self._center_dec,
         )
-        r_grid = np.sqrt(x_grid**2 + y_grid**2)
+        r_grid = np.sqrt((x_grid - center_ra) ** 2 + (y_grid - center_dec) ** 2)
         bins = np.zeros_like(x_grid, dtype=int)
         bins[r_grid < self._r_in] = -1
         bins[r_grid > self._r_out] = -1
@@ -516,7 +516,7 @@ class IFUShells(ApertureBase):
             center_ra,
             center_dec,
         )
-        r_grid = np.sqrt(x_grid**2 + y_grid**2)
+        r_grid = np.sqrt((x_grid - center_ra) ** 2 + (y_grid - center_dec) ** 2)
         bins = np.ones_like(x_grid, dtype=int) * -1
         for i in range(len(r_bins) - 1):
             mask = (r_grid >= r_bins[i]) & (r_grid < r_bins[i + 1])
-- 
2.43.0


From d736acecbbfba5762eadf464a4884743a3186e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:46 +0000
Subject: [PATCH 105/161] fix: IFU pixels are selected on rotated grids and
 grids with decreasing coordinates

---
 lenstronomy/GalKin/aperture_types.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/GalKin/aperture_types.py b/lenstronomy/GalKin/aperture_types.py
index 9b3b109..57b922b 100644
--- a/lenstronomy/GalKin/aperture_types.py
+++ b/lenstronomy/GalKin/aperture_types.py
@@ -441,7 +441,10 @@ class IFUGrid(ApertureBase):
         :param dec: angular coordinate of photon/ray
         :return: bool, True if photon/ray is within the slit, False otherwise, index of shell
         """
-        return grid_ifu_select(ra, dec, self._x_grid, self._y_grid)
+        return grid_ifu_select(
+            *_rotate(ra, dec, -self._angle),
+            *_rotate(self._x_grid, self._y_grid, -self._angle),
+        )
 
     @property
     def num_segments(self):
@@ -472,8 +475,8 @@ def grid_ifu_select(ra, dec, x_grid, y_grid):
     :param y_grid: array of y_grid bins
     :return: boolean, True if within the grid range, False otherwise
     """
-    x_pixel_size = x_grid[0, 1] - x_grid[0, 0]
-    y_pixel_size = y_grid[1, 0] - y_grid[0, 0]
+    x_pixel_size = np.abs(x_grid[0, 1] - x_grid[0, 0])
+    y_pixel_size = np.abs(y_grid[1, 0] - y_grid[0, 0])
 
     for i in range(x_grid.shape[0]):
         for j in range(x_grid.shape[1]):
@@ -603,7 +606,10 @@ class IFUBinned(ApertureBase):
         :param dec: angular coordinate of photon/ray
         :return: bool, True if photon/ray is within the slit, False otherwise, and bin id
         """
-        in_grid, grid_loc = grid_ifu_select(ra, dec, self._x_grid, self._y_grid)
+        in_grid, grid_loc = grid_ifu_select(
+            *_rotate(ra, dec, -self._angle),
+            *_rotate(self._x_grid, self._y_grid, -self._angle),
+        )
         if in_grid:
             bin_id = self.bins[grid_loc]
             if bin_id > -1:
-- 
2.43.0


From f2fdb7e32ed79f3e6ffbdbb3b0c43a259d3ac695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:46 +0000
Subject: [PATCH 106/161] fix: analytic kinematics leaves the mass arguments
 unchanged

---
 lenstronomy/GalKin/analytic_kinematics.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/GalKin/analytic_kinematics.py b/lenstronomy/GalKin/analytic_kinematics.py
index ad46a12..91d8c6b 100644
--- a/lenstronomy/GalKin/analytic_kinematics.py
+++ b/lenstronomy/GalKin/analytic_kinematics.py
@@ -185,13 +185,11 @@ class AnalyticKinematics(Anisotropy):
         """
         a = self._get_hernquist_scale_radius(kwargs_light)
 
-        if "rho0_r0_gamma" not in kwargs_mass:
-            kwargs_mass["rho0_r0_gamma"] = self._rho0_r0_gamma(
-                kwargs_mass["theta_E"], kwargs_mass["gamma"]
-            )
-
         gamma = kwargs_mass["gamma"]
-        rho0_r0_gamma = kwargs_mass["rho0_r0_gamma"]
+        if "rho0_r0_gamma" in kwargs_mass:
+            rho0_r0_gamma = kwargs_mass["rho0_r0_gamma"]
+        else:
+            rho0_r0_gamma = self._rho0_r0_gamma(kwargs_mass["theta_E"], gamma)
         r_ani = kwargs_anisotropy["r_ani"]
 
         return a, gamma, rho0_r0_gamma, r_ani
-- 
2.43.0


From a4447688fc830b95b17ca679b405b9bb7989ef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:46 +0000
Subject: [PATCH 107/161] fix: stellar light of an earlier call is not used for
 another light profile

---
 lenstronomy/GalKin/light_profile.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/lenstronomy/GalKin/light_profile.py b/lenstronomy/GalKin/light_profile.py
index d96f3a5..f6657f0 100644
--- a/lenstronomy/GalKin/light_profile.py
+++ b/lenstronomy/GalKin/light_profile.py
@@ -105,22 +105,17 @@ class LightProfile(object):
         :return: circularized arguments
         """
         # TODO make sure averaging is done azimuthally
-        if not hasattr(self, "_kwargs_light_circularized"):
-            kwargs_list_copy = copy.deepcopy(kwargs_list)
-            kwargs_list_new = []
-            for kwargs in kwargs_list_copy:
-                if "e1" in kwargs:
-                    kwargs["e1"] = 0
-                if "e2" in kwargs:
-                    kwargs["e2"] = 0
-                kwargs_list_new.append(
-                    {
-                        k: v
-                        for k, v in kwargs.items()
-                        if k not in ["center_x", "center_y"]
-                    }
-                )
-            self._kwargs_light_circularized = kwargs_list_new
+        kwargs_list_copy = copy.deepcopy(kwargs_list)
+        kwargs_list_new = []
+        for kwargs in kwargs_list_copy:
+            if "e1" in kwargs:
+                kwargs["e1"] = 0
+            if "e2" in kwargs:
+                kwargs["e2"] = 0
+            kwargs_list_new.append(
+                {k: v for k, v in kwargs.items() if k not in ["center_x", "center_y"]}
+            )
+        self._kwargs_light_circularized = kwargs_list_new
         return self._kwargs_light_circularized
 
     def _light_2d_finite_single(self, R, kwargs_list):
@@ -297,5 +292,7 @@ class LightProfile(object):
             del self._light_cdf
         if hasattr(self, "_f_light_3d"):
             del self._f_light_3d
+        if hasattr(self, "_light_3d_cdf_log"):
+            del self._light_3d_cdf_log
         if hasattr(self, "_kwargs_light_circularized"):
             del self._kwargs_light_circularized
-- 
2.43.0


From af4496d49483e6d0c04916630d28c9ec251471fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:27 +0000
Subject: [PATCH 108/161] fix: velocity dispersion maps of non-square, rotated
 and off-centre pixel grids

---
 lenstronomy/GalKin/aperture_types.py |  5 ++++
 lenstronomy/GalKin/galkin.py         | 45 ++++++++--------------------
 2 files changed, 18 insertions(+), 32 deletions(-)

diff --git a/lenstronomy/GalKin/aperture_types.py b/lenstronomy/GalKin/aperture_types.py
index 57b922b..4655dcc 100644
--- a/lenstronomy/GalKin/aperture_types.py
+++ b/lenstronomy/GalKin/aperture_types.py
@@ -101,6 +101,11 @@ class ApertureBase:
     def delta_pix(self):
         return self._delta_pix
 
+    @property
+    def angle(self):
+        """Rotation angle of the aperture grid (radian)."""
+        return self._angle
+
     @property
     def padding_arcsec(self):
         return self._padding_arcsec
diff --git a/lenstronomy/GalKin/galkin.py b/lenstronomy/GalKin/galkin.py
index 9352d0c..072c6e2 100644
--- a/lenstronomy/GalKin/galkin.py
+++ b/lenstronomy/GalKin/galkin.py
@@ -1,3 +1,4 @@
+from lenstronomy.GalKin.aperture_types import make_supersampled_grid
 from lenstronomy.GalKin.observation import GalkinObservation
 from lenstronomy.GalKin.galkin_model import GalkinModel
 
@@ -192,23 +193,12 @@ class Galkin(GalkinModel, GalkinObservation):
         """
         mass_center_x, mass_center_y = self._extract_center(kwargs_mass)
 
-        delta_x, delta_y = self._delta_pix_xy()
-        assert np.abs(delta_x) == np.abs(delta_y)
-
-        x_grid = self._aperture.x_grid
-        y_grid = self._aperture.y_grid
-
-        new_delta_x = delta_x / supersampling_factor
-        new_delta_y = delta_y / supersampling_factor
-        x_start = x_grid[0, 0] - delta_x / 2.0 * (1 - 1 / supersampling_factor)
-        x_end = x_grid[0, -1] + delta_x / 2.0 * (1 - 1 / supersampling_factor)
-        y_start = y_grid[0, 0] - delta_y / 2.0 * (1 - 1 / supersampling_factor)
-        y_end = y_grid[-1, 0] + delta_y / 2.0 * (1 - 1 / supersampling_factor)
-
-        xs = np.arange(x_start, x_end * (1 + 1e-6), new_delta_x)
-        ys = np.arange(y_start, y_end * (1 + 1e-6), new_delta_y)
-
-        x_grid_supersampled, y_grid_supersmapled = np.meshgrid(xs, ys)
+        x_grid_supersampled, y_grid_supersmapled = make_supersampled_grid(
+            self._aperture.x_grid,
+            self._aperture.y_grid,
+            supersampling_factor,
+            angle=self._aperture.angle,
+        )
 
         log10_radial_distance_from_center = np.log10(
             np.sqrt(
@@ -231,29 +221,21 @@ class Galkin(GalkinModel, GalkinObservation):
         :param fwhm_factor: number of FWHM to compute the kernel on
         :param supersampling_factor: number of sub-pixels to compute the kernel on
         """
-        delta_x, delta_y = self._delta_pix_xy()
+        delta_x, delta_y = self.delta_pix, self.delta_pix
 
         delta_x_sub = np.abs(delta_x) / supersampling_factor
         num_x = int(round(2 * fwhm_factor * self._psf.fwhm / delta_x_sub + 0.5))
         if num_x % 2 == 0:
             num_x += 1
 
-        psf_x = np.arange(
-            -delta_x_sub * (num_x - 1) / 2,
-            delta_x_sub * (num_x + 1) / 2,
-            delta_x_sub,
-        )
+        psf_x = (np.arange(num_x) - (num_x - 1) / 2) * delta_x_sub
 
         delta_y_sub = np.abs(delta_y) / supersampling_factor
         num_y = int(round(2 * fwhm_factor * self._psf.fwhm / delta_y_sub + 0.5))
         if num_y % 2 == 0:
             num_y += 1
 
-        psf_y = np.arange(
-            -delta_y_sub * (num_y - 1) / 2,
-            delta_y_sub * (num_y + 1) / 2,
-            delta_y_sub,
-        )
+        psf_y = (np.arange(num_y) - (num_y - 1) / 2) * delta_y_sub
 
         psf_x_grid, psf_y_grid = np.meshgrid(psf_x, psf_y)
 
@@ -295,8 +277,7 @@ class Galkin(GalkinModel, GalkinObservation):
             log10_radial_distance_from_center,
         ) = self._get_grid(kwargs_mass, supersampling_factor=supersampling_factor)
 
-        x_grid = self._aperture.x_grid
-        y_grid = self._aperture.y_grid
+        num_y, num_x = self._aperture.x_grid.shape
 
         mass_center_x, mass_center_y = self._extract_center(kwargs_mass)
         R_max = np.sqrt(
@@ -365,14 +346,14 @@ class Galkin(GalkinModel, GalkinObservation):
         else:
             sigma_IR_integrated = (
                 sigma2_IR_convolved.reshape(
-                    len(x_grid), supersampling_factor, len(y_grid), supersampling_factor
+                    num_y, supersampling_factor, num_x, supersampling_factor
                 )
                 .sum(3)
                 .sum(1)
             )
             IR_integrated = (
                 IR_convolved.reshape(
-                    len(x_grid), supersampling_factor, len(y_grid), supersampling_factor
+                    num_y, supersampling_factor, num_x, supersampling_factor
                 )
                 .sum(3)
                 .sum(1)
-- 
2.43.0


From 0f7917a0d5857aef7063789c92f05ae93563b006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:27 +0000
Subject: [PATCH 109/161] fix: convolved dispersion map of another model does
 not use earlier interpolations

---
 lenstronomy/GalKin/galkin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/GalKin/galkin.py b/lenstronomy/GalKin/galkin.py
index 072c6e2..18c7fb1 100644
--- a/lenstronomy/GalKin/galkin.py
+++ b/lenstronomy/GalKin/galkin.py
@@ -363,6 +363,7 @@ class Galkin(GalkinModel, GalkinObservation):
 
         # apply unit conversion from arc seconds and deflections to physical velocity
         # dispersion in (km/s)
+        self.numerics.delete_cache()
         return np.sqrt(sigma2_grid) / 1000.0  # in units of km/s
 
     def _draw_one_sigma2(self, kwargs_mass, kwargs_light, kwargs_anisotropy):
-- 
2.43.0


From 54a8520e87e7269a4ed2e181cd56369253085d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:27 +0000
Subject: [PATCH 110/161] fix: constant anisotropy in cylindrical alignment

---
 lenstronomy/GalKin/anisotropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/GalKin/anisotropy.py b/lenstronomy/GalKin/anisotropy.py
index 7480676..e359e05 100644
--- a/lenstronomy/GalKin/anisotropy.py
+++ b/lenstronomy/GalKin/anisotropy.py
@@ -118,7 +118,7 @@ class Anisotropy(object):
                 def beta_fun(r, theta):
                     # angular variation
                     ratio = np.sqrt(1 - beta_const)
-                    beta = 1 - ratio ** (2 * np.cos(2 * theta))
+                    beta = 1 - ratio ** (-2 * np.cos(2 * theta))
                     beta_dtheta = (
                         -4
                         * np.log(ratio)
-- 
2.43.0


From 1764cfbd5137ad58892935d4b0f7c9ca50cf292f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:43 +0000
Subject: [PATCH 111/161] fix: kinematics uses the settings of the
 multi-Gaussian expansions

---
 lenstronomy/Analysis/kinematics_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/Analysis/kinematics_api.py b/lenstronomy/Analysis/kinematics_api.py
index a598bd4..ebc7653 100644
--- a/lenstronomy/Analysis/kinematics_api.py
+++ b/lenstronomy/Analysis/kinematics_api.py
@@ -421,6 +421,7 @@ class KinematicsAPI(object):
             theta_E=theta_E,
             model_kinematics_bool=self._lens_model_kinematics_bool,
             gamma=gamma,
+            kwargs_mge=self._kwargs_mge_mass,
             analytic_kinematics=self._analytic_kinematics,
         )
         light_profile_list, kwargs_light = self.kinematic_light_profile(
@@ -429,6 +430,7 @@ class KinematicsAPI(object):
             MGE_fit=self._MGE_light,
             model_kinematics_bool=self._light_model_kinematics_bool,
             Hernquist_approx=self._Hernquist_approx,
+            kwargs_mge=self._kwargs_mge_light,
             analytic_kinematics=self._analytic_kinematics,
         )
 
-- 
2.43.0


From 2b74c61a06fc473985b50391491e2b9d7146714b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:43 +0000
Subject: [PATCH 112/161] fix: multi-Gaussian expansion of the light uses the
 selected light profiles only

---
 lenstronomy/Analysis/kinematics_api.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lenstronomy/Analysis/kinematics_api.py b/lenstronomy/Analysis/kinematics_api.py
index ebc7653..28d036b 100644
--- a/lenstronomy/Analysis/kinematics_api.py
+++ b/lenstronomy/Analysis/kinematics_api.py
@@ -791,6 +791,11 @@ class KinematicsAPI(object):
                 kwargs_light.append(kwargs_lens_light_i)
 
         if MGE_fit is True:
+            kwargs_lens_light = [
+                kwargs
+                for i, kwargs in enumerate(kwargs_lens_light)
+                if model_kinematics_bool[i] is True
+            ]
             MGE_light_fitter = MGELight(light_profile_list, kwargs_mge)
             amps, sigmas = MGE_light_fitter.mge_fit(kwargs_lens_light, r_eff)
             kwargs_light = [{"amp": amps, "sigma": sigmas}]
-- 
2.43.0


From 5c32ae36330e9876af956027172dc4c5e3c2f7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:24 +0000
Subject: [PATCH 113/161] fix: projection kernel of the generalised
 Osipkov-Merritt model far outside the anisotropy radius

---
 lenstronomy/GalKin/anisotropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/GalKin/anisotropy.py b/lenstronomy/GalKin/anisotropy.py
index e359e05..ca18406 100644
--- a/lenstronomy/GalKin/anisotropy.py
+++ b/lenstronomy/GalKin/anisotropy.py
@@ -359,7 +359,7 @@ class GeneralizedOM(object):
     """
 
     def __init__(self):
-        self._z_interp = np.append(-np.flip(np.logspace(-1, 3, 200) ** 2), 0)
+        self._z_interp = np.append(-np.flip(np.logspace(-1, 5, 300) ** 2), 0)
         # self._z_interp = -np.linspace(-200, 0, 200)**2  # z = (R**2 - r**2) / (r_ani**2 + R**2)
         self.use_logistic = True
         self._logistic_kwargs = {"beta_0": 0.0, "alpha": 2.0}
-- 
2.43.0


From d905063232fc646d2e9f31e731213e909466a682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:04 +0000
Subject: [PATCH 114/161] fix: keep the settings of an instrument configuration
 per instance (DES, HST, JWST, Roman, ZTF)

---
 lenstronomy/SimulationAPI/ObservationConfig/DES.py | 10 +++++-----
 lenstronomy/SimulationAPI/ObservationConfig/HST.py |  4 ++--
 .../SimulationAPI/ObservationConfig/JWST.py        | 12 ++++++------
 .../SimulationAPI/ObservationConfig/Roman.py       | 14 +++++++-------
 lenstronomy/SimulationAPI/ObservationConfig/ZTF.py |  6 +++---
 5 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/lenstronomy/SimulationAPI/ObservationConfig/DES.py b/lenstronomy/SimulationAPI/ObservationConfig/DES.py
index 6437d68..341c61c 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/DES.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/DES.py
@@ -74,15 +74,15 @@ class DES(object):
         :param coadd_years: int, number of years corresponding to num_exposures in obs dict. Currently supported: 1-6.
         """
         if band == "g":
-            self.obs = g_band_obs
+            self.obs = g_band_obs.copy()
         elif band == "r":
-            self.obs = r_band_obs
+            self.obs = r_band_obs.copy()
         elif band == "i":
-            self.obs = i_band_obs
+            self.obs = i_band_obs.copy()
         elif band == "z":
-            self.obs = z_band_obs
+            self.obs = z_band_obs.copy()
         elif band == "Y":
-            self.obs = Y_band_obs
+            self.obs = Y_band_obs.copy()
         else:
             raise ValueError(
                 "band %s not supported! Choose 'g', 'r', 'i', 'z', or 'Y'." % band
diff --git a/lenstronomy/SimulationAPI/ObservationConfig/HST.py b/lenstronomy/SimulationAPI/ObservationConfig/HST.py
index 05d3857..2003675 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/HST.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/HST.py
@@ -52,9 +52,9 @@ class HST(object):
         """
 
         if band == "TDLMC_F160W":
-            self.obs = TDLMC_F160W_band_obs
+            self.obs = TDLMC_F160W_band_obs.copy()
         elif band == "WFC3_F160W" or band == "F160W":
-            self.obs = WFC3_F160W_band_obs
+            self.obs = WFC3_F160W_band_obs.copy()
 
         else:
             raise ValueError(
diff --git a/lenstronomy/SimulationAPI/ObservationConfig/JWST.py b/lenstronomy/SimulationAPI/ObservationConfig/JWST.py
index fb83894..9918509 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/JWST.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/JWST.py
@@ -86,22 +86,22 @@ class JWST(object):
         """
 
         if band == "F200W":
-            self.obs = NIRCAM_F200W_band_obs
+            self.obs = NIRCAM_F200W_band_obs.copy()
             self.arm = "short"
         elif band == "F356W":
-            self.obs = NIRCAM_F356W_band_obs
+            self.obs = NIRCAM_F356W_band_obs.copy()
             self.arm = "long"
         elif band == "F115W":
-            self.obs = NIRCAM_F115W_band_obs
+            self.obs = NIRCAM_F115W_band_obs.copy()
             self.arm = "short"
         elif band == "F150W":
-            self.obs = NIRCAM_F150W_band_obs
+            self.obs = NIRCAM_F150W_band_obs.copy()
             self.arm = "short"
         elif band == "F277W":
-            self.obs = NIRCAM_F277W_band_obs
+            self.obs = NIRCAM_F277W_band_obs.copy()
             self.arm = "long"
         elif band == "F444W":
-            self.obs = NIRCAM_F444W_band_obs
+            self.obs = NIRCAM_F444W_band_obs.copy()
             self.arm = "long"
         else:
             raise ValueError("band %s not supported!" % band)
diff --git a/lenstronomy/SimulationAPI/ObservationConfig/Roman.py b/lenstronomy/SimulationAPI/ObservationConfig/Roman.py
index 765d9d6..d1fa58f 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/Roman.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/Roman.py
@@ -78,19 +78,19 @@ class Roman(object):
         """
 
         if band == "F062":
-            self.obs = F062_band_obs
+            self.obs = F062_band_obs.copy()
         elif band == "F087":
-            self.obs = F087_band_obs
+            self.obs = F087_band_obs.copy()
         elif band == "F106":
-            self.obs = F106_band_obs
+            self.obs = F106_band_obs.copy()
         elif band == "F129":
-            self.obs = F129_band_obs
+            self.obs = F129_band_obs.copy()
         elif band == "F158":
-            self.obs = F158_band_obs
+            self.obs = F158_band_obs.copy()
         elif band == "F184":
-            self.obs = F184_band_obs
+            self.obs = F184_band_obs.copy()
         elif band == "F146":
-            self.obs = F146_band_obs
+            self.obs = F146_band_obs.copy()
         else:
             raise ValueError(
                 "band %s not supported! Choose 'F062', 'F087', 'F106', 'F129', 'F158' , 'F184' or 'F146'"
diff --git a/lenstronomy/SimulationAPI/ObservationConfig/ZTF.py b/lenstronomy/SimulationAPI/ObservationConfig/ZTF.py
index 954125a..54d668c 100644
--- a/lenstronomy/SimulationAPI/ObservationConfig/ZTF.py
+++ b/lenstronomy/SimulationAPI/ObservationConfig/ZTF.py
@@ -70,11 +70,11 @@ class ZTF(object):
         :param coadd_years: int, number of years corresponding to num_exposures in obs dict. Currently supported: 1-3.
         """
         if band == "g":
-            self.obs = g_band_obs
+            self.obs = g_band_obs.copy()
         elif band == "r":
-            self.obs = r_band_obs
+            self.obs = r_band_obs.copy()
         elif band == "i":
-            self.obs = i_band_obs
+            self.obs = i_band_obs.copy()
         else:
             raise ValueError("band %s not supported! Choose 'g', 'r', or 'i'." % band)
 
-- 
2.43.0


From 618578e73e49977930aa127da6f1a350d8d648a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:04 +0000
Subject: [PATCH 115/161] fix: distance modulus uses 5 log10(d / 10 pc)

---
 lenstronomy/Util/data_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/data_util.py b/lenstronomy/Util/data_util.py
index 77da0dd..628b0bf 100644
--- a/lenstronomy/Util/data_util.py
+++ b/lenstronomy/Util/data_util.py
@@ -80,7 +80,7 @@ def absolute2apparent_magnitude(absolute_magnitude, d_parsec):
     :param d_parsec: distance to object in units parsec
     :return: apparent magnitude
     """
-    m_apparent = 5.8 * (np.log10(d_parsec) - 1) + absolute_magnitude
+    m_apparent = 5.0 * (np.log10(d_parsec) - 1) + absolute_magnitude
     return m_apparent
 
 
-- 
2.43.0


From f213eacfd638ab7a2833a6b2c7febf13845d72a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:04 +0000
Subject: [PATCH 116/161] fix: noise realisation of an integer model image

---
 lenstronomy/SimulationAPI/observation_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/SimulationAPI/observation_api.py b/lenstronomy/SimulationAPI/observation_api.py
index d618d6f..b6e1b6b 100644
--- a/lenstronomy/SimulationAPI/observation_api.py
+++ b/lenstronomy/SimulationAPI/observation_api.py
@@ -329,7 +329,7 @@ class SingleBand(Instrument, Observation):
         else:
             g = np.random
         nx, ny = np.shape(model)
-        noise = np.zeros_like(model)
+        noise = np.zeros((nx, ny))
         if background_noise is True:
             noise += g.randn(nx, ny) * self.background_noise
         if poisson_noise is True:
-- 
2.43.0


From 1073851072eeb43472c5f34efaa677299dc26870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:58 +0000
Subject: [PATCH 117/161] fix: evaluate the MST-invariant differential around
 the centre of the profile

---
 lenstronomy/Analysis/lens_profile.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Analysis/lens_profile.py b/lenstronomy/Analysis/lens_profile.py
index 1bbfd22..cb468fd 100644
--- a/lenstronomy/Analysis/lens_profile.py
+++ b/lenstronomy/Analysis/lens_profile.py
@@ -275,7 +275,11 @@ class LensProfileAnalysis(object):
             dphi_rad_drad,
             dphi_rad_dtan,
         ) = ext.radial_tangential_differentials(
-            x, y, kwargs_lens, center_x=center_x, center_y=center_y
+            center_x + x,
+            center_y + y,
+            kwargs_lens,
+            center_x=center_x,
+            center_y=center_y,
         )
         xi = np.mean(dlambda_rad_drad / lambda_rad)
         return xi
-- 
2.43.0


From 179b7b5f351947f2455b72774a6ccef4c7213b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:58 +0000
Subject: [PATCH 118/161] fix: centre the grid of light2mass_interpol on the
 requested position

---
 lenstronomy/Analysis/light2mass.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lenstronomy/Analysis/light2mass.py b/lenstronomy/Analysis/light2mass.py
index 0abae37..5bfc350 100644
--- a/lenstronomy/Analysis/light2mass.py
+++ b/lenstronomy/Analysis/light2mass.py
@@ -37,10 +37,14 @@ def light2mass_interpol(
     x_grid_sub, y_grid_sub = util.make_grid(
         num_pix=num_pix * 5, delta_pix=delta_pix, subgrid_res=subgrid_res
     )
+    x_grid_sub += center_x
+    y_grid_sub += center_y
     import lenstronomy.Util.mask_util as mask_util
 
     mask = mask_util.mask_azimuthal(x_grid_sub, y_grid_sub, center_x, center_y, r=1)
     x_grid, y_grid = util.make_grid(num_pix=num_pix, delta_pix=delta_pix)
+    x_grid += center_x
+    y_grid += center_y
     # compute light on the subgrid
     lightModel = LightModel(
         light_model_list=lens_light_model_list,
-- 
2.43.0


From 3608a01d1799182fc88443f538dcf1f6bef838f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:58 +0000
Subject: [PATCH 119/161] fix: half_light_radius does not change the image it
 is given

---
 lenstronomy/Util/analysis_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/analysis_util.py b/lenstronomy/Util/analysis_util.py
index 204a2ea..693a68e 100644
--- a/lenstronomy/Util/analysis_util.py
+++ b/lenstronomy/Util/analysis_util.py
@@ -19,7 +19,7 @@ def half_light_radius(lens_light, x_grid, y_grid, center_x=0, center_y=0):
     :param center_y: center of light
     :return:
     """
-    lens_light[lens_light < 0] = 0
+    lens_light = np.maximum(lens_light, 0)
     total_flux_2 = np.sum(lens_light) / 2.0
     r_max = np.max(np.sqrt((x_grid - center_x) ** 2 + (y_grid - center_y) ** 2))
     for i in range(1000):
-- 
2.43.0


From e79eea8407feed5932073d60feaeddaed9259758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:58 +0000
Subject: [PATCH 120/161] fix: centre of non-square images in azimuthal_average

---
 lenstronomy/Util/analysis_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Util/analysis_util.py b/lenstronomy/Util/analysis_util.py
index 693a68e..c5849be 100644
--- a/lenstronomy/Util/analysis_util.py
+++ b/lenstronomy/Util/analysis_util.py
@@ -69,8 +69,8 @@ def azimuthal_average(image, center=None):
     # Calculate the indices from the image
     y, x = np.indices(image.shape)
 
-    if not center:
-        center = np.array([(x.max() - x.min()) / 2.0, (x.max() - x.min()) / 2.0])
+    if center is None:
+        center = np.array([(x.max() - x.min()) / 2.0, (y.max() - y.min()) / 2.0])
 
     r = np.hypot(x - center[0], y - center[1])
 
-- 
2.43.0


From 42274fd47950629752f72e5334379f9da349f0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:58 +0000
Subject: [PATCH 121/161] fix: symmetric ranks for lower and upper errors of a
 sample

---
 lenstronomy/Util/prob_density.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Util/prob_density.py b/lenstronomy/Util/prob_density.py
index dc47045..abd2369 100644
--- a/lenstronomy/Util/prob_density.py
+++ b/lenstronomy/Util/prob_density.py
@@ -141,17 +141,17 @@ def compute_lower_upper_errors(sample, num_sigma=1):
     median = np.median(sample)
     sorted_sample = np.sort(sample)
     if num_sigma > 0:
-        upper_sigma1 = sorted_sample[num_threshold1 - 1]
+        upper_sigma1 = sorted_sample[num_threshold1]
         lower_sigma1 = sorted_sample[num - num_threshold1 - 1]
     else:
         return median, [[]]
     if num_sigma > 1:
-        upper_sigma2 = sorted_sample[num_threshold2 - 1]
+        upper_sigma2 = sorted_sample[num_threshold2]
         lower_sigma2 = sorted_sample[num - num_threshold2 - 1]
     else:
         return median, [[median - lower_sigma1, upper_sigma1 - median]]
     if num_sigma > 2:
-        upper_sigma3 = sorted_sample[num_threshold3 - 1]
+        upper_sigma3 = sorted_sample[num_threshold3]
         lower_sigma3 = sorted_sample[num - num_threshold3 - 1]
         return median, [
             [median - lower_sigma1, upper_sigma1 - median],
-- 
2.43.0


From 193dd3d947a393d0ed1f0bd4ef6bf33ebe02eabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:58 +0000
Subject: [PATCH 122/161] fix: skewed Gaussian with zero skewness

---
 lenstronomy/Util/prob_density.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/prob_density.py b/lenstronomy/Util/prob_density.py
index abd2369..35c6a92 100644
--- a/lenstronomy/Util/prob_density.py
+++ b/lenstronomy/Util/prob_density.py
@@ -49,7 +49,7 @@ class SkewGaussian(object):
         """
         skw_23 = np.abs(skw) ** (2.0 / 3)
         delta2 = skw_23 * np.pi / 2 / (skw_23 + ((4 - np.pi) / 2) ** (2.0 / 3))
-        return np.sqrt(delta2) * skw / np.abs(skw)
+        return np.sqrt(delta2) * np.sign(skw)
 
     def _alpha_delta(self, delta):
         """
-- 
2.43.0


From 76c8d22e97c3b19effedaeb62b7c6a8518b171b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:40 +0000
Subject: [PATCH 123/161] fix: azimuthal averages of light, slopes and MST
 differentials count every direction once

---
 lenstronomy/Analysis/lens_profile.py  | 8 +++++---
 lenstronomy/Analysis/light_profile.py | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/Analysis/lens_profile.py b/lenstronomy/Analysis/lens_profile.py
index cb468fd..6ce85ab 100644
--- a/lenstronomy/Analysis/lens_profile.py
+++ b/lenstronomy/Analysis/lens_profile.py
@@ -202,9 +202,11 @@ class LensProfileAnalysis(object):
         center_x, center_y = analysis_util.profile_center(
             kwargs_lens, center_x, center_y
         )
-        x, y = util.points_on_circle(radius, num_points)
+        x, y = util.points_on_circle(radius, num_points, connect_ends=False)
         dr = 0.01
-        x_dr, y_dr = util.points_on_circle(radius + dr, num_points)
+        x_dr, y_dr = util.points_on_circle(
+            radius + dr, num_points, connect_ends=False
+        )
 
         if alpha_differentials:
             alpha_E_x_i, alpha_E_y_i = self._lens_model.alpha(
@@ -260,7 +262,7 @@ class LensProfileAnalysis(object):
         center_x, center_y = analysis_util.profile_center(
             kwargs_lens, center_x, center_y
         )
-        x, y = util.points_on_circle(radius, num_points)
+        x, y = util.points_on_circle(radius, num_points, connect_ends=False)
         ext = LensModelExtensions(lensModel=self._lens_model)
         (
             lambda_rad,
diff --git a/lenstronomy/Analysis/light_profile.py b/lenstronomy/Analysis/light_profile.py
index 9ff89e1..ba4b03a 100644
--- a/lenstronomy/Analysis/light_profile.py
+++ b/lenstronomy/Analysis/light_profile.py
@@ -123,7 +123,7 @@ class LightProfileAnalysis(object):
         )
         f_list = []
         for r in r_list:
-            x, y = util.points_on_circle(r, num_points=20)
+            x, y = util.points_on_circle(r, num_points=20, connect_ends=False)
             f_r = self._light_model.surface_brightness(
                 x + center_x, y + center_y, kwargs_list=kwargs_light, k=model_bool_list
             )
-- 
2.43.0


From e4ca3af2ce4aedb2a389b671d2fce435ed7afd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:46 +0000
Subject: [PATCH 124/161] fix: eigenvectors of the lensing Jacobian when the
 Hessian is not symmetric (multi-plane)

---
 lenstronomy/LensModel/lens_model_extensions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/LensModel/lens_model_extensions.py b/lenstronomy/LensModel/lens_model_extensions.py
index ff8d213..0d7d10c 100644
--- a/lenstronomy/LensModel/lens_model_extensions.py
+++ b/lenstronomy/LensModel/lens_model_extensions.py
@@ -533,9 +533,9 @@ class LensModelExtensions(object):
         """
         f_xx, f_xy, f_yx, f_yy = self._lensModel.hessian(x, y, kwargs_lens, diff=diff)
         if isinstance(x, int) or isinstance(x, float):
-            A = np.array([[1 - f_xx, f_xy], [f_yx, 1 - f_yy]])
+            A = np.array([[1 - f_xx, -f_xy], [-f_yx, 1 - f_yy]])
             w, v = np.linalg.eig(A)
-            v11, v12, v21, v22 = v[0, 0], v[0, 1], v[1, 0], v[1, 1]
+            v11, v12, v21, v22 = v[0, 0], v[1, 0], v[0, 1], v[1, 1]
             w1, w2 = w[0], w[1]
         else:
             w1, w2, v11, v12, v21, v22 = (
@@ -547,10 +547,10 @@ class LensModelExtensions(object):
                 np.empty_like(x),
             )
             for i in range(len(x)):
-                A = np.array([[1 - f_xx[i], f_xy[i]], [f_yx[i], 1 - f_yy[i]]])
+                A = np.array([[1 - f_xx[i], -f_xy[i]], [-f_yx[i], 1 - f_yy[i]]])
                 w, v = np.linalg.eig(A)
                 w1[i], w2[i] = w[0], w[1]
-                v11[i], v12[i], v21[i], v22[i] = v[0, 0], v[0, 1], v[1, 0], v[1, 1]
+                v11[i], v12[i], v21[i], v22[i] = v[0, 0], v[1, 0], v[0, 1], v[1, 1]
         return w1, w2, v11, v12, v21, v22
 
     def radial_tangential_stretch(
-- 
2.43.0


From eb53e746c90d95d754588ddf078ccdb4dc2905a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:46 +0000
Subject: [PATCH 125/161] fix: lens model extensions at integer positions

---
 lenstronomy/LensModel/lens_model_extensions.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lenstronomy/LensModel/lens_model_extensions.py b/lenstronomy/LensModel/lens_model_extensions.py
index 0d7d10c..15e940b 100644
--- a/lenstronomy/LensModel/lens_model_extensions.py
+++ b/lenstronomy/LensModel/lens_model_extensions.py
@@ -239,7 +239,7 @@ class LensModelExtensions(object):
         :return: numerically computed brightness of the sources
         """
 
-        mag_finite = np.zeros_like(x_pos)
+        mag_finite = np.zeros_like(x_pos, dtype=float)
         delta_pix = float(window_size) / grid_number
         from lenstronomy.LightModel.Profiles.gaussian import Gaussian
 
@@ -541,10 +541,10 @@ class LensModelExtensions(object):
             w1, w2, v11, v12, v21, v22 = (
                 np.empty(len(x), dtype=float),
                 np.empty(len(x), dtype=float),
-                np.empty_like(x),
-                np.empty_like(x),
-                np.empty_like(x),
-                np.empty_like(x),
+                np.empty(len(x), dtype=float),
+                np.empty(len(x), dtype=float),
+                np.empty(len(x), dtype=float),
+                np.empty(len(x), dtype=float),
             )
             for i in range(len(x)):
                 A = np.array([[1 - f_xx[i], -f_xy[i]], [-f_yx[i], 1 - f_yy[i]]])
@@ -605,10 +605,10 @@ class LensModelExtensions(object):
             lambda_rad, lambda_tan, v1_rad, v2_rad, v1_tan, v2_tan = (
                 np.empty(len(x), dtype=float),
                 np.empty(len(x), dtype=float),
-                np.empty_like(x),
-                np.empty_like(x),
-                np.empty_like(x),
-                np.empty_like(x),
+                np.empty(len(x), dtype=float),
+                np.empty(len(x), dtype=float),
+                np.empty(len(x), dtype=float),
+                np.empty(len(x), dtype=float),
             )
             for i in range(len(x)):
                 if (
-- 
2.43.0


From 6d79b210f02c64d005be66355175eabab6436f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:46 +0000
Subject: [PATCH 126/161] fix: direction of curved arcs of lenses away from the
 coordinate origin

---
 .../LensModel/lens_model_extensions.py        | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/lenstronomy/LensModel/lens_model_extensions.py b/lenstronomy/LensModel/lens_model_extensions.py
index 15e940b..49e2094 100644
--- a/lenstronomy/LensModel/lens_model_extensions.py
+++ b/lenstronomy/LensModel/lens_model_extensions.py
@@ -821,14 +821,17 @@ class LensModelExtensions(object):
         d_tang2 = v_tang2_dt - v_tang2
         delta = np.sqrt(d_tang1**2 + d_tang2**2)
         if delta > 1:
-            d_tang1 = v_tang1_dt + v_tang1
-            d_tang2 = v_tang2_dt + v_tang2
+            d_tang1 = -(v_tang1_dt + v_tang1)
+            d_tang2 = -(v_tang2_dt + v_tang2)
             delta = np.sqrt(d_tang1**2 + d_tang2**2)
         curvature = delta / smoothing_3rd
-        direction = np.arctan2(
-            v_rad2 * np.sign(v_rad1 * x + v_rad2 * y),
-            v_rad1 * np.sign(v_rad1 * x + v_rad2 * y),
-        )
+        # the arc bends towards its centre of curvature, the direction points away from it
+        # (without measurable curvature it points away from the coordinate origin)
+        if delta > 10 ** (-6):
+            sign = -np.sign(v_rad1 * d_tang1 + v_rad2 * d_tang2)
+        else:
+            sign = np.sign(v_rad1 * x + v_rad2 * y)
+        direction = np.arctan2(v_rad2 * sign, v_rad1 * sign)
 
         kwargs_arc = {
             "radial_stretch": radial_stretch,
@@ -852,7 +855,12 @@ class LensModelExtensions(object):
                 dphi_rad_drad,
                 dphi_rad_dtan,
             ) = self.radial_tangential_differentials(
-                x, y, kwargs_lens, center_x=0, center_y=0, smoothing_3rd=smoothing_3rd
+                x,
+                y,
+                kwargs_lens,
+                center_x=x - np.cos(direction),
+                center_y=y - np.sin(direction),
+                smoothing_3rd=smoothing_3rd,
             )
             kwargs_arc["dtan_dtan"] = dlambda_tan_dtan / lambda_tan
         return kwargs_arc
-- 
2.43.0


From a6a154f79a6d4593c19d6d03d0c588ba88aa56f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:46 +0000
Subject: [PATCH 127/161] fix: curved_arc_finite_area samples around the
 requested position

---
 lenstronomy/LensModel/lens_model_extensions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/LensModel/lens_model_extensions.py b/lenstronomy/LensModel/lens_model_extensions.py
index 49e2094..49ba7d2 100644
--- a/lenstronomy/LensModel/lens_model_extensions.py
+++ b/lenstronomy/LensModel/lens_model_extensions.py
@@ -912,7 +912,7 @@ class LensModelExtensions(object):
 
         c_x_list, c_y_list = [], []
         # loop through curved arc estimate and compute curvature centroid
-        for x_, y_ in zip(x_c, y_c):
+        for x_, y_ in zip(x + x_c, y + y_c):
             kwargs_arc_ = self.curved_arc_estimate(x_, y_, kwargs_lens)
             direction = kwargs_arc_["direction"]
             curvature = kwargs_arc_["curvature"]
-- 
2.43.0


From 6cf03422ea8c6723a3a166696446f08f73d70350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:12 +0000
Subject: [PATCH 128/161] fix: joint-linear likelihood uses the astrometric
 offsets of the bands and of the point sources

---
 lenstronomy/ImSim/MultiBand/joint_linear.py                 | 5 ++++-
 lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/ImSim/MultiBand/joint_linear.py b/lenstronomy/ImSim/MultiBand/joint_linear.py
index 3573b02..5ea74dc 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear.py
@@ -71,7 +71,9 @@ class JointLinear(MultiLinear):
             kwargs_extinction,
             kwargs_special,
         )
-        C_D_response, model_error_list = self.error_response(kwargs_lens, kwargs_ps)
+        C_D_response, model_error_list = self.error_response(
+            kwargs_lens, kwargs_ps, kwargs_special=kwargs_special
+        )
         d = self.data_response
         param, cov_param, wls_model = de_lens.get_param_WLS(
             A.T, 1 / C_D_response, d, inv_bool=inv_bool
@@ -193,6 +195,7 @@ class JointLinear(MultiLinear):
         :return: log likelihood (natural logarithm) (sum of the log likelihoods of the
             individual images)
         """
+        self.update_pixel_grid_coordinates(kwargs_special=kwargs_special)
         # generate image
         im_sim_list, model_error_list, cov_matrix, param = self.image_linear_solve(
             kwargs_lens,
diff --git a/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py b/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
index 96a52dc..344429b 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
@@ -102,7 +102,9 @@ class JointLinear_VaryBG(MultiLinear):
             kwargs_extinction,
             kwargs_special,
         )
-        C_D_response, model_error_list = self.error_response(kwargs_lens, kwargs_ps)
+        C_D_response, model_error_list = self.error_response(
+            kwargs_lens, kwargs_ps, kwargs_special=kwargs_special
+        )
         d = self.data_response
         param, cov_param, wls_model = de_lens.get_param_WLS(
             A.T, 1 / C_D_response, d, inv_bool=inv_bool
@@ -230,6 +232,7 @@ class JointLinear_VaryBG(MultiLinear):
         :return: log likelihood (natural logarithm) (sum of the log likelihoods of the
             individual images)
         """
+        self.update_pixel_grid_coordinates(kwargs_special=kwargs_special)
         # generate image
         im_sim_list, model_error_list, cov_matrix, param = self.image_linear_solve(
             kwargs_lens,
-- 
2.43.0


From 070566aabc63c12094194c5d7c7f164940e6be2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:12 +0000
Subject: [PATCH 129/161] fix: joint-linear positivity check of the solved
 amplitudes

---
 lenstronomy/ImSim/MultiBand/joint_linear.py                 | 3 +++
 lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lenstronomy/ImSim/MultiBand/joint_linear.py b/lenstronomy/ImSim/MultiBand/joint_linear.py
index 5ea74dc..e05d8bd 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear.py
@@ -221,6 +221,9 @@ class JointLinear(MultiLinear):
             marg_const = de_lens.marginalization_new(cov_matrix, d_prior=linear_prior)
             logL += marg_const
         if check_positive_flux is True and self._num_bands > 0:
+            _, kwargs_source, kwargs_lens_light, kwargs_ps = self.update_linear_kwargs(
+                param, 0, kwargs_lens, kwargs_source, kwargs_lens_light, kwargs_ps
+            )
             bool_ = self._image_model_list[0].check_positive_flux(
                 kwargs_source, kwargs_lens_light, kwargs_ps
             )
diff --git a/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py b/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
index 344429b..47e7848 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py
@@ -258,6 +258,9 @@ class JointLinear_VaryBG(MultiLinear):
             marg_const = de_lens.marginalization_new(cov_matrix, d_prior=linear_prior)
             logL += marg_const
         if check_positive_flux is True and self._num_bands > 0:
+            _, kwargs_source, kwargs_lens_light, kwargs_ps = self.update_linear_kwargs(
+                param, 0, kwargs_lens, kwargs_source, kwargs_lens_light, kwargs_ps
+            )
             bool_ = self._image_model_list[0].check_positive_flux(
                 kwargs_source, kwargs_lens_light, kwargs_ps
             )
-- 
2.43.0


From ff4e25853efe23beb1dffb74c2ec9d65c9840231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:12 +0000
Subject: [PATCH 130/161] fix: number of linear parameters shared by the bands
 in joint-linear mode

---
 lenstronomy/ImSim/MultiBand/joint_linear.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lenstronomy/ImSim/MultiBand/joint_linear.py b/lenstronomy/ImSim/MultiBand/joint_linear.py
index e05d8bd..6cf8329 100644
--- a/lenstronomy/ImSim/MultiBand/joint_linear.py
+++ b/lenstronomy/ImSim/MultiBand/joint_linear.py
@@ -231,6 +231,20 @@ class JointLinear(MultiLinear):
                 logL -= 10**5
         return logL, param
 
+    def num_param_linear(
+        self, kwargs_lens, kwargs_source, kwargs_lens_light, kwargs_ps
+    ):
+        """Number of linear coefficients, which all the bands share.
+
+        :return: number of linear coefficients to be solved for in the linear inversion
+        """
+        for i in range(self._num_bands):
+            if self._compute_bool[i] is True:
+                return self._image_model_list[i].num_param_linear(
+                    kwargs_lens, kwargs_source, kwargs_lens_light, kwargs_ps
+                )
+        return 0
+
     def update_linear_kwargs(
         self,
         param,
-- 
2.43.0


From 7090ad04a5b0ced7c8e6f12fa860bab920d79c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:12 +0000
Subject: [PATCH 131/161] fix: image reconstruction does not add keys to the
 parameters of the user

---
 lenstronomy/Analysis/image_reconstruction.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lenstronomy/Analysis/image_reconstruction.py b/lenstronomy/Analysis/image_reconstruction.py
index c0972d3..7757181 100644
--- a/lenstronomy/Analysis/image_reconstruction.py
+++ b/lenstronomy/Analysis/image_reconstruction.py
@@ -59,7 +59,11 @@ class MultiBandImageReconstruction(object):
         linear_prior = kwargs_likelihood.get("linear_prior", None)
         bands_compute = kwargs_likelihood.get("bands_compute", None)
         # pop out the tracer_source arguments as they should not be passed to linear inversion routines
-        kwargs_tracer_source_temp = kwargs_params.pop("kwargs_tracer_source", None)
+        kwargs_params = {
+            key: kwargs_params[key]
+            for key in kwargs_params
+            if key != "kwargs_tracer_source"
+        }
         if bands_compute is None:
             bands_compute = [True] * len(multi_band_list)
         if multi_band_type == "single-band":
@@ -116,9 +120,6 @@ class MultiBandImageReconstruction(object):
             else:
                 self.model_band_list.append(None)
 
-        # add back the unchanged tracer_source arguments
-        kwargs_params["kwargs_tracer_source"] = kwargs_tracer_source_temp
-
     def band_setup(self, band_index=0):
         """ImageModel() instance and keyword arguments of the model components to
         execute all the options of the ImSim core modules.
-- 
2.43.0


From 28778aa7dbeeaeb1afcdaf154279d9d9eabb6f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:12 +0000
Subject: [PATCH 132/161] fix: reconstruction in joint-linear mode with bands
 that are not computed

---
 lenstronomy/Analysis/image_reconstruction.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Analysis/image_reconstruction.py b/lenstronomy/Analysis/image_reconstruction.py
index 7757181..19e14a2 100644
--- a/lenstronomy/Analysis/image_reconstruction.py
+++ b/lenstronomy/Analysis/image_reconstruction.py
@@ -97,9 +97,12 @@ class MultiBandImageReconstruction(object):
         self.model_band_list = []
         for i in range(len(multi_band_list)):
             if bands_compute[i] is True:
+                index = i
                 if multi_band_type == "joint-linear":
                     param_i = param
                     cov_param_i = cov_param
+                    # only the computed bands are in the list of models
+                    index = bands_compute[:i].count(True)
                 else:
                     param_i = param[i]
                     cov_param_i = cov_param[i]
@@ -107,8 +110,8 @@ class MultiBandImageReconstruction(object):
                 model_band = ModelBand(
                     multi_band_list,
                     kwargs_model,
-                    model[i],
-                    error_map[i],
+                    model[index],
+                    error_map[index],
                     cov_param_i,
                     param_i,
                     copy.deepcopy(kwargs_params),
-- 
2.43.0


From 433e95cd67e06d3f2f1b285a715796b025a03327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:12 +0000
Subject: [PATCH 133/161] fix: single-band model of a later band uses the
 offset of that band

---
 lenstronomy/ImSim/MultiBand/single_band_multi_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/ImSim/MultiBand/single_band_multi_model.py b/lenstronomy/ImSim/MultiBand/single_band_multi_model.py
index 746f001..9c0f450 100644
--- a/lenstronomy/ImSim/MultiBand/single_band_multi_model.py
+++ b/lenstronomy/ImSim/MultiBand/single_band_multi_model.py
@@ -102,6 +102,7 @@ class SingleBandMultiModel(ImageLinearFit, ImageModel):
             kwargs_numerics=kwargs_numerics,
             likelihood_mask=likelihood_mask_list[band_index],
             kwargs_pixelbased=kwargs_pixelbased,
+            image_index=band_index,
         )
 
     def image(
-- 
2.43.0


From fa1bd0f6647db94369af41f5e3acb9b7d896f87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:12 +0000
Subject: [PATCH 134/161] fix: patches are placed on the nearest pixel of the
 joint frame

---
 lenstronomy/Analysis/multi_patch_reconstruction.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/Analysis/multi_patch_reconstruction.py b/lenstronomy/Analysis/multi_patch_reconstruction.py
index 4fb795c..5fcdd15 100644
--- a/lenstronomy/Analysis/multi_patch_reconstruction.py
+++ b/lenstronomy/Analysis/multi_patch_reconstruction.py
@@ -100,8 +100,8 @@ class MultiPatchReconstruction(MultiBandImageReconstruction):
             # evaluate pixel of zero point with the base coordinate system
             ra0, dec0 = data_class_i.radec_at_xy_0
             x_min, y_min = pixel_grid.map_coord2pix(ra0, dec0)
-            y_min = int(y_min)
-            x_min = int(x_min)
+            y_min = int(np.round(y_min))
+            x_min = int(np.round(x_min))
             nx_i, ny_i = data_class_i.num_pixel_axes
             nx, ny = _update_frame_size(nx, ny, x_min, y_min, nx_i, ny_i)
             # select minimum in x- and y-axis
@@ -134,8 +134,8 @@ class MultiPatchReconstruction(MultiBandImageReconstruction):
                 # evaluate pixel of zero point with the base coordinate system
                 ra0, dec0 = data_class_i.radec_at_xy_0
                 x_min, y_min = self._pixel_grid_joint.map_coord2pix(ra0, dec0)
-                y_min = int(y_min)
-                x_min = int(x_min)
+                y_min = int(np.round(y_min))
+                x_min = int(np.round(x_min))
                 nx_i, ny_i = data_class_i.num_pixel_axes
                 image_joint[
                     int(y_min) : int(y_min + ny_i), int(x_min) : int(x_min + nx_i)
@@ -173,8 +173,8 @@ class MultiPatchReconstruction(MultiBandImageReconstruction):
                 # evaluate pixel of zero point with the base coordinate system
                 ra0, dec0 = data_class_i.radec_at_xy_0
                 x_min, y_min = self._pixel_grid_joint.map_coord2pix(ra0, dec0)
-                y_min = int(y_min)
-                x_min = int(x_min)
+                y_min = int(np.round(y_min))
+                x_min = int(np.round(x_min))
                 nx_i, ny_i = data_class_i.num_pixel_axes
                 kappa_joint[
                     int(y_min) : int(y_min + ny_i), int(x_min) : int(x_min + nx_i)
-- 
2.43.0


From 0b691eecf5d30aea9edb4ccc242ab1707b49deb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:12 +0000
Subject: [PATCH 135/161] fix: joint frame covers patches that extend on both
 sides

---
 lenstronomy/Analysis/multi_patch_reconstruction.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/lenstronomy/Analysis/multi_patch_reconstruction.py b/lenstronomy/Analysis/multi_patch_reconstruction.py
index 5fcdd15..a5e2614 100644
--- a/lenstronomy/Analysis/multi_patch_reconstruction.py
+++ b/lenstronomy/Analysis/multi_patch_reconstruction.py
@@ -249,12 +249,8 @@ def _update_frame_size(nx, ny, x_min, y_min, nx_i, ny_i):
     :param ny_i: y-size of new subframe
     :return:
     """
-    if x_min < 0:
-        nx += int(abs(x_min))
-    else:
-        nx = np.maximum(nx, int(x_min) + int(nx_i))
-    if y_min < 0:
-        ny += int(abs(y_min))
-    else:
-        ny = np.maximum(ny, int(y_min) + int(ny_i))
+    x_max = np.maximum(nx, int(x_min) + int(nx_i))
+    y_max = np.maximum(ny, int(y_min) + int(ny_i))
+    nx = x_max - np.minimum(int(x_min), 0)
+    ny = y_max - np.minimum(int(y_min), 0)
     return nx, ny
-- 
2.43.0


From 6b6bfe04bc10ce4cdbf269d2f479ef5f7f73e87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:03 +0000
Subject: [PATCH 136/161] fix: settings of profiles and planes follow the
 components selected for a band

---
 lenstronomy/Util/class_creator.py | 45 ++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/lenstronomy/Util/class_creator.py b/lenstronomy/Util/class_creator.py
index 6ace033..b70ca76 100644
--- a/lenstronomy/Util/class_creator.py
+++ b/lenstronomy/Util/class_creator.py
@@ -14,6 +14,19 @@ import warnings
 export, __all__ = exporter()
 
 
+def _select_profile_kwargs(profile_kwargs_list, index_list):
+    """Profile keyword arguments of the selected components.
+
+    :param profile_kwargs_list: list of profile keyword arguments of all components, or
+        None
+    :param index_list: indexes of the selected components
+    :return: list of the profile keyword arguments of the selected components, or None
+    """
+    if profile_kwargs_list is None:
+        return None
+    return [profile_kwargs_list[k] for k in index_list]
+
+
 @export
 def create_class_instances(
     lens_model_list=None,
@@ -143,6 +156,7 @@ def create_class_instances(
     if index_lens_model_list is None or all_models is True:
         lens_model_list_i = lens_model_list
         lens_redshift_list_i = lens_redshift_list
+        lens_profile_kwargs_list_i = lens_profile_kwargs_list
         observed_convention_index_i = observed_convention_index
     else:
         lens_model_list_i = [
@@ -154,6 +168,9 @@ def create_class_instances(
             ]
         else:
             lens_redshift_list_i = lens_redshift_list
+        lens_profile_kwargs_list_i = _select_profile_kwargs(
+            lens_profile_kwargs_list, index_lens_model_list[band_index]
+        )
         if observed_convention_index is not None:
             counter = 0
             observed_convention_index_i = []
@@ -176,7 +193,7 @@ def create_class_instances(
         cosmology_sampling=cosmology_sampling,
         cosmology_model=cosmology_model,
         observed_convention_index=observed_convention_index_i,
-        profile_kwargs_list=lens_profile_kwargs_list,
+        profile_kwargs_list=lens_profile_kwargs_list_i,
         decouple_multi_plane=decouple_multi_plane,
         kwargs_multiplane_model=kwargs_multiplane_model,
     )
@@ -187,11 +204,11 @@ def create_class_instances(
             z_lens=z_lens,
             z_source=z_source,
             z_source_convention=z_source_convention,
-            lens_redshift_list=lens_redshift_list,
+            lens_redshift_list=lens_redshift_list_i,
             multi_plane=multi_plane,
             cosmo=cosmo,
-            observed_convention_index=observed_convention_index,
-            profile_kwargs_list=lens_profile_kwargs_list,
+            observed_convention_index=observed_convention_index_i,
+            profile_kwargs_list=lens_profile_kwargs_list_i,
             decouple_multi_plane=decouple_multi_plane,
             kwargs_multiplane_model=kwargs_multiplane_model_point_source,
         )
@@ -202,7 +219,12 @@ def create_class_instances(
         source_light_model_list_i = source_light_model_list
         source_deflection_scaling_list_i = source_deflection_scaling_list
         source_redshift_list_i = source_redshift_list
+        source_light_profile_kwargs_list_i = source_light_profile_kwargs_list
     else:
+        source_light_profile_kwargs_list_i = _select_profile_kwargs(
+            source_light_profile_kwargs_list,
+            index_source_light_model_list[band_index],
+        )
         source_light_model_list_i = [
             source_light_model_list[k]
             for k in index_source_light_model_list[band_index]
@@ -225,18 +247,22 @@ def create_class_instances(
         light_model_list=source_light_model_list_i,
         deflection_scaling_list=source_deflection_scaling_list_i,
         source_redshift_list=source_redshift_list_i,
-        profile_kwargs_list=source_light_profile_kwargs_list,
+        profile_kwargs_list=source_light_profile_kwargs_list_i,
     )
 
     if index_lens_light_model_list is None or all_models is True:
         lens_light_model_list_i = lens_light_model_list
+        lens_light_profile_kwargs_list_i = lens_light_profile_kwargs_list
     else:
+        lens_light_profile_kwargs_list_i = _select_profile_kwargs(
+            lens_light_profile_kwargs_list, index_lens_light_model_list[band_index]
+        )
         lens_light_model_list_i = [
             lens_light_model_list[k] for k in index_lens_light_model_list[band_index]
         ]
     lens_light_model_class = LightModel(
         light_model_list=lens_light_model_list_i,
-        profile_kwargs_list=lens_light_profile_kwargs_list,
+        profile_kwargs_list=lens_light_profile_kwargs_list_i,
     )
 
     point_source_model_list_i = point_source_model_list
@@ -296,11 +322,16 @@ def create_class_instances(
             optical_depth_model_list[k]
             for k in index_optical_depth_model_list[band_index]
         ]
+        optical_depth_profile_kwargs_list_i = _select_profile_kwargs(
+            optical_depth_profile_kwargs_list,
+            index_optical_depth_model_list[band_index],
+        )
     else:
         optical_depth_model_list_i = optical_depth_model_list
+        optical_depth_profile_kwargs_list_i = optical_depth_profile_kwargs_list
     extinction_class = DifferentialExtinction(
         optical_depth_model=optical_depth_model_list_i,
-        profile_kwargs_list=optical_depth_profile_kwargs_list,
+        profile_kwargs_list=optical_depth_profile_kwargs_list_i,
         tau0_index=tau0_index,
     )
     return (
-- 
2.43.0


From e8b301f6d3ac3f7b2e7ca070c496ea736da08869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:03 +0000
Subject: [PATCH 137/161] fix: lens profile settings of the user are not
 changed, None stands for the default

---
 lenstronomy/LensModel/profile_list_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/LensModel/profile_list_base.py b/lenstronomy/LensModel/profile_list_base.py
index df6ecdc..ba2a5f0 100644
--- a/lenstronomy/LensModel/profile_list_base.py
+++ b/lenstronomy/LensModel/profile_list_base.py
@@ -178,6 +178,8 @@ class ProfileListBase(object):
             lens_redshift_list = [None] * len(lens_model_list)
         if profile_kwargs_list is None:
             profile_kwargs_list = [{} for _ in range(len(lens_model_list))]
+        # copies, as settings are added and None stands for the default settings
+        profile_kwargs_list = [dict(kwargs or {}) for kwargs in profile_kwargs_list]
 
         # use_jax can be either a bool or list of bools to select specific models to be imported from jaxtronomy
         # If it's a bool, convert to list of bools
-- 
2.43.0


From db8c777ab1ba974faef5ea59ed61741a2d47f1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:03 +0000
Subject: [PATCH 138/161] fix: light profile settings of the user are not
 changed

---
 lenstronomy/LightModel/light_model_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LightModel/light_model_base.py b/lenstronomy/LightModel/light_model_base.py
index 00d392b..74cf9d5 100644
--- a/lenstronomy/LightModel/light_model_base.py
+++ b/lenstronomy/LightModel/light_model_base.py
@@ -62,8 +62,8 @@ class LightModelBase(object):
             profile_kwargs_list = [{} for _ in range(len(light_model_list))]
 
         for profile_type, profile_kwargs in zip(light_model_list, profile_kwargs_list):
-            if profile_kwargs is None:
-                profile_kwargs = {}
+            # copy, as settings are added and None stands for the default settings
+            profile_kwargs = dict(profile_kwargs or {})
             if profile_type == "GAUSSIAN":
                 from lenstronomy.LightModel.Profiles.gaussian import Gaussian
 
-- 
2.43.0


From 77050945f741b63f6297811b2fe8a35df10609fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:54 +0000
Subject: [PATCH 139/161] fix: truncated NFW is finite at its truncation radius

---
 lenstronomy/LensModel/Profiles/nfw_vir_trunc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/Profiles/nfw_vir_trunc.py b/lenstronomy/LensModel/Profiles/nfw_vir_trunc.py
index dc089c4..a6acf99 100644
--- a/lenstronomy/LensModel/Profiles/nfw_vir_trunc.py
+++ b/lenstronomy/LensModel/Profiles/nfw_vir_trunc.py
@@ -77,7 +77,7 @@ class NFWVirTrunc(LensProfileBase):
             elif x <= c:  # X > 1:
                 a = -np.sqrt(c**2 - x**2) / (1 - x**2) / (1 + c) - 1 / (
                     x**2 - 1
-                ) ** (3.0 / 2) * np.arccos((x**2 + c) / (x * (1 + c)))
+                ) ** (3.0 / 2) * np.arccos(min((x**2 + c) / (x * (1 + c)), 1.0))
             else:
                 a = 0
 
@@ -93,7 +93,7 @@ class NFWVirTrunc(LensProfileBase):
             a[(x > 1) & (x <= c)] = -np.sqrt(c**2 - x_**2) / (1 - x_**2) / (
                 1 + c
             ) - 1 / (x_**2 - 1) ** (3.0 / 2) * np.arccos(
-                (x_**2 + c) / (x_ * (1 + c))
+                np.minimum((x_**2 + c) / (x_ * (1 + c)), 1.0)
             )
             # a[x > c] = 0
         return a
-- 
2.43.0


From 715ecf5087b1ffe603ae423ace8ec375b6072519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:16 +0000
Subject: [PATCH 140/161] fix: Chameleon static mode can be set again with
 other parameters

---
 lenstronomy/LensModel/Profiles/chameleon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LensModel/Profiles/chameleon.py b/lenstronomy/LensModel/Profiles/chameleon.py
index 3b732e0..e640d60 100644
--- a/lenstronomy/LensModel/Profiles/chameleon.py
+++ b/lenstronomy/LensModel/Profiles/chameleon.py
@@ -225,6 +225,7 @@ class Chameleon(LensProfileBase):
         :param center_y:
         :return:
         """
+        self.set_dynamic()
         self._static = True
         (
             self._theta_convert_static,
-- 
2.43.0


From 5343b17a2db0ed84fdc4cbefaaa6748be352aaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:11 +0000
Subject: [PATCH 141/161] fix: several BPL components do not share their static
 parameters

---
 lenstronomy/LensModel/profile_list_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/LensModel/profile_list_base.py b/lenstronomy/LensModel/profile_list_base.py
index ba2a5f0..e63dac8 100644
--- a/lenstronomy/LensModel/profile_list_base.py
+++ b/lenstronomy/LensModel/profile_list_base.py
@@ -110,6 +110,7 @@ _SUPPORTED_MODELS = [
 # interpolated. This list does not need to include profiles with different initialization settings,
 # e.g. GNFW, since that is handled automatically in _load_model_instances()
 DYNAMIC_PROFILES = [
+    "BPL",
     "CHAMELEON",
     "CTNFW_GAUSS_DEC",
     "DOUBLE_CHAMELEON",
-- 
2.43.0


From 63dd645ca53d8c07e41dd8783a6a3b249b76e3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:01 +0000
Subject: [PATCH 142/161] fix: tracer likelihood respects the likelihood mask

---
 lenstronomy/ImSim/tracer_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lenstronomy/ImSim/tracer_model.py b/lenstronomy/ImSim/tracer_model.py
index af599f4..f13ad16 100644
--- a/lenstronomy/ImSim/tracer_model.py
+++ b/lenstronomy/ImSim/tracer_model.py
@@ -72,6 +72,7 @@ class TracerModelSource(ImageModel):
             point_source_class=point_source_class,
             extinction_class=extinction_class,
             kwargs_numerics=kwargs_numerics,
+            likelihood_mask=likelihood_mask,
             kwargs_pixelbased=kwargs_pixelbased,
         )
         if psf_error_map_bool_list is None:
-- 
2.43.0


From 8948cc37221587ddd146a8ea664ce333778c30ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:52 +0000
Subject: [PATCH 143/161] fix: decoupled multi-plane models keep the source
 redshift convention

---
 lenstronomy/LensModel/MultiPlane/decoupled_multi_plane.py | 4 ++--
 lenstronomy/LensModel/Util/decouple_multi_plane_util.py   | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/LensModel/MultiPlane/decoupled_multi_plane.py b/lenstronomy/LensModel/MultiPlane/decoupled_multi_plane.py
index 75805e9..19450df 100644
--- a/lenstronomy/LensModel/MultiPlane/decoupled_multi_plane.py
+++ b/lenstronomy/LensModel/MultiPlane/decoupled_multi_plane.py
@@ -93,8 +93,8 @@ class MultiPlaneDecoupled(MultiPlane):
         )
 
         cosmo_bkg = Background(cosmo)
-        d_xy_source = cosmo_bkg.d_xy(0, z_source)
-        d_xy_lens_source = cosmo_bkg.d_xy(self._z_split, z_source)
+        d_xy_source = cosmo_bkg.d_xy(0, self.z_source_convention)
+        d_xy_lens_source = cosmo_bkg.d_xy(self._z_split, self.z_source_convention)
         self._reduced_to_phys = d_xy_source / d_xy_lens_source
         self._deltaT_zsplit = cosmo_bkg.d_xy(0, self._z_split)
         self._deltaT_zsplit_zsource = cosmo_bkg.T_xy(self._z_split, z_source)
diff --git a/lenstronomy/LensModel/Util/decouple_multi_plane_util.py b/lenstronomy/LensModel/Util/decouple_multi_plane_util.py
index 543cc87..331b523 100644
--- a/lenstronomy/LensModel/Util/decouple_multi_plane_util.py
+++ b/lenstronomy/LensModel/Util/decouple_multi_plane_util.py
@@ -21,6 +21,7 @@ def setup_lens_model(lens_model, kwargs_lens, index_lens_split, use_jax=False):
         the background cosmology
     """
     z_source = lens_model.z_source
+    z_source_convention = lens_model.lens_model.z_source_convention
     cosmo = lens_model.cosmo
     lens_model_list = lens_model.lens_model_list
     lens_redshift_list = lens_model.redshift_list
@@ -58,6 +59,7 @@ def setup_lens_model(lens_model, kwargs_lens, index_lens_split, use_jax=False):
         profile_kwargs_list=profile_kwargs_list_free,
         multi_plane=True,
         z_source=z_source,
+        z_source_convention=z_source_convention,
         cosmo=cosmo,
     )
     lens_model_fixed = LensModel(
@@ -66,6 +68,7 @@ def setup_lens_model(lens_model, kwargs_lens, index_lens_split, use_jax=False):
         profile_kwargs_list=profile_kwargs_list_fixed,
         multi_plane=True,
         z_source=z_source,
+        z_source_convention=z_source_convention,
         cosmo=cosmo,
         use_jax=use_jax,
     )
@@ -350,6 +353,9 @@ def decoupled_multiplane_class_setup(
         "decouple_multi_plane": True,
         "kwargs_multiplane_model": kwargs_decoupled_lens_model,
     }
+    z_source_convention = lens_model_free.lens_model.z_source_convention
+    if z_source_convention != lens_model_free.z_source:
+        kwargs_lens_model["z_source_convention"] = z_source_convention
     return kwargs_lens_model
 
 
-- 
2.43.0


From f997b8227b6746f4c7bf3203be72451dde0d5ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:38 +0000
Subject: [PATCH 144/161] fix: amplitude estimate with PSF kernels of three
 pixels

---
 lenstronomy/Util/kernel_util.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index 26495d9..b7e08c5 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -592,9 +592,8 @@ def estimate_amp(data, x_pos, y_pos, psf_kernel):
         mean_image = max(np.sum(data[y_int - 2 : y_int + 3, x_int - 2 : x_int + 3]), 0)
         num = len(psf_kernel)
         center = int((num - 0.5) / 2)
-        mean_kernel = np.sum(
-            psf_kernel[center - 2 : center + 3, center - 2 : center + 3]
-        )
+        start = max(center - 2, 0)
+        mean_kernel = np.sum(psf_kernel[start : center + 3, start : center + 3])
         amp_estimated = mean_image / mean_kernel
     else:
         amp_estimated = 0
-- 
2.43.0


From 1f304eed49527487d6c1fcd631256eb9e590ee8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:26 +0000
Subject: [PATCH 145/161] fix: nearest integer PSF supersampling factor from
 COOLEST pixel sizes

---
 lenstronomy/Util/coolest_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Util/coolest_interface.py b/lenstronomy/Util/coolest_interface.py
index abc344a..e9208bb 100644
--- a/lenstronomy/Util/coolest_interface.py
+++ b/lenstronomy/Util/coolest_interface.py
@@ -120,7 +120,7 @@ def create_lenstronomy_from_coolest(file_name, use_epl=True, **kwargs_serializer
                 psf_ny = lens_instrument.psf.pixels.num_pix_y
                 super_sampling_factor = 1
                 if pixel_size != psf_pixel_size:
-                    super_sampling_factor = int(pixel_size / psf_pixel_size)
+                    super_sampling_factor = int(round(pixel_size / psf_pixel_size))
                     print(
                         f"PSF pixel size {psf_pixel_size} is different from image pixel size {pixel_size}. "
                         f"Assuming super sampling factor of {super_sampling_factor}."
-- 
2.43.0


From 97d620d5016eb75acebf8cc1cbab37b9a3178048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:26 +0000
Subject: [PATCH 146/161] fix: COOLEST posterior percentiles of sign-flipped
 parameters

---
 lenstronomy/Util/coolest_update_util.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lenstronomy/Util/coolest_update_util.py b/lenstronomy/Util/coolest_update_util.py
index 579f2be..daa0d74 100644
--- a/lenstronomy/Util/coolest_update_util.py
+++ b/lenstronomy/Util/coolest_update_util.py
@@ -269,7 +269,7 @@ def pemd_update(mass, kwargs_lens, kwargs_lens_mcmc=None):
         cx_16, cx_50, cx_84 = np.quantile(cx, [0.16, 0.5, 0.84])
         mass.parameters["center_x"].set_posterior(
             PosteriorStatistics(
-                -float(cx_mean), -float(cx_50), -float(cx_16), -float(cx_84)
+                -float(cx_mean), -float(cx_50), -float(cx_84), -float(cx_16)
             )
         )
 
@@ -345,7 +345,7 @@ def sie_update(mass, kwargs_lens, kwargs_lens_mcmc=None):
         cx_16, cx_50, cx_84 = np.quantile(cx, [0.16, 0.5, 0.84])
         mass.parameters["center_x"].set_posterior(
             PosteriorStatistics(
-                -float(cx_mean), -float(cx_50), -float(cx_16), -float(cx_84)
+                -float(cx_mean), -float(cx_50), -float(cx_84), -float(cx_16)
             )
         )
 
@@ -442,7 +442,7 @@ def sersic_update(light, kwargs_light, kwargs_light_mcmc=None):
         cx_16, cx_50, cx_84 = np.quantile(cx, [0.16, 0.5, 0.84])
         light.parameters["center_x"].set_posterior(
             PosteriorStatistics(
-                -float(cx_mean), -float(cx_50), -float(cx_16), -float(cx_84)
+                -float(cx_mean), -float(cx_50), -float(cx_84), -float(cx_16)
             )
         )
 
@@ -485,15 +485,17 @@ def shapelets_update(light, kwargs_light, kwargs_light_mcmc=None):
     )
 
     if kwargs_light_mcmc is not None:
-        a = [arg["amp"] for arg in kwargs_light_mcmc]
+        a = [
+            shapelet_amp_lenstronomy_to_coolest(arg["amp"]) for arg in kwargs_light_mcmc
+        ]
         a_mean = np.mean(a, axis=0)
         a_16, a_50, a_84 = np.quantile(a, [0.16, 0.5, 0.84], axis=0)
         light.parameters["amps"].set_posterior(
             PosteriorStatistics(
-                shapelet_amp_lenstronomy_to_coolest(np.ndarray.tolist(a_mean)),
-                shapelet_amp_lenstronomy_to_coolest(np.ndarray.tolist(a_50)),
-                shapelet_amp_lenstronomy_to_coolest(np.ndarray.tolist(a_16)),
-                shapelet_amp_lenstronomy_to_coolest(np.ndarray.tolist(a_84)),
+                np.ndarray.tolist(a_mean),
+                np.ndarray.tolist(a_50),
+                np.ndarray.tolist(a_16),
+                np.ndarray.tolist(a_84),
             )
         )
 
@@ -518,7 +520,7 @@ def shapelets_update(light, kwargs_light, kwargs_light_mcmc=None):
         cx_16, cx_50, cx_84 = np.quantile(cx, [0.16, 0.5, 0.84])
         light.parameters["center_x"].set_posterior(
             PosteriorStatistics(
-                -float(cx_mean), -float(cx_50), -float(cx_16), -float(cx_84)
+                -float(cx_mean), -float(cx_50), -float(cx_84), -float(cx_16)
             )
         )
 
@@ -572,8 +574,8 @@ def lensed_point_source_update(light, kwargs_ps, kwargs_ps_mcmc=None):
             PosteriorStatistics(
                 np.ndarray.tolist(-ra_mean),
                 np.ndarray.tolist(-ra_50),
-                np.ndarray.tolist(-ra_16),
                 np.ndarray.tolist(-ra_84),
+                np.ndarray.tolist(-ra_16),
             )
         )
         dec = [arg["dec_image"] for arg in kwargs_ps_mcmc]
-- 
2.43.0


From e6ffffaf9e9bed0ccea01dc0e8ee30d1e4144266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:35 +0000
Subject: [PATCH 147/161] fix: pairing of positions removes one of several
 equally distant points

---
 lenstronomy/Util/util.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lenstronomy/Util/util.py b/lenstronomy/Util/util.py
index b37eb39..e7cfbc5 100644
--- a/lenstronomy/Util/util.py
+++ b/lenstronomy/Util/util.py
@@ -446,9 +446,7 @@ def get_distance(x_mins, y_mins, x_true, y_true):
     for i in range(0, len(x_mins)):
         dist_list = (x_mins[i] - x_true_list) ** 2 + (y_mins[i] - y_true_list) ** 2
         dist += min(dist_list)
-        k = np.where(dist_list == min(dist_list))
-        if type(k) != int:
-            k = k[0]
+        k = np.argmin(dist_list)
         x_true_list = np.delete(x_true_list, k)
         y_true_list = np.delete(y_true_list, k)
     return dist
-- 
2.43.0


From 732fcea83e9d90d2acba8862b73909488eb93971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:35 +0000
Subject: [PATCH 148/161] fix: half-moon mask across the branch cut of the
 polar angle

---
 lenstronomy/Util/mask_util.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/Util/mask_util.py b/lenstronomy/Util/mask_util.py
index efe57e9..075f621 100644
--- a/lenstronomy/Util/mask_util.py
+++ b/lenstronomy/Util/mask_util.py
@@ -114,14 +114,14 @@ def mask_half_moon(x, y, center_x, center_y, r_in, r_out, phi0=0, delta_phi=2 *
     y_shift = y - center_y
     R = np.sqrt(x_shift * x_shift + y_shift * y_shift)
     phi = np.arctan2(x_shift, y_shift)
-    phi_min = phi0 - delta_phi / 2.0
-    phi_max = phi0 + delta_phi / 2.0
+    # separation from the central direction, across the branch cut of arctan2
+    separation = np.abs((phi - phi0 + np.pi) % (2 * np.pi) - np.pi)
     mask = np.zeros_like(x, dtype="int")
-    if phi_max > phi_min:
-        mask[(R < r_out) & (R > r_in) & (phi > phi_min) & (phi < phi_max)] = 1
+    ring = (R < r_out) & (R > r_in)
+    if delta_phi <= 0 or delta_phi >= 2 * np.pi:
+        mask[ring] = 1
     else:
-        mask[(R < r_out) & (R > r_in) & (phi > phi_max)] = 1
-        mask[(R < r_out) & (R > r_in) & (phi < phi_min)] = 1
+        mask[ring & (separation < delta_phi / 2.0)] = 1
     return mask
 
 
-- 
2.43.0


From 1116906886ad9caa2bb9bfe7dfc6a14a84fc2a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:55 +0000
Subject: [PATCH 149/161] fix: pixel-averaged kernels with even supersampling
 stay centered

---
 lenstronomy/Util/kernel_util.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lenstronomy/Util/kernel_util.py b/lenstronomy/Util/kernel_util.py
index b7e08c5..363161a 100644
--- a/lenstronomy/Util/kernel_util.py
+++ b/lenstronomy/Util/kernel_util.py
@@ -283,12 +283,17 @@ def kernel_average_pixel(kernel_super, supersampling_factor):
     if n_high % 2 == 0:
         n_high += 1
     kernel_pixel = np.zeros((n_high, n_high))
-    for i in range(supersampling_factor):
-        k_x = int((kernel_size - 1) / 2 * supersampling_factor + i)
-        for j in range(supersampling_factor):
-            k_y = int((kernel_size - 1) / 2 * supersampling_factor + j)
+    # positions symmetric around the center; an even number of sub-pixels per pixel
+    # has its outermost positions on the pixel edges, shared with the neighbors
+    weights = np.ones(supersampling_factor)
+    if supersampling_factor % 2 == 0:
+        weights = np.append(weights, 1.0)
+        weights[[0, -1]] = 0.5
+    start = (n_high - len(weights)) // 2
+    for i, w_x in enumerate(weights):
+        for j, w_y in enumerate(weights):
             kernel_pixel = image_util.add_layer2image(
-                kernel_pixel, k_x, k_y, kernel_super
+                kernel_pixel, start + i, start + j, w_x * w_y * kernel_super
             )
 
     if supersampling_factor % 2 == 0:
-- 
2.43.0


From 8ea5fdc718049a142bb9891875a3262c3bbd600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:42 +0000
Subject: [PATCH 150/161] fix: binned kinematic maps keep non-integer values

---
 lenstronomy/Data/kinematic_bin_2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Data/kinematic_bin_2D.py b/lenstronomy/Data/kinematic_bin_2D.py
index 33117f0..ba55d51 100644
--- a/lenstronomy/Data/kinematic_bin_2D.py
+++ b/lenstronomy/Data/kinematic_bin_2D.py
@@ -63,7 +63,7 @@ class KinBin(object):
         :param data: data value in each bin
         :param bin_mask: mask indicating which pixels belong to which bin
         """
-        binned_image = np.zeros_like(bin_mask)
+        binned_image = np.zeros(np.shape(bin_mask))
         for idx, value in enumerate(data):
             binned_image[bin_mask == idx] = value
         return binned_image
-- 
2.43.0


From 6f2498d636fe3defb3b5e83fb4697aae86ddcb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:42 +0000
Subject: [PATCH 151/161] fix: pixel grid of non-square kinematic bin maps

---
 lenstronomy/Data/kinematic_bin_2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Data/kinematic_bin_2D.py b/lenstronomy/Data/kinematic_bin_2D.py
index ba55d51..e29e92e 100644
--- a/lenstronomy/Data/kinematic_bin_2D.py
+++ b/lenstronomy/Data/kinematic_bin_2D.py
@@ -42,7 +42,7 @@ class KinBin(object):
 
         """
         self.PSF = psf_class
-        nx, ny = np.shape(bin_mask)
+        ny, nx = np.shape(bin_mask)
         self._nx = nx
         self._ny = ny
         self.PixelGrid = PixelGrid(
-- 
2.43.0


From 6cc192933fa9e97ab8baa144e3eadfdf81bb8e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:42 +0000
Subject: [PATCH 152/161] fix: kinematic map settings include the shift of the
 coordinates

---
 lenstronomy/Data/kinematic_bin_2D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Data/kinematic_bin_2D.py b/lenstronomy/Data/kinematic_bin_2D.py
index e29e92e..2ff9b95 100644
--- a/lenstronomy/Data/kinematic_bin_2D.py
+++ b/lenstronomy/Data/kinematic_bin_2D.py
@@ -53,8 +53,8 @@ class KinBin(object):
         self.covariance = bin_cov
         self.bin_mask = bin_mask
         self._pix2a = transform_pix2angle
-        self._ra_at_xy_0 = ra_at_xy_0
-        self._dec_at_xy_0 = dec_at_xy_0
+        self._ra_at_xy_0 = ra_at_xy_0 + ra_shift
+        self._dec_at_xy_0 = dec_at_xy_0 + dec_shift
 
     @staticmethod
     def binned_image(data, bin_mask):
-- 
2.43.0


From 563ae6c73168485c62d147d9c9cba5a6e225cd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:42 +0000
Subject: [PATCH 153/161] fix: 2d kinematics use the selected lens light
 profile

---
 .../Sampling/Likelihoods/kinematic_2D_likelihood.py  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py b/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
index 2073d6a..5e08ea6 100644
--- a/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
@@ -156,10 +156,10 @@ class KinLikelihood(object):
         #                                                      kwargs_lens[self._idx_lens]['e2'])
         orientation_mass = kwargs_lens[self._idx_lens]["phi"]
         q_mass = kwargs_lens[self._idx_lens]["q"]
-        # orientation_light, q_light = param_util.ellipticity2phi_q(kwargs_lens_light[self._idx_lens]['e1'],
-        #                                                         kwargs_lens_light[self._idx_lens]['e2'])
-        orientation_light = kwargs_lens_light[self._idx_lens]["phi"]
-        q_light = kwargs_lens_light[self._idx_lens]["q"]
+        # orientation_light, q_light = param_util.ellipticity2phi_q(kwargs_lens_light[self._idx_lens_light]['e1'],
+        #                                                         kwargs_lens_light[self._idx_lens_light]['e2'])
+        orientation_light = kwargs_lens_light[self._idx_lens_light]["phi"]
+        q_light = kwargs_lens_light[self._idx_lens_light]["q"]
 
         same_orientation = True  # confirm that angles are aligned
         if np.abs(orientation_mass - orientation_light) > 0.05:
@@ -177,8 +177,8 @@ class KinLikelihood(object):
                     q_mass,
                     q_light,
                     theta_e_glee,
-                    kwargs_lens_light[self._idx_lens]["n_sersic"],
-                    kwargs_lens_light[self._idx_lens]["R_sersic"],
+                    kwargs_lens_light[self._idx_lens_light]["n_sersic"],
+                    kwargs_lens_light[self._idx_lens_light]["R_sersic"],
                     8.0e-2,
                     gamma_glee,
                     kwargs_special["b_ani"],
-- 
2.43.0


From ac75cb545638f7d9cbb7bcb0b35c239d426e0d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:42 +0000
Subject: [PATCH 154/161] fix: 2d kinematics compare position angles modulo
 half a turn

---
 lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py b/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
index 5e08ea6..98003b4 100644
--- a/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
@@ -162,7 +162,9 @@ class KinLikelihood(object):
         q_light = kwargs_lens_light[self._idx_lens_light]["q"]
 
         same_orientation = True  # confirm that angles are aligned
-        if np.abs(orientation_mass - orientation_light) > 0.05:
+        delta_phi = orientation_mass - orientation_light
+        # orientations are equal modulo half a turn
+        if np.abs((delta_phi + np.pi / 2) % np.pi - np.pi / 2) > 0.05:
             if q_light < 0.95 or q_mass < 0.95:
                 same_orientation = False
 
-- 
2.43.0


From 8795e47e42275cb68e5383213713734d1e5cb502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:12 +0000
Subject: [PATCH 155/161] fix: kinematic map likelihood with more than one lens
 light profile

---
 lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py b/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
index 98003b4..63d27e6 100644
--- a/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
+++ b/lenstronomy/Sampling/Likelihoods/kinematic_2D_likelihood.py
@@ -62,8 +62,8 @@ class KinLikelihood(object):
 
         self.kin_x_grid, self.kin_y_grid = self.kin_class.kin_grid()
 
-        self.lens_light_bool_list = list(
-            np.zeros_like(self.lens_light_model_class.profile_type_list, dtype=bool)
+        self.lens_light_bool_list = [False] * len(
+            self.lens_light_model_class.profile_type_list
         )
         self.lens_light_bool_list[self._idx_lens_light] = True
 
-- 
2.43.0


From 19916b2385e3695b41f967b772656ce94cc77da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:41 +0000
Subject: [PATCH 156/161] fix: PSF cut-outs with masked pixels keep the
 relative normalisation

---
 lenstronomy/Workflow/psf_fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/psf_fitting.py b/lenstronomy/Workflow/psf_fitting.py
index 9aae293..690bbff 100644
--- a/lenstronomy/Workflow/psf_fitting.py
+++ b/lenstronomy/Workflow/psf_fitting.py
@@ -718,7 +718,7 @@ class PsfFitting(object):
         # norm_masked = np.sum(kernel_shifted[mask_i == 0])
         norm_unmasked = np.sum(kernel_shifted[mask_cutout == 1])
         # normalize star within the unmasked region to the norm of the initial kernel of the same region
-        star_cutout /= np.sum(star_cutout[mask_cutout == 1]) * norm_unmasked
+        star_cutout *= norm_unmasked / np.sum(star_cutout[mask_cutout == 1])
         # replace mask with shifted initial kernel (+2 size)
         star_cutout[mask_cutout == 0] = kernel_shifted[mask_cutout == 0]
         star_cutout[star_cutout < 0] = 0
-- 
2.43.0


From 0aa0b8ccdf007239ed16bf10c75f09ba29ff35ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:41 +0000
Subject: [PATCH 157/161] fix: PSF error map blocks the neighbouring images at
 their angular positions

---
 lenstronomy/Workflow/psf_fitting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lenstronomy/Workflow/psf_fitting.py b/lenstronomy/Workflow/psf_fitting.py
index 690bbff..d2ca743 100644
--- a/lenstronomy/Workflow/psf_fitting.py
+++ b/lenstronomy/Workflow/psf_fitting.py
@@ -934,6 +934,7 @@ class PsfFitting(object):
         ra_grid, dec_grid = self._image_model_class.Data.pixel_coordinates
         ra_grid = util.image2array(ra_grid)
         dec_grid = util.image2array(dec_grid)
+        ra_pos, dec_pos = self._image_model_class.Data.map_pix2coord(x_pos, y_pos)
         mask = self._image_model_class.likelihood_mask
         for i, star in enumerate(star_cutout_list):
             x, y, amp_i = x_pos[i], y_pos[i], amp[i]
@@ -953,7 +954,7 @@ class PsfFitting(object):
             )
             # block neighbor points in error estimate
             mask_point_source = self.mask_point_source(
-                x_pos, y_pos, ra_grid, dec_grid, radius=block_center_neighbour, i=i
+                ra_pos, dec_pos, ra_grid, dec_grid, radius=block_center_neighbour, i=i
             )
             mask_i = mask * mask_point_source
             mask_i = kernel_util.cutout_source(
-- 
2.43.0


From 23e63a8170f6d26e21059e74104df771d7941829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:44 +0000
Subject: [PATCH 158/161] fix: tracer likelihood honours the tracer type of the
 model

---
 lenstronomy/Util/class_creator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/Util/class_creator.py b/lenstronomy/Util/class_creator.py
index b70ca76..58bb19b 100644
--- a/lenstronomy/Util/class_creator.py
+++ b/lenstronomy/Util/class_creator.py
@@ -469,6 +469,7 @@ def create_tracer_model(tracer_data, kwargs_model, tracer_likelihood_mask=None):
         light_model_list=kwargs_model.get("tracer_source_model_list", [])
     )
     tracer_partition = kwargs_model.get("tracer_partition", None)
+    tracer_type = kwargs_model.get("tracer_type", "LINEAR")
     kwargs_data, kwargs_psf, kwargs_numerics = tracer_data
     (
         lens_model_class,
@@ -493,5 +494,6 @@ def create_tracer_model(tracer_data, kwargs_model, tracer_likelihood_mask=None):
         psf_error_map_bool_list=None,
         kwargs_pixelbased=None,
         tracer_partition=tracer_partition,
+        tracer_type=tracer_type,
     )
     return tracer_model
-- 
2.43.0


From 968d55c3c1e331cf08a7dde32776a260ebd791ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:32 +0000
Subject: [PATCH 159/161] fix: extinction map does not print its values

---
 lenstronomy/ImSim/image_model.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lenstronomy/ImSim/image_model.py b/lenstronomy/ImSim/image_model.py
index fc9ef08..9dae40e 100644
--- a/lenstronomy/ImSim/image_model.py
+++ b/lenstronomy/ImSim/image_model.py
@@ -676,7 +676,6 @@ class ImageModel(object):
             kwargs_extinction=kwargs_extinction,
             kwargs_special=kwargs_special,
         )
-        print(extinction, "test extinction")
         extinction_array = np.ones_like(ra_grid) * extinction
         extinction = (
             self.ImageNumerics.re_size_convolve(extinction_array, unconvolved=True)
-- 
2.43.0


From 4139f73ca5e409c632fa85a78d62cc1159bc8f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:32 +0000
Subject: [PATCH 160/161] fix: differential extinction without special
 parameters

---
 lenstronomy/ImSim/differential_extinction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lenstronomy/ImSim/differential_extinction.py b/lenstronomy/ImSim/differential_extinction.py
index ccd03a1..96fd3ea 100644
--- a/lenstronomy/ImSim/differential_extinction.py
+++ b/lenstronomy/ImSim/differential_extinction.py
@@ -53,6 +53,8 @@ class DifferentialExtinction(object):
         if self._compute_bool is False or kwargs_extinction is None:
             return 1
         tau = self._profile.surface_brightness(x, y, kwargs_list=kwargs_extinction)
+        if kwargs_special is None:
+            kwargs_special = {}
         tau0_list = kwargs_special.get("tau0_list", None)
         if tau0_list is not None:
             tau0 = tau0_list[self._tau0_index]
-- 
2.43.0


From adb9d82273d7dba8d4ac0fe25fdba3ae58218d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:21 +0000
Subject: [PATCH 161/161] fix: static convolution of images of different sizes

---
 lenstronomy/ImSim/Numerics/convolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lenstronomy/ImSim/Numerics/convolution.py b/lenstronomy/ImSim/Numerics/convolution.py
index 1dc27ef..344d4fe 100644
--- a/lenstronomy/ImSim/Numerics/convolution.py
+++ b/lenstronomy/ImSim/Numerics/convolution.py
@@ -81,7 +81,7 @@ class PixelKernelConvolution(object):
         """
         in1 = image
         in1 = np.asarray(in1)
-        if self._pre_computed is False:
+        if self._pre_computed is False or not np.array_equal(self._s1, in1.shape):
             (
                 self._s1,
                 self._s2,
-- 
2.43.0

