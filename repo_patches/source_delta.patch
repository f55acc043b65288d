From 08ff881ea7370e2ae4dc45e95c6a2e844c2c1bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 01/18] fix: sign of the spin term in Kerr's d(g_phiphi)/dr,
 which made Gamma^0_13, Gamma^1_33 and Gamma^3_13 wrong

---
 src/einsteinpy/metric/kerr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/metric/kerr.py b/src/einsteinpy/metric/kerr.py
index e13592a..9efc5ba 100644
--- a/src/einsteinpy/metric/kerr.py
+++ b/src/einsteinpy/metric/kerr.py
@@ -182,7 +182,7 @@ class Kerr(BaseMetric):
             dgdx[1, 0, 0] = -tmp * _c**2
             dgdx[1, 1, 1] = -(dsdr - (sg * (dddr / dl))) / dl
             dgdx[1, 2, 2] = -dsdr
-            dgdx[1, 3, 3] = (-2 * r + ((alpha * np.sin(th)) ** 2) * tmp) * (
+            dgdx[1, 3, 3] = -(2 * r + ((alpha * np.sin(th)) ** 2) * tmp) * (
                 np.sin(th) ** 2
             )
             dgdx[1, 0, 3] = dgdx[1, 3, 0] = _c * alpha * (np.sin(th) ** 2) * tmp
-- 
2.43.0


From 1ccadbc6f300e91ef8e74183c22b89b36d523c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:23 +0000
Subject: [PATCH 02/18] fix: Kerr-Newman metric and its derivatives ignored the
 charge in Delta

---
 src/einsteinpy/metric/kerrnewman.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 69d2c88..3fc17f6 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -134,9 +134,9 @@ class KerrNewman(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        M, a = self.M.value, self.a.value
+        M, a, Q = self.M.value, self.a.value, self.Q.value
         alpha = super().alpha(M, a)
-        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a)
+        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, Q)
 
         g_cov_bl = np.zeros(shape=(4, 4), dtype=float)
 
@@ -175,9 +175,9 @@ class KerrNewman(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        M, a = self.M.value, self.a.value
+        M, a, Q = self.M.value, self.a.value, self.Q.value
         alpha = super().alpha(M, a)
-        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a)
+        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, Q)
 
         dgdx = np.zeros(shape=(4, 4, 4), dtype=float)
 
-- 
2.43.0


From 5a18ec9ec9702ce27cb160f4edc4cfa0312361a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 03/18] fix: Kerr-Newman Lorentz force lowered the wrong index
 of the contracted field

---
 src/einsteinpy/metric/kerrnewman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 3fc17f6..dcb71aa 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -405,7 +405,7 @@ class KerrNewman(BaseMetric):
             + chl[3, 2, 3] * vec[6] * vec[7]
         )
 
-        vals[4:] -= self.q.value * (F_contra @ vec[4:] @ g_cov)
+        vals[4:] -= self.q.value * (F_contra @ (g_cov @ vec[4:]))
 
         return vals
 
-- 
2.43.0


From bce7b77394971e04675ee862964ddc0798afa3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 04/18] fix: convert metric parameters to SI before using their
 values (mass in solar masses, charge in other units were taken as SI)

---
 src/einsteinpy/metric/base_metric.py |  3 ++-
 src/einsteinpy/metric/kerr.py        |  4 ++--
 src/einsteinpy/metric/kerrnewman.py  | 10 +++++-----
 src/einsteinpy/units.py              |  4 ++--
 4 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/einsteinpy/metric/base_metric.py b/src/einsteinpy/metric/base_metric.py
index 7a36242..3ad97c9 100644
--- a/src/einsteinpy/metric/base_metric.py
+++ b/src/einsteinpy/metric/base_metric.py
@@ -289,7 +289,8 @@ class BaseMetric:
             coordinate system, the metric object has been instantiated with
 
         """
-        system, M, a, Q = self.coords.system, self.M.value, self.a.value, self.Q.value
+        system = self.coords.system
+        M, a, Q = self.M.si.value, self.a.si.value, self.Q.si.value
 
         r_s = 2 * M * _G / _c**2
         alpha = BaseMetric.alpha(M, a)
diff --git a/src/einsteinpy/metric/kerr.py b/src/einsteinpy/metric/kerr.py
index 9efc5ba..e6fa0ad 100644
--- a/src/einsteinpy/metric/kerr.py
+++ b/src/einsteinpy/metric/kerr.py
@@ -125,7 +125,7 @@ class Kerr(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        r_s, M, a = self.sch_rad, self.M.value, self.a.value
+        r_s, M, a = self.sch_rad, self.M.si.value, self.a.si.value
         alpha = super().alpha(M, a)
         sg, dl = super().sigma(r, th, M, a), super().delta(r, M, a)
 
@@ -166,7 +166,7 @@ class Kerr(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        r_s, M, a = self.sch_rad, self.M.value, self.a.value
+        r_s, M, a = self.sch_rad, self.M.si.value, self.a.si.value
         alpha = super().alpha(M, a)
         sg, dl = super().sigma(r, th, M, a), super().delta(r, M, a)
 
diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index dcb71aa..733cac5 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -134,7 +134,7 @@ class KerrNewman(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        M, a, Q = self.M.value, self.a.value, self.Q.value
+        M, a, Q = self.M.si.value, self.a.si.value, self.Q.si.value
         alpha = super().alpha(M, a)
         rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, Q)
 
@@ -175,7 +175,7 @@ class KerrNewman(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        M, a, Q = self.M.value, self.a.value, self.Q.value
+        M, a, Q = self.M.si.value, self.a.si.value, self.Q.si.value
         alpha = super().alpha(M, a)
         rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, Q)
 
@@ -405,7 +405,7 @@ class KerrNewman(BaseMetric):
             + chl[3, 2, 3] * vec[6] * vec[7]
         )
 
-        vals[4:] -= self.q.value * (F_contra @ (g_cov @ vec[4:]))
+        vals[4:] -= self.q.si.value * (F_contra @ (g_cov @ vec[4:]))
 
         return vals
 
@@ -427,7 +427,7 @@ class KerrNewman(BaseMetric):
 
         """
         _, r, th, _ = x_vec
-        M, a, Q = self.M.value, self.a.value, self.Q.value
+        M, a, Q = self.M.si.value, self.a.si.value, self.Q.si.value
 
         alpha = super().alpha(M, a)
         # Geometrized Charge
@@ -480,7 +480,7 @@ class KerrNewman(BaseMetric):
 
         """
         _, r, th, _ = x_vec
-        M, a, Q = self.M.value, self.a.value, self.Q.value
+        M, a, Q = self.M.si.value, self.a.si.value, self.Q.si.value
 
         alpha = super().alpha(M, a)
         r_Q = np.sqrt((Q**2 * _G * _Cc) / _c**4)
diff --git a/src/einsteinpy/units.py b/src/einsteinpy/units.py
index 1780568..bf08a0a 100644
--- a/src/einsteinpy/units.py
+++ b/src/einsteinpy/units.py
@@ -7,7 +7,7 @@ __all__ = ["primitive"]
 
 def primitive(*args):
     """
-    Strips out units and returns numpy.float64 values \
+    Strips out units and returns numpy.float64 values (in SI) \
     out of ``astropy.units.quantity.Quantity``
 
     Parameters
@@ -24,7 +24,7 @@ def primitive(*args):
     primitive_args = []
     for item in args:
         if isinstance(item, u.Quantity):
-            primitive_args.append(item.value)
+            primitive_args.append(item.si.value)
         else:
             primitive_args.append(item)
 
-- 
2.43.0


From 5b1564c8afc4f1f86b378585b99e70e26a661ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 05/18] fix: azimuthal velocity in cartesian_to_bl is defined
 on the plane x = 0

---
 src/einsteinpy/coordinates/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/coordinates/utils.py b/src/einsteinpy/coordinates/utils.py
index dca3dd3..d903607 100644
--- a/src/einsteinpy/coordinates/utils.py
+++ b/src/einsteinpy/coordinates/utils.py
@@ -77,7 +77,7 @@ def cartesian_to_bl(t, x, y, z, alpha, v_x, v_y, v_z):
         )
     )
     v_th = (-1 / np.sqrt(1 - np.square(z / r))) * ((v_z * r - v_r * z) / (r**2))
-    v_p = (1 / (1 + np.square(y / x))) * ((v_y * x - v_x * y) / (x**2))
+    v_p = (v_y * x - v_x * y) / (x**2 + y**2)
 
     return t, r, theta, phi, v_r, v_th, v_p
 
-- 
2.43.0


From 37ad6e9b9ef791f77e2e8ae7b64c13225ccb1bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 06/18] fix: initial 4-momentum used only the (0,3)
 off-diagonal component of the metric

---
 src/einsteinpy/geodesic/utils.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/einsteinpy/geodesic/utils.py b/src/einsteinpy/geodesic/utils.py
index 5408211..a95650a 100644
--- a/src/einsteinpy/geodesic/utils.py
+++ b/src/einsteinpy/geodesic/utils.py
@@ -41,13 +41,8 @@ def _P(g, g_prms, q, p, time_like=True):
     P = np.array([0.0, *p])
 
     A = guu[0, 0]
-    B = 2 * guu[0, 3] * P[3]
-    C = (
-        guu[1, 1] * P[1] * P[1]
-        + guu[2, 2] * P[2] * P[2]
-        + guu[3, 3] * P[3] * P[3]
-        + int(time_like)
-    )
+    B = 2 * (guu[0, 1:] @ P[1:])
+    C = guu[1:, 1:] @ P[1:] @ P[1:] + int(time_like)
 
     P[0] = (-B + np.sqrt(B**2 - 4 * A * C)) / (2 * A)
 
-- 
2.43.0


From bc6db67b7d54a4554310bef8eaac7c39ff1f6add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 07/18] fix: DualNumber(0, d) ** 0 raised ZeroDivisionError

---
 src/einsteinpy/utils/dual.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/einsteinpy/utils/dual.py b/src/einsteinpy/utils/dual.py
index b136e79..8f2e867 100644
--- a/src/einsteinpy/utils/dual.py
+++ b/src/einsteinpy/utils/dual.py
@@ -104,6 +104,9 @@ class DualNumber:
         return DualNumber(-self.val, -self.deriv)
 
     def __pow__(self, power):
+        if power == 0:
+            return DualNumber(1.0, 0.0)
+
         return DualNumber(
             self.val**power, self.deriv * power * self.val ** (power - 1)
         )
-- 
2.43.0


From 280ebca52ab63211952360db2c54040faff86162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 08/18] fix: order 6 and 8 integrators used the outer order's
 coefficients at every level, so they converged only quadratically

---
 src/einsteinpy/integrators/fantasy.py | 584 +++++++++++++-------------
 1 file changed, 292 insertions(+), 292 deletions(-)

diff --git a/src/einsteinpy/integrators/fantasy.py b/src/einsteinpy/integrators/fantasy.py
index 042d003..f390f5b 100644
--- a/src/einsteinpy/integrators/fantasy.py
+++ b/src/einsteinpy/integrators/fantasy.py
@@ -1,292 +1,292 @@
-import warnings
-
-import numpy as np
-
-from .utils import _Z, _flow_A, _flow_B, _flow_mixed
-
-
-class GeodesicIntegrator:
-    """
-    Geodesic Integrator, based on [1]_.
-    This module uses Forward Mode Automatic Differentiation
-    to calculate metric derivatives to machine precision
-    leading to stable simulations.
-
-    References
-    ----------
-    .. [1] Christian, Pierre and Chan, Chi-Kwan;
-        "FANTASY: User-Friendly Symplectic Geodesic Integrator
-        for Arbitrary Metrics with Automatic Differentiation";
-        `2021 ApJ 909 67 <https://doi.org/10.3847/1538-4357/abdc28>`__
-
-    """
-
-    # TODO: Update arXiv attributions to ApJ (See #572)
-    def __init__(
-        self,
-        metric,
-        metric_params,
-        q0,
-        p0,
-        time_like=True,
-        steps=100,
-        delta=0.5,
-        rtol=1e-2,
-        atol=1e-2,
-        order=2,
-        omega=1.0,
-        suppress_warnings=False,
-    ):
-        """
-        Constructor
-
-        Parameters
-        ----------
-        metric : callable
-            Metric Function. Currently, these metrics are supported:
-            1. Schwarzschild
-            2. Kerr
-            3. KerrNewman
-        metric_params : array_like
-            Tuple of parameters to pass to the metric
-            E.g., ``(a,)`` for Kerr
-        q0 : array_like
-            Initial 4-Position
-        p0 : array_like
-            Initial 4-Momentum
-        time_like : bool, optional
-            Determines type of Geodesic
-            ``True`` for Time-like geodesics
-            ``False`` for Null-like geodesics
-            Defaults to ``True``
-        steps : int
-            Number of integration steps
-            Defaults to ``50``
-        delta : float
-            Initial integration step-size
-            Defaults to ``0.5``
-        rtol : float
-            Relative Tolerance
-            Defaults to ``1e-2``
-        atol : float
-            Absolute Tolerance
-            Defaults to ``1e-2``
-        order : int
-            Integration Order
-            Defaults to ``2``
-        omega : float
-            Coupling between Hamiltonian Flows
-            Smaller values imply smaller integration error, but too
-            small values can make the equation of motion non-integrable.
-            For non-capture trajectories, ``omega = 1.0`` is recommended.
-            For trajectories, that either lead to a capture or a grazing
-            geodesic, a decreased value of ``0.01`` or less is recommended.
-            Defaults to ``1.0``
-        suppress_warnings : bool
-            Whether to suppress warnings during simulation
-            Warnings are shown for every step, where numerical errors
-            exceed specified tolerance (controlled by ``rtol`` and ``atol``)
-            Defaults to ``False``
-
-        Raises
-        ------
-        NotImplementedError
-            If ``order`` is not in [2, 4, 6, 8]
-
-        """
-        ORDERS = {
-            2: self._ord_2,
-            4: self._ord_4,
-            6: self._ord_6,
-            8: self._ord_8,
-        }
-        self.metric = metric
-        self.metric_params = metric_params
-        self.q0 = q0
-        self.p0 = p0
-        self.time_like = time_like
-        self.steps = steps
-        self.delta = delta
-        self.omega = omega
-        if order not in ORDERS:
-            raise NotImplementedError(
-                f"Order {order} integrator has not been implemented."
-            )
-        self.order = order
-        self.integrator = ORDERS[order]
-        self.rtol = rtol
-        self.atol = atol
-        self.suppress_warnings = suppress_warnings
-
-        self.step_num = 0
-        self.res_list = [q0, p0, q0, p0]
-        self.results = list()
-
-    def __str__(self):
-        return f"""{self.__class__.__name__}(\n\
-                metric : {self.metric}\n\
-                metric_params : {self.metric_params}\n\
-                q0 : {self.q0},\n\
-                p0 : {self.p0},\n\
-                time_like : {self.time_like},\n\
-                steps : {self.steps},\n\
-                delta : {self.delta},\n\
-                omega : {self.omega},\n\
-                order : {self.order},\n\
-                rtol : {self.rtol},\n\
-                atol : {self.atol}\n\
-                suppress_warnings : {self.suppress_warnings}
-            )"""
-
-    def __repr__(self):
-        return self.__str__()
-
-    def _ord_2(self, q1, p1, q2, p2, delta):
-        """
-        Order 2 Integration Scheme
-
-        References
-        ----------
-        .. [1] Christian, Pierre and Chan, Chi-Kwan;
-            "FANTASY : User-Friendly Symplectic Geodesic Integrator
-            for Arbitrary Metrics with Automatic Differentiation";
-            `2021 ApJ 909 67 <https://doi.org/10.3847/1538-4357/abdc28>`__
-
-        """
-        dl, omg = delta, self.omega
-        g = self.metric
-        g_prms = self.metric_params
-
-        HA1 = np.array(
-            [
-                q1,
-                _flow_A(g, g_prms, q1, p1, q2, p2, 0.5 * dl)[1],
-                _flow_A(g, g_prms, q1, p1, q2, p2, 0.5 * dl)[0],
-                p2,
-            ]
-        )
-        HB1 = np.array(
-            [
-                _flow_B(g, g_prms, HA1[0], HA1[1], HA1[2], HA1[3], 0.5 * dl)[0],
-                HA1[1],
-                HA1[2],
-                _flow_B(g, g_prms, HA1[0], HA1[1], HA1[2], HA1[3], 0.5 * dl)[1],
-            ]
-        )
-        HC = _flow_mixed(HB1[0], HB1[1], HB1[2], HB1[3], dl, omg)
-        HB2 = np.array(
-            [
-                _flow_B(g, g_prms, HC[0], HC[1], HC[2], HC[3], 0.5 * dl)[0],
-                HC[1],
-                HC[2],
-                _flow_B(g, g_prms, HC[0], HC[1], HC[2], HC[3], 0.5 * dl)[1],
-            ]
-        )
-        HA2 = np.array(
-            [
-                HB2[0],
-                _flow_A(g, g_prms, HB2[0], HB2[1], HB2[2], HB2[3], 0.5 * dl)[1],
-                _flow_A(g, g_prms, HB2[0], HB2[1], HB2[2], HB2[3], 0.5 * dl)[0],
-                HB2[3],
-            ]
-        )
-
-        return HA2
-
-    def _ord_4(self, q1, p1, q2, p2, delta):
-        """
-        Order 4 Integration Scheme
-
-        References
-        ----------
-        .. [1] Yoshida, Haruo,
-            "Construction of higher order symplectic integrators";
-             Physics Letters A, vol. 150, no. 5-7, pp. 262-268, 1990.
-            `DOI: <https://doi.org/10.1016/0375-9601(90)90092-3>`__
-
-        """
-        dl = delta
-
-        Z0, Z1 = _Z(self.order)
-        step1 = self._ord_2(q1, p1, q2, p2, dl * Z1)
-        step2 = self._ord_2(step1[0], step1[1], step1[2], step1[3], dl * Z0)
-        step3 = self._ord_2(step2[0], step2[1], step2[2], step2[3], dl * Z1)
-
-        return step3
-
-    def _ord_6(self, q1, p1, q2, p2, delta):
-        """
-        Order 6 Integration Scheme
-
-        References
-        ----------
-        .. [1] Yoshida, Haruo,
-            "Construction of higher order symplectic integrators";
-             Physics Letters A, vol. 150, no. 5-7, pp. 262-268, 1990.
-            `DOI: <https://doi.org/10.1016/0375-9601(90)90092-3>`__
-
-        """
-        dl = delta
-
-        Z0, Z1 = _Z(self.order)
-        step1 = self._ord_4(q1, p1, q2, p2, dl * Z1)
-        step2 = self._ord_4(step1[0], step1[1], step1[2], step1[3], dl * Z0)
-        step3 = self._ord_4(step2[0], step2[1], step2[2], step2[3], dl * Z1)
-
-        return step3
-
-    def _ord_8(self, q1, p1, q2, p2, delta):
-        """
-        Order 8 Integration Scheme
-
-        References
-        ----------
-        .. [1] Yoshida, Haruo,
-            "Construction of higher order symplectic integrators";
-             Physics Letters A, vol. 150, no. 5-7, pp. 262-268, 1990.
-            `DOI: <https://doi.org/10.1016/0375-9601(90)90092-3>`__
-
-        """
-        dl = delta
-
-        Z0, Z1 = _Z(self.order)
-        step1 = self._ord_6(q1, p1, q2, p2, dl * Z1)
-        step2 = self._ord_6(step1[0], step1[1], step1[2], step1[3], dl * Z0)
-        step3 = self._ord_6(step2[0], step2[1], step2[2], step2[3], dl * Z1)
-
-        return step3
-
-    def step(self):
-        """
-        Advances integration by one step
-
-        """
-        rl = self.res_list
-
-        arr = self.integrator(rl[0], rl[1], rl[2], rl[3], self.delta)
-
-        self.res_list = arr
-        self.step_num += 1
-
-        # Stability check
-        if not self.suppress_warnings:
-            g = self.metric
-            g_prms = self.metric_params
-
-            q1 = arr[0]
-            p1 = arr[1]
-            # Ignoring
-            # q_2 = arr[2]
-            # p_2 = arr[3]
-
-            const = -int(self.time_like)
-            # g.p.p ~ -1 or 0 (const)
-            if not np.allclose(
-                g(q1, *g_prms) @ p1 @ p1, const, rtol=self.rtol, atol=self.atol
-            ):
-                warnings.warn(
-                    f"Numerical error has exceeded specified tolerance at step = {self.step_num}.",
-                    RuntimeWarning,
-                )
-
-        self.results.append(self.res_list)
+import warnings
+
+import numpy as np
+
+from .utils import _Z, _flow_A, _flow_B, _flow_mixed
+
+
+class GeodesicIntegrator:
+    """
+    Geodesic Integrator, based on [1]_.
+    This module uses Forward Mode Automatic Differentiation
+    to calculate metric derivatives to machine precision
+    leading to stable simulations.
+
+    References
+    ----------
+    .. [1] Christian, Pierre and Chan, Chi-Kwan;
+        "FANTASY: User-Friendly Symplectic Geodesic Integrator
+        for Arbitrary Metrics with Automatic Differentiation";
+        `2021 ApJ 909 67 <https://doi.org/10.3847/1538-4357/abdc28>`__
+
+    """
+
+    # TODO: Update arXiv attributions to ApJ (See #572)
+    def __init__(
+        self,
+        metric,
+        metric_params,
+        q0,
+        p0,
+        time_like=True,
+        steps=100,
+        delta=0.5,
+        rtol=1e-2,
+        atol=1e-2,
+        order=2,
+        omega=1.0,
+        suppress_warnings=False,
+    ):
+        """
+        Constructor
+
+        Parameters
+        ----------
+        metric : callable
+            Metric Function. Currently, these metrics are supported:
+            1. Schwarzschild
+            2. Kerr
+            3. KerrNewman
+        metric_params : array_like
+            Tuple of parameters to pass to the metric
+            E.g., ``(a,)`` for Kerr
+        q0 : array_like
+            Initial 4-Position
+        p0 : array_like
+            Initial 4-Momentum
+        time_like : bool, optional
+            Determines type of Geodesic
+            ``True`` for Time-like geodesics
+            ``False`` for Null-like geodesics
+            Defaults to ``True``
+        steps : int
+            Number of integration steps
+            Defaults to ``50``
+        delta : float
+            Initial integration step-size
+            Defaults to ``0.5``
+        rtol : float
+            Relative Tolerance
+            Defaults to ``1e-2``
+        atol : float
+            Absolute Tolerance
+            Defaults to ``1e-2``
+        order : int
+            Integration Order
+            Defaults to ``2``
+        omega : float
+            Coupling between Hamiltonian Flows
+            Smaller values imply smaller integration error, but too
+            small values can make the equation of motion non-integrable.
+            For non-capture trajectories, ``omega = 1.0`` is recommended.
+            For trajectories, that either lead to a capture or a grazing
+            geodesic, a decreased value of ``0.01`` or less is recommended.
+            Defaults to ``1.0``
+        suppress_warnings : bool
+            Whether to suppress warnings during simulation
+            Warnings are shown for every step, where numerical errors
+            exceed specified tolerance (controlled by ``rtol`` and ``atol``)
+            Defaults to ``False``
+
+        Raises
+        ------
+        NotImplementedError
+            If ``order`` is not in [2, 4, 6, 8]
+
+        """
+        ORDERS = {
+            2: self._ord_2,
+            4: self._ord_4,
+            6: self._ord_6,
+            8: self._ord_8,
+        }
+        self.metric = metric
+        self.metric_params = metric_params
+        self.q0 = q0
+        self.p0 = p0
+        self.time_like = time_like
+        self.steps = steps
+        self.delta = delta
+        self.omega = omega
+        if order not in ORDERS:
+            raise NotImplementedError(
+                f"Order {order} integrator has not been implemented."
+            )
+        self.order = order
+        self.integrator = ORDERS[order]
+        self.rtol = rtol
+        self.atol = atol
+        self.suppress_warnings = suppress_warnings
+
+        self.step_num = 0
+        self.res_list = [q0, p0, q0, p0]
+        self.results = list()
+
+    def __str__(self):
+        return f"""{self.__class__.__name__}(\n\
+                metric : {self.metric}\n\
+                metric_params : {self.metric_params}\n\
+                q0 : {self.q0},\n\
+                p0 : {self.p0},\n\
+                time_like : {self.time_like},\n\
+                steps : {self.steps},\n\
+                delta : {self.delta},\n\
+                omega : {self.omega},\n\
+                order : {self.order},\n\
+                rtol : {self.rtol},\n\
+                atol : {self.atol}\n\
+                suppress_warnings : {self.suppress_warnings}
+            )"""
+
+    def __repr__(self):
+        return self.__str__()
+
+    def _ord_2(self, q1, p1, q2, p2, delta):
+        """
+        Order 2 Integration Scheme
+
+        References
+        ----------
+        .. [1] Christian, Pierre and Chan, Chi-Kwan;
+            "FANTASY : User-Friendly Symplectic Geodesic Integrator
+            for Arbitrary Metrics with Automatic Differentiation";
+            `2021 ApJ 909 67 <https://doi.org/10.3847/1538-4357/abdc28>`__
+
+        """
+        dl, omg = delta, self.omega
+        g = self.metric
+        g_prms = self.metric_params
+
+        HA1 = np.array(
+            [
+                q1,
+                _flow_A(g, g_prms, q1, p1, q2, p2, 0.5 * dl)[1],
+                _flow_A(g, g_prms, q1, p1, q2, p2, 0.5 * dl)[0],
+                p2,
+            ]
+        )
+        HB1 = np.array(
+            [
+                _flow_B(g, g_prms, HA1[0], HA1[1], HA1[2], HA1[3], 0.5 * dl)[0],
+                HA1[1],
+                HA1[2],
+                _flow_B(g, g_prms, HA1[0], HA1[1], HA1[2], HA1[3], 0.5 * dl)[1],
+            ]
+        )
+        HC = _flow_mixed(HB1[0], HB1[1], HB1[2], HB1[3], dl, omg)
+        HB2 = np.array(
+            [
+                _flow_B(g, g_prms, HC[0], HC[1], HC[2], HC[3], 0.5 * dl)[0],
+                HC[1],
+                HC[2],
+                _flow_B(g, g_prms, HC[0], HC[1], HC[2], HC[3], 0.5 * dl)[1],
+            ]
+        )
+        HA2 = np.array(
+            [
+                HB2[0],
+                _flow_A(g, g_prms, HB2[0], HB2[1], HB2[2], HB2[3], 0.5 * dl)[1],
+                _flow_A(g, g_prms, HB2[0], HB2[1], HB2[2], HB2[3], 0.5 * dl)[0],
+                HB2[3],
+            ]
+        )
+
+        return HA2
+
+    def _ord_4(self, q1, p1, q2, p2, delta):
+        """
+        Order 4 Integration Scheme
+
+        References
+        ----------
+        .. [1] Yoshida, Haruo,
+            "Construction of higher order symplectic integrators";
+             Physics Letters A, vol. 150, no. 5-7, pp. 262-268, 1990.
+            `DOI: <https://doi.org/10.1016/0375-9601(90)90092-3>`__
+
+        """
+        dl = delta
+
+        Z0, Z1 = _Z(4)
+        step1 = self._ord_2(q1, p1, q2, p2, dl * Z1)
+        step2 = self._ord_2(step1[0], step1[1], step1[2], step1[3], dl * Z0)
+        step3 = self._ord_2(step2[0], step2[1], step2[2], step2[3], dl * Z1)
+
+        return step3
+
+    def _ord_6(self, q1, p1, q2, p2, delta):
+        """
+        Order 6 Integration Scheme
+
+        References
+        ----------
+        .. [1] Yoshida, Haruo,
+            "Construction of higher order symplectic integrators";
+             Physics Letters A, vol. 150, no. 5-7, pp. 262-268, 1990.
+            `DOI: <https://doi.org/10.1016/0375-9601(90)90092-3>`__
+
+        """
+        dl = delta
+
+        Z0, Z1 = _Z(6)
+        step1 = self._ord_4(q1, p1, q2, p2, dl * Z1)
+        step2 = self._ord_4(step1[0], step1[1], step1[2], step1[3], dl * Z0)
+        step3 = self._ord_4(step2[0], step2[1], step2[2], step2[3], dl * Z1)
+
+        return step3
+
+    def _ord_8(self, q1, p1, q2, p2, delta):
+        """
+        Order 8 Integration Scheme
+
+        References
+        ----------
+        .. [1] Yoshida, Haruo,
+            "Construction of higher order symplectic integrators";
+             Physics Letters A, vol. 150, no. 5-7, pp. 262-268, 1990.
+            `DOI: <https://doi.org/10.1016/0375-9601(90)90092-3>`__
+
+        """
+        dl = delta
+
+        Z0, Z1 = _Z(8)
+        step1 = self._ord_6(q1, p1, q2, p2, dl * Z1)
+        step2 = self._ord_6(step1[0], step1[1], step1[2], step1[3], dl * Z0)
+        step3 = self._ord_6(step2[0], step2[1], step2[2], step2[3], dl * Z1)
+
+        return step3
+
+    def step(self):
+        """
+        Advances integration by one step
+
+        """
+        rl = self.res_list
+
+        arr = self.integrator(rl[0], rl[1], rl[2], rl[3], self.delta)
+
+        self.res_list = arr
+        self.step_num += 1
+
+        # Stability check
+        if not self.suppress_warnings:
+            g = self.metric
+            g_prms = self.metric_params
+
+            q1 = arr[0]
+            p1 = arr[1]
+            # Ignoring
+            # q_2 = arr[2]
+            # p_2 = arr[3]
+
+            const = -int(self.time_like)
+            # g.p.p ~ -1 or 0 (const)
+            if not np.allclose(
+                g(q1, *g_prms) @ p1 @ p1, const, rtol=self.rtol, atol=self.atol
+            ):
+                warnings.warn(
+                    f"Numerical error has exceeded specified tolerance at step = {self.step_num}.",
+                    RuntimeWarning,
+                )
+
+        self.results.append(self.res_list)
-- 
2.43.0


From 803a8bd3af8b1afaad4249f927d64c43d579d52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 09/18] fix: RK4naive never stopped at t_bound because its
 direction was always zero

---
 src/einsteinpy/integrators/runge_kutta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/integrators/runge_kutta.py b/src/einsteinpy/integrators/runge_kutta.py
index 331fa77..9968294 100644
--- a/src/einsteinpy/integrators/runge_kutta.py
+++ b/src/einsteinpy/integrators/runge_kutta.py
@@ -32,7 +32,7 @@ class RK4naive:
         self.t_bound = t_bound
         self.step_size = stepsize
         self._fun = fun
-        self.direction = 1 * (self.t_bound >= t0) - 1 * (not self.t_bound < t0)
+        self.direction = 1 * (self.t_bound >= t0) - 1 * (self.t_bound < t0)
 
     def step(self):
         """
-- 
2.43.0


From 889bb98ccc58e51db8569327fbf962f197c08049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:03 +0000
Subject: [PATCH 10/18] fix: StressEnergyMomentumTensor.change_config returned
 an EinsteinTensor

---
 src/einsteinpy/symbolic/stress_energy_momentum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/stress_energy_momentum.py b/src/einsteinpy/symbolic/stress_energy_momentum.py
index 81a87de..b1eb724 100644
--- a/src/einsteinpy/symbolic/stress_energy_momentum.py
+++ b/src/einsteinpy/symbolic/stress_energy_momentum.py
@@ -92,7 +92,7 @@ class StressEnergyMomentumTensor(BaseRelativityTensor):
         if metric is None:
             raise Exception("Parent Metric not found, can't do configuration change")
         new_tensor = _change_config(self, metric, newconfig)
-        new_obj = EinsteinTensor(
+        new_obj = StressEnergyMomentumTensor(
             new_tensor,
             self.syms,
             config=newconfig,
-- 
2.43.0


From 8091bded1de6b5b0211d311a36a92b639e2c7d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 11/18] fix: Tensor.subs lost the index configuration, so it
 raised ValueError for every rank but two

---
 src/einsteinpy/symbolic/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index 586b118..321d0da 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -234,7 +234,7 @@ class Tensor:
             Tensor with substituted values
 
         """
-        return Tensor(self.tensor().subs(*args))
+        return Tensor(self.tensor().subs(*args), config=self._config, name=self.name)
 
     def simplify(self, set_self=True):
         """
-- 
2.43.0


From b589a3a1c637d926dd3f0ac20d1d077ba2c9f72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:42 +0000
Subject: [PATCH 12/18] fix: de Sitter scale factor depended on x instead of t

---
 src/einsteinpy/symbolic/predefined/de_sitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/predefined/de_sitter.py b/src/einsteinpy/symbolic/predefined/de_sitter.py
index e8798bb..3d8cb9c 100644
--- a/src/einsteinpy/symbolic/predefined/de_sitter.py
+++ b/src/einsteinpy/symbolic/predefined/de_sitter.py
@@ -42,7 +42,7 @@ def DeSitter():
 
     """
     coords = symbols("t x y z")
-    t = coords[1]
+    t = coords[0]
     al = symbols("alpha")
     expr = exp(2 * t / al)
     metric = diag(-1, expr, expr, expr).tolist()
-- 
2.43.0


From a775a7cfda3f4e3b2dcccda6bb4865a21983e478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:42 +0000
Subject: [PATCH 13/18] fix: order and argument of the Bessel functions were
 swapped in BesselGravitationalWave

---
 .../symbolic/predefined/bessel_gravitational_wave.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py b/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py
index 18f5b47..86a77ca 100644
--- a/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py
+++ b/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py
@@ -24,14 +24,14 @@ def BesselGravitationalWave(C=symbols("C")):
     t, rho, ph, z = coords
 
     # Useful helper functions, these wrap the Bessel functions that are used. C is some constant here
-    U = C * besselj(rho, 0) * cos(t)
+    U = C * besselj(0, rho) * cos(t)
     K = (
         (1 / 2)
         * (C**2)
         * rho
         * (
-            (rho * ((besselj(rho, 0) ** 2) + (besselj(rho, 1) ** 2)))
-            - (2 * besselj(rho, 0) * besselj(rho, 1) * (cos(t) ** 2))
+            (rho * ((besselj(0, rho) ** 2) + (besselj(1, rho) ** 2)))
+            - (2 * besselj(0, rho) * besselj(1, rho) * (cos(t) ** 2))
         )
     )
 
-- 
2.43.0


From eb9253bbd59ec1031ae0d5be3b2f8028a73e4eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:42 +0000
Subject: [PATCH 14/18] fix: distance from the bubble centre in AlcubierreWarp
 used y + z instead of y**2 + z**2

---
 src/einsteinpy/symbolic/predefined/alcubierre_warp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/predefined/alcubierre_warp.py b/src/einsteinpy/symbolic/predefined/alcubierre_warp.py
index 9a63dd2..a52a190 100644
--- a/src/einsteinpy/symbolic/predefined/alcubierre_warp.py
+++ b/src/einsteinpy/symbolic/predefined/alcubierre_warp.py
@@ -40,7 +40,7 @@ def AlcubierreWarp(
     """
     coords = symbols("t x y z")
     t, x, y, z = coords
-    r_s = sqrt((x - x_s) ** 2 + y + z)
+    r_s = sqrt((x - x_s) ** 2 + y**2 + z**2)
     f = (tanh(sigma * (r_s + R)) - tanh(sigma * (r_s - R))) / (2 * tanh(sigma * R))
 
     v2 = v**2
-- 
2.43.0


From 7e215e599104d114780cf3005e26734a8dd4ecdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:42 +0000
Subject: [PATCH 15/18] fix: angular part of JanisNewmanWinicour lacked the
 1/c**2 of the radial part, so it reduced to Schwarzschild only for c = 1

---
 src/einsteinpy/symbolic/predefined/janis_newman_winicour.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/symbolic/predefined/janis_newman_winicour.py b/src/einsteinpy/symbolic/predefined/janis_newman_winicour.py
index 47adedc..b799b4d 100644
--- a/src/einsteinpy/symbolic/predefined/janis_newman_winicour.py
+++ b/src/einsteinpy/symbolic/predefined/janis_newman_winicour.py
@@ -30,7 +30,7 @@ def JanisNewmanWinicour(
     metric = diag(
         -1 * (alpha**gam),
         (alpha**-gam) / (c**2),
-        (r**2) * (alpha ** (-gam + 1)),
-        (r**2) * (alpha ** (-gam + 1)) * (sin(th) ** 2),
+        (r**2) * (alpha ** (-gam + 1)) / (c**2),
+        (r**2) * (alpha ** (-gam + 1)) * (sin(th) ** 2) / (c**2),
     ).tolist()
     return MetricTensor(metric, coords, "ll", name="JanisNewmanWinicourMetric")
-- 
2.43.0


From e1768a080c8702f336c0514784c47e84e8a22ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:08 +0000
Subject: [PATCH 16/18] fix: restore the CRLF line endings of
 integrators/fantasy.py, changed by accident in 280ebca

---
 src/einsteinpy/integrators/fantasy.py | 584 +++++++++++++-------------
 1 file changed, 292 insertions(+), 292 deletions(-)

diff --git a/src/einsteinpy/integrators/fantasy.py b/src/einsteinpy/integrators/fantasy.py
index f390f5b..8f66aed 100644
--- a/src/einsteinpy/integrators/fantasy.py
+++ b/src/einsteinpy/integrators/fantasy.py
@@ -1,292 +1,292 @@
-import warnings
-
-import numpy as np
-
-from .utils import _Z, _flow_A, _flow_B, _flow_mixed
-
-
-class GeodesicIntegrator:
-    """
-    Geodesic Integrator, based on [1]_.
-    This module uses Forward Mode Automatic Differentiation
-    to calculate metric derivatives to machine precision
-    leading to stable simulations.
-
-    References
-    ----------
-    .. [1] Christian, Pierre and Chan, Chi-Kwan;
-        "FANTASY: User-Friendly Symplectic Geodesic Integrator
-        for Arbitrary Metrics with Automatic Differentiation";
-        `2021 ApJ 909 67 <https://doi.org/10.3847/1538-4357/abdc28>`__
-
-    """
-
-    # TODO: Update arXiv attributions to ApJ (See #572)
-    def __init__(
-        self,
-        metric,
-        metric_params,
-        q0,
-        p0,
-        time_like=True,
-        steps=100,
-        delta=0.5,
-        rtol=1e-2,
-        atol=1e-2,
-        order=2,
-        omega=1.0,
-        suppress_warnings=False,
-    ):
-        """
-        Constructor
-
-        Parameters
-        ----------
-        metric : callable
-            Metric Function. Currently, these metrics are supported:
-            1. Schwarzschild
-            2. Kerr
-            3. KerrNewman
-        metric_params : array_like
-            Tuple of parameters to pass to the metric
-            E.g., ``(a,)`` for Kerr
-        q0 : array_like
-            Initial 4-Position
-        p0 : array_like
-            Initial 4-Momentum
-        time_like : bool, optional
-            Determines type of Geodesic
-            ``True`` for Time-like geodesics
-            ``False`` for Null-like geodesics
-            Defaults to ``True``
-        steps : int
-            Number of integration steps
-            Defaults to ``50``
-        delta : float
-            Initial integration step-size
-            Defaults to ``0.5``
-        rtol : float
-            Relative Tolerance
-            Defaults to ``1e-2``
-        atol : float
-            Absolute Tolerance
-            Defaults to ``1e-2``
-        order : int
-            Integration Order
-            Defaults to ``2``
-        omega : float
-            Coupling between Hamiltonian Flows
-            Smaller values imply smaller integration error, but too
-            small values can make the equation of motion non-integrable.
-            For non-capture trajectories, ``omega = 1.0`` is recommended.
-            For trajectories, that either lead to a capture or a grazing
-            geodesic, a decreased value of ``0.01`` or less is recommended.
-            Defaults to ``1.0``
-        suppress_warnings : bool
-            Whether to suppress warnings during simulation
-            Warnings are shown for every step, where numerical errors
-            exceed specified tolerance (controlled by ``rtol`` and ``atol``)
-            Defaults to ``False``
-
-        Raises
-        ------
-        NotImplementedError
-            If ``order`` is not in [2, 4, 6, 8]
-
-        """
-        ORDERS = {
-            2: self._ord_2,
-            4: self._ord_4,
-            6: self._ord_6,
-            8: self._ord_8,
-        }
-        self.metric = metric
-        self.metric_params = metric_params
-        self.q0 = q0
-        self.p0 = p0
-        self.time_like = time_like
-        self.steps = steps
-        self.delta = delta
-        self.omega = omega
-        if order not in ORDERS:
-            raise NotImplementedError(
-                f"Order {order} integrator has not been implemented."
-            )
-        self.order = order
-        self.integrator = ORDERS[order]
-        self.rtol = rtol
-        self.atol = atol
-        self.suppress_warnings = suppress_warnings
-
-        self.step_num = 0
-        self.res_list = [q0, p0, q0, p0]
-        self.results = list()
-
-    def __str__(self):
-        return f"""{self.__class__.__name__}(\n\
-                metric : {self.metric}\n\
-                metric_params : {self.metric_params}\n\
-                q0 : {self.q0},\n\
-                p0 : {self.p0},\n\
-                time_like : {self.time_like},\n\
-                steps : {self.steps},\n\
-                delta : {self.delta},\n\
-                omega : {self.omega},\n\
-                order : {self.order},\n\
-                rtol : {self.rtol},\n\
-                atol : {self.atol}\n\
-                suppress_warnings : {self.suppress_warnings}
-            )"""
-
-    def __repr__(self):
-        return self.__str__()
-
-    def _ord_2(self, q1, p1, q2, p2, delta):
-        """
-        Order 2 Integration Scheme
-
-        References
-        ----------
-        .. [1] Christian, Pierre and Chan, Chi-Kwan;
-            "FANTASY : User-Friendly Symplectic Geodesic Integrator
-            for Arbitrary Metrics with Automatic Differentiation";
-            `2021 ApJ 909 67 <https://doi.org/10.3847/1538-4357/abdc28>`__
-
-        """
-        dl, omg = delta, self.omega
-        g = self.metric
-        g_prms = self.metric_params
-
-        HA1 = np.array(
-            [
-                q1,
-                _flow_A(g, g_prms, q1, p1, q2, p2, 0.5 * dl)[1],
-                _flow_A(g, g_prms, q1, p1, q2, p2, 0.5 * dl)[0],
-                p2,
-            ]
-        )
-        HB1 = np.array(
-            [
-                _flow_B(g, g_prms, HA1[0], HA1[1], HA1[2], HA1[3], 0.5 * dl)[0],
-                HA1[1],
-                HA1[2],
-                _flow_B(g, g_prms, HA1[0], HA1[1], HA1[2], HA1[3], 0.5 * dl)[1],
-            ]
-        )
-        HC = _flow_mixed(HB1[0], HB1[1], HB1[2], HB1[3], dl, omg)
-        HB2 = np.array(
-            [
-                _flow_B(g, g_prms, HC[0], HC[1], HC[2], HC[3], 0.5 * dl)[0],
-                HC[1],
-                HC[2],
-                _flow_B(g, g_prms, HC[0], HC[1], HC[2], HC[3], 0.5 * dl)[1],
-            ]
-        )
-        HA2 = np.array(
-            [
-                HB2[0],
-                _flow_A(g, g_prms, HB2[0], HB2[1], HB2[2], HB2[3], 0.5 * dl)[1],
-                _flow_A(g, g_prms, HB2[0], HB2[1], HB2[2], HB2[3], 0.5 * dl)[0],
-                HB2[3],
-            ]
-        )
-
-        return HA2
-
-    def _ord_4(self, q1, p1, q2, p2, delta):
-        """
-        Order 4 Integration Scheme
-
-        References
-        ----------
-        .. [1] Yoshida, Haruo,
-            "Construction of higher order symplectic integrators";
-             Physics Letters A, vol. 150, no. 5-7, pp. 262-268, 1990.
-            `DOI: <https://doi.org/10.1016/0375-9601(90)90092-3>`__
-
-        """
-        dl = delta
-
-        Z0, Z1 = _Z(4)
-        step1 = self._ord_2(q1, p1, q2, p2, dl * Z1)
-        step2 = self._ord_2(step1[0], step1[1], step1[2], step1[3], dl * Z0)
-        step3 = self._ord_2(step2[0], step2[1], step2[2], step2[3], dl * Z1)
-
-        return step3
-
-    def _ord_6(self, q1, p1, q2, p2, delta):
-        """
-        Order 6 Integration Scheme
-
-        References
-        ----------
-        .. [1] Yoshida, Haruo,
-            "Construction of higher order symplectic integrators";
-             Physics Letters A, vol. 150, no. 5-7, pp. 262-268, 1990.
-            `DOI: <https://doi.org/10.1016/0375-9601(90)90092-3>`__
-
-        """
-        dl = delta
-
-        Z0, Z1 = _Z(6)
-        step1 = self._ord_4(q1, p1, q2, p2, dl * Z1)
-        step2 = self._ord_4(step1[0], step1[1], step1[2], step1[3], dl * Z0)
-        step3 = self._ord_4(step2[0], step2[1], step2[2], step2[3], dl * Z1)
-
-        return step3
-
-    def _ord_8(self, q1, p1, q2, p2, delta):
-        """
-        Order 8 Integration Scheme
-
-        References
-        ----------
-        .. [1] Yoshida, Haruo,
-            "Construction of higher order symplectic integrators";
-             Physics Letters A, vol. 150, no. 5-7, pp. 262-268, 1990.
-            `DOI: <https://doi.org/10.1016/0375-9601(90)90092-3>`__
-
-        """
-        dl = delta
-
-        Z0, Z1 = _Z(8)
-        step1 = self._ord_6(q1, p1, q2, p2, dl * Z1)
-        step2 = self._ord_6(step1[0], step1[1], step1[2], step1[3], dl * Z0)
-        step3 = self._ord_6(step2[0], step2[1], step2[2], step2[3], dl * Z1)
-
-        return step3
-
-    def step(self):
-        """
-        Advances integration by one step
-
-        """
-        rl = self.res_list
-
-        arr = self.integrator(rl[0], rl[1], rl[2], rl[3], self.delta)
-
-        self.res_list = arr
-        self.step_num += 1
-
-        # Stability check
-        if not self.suppress_warnings:
-            g = self.metric
-            g_prms = self.metric_params
-
-            q1 = arr[0]
-            p1 = arr[1]
-            # Ignoring
-            # q_2 = arr[2]
-            # p_2 = arr[3]
-
-            const = -int(self.time_like)
-            # g.p.p ~ -1 or 0 (const)
-            if not np.allclose(
-                g(q1, *g_prms) @ p1 @ p1, const, rtol=self.rtol, atol=self.atol
-            ):
-                warnings.warn(
-                    f"Numerical error has exceeded specified tolerance at step = {self.step_num}.",
-                    RuntimeWarning,
-                )
-
-        self.results.append(self.res_list)
+import warnings
+
+import numpy as np
+
+from .utils import _Z, _flow_A, _flow_B, _flow_mixed
+
+
+class GeodesicIntegrator:
+    """
+    Geodesic Integrator, based on [1]_.
+    This module uses Forward Mode Automatic Differentiation
+    to calculate metric derivatives to machine precision
+    leading to stable simulations.
+
+    References
+    ----------
+    .. [1] Christian, Pierre and Chan, Chi-Kwan;
+        "FANTASY: User-Friendly Symplectic Geodesic Integrator
+        for Arbitrary Metrics with Automatic Differentiation";
+        `2021 ApJ 909 67 <https://doi.org/10.3847/1538-4357/abdc28>`__
+
+    """
+
+    # TODO: Update arXiv attributions to ApJ (See #572)
+    def __init__(
+        self,
+        metric,
+        metric_params,
+        q0,
+        p0,
+        time_like=True,
+        steps=100,
+        delta=0.5,
+        rtol=1e-2,
+        atol=1e-2,
+        order=2,
+        omega=1.0,
+        suppress_warnings=False,
+    ):
+        """
+        Constructor
+
+        Parameters
+        ----------
+        metric : callable
+            Metric Function. Currently, these metrics are supported:
+            1. Schwarzschild
+            2. Kerr
+            3. KerrNewman
+        metric_params : array_like
+            Tuple of parameters to pass to the metric
+            E.g., ``(a,)`` for Kerr
+        q0 : array_like
+            Initial 4-Position
+        p0 : array_like
+            Initial 4-Momentum
+        time_like : bool, optional
+            Determines type of Geodesic
+            ``True`` for Time-like geodesics
+            ``False`` for Null-like geodesics
+            Defaults to ``True``
+        steps : int
+            Number of integration steps
+            Defaults to ``50``
+        delta : float
+            Initial integration step-size
+            Defaults to ``0.5``
+        rtol : float
+            Relative Tolerance
+            Defaults to ``1e-2``
+        atol : float
+            Absolute Tolerance
+            Defaults to ``1e-2``
+        order : int
+            Integration Order
+            Defaults to ``2``
+        omega : float
+            Coupling between Hamiltonian Flows
+            Smaller values imply smaller integration error, but too
+            small values can make the equation of motion non-integrable.
+            For non-capture trajectories, ``omega = 1.0`` is recommended.
+            For trajectories, that either lead to a capture or a grazing
+            geodesic, a decreased value of ``0.01`` or less is recommended.
+            Defaults to ``1.0``
+        suppress_warnings : bool
+            Whether to suppress warnings during simulation
+            Warnings are shown for every step, where numerical errors
+            exceed specified tolerance (controlled by ``rtol`` and ``atol``)
+            Defaults to ``False``
+
+        Raises
+        ------
+        NotImplementedError
+            If ``order`` is not in [2, 4, 6, 8]
+
+        """
+        ORDERS = {
+            2: self._ord_2,
+            4: self._ord_4,
+            6: self._ord_6,
+            8: self._ord_8,
+        }
+        self.metric = metric
+        self.metric_params = metric_params
+        self.q0 = q0
+        self.p0 = p0
+        self.time_like = time_like
+        self.steps = steps
+        self.delta = delta
+        self.omega = omega
+        if order not in ORDERS:
+            raise NotImplementedError(
+                f"Order {order} integrator has not been implemented."
+            )
+        self.order = order
+        self.integrator = ORDERS[order]
+        self.rtol = rtol
+        self.atol = atol
+        self.suppress_warnings = suppress_warnings
+
+        self.step_num = 0
+        self.res_list = [q0, p0, q0, p0]
+        self.results = list()
+
+    def __str__(self):
+        return f"""{self.__class__.__name__}(\n\
+                metric : {self.metric}\n\
+                metric_params : {self.metric_params}\n\
+                q0 : {self.q0},\n\
+                p0 : {self.p0},\n\
+                time_like : {self.time_like},\n\
+                steps : {self.steps},\n\
+                delta : {self.delta},\n\
+                omega : {self.omega},\n\
+                order : {self.order},\n\
+                rtol : {self.rtol},\n\
+                atol : {self.atol}\n\
+                suppress_warnings : {self.suppress_warnings}
+            )"""
+
+    def __repr__(self):
+        return self.__str__()
+
+    def _ord_2(self, q1, p1, q2, p2, delta):
+        """
+        Order 2 Integration Scheme
+
+        References
+        ----------
+        .. [1] Christian, Pierre and Chan, Chi-Kwan;
+            "FANTASY : User-Friendly Symplectic Geodesic Integrator
+            for Arbitrary Metrics with Automatic Differentiation";
+            `2021 ApJ 909 67 <https://doi.org/10.3847/1538-4357/abdc28>`__
+
+        """
+        dl, omg = delta, self.omega
+        g = self.metric
+        g_prms = self.metric_params
+
+        HA1 = np.array(
+            [
+                q1,
+                _flow_A(g, g_prms, q1, p1, q2, p2, 0.5 * dl)[1],
+                _flow_A(g, g_prms, q1, p1, q2, p2, 0.5 * dl)[0],
+                p2,
+            ]
+        )
+        HB1 = np.array(
+            [
+                _flow_B(g, g_prms, HA1[0], HA1[1], HA1[2], HA1[3], 0.5 * dl)[0],
+                HA1[1],
+                HA1[2],
+                _flow_B(g, g_prms, HA1[0], HA1[1], HA1[2], HA1[3], 0.5 * dl)[1],
+            ]
+        )
+        HC = _flow_mixed(HB1[0], HB1[1], HB1[2], HB1[3], dl, omg)
+        HB2 = np.array(
+            [
+                _flow_B(g, g_prms, HC[0], HC[1], HC[2], HC[3], 0.5 * dl)[0],
+                HC[1],
+                HC[2],
+                _flow_B(g, g_prms, HC[0], HC[1], HC[2], HC[3], 0.5 * dl)[1],
+            ]
+        )
+        HA2 = np.array(
+            [
+                HB2[0],
+                _flow_A(g, g_prms, HB2[0], HB2[1], HB2[2], HB2[3], 0.5 * dl)[1],
+                _flow_A(g, g_prms, HB2[0], HB2[1], HB2[2], HB2[3], 0.5 * dl)[0],
+                HB2[3],
+            ]
+        )
+
+        return HA2
+
+    def _ord_4(self, q1, p1, q2, p2, delta):
+        """
+        Order 4 Integration Scheme
+
+        References
+        ----------
+        .. [1] Yoshida, Haruo,
+            "Construction of higher order symplectic integrators";
+             Physics Letters A, vol. 150, no. 5-7, pp. 262-268, 1990.
+            `DOI: <https://doi.org/10.1016/0375-9601(90)90092-3>`__
+
+        """
+        dl = delta
+
+        Z0, Z1 = _Z(4)
+        step1 = self._ord_2(q1, p1, q2, p2, dl * Z1)
+        step2 = self._ord_2(step1[0], step1[1], step1[2], step1[3], dl * Z0)
+        step3 = self._ord_2(step2[0], step2[1], step2[2], step2[3], dl * Z1)
+
+        return step3
+
+    def _ord_6(self, q1, p1, q2, p2, delta):
+        """
+        Order 6 Integration Scheme
+
+        References
+        ----------
+        .. [1] Yoshida, Haruo,
+            "Construction of higher order symplectic integrators";
+             Physics Letters A, vol. 150, no. 5-7, pp. 262-268, 1990.
+            `DOI: <https://doi.org/10.1016/0375-9601(90)90092-3>`__
+
+        """
+        dl = delta
+
+        Z0, Z1 = _Z(6)
+        step1 = self._ord_4(q1, p1, q2, p2, dl * Z1)
+        step2 = self._ord_4(step1[0], step1[1], step1[2], step1[3], dl * Z0)
+        step3 = self._ord_4(step2[0], step2[1], step2[2], step2[3], dl * Z1)
+
+        return step3
+
+    def _ord_8(self, q1, p1, q2, p2, delta):
+        """
+        Order 8 Integration Scheme
+
+        References
+        ----------
+        .. [1] Yoshida, Haruo,
+            "Construction of higher order symplectic integrators";
+             Physics Letters A, vol. 150, no. 5-7, pp. 262-268, 1990.
+            `DOI: <https://doi.org/10.1016/0375-9601(90)90092-3>`__
+
+        """
+        dl = delta
+
+        Z0, Z1 = _Z(8)
+        step1 = self._ord_6(q1, p1, q2, p2, dl * Z1)
+        step2 = self._ord_6(step1[0], step1[1], step1[2], step1[3], dl * Z0)
+        step3 = self._ord_6(step2[0], step2[1], step2[2], step2[3], dl * Z1)
+
+        return step3
+
+    def step(self):
+        """
+        Advances integration by one step
+
+        """
+        rl = self.res_list
+
+        arr = self.integrator(rl[0], rl[1], rl[2], rl[3], self.delta)
+
+        self.res_list = arr
+        self.step_num += 1
+
+        # Stability check
+        if not self.suppress_warnings:
+            g = self.metric
+            g_prms = self.metric_params
+
+            q1 = arr[0]
+            p1 = arr[1]
+            # Ignoring
+            # q_2 = arr[2]
+            # p_2 = arr[3]
+
+            const = -int(self.time_like)
+            # g.p.p ~ -1 or 0 (const)
+            if not np.allclose(
+                g(q1, *g_prms) @ p1 @ p1, const, rtol=self.rtol, atol=self.atol
+            ):
+                warnings.warn(
+                    f"Numerical error has exceeded specified tolerance at step = {self.step_num}.",
+                    RuntimeWarning,
+                )
+
+        self.results.append(self.res_list)
-- 
2.43.0


From ba00f9c673e5c6f332da6fc9b63552700054fb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:43 +0000
Subject: [PATCH 17/18] fix: ergosphere radius used a*cos(azimuth)**2 instead
 of (a*cos(theta))**2

---
 src/einsteinpy/plotting/geodesic/interactive.py | 4 ++--
 src/einsteinpy/plotting/geodesic/static.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/einsteinpy/plotting/geodesic/interactive.py b/src/einsteinpy/plotting/geodesic/interactive.py
index fef2ed7..3e70468 100644
--- a/src/einsteinpy/plotting/geodesic/interactive.py
+++ b/src/einsteinpy/plotting/geodesic/interactive.py
@@ -65,7 +65,7 @@ class InteractiveGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(THETA) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(PHI)) ** 2)
 
             XE = rE_outer * np.sin(PHI) * np.sin(THETA)
             YE = rE_outer * np.sin(PHI) * np.cos(THETA)
@@ -120,7 +120,7 @@ class InteractiveGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2)
 
             XE = rE_outer * np.sin(theta)
             YE = rE_outer * np.cos(theta)
diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index 2de182e..d79366c 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -92,7 +92,7 @@ class StaticGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(THETA) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(PHI)) ** 2)
 
             XE = rE_outer * np.sin(PHI) * np.sin(THETA)
             YE = rE_outer * np.sin(PHI) * np.cos(THETA)
@@ -144,7 +144,7 @@ class StaticGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2)
 
             XE = rE_outer * np.sin(theta)
             YE = rE_outer * np.cos(theta)
-- 
2.43.0


From 399306026a13355296dba14bac1c23dca01747ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 18/18] fix: Shadow's turning points used the mass truncated to
 an integer

---
 src/einsteinpy/rays/shadow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/rays/shadow.py b/src/einsteinpy/rays/shadow.py
index f09adab..dd2755a 100644
--- a/src/einsteinpy/rays/shadow.py
+++ b/src/einsteinpy/rays/shadow.py
@@ -48,7 +48,7 @@ class Shadow:
         Returns the root of the equation for ``r_tp`` (turning points) for some impact parameter
         """
         # emath.sqrt is domain-agnostic and this is a complex equation
-        return r_tp / np.emath.sqrt(1 - (2 * int(self.mass.value) / r_tp)) - i
+        return r_tp / np.emath.sqrt(1 - (2 * self.mass.value / r_tp)) - i
 
     def _intensity_blue_sch(self, r, b):
         """
-- 
2.43.0

