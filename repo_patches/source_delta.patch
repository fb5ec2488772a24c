From 00bf531a1d1c34ba981c223d85c6ae15ea18b595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 01/24] fix: measurement update returned an n-by-n mean for n>1
 (and a 2-d mean for n=1)

---
 MomentMatching/Estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MomentMatching/Estimator.py b/MomentMatching/Estimator.py
index 00fdb99..31435e6 100644
--- a/MomentMatching/Estimator.py
+++ b/MomentMatching/Estimator.py
@@ -74,7 +74,7 @@ class Estimator:
         z_cov = symmetrize(z_cov)
         np.linalg.cholesky(z_cov)
         kalman_gain = np.linalg.solve(z_cov, xz_cross_cov.T).T
-        mean = state.mean + kalman_gain @ (meas - z_mean).reshape(-1,1)  # equation 15  in Marc's ACC paper
+        mean = state.mean + kalman_gain @ (meas - z_mean)  # equation 15  in Marc's ACC paper
         cov = state.cov - kalman_gain @ xz_cross_cov.T
         cov = symmetrize(cov)
         corrected_state = Gaussian(mean, cov)
-- 
2.43.0


From 40658ff70ec29a3f05880481c686f113775c7c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 02/24] fix: Taylor transform lost a Jacobian axis for batched
 functions with one input or one output

---
 MomentMatching/TaylorLinearisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MomentMatching/TaylorLinearisation.py b/MomentMatching/TaylorLinearisation.py
index cb16794..b94a6e4 100644
--- a/MomentMatching/TaylorLinearisation.py
+++ b/MomentMatching/TaylorLinearisation.py
@@ -51,7 +51,7 @@ class TaylorTransform(MappingTransform):
         # J_t = self.numerical_jacobian(func, state.mean)
         J_t = jacobian(func)(state.mean)
         if np.ndim(J_t) > 2:
-          J_t = np.squeeze(J_t)
+          J_t = np.reshape(J_t, (-1, state.dim))
         mean = func(state.mean)
         mean = np.squeeze(mean)
         cov = J_t @ state.cov @ J_t.T
-- 
2.43.0


From ed4e10c4e6479760d85d13a6132eb6836cb046ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 03/24] fix: simulate added noise in place, corrupting states
 when transition/measurement return their argument or a view of it

---
 Systems/DynamicSystem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Systems/DynamicSystem.py b/Systems/DynamicSystem.py
index 32abf1d..3dd644f 100644
--- a/Systems/DynamicSystem.py
+++ b/Systems/DynamicSystem.py
@@ -110,9 +110,9 @@ class DynamicSystemModel(DynamicSystem):
 
         for _ in range(N):
             x = self.transition(x=x, t=t)
-            x += self.system_noise.sample()
+            x = x + self.system_noise.sample()
             y = self.measurement(x=x)
-            y += self._measurement_noise.sample()
+            y = y + self._measurement_noise.sample()
             yield x, y
             t = t + self.dt
 
-- 
2.43.0


From 91696015a0143f71ffc0ae1fd863f5a6d9106b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 04/24] fix: GaussianNoise dropped the mean it was given, so
 sampling raised AttributeError

---
 Systems/DynamicSystem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Systems/DynamicSystem.py b/Systems/DynamicSystem.py
index 3dd644f..064ab65 100644
--- a/Systems/DynamicSystem.py
+++ b/Systems/DynamicSystem.py
@@ -19,6 +19,8 @@ class GaussianNoise(NoiseModel):
         self.cov = cov
         if mean is None:
             self.mean = np.zeros((dimension,), dtype=float)
+        else:
+            self.mean = mean
 
         super().__init__(dimension=dimension,
                          params=params)
-- 
2.43.0


From b4e5f7475c59ec7701cef0de33a39b7955483a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 05/24] fix: GaussianNoise default covariance was 1x1 whatever
 the dimension

---
 Systems/DynamicSystem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Systems/DynamicSystem.py b/Systems/DynamicSystem.py
index 064ab65..28caa2e 100644
--- a/Systems/DynamicSystem.py
+++ b/Systems/DynamicSystem.py
@@ -12,7 +12,9 @@ class NoiseModel:
 
 
 class GaussianNoise(NoiseModel):
-    def __init__(self, dimension=1, cov=np.eye(1), mean=None):
+    def __init__(self, dimension=1, cov=None, mean=None):
+        if cov is None:
+            cov = np.eye(dimension)
         Gaussian = namedtuple('Gaussian', ['Q'])
         params = Gaussian(Q=cov)
         self.dimension = dimension
-- 
2.43.0


From 95c17e7334f658d0106f0b0d44d93d445d5cd423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 06/24] fix: build_nodes raised IndexError for a chain of one
 node

---
 ExpectationPropagation/Nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ExpectationPropagation/Nodes.py b/ExpectationPropagation/Nodes.py
index 7b7e3f9..e133acc 100644
--- a/ExpectationPropagation/Nodes.py
+++ b/ExpectationPropagation/Nodes.py
@@ -231,7 +231,7 @@ def build_nodes(
     for i, node in enumerate(nodes):
         if i == 0:
             node.prev_node = None
-            node.next_node = nodes[i + 1]
+            node.next_node = nodes[i + 1] if N > 1 else None
             continue
         if i == (N - 1):
             node.prev_node = nodes[i - 1]
-- 
2.43.0


From 96c9fd8c0cc36cc0b672d68a313b3e2f63a96f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 07/24] fix: IEKF relinearised about the wrong point (sign of
 the Gauss-Newton correction)

---
 Filters/KalmanFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index bbee379..db38658 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -136,7 +136,7 @@ class IEKF(KalmanFilterSmoother):
         for i in range(self.num_iter):
             h_i = self.measurement(state.mean, t, u)[0]
             H_i = jacobian(self.measurement, argnum=0)(state.mean, t, u)[0]
-            z_mean = h_i - H_i @ (x - state.mean)
+            z_mean = h_i + H_i @ (x - state.mean)
             z_cov = H_i @ P @ H_i.T + self.measurement_noise
             xz_cross_cov = P @ H_i.T
 
-- 
2.43.0


From aceac76d7da97abe6211eb69c743906233471b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 08/24] fix: IEKF used only the first measurement component
 when the function returns a 1-d array

---
 Filters/KalmanFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index db38658..93c381b 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -134,8 +134,8 @@ class IEKF(KalmanFilterSmoother):
         x = state.mean
         P = state.cov
         for i in range(self.num_iter):
-            h_i = self.measurement(state.mean, t, u)[0]
-            H_i = jacobian(self.measurement, argnum=0)(state.mean, t, u)[0]
+            h_i = np.ravel(self.measurement(state.mean, t, u))
+            H_i = np.reshape(jacobian(self.measurement, argnum=0)(state.mean, t, u), (-1, state.dim))
             z_mean = h_i + H_i @ (x - state.mean)
             z_cov = H_i @ P @ H_i.T + self.measurement_noise
             xz_cross_cov = P @ H_i.T
-- 
2.43.0


From 03f421268e5b914c04a93ca3f2ec44f56edfe5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 09/24] fix: a second call of the same IEKS started from the
 previous call's linearisation

---
 Filters/KalmanFilter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index 93c381b..195b16c 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -234,6 +234,7 @@ class IEKS(KalmanFilterSmoother):
     #     self.h_list = [self._linearise(self.h, self.Dh, self.init_state.mean) for _ in measurements]
 
         # First iteration
+        self.transition, self.measurement = self.f, self.h
         filter_results = self.kalman_filter(measurements)
         smoother_results = self.kalman_smoother(filter_results)
 
-- 
2.43.0


From e4f865a7d97b02b75b4bfe1a10ba58bdb1f049ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 10/24] fix: IEKS linearised each transition about the state it
 leads to instead of the one it starts from

---
 Filters/KalmanFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index 195b16c..d37040d 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -238,7 +238,7 @@ class IEKS(KalmanFilterSmoother):
         filter_results = self.kalman_filter(measurements)
         smoother_results = self.kalman_smoother(filter_results)
 
-        self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in smoother_results]
+        self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in [self.init_state] + smoother_results[:-1]]
         self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
 
         for k in range(num_iter-1):
@@ -248,7 +248,7 @@ class IEKS(KalmanFilterSmoother):
             smoother_results = self._kalman_smoother(filter_results)
 
             # Update linearisation points
-            self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in smoother_results]
+            self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in [self.init_state] + smoother_results[:-1]]
             self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
         
         return smoother_results
\ No newline at end of file
-- 
2.43.0


From 1611d97cc5d3b55b173fca851e6e046ea07fbb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 11/24] fix: kalman_smoother ignored the start time the filter
 was run with

---
 Filters/KalmanFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index d37040d..442191d 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -103,10 +103,10 @@ class KalmanFilterSmoother:
 
         return result_filter
 
-    def kalman_smoother(self, filtered_list, u=None, *args, **kwargs):
+    def kalman_smoother(self, filtered_list, u=None, t_zero=0.0, *args, **kwargs):
         reversed_filtered = reversed(filtered_list)
         N = len(filtered_list)
-        t = (N-1) * self.dt
+        t = t_zero + (N-1) * self.dt
 
         result = []
 
-- 
2.43.0


From 622f1fcfab1f71e068a36185fb01b16da4905f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 12/24] fix: Lorenz 96 right-hand side had its indices mirrored
 against the documented equation

---
 Systems/L96.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Systems/L96.py b/Systems/L96.py
index d074088..ca54e1d 100644
--- a/Systems/L96.py
+++ b/Systems/L96.py
@@ -7,7 +7,7 @@ import autograd.numpy as np
 
 def model(X, F):
     X = np.atleast_2d(X)
-    dXdt = -np.roll(X, -1, 1) * (np.roll(X, -2, 1) - np.roll(X, 1, 1)) - X + F
+    dXdt = (np.roll(X, -1, 1) - np.roll(X, 2, 1)) * np.roll(X, 1, 1) - X + F
     return dXdt
 
 
-- 
2.43.0


From 76c082e24941b71680174e73443bfc9b54ea69ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 13/24] fix: L96 could not generate its initial condition
 (ragged array)

---
 Systems/L96.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Systems/L96.py b/Systems/L96.py
index ca54e1d..7b9b8bc 100644
--- a/Systems/L96.py
+++ b/Systems/L96.py
@@ -34,7 +34,7 @@ def generate_L96_initial_condition(dim=40, F=8):
 
     x = [x0]
     for n in range(999):
-        x.append(f(x[-1]))
+        x.append(f(x[-1])[0])
     x = np.array(x)
 
     return x[-1]
-- 
2.43.0


From 69b9008d1ca51536d8c3d807204a97105e84cae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 14/24] fix: bearings-only sweep imported a module that does
 not exist

---
 Experiments/EP_Sweep_BearingsOnly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index b52dea0..70d4689 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -26,7 +26,7 @@ import sqlite3
 import itertools
 import click
 from collections import namedtuple
-from Experiments.FullSweep import Config, select_transform
+from Experiments.EP_FullSweep import Config, select_transform
 
 
 def create_experiment_table(db, table_name='BOTT_EXP'):
-- 
2.43.0


From 66e393978592da0c3dcdd8d99feb44867afe7fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 15/24] fix: a Gaussian with negative precision posed as a
 vague proper one, so EP could commit improper marginals

---
 StateModel/Gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StateModel/Gaussian.py b/StateModel/Gaussian.py
index 1143041..0a98d0e 100644
--- a/StateModel/Gaussian.py
+++ b/StateModel/Gaussian.py
@@ -33,7 +33,7 @@ warnings.filterwarnings(action='error', category=LinAlgWarning)
 def natural_to_moment(precision, shift):
     dim = precision.shape[0]
     
-    if np.trace(precision) < 1e-10:
+    if np.sum(np.abs(np.diag(precision))) < 1e-10:
         # almost zero precision
         dim = dim
         mean = np.zeros((dim,), dtype=float)
-- 
2.43.0


From 58d93d0112a7fe89c9c8697c30ab521fe23c183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 16/24] fix: turning-target dynamics were NaN for a target that
 does not turn

---
 Systems/BearingOnlyTrackingTurn.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/Systems/BearingOnlyTrackingTurn.py b/Systems/BearingOnlyTrackingTurn.py
index dce92ea..9e3b270 100644
--- a/Systems/BearingOnlyTrackingTurn.py
+++ b/Systems/BearingOnlyTrackingTurn.py
@@ -16,6 +16,15 @@ Default_Sensor_List = [Sensor(x=-20_000, y=20_000),
 
 # Default_Sensor_List = [Sensor(x=0, y=0)]
 
+def sinc(z):
+    """
+    sin(z) / z, continued to z = 0.
+    """
+    small = np.abs(z) < 1e-4
+    z_safe = np.where(small, 1.0, z)
+    return np.where(small, 1 - z**2 / 6, sin(z_safe) / z_safe)
+
+
 def f(x, t=None, u=None, delta_t=1):
     """
     Dynamical model for a turning target.
@@ -25,9 +34,11 @@ def f(x, t=None, u=None, delta_t=1):
     ones = np.ones(xs.shape[0])
     zros = np.zeros(xs.shape[0])
     w = xs[:,-1]
-    f_t = np.array([[ones,      sin(w*dt)/w,       zros,      -(1-cos(w*dt))/w,       zros],
+    s_w = dt * sinc(w*dt)                     # sin(w*dt)/w
+    c_w = dt * sin(w*dt/2) * sinc(w*dt/2)     # (1-cos(w*dt))/w
+    f_t = np.array([[ones,      s_w,               zros,      -c_w,                   zros],
                     [zros,      cos(w*dt),         zros,      -sin(w*dt),             zros],
-                    [zros,      (1-cos(w*dt))/w,   ones,       sin(w*dt)/w,           zros],
+                    [zros,      c_w,               ones,       s_w,                   zros],
                     [zros,      sin(w*dt),         zros,       cos(w*dt),             zros],
                     [zros,      zros,              zros,       zros,                  ones]
                     ])
-- 
2.43.0


From a2447ad9d373f6b3eb0baaba54ac0f383e144ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 17/24] fix: sweeps decided whether a configuration was
 complete by iteration 50, whatever --num-iter was

---
 Experiments/EP_FullSweep.py          | 4 ++--
 Experiments/EP_Sweep_BearingsOnly.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Experiments/EP_FullSweep.py b/Experiments/EP_FullSweep.py
index 827a050..15848e4 100644
--- a/Experiments/EP_FullSweep.py
+++ b/Experiments/EP_FullSweep.py
@@ -88,7 +88,7 @@ def power_sweep(config, x_true, y_meas, trans_id='UT', SEED=0, power=1, damping=
 
 query_str= "SELECT RMSE" \
            " from {}" \
-           " WHERE Transform='{}' AND Seed = {} AND Power ={} AND Damping = {} AND Iter = 50"
+           " WHERE Transform='{}' AND Seed = {} AND Power ={} AND Damping = {} AND Iter = {}"
 
 
 def full_sweep(config, seed_range, trans_types, power_range, damp_range, override=False):
@@ -103,7 +103,7 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
         x, y = zip(*data)
         for trans_id, power, damping in itertools.product(trans_types, power_range, damp_range):
             print(f"running {i}/{total}, SEED = {SEED}, trans = {trans_id}, power = {power}, damping = {damping}")
-            query = query_str.format(table, trans_id, SEED, power, damping)
+            query = query_str.format(table, trans_id, SEED, power, damping, config.num_iter)
             db.execute(query)
             exits = db.fetchall()
             try:
diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index 70d4689..94c71dd 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -154,7 +154,7 @@ def power_sweep(config, x_true, y_meas, trans_id='UT', SEED=0, power=1, damping=
 
 query_str= "SELECT RMSE" \
            " from {}" \
-           " WHERE Transform='{}' AND Seed = {} AND Power = {} AND Damping = {} AND Iter = 50"
+           " WHERE Transform='{}' AND Seed = {} AND Power = {} AND Damping = {} AND Iter = {}"
 
 
 def full_sweep(config, seed_range, trans_types, power_range, damp_range, override=False):
@@ -169,7 +169,7 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
         X, y = zip(*data)
         for trans_id, power, damping in itertools.product(trans_types, power_range, damp_range):
             print(f"running {i}/{total}, SEED = {SEED}, trans = {trans_id}, power = {power}, damping = {damping}")
-            query = query_str.format(table, trans_id, SEED, power, damping)
+            query = query_str.format(table, trans_id, SEED, power, damping, config.num_iter)
             db.execute(query)
             exits = db.fetchall()
             try:
-- 
2.43.0


From ea6d5ad7fcaab7594e0fd33cbb231b4934a8c798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 18/24] fix: --override recomputed results and then discarded
 them

---
 Experiments/EP_Sweep_BearingsOnly.py | 2 +-
 Utils/Database.py                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index 94c71dd..ee188ad 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -51,7 +51,7 @@ def create_experiment_table(db, table_name='BOTT_EXP'):
     db.execute(schema)
 
 
-experiment_data_string = "INSERT OR IGNORE INTO {}" \
+experiment_data_string = "INSERT OR REPLACE INTO {}" \
                          " (Transform, Quantity, Seed, Iter, Power, Damping, RMSE, NLL)" \
                          "VALUES (?, ?, ?, ?, ?, ?, ?, ?)"
 
diff --git a/Utils/Database.py b/Utils/Database.py
index 560b517..1467fd2 100644
--- a/Utils/Database.py
+++ b/Utils/Database.py
@@ -104,7 +104,7 @@ def create_experiment_table(db, table_name='UNGM_EXP'):
     db.execute(schema)
 
 
-experiment_data_string = "INSERT OR IGNORE INTO {}" \
+experiment_data_string = "INSERT OR REPLACE INTO {}" \
                          " (Transform, Seed, Iter, Power, Damping, RMSE, NLL, Mean, Variance)" \
                          "VALUES (?, ?, ?, ?, ?, ?, ?, ?, ? )"
 
-- 
2.43.0


From 738c95fb29ab4658cd60e2b1e69099d970680fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 19/24] fix: build_nodes with a system always raised TypeError
 (no way to pass the observations)

---
 ExpectationPropagation/Nodes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ExpectationPropagation/Nodes.py b/ExpectationPropagation/Nodes.py
index e133acc..313dfa5 100644
--- a/ExpectationPropagation/Nodes.py
+++ b/ExpectationPropagation/Nodes.py
@@ -216,7 +216,8 @@ def build_nodes(
     N: int,
     dim: int,
     estimator: Estimator = None,
-    system: DynamicSystemModel = None
+    system: DynamicSystemModel = None,
+    measurements: Union[np.ndarray, list] = None
     ) -> List[Node]:
     """
     This function builds the factor graph representation of a dynamical system (Figure 2).
@@ -224,6 +225,7 @@ def build_nodes(
     :dim: State dimension
     :estimator: Method of moment matching (e.g. Taylor transformation)
     :system: Dynamical system
+    :measurements: Observations y (required with system)
     :return: Factor graph representation of a dynamical system
     """
     nodes = [Node(dim, index=i) for i in range(N)]
@@ -245,6 +247,6 @@ def build_nodes(
         nodes = node_estimator(nodes=nodes, estimator=estimator)
 
     if system is not None:
-        nodes = node_system(nodes=nodes, system_model=system)
+        nodes = node_system(nodes=nodes, system_model=system, measurements=measurements)
 
     return nodes
-- 
2.43.0


From 6b008e5e965aebfb94d0ec6c733d3335a2d9d7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 20/24] fix: DynamicSystem.simulate overwrote states it had
 returned and arrays it was given

---
 Systems/DynamicSystem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Systems/DynamicSystem.py b/Systems/DynamicSystem.py
index 28caa2e..48609ce 100644
--- a/Systems/DynamicSystem.py
+++ b/Systems/DynamicSystem.py
@@ -55,9 +55,9 @@ class DynamicSystem(metaclass=ABCMeta):
             # y_true = self.measure(x=x_noisy)
             # y_noisy = y_true + self.measurement_noise.sample()
             x = self.transition(x=x, t=t)
-            x += self.system_noise.sample()
+            x = x + self.system_noise.sample()
             y = self.measure(x=x)
-            y += self.measurement_noise.sample()
+            y = y + self.measurement_noise.sample()
             yield x, y # x_true, x_noisy, y_true, y_noisy
             #x = x_noisy
             t = t + self.dt
-- 
2.43.0


From eec762ef49eea8be652e92ed8465a05bf03df019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 21/24] fix: L96 initial condition was spun up with forcing 8
 whatever F was

---
 Systems/L96.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Systems/L96.py b/Systems/L96.py
index 7b9b8bc..ea650ed 100644
--- a/Systems/L96.py
+++ b/Systems/L96.py
@@ -34,7 +34,7 @@ def generate_L96_initial_condition(dim=40, F=8):
 
     x = [x0]
     for n in range(999):
-        x.append(f(x[-1])[0])
+        x.append(f(x[-1], F=F)[0])
     x = np.array(x)
 
     return x[-1]
-- 
2.43.0


From 0676067fcc7255b3d877db5951082a0ab5b836bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 22/24] fix: sweeps recomputed a stored configuration when its
 power or damping did not survive the decimal query

---
 Experiments/EP_FullSweep.py          | 6 +++---
 Experiments/EP_Sweep_BearingsOnly.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/Experiments/EP_FullSweep.py b/Experiments/EP_FullSweep.py
index 15848e4..c852423 100644
--- a/Experiments/EP_FullSweep.py
+++ b/Experiments/EP_FullSweep.py
@@ -88,7 +88,7 @@ def power_sweep(config, x_true, y_meas, trans_id='UT', SEED=0, power=1, damping=
 
 query_str= "SELECT RMSE" \
            " from {}" \
-           " WHERE Transform='{}' AND Seed = {} AND Power ={} AND Damping = {} AND Iter = {}"
+           " WHERE Transform = ? AND Seed = ? AND Power = ? AND Damping = ? AND Iter = ?"
 
 
 def full_sweep(config, seed_range, trans_types, power_range, damp_range, override=False):
@@ -103,8 +103,8 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
         x, y = zip(*data)
         for trans_id, power, damping in itertools.product(trans_types, power_range, damp_range):
             print(f"running {i}/{total}, SEED = {SEED}, trans = {trans_id}, power = {power}, damping = {damping}")
-            query = query_str.format(table, trans_id, SEED, power, damping, config.num_iter)
-            db.execute(query)
+            query = query_str.format(table)
+            db.execute(query, (trans_id, int(SEED), float(power), float(damping), config.num_iter))
             exits = db.fetchall()
             try:
                 if override:
diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index ee188ad..4b0f9b6 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -154,7 +154,7 @@ def power_sweep(config, x_true, y_meas, trans_id='UT', SEED=0, power=1, damping=
 
 query_str= "SELECT RMSE" \
            " from {}" \
-           " WHERE Transform='{}' AND Seed = {} AND Power = {} AND Damping = {} AND Iter = {}"
+           " WHERE Transform = ? AND Seed = ? AND Power = ? AND Damping = ? AND Iter = ?"
 
 
 def full_sweep(config, seed_range, trans_types, power_range, damp_range, override=False):
@@ -169,8 +169,8 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
         X, y = zip(*data)
         for trans_id, power, damping in itertools.product(trans_types, power_range, damp_range):
             print(f"running {i}/{total}, SEED = {SEED}, trans = {trans_id}, power = {power}, damping = {damping}")
-            query = query_str.format(table, trans_id, SEED, power, damping, config.num_iter)
-            db.execute(query)
+            query = query_str.format(table)
+            db.execute(query, (trans_id, int(SEED), float(power), float(damping), config.num_iter))
             exits = db.fetchall()
             try:
                 if override:
-- 
2.43.0


From b8c32cbb8f8ae617cb974bff1e386773950819a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:00 +0000
Subject: [PATCH 23/24] fix: a precision with nothing on its diagonal posed as
 the flat Gaussian

---
 StateModel/Gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StateModel/Gaussian.py b/StateModel/Gaussian.py
index 0a98d0e..d102333 100644
--- a/StateModel/Gaussian.py
+++ b/StateModel/Gaussian.py
@@ -33,7 +33,7 @@ warnings.filterwarnings(action='error', category=LinAlgWarning)
 def natural_to_moment(precision, shift):
     dim = precision.shape[0]
     
-    if np.sum(np.abs(np.diag(precision))) < 1e-10:
+    if np.sum(np.abs(precision)) < 1e-10:
         # almost zero precision
         dim = dim
         mean = np.zeros((dim,), dtype=float)
-- 
2.43.0


From e63975a7fe83f088374f1868b2e8745c0b8581ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:45 +0000
Subject: [PATCH 24/24] fix: NaN and infinite moments passed validation, so
 updates committed NaN marginals or raised ValueError

---
 Utils/linalg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Utils/linalg.py b/Utils/linalg.py
index 6ac56e1..1d8e89a 100644
--- a/Utils/linalg.py
+++ b/Utils/linalg.py
@@ -47,6 +47,10 @@ def symmetrize(cov):
 
 def validate_covariance(state):
 
+    # cholesky lets NaN and infinity pass
+    if not (np.all(np.isfinite(state.mean)) and np.all(np.isfinite(state.cov))):
+        raise np.linalg.LinAlgError('Mean and covariance must be finite')
+
     np.linalg.cholesky(state.cov)
 
 
-- 
2.43.0

