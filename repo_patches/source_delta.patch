From eea238845d68de713938624b6d85b73bf43a7e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 01/43] fix: make_complex_matrix slices with integer indices

---
 src/models/gpu_matrix_operations.py | 2 +-
 src/models/matrix_operations.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/gpu_matrix_operations.py b/src/models/gpu_matrix_operations.py
index 9183c68..3280446 100644
--- a/src/models/gpu_matrix_operations.py
+++ b/src/models/gpu_matrix_operations.py
@@ -93,4 +93,4 @@ def make_complex_matrix(m):
     :param m: block 2x2 real matrix as numpy/scipy array
     :return: complex matrix as numpy/scipy array
     """
-    return m[:m.shape[0]/2, :m.shape[1]/2] + 1j * m[m.shape[0]/2:, :m.shape[1]/2]
+    return m[:m.shape[0]//2, :m.shape[1]//2] + 1j * m[m.shape[0]//2:, :m.shape[1]//2]
diff --git a/src/models/matrix_operations.py b/src/models/matrix_operations.py
index c9c93e9..63c9bb0 100644
--- a/src/models/matrix_operations.py
+++ b/src/models/matrix_operations.py
@@ -93,7 +93,7 @@ def make_complex_matrix(m):
     :param m: block 2x2 real matrix as numpy/scipy array
     :return: complex matrix as numpy/scipy array
     """
-    return m[:m.shape[0]/2, :m.shape[1]/2] + 1j * m[m.shape[0]/2:, :m.shape[1]/2]
+    return m[:m.shape[0]//2, :m.shape[1]//2] + 1j * m[m.shape[0]//2:, :m.shape[1]//2]
 
 
 def duplication_matrix(n):
-- 
2.43.0


From 99544459520e4d765212526de8d5a3eefff4d4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 02/43] fix: SmoothPrior.add_exact_adaptive_prior adds the
 adaptive rows

---
 src/models/smooth_prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/smooth_prior.py b/src/models/smooth_prior.py
index c9a3c2c..dcbfd62 100644
--- a/src/models/smooth_prior.py
+++ b/src/models/smooth_prior.py
@@ -68,7 +68,7 @@ class SmoothPrior(BayesianPrior):
         :param weights: uncertainty on the values: high if weight is low
         :param orders: order of the log of the distribution (|x|^order)
         """
-        BayesianPrior.add_exact_prior(self, indices, values, weights)
+        BayesianPrior.add_exact_adaptive_prior(self, indices, values, weights)
 
         orders = self._std_weights(orders, values)
         self.gamma = np.concatenate((self.gamma, orders))
-- 
2.43.0


From b768cbbfdfee5c6bd8c90cef3d5579536af84bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 03/43] fix: smooth priors accept a single parameter or a
 single row

---
 src/models/smooth_prior.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/models/smooth_prior.py b/src/models/smooth_prior.py
index dcbfd62..386f604 100644
--- a/src/models/smooth_prior.py
+++ b/src/models/smooth_prior.py
@@ -38,7 +38,7 @@ class SmoothPrior(BayesianPrior):
     GAUSS = 2
 
     def log_distribution(self, x):
-        w = (np.abs(self.L @ x.squeeze() - self.mu) ** (2 - self.gamma)) + self.alpha
+        w = (np.abs(self.L @ x.reshape(-1) - self.mu) ** (2 - self.gamma)) + self.alpha
 
         A = self.L.T @ np.diag(np.divide(1, w)) @ self.L
         b = self.L.T @ np.diag(np.divide(1, w)) @ self.mu
@@ -139,11 +139,11 @@ class SparseSmoothPrior(SmoothPrior):
         self.L = sparse.csr_matrix(self.L)
 
     def log_distribution(self, x):
-        w = (np.abs(self.L @ x.squeeze() - self.mu) ** (2 - self.gamma)) + self.alpha
+        w = (np.abs(self.L @ x.reshape(-1) - self.mu) ** (2 - self.gamma)) + self.alpha
         W = sparse.diags(np.divide(1, w), format='csr')
 
         A = self.L.T @ W @ self.L
-        b = self.L.T @ W @ self.mu.squeeze()
+        b = self.L.T @ W @ self.mu
 
         return A, b, np.sum(w)
 
-- 
2.43.0


From b194a1cce22f583f251228330fc83b519d9b8dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:59 +0000
Subject: [PATCH 04/43] fix: BayesianEIVRegression uses the weights of z for z

---
 src/models/error_in_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 345a477..5238fc4 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -207,7 +207,7 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
         if x_weight is not None:
             x_weight = sp.csr_matrix(x_weight, dtype=cp.float32)
         if z_weight is not None:
-            z_weight = sp.csr_matrix(x_weight, dtype=cp.float32)
+            z_weight = sp.csr_matrix(z_weight, dtype=cp.float32)
 
         y_mat = y_init
         M, mu, penalty = self.prior.log_distribution(y.get() if conf.GPU_AVAILABLE else y)
-- 
2.43.0


From 52fd834606f379a334e3e3687618708a3189e1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:59 +0000
Subject: [PATCH 05/43] fix: the correction of x uses vec(x y) = (y.T kron I)
 vec(x)

---
 src/models/error_in_variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 5238fc4..71b514c 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -216,8 +216,8 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
         for it in (tqdm(range(self._max_iterations)) if self._verbose else range(self._max_iterations)):
             if z_weight is not None and x_weight is not None:
                 # Create \bar Y from y
-                real_beta_kron = sp.kron(cp.real(y_mat), sp.eye(samples), format='csr')
-                imag_beta_kron = sp.kron(cp.imag(y_mat), sp.eye(samples), format='csr')
+                real_beta_kron = sp.kron(cp.real(y_mat).T, sp.eye(samples), format='csr')
+                imag_beta_kron = sp.kron(cp.imag(y_mat).T, sp.eye(samples), format='csr')
                 underline_y = sp.bmat([[real_beta_kron, -imag_beta_kron],
                                            [imag_beta_kron, real_beta_kron]], format='csr')
 
-- 
2.43.0


From 04465ac5142dfa26816f91c12a0428b9dbf98870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:59 +0000
Subject: [PATCH 06/43] fix: the unweighted cost sums the squared corrections
 of x

---
 src/models/error_in_variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 71b514c..9c9041e 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -254,7 +254,7 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
 
                 # Solve the Delta V sub-problem using projection
                 e_qp = (cp.hstack((x, z)) @ projor)[:, :n]
-                da = vectorize_matrix(e_qp)
+                da = make_real_vector(vectorize_matrix(x - e_qp))
                 AmdA = make_real_matrix(sp.kron(sp.eye(n), e_qp, format='csr') @ DT)
 
                 # Update y equation
-- 
2.43.0


From c7933eedec1e2fe1cef8b65e7c98bafb50ba7d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:59 +0000
Subject: [PATCH 07/43] fix: BayesianRegression default builders give dense
 matrices

---
 src/models/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/regression.py b/src/models/regression.py
index 9b576fa..da4cfc3 100644
--- a/src/models/regression.py
+++ b/src/models/regression.py
@@ -53,7 +53,7 @@ class BayesianRegression(GridIdentificationModel):
     """
 
     def __init__(self, prior, lambda_value=10e-2, abs_tol=10e-6, rel_tol=10e-6, max_iterations=50, verbose=True,
-                 dt_matrix_builder=lambda n: sparse.eye(n*n), e_matrix_builder=lambda n: sparse.eye(n*n)):
+                 dt_matrix_builder=lambda n: np.eye(n*n), e_matrix_builder=lambda n: np.eye(n*n)):
         """
         :param prior: Bayesian prior for the estimation
         :param lambda_value: initial or fixed sparsity parameter
-- 
2.43.0


From 157e7e9667afb59c0c4cc7c51261288dbc06afe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:38 +0000
Subject: [PATCH 08/43] fix: fitting a regression again starts a new iteration
 log

---
 src/models/error_in_variable.py | 3 +++
 src/models/regression.py        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 9c9041e..36e528c 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -180,6 +180,9 @@ class BayesianEIVRegression(GridIdentificationModel, MisfitWeightedModel):
         :param z_weight: inverse covariance matrix of z
         :param y_init: initial guess of y
         """
+        #Start a new log
+        self._iterations = []
+
         #Initialization of parameters
         if conf.GPU_AVAILABLE:
             sp = cusparse
diff --git a/src/models/regression.py b/src/models/regression.py
index da4cfc3..fe41d78 100644
--- a/src/models/regression.py
+++ b/src/models/regression.py
@@ -97,6 +97,9 @@ class BayesianRegression(GridIdentificationModel):
         :param z: output of the system as T-by-n matrix of row measurement vectors as numpy array
         :param y_init: initial guess of y
         """
+        #Start a new log
+        self._iterations = []
+
         #Initialization of parameters
         if conf.GPU_AVAILABLE:
             sp = cusparse
-- 
2.43.0


From 53310b79a81e12e1c33cc8bd3edbdd9a8caa5d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:46 +0000
Subject: [PATCH 09/43] fix: filter_and_resample_measurement works without
 times

---
 src/simulation/noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/noise.py b/src/simulation/noise.py
index 7c33c45..09241b9 100644
--- a/src/simulation/noise.py
+++ b/src/simulation/noise.py
@@ -121,8 +121,9 @@ def filter_and_resample_measurement(actual_measurement, oldtimes=None, newtimes=
     """
 
     pbar = tqdm if verbose else (lambda x: x)
+    oldtimes = np.arange(actual_measurement.shape[0]) if oldtimes is None else oldtimes
+    newtimes = oldtimes if newtimes is None else newtimes
     steps, n_series = int(len(newtimes)/fparam), actual_measurement.shape[1]
-    oldtimes, newtimes = np.arange(steps) if oldtimes is None else oldtimes, oldtimes if newtimes is None else newtimes
 
     # linear interpolation of missing timesteps, looped to reduce memory usage
     filtered = 1j*np.zeros((steps, n_series))
-- 
2.43.0


From 1844316cc0ac0a4795ca3c773a4095f9d785b209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:38 +0000
Subject: [PATCH 10/43] fix: regression imports the sparse solver it uses

---
 src/models/regression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/models/regression.py b/src/models/regression.py
index fe41d78..c00733b 100644
--- a/src/models/regression.py
+++ b/src/models/regression.py
@@ -3,6 +3,7 @@ from typing import Tuple
 import numpy as np
 from scipy import sparse
 from scipy.linalg import pinv
+from scipy.sparse.linalg import spsolve
 from tqdm import tqdm
 
 from conf import conf
-- 
2.43.0


From e63f8fc61d434a065806acc5b8b7e159ec433f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:00 +0000
Subject: [PATCH 11/43] fix: remove_line and remove_lines remove lines

---
 src/simulation/abstract_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/abstract_network.py b/src/simulation/abstract_network.py
index 5b1f7c9..4ee5e4a 100644
--- a/src/simulation/abstract_network.py
+++ b/src/simulation/abstract_network.py
@@ -53,10 +53,10 @@ class Net(pp.pandapowerNet, ABC):
         pp.drop_buses(self, bus)
 
     def remove_line(self, line):
-        pp.drop_lines(self, line)
+        pp.drop_lines(self, [line])
 
     def remove_lines(self, lines):
-        pp.drop_buses(self, lines)
+        pp.drop_lines(self, lines)
 
     def give_passive_nodes(self):
         """
-- 
2.43.0


From bf8eb7aec71bfa1e415c2d57a9d907e60533c0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:21 +0000
Subject: [PATCH 12/43] fix: NetData accepts buses without lines and lines
 without buses

---
 src/simulation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/network.py b/src/simulation/network.py
index 25eb560..1b239b6 100644
--- a/src/simulation/network.py
+++ b/src/simulation/network.py
@@ -18,7 +18,7 @@ class NetData(Net):
     def __init__(self, ns: list=None, ls: list=None, other=None):
         Net.__init__(self, other)
         ns = [] if ns is None else ns
-        ls = [] if ns is None else ls
+        ls = [] if ls is None else ls
 
         self.create_buses(ns)
         self.create_lines(ls)
-- 
2.43.0


From 3fde41b4b588e2d1ebcafb38435a0e3c2e01e85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 13/43] fix: NetData.create_line finds its buses by name

---
 src/simulation/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/network.py b/src/simulation/network.py
index 1b239b6..e31b1b4 100644
--- a/src/simulation/network.py
+++ b/src/simulation/network.py
@@ -58,8 +58,8 @@ class NetData(Net):
         """
         if f > t:
             f, t = t, f
-        pp.create_line_from_parameters(self, pp.get_element_index(self, "bus", f),
-                                       pp.get_element_index(self, "bus", t),
+        pp.create_line_from_parameters(self, pp.get_element_index(self, "bus", str(f)),
+                                       pp.get_element_index(self, "bus", str(t)),
                                        l, r / l, x / l, 0, 1e10, "(" + str(f) + "," + str(t) + ")")
         return self
 
-- 
2.43.0


From 67ab68c4f9b37ae323ccf395ae780282136a58fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 14/43] fix: create_lines_from_ybus takes voltages in the order
 of the buses

---
 src/simulation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/network.py b/src/simulation/network.py
index e31b1b4..242e4cd 100644
--- a/src/simulation/network.py
+++ b/src/simulation/network.py
@@ -92,7 +92,7 @@ class NetData(Net):
         for i in range(y_bus.shape[0]):
             for j in range(i):
                 if np.abs(y_bus[i, j]) > 0:
-                    y = -y_bus[i, j]/(self.bus.vn_kv[i]*self.bus.vn_kv[i])*self.sn_mva
+                    y = -y_bus[i, j]/(self.bus.vn_kv.values[i]*self.bus.vn_kv.values[i])*self.sn_mva
                     pp.create_line_from_parameters(self, pp.get_element_index(self, "bus", str(self.bus.index[i])),
                                                    pp.get_element_index(self, "bus", str(self.bus.index[j])),
                                                    1.0, np.real(1.0/y), np.imag(1.0/y), 0, 1e10,
-- 
2.43.0


From fd01560e416d5a4fcac2bd24e966b5554abdfc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:48 +0000
Subject: [PATCH 15/43] fix: give_passive_nodes looks up loads by their bus

---
 src/simulation/abstract_network.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/simulation/abstract_network.py b/src/simulation/abstract_network.py
index 4ee5e4a..e23ecb2 100644
--- a/src/simulation/abstract_network.py
+++ b/src/simulation/abstract_network.py
@@ -73,21 +73,14 @@ class Net(pp.pandapowerNet, ABC):
             else:
                 passive = (True, True, True)
 
-                if idx in self.load.bus:
-                    passive = passive if self.load.p_mw[self.load.bus[self.load.bus == idx].index.values[0]] == 0 \
-                                           and self.load.q_mvar[
-                                               self.load.bus[self.load.bus == idx].index.values[0]] == 0 else (
-                    False, False, False)
-
-                if idx in self.asymmetric_load.bus:
-                    idxload = self.asymmetric_load.bus[self.asymmetric_load.bus == idx].index.values[0]
-                    passive = passive[0] if \
-                        self.asymmetric_load.p_a_mw[idxload] == 0 and self.asymmetric_load.q_a_mvar[idxload] == 0 \
-                        else False, passive[1] if \
-                        self.asymmetric_load.p_b_mw[idxload] == 0 and self.asymmetric_load.q_b_mvar[idxload] == 0 \
-                        else False, passive[2] if \
-                        self.asymmetric_load.p_c_mw[idxload] == 0 and self.asymmetric_load.q_c_mvar[idxload] == 0 \
-                        else False
+                loads = self.load[self.load.bus == idx]
+                if (loads.p_mw != 0).any() or (loads.q_mvar != 0).any():
+                    passive = (False, False, False)
+
+                loads = self.asymmetric_load[self.asymmetric_load.bus == idx]
+                passive = (passive[0] and not ((loads.p_a_mw != 0).any() or (loads.q_a_mvar != 0).any()),
+                           passive[1] and not ((loads.p_b_mw != 0).any() or (loads.q_b_mvar != 0).any()),
+                           passive[2] and not ((loads.p_c_mw != 0).any() or (loads.q_c_mvar != 0).any()))
 
             for i in range(3):
                 if passive[i]:
-- 
2.43.0


From e6694a0ab91c58ea9b6520468bc178e5ee2fc63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 16/43] fix: three-phase Gaussian loads are ordered like the
 profiles

---
 src/simulation/load_profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/load_profile.py b/src/simulation/load_profile.py
index 6aebe4c..1f5e755 100644
--- a/src/simulation/load_profile.py
+++ b/src/simulation/load_profile.py
@@ -76,7 +76,7 @@ def generate_gaussian_load(
         load_qb = np.random.normal(load_q_rb, load_q_rb * load_sd, (n_samples, n_load))
         load_pc = np.random.normal(load_p_rc, load_p_rc * load_sd, (n_samples, n_load))
         load_qc = np.random.normal(load_q_rc, load_q_rc * load_sd, (n_samples, n_load))
-        return load_pa, load_qa, load_pb, load_qb, load_pc, load_qc
+        return load_pa, load_pb, load_pc, load_qa, load_qb, load_qc
 
 
 def load_profile_from_csv(
-- 
2.43.0


From 12fb227c3c309c0a8ee049373c5386de934c80cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 17/43] fix: run3ph imports generate_gaussian_load

---
 src/simulation/run3ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index e362fda..2e5d608 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -2,7 +2,7 @@ import numpy as np
 
 from conf import conf, simulation
 from src.simulation.simulation_3ph import SimulatedNet3P
-from src.simulation.load_profile import load_profile_from_numpy
+from src.simulation.load_profile import load_profile_from_numpy, generate_gaussian_load
 from src.simulation.noise import filter_and_resample_measurement, add_polar_noise_to_measurement
 from src.simulation import net_templates_3ph
 from src.simulation.net_templates_3ph import ieee123_types
-- 
2.43.0


From a9e26c33d8830aa4fd9dd3512a858347d0a34161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 18/43] fix: symmetric loads get Gaussian loads of their own

---
 src/simulation/run3ph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 2e5d608..1a4112b 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -99,6 +99,11 @@ def generate_loads(net, load_params=None, verbose=True):
         else:
             _, _, load_std, days, constant_load_nodes = load_params
             pprint("Generating random loads...")
+            load_p, load_q = generate_gaussian_load(load_std, len(times),
+                                                    load_p_reference=np.array([net.load.p_mw[net.load.p_mw.index[i]]
+                                                                               for i in range(len(net.load.p_mw))]),
+                                                    load_q_reference=np.array([net.load.q_mvar[net.load.q_mvar.index[i]]
+                                                                               for i in range(len(net.load.q_mvar))]))
             load_asym = generate_gaussian_load(load_std, len(times),
                                                load_p_reference=np.array(
                                                    [net.asymmetric_load.p_a_mw[net.asymmetric_load.p_a_mw.index[i]]
@@ -119,7 +124,6 @@ def generate_loads(net, load_params=None, verbose=True):
                                                    [net.asymmetric_load.q_c_mvar[net.asymmetric_load.q_c_mvar.index[i]]
                                                     for i in range(len(net.asymmetric_load.q_c_mvar))]))
 
-            load_p, load_q = np.zeros_like(load_asym[0]), np.zeros_like(load_asym[0])
             pprint("Done!")
 
         a = simulation.load_constantness
-- 
2.43.0


From 0d2ce6926b9fdaef2d50dccb2040a5eb32b96b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:42 +0000
Subject: [PATCH 19/43] fix: sensor ratings are apparent powers, not their
 squares

---
 src/simulation/run.py    | 2 +-
 src/simulation/run3ph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index e0f3961..f556371 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -172,7 +172,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
     else:
         pmu_safety_factor = 4
 
-    pmu_ratings = pmu_safety_factor * np.array([np.sum(i*i) for i in net.load[["p_mw","q_mvar"]].values])
+    pmu_ratings = pmu_safety_factor * np.array([np.sqrt(np.sum(i*i)) for i in net.load[["p_mw","q_mvar"]].values])
     # External grid connections provide power for all loads
     for i in range(len(net.load.bus)):
         if net.load.bus.iloc[i] in net.ext_grid.bus.values:
diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 1a4112b..05e5b95 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -247,7 +247,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
                 total_loads[2, i] = net.asymmetric_load.loc[[l]].p_c_mw*net.asymmetric_load.loc[[l]].p_c_mw +\
                                     net.asymmetric_load.loc[[l]].q_c_mvar*net.asymmetric_load.loc[[l]].q_c_mvar
 
-    pmu_ratings = np.tile(pmu_safety_factor, (1, len(net.bus.index))) * total_loads
+    pmu_ratings = np.tile(pmu_safety_factor, (1, len(net.bus.index))) * np.sqrt(total_loads)
 
     # External grid connections provide power for all loads
     for i in range(len(net.load.bus)):
-- 
2.43.0


From da35df148fd7a82eeee64eaf7809785ef7494350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 20/43] fix: rating of external grid connections is the sum
 over all loads

---
 src/simulation/run.py    | 3 ++-
 src/simulation/run3ph.py | 9 ++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index f556371..e1f3183 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -174,9 +174,10 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
 
     pmu_ratings = pmu_safety_factor * np.array([np.sqrt(np.sum(i*i)) for i in net.load[["p_mw","q_mvar"]].values])
     # External grid connections provide power for all loads
+    total_rating = np.sum(pmu_ratings)
     for i in range(len(net.load.bus)):
         if net.load.bus.iloc[i] in net.ext_grid.bus.values:
-            pmu_ratings[i] = np.sum(pmu_ratings)
+            pmu_ratings[i] = total_rating
 
     ts = np.linspace(0, np.max(times), round(np.max(times) * fmeas))
     fparam = int(np.floor(ts.size / steps))
diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 05e5b95..0a085f6 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -250,11 +250,10 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
     pmu_ratings = np.tile(pmu_safety_factor, (1, len(net.bus.index))) * np.sqrt(total_loads)
 
     # External grid connections provide power for all loads
-    for i in range(len(net.load.bus)):
-        if net.load.bus.iloc[i] in net.ext_grid.bus.values:
-            pmu_ratings[0, i] = np.sum(pmu_ratings[0, :])
-            pmu_ratings[1, i] = np.sum(pmu_ratings[1, :])
-            pmu_ratings[2, i] = np.sum(pmu_ratings[2, :])
+    total_ratings = np.sum(pmu_ratings, axis=1)
+    for i in range(len(net.bus.index)):
+        if net.bus.index[i] in net.ext_grid.bus.values:
+            pmu_ratings[:, i] = total_ratings
 
     pmu_ratings = pmu_ratings.reshape((3 * len(net.bus.index),))
 
-- 
2.43.0


From d558c37488ccb6d35d6872ff75ae4778d5f79907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:35 +0000
Subject: [PATCH 21/43] fix: three-phase ratings are ordered like the
 measurements

---
 src/simulation/run3ph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 0a085f6..e5059bb 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -255,7 +255,8 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
         if net.bus.index[i] in net.ext_grid.bus.values:
             pmu_ratings[:, i] = total_ratings
 
-    pmu_ratings = pmu_ratings.reshape((3 * len(net.bus.index),))
+    # Same order as the measurements: the three phases of each bus side by side
+    pmu_ratings = pmu_ratings.T.reshape((3 * len(net.bus.index),))
 
     ts = np.linspace(0, np.max(times), round(np.max(times) * fmeas))
     fparam = int(np.floor(ts.size / steps))
-- 
2.43.0


From ac38d162ebb5f964312075054ca77e236abaa1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:02 +0000
Subject: [PATCH 22/43] fix: three-phase equivalent noise returns the block
 length

---
 src/simulation/run3ph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index e5059bb..f09006a 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -260,6 +260,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
 
     ts = np.linspace(0, np.max(times), round(np.max(times) * fmeas))
     fparam = int(np.floor(ts.size / steps))
+    fparam_ret = fparam
 
     if noise_params is not None:
         # Noise Generation
@@ -320,7 +321,7 @@ def add_noise_and_filter(net, voltage, current, times, fmeas, steps, noise_param
         noisy_voltage, noisy_current, voltage, current = sim_IV["v"], sim_IV["i"], sim_IV["w"], sim_IV["j"]
         pprint("Done!")
 
-    return noisy_voltage, noisy_current, voltage, current, pmu_ratings, fparam
+    return noisy_voltage, noisy_current, voltage, current, pmu_ratings, fparam_ret
 
 
 def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_single=True, verbose=True):
-- 
2.43.0


From f28147e30021ecd0af280568de6c6b4485be44bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 23/43] fix: indices of reduced nodes when sources are cut out

---
 src/simulation/run.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index e1f3183..9d2fcdd 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -273,23 +273,24 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, verbose
     passive_idx = [net.bus.index.tolist().index(idx) for idx in net.give_passive_nodes()[0]]
     hidden_idx = [net.bus.index.tolist().index(idx) for idx in hidden_nodes]
     pcc_idx = [net.bus.index.tolist().index(idx) for idx in net.ext_grid.bus.values]
-    idx_todel = list(set(hidden_idx).union(passive_idx))
     hidden_idx = [idx for idx in hidden_idx if idx not in pcc_idx]
+    idx_todel = list(set(hidden_idx).union(passive_idx).union([] if laplacian else pcc_idx))
+
+    # Constant loads on hidden nodes
+    shunts = np.divide(np.mean(current[:, hidden_idx], axis=0), np.mean(voltage[:, hidden_idx], axis=0))
 
     # subKron reducing the ext_grid
     if not laplacian:
         y_bus = np.delete(np.delete(y_bus, pcc_idx, axis=1), pcc_idx, axis=0)
 
         # Shift larger indices because y_bus gets smaller
-        for i in pcc_idx:
-            hidden_idx = [(idx - 1 if idx > i else idx) for idx in hidden_idx]
-            passive_idx = [(idx - 1 if idx > i else idx) for idx in passive_idx]
+        hidden_idx = [idx - sum(i < idx for i in pcc_idx) for idx in hidden_idx]
+        passive_idx = [idx - sum(i < idx for i in pcc_idx) for idx in passive_idx]
 
     # Kron reduction of passive and hidden nodes
-    shunts = np.zeros(y_bus.shape[0], dtype=y_bus.dtype)
-    shunts[hidden_idx] = np.divide(np.mean(current[:, hidden_idx], axis=0), np.mean(voltage[:, hidden_idx], axis=0))
-    y_bus = net.kron_reduction(list(set(hidden_idx).union(passive_idx).difference(pcc_idx)),
-                               y_bus + np.diag(shunts))
+    shunt_diag = np.zeros(y_bus.shape[0], dtype=y_bus.dtype)
+    shunt_diag[hidden_idx] = shunts
+    y_bus = net.kron_reduction(list(set(hidden_idx).union(passive_idx)), y_bus + np.diag(shunt_diag))
     pprint("Done!")
     pprint("reduced nodes: " + str(np.array(idx_todel) + 1))
 
-- 
2.43.0


From e5112c6f98a017f7ccc31a812ac08672aabaf544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 24/43] fix: three-phase network reduction

---
 src/simulation/run3ph.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index f09006a..ef23d61 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -352,11 +352,9 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_
 
     pprint("Kron reducing loads with no current...")
     idx_todel = []
-    # subKron reducing the ext_grid
     for idx in net.ext_grid.bus.values:
         i = 3 * net.bus.index.tolist().index(idx)
         idx_todel.extend([i, i + 1, i + 2])
-        y_bus = np.delete(np.delete(y_bus, [i, i + 1, i + 2], axis=1), [i, i + 1, i + 2], axis=0)
 
     passive_nodes = net.give_passive_nodes()
     if not reduce_single:
@@ -371,15 +369,17 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_
             idx_tored.append(3 * net.bus.index.tolist().index(idx) + ph)
         for idx in hidden_nodes:
             i = 3 * net.bus.index.tolist().index(idx) + ph
-            idx_tored.append(i)
-            shunts[i] = np.divide(np.mean(current[:, i], axis=0), np.mean(voltage[:, i], axis=0))
-
-    idx_tored = np.array(idx_tored)
-    y_bus = admittance_phase_to_sequence(y_bus + np.diag(shunts))
-    y_bus = np.kron(net.kron_reduction(idx_tored[idx_tored % 3 == 0]/3, y_bus[::3,::3]), np.diag([1, 0, 0])) \
-            + np.kron(net.kron_reduction((idx_tored[idx_tored % 3 == 1] - 1)/3, y_bus[1::3,1::3]), np.diag([0, 1, 0])) \
-            + np.kron(net.kron_reduction((idx_tored[idx_tored % 3 == 2] - 2)/3, y_bus[2::3,2::3]), np.diag([0, 0, 1]))
-    y_bus = admittance_sequence_to_phase(y_bus)
+            if i not in idx_todel:
+                idx_tored.append(i)
+                # Constant loads on hidden nodes
+                shunts[i] = np.divide(np.mean(current[:, i], axis=0), np.mean(voltage[:, i], axis=0))
+
+    # subKron reducing the ext_grid, larger indices shift because y_bus gets smaller
+    y_bus = np.delete(np.delete(y_bus + np.diag(shunts), idx_todel, axis=1), idx_todel, axis=0)
+
+    # Kron reduction of passive and hidden nodes or single phases of them
+    idx_tored = np.unique(idx_tored).astype(np.int64)
+    y_bus = net.kron_reduction([idx - sum(i < idx for i in idx_todel) for idx in idx_tored], y_bus)
     idx_todel.extend(idx_tored.tolist())
 
     pprint("Done!")
-- 
2.43.0


From c304a5ad5c8e3fc9bba4e361f34cdc2ba036c6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 25/43] fix: sign of the shunts of hidden loads

---
 src/simulation/run.py    | 4 ++--
 src/simulation/run3ph.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index 9d2fcdd..6c15456 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -276,8 +276,8 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, verbose
     hidden_idx = [idx for idx in hidden_idx if idx not in pcc_idx]
     idx_todel = list(set(hidden_idx).union(passive_idx).union([] if laplacian else pcc_idx))
 
-    # Constant loads on hidden nodes
-    shunts = np.divide(np.mean(current[:, hidden_idx], axis=0), np.mean(voltage[:, hidden_idx], axis=0))
+    # Constant loads on hidden nodes, the currents are injected into the network
+    shunts = -np.divide(np.mean(current[:, hidden_idx], axis=0), np.mean(voltage[:, hidden_idx], axis=0))
 
     # subKron reducing the ext_grid
     if not laplacian:
diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index ef23d61..1f53a60 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -371,8 +371,8 @@ def reduce_network(net, voltage, current, hidden_nodes, laplacian=False, reduce_
             i = 3 * net.bus.index.tolist().index(idx) + ph
             if i not in idx_todel:
                 idx_tored.append(i)
-                # Constant loads on hidden nodes
-                shunts[i] = np.divide(np.mean(current[:, i], axis=0), np.mean(voltage[:, i], axis=0))
+                # Constant loads on hidden nodes, the currents are injected into the network
+                shunts[i] = -np.divide(np.mean(current[:, i], axis=0), np.mean(voltage[:, i], axis=0))
 
     # subKron reducing the ext_grid, larger indices shift because y_bus gets smaller
     y_bus = np.delete(np.delete(y_bus + np.diag(shunts), idx_todel, axis=1), idx_todel, axis=0)
-- 
2.43.0


From 1ca0600afcdab5596a5be301fb8cf157dac58eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 26/43] fix: adaptive Lasso weights are the inverse of the
 estimates

---
 src/identification/run.py    | 2 +-
 src/identification/run3ph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index 955a7cb..28c0710 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -28,7 +28,7 @@ def build_lasso_prior(nodes, y_ols, laplacian):
         E = elimination_sym_matrix(nodes)
 
     y_sym_ols = unvectorize_matrix(DT @ E @ vectorize_matrix(y_ols), (nodes, nodes))
-    adaptive_lasso = np.divide(1.0, np.power(np.abs(make_real_vector(E @ vectorize_matrix(y_sym_ols))), 1.0))
+    adaptive_lasso = np.abs(make_real_vector(E @ vectorize_matrix(y_sym_ols)))
 
     prior = SparseSmoothPrior(smoothness_param=0.00001, n=len(E @ vectorize_matrix(y_ols))*2)
     prior.add_adaptive_sparsity_prior(np.arange(prior.n), adaptive_lasso, SmoothPrior.LAPLACE)
diff --git a/src/identification/run3ph.py b/src/identification/run3ph.py
index cb0e983..2009571 100644
--- a/src/identification/run3ph.py
+++ b/src/identification/run3ph.py
@@ -25,7 +25,7 @@ def build_lasso_prior(nodes, y_ols, E, DT):
     :param DT: duplication matrix
     """
     y_sym_ols = unvectorize_matrix(DT @ E @ vectorize_matrix(y_ols), (nodes, nodes))
-    adaptive_lasso = np.divide(1.0, np.power(np.abs(make_real_vector(E @ vectorize_matrix(y_sym_ols))), 1.0))
+    adaptive_lasso = np.abs(make_real_vector(E @ vectorize_matrix(y_sym_ols)))
 
     prior = SparseSmoothPrior(smoothness_param=0.00001, n=len(E @ vectorize_matrix(y_ols))*2)
     prior.add_adaptive_sparsity_prior(np.arange(prior.n), adaptive_lasso, SmoothPrior.LAPLACE)
-- 
2.43.0


From d1c0eff0dd5ce219f28e84791e5ad3931174d5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 27/43] fix: contrast prior on all parameters is centered on
 their sum

---
 src/identification/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index 28c0710..851f881 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -136,7 +136,7 @@ def build_complex_prior(nodes, lambdaprime, y_tls, laplacian=False,
 
     else:
         prior.add_contrast_prior(indices=np.vstack(tuple(np.split(idx_offdiag, 2))),
-                                 values=-np.sum(np.vstack(tuple(np.split(values_contrast, 2))), axis=1).squeeze(),
+                                 values=np.sum(np.vstack(tuple(np.split(values_contrast, 2))), axis=1).squeeze()/2,
                                  weights=lambdaprime*np.array([1, -1]),
                                  orders=SmoothPrior.LAPLACE)
 
-- 
2.43.0


From 1ef60e81860804bf6c61afae4a77638ee8e00742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:24 +0000
Subject: [PATCH 28/43] fix: no diagonal regularisation of Laplacian matrices

---
 src/identification/run.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index 851f881..1cf3381 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -126,7 +126,8 @@ def build_complex_prior(nodes, lambdaprime, y_tls, laplacian=False,
                                  weights=lambdaprime * np.concatenate((-np.ones(nodes), np.ones(nodes))),
                                  orders=SmoothPrior.LAPLACE)
 
-        if regularize_diag:
+        # Laplacian matrices have no diagonal parameters
+        if regularize_diag and not laplacian:
             idx_diag = np.where(np.abs(make_real_vector((1+1j)*E @ vectorize_matrix(np.eye(nodes)))) > 0)[0]
 
             prior.add_exact_adaptive_prior(indices=idx_diag,
-- 
2.43.0


From a23c0c706dfbe3c0ac9377bd43ff982b4a5663e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:23 +0000
Subject: [PATCH 29/43] fix: three-phase results can be read back

---
 src/identification/run3ph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/identification/run3ph.py b/src/identification/run3ph.py
index 2009571..f6927dd 100644
--- a/src/identification/run3ph.py
+++ b/src/identification/run3ph.py
@@ -245,6 +245,12 @@ def bayesian_eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_s
 
     y_fin = np.zeros_like(y_init)
 
+    if max_iterations <= 0 or voltage is None or current is None:
+        pprint("Loading STLS result...")
+        sim_STLS = np.load(DATA_DIR / ("simulations_output/bayesian_results_" + name + ".npz"), allow_pickle=True)
+        pprint("Done!")
+        return sim_STLS["y"], sim_STLS["i"]
+
     if np.any(phases_ids == 0):
         iterations = [None, None, None]
         for i in range(3):
-- 
2.43.0


From 71be36167a53d4617ad2efb605f26e34bafcb4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 30/43] fix: unweighted identification removes the phase
 synchronization when asked

---
 src/identification/run.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index 1cf3381..ffe9e77 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -404,6 +404,10 @@ def bayesian_eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_s
         centered_voltage = voltage.copy()
         centered_current = current.copy()
 
+        if not use_pmu_data:
+            centered_voltage = np.abs(voltage.copy())
+            centered_current = ((current * voltage.conj()) / np.abs(voltage)).copy()
+
         if weighted and use_pmu_data:
             pprint("Calculating covariance matrices...")
             inv_sigma_voltage = average_true_noise_covariance(voltage, np.real(voltage_sd_polar),
@@ -412,9 +416,6 @@ def bayesian_eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_s
                                                               np.imag(current_sd_polar), True)
             pprint("Done!")
         elif weighted and not use_pmu_data:
-            centered_voltage = np.abs(voltage.copy())
-            centered_current = ((current * voltage.conj()) / np.abs(voltage)).copy()
-
             pprint("Calculating covariance matrices...")
             inv_sigma_voltage = naive_noise_covariance(centered_voltage, np.real(voltage_sd_polar),
                                                           np.imag(voltage_sd_polar) * 100, False)
-- 
2.43.0


From 28a40756bcd1721a6279cebacff1c6d484dfb267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:17 +0000
Subject: [PATCH 31/43] fix: weights of unsynchronised currents are those of
 the rotated currents

---
 src/identification/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index ffe9e77..d0d5d9b 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -419,7 +419,7 @@ def bayesian_eiv(name, voltage, current, phases_ids, voltage_sd_polar, current_s
             pprint("Calculating covariance matrices...")
             inv_sigma_voltage = naive_noise_covariance(centered_voltage, np.real(voltage_sd_polar),
                                                           np.imag(voltage_sd_polar) * 100, False)
-            inv_sigma_current = naive_noise_covariance(current, np.real(current_sd_polar) * pmu_ratings,
+            inv_sigma_current = naive_noise_covariance(centered_current, np.real(current_sd_polar) * pmu_ratings,
                                                        np.imag(current_sd_polar), True)
             # invert only diagonal elements (off diagonal is zero)
             inv_sigma_voltage.data = 1.0 / inv_sigma_voltage.data
-- 
2.43.0


From 428442c2d3c637394c746901b44f72f42c4307d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:24 +0000
Subject: [PATCH 32/43] fix: single-channel covariances with a numpy scalar
 deviation

---
 src/models/noise_transformation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/models/noise_transformation.py b/src/models/noise_transformation.py
index e50c5bb..5e707d1 100644
--- a/src/models/noise_transformation.py
+++ b/src/models/noise_transformation.py
@@ -29,7 +29,7 @@ def exact_noise_covariance(
     :return: covariance matrix (or inverse) as a sparse csc_matrix
     """
     # If we have a vector standard derivation
-    if type(sd_magnitude) is not float and sd_magnitude.size == measurement.shape[1]:
+    if np.ndim(sd_magnitude) > 0 and sd_magnitude.size == measurement.shape[1]:
         real_var = np.zeros(measurement.shape)
         imag_var = np.zeros(measurement.shape)
         cov = np.zeros(measurement.shape)
@@ -104,7 +104,7 @@ def naive_noise_covariance(
     :return: covariance matrix (or inverse) as a sparse csc_matrix
     """
     # If we have a vector standard derivation
-    if type(sd_magnitude) is not float and sd_magnitude.size == measurement.shape[1]:
+    if np.ndim(sd_magnitude) > 0 and sd_magnitude.size == measurement.shape[1]:
         real_variance = np.zeros(measurement.shape)
         imag_variance = np.zeros(measurement.shape)
         real_imag_covariance = np.zeros(measurement.shape)
@@ -248,7 +248,7 @@ def average_true_noise_covariance(
     :return: covariance matrix (or inverse) as a sparse csc_matrix
     """
     # If we have a vector standard derivation
-    if type(sd_magnitude) is not float and sd_magnitude.size == measurement.shape[1]:
+    if np.ndim(sd_magnitude) > 0 and sd_magnitude.size == measurement.shape[1]:
         real_variance = np.zeros(measurement.shape)
         imag_variance = np.zeros(measurement.shape)
         real_imag_covariance = np.zeros(measurement.shape)
-- 
2.43.0


From 8534edf87140a2499564525827ea78664a94290e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 33/43] fix: uncertainty analysis of the identification command
 runs

---
 identify_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/identify_network.py b/identify_network.py
index 9055694..d18ddef 100644
--- a/identify_network.py
+++ b/identify_network.py
@@ -107,7 +107,7 @@ def identify(network, max_iterations, standard, bayesian_eiv, continue_id, phase
         pprint("Done!")
 
     # Error covariance analysis
-    if uncertainty and not three_phases and not unsynchronized:
+    if uncertainty and not three_phased and not unsynchronized:
         fim_wtls, cov_wtls, expected_max_rrms = run_fcns.eiv_fim(name, voltage, current,
                                                                  voltage_magnitude_sd + 1j * voltage_phase_sd,
                                                                  current_magnitude_sd + 1j * current_phase_sd,
-- 
2.43.0


From 8463003d5c6b187cd13ac7fd2c1ef997b840587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 34/43] fix: a continued identification appends its iterations

---
 identify_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/identify_network.py b/identify_network.py
index d18ddef..ee833cd 100644
--- a/identify_network.py
+++ b/identify_network.py
@@ -99,7 +99,7 @@ def identify(network, max_iterations, standard, bayesian_eiv, continue_id, phase
                                                                         not unsynchronized, verbose)
 
     if continue_id:
-        sparse_tls_cov_iterations = sparse_tls_cov_old_iterations.extend(sparse_tls_cov_iterations)
+        sparse_tls_cov_iterations = list(sparse_tls_cov_old_iterations) + list(sparse_tls_cov_iterations)
 
         pprint("Saving updated result...")
         sim_STLS = {'y': y_sparse_tls_cov, 'i': sparse_tls_cov_iterations}
-- 
2.43.0


From cf0087862a047427469247e4ddbca0b0322faa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:37 +0000
Subject: [PATCH 35/43] fix: identifying a phase without data is refused

---
 identify_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/identify_network.py b/identify_network.py
index ee833cd..165998c 100644
--- a/identify_network.py
+++ b/identify_network.py
@@ -49,7 +49,7 @@ def identify(network, max_iterations, standard, bayesian_eiv, continue_id, phase
     current, voltage, y_bus = sim_STLS['j'], sim_STLS['w'], sim_STLS['y']
     pmu_ratings, fparam, phases_ids = sim_STLS['p'], sim_STLS['f'], sim_STLS['h']
 
-    if not three_phased and np.any(phases_ids != 1):
+    if not three_phased and np.any(phases_ids != int(phases)):
         if not np.any(phases_ids == int(phases)):
             raise IndexError("Error: Trying to identify phase or sequence " + phases +
                              " but no data is available for it")
-- 
2.43.0


From 64f569f6e14dc928d3f86456adfbc17a0a0bbb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 36/43] fix: simulating does not change the configured hidden
 nodes

---
 simulate_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulate_network.py b/simulate_network.py
index 75e4cbe..c371379 100644
--- a/simulate_network.py
+++ b/simulate_network.py
@@ -41,8 +41,8 @@ def simulate(network, active_profiles, reactive_profiles, gaussian_loads, loads,
     net, bus_data, _ = run3ph.make_net(network) if three_phased else run.make_net(network)
 
     # How to deal with hidden nodes
-    hidden_nodes = conf.simulation.hidden_nodes
-    constant_load_nodes = hidden_nodes if conf.simulation.constant_load_hidden_nodes else None
+    hidden_nodes = list(conf.simulation.hidden_nodes)
+    constant_load_nodes = list(hidden_nodes) if conf.simulation.constant_load_hidden_nodes else None
     if not laplacian and not three_phased:
         for b in bus_data:
             if b.type == NetType.TYPE_PCC:
-- 
2.43.0


From dd04b557f0942c04673694cbdacdb81a5add16bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:31 +0000
Subject: [PATCH 37/43] fix: information matrix of the least squares problem

---
 src/models/error_in_variable.py | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/models/error_in_variable.py b/src/models/error_in_variable.py
index 36e528c..442b7fe 100644
--- a/src/models/error_in_variable.py
+++ b/src/models/error_in_variable.py
@@ -97,16 +97,9 @@ class TotalLeastSquares(GridIdentificationModel, UnweightedModel):
         if z_cov is not None:
             z_cov = sp.csr_matrix(z_cov, dtype=cp.float64)
 
-        # Create matrices to fill
-        den = cp.empty((2 * n, 2 * n, samples))
-
-        #idxs = cp.tile(cp.arange(samples)[:, None], (1, 2*n)) + cp.tile(cp.arange(2*n)[None, :] * samples, (samples, 1))
-        idxs = cp.array([((ii * samples) + k) for k in range(samples) for ii in range(2*n)])
-        perm = sp.coo_matrix((cp.ones_like(idxs, dtype=cp.float64), (cp.arange(2*n*samples), idxs))).tocsr()
-
-        bigy = sp.kron(sp.eye(samples, dtype=cp.float64), y[:, None], format='csr')
-        Ws = bigy.T @ sp.kron(perm @ x_cov @ perm.T, sp.eye(n, dtype=cp.float64)) @ bigy
-        Ws = (perm.T @ sp.kron(sp.eye(2*n, dtype=cp.float64), Ws) @ perm) + z_cov
+        # Covariance of the equation errors, i.e. of the real vector of vec(dx @ y_mat - dz)
+        Xi = make_real_matrix(sp.kron(y_mat.T, sp.eye(samples, dtype=cp.float64), format='csr'))
+        Ws = (Xi @ x_cov @ Xi.T + z_cov).tocsr()
 
         #inverse of W
         w1 = Ws[:, n*samples:][n*samples:, :].diagonal()
@@ -115,14 +108,7 @@ class TotalLeastSquares(GridIdentificationModel, UnweightedModel):
         w1i = sp.diags(1 / (w1 - w2 * (w2 / w3)))
         w3i = sp.diags(1 / (w3 - w2 * (w2 / w1)))
         w2i = sp.diags(-((w2 * w1i) / w3))
-        #F = (A.T @ sp.bmat([[w1i, w2i], [w2i, w3i]], format='csr') @ A).toarray()
-
-        del A
-        del x_cov
-        del z_cov
-        Ar = sp.kron(sp.eye(n, dtype=cp.float64), cp.real(x), format='csr')
-        Ai = sp.kron(sp.eye(n, dtype=cp.float64), cp.imag(x), format='csr')
-        F = sp.bmat([[Ar.T @ w1i @ Ar, Ar.T @ w2i @ Ai], [Ai.T @ w2i @ Ar, Ai.T @ w3i @ Ai]], format='csr').toarray()
+        F = (A.T @ sp.bmat([[w3i, w2i], [w2i, w1i]], format='csr') @ A).toarray()
 
         return F.get() if conf.GPU_AVAILABLE else F, cp.linalg.inv(F).get() if conf.GPU_AVAILABLE else cp.linalg.inv(F)
 
-- 
2.43.0


From ba8efaf4570b43f2aa0e652f435008a44723048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:54 +0000
Subject: [PATCH 38/43] fix: suboptimal knowledge of lines can be chosen

---
 src/identification/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/identification/run.py b/src/identification/run.py
index d0d5d9b..82f239f 100644
--- a/src/identification/run.py
+++ b/src/identification/run.py
@@ -171,7 +171,7 @@ def add_known_lines(nodes, prior, lambdaprime, y_bus, laplacian=False, prior_typ
     tls_bus_weights = np.zeros_like(y_bus)
     tls_bus_centers = np.zeros_like(y_bus)
 
-    if "optimal" in prior_type:
+    if "optimal" in prior_type and "suboptimal" not in prior_type:
         # Node 2
         tls_bus_weights[0, :], tls_bus_weights[:, 0] = (1+1j), (1+1j)
         tls_bus_weights[0, 0] = 0
-- 
2.43.0


From 50e5b2b3a2edf1083cb899af4db6b0ba95240829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 39/43] fix: the selected weeks give one sample per minute of
 the simulated days

---
 src/simulation/run.py    | 4 ++--
 src/simulation/run3ph.py | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/simulation/run.py b/src/simulation/run.py
index 6c15456..441992c 100644
--- a/src/simulation/run.py
+++ b/src/simulation/run.py
@@ -61,8 +61,8 @@ def generate_loads(net, load_params=None, verbose=True):
             load_p, load_q = load_profile_from_numpy(active_file=active_file,
                                                      reactive_file=reactive_file,
                                                      skip_header=selected_weeks * 7 * 24 * 60,
-                                                     length=np.array(days / len(selected_weeks) * 24 * 60,
-                                                                     dtype=np.int64),
+                                                     length=(days * 24 * 60 + np.arange(len(selected_weeks)))
+                                                            // len(selected_weeks),
                                                      load_p_reference=np.array([net.load.p_mw[net.load.p_mw.index[i]]
                                                                                 for i in range(len(net.load.p_mw))]),
                                                      load_q_reference=np.array([net.load.q_mvar[net.load.q_mvar.index[i]]
diff --git a/src/simulation/run3ph.py b/src/simulation/run3ph.py
index 1f53a60..f568d47 100644
--- a/src/simulation/run3ph.py
+++ b/src/simulation/run3ph.py
@@ -60,8 +60,8 @@ def generate_loads(net, load_params=None, verbose=True):
             load_p, load_q = load_profile_from_numpy(active_file=active_file,
                                                      reactive_file=reactive_file,
                                                      skip_header=selected_weeks * 7 * 24 * 60,
-                                                     length=np.array(days / len(selected_weeks) * 24 * 60,
-                                                                     dtype=np.int64),
+                                                     length=(days * 24 * 60 + np.arange(len(selected_weeks)))
+                                                            // len(selected_weeks),
                                                      load_p_reference=np.array([net.load.p_mw[net.load.p_mw.index[i]]
                                                                                 for i in range(len(net.load.p_mw))]),
                                                      load_q_reference=np.array([net.load.q_mvar[net.load.q_mvar.index[i]]
@@ -73,7 +73,8 @@ def generate_loads(net, load_params=None, verbose=True):
             load_asym = load_profile_from_numpy(active_file=active_file,
                                                 reactive_file=reactive_file,
                                                 skip_header=selected_weeks * 7 * 24 * 60,
-                                                length=np.array(days / len(selected_weeks) * 24 * 60, dtype=np.int64),
+                                                length=(days * 24 * 60 + np.arange(len(selected_weeks)))
+                                                       // len(selected_weeks),
                                                 load_p_reference=np.array(
                                                     [net.asymmetric_load.p_a_mw[net.asymmetric_load.p_a_mw.index[i]]
                                                      for i in range(len(net.asymmetric_load.p_a_mw))]),
-- 
2.43.0


From 2b43f9b8e4f26927d87c06c8502645bdf86382e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 40/43] fix: results of the phase asked for are shown

---
 plot_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plot_results.py b/plot_results.py
index 2a18995..2ebd3ca 100644
--- a/plot_results.py
+++ b/plot_results.py
@@ -42,7 +42,7 @@ def plot_results(network, max_plot_y, max_plot_err, color_scale, sequence, verbo
 
     correct_component = lambda x: x
     if phases != "012" and phases != "123":
-        idx_todel = (phases_ids != 1).nonzero()
+        idx_todel = (phases_ids != int(str(phases))).nonzero()
         voltage = np.delete(voltage, idx_todel, axis=1)
     elif phases == "012" and not sequence:
         correct_component = admittance_sequence_to_phase
-- 
2.43.0


From 702d67e359d8d8b65b1c9deeb64dc6d6b330b589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 41/43] fix: labelled series can be plotted

---
 src/identification/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/identification/utils.py b/src/identification/utils.py
index c7a38e8..39b5fcc 100644
--- a/src/identification/utils.py
+++ b/src/identification/utils.py
@@ -131,8 +131,8 @@ def plot_series(m: np.array, name: str, labels=None, s=10, colormap='hsv', ar=No
         if labels is None or len(labels) != m.shape[1]:
             ax1.plot(np.arange(m.shape[0]), m[:, i], linewidth=s, linestyle='solid', color=cmap[i])
         else:
-            ax1.scaplottter(np.arange(m.shape[0]), m[:, i], linewidth=s,
-                            linestyle='solid', color=cmap[i], label=labels[i])
+            ax1.plot(np.arange(m.shape[0]), m[:, i], linewidth=s,
+                     linestyle='solid', color=cmap[i], label=labels[i])
             plt.legend(loc='upper right')
     with open(DATA_DIR / ("tikz/" + name + ".tex"), 'w') as f:
         print(tikzplotlib.get_tikz_code(), file=f)
-- 
2.43.0


From 3fb60543e330865e1b35eb7e120d2c7eb4a3ab9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 42/43] fix: the last line of the 21-bus sub-network joins the
 buses it stands for

---
 src/simulation/net_templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/net_templates.py b/src/simulation/net_templates.py
index e525738..444eee6 100644
--- a/src/simulation/net_templates.py
+++ b/src/simulation/net_templates.py
@@ -253,7 +253,7 @@ bolognani21_net = \
      LineData(16, 17, 150, None, 0.0005024484*17.3, 0.0010294060*17.3, 1.13538851848272E-008, 100, 100, 100, 0, 0, 1, -360, 360),
      LineData(16, 18, 250, None, 0.0008374139*17.3, 0.0017156767*17.3, 1.89231419747120E-008, 100, 100, 100, 0, 0, 1, -360, 360),
      LineData(18, 19, 250, None, 0.0008374139*17.3, 0.0017156767*17.3, 1.89231419747120E-008, 100, 100, 100, 0, 0, 1, -360, 360),
-     LineData(20, 21, 250, None, 0.0008374139*17.3, 0.0017156767*17.3, 1.89231419747120E-008, 100, 100, 100, 0, 0, 1, -360, 360)]
+     LineData(19, 20, 250, None, 0.0008374139*17.3, 0.0017156767*17.3, 1.89231419747120E-008, 100, 100, 100, 0, 0, 1, -360, 360)]
 
 
 cigre_mv_feeder1_bus = \
-- 
2.43.0


From 311c88bb8e18a4b1fc000b3837550e1b0ba40189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 43/43] fix: zero sequence impedance of single-phase overhead
 lines is converted to km once

---
 src/simulation/net_templates_3ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/net_templates_3ph.py b/src/simulation/net_templates_3ph.py
index 0d21501..dffbfa4 100644
--- a/src/simulation/net_templates_3ph.py
+++ b/src/simulation/net_templates_3ph.py
@@ -184,7 +184,7 @@ Therefore:
 Z3_0_og = ((0.087 + 0.20j) + 2*(0.029 + 0.08j)) / 0.3
 Z3_1_og = ((0.087 + 0.20j) - (0.029 + 0.08j)) / 0.3
 Z1_1_og = (0.25 + 0.25j) / 0.3
-Z1_0_og = Z1_1_og / 0.3
+Z1_0_og = Z1_1_og
 
 Z3_0_ug = ((0.29 + 0.14j) + 2*(0.095 + 0.05j)) / 0.3
 Z3_1_ug = ((0.29 + 0.14j) - (0.095 + 0.05j)) / 0.3
-- 
2.43.0

