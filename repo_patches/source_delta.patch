From 02114fe7d7eadd4bc0de864cea5c7580740d6806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 01/32] fix: convert a load's PMAX to per-unit

---
 gym_anm/simulator/components/devices.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index 85763ca..90da451 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -139,6 +139,8 @@ class Load(Device):
             raise LoadSpecError(
                 "Trying to create a load with P_max > 0. Loads" " can only withdraw power from the grid."
             )
+        else:
+            self.p_max /= baseMVA  # to p.u.
 
         self.p_min = dev_spec[DEV_H["PMIN"]]
         if self.p_min is None:
-- 
2.43.0


From e829530fd34f49b0f185e3ea786e72e9cd66d632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 02/32] fix: order a load's reactive power bounds for any Q/P
 ratio

---
 gym_anm/simulator/components/devices.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index 90da451..83a9b49 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -152,8 +152,9 @@ class Load(Device):
         if self.p_max < self.p_min:
             raise LoadSpecError("Device %d has P_max < P_min." % self.dev_id)
 
-        self.q_max = self.p_max * self.qp_ratio
-        self.q_min = self.p_min * self.qp_ratio
+        # The sign of Q follows the sign of the Q/P ratio (0 * inf is avoided).
+        q_bounds = [p * self.qp_ratio if self.qp_ratio != 0 else 0.0 for p in (self.p_min, self.p_max)]
+        self.q_min, self.q_max = min(q_bounds), max(q_bounds)
 
     def map_pq(self, p):
         """
-- 
2.43.0


From 3d8df1dd5d72b810530016cd14ae6458c3bf6d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 03/32] fix: bound a generator's maximum output in MW by PMAX
 rather than QMAX

---
 gym_anm/simulator/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index 1752905..ca79232 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -427,7 +427,7 @@ class Simulator(object):
                 }
             if isinstance(dev, Generator) and not dev.is_slack:
                 gen_p_max[dev_id] = {
-                    "MW": (dev.p_min * self.baseMVA, dev.q_max * self.baseMVA),
+                    "MW": (dev.p_min * self.baseMVA, dev.p_max * self.baseMVA),
                     "pu": (dev.p_min, dev.p_max),
                 }
 
-- 
2.43.0


From 7e64a06f735f1184a049d9528352758e44f69739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 04/32] fix: solve the load flow for any bus numbering and
 slack bus position

---
 gym_anm/simulator/simulator.py       | 11 ++++++++---
 gym_anm/simulator/solve_load_flow.py | 26 +++++++++++++-------------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index ca79232..23d41c8 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -184,10 +184,15 @@ class Simulator(object):
         """
         Build the nodal admittance matrix of the network (in p.u.).
         """
-        n = max([i for i in self.buses.keys()])
-        Y_bus = np.zeros((n + 1, n + 1), dtype=np.complex128)
+        n = len(self.buses)
+        Y_bus = np.zeros((n, n), dtype=np.complex128)
+
+        # Rows and columns are ordered by bus ID (IDs may skip some numbers).
+        bus_idx = {bus_id: i for i, bus_id in enumerate(self.buses.keys())}
+
+        for (f_bus, t_bus), br in self.branches.items():
+            f, t = bus_idx[f_bus], bus_idx[t_bus]
 
-        for (f, t), br in self.branches.items():
             # Fill an off-diagonal elements of the admittance matrix Y_bus.
             Y_bus[f, t] = -br.series / np.conjugate(br.tap)
             Y_bus[t, f] = -br.series / br.tap
diff --git a/gym_anm/simulator/solve_load_flow.py b/gym_anm/simulator/solve_load_flow.py
index 92f25ec..3dd5024 100644
--- a/gym_anm/simulator/solve_load_flow.py
+++ b/gym_anm/simulator/solve_load_flow.py
@@ -27,23 +27,23 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
         otherwise.
     """
 
+    # Order the buses such that the slack bus comes first, as assumed by the
+    # functions below (whereas the rows of Y_bus are ordered by bus ID).
+    buses = list(simulator.buses.values())
+    order = sorted(range(simulator.N_bus), key=lambda i: not buses[i].is_slack)
+    buses = [buses[i] for i in order]
+    Y = simulator.Y_bus[order, :][:, order]
+
     # Collect P and Q nodal power injections (except slack bus).
-    p, q = [], []
-    for i in range(simulator.N_bus):
-        if i in simulator.buses.keys():
-            if not simulator.buses[i].is_slack:
-                p.append(simulator.buses[i].p)
-                q.append(simulator.buses[i].q)
-        else:
-            p.append(0)
-            q.append(0)
+    p = [bus.p for bus in buses[1:]]
+    q = [bus.q for bus in buses[1:]]
 
     # Construct initial guess for nodal V.
     v_guess = [0.0] * (simulator.N_bus - 1) + [1.0] * (simulator.N_bus - 1)
     v_guess = np.array(v_guess)
 
     # Solve power flow equations using Netwon-Raphson method.
-    v, n_iter, diff, converged = _newton_raphson_sparse(v_guess, np.array(p), np.array(q), simulator.Y_bus, x_tol=xtol)
+    v, n_iter, diff, converged = _newton_raphson_sparse(v_guess, np.array(p), np.array(q), Y, x_tol=xtol)
 
     # Check if a stable solution has been reached.
     stable = True if converged and diff <= xtol else False
@@ -52,10 +52,10 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
     V = _construct_v_from_guess(v)
 
     # Compute nodal current injections as I = YV.
-    I = np.dot(simulator.Y_bus.toarray(), V)
+    I = np.dot(Y.toarray(), V)
 
     # Update simulator.
-    for i, bus in enumerate(simulator.buses.values()):
+    for i, bus in enumerate(buses):
         bus.v = V[i]
         bus.i = I[i]
 
@@ -78,7 +78,7 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
         branch.compute_currents(v_f, v_t)
         branch.compute_power_flows(v_f, v_t)
 
-    return V, stable
+    return np.array([bus.v for bus in simulator.buses.values()]), stable
 
 
 def _f(guess, p, q, Y):
-- 
2.43.0


From b7a12f0e2a2bef9818e098dd2687d4042dcfc3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 05/32] fix: do not attribute other devices' injections at the
 slack bus to the slack device

---
 gym_anm/simulator/solve_load_flow.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gym_anm/simulator/solve_load_flow.py b/gym_anm/simulator/solve_load_flow.py
index 3dd5024..981e771 100644
--- a/gym_anm/simulator/solve_load_flow.py
+++ b/gym_anm/simulator/solve_load_flow.py
@@ -65,11 +65,12 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
             bus.p = s.real if not np.isnan(s.real) else np.inf
             bus.q = s.imag if not np.isnan(s.imag) else np.inf
 
-    # Update slack device injections.
+    # Update slack device injections (other devices may share the slack bus).
     for dev in simulator.devices.values():
         if dev.is_slack:
-            dev.p = simulator.buses[dev.bus_id].p
-            dev.q = simulator.buses[dev.bus_id].q
+            others = [d for d in simulator.devices.values() if d.bus_id == dev.bus_id and not d.is_slack]
+            dev.p = simulator.buses[dev.bus_id].p - sum(d.p for d in others)
+            dev.q = simulator.buses[dev.bus_id].q - sum(d.q for d in others)
 
     # Compute branch I_{ij}, P_{ij}, and Q_{ij} flows.
     for branch in simulator.branches.values():
-- 
2.43.0


From 7b338b83a760f8e2e572d1aa03f882d4a14629e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 06/32] fix: hold the slack bus at its documented voltage
 magnitude (VMAX)

---
 gym_anm/simulator/solve_load_flow.py | 37 +++++++++++++++++-----------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/gym_anm/simulator/solve_load_flow.py b/gym_anm/simulator/solve_load_flow.py
index 981e771..cbfadc2 100644
--- a/gym_anm/simulator/solve_load_flow.py
+++ b/gym_anm/simulator/solve_load_flow.py
@@ -39,17 +39,18 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
     q = [bus.q for bus in buses[1:]]
 
     # Construct initial guess for nodal V.
-    v_guess = [0.0] * (simulator.N_bus - 1) + [1.0] * (simulator.N_bus - 1)
+    v_slack = buses[0].v_slack
+    v_guess = [0.0] * (simulator.N_bus - 1) + [v_slack] * (simulator.N_bus - 1)
     v_guess = np.array(v_guess)
 
     # Solve power flow equations using Netwon-Raphson method.
-    v, n_iter, diff, converged = _newton_raphson_sparse(v_guess, np.array(p), np.array(q), Y, x_tol=xtol)
+    v, n_iter, diff, converged = _newton_raphson_sparse(v_guess, np.array(p), np.array(q), Y, v_slack, x_tol=xtol)
 
     # Check if a stable solution has been reached.
     stable = True if converged and diff <= xtol else False
 
     # Reconstruct complex V nodal vector.
-    V = _construct_v_from_guess(v)
+    V = _construct_v_from_guess(v, v_slack)
 
     # Compute nodal current injections as I = YV.
     I = np.dot(Y.toarray(), V)
@@ -82,7 +83,7 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
     return np.array([bus.v for bus in simulator.buses.values()]), stable
 
 
-def _f(guess, p, q, Y):
+def _f(guess, p, q, Y, v_slack):
     """
     The function f(x) = 0 to be solved.
 
@@ -101,6 +102,8 @@ def _f(guess, p, q, Y):
         the slack bus.
     Y : scipy.sparse.csc_matrix
         The nodal admittance matrix of shape (N, N) as a sparse matrix.
+    v_slack : float
+        The fixed voltage magnitude of the slack bus.
 
     Returns
     -------
@@ -109,8 +112,8 @@ def _f(guess, p, q, Y):
         F[N-1,...,2(N-1)] the imaginary part of f(x).
     """
 
-    # Construct nodal voltage vector V, setting V_slack = 1+0j.
-    v = _construct_v_from_guess(guess)
+    # Construct nodal voltage vector V, setting V_slack = v_slack+0j.
+    v = _construct_v_from_guess(guess, v_slack)
 
     # Compute the difference between V (YV)^* and the real power injections S.
     s = p + 1j * q
@@ -121,7 +124,7 @@ def _f(guess, p, q, Y):
     return F
 
 
-def _dfdx(guess, Y):
+def _dfdx(guess, Y, v_slack):
     """
     Compute the Jacobian matrix.
 
@@ -134,6 +137,8 @@ def _dfdx(guess, Y):
         excluded.
     Y : scipy.sparse.csc_matrix
         The nodal admittance matrix of shape (N, N) as a sparse matrix.
+    v_slack : float
+        The fixed voltage magnitude of the slack bus.
 
     Returns
     -------
@@ -141,8 +146,8 @@ def _dfdx(guess, Y):
         The Jacobian matrix as a sparse matrix.
     """
 
-    # Construct nodal voltage vector V, setting V_slack = 1+0j.
-    v = _construct_v_from_guess(guess)
+    # Construct nodal voltage vector V, setting V_slack = v_slack+0j.
+    v = _construct_v_from_guess(guess, v_slack)
 
     index = np.array(range(len(v)))
 
@@ -165,16 +170,16 @@ def _dfdx(guess, Y):
     return J
 
 
-def _construct_v_from_guess(guess):
+def _construct_v_from_guess(guess, v_slack):
     assert len(guess) % 2 == 0
     n = int(len(guess) / 2)
     v_nonslack = guess[n:] * np.exp(1j * guess[:n])
-    v = np.concatenate((np.array([1 + 0j]), v_nonslack))
+    v = np.concatenate((np.array([v_slack + 0j]), v_nonslack))
 
     return v
 
 
-def _newton_raphson_sparse(v_guess, p, q, Y, x_tol=1e-10, lim_iter=100):
+def _newton_raphson_sparse(v_guess, p, q, Y, v_slack, x_tol=1e-10, lim_iter=100):
     """
     Solve f(x) = 0 with initial v_guess for x and dfdx(x).
 
@@ -196,6 +201,8 @@ def _newton_raphson_sparse(v_guess, p, q, Y, x_tol=1e-10, lim_iter=100):
         the slack bus.
     Y : scipy.sparse.csc_matrix
         The nodal admittance matrix of shape (N, N) as a sparse matrix.
+    v_slack : float
+        The fixed voltage magnitude of the slack bus.
     x_tol : float
         The tolerance to achieve in the solution.
     lim_iter : int
@@ -213,13 +220,13 @@ def _newton_raphson_sparse(v_guess, p, q, Y, x_tol=1e-10, lim_iter=100):
     """
 
     n_iter = 0
-    F = _f(v_guess, p, q, Y)
+    F = _f(v_guess, p, q, Y, v_slack)
     diff = norm(F, np.inf)
 
     while diff > x_tol and n_iter < lim_iter:
         n_iter += 1
-        v_guess = v_guess - spsolve(_dfdx(v_guess, Y), F)
-        F = _f(v_guess, p, q, Y)
+        v_guess = v_guess - spsolve(_dfdx(v_guess, Y, v_slack), F)
+        F = _f(v_guess, p, q, Y, v_slack)
         diff = norm(F, np.inf)
 
     converged = False if np.isnan(diff) else True
-- 
2.43.0


From 03993ba4cb75adae22a1c915bba7a3090154c579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 07/32] fix: make ("pu",) the list of supported units of
 branch_i_magn

---
 gym_anm/simulator/components/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/components/constants.py b/gym_anm/simulator/components/constants.py
index 50b9596..ee55977 100644
--- a/gym_anm/simulator/components/constants.py
+++ b/gym_anm/simulator/components/constants.py
@@ -42,7 +42,7 @@ STATE_VARIABLES = {
     "branch_p": ("MW", "pu"),
     "branch_q": ("MVAr", "pu"),
     "branch_s": ("MVA", "pu"),
-    "branch_i_magn": ("pu"),
+    "branch_i_magn": ("pu",),
     "branch_i_ang": ("degree", "rad"),
     "aux": (None,),
 }
-- 
2.43.0


From 3bd418df47d1d2063ef1cdc55cea53931ae76244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 08/32] fix: report the magnitude of branch currents, not their
 real part

---
 gym_anm/simulator/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index 23d41c8..2abb81a 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -615,7 +615,7 @@ class Simulator(object):
             branch_s["pu"][(f, t)] = branch.s_apparent_max
             branch_s["MVA"][(f, t)] = branch.s_apparent_max * self.baseMVA
 
-            branch_i_magn["pu"][(f, t)] = np.sign(branch.i_from).real * np.abs(branch.i_from)
+            branch_i_magn["pu"][(f, t)] = (1 if branch.i_from.real >= 0 else -1) * np.abs(branch.i_from)
 
             branch_i_ang["rad"][(f, t)] = np.angle(branch.i_from)
             branch_i_ang["degree"][(f, t)] = np.angle(branch.i_from) * 180 / np.pi
-- 
2.43.0


From 898bb1750d9f173652ceeb5312694b03798d7bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 09/32] fix: keep the apparent power flow of a branch with no
 active power flow

---
 gym_anm/simulator/components/branch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gym_anm/simulator/components/branch.py b/gym_anm/simulator/components/branch.py
index e2d1d08..3d0dced 100644
--- a/gym_anm/simulator/components/branch.py
+++ b/gym_anm/simulator/components/branch.py
@@ -195,4 +195,5 @@ class TransmissionLine(object):
         self.q_to = s_to.imag
 
         # Compute directed apparent power flow.
-        self.s_apparent_max = np.sign(self.p_from) * np.maximum(np.abs(s_from), np.abs(s_to))
+        sign = -1.0 if self.p_from < 0 else 1.0
+        self.s_apparent_max = sign * np.maximum(np.abs(s_from), np.abs(s_to))
-- 
2.43.0


From a522b769378c77449de6ee2b7d1c23149d9c7c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 10/32] fix: raise EnvInitializationError when (and only when)
 no initial state is feasible

---
 gym_anm/envs/anm_env.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index 66fa8fb..623591b 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -281,10 +281,10 @@ class ANMEnv(gym.Env):
                 warnings.simplefilter("ignore", MatrixRankWarning)
                 init_state_found = self.simulator.reset(self.state)
 
-            if n_init_states == n_init_states_max:
+            if not init_state_found and n_init_states == n_init_states_max:
                 msg = "No non-terminal state found out of %d initial states for " "environment %s" % (
                     n_init_states_max,
-                    self.__name__,
+                    type(self).__name__,
                 )
                 raise EnvInitializationError(msg)
 
-- 
2.43.0


From 1799a42b106eea19c1ca3eed4834c8252a70b5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 11/32] fix: accept the observations of a callable without
 declared bounds

---
 gym_anm/envs/anm_env.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index 623591b..016ea2b 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -296,7 +296,9 @@ class ANMEnv(gym.Env):
 
         # Update the observation space bounds if required.
         if self.observation_space is None:
-            self.observation_space = spaces.Box(low=-np.ones(len(obs)) * np.inf, high=np.ones(len(obs)) * np.inf)
+            self.observation_space = spaces.Box(
+                low=-np.ones(len(obs)) * np.inf, high=np.ones(len(obs)) * np.inf, dtype=np.float64
+            )
             self.observation_N = self.observation_space.shape[0]
 
         err_msg = "Observation %r (%s) invalid." % (obs, type(obs))
-- 
2.43.0


From 51956609f9f1adc42596104daf0bfe9ed793051a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 12/32] fix: do not modify the previous state vector in place
 when stepping

---
 gym_anm/envs/anm_env.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index 016ea2b..633bbc4 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -435,6 +435,7 @@ class ANMEnv(gym.Env):
 
         # 4. Construct the state and observation vector.
         if not self.terminated:
+            self.state = self.state.copy()  # s_t may be referenced elsewhere
             for k in range(self.K):
                 self.state[k - self.K] = aux[k]
             self.state = self._construct_state()
-- 
2.43.0


From d949766d9419a719286b82fbb87d5b0d5244fae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 13/32] fix: do not divide by zero when the network collapses
 with a discount factor of 1

---
 gym_anm/envs/anm_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index 633bbc4..a124bf9 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -429,7 +429,7 @@ class ANMEnv(gym.Env):
             r = -(self.e_loss + self.penalty)
         else:
             # Very large reward if a terminal state has been reached.
-            r = -self.costs_clipping[1] / (1 - self.gamma)
+            r = -self.costs_clipping[1] / (1 - self.gamma) if self.gamma < 1 else -np.inf
             self.e_loss = self.costs_clipping[0]
             self.penalty = self.costs_clipping[1]
 
-- 
2.43.0


From de47aa4499bb9b08c781b407844aee32516759d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 14/32] fix: map an infeasible initial state of charge to the
 closest feasible one

---
 gym_anm/simulator/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index 2abb81a..fa002bc 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -289,7 +289,7 @@ class Simulator(object):
         soc_idx = 0
         for dev in self.devices.values():
             if isinstance(dev, StorageUnit):
-                dev.soc = soc[soc_idx] / self.baseMVA
+                dev.soc = np.clip(soc[soc_idx] / self.baseMVA, dev.soc_min, dev.soc_max)
                 soc_idx += 1
 
         # 5. Re-construct the state dictionary after modifying the SoC.
-- 
2.43.0


From 3c833a523358a5b4971430c94d4cd31802a9dbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:57 +0000
Subject: [PATCH 15/32] fix: default the optional VMIN of the slack bus to its
 fixed voltage

---
 gym_anm/simulator/components/bus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gym_anm/simulator/components/bus.py b/gym_anm/simulator/components/bus.py
index c833915..56b41ba 100644
--- a/gym_anm/simulator/components/bus.py
+++ b/gym_anm/simulator/components/bus.py
@@ -49,6 +49,8 @@ class Bus(object):
         if self.type == 0:
             self.is_slack = True
             self._v_slack = self.v_max
+            if self.v_min is None:
+                self.v_min = self.v_max
         else:
             self.is_slack = False
 
-- 
2.43.0


From 727d2d6a42d067747f05db460221d667a728e35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 16/32] fix: support unlimited (None) power bounds of
 generators and storage units

---
 gym_anm/simulator/components/devices.py | 29 +++++++++++++++----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index 83a9b49..0290de7 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -274,11 +274,13 @@ class Generator(Device):
             self.tau_1 = 0.0
             self.tau_2 = 0.0
         else:
-            self.tau_1 = (self.q_plus - self.q_max) / (self.p_max - self.p_plus)
-            self.tau_2 = (self.q_minus - self.q_min) / (self.p_max - self.p_plus)
+            dp = self.p_max - self.p_plus
+            self.tau_1 = (self.q_plus - self.q_max) / dp if self.q_plus != self.q_max else 0.0
+            self.tau_2 = (self.q_minus - self.q_min) / dp if self.q_minus != self.q_min else 0.0
 
-        self.rho_1 = self.q_max - self.tau_1 * self.p_plus
-        self.rho_2 = self.q_min - self.tau_2 * self.p_plus
+        # A flat constraint goes through (p, q_max) or (p, q_min) for any p, including infinity.
+        self.rho_1 = self.q_max - self.tau_1 * self.p_plus if self.tau_1 != 0 else self.q_max
+        self.rho_2 = self.q_min - self.tau_2 * self.p_plus if self.tau_2 != 0 else self.q_min
 
     def map_pq(self, p, q):
         """
@@ -428,21 +430,24 @@ class StorageUnit(Device):
             self.tau_1 = 0.0
             self.tau_2 = 0.0
         else:
-            self.tau_1 = (self.q_plus - self.q_max) / (self.p_max - self.p_plus)
-            self.tau_2 = (self.q_minus - self.q_min) / (self.p_max - self.p_plus)
+            dp = self.p_max - self.p_plus
+            self.tau_1 = (self.q_plus - self.q_max) / dp if self.q_plus != self.q_max else 0.0
+            self.tau_2 = (self.q_minus - self.q_min) / dp if self.q_minus != self.q_min else 0.0
 
-        self.rho_1 = self.q_max - self.tau_1 * self.p_plus
-        self.rho_2 = self.q_min - self.tau_2 * self.p_plus
+        # A flat constraint goes through (p, q_max) or (p, q_min) for any p, including infinity.
+        self.rho_1 = self.q_max - self.tau_1 * self.p_plus if self.tau_1 != 0 else self.q_max
+        self.rho_2 = self.q_min - self.tau_2 * self.p_plus if self.tau_2 != 0 else self.q_min
 
         if self.p_min == self.p_minus:
             self.tau_3 = 0.0
             self.tau_4 = 0.0
         else:
-            self.tau_3 = (self.q_min - self.q_minus) / (self.p_minus - self.p_min)
-            self.tau_4 = (self.q_max - self.q_plus) / (self.p_minus - self.p_min)
+            dp = self.p_minus - self.p_min
+            self.tau_3 = (self.q_min - self.q_minus) / dp if self.q_minus != self.q_min else 0.0
+            self.tau_4 = (self.q_max - self.q_plus) / dp if self.q_plus != self.q_max else 0.0
 
-        self.rho_3 = self.q_min - self.tau_3 * self.p_minus
-        self.rho_4 = self.q_max - self.tau_4 * self.p_minus
+        self.rho_3 = self.q_min - self.tau_3 * self.p_minus if self.tau_3 != 0 else self.q_min
+        self.rho_4 = self.q_max - self.tau_4 * self.p_minus if self.tau_4 != 0 else self.q_max
 
         self.soc_min = dev_spec[DEV_H["SOC_MIN"]]
         if self.soc_min is None:
-- 
2.43.0


From 1b0b1227ff9deeb59c36e31dbf0c7c1491bf143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 17/32] fix: let MPC agents run in environments without loads,
 generators or storage units

---
 gym_anm/agents/mpc.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/gym_anm/agents/mpc.py b/gym_anm/agents/mpc.py
index 571af71..795770c 100644
--- a/gym_anm/agents/mpc.py
+++ b/gym_anm/agents/mpc.py
@@ -102,9 +102,9 @@ class MPCAgent(object):
         self.P_dev_vars = []
 
         # Define time-varying parameters.
-        self.P_load_forecast = cp.Parameter((self.n_load, self.planning_steps))
-        self.P_gen_forecast = cp.Parameter((self.n_gen - 1, self.planning_steps), nonneg=True)
-        self.init_soc = cp.Parameter(self.n_des, nonneg=True)
+        self.P_load_forecast = _make_parameter((self.n_load, self.planning_steps))
+        self.P_gen_forecast = _make_parameter((self.n_gen - 1, self.planning_steps), nonneg=True)
+        self.init_soc = _make_parameter((self.n_des,), nonneg=True)
 
         # Define constants.
         bus_ids = [self.bus_id_mapping[i] for i in self.bus_ids]
@@ -412,11 +412,19 @@ class MPCAgent(object):
 
         # Update the parameters of the optimization problem with the
         # forecasted values.
-        self.P_load_forecast.value = np.array(P_load_forecasts)
-        self.P_gen_forecast.value = np.array(P_gen_forecasts)
+        if self.n_load > 0:
+            self.P_load_forecast.value = np.array(P_load_forecasts)
+        if self.n_gen > 1:
+            self.P_gen_forecast.value = np.array(P_gen_forecasts)
 
         # Set the initial state of charge of DES units.
-        self.init_soc.value = [simulator.state["des_soc"]["pu"][i] for i in self.des_ids]
+        if self.n_des > 0:
+            self.init_soc.value = [simulator.state["des_soc"]["pu"][i] for i in self.des_ids]
+
+
+def _make_parameter(shape, **kwargs):
+    """Create a cvxpy parameter (or an empty array, as parameters cannot be empty)."""
+    return cp.Parameter(shape, **kwargs) if 0 not in shape else np.zeros(shape)
 
 
 def _make_list_eq_constraints(a, b):
-- 
2.43.0


From cf11e299618167b644a4908efb54a776426807f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 18/32] fix: fix the voltage angle of the slack bus in the MPC
 optimization problem

---
 gym_anm/agents/mpc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gym_anm/agents/mpc.py b/gym_anm/agents/mpc.py
index 795770c..c5b69d8 100644
--- a/gym_anm/agents/mpc.py
+++ b/gym_anm/agents/mpc.py
@@ -298,8 +298,9 @@ class MPCAgent(object):
         constraints += _make_list_le_constraints([-np.pi] * self.n_bus, V_bus_ang)
         constraints += _make_list_le_constraints(V_bus_ang, [np.pi] * self.n_bus)
 
-        # V_angle[0] = 0
-        constraints.append(V_bus_ang[self.dev_id_mapping[self.slack_dev_id]] == 0.0)
+        # V_angle[slack] = 0
+        slack_bus_id = self.dev_to_bus[self.slack_dev_id]
+        constraints.append(V_bus_ang[self.bus_id_mapping[slack_bus_id]] == 0.0)
 
         # 4. Construct the objective function.
         cost_1 = 0.0
-- 
2.43.0


From c90376478632047b59b7e093e26a2a71d5d5152c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 19/32] fix: reset the year count along with the date, as
 documented

---
 gym_anm/envs/anm6_env/anm6.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gym_anm/envs/anm6_env/anm6.py b/gym_anm/envs/anm6_env/anm6.py
index 6b68658..40a3286 100644
--- a/gym_anm/envs/anm6_env/anm6.py
+++ b/gym_anm/envs/anm6_env/anm6.py
@@ -144,6 +144,7 @@ class ANM6(ANMEnv):
         """Reset the date displayed in the visualization (and the year count)."""
         self.date_init = date_init
         self.date = date_init
+        self.year_count = 0
 
     def _init_render(self, network_specs):
         """
-- 
2.43.0


From 77fedf0a634d89e29c2ca02ce4c27b511bfc6f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 20/32] fix: use the default costs range when rendering without
 costs clipping

---
 gym_anm/envs/anm6_env/anm6.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gym_anm/envs/anm6_env/anm6.py b/gym_anm/envs/anm6_env/anm6.py
index 40a3286..110dde7 100644
--- a/gym_anm/envs/anm6_env/anm6.py
+++ b/gym_anm/envs/anm6_env/anm6.py
@@ -179,8 +179,8 @@ class ANM6(ANMEnv):
             soc_max.append(network_specs["des_soc"][i]["MWh"][1])
 
         # Set default costs range if not specified.
-        c1 = 100 if self.costs_clipping[0] is None else self.costs_clipping[0]
-        c2 = 10000 if self.costs_clipping[1] is None else self.costs_clipping[1]
+        c1 = 100 if np.isinf(self.costs_clipping[0]) else self.costs_clipping[0]
+        c2 = 10000 if np.isinf(self.costs_clipping[1]) else self.costs_clipping[1]
         costs_range = (c1, c2)
 
         self.http_server, self.ws_server = rendering.start(
-- 
2.43.0


From 477ace126f607142d0876a73fb6b2be44e6a0178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 21/32] fix: keep rendering messages valid JSON when the
 network collapses

---
 .../envs/anm6_env/rendering/py/rendering.py   | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/gym_anm/envs/anm6_env/rendering/py/rendering.py b/gym_anm/envs/anm6_env/rendering/py/rendering.py
index 7c45bed..1b51cb9 100644
--- a/gym_anm/envs/anm6_env/rendering/py/rendering.py
+++ b/gym_anm/envs/anm6_env/rendering/py/rendering.py
@@ -1,6 +1,7 @@
 import webbrowser
 import json
 import os
+import numpy as np
 import requests
 from websocket import create_connection
 import time
@@ -147,13 +148,13 @@ def update(ws_address, cur_time, year_count, p, q, s, soc, p_potential, bus_v_ma
             "messageLabel": "update",
             "time": time_array,
             "yearCount": year_count,
-            "pInjections": p,
-            "qInjections": q,
-            "sFlows": s,
-            "socStorage": soc,
-            "pPotential": p_potential,
-            "vMagn": bus_v_magn,
-            "reward": costs,
+            "pInjections": _to_finite(p),
+            "qInjections": _to_finite(q),
+            "sFlows": _to_finite(s),
+            "socStorage": _to_finite(soc),
+            "pPotential": _to_finite(p_potential),
+            "vMagn": _to_finite(bus_v_magn),
+            "reward": _to_finite(costs),
             "networkCollapsed": network_collapsed,
         }
     )
@@ -165,6 +166,11 @@ def update(ws_address, cur_time, year_count, p, q, s, soc, p_potential, bus_v_ma
     return
 
 
+def _to_finite(values):
+    """Replace NaN and infinite values (e.g., collapsed network), which are not valid JSON."""
+    return np.nan_to_num(np.array(values, dtype=float)).tolist()
+
+
 def close(http_server, ws_server):
     """
     Terminate the parallel processes running the HTTP and WebSocket servers.
-- 
2.43.0


From 61bce7b8f22c29cd1863c61e306bfff0d37d202a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 22/32] fix: initialize rendering clients that connect before
 the init message

---
 gym_anm/envs/anm6_env/rendering/py/servers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gym_anm/envs/anm6_env/rendering/py/servers.py b/gym_anm/envs/anm6_env/rendering/py/servers.py
index 4bb4b31..aa634b5 100644
--- a/gym_anm/envs/anm6_env/rendering/py/servers.py
+++ b/gym_anm/envs/anm6_env/rendering/py/servers.py
@@ -119,6 +119,11 @@ class WsServer(object):
             self.init_client = client
             self.init_message = msg
 
+            # Initialize the clients that connected before this message.
+            for c in list(self.clients.values()):
+                if c["id"] != client["id"]:
+                    server.send_message(c, msg)
+
         elif message["messageLabel"] == "update":
             server.send_message_to_all(msg)
 
-- 
2.43.0


From 213d3db6dac7e9e58b20671ef41fde976f6bf205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 23/32] fix: color the flow bar of a (nearly) unloaded
 transmission line

---
 gym_anm/envs/anm6_env/rendering/js/devices.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/envs/anm6_env/rendering/js/devices.js b/gym_anm/envs/anm6_env/rendering/js/devices.js
index 46df9f3..ab3daff 100644
--- a/gym_anm/envs/anm6_env/rendering/js/devices.js
+++ b/gym_anm/envs/anm6_env/rendering/js/devices.js
@@ -216,7 +216,7 @@ class TransmissionLine {
 
     // Compute the % to be displayed next to the bar.
     let percentage = 100 * (current_magn - this.iMin) / (this.iMax - this.iMin);
-    let barColor = this.colorGradient[Math.round(Math.min(100, percentage)) - 1];
+    let barColor = this.colorGradient[Math.max(1, Math.round(Math.min(100, percentage))) - 1];
 
     // Update the height and color of the bar.
     svgNetwork.getElementById(this.iCurrentRect).setAttribute('height', barHeight);
-- 
2.43.0


From 89aa659dc2bf5f539465dfd78c5c7c5d5e4032c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 24/32] fix: raise the documented error for a missing or
 invalid bus ID, bus type or device type

---
 gym_anm/simulator/check_network.py      |  4 +++-
 gym_anm/simulator/components/bus.py     |  5 +++++
 gym_anm/simulator/components/devices.py |  2 +-
 gym_anm/simulator/simulator.py          | 11 ++++++++---
 4 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/gym_anm/simulator/check_network.py b/gym_anm/simulator/check_network.py
index 2a7e890..91c419c 100644
--- a/gym_anm/simulator/check_network.py
+++ b/gym_anm/simulator/check_network.py
@@ -33,7 +33,9 @@ def check_network_specs(network):
     bus_of_dev = network["device"][np.where(np.array(dev_types) == 0)[0], DEV_H["BUS_ID"]]
     if slack_bus != bus_of_dev:
         raise DeviceSpecError(
-            "The slack bus ID of the slack device is %d but the actual slack bus has ID %d." % (bus_of_dev, slack_bus)
+            "The slack bus ID of the slack device is {} but the actual slack bus has ID {}.".format(
+                bus_of_dev[0], slack_bus[0]
+            )
         )
 
     # Check buses have unique IDs.
diff --git a/gym_anm/simulator/components/bus.py b/gym_anm/simulator/components/bus.py
index 56b41ba..f18d9ed 100644
--- a/gym_anm/simulator/components/bus.py
+++ b/gym_anm/simulator/components/bus.py
@@ -40,7 +40,12 @@ class Bus(object):
             The corresponding bus row in the network file describing the network.
         """
 
+        if bus_spec[BUS_H["BUS_ID"]] is None:
+            raise BusSpecError("The bus ID cannot be None.")
         self.id = int(bus_spec[BUS_H["BUS_ID"]])
+
+        if bus_spec[BUS_H["BUS_TYPE"]] not in [0, 1]:
+            raise BusSpecError("The BUS_TYPE value for bus %d should be in [0, 1]" % (self.id))
         self.type = int(bus_spec[BUS_H["BUS_TYPE"]])
         self.baseKV = bus_spec[BUS_H["BASE_KV"]]
         self.v_max = bus_spec[BUS_H["VMAX"]]
diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index 0290de7..f61f194 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -85,7 +85,7 @@ class Device(object):
         self.type = dev_spec[DEV_H["DEV_TYPE"]]
         allowed = [-1, 0, 1, 2, 3]
         if self.type is None or self.type not in allowed:
-            raise DeviceSpecError("The DEV_TYPE value for device %d should be" " in %s." % allowed)
+            raise DeviceSpecError("The DEV_TYPE value for device %d should be" " in %s." % (self.dev_id, allowed))
 
         if self.type == 0:
             self.is_slack = True
diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index fa002bc..5cb0407 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -6,6 +6,7 @@ from logging import getLogger
 
 from .components import Load, TransmissionLine, ClassicalGen, StorageUnit, RenewableGen, Bus, Generator
 from .components.constants import DEV_H
+from .components.errors import DeviceSpecError
 from . import check_network
 from . import solve_load_flow
 
@@ -133,7 +134,7 @@ class Simulator(object):
 
         Raises
         ------
-        NoImplementedError
+        DeviceSpecError
             When the feature DEV_TYPE of a device is not valid.
         """
 
@@ -156,7 +157,7 @@ class Simulator(object):
 
         devices = {}
         for dev_spec in network["device"]:
-            dev_type = int(dev_spec[DEV_H["DEV_TYPE"]])
+            dev_type = dev_spec[DEV_H["DEV_TYPE"]]
 
             if dev_type == -1:
                 dev = Load(dev_spec, bus_ids, baseMVA)
@@ -171,7 +172,11 @@ class Simulator(object):
                 dev = StorageUnit(dev_spec, bus_ids, baseMVA)
 
             else:
-                raise NotImplementedError
+                raise DeviceSpecError(
+                    "The DEV_TYPE value for device {} is {} but should be in [-1, 0, 1, 2, 3].".format(
+                        dev_spec[DEV_H["DEV_ID"]], dev_type
+                    )
+                )
 
             devices[dev.dev_id] = dev
 
-- 
2.43.0


From 9da3a2a1c65856c2afb0a4873b0bc27b19c07ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 25/32] fix: support storage units with a round-trip efficiency
 of 0

---
 gym_anm/agents/mpc.py                   | 6 +++++-
 gym_anm/simulator/components/devices.py | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/gym_anm/agents/mpc.py b/gym_anm/agents/mpc.py
index c5b69d8..60c8288 100644
--- a/gym_anm/agents/mpc.py
+++ b/gym_anm/agents/mpc.py
@@ -285,7 +285,11 @@ class MPCAgent(object):
             p_charging = cp.Variable(nonneg=True)
             p_discharging = cp.Variable(nonneg=True)
             delta_soc_charging = p_charging * self.delta_t * self.des_eff[i]
-            delta_soc_discharging = -p_discharging * self.delta_t / self.des_eff[i]
+            if self.des_eff[i] > 0:
+                delta_soc_discharging = -p_discharging * self.delta_t / self.des_eff[i]
+            else:
+                delta_soc_discharging = 0.0
+                constraints.append(p_discharging == 0)
             new_soc = soc_prev[i] + delta_soc_charging + delta_soc_discharging
             new_socs.append(new_soc)
             c.append(P_dev[self.dev_id_mapping[des]] == p_discharging - p_charging)
diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index f61f194..2270635 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -516,7 +516,7 @@ class StorageUnit(Device):
                 -self.rho_2,
                 -self.rho_3,
                 self.rho_4,
-                -(self.soc - self.soc_max) / (delta_t * self.eff),
+                -(self.soc - self.soc_max) / (delta_t * self.eff) if self.eff > 0 else np.inf,
                 self.eff * (self.soc - self.soc_min) / delta_t,
             ]
         )
@@ -546,7 +546,7 @@ class StorageUnit(Device):
         # Compute the new SoC.
         if self.p <= 0:
             self.soc -= delta_t * self.eff * self.p
-        else:
+        elif self.eff > 0:
             self.soc -= delta_t * self.p / self.eff
 
         # Clip the new state of charge to be in [soc_min, soc_max].
-- 
2.43.0


From ead9e82277ddb3c8ae831af876f4bf69a311cdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 26/32] fix: reject malformed observation entries and negative
 auxiliary indices with the documented error

---
 gym_anm/envs/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gym_anm/envs/utils.py b/gym_anm/envs/utils.py
index e54872a..ceb6f3b 100644
--- a/gym_anm/envs/utils.py
+++ b/gym_anm/envs/utils.py
@@ -85,7 +85,7 @@ def _check_observation_vars(observation, state_bounds, K):
     """
 
     for obs in observation:
-        if len(obs) not in [2, 3]:
+        if not isinstance(obs, (tuple, list)) or len(obs) not in [2, 3]:
             raise ObsSpaceError("The observation tuple {} should be a list with " "2 or 3 elements.".format(obs))
 
         # Check that the observation variable is supported.
@@ -97,13 +97,13 @@ def _check_observation_vars(observation, state_bounds, K):
         nodes = obs[1]
         if isinstance(nodes, str) and nodes == "all":
             pass
-        elif key == "aux":
+        elif key == "aux" and hasattr(nodes, "__iter__"):
             for n in nodes:
-                if n >= K:
+                if n not in range(K):
                     raise ObsSpaceError("Aux variable index {} is out of bound " "for {} aux variables.".format(n, K))
         elif isinstance(nodes, list):
             for n in nodes:
-                if n not in state_bounds[key].keys():
+                if n not in list(state_bounds[key].keys()):
                     raise ObsSpaceError(
                         "Observation {} is not supported for " "device/branch/bus with ID {}.".format(key, n)
                     )
-- 
2.43.0


From de91a2f3a7f9e072a210eff62acd6079d3d64a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 27/32] fix: let MPC agents handle unlimited powers and branch
 ratings

---
 gym_anm/agents/mpc.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gym_anm/agents/mpc.py b/gym_anm/agents/mpc.py
index 60c8288..c72f0f2 100644
--- a/gym_anm/agents/mpc.py
+++ b/gym_anm/agents/mpc.py
@@ -314,6 +314,8 @@ class MPCAgent(object):
 
         cost_2 = 0.0
         for p, rate in zip(P_branch, self.branch_rate):
+            if np.isinf(rate):
+                continue  # no rating
             cost_2 += cp.maximum(0, cp.abs(p) - self.safety_margin * rate)
 
         obj = cost_1 + self.lamb * cost_2
@@ -444,11 +446,16 @@ def _make_list_eq_constraints(a, b):
 
 
 def _make_list_le_constraints(a, b):
-    """Create a list of cvxpy less than or equal (<=) equality constraints."""
+    """Create a list of cvxpy less than or equal (<=) equality constraints (ignoring infinite bounds)."""
     if isinstance(a, list):
         n = len(a)
     elif isinstance(b, list):
         n = len(b)
     else:
         raise ValueError()
-    return [a[i] <= b[i] for i in range(n)]
+    return [a[i] <= b[i] for i in range(n) if not (_is_infinite(a[i]) or _is_infinite(b[i]))]
+
+
+def _is_infinite(x):
+    """Return True if `x` is an infinite constant (i.e., an absent bound)."""
+    return np.isscalar(x) and np.isinf(x)
-- 
2.43.0


From d2e551c3122357886408f3ec35df587c70f7c784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 28/32] fix: initialize each rendering client once and never
 let a lost client disturb the others

---
 gym_anm/envs/anm6_env/rendering/py/servers.py | 43 +++++++++++++------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/gym_anm/envs/anm6_env/rendering/py/servers.py b/gym_anm/envs/anm6_env/rendering/py/servers.py
index aa634b5..94965a6 100644
--- a/gym_anm/envs/anm6_env/rendering/py/servers.py
+++ b/gym_anm/envs/anm6_env/rendering/py/servers.py
@@ -3,6 +3,7 @@ import os
 import sys
 import io
 import socket
+import threading
 from contextlib import redirect_stdout
 from http.server import HTTPServer, SimpleHTTPRequestHandler
 from multiprocessing import Process
@@ -10,6 +11,9 @@ from websocket_server import WebsocketServer
 
 from .constants import RENDERING_LOGS, ROOT_FOLDER
 
+# The WebSocket server runs the callbacks of each client in a separate thread.
+_CALLBACK_LOCK = threading.RLock()
+
 
 class WsServer(object):
     """
@@ -92,12 +96,13 @@ class WsServer(object):
             The current server.
         """
 
-        id = client["id"]
-        self.clients[id] = client
+        with _CALLBACK_LOCK:
+            id = client["id"]
+            self.clients[id] = client
 
-        if self.init_message is not None and self.init_client is not None:
-            if id != self.init_client["id"]:
-                server.send_message(client, self.init_message)
+            if self.init_message is not None and self.init_client is not None:
+                if id != self.init_client["id"]:
+                    self._send(client, server, self.init_message)
 
     def msg_received(self, client, server, msg):
         """
@@ -115,17 +120,27 @@ class WsServer(object):
 
         message = json.loads(msg)
 
-        if message["messageLabel"] == "init":
-            self.init_client = client
-            self.init_message = msg
+        with _CALLBACK_LOCK:
+            if message["messageLabel"] == "init":
+                self.init_client = client
+                self.init_message = msg
+
+                # Initialize the clients that connected before this message.
+                for c in list(self.clients.values()):
+                    if c["id"] != client["id"]:
+                        self._send(c, server, msg)
 
-            # Initialize the clients that connected before this message.
-            for c in list(self.clients.values()):
-                if c["id"] != client["id"]:
-                    server.send_message(c, msg)
+            elif message["messageLabel"] == "update":
+                for c in list(self.clients.values()):
+                    self._send(c, server, msg)
 
-        elif message["messageLabel"] == "update":
-            server.send_message_to_all(msg)
+    @staticmethod
+    def _send(client, server, msg):
+        """Send a message to a client, unless its connection is lost (other clients are unaffected)."""
+        try:
+            server.send_message(client, msg)
+        except OSError:
+            print("Error in sending a message to client %s" % client["id"])
 
     def client_left(self, client, server):
         """
-- 
2.43.0


From 52e02957b67c39dfa63fd59db73a7d182cc97884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:11 +0000
Subject: [PATCH 29/32] fix: make the projection of set-points independent of
 the elapsed time

By default OSQP adapts its step size at an interval chosen from the measured
setup time.  With an unlucky interval it declares a feasible projection (e.g. of
a storage unit emptied up to rounding) infeasible, and map_pq raises SolverError
for an input it handles on the next run.
---
 gym_anm/simulator/components/devices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index 2270635..21b8b01 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -303,7 +303,7 @@ class Generator(Device):
         # Define and solve the CVXPY problem.
         x = cp.Variable(2)
         prob = cp.Problem(cp.Minimize(cp.sum_squares(x - point)), [G @ x <= h])
-        prob.solve()
+        prob.solve(solver=cp.OSQP, adaptive_rho_interval=25)  # (the default interval depends on the elapsed time)
 
         self.p = x.value[0]
         self.q = x.value[1]
@@ -524,7 +524,7 @@ class StorageUnit(Device):
         # Define and solve the CVXPY problem.
         x = cp.Variable(2)
         prob = cp.Problem(cp.Minimize(cp.sum_squares(x - point)), [G @ x <= h])
-        prob.solve()
+        prob.solve(solver=cp.OSQP, adaptive_rho_interval=25)  # (the default interval depends on the elapsed time)
 
         self.p = x.value[0]
         self.q = x.value[1]
-- 
2.43.0


From c15fce9b6510cb113a8be63de3812a298b57d8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:11 +0000
Subject: [PATCH 30/32] fix: report no convergence when the Jacobian cannot be
 factorized

A Newton step to a voltage of exactly 0 makes the Jacobian NaN, for which
SuperLU raises RuntimeError; the caller expects converged = False.
---
 gym_anm/simulator/solve_load_flow.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gym_anm/simulator/solve_load_flow.py b/gym_anm/simulator/solve_load_flow.py
index cbfadc2..18db93e 100644
--- a/gym_anm/simulator/solve_load_flow.py
+++ b/gym_anm/simulator/solve_load_flow.py
@@ -225,7 +225,10 @@ def _newton_raphson_sparse(v_guess, p, q, Y, v_slack, x_tol=1e-10, lim_iter=100)
 
     while diff > x_tol and n_iter < lim_iter:
         n_iter += 1
-        v_guess = v_guess - spsolve(_dfdx(v_guess, Y, v_slack), F)
+        try:
+            v_guess = v_guess - spsolve(_dfdx(v_guess, Y, v_slack), F)
+        except RuntimeError:  # the Jacobian cannot be factorized (e.g. at a voltage of 0)
+            v_guess = np.full(len(v_guess), np.nan)
         F = _f(v_guess, p, q, Y, v_slack)
         diff = norm(F, np.inf)
 
-- 
2.43.0


From 70189068c7ffee0b1d05f72aa2d7504df9d8118f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:18 +0000
Subject: [PATCH 31/32] fix: a network made of the slack bus alone could not be
 simulated

---
 gym_anm/simulator/solve_load_flow.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gym_anm/simulator/solve_load_flow.py b/gym_anm/simulator/solve_load_flow.py
index 18db93e..10b033e 100644
--- a/gym_anm/simulator/solve_load_flow.py
+++ b/gym_anm/simulator/solve_load_flow.py
@@ -219,6 +219,9 @@ def _newton_raphson_sparse(v_guess, p, q, Y, v_slack, x_tol=1e-10, lim_iter=100)
         True if the algorithm converged; False otherwise.
     """
 
+    if len(v_guess) == 0:  # a slack bus alone: there is nothing to solve
+        return v_guess, 0, 0.0, True
+
     n_iter = 0
     F = _f(v_guess, p, q, Y, v_slack)
     diff = norm(F, np.inf)
-- 
2.43.0


From fc24fc48f1485cbd99bceaf9b25de6600e62ebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:19 +0000
Subject: [PATCH 32/32] fix: displayed date drifted for time steps that are not
 a whole number of minutes

---
 gym_anm/envs/anm6_env/anm6.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/envs/anm6_env/anm6.py b/gym_anm/envs/anm6_env/anm6.py
index 110dde7..5a67624 100644
--- a/gym_anm/envs/anm6_env/anm6.py
+++ b/gym_anm/envs/anm6_env/anm6.py
@@ -35,7 +35,7 @@ class ANM6(ANMEnv):
 
         # Rendering variables.
         self.network_specs = self.simulator.get_rendering_specs()
-        self.timestep_length = dt.timedelta(minutes=int(60 * delta_t))
+        self.timestep_length = dt.timedelta(hours=float(delta_t))
         self.date = None
         self.date_init = None
         self.year_count = 0
-- 
2.43.0

