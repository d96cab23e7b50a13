From 84e519e34b58315c8029c69c8693f22e22c845cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 01/37] fix: use PMAX (not QMAX) as the MW upper bound of
 gen_p_max

---
 gym_anm/simulator/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index 1752905..ca79232 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -427,7 +427,7 @@ class Simulator(object):
                 }
             if isinstance(dev, Generator) and not dev.is_slack:
                 gen_p_max[dev_id] = {
-                    "MW": (dev.p_min * self.baseMVA, dev.q_max * self.baseMVA),
+                    "MW": (dev.p_min * self.baseMVA, dev.p_max * self.baseMVA),
                     "pu": (dev.p_min, dev.p_max),
                 }
 
-- 
2.43.0


From 7301c9d27a1495485a4b225cf0220b8bbf74d33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 02/37] fix: convert the PMAX of loads to per-unit

---
 gym_anm/simulator/components/devices.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index 85763ca..90da451 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -139,6 +139,8 @@ class Load(Device):
             raise LoadSpecError(
                 "Trying to create a load with P_max > 0. Loads" " can only withdraw power from the grid."
             )
+        else:
+            self.p_max /= baseMVA  # to p.u.
 
         self.p_min = dev_spec[DEV_H["PMIN"]]
         if self.p_min is None:
-- 
2.43.0


From 00f22f6501183d29c0bfd2619adb004897248e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 03/37] fix: order the reactive power bounds of loads with Q/P
 <= 0

---
 gym_anm/simulator/components/devices.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index 90da451..3c1812a 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -152,8 +152,11 @@ class Load(Device):
         if self.p_max < self.p_min:
             raise LoadSpecError("Device %d has P_max < P_min." % self.dev_id)
 
-        self.q_max = self.p_max * self.qp_ratio
-        self.q_min = self.p_min * self.qp_ratio
+        # Q = P * (Q/P), where Q/P may be negative or 0 (and P_min unbounded).
+        if self.qp_ratio == 0:
+            self.q_min, self.q_max = 0.0, 0.0
+        else:
+            self.q_min, self.q_max = sorted((self.p_min * self.qp_ratio, self.p_max * self.qp_ratio))
 
     def map_pq(self, p):
         """
-- 
2.43.0


From 1d2ae63e5af9137edfc2af4f06265ed81ff78104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 04/37] fix: solve the power flow for non-contiguous bus IDs
 and any slack bus ID

---
 gym_anm/simulator/simulator.py       | 11 ++++++++---
 gym_anm/simulator/solve_load_flow.py | 24 ++++++++++++------------
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index ca79232..fb9aaa8 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -184,10 +184,15 @@ class Simulator(object):
         """
         Build the nodal admittance matrix of the network (in p.u.).
         """
-        n = max([i for i in self.buses.keys()])
-        Y_bus = np.zeros((n + 1, n + 1), dtype=np.complex128)
+        n = len(self.buses)
+        Y_bus = np.zeros((n, n), dtype=np.complex128)
+
+        # Bus IDs may skip numbers: rows/columns follow the order of `self.buses`.
+        bus_idx = {bus_id: i for i, bus_id in enumerate(self.buses.keys())}
+
+        for (f_bus, t_bus), br in self.branches.items():
+            f, t = bus_idx[f_bus], bus_idx[t_bus]
 
-        for (f, t), br in self.branches.items():
             # Fill an off-diagonal elements of the admittance matrix Y_bus.
             Y_bus[f, t] = -br.series / np.conjugate(br.tap)
             Y_bus[t, f] = -br.series / br.tap
diff --git a/gym_anm/simulator/solve_load_flow.py b/gym_anm/simulator/solve_load_flow.py
index 92f25ec..567ad33 100644
--- a/gym_anm/simulator/solve_load_flow.py
+++ b/gym_anm/simulator/solve_load_flow.py
@@ -27,23 +27,23 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
         otherwise.
     """
 
+    # Order the buses with the slack bus first (bus IDs may skip numbers and the
+    # slack bus may have any ID).
+    buses = list(simulator.buses.values())
+    order = sorted(range(len(buses)), key=lambda i: not buses[i].is_slack)
+    buses = [buses[i] for i in order]
+    Y_bus = simulator.Y_bus[order, :][:, order]
+
     # Collect P and Q nodal power injections (except slack bus).
-    p, q = [], []
-    for i in range(simulator.N_bus):
-        if i in simulator.buses.keys():
-            if not simulator.buses[i].is_slack:
-                p.append(simulator.buses[i].p)
-                q.append(simulator.buses[i].q)
-        else:
-            p.append(0)
-            q.append(0)
+    p = [bus.p for bus in buses[1:]]
+    q = [bus.q for bus in buses[1:]]
 
     # Construct initial guess for nodal V.
     v_guess = [0.0] * (simulator.N_bus - 1) + [1.0] * (simulator.N_bus - 1)
     v_guess = np.array(v_guess)
 
     # Solve power flow equations using Netwon-Raphson method.
-    v, n_iter, diff, converged = _newton_raphson_sparse(v_guess, np.array(p), np.array(q), simulator.Y_bus, x_tol=xtol)
+    v, n_iter, diff, converged = _newton_raphson_sparse(v_guess, np.array(p), np.array(q), Y_bus, x_tol=xtol)
 
     # Check if a stable solution has been reached.
     stable = True if converged and diff <= xtol else False
@@ -52,10 +52,10 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
     V = _construct_v_from_guess(v)
 
     # Compute nodal current injections as I = YV.
-    I = np.dot(simulator.Y_bus.toarray(), V)
+    I = np.dot(Y_bus.toarray(), V)
 
     # Update simulator.
-    for i, bus in enumerate(simulator.buses.values()):
+    for i, bus in enumerate(buses):
         bus.v = V[i]
         bus.i = I[i]
 
-- 
2.43.0


From 18e9ff8e68f9005ac9d61ab7ab6a92cec0df50fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 05/37] fix: do not attribute other devices' injections at the
 slack bus to the slack device

---
 gym_anm/simulator/solve_load_flow.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gym_anm/simulator/solve_load_flow.py b/gym_anm/simulator/solve_load_flow.py
index 567ad33..9fecaca 100644
--- a/gym_anm/simulator/solve_load_flow.py
+++ b/gym_anm/simulator/solve_load_flow.py
@@ -68,8 +68,10 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
     # Update slack device injections.
     for dev in simulator.devices.values():
         if dev.is_slack:
-            dev.p = simulator.buses[dev.bus_id].p
-            dev.q = simulator.buses[dev.bus_id].q
+            # Subtract the injections of the other devices connected to the slack bus.
+            others = [d for d in simulator.devices.values() if d.bus_id == dev.bus_id and d is not dev]
+            dev.p = simulator.buses[dev.bus_id].p - sum(d.p for d in others)
+            dev.q = simulator.buses[dev.bus_id].q - sum(d.q for d in others)
 
     # Compute branch I_{ij}, P_{ij}, and Q_{ij} flows.
     for branch in simulator.branches.values():
-- 
2.43.0


From 3002fc9cc059568cfe328c6fa124fe8d9577536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 06/37] fix: use the slack bus (not the slack device) as angle
 reference in the DC OPF

---
 gym_anm/agents/mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/agents/mpc.py b/gym_anm/agents/mpc.py
index 571af71..ea96594 100644
--- a/gym_anm/agents/mpc.py
+++ b/gym_anm/agents/mpc.py
@@ -299,7 +299,7 @@ class MPCAgent(object):
         constraints += _make_list_le_constraints(V_bus_ang, [np.pi] * self.n_bus)
 
         # V_angle[0] = 0
-        constraints.append(V_bus_ang[self.dev_id_mapping[self.slack_dev_id]] == 0.0)
+        constraints.append(V_bus_ang[self.bus_id_mapping[self.dev_to_bus[self.slack_dev_id]]] == 0.0)
 
         # 4. Construct the objective function.
         cost_1 = 0.0
-- 
2.43.0


From 395ce75cd96cd82d952cdf899999c8403fa38868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 07/37] fix: keep the initial SoC of storage units within
 [SOC_MIN, SOC_MAX]

---
 gym_anm/simulator/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index fb9aaa8..50fef79 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -289,7 +289,7 @@ class Simulator(object):
         soc_idx = 0
         for dev in self.devices.values():
             if isinstance(dev, StorageUnit):
-                dev.soc = soc[soc_idx] / self.baseMVA
+                dev.soc = np.clip(soc[soc_idx] / self.baseMVA, dev.soc_min, dev.soc_max)
                 soc_idx += 1
 
         # 5. Re-construct the state dictionary after modifying the SoC.
-- 
2.43.0


From 245dd3caf51877d13eab98a1c2cf6327805d139f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 08/37] fix: report the signed magnitude of branch currents
 with numpy>=2

---
 gym_anm/simulator/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/simulator.py b/gym_anm/simulator/simulator.py
index 50fef79..6214df7 100644
--- a/gym_anm/simulator/simulator.py
+++ b/gym_anm/simulator/simulator.py
@@ -615,7 +615,7 @@ class Simulator(object):
             branch_s["pu"][(f, t)] = branch.s_apparent_max
             branch_s["MVA"][(f, t)] = branch.s_apparent_max * self.baseMVA
 
-            branch_i_magn["pu"][(f, t)] = np.sign(branch.i_from).real * np.abs(branch.i_from)
+            branch_i_magn["pu"][(f, t)] = np.copysign(np.abs(branch.i_from), branch.i_from.real)
 
             branch_i_ang["rad"][(f, t)] = np.angle(branch.i_from)
             branch_i_ang["degree"][(f, t)] = np.angle(branch.i_from) * 180 / np.pi
-- 
2.43.0


From 6ef71362be828e64707702aa833a9d3b3c5a56d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 09/37] fix: do not report a zero apparent power flow when P_ij
 is exactly 0

---
 gym_anm/simulator/components/branch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/components/branch.py b/gym_anm/simulator/components/branch.py
index e2d1d08..de1b3f2 100644
--- a/gym_anm/simulator/components/branch.py
+++ b/gym_anm/simulator/components/branch.py
@@ -195,4 +195,4 @@ class TransmissionLine(object):
         self.q_to = s_to.imag
 
         # Compute directed apparent power flow.
-        self.s_apparent_max = np.sign(self.p_from) * np.maximum(np.abs(s_from), np.abs(s_to))
+        self.s_apparent_max = (1.0 if self.p_from >= 0 else -1.0) * np.maximum(np.abs(s_from), np.abs(s_to))
-- 
2.43.0


From 1890f57ba40347dbfb0c2cd1c088a8c0d75c6c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 10/37] fix: make the units of branch_i_magn a tuple

---
 gym_anm/simulator/components/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/components/constants.py b/gym_anm/simulator/components/constants.py
index 50b9596..ee55977 100644
--- a/gym_anm/simulator/components/constants.py
+++ b/gym_anm/simulator/components/constants.py
@@ -42,7 +42,7 @@ STATE_VARIABLES = {
     "branch_p": ("MW", "pu"),
     "branch_q": ("MVAr", "pu"),
     "branch_s": ("MVA", "pu"),
-    "branch_i_magn": ("pu"),
+    "branch_i_magn": ("pu",),
     "branch_i_ang": ("degree", "rad"),
     "aux": (None,),
 }
-- 
2.43.0


From ab77dde5013cd8e79cb24f5d37b7627084ae7d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 11/37] fix: use float64 for the default observation space of
 callable observations

---
 gym_anm/envs/anm_env.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index 66fa8fb..dd5338e 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -296,7 +296,9 @@ class ANMEnv(gym.Env):
 
         # Update the observation space bounds if required.
         if self.observation_space is None:
-            self.observation_space = spaces.Box(low=-np.ones(len(obs)) * np.inf, high=np.ones(len(obs)) * np.inf)
+            self.observation_space = spaces.Box(
+                low=-np.ones(len(obs)) * np.inf, high=np.ones(len(obs)) * np.inf, dtype=np.float64
+            )
             self.observation_N = self.observation_space.shape[0]
 
         err_msg = "Observation %r (%s) invalid." % (obs, type(obs))
-- 
2.43.0


From 28a2c182c39b142e6bd7d0ea8755cd91292d1ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 12/37] fix: do not modify previously returned
 state/observation vectors in step()

---
 gym_anm/envs/anm_env.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index dd5338e..4ab0da1 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -435,6 +435,7 @@ class ANMEnv(gym.Env):
 
         # 4. Construct the state and observation vector.
         if not self.terminated:
+            self.state = self.state.copy()  # do not modify the vectors already handed out
             for k in range(self.K):
                 self.state[k - self.K] = aux[k]
             self.state = self._construct_state()
-- 
2.43.0


From 1f29cc8c973c0a6a5c7b86e14208836e533170a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 13/37] fix: raise EnvInitializationError after 100 infeasible
 initial states

---
 gym_anm/envs/anm_env.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index 4ab0da1..2feb2b7 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -281,10 +281,10 @@ class ANMEnv(gym.Env):
                 warnings.simplefilter("ignore", MatrixRankWarning)
                 init_state_found = self.simulator.reset(self.state)
 
-            if n_init_states == n_init_states_max:
+            if n_init_states == n_init_states_max and not init_state_found:
                 msg = "No non-terminal state found out of %d initial states for " "environment %s" % (
                     n_init_states_max,
-                    self.__name__,
+                    type(self).__name__,
                 )
                 raise EnvInitializationError(msg)
 
-- 
2.43.0


From e521d70e6c7339542908d81811dafae1069c7659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:57 +0000
Subject: [PATCH 14/37] fix: map set-points exactly onto the feasible region of
 devices

The QP solver raised a SolverError or returned an inaccurate point for some
set-points, and failed for devices without limits (infinite bounds).
---
 gym_anm/simulator/components/devices.py | 60 ++++++++++++++++++-------
 1 file changed, 45 insertions(+), 15 deletions(-)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index 3c1812a..56d2c8b 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -1,5 +1,4 @@
 import numpy as np
-import cvxpy as cp
 from logging import getLogger
 
 from .constants import DEV_H
@@ -300,13 +299,7 @@ class Generator(Device):
 
         h = np.array([-self.p_min, self.p_max, self.p_pot, -self.q_min, self.q_max, self.rho_1, -self.rho_2])
 
-        # Define and solve the CVXPY problem.
-        x = cp.Variable(2)
-        prob = cp.Problem(cp.Minimize(cp.sum_squares(x - point)), [G @ x <= h])
-        prob.solve()
-
-        self.p = x.value[0]
-        self.q = x.value[1]
+        self.p, self.q = _closest_feasible_point(point, G, h)
 
 
 class ClassicalGen(Generator):
@@ -518,13 +511,7 @@ class StorageUnit(Device):
             ]
         )
 
-        # Define and solve the CVXPY problem.
-        x = cp.Variable(2)
-        prob = cp.Problem(cp.Minimize(cp.sum_squares(x - point)), [G @ x <= h])
-        prob.solve()
-
-        self.p = x.value[0]
-        self.q = x.value[1]
+        self.p, self.q = _closest_feasible_point(point, G, h)
 
     def update_soc(self, delta_t):
         """
@@ -548,3 +535,46 @@ class StorageUnit(Device):
 
         # Clip the new state of charge to be in [soc_min, soc_max].
         self.soc = np.clip(self.soc, self.soc_min, self.soc_max)
+
+
+def _closest_feasible_point(point, G, h):
+    """
+    Return the point of the polygon :math:`\\{x : Gx \\le h\\}` closest to `point`.
+
+    The closest point is either `point` itself, its projection onto one of the
+    edges of the polygon, or one of its vertices.
+
+    Parameters
+    ----------
+    point : numpy.ndarray
+        The desired (P, Q) point.
+    G, h : numpy.ndarray
+        The (N, 2) matrix and (N,) vector describing the non-empty polygon.
+        Constraints with a non-finite right-hand side are ignored.
+
+    Returns
+    -------
+    numpy.ndarray
+        The closest feasible (P, Q) point.
+    """
+
+    G, h = G[np.isfinite(h)].astype(float), h[np.isfinite(h)].astype(float)
+
+    candidates = [point]
+    for i in range(len(h)):
+        candidates.append(point - (G[i] @ point - h[i]) / (G[i] @ G[i]) * G[i])
+        for j in range(i):
+            det = G[i, 0] * G[j, 1] - G[i, 1] * G[j, 0]
+            if det != 0:
+                x = (h[i] * G[j, 1] - h[j] * G[i, 1]) / det
+                y = (G[i, 0] * h[j] - G[j, 0] * h[i]) / det
+                candidates.append(np.array([x, y]))
+    candidates = np.array(candidates)
+
+    # Keep the feasible candidates (up to rounding errors), then take the closest.
+    violations = np.max(candidates @ G.T - h, axis=1, initial=0.0)
+    tol = max(1e-12 * (1 + np.max(np.abs(h), initial=0.0)), violations.min())
+    candidates = candidates[violations <= tol]
+    distances = np.sum((candidates - point) ** 2, axis=1)
+
+    return candidates[np.argmin(distances)]
-- 
2.43.0


From 1e81a0ae7e667e77811ce63e8ea4334881a7fe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:57 +0000
Subject: [PATCH 15/37] fix: do not divide by zero in terminal states when
 gamma=1

---
 gym_anm/envs/anm_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index 2feb2b7..af17c7a 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -429,7 +429,7 @@ class ANMEnv(gym.Env):
             r = -(self.e_loss + self.penalty)
         else:
             # Very large reward if a terminal state has been reached.
-            r = -self.costs_clipping[1] / (1 - self.gamma)
+            r = -self.costs_clipping[1] / (1 - self.gamma) if self.gamma < 1 else -np.inf
             self.e_loss = self.costs_clipping[0]
             self.penalty = self.costs_clipping[1]
 
-- 
2.43.0


From 8ca601fe1fb2a45706385153fcb5e838a51fe55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 16/37] fix: send a valid (finite) costs range to the
 visualization when costs are not clipped

---
 gym_anm/envs/anm6_env/anm6.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gym_anm/envs/anm6_env/anm6.py b/gym_anm/envs/anm6_env/anm6.py
index 6b68658..424b09b 100644
--- a/gym_anm/envs/anm6_env/anm6.py
+++ b/gym_anm/envs/anm6_env/anm6.py
@@ -178,8 +178,8 @@ class ANM6(ANMEnv):
             soc_max.append(network_specs["des_soc"][i]["MWh"][1])
 
         # Set default costs range if not specified.
-        c1 = 100 if self.costs_clipping[0] is None else self.costs_clipping[0]
-        c2 = 10000 if self.costs_clipping[1] is None else self.costs_clipping[1]
+        c1 = 100 if np.isinf(self.costs_clipping[0]) else self.costs_clipping[0]
+        c2 = 10000 if np.isinf(self.costs_clipping[1]) else self.costs_clipping[1]
         costs_range = (c1, c2)
 
         self.http_server, self.ws_server = rendering.start(
-- 
2.43.0


From 4053917854c009cfefa9d0acc5a80c62be4ca2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 17/37] fix: keep visualization updates valid JSON when the
 network collapsed

---
 gym_anm/envs/anm6_env/rendering/py/rendering.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gym_anm/envs/anm6_env/rendering/py/rendering.py b/gym_anm/envs/anm6_env/rendering/py/rendering.py
index 7c45bed..aea53a9 100644
--- a/gym_anm/envs/anm6_env/rendering/py/rendering.py
+++ b/gym_anm/envs/anm6_env/rendering/py/rendering.py
@@ -1,6 +1,7 @@
 import webbrowser
 import json
 import os
+import numpy as np
 import requests
 from websocket import create_connection
 import time
@@ -141,6 +142,11 @@ def update(ws_address, cur_time, year_count, p, q, s, soc, p_potential, bus_v_ma
     """
     ws = create_connection(ws_address)
 
+    # NaN and infinite values (e.g., if the network collapsed) are not valid JSON.
+    p, q, s, soc, p_potential, bus_v_magn, costs = [
+        np.nan_to_num(np.array(x, dtype=float)).tolist() for x in (p, q, s, soc, p_potential, bus_v_magn, costs)
+    ]
+
     time_array = [cur_time.month, cur_time.day, cur_time.hour, cur_time.minute]
     message = json.dumps(
         {
-- 
2.43.0


From 49076338779bb7e3a7aa2408e019d7eac3718a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 18/37] fix: send the init message to viewers which connected
 before it was received

---
 gym_anm/envs/anm6_env/rendering/py/servers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gym_anm/envs/anm6_env/rendering/py/servers.py b/gym_anm/envs/anm6_env/rendering/py/servers.py
index 4bb4b31..ce6852b 100644
--- a/gym_anm/envs/anm6_env/rendering/py/servers.py
+++ b/gym_anm/envs/anm6_env/rendering/py/servers.py
@@ -119,6 +119,11 @@ class WsServer(object):
             self.init_client = client
             self.init_message = msg
 
+            # Clients which connected before the initial message.
+            for other in list(self.clients.values()):
+                if other["id"] != client["id"]:
+                    server.send_message(other, msg)
+
         elif message["messageLabel"] == "update":
             server.send_message_to_all(msg)
 
-- 
2.43.0


From d30f9e8cb0d853d561fda1139214f581fe6c36e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 19/37] fix: reset the year count in reset_date()

---
 gym_anm/envs/anm6_env/anm6.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gym_anm/envs/anm6_env/anm6.py b/gym_anm/envs/anm6_env/anm6.py
index 424b09b..0140622 100644
--- a/gym_anm/envs/anm6_env/anm6.py
+++ b/gym_anm/envs/anm6_env/anm6.py
@@ -142,6 +142,7 @@ class ANM6(ANMEnv):
 
     def reset_date(self, date_init):
         """Reset the date displayed in the visualization (and the year count)."""
+        self.year_count = 0
         self.date_init = date_init
         self.date = date_init
 
-- 
2.43.0


From 6fc1dd97fb4715c7dc6be6f92eb47ea8ea7cc416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 20/37] fix: advance the displayed date by exactly delta_t (not
 truncated to minutes)

---
 gym_anm/envs/anm6_env/anm6.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/envs/anm6_env/anm6.py b/gym_anm/envs/anm6_env/anm6.py
index 0140622..3c88db6 100644
--- a/gym_anm/envs/anm6_env/anm6.py
+++ b/gym_anm/envs/anm6_env/anm6.py
@@ -35,7 +35,7 @@ class ANM6(ANMEnv):
 
         # Rendering variables.
         self.network_specs = self.simulator.get_rendering_specs()
-        self.timestep_length = dt.timedelta(minutes=int(60 * delta_t))
+        self.timestep_length = dt.timedelta(hours=delta_t)
         self.date = None
         self.date_init = None
         self.year_count = 0
-- 
2.43.0


From de5a465907668c5f905abc5c4f1918d028dc32d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 21/37] fix: support MPC in networks without load, non-slack
 generator, or DES unit

---
 gym_anm/agents/mpc.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/gym_anm/agents/mpc.py b/gym_anm/agents/mpc.py
index ea96594..81e52b9 100644
--- a/gym_anm/agents/mpc.py
+++ b/gym_anm/agents/mpc.py
@@ -101,10 +101,11 @@ class MPCAgent(object):
         self.V_bus_ang_vars = []
         self.P_dev_vars = []
 
-        # Define time-varying parameters.
-        self.P_load_forecast = cp.Parameter((self.n_load, self.planning_steps))
-        self.P_gen_forecast = cp.Parameter((self.n_gen - 1, self.planning_steps), nonneg=True)
-        self.init_soc = cp.Parameter(self.n_des, nonneg=True)
+        # Define time-varying parameters (which cannot be empty in cvxpy, even if
+        # the network has no load, non-slack generator, or DES unit).
+        self.P_load_forecast = cp.Parameter((max(self.n_load, 1), self.planning_steps))
+        self.P_gen_forecast = cp.Parameter((max(self.n_gen - 1, 1), self.planning_steps), nonneg=True)
+        self.init_soc = cp.Parameter(max(self.n_des, 1), nonneg=True)
 
         # Define constants.
         bus_ids = [self.bus_id_mapping[i] for i in self.bus_ids]
@@ -412,11 +413,14 @@ class MPCAgent(object):
 
         # Update the parameters of the optimization problem with the
         # forecasted values.
-        self.P_load_forecast.value = np.array(P_load_forecasts)
-        self.P_gen_forecast.value = np.array(P_gen_forecasts)
+        if self.n_load > 0:
+            self.P_load_forecast.value = np.array(P_load_forecasts)
+        if self.n_gen > 1:
+            self.P_gen_forecast.value = np.array(P_gen_forecasts)
 
         # Set the initial state of charge of DES units.
-        self.init_soc.value = [simulator.state["des_soc"]["pu"][i] for i in self.des_ids]
+        if self.n_des > 0:
+            self.init_soc.value = [simulator.state["des_soc"]["pu"][i] for i in self.des_ids]
 
 
 def _make_list_eq_constraints(a, b):
-- 
2.43.0


From b8dd07213dec55721e4bfe246d60f42ecf3df938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 22/37] fix: ignore infinite power limits in the DC OPF

---
 gym_anm/agents/mpc.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gym_anm/agents/mpc.py b/gym_anm/agents/mpc.py
index 81e52b9..26a5aa0 100644
--- a/gym_anm/agents/mpc.py
+++ b/gym_anm/agents/mpc.py
@@ -435,11 +435,20 @@ def _make_list_eq_constraints(a, b):
 
 
 def _make_list_le_constraints(a, b):
-    """Create a list of cvxpy less than or equal (<=) equality constraints."""
+    """
+    Create a list of cvxpy less than or equal (<=) equality constraints.
+
+    Infinite bounds do not constrain anything and are skipped.
+    """
     if isinstance(a, list):
         n = len(a)
     elif isinstance(b, list):
         n = len(b)
     else:
         raise ValueError()
-    return [a[i] <= b[i] for i in range(n)]
+    return [a[i] <= b[i] for i in range(n) if not (_is_inf(a[i]) or _is_inf(b[i]))]
+
+
+def _is_inf(x):
+    """Return True if x is an infinite number (rather than e.g. a cvxpy expression)."""
+    return isinstance(x, (int, float)) and np.isinf(x)
-- 
2.43.0


From 879f9062266d89983364538dda9c740ba6fac7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:23 +0000
Subject: [PATCH 23/37] fix: do not divide by zero for storage units with EFF=0

---
 gym_anm/simulator/components/devices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index 56d2c8b..1d27a5d 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -506,7 +506,7 @@ class StorageUnit(Device):
                 -self.rho_2,
                 -self.rho_3,
                 self.rho_4,
-                -(self.soc - self.soc_max) / (delta_t * self.eff),
+                -(self.soc - self.soc_max) / (delta_t * self.eff) if self.eff > 0 else np.inf,
                 self.eff * (self.soc - self.soc_min) / delta_t,
             ]
         )
-- 
2.43.0


From 12667525876f9d45d1428984e7579e18db1a4493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:23 +0000
Subject: [PATCH 24/37] fix: reject negative auxiliary variable indices in
 observation specs

---
 gym_anm/envs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/envs/utils.py b/gym_anm/envs/utils.py
index e54872a..1e82290 100644
--- a/gym_anm/envs/utils.py
+++ b/gym_anm/envs/utils.py
@@ -99,7 +99,7 @@ def _check_observation_vars(observation, state_bounds, K):
             pass
         elif key == "aux":
             for n in nodes:
-                if n >= K:
+                if n < 0 or n >= K:
                     raise ObsSpaceError("Aux variable index {} is out of bound " "for {} aux variables.".format(n, K))
         elif isinstance(nodes, list):
             for n in nodes:
-- 
2.43.0


From 8b2c0058c58ebd927cddba978de619f29f140dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 25/37] fix: default the optional VMIN of the slack bus to 0

---
 gym_anm/simulator/components/bus.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gym_anm/simulator/components/bus.py b/gym_anm/simulator/components/bus.py
index c833915..d5e1e30 100644
--- a/gym_anm/simulator/components/bus.py
+++ b/gym_anm/simulator/components/bus.py
@@ -95,5 +95,9 @@ class Bus(object):
             if not self.is_slack:
                 raise BusSpecError("The VMIN value for bus %d should be >= 0" % (self.id))
 
+        # VMIN is optional for the slack bus, since its voltage is fixed.
+        if self.v_min is None:
+            self.v_min = 0.0
+
         if not self.is_slack and self.v_max < self.v_min:
             raise BusSpecError("Bus %d has VMAX < VMIN" % (self.id))
-- 
2.43.0


From cf5d9483d69718a20da19f73eec42b8eddc027be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 26/37] fix: keep the projection of far away set-points exact

---
 gym_anm/simulator/components/devices.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gym_anm/simulator/components/devices.py b/gym_anm/simulator/components/devices.py
index 1d27a5d..119e163 100644
--- a/gym_anm/simulator/components/devices.py
+++ b/gym_anm/simulator/components/devices.py
@@ -562,7 +562,9 @@ def _closest_feasible_point(point, G, h):
 
     candidates = [point]
     for i in range(len(h)):
-        candidates.append(point - (G[i] @ point - h[i]) / (G[i] @ G[i]) * G[i])
+        # Projection onto the edge, as (point on the edge) + (offset along the edge).
+        edge = np.array([-G[i, 1], G[i, 0]])
+        candidates.append((h[i] * G[i] + (edge @ point) * edge) / (G[i] @ G[i]))
         for j in range(i):
             det = G[i, 0] * G[j, 1] - G[i, 1] * G[j, 0]
             if det != 0:
-- 
2.43.0


From de2861da042369aa832bc1ed20b637e8382a36a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 27/37] fix: do not share the state vector with observation
 callables

---
 gym_anm/envs/anm_env.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index af17c7a..2b43df4 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -292,7 +292,7 @@ class ANMEnv(gym.Env):
         self.state = self._construct_state()
 
         # Construct the initial observation vector.
-        obs = self.observation(self.state)
+        obs = self.observation(self.state.copy())
 
         # Update the observation space bounds if required.
         if self.observation_space is None:
@@ -439,7 +439,7 @@ class ANMEnv(gym.Env):
             for k in range(self.K):
                 self.state[k - self.K] = aux[k]
             self.state = self._construct_state()
-            obs = self.observation(self.state)
+            obs = self.observation(self.state.copy())
 
             err_msg = "Observation %r (%s) invalid." % (obs, type(obs))
             assert self.observation_space.contains(obs), err_msg
-- 
2.43.0


From 04833484a6bcf6dadc76e0abc434a62571055789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:17 +0000
Subject: [PATCH 28/37] fix: ignore branches with an unlimited rating in the DC
 OPF objective

---
 gym_anm/agents/mpc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gym_anm/agents/mpc.py b/gym_anm/agents/mpc.py
index 26a5aa0..6d29127 100644
--- a/gym_anm/agents/mpc.py
+++ b/gym_anm/agents/mpc.py
@@ -310,7 +310,8 @@ class MPCAgent(object):
 
         cost_2 = 0.0
         for p, rate in zip(P_branch, self.branch_rate):
-            cost_2 += cp.maximum(0, cp.abs(p) - self.safety_margin * rate)
+            if not _is_inf(rate):
+                cost_2 += cp.maximum(0, cp.abs(p) - self.safety_margin * rate)
 
         obj = cost_1 + self.lamb * cost_2
 
-- 
2.43.0


From 10a9f97fcb2fd0082f8c19cb1ac0e6013e545605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 29/37] fix: support storage units with EFF=0 in the DC OPF

---
 gym_anm/agents/mpc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gym_anm/agents/mpc.py b/gym_anm/agents/mpc.py
index 6d29127..5a5b909 100644
--- a/gym_anm/agents/mpc.py
+++ b/gym_anm/agents/mpc.py
@@ -286,7 +286,12 @@ class MPCAgent(object):
             p_charging = cp.Variable(nonneg=True)
             p_discharging = cp.Variable(nonneg=True)
             delta_soc_charging = p_charging * self.delta_t * self.des_eff[i]
-            delta_soc_discharging = -p_discharging * self.delta_t / self.des_eff[i]
+            if self.des_eff[i] > 0:
+                delta_soc_discharging = -p_discharging * self.delta_t / self.des_eff[i]
+            else:
+                # No energy can be recovered from this unit.
+                delta_soc_discharging = 0.0
+                constraints.append(p_discharging == 0.0)
             new_soc = soc_prev[i] + delta_soc_charging + delta_soc_discharging
             new_socs.append(new_soc)
             c.append(P_dev[self.dev_id_mapping[des]] == p_discharging - p_charging)
-- 
2.43.0


From 4612a10afd7fa27b04336717957deeffad9a73b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 30/37] fix: viewers joining or leaving during an update do not
 disturb the others

---
 gym_anm/envs/anm6_env/rendering/py/servers.py | 42 +++++++++++++------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/gym_anm/envs/anm6_env/rendering/py/servers.py b/gym_anm/envs/anm6_env/rendering/py/servers.py
index ce6852b..228fc31 100644
--- a/gym_anm/envs/anm6_env/rendering/py/servers.py
+++ b/gym_anm/envs/anm6_env/rendering/py/servers.py
@@ -3,6 +3,7 @@ import os
 import sys
 import io
 import socket
+import threading
 from contextlib import redirect_stdout
 from http.server import HTTPServer, SimpleHTTPRequestHandler
 from multiprocessing import Process
@@ -67,6 +68,9 @@ class WsServer(object):
     def _start_server(self):
         """Start the WebSocket server and keep it running."""
 
+        # Each client is handled in its own thread.
+        self.lock = threading.Lock()
+
         # Create websocket server.
         server = WebsocketServer(self.PORT, self.HOST)
         server.set_fn_client_left(self.client_left)
@@ -93,11 +97,13 @@ class WsServer(object):
         """
 
         id = client["id"]
-        self.clients[id] = client
 
-        if self.init_message is not None and self.init_client is not None:
-            if id != self.init_client["id"]:
-                server.send_message(client, self.init_message)
+        with self.lock:
+            self.clients[id] = client
+
+            if self.init_message is not None and self.init_client is not None:
+                if id != self.init_client["id"]:
+                    self._send(server, client, self.init_message)
 
     def msg_received(self, client, server, msg):
         """
@@ -115,17 +121,27 @@ class WsServer(object):
 
         message = json.loads(msg)
 
-        if message["messageLabel"] == "init":
-            self.init_client = client
-            self.init_message = msg
+        with self.lock:
+            if message["messageLabel"] == "init":
+                self.init_client = client
+                self.init_message = msg
 
-            # Clients which connected before the initial message.
-            for other in list(self.clients.values()):
-                if other["id"] != client["id"]:
-                    server.send_message(other, msg)
+                # Clients which connected before the initial message.
+                for other in list(self.clients.values()):
+                    if other["id"] != client["id"]:
+                        self._send(server, other, msg)
 
-        elif message["messageLabel"] == "update":
-            server.send_message_to_all(msg)
+            elif message["messageLabel"] == "update":
+                for other in list(self.clients.values()):
+                    self._send(server, other, msg)
+
+    @staticmethod
+    def _send(server, client, msg):
+        """Send a message to a client, which may be gone already."""
+        try:
+            server.send_message(client, msg)
+        except OSError:
+            pass
 
     def client_left(self, client, server):
         """
-- 
2.43.0


From cedb424890b4ffb4315cb2558a89c74ce4f521d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 31/37] fix: an idle connection does not block the HTTP server

---
 gym_anm/envs/anm6_env/rendering/py/servers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gym_anm/envs/anm6_env/rendering/py/servers.py b/gym_anm/envs/anm6_env/rendering/py/servers.py
index 228fc31..0d00fb2 100644
--- a/gym_anm/envs/anm6_env/rendering/py/servers.py
+++ b/gym_anm/envs/anm6_env/rendering/py/servers.py
@@ -5,7 +5,7 @@ import io
 import socket
 import threading
 from contextlib import redirect_stdout
-from http.server import HTTPServer, SimpleHTTPRequestHandler
+from http.server import ThreadingHTTPServer, SimpleHTTPRequestHandler
 from multiprocessing import Process
 from websocket_server import WebsocketServer
 
@@ -213,7 +213,7 @@ class HttpServer(object):
 
         sys.stderr = open(os.path.join(RENDERING_LOGS, "http_stderr.log"), "w")
 
-        httpd = HTTPServer((self.HOST, self.PORT), SimpleHTTPRequestHandler)
+        httpd = ThreadingHTTPServer((self.HOST, self.PORT), SimpleHTTPRequestHandler)
         httpd.serve_forever()
 
 
-- 
2.43.0


From c188141dcbb165f220ee7965dc3f78abf1822ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 32/37] fix: do not cross out a line loaded at exactly its
 rating

The rounded percentage 100 * s / rate may exceed 100 for s = rate.
---
 gym_anm/envs/anm6_env/rendering/js/devices.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gym_anm/envs/anm6_env/rendering/js/devices.js b/gym_anm/envs/anm6_env/rendering/js/devices.js
index 46df9f3..8defc3a 100644
--- a/gym_anm/envs/anm6_env/rendering/js/devices.js
+++ b/gym_anm/envs/anm6_env/rendering/js/devices.js
@@ -228,7 +228,7 @@ class TransmissionLine {
 
     // Get the color to fill the cross over the line.
     let crossColor;
-    if (percentage > 100) {
+    if (current_magn > this.iMax) {
       // If the current flow is over the line rate.
       crossColor = this.brokenLineColor;
     } else {
-- 
2.43.0


From a22a4e0088913b9eea468dfce682620b1ce155b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:27 +0000
Subject: [PATCH 33/37] fix: a viewer which stops reading does not block the
 other viewers

Every client of the WebSocket server gets its messages from a thread of its own.
---
 gym_anm/envs/anm6_env/rendering/py/servers.py | 29 +++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/gym_anm/envs/anm6_env/rendering/py/servers.py b/gym_anm/envs/anm6_env/rendering/py/servers.py
index 0d00fb2..08882d5 100644
--- a/gym_anm/envs/anm6_env/rendering/py/servers.py
+++ b/gym_anm/envs/anm6_env/rendering/py/servers.py
@@ -2,6 +2,7 @@ import json
 import os
 import sys
 import io
+import queue
 import socket
 import threading
 from contextlib import redirect_stdout
@@ -98,12 +99,17 @@ class WsServer(object):
 
         id = client["id"]
 
+        # Each client is sent its messages by its own thread, so that a slow
+        # client does not delay the others.
+        client["messages"] = queue.Queue()
+        threading.Thread(target=self._send_messages, args=(client, server), daemon=True).start()
+
         with self.lock:
             self.clients[id] = client
 
             if self.init_message is not None and self.init_client is not None:
                 if id != self.init_client["id"]:
-                    self._send(server, client, self.init_message)
+                    client["messages"].put(self.init_message)
 
     def msg_received(self, client, server, msg):
         """
@@ -129,19 +135,23 @@ class WsServer(object):
                 # Clients which connected before the initial message.
                 for other in list(self.clients.values()):
                     if other["id"] != client["id"]:
-                        self._send(server, other, msg)
+                        other["messages"].put(msg)
 
             elif message["messageLabel"] == "update":
                 for other in list(self.clients.values()):
-                    self._send(server, other, msg)
+                    other["messages"].put(msg)
 
     @staticmethod
-    def _send(server, client, msg):
-        """Send a message to a client, which may be gone already."""
-        try:
-            server.send_message(client, msg)
-        except OSError:
-            pass
+    def _send_messages(client, server):
+        """Send its messages to a client, until it leaves."""
+        while True:
+            msg = client["messages"].get()
+            if msg is None:
+                return
+            try:
+                server.send_message(client, msg)
+            except OSError:
+                return
 
     def client_left(self, client, server):
         """
@@ -157,6 +167,7 @@ class WsServer(object):
 
         try:
             self.clients.pop(client["id"])
+            client["messages"].put(None)
         except:
             if client is not None:
                 print("Error in removing client %s" % client["id"])
-- 
2.43.0


From 4bc3eed95a05a344106565572ca6ad0ab548d25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:27 +0000
Subject: [PATCH 34/37] fix: sessions starting at the same moment do not get
 the same ports

---
 gym_anm/envs/anm6_env/rendering/py/servers.py | 56 ++++++++++---------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/gym_anm/envs/anm6_env/rendering/py/servers.py b/gym_anm/envs/anm6_env/rendering/py/servers.py
index 08882d5..e8b2d1d 100644
--- a/gym_anm/envs/anm6_env/rendering/py/servers.py
+++ b/gym_anm/envs/anm6_env/rendering/py/servers.py
@@ -7,7 +7,7 @@ import socket
 import threading
 from contextlib import redirect_stdout
 from http.server import ThreadingHTTPServer, SimpleHTTPRequestHandler
-from multiprocessing import Process
+from multiprocessing import Process, Pipe
 from websocket_server import WebsocketServer
 
 from .constants import RENDERING_LOGS, ROOT_FOLDER
@@ -38,18 +38,12 @@ class WsServer(object):
     def __init__(self):
         self.HOST = "127.0.0.1"
 
-        # Default port is 9001, otherwise let the OS choose.
-        if _is_port_in_use(self.HOST, 9001):
-            self.PORT = _select_random_free_port()
-        else:
-            self.PORT = 9001
-
-        self.address = "ws://" + self.HOST + ":" + str(self.PORT) + "/"
         self.clients = {}
         self.init_message = None
         self.init_client = None
 
         self.process = self._start_process()
+        self.address = "ws://" + self.HOST + ":" + str(self.PORT) + "/"
 
     def _start_process(self):
         """
@@ -61,22 +55,28 @@ class WsServer(object):
             The process running the server.
         """
 
-        process = Process(target=self._start_server)
+        # The port is known once the server listens on it.
+        receiver, sender = Pipe(duplex=False)
+        process = Process(target=self._start_server, args=(sender,))
         process.start()
+        sender.close()
+        self.PORT = receiver.recv()
 
         return process
 
-    def _start_server(self):
+    def _start_server(self, port_sender):
         """Start the WebSocket server and keep it running."""
 
         # Each client is handled in its own thread.
         self.lock = threading.Lock()
 
         # Create websocket server.
-        server = WebsocketServer(self.PORT, self.HOST)
+        # Default port is 9001, otherwise let the OS choose.
+        server = _listen(lambda port: WebsocketServer(port, self.HOST), self.HOST, 9001)
         server.set_fn_client_left(self.client_left)
         server.set_fn_new_client(self.new_client)
         server.set_fn_message_received(self.msg_received)
+        port_sender.send(server.server_address[1])
 
         # Run forever and redirect stdout to .log file.
         f = io.StringIO()
@@ -192,14 +192,8 @@ class HttpServer(object):
     def __init__(self):
         self.HOST = "127.0.0.1"
 
-        # Default port is 8000, otherwise let the OS choose.
-        if _is_port_in_use(self.HOST, 8000):
-            self.PORT = _select_random_free_port()
-        else:
-            self.PORT = 8000
-
-        self.address = "http://" + self.HOST + ":" + str(self.PORT)
         self.process = self._start_http_process()
+        self.address = "http://" + self.HOST + ":" + str(self.PORT)
 
     def _start_http_process(self):
         """
@@ -211,12 +205,16 @@ class HttpServer(object):
             The process running the server.
         """
 
-        service = Process(name="http_server", target=self._start_http_server)
+        # The port is known once the server listens on it.
+        receiver, sender = Pipe(duplex=False)
+        service = Process(name="http_server", target=self._start_http_server, args=(sender,))
         service.start()
+        sender.close()
+        self.PORT = receiver.recv()
 
         return service
 
-    def _start_http_server(self):
+    def _start_http_server(self, port_sender):
         """Start the HTTP server and keep it running."""
 
         # Go to project root directory.
@@ -224,7 +222,9 @@ class HttpServer(object):
 
         sys.stderr = open(os.path.join(RENDERING_LOGS, "http_stderr.log"), "w")
 
-        httpd = ThreadingHTTPServer((self.HOST, self.PORT), SimpleHTTPRequestHandler)
+        # Default port is 8000, otherwise let the OS choose.
+        httpd = _listen(lambda port: ThreadingHTTPServer((self.HOST, port), SimpleHTTPRequestHandler), self.HOST, 8000)
+        port_sender.send(httpd.server_address[1])
         httpd.serve_forever()
 
 
@@ -234,8 +234,12 @@ def _is_port_in_use(host, port):
         return s.connect_ex((host, port)) == 0
 
 
-def _select_random_free_port():
-    """Let the OS select an unused port."""
-    soc = socket.socket()
-    soc.bind(("", 0))
-    return soc.getsockname()[1]
+def _listen(create_server, host, default_port):
+    """Create a server listening on a port that no other server uses."""
+    if not _is_port_in_use(host, default_port):
+        try:
+            return create_server(default_port)
+        except OSError:
+            pass  # taken in the meantime
+
+    return create_server(0)
-- 
2.43.0


From a60744b58051c92f75ba26ce994daf4f1fca349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:54 +0000
Subject: [PATCH 35/37] fix: the power flow of networks with phase shifters
 starts from rotated angles

---
 gym_anm/simulator/solve_load_flow.py | 42 +++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/gym_anm/simulator/solve_load_flow.py b/gym_anm/simulator/solve_load_flow.py
index 9fecaca..744b1ab 100644
--- a/gym_anm/simulator/solve_load_flow.py
+++ b/gym_anm/simulator/solve_load_flow.py
@@ -39,7 +39,7 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
     q = [bus.q for bus in buses[1:]]
 
     # Construct initial guess for nodal V.
-    v_guess = [0.0] * (simulator.N_bus - 1) + [1.0] * (simulator.N_bus - 1)
+    v_guess = _flat_start_angles(simulator, buses) + [1.0] * (simulator.N_bus - 1)
     v_guess = np.array(v_guess)
 
     # Solve power flow equations using Netwon-Raphson method.
@@ -83,6 +83,46 @@ def solve_pfe_newton_raphson(simulator, xtol=1e-5):
     return V, stable
 
 
+def _flat_start_angles(simulator, buses):
+    """
+    Construct the initial guess of the voltage angles of the non-slack buses.
+
+    All angles are 0, except for the buses behind phase shifters, which rotate
+    the voltages by a fixed angle.
+
+    Parameters
+    ----------
+    simulator : simulator.Simulator
+        The electricity network simulator.
+    buses : list of Bus
+        The buses of the network, starting with the slack bus.
+
+    Returns
+    -------
+    list of float
+        The initial voltage angles of `buses[1:]` (radians).
+    """
+
+    branches = list(simulator.branches.values())
+    if all(branch.shift == 0 for branch in branches):
+        return [0.0] * (len(buses) - 1)
+
+    # Follow the branches, starting from the slack bus.
+    angles = {buses[0].id: 0.0}
+    pending = [buses[0].id]
+    while pending:
+        bus_id = pending.pop()
+        for branch in branches:
+            if branch.f_bus == bus_id and branch.t_bus not in angles:
+                angles[branch.t_bus] = angles[bus_id] - branch.shift
+                pending.append(branch.t_bus)
+            elif branch.t_bus == bus_id and branch.f_bus not in angles:
+                angles[branch.f_bus] = angles[bus_id] + branch.shift
+                pending.append(branch.f_bus)
+
+    return [angles.get(bus.id, 0.0) for bus in buses[1:]]
+
+
 def _f(guess, p, q, Y):
     """
     The function f(x) = 0 to be solved.
-- 
2.43.0


From d63ad5ef9525c4be15cd5558fd9b6525151c1c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:26 +0000
Subject: [PATCH 36/37] fix: MPC agents conserve power in networks with phase
 shifters

---
 gym_anm/agents/mpc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gym_anm/agents/mpc.py b/gym_anm/agents/mpc.py
index 5a5b909..68191ae 100644
--- a/gym_anm/agents/mpc.py
+++ b/gym_anm/agents/mpc.py
@@ -108,8 +108,12 @@ class MPCAgent(object):
         self.init_soc = cp.Parameter(max(self.n_des, 1), nonneg=True)
 
         # Define constants.
-        bus_ids = [self.bus_id_mapping[i] for i in self.bus_ids]
-        self.B_bus = simulator.Y_bus.imag[bus_ids, :][:, bus_ids].toarray()
+        # The DC power flow neglects phase shifts, with which the nodal admittance
+        # matrix would not be symmetric (i.e., power would not be conserved).
+        self.B_bus = np.zeros((self.n_bus, self.n_bus))
+        for (i, j), br in simulator.branches.items():
+            k, l = self.bus_id_mapping[i], self.bus_id_mapping[j]
+            self.B_bus[k, l] = self.B_bus[l, k] = -br.series.imag / br.tap_magn
         self.branch_rate = [br.rate for br in simulator.branches.values()]
         self.P_gen_min = [g.p_min for g in simulator.devices.values() if isinstance(g, Generator) and not g.is_slack]
         self.P_gen_max = [g.p_max for g in simulator.devices.values() if isinstance(g, Generator) and not g.is_slack]
-- 
2.43.0


From c381dcfa8c261e1f730c7bb4a4b085b08e0e7436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:35 +0000
Subject: [PATCH 37/37] fix: steps computed in the precision of the action
 (e.g. float16)

---
 gym_anm/envs/anm_env.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gym_anm/envs/anm_env.py b/gym_anm/envs/anm_env.py
index 2b43df4..b4cd686 100644
--- a/gym_anm/envs/anm_env.py
+++ b/gym_anm/envs/anm_env.py
@@ -393,6 +393,7 @@ class ANMEnv(gym.Env):
                 gen_idx += 1
 
         # 2. Extract the different actions from the action vector.
+        action = np.asarray(action, dtype=self.action_space.dtype)
         P_set_points = {}
         Q_set_points = {}
         gen_non_slack_ids = [
-- 
2.43.0

