From 2a3b6db19f1cde9bac5aa63c12d3d58780ba553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 01/27] fix: a disabled RTA no longer reports a stale
 intervening flag

---
 run_time_assurance/rta/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/run_time_assurance/rta/base.py b/run_time_assurance/rta/base.py
index 684412d..d189311 100644
--- a/run_time_assurance/rta/base.py
+++ b/run_time_assurance/rta/base.py
@@ -80,6 +80,7 @@ class RTAModule(abc.ABC):
             control_actual = self._clip_control(self.compute_filtered_control(input_state, step_size, control_desired))
             self.control_actual = np.array(control_actual)
         else:
+            self.intervening = False
             self.control_actual = np.copy(control_desired)
 
         return np.copy(self.control_actual)
-- 
2.43.0


From eb3267e155a1e481536af2d90c99f15b4e17838b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 02/27] fix: simplex latch timer restarts when the module is
 not intervening (e.g. after reset)

---
 run_time_assurance/rta/simplex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/run_time_assurance/rta/simplex.py b/run_time_assurance/rta/simplex.py
index 9a182e5..63ad3d8 100644
--- a/run_time_assurance/rta/simplex.py
+++ b/run_time_assurance/rta/simplex.py
@@ -78,6 +78,8 @@ class SimplexModule(BackupControlBasedRTA):
             else:
                 self.latched_elapsed += step_size
                 latched = True
+        else:
+            self.latched_elapsed = 0
 
         if latched:
             control = self.backup_control(state, step_size)
-- 
2.43.0


From 7e20f737101d603c98ec72476b2fd3e2e12f6d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 03/27] fix: resetting a cascaded RTA resets every RTA in the
 cascade

---
 run_time_assurance/rta/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/run_time_assurance/rta/base.py b/run_time_assurance/rta/base.py
index d189311..8d857e5 100644
--- a/run_time_assurance/rta/base.py
+++ b/run_time_assurance/rta/base.py
@@ -375,6 +375,13 @@ class CascadedRTA(RTAModule):
 
         return control
 
+    def reset(self):
+        """Resets the rta module and every RTA in the cascade to the initial state at the beginning of an episode
+        """
+        super().reset()
+        for rta in self.rta_list:
+            rta.reset()
+
     @abc.abstractmethod
     def _setup_rta_list(self) -> List[RTAModule]:
         """Setup list of RTA objects
-- 
2.43.0


From 9d70bbb4b10bbcf0570d1a03ab93f24139fffcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 04/27] fix: combined inspection RTA reports intervention and
 resets its deputy RTA

---
 run_time_assurance/zoo/cwh/inspection_3d.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index f64e651..452fe27 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -511,6 +511,7 @@ class CombinedInspectionRTA(RTAModule):
     def compute_filtered_control(
         self, input_state: Any, step_size: float, control_desired: np.ndarray
     ) -> np.ndarray:
+        self.intervening = False
         u_act = np.zeros(self.num_deputies * 3)
         for i in range(self.num_deputies):
             u_des = control_desired[3 * i : 3 * i + 3]
@@ -518,8 +519,15 @@ class CombinedInspectionRTA(RTAModule):
             u_act[3 * i : 3 * i + 3] = self.deputy_rta.filter_control(
                 x_new, step_size, u_des
             )
+            if self.deputy_rta.intervening:
+                self.intervening = True
         return u_act
 
+    def reset(self):
+        """Resets the rta module and the deputy RTA to the initial state at the beginning of an episode"""
+        super().reset()
+        self.deputy_rta.reset()
+
     def get_agent_state(self, state, i):
         """Places current agent state at beginning of array"""
         x_i = state[6 * i : 6 * i + 6]
-- 
2.43.0


From a2067fc4d4ddaccf4cff58701e7902b9377a7692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 05/27] fix: reset clears constraint telemetry of the previous
 episode

---
 run_time_assurance/rta/asif.py | 6 ++++++
 run_time_assurance/rta/base.py | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index d5b6ee6..255a0de 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -97,6 +97,12 @@ class ASIFModule(BaseOptimizationModule):
         self.constraints_causing_intervention = None
         self.constraint_names += list(self.constraints.keys()) + list(self.direct_inequality_constraints.keys())
 
+    def reset(self):
+        """Resets the rta module to the initial state at the beginning of an episode
+        """
+        super().reset()
+        self.constraints_causing_intervention = None
+
     def _update_direct_inequality_params(self):
         """Update the parameters for each constraint"""
         for k, c in self.direct_inequality_constraints.items():
diff --git a/run_time_assurance/rta/base.py b/run_time_assurance/rta/base.py
index 8d857e5..ed58afc 100644
--- a/run_time_assurance/rta/base.py
+++ b/run_time_assurance/rta/base.py
@@ -205,6 +205,14 @@ class ConstraintBasedRTA(RTAModule):
         self.constraint_enabled_dict = dict.fromkeys(self.constraints.keys())
         self._update_params()
 
+    def reset(self):
+        """Resets the rta module to the initial state at the beginning of an episode
+        Also clears the constraint values recorded during the previous episode
+        """
+        super().reset()
+        self.constraint_values = {}
+        self.is_stale_constraints = False
+
     def _update_params(self):
         """Update the parameters for each constraint"""
         for k, c in self.constraints.items():
-- 
2.43.0


From e0a95dd270bf62c691b716c13a97785097b5794a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 06/27] fix: constraints causing intervention are not stale
 after an infeasible QP

---
 run_time_assurance/rta/asif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 255a0de..41627b5 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -249,6 +249,7 @@ class ASIFModule(BaseOptimizationModule):
             Actual control solved by QP
         """
         obj_constant = np.concatenate((obj_constant, np.zeros(self.num_slack)))
+        self.constraints_causing_intervention = []
         try:
             opt = quadprog.solve_qp(
                 obj_weight, obj_constant, np.array(ineq_weight, dtype=np.float64), np.array(ineq_constant, dtype=np.float64), 0
@@ -256,7 +257,6 @@ class ASIFModule(BaseOptimizationModule):
             u = opt[0]
 
             # Get constraints causing intervention
-            self.constraints_causing_intervention = []
             for i in opt[5]:
                 key = self.constraint_names[i - 1]
                 if key not in self.constraints_causing_intervention:
-- 
2.43.0


From be220a709bee381da015ca472e365146b46ac856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 07/27] fix: implicit ASIF does not jit compile external
 integration by default, as documented

---
 run_time_assurance/rta/asif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 41627b5..244159c 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -523,7 +523,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         else:
             self._generate_ineq_constraint_mats_fn = self._generate_ineq_constraint_mats
 
-        default_int = True
+        default_int = False
 
         if self.jit_enable and self.jit_compile_dict.get('pred_state', default_int):
             self._pred_state_fn = jit(self._pred_state, static_argnames=['step_size'])
-- 
2.43.0


From e725c6f26ea4015a530cb024a7c4821ffe6ecd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 08/27] fix: implicit ASIF supports constraints with slack
 variables

---
 run_time_assurance/rta/asif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 244159c..5b9f9ba 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -726,7 +726,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         jnp.ndarray
             vector b of quadprog inequality constraint C.T x >= b
         """
-        new_ineq_weight_barrier = jnp.empty((0, self.control_dim))
+        new_ineq_weight_barrier = jnp.empty((0, self.control_dim + self.num_slack))
         new_ineq_constant_barrier = jnp.empty(0)
 
         for i, c in enumerate(self.constraints.values()):
-- 
2.43.0


From 76c1baa2cfafd632bc26bae5ce13d5bb374f921e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 09/27] fix: implicit ASIF subsampling no longer drops the
 point following the first num_check_all points

---
 run_time_assurance/rta/asif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 5b9f9ba..db093e4 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -739,7 +739,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
             check_points = jnp.hstack(
                 (
                     jnp.array(range(0, c.subsample_config.num_check_all)),
-                    jnp.array(range(c.subsample_config.num_check_all + 1, num_steps, c.subsample_config.skip_length))
+                    jnp.array(range(max(c.subsample_config.num_check_all, 0), num_steps, c.subsample_config.skip_length))
                 )
             ).astype(int)
             tmp_ineq_weight_barrier = tmp_ineq_weight_barrier[check_points, :]
-- 
2.43.0


From 47e509bf7fb8fdc86150f6fc2c638667ab3887e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 10/27] fix: HOCBF constraint of relative degree 1

---
 run_time_assurance/constraint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/constraint.py b/run_time_assurance/constraint.py
index 16e3a27..22f2cc5 100644
--- a/run_time_assurance/constraint.py
+++ b/run_time_assurance/constraint.py
@@ -418,7 +418,7 @@ class HOCBFConstraint(ConstraintModule):
                 constraint=hocbf_constraint_dict["constraint_" + str(i - 1)], state_transition_system=state_transition_system, alpha=alpha
             )
             hocbf_constraint_dict["constraint_" + str(i)] = psi
-        self.final_constraint = psi
+        self.final_constraint = hocbf_constraint_dict["constraint_" + str(relative_degree - 1)]
         super().__init__(alpha=alpha, params=self.final_constraint.params, **kwargs)
 
     def _compute(self, state: jnp.ndarray, params: dict) -> float:
-- 
2.43.0


From 98b94132534b2c0f2bcfded4b26a59e0169b2aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 11/27] fix: restoring the backup controller does not alias the
 saved controller state

---
 run_time_assurance/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/controller.py b/run_time_assurance/controller.py
index 8740176..9cf610a 100644
--- a/run_time_assurance/controller.py
+++ b/run_time_assurance/controller.py
@@ -166,4 +166,4 @@ class RTABackupController(abc.ABC):
 
         !!! Note stateful backup controllers are not compatible with jax jit compilation
         """
-        self.controller_state = self.controller_state_saved
+        self.controller_state = self._copy_controller_state(self.controller_state_saved)
-- 
2.43.0


From eb6a416391918694fe1b33f9d53b319bb8699002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 12/27] fix: deputy passively safe maneuver trajectory array

---
 run_time_assurance/zoo/cwh/inspection_3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index 452fe27..bb59d97 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -465,7 +465,7 @@ class ConstraintPSMDeputy(ConstraintModule):
 
     def get_array(self, state: jnp.ndarray, params: dict) -> float:
         """Gets entire trajectory array"""
-        vmapped_get_future_state = vmap(self.get_future_state, (None, 0), 0)
+        vmapped_get_future_state = vmap(self.get_future_state, (None, 0, None), 0)
         phi_array = vmapped_get_future_state(
             state,
             jnp.linspace(0, self.steps * params["dt"], self.steps + 1),
-- 
2.43.0


From ba8e86a712199fc996da6bf6b5551be573895b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 13/27] fix: safety assurance sample testing passes the
 constraint parameters

---
 run_time_assurance/utils/sample_testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/utils/sample_testing.py b/run_time_assurance/utils/sample_testing.py
index ef401b1..a51929b 100644
--- a/run_time_assurance/utils/sample_testing.py
+++ b/run_time_assurance/utils/sample_testing.py
@@ -276,7 +276,7 @@ class SafetyAssuranceSampleTestingModule(BaseSampleTestingModule):
         """
 
         for c in self.rta.constraints.values():
-            if c.phi(to_jnp_array_jit(state)) < 0 or c(to_jnp_array_jit(state)) < 0:
+            if c.phi(to_jnp_array_jit(state), c.params) < 0 or c(to_jnp_array_jit(state), c.params) < 0:
                 return None
 
         done = False
@@ -293,7 +293,7 @@ class SafetyAssuranceSampleTestingModule(BaseSampleTestingModule):
             done = self._check_done_conditions(state, current_time)
 
             for c in self.rta.constraints.values():
-                if c.phi(to_jnp_array_jit(state)) < 0:
+                if c.phi(to_jnp_array_jit(state), c.params) < 0:
                     return False
 
         return True
-- 
2.43.0


From 10bbff53ecc68b9183aff1f57b4b6a9218c04885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 14/27] fix: state wrapper setters work on immutable jax arrays

---
 run_time_assurance/zoo/cwh/docking_2d.py         |  8 ++++----
 run_time_assurance/zoo/cwh/docking_3d.py         | 12 ++++++------
 run_time_assurance/zoo/cwh/inspection_1v1.py     | 16 ++++++++--------
 .../zoo/integrators/integrator_1d.py             |  4 ++--
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/run_time_assurance/zoo/cwh/docking_2d.py b/run_time_assurance/zoo/cwh/docking_2d.py
index e98261d..2eb55fc 100644
--- a/run_time_assurance/zoo/cwh/docking_2d.py
+++ b/run_time_assurance/zoo/cwh/docking_2d.py
@@ -46,7 +46,7 @@ class Docking2dState(RTAStateWrapper):
     @x.setter
     def x(self, val: float):
         """Setter for x position"""
-        self.vector[0] = val
+        self.vector = self.vector.at[0].set(val)
 
     @property
     def y(self) -> float:
@@ -56,7 +56,7 @@ class Docking2dState(RTAStateWrapper):
     @y.setter
     def y(self, val: float):
         """Setter for y position"""
-        self.vector[1] = val
+        self.vector = self.vector.at[1].set(val)
 
     @property
     def x_dot(self) -> float:
@@ -66,7 +66,7 @@ class Docking2dState(RTAStateWrapper):
     @x_dot.setter
     def x_dot(self, val: float):
         """Setter for x velocity component"""
-        self.vector[2] = val
+        self.vector = self.vector.at[2].set(val)
 
     @property
     def y_dot(self) -> float:
@@ -76,7 +76,7 @@ class Docking2dState(RTAStateWrapper):
     @y_dot.setter
     def y_dot(self, val: float):
         """Setter for y velocity component"""
-        self.vector[3] = val
+        self.vector = self.vector.at[3].set(val)
 
 
 class Docking2dRTAMixin:
diff --git a/run_time_assurance/zoo/cwh/docking_3d.py b/run_time_assurance/zoo/cwh/docking_3d.py
index 6bf365b..bbfb919 100644
--- a/run_time_assurance/zoo/cwh/docking_3d.py
+++ b/run_time_assurance/zoo/cwh/docking_3d.py
@@ -47,7 +47,7 @@ class Docking3dState(RTAStateWrapper):
     @x.setter
     def x(self, val: float):
         """Setter for x position"""
-        self.vector[0] = val
+        self.vector = self.vector.at[0].set(val)
 
     @property
     def y(self) -> float:
@@ -57,7 +57,7 @@ class Docking3dState(RTAStateWrapper):
     @y.setter
     def y(self, val: float):
         """Setter for y position"""
-        self.vector[1] = val
+        self.vector = self.vector.at[1].set(val)
 
     @property
     def z(self) -> float:
@@ -67,7 +67,7 @@ class Docking3dState(RTAStateWrapper):
     @z.setter
     def z(self, val: float):
         """Setter for z position"""
-        self.vector[2] = val
+        self.vector = self.vector.at[2].set(val)
 
     @property
     def x_dot(self) -> float:
@@ -77,7 +77,7 @@ class Docking3dState(RTAStateWrapper):
     @x_dot.setter
     def x_dot(self, val: float):
         """Setter for x velocity component"""
-        self.vector[3] = val
+        self.vector = self.vector.at[3].set(val)
 
     @property
     def y_dot(self) -> float:
@@ -87,7 +87,7 @@ class Docking3dState(RTAStateWrapper):
     @y_dot.setter
     def y_dot(self, val: float):
         """Setter for y velocity component"""
-        self.vector[4] = val
+        self.vector = self.vector.at[4].set(val)
 
     @property
     def z_dot(self) -> float:
@@ -97,7 +97,7 @@ class Docking3dState(RTAStateWrapper):
     @z_dot.setter
     def z_dot(self, val: float):
         """Setter for z velocity component"""
-        self.vector[5] = val
+        self.vector = self.vector.at[5].set(val)
 
 
 class Docking3dRTAMixin:
diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index eed26f3..fe5532d 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -54,7 +54,7 @@ class Inspection3dState(RTAStateWrapper):
     @x.setter
     def x(self, val: float):
         """Setter for x position"""
-        self.vector[0] = val
+        self.vector = self.vector.at[0].set(val)
 
     @property
     def y(self) -> float:
@@ -64,7 +64,7 @@ class Inspection3dState(RTAStateWrapper):
     @y.setter
     def y(self, val: float):
         """Setter for y position"""
-        self.vector[1] = val
+        self.vector = self.vector.at[1].set(val)
 
     @property
     def z(self) -> float:
@@ -74,7 +74,7 @@ class Inspection3dState(RTAStateWrapper):
     @z.setter
     def z(self, val: float):
         """Setter for z position"""
-        self.vector[2] = val
+        self.vector = self.vector.at[2].set(val)
 
     @property
     def x_dot(self) -> float:
@@ -84,7 +84,7 @@ class Inspection3dState(RTAStateWrapper):
     @x_dot.setter
     def x_dot(self, val: float):
         """Setter for x velocity component"""
-        self.vector[3] = val
+        self.vector = self.vector.at[3].set(val)
 
     @property
     def y_dot(self) -> float:
@@ -94,7 +94,7 @@ class Inspection3dState(RTAStateWrapper):
     @y_dot.setter
     def y_dot(self, val: float):
         """Setter for y velocity component"""
-        self.vector[4] = val
+        self.vector = self.vector.at[4].set(val)
 
     @property
     def z_dot(self) -> float:
@@ -104,7 +104,7 @@ class Inspection3dState(RTAStateWrapper):
     @z_dot.setter
     def z_dot(self, val: float):
         """Setter for z velocity component"""
-        self.vector[5] = val
+        self.vector = self.vector.at[5].set(val)
 
     @property
     def sun_angle(self) -> float:
@@ -114,7 +114,7 @@ class Inspection3dState(RTAStateWrapper):
     @sun_angle.setter
     def sun_angle(self, val: float):
         """Setter for sun_angle component"""
-        self.vector[6] = val
+        self.vector = self.vector.at[6].set(val)
 
     @property
     def delta_v(self) -> float:
@@ -124,7 +124,7 @@ class Inspection3dState(RTAStateWrapper):
     @delta_v.setter
     def delta_v(self, val: float):
         """Setter for delta_v component"""
-        self.vector[7] = val
+        self.vector = self.vector.at[7].set(val)
 
 
 class Inspection1v1RTA(ExplicitASIFModule):
diff --git a/run_time_assurance/zoo/integrators/integrator_1d.py b/run_time_assurance/zoo/integrators/integrator_1d.py
index ba7a494..47682cd 100644
--- a/run_time_assurance/zoo/integrators/integrator_1d.py
+++ b/run_time_assurance/zoo/integrators/integrator_1d.py
@@ -36,7 +36,7 @@ class Integrator1dDockingState(RTAStateWrapper):
     @x.setter
     def x(self, val: float):
         """Setter for x position"""
-        self.vector[0] = val
+        self.vector = self.vector.at[0].set(val)
 
     @property
     def x_dot(self) -> float:
@@ -46,7 +46,7 @@ class Integrator1dDockingState(RTAStateWrapper):
     @x_dot.setter
     def x_dot(self, val: float):
         """Setter for x velocity component"""
-        self.vector[1] = val
+        self.vector = self.vector.at[1].set(val)
 
 
 class Integrator1dDockingRTAMixin:
-- 
2.43.0


From 95871e2c1f9517a12654ede535814eb8acc23128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:39 +0000
Subject: [PATCH 15/27] fix: implicit ASIF attributes interventions to the
 right constraint after subsampling

---
 run_time_assurance/rta/asif.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index db093e4..c4286d6 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -608,8 +608,14 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         if self.control_bounds_high is not None:
             idx += self.control_dim
         self.constraint_names = self.constraint_names[0:idx]
-        for k in self.constraints.keys():
-            self.constraint_names += [k] * num_steps
+        for k, c in self.constraints.items():
+            # Number of rows remaining after subsample_constraints
+            num_check_all = max(c.subsample_config.num_check_all, 0)
+            num_rows = num_check_all + len(range(num_check_all, num_steps, c.subsample_config.skip_length))
+            if c.subsample_config.subsample_constraints_num_least is not None:
+                num_rows = min(num_rows, c.subsample_config.subsample_constraints_num_least)
+            num_rows += int(c.subsample_config.keep_first) + int(c.subsample_config.keep_last)
+            self.constraint_names += [k] * num_rows
         self.constraint_names += list(self.direct_inequality_constraints.keys())
 
         return ineq_weight, ineq_constant
-- 
2.43.0


From 583f0c7cd2571e76c5e918fa02089ab46b212163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:39 +0000
Subject: [PATCH 16/27] fix: discrete ASIF supports element specific control
 bounds

---
 run_time_assurance/rta/asif.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index c4286d6..897847b 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -990,7 +990,10 @@ class DiscreteASIFModule(BaseOptimizationModule):
     def __init__(self, *args: Any, **kwargs: Any):
         super().__init__(*args, **kwargs)
 
-        self.opt_bounds = [(self.control_bounds_low, self.control_bounds_high)] * self.control_dim + [(-np.inf, np.inf)] * self.num_slack
+        low = -np.inf if self.control_bounds_low is None else self.control_bounds_low
+        high = np.inf if self.control_bounds_high is None else self.control_bounds_high
+        self.opt_bounds = list(zip(np.broadcast_to(low, self.control_dim), np.broadcast_to(high, self.control_dim)))
+        self.opt_bounds += [(-np.inf, np.inf)] * self.num_slack
         self.scipy_constraints = []
         self.discrete_constraints = OrderedDict()
         slack_counter = 0
-- 
2.43.0


From 378df8f724063f9421c7d887e3deecd28695ef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:39 +0000
Subject: [PATCH 17/27] fix: discrete ASIF integrator uses a differentiable ODE
 solver

---
 run_time_assurance/rta/asif.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 897847b..a3ca12f 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -15,6 +15,7 @@ import jax.numpy as jnp
 import numpy as np
 import quadprog
 from jax import jacfwd, jit, lax, vmap
+from jax.experimental.ode import odeint
 from safe_autonomy_simulation.dynamics import ControlAffineODEDynamics, ODEDynamics
 from scipy.optimize import minimize
 
@@ -1131,3 +1132,10 @@ class DifferentiableODESolver(ODEDynamics):
 
     def _compute_state_dot(self, t, state, control):
         return self.state_dot_fn(t, state, control)
+
+    def step(self, step_size, state, control):
+        sol = odeint(
+            lambda x, t, u: self.state_dot_fn(t, x, u), state, jnp.array([0., step_size]), control, rtol=1e-6, atol=1e-6
+        )
+        next_state = sol[-1, :]
+        return next_state, self.state_dot_fn(step_size, next_state, control)
-- 
2.43.0


From 501ac48f82fbf9fcdbcb0b586acc1bd842f19e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:39 +0000
Subject: [PATCH 18/27] fix: discrete inspection RTA rotates the sun in the
 same direction as the continuous model

---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index fe5532d..3e3db59 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -562,7 +562,7 @@ class DiscreteInspection1v1RTA(DiscreteASIFModule):
             + self.discrete_b_mat(step_size) @ control
         )
         return jnp.concatenate(
-            (next_state, jnp.array([state[6] - self.sun_vel * step_size, 0.0]))
+            (next_state, jnp.array([state[6] + self.sun_vel * step_size, 0.0]))
         )  # TODO: fix fuel derivative
 
     def discrete_a_mat(self, dt):
-- 
2.43.0


From 3b758e3a42ff2f1c2560656321e85f495381ba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:39 +0000
Subject: [PATCH 19/27] fix: delta v limit RTA applies the backup control on
 the step it switches

---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index 3e3db59..e9d2945 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -700,6 +700,7 @@ class SwitchingDeltaVLimitRTA(RTAModule):
         if not self.latched:
             pred_state = self._pred_state(input_state, step_size, control_desired)
             error_integral = self.error_integral
+            out = control_desired
             for _ in range(self.n_steps):
                 ub, error_integral = self.backup_control(
                     pred_state, step_size, error_integral
@@ -712,8 +713,9 @@ class SwitchingDeltaVLimitRTA(RTAModule):
                     self.latched = True
                     self.intervening = True
                     out = ub
-            out = control_desired
+                    break
         else:
+            self.intervening = True
             ub, self.error_integral = self.backup_control(
                 input_state, step_size, self.error_integral
             )
-- 
2.43.0


From fc0615ba7fe12a810094cda394a706a4b5e02951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:39 +0000
Subject: [PATCH 20/27] fix: resetting the delta v limit RTA releases its latch

---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index e9d2945..ede9810 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -686,6 +686,12 @@ class SwitchingDeltaVLimitRTA(RTAModule):
             **kwargs,
         )
 
+    def reset(self):
+        """Resets the rta module to the initial state at the beginning of an episode"""
+        super().reset()
+        self.latched = False
+        self.error_integral = np.zeros(6)
+
     def _pred_state(
         self, state: np.ndarray, step_size: float, control: np.ndarray
     ) -> np.ndarray:
-- 
2.43.0


From 7d52881117af7d936a4200fdb197a9a4ec7eedb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:39 +0000
Subject: [PATCH 21/27] fix: backup window covers every step when it is a
 multiple of the step size up to rounding

---
 run_time_assurance/rta/asif.py    | 2 +-
 run_time_assurance/rta/simplex.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index a3ca12f..3420bbc 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -596,7 +596,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         jnp.ndarray
             vector b of quadprog inequality constraint C.T x >= b
         """
-        num_steps = int(self.backup_window / step_size) + 1
+        num_steps = int(round(self.backup_window / step_size, 6)) + 1
         traj_states, traj_sensitivities = self._integrate_fn(state, step_size, num_steps)
         ineq_weight, ineq_constant = self._generate_ineq_constraint_mats_fn(
             state, num_steps, traj_states, traj_sensitivities, params, constraint_enabled_dict
diff --git a/run_time_assurance/rta/simplex.py b/run_time_assurance/rta/simplex.py
index 63ad3d8..52f8cd5 100644
--- a/run_time_assurance/rta/simplex.py
+++ b/run_time_assurance/rta/simplex.py
@@ -297,7 +297,7 @@ class ImplicitSimplexModule(SimplexModule):
             jax array of implict backup trajectory states.
             Shape (M, N) where M is number of states and N is the dimension of the state vector
         """
-        Nsteps = int(self.backup_window / step_size)
+        Nsteps = int(round(self.backup_window / step_size, 6))
         state = self._pred_state_fn(state, step_size, desired_control)
         traj_states = [state]
 
-- 
2.43.0


From a60162dfa8cb6d066a502b9208ced36d29b243eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:39 +0000
Subject: [PATCH 22/27] fix: simplex monitor predicts with the control that
 will actually be applied

---
 run_time_assurance/rta/simplex.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/run_time_assurance/rta/simplex.py b/run_time_assurance/rta/simplex.py
index 52f8cd5..538e555 100644
--- a/run_time_assurance/rta/simplex.py
+++ b/run_time_assurance/rta/simplex.py
@@ -71,6 +71,7 @@ class SimplexModule(BackupControlBasedRTA):
         If latched, returns backup control.
         Otherwise returns backup control if monitor returns True
         """
+        control = self._clip_control_jax(control)
         latched = False
         if self.intervening:
             if self.latched_elapsed >= self.latch_time:
-- 
2.43.0


From 0f07a65da748049ddeb51eb4c72d41934e8a1d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:18 +0000
Subject: [PATCH 23/27] fix: backup controller jacobians leave the controller
 state unchanged

---
 run_time_assurance/controller.py | 2 +-
 run_time_assurance/rta/asif.py   | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/controller.py b/run_time_assurance/controller.py
index 9cf610a..43e8cc4 100644
--- a/run_time_assurance/controller.py
+++ b/run_time_assurance/controller.py
@@ -152,7 +152,7 @@ class RTABackupController(abc.ABC):
         jnp.ndarray
             jacobian matrix
         """
-        return self._jacobian(state, step_size, self.controller_state)[0]
+        return self._jacobian(state, step_size, self._copy_controller_state(self.controller_state))[0]
 
     def save(self):
         """Save the internal state of the backup controller
diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 3420bbc..8761f8b 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -567,7 +567,9 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         self, state: jnp.ndarray, step_size: float, controller_state: Union[jnp.ndarray, Dict[str, jnp.ndarray]] = None
     ):
         return self.state_transition_system(state) + self.state_transition_input(state) @ (
-            self.backup_controller.generate_control_with_controller_state(state, step_size, controller_state)[0]
+            self.backup_controller.generate_control_with_controller_state(
+                state, step_size, self.backup_controller._copy_controller_state(controller_state)
+            )[0]
         )
 
     def _generate_barrier_constraint_mats(self, state: jnp.ndarray, step_size: float, params: dict,
-- 
2.43.0


From e43183e9c76a108fa0f9fe1f00d32215f39a2506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:30 +0000
Subject: [PATCH 24/27] fix: discrete CWH transition matrices avoid
 single-precision cancellation

---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index ede9810..e876cf7 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -569,40 +569,41 @@ class DiscreteInspection1v1RTA(DiscreteASIFModule):
         """Discrete CWH dynamics"""
         c = jnp.cos(self.n * dt)
         s = jnp.sin(self.n * dt)
+        one_minus_c = 2 * jnp.sin(self.n * dt / 2) ** 2  # 1 - c without cancellation
         return jnp.array(
             [
-                [4 - 3 * c, 0, 0, 1 / self.n * s, 2 / self.n * (1 - c), 0],
+                [4 - 3 * c, 0, 0, 1 / self.n * s, 2 / self.n * one_minus_c, 0],
                 [
                     6 * (s - self.n * dt),
                     1,
                     0,
-                    -2 / self.n * (1 - c),
+                    -2 / self.n * one_minus_c,
                     1 / self.n * (4 * s - 3 * self.n * dt),
                     0,
                 ],
                 [0, 0, c, 0, 0, 1 / self.n * s],
                 [3 * self.n * s, 0, 0, c, 2 * s, 0],
-                [-6 * self.n * (1 - c), 0, 0, -2 * s, 4 * c - 3, 0],
+                [-6 * self.n * one_minus_c, 0, 0, -2 * s, 4 * c - 3, 0],
                 [0, 0, -self.n * s, 0, 0, c],
             ]
         )
 
     def discrete_b_mat(self, dt):
         """Discrete CWH dynamics"""
-        c = jnp.cos(self.n * dt)
         s = jnp.sin(self.n * dt)
+        one_minus_c = 2 * jnp.sin(self.n * dt / 2) ** 2  # 1 - cos(n * dt) without cancellation
         return (
             jnp.array(
                 [
-                    [1 / self.n**2 * (1 - c), 2 / self.n**2 * (self.n * dt - s), 0],
+                    [1 / self.n**2 * one_minus_c, 2 / self.n**2 * (self.n * dt - s), 0],
                     [
                         -2 / self.n**2 * (self.n * dt - s),
-                        4 / self.n**2 * (1 - c) - 3 / 2 * dt**2,
+                        4 / self.n**2 * one_minus_c - 3 / 2 * dt**2,
                         0,
                     ],
-                    [0, 0, 1 / self.n**2 * (1 - c)],
-                    [1 / self.n * s, 2 / self.n * (1 - c), 0],
-                    [-2 / self.n * (1 - c), 4 / self.n * s - 3 * dt, 0],
+                    [0, 0, 1 / self.n**2 * one_minus_c],
+                    [1 / self.n * s, 2 / self.n * one_minus_c, 0],
+                    [-2 / self.n * one_minus_c, 4 / self.n * s - 3 * dt, 0],
                     [0, 0, 1 / self.n * s],
                 ]
             )
-- 
2.43.0


From 6fc1d1cd58967c54685698408f0158f74bcb5a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:26 +0000
Subject: [PATCH 25/27] fix: combined inspection filter builds its own deputy
 filter for its number of deputies

---
 run_time_assurance/zoo/cwh/inspection_3d.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index bb59d97..3cc2c24 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -483,7 +483,7 @@ class CombinedInspectionRTA(RTAModule):
     num_deputies : int, optional
         number of deputies in simulation, by default NUM_DEPUTIES_DEFAULT
     deputy_rta: RTAModule, optional
-        RTA used by each individual deputy
+        RTA used by each individual deputy, by default InspectionRTA(num_deputies=num_deputies)
     control_bounds_high : float, optional
         upper bound of allowable control. Pass a list for element specific limit. By default U_MAX_DEFAULT
     control_bounds_low : float, optional
@@ -494,12 +494,14 @@ class CombinedInspectionRTA(RTAModule):
         self,
         *args: Any,
         num_deputies: int = NUM_DEPUTIES_DEFAULT,
-        deputy_rta: RTAModule = InspectionRTA(),
+        deputy_rta: RTAModule = None,
         control_bounds_high: Union[float, int, list, np.ndarray] = U_MAX_DEFAULT,
         control_bounds_low: Union[float, int, list, np.ndarray] = -U_MAX_DEFAULT,
         **kwargs: Any,
     ):
         self.num_deputies = num_deputies
+        if deputy_rta is None:
+            deputy_rta = InspectionRTA(num_deputies=num_deputies)
         self.deputy_rta = deputy_rta
         super().__init__(
             *args,
-- 
2.43.0


From 943f64a87ef120d98e10489aaedd8e598e1c05e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:36 +0000
Subject: [PATCH 26/27] fix: discrete inspection prediction accumulates delta-v

---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index e876cf7..8621f8c 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -561,9 +561,9 @@ class DiscreteInspection1v1RTA(DiscreteASIFModule):
             self.discrete_a_mat(step_size) @ state[0:6]
             + self.discrete_b_mat(step_size) @ control
         )
-        return jnp.concatenate(
-            (next_state, jnp.array([state[6] + self.sun_vel * step_size, 0.0]))
-        )  # TODO: fix fuel derivative
+        sun_angle = state[6] + self.sun_vel * step_size
+        delta_v = state[7] + jnp.sum(jnp.abs(control)) / self.m * step_size
+        return jnp.concatenate((next_state, jnp.array([sun_angle, delta_v])))
 
     def discrete_a_mat(self, dt):
         """Discrete CWH dynamics"""
-- 
2.43.0


From 651e4a0036141e3ee8be6754020764db48f22c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:05 +0000
Subject: [PATCH 27/27] fix: conic keep-out constraint is finite and accurate
 on and near the cone axis

---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index 8621f8c..48dc5d6 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -867,24 +867,25 @@ class ConstraintCWHConicKeepOutZone(ConstraintModule):
         theta = params["fov"] / 2
 
         pos_cone = pos - jnp.dot(pos, cone_unit_vec) * cone_unit_vec
+        # remove the rounding error along the axis, which dominates near it
+        pos_cone = pos_cone - jnp.dot(pos_cone, cone_unit_vec) * cone_unit_vec
+        # distance from the cone axis, differentiable on the axis itself
+        on_axis = jnp.all(pos_cone == 0)
+        dist_axis = jnp.linalg.norm(jnp.where(on_axis, cone_unit_vec, pos_cone))
         mult = jnp.cos(theta) * (
-            jnp.linalg.norm(pos_cone) - jnp.tan(theta) * jnp.dot(pos, cone_unit_vec)
+            jnp.where(on_axis, 0.0, dist_axis)
+            - jnp.tan(theta) * jnp.dot(pos, cone_unit_vec)
         )
         proj = (
             pos
             + mult * jnp.sin(theta) * cone_unit_vec
-            + mult
-            * jnp.cos(theta)
-            * (jnp.dot(pos, cone_unit_vec) * cone_unit_vec - pos)
-            / jnp.linalg.norm(pos_cone)
+            - mult * jnp.cos(theta) * pos_cone / dist_axis
         )
         vel_proj = jnp.cross(cone_ang_vel, proj)
 
         delta_p = pos - proj
         delta_v = vel - vel_proj
-        mag_delta_p = jnp.linalg.norm(pos) * jnp.sin(
-            jnp.arccos(jnp.dot(cone_unit_vec, pos / jnp.linalg.norm(pos))) - theta
-        )
+        mag_delta_p = mult  # signed distance to the cone surface
 
         h = lax.cond(
             mag_delta_p >= 0,
@@ -902,7 +903,7 @@ class ConstraintCWHConicKeepOutZone(ConstraintModule):
         cone_vec = self.get_cone_vec(state)
         p_hat = pos / jnp.linalg.norm(pos)
         c_hat = cone_vec / jnp.linalg.norm(cone_vec)
-        h = jnp.arccos(jnp.dot(p_hat, c_hat)) - params["fov"] / 2
+        h = jnp.arccos(jnp.clip(jnp.dot(p_hat, c_hat), -1, 1)) - params["fov"] / 2
         return h
 
     def positive_distance_constraint(self, delta_p, delta_v, mag_delta_p, a_max):
-- 
2.43.0

