From 3036c76fd0cc333ca37dc197947ef358d33007f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:33 +0000
Subject: [PATCH 01/24] fix: pass constraint params when sample testing
 evaluates constraints

SafetyAssuranceSampleTestingModule._simulate_episode called constraints without
params and always raised TypeError.
---
 run_time_assurance/utils/sample_testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/utils/sample_testing.py b/run_time_assurance/utils/sample_testing.py
index ef401b1..a51929b 100644
--- a/run_time_assurance/utils/sample_testing.py
+++ b/run_time_assurance/utils/sample_testing.py
@@ -276,7 +276,7 @@ class SafetyAssuranceSampleTestingModule(BaseSampleTestingModule):
         """
 
         for c in self.rta.constraints.values():
-            if c.phi(to_jnp_array_jit(state)) < 0 or c(to_jnp_array_jit(state)) < 0:
+            if c.phi(to_jnp_array_jit(state), c.params) < 0 or c(to_jnp_array_jit(state), c.params) < 0:
                 return None
 
         done = False
@@ -293,7 +293,7 @@ class SafetyAssuranceSampleTestingModule(BaseSampleTestingModule):
             done = self._check_done_conditions(state, current_time)
 
             for c in self.rta.constraints.values():
-                if c.phi(to_jnp_array_jit(state)) < 0:
+                if c.phi(to_jnp_array_jit(state), c.params) < 0:
                     return False
 
         return True
-- 
2.43.0


From 8d275104599171b715f8381bcb69bd4cbfaf5ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:33 +0000
Subject: [PATCH 02/24] fix: reset the simplex latch timer at the beginning of
 an episode

---
 run_time_assurance/rta/simplex.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/run_time_assurance/rta/simplex.py b/run_time_assurance/rta/simplex.py
index 9a182e5..702febf 100644
--- a/run_time_assurance/rta/simplex.py
+++ b/run_time_assurance/rta/simplex.py
@@ -37,6 +37,7 @@ class SimplexModule(BackupControlBasedRTA):
         Also calls reset on the backup controller
         """
         super().reset()
+        self.latched_elapsed = 0.
         self.reset_backup_controller()
 
     def compose(self):
-- 
2.43.0


From d9b2dc0cb0d43b9d5e032de97d4ebd1fad1f0797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:33 +0000
Subject: [PATCH 03/24] fix: CascadedRTA.reset resets the RTA modules it
 cascades

---
 run_time_assurance/rta/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/run_time_assurance/rta/base.py b/run_time_assurance/rta/base.py
index 684412d..bef4a9e 100644
--- a/run_time_assurance/rta/base.py
+++ b/run_time_assurance/rta/base.py
@@ -364,6 +364,13 @@ class CascadedRTA(RTAModule):
         self.rta_list = self._setup_rta_list()
         super().__init__(*args, **kwargs)
 
+    def reset(self):
+        """Resets the rta module and each cascaded rta to the initial state at the beginning of an episode
+        """
+        super().reset()
+        for rta in self.rta_list:
+            rta.reset()
+
     def compute_filtered_control(self, input_state: Any, step_size: float, control_desired: np.ndarray) -> np.ndarray:
         self.intervening = False
         control = control_desired
-- 
2.43.0


From 9380e65de9a24ffeb7dd1b99d0e9ac9e7c3bca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:33 +0000
Subject: [PATCH 04/24] fix: do not jit implicit ASIF integration by default

The dynamics step returns numpy arrays and cannot be traced, so every implicit ASIF
module raised TracerArrayConversionError in its default configuration. The defaults
now match the docstring (pred_state and integrate default False).
---
 run_time_assurance/rta/asif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index d5b6ee6..710295f 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -517,7 +517,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         else:
             self._generate_ineq_constraint_mats_fn = self._generate_ineq_constraint_mats
 
-        default_int = True
+        default_int = False
 
         if self.jit_enable and self.jit_compile_dict.get('pred_state', default_int):
             self._pred_state_fn = jit(self._pred_state, static_argnames=['step_size'])
-- 
2.43.0


From 80d4a6fe929609510a0b87fb23027ede09817c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:33 +0000
Subject: [PATCH 05/24] fix: size implicit ASIF subsampling for slack variables

Any slack constraint in an implicit ASIF module raised a shape error.
---
 run_time_assurance/rta/asif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 710295f..0146e0e 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -720,7 +720,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         jnp.ndarray
             vector b of quadprog inequality constraint C.T x >= b
         """
-        new_ineq_weight_barrier = jnp.empty((0, self.control_dim))
+        new_ineq_weight_barrier = jnp.empty((0, self.control_dim + self.num_slack))
         new_ineq_constant_barrier = jnp.empty(0)
 
         for i, c in enumerate(self.constraints.values()):
-- 
2.43.0


From cf1f83d4eacfdf94f676cbc1401e79c7d1376840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:33 +0000
Subject: [PATCH 06/24] fix: implicit ASIF subsampling dropped the point after
 num_check_all

With num_check_all >= 0 trajectory point num_check_all was never checked, even with
skip_length 1 (documented as no skipping).
---
 run_time_assurance/rta/asif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 0146e0e..0df4b91 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -733,7 +733,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
             check_points = jnp.hstack(
                 (
                     jnp.array(range(0, c.subsample_config.num_check_all)),
-                    jnp.array(range(c.subsample_config.num_check_all + 1, num_steps, c.subsample_config.skip_length))
+                    jnp.array(range(max(c.subsample_config.num_check_all, 0), num_steps, c.subsample_config.skip_length))
                 )
             ).astype(int)
             tmp_ineq_weight_barrier = tmp_ineq_weight_barrier[check_points, :]
-- 
2.43.0


From 7420f3d7e34de497a5d61d157b0c4a51f7b140b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:18 +0000
Subject: [PATCH 07/24] fix: name implicit ASIF barrier constraints after
 subsampling

Names assumed num_steps rows per constraint, so with subsampling
constraints_causing_intervention named the wrong constraints, and with
keep_first/keep_last it could raise IndexError.
---
 run_time_assurance/rta/asif.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 0df4b91..a80492a 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -602,8 +602,8 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         if self.control_bounds_high is not None:
             idx += self.control_dim
         self.constraint_names = self.constraint_names[0:idx]
-        for k in self.constraints.keys():
-            self.constraint_names += [k] * num_steps
+        for k, c in self.constraints.items():
+            self.constraint_names += [k] * self._num_subsampled_points(c, num_steps)
         self.constraint_names += list(self.direct_inequality_constraints.keys())
 
         return ineq_weight, ineq_constant
@@ -699,6 +699,14 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         """Return zeros when constraint is disabled"""
         return jnp.zeros(point_ineq_weight.shape), jnp.zeros(point_ineq_constant.shape)
 
+    def _num_subsampled_points(self, constraint: ConstraintModule, num_steps: int) -> int:
+        """Number of barrier constraints that subsample_constraints keeps for a constraint"""
+        config = constraint.subsample_config
+        num_points = len(range(config.num_check_all)) + len(range(max(config.num_check_all, 0), num_steps, config.skip_length))
+        if config.subsample_constraints_num_least is not None:
+            num_points = min(num_points, config.subsample_constraints_num_least)
+        return num_points + int(config.keep_first) + int(config.keep_last)
+
     def subsample_constraints(self, ineq_weight_barrier, ineq_constant_barrier, constraint_vals, num_steps):
         """Subsample constraints individually based on the constraint's subsample_config attribute
 
-- 
2.43.0


From 9c98f8711f7b3bac11e1dbcb9321f7fa874b13c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:18 +0000
Subject: [PATCH 08/24] fix: support element specific control bounds in
 discrete ASIF

Array bounds were repeated whole for every control element and rejected by the solver.
---
 run_time_assurance/rta/asif.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index a80492a..327a1e1 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -986,7 +986,11 @@ class DiscreteASIFModule(BaseOptimizationModule):
     def __init__(self, *args: Any, **kwargs: Any):
         super().__init__(*args, **kwargs)
 
-        self.opt_bounds = [(self.control_bounds_low, self.control_bounds_high)] * self.control_dim + [(-np.inf, np.inf)] * self.num_slack
+        bounds_low = -np.inf if self.control_bounds_low is None else self.control_bounds_low
+        bounds_high = np.inf if self.control_bounds_high is None else self.control_bounds_high
+        self.opt_bounds = list(
+            zip(np.broadcast_to(bounds_low, (self.control_dim, )), np.broadcast_to(bounds_high, (self.control_dim, )))
+        ) + [(-np.inf, np.inf)] * self.num_slack
         self.scipy_constraints = []
         self.discrete_constraints = OrderedDict()
         slack_counter = 0
-- 
2.43.0


From 08704ceefdc4dfe6d54bc512bc3eabd3a899291c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:18 +0000
Subject: [PATCH 09/24] fix: integrate DiscreteASIFIntegratorModule with a
 differentiable ODE solver

The simulation dynamics step cannot be traced by jax, so every call raised
TracerArrayConversionError.
---
 run_time_assurance/rta/asif.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 327a1e1..528d75d 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -15,6 +15,7 @@ import jax.numpy as jnp
 import numpy as np
 import quadprog
 from jax import jacfwd, jit, lax, vmap
+from jax.experimental.ode import odeint
 from safe_autonomy_simulation.dynamics import ControlAffineODEDynamics, ODEDynamics
 from scipy.optimize import minimize
 
@@ -1095,8 +1096,8 @@ class DiscreteASIFIntegratorModule(DiscreteASIFModule):
         jnp.ndarray:
             Next state of the system
         """
-        next_state, _ = self.ode_solver.step(step_size, state, control)
-        return next_state
+        sol = odeint(lambda x, t, u: self.compute_state_dot(t, x, u), state, jnp.array([0., step_size]), control)
+        return sol[-1, :]
 
     @abc.abstractmethod
     def compute_state_dot(self, t: float, state: jnp.ndarray, control: jnp.ndarray) -> jnp.ndarray:
-- 
2.43.0


From 25d055c295b5a1e64588aea6afa1dd02807372f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:18 +0000
Subject: [PATCH 10/24] fix: discrete inspection RTA rotated the sun the wrong
 way

The continuous model and the cone angular velocity both use d(angle)/dt = sun_vel.
---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index eed26f3..ca9cfbf 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -562,7 +562,7 @@ class DiscreteInspection1v1RTA(DiscreteASIFModule):
             + self.discrete_b_mat(step_size) @ control
         )
         return jnp.concatenate(
-            (next_state, jnp.array([state[6] - self.sun_vel * step_size, 0.0]))
+            (next_state, jnp.array([state[6] + self.sun_vel * step_size, 0.0]))
         )  # TODO: fix fuel derivative
 
     def discrete_a_mat(self, dt):
-- 
2.43.0


From 889a1945be8be5583f483b1328d630745251ab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:19 +0000
Subject: [PATCH 11/24] fix: delta v limit RTA applied the desired control on
 the step it latched

The backup control selected when the limit would be exceeded was overwritten by the
desired control, and the error integral was advanced once per predicted violation.
---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index ca9cfbf..dd71ae4 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -698,6 +698,7 @@ class SwitchingDeltaVLimitRTA(RTAModule):
         self, input_state, step_size: float, control_desired: np.ndarray
     ) -> np.ndarray:
         if not self.latched:
+            out = control_desired
             pred_state = self._pred_state(input_state, step_size, control_desired)
             error_integral = self.error_integral
             for _ in range(self.n_steps):
@@ -712,7 +713,7 @@ class SwitchingDeltaVLimitRTA(RTAModule):
                     self.latched = True
                     self.intervening = True
                     out = ub
-            out = control_desired
+                    break
         else:
             ub, self.error_integral = self.backup_control(
                 input_state, step_size, self.error_integral
-- 
2.43.0


From 9a8f9109e49113cd782bc94f455d3efe7e19176c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:19 +0000
Subject: [PATCH 12/24] fix: SwitchingDeltaVLimitRTA.reset releases the latch
 and clears the error integral

---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index dd71ae4..a4332ba 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -686,6 +686,11 @@ class SwitchingDeltaVLimitRTA(RTAModule):
             **kwargs,
         )
 
+    def reset(self):
+        super().reset()
+        self.latched = False
+        self.error_integral = np.zeros(6)
+
     def _pred_state(
         self, state: np.ndarray, step_size: float, control: np.ndarray
     ) -> np.ndarray:
-- 
2.43.0


From b72c3a472320a4ccd4dfe1e01586b532f74510df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:19 +0000
Subject: [PATCH 13/24] fix: HOCBFConstraint with relative_degree 1 raised
 UnboundLocalError

---
 run_time_assurance/constraint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/constraint.py b/run_time_assurance/constraint.py
index 16e3a27..22f2cc5 100644
--- a/run_time_assurance/constraint.py
+++ b/run_time_assurance/constraint.py
@@ -418,7 +418,7 @@ class HOCBFConstraint(ConstraintModule):
                 constraint=hocbf_constraint_dict["constraint_" + str(i - 1)], state_transition_system=state_transition_system, alpha=alpha
             )
             hocbf_constraint_dict["constraint_" + str(i)] = psi
-        self.final_constraint = psi
+        self.final_constraint = hocbf_constraint_dict["constraint_" + str(relative_degree - 1)]
         super().__init__(alpha=alpha, params=self.final_constraint.params, **kwargs)
 
     def _compute(self, state: jnp.ndarray, params: dict) -> float:
-- 
2.43.0


From 7453c9fde8ed42f9b0dba9190848b104c3f303ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:19 +0000
Subject: [PATCH 14/24] fix: ConstraintPSMDeputy.get_array mapped the wrong
 number of arguments

---
 run_time_assurance/zoo/cwh/inspection_3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index f64e651..81b5c1c 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -465,7 +465,7 @@ class ConstraintPSMDeputy(ConstraintModule):
 
     def get_array(self, state: jnp.ndarray, params: dict) -> float:
         """Gets entire trajectory array"""
-        vmapped_get_future_state = vmap(self.get_future_state, (None, 0), 0)
+        vmapped_get_future_state = vmap(self.get_future_state, (None, 0, None), 0)
         phi_array = vmapped_get_future_state(
             state,
             jnp.linspace(0, self.steps * params["dt"], self.steps + 1),
-- 
2.43.0


From 86cbec47f70726730a342306c1fbe1df56fe5aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:19 +0000
Subject: [PATCH 15/24] fix: CombinedInspectionRTA reports intervening when a
 deputy RTA intervenes

---
 run_time_assurance/zoo/cwh/inspection_3d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index 81b5c1c..5631b04 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -512,12 +512,15 @@ class CombinedInspectionRTA(RTAModule):
         self, input_state: Any, step_size: float, control_desired: np.ndarray
     ) -> np.ndarray:
         u_act = np.zeros(self.num_deputies * 3)
+        self.intervening = False
         for i in range(self.num_deputies):
             u_des = control_desired[3 * i : 3 * i + 3]
             x_new = self.get_agent_state(input_state, i)
             u_act[3 * i : 3 * i + 3] = self.deputy_rta.filter_control(
                 x_new, step_size, u_des
             )
+            if self.deputy_rta.intervening:
+                self.intervening = True
         return u_act
 
     def get_agent_state(self, state, i):
-- 
2.43.0


From 8e0a88e34816f80f54b0631a71864c7e120f6228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:19 +0000
Subject: [PATCH 16/24] fix: build the default deputy RTA for the configured
 number of deputies

The default was one InspectionRTA for five deputies, shared by every instance.
---
 run_time_assurance/zoo/cwh/inspection_3d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index 5631b04..0101fe3 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -494,12 +494,14 @@ class CombinedInspectionRTA(RTAModule):
         self,
         *args: Any,
         num_deputies: int = NUM_DEPUTIES_DEFAULT,
-        deputy_rta: RTAModule = InspectionRTA(),
+        deputy_rta: RTAModule = None,
         control_bounds_high: Union[float, int, list, np.ndarray] = U_MAX_DEFAULT,
         control_bounds_low: Union[float, int, list, np.ndarray] = -U_MAX_DEFAULT,
         **kwargs: Any,
     ):
         self.num_deputies = num_deputies
+        if deputy_rta is None:
+            deputy_rta = InspectionRTA(num_deputies=num_deputies)
         self.deputy_rta = deputy_rta
         super().__init__(
             *args,
-- 
2.43.0


From 776ee4fcefcdd60dbccf5f9f249a5373aa4c153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:19 +0000
Subject: [PATCH 17/24] fix: CombinedInspectionRTA.reset resets the deputy RTA

---
 run_time_assurance/zoo/cwh/inspection_3d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index 0101fe3..376f3fa 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -510,6 +510,10 @@ class CombinedInspectionRTA(RTAModule):
             **kwargs,
         )
 
+    def reset(self):
+        super().reset()
+        self.deputy_rta.reset()
+
     def compute_filtered_control(
         self, input_state: Any, step_size: float, control_desired: np.ndarray
     ) -> np.ndarray:
-- 
2.43.0


From 408c45ae54bc4f278b2451edc36764088eafcbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:19 +0000
Subject: [PATCH 18/24] fix: a disabled RTA module is not intervening

---
 run_time_assurance/rta/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/run_time_assurance/rta/base.py b/run_time_assurance/rta/base.py
index bef4a9e..1acb635 100644
--- a/run_time_assurance/rta/base.py
+++ b/run_time_assurance/rta/base.py
@@ -80,6 +80,7 @@ class RTAModule(abc.ABC):
             control_actual = self._clip_control(self.compute_filtered_control(input_state, step_size, control_desired))
             self.control_actual = np.array(control_actual)
         else:
+            self.intervening = False
             self.control_actual = np.copy(control_desired)
 
         return np.copy(self.control_actual)
-- 
2.43.0


From 48ca35a73c2ea5591de7f44b80ca6bcb2a84fd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:19 +0000
Subject: [PATCH 19/24] fix: start every simplex latch from zero elapsed time

A latch interrupted by disabling the module shortened the next one.
---
 run_time_assurance/rta/simplex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/run_time_assurance/rta/simplex.py b/run_time_assurance/rta/simplex.py
index 702febf..08bc6f0 100644
--- a/run_time_assurance/rta/simplex.py
+++ b/run_time_assurance/rta/simplex.py
@@ -79,6 +79,8 @@ class SimplexModule(BackupControlBasedRTA):
             else:
                 self.latched_elapsed += step_size
                 latched = True
+        else:
+            self.latched_elapsed = 0.
 
         if latched:
             control = self.backup_control(state, step_size)
-- 
2.43.0


From efbf157b4e3cc293e0950bd1eae689772ddd2d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:19 +0000
Subject: [PATCH 20/24] fix: RTA state setters update immutable jax arrays

Item assignment on a jax array raises TypeError, so no zoo state setter worked.
---
 run_time_assurance/zoo/cwh/docking_2d.py         |  8 ++++----
 run_time_assurance/zoo/cwh/docking_3d.py         | 12 ++++++------
 run_time_assurance/zoo/cwh/inspection_1v1.py     | 16 ++++++++--------
 .../zoo/integrators/integrator_1d.py             |  4 ++--
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/run_time_assurance/zoo/cwh/docking_2d.py b/run_time_assurance/zoo/cwh/docking_2d.py
index e98261d..2eb55fc 100644
--- a/run_time_assurance/zoo/cwh/docking_2d.py
+++ b/run_time_assurance/zoo/cwh/docking_2d.py
@@ -46,7 +46,7 @@ class Docking2dState(RTAStateWrapper):
     @x.setter
     def x(self, val: float):
         """Setter for x position"""
-        self.vector[0] = val
+        self.vector = self.vector.at[0].set(val)
 
     @property
     def y(self) -> float:
@@ -56,7 +56,7 @@ class Docking2dState(RTAStateWrapper):
     @y.setter
     def y(self, val: float):
         """Setter for y position"""
-        self.vector[1] = val
+        self.vector = self.vector.at[1].set(val)
 
     @property
     def x_dot(self) -> float:
@@ -66,7 +66,7 @@ class Docking2dState(RTAStateWrapper):
     @x_dot.setter
     def x_dot(self, val: float):
         """Setter for x velocity component"""
-        self.vector[2] = val
+        self.vector = self.vector.at[2].set(val)
 
     @property
     def y_dot(self) -> float:
@@ -76,7 +76,7 @@ class Docking2dState(RTAStateWrapper):
     @y_dot.setter
     def y_dot(self, val: float):
         """Setter for y velocity component"""
-        self.vector[3] = val
+        self.vector = self.vector.at[3].set(val)
 
 
 class Docking2dRTAMixin:
diff --git a/run_time_assurance/zoo/cwh/docking_3d.py b/run_time_assurance/zoo/cwh/docking_3d.py
index 6bf365b..bbfb919 100644
--- a/run_time_assurance/zoo/cwh/docking_3d.py
+++ b/run_time_assurance/zoo/cwh/docking_3d.py
@@ -47,7 +47,7 @@ class Docking3dState(RTAStateWrapper):
     @x.setter
     def x(self, val: float):
         """Setter for x position"""
-        self.vector[0] = val
+        self.vector = self.vector.at[0].set(val)
 
     @property
     def y(self) -> float:
@@ -57,7 +57,7 @@ class Docking3dState(RTAStateWrapper):
     @y.setter
     def y(self, val: float):
         """Setter for y position"""
-        self.vector[1] = val
+        self.vector = self.vector.at[1].set(val)
 
     @property
     def z(self) -> float:
@@ -67,7 +67,7 @@ class Docking3dState(RTAStateWrapper):
     @z.setter
     def z(self, val: float):
         """Setter for z position"""
-        self.vector[2] = val
+        self.vector = self.vector.at[2].set(val)
 
     @property
     def x_dot(self) -> float:
@@ -77,7 +77,7 @@ class Docking3dState(RTAStateWrapper):
     @x_dot.setter
     def x_dot(self, val: float):
         """Setter for x velocity component"""
-        self.vector[3] = val
+        self.vector = self.vector.at[3].set(val)
 
     @property
     def y_dot(self) -> float:
@@ -87,7 +87,7 @@ class Docking3dState(RTAStateWrapper):
     @y_dot.setter
     def y_dot(self, val: float):
         """Setter for y velocity component"""
-        self.vector[4] = val
+        self.vector = self.vector.at[4].set(val)
 
     @property
     def z_dot(self) -> float:
@@ -97,7 +97,7 @@ class Docking3dState(RTAStateWrapper):
     @z_dot.setter
     def z_dot(self, val: float):
         """Setter for z velocity component"""
-        self.vector[5] = val
+        self.vector = self.vector.at[5].set(val)
 
 
 class Docking3dRTAMixin:
diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index a4332ba..5d39767 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -54,7 +54,7 @@ class Inspection3dState(RTAStateWrapper):
     @x.setter
     def x(self, val: float):
         """Setter for x position"""
-        self.vector[0] = val
+        self.vector = self.vector.at[0].set(val)
 
     @property
     def y(self) -> float:
@@ -64,7 +64,7 @@ class Inspection3dState(RTAStateWrapper):
     @y.setter
     def y(self, val: float):
         """Setter for y position"""
-        self.vector[1] = val
+        self.vector = self.vector.at[1].set(val)
 
     @property
     def z(self) -> float:
@@ -74,7 +74,7 @@ class Inspection3dState(RTAStateWrapper):
     @z.setter
     def z(self, val: float):
         """Setter for z position"""
-        self.vector[2] = val
+        self.vector = self.vector.at[2].set(val)
 
     @property
     def x_dot(self) -> float:
@@ -84,7 +84,7 @@ class Inspection3dState(RTAStateWrapper):
     @x_dot.setter
     def x_dot(self, val: float):
         """Setter for x velocity component"""
-        self.vector[3] = val
+        self.vector = self.vector.at[3].set(val)
 
     @property
     def y_dot(self) -> float:
@@ -94,7 +94,7 @@ class Inspection3dState(RTAStateWrapper):
     @y_dot.setter
     def y_dot(self, val: float):
         """Setter for y velocity component"""
-        self.vector[4] = val
+        self.vector = self.vector.at[4].set(val)
 
     @property
     def z_dot(self) -> float:
@@ -104,7 +104,7 @@ class Inspection3dState(RTAStateWrapper):
     @z_dot.setter
     def z_dot(self, val: float):
         """Setter for z velocity component"""
-        self.vector[5] = val
+        self.vector = self.vector.at[5].set(val)
 
     @property
     def sun_angle(self) -> float:
@@ -114,7 +114,7 @@ class Inspection3dState(RTAStateWrapper):
     @sun_angle.setter
     def sun_angle(self, val: float):
         """Setter for sun_angle component"""
-        self.vector[6] = val
+        self.vector = self.vector.at[6].set(val)
 
     @property
     def delta_v(self) -> float:
@@ -124,7 +124,7 @@ class Inspection3dState(RTAStateWrapper):
     @delta_v.setter
     def delta_v(self, val: float):
         """Setter for delta_v component"""
-        self.vector[7] = val
+        self.vector = self.vector.at[7].set(val)
 
 
 class Inspection1v1RTA(ExplicitASIFModule):
diff --git a/run_time_assurance/zoo/integrators/integrator_1d.py b/run_time_assurance/zoo/integrators/integrator_1d.py
index ba7a494..47682cd 100644
--- a/run_time_assurance/zoo/integrators/integrator_1d.py
+++ b/run_time_assurance/zoo/integrators/integrator_1d.py
@@ -36,7 +36,7 @@ class Integrator1dDockingState(RTAStateWrapper):
     @x.setter
     def x(self, val: float):
         """Setter for x position"""
-        self.vector[0] = val
+        self.vector = self.vector.at[0].set(val)
 
     @property
     def x_dot(self) -> float:
@@ -46,7 +46,7 @@ class Integrator1dDockingState(RTAStateWrapper):
     @x_dot.setter
     def x_dot(self, val: float):
         """Setter for x velocity component"""
-        self.vector[1] = val
+        self.vector = self.vector.at[1].set(val)
 
 
 class Integrator1dDockingRTAMixin:
-- 
2.43.0


From 32f59aa2ad0f23be6199041f2cee0ff8c1233245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:35 +0000
Subject: [PATCH 21/24] fix: cover the whole backup window despite float
 rounding

int(0.3 / 0.1) is 2, so the last point of the window was not checked.
---
 run_time_assurance/rta/asif.py    | 2 +-
 run_time_assurance/rta/simplex.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 528d75d..79637f4 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -590,7 +590,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         jnp.ndarray
             vector b of quadprog inequality constraint C.T x >= b
         """
-        num_steps = int(self.backup_window / step_size) + 1
+        num_steps = int(self.backup_window / step_size + 1e-9) + 1
         traj_states, traj_sensitivities = self._integrate_fn(state, step_size, num_steps)
         ineq_weight, ineq_constant = self._generate_ineq_constraint_mats_fn(
             state, num_steps, traj_states, traj_sensitivities, params, constraint_enabled_dict
diff --git a/run_time_assurance/rta/simplex.py b/run_time_assurance/rta/simplex.py
index 08bc6f0..28f6e93 100644
--- a/run_time_assurance/rta/simplex.py
+++ b/run_time_assurance/rta/simplex.py
@@ -298,7 +298,7 @@ class ImplicitSimplexModule(SimplexModule):
             jax array of implict backup trajectory states.
             Shape (M, N) where M is number of states and N is the dimension of the state vector
         """
-        Nsteps = int(self.backup_window / step_size)
+        Nsteps = int(self.backup_window / step_size + 1e-9)
         state = self._pred_state_fn(state, step_size, desired_control)
         traj_states = [state]
 
-- 
2.43.0


From 53cf95259b07441fcef735d5d9a9a4080c7eae85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:35 +0000
Subject: [PATCH 22/24] fix: a latched delta v limit RTA reports intervening
 after being disabled and enabled

---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index 5d39767..02d7926 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -723,6 +723,7 @@ class SwitchingDeltaVLimitRTA(RTAModule):
             ub, self.error_integral = self.backup_control(
                 input_state, step_size, self.error_integral
             )
+            self.intervening = True
             out = ub
         return out
 
-- 
2.43.0


From 68d0e2479305c0265f919cf62d0845e577482c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:44 +0000
Subject: [PATCH 23/24] fix: implicit ASIF constraint names follow the step
 size when the constraint matrices are jit compiled

The names were updated as a side effect of the function that jit_compile_dict
'generate_barrier_constraint_mats' compiles, so calls that hit a cached trace
kept the names of another step size: wrong constraints_causing_intervention or
IndexError.
---
 run_time_assurance/rta/asif.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 79637f4..23b3a1a 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -564,6 +564,24 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
             self.backup_controller.generate_control_with_controller_state(state, step_size, controller_state)[0]
         )
 
+    def _filter_control(self, state: jnp.ndarray, step_size: float, control: jnp.ndarray) -> jnp.ndarray:
+        # Not done while generating the constraint matrices, as that may be jit compiled (side effects happen only when tracing)
+        self._update_constraint_names(step_size)
+        return super()._filter_control(state, step_size, control)
+
+    def _update_constraint_names(self, step_size: float):
+        """Update the names of the inequality constraint matrix rows, which depend on the number of trajectory points"""
+        num_steps = int(self.backup_window / step_size + 1e-9) + 1
+        idx = 0
+        if self.control_bounds_low is not None:
+            idx += self.control_dim
+        if self.control_bounds_high is not None:
+            idx += self.control_dim
+        self.constraint_names = self.constraint_names[0:idx]
+        for k, c in self.constraints.items():
+            self.constraint_names += [k] * self._num_subsampled_points(c, num_steps)
+        self.constraint_names += list(self.direct_inequality_constraints.keys())
+
     def _generate_barrier_constraint_mats(self, state: jnp.ndarray, step_size: float, params: dict,
                                           constraint_enabled_dict: dict) -> tuple[jnp.ndarray, jnp.ndarray]:
         """generates matrices for quadratic program optimization inequality constraint matrices corresponding to safety
@@ -596,17 +614,6 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
             state, num_steps, traj_states, traj_sensitivities, params, constraint_enabled_dict
         )
 
-        # Fix constraint names:
-        idx = 0
-        if self.control_bounds_low is not None:
-            idx += self.control_dim
-        if self.control_bounds_high is not None:
-            idx += self.control_dim
-        self.constraint_names = self.constraint_names[0:idx]
-        for k, c in self.constraints.items():
-            self.constraint_names += [k] * self._num_subsampled_points(c, num_steps)
-        self.constraint_names += list(self.direct_inequality_constraints.keys())
-
         return ineq_weight, ineq_constant
 
     def _generate_ineq_constraint_mats(
-- 
2.43.0


From 26f65edbcbe484fa8c484bc587d710ed8e80aab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:23 +0000
Subject: [PATCH 24/24] fix: implicit ASIF subsampling repeated the last point
 when num_check_all exceeds the trajectory length

Out of range indices are clamped by jax, so copies of the last point displaced other
points from the subsample_constraints_num_least selection.
---
 run_time_assurance/rta/asif.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 23b3a1a..23932c6 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -710,7 +710,8 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
     def _num_subsampled_points(self, constraint: ConstraintModule, num_steps: int) -> int:
         """Number of barrier constraints that subsample_constraints keeps for a constraint"""
         config = constraint.subsample_config
-        num_points = len(range(config.num_check_all)) + len(range(max(config.num_check_all, 0), num_steps, config.skip_length))
+        num_points = len(range(min(config.num_check_all, num_steps)))
+        num_points += len(range(max(config.num_check_all, 0), num_steps, config.skip_length))
         if config.subsample_constraints_num_least is not None:
             num_points = min(num_points, config.subsample_constraints_num_least)
         return num_points + int(config.keep_first) + int(config.keep_last)
@@ -748,7 +749,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
             # Get points to check from num_check_all and skip_length
             check_points = jnp.hstack(
                 (
-                    jnp.array(range(0, c.subsample_config.num_check_all)),
+                    jnp.array(range(0, min(c.subsample_config.num_check_all, num_steps))),
                     jnp.array(range(max(c.subsample_config.num_check_all, 0), num_steps, c.subsample_config.skip_length))
                 )
             ).astype(int)
-- 
2.43.0

