From 09ad2c4c4f5dcbd2ad7f20f19bec7b9ae7d9b999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 01/43] fix: max_as_mixed_integer_constraint with exactly one
 non-maximal index

squeeze() turned a single index into a scalar, so len() raised TypeError.
---
 neural_network_lyapunov/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index da34766..e41bbfb 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -104,7 +104,7 @@ def max_as_mixed_integer_constraint(
     non_maximal_idx = torch.nonzero(
         torch.any(x_up.unsqueeze(1).repeat(1, nx) -
                   x_lo.unsqueeze(1).T.repeat(nx, 1) < 0,
-                  dim=1)).squeeze().tolist()
+                  dim=1)).squeeze(1).tolist()
     if (len(non_maximal_idx) > 0):
         Aeq_binary_non_maximal = torch.zeros((len(non_maximal_idx), nx),
                                              dtype=dtype)
-- 
2.43.0


From 7833b72e856a9d45aeeb635ecedf282267404f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 02/43] fix: l1_gradient returns both signs for an entry within
 zero_tol of zero

With exactly one entry within zero_tol the masks compared sign(x) with the
tolerance, so a nonzero entry produced the same row twice; and an entry at
exactly the tolerance was not counted.
---
 neural_network_lyapunov/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index e41bbfb..84505fb 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -1437,20 +1437,20 @@ def l1_gradient(x: torch.Tensor,
 
     if not torch.any(torch.abs(x) <= zero_tol):
         return torch.sign(x).reshape((1, -1))
-    elif torch.sum(torch.abs(x) < zero_tol) == 1:
+    elif torch.sum(torch.abs(x) <= zero_tol) == 1:
         s = torch.sign(x)
+        near_zero = torch.abs(x) <= zero_tol
         s_plus = s.clone()
-        s_plus[torch.abs(s_plus) <= zero_tol] = 1
+        s_plus[near_zero] = 1
         s_minus = s.clone()
-        s_minus[torch.abs(s_minus) <= zero_tol] = -1
+        s_minus[near_zero] = -1
         if subgradient_samples is None:
             return torch.vstack((s_plus, s_minus))
         else:
             s_list = [s_plus, s_minus]
             for i in range(subgradient_samples.size):
                 s_subgradient = s.clone()
-                s_subgradient[torch.abs(s_subgradient) <=
-                              zero_tol] = subgradient_samples[i]
+                s_subgradient[near_zero] = subgradient_samples[i]
                 s_list.append(s_subgradient)
             return torch.vstack(s_list)
     else:
-- 
2.43.0


From c5fc124e6a072f324b1fc5921c4a80ec0052d30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 03/43] fix: concatenate_mixed_integer_constraints uses the
 second number of binaries for its binary bounds

---
 neural_network_lyapunov/gurobi_torch_mip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 038fc3e..5a1e30c 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -341,7 +341,7 @@ def concatenate_mixed_integer_constraints(
         ret.binary_up = take_minimum(cnstr1.binary_up, cnstr2.binary_up)
     else:
         num_binary1 = cnstr1.num_binary()
-        num_binary2 = cnstr1.num_binary()
+        num_binary2 = cnstr2.num_binary()
         ret.binary_lo = stack_bounds(cnstr1.binary_lo, cnstr2.binary_lo,
                                      num_binary1, num_binary2, False)
         ret.binary_up = stack_bounds(cnstr1.binary_up, cnstr2.binary_up,
-- 
2.43.0


From 3b6e8690f062dab568fa8f71a310d8c9d437d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 04/43] fix: transform_input leaves the tensors it was given
 alone and rejects input bounds

---
 neural_network_lyapunov/gurobi_torch_mip.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 5a1e30c..bd05633 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -118,7 +118,7 @@ class MixedIntegerConstraintsReturn:
             elif isinstance(self.__dict__[item], torch.Tensor):
                 other.__dict__[item] = torch.clone(self.__dict__[item])
             else:
-                assert ("clone(): unknown type.")
+                raise Exception("clone(): unknown type.")
         return other
 
     def transform_input(self, A: torch.Tensor, b: torch.Tensor):
@@ -136,21 +136,22 @@ class MixedIntegerConstraintsReturn:
         Aout_input * A * x + Aout_slack * s + Aout_binary * binary +
             Aout_input * b + Cout.
         """
+        if self.input_lo is not None or self.input_up is not None:
+            raise Exception(
+                "transform_input(): cannot handle non-empty input_lo or " +
+                "input_up")
         if self.Ain_input is not None:
-            self.rhs_in -= self.Ain_input @ b
+            self.rhs_in = self.rhs_in - self.Ain_input @ b
             self.Ain_input = self.Ain_input @ A
         if self.Aeq_input is not None:
-            self.rhs_eq -= self.Aeq_input @ b
+            self.rhs_eq = self.rhs_eq - self.Aeq_input @ b
             self.Aeq_input = self.Aeq_input @ A
         if self.Aout_input is not None:
             if self.Cout is not None:
-                self.Cout += self.Aout_input @ b
+                self.Cout = self.Cout + self.Aout_input @ b
             else:
                 self.Cout = self.Aout_input @ b
             self.Aout_input = self.Aout_input @ A
-        if self.input_lo is not None or self.input_up is not None:
-            assert ("transform_input(): cannot handle non-empty input_lo or " +
-                    "input_up")
 
 
 def concatenate_mixed_integer_constraints(
-- 
2.43.0


From d48586b47178780e047841aa02f4fccbbb2d8dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 05/43] fix: the optimality condition of an MIQP accounts for
 nonsymmetric Q_r and for Q_rzeta

---
 neural_network_lyapunov/gurobi_torch_mip.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index bd05633..f152eab 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -1306,17 +1306,17 @@ class GurobiTorchMIQP(GurobiTorchMIP):
         If we fix the binary variable ζ, and take out the active linear
         constraints as A_act * r = b_act, then the optimal solution and cost of
         the QP can be computed from the KKT condition
-        [2*Qᵣ, A_actᵀ] * [r] = [ -cᵣ ]
-        [ A_act,   0 ]   [λ]   [b_act]
+        [Qᵣ+Qᵣᵀ, A_actᵀ] * [r] = [-cᵣ - Q_rzeta*ζ]
+        [ A_act,     0 ]   [λ]   [     b_act     ]
         where λ is the dual variable. We could compare the pair of primal/dual
         variable (r, λ) as
-        [r] = [2*Qᵣ, A_actᵀ]⁻¹ * [ -cᵣ ]
-        [λ]   [ A_act,   0 ]     [b_act]
+        [r] = [Qᵣ+Qᵣᵀ, A_actᵀ]⁻¹ * [-cᵣ - Q_rzeta*ζ]
+        [λ]   [ A_act,     0 ]     [     b_act     ]
         since the matrix is not invertible (it is psd but not positive
         definite), so we add a small identity matrix to make sure it is
         invertible
-        [r] = [2*Qᵣ + εI, A_actᵀ]⁻¹ * [ -cᵣ ]
-        [λ]   [ A_act,       εI ]     [b_act]
+        [r] = [Qᵣ+Qᵣᵀ + εI, A_actᵀ]⁻¹ * [-cᵣ - Q_rzeta*ζ]
+        [λ]   [ A_act,         εI ]     [     b_act     ]
         We can then compute the optimal cost
         rᵀQᵣr + ζᵀ*Q_zeta*ζ + rᵀ*Q_rzeta*ζ+cᵣᵀr+c_zetaᵀζ + c_constant as a
         function of the MIQP data.
@@ -1331,13 +1331,15 @@ class GurobiTorchMIQP(GurobiTorchMIP):
         M = torch.zeros((len(self.r) + len(b_act), len(self.r) + len(b_act)),
                         dtype=self.dtype)
         M[:len(self.r), :len(self.r)] =\
-            2 * self.Q_r + penalty * torch.eye(len(self.r), dtype=self.dtype)
+            self.Q_r + self.Q_r.T +\
+            penalty * torch.eye(len(self.r), dtype=self.dtype)
         M[:len(self.r), len(self.r):] = A_act.T
         M[len(self.r):, :len(self.r)] = A_act
         M[len(self.r):, len(self.r):] =\
             penalty * torch.eye(len(b_act), dtype=self.dtype)
 
-        primal_dual = torch.inverse(M) @ torch.cat((-self.c_r, b_act), axis=0)
+        primal_dual = torch.inverse(M) @ torch.cat(
+            (-self.c_r - self.Q_rzeta @ zeta_sol, b_act), axis=0)
         r = primal_dual[:len(self.r)]
         return r @ (self.Q_r @ r) + zeta_sol @ (self.Q_zeta @ zeta_sol) +\
             r @ (self.Q_rzeta @ zeta_sol) + self.c_r @ r +\
-- 
2.43.0


From addfb25abbe215a4378ff508989e98e0df9fb820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 06/43] fix: the discrete-time cost-to-go does not change the
 stage cost it was given

---
 neural_network_lyapunov/hybrid_linear_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index d4f63d5..959b185 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -700,7 +700,7 @@ def compute_discrete_time_system_cost_to_go(system,
                 break
         assert (mode is not None)
         cost_steps[i + 1] = instantaneous_cost_fun(x_steps[i + 1])
-        total_cost += cost_steps[i + 1]
+        total_cost = total_cost + cost_steps[i + 1]
         costs_from_start[i + 1] = costs_from_start[i] + cost_steps[i + 1]
     x_steps = torch.stack(x_steps[:terminal_step + 1], axis=1)
     costs = torch.stack([
-- 
2.43.0


From 2ee3e53c6cd9cf51c3051f24bff671fff4ef55b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 07/43] fix: generate_cost_to_go_samples skips discrete-time
 trajectories that leave the domain

---
 neural_network_lyapunov/hybrid_linear_system.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index 959b185..8be8b7e 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -698,7 +698,10 @@ def compute_discrete_time_system_cost_to_go(system,
                 mode = j
                 x_steps[i + 1] = system.A[j] @ x_steps[i] + system.g[j]
                 break
-        assert (mode is not None)
+        if mode is None:
+            raise AutonomousHybridLinearSystem.StepForwardException(
+                "compute_discrete_time_system_cost_to_go(): x is not in any " +
+                "mode.")
         cost_steps[i + 1] = instantaneous_cost_fun(x_steps[i + 1])
         total_cost = total_cost + cost_steps[i + 1]
         costs_from_start[i + 1] = costs_from_start[i] + cost_steps[i + 1]
-- 
2.43.0


From e209b21b8220cecb80f52dd2b3628d9c1c7a3020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 08/43] fix: partition_state_input_space keeps the precision of
 the given box

---
 neural_network_lyapunov/hybrid_linear_system.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index 8be8b7e..c8414f0 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -912,14 +912,14 @@ def partition_state_input_space(x_lo, x_up, u_lo, u_up, num_breaks_x,
     states_u_up = torch.Tensor(0, u_dim).type(dtype)
     for k in range(indices_cart_product.shape[0]):
         indices = indices_cart_product[k, :]
-        sample = torch.Tensor([
+        sample = torch.tensor([
             grid_samples[i][indices[i]] for i in range(x_dim + u_dim)
-        ]).type(dtype)
+        ], dtype=dtype)
         x_sample = sample[:x_dim]
         u_sample = sample[x_dim:x_dim + u_dim]
-        sample_limits = torch.Tensor([
+        sample_limits = torch.tensor([
             grid_limits[i][indices[i]] for i in range(x_dim + u_dim)
-        ]).type(dtype)
+        ], dtype=dtype)
         sample_lo = sample_limits[:, 0]
         sample_up = sample_limits[:, 1]
         x_sample_lo = sample_lo[:x_dim] - x_delta_scaled
-- 
2.43.0


From d7b59fb0523d3ff49c96388b4e3fc7ca076f9797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:40 +0000
Subject: [PATCH 09/43] fix: example network plants accept the arguments the
 closed loop passes to add_dynamics_constraint

---
 neural_network_lyapunov/examples/car/acceleration_car.py | 3 ++-
 neural_network_lyapunov/examples/car/unicycle.py         | 9 ++++++---
 .../examples/pole/pole_relu_system.py                    | 3 ++-
 .../examples/quadrotor3d/quadrotor.py                    | 3 ++-
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/neural_network_lyapunov/examples/car/acceleration_car.py b/neural_network_lyapunov/examples/car/acceleration_car.py
index 0e3fd64..444a9ba 100644
--- a/neural_network_lyapunov/examples/car/acceleration_car.py
+++ b/neural_network_lyapunov/examples/car/acceleration_car.py
@@ -159,7 +159,8 @@ class AccelerationCarReLUModel:
                                 binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
                                 additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY):
+                                binary_var_type=gurobipy.GRB.BINARY,
+                                u_input_prog=None):
         """
         Add the dynamic constraints a mixed-integer linear constraints. Refer
         to relu_system.py for the common API.
diff --git a/neural_network_lyapunov/examples/car/unicycle.py b/neural_network_lyapunov/examples/car/unicycle.py
index 65ebf9d..50654b2 100644
--- a/neural_network_lyapunov/examples/car/unicycle.py
+++ b/neural_network_lyapunov/examples/car/unicycle.py
@@ -198,7 +198,9 @@ class UnicycleReLUModel:
                                 slack_var_name,
                                 binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
-                                additional_u_up: torch.Tensor = None):
+                                additional_u_up: torch.Tensor = None,
+                                binary_var_type=gurobipy.GRB.BINARY,
+                                u_input_prog=None):
         """
         Add the dynamic constraints a mixed-integer linear constraints. Refer
         to relu_system.py for the common API.
@@ -238,7 +240,7 @@ class UnicycleReLUModel:
             mip.add_mixed_integer_linear_constraints(
                 mip_cnstr_result, input_vars, None, slack_var_name,
                 binary_var_name, "unicycle_forward_dynamics_ineq",
-                "unicycle_forward_dyamics_eq", None)
+                "unicycle_forward_dyamics_eq", None, binary_var_type)
         # Now add the constraint on the output of the network, that
         # [delta_pos_x, delta_pos_y] =
         # ϕ(θ[n], vel[n], θ_dot[n])−ϕ(0, 0, 0)
@@ -367,7 +369,8 @@ class UnicycleReLUZeroVelModel(UnicycleReLUModel):
                                 binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
                                 additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY):
+                                binary_var_type=gurobipy.GRB.BINARY,
+                                u_input_prog=None):
         """
         Add the dynamic constraints a mixed-integer linear constraints. Refer
         to relu_system.py for the common API.
diff --git a/neural_network_lyapunov/examples/pole/pole_relu_system.py b/neural_network_lyapunov/examples/pole/pole_relu_system.py
index ca642b9..5a6ab20 100644
--- a/neural_network_lyapunov/examples/pole/pole_relu_system.py
+++ b/neural_network_lyapunov/examples/pole/pole_relu_system.py
@@ -95,7 +95,8 @@ class PoleReluSystem:
                                 forward_binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
                                 additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY):
+                                binary_var_type=gurobipy.GRB.BINARY,
+                                u_input_prog=None):
         u_lo = self.u_lo if additional_u_lo is None else torch.max(
             self.u_lo, additional_u_lo)
         u_up = self.u_up if additional_u_up is None else torch.min(
diff --git a/neural_network_lyapunov/examples/quadrotor3d/quadrotor.py b/neural_network_lyapunov/examples/quadrotor3d/quadrotor.py
index d891e17..de39894 100644
--- a/neural_network_lyapunov/examples/quadrotor3d/quadrotor.py
+++ b/neural_network_lyapunov/examples/quadrotor3d/quadrotor.py
@@ -301,7 +301,8 @@ class QuadrotorWithPixhawkReLUSystem:
                                 binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
                                 additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY):
+                                binary_var_type=gurobipy.GRB.BINARY,
+                                u_input_prog=None):
         """
         Add the dynamic constraint
         pos[n+1] = pos[n] + (v[n] + v[n+1]) * dt / 2
-- 
2.43.0


From 5d7204582ad26380750fea01b60269412873c3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:40 +0000
Subject: [PATCH 10/43] fix: the zero-velocity unicycle returns the record of
 its dynamics constraint

---
 neural_network_lyapunov/examples/car/unicycle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/examples/car/unicycle.py b/neural_network_lyapunov/examples/car/unicycle.py
index 50654b2..1f339ca 100644
--- a/neural_network_lyapunov/examples/car/unicycle.py
+++ b/neural_network_lyapunov/examples/car/unicycle.py
@@ -461,7 +461,10 @@ class UnicycleReLUZeroVelModel(UnicycleReLUModel):
                        sense=gurobipy.GRB.EQUAL,
                        rhs=0.,
                        name="unicycle_theta_dynamics")
-        return forward_slack, forward_binary
+        ret = relu_system.ReLUDynamicsConstraintReturn(
+            forward_slack, forward_binary)
+        ret.from_mip_cnstr_return(mip_cnstr_result, input_vars)
+        return ret
 
 
 class UnicycleVisualizer:
-- 
2.43.0


From 391011e085bd8176d49c25ca1e509513280186c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 11/43] fix: second-order actuation with input terms has as
 many columns as the state

---
 neural_network_lyapunov/control_affine_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/control_affine_system.py b/neural_network_lyapunov/control_affine_system.py
index 79382d9..5354582 100644
--- a/neural_network_lyapunov/control_affine_system.py
+++ b/neural_network_lyapunov/control_affine_system.py
@@ -215,7 +215,7 @@ class SecondOrderControlAffineSystem(ControlPiecewiseAffineSystem):
                     field]
         if mip_cnstr_b_flat.Aout_input is not None:
             ret.mip_cnstr_G.Aout_input = torch.vstack(
-                (torch.zeros((self.nq * self.u_dim, self.nq),
+                (torch.zeros((self.nq * self.u_dim, self.x_dim),
                              dtype=self.dtype), mip_cnstr_b_flat.Aout_input))
         if mip_cnstr_b_flat.Aout_slack is not None:
             ret.mip_cnstr_G.Aout_slack = torch.vstack((torch.zeros(
-- 
2.43.0


From 2cbc455541c8608ca2b85671853a7048fcfca0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 12/43] fix: the record of the planar quadrotor names the
 inputs of its network

---
 neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py b/neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py
index 20d82fe..2bed36a 100644
--- a/neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py
+++ b/neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py
@@ -302,7 +302,10 @@ class QuadrotorReluContinuousTime:
         binary_var_type=gurobipy.GRB.BINARY,
         u_input_prog: relu_system.ControlBoundProg = None
     ) -> relu_system.ReLUDynamicsConstraintReturn:
-        return relu_system._add_forward_dynamics_mip_constraints(
+        ret = relu_system._add_forward_dynamics_mip_constraints(
             self, mip, x_var, x_next_var, u_var, slack_var_name,
             binary_var_name, additional_u_lo, additional_u_up, binary_var_type,
             u_input_prog)
+        # The input of the network is only [theta, u].
+        ret.nn_input = x_var[2:3] + u_var
+        return ret
-- 
2.43.0


From 3340804f78fcde1d52715a63329132330c88fdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 13/43] fix: the planar quadrotor network plant offers
 possible_dx like the other plants

---
 neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py b/neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py
index 2bed36a..c687247 100644
--- a/neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py
+++ b/neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py
@@ -222,6 +222,11 @@ class QuadrotorReluContinuousTime:
                     (x_start[:, 2:3], u_start), dim=1)) - relu_at_equilibrium
             return torch.cat((x_start[:, 3:], q_ddot), dim=1)
 
+    def possible_dx(self, x, u):
+        assert (isinstance(x, torch.Tensor))
+        assert (isinstance(u, torch.Tensor))
+        return [self.step_forward(x, u)]
+
     def mixed_integer_constraints(
             self,
             u_lo=None,
-- 
2.43.0


From 0951b33d1df6d642e3f4841aaf3113f7142fdfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 14/43] fix: Lyapunov programs for networks with a single
 hidden unit

squeeze() turned the one output coefficient into a scalar, and setObjective
could not index it.
---
 neural_network_lyapunov/lyapunov.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neural_network_lyapunov/lyapunov.py b/neural_network_lyapunov/lyapunov.py
index e4b480f..384d726 100644
--- a/neural_network_lyapunov/lyapunov.py
+++ b/neural_network_lyapunov/lyapunov.py
@@ -86,7 +86,7 @@ class LyapunovHybridLinearSystem:
         relu_z, relu_beta = milp.add_mixed_integer_linear_constraints(
             mip_constr_return, x, None, slack_name, binary_var_name,
             "milp_relu_ineq", "milp_relu_eq", "", binary_var_type)
-        return (relu_z, relu_beta, mip_constr_return.Aout_slack.squeeze(),
+        return (relu_z, relu_beta, mip_constr_return.Aout_slack.squeeze(0),
                 mip_constr_return.Cout.squeeze(), mip_constr_return)
 
     def add_state_error_l1_constraint(self,
@@ -213,7 +213,7 @@ class LyapunovHybridLinearSystem:
         # = a_out * z + b_out - ϕ(x*) + λ * s
         relu_at_equilibrium = self.lyapunov_relu.forward(x_equilibrium)
         V_coeff = [
-            a_out.squeeze(0), V_lambda * torch.ones(
+            a_out, V_lambda * torch.ones(
                 (len(s), ), dtype=self.system.dtype)
         ]
         V_vars = [z, s]
@@ -294,7 +294,7 @@ class LyapunovHybridLinearSystem:
         # Now set the objective as -ϕ(x) + ϕ(x*) + (ε-λ)*|R(x−x*)|₁
         # = -a_out * z - b_out +  ϕ(x*) + (ε-λ) * s
         milp.setObjective([
-            -a_out.squeeze(), (V_epsilon - V_lambda) * torch.ones(
+            -a_out, (V_epsilon - V_lambda) * torch.ones(
                 (len(s), ), dtype=dtype)
         ], [z, s],
                           constant=-b_out + relu_at_equilibrium.squeeze(),
@@ -473,7 +473,7 @@ class LyapunovHybridLinearSystem:
         # = ϕ(x) − ϕ(x*) + λ|R(x−x*)|₁
         # = a_out * z + b_out + λ * s - ϕ(x*)
         milp.setObjective(
-            [a_out.squeeze(), V_lambda * torch.ones(
+            [a_out, V_lambda * torch.ones(
                 (len(s), ), dtype=dtype)], [z, s],
             constant=b_out - relu_at_equilibrium.squeeze(),
             sense=gurobipy.GRB.MINIMIZE)
@@ -1252,7 +1252,7 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
         # = ϕ(x) − ϕ(x*) + λ|R(x−x*)|₁
         # = a_out * z + b_out + λ * s - ϕ(x*)
         milp.setObjective(
-            [a_out.squeeze(), V_lambda * torch.ones(
+            [a_out, V_lambda * torch.ones(
                 (len(s), ), dtype=dtype)], [z, s],
             constant=b_out - relu_at_equilibrium.squeeze(),
             sense=gurobipy.GRB.MINIMIZE)
-- 
2.43.0


From db32d0c6c20105fe663d750b2932942ecea37397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 15/43] fix: the continuous-time hybrid derivative loss applies
 the sample weights

---
 neural_network_lyapunov/continuous_time_lyapunov.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/continuous_time_lyapunov.py b/neural_network_lyapunov/continuous_time_lyapunov.py
index 992ccb3..edf73e9 100644
--- a/neural_network_lyapunov/continuous_time_lyapunov.py
+++ b/neural_network_lyapunov/continuous_time_lyapunov.py
@@ -1260,5 +1260,10 @@ class LyapunovContinuousTimeHybridSystem(lyapunov.LyapunovHybridLinearSystem):
                    torch.norm(state_samples - x_equilibrium, p=1, dim=1))
         else:
             raise Exception("Unknown eps_type")
-        return torch.nn.HingeEmbeddingLoss(margin=margin)(-val,
-                                                          torch.tensor(-1))
+        hinge_loss_all = torch.nn.HingeEmbeddingLoss(
+            margin=margin, reduction="none")(-val, torch.tensor(-1))
+        if weight is None:
+            return torch.mean(hinge_loss_all)
+        else:
+            assert (weight.shape == (num_samples, ))
+            return torch.mean(weight * hinge_loss_all)
-- 
2.43.0


From f515de7ed1355f011b529d547b7a7d4c0118fbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 16/43] fix: the region-of-attraction program covers successors
 that leave the box in several coordinates

---
 neural_network_lyapunov/lyapunov.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/neural_network_lyapunov/lyapunov.py b/neural_network_lyapunov/lyapunov.py
index 384d726..912cf76 100644
--- a/neural_network_lyapunov/lyapunov.py
+++ b/neural_network_lyapunov/lyapunov.py
@@ -1178,9 +1178,9 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
         # x_lo_larger <= x <= x_up_larger.
         # This region could be written as the union of boxes
         # box i: x_up(i) <= x(i) <= x_up_larger(i)
-        #        x_lo(j) <= x(j) <= x_up(j) ∀ j≠ i
+        #        x_lo_larger(j) <= x(j) <= x_up_larger(j) ∀ j≠ i
         # box x_dim + i: x_lo_larger(i) <= x(i) <= x_lo(i)
-        #                       x_lo(j) <= x(j) <= x_up(j) ∀ j≠ i
+        #        x_lo_larger(j) <= x(j) <= x_up_larger(j) ∀ j≠ i
         # If we denote the bounds for the i'th box as
         # x_box_lo_i <= x <= x_box_up_i
         # We need to introduce 2 * x_dim binary variables ζ to determine in
@@ -1204,14 +1204,11 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
                                       lb=-gurobipy.GRB.INFINITY,
                                       vtype=gurobipy.GRB.CONTINUOUS,
                                       name=f"t_slack[{i}]")
-            x_box_lo_i = torch.from_numpy(self.system.x_lo_all).clone()
-            x_box_up_i = torch.from_numpy(self.system.x_up_all).clone()
+            x_box_lo_i = torch.as_tensor(x_lo_larger, dtype=dtype).clone()
+            x_box_up_i = torch.as_tensor(x_up_larger, dtype=dtype).clone()
             if i < self.system.x_dim:
                 x_box_lo_i[i] = self.system.x_up_all[i]
-                x_box_up_i[i] = x_up_larger[i]
             else:
-                x_box_lo_i[i - self.system.x_dim] = \
-                    x_lo_larger[i-self.system.x_dim]
                 x_box_up_i[i-self.system.x_dim] = \
                     self.system.x_lo_all[i-self.system.x_dim]
             # Now add the constraint
-- 
2.43.0


From 0ead685ed1f829e1bfc1d324e429ebd5766459a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 17/43] fix: V outside of the box in the region-of-attraction
 program is encoded over the larger box

---
 neural_network_lyapunov/lyapunov.py | 42 ++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/neural_network_lyapunov/lyapunov.py b/neural_network_lyapunov/lyapunov.py
index 912cf76..3b1f1f1 100644
--- a/neural_network_lyapunov/lyapunov.py
+++ b/neural_network_lyapunov/lyapunov.py
@@ -67,11 +67,15 @@ class LyapunovHybridLinearSystem:
                                         slack_name="relu_z",
                                         binary_var_name="relu_beta",
                                         *,
-                                        binary_var_type=gurobipy.GRB.BINARY):
+                                        binary_var_type=gurobipy.GRB.BINARY,
+                                        x_lo=None,
+                                        x_up=None):
         """
         This function is intended for internal usage only (but I expose it
         as a public function for unit test).
         Add the Lyapunov relu output as mixed-integer linear constraint.
+        @param x_lo, x_up The bounds of x for which the constraint is valid.
+        If set to None, then we use system.x_lo_all and system.x_up_all.
         @return (z, beta, a_out, b_out) z is the continuous slack variable.
         beta is the binary variable indicating whether a (leaky) ReLU unit is
         active or not. The output of the network can be written as
@@ -79,10 +83,12 @@ class LyapunovHybridLinearSystem:
         """
         assert (isinstance(milp, gurobi_torch_mip.GurobiTorchMIP))
         assert (isinstance(x, list))
+        if x_lo is None:
+            x_lo = torch.from_numpy(self.system.x_lo_all)
+        if x_up is None:
+            x_up = torch.from_numpy(self.system.x_up_all)
         mip_constr_return = self.lyapunov_relu_free_pattern.output_constraint(
-            torch.from_numpy(self.system.x_lo_all),
-            torch.from_numpy(self.system.x_up_all),
-            self.network_bound_propagate_method)
+            x_lo, x_up, self.network_bound_propagate_method)
         relu_z, relu_beta = milp.add_mixed_integer_linear_constraints(
             mip_constr_return, x, None, slack_name, binary_var_name,
             "milp_relu_ineq", "milp_relu_eq", "", binary_var_type)
@@ -98,7 +104,9 @@ class LyapunovHybridLinearSystem:
                                       slack_name="s",
                                       binary_var_name="alpha",
                                       binary_var_type=gurobipy.GRB.BINARY,
-                                      binary_for_zero_input=False):
+                                      binary_for_zero_input=False,
+                                      x_lo=None,
+                                      x_up=None):
         """
         This function is intended for internal usage only (but I expose it
         as a public function for unit test).
@@ -118,7 +126,13 @@ class LyapunovHybridLinearSystem:
         alpha[i][0] + alpha[i][1] + alpha[i][2] = 1
         @param R A matrix. We want this matrix to have full column rank. If
         R=None, then we use identity as R.
+        @param x_lo, x_up The bounds of x for which the constraint is valid.
+        If set to None, then we use system.x_lo_all and system.x_up_all.
         """
+        if x_lo is None:
+            x_lo = torch.from_numpy(self.system.x_lo_all)
+        if x_up is None:
+            x_up = torch.from_numpy(self.system.x_up_all)
         if not torch.all(torch.from_numpy(self.system.x_lo_all)
                          <= x_equilibrium) or\
             not torch.all(torch.from_numpy(self.system.x_up_all)
@@ -130,9 +144,8 @@ class LyapunovHybridLinearSystem:
         assert (R.shape[0] >= R.shape[1])
         s_dim = R.shape[0]
         # The lower and upper bound of R*(x-x*)
-        Rx_lb, Rx_ub = mip_utils.compute_range_by_IA(
-            R, -R @ x_equilibrium, torch.from_numpy(self.system.x_lo_all),
-            torch.from_numpy(self.system.x_up_all))
+        Rx_lb, Rx_ub = mip_utils.compute_range_by_IA(R, -R @ x_equilibrium,
+                                                     x_lo, x_up)
         s = [None] * s_dim
         alpha = [None] * s_dim
         for i in range(s_dim):
@@ -1170,8 +1183,15 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
                             [x_next],
                             sense=gurobipy.GRB.LESS_EQUAL,
                             b=torch.from_numpy(-self.system.x_lo_all))
+        # V(x[n]) has to be exact wherever x[n] can be.
+        if x_curr_in_box:
+            x_curr_lo = torch.from_numpy(self.system.x_lo_all)
+            x_curr_up = torch.from_numpy(self.system.x_up_all)
+        else:
+            x_curr_lo = torch.as_tensor(x_lo_larger, dtype=dtype)
+            x_curr_up = torch.as_tensor(x_up_larger, dtype=dtype)
         z, beta, a_out, b_out, _ = self.add_lyap_relu_output_constraint(
-            milp, x_curr)
+            milp, x_curr, x_lo=x_curr_lo, x_up=x_curr_up)
 
         # Now add the constraint that x is outside of the box
         # x_lo <= x <= x_up but within the region
@@ -1242,7 +1262,9 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
                                                      x_curr,
                                                      R=R,
                                                      slack_name="s",
-                                                     binary_var_name="gamma")
+                                                     binary_var_name="gamma",
+                                                     x_lo=x_curr_lo,
+                                                     x_up=x_curr_up)
 
         # Objective is
         # min V(x[n])
-- 
2.43.0


From e918bcfa2d75e6349905f8220e7514ee906a882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 18/43] Revert "fix: the planar quadrotor network plant offers
 possible_dx like the other plants"

This reverts commit 3340804f78fcde1d52715a63329132330c88fdf2.
---
 neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py b/neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py
index c687247..2bed36a 100644
--- a/neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py
+++ b/neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py
@@ -222,11 +222,6 @@ class QuadrotorReluContinuousTime:
                     (x_start[:, 2:3], u_start), dim=1)) - relu_at_equilibrium
             return torch.cat((x_start[:, 3:], q_ddot), dim=1)
 
-    def possible_dx(self, x, u):
-        assert (isinstance(x, torch.Tensor))
-        assert (isinstance(u, torch.Tensor))
-        return [self.step_forward(x, u)]
-
     def mixed_integer_constraints(
             self,
             u_lo=None,
-- 
2.43.0


From 4d515488a08e3c800763e51b343a6f6eca7fa842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 19/43] Revert "fix: the record of the planar quadrotor names
 the inputs of its network"

This reverts commit 2cbc455541c8608ca2b85671853a7048fcfca0b3.
---
 neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py b/neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py
index 2bed36a..20d82fe 100644
--- a/neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py
+++ b/neural_network_lyapunov/examples/quadrotor2d/quadrotor_2d.py
@@ -302,10 +302,7 @@ class QuadrotorReluContinuousTime:
         binary_var_type=gurobipy.GRB.BINARY,
         u_input_prog: relu_system.ControlBoundProg = None
     ) -> relu_system.ReLUDynamicsConstraintReturn:
-        ret = relu_system._add_forward_dynamics_mip_constraints(
+        return relu_system._add_forward_dynamics_mip_constraints(
             self, mip, x_var, x_next_var, u_var, slack_var_name,
             binary_var_name, additional_u_lo, additional_u_up, binary_var_type,
             u_input_prog)
-        # The input of the network is only [theta, u].
-        ret.nn_input = x_var[2:3] + u_var
-        return ret
-- 
2.43.0


From 7e73809dce9d2c7e66193a0ed9729a1bd8bcfae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 20/43] Revert "fix: the zero-velocity unicycle returns the
 record of its dynamics constraint"

This reverts commit 5d7204582ad26380750fea01b60269412873c3c0.
---
 neural_network_lyapunov/examples/car/unicycle.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/neural_network_lyapunov/examples/car/unicycle.py b/neural_network_lyapunov/examples/car/unicycle.py
index 1f339ca..50654b2 100644
--- a/neural_network_lyapunov/examples/car/unicycle.py
+++ b/neural_network_lyapunov/examples/car/unicycle.py
@@ -461,10 +461,7 @@ class UnicycleReLUZeroVelModel(UnicycleReLUModel):
                        sense=gurobipy.GRB.EQUAL,
                        rhs=0.,
                        name="unicycle_theta_dynamics")
-        ret = relu_system.ReLUDynamicsConstraintReturn(
-            forward_slack, forward_binary)
-        ret.from_mip_cnstr_return(mip_cnstr_result, input_vars)
-        return ret
+        return forward_slack, forward_binary
 
 
 class UnicycleVisualizer:
-- 
2.43.0


From 392198d08c09db857d140e45d9a9768fe0cc9f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 21/43] Revert "fix: example network plants accept the
 arguments the closed loop passes to add_dynamics_constraint"

This reverts commit d7b59fb0523d3ff49c96388b4e3fc7ca076f9797.
---
 neural_network_lyapunov/examples/car/acceleration_car.py | 3 +--
 neural_network_lyapunov/examples/car/unicycle.py         | 9 +++------
 .../examples/pole/pole_relu_system.py                    | 3 +--
 .../examples/quadrotor3d/quadrotor.py                    | 3 +--
 4 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/neural_network_lyapunov/examples/car/acceleration_car.py b/neural_network_lyapunov/examples/car/acceleration_car.py
index 444a9ba..0e3fd64 100644
--- a/neural_network_lyapunov/examples/car/acceleration_car.py
+++ b/neural_network_lyapunov/examples/car/acceleration_car.py
@@ -159,8 +159,7 @@ class AccelerationCarReLUModel:
                                 binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
                                 additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY,
-                                u_input_prog=None):
+                                binary_var_type=gurobipy.GRB.BINARY):
         """
         Add the dynamic constraints a mixed-integer linear constraints. Refer
         to relu_system.py for the common API.
diff --git a/neural_network_lyapunov/examples/car/unicycle.py b/neural_network_lyapunov/examples/car/unicycle.py
index 50654b2..65ebf9d 100644
--- a/neural_network_lyapunov/examples/car/unicycle.py
+++ b/neural_network_lyapunov/examples/car/unicycle.py
@@ -198,9 +198,7 @@ class UnicycleReLUModel:
                                 slack_var_name,
                                 binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
-                                additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY,
-                                u_input_prog=None):
+                                additional_u_up: torch.Tensor = None):
         """
         Add the dynamic constraints a mixed-integer linear constraints. Refer
         to relu_system.py for the common API.
@@ -240,7 +238,7 @@ class UnicycleReLUModel:
             mip.add_mixed_integer_linear_constraints(
                 mip_cnstr_result, input_vars, None, slack_var_name,
                 binary_var_name, "unicycle_forward_dynamics_ineq",
-                "unicycle_forward_dyamics_eq", None, binary_var_type)
+                "unicycle_forward_dyamics_eq", None)
         # Now add the constraint on the output of the network, that
         # [delta_pos_x, delta_pos_y] =
         # ϕ(θ[n], vel[n], θ_dot[n])−ϕ(0, 0, 0)
@@ -369,8 +367,7 @@ class UnicycleReLUZeroVelModel(UnicycleReLUModel):
                                 binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
                                 additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY,
-                                u_input_prog=None):
+                                binary_var_type=gurobipy.GRB.BINARY):
         """
         Add the dynamic constraints a mixed-integer linear constraints. Refer
         to relu_system.py for the common API.
diff --git a/neural_network_lyapunov/examples/pole/pole_relu_system.py b/neural_network_lyapunov/examples/pole/pole_relu_system.py
index 5a6ab20..ca642b9 100644
--- a/neural_network_lyapunov/examples/pole/pole_relu_system.py
+++ b/neural_network_lyapunov/examples/pole/pole_relu_system.py
@@ -95,8 +95,7 @@ class PoleReluSystem:
                                 forward_binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
                                 additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY,
-                                u_input_prog=None):
+                                binary_var_type=gurobipy.GRB.BINARY):
         u_lo = self.u_lo if additional_u_lo is None else torch.max(
             self.u_lo, additional_u_lo)
         u_up = self.u_up if additional_u_up is None else torch.min(
diff --git a/neural_network_lyapunov/examples/quadrotor3d/quadrotor.py b/neural_network_lyapunov/examples/quadrotor3d/quadrotor.py
index de39894..d891e17 100644
--- a/neural_network_lyapunov/examples/quadrotor3d/quadrotor.py
+++ b/neural_network_lyapunov/examples/quadrotor3d/quadrotor.py
@@ -301,8 +301,7 @@ class QuadrotorWithPixhawkReLUSystem:
                                 binary_var_name,
                                 additional_u_lo: torch.Tensor = None,
                                 additional_u_up: torch.Tensor = None,
-                                binary_var_type=gurobipy.GRB.BINARY,
-                                u_input_prog=None):
+                                binary_var_type=gurobipy.GRB.BINARY):
         """
         Add the dynamic constraint
         pos[n+1] = pos[n] + (v[n] + v[n+1]) * dt / 2
-- 
2.43.0


From d159ced5dedf3f133d9a7907d1b91c8d848c672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:10 +0000
Subject: [PATCH 22/43] fix: SearchRwithSPDOptions.extract_params reads the
 attributes it has

It read self.R_epsilon and called self.R_variables(), neither of which
exists, so utils.save_lyapunov_model failed for this option.
---
 neural_network_lyapunov/r_options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/r_options.py b/neural_network_lyapunov/r_options.py
index fcb3d7c..a2f7ff4 100644
--- a/neural_network_lyapunov/r_options.py
+++ b/neural_network_lyapunov/r_options.py
@@ -111,8 +111,8 @@ class SearchRwithSPDOptions(ROptions):
     def extract_params(self):
         return {
             "R_size": self.R_size,
-            "R_epsilon": self.R_epsilon,
-            "R_variables": self.R_variables()
+            "R_epsilon": self.epsilon,
+            "R_variables": self.variables()
         }
 
 
-- 
2.43.0


From b0d750f4ca3cfad661f6a5da801056ac417ec9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 23/43] fix: an interrupted verification is not reported as a
 success

The trainer compared the best solution found so far with the convergence
tolerance. When the solver stops early (a time limit in the MIP parameters,
or a termination threshold below the tolerance) that solution does not bound
the violation, so train and train_adversarial reported success for functions
that were not verified. Use the solver's bound in that case.
---
 .../train_lyapunov_barrier.py                 | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 788c9af..8ef3ca0 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -343,8 +343,8 @@ class Trainer:
                     threshold=self.lyapunov_positivity_mip_term_threshold))
         else:
             lyapunov_positivity_mip.gurobi_model.optimize()
-        lyapunov_positivity_mip_obj = \
-            lyapunov_positivity_mip.gurobi_model.ObjVal
+        lyapunov_positivity_mip_obj = _maximal_objective(
+            lyapunov_positivity_mip.gurobi_model)
         if self.lyapunov_positivity_mip_warmstart:
             self.lyapunov_positivity_last_x_adv = torch.tensor(
                 [v.x for v in lyapunov_positivity_as_milp_return[1]],
@@ -407,8 +407,8 @@ class Trainer:
                     threshold=self.lyapunov_derivative_mip_term_threshold))
         else:
             lyapunov_derivative_mip.gurobi_model.optimize()
-        lyapunov_derivative_mip_obj = \
-            lyapunov_derivative_mip.gurobi_model.ObjVal
+        lyapunov_derivative_mip_obj = _maximal_objective(
+            lyapunov_derivative_mip.gurobi_model)
 
         if self.output_flag:
             print("adversarial x " +
@@ -543,7 +543,8 @@ class Trainer:
                     gurobipy.GRB.Param.PoolSolutions,
                     self.barrier_value_mip_pool_solutions)
             mip[region_count].gurobi_model.optimize()
-            mip_obj[region_count] = mip[region_count].gurobi_model.ObjVal
+            mip_obj[region_count] = _maximal_objective(
+                mip[region_count].gurobi_model)
             num_adversarial = np.min((self.barrier_value_mip_pool_solutions,
                                       mip[region_count].gurobi_model.solCount))
             mip_adversarial[region_count] = torch.empty(
@@ -569,7 +570,8 @@ class Trainer:
         for param, val in self.barrier_derivative_mip_params.items():
             barrier_deriv_return.milp.gurobi_model.setParam(param, val)
         barrier_deriv_return.milp.gurobi_model.optimize()
-        barrier_deriv_mip_obj = barrier_deriv_return.milp.gurobi_model.ObjVal
+        barrier_deriv_mip_obj = _maximal_objective(
+            barrier_deriv_return.milp.gurobi_model)
         num_adversarial = np.min(
             (self.barrier_derivative_mip_pool_solutions,
              barrier_deriv_return.milp.gurobi_model.solCount))
@@ -1450,6 +1452,19 @@ class TrainValueApproximator:
                                           x_equilibrium, R)
 
 
+def _maximal_objective(gurobi_model):
+    """
+    The value to compare with a convergence tolerance after maximizing the
+    violation of a condition. If the solver stopped before it proved optimality
+    (a time limit, or the termination callback), then the best solution it has
+    found doesn't bound the violation, but its objective bound does.
+    """
+    objective = gurobi_model.ObjVal
+    if gurobi_model.status != gurobipy.GRB.Status.OPTIMAL:
+        objective = gurobi_model.ObjBound
+    return objective
+
+
 def _cluster_adversarial_states(adversarial_states, cluster_radius):
     """
     The adversarial states generated from Gurobi often have clusters (some
-- 
2.43.0


From 359749d35c8aa313570124db7fec925a35e0e72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 24/43] fix: solve_barrier_derivative_mip without a violating
 state

When no solution violates the barrier condition, it called torch.stack on an
empty list and raised instead of returning no adversarial state.
---
 neural_network_lyapunov/train_lyapunov_barrier.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 8ef3ca0..495abc1 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -585,7 +585,11 @@ class Trainer:
                 mip_adversarial.append(
                     torch.tensor([v.xn for v in barrier_deriv_return.x],
                                  dtype=dtype))
-        mip_adversarial = torch.stack(mip_adversarial)
+        if len(mip_adversarial) > 0:
+            mip_adversarial = torch.stack(mip_adversarial)
+        else:
+            mip_adversarial = torch.empty(
+                (0, self.barrier_system.system.x_dim), dtype=dtype)
         return barrier_deriv_return.milp, barrier_deriv_mip_obj,\
             mip_adversarial
 
-- 
2.43.0


From 5f6c7bec95c5f358333d3c9eba1db0f1149ec4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 25/43] fix: _cluster_adversarial_states counts two clusters

With exactly two clusters it returned one repetition (of all states) for the
two representatives.
---
 neural_network_lyapunov/train_lyapunov_barrier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 495abc1..9c2370f 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -1495,7 +1495,7 @@ def _cluster_adversarial_states(adversarial_states, cluster_radius):
             1)[states_distance_squared > cluster_radius**2] + 1
         repeatition = new_adversarial_state_index[1:] - \
             new_adversarial_state_index[:-1]
-        if repeatition.shape == (0, ):
+        if new_adversarial_state_index.shape == (0, ):
             repeatition = torch.tensor([adversarial_states.shape[0]])
         else:
             repeatition = torch.cat(
-- 
2.43.0


From 0df87f344ff2897fd2a2401d6303b5c84b040b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 26/43] fix: R stays trainable after _set_training_params

It replaced R_options._variables by a copy, so the tensor that train_adversarial
hands to its optimizers was no longer the one R is computed from, and R was
not trained after the first round of descent. Assign the values in place.
---
 neural_network_lyapunov/train_lyapunov_barrier.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 9c2370f..f2c276c 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -1118,7 +1118,7 @@ class Trainer:
         params["lyap_relu_params"] = copy.deepcopy(
             self.lyapunov_hybrid_system.lyapunov_relu.state_dict())
         if not self.R_options.fixed_R:
-            params["R_params"] = self.R_options._variables.clone()
+            params["R_params"] = self.R_options._variables.detach().clone()
         if isinstance(self.lyapunov_hybrid_system.system,
                       feedback_system.FeedbackSystem):
             params["controller_params"] = copy.deepcopy(
@@ -1133,7 +1133,9 @@ class Trainer:
         self.lyapunov_hybrid_system.lyapunov_relu.load_state_dict(
             params["lyap_relu_params"])
         if not self.R_options.fixed_R:
-            self.R_options._variables = params["R_params"].clone()
+            # Assign in place, since the optimizer trains this tensor.
+            with torch.no_grad():
+                self.R_options._variables.copy_(params["R_params"])
         if isinstance(self.lyapunov_hybrid_system.system,
                       feedback_system.FeedbackSystem):
             self.lyapunov_hybrid_system.system.controller_network.\
-- 
2.43.0


From eb09b24785956ba3b1b51db10b7db73479328380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 27/43] fix: train_lyapunov_on_samples restores R with the best
 network

It restored the networks with the least test loss but left R at its last
value, so the restored Lyapunov function was not the one with that loss.
---
 neural_network_lyapunov/train_lyapunov_barrier.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index f2c276c..0c29578 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -1070,20 +1070,10 @@ class Trainer:
                   f"{test_loss.item()}")
             if test_loss.item() < best_loss:
                 best_loss = test_loss.item()
-                best_lyapunov_relu = copy.deepcopy(
-                    self.lyapunov_hybrid_system.lyapunov_relu)
-                if isinstance(self.lyapunov_hybrid_system.system,
-                              feedback_system.FeedbackSystem):
-                    best_controller_relu = copy.deepcopy(
-                        self.lyapunov_hybrid_system.system.controller_network)
+                best_training_params = self._get_current_training_params()
 
         print(f"best loss {best_loss}")
-        self.lyapunov_hybrid_system.lyapunov_relu.load_state_dict(
-            best_lyapunov_relu.state_dict())
-        if isinstance(self.lyapunov_hybrid_system.system,
-                      feedback_system.FeedbackSystem):
-            self.lyapunov_hybrid_system.system.controller_network.\
-                load_state_dict(best_controller_relu.state_dict())
+        self._set_training_params(best_training_params)
 
     class AdversarialTrainingOptions:
         def __init__(self):
-- 
2.43.0


From 43a66eede7af3b6a02dd79e02e0061736c2ec50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 28/43] fix: continuous-time lyapunov_derivative accepts R=None

---
 neural_network_lyapunov/continuous_time_lyapunov.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_network_lyapunov/continuous_time_lyapunov.py b/neural_network_lyapunov/continuous_time_lyapunov.py
index edf73e9..be70c8d 100644
--- a/neural_network_lyapunov/continuous_time_lyapunov.py
+++ b/neural_network_lyapunov/continuous_time_lyapunov.py
@@ -54,6 +54,7 @@ class LyapunovContinuousTimeSystem(lyapunov.LyapunovHybridLinearSystem):
         Due to the non-uniqueness of the gradient dV/dx, there might be
         multiple V̇(x) + εV(x). We return a list of all the values.
         """
+        R = lyapunov._get_R(R, self.system.x_dim, x_equilibrium.device)
         dVdx = self._lyapunov_gradient(x,
                                        x_equilibrium,
                                        V_lambda,
-- 
2.43.0


From 1f7e14fca75d7f492453dbf1892089ec32e854ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 29/43] fix: hybrid continuous-time lyapunov_derivative with
 one state

---
 neural_network_lyapunov/continuous_time_lyapunov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/continuous_time_lyapunov.py b/neural_network_lyapunov/continuous_time_lyapunov.py
index be70c8d..22d9834 100644
--- a/neural_network_lyapunov/continuous_time_lyapunov.py
+++ b/neural_network_lyapunov/continuous_time_lyapunov.py
@@ -391,8 +391,8 @@ class LyapunovContinuousTimeHybridSystem(lyapunov.LyapunovHybridLinearSystem):
         for i in range(len(dReLU_dx_all)):
             for j in range(len(state_error_grad)):
                 dV_dx[i * len(state_error_grad) + j] = \
-                    dReLU_dx_all[i].squeeze() + \
-                    V_lambda * state_error_grad[j].squeeze()
+                    dReLU_dx_all[i].reshape((-1, )) + \
+                    V_lambda * state_error_grad[j]
         Vdot_all = [None] * (len(dV_dx) * len(xdot_all))
         for i in range(len(dV_dx)):
             for j in range(len(xdot_all)):
-- 
2.43.0


From 9dc26d8374de90e891a479db6c2064419a36fa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 30/43] fix: lyapunov_derivative_as_milp with relaxed binary
 variables

---
 neural_network_lyapunov/continuous_time_lyapunov.py | 2 +-
 neural_network_lyapunov/gurobi_torch_mip.py         | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/continuous_time_lyapunov.py b/neural_network_lyapunov/continuous_time_lyapunov.py
index 22d9834..b759748 100644
--- a/neural_network_lyapunov/continuous_time_lyapunov.py
+++ b/neural_network_lyapunov/continuous_time_lyapunov.py
@@ -100,7 +100,7 @@ class LyapunovContinuousTimeSystem(lyapunov.LyapunovHybridLinearSystem):
         # Adds the mixed-integer constraints to compute V(x).
         relu_slack, relu_binary, relu_a_out, relu_b_out,\
             relu_output_mip_cnstr_ret = self.add_lyap_relu_output_constraint(
-                milp, x)
+                milp, x, binary_var_type=binary_var_type)
 
         l1_slack, l1_binary = self.add_state_error_l1_constraint(
             milp,
diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index f152eab..fcb4e51 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -774,7 +774,10 @@ class GurobiTorchMIP:
                     (isinstance(v, gurobipy.Var) for v in binary_var_name)):
                 binary = binary_var_name
                 assert (len(binary) == binary_size)
-                assert (all((v.vtype == binary_var_type for v in binary)))
+                # addVars stores a relaxed binary variable as continuous.
+                vtype = gurobipy.GRB.CONTINUOUS if \
+                    binary_var_type == BINARYRELAX else binary_var_type
+                assert (all((v.vtype == vtype for v in binary)))
         else:
             binary = []
 
-- 
2.43.0


From 5480184cf8e781c8619e9a6fa0d58b2959a493a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 31/43] fix: update_relu_params copies the parameter vector

---
 neural_network_lyapunov/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index 84505fb..5194f41 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -1004,13 +1004,13 @@ def update_relu_params(relu, params: torch.Tensor):
         if isinstance(layer, torch.nn.Linear):
             layer.weight.data = params[params_count:params_count +
                                        layer.in_features *
-                                       layer.out_features].reshape(
+                                       layer.out_features].clone().reshape(
                                            (layer.out_features,
                                             layer.in_features))
             params_count += layer.in_features * layer.out_features
             if layer.bias is not None:
                 layer.bias.data = params[params_count:params_count +
-                                         layer.out_features]
+                                         layer.out_features].clone()
                 params_count += layer.out_features
 
 
-- 
2.43.0


From 829c21691ba8d51f172ef1b32bae4268361d07fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 32/43] fix: LineSearchGD tests Armijo's rule for the step
 taken

---
 neural_network_lyapunov/line_search_gd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/line_search_gd.py b/neural_network_lyapunov/line_search_gd.py
index 2b92b80..0b1df16 100644
--- a/neural_network_lyapunov/line_search_gd.py
+++ b/neural_network_lyapunov/line_search_gd.py
@@ -118,7 +118,7 @@ class LineSearchGD(Optimizer):
         while alpha > min_step_size_decrease:
             loss = self.directional_evaluate(closure, p,
                                              (alpha - alpha_prev) * t, d_p)
-            if loss <= loss0 + t * increment and \
+            if loss <= loss0 + alpha * t * increment and \
                     loss <= loss0 - min_improvement:
                 return loss
             alpha_prev = alpha
-- 
2.43.0


From 6ed2c501a669e3fac2fbfbb413d4a3f7e81f6eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:06 +0000
Subject: [PATCH 33/43] fix: apex_map_linear_approximation takes scalar entries
 of the gradient

dx_post_lo_dleg_angle is a column vector; assigning its one-element rows to
entries of P and q raises ValueError with current numpy, so the approximation
failed for every state from which the hopper takes a step.
---
 neural_network_lyapunov/slip_hybrid_linear_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/slip_hybrid_linear_system.py b/neural_network_lyapunov/slip_hybrid_linear_system.py
index 3ca0eb6..e3a39b0 100644
--- a/neural_network_lyapunov/slip_hybrid_linear_system.py
+++ b/neural_network_lyapunov/slip_hybrid_linear_system.py
@@ -82,9 +82,9 @@ class SlipHybridLinearSystem:
         # Now approximate the constraint that at liftoff, the vertical velocity
         # should be positive.
         P[1, :3] = -dx_post_lo_dx_apex[3, :]
-        P[1, 3] = -dx_post_lo_dleg_angle[3]
+        P[1, 3] = -dx_post_lo_dleg_angle[3, 0]
         q[1, 0] = x_post_lo[3] - dx_post_lo_dx_apex[3, :].dot(apex_state) -\
-            dx_post_lo_dleg_angle[3] * leg_angle
+            dx_post_lo_dleg_angle[3, 0] * leg_angle
         # Now approximate the constraint that the touchdown point is on the
         # stepping stone left ≤ x⁻_TD[0] + l₀sinθ ≤ right
         constraint_count = 2
-- 
2.43.0


From 17c4263c00845f7eeddd763173828c96c892c07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:12 +0000
Subject: [PATCH 34/43] fix: project_gradient does not project orthogonal or
 zero gradients

---
 neural_network_lyapunov/train_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/train_utils.py b/neural_network_lyapunov/train_utils.py
index 9a54b5b..c7fbaae 100644
--- a/neural_network_lyapunov/train_utils.py
+++ b/neural_network_lyapunov/train_utils.py
@@ -53,7 +53,7 @@ def project_gradient(network, loss1, loss2, mode, retain_graph=False):
     loss2.backward(retain_graph=retain_graph)
     n2 = torch.cat([p.grad.reshape((-1, )) for p in network.parameters()])
     with torch.no_grad():
-        if n1 @ n2 > 0:
+        if n1 @ n2 >= 0:
             grad = n1 + n2
             need_projection = False
         else:
-- 
2.43.0


From 1ddc156b6a60d847e916280841b46e91264c336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:12 +0000
Subject: [PATCH 35/43] fix: uniform_sample_on_box_boundary when the random
 draw is 0

---
 neural_network_lyapunov/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index 5194f41..958d22e 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -1345,8 +1345,9 @@ def uniform_sample_on_box_boundary(lo: torch.Tensor, hi: torch.Tensor,
     x_dim = lo.numel()
     boundary_face_rand = torch.rand((num_samples, )) * 2 - 1
     for i in range(num_samples):
-        boundary_face_index = int(
-            (torch.abs(boundary_face_rand[i]) * x_dim).item())
+        # boundary_face_rand[i] can be exactly -1.
+        boundary_face_index = min(
+            int((torch.abs(boundary_face_rand[i]) * x_dim).item()), x_dim - 1)
         samples_in_box[i, boundary_face_index] = lo[
             boundary_face_index] if boundary_face_rand[i] < 0 else hi[
                 boundary_face_index]
-- 
2.43.0


From e2cc33db886f21188648b3a9872d23fa97e78a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:12 +0000
Subject: [PATCH 36/43] fix: linear_program_cost with several active
 inequalities

---
 neural_network_lyapunov/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index 958d22e..1a51eaf 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -888,7 +888,7 @@ def linear_program_cost(c, d, A_in, b_in, A_eq, b_eq):
     b_act = torch.empty((num_act, ), dtype=torch.float64)
     A_act[:num_eq, :] = A_eq
     b_act[:num_eq] = b_eq
-    active_in_indices = np.nonzero(active_in_flag)
+    active_in_indices = np.nonzero(active_in_flag)[0]
     for i in range(num_act - num_eq):
         A_act[i + num_eq] = A_in[active_in_indices[i]]
         b_act[i + num_eq] = b_in[active_in_indices[i]]
-- 
2.43.0


From 926fa91198cf5bee903acce7c4775cb8b91b5012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:02 +0000
Subject: [PATCH 37/43] fix: add_continuity_constraint has a row per common
 vertex

---
 neural_network_lyapunov/simple_pwl_lyapunov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/simple_pwl_lyapunov.py b/neural_network_lyapunov/simple_pwl_lyapunov.py
index f38258d..239cf29 100644
--- a/neural_network_lyapunov/simple_pwl_lyapunov.py
+++ b/neural_network_lyapunov/simple_pwl_lyapunov.py
@@ -147,7 +147,7 @@ class SimplePWLLyapunov:
         self.constraints.append(
             common_vertices @ (self.c[:, mode_i] - self.c[:, mode_j]) +
             (self.d[mode_i] - self.d[mode_j]) *
-            np.ones(common_vertices.shape[1]) == 0)
+            np.ones(common_vertices.shape[0]) == 0)
 
     def solve(self, weight):
         """
-- 
2.43.0


From 3fd71bf28fe37bbaede9c20bb689c5cd7e0d2f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 38/43] fix: adversarial_samples when no sample violates the
 derivative condition

---
 neural_network_lyapunov/dynamics_learning.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 0ea8ba9..364ba6f 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -149,17 +149,17 @@ class DynamicsLearning:
             lyap_der_mip.gurobi_model.optimize(
                 utils.get_gurobi_terminate_if_callback())
         num_sol = lyap_der_mip.gurobi_model.solCount
-        z_adv_der = []
+        z_adv_der_lo = []
         for i in range(num_sol):
             lyap_der_mip.gurobi_model.setParam(
                 gurobipy.GRB.Param.SolutionNumber, i)
             obj = lyap_der_mip.gurobi_model.PoolObjVal
             if obj > 0:
-                z_adv_der.append(
+                z_adv_der_lo.append(
                     torch.tensor([r.xn for r in x_var],
                                  dtype=self.opt.dtype).unsqueeze(0))
-        if len(z_adv_der) > 0:
-            z_adv_der_lo = torch.cat(z_adv_der, dim=0)
+        if len(z_adv_der_lo) > 0:
+            z_adv_der_lo = torch.cat(z_adv_der_lo, dim=0)
 
         lyap_der_mip_ = self.lyap.lyapunov_derivative_as_milp(
             self.lyap.system.x_equilibrium,
@@ -177,17 +177,17 @@ class DynamicsLearning:
             lyap_der_mip.gurobi_model.optimize(
                 utils.get_gurobi_terminate_if_callback())
         num_sol = lyap_der_mip.gurobi_model.solCount
-        z_adv_der = []
+        z_adv_der_up = []
         for i in range(num_sol):
             lyap_der_mip.gurobi_model.setParam(
                 gurobipy.GRB.Param.SolutionNumber, i)
             obj = lyap_der_mip.gurobi_model.PoolObjVal
             if obj > 0:
-                z_adv_der.append(
+                z_adv_der_up.append(
                     torch.tensor([r.xn for r in x_var],
                                  dtype=self.opt.dtype).unsqueeze(0))
-        if len(z_adv_der) > 0:
-            z_adv_der_up = torch.cat(z_adv_der, dim=0)
+        if len(z_adv_der_up) > 0:
+            z_adv_der_up = torch.cat(z_adv_der_up, dim=0)
 
         return z_adv_pos, z_adv_der_lo, z_adv_der_up
 
-- 
2.43.0


From a645f0f3569bc811524c381e14c1e1e888daaaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:11 +0000
Subject: [PATCH 39/43] fix: rollout_validation returns the mean over the
 rollouts

---
 neural_network_lyapunov/dynamics_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 364ba6f..e7228c2 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -381,7 +381,7 @@ class DynamicsLearning:
                 validation_loss += self.rollout_loss(rollout_expected)
         self.all_to_device('cpu')
         validation_loss = validation_loss.to('cpu')
-        return validation_loss
+        return validation_loss / len(rollouts)
 
     def log(self, name, value):
         if self.writer is not None:
-- 
2.43.0


From 6ca8f2e7b3dce6d241de94be7d212b0a1d52133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:11 +0000
Subject: [PATCH 40/43] fix: reconstruction_loss covers all samples of the
 batch

---
 neural_network_lyapunov/dynamics_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index e7228c2..f1c3d33 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -778,7 +778,7 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
         if self.opt.use_bce:
             loss = self.bce_loss(x_decoded, x)
         else:
-            loss = (x - x_decoded).pow(2).mean(dim=[1, 2, 3])[0]
+            loss = (x - x_decoded).pow(2).mean()
         return loss
 
     def dynamics_loss(self, x, x_next):
-- 
2.43.0


From 00485940f5f725abe2f1ae8830dd3fc8f44ee181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 41/43] fix: rollout_loss compares the prediction against the
 expected images

---
 neural_network_lyapunov/dynamics_learning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index f1c3d33..00c5c77 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -883,8 +883,8 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
             rollout_expected.shape[0] - 2,
             decode_intermediate=decode_intermediate)
         if self.opt.use_bce:
-            loss = self.bce_loss_none(rollout_expected,
-                                      rollout_pred).mean(dim=[1, 2, 3])
+            loss = self.bce_loss_none(rollout_pred,
+                                      rollout_expected).mean(dim=[1, 2, 3])
         else:
             loss = (rollout_expected - rollout_pred).pow(2).mean(dim=[1, 2, 3])
         return loss
-- 
2.43.0


From d3ad0ece11acfa9f24c800fa43245aa0913e8466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:30 +0000
Subject: [PATCH 42/43] fix: generate_sample takes the position and velocity of
 every joint, not the first joint's record

---
 neural_network_lyapunov/pybullet_data_generation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/pybullet_data_generation.py b/neural_network_lyapunov/pybullet_data_generation.py
index 6b1be58..0c68386 100644
--- a/neural_network_lyapunov/pybullet_data_generation.py
+++ b/neural_network_lyapunov/pybullet_data_generation.py
@@ -225,8 +225,8 @@ class PybulletSampleGenerator:
             pb.stepSimulation()
         if self.joint_space:
             state = pb.getJointStates(self.robot_id, list(range(len(q0))))
-            q1 = state[0][:len(q0)]
-            v1 = state[0][len(q0):len(q0) + len(v0)]
+            q1 = [joint_state[0] for joint_state in state]
+            v1 = [joint_state[1] for joint_state in state]
             q1 = torch.tensor(q1, dtype=self.dtype)
             v1 = torch.tensor(v1, dtype=self.dtype)
             x1 = torch.cat((q1, v1))
-- 
2.43.0


From 49f08f6b4870c98aa29e1cf7f0b025fb2cf46804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:18 +0000
Subject: [PATCH 43/43] fix: every PybulletSampleGenerator talks to its own
 physics server

---
 .../pybullet_data_generation.py                   | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/neural_network_lyapunov/pybullet_data_generation.py b/neural_network_lyapunov/pybullet_data_generation.py
index 0c68386..6886dad 100644
--- a/neural_network_lyapunov/pybullet_data_generation.py
+++ b/neural_network_lyapunov/pybullet_data_generation.py
@@ -1,6 +1,7 @@
 import torch
 import numpy as np
-import pybullet as pb
+import pybullet
+from pybullet_utils import bullet_client
 import matplotlib.pyplot as plt
 from torch.utils.data import TensorDataset, DataLoader
 
@@ -132,10 +133,11 @@ class PybulletSampleGenerator:
         @param gui: boolean to show the gui or not
         """
         self.dtype = dtype
-        if gui:
-            self.physics_client = pb.connect(pb.GUI)
-        else:
-            self.physics_client = pb.connect(pb.DIRECT)
+        # Every call below goes to the physics server of this generator (the
+        # module pybullet alone would talk to the first server connected).
+        self.physics_client = bullet_client.BulletClient(
+            pybullet.GUI if gui else pybullet.DIRECT)
+        pb = self.physics_client
         pb.setGravity(0, 0, -9.8)
         self.timestep = 1. / 240.
         pb.setTimeStep(self.timestep)
@@ -174,7 +176,7 @@ class PybulletSampleGenerator:
         self.state_id = pb.saveState()
 
     def __del__(self):
-        pb.disconnect(self.physics_client)
+        self.physics_client.disconnect()
 
     def generate_sample(self, x0, dt):
         """
@@ -192,6 +194,7 @@ class PybulletSampleGenerator:
         """
         assert (isinstance(x0, torch.Tensor))
         assert (len(x0) == self.x_dim)
+        pb = self.physics_client
         pb.restoreState(self.state_id)
         num_step = int(dt * (.5 / self.timestep))
         X = np.zeros((6, self.image_width, self.image_height), dtype=np.uint8)
-- 
2.43.0

