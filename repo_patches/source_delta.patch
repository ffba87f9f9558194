From 5153e28680b4f9aaac01377941affb02cefc29d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 01/42] fix: integrate the running cost with both segments'
 weights at shared nodes

The composite quadrature dropped the weight of the starting node of every
segment after the first, so LGL/CGL meshes with several segments (and any
degree-1 segment) minimised a wrong objective.
---
 mpopt/mpopt.py | 61 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 15 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index c6a4bd6..6c1c550 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -97,7 +97,8 @@ class mpopt:
             scheme = self.colloc_scheme
         self.collocation = Collocation(self.poly_orders, scheme)
         self._compD = self.collocation.get_composite_differentiation_matrix()
-        self._compW = self.collocation.get_composite_quadrature_weights()
+        self._segW = self.collocation.get_segment_quadrature_weights()
+        self._compW = ca.sum1(self._segW)
         self._taus = self.collocation.roots
         self.tau0, self.tau1 = self.collocation.tau0, self.collocation.tau1
         self._collocation_approximation_computed = True
@@ -163,7 +164,7 @@ class mpopt:
             Tuple : (f, c, q)
                 f - List of constraints for discretized dynamics
                 c - List of constraints for discretized path constraints
-                q - List of constraints for discretized running costs
+                q - List of discretized running costs
         """
         # Initialize variables to store dynamics(f), contraints(c) and cost function(g) at each collocation point
         f, q = [None] * self._Npoints, [None] * self._Npoints
@@ -202,14 +203,33 @@ class mpopt:
             # discretize path_constraints
             if has_constraints:
                 c[index] = ca.vertcat(*path_constraints(x, u, t, a)).T
-            # running cost
-            q[index] = h_seg * ca.vertcat(running_costs(x, u, t, a)).T
+            # running cost (Scaled with the segment duration while integrating)
+            q[index] = ca.vertcat(running_costs(x, u, t, a)).T
 
             point += 1
             self.time_grid[phase][index] = t
 
         return (f, c, q)
 
+    def get_integrated_running_cost(self, q: List, phase: int = 0) -> ca.SX:
+        """Integrate the discretized running costs over given phase
+
+        A node shared by two segments contributes to the integral of both, each
+        with the duration of its own segment
+
+        args:
+            :q: List of running costs evaluated at collocation nodes
+            :phase: index of the phase
+
+        returns:
+            :J: Integral of the running costs over the phase
+        """
+        t0 = self.t0[phase] / self._ocp.scale_t
+        tf = self.tf[phase] / self._ocp.scale_t
+        h_seg = (tf - t0) / (self.tau1 - self.tau0) * self.seg_widths[:, phase]
+
+        return ca.mtimes(h_seg.T, ca.mtimes(self._segW, ca.vertcat(*q)))
+
     def get_nlp_constraints_for_dynamics(self, f: List = [], phase: int = 0) -> Tuple:
         """Get NLP constraints for discretized dynamics
 
@@ -452,7 +472,7 @@ class mpopt:
         ) = self.get_nlp_constrains_for_control_slope_continuity_across_segments(phase)
 
         # Add running cost to the mayer term
-        J = mayer_term + ca.mtimes(self._compW, ca.vertcat(*q))
+        J = mayer_term + self.get_integrated_running_cost(q, phase)
 
         # Merge constraint vectors into sigle constraint vector
         G = ca.vertcat(*[F, C, DU, mU, dU, TC])
@@ -3164,7 +3184,7 @@ class mpopt_adaptive(mpopt):
         (SW, SWmin, SWmax) = self.get_nlp_constrains_for_segment_widths(phase)
 
         # Add running cost to the mayer term
-        J = mayer_term + ca.mtimes(self._compW, ca.vertcat(*q))
+        J = mayer_term + self.get_integrated_running_cost(q, phase)
 
         # Merge constraint vectors into sigle constraint vector
         G = ca.vertcat(*[F, C, DU, TC, SW])
@@ -4048,20 +4068,31 @@ class Collocation:
                 element representing one segment
 
         """
+        # Nodes shared by two segments accumulate the weights of both
+        return ca.sum1(self.get_segment_quadrature_weights(poly_orders, tau0, tau1))
+
+    def get_segment_quadrature_weights(
+        self, poly_orders: List = None, tau0=None, tau1=None
+    ):
+        """Get quadrature weights of each segment on the composite grid
+
+        args:
+            :poly_orders: order of the polynomials used in collocation with each
+                element representing one segment
+
+        returns:
+            :W: matrix with one row per segment and one column per composite node
+        """
         if poly_orders is None:
             poly_orders = self.poly_orders
 
-        if tau0 is None:
-            tau0 = self.tau0
-        if tau1 is None:
-            tau1 = self.tau1
-
         quad_mats = self.get_quad_weight_matrices(poly_orders, tau0=tau0, tau1=tau1)
-        comp_quad_weights = ca.vertcat(
-            *([quad_mats[poly_orders[0]][0]] + [quad_mats[p][1:] for p in poly_orders])
-        ).T
+        seg_quad_weights = ca.DM.zeros((len(poly_orders), sum(poly_orders) + 1))
+        for i, p in enumerate(poly_orders):
+            start = sum(poly_orders[:i])
+            seg_quad_weights[i, start : start + p + 1] = quad_mats[p].T
 
-        return comp_quad_weights
+        return seg_quad_weights
 
     def get_composite_interpolation_matrix(self, taus, poly_orders: List = None):
         """Get interpolation matrix corresponding to given basis polynomial degree for colloation.
-- 
2.43.0


From c8ac51f1952304013c35c7b38712eebf2c3c29c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 02/42] fix: lay out the initial control guess control by
 control

With more than one control the linearly interpolated guess was flattened
node by node while the decision vector stacks each control over all nodes.
---
 mpopt/mpopt.py | 44 ++++++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 6c1c550..529a27e 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -695,18 +695,16 @@ class mpopt:
             ).T
         )
         # Linear interpolation of controls
-        z0[1] = np.concatenate(
-            np.array(
-                [
-                    u00 + (uf0 - u00) / (tf0 - t00) * (t - t00)
-                    for t in np.linspace(
-                        t00,
-                        tf0,
-                        self._Npoints,
-                    )
-                ]
-            )
-        )
+        z0[1] = np.array(
+            [
+                u00 + (uf0 - u00) / (tf0 - t00) * (t - t00)
+                for t in np.linspace(
+                    t00,
+                    tf0,
+                    self._Npoints,
+                )
+            ]
+        ).T.flatten()
         z0[2], z0[3], z0[4] = t00, tf0, a0
 
         return np.concatenate(z0)
@@ -3034,18 +3032,16 @@ class mpopt_adaptive(mpopt):
             ).T
         )
         # Linear interpolation of controls
-        z0[1] = np.concatenate(
-            np.array(
-                [
-                    u00 + (uf0 - u00) / (tf0 - t00) * (t - t00)
-                    for t in np.linspace(
-                        t00,
-                        tf0,
-                        self._Npoints,
-                    )
-                ]
-            )
-        )
+        z0[1] = np.array(
+            [
+                u00 + (uf0 - u00) / (tf0 - t00) * (t - t00)
+                for t in np.linspace(
+                    t00,
+                    tf0,
+                    self._Npoints,
+                )
+            ]
+        ).T.flatten()
         z0[2], z0[3], z0[4] = t00, tf0, a0
         z0[5] = [1.0 / self.n_segments] * self.n_segments
 
-- 
2.43.0


From b07ae241a29764f7900dc810911b33b0d5be9f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 03/42] fix: initial guess is finite when a phase's start and
 end time guesses coincide

---
 mpopt/mpopt.py | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 529a27e..62fff06 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -685,24 +685,16 @@ class mpopt:
         z0[0] = np.concatenate(
             np.array(
                 [
-                    x00 + (xf0 - x00) / (tf0 - t00) * (t - t00)
-                    for t in np.linspace(
-                        t00,
-                        tf0,
-                        self._Npoints,
-                    )
+                    x00 + (xf0 - x00) * fraction
+                    for fraction in np.linspace(0.0, 1.0, self._Npoints)
                 ]
             ).T
         )
         # Linear interpolation of controls
         z0[1] = np.array(
             [
-                u00 + (uf0 - u00) / (tf0 - t00) * (t - t00)
-                for t in np.linspace(
-                    t00,
-                    tf0,
-                    self._Npoints,
-                )
+                u00 + (uf0 - u00) * fraction
+                for fraction in np.linspace(0.0, 1.0, self._Npoints)
             ]
         ).T.flatten()
         z0[2], z0[3], z0[4] = t00, tf0, a0
@@ -3022,24 +3014,16 @@ class mpopt_adaptive(mpopt):
         z0[0] = np.concatenate(
             np.array(
                 [
-                    x00 + (xf0 - x00) / (tf0 - t00) * (t - t00)
-                    for t in np.linspace(
-                        t00,
-                        tf0,
-                        self._Npoints,
-                    )
+                    x00 + (xf0 - x00) * fraction
+                    for fraction in np.linspace(0.0, 1.0, self._Npoints)
                 ]
             ).T
         )
         # Linear interpolation of controls
         z0[1] = np.array(
             [
-                u00 + (uf0 - u00) / (tf0 - t00) * (t - t00)
-                for t in np.linspace(
-                    t00,
-                    tf0,
-                    self._Npoints,
-                )
+                u00 + (uf0 - u00) * fraction
+                for fraction in np.linspace(0.0, 1.0, self._Npoints)
             ]
         ).T.flatten()
         z0[2], z0[3], z0[4] = t00, tf0, a0
-- 
2.43.0


From 4b26c3333939e8179ac953518e43d9d336a010cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:12 +0000
Subject: [PATCH 04/42] fix: equal-area widths sum to one when the residual
 vanishes at the phase end

---
 mpopt/mpopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 62fff06..9fad2ed 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2660,6 +2660,8 @@ class mpopt_h_adaptive(mpopt):
                 / (cumulative_area[ind_j] - cumulative_area[ind_j - 1])
             ) / (n_points - 1)
 
+        # Last segment ends at the phase end, even if the residual vanishes before
+        seg_widths_cumulative[-1] = 1.0
         seg_widths_cumulative = np.append(0, seg_widths_cumulative)
         seg_widths = [
             seg_widths_cumulative[i + 1] - seg_widths_cumulative[i]
-- 
2.43.0


From b134953dff0f1ffc013d85ae87e6a31be5b4fbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:28 +0000
Subject: [PATCH 05/42] fix: dynamics residuals use each phase's own grid type

---
 mpopt/mpopt.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 9fad2ed..2ccbe62 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1396,8 +1396,7 @@ class mpopt:
         residuals, ti = [None] * self._ocp.n_phases, [None] * self._ocp.n_phases
         for phase in range(self._ocp.n_phases):
             if nodes is None:
-                if grid_type is None:
-                    grid_type = self.grid_type[phase]
+                # Default grid type can differ from phase to phase
                 target_nodes = self.get_residual_grid_taus(phase, grid_type=grid_type)
             else:
                 target_nodes = nodes[phase]
-- 
2.43.0


From 89c75d17edb82f219f54c36b349854b255e591fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:43 +0000
Subject: [PATCH 06/42] fix: fixed residual grid excludes the phase end, not an
 interior node

---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 2ccbe62..8f01392 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1179,7 +1179,8 @@ class mpopt:
             # Equally spaced nodes per phase
             n_nodes = max(sum(self.poly_orders) + 2, self._MAX_GRID_POINTS + 2)
 
-            target_nodes = np.linspace(self.tau0, self.tau1, n_nodes)
+            # Start and end of the phase are not included
+            target_nodes = np.linspace(self.tau0, self.tau1, n_nodes)[1:-1]
             taus_on_original_grid = (
                 self.compute_interpolation_taus_corresponding_to_original_grid(
                     target_nodes,
@@ -1190,7 +1191,6 @@ class mpopt:
                     tau1=self.tau1,
                 )
             )
-            taus_on_original_grid[0] = taus_on_original_grid[0][:-1]
         elif grid_type == "mid-points":
             mid_points = lambda x: np.array(
                 [(x[i] + x[i + 1]) / 2.0 for i in range(len(x) - 1)]
-- 
2.43.0


From b53dbc76454f07bba5016e8580bfcf0ca0d3a784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:39 +0000
Subject: [PATCH 07/42] fix: keep the end node when summed segment widths round
 below one

---
 mpopt/mpopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 8f01392..02b07a9 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1226,6 +1226,8 @@ class mpopt:
         """
         cumulative_sw = np.append(0, np.cumsum(seg_widths))
         assert abs(cumulative_sw[-1] - 1) < 1e-6
+        # Rounding of the widths must not exclude the end node
+        cumulative_sw[-1] = 1
         n_segments = len(seg_widths)
 
         # Scale nodes_req between 0 & 1
-- 
2.43.0


From 7c86514e7ba324a0f8a7aff1dd3535388091f16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 08/42] fix: unscale each algebraic parameter by its own scale

With two or more parameters the division broadcast to a square matrix.
---
 mpopt/mpopt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 02b07a9..5cbaf36 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1673,6 +1673,9 @@ class post_process:
             scale_u = self.options["scale_u"] if "scale_u" in self.options else 1.0
             scale_a = self.options["scale_a"] if "scale_a" in self.options else 1.0
 
+            # Parameters are stored in a column
+            scale_a = np.reshape(scale_a, (-1, 1))
+
             return (x_opt / scale_x, u_opt / scale_u, t_opt, a_opt / scale_a)
 
         return (x_opt, u_opt, t_opt, a_opt)
-- 
2.43.0


From 45cace7000cc71989bae656679127f8c6a227d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 09/42] fix: interpolated data returns parameters in the layout
 of the original data

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 5cbaf36..7add77c 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1840,7 +1840,7 @@ class post_process:
                 x = np.vstack((x, xp))
                 u = np.vstack((u, up))
                 t = np.hstack((t, tp))
-                a = np.hstack((a, ap))
+                a = np.vstack((a, ap))
 
         return (x, u, t, a)
 
-- 
2.43.0


From 58c255242ae5d03926a528710fc058e80bb93e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 10/42] fix: h-adaptive solve leaves its option dictionaries
 alone

The defaults were stored in the shared default dictionaries, so options
leaked into later optimizers, and an ipopt option was passed to every solver.
---
 mpopt/mpopt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 7add77c..2020ca6 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2380,13 +2380,13 @@ class mpopt_h_adaptive(mpopt):
 
         start_time = time.monotonic()
         if (not self._nlpsolver_initialized) or (reinitialize_nlp):
-            if "ipopt.print_level" not in nlp_solver_options:
-                nlp_solver_options["ipopt.print_level"] = 0
             self.create_solver(solver=solver, options=nlp_solver_options)
 
         if mpopt_options == {}:
-            mpopt_options["method"] = self._DEFAULT_METHOD
-            mpopt_options["sub_method"] = self._DEFAULT_SUB_METHOD
+            mpopt_options = {
+                "method": self._DEFAULT_METHOD,
+                "sub_method": self._DEFAULT_SUB_METHOD,
+            }
 
         self.iter_count, self.iter_info = 0, dict()
         sw_old = []
-- 
2.43.0


From 814164d0d1243f27a9b63829d0015449fdabfd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:13 +0000
Subject: [PATCH 11/42] fix: control slope continuity holds in time for
 segments of different width

---
 mpopt/mpopt.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 2020ca6..18dde1b 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -420,7 +420,11 @@ class mpopt:
         comp_interpolation_D = self.collocation.get_composite_interpolation_Dmatrix_at(
             taus_end, self.poly_orders, order=1
         )
-        _compD = comp_interpolation_D[1:-1][::2] - comp_interpolation_D[2:-1][::2]
+        # Slope in time is the slope in tau divided by the width of the segment
+        h_seg = self.seg_widths[:, phase]
+        _compD = comp_interpolation_D[1:-1][::2] - ca.mtimes(
+            ca.diag(h_seg[:-1] / h_seg[1:]), comp_interpolation_D[2:-1][::2]
+        )
 
         _compDU = (
             ca.kron(ca.DM.eye(self._ocp.nu), _compD) if self._ocp.nu > 1 else _compD
-- 
2.43.0


From 068b72a4f7331362955fae43067b213690765994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:24 +0000
Subject: [PATCH 12/42] fix: bounds on the control slope apply to its rate in
 time

---
 mpopt/mpopt.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 18dde1b..6631b67 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -338,7 +338,17 @@ class mpopt:
                 if self._ocp.nu > 1
                 else self._compD
             )
-            DU = ca.mtimes(_compDU, self.U[phase][:])
+            # Slope of the unscaled control in time at each collocation node
+            h_phase = (self.tf[phase] - self.t0[phase]) / self._ocp.scale_t
+            h_nodes = ca.vertcat(
+                *[
+                    h_phase / (self.tau1 - self.tau0) * self.seg_widths[seg, phase]
+                    for seg, p in enumerate(self.poly_orders)
+                    for _ in range(p if seg > 0 else p + 1)
+                ]
+            )
+            scale_u = ca.vertcat(self._ocp.scale_u)
+            DU = ca.mtimes(_compDU, self.U[phase][:]) / ca.kron(scale_u, h_nodes)
             nDu = DU.size1()
             DUmin = [self._ocp.lbdu[phase]] * (nDu)
             DUmax = [self._ocp.ubdu[phase]] * (nDu)
-- 
2.43.0


From 6b5c6380b2677e6604783eb961eb7b73cfc45d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:06 +0000
Subject: [PATCH 13/42] fix: mpopt_adaptive honours control slope continuity

---
 mpopt/mpopt.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 6631b67..20f483c 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3179,6 +3179,11 @@ class mpopt_adaptive(mpopt):
             mayer_term,
         ) = self.get_nlp_constraints_for_terminal_contraints(phase)
         (DU, DUmin, DUmax) = self.get_nlp_constraints_for_control_input_slope(phase)
+        (
+            dU,
+            dUmin,
+            dUmax,
+        ) = self.get_nlp_constrains_for_control_slope_continuity_across_segments(phase)
 
         # Constraints related to segment widths
         (SW, SWmin, SWmax) = self.get_nlp_constrains_for_segment_widths(phase)
@@ -3187,9 +3192,9 @@ class mpopt_adaptive(mpopt):
         J = mayer_term + self.get_integrated_running_cost(q, phase)
 
         # Merge constraint vectors into sigle constraint vector
-        G = ca.vertcat(*[F, C, DU, TC, SW])
-        Gmin = np.concatenate([Fmin, Cmin, DUmin, TCmin, SWmin])
-        Gmax = np.concatenate([Fmax, Cmax, DUmax, TCmax, SWmax])
+        G = ca.vertcat(*[F, C, DU, dU, TC, SW])
+        Gmin = np.concatenate([Fmin, Cmin, DUmin, dUmin, TCmin, SWmin])
+        Gmax = np.concatenate([Fmax, Cmax, DUmax, dUmax, TCmax, SWmax])
 
         return (G, Gmin, Gmax, J)
 
-- 
2.43.0


From 262ea179b74201e2e29f69fd75336df0b2c73bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 14/42] fix: process_results keeps state residuals when only
 those are requested

---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 20f483c..ee5ded9 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -945,7 +945,7 @@ class mpopt:
             tdx, res_dx = self.get_dynamics_residuals(solution)
             resid_value["t_dx"] = [tdx, res_dx]
             rdx_time = time.monotonic()
-        else:
+        if not resid_value:
             resid_value = None
 
         r_time = time.monotonic()
@@ -3340,7 +3340,7 @@ class mpopt_adaptive(mpopt):
             tdx, res_dx = self.get_dynamics_residuals(solution)
             resid_value["t_dx"] = [tdx, res_dx]
             rdx_time = time.monotonic()
-        else:
+        if not resid_value:
             resid_value = None
 
         r_time = time.monotonic()
-- 
2.43.0


From 50beebd6b89478ed699d8e4557325977783f3cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 15/42] fix: second derivative honours the requested grid type

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index ee5ded9..dba417d 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1336,7 +1336,7 @@ class mpopt:
             if grid_type is None:
                 grid_type = self.grid_type[phase]
             target_nodes = self.get_residual_grid_taus(
-                phase=phase, grid_type=self.grid_type[phase]
+                phase=phase, grid_type=grid_type
             )
         else:
             target_nodes = nodes
-- 
2.43.0


From 01ed97c9a1a5f06f5d899513cd0f2ec0946764d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:40 +0000
Subject: [PATCH 16/42] fix: phases without links can be transcribed

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index dba417d..12f198c 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -506,7 +506,7 @@ class mpopt:
                     phase linking constraints, discontinuities across
                     states, controls and time variables.
         """
-        if self._ocp.n_phases < 2:
+        if self._ocp.n_phases < 2 or len(self._ocp.phase_links) == 0:
             return ([], [], [])
         if not self._variables_created:
             self.create_variables()
-- 
2.43.0


From a0a79d21bec551f01fc85447d3fe661d466a2e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 17/42] fix: equally spaced fallback scheme returns degree + 1
 nodes

---
 mpopt/mpopt.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 12f198c..fb95af8 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4217,11 +4217,7 @@ class CollocationRoots:
             )
         else:
             # Unknown scheme, return equally spaced points
-            return (
-                lambda n_nodes: np.linspace(self._TAU_MIN, self._TAU_MAX, n_nodes)
-                if n_nodes > 1
-                else np.array([self._TAU_MIN, self._TAU_MAX])
-            )
+            return lambda deg: np.linspace(self._TAU_MIN, self._TAU_MAX, deg + 1)
 
     @staticmethod
     def roots_legendre_gauss(tau_min=-1, tau_max=1):
-- 
2.43.0


From 86e7d54344a5c6522ab997353d408c1a01aec568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 18/42] fix: LG scheme includes the segment end, giving degree
 + 1 nodes

---
 mpopt/mpopt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index fb95af8..88e9acf 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4221,7 +4221,7 @@ class CollocationRoots:
 
     @staticmethod
     def roots_legendre_gauss(tau_min=-1, tau_max=1):
-        """Get legendre-gauss-radau collocation points in the interval [_TAU_MIN, _TAU_MAX)
+        """Get legendre-gauss collocation points in the interval [_TAU_MIN, _TAU_MAX]
 
         args: None
 
@@ -4229,8 +4229,8 @@ class CollocationRoots:
         """
         # LG roots : same as scipy.special.j_roots(deg, 0, 0)[0]
         def lg_roots(deg):
-            roots = np.polynomial.legendre.leggauss(deg - 1)[0]
-            roots_default = np.append(-1, roots)
+            roots = np.polynomial.legendre.leggauss(deg - 1)[0] if deg > 1 else []
+            roots_default = np.append(np.append(-1, roots), 1.0)
 
             return tau_min + (tau_max - tau_min) / (2) * (roots_default + 1)
 
-- 
2.43.0


From ccc682a3187498e47224f024b0d2b60fc9d36e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:02 +0000
Subject: [PATCH 19/42] fix: control-slope refinement places boundaries at the
 steepest nodes

Candidate times were sorted by increasing slope, so the flattest ones above
the threshold were chosen.
---
 mpopt/mpopt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 88e9acf..9bbd40c 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2858,7 +2858,8 @@ class mpopt_h_adaptive(mpopt):
         # du_grid = np.interp(t_grid, t_orig, du_max)
 
         t_du = [i for i in zip(t_orig[1:-1], du_max[1:-1]) if i[1] >= threshold]
-        t_du.sort(key=lambda t: t[1])
+        # Steepest first
+        t_du.sort(key=lambda t: t[1], reverse=True)
         if len(t_du) > 0:
             times = np.array(t_du)[:, 0]
         else:
@@ -2874,7 +2875,7 @@ class mpopt_h_adaptive(mpopt):
         n_points_available = len(times)
         segment_widths = [None] * n_segments
         if n_points_available > (n_segments - 2):
-            times = times[:n_segments]
+            times = times[: n_segments - 1]
             times.sort()
             segment_widths[0] = times[0] - t0
             for i in range(1, n_segments - 1):
-- 
2.43.0


From 9b49a069ef9d8946ff37d12a3ef17286245f4b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 20/42] fix: relative dynamics residuals above one are
 reported, not asserted away

---
 mpopt/mpopt.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 9bbd40c..5430dda 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1404,7 +1404,7 @@ class mpopt:
             :options: Options for the target grid
             :residual_type:
                 None - Actual residual values
-                "relative" - Scaled residual between -1 and 1
+                "relative" - Residual relative to the largest dynamics in the phase
 
         returns:
             :residuals: residual vector for the dynamics at the given taus
@@ -1441,7 +1441,6 @@ class mpopt:
                 for seg, res_seg in enumerate(residuals[phase]):
                     if res_seg is not None:
                         residuals[phase][seg] = np.array(res_seg) / max_val
-                        assert abs(residuals[phase][seg]).max() <= 1
 
         if plot:
             fig, axs = post_process.plot_residuals(
-- 
2.43.0


From 0c43d32454762a4b7b809ffafa6af6edcbfdb231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 21/42] fix: degree-1 segments can be transcribed with several
 states or controls

[:] keeps a single row a row, so the constraint blocks could not be stacked.
---
 mpopt/mpopt.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 5430dda..2a7617b 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -393,7 +393,7 @@ class mpopt:
         if (self._ocp.lbu[phase] > -np.inf).any() or (
             self._ocp.ubu[phase] < np.inf
         ).any():
-            mU.append(ui[:])
+            mU.append(ca.vec(ui))
             n_mid = ui.size1()
             mUmin.append(np.repeat(self._ocp.lbu[phase] * self._ocp.scale_u, n_mid))
             mUmax.append(np.repeat(self._ocp.ubu[phase] * self._ocp.scale_u, n_mid))
@@ -3087,7 +3087,7 @@ class mpopt_adaptive(mpopt):
         if (self._ocp.lbu[phase] > -np.inf).any() or (
             self._ocp.ubu[phase] < np.inf
         ).any():
-            sw.append(ui[:])
+            sw.append(ca.vec(ui))
             n_mid = ui.size1()
             swmin.append(np.repeat(self._ocp.lbu[phase] * self._ocp.scale_u, n_mid))
             swmax.append(np.repeat(self._ocp.ubu[phase] * self._ocp.scale_u, n_mid))
@@ -3096,7 +3096,7 @@ class mpopt_adaptive(mpopt):
         if (self._ocp.lbx[phase] > -np.inf).any() or (
             self._ocp.ubx[phase] < np.inf
         ).any():
-            sw.append(xi[:])
+            sw.append(ca.vec(xi))
             n_mid = xi.size1()
             swmin.append(np.repeat(self._ocp.lbx[phase] * self._ocp.scale_x, n_mid))
             swmax.append(np.repeat(self._ocp.ubx[phase] * self._ocp.scale_x, n_mid))
@@ -3136,9 +3136,8 @@ class mpopt_adaptive(mpopt):
                 start, end = sum(n_taus[:seg]), sum(n_taus[: (seg + 1)])
                 if start == end:
                     continue
-                residual_phase[seg] = (
-                    self.seg_widths[seg, phase]
-                    * (Dxi[start:end, :] - ca.vertcat(*f))[:]
+                residual_phase[seg] = self.seg_widths[seg, phase] * ca.vec(
+                    Dxi[start:end, :] - ca.vertcat(*f)
                 )
 
             residuals = ca.vertcat(*residual_phase)
-- 
2.43.0


From adb6fa03bb689dc4824177f956e244e1b61d0f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 22/42] fix: residual plots handle segments with different node
 counts and any first phase

---
 mpopt/mpopt.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 2a7617b..4da9d72 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2242,16 +2242,11 @@ class post_process:
                 for err in residual
             ]
         )
-        t, r = time[0], norm_residual(residuals[0])
-        if len(phases) > 1:
-            for phase in phases[1:]:
-                tp, rp = time[phase], norm_residual(residuals[phase])
-                r = np.vstack((r, rp))
-                t = np.vstack((t, tp))
-
-            r = np.concatenate(r)
-
-        t = np.concatenate(t)
+        r = np.concatenate([norm_residual(residuals[phase]) for phase in phases])
+        # Segments without residual nodes have no time (None or [])
+        t = np.concatenate(
+            [t_seg for phase in phases for t_seg in time[phase] if t_seg is not None]
+        )
         r = r.reshape(t.shape[0], 1)
         return (r, t)
 
@@ -2568,7 +2563,7 @@ class mpopt_h_adaptive(mpopt):
             self.fig, self.axs = post_process.plot_residuals(
                 ti,
                 residuals,
-                phases=self._ocp.phases_to_plot,
+                phases=self._ocp.phases_to_plot[0],
                 name=f"Iter {self.iter_count}",
                 fig=self.fig,
                 axs=self.axs,
@@ -2577,7 +2572,7 @@ class mpopt_h_adaptive(mpopt):
             self.fig, self.axs = post_process.plot_residuals(
                 ti,
                 residuals,
-                phases=self._ocp.phases_to_plot,
+                phases=self._ocp.phases_to_plot[0],
                 # name=f"Iter {self.iter_count}",
                 fig=self.fig,
                 axs=self.axs,
@@ -2751,7 +2746,7 @@ class mpopt_h_adaptive(mpopt):
             self.fig, self.axs = post_process.plot_residuals(
                 ti,
                 residuals,
-                phases=self._ocp.phases_to_plot,
+                phases=self._ocp.phases_to_plot[0],
                 name=f"Iter {self.iter_count}",
                 fig=self.fig,
                 axs=self.axs,
@@ -2760,7 +2755,7 @@ class mpopt_h_adaptive(mpopt):
             self.fig, self.axs = post_process.plot_residuals(
                 ti,
                 residuals,
-                phases=self._ocp.phases_to_plot,
+                phases=self._ocp.phases_to_plot[0],
                 # name=f"Iter {self.iter_count}",
                 fig=self.fig,
                 axs=self.axs,
-- 
2.43.0


From e050c36838f641cca38064d1c78546f7db7300df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 23/42] fix: plot_phases falls back to phase 0 when no phases
 are given

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 4da9d72..3f6bb6a 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1925,7 +1925,7 @@ class post_process:
             if "phases_to_plot" in self.options:
                 phases = self.options["phases_to_plot"][0]
             else:
-                phase = [0]
+                phases = [0]
 
         if residuals:
             if self.residuals is not None:
-- 
2.43.0


From 48dc4895393941ce826f3d1e6abcc60e162dc304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 24/42] fix: solution plots handle residual grids with empty
 segments

---
 mpopt/mpopt.py | 56 ++++++++++++++++++--------------------------------
 1 file changed, 20 insertions(+), 36 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 3f6bb6a..c7fd5c1 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1946,30 +1946,16 @@ class post_process:
         if residuals:
             if self.residuals is not None:
                 if ("t_x" in self.residuals) and ("t_dx" in self.residuals):
-                    y_data = [
-                        r_seg
-                        for r_p in self.residuals["t_x"][1]
-                        for r_seg in r_p
-                        if r_seg is not None
-                    ]
-
-                    x_data = np.hstack(np.concatenate(self.residuals["t_x"][0]))
-                    y_data = np.concatenate(y_data)
+                    y_data = self.stack_segments(self.residuals["t_x"][1])
+                    x_data = self.stack_segments(self.residuals["t_x"][0])
 
                     ax2 = plt.subplot(2, 2, 2)
                     dims = y_data.shape[1]
                     self.plot_curve(ax2, y_data, x_data, "x", "States error", tics=tics)
 
                     ax3 = plt.subplot(2, 2, 4)
-                    y_data = [
-                        r_seg
-                        for r_p in self.residuals["t_dx"][1]
-                        for r_seg in r_p
-                        if r_seg is not None
-                    ]
-
-                    x_data = np.hstack(np.concatenate(self.residuals["t_dx"][0]))
-                    y_data = np.concatenate(y_data)
+                    y_data = self.stack_segments(self.residuals["t_dx"][1])
+                    x_data = self.stack_segments(self.residuals["t_dx"][0])
 
                     self.plot_curve(
                         ax3, y_data, x_data, "dx", "Dynamics error", tics=tics
@@ -1979,29 +1965,15 @@ class post_process:
                 else:
                     ax2 = plt.subplot(1, 2, 2)
                     if "t_x" in self.residuals:
-                        y_data = [
-                            r_seg
-                            for r_p in self.residuals["t_x"][1]
-                            for r_seg in r_p
-                            if r_seg is not None
-                        ]
-
-                        x_data = np.hstack(np.concatenate(self.residuals["t_x"][0]))
-                        y_data = np.concatenate(y_data)
+                        y_data = self.stack_segments(self.residuals["t_x"][1])
+                        x_data = self.stack_segments(self.residuals["t_x"][0])
 
                         self.plot_curve(
                             ax2, y_data, x_data, "x", "States error", tics=tics
                         )
                     else:
-                        y_data = [
-                            np.concatenate(
-                                [r_seg for r_seg in r_p if r_seg is not None]
-                            )
-                            for r_p in self.residuals["t_dx"][1]
-                        ]
-
-                        x_data = np.hstack(np.concatenate(self.residuals["t_dx"][0]))
-                        y_data = np.concatenate(y_data)
+                        y_data = self.stack_segments(self.residuals["t_dx"][1])
+                        x_data = self.stack_segments(self.residuals["t_dx"][0])
 
                         self.plot_curve(
                             ax2, y_data, x_data, "dx", "Dynamics error", tics=tics
@@ -2011,6 +1983,18 @@ class post_process:
 
         return fig, axs
 
+    @staticmethod
+    def stack_segments(data):
+        """Stack the residual data (Phase -> segments), skipping empty segments"""
+        return np.concatenate(
+            [
+                d_seg
+                for d_p in data
+                for d_seg in d_p
+                if d_seg is not None and len(d_seg) > 0
+            ]
+        )
+
     def plot_x(
         self,
         dims: List = None,
-- 
2.43.0


From 45f7dec0ec7b08d1439f13d800beba3d9669ad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 25/42] fix: solve_ph no longer reads an undefined grid type

---
 mpopt/mpopt.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index c7fd5c1..c558cda 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4446,8 +4446,6 @@ class mpopt_ph_adaptive(mpopt):
                 for p in poly_orders
             ]
 
-        if grid_type is None:
-            grid_type = self.grid_type[0]
         # ph-Adaptive algorithm (http://dx.doi.org/10.1016/j.jfranklin.2015.05.028)
         nlp_sw_params = []  # Initialize
         poly_orders = []
-- 
2.43.0


From 539b5e665ca8b6a3afe3d7e89286e5788c3bfb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 26/42] fix: solve_ph passes refined meshes to the solver, in
 every phase

Refined widths were passed under a keyword solve() ignores, meshes were
ragged arrays, one converged phase ended the refinement of all, and the
widths of all phases but the last were dropped.
---
 mpopt/mpopt.py | 49 ++++++++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index c558cda..f9f793e 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4447,21 +4447,26 @@ class mpopt_ph_adaptive(mpopt):
             ]
 
         # ph-Adaptive algorithm (http://dx.doi.org/10.1016/j.jfranklin.2015.05.028)
-        nlp_sw_params = []  # Initialize
+        nlp_sw_params = [[] for _ in range(self._ocp.n_phases)]  # Initialize
         poly_orders = []
+        solve_dict = dict(solve_dict)
         for iter_no in range(max_iter):
             if iter_no > 0:
                 # Update Mesh for the next iteration
-                self._nlp_sw_params = np.hstack(nlp_sw_params)
-                solve_dict["nlp_sw_params"] = self._nlp_sw_params
-                self.poly_orders = np.hstack(poly_orders)
-                self.n_segments = self._nlp_sw_params.shape[0]
+                solve_dict["mpopt_options"] = {
+                    **solve_dict.get("mpopt_options", {}),
+                    "nlp_sw_params": np.concatenate(nlp_sw_params),
+                }
+                self.poly_orders = poly_orders
+                self.n_segments = len(poly_orders)
 
             # ************************** Sparse solution ********************
             # Step 1 : Solve the problem on initial mesh (Sparse for reference)
 
             self.reset_mpopt()
             solution = self.solve(reinitialize_nlp=True, **solve_dict)
+            # Given initial solution does not fit the refined meshes
+            solve_dict.pop("initial_solution", None)
             # Mesh points in time in each segment of a given phase
             # taus = np.array([self.collocation._taus_fn(deg) for deg in self.poly_orders])
             # taus = [taus for phase in range(self._ocp.n_phases)]
@@ -4486,18 +4491,19 @@ class mpopt_ph_adaptive(mpopt):
                 if status.any():
                     # This phase needs refinement, increase the order of the polynomial by 3 for next iteration
                     poly_orders = [
-                        self.poly_orders[i] + 3 * int(st) for i, st in enumerate(status)
+                        max(poly_orders[i], self.poly_orders[i] + 3 * int(st))
+                        for i, st in enumerate(status)
                     ]
                     refine_phase[i_phase] = True
 
-            if not np.array(refine_phase).all():
+            if not np.array(refine_phase).any():
                 return solution
 
             # Compute reduction in mesh size
             # Skipped for now ---- Yet to be implemented
 
             # Compute nodes in next fine mesh (poly_orders + 3)
-            taus_new = np.array([self.collocation._taus_fn(deg) for deg in poly_orders])
+            taus_new = [self.collocation._taus_fn(deg) for deg in poly_orders]
             taus_new = [taus_new for phase in range(self._ocp.n_phases)]
 
             # Compute second derivative at nodes of next iteration
@@ -4555,14 +4561,13 @@ class mpopt_ph_adaptive(mpopt):
                     ]
                     refine_phase[i_phase] = True
 
-            if not np.array(refine_phase).all():
+            if not np.array(refine_phase).any():
                 return solution_new
 
             abs_max_residual = 0
             # Find non-smooth segments where residual is more than the required tolerence
+            split_seg = [False] * self.n_segments
             for i_phase, max_r_phase in enumerate(max_residual_new):
-                poly_orders = []
-                nlp_sw_params = []
                 max_seg_residual = np.array(max_r_phase)[:, 1].max(axis=1)
                 if max_seg_residual.max() > abs_max_residual:
                     abs_max_residual = max_seg_residual.max()
@@ -4575,11 +4580,7 @@ class mpopt_ph_adaptive(mpopt):
                         ).any()
                     ):
                         # Split i_seg in additional segments based on desired residual
-                        new_segments = 2
-                        nlp_sw_params.append(
-                            [self._nlp_sw_params[i_seg] / new_segments] * new_segments
-                        )
-                        poly_orders.append([self.poly_orders[i_seg]] * new_segments)
+                        split_seg[i_seg] = True
 
                         # max_residual_seg = residual_r[phase][seg].max()
                         # max_residual_seg_sparse = residual_rs[phase][seg].max()
@@ -4595,10 +4596,16 @@ class mpopt_ph_adaptive(mpopt):
                         # )
                         # n_splits = min(np.ceil(1 / seg_width_new), n_splits_max)
                         # seg_refine_phase[phase][seg] = n_splits
-                    else:
-                        # The solution is smooth and the residual is higher than the required tolerance.
-                        # Increase the order of polynomial
-                        poly_orders.append(self.poly_orders[i_seg])
-                        nlp_sw_params.append(self._nlp_sw_params[i_seg])
+
+            # All the phases share number of segments and polynomial orders
+            poly_orders = []
+            nlp_sw_params = [[] for _ in range(self._ocp.n_phases)]
+            for i_seg, split in enumerate(split_seg):
+                # If the solution is smooth, continue with the increased order of polynomial
+                new_segments = 2 if split else 1
+                poly_orders += [self.poly_orders[i_seg]] * new_segments
+                for i_phase in range(self._ocp.n_phases):
+                    width = self._nlp_sw_params[self.n_segments * i_phase + i_seg]
+                    nlp_sw_params[i_phase] += [width / new_segments] * new_segments
 
         return solution_new
-- 
2.43.0


From da26196a0d6944cb49527075881f2d426726a7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 27/42] fix: solve_ph respects the maximum number of segments

---
 mpopt/mpopt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index f9f793e..19c3859 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4600,9 +4600,11 @@ class mpopt_ph_adaptive(mpopt):
             # All the phases share number of segments and polynomial orders
             poly_orders = []
             nlp_sw_params = [[] for _ in range(self._ocp.n_phases)]
+            n_free = self.max_segments - self.n_segments
             for i_seg, split in enumerate(split_seg):
                 # If the solution is smooth, continue with the increased order of polynomial
-                new_segments = 2 if split else 1
+                new_segments = 2 if split and n_free > 0 else 1
+                n_free -= new_segments - 1
                 poly_orders += [self.poly_orders[i_seg]] * new_segments
                 for i_phase in range(self._ocp.n_phases):
                     width = self._nlp_sw_params[self.n_segments * i_phase + i_seg]
-- 
2.43.0


From da6e0ddbbceec90fe39f121d2c38a9093fa7d5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 28/42] fix: quadrature weights over an empty interval are zero

---
 mpopt/mpopt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 19c3859..af96cf4 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3867,6 +3867,9 @@ class Collocation:
 
         n = len(self.roots[key])
         quad_weights = ca.DM.zeros(n)
+        if tau0 == tau1:
+            # Integrator does not accept an empty interval
+            return quad_weights
         for i in range(n):
             if self.D_MATRIX_METHOD == "symbolic":
                 pint = ca.integrator(
-- 
2.43.0


From 4a7fe371423dd3184bd155b33d5c2e7839a35440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 29/42] fix: control slope bounds hold fractional values

---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index af96cf4..c8e1e22 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3480,8 +3480,8 @@ class OCP:
 
         # Slope has_constraints
         self.diff_u = np.array([0] * self.n_phases)
-        self.lbdu = np.array([-15 for _ in range(self.n_phases)])
-        self.ubdu = np.array([15 for _ in range(self.n_phases)])
+        self.lbdu = np.array([-15.0 for _ in range(self.n_phases)])
+        self.ubdu = np.array([15.0 for _ in range(self.n_phases)])
 
         # Constrains on control input at mid point of collocation nodes
         # Enabled by default
-- 
2.43.0


From 1e67407465263635db4b459fcdbde7ccf6d9db1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 30/42] fix: h-adaptive solve accepts a warm start without a
 previous solution

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index c8e1e22..66853a0 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2499,7 +2499,7 @@ class mpopt_h_adaptive(mpopt):
         if self.n_segments == 1:
             return default_widths, max_error
 
-        if solution is None:
+        if solution is None or "x" not in solution:
             # Warning, Solution not found, returning default segment widths
             return default_widths, max_error
 
-- 
2.43.0


From e7c8ae48427eeab95dfa69d5b03be455a43bf624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 31/42] fix: keep own copy of the segment widths given to solve

Results processed later read the widths of the solve; reusing the list given
in mpopt_options changed the times of earlier results.
---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 66853a0..ffd2dd2 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -817,7 +817,7 @@ class mpopt:
 
         # By default, these paramers are of equal segment width
         if "nlp_sw_params" in mpopt_options:
-            self._nlp_sw_params = mpopt_options["nlp_sw_params"]
+            self._nlp_sw_params = copy.deepcopy(mpopt_options["nlp_sw_params"])
         else:
             self._nlp_sw_params = self.get_segment_width_parameters(initial_solution)
 
-- 
2.43.0


From 39b3bf8fc771dd368422d3c6b0a7e5e63165fc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 32/42] fix: process an earlier solution of the width optimizer
 with its own widths

Results and residuals of a solution other than the latest one were computed
on the segment widths of the latest solve.
---
 mpopt/mpopt.py | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index ffd2dd2..8e6d5b6 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3243,12 +3243,38 @@ class mpopt_adaptive(mpopt):
 
         solution = self.nlp_solver(**solver_inputs, **self.nlp_bounds)
 
-        sw_fn = ca.Function("sw", [self.Z], [self.seg_widths[:]], ["z"], ["h"])
-        self._nlp_sw_params = np.concatenate(sw_fn(solution["x"]).full())
+        self.update_segment_widths(solution)
         print(f"Optimal segment width fractions: {self._nlp_sw_params}")
 
         return solution
 
+    def update_segment_widths(self, solution) -> None:
+        """Use the optimized segment widths of the given solution in its results
+
+        args:
+            :solution: NLP solution (of the latest solve or an earlier one)
+        """
+        sw_fn = ca.Function("sw", [self.Z], [self.seg_widths[:]], ["z"], ["h"])
+        self._nlp_sw_params = np.concatenate(sw_fn(solution["x"]).full())
+
+    def get_states_residuals(self, solution, *args, **kwargs):
+        """Refer mpopt.get_states_residuals"""
+        self.update_segment_widths(solution)
+
+        return super().get_states_residuals(solution, *args, **kwargs)
+
+    def get_dynamics_residuals(self, solution, *args, **kwargs):
+        """Refer mpopt.get_dynamics_residuals"""
+        self.update_segment_widths(solution)
+
+        return super().get_dynamics_residuals(solution, *args, **kwargs)
+
+    def get_state_second_derivative(self, solution, *args, **kwargs):
+        """Refer mpopt.get_state_second_derivative"""
+        self.update_segment_widths(solution)
+
+        return super().get_state_second_derivative(solution, *args, **kwargs)
+
     def init_trajectories(self, phase: int = 0) -> ca.Function:
         """Initialize trajectories of states, constrols and time variables
 
@@ -3303,6 +3329,7 @@ class mpopt_adaptive(mpopt):
             :post: Object of post_process class (Initialized)
 
         """
+        self.update_segment_widths(solution)
         start_time = time.monotonic()
         trajectories = [
             self.init_trajectories(phase) for phase in range(self._ocp.n_phases)
-- 
2.43.0


From 10e8b817f31741482237ddb48a1fb6209c4b4e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 33/42] fix: keep own copy of the polynomial orders

Reusing the list of orders after creating an optimizer changed its mesh.
---
 mpopt/mpopt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 8e6d5b6..f9e09ed 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -71,7 +71,9 @@ class mpopt:
 
         # if poly_orders is an integer, convert it to list with n_segments elements
         self.poly_orders = (
-            [poly_orders] * n_segments if isinstance(poly_orders, int) else poly_orders
+            [poly_orders] * n_segments
+            if isinstance(poly_orders, int)
+            else list(poly_orders)
         )
 
         self._ocp = copy.deepcopy(problem)
-- 
2.43.0


From 541152e098af5973e0ab02a7a4d9cee89c72d77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 34/42] fix: keep the polynomial orders of a solution with its
 results

Changing the mesh of an optimizer in place altered earlier results.
---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index f9e09ed..3c4a233 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -958,7 +958,7 @@ class mpopt:
             "na": self._ocp.na,
             "nPh": self._ocp.n_phases,
             "ns": self.n_segments,
-            "poly_orders": self.poly_orders,
+            "poly_orders": list(self.poly_orders),
             "N": self._Npoints,
             "phases_to_plot": self._ocp.phases_to_plot,
             "scale_x": self._ocp.scale_x,
@@ -3358,7 +3358,7 @@ class mpopt_adaptive(mpopt):
             "na": self._ocp.na,
             "nPh": self._ocp.n_phases,
             "ns": self.n_segments,
-            "poly_orders": self.poly_orders,
+            "poly_orders": list(self.poly_orders),
             "N": self._Npoints,
             "phases_to_plot": self._ocp.phases_to_plot,
             "scale_x": self._ocp.scale_x,
-- 
2.43.0


From 27512ef8ebcb506a21d004c3696385d580f705fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 35/42] fix: leave an optimizer unchanged when a solve fails

An exception from the solver or a user function during solve left new symbols
or segment widths behind: earlier solutions could not be processed any more or
were processed on the wrong mesh.
---
 mpopt/mpopt.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 3c4a233..303d1f6 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -24,10 +24,38 @@ import itertools
 import casadi as ca  # type: ignore
 import matplotlib.pyplot as plt
 import copy
+import functools
 import math
 import time
 
 
+def unchanged_on_failure(*names):
+    """Decorator: the optimizer keeps the values of its attributes, if the method
+    raises (infeasible options of the solver, interrupted by the user etc.)
+
+    args:
+        :names: attributes to keep (Default: all)
+    """
+
+    def decorator(method):
+        @functools.wraps(method)
+        def wrapper(self, *args, **kwargs):
+            attributes = dict(self.__dict__)
+            try:
+                return method(self, *args, **kwargs)
+            except BaseException:
+                for name in names if names else list(self.__dict__):
+                    self.__dict__.pop(name, None)
+                for name in names if names else attributes:
+                    if name in attributes:
+                        self.__dict__[name] = attributes[name]
+                raise
+
+        return wrapper
+
+    return decorator
+
+
 class mpopt:
     """Multiphase Optimal Control Problem Solver
 
@@ -748,6 +776,7 @@ class mpopt:
         """
         return [1.0 / self.n_segments] * (self.n_segments * self._ocp.n_phases)
 
+    @unchanged_on_failure()
     def create_solver(self, solver: str = "ipopt", options: Dict = {}) -> None:
         """Create NLP solver
 
@@ -783,6 +812,7 @@ class mpopt:
         self.nlp_solver = ca.nlpsol("solver", solver, nlp_problem, default_options)
         self._nlpsolver_initialized = True
 
+    @unchanged_on_failure("_nlp_sw_params")
     def solve(
         self,
         initial_solution: Dict = None,
@@ -2336,6 +2366,7 @@ class mpopt_h_adaptive(mpopt):
         self.fig, self.axs = None, None
         self.plot_residual_evolution = False
 
+    @unchanged_on_failure("_nlp_sw_params")
     def solve(
         self,
         initial_solution: Dict = None,
@@ -3178,6 +3209,7 @@ class mpopt_adaptive(mpopt):
 
         return (G, Gmin, Gmax, J)
 
+    @unchanged_on_failure()
     def create_solver(self, solver: str = "ipopt", options: Dict = {}) -> None:
         """Create NLP solver
 
@@ -4461,6 +4493,7 @@ class mpopt_ph_adaptive(mpopt):
 
         return max_r_phases
 
+    @unchanged_on_failure()
     def solve_ph(self, max_iter=1, solve_dict: Dict = {}):
         """Solve OCP using adaptive ph method
 
-- 
2.43.0


From be29f2296459118854b90a3f3341df38d60834d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 36/42] fix: reject slope limits that do not fit the phases of
 the problem

---
 mpopt/mpopt.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 303d1f6..49c084e 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3752,8 +3752,15 @@ class OCP:
             assert self.lbe.shape[1] == self.nx
             assert self.ube.shape[1] == self.nx
 
+        assert len(self.diff_u) == self.n_phases
+        assert len(self.lbdu) == self.n_phases
+        assert len(self.ubdu) == self.n_phases
+        assert len(self.midu) == self.n_phases
+        assert len(self.du_continuity) == self.n_phases
+
         # Check if lower bound is less than upper bound
         for phase in range(self.n_phases):
+            assert self.lbdu[phase] <= self.ubdu[phase]
             for i in range(self.nx):
                 assert self.lbx[phase][i] <= self.ubx[phase][i]
             for i in range(self.nu):
-- 
2.43.0


From ae37b3dc51982911be660325121b601bea2bfd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:21 +0000
Subject: [PATCH 37/42] fix: look at single phases of a solution with its own
 widths

---
 mpopt/mpopt.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 49c084e..b06d8cd 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3309,6 +3309,30 @@ class mpopt_adaptive(mpopt):
 
         return super().get_state_second_derivative(solution, *args, **kwargs)
 
+    def get_state_second_derivative_single_phase(self, solution, *args, **kwargs):
+        """Refer mpopt.get_state_second_derivative_single_phase"""
+        self.update_segment_widths(solution)
+
+        return super().get_state_second_derivative_single_phase(solution, *args, **kwargs)
+
+    def get_dynamics_residuals_single_phase(self, solution, *args, **kwargs):
+        """Refer mpopt.get_dynamics_residuals_single_phase"""
+        self.update_segment_widths(solution)
+
+        return super().get_dynamics_residuals_single_phase(solution, *args, **kwargs)
+
+    def interpolate_single_phase(self, solution, *args, **kwargs):
+        """Refer mpopt.interpolate_single_phase"""
+        self.update_segment_widths(solution)
+
+        return super().interpolate_single_phase(solution, *args, **kwargs)
+
+    def compute_states_from_solution_dynamics(self, solution, *args, **kwargs):
+        """Refer mpopt.compute_states_from_solution_dynamics"""
+        self.update_segment_widths(solution)
+
+        return super().compute_states_from_solution_dynamics(solution, *args, **kwargs)
+
     def init_trajectories(self, phase: int = 0) -> ca.Function:
         """Initialize trajectories of states, constrols and time variables
 
-- 
2.43.0


From af78502e04f0919d23dd22a59df3c5753fa4ce42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:47 +0000
Subject: [PATCH 38/42] fix: looking at an earlier solution keeps the widths of
 the latest one

---
 mpopt/mpopt.py | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index b06d8cd..453e1e2 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -56,6 +56,27 @@ def unchanged_on_failure(*names):
     return decorator
 
 
+def with_widths_of_solution(method):
+    """Decorator: the method uses the segment widths of the given solution (of the
+    latest solve or an earlier one), the optimizer keeps those of the latest solve
+
+    args:
+        :method: method of the optimizer with the solution as first argument
+    """
+
+    @functools.wraps(method)
+    def wrapper(self, solution, *args, **kwargs):
+        latest = getattr(self, "_nlp_sw_params", None)
+        self.update_segment_widths(solution)
+        try:
+            return method(self, solution, *args, **kwargs)
+        finally:
+            if latest is not None:
+                self._nlp_sw_params = latest
+
+    return wrapper
+
+
 class mpopt:
     """Multiphase Optimal Control Problem Solver
 
@@ -3291,46 +3312,39 @@ class mpopt_adaptive(mpopt):
         sw_fn = ca.Function("sw", [self.Z], [self.seg_widths[:]], ["z"], ["h"])
         self._nlp_sw_params = np.concatenate(sw_fn(solution["x"]).full())
 
+    @with_widths_of_solution
     def get_states_residuals(self, solution, *args, **kwargs):
         """Refer mpopt.get_states_residuals"""
-        self.update_segment_widths(solution)
-
         return super().get_states_residuals(solution, *args, **kwargs)
 
+    @with_widths_of_solution
     def get_dynamics_residuals(self, solution, *args, **kwargs):
         """Refer mpopt.get_dynamics_residuals"""
-        self.update_segment_widths(solution)
-
         return super().get_dynamics_residuals(solution, *args, **kwargs)
 
+    @with_widths_of_solution
     def get_state_second_derivative(self, solution, *args, **kwargs):
         """Refer mpopt.get_state_second_derivative"""
-        self.update_segment_widths(solution)
-
         return super().get_state_second_derivative(solution, *args, **kwargs)
 
+    @with_widths_of_solution
     def get_state_second_derivative_single_phase(self, solution, *args, **kwargs):
         """Refer mpopt.get_state_second_derivative_single_phase"""
-        self.update_segment_widths(solution)
-
         return super().get_state_second_derivative_single_phase(solution, *args, **kwargs)
 
+    @with_widths_of_solution
     def get_dynamics_residuals_single_phase(self, solution, *args, **kwargs):
         """Refer mpopt.get_dynamics_residuals_single_phase"""
-        self.update_segment_widths(solution)
-
         return super().get_dynamics_residuals_single_phase(solution, *args, **kwargs)
 
+    @with_widths_of_solution
     def interpolate_single_phase(self, solution, *args, **kwargs):
         """Refer mpopt.interpolate_single_phase"""
-        self.update_segment_widths(solution)
-
         return super().interpolate_single_phase(solution, *args, **kwargs)
 
+    @with_widths_of_solution
     def compute_states_from_solution_dynamics(self, solution, *args, **kwargs):
         """Refer mpopt.compute_states_from_solution_dynamics"""
-        self.update_segment_widths(solution)
-
         return super().compute_states_from_solution_dynamics(solution, *args, **kwargs)
 
     def init_trajectories(self, phase: int = 0) -> ca.Function:
@@ -3362,6 +3376,7 @@ class mpopt_adaptive(mpopt):
 
         return trajectories
 
+    @with_widths_of_solution
     def process_results(
         self,
         solution,
@@ -3387,7 +3402,6 @@ class mpopt_adaptive(mpopt):
             :post: Object of post_process class (Initialized)
 
         """
-        self.update_segment_widths(solution)
         start_time = time.monotonic()
         trajectories = [
             self.init_trajectories(phase) for phase in range(self._ocp.n_phases)
-- 
2.43.0


From 5096476f91216caa91ab6066da938e7584ee2c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:15 +0000
Subject: [PATCH 39/42] fix: relative residuals of states that are zero
 throughout are not NaN

---
 mpopt/mpopt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 453e1e2..9d49cb2 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1214,6 +1214,8 @@ class mpopt:
                                 if max_val[id] > seg_max[id]
                                 else seg_max[id]
                             )
+                # States which are zero throughout have nothing to be relative to
+                max_val[max_val == 0] = 1
                 for seg, res_seg in enumerate(residuals[phase]):
                     if res_seg is not None:
                         residuals[phase][seg] = np.array(res_seg) / max_val
@@ -1491,6 +1493,8 @@ class mpopt:
                                 if max_val[id] > seg_max[id]
                                 else seg_max[id]
                             )
+                # Dynamics which are zero throughout have nothing to be relative to
+                max_val[max_val == 0] = 1
                 for seg, res_seg in enumerate(residuals[phase]):
                     if res_seg is not None:
                         residuals[phase][seg] = np.array(res_seg) / max_val
-- 
2.43.0


From cf7927e3b5f970d593b4ae48249b73bba1190359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:36 +0000
Subject: [PATCH 40/42] fix: residual panels show the requested phases

---
 mpopt/mpopt.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 9d49cb2..de371ee 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2003,16 +2003,16 @@ class post_process:
         if residuals:
             if self.residuals is not None:
                 if ("t_x" in self.residuals) and ("t_dx" in self.residuals):
-                    y_data = self.stack_segments(self.residuals["t_x"][1])
-                    x_data = self.stack_segments(self.residuals["t_x"][0])
+                    y_data = self.stack_segments(self.residuals["t_x"][1], phases)
+                    x_data = self.stack_segments(self.residuals["t_x"][0], phases)
 
                     ax2 = plt.subplot(2, 2, 2)
                     dims = y_data.shape[1]
                     self.plot_curve(ax2, y_data, x_data, "x", "States error", tics=tics)
 
                     ax3 = plt.subplot(2, 2, 4)
-                    y_data = self.stack_segments(self.residuals["t_dx"][1])
-                    x_data = self.stack_segments(self.residuals["t_dx"][0])
+                    y_data = self.stack_segments(self.residuals["t_dx"][1], phases)
+                    x_data = self.stack_segments(self.residuals["t_dx"][0], phases)
 
                     self.plot_curve(
                         ax3, y_data, x_data, "dx", "Dynamics error", tics=tics
@@ -2022,15 +2022,15 @@ class post_process:
                 else:
                     ax2 = plt.subplot(1, 2, 2)
                     if "t_x" in self.residuals:
-                        y_data = self.stack_segments(self.residuals["t_x"][1])
-                        x_data = self.stack_segments(self.residuals["t_x"][0])
+                        y_data = self.stack_segments(self.residuals["t_x"][1], phases)
+                        x_data = self.stack_segments(self.residuals["t_x"][0], phases)
 
                         self.plot_curve(
                             ax2, y_data, x_data, "x", "States error", tics=tics
                         )
                     else:
-                        y_data = self.stack_segments(self.residuals["t_dx"][1])
-                        x_data = self.stack_segments(self.residuals["t_dx"][0])
+                        y_data = self.stack_segments(self.residuals["t_dx"][1], phases)
+                        x_data = self.stack_segments(self.residuals["t_dx"][0], phases)
 
                         self.plot_curve(
                             ax2, y_data, x_data, "dx", "Dynamics error", tics=tics
@@ -2041,13 +2041,13 @@ class post_process:
         return fig, axs
 
     @staticmethod
-    def stack_segments(data):
-        """Stack the residual data (Phase -> segments), skipping empty segments"""
+    def stack_segments(data, phases):
+        """Stack the residual data of given phases (Phase -> segments), skipping empty segments"""
         return np.concatenate(
             [
                 d_seg
-                for d_p in data
-                for d_seg in d_p
+                for phase in phases
+                for d_seg in data[phase]
                 if d_seg is not None and len(d_seg) > 0
             ]
         )
-- 
2.43.0


From 46f0d50ddfc81918a54ba89e0b9095016fc1e3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:54 +0000
Subject: [PATCH 41/42] fix: state residuals of single phases can be plotted

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index de371ee..2054aec 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1223,7 +1223,7 @@ class mpopt:
 
         if plot:
             fig, axs = post_process.plot_residuals(
-                ti, residuals, phases=range(self._ocp.n_phases), fig=fig, axs=axs
+                ti, residuals, phases=phases, fig=fig, axs=axs
             )
 
         return x_int, u_int, ti, residuals
-- 
2.43.0


From d2abe3af9e04123305cf528cfa7d47e0570a41c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:32 +0000
Subject: [PATCH 42/42] fix: order and mesh refinement with segments that have
 no residual nodes

---
 mpopt/mpopt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 2054aec..f145e07 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4534,7 +4534,11 @@ class mpopt_ph_adaptive(mpopt):
         max_r_phases = [None] * len(residual)
         for i_phase, r_phase in enumerate(residual):
             max_r_phase = [None] * len(r_phase)
+            n_x = max(np.shape(r_seg)[1] for r_seg in r_phase if r_seg is not None)
             for i_seg, r_seg in enumerate(r_phase):
+                # Segments without residual nodes have no residual
+                if r_seg is None:
+                    r_seg = np.zeros((1, n_x))
                 r_max_seg = abs(np.array(r_seg)).max(axis=0)
                 i_max_seg = abs(np.array(r_seg)).argmax(axis=0)
                 max_r_phase[i_seg] = [i_max_seg, r_max_seg]
-- 
2.43.0

