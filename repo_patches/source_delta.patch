From d22d51764c8fa8a1864d592a2054f8db799402e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:06 +0000
Subject: [PATCH 01/42] fix: covariant vectors received by panel 2 from its
 south neighbour use the wrong first component

---
 wx_factory/process_topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/process_topology.py b/wx_factory/process_topology.py
index 2f23b91..cf498a5 100644
--- a/wx_factory/process_topology.py
+++ b/wx_factory/process_topology.py
@@ -188,7 +188,7 @@ class ProcessTopology:
                 lambda a1, a2, x: (a1 + 2.0 * x / (1.0 + x**2) * a2, a2),  # East neighbor
             ],
             [  # Panel 2
-                lambda a1, a2, x: (-a2, -a2 + 2.0 * x / (1.0 + x**2) * a1),  # South neighbor
+                lambda a1, a2, x: (-a1, -a2 + 2.0 * x / (1.0 + x**2) * a1),  # South neighbor
                 lambda a1, a2, x: (-a1, -a2 - 2.0 * x / (1.0 + x**2) * a1),  # North neighbor
                 lambda a1, a2, x: (a1 - 2.0 * x / (1.0 + x**2) * a2, a2),  # West neighbor
                 lambda a1, a2, x: (a1 + 2.0 * x / (1.0 + x**2) * a2, a2),  # East neighbor
-- 
2.43.0


From 355cf792a5258f3ab6c802183e65ade58ed594f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:22 +0000
Subject: [PATCH 02/42] fix: wrong polynomial weights when a phi-function
 evaluation needs several substeps

The augmented part of the starting vector at time t must contain t^(p-1-k)/(p-1-k)!, not t^(p-k+1)/(p-k+1)!.
---
 wx_factory/solvers/cwy_1s.py     | 2 +-
 wx_factory/solvers/cwy_ne.py     | 2 +-
 wx_factory/solvers/cwy_ne1s.py   | 2 +-
 wx_factory/solvers/dcgs2.py      | 2 +-
 wx_factory/solvers/icwy_1s.py    | 2 +-
 wx_factory/solvers/icwy_ne.py    | 2 +-
 wx_factory/solvers/icwy_ne1s.py  | 2 +-
 wx_factory/solvers/icwy_neiop.py | 2 +-
 wx_factory/solvers/kiops.py      | 2 +-
 wx_factory/solvers/kiops_nest.py | 2 +-
 wx_factory/solvers/pmex.py       | 2 +-
 wx_factory/solvers/pmex_1s.py    | 2 +-
 wx_factory/solvers/pmex_ne1s.py  | 2 +-
 13 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/wx_factory/solvers/cwy_1s.py b/wx_factory/solvers/cwy_1s.py
index bdb7901..ccf98ee 100644
--- a/wx_factory/solvers/cwy_1s.py
+++ b/wx_factory/solvers/cwy_1s.py
@@ -159,7 +159,7 @@ def cwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/cwy_ne.py b/wx_factory/solvers/cwy_ne.py
index 5efd894..61d53c2 100644
--- a/wx_factory/solvers/cwy_ne.py
+++ b/wx_factory/solvers/cwy_ne.py
@@ -147,7 +147,7 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/cwy_ne1s.py b/wx_factory/solvers/cwy_ne1s.py
index d22fe38..2055dbc 100644
--- a/wx_factory/solvers/cwy_ne1s.py
+++ b/wx_factory/solvers/cwy_ne1s.py
@@ -142,7 +142,7 @@ def cwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/dcgs2.py b/wx_factory/solvers/dcgs2.py
index 9ac2edd..98a289f 100644
--- a/wx_factory/solvers/dcgs2.py
+++ b/wx_factory/solvers/dcgs2.py
@@ -142,7 +142,7 @@ def dcgs2(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fal
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/icwy_1s.py b/wx_factory/solvers/icwy_1s.py
index 06c3010..a8f5793 100644
--- a/wx_factory/solvers/icwy_1s.py
+++ b/wx_factory/solvers/icwy_1s.py
@@ -153,7 +153,7 @@ def icwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/icwy_ne.py b/wx_factory/solvers/icwy_ne.py
index 075f316..086aeeb 100644
--- a/wx_factory/solvers/icwy_ne.py
+++ b/wx_factory/solvers/icwy_ne.py
@@ -142,7 +142,7 @@ def icwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/icwy_ne1s.py b/wx_factory/solvers/icwy_ne1s.py
index f220e7e..61f1c84 100644
--- a/wx_factory/solvers/icwy_ne1s.py
+++ b/wx_factory/solvers/icwy_ne1s.py
@@ -144,7 +144,7 @@ def icwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/icwy_neiop.py b/wx_factory/solvers/icwy_neiop.py
index 907fed3..f16774d 100644
--- a/wx_factory/solvers/icwy_neiop.py
+++ b/wx_factory/solvers/icwy_neiop.py
@@ -142,7 +142,7 @@ def icwy_neiop(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/kiops.py b/wx_factory/solvers/kiops.py
index 34a724b..3fa344d 100644
--- a/wx_factory/solvers/kiops.py
+++ b/wx_factory/solvers/kiops.py
@@ -158,7 +158,7 @@ def kiops(
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[0, n + k] = (tau_now**i) / math.factorial(i) * mu
             V[0, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/kiops_nest.py b/wx_factory/solvers/kiops_nest.py
index 1021819..1caee69 100644
--- a/wx_factory/solvers/kiops_nest.py
+++ b/wx_factory/solvers/kiops_nest.py
@@ -142,7 +142,7 @@ def kiops_nest(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/pmex.py b/wx_factory/solvers/pmex.py
index 16d1c7c..9c7a30a 100644
--- a/wx_factory/solvers/pmex.py
+++ b/wx_factory/solvers/pmex.py
@@ -141,7 +141,7 @@ def pmex(
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (tau_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/pmex_1s.py b/wx_factory/solvers/pmex_1s.py
index 04641fb..8456cc1 100644
--- a/wx_factory/solvers/pmex_1s.py
+++ b/wx_factory/solvers/pmex_1s.py
@@ -129,7 +129,7 @@ def pmex_1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, reu
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/pmex_ne1s.py b/wx_factory/solvers/pmex_ne1s.py
index b292a09..d1065e6 100644
--- a/wx_factory/solvers/pmex_ne1s.py
+++ b/wx_factory/solvers/pmex_ne1s.py
@@ -115,7 +115,7 @@ def pmex_ne1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, r
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
-- 
2.43.0


From 1ecd375a1fdc609b0f6ce0ed7e42bb83620ff39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:22 +0000
Subject: [PATCH 03/42] fix: misspelled names in the norm fallback of cwy_ne

---
 wx_factory/solvers/cwy_ne.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wx_factory/solvers/cwy_ne.py b/wx_factory/solvers/cwy_ne.py
index 61d53c2..5975509 100644
--- a/wx_factory/solvers/cwy_ne.py
+++ b/wx_factory/solvers/cwy_ne.py
@@ -231,9 +231,9 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
             if global_temp_vec[-1, 1] < sum_sqrt:
                 local_sum = V[j, 0:n] @ V[j, 0:n]
-                global_sum_nrm = numpy.empty_link(local_sum)
+                global_sum_nrm = numpy.empty_like(local_sum)
                 MPI.COMM_WORLD.Allreduce([local_sum, MPI.DOUBLE], [global_sum_nrm, MPI.DOUBLE])
-                nrm = math.sqrt(gloal_sum_nrm + V[j, n : n + p] @ V[j, n : n + p])
+                nrm = math.sqrt(global_sum_nrm + V[j, n : n + p] @ V[j, n : n + p])
                 reg_comm += 1
             else:
                 # compute norm estimate in quad precision
-- 
2.43.0


From 4bed6cadbb8c305a0f36bafb6ea5beb67e33a0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:22 +0000
Subject: [PATCH 04/42] fix: last projection column lost on happy breakdown

The Hessenberg column was stored after the breakdown test, so the small
matrix used for the final answer had a zero last column.
---
 wx_factory/solvers/cwy_ne.py     | 3 ++-
 wx_factory/solvers/icwy_ne.py    | 3 ++-
 wx_factory/solvers/icwy_neiop.py | 3 ++-
 wx_factory/solvers/pmex.py       | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/wx_factory/solvers/cwy_ne.py b/wx_factory/solvers/cwy_ne.py
index 5975509..b60eb28 100644
--- a/wx_factory/solvers/cwy_ne.py
+++ b/wx_factory/solvers/cwy_ne.py
@@ -244,6 +244,8 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
                 # nrm = math.sqrt(global_temp_vec[-1,1] - sum_sqrd)
 
+            H[0:j, j - 1] = tmp2
+
             # Happy breakdown
             if nrm < tol:
                 happy = True
@@ -251,7 +253,6 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
             # 7. Normalize
             H[j, j - 1] = nrm
-            H[0:j, j - 1] = tmp2
             V[j, :] /= nrm
 
             krystep += 1
diff --git a/wx_factory/solvers/icwy_ne.py b/wx_factory/solvers/icwy_ne.py
index 086aeeb..e7e321d 100644
--- a/wx_factory/solvers/icwy_ne.py
+++ b/wx_factory/solvers/icwy_ne.py
@@ -197,13 +197,14 @@ def icwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
 
                 # nrm = math.sqrt(global_temp[-1,1] - sum_sqrd)
 
+            H[0:j, j - 1] = tmp2
+
             # Happy breakdown
             if nrm < tol:
                 happy = True
                 break
 
             H[j, j - 1] = nrm
-            H[0:j, j - 1] = tmp2
             V[j, :] /= nrm
 
             krystep += 1
diff --git a/wx_factory/solvers/icwy_neiop.py b/wx_factory/solvers/icwy_neiop.py
index f16774d..691b834 100644
--- a/wx_factory/solvers/icwy_neiop.py
+++ b/wx_factory/solvers/icwy_neiop.py
@@ -199,13 +199,14 @@ def icwy_neiop(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
             else:
                 nrmish = math.sqrt(global_temp[-1, 1] - sum_sqrd)
 
+            H[indx:j, j - 1] = tmp
+
             # Happy breakdown
             if nrmish < tol:
                 happy = True
                 break
 
             H[j, j - 1] = nrmish
-            H[indx:j, j - 1] = tmp
             V[j, :] /= nrmish
 
             krystep += 1
diff --git a/wx_factory/solvers/pmex.py b/wx_factory/solvers/pmex.py
index 9c7a30a..970ead7 100644
--- a/wx_factory/solvers/pmex.py
+++ b/wx_factory/solvers/pmex.py
@@ -219,6 +219,8 @@ def pmex(
                 # compute norm estimate in quad precision
                 curr_nrm = device.xp.array(device.xp.sqrt(global_vec[-1, 1] - sum_sqrd), device.xp.float64)
 
+            H[0:j, j - 1] = sol
+
             # Happy breakdown
             if curr_nrm < tol:
                 happy = True
@@ -227,7 +229,6 @@ def pmex(
             # Normalize vector and set norm to H matrix
             V[j, :] /= curr_nrm
             H[j, j - 1] = curr_nrm
-            H[0:j, j - 1] = sol
 
             krystep += 1
 
-- 
2.43.0


From 7acfe4d31be9f2613ab279f42232f9438d6a60a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:20 +0000
Subject: [PATCH 05/42] fix: number of steps and step lengths when t_end is not
 an exact multiple of dt

Rounding of the accumulated time could produce one additional, vanishing
step. The shortened last step also overwrote the configured dt, which is used
to label outputs. run() did not go back to the starting time.
---
 wx_factory/simulation/simulation.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/wx_factory/simulation/simulation.py b/wx_factory/simulation/simulation.py
index b411ea8..24f289f 100644
--- a/wx_factory/simulation/simulation.py
+++ b/wx_factory/simulation/simulation.py
@@ -128,24 +128,25 @@ class Simulation:
 
         self.t = self.config.dt * self.starting_step
         self.integrator.sim_time = self.t
-        self.num_steps = int(numpy.ceil(self.config.t_end / self.config.dt)) - self.starting_step
+        # Avoid an additional (tiny) step that would only be due to the rounding of t_end / dt
+        total_num_steps = int(numpy.ceil(self.config.t_end / self.config.dt * (1.0 - 1e-12)))
+        self.num_steps = max(total_num_steps - self.starting_step, 0)
 
     def step(self):
         """Advance the simulation by one time step."""
-        if self.t < self.config.t_end:
-            if self.t + self.config.dt > self.config.t_end:
-                self.config.dt = self.config.t_end - self.t
-                self.t = self.config.t_end
-            else:
-                self.t += self.config.dt
+        if self.step_id < self.starting_step + self.num_steps:
+            # The last step is shortened (if needed) to end exactly at t_end
+            dt = min(self.config.dt, self.config.t_end - self.t)
+            is_last_step = self.step_id + 1 == self.starting_step + self.num_steps
+            self.t = self.config.t_end if is_last_step else self.t + dt
 
             self.step_id += 1
 
             if self.rank == 0:
                 print(f"Step {self.step_id} of {self.num_steps + self.starting_step}", flush=True)
 
-            self.Q = self.integrator.step(self.Q, self.config.dt)
-            self.Q = self.operators.apply_filters(self.Q, self.geometry, self.metric, self.config.dt)
+            self.Q = self.integrator.step(self.Q, dt)
+            self.Q = self.operators.apply_filters(self.Q, self.geometry, self.metric, dt)
 
             if self.rank == 0:
                 print(f"Elapsed time for step: {self.integrator.latest_time:.3f} secs", flush=True)
@@ -183,6 +184,7 @@ class Simulation:
         """Run the entire simulation step by step"""
         self.step_id = self.starting_step
         self.Q = self.initial_Q
+        self.t = self.config.dt * self.starting_step
 
         start_time = time()
 
-- 
2.43.0


From 9c17d501f14a278ca2dad4db934cd747d21ddd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:20 +0000
Subject: [PATCH 06/42] fix: writing shallow water output with topography
 modified the model state

The topography was added in place to the height of the state being output,
and the winds and potential vorticity were then computed with that height.
---
 wx_factory/output/output_cubesphere_netcdf.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index 882e7dd..4b9813d 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -312,9 +312,8 @@ class OutputCubesphereNetcdf(OutputCubesphere):
 
             # Unpack physical variables
             h = Q[idx_h, :, :]
-            if self.topo is not None:
-                h += self.topo.hsurf
-            self.store_field(geom.to_single_block(prepare(h)), "h", idx)
+            surface_height = h + self.topo.hsurf if self.topo is not None else h
+            self.store_field(geom.to_single_block(prepare(surface_height)), "h", idx)
 
             if self.config.case_number >= 2:
                 u1 = Q[idx_hu1, :, :] / h
-- 
2.43.0


From 80460e60979964ec71d96e28653e7c9bf77e0beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:20 +0000
Subject: [PATCH 07/42] fix: failure when reporting an output time longer than
 1000 seconds

---
 wx_factory/output/output_manager.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/wx_factory/output/output_manager.py b/wx_factory/output/output_manager.py
index f75db46..073e2e6 100644
--- a/wx_factory/output/output_manager.py
+++ b/wx_factory/output/output_manager.py
@@ -26,11 +26,10 @@ def _readable_time(seconds):
     elif seconds < 1.0:
         return f"{seconds * 1e3:.1f} ms"
     elif seconds > 1000:
-        h_s = int(seconds)
-        h = h_s // 3600
-        rem = seconds - h_s
-        m = rem // 60
-        s = rem % 60
+        total_s = int(seconds)
+        h = total_s // 3600
+        m = (total_s % 3600) // 60
+        s = total_s % 60
         return f"{h}:{m:02d}:{s:02d}"
     else:
         return f"{seconds:.2f}"
-- 
2.43.0


From 9244fc43b39b4632bd741166fa7291fac9094c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:34 +0000
Subject: [PATCH 08/42] fix: area element of the 2D cubed sphere reference
 element

The reference element is [-1,1]^2, so the Jacobian is dx1 dx2 / 4. With / 8,
every global integral was half of its value. Tendencies only use ratios.
---
 wx_factory/geometry/metric2d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wx_factory/geometry/metric2d.py b/wx_factory/geometry/metric2d.py
index 04f67a1..ce5bd60 100644
--- a/wx_factory/geometry/metric2d.py
+++ b/wx_factory/geometry/metric2d.py
@@ -127,9 +127,9 @@ class Metric2D:
         # x1 and x2 run from -pi/4 to pi/4 and x3 runs from 0 to htop, but inside each elemenet
         # (from the perspective of the differentiation matrices) each coordinate runs from -1 to 1.
 
-        self.sqrtG *= geom.delta_x1 * geom.delta_x2 / 8.0
-        self.sqrtG_itf_i *= geom.delta_x1 * geom.delta_x2 / 8.0
-        self.sqrtG_itf_j *= geom.delta_x1 * geom.delta_x2 / 8.0
+        self.sqrtG *= geom.delta_x1 * geom.delta_x2 / 4.0
+        self.sqrtG_itf_i *= geom.delta_x1 * geom.delta_x2 / 4.0
+        self.sqrtG_itf_j *= geom.delta_x1 * geom.delta_x2 / 4.0
 
         self.inv_sqrtG = 1.0 / self.sqrtG
 
-- 
2.43.0


From 55ef18bd71ef59b04176697d216e3afe28cf4762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:34 +0000
Subject: [PATCH 09/42] fix: relative vorticity diagnostic

The two covariant components were swapped, and the derivatives were done with
the flux reconstruction operators, which need interface values.
---
 wx_factory/output/diagnostic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wx_factory/output/diagnostic.py b/wx_factory/output/diagnostic.py
index a5b1844..ed4e55d 100644
--- a/wx_factory/output/diagnostic.py
+++ b/wx_factory/output/diagnostic.py
@@ -11,8 +11,10 @@ def relative_vorticity(u1_contra: NDArray, u2_contra: NDArray, metric: Metric2D,
     u1_dual = metric.H_cov_11 * u1_contra + metric.H_cov_12 * u2_contra
     u2_dual = metric.H_cov_21 * u1_contra + metric.H_cov_22 * u2_contra
 
-    du1dx2 = u2_dual @ mtrx.derivative_y
-    du2dx1 = u1_dual @ mtrx.derivative_x
+    # Derivatives of the solution inside each element (these do not involve any interface value)
+    ident = numpy.identity(mtrx.diff.shape[0])
+    du1dx2 = u1_dual @ numpy.kron(mtrx.diff, ident).T
+    du2dx1 = u2_dual @ numpy.kron(ident, mtrx.diff).T
 
     vort = metric.inv_sqrtG * (du2dx1 - du1dx2)
 
-- 
2.43.0


From 8eff073615d3ce3e7b90d12dfa7e7e326f896ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:14 +0000
Subject: [PATCH 10/42] fix: netCDF output with several processes per panel,
 and its time axis

- topography (2D) was gathered as a 3D field
- the x2 coordinate was taken from a row of tiles rather than a column
- the file was created with a collective on all processes rather than on those of the simulation
- time is in seconds, and never goes beyond t_end
---
 wx_factory/output/output_cubesphere.py        |  6 +++---
 wx_factory/output/output_cubesphere_netcdf.py | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/wx_factory/output/output_cubesphere.py b/wx_factory/output/output_cubesphere.py
index b790527..31c093f 100644
--- a/wx_factory/output/output_cubesphere.py
+++ b/wx_factory/output/output_cubesphere.py
@@ -126,8 +126,8 @@ class OutputCubesphere(OutputManager):
         if self.rank == 0:
             print("================================================================================================")
 
-    def _gather_panel(self, field: NDArray) -> Optional[NDArray]:
-        """ """
+    def _gather_panel(self, field: NDArray, along_x2: bool = False) -> Optional[NDArray]:
+        """Assemble the tiles of a panel on its root. 1D fields are joined along x1 (or along x2, if specified)."""
         panel_comm = self.process_topology.panel_comm
         xp = self.device.xp
 
@@ -144,7 +144,7 @@ class OutputCubesphere(OutputManager):
 
         side = self.process_topology.num_lines_per_panel
         if field.ndim == 1:
-            panel_field = xp.concatenate(panel_fields[:side])
+            panel_field = xp.concatenate(panel_fields[::side] if along_x2 else panel_fields[:side])
         else:
             panel_field = xp.concatenate(
                 [xp.concatenate(panel_fields[i * side : (i + 1) * side], axis=-1) for i in range(side)], axis=-2
diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index 4b9813d..e25c917 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -56,7 +56,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
         import netCDF4
 
         # creating the netcdf file(s)
-        with SingleProcess() as s, Conditional(s):
+        with SingleProcess(self.comm) as s, Conditional(s):
             self.ncfile = netCDF4.Dataset(self.filename, "w", format="NETCDF4")
 
         # create dimensions
@@ -90,7 +90,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
 
             # create time axis
             tme = self.ncfile.createVariable("time", numpy.float64, ("time",))
-            tme.units = "hours since 1800-01-01"
+            tme.units = "seconds since 1800-01-01"
             tme.long_name = "time"
             tme.set_collective(False)
 
@@ -273,7 +273,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
         prepare = self.device.to_host
 
         panel_x = self._gather_panel(prepare(self.geometry.x1[...]))
-        panel_y = self._gather_panel(prepare(self.geometry.x2[...]))
+        panel_y = self._gather_panel(prepare(self.geometry.x2[...]), along_x2=True)
 
         if self.rank == 0:
             xxx[:] = panel_x
@@ -287,7 +287,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
         lats = self._gather_field(prepare(self.geometry.block_lat * 180 / math.pi), 2)
         if self.config.equations == "euler":
             elevs = self._gather_field(prepare(self.geometry.coordVec_latlon[2, :, :, :]), 3)
-            topos = self._gather_field(prepare(self.geometry.zbot[:, :]), 3)
+            topos = self._gather_field(prepare(self.geometry.zbot[:, :]), 2)
 
         if self.rank == 0:
             for i in range(6):
@@ -306,7 +306,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
         idx = 0
         if self.ncfile is not None:
             idx = len(self.ncfile["time"])
-            self.ncfile["time"][idx] = step_id * self.config.dt
+            self.ncfile["time"][idx] = min(step_id * self.config.dt, self.config.t_end)
 
         if isinstance(geom, CubedSphere2D):  # Shallow water
 
-- 
2.43.0


From fd57f8f5d2e59676cb046968ac71ef5705654b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:42 +0000
Subject: [PATCH 11/42] fix: sponge layer fails because the Cartesian grid is
 organized by elements

---
 wx_factory/geometry/operators.py | 31 ++++++++-----------------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/wx_factory/geometry/operators.py b/wx_factory/geometry/operators.py
index e939154..f1ee27c 100644
--- a/wx_factory/geometry/operators.py
+++ b/wx_factory/geometry/operators.py
@@ -123,19 +123,10 @@ class DFROperators:
         if param.apply_sponge:
             if not isinstance(grd, Cartesian2D):
                 raise TypeError(f"The sponge can only be applied on a Cartesian2D geometry")
-            nk, ni = grd.X1.shape
             zs = param.z1 - param.sponge_zscale  # zs is bottom of layer
-            self.beta = xp.zeros_like(grd.X1)  # used as our damping profile
-            # Loop over points
-            # TODO use implicit loop (will also work with CUDA)
-            for k in range(nk):
-                for i in range(ni):
-                    if grd.X3[k, i] >= zs:
-                        self.beta[k, i] = (
-                            self.beta[k, i]
-                            + (1.0 / param.sponge_tscale)
-                            * xp.sin((0.5 * xp.pi) * (grd.X3[k, i] - zs) / (param.z1 - zs)) ** 2
-                        )
+            # Damping profile
+            profile = xp.sin((0.5 * xp.pi) * (grd.X3 - zs) / (param.z1 - zs)) ** 2
+            self.beta = xp.where(grd.X3 >= zs, (1.0 / param.sponge_tscale) * profile, 0.0)
 
         if check_skewcentrosymmetry(self.diff_ext) is False:
             raise ValueError("Something horribly wrong has happened in the creation of the differentiation matrix")
@@ -240,17 +231,11 @@ class DFROperators:
 
         # Apply Sponge (if desired)
         if self.apply_sponge:
-            nk, ni = geom.X1.shape
-            # Loop over points
-            # TODO use implicit loop (will also work with CUDA)
-            for k in range(nk):
-                for i in range(ni):
-                    # !!!!!!!!
-                    # !!! Important Note:
-                    #     TODO: For 3D, we want to rotate radially, apply sponge, rotate back
-                    # !!!!!!!!
-                    ww = (1.0 / (1.0 + self.beta[k, i] * dt)) * Q[idx_2d_rho_w, k, i]
-                    Q[idx_2d_rho_w, k, i] = ww
+            # !!!!!!!!
+            # !!! Important Note:
+            #     TODO: For 3D, we want to rotate radially, apply sponge, rotate back
+            # !!!!!!!!
+            Q[idx_2d_rho_w] = (1.0 / (1.0 + self.beta * dt)) * Q[idx_2d_rho_w]
 
         return Q
 
-- 
2.43.0


From e61d9ca53d07acb4f1fd3d96f5dc0ca74b33d901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:42 +0000
Subject: [PATCH 12/42] fix: every line break was doubled when reading a
 configuration or a saved state

---
 wx_factory/common/readfile.py | 2 +-
 wx_factory/output/state.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wx_factory/common/readfile.py b/wx_factory/common/readfile.py
index 03e8797..8846c8e 100644
--- a/wx_factory/common/readfile.py
+++ b/wx_factory/common/readfile.py
@@ -1,5 +1,5 @@
 def readfile(filename: str) -> str:
     with open(filename) as f:
-        content = "\n".join(f.readlines())
+        content = f.read()
 
     return content
diff --git a/wx_factory/output/state.py b/wx_factory/output/state.py
index bacab3a..da0b1f8 100644
--- a/wx_factory/output/state.py
+++ b/wx_factory/output/state.py
@@ -27,7 +27,7 @@ def load_state(
     with open(input_file_name, "rb") as input_file:
         state = device.xp.load(input_file)
         state_version = str(input_file.readline(), "utf-8")
-        config_content = "\n".join([str(line, "utf-8") for line in input_file.readlines()]).strip()
+        config_content = str(input_file.read(), "utf-8").strip()
         conf = Configuration(config_content, schema)
 
         return state, conf
-- 
2.43.0


From fef3784bdc6420c6c777267fdc9ca47e4dea5379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:14 +0000
Subject: [PATCH 13/42] fix: odd numbers of solution points above 5 were
 rejected

The central entry of the differentiation matrix is computed as 1e-35
rather than an exact zero when the points come from scipy; the cleanup
of such entries was only done for filtered operators.
---
 wx_factory/geometry/operators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wx_factory/geometry/operators.py b/wx_factory/geometry/operators.py
index f1ee27c..438236c 100644
--- a/wx_factory/geometry/operators.py
+++ b/wx_factory/geometry/operators.py
@@ -93,11 +93,12 @@ class DFROperators:
             Nc = math.floor(param.filter_cutoff * N)
             self.filter = filter_exponential(N, Nc, param.filter_order, self.V, self.invV)
             self.diff_ext = (self.filter @ diff).astype(float)
-            self.diff_ext[xp.abs(self.diff_ext) < 1e-20] = 0.0
 
         else:
             self.diff_ext = diff
 
+        self.diff_ext[xp.abs(self.diff_ext) < 1e-20] = 0.0
+
         self.expfilter_apply = param.expfilter_apply
         if param.expfilter_apply:
             if not isinstance(grd, CubedSphere3D):
-- 
2.43.0


From e895e8419c16386bd193f535e54d3c84b7c68d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:44 +0000
Subject: [PATCH 14/42] fix: momentum flux between elements lacked its
 advective part (2D Cartesian Euler)

The AUSM flux of the normal momentum is the upwinded momentum plus the
pressure, as in the shallow water solver; the pressure had replaced the
advective part, so that the tendencies did not converge to those of the
Euler equations.
---
 wx_factory/pde/kernels/riemann_flux.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wx_factory/pde/kernels/riemann_flux.hpp b/wx_factory/pde/kernels/riemann_flux.hpp
index cf7d5c3..6e31178 100644
--- a/wx_factory/pde/kernels/riemann_flux.hpp
+++ b/wx_factory/pde/kernels/riemann_flux.hpp
@@ -62,13 +62,13 @@ DEVICE_SPACE void riemann_eulercartesian_ausm_2d_kernel(
   *params_l.flux[dir].rho = rhol * Mmax + rhor * Mmin;
   if (dir == 0)
   {
-    *params_l.flux[dir].rho_u = 0.5 * (Ml * pl - Mr * pr);
+    *params_l.flux[dir].rho_u = rho_ul * Mmax + rho_ur * Mmin + 0.5 * (Ml * pl - Mr * pr);
     *params_l.flux[dir].rho_w = rho_wl * Mmax + rho_wr * Mmin;
   }
   else
   {
     *params_l.flux[dir].rho_u = rho_ul * Mmax + rho_ur * Mmin;
-    *params_l.flux[dir].rho_w = 0.5 * (Ml * pl - Mr * pr);
+    *params_l.flux[dir].rho_w = rho_wl * Mmax + rho_wr * Mmin + 0.5 * (Ml * pl - Mr * pr);
   }
   *params_l.flux[dir].rho_theta = rho_thetal * Mmax + rho_thetar * Mmin;
 
-- 
2.43.0


From a450d8f0e11021ae7b6a8de041de2187393bc75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:44 +0000
Subject: [PATCH 15/42] fix: Coriolis terms of the horizontal momentum in three
 dimensions

The sign of one term and the rotation factor of another differed from the
two-dimensional metric; the tendencies of a smooth flow on a rotating
planet did not converge to the exact ones.
---
 wx_factory/geometry/metric3d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wx_factory/geometry/metric3d.py b/wx_factory/geometry/metric3d.py
index 80cafeb..66e9d7d 100644
--- a/wx_factory/geometry/metric3d.py
+++ b/wx_factory/geometry/metric3d.py
@@ -679,7 +679,7 @@ class Metric3DTopo:
                 Omega * X_int * Y_int / deltasq * rot1 + dRdx1_int * Omega / (R_int * (1 + X_int**2)) * rot2
             )
             Christoffel_1_02 = (
-                -Omega * (-(1 + Y_int**2) / deltasq) * rot1 + dRdx2_int * Omega / (R_int * (1 + X_int**2)) * rot2
+                -Omega * (1 + Y_int**2) / deltasq * rot1 + dRdx2_int * Omega / (R_int * (1 + X_int**2)) * rot2
             )
             Christoffel_1_03 = dRdeta_int * Omega / (R_int * (1 + X_int**2)) * rot2
 
@@ -689,7 +689,7 @@ class Metric3DTopo:
         else:  # Shallow atmosphere, R->A
             Christoffel_1_01 = Omega * X_int * Y_int / deltasq * rot1 + dRdx1_int * Omega / (A * (1 + X_int**2)) * rot2
             Christoffel_1_02 = (
-                -Omega * (-(1 + Y_int**2) / deltasq) * rot1 + dRdx2_int * Omega / (A * (1 + X_int**2)) * rot2
+                -Omega * (1 + Y_int**2) / deltasq * rot1 + dRdx2_int * Omega / (A * (1 + X_int**2)) * rot2
             )
             Christoffel_1_03 = dRdeta_int * Omega / (A * (1 + X_int**2)) * rot2
 
@@ -708,7 +708,7 @@ class Metric3DTopo:
                 Omega * (1 + X_int**2) / deltasq * rot1 + dRdx1_int * Omega / (R_int * (1 + Y_int**2)) * rot3
             )
             Christoffel_2_02 = (
-                -Omega * X_int * Y_int / deltasq * rot2 + dRdx2_int * Omega / (R_int * (1 + Y_int**2)) * rot3
+                -Omega * X_int * Y_int / deltasq * rot1 + dRdx2_int * Omega / (R_int * (1 + Y_int**2)) * rot3
             )
             Christoffel_2_03 = dRdeta_int * Omega / (R_int * (1 + Y_int**2)) * rot3
 
@@ -720,7 +720,7 @@ class Metric3DTopo:
             Christoffel_2_23 = dRdeta_int / R_int
         else:  # Shallow
             Christoffel_2_01 = Omega * (1 + X_int**2) / deltasq * rot1 + dRdx1_int * Omega / (A * (1 + Y_int**2)) * rot3
-            Christoffel_2_02 = -Omega * X_int * Y_int / deltasq * rot2 + dRdx2_int * Omega / (A * (1 + Y_int**2)) * rot3
+            Christoffel_2_02 = -Omega * X_int * Y_int / deltasq * rot1 + dRdx2_int * Omega / (A * (1 + Y_int**2)) * rot3
             Christoffel_2_03 = dRdeta_int * Omega / (A * (1 + Y_int**2)) * rot3
 
             Christoffel_2_11 = 0
-- 
2.43.0


From d3b8450fb606e3ff6342867f11d45889145e2b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:16 +0000
Subject: [PATCH 16/42] fix: vertical structure of the acoustic wave initial
 condition

The sine profile is a function of height (Tomita and Satoh 2004), not of
the horizontal distance.
---
 wx_factory/init/dcmip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/init/dcmip.py b/wx_factory/init/dcmip.py
index ccb8cb7..9852b89 100644
--- a/wx_factory/init/dcmip.py
+++ b/wx_factory/init/dcmip.py
@@ -943,7 +943,7 @@ def acoustic_wave(geom: CubedSphere3D, metric: Metric3DTopo):
     lon = geom.polar[0, ...]
     r = re * xp.arccos(xp.cos(lat) * xp.cos(lon))
     f = numpy.where(r > rc, 0.0, (Δp / 2) * (1 + numpy.cos((math.pi * r) / rc)))
-    g = numpy.sin((eta_v * math.pi * r) / ztop)
+    g = numpy.sin((eta_v * math.pi * geom.height_new) / ztop)
     p_perturb = f * g
     pressure = p_mean + p_perturb
     # pdb.set_trace()
-- 
2.43.0


From ee39b8354fd5204a6eb4203b0bb5b686cc2d3815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:02 +0000
Subject: [PATCH 17/42] fix: off-diagonal term of the temporary horizontal
 metric (terrain slopes at element interfaces)

---
 wx_factory/geometry/metric3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/geometry/metric3d.py b/wx_factory/geometry/metric3d.py
index 66e9d7d..008ca80 100644
--- a/wx_factory/geometry/metric3d.py
+++ b/wx_factory/geometry/metric3d.py
@@ -215,7 +215,7 @@ class Metric3DTopo:
         ):
             delta2 = 1 + X**2 + Y**2
             metric_contra[0, 0, :, :, :] = delta2 / (1 + X**2)
-            metric_contra[0, 1, :, :, :] = delta2 * X * Y / ((1 + X**2) + (1 + Y**2))
+            metric_contra[0, 1, :, :, :] = delta2 * X * Y / ((1 + X**2) * (1 + Y**2))
             metric_contra[1, 0, :, :, :] = metric_contra[0, 1, :, :, :]
             metric_contra[1, 1, :, :, :] = delta2 / (1 + Y**2)
 
-- 
2.43.0


From b7a7ba32c561af11afe758b0ba1bfb259715c62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:30 +0000
Subject: [PATCH 18/42] fix: tendencies were wrong for states that are not
 contiguous in memory

---
 wx_factory/rhs/rhs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wx_factory/rhs/rhs.py b/wx_factory/rhs/rhs.py
index 4709cc8..2e58e49 100644
--- a/wx_factory/rhs/rhs.py
+++ b/wx_factory/rhs/rhs.py
@@ -83,6 +83,9 @@ class RHS(ABC):
         # 0.b Preserve array shape
         given_shape = q.shape
 
+        # 0.c The compiled kernels access the data directly, so it must be contiguous
+        q = self.device.xp.ascontiguousarray(q)
+
         self.allocate_arrays(q)
 
         self.timestamps[0] = self.device.timestamp()
-- 
2.43.0


From 039224f3d555a7df2b84468c7cb3c30b8e46c4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:30 +0000
Subject: [PATCH 19/42] fix: sign of the previous-time nodes of the stiff EPI
 methods

---
 wx_factory/integrators/epi_stiff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/integrators/epi_stiff.py b/wx_factory/integrators/epi_stiff.py
index f6eb23f..064ec59 100644
--- a/wx_factory/integrators/epi_stiff.py
+++ b/wx_factory/integrators/epi_stiff.py
@@ -24,7 +24,7 @@ class EpiStiff(Integrator):
 
         if order < 2:
             raise ValueError("Unsupported order for EPI method")
-        self.A = alpha_coeff([-i for i in range(-1, 1 - order, -1)])
+        self.A = alpha_coeff([i for i in range(-1, 1 - order, -1)])
 
         m, self.n_prev = self.A.shape
 
-- 
2.43.0


From 5080ee89c22e4297ec9923e4fc20494a21a0a7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:30 +0000
Subject: [PATCH 20/42] fix: BDF2 start-up solved the wrong equation, and a
 change of time step was ignored

---
 wx_factory/integrators/bdf2.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wx_factory/integrators/bdf2.py b/wx_factory/integrators/bdf2.py
index fa9b458..8f6965a 100644
--- a/wx_factory/integrators/bdf2.py
+++ b/wx_factory/integrators/bdf2.py
@@ -12,15 +12,17 @@ class Bdf2(Integrator):
         self.tol = param.tolerance
         self.init_substeps = init_substeps
         self.Qprev = None
+        self.dt = 0.0
 
     def __step__(self, Q, dt):
         t0 = time()
-        if self.Qprev is None:
+        # The two-step formula only holds for a constant time step, so start over if it changes
+        if self.Qprev is None or abs(self.dt - dt) > 1e-10 * abs(dt):
             # Initialize with the backward Euler method
             newQ = Q.copy()
             for _ in range(self.init_substeps):
                 init_dt = dt / self.init_substeps
-                nonlin_fun = lambda Q_plus: (Q_plus - newQ) / init_dt - 0.5 * self.rhs(Q_plus)
+                nonlin_fun = lambda Q_plus: (Q_plus - newQ) / init_dt - self.rhs(Q_plus)
 
                 newQ, num_iter, residuals = newton_krylov(nonlin_fun, newQ, f_tol=self.tol)
         else:
@@ -40,5 +42,6 @@ class Bdf2(Integrator):
         self.solver_info = SolverInfo(0, t1 - t0, num_iter, residuals)
 
         self.Qprev = Q.copy()
+        self.dt = dt
 
         return numpy.reshape(newQ, Q.shape)
-- 
2.43.0


From d0ba0d133b502d21e73c68ff0b39bfa7057d3f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:30 +0000
Subject: [PATCH 21/42] fix: numpy.float_ no longer exists (default tolerance
 of newton_krylov)

---
 wx_factory/solvers/nonlin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/solvers/nonlin.py b/wx_factory/solvers/nonlin.py
index f8a408f..bcfb5f7 100644
--- a/wx_factory/solvers/nonlin.py
+++ b/wx_factory/solvers/nonlin.py
@@ -33,7 +33,7 @@ def newton_krylov(
     eta = 1e-3
 
     if f_tol is None:
-        f_tol = numpy.finfo(numpy.float_).eps ** (1.0 / 3)
+        f_tol = numpy.finfo(numpy.float64).eps ** (1.0 / 3)
     if f_rtol is None:
         f_rtol = numpy.inf
     if x_tol is None:
-- 
2.43.0


From d43aa6f00fc3a3d544535aa6a578a77e7a866abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:30 +0000
Subject: [PATCH 22/42] fix: derivative after an accepted step was evaluated at
 the wrong time (non-FSAL pairs)

---
 wx_factory/integrators/explicit_runge_kutta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/integrators/explicit_runge_kutta.py b/wx_factory/integrators/explicit_runge_kutta.py
index 1f8002e..7c7434a 100644
--- a/wx_factory/integrators/explicit_runge_kutta.py
+++ b/wx_factory/integrators/explicit_runge_kutta.py
@@ -419,7 +419,7 @@ class RungeKutta:
 
         if not self.FSAL:
             # evaluate output point for the next step
-            self.K[self.n_stages] = self.fun(t + h, y_new)
+            self.K[self.n_stages] = self.fun(t_new, y_new)
 
         # store for next step, interpolation and stepsize control
         self.y_old = y
-- 
2.43.0


From 4674b454bdbdca25106401211918832ac894dcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:30 +0000
Subject: [PATCH 23/42] fix: adaptive Runge-Kutta integration could miss its
 end time by a rounding error

---
 wx_factory/integrators/explicit_runge_kutta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wx_factory/integrators/explicit_runge_kutta.py b/wx_factory/integrators/explicit_runge_kutta.py
index 7c7434a..5fc1c35 100644
--- a/wx_factory/integrators/explicit_runge_kutta.py
+++ b/wx_factory/integrators/explicit_runge_kutta.py
@@ -347,7 +347,8 @@ class RungeKutta:
                 logging.error(f"Step size {h} below minimum {min_step} at t={t}")
                 return False
 
-            t_new = t + h
+            # land exactly on the bound: t + (t_bound - t) may be off by a rounding error
+            t_new = self.t_bound if h == abs(self.t_bound - t) else t + h
 
             # calculate RK stages
             self.K[0] = self.f
-- 
2.43.0


From 4cd85b3965e2478eb0a87d68cd0546c74571d19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:30 +0000
Subject: [PATCH 24/42] fix: coefficient matrix of DP54 lacked a column

---
 wx_factory/integrators/butcher.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wx_factory/integrators/butcher.py b/wx_factory/integrators/butcher.py
index 382240d..f2f5058 100644
--- a/wx_factory/integrators/butcher.py
+++ b/wx_factory/integrators/butcher.py
@@ -151,12 +151,12 @@ class DP54(RungeKutta):
     C = numpy.array([0, 1 / 5, 3 / 10, 4 / 5, 8 / 9, 1])
     A = numpy.array(
         [
-            [0, 0, 0, 0, 0],
-            [1 / 5, 0, 0, 0, 0],
-            [3 / 40, 9 / 40, 0, 0, 0],
-            [44 / 45, -56 / 15, 32 / 9, 0, 0],
-            [19372 / 6561, -25360 / 2187, 64448 / 6561, -212 / 729, 0],
-            [9017 / 3168, -355 / 33, 46732 / 5247, 49 / 176, -5103 / 18656],
+            [0, 0, 0, 0, 0, 0],
+            [1 / 5, 0, 0, 0, 0, 0],
+            [3 / 40, 9 / 40, 0, 0, 0, 0],
+            [44 / 45, -56 / 15, 32 / 9, 0, 0, 0],
+            [19372 / 6561, -25360 / 2187, 64448 / 6561, -212 / 729, 0, 0],
+            [9017 / 3168, -355 / 33, 46732 / 5247, 49 / 176, -5103 / 18656, 0],
         ]
     )
     B = numpy.array([35 / 384, 0, 500 / 1113, 125 / 192, -2187 / 6784, 11 / 84])
-- 
2.43.0


From 6f1f2d531890a16cede647d007dcc6cf38f28fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:30 +0000
Subject: [PATCH 25/42] fix: weights of DP87 and of its embedded method were
 exchanged

---
 wx_factory/integrators/butcher.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wx_factory/integrators/butcher.py b/wx_factory/integrators/butcher.py
index f2f5058..158554d 100644
--- a/wx_factory/integrators/butcher.py
+++ b/wx_factory/integrators/butcher.py
@@ -1796,7 +1796,7 @@ class DP87(RungeKutta):
     )
     C = tableau[:, 0]
     A = tableau[:, 1:]
-    B = numpy.array(
+    E = numpy.array(
         [
             13451932 / 455176623,
             0.0,
@@ -1811,9 +1811,10 @@ class DP87(RungeKutta):
             53011238 / 667516719,
             2 / 45,
             0.0,
+            0.0,
         ]
     )
-    E = numpy.array(
+    B = numpy.array(
         [
             14005451 / 335480064,
             0.0,
@@ -1828,7 +1829,6 @@ class DP87(RungeKutta):
             118820643 / 751138087,
             -528747749 / 2220607170,
             1 / 4,
-            0.0,
         ]
     )
     E[:-1] -= B
-- 
2.43.0


From e4c86f49afaf62f0c16a109dd370cd980d025878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:30 +0000
Subject: [PATCH 26/42] fix: FGMRES reported failure after convergence, and
 processes could disagree on stagnation

---
 wx_factory/solvers/fgmres.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/wx_factory/solvers/fgmres.py b/wx_factory/solvers/fgmres.py
index 6cf5ce7..55a9e32 100644
--- a/wx_factory/solvers/fgmres.py
+++ b/wx_factory/solvers/fgmres.py
@@ -175,6 +175,9 @@ def fgmres(
 
     residuals.append(((norm_r / norm_b).item(), time() - t_start, 0.0))
 
+    if norm_r == 0.0:  # The initial guess is the solution
+        return x, norm_r, norm_b, niter, 0, residuals
+
     for outer in range(maxiter):
         # NOTE: We are dealing with row-major matrices, but we store the transpose of H and V.
         H = xp.zeros((restart + 2, restart + 2))
@@ -256,18 +259,18 @@ def fgmres(
                 print(f"{prefix}res: {norm_r/norm_b:.2e} (iter {niter})", flush=True)
 
         # TODO : End cpu calculation here
-        # Has GMRES stagnated?
-        indices = x != 0
-        if indices.any():
-            change = xp.max(xp.abs(update[indices] / x[indices]))
-            if change < 1e-12:
-                # No change, halt
-                return x, norm_r, norm_b, niter, -1, residuals
-
         # test for convergence
         if norm_r < tol_relative:
             return x, norm_r, norm_b, niter, 0, residuals
 
+        # Has GMRES stagnated? (all processes must agree on the answer)
+        indices = x != 0
+        change = xp.max(xp.abs(update[indices] / x[indices])).item() if indices.any() else -1.0
+        change = comm.allreduce(change, op=MPI.MAX)
+        if 0.0 <= change < 1e-12:
+            # No change, halt
+            return x, norm_r, norm_b, niter, -1, residuals
+
     # end outer loop
 
     flag = 0
-- 
2.43.0


From a90c764fd539063a5c2598b02da66e2bd537f190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:30 +0000
Subject: [PATCH 27/42] fix: GCROT always reported convergence, with a residual
 of recycled vectors of another operator

---
 wx_factory/solvers/gcrot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wx_factory/solvers/gcrot.py b/wx_factory/solvers/gcrot.py
index b4da699..2457ece 100644
--- a/wx_factory/solvers/gcrot.py
+++ b/wx_factory/solvers/gcrot.py
@@ -126,7 +126,7 @@ def _fgmres(matvec, v0, m, tol, lpsolve=None, rpsolve=None, cs=(), outer_v=(), p
     return Q, R, B, vs, zs, y, res, niter
 
 
-def gcrot(A, b, x0=None, tol=1e-5, maxiter=1000, M=None, m=20, k=None, discard_C=False, truncate="oldest"):
+def gcrot(A, b, x0=None, tol=1e-5, maxiter=1000, M=None, m=20, k=None, discard_C=True, truncate="oldest"):
 
     N = b.shape[0]
 
@@ -351,4 +351,7 @@ def gcrot(A, b, x0=None, tol=1e-5, maxiter=1000, M=None, m=20, k=None, discard_C
 
     gcrot.CU = CU
 
-    return x, beta, niter, 0, 0
+    beta = numpy.linalg.norm(b - matvec(x))
+    flag = 0 if beta <= tol * b_norm else -1
+
+    return x, beta, niter, flag, 0
-- 
2.43.0


From 2f9e2c14a24d875c703ac25c8d086ee7a6fc9ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:30 +0000
Subject: [PATCH 28/42] fix: infinite or huge angles hung the reading of a
 configuration

---
 wx_factory/common/angle24.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/wx_factory/common/angle24.py b/wx_factory/common/angle24.py
index 8065480..1eef23e 100644
--- a/wx_factory/common/angle24.py
+++ b/wx_factory/common/angle24.py
@@ -14,12 +14,10 @@ def encode(f64: float) -> int:
     in that range."""
 
     # Keep in [-pi, pi[ range
-    while f64 >= math.pi:
-        print(f"Adjusting from {f64} to {f64 - 2.0*math.pi}")
-        f64 -= 2.0 * math.pi
-    while f64 < -math.pi:
-        print(f"Adjusting from {f64} to {f64 + 2.0*math.pi}")
-        f64 += 2.0 * math.pi
+    if not -math.pi <= f64 < math.pi:
+        adjusted = math.remainder(f64, 2.0 * math.pi)  # Raises ValueError if the angle is not finite
+        print(f"Adjusting from {f64} to {adjusted}")
+        f64 = adjusted
 
     # Scale, then shift, then truncate to 24 bits
     return (round(f64 / _INTERVAL) + 0x800000) & 0xFFFFFF
-- 
2.43.0


From 6c4f4acc20716649212e1d599fe52458310eb85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:30 +0000
Subject: [PATCH 29/42] fix: unknown output formats were accepted (misspelled
 key in the schema)

---
 config/config-format.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/config-format.json b/config/config-format.json
index 270598e..5bfddac 100644
--- a/config/config-format.json
+++ b/config/config-format.json
@@ -519,7 +519,7 @@
                     "name": "output_format",
                     "type": "str",
                     "default": "netcdf",
-                    "selectable": ["netcdf", "fst"],
+                    "selectables": ["netcdf", "fst"],
                     "description": "Desired format to use for storing simulation results."
                 }
             ]
-- 
2.43.0


From 60c1a1868f32de2ca8b080308867179aa15c0187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:30 +0000
Subject: [PATCH 30/42] fix: values of the wrong type in list options were
 truncated or crashed the reader

---
 wx_factory/common/configuration_schema.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wx_factory/common/configuration_schema.py b/wx_factory/common/configuration_schema.py
index 41916eb..32d0810 100644
--- a/wx_factory/common/configuration_schema.py
+++ b/wx_factory/common/configuration_schema.py
@@ -171,7 +171,11 @@ class ConfigurationField:
         try:
             return [self.type(parser.get(self.section, self.name))]
         except ValueError:
-            return [self.type(x) for x in json.loads(parser.get(self.section, self.name))]
+            values = json.loads(parser.get(self.section, self.name))
+            if not isinstance(values, list):
+                raise ValueError(f"Value '{values}' of field '{self.name}' is not a list")
+            # Convert from text, so that a value of the wrong type is refused rather than truncated
+            return [self.type(x if isinstance(x, str) else json.dumps(x)) for x in values]
 
     def read(self, parser: ConfigParser) -> OptionType:
         """Read this field from the given parser and verify that it falls within its valid range."""
-- 
2.43.0


From 2c0214daa67f2d89bc75e8912aeba949ca44df09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:20 +0000
Subject: [PATCH 31/42] fix: exponential solvers failed when rounding carried
 the last substep past the end

---
 wx_factory/solvers/cwy_1s.py     | 2 +-
 wx_factory/solvers/cwy_ne.py     | 2 +-
 wx_factory/solvers/cwy_ne1s.py   | 2 +-
 wx_factory/solvers/dcgs2.py      | 2 +-
 wx_factory/solvers/icwy_1s.py    | 2 +-
 wx_factory/solvers/icwy_ne.py    | 2 +-
 wx_factory/solvers/icwy_ne1s.py  | 2 +-
 wx_factory/solvers/icwy_neiop.py | 2 +-
 wx_factory/solvers/kiops.py      | 2 +-
 wx_factory/solvers/kiops_nest.py | 2 +-
 wx_factory/solvers/pmex.py       | 2 +-
 wx_factory/solvers/pmex_1s.py    | 2 +-
 wx_factory/solvers/pmex_ne1s.py  | 2 +-
 13 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/wx_factory/solvers/cwy_1s.py b/wx_factory/solvers/cwy_1s.py
index ccf98ee..dc977b9 100644
--- a/wx_factory/solvers/cwy_1s.py
+++ b/wx_factory/solvers/cwy_1s.py
@@ -325,7 +325,7 @@ def cwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
             # Udate for τ_out in the interval (τ_now, τ_now + τ)
             blownTs = 0
-            nextT = τ_now + τ
+            nextT = min(τ_now + τ, τ_end)  # the last substep may overshoot by a rounding error
             for k in range(l, numSteps):
                 if abs(τ_out[k]) < abs(nextT):
                     blownTs += 1
diff --git a/wx_factory/solvers/cwy_ne.py b/wx_factory/solvers/cwy_ne.py
index b60eb28..c1ebfdd 100644
--- a/wx_factory/solvers/cwy_ne.py
+++ b/wx_factory/solvers/cwy_ne.py
@@ -348,7 +348,7 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
             # Udate for τ_out in the interval (τ_now, τ_now + τ)
             blownTs = 0
-            nextT = τ_now + τ
+            nextT = min(τ_now + τ, τ_end)  # the last substep may overshoot by a rounding error
             for k in range(l, numSteps):
                 if abs(τ_out[k]) < abs(nextT):
                     blownTs += 1
diff --git a/wx_factory/solvers/cwy_ne1s.py b/wx_factory/solvers/cwy_ne1s.py
index 2055dbc..f5cb150 100644
--- a/wx_factory/solvers/cwy_ne1s.py
+++ b/wx_factory/solvers/cwy_ne1s.py
@@ -346,7 +346,7 @@ def cwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=
 
             # Udate for τ_out in the interval (τ_now, τ_now + τ)
             blownTs = 0
-            nextT = τ_now + τ
+            nextT = min(τ_now + τ, τ_end)  # the last substep may overshoot by a rounding error
             for k in range(l, numSteps):
                 if abs(τ_out[k]) < abs(nextT):
                     blownTs += 1
diff --git a/wx_factory/solvers/dcgs2.py b/wx_factory/solvers/dcgs2.py
index 98a289f..1355f7b 100644
--- a/wx_factory/solvers/dcgs2.py
+++ b/wx_factory/solvers/dcgs2.py
@@ -351,7 +351,7 @@ def dcgs2(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fal
 
             # Udate for τ_out in the interval (τ_now, τ_now + τ)
             blownTs = 0
-            nextT = τ_now + τ
+            nextT = min(τ_now + τ, τ_end)  # the last substep may overshoot by a rounding error
             for k in range(l, numSteps):
                 if abs(τ_out[k]) < abs(nextT):
                     blownTs += 1
diff --git a/wx_factory/solvers/icwy_1s.py b/wx_factory/solvers/icwy_1s.py
index a8f5793..4cb53ee 100644
--- a/wx_factory/solvers/icwy_1s.py
+++ b/wx_factory/solvers/icwy_1s.py
@@ -323,7 +323,7 @@ def icwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
 
             # Udate for τ_out in the interval (τ_now, τ_now + τ)
             blownTs = 0
-            nextT = τ_now + τ
+            nextT = min(τ_now + τ, τ_end)  # the last substep may overshoot by a rounding error
             for k in range(l, numSteps):
                 if abs(τ_out[k]) < abs(nextT):
                     blownTs += 1
diff --git a/wx_factory/solvers/icwy_ne.py b/wx_factory/solvers/icwy_ne.py
index e7e321d..3856b10 100644
--- a/wx_factory/solvers/icwy_ne.py
+++ b/wx_factory/solvers/icwy_ne.py
@@ -299,7 +299,7 @@ def icwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
 
             # Udate for τ_out in the interval (τ_now, τ_now + τ)
             blownTs = 0
-            nextT = τ_now + τ
+            nextT = min(τ_now + τ, τ_end)  # the last substep may overshoot by a rounding error
             for k in range(l, numSteps):
                 if abs(τ_out[k]) < abs(nextT):
                     blownTs += 1
diff --git a/wx_factory/solvers/icwy_ne1s.py b/wx_factory/solvers/icwy_ne1s.py
index 61f1c84..fca6cc2 100644
--- a/wx_factory/solvers/icwy_ne1s.py
+++ b/wx_factory/solvers/icwy_ne1s.py
@@ -353,7 +353,7 @@ def icwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1
 
             # Udate for τ_out in the interval (τ_now, τ_now + τ)
             blownTs = 0
-            nextT = τ_now + τ
+            nextT = min(τ_now + τ, τ_end)  # the last substep may overshoot by a rounding error
             for k in range(l, numSteps):
                 if abs(τ_out[k]) < abs(nextT):
                     blownTs += 1
diff --git a/wx_factory/solvers/icwy_neiop.py b/wx_factory/solvers/icwy_neiop.py
index 691b834..76502c4 100644
--- a/wx_factory/solvers/icwy_neiop.py
+++ b/wx_factory/solvers/icwy_neiop.py
@@ -302,7 +302,7 @@ def icwy_neiop(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
 
             # Udate for τ_out in the interval (τ_now, τ_now + τ)
             blownTs = 0
-            nextT = τ_now + τ
+            nextT = min(τ_now + τ, τ_end)  # the last substep may overshoot by a rounding error
             for k in range(l, numSteps):
                 if abs(τ_out[k]) < abs(nextT):
                     blownTs += 1
diff --git a/wx_factory/solvers/kiops.py b/wx_factory/solvers/kiops.py
index 3fa344d..f62cec5 100644
--- a/wx_factory/solvers/kiops.py
+++ b/wx_factory/solvers/kiops.py
@@ -296,7 +296,7 @@ def kiops(
 
             # Update for tau_out in the interval (tau_now, tau_now + tau)
             blownTs = 0
-            nextT = tau_now + tau
+            nextT = min(tau_now + tau, tau_end)  # the last substep may overshoot by a rounding error
             for k in range(l, numSteps):
                 if xp.abs(tau_out[k]) < xp.abs(nextT):
                     blownTs += 1
diff --git a/wx_factory/solvers/kiops_nest.py b/wx_factory/solvers/kiops_nest.py
index 1caee69..b4497c5 100644
--- a/wx_factory/solvers/kiops_nest.py
+++ b/wx_factory/solvers/kiops_nest.py
@@ -309,7 +309,7 @@ def kiops_nest(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
 
             # Udate for τ_out in the interval (τ_now, τ_now + τ)
             blownTs = 0
-            nextT = τ_now + τ
+            nextT = min(τ_now + τ, τ_end)  # the last substep may overshoot by a rounding error
             for k in range(l, numSteps):
                 if abs(τ_out[k]) < abs(nextT):
                     blownTs += 1
diff --git a/wx_factory/solvers/pmex.py b/wx_factory/solvers/pmex.py
index 970ead7..1213cd3 100644
--- a/wx_factory/solvers/pmex.py
+++ b/wx_factory/solvers/pmex.py
@@ -323,7 +323,7 @@ def pmex(
 
             # Udate for tau_out in the interval (tau_now, tau_now + tau)
             blownTs = 0
-            nextT = tau_now + tau
+            nextT = min(tau_now + tau, tau_end)  # the last substep may overshoot by a rounding error
             for k in range(l, numSteps):
                 if abs(tau_out[k]) < abs(nextT):
                     blownTs += 1
diff --git a/wx_factory/solvers/pmex_1s.py b/wx_factory/solvers/pmex_1s.py
index 8456cc1..e7b13b9 100644
--- a/wx_factory/solvers/pmex_1s.py
+++ b/wx_factory/solvers/pmex_1s.py
@@ -326,7 +326,7 @@ def pmex_1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, reu
 
             # Udate for τ_out in the interval (τ_now, τ_now + τ)
             blownTs = 0
-            nextT = τ_now + τ
+            nextT = min(τ_now + τ, τ_end)  # the last substep may overshoot by a rounding error
             for k in range(l, numSteps):
                 if abs(τ_out[k]) < abs(nextT):
                     blownTs += 1
diff --git a/wx_factory/solvers/pmex_ne1s.py b/wx_factory/solvers/pmex_ne1s.py
index d1065e6..1f11c3c 100644
--- a/wx_factory/solvers/pmex_ne1s.py
+++ b/wx_factory/solvers/pmex_ne1s.py
@@ -340,7 +340,7 @@ def pmex_ne1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, r
 
             # Udate for τ_out in the interval (τ_now, τ_now + τ)
             blownTs = 0
-            nextT = τ_now + τ
+            nextT = min(τ_now + τ, τ_end)  # the last substep may overshoot by a rounding error
             for k in range(l, numSteps):
                 if abs(τ_out[k]) < abs(nextT):
                     blownTs += 1
-- 
2.43.0


From f5d8274b7315b420aeaa2eeb99677c5cce522af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:49 +0000
Subject: [PATCH 32/42] fix: solver statistics stored the tendency timings of
 earlier steps again

---
 wx_factory/integrators/integrator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wx_factory/integrators/integrator.py b/wx_factory/integrators/integrator.py
index bc036b1..28919ad 100644
--- a/wx_factory/integrators/integrator.py
+++ b/wx_factory/integrators/integrator.py
@@ -105,6 +105,9 @@ class Integrator(ABC):
                 t1 - t0, self.sim_time, dt, solver_info, self.preconditioner, rhs_times
             )
 
+            if rhs_times is not None:
+                self.rhs.clear_timings()  # These timings only concern the current step
+
         self.solver_info = None
 
         self.sim_time += dt
-- 
2.43.0


From e277fb7f54d0ce8731f3a055dff4d10981111767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:49 +0000
Subject: [PATCH 33/42] fix: processes waited forever when the statistics file
 was not a database

---
 wx_factory/output/solver_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/output/solver_stats.py b/wx_factory/output/solver_stats.py
index 2f584ea..f4e0197 100644
--- a/wx_factory/output/solver_stats.py
+++ b/wx_factory/output/solver_stats.py
@@ -118,7 +118,7 @@ class SolverStatsOutput:
             self.create_results_table()
             self.comm.allreduce(0)
 
-        except sqlite3.OperationalError:
+        except sqlite3.Error:
             # Signal failure to the other PEs
             self.comm.allreduce(1)
             raise
-- 
2.43.0


From ff69d03fc17a3bccae50d37dfefff16f714ff4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:49 +0000
Subject: [PATCH 34/42] fix: a run interrupted by a failed integrator ended as
 if completed

---
 wx_factory/simulation/simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wx_factory/simulation/simulation.py b/wx_factory/simulation/simulation.py
index 24f289f..5ff2718 100644
--- a/wx_factory/simulation/simulation.py
+++ b/wx_factory/simulation/simulation.py
@@ -193,6 +193,9 @@ class Simulation:
 
         self.output.finalize(time() - start_time)  # Close any open output file
 
+        if self.integrator.failure_flag != 0:
+            raise RuntimeError(f"The time integrator failed at step {self.step_id}, the simulation was interrupted")
+
     def _make_device(self) -> Device:
         """Create the device object which will determine on what hardware (CPU/GPU) each part of the simulation will
         be executed."""
-- 
2.43.0


From 280213bc8f4ff67628183c588fe57d4a32c6134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:55 +0000
Subject: [PATCH 35/42] fix: global_inf_norm keeps NaN whichever process holds
 it

---
 wx_factory/solvers/global_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/solvers/global_operations.py b/wx_factory/solvers/global_operations.py
index 7aac2e9..fbf220c 100644
--- a/wx_factory/solvers/global_operations.py
+++ b/wx_factory/solvers/global_operations.py
@@ -33,4 +33,4 @@ def global_dotprod(vec1: NDArray, vec2: NDArray, comm: MPI.Comm = MPI.COMM_WORLD
 def global_inf_norm(vec: NDArray, comm: MPI.Comm = MPI.COMM_WORLD):
     """Compute infinity norm across all PEs in the communicator (default COMM_WORLD)"""
     local_max = numpy.amax(numpy.abs(vec))
-    return comm.allreduce(local_max, op=MPI.MAX)
+    return comm.allreduce(local_max, op=numpy.maximum)  # MPI.MAX loses a NaN found by any process but the first
-- 
2.43.0


From 15e6f69048f95dbff09dbcd07bd012ebec06a274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:55 +0000
Subject: [PATCH 36/42] fix: exode reports a failed integration instead of
 returning the initial vector

---
 wx_factory/solvers/exode.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wx_factory/solvers/exode.py b/wx_factory/solvers/exode.py
index 81f6d61..98dcf54 100644
--- a/wx_factory/solvers/exode.py
+++ b/wx_factory/solvers/exode.py
@@ -108,8 +108,7 @@ def exode(
          """
 
         elif solver.status == "failed":
-            status = -1
-            break
+            raise RuntimeError(f"EXODE could not integrate past {solver.t:.3e} (of {tf}) with the requested tolerance")
 
         t_old = solver.t_old
         t = solver.t
-- 
2.43.0


From d78c7deeadb7dbb9b96dbf17e30282362ad6cb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:55 +0000
Subject: [PATCH 37/42] fix: integrators of the benchmark problems lacked the
 attributes Integrator.step needs

---
 wx_factory/integrators/epi_for_others.py   | 4 ++++
 wx_factory/integrators/srerk_for_others.py | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/wx_factory/integrators/epi_for_others.py b/wx_factory/integrators/epi_for_others.py
index 11bc09c..881f225 100644
--- a/wx_factory/integrators/epi_for_others.py
+++ b/wx_factory/integrators/epi_for_others.py
@@ -5,6 +5,7 @@ from typing import Callable
 from mpi4py import MPI
 import numpy
 
+from device import Device
 from .integrator import Integrator, SolverInfo
 from solvers import (
     kiops,
@@ -50,6 +51,9 @@ class Epi_others(Integrator):
         self.output_manager = None
         self.solver_info = None
         self.sim_time = -1.0
+        self.device = Device.get_default()
+        self.failure_flag = 0
+        self.num_completed_steps = 0
         # --------------------
         # self.int = time_int                  #was in param file, now input
 
diff --git a/wx_factory/integrators/srerk_for_others.py b/wx_factory/integrators/srerk_for_others.py
index a22e026..a2d07ed 100644
--- a/wx_factory/integrators/srerk_for_others.py
+++ b/wx_factory/integrators/srerk_for_others.py
@@ -5,6 +5,7 @@ import numpy
 from mpi4py import MPI
 
 from common import Configuration
+from device import Device
 from .integrator import Integrator, alpha_coeff
 from solvers import (
     kiops,
@@ -68,8 +69,12 @@ class Srerk_others(Integrator):
         self.exponential_solver = exp_solver
         # ---these were in integrator and were causing issues---
         self.preconditioner = None
+        self.output_manager = None
         self.solver_info = None
         self.sim_time = -1.0
+        self.device = Device.get_default()
+        self.failure_flag = 0
+        self.num_completed_steps = 0
 
         if nodes:
             self.c = nodes
-- 
2.43.0


From ba0749084b5b96408889a38a414d0749d4524249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:55 +0000
Subject: [PATCH 38/42] fix: Dirichlet operators of the benchmark problems
 raised NameError on one process

---
 wx_factory/stiff_pdes/JTV.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wx_factory/stiff_pdes/JTV.py b/wx_factory/stiff_pdes/JTV.py
index 7044606..86775b4 100644
--- a/wx_factory/stiff_pdes/JTV.py
+++ b/wx_factory/stiff_pdes/JTV.py
@@ -750,7 +750,7 @@ def advectionDirichlet(vec, alpha, world):
 
                 # if rank == size-1, then need top boundary condition
                 # if world.rank == world.size-1:
-                if world.procYID == world.procs_per_yaxis - 1 and world.size - 1 != 0:
+                if world.procYID == world.procs_per_yaxis - 1:
                     # current_val += world.TopBoundaryCond[i] + vec[indx - world.numPointsXnoBC]
                     current_val += -vec[indx - world.numPointsX]
 
@@ -1034,7 +1034,7 @@ def nonLinAdvecDirichlet(vec, u, alpha, world):
 
                 # if rank == size-1, then need top boundary condition
                 # if world.rank == world.size-1:
-                if world.procYID == world.procs_per_yaxis - 1 and world.size - 1 != 0:
+                if world.procYID == world.procs_per_yaxis - 1:
                     # current_val += world.TopBoundaryCond[i] + vec[indx - world.numPointsXnoBC]
                     current_val += -vec[indx - world.numPointsX] * u[indx - world.numPointsX]
 
@@ -1249,7 +1249,7 @@ def advectionUsquaredDir(vec, world):
 
                 # if rank == size-1, then need top boundary condition
                 # if world.rank == world.size-1:
-                if world.procYID == world.procs_per_yaxis - 1 and world.size - 1 != 0:
+                if world.procYID == world.procs_per_yaxis - 1:
                     # current_val += world.TopBoundaryCond[i] + vec[indx - world.numPointsXnoBC]
                     current_val += -vec[indx - world.numPointsX] ** 2
 
-- 
2.43.0


From 1917af1e1c48a7fd2e4067b4a5b41fc227464c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:56 +0000
Subject: [PATCH 39/42] fix: kernel sources are found from any working
 directory

---
 wx_factory/compiler/compile_kernels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wx_factory/compiler/compile_kernels.py b/wx_factory/compiler/compile_kernels.py
index f8b7b47..157ffcc 100644
--- a/wx_factory/compiler/compile_kernels.py
+++ b/wx_factory/compiler/compile_kernels.py
@@ -78,12 +78,12 @@ class WxExtension(Extension):
 
     def __init__(self, name, backend, suffix, build_ext_class, **kwargs):
 
-        source_dir = os.path.join(base_module_dir, name)
-        source_files = glob(source_dir + f"/**/*.{suffix}", root_dir=main_project_dir, recursive=True)
+        source_dir = os.path.join(main_project_dir, base_module_dir, name)
+        source_files = glob(source_dir + f"/**/*.{suffix}", recursive=True)
         include_dirs = [pybind11.get_include()]
         header_files = list(
             itertools.chain.from_iterable(
-                glob(source_dir + f"/**/*.{s}", root_dir=main_project_dir, recursive=True) for s in ["h", "hpp"]
+                glob(source_dir + f"/**/*.{s}", recursive=True) for s in ["h", "hpp"]
             )
         )
 
-- 
2.43.0


From 24317bff41d0ee8958343b300bcd8d8cf164bedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:04 +0000
Subject: [PATCH 40/42] fix: matrix sets holding coo matrices could not be
 loaded

---
 wx_factory/solvers/eigenvalue_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/solvers/eigenvalue_util.py b/wx_factory/solvers/eigenvalue_util.py
index 2dc76e5..b9266da 100644
--- a/wx_factory/solvers/eigenvalue_util.py
+++ b/wx_factory/solvers/eigenvalue_util.py
@@ -122,7 +122,7 @@ def save_matrices(file, matrices):
         elif matrix.format == "dia":
             arrays_dict[f"offsets{num_mat}"] = matrix.offsets
         elif matrix.format == "coo":
-            arrays_dict[f"row{num_mat}"] = (matrix.row,)
+            arrays_dict[f"row{num_mat}"] = matrix.row
             arrays_dict[f"col{num_mat}"] = matrix.col
         else:
             raise NotImplementedError(f"Save is not implemented for sparse matrix of format {matrix.format}.")
-- 
2.43.0


From 9f2340e37183e8ce12282c06842f11545b189587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:04 +0000
Subject: [PATCH 41/42] fix: gen_matrix with compressed=False always failed

---
 wx_factory/solvers/eigenvalue_util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wx_factory/solvers/eigenvalue_util.py b/wx_factory/solvers/eigenvalue_util.py
index b9266da..e45438d 100644
--- a/wx_factory/solvers/eigenvalue_util.py
+++ b/wx_factory/solvers/eigenvalue_util.py
@@ -79,12 +79,13 @@ def gen_matrix(
             if rank == r:
                 Qid[i] = 1.0
             col = device.to_host(matvec(Qid.flatten()))
-            ccol = csc_matrix(col.reshape((col.size, 1))) if compressed else col
+            col = col.reshape((col.size, 1))
+            ccol = csc_matrix(col) if compressed else col
             columns[idx] = ccol
             idx += 1
             Qid[i] = 0.0
 
-    J_tile = scipy.sparse.hstack(columns, format="csc")
+    J_tile = scipy.sparse.hstack(columns, format="csc") if compressed else csc_matrix(numpy.hstack(columns))
 
     # Gather the matrix segments from all PEs and save the matrix to file
     if local:
-- 
2.43.0


From 591afaee529727656143200564b59c3fed503cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:04 +0000
Subject: [PATCH 42/42] fix: shallow water with one element per panel raised
 IndexError

---
 wx_factory/geometry/cubed_sphere_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wx_factory/geometry/cubed_sphere_2d.py b/wx_factory/geometry/cubed_sphere_2d.py
index 8f944ea..99f8b31 100644
--- a/wx_factory/geometry/cubed_sphere_2d.py
+++ b/wx_factory/geometry/cubed_sphere_2d.py
@@ -532,7 +532,7 @@ class CubedSphere2D(CubedSphere):
             new[self.east_edge] = 0.0
             new[self.west_edge] = 0.0
 
-            return xp.squeeze(new)
+            return new
         else:
             raise ValueError(f"Unexpected array shape {a.shape} (expected {expected_shape})")
 
@@ -557,7 +557,7 @@ class CubedSphere2D(CubedSphere):
 
             # raise ValueError(f'a = \n{a[0]}\nnew_tmp = \n{new_tmp[0]}\nnew = \n{new[0]}')
 
-            return xp.squeeze(new)
+            return new
         else:
             raise ValueError(f"Unexpected array shape {a.shape} (expected {expected_shape})")
 
-- 
2.43.0

