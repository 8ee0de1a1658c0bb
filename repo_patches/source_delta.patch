From c07d98e27c68708e1dcd51701131dc351fef0466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:07 +0000
Subject: [PATCH 01/17] fix: matching pursuit reports and tests the current
 residual energy

The loop body computed the residual energy but stored the energy of the
measurements, so the halting criterion never triggered and the returned
record was inconsistent.
---
 src/cr/sparse/_src/pursuit/mp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/mp.py b/src/cr/sparse/_src/pursuit/mp.py
index cd53360..c133720 100644
--- a/src/cr/sparse/_src/pursuit/mp.py
+++ b/src/cr/sparse/_src/pursuit/mp.py
@@ -119,7 +119,7 @@ def solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tracker):
         # Compute residual norm squared
         r_norm_sqr = r.T @ r
         return MPState(x=x, r=r, 
-            r_norm_sqr=y_norm_sqr, 
+            r_norm_sqr=r_norm_sqr, 
             iterations=state.iterations+1)
 
     def cond_func(state):
@@ -195,7 +195,7 @@ def matrix_solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tra
         # Compute residual norm squared
         r_norm_sqr = r.T @ r
         return MPState(x=x, r=r, 
-            r_norm_sqr=y_norm_sqr, 
+            r_norm_sqr=r_norm_sqr, 
             iterations=state.iterations+1)
 
     def cond_func(state):
-- 
2.43.0


From cdc0f1d6c337901d7fd2181f2934bd4cd1c0ab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:07 +0000
Subject: [PATCH 02/17] fix: matching pursuit tells the tracker whether more
 iterations follow

Without the more flag every notification announced convergence.
---
 src/cr/sparse/_src/pursuit/mp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/mp.py b/src/cr/sparse/_src/pursuit/mp.py
index c133720..1701227 100644
--- a/src/cr/sparse/_src/pursuit/mp.py
+++ b/src/cr/sparse/_src/pursuit/mp.py
@@ -123,12 +123,12 @@ def solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tracker):
             iterations=state.iterations+1)
 
     def cond_func(state):
-        jax.debug.callback(tracker, state)
         # limit on residual norm 
         a = state.r_norm_sqr > max_r_norm_sqr
         # limit on number of iterations
         b = state.iterations < max_iters
         c = jnp.logical_and(a, b)
+        jax.debug.callback(tracker, state, more=c)
         return c
 
     # state = init_func()
@@ -199,12 +199,12 @@ def matrix_solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tra
             iterations=state.iterations+1)
 
     def cond_func(state):
-        jax.debug.callback(tracker, state)
         # limit on residual norm 
         a = state.r_norm_sqr > max_r_norm_sqr
         # limit on number of iterations
         b = state.iterations < max_iters
         c = jnp.logical_and(a, b)
+        jax.debug.callback(tracker, state, more=c)
         return c
 
     # state = init_func()
-- 
2.43.0


From 9949235fc0ca0d4ac9c0becd3a67c4dd44800b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:42 +0000
Subject: [PATCH 03/17] fix: SPGL1 reports the operator applications it
 performed

The LASSO loop returned the forward count as the adjoint count and the
BPIC initialisation counted an update that is commented out.
---
 src/cr/sparse/_src/cvx/spgl1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index a32d406..89a662e 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -384,7 +384,7 @@ def solve_lasso_from(A,
             alpha=lsearch.alpha,
             alpha_next=alpha_next,
             iterations=state.iterations+1,
-            n_times=n_times, n_trans=n_times, 
+            n_times=n_times, n_trans=n_trans, 
             n_ls_iters=state.n_ls_iters + lsearch.n_iters)
 
     def cond_func(state):
@@ -605,7 +605,7 @@ def solve_bpic_from(A,
             r_res_error=r_res_error, r_f_error=r_f_error,
             alpha=alpha,
             alpha_next=alpha,
-            iterations=1, n_times=2, n_trans=2,
+            iterations=1, n_times=1, n_trans=1,
             n_newton=1, n_ls_iters=0)
 
     #@jit
-- 
2.43.0


From 105ea951fa5edfc49d0b5059af3c94f643f2ffed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:42 +0000
Subject: [PATCH 04/17] fix: SPGL1 refreshes the residual metrics when tau is
 reduced

The solution was projected on the smaller ball and its residual updated
but the reported residual norm still described the discarded iterate.
---
 src/cr/sparse/_src/cvx/spgl1.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index 89a662e..ceb7547 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -655,6 +655,11 @@ def solve_bpic_from(A,
             lambda _: update_xrgf(A, b, x, tau),
             lambda _: (x, r, g, f),
             None)
+        # the metrics must describe the projected solution
+        r_norm, r_gap, r_res_error, r_f_error = lax.cond(tau_reduced,
+            lambda _: bpic_metrics(b, x, g, r, f, sigma, tau)[1:],
+            lambda _: (r_norm, r_gap, r_res_error, r_f_error),
+            None)
         n_times, n_trans = n_times + tau_reduced, n_trans + tau_reduced
         n_newton = state.n_newton + change_tau
         # update past objective values with the new objective value
-- 
2.43.0


From 8f5bf7a09798944fcba0f352f0fc791a4644e3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:42 +0000
Subject: [PATCH 05/17] fix: l1-ls counts the adjoint application of the dual
 update

---
 src/cr/sparse/_src/cvx/l1ls.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cr/sparse/_src/cvx/l1ls.py b/src/cr/sparse/_src/cvx/l1ls.py
index 468ea4c..30eedf6 100644
--- a/src/cr/sparse/_src/cvx/l1ls.py
+++ b/src/cr/sparse/_src/cvx/l1ls.py
@@ -329,6 +329,7 @@ def solve_from(A, y, lambda_, x0, u0, tol=1e-3, xi=1e-3, t0=None,
         #--------------------------------------------------------------------------------
         # update nu (eq 11)
         nu = get_nu(z)
+        n_trans += 1
         #--------------------------------------------------------------------------------
         # Duality gap calculation TNIPM step 5
         #--------------------------------------------------------------------------------
-- 
2.43.0


From d3bf3f3b01d282f5f23750667651b9a81cef4c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:42 +0000
Subject: [PATCH 06/17] fix: l1-ls honours the limit on backtracking line
 search steps

MAX_LS_ITER was declared but never enforced, so an inconsistent operator
kept the line search going for ever.
---
 src/cr/sparse/_src/cvx/l1ls.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cvx/l1ls.py b/src/cr/sparse/_src/cvx/l1ls.py
index 30eedf6..2facc33 100644
--- a/src/cr/sparse/_src/cvx/l1ls.py
+++ b/src/cr/sparse/_src/cvx/l1ls.py
@@ -310,7 +310,8 @@ def solve_from(A, y, lambda_, x0, u0, tol=1e-3, xi=1e-3, t0=None,
         def bt_cond(state):
             newphi = state[4]
             s = state[5]
-            return newphi - phi > ALPHA * s * gdx
+            times_count = state[6]
+            return (newphi - phi > ALPHA * s * gdx) & (times_count < MAX_LS_ITER)
 
         newx, newu, newf, newz, newphi, s, times_count = lax.while_loop(bt_cond, bt_body, bt_init(1.0))
         # add the number of times A x was run in backtracking
-- 
2.43.0


From ca6bc30480cdf3692cbe699ebe991fd44dbbfdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:35 +0000
Subject: [PATCH 07/17] fix: OMP's first iteration reports its own residual and
 coefficients

The residual energy after one iteration was that of the measurements and
the coefficient array was a scalar, unlike after any later iteration.
---
 src/cr/sparse/_src/pursuit/omp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/omp.py b/src/cr/sparse/_src/pursuit/omp.py
index aeb35f9..d600e48 100644
--- a/src/cr/sparse/_src/pursuit/omp.py
+++ b/src/cr/sparse/_src/pursuit/omp.py
@@ -226,11 +226,11 @@ def operator_solve(Phi, y, K, res_norm_rtol=1e-4):
         L = jnp.ones((1,1))
         # Initial coefficient
         x0 = p[i]
-        x_I = x0
+        x_I = p[I]
         # updated residual after first iteration
         r = y - x0 * phi_0
         # norm squared of new residual
-        norm_r_new_sqr = jnp.abs(jnp.vdot(y, y))
+        norm_r_new_sqr = jnp.abs(jnp.vdot(r, r))
         return OMPState(x_I=x_I, I=I, r=r, 
             Phi_I=Phi_I, L=L, 
             r_norm_sqr=norm_r_new_sqr, iterations=1)
-- 
2.43.0


From 73dcf27de8c528e488cd6e02bbc762625da1a335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:35 +0000
Subject: [PATCH 08/17] fix: OMP with a budget of one iteration returns a
 record

The loop variable was read after a loop which does not run.
---
 src/cr/sparse/_src/pursuit/omp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/pursuit/omp.py b/src/cr/sparse/_src/pursuit/omp.py
index d600e48..789df91 100644
--- a/src/cr/sparse/_src/pursuit/omp.py
+++ b/src/cr/sparse/_src/pursuit/omp.py
@@ -94,7 +94,7 @@ def matrix_solve(Phi, y, max_iters, max_res_norm=1e-6):
         r = y - Phi_I @ x_I
         # norm squared of new residual
         norm_r_new_sqr = r.T @ r
-    return RecoverySolution(x_I=x_I, I=I, r=r, r_norm_sqr=norm_r_new_sqr, iterations=k+1, length=Phi.shape[1])
+    return RecoverySolution(x_I=x_I, I=I, r=r, r_norm_sqr=norm_r_new_sqr, iterations=len(I), length=Phi.shape[1])
 
 
 
-- 
2.43.0


From db01e12d400c4cc8290f2aaf5c0e1ff434ad2fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:30 +0000
Subject: [PATCH 09/17] fix: recovery trials draw one key per signal

The keys were split into as many parts as there are dictionaries, so
further signals of a dictionary were copies of the last one.
---
 src/cr/sparse/_src/tools/trials_at_fixed_m_n.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py b/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
index 50e3a20..0591f32 100644
--- a/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
+++ b/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
@@ -143,7 +143,7 @@ class RecoveryTrialsAtFixed_M_N:
                 print('*', end='', flush=True)
                 # Construct a dictionary
                 Phi = crdict.gaussian_mtx(dict_key, M,N)
-                signal_keys = jax.random.split(dict_key, num_dict_trials)
+                signal_keys = jax.random.split(dict_key, num_signal_trials)
                 for nst in range(num_signal_trials):
                     signal_key = signal_keys[nst]
                     # Construct a signal
-- 
2.43.0


From 0c42a39756d01182cecc4aee4e2da437af5307c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:30 +0000
Subject: [PATCH 10/17] fix: recovery trials with a single trial per sparsity
 level

The mean run time divided by zero and the finished level was lost.
---
 src/cr/sparse/_src/tools/trials_at_fixed_m_n.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py b/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
index 0591f32..d3d223b 100644
--- a/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
+++ b/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
@@ -172,7 +172,7 @@ class RecoveryTrialsAtFixed_M_N:
             success_rate = successes / trials
             iters = np.array(iters)
             runtime=end_time-start_time # in seconds
-            mean_runtime=runtime * 1000 / (trials - 1) # in milli seconds
+            mean_runtime=runtime * 1000 / max(trials - 1, 1) # in milli seconds
             # summarized information
             row = Row(m=M, n=N, k=K, method=name, 
                 trials=trials, successes=successes, 
-- 
2.43.0


From 5e3b27b645ae3b2430ed45483b12b4de09913a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:30 +0000
Subject: [PATCH 11/17] fix: saving recovery trials never destroys the results
 saved before

The file was truncated and rewritten in place after every sparsity level:
a crash or a full disk at that moment lost the whole experiment.
---
 .../sparse/_src/tools/trials_at_fixed_m_n.py  | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py b/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
index d3d223b..1edd3fb 100644
--- a/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
+++ b/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import os
 import time
 from typing import NamedTuple
 
@@ -114,8 +115,26 @@ class RecoveryTrialsAtFixed_M_N:
             self._process(solver['name'], solver['solver'])
 
     def save(self):
-        """Saves the experiment results in the CSV file"""
-        self.df.to_csv(self.destination, index=False)
+        """Saves the experiment results in the CSV file
+
+        A file is replaced as a whole, hence an interrupted or failed save
+        leaves the results of the previous one in place.
+        """
+        destination = self.destination
+        if not isinstance(destination, (str, os.PathLike)):
+            self.df.to_csv(destination, index=False)
+            return
+        folder, name = os.path.split(os.path.realpath(destination))
+        partial = os.path.join(folder, f'.{os.getpid()}.{name}')
+        try:
+            self.df.to_csv(partial, index=False)
+            with open(partial, 'rb+') as file:
+                os.fsync(file.fileno())
+            os.replace(partial, os.path.join(folder, name))
+        except BaseException:
+            if os.path.exists(partial):
+                os.remove(partial)
+            raise
 
     def _process(self, name, solver):
         # Copy configuration
-- 
2.43.0


From 67fdf155a689ca029575e605fea596b94cc64c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:30 +0000
Subject: [PATCH 12/17] fix: recovery performance accepts solutions in dense
 form

Membership in a named tuple compares values, so the dense form was never
recognised.
---
 src/cr/sparse/_src/tools/performance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/tools/performance.py b/src/cr/sparse/_src/tools/performance.py
index b487146..aa14b36 100644
--- a/src/cr/sparse/_src/tools/performance.py
+++ b/src/cr/sparse/_src/tools/performance.py
@@ -77,10 +77,10 @@ class RecoveryPerformance:
         # Shape of the dictionary/sensing matrix
         M, N = Phi.shape
         if sol is not None:
-            if 'x' in sol:
-                x_hat = sol.x
-            else:
+            if hasattr(sol, 'x_I'):
                 x_hat = build_signal_from_indices_and_values(N, sol.I, sol.x_I) 
+            else:
+                x_hat = sol.x
         self.T0 = nonzero_indices(x)
         K = self.T0.size
         self.M = M
-- 
2.43.0


From 944c1e32d629bda9fbf6e2e550f43309ced679f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:24 +0000
Subject: [PATCH 13/17] fix: the proximal operator of the ordered weighted
 l1-norm terminates

Pooled entries fell apart again in the next pass, so pooling approached
its fixed point without ever reaching it, and a nan never left the loop.
---
 src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py b/src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py
index 2172b92..ca08180 100644
--- a/src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py
+++ b/src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py
@@ -30,7 +30,8 @@ def prox_ordered_l1_b(state):
     y, l = state
     x = y - l
     n = len(x)
-    mask = jnp.zeros(len(x), dtype=bool).at[1:].set(jnp.diff(x) > 0)
+    # entries which have already been averaged together must stay together
+    mask = jnp.zeros(len(x), dtype=bool).at[1:].set(jnp.diff(x) >= 0)
     segment_ids = jnp.cumsum(~mask) - 1
     y_sums = segment_sum(y, segment_ids, num_segments=n)
     l_sums = segment_sum(l, segment_ids, num_segments=n)
@@ -42,7 +43,7 @@ def prox_ordered_l1_b(state):
 
 def is_not_nonincreasing(state):
     y, l = state
-    return jnp.logical_not(cnb.is_nonincreasing_vec(y -l)) 
+    return jnp.any(jnp.diff(y - l) > 0)
 
 def prox_ordered_l1_a(y, l):
     l = jnp.ravel(l)
-- 
2.43.0


From a3f0d3c2eead18ab6e0d7ff18fd31f587939584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:23 +0000
Subject: [PATCH 14/17] fix: CoSaMP's compiled entry point accepts a tracker

---
 src/cr/sparse/_src/pursuit/cosamp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/pursuit/cosamp.py b/src/cr/sparse/_src/pursuit/cosamp.py
index 38fbe52..6adcfc9 100644
--- a/src/cr/sparse/_src/pursuit/cosamp.py
+++ b/src/cr/sparse/_src/pursuit/cosamp.py
@@ -251,6 +251,6 @@ def operator_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4,
         iterations=state.iterations, length=Phi.shape[1])
 
 
-operator_solve_jit = jit(operator_solve, static_argnums=(0, 2), static_argnames=("max_iters", "res_norm_rtol"))
+operator_solve_jit = jit(operator_solve, static_argnums=(0, 2), static_argnames=("max_iters", "res_norm_rtol", "tracker"))
 
 solve = operator_solve_jit
-- 
2.43.0


From 7df5eb80024ad972b7412daae6628e902ae578f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:23 +0000
Subject: [PATCH 15/17] fix: SPGL1 lasso's compiled entry point accepts options

---
 src/cr/sparse/_src/cvx/spgl1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index ceb7547..0cde5be 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -415,7 +415,7 @@ def solve_lasso(A,
     x0 = jnp.zeros(n)
     return solve_lasso_from(A, b, tau, x0, options=options, tracker=tracker)
 
-solve_lasso_jit = jit(solve_lasso, static_argnames=("A", "tracker"))
+solve_lasso_jit = jit(solve_lasso, static_argnames=("A", "options", "tracker"))
 
 
 def analyze_lasso_state(A, b, tau, options, state, x0):
-- 
2.43.0


From e949089fec8f52ef67d3f516b7869a1693a4dd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:53 +0000
Subject: [PATCH 16/17] fix: YALL1 reports the residual of the non-negative
 solution

The solution is clipped at zero after the iterations, the residual was
the one of the solution before that.
---
 src/cr/sparse/_src/cvx/adm/yall1.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/adm/yall1.py b/src/cr/sparse/_src/cvx/adm/yall1.py
index f9d70c0..acea53f 100644
--- a/src/cr/sparse/_src/cvx/adm/yall1.py
+++ b/src/cr/sparse/_src/cvx/adm/yall1.py
@@ -537,11 +537,17 @@ def solve(A, b, x0=None, z0=None, W=None, weights=None, nonneg=False, rho=0., de
         else:
             # It's a basis pursuit problem
             state = solve_bp(A, b, x0, z0, w, nonneg, gamma, tolerance, max_iters)
-    x = jnp.where(nonneg, jnp.maximum(0, state.x), state.x)
+    x = state.x
+    r = state.rp
+    if nonneg:
+        x = jnp.maximum(0, x)
+        # the residual for the projected solution
+        r = b - A.times(x)
+        n_times += 1
     if W:
         # go back from sparsifying basis to signal space
         x = W.times(x)
-    return RecoveryFullSolution(x=b_max*x, r=b_max*state.rp, 
+    return RecoveryFullSolution(x=b_max*x, r=b_max*r, 
         iterations=state.iterations,
         n_times=state.n_times+n_times, 
         n_trans=state.n_trans+n_trans)
-- 
2.43.0


From 25c0f33f3b8b5a45e0d1e9bb385ae48f8f42179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:58 +0000
Subject: [PATCH 17/17] fix: SPG counts every projection in proj_calls

---
 src/cr/sparse/_src/opt/spg.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/opt/spg.py b/src/cr/sparse/_src/opt/spg.py
index 3191e96..3c702cc 100644
--- a/src/cr/sparse/_src/opt/spg.py
+++ b/src/cr/sparse/_src/opt/spg.py
@@ -176,7 +176,8 @@ def solve_from(smooth_f: SmoothFunction,
             f_past=f_past,
             delta=delta,
             iterations=1,
-            proj_calls=1,
+            # two projections above and one for the stopping criterion
+            proj_calls=3,
             f_calls=2, g_calls=2)
 
     def step(state):
@@ -206,7 +207,8 @@ def solve_from(smooth_f: SmoothFunction,
             x_prev=x, g_prev=g, 
             f_past=f_past,
             iterations=state.iterations+1,
-            proj_calls=state.proj_calls+1,
+            # one projection above and one for the stopping criterion
+            proj_calls=state.proj_calls+2,
             f_calls=state.f_calls+lsearch.f_calls,
             g_calls=state.g_calls+1)
 
-- 
2.43.0

