From 4392632465df9f5d58350658677e4fd5dcfbd560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:41 +0000
Subject: [PATCH 01/36] fix: MultiGauss Hessian column adds the second-order
 term only for diagonal Cholesky parameters

Off-diagonal elements of the Cholesky factor enter linearly, so their second
partial derivative vanishes.
---
 src/mssm/src/python/exp_fam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index eca423d..a713bb4 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4974,7 +4974,7 @@ class MultiGauss(GSMMFamily):
                     d2 = np.sum(xbarjmui * RiRpRRiymui)
                 else:
                     d2 = (ymu @ Rpj.T) * (ymu @ Rpi.T)
-                    if (mr == theta_idx[0]) and (mc == theta_idx[1]):
+                    if is_diag and (mr == theta_idx[0]) and (mc == theta_idx[1]):
                         d2 += (ymu @ R.T) * (ymu @ Rpj.T)
                     d2 = -np.sum(d2)
 
-- 
2.43.0


From eb3b92d4164ad49bdfe7f33f084574b3189dd95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:41 +0000
Subject: [PATCH 02/36] fix: evaluate link derivative at mu in gradient of GSMM
 wrapper for extended families

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index cf64053..42681a4 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -338,7 +338,7 @@ class GAMLSSGSMMFamily(GSMMFamily):
                 mu = gammlss_family.link.fi(Xs[0] @ coef[:-n_theta])
                 theta = coef[-n_theta:]
                 d1 = gammlss_family.dDdmu(y, mu, theta=theta)
-                ld1 = gammlss_family.link.dy1(d1)
+                ld1 = gammlss_family.link.dy1(mu)
                 grad_coef = -0.5 * ((d1 / ld1).T @ Xs[0]).T
                 grad_theta = gammlss_family.gradientLTheta(y, mu, theta=theta)
                 grad = np.concatenate((grad_coef, grad_theta), axis=0)
-- 
2.43.0


From b2367665d8dec6af48efdcc22ed59c06467909c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:41 +0000
Subject: [PATCH 03/36] fix: QR fallback in REML uses the scaled penalty like
 the Cholesky branch

---
 src/mssm/src/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 42681a4..1a099d0 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -2245,7 +2245,7 @@ def REML(
             warnings.warn(
                 "Cholesky for log-determinant to compute REML failed. Falling back on QR."
             )
-            R = np.linalg.qr(S_rep.toarray(), mode="r")
+            R = np.linalg.qr((S_rep / scale).toarray(), mode="r")
             ldetSI = (
                 np.log(np.abs(R.diagonal())).sum() * Sj_reps[SJ_term_idx[Si][0]].rep_sj
             )
-- 
2.43.0


From 019ae76b9c6dc6c733a5474fdcafe1e9c5b3f5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:41 +0000
Subject: [PATCH 04/36] fix: adjust_CI keeps columns that sum to zero and does
 not modify its input

A column of the prediction matrix with positive and negative entries can sum
to zero and was then ignored by the simultaneous adjustment.
---
 src/mssm/src/python/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 1a099d0..c0ba235 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1608,7 +1608,7 @@ def adjust_CI(
         # If we have many random factor levels, but want to make predictions only
         # for fixed effects, it's wasteful to sample all coefficients from posterior.
         # The code below performs a selection of the coefficients to be sampled.
-        use_post = predi_mat.sum(axis=0) != 0
+        use_post = abs(predi_mat).sum(axis=0) != 0
         use_post = np.arange(0, predi_mat.shape[1])[use_post]
 
     # Sample deviations [*coef - coef] from posterior of model
@@ -1634,7 +1634,7 @@ def adjust_CI(
     bmadq = np.quantile(np.max(fpost, axis=0), 1 - alpha)
 
     # Then adjust b
-    b *= bmadq
+    b = b * bmadq
 
     return b
 
-- 
2.43.0


From f75eb0cddbab1877c41d697f41cf851d29dc60ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:41 +0000
Subject: [PATCH 05/36] fix: row sub-sampling for smooth p-values needs an
 integer size

---
 src/mssm/src/python/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index c0ba235..e04494e 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1275,7 +1275,9 @@ def approx_smooth_p_values(
 
                 if X_b_j.shape[0] > n_sel:
                     # Select subset of rows randomly as suggested by Wood (2013)
-                    sel = np_gen.choice(X_b_j.shape[0], size=n_sel, replace=False)
+                    sel = np_gen.choice(
+                        X_b_j.shape[0], size=int(n_sel), replace=False
+                    )
                     X_b_j = X_b_j[sel, :]
 
                 R = np.linalg.qr(X_b_j.toarray(), mode="r")
-- 
2.43.0


From cc322f34e3fa346aac00fef893a8934fdccdc584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:41 +0000
Subject: [PATCH 06/36] fix: raise the error for an ill-defined penalty start
 index

---
 src/mssm/src/python/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 23f312d..dbac37e 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -2093,7 +2093,7 @@ def build_penalties(formula) -> list[LambdaTerm]:
     start_idx = formula.unpenalized_coef
 
     if start_idx is None:
-        ValueError("Penalty start index is ill-defined.")
+        raise ValueError("Penalty start index is ill-defined.")
 
     cur_pen_idx = start_idx
     prev_pen_idx = start_idx
-- 
2.43.0


From 1d631cf4e435a21f1534575f24bdd0afbe622f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:41 +0000
Subject: [PATCH 07/36] fix: pass bfgs_options to correct_VB by name in
 compare_CDL

---
 src/mssm/src/python/compare.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/compare.py b/src/mssm/src/python/compare.py
index 1f882cc..3e61623 100644
--- a/src/mssm/src/python/compare.py
+++ b/src/mssm/src/python/compare.py
@@ -417,7 +417,7 @@ def compare_CDL(
             recompute_H=recompute_H,
             compute_Vcc=compute_Vcc,
             seed=seed,
-            **bfgs_options,
+            bfgs_options=bfgs_options,
         )
         _, _, _, _, _, DOF2, _, DOF22, expected_edf2, _ = correct_VB(
             model2,
@@ -438,7 +438,7 @@ def compare_CDL(
             recompute_H=recompute_H,
             compute_Vcc=compute_Vcc,
             seed=seed,
-            **bfgs_options,
+            bfgs_options=bfgs_options,
         )
 
         if only_expected_edf:
-- 
2.43.0


From 4d734080504cb5d6ce1a859ed0d07bbf041a65f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:14 +0000
Subject: [PATCH 08/36] fix: do not take the root of the root weights when
 observations were dropped

``Wr`` already holds the square root of the working weights, so expanding it
to the full number of observations must not take the root again.
---
 src/mssm/src/python/gamm_solvers.py |  4 ++--
 src/mssm/src/python/utils.py        | 10 ++++------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 20d31fa..2f5d790 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3152,8 +3152,8 @@ def solve_gamm_sparse(
             w_full[inval == False] = Wr.diagonal()  # noqa: E712
             w = w_full
 
-            # Re-compute weight matrix
-            Wr = scp.sparse.spdiags([np.sqrt(np.ndarray.flatten(w))], [0])
+            # Re-compute (root of) weight matrix
+            Wr = scp.sparse.spdiags([np.ndarray.flatten(w)], [0])
 
             # Adjust working residuals
             wres_full = np.zeros_like(eta)
diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index e04494e..46f3cd4 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -1818,8 +1818,8 @@ def compute_reml_candidate_GAMM(
                 w_full[inval == False] = Wr.diagonal()  # noqa: E712
                 w = w_full
 
-                # Re-compute weight matrix
-                Wr_fix = scp.sparse.spdiags([np.sqrt(np.ndarray.flatten(w))], [0])
+                # Re-compute (root of) weight matrix
+                Wr_fix = scp.sparse.spdiags([np.ndarray.flatten(w)], [0])
             else:
                 Wr_fix = Wr
             inval = inval.flatten()
@@ -4423,10 +4423,8 @@ def correct_VB(
                         w_full[inval == False] = Wr.diagonal()  # noqa: E712
                         w = w_full
 
-                        # Re-compute weight matrix
-                        Wr_fix = scp.sparse.spdiags(
-                            [np.sqrt(np.ndarray.flatten(w))], [0]
-                        )
+                        # Re-compute (root of) weight matrix
+                        Wr_fix = scp.sparse.spdiags([np.ndarray.flatten(w)], [0])
                     else:
                         Wr_fix = Wr
 
-- 
2.43.0


From e37d71fc5b0c8b6eddc678b5b7997560917a4266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:14 +0000
Subject: [PATCH 09/36] fix: warn, instead of raising None, for a badly
 conditioned QR system

---
 src/mssm/src/python/gamm_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 2f5d790..44a36d0 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -3206,7 +3206,7 @@ def solve_gamm_sparse(
                 )
             )
         if method != "Chol" and Kcode == 2:
-            raise warnings.warn(
+            warnings.warn(
                 (
                     f"Condition number ({K2}) of matrix A, where A.T@A=X.T@X + S_\\lambda, is "
                     "larger than 1/u, where u is half the machine precision. The model estimates "
-- 
2.43.0


From 7af5eaf6325284f4a669c179470b7127c617b105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:14 +0000
Subject: [PATCH 10/36] fix: cpp_solve_LXX calls the binding by its registered
 name

---
 src/mssm/src/python/matrix_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/matrix_solvers.py b/src/mssm/src/python/matrix_solvers.py
index 4fa8b46..4bf6294 100644
--- a/src/mssm/src/python/matrix_solvers.py
+++ b/src/mssm/src/python/matrix_solvers.py
@@ -395,7 +395,7 @@ def cpp_solve_LXX(
         success
     :rtype: tuple[scp.sparse.csc_array,list[int],int]
     """
-    return eigen_solvers.cpp_solve_LXX(*map_csc_to_eigen(A))
+    return eigen_solvers.solve_LXX(*map_csc_to_eigen(A))
 
 
 def cpp_solve_tr(
-- 
2.43.0


From 4a32b705686adb13d84d25f2f34711e8b31c6cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:14 +0000
Subject: [PATCH 11/36] fix: do not duplicate a penalty whose id is not shared
 with another one

---
 src/mssm/src/python/gamm_solvers.py | 3 +++
 src/mssm/src/python/penalties.py    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 44a36d0..1c58544 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -399,6 +399,9 @@ def compute_S_emb_pinv_det(
         ]
 
         for id in id_dict.keys():
+            if len(id_dict[id]) <= 1:  # Decision is kept as is above
+                continue
+
             rds = [rd for rdi, rd in enumerate(FS_use_rank) if penalties[rdi].id == id]
 
             if len(np.unique(rds)) > 1:
diff --git a/src/mssm/src/python/penalties.py b/src/mssm/src/python/penalties.py
index d0ee801..cdc9f30 100644
--- a/src/mssm/src/python/penalties.py
+++ b/src/mssm/src/python/penalties.py
@@ -72,6 +72,9 @@ def combine_shared_penalties(penalties: list[LambdaTerm]) -> list[LambdaTerm]:
         ]
 
         for id in id_dict.keys():
+            if len(id_dict[id]) <= 1:  # Nothing to merge, kept as is above
+                continue
+
             m_pens = [pen for pen in penalties if pen.id == id]
             S_J_emb = m_pens[0].S_J_emb
             D_J_emb = m_pens[0].D_J_emb
-- 
2.43.0


From 595224f3f1e19cd023a866e3163b6f976d323cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:14 +0000
Subject: [PATCH 12/36] fix: embed pseudo-inverse and root of a penalty block
 at the start index of the block

A running index ignores un-penalized coefficients between blocks, for example
the intercept of a second formula.
---
 src/mssm/src/python/gamm_solvers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index 1c58544..a725931 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -286,6 +286,9 @@ def compute_S_emb_pinv_det(
         # Now handle all pinv calculations because all penalties
         # associated with a term have been collected in SJ
 
+        # Un-penalized coefficients might separate blocks (e.g., of different formulas)
+        cIndexPinv = SJ_idx[SJi]
+
         if SJ_terms[SJi] == 1:
 
             if root:
-- 
2.43.0


From 7750dca8484dc7d8bb6dbf70d80ea3b0e98c30ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:28 +0000
Subject: [PATCH 13/36] fix: compute_Tpi no longer overwrites the fixed T and
 pi of later series

---
 src/mssm/src/python/hsmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 23ac6f7..e7d24a6 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1589,7 +1589,7 @@ class HSMMFamily(GSMMFamily):
             ps = []
 
             for series in range(n_series):
-                T, pi = series_Tpi(
+                Ts, pis = series_Tpi(
                     series,
                     [
                         y_split[series] if y_split is not None else None
@@ -1601,7 +1601,7 @@ class HSMMFamily(GSMMFamily):
                     ],
                 )
 
-                ps.append([T, pi])
+                ps.append([Ts, pis])
 
         else:  # Compute in parallel
 
-- 
2.43.0


From d1e88ba90432999efb3fa6385343d2aa67cdc081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:28 +0000
Subject: [PATCH 14/36] fix: read_unique returns values in sorted order

The iteration order of a set of strings depends on the hash seed of the
process, so that factor levels read from files were numbered at random.
---
 src/mssm/src/python/file_loading.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/mssm/src/python/file_loading.py b/src/mssm/src/python/file_loading.py
index cfb8ae4..59e0182 100644
--- a/src/mssm/src/python/file_loading.py
+++ b/src/mssm/src/python/file_loading.py
@@ -43,15 +43,12 @@ def read_unique(
     :return: numpy array holding unique values
     :rtype: np.ndarray
     """
-    unq = set()
     with mp.Pool(processes=nc) as pool:
         unq_cov = pool.starmap(
             read_unique_single, zip(repeat(x), files, repeat(file_loading_kwargs))
         )
 
-    unq.update(*unq_cov)
-
-    return np.array(list(unq))
+    return np.unique(np.concatenate(unq_cov))
 
 
 def read_cor_cov_single(
-- 
2.43.0


From a8d3c4b29047d374a0f567e7dedcdb35cc706689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:28 +0000
Subject: [PATCH 15/36] fix: ignore NaNs when obtaining range of covariates
 from files as for data frames

---
 src/mssm/src/python/formula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index dbac37e..c2ad995 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -711,8 +711,8 @@ class Formula:
                         self.file_loading_nc,
                         self.file_loading_kwargs,
                     )
-                    self.var_mins[var] = np.min(unique_var)
-                    self.var_maxs[var] = np.max(unique_var)
+                    self.var_mins[var] = np.nanmin(unique_var)
+                    self.var_maxs[var] = np.nanmax(unique_var)
             else:
                 self.var_types[var] = VarType.FACTOR
                 self.var_mins[var] = None
-- 
2.43.0


From fb361ad332c9b6e927db8554c69b8e3ebee408c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:28 +0000
Subject: [PATCH 16/36] fix: candidates are moved inside of the support of the
 centered uniform prior

The limits are centered around an estimate and can be of any sign, so that
shrinking a limit towards zero might leave the interval.
---
 src/mssm/src/python/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/utils.py b/src/mssm/src/python/utils.py
index 46f3cd4..afce849 100644
--- a/src/mssm/src/python/utils.py
+++ b/src/mssm/src/python/utils.py
@@ -3623,8 +3623,9 @@ class CenteredUniformRhoPriors(RhoPrior):
             invala = crho[:, rhoi] < a[rhoi]
             invalb = crho[:, rhoi] > b[rhoi]
 
-            crho[invala, rhoi] = 0.9 * a[rhoi]
-            crho[invalb, rhoi] = 0.9 * b[rhoi]
+            margin = 0.05 * (b[rhoi] - a[rhoi])
+            crho[invala, rhoi] = a[rhoi] + margin
+            crho[invalb, rhoi] = b[rhoi] - margin
 
         return crho
 
-- 
2.43.0


From c0a2512f882e27c74523b71e40b8c1ac422715af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:37 +0000
Subject: [PATCH 17/36] fix: do not duplicate the derivative for a penalty
 whose id is not shared

---
 src/mssm/src/python/gamm_solvers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mssm/src/python/gamm_solvers.py b/src/mssm/src/python/gamm_solvers.py
index a725931..46eb088 100644
--- a/src/mssm/src/python/gamm_solvers.py
+++ b/src/mssm/src/python/gamm_solvers.py
@@ -1009,6 +1009,9 @@ def calculate_edf(
         ]
 
         for id in id_dict.keys():
+            if len(id_dict[id]) <= 1:  # Derivative is kept as is above
+                continue
+
             mBs = [B for bdi, B in enumerate(Bs) if penalties[bdi].id == id]
 
             merged_Bs.append(np.sum(mBs))
-- 
2.43.0


From c83aa969a9969eb86f22ed33586c01b316928e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:49 +0000
Subject: [PATCH 18/36] fix: PropHaz re-computes the baseline hazard when the
 coefficients change

The hazard computed for the first coefficients was returned for all later ones.
---
 src/mssm/src/python/exp_fam.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index a713bb4..0ea8d82 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4013,6 +4013,7 @@ class PropHaz(GSMMFamily):
         super().__init__(1, [Identity()])
         self.ut = ut
         self.r = r
+        self.__coef = None  # coef for which __hs, __qs, and __avs were computed
         self.__hs = None
         self.__qs = None
         self.__avs = None
@@ -4322,6 +4323,7 @@ class PropHaz(GSMMFamily):
             qs[j] = qs[j + 1] + djs[j] / np.power(gamma_ps[j], 2)
             avs[j] = avs[j + 1] + b_ps[j] * djs[j] / np.power(gamma_ps[j], 2)
 
+        self.__coef = np.array(coef)
         self.__hs = hs
         self.__qs = qs
         self.__avs = avs
@@ -4390,7 +4392,7 @@ class PropHaz(GSMMFamily):
         :rtype: np.ndarray
         """
 
-        if self.__hs is None:
+        if self.__hs is None or not np.array_equal(self.__coef, coef):
             self.__prepare_predictions(coef, delta, Xs)
 
         return self.__hs
@@ -4528,7 +4530,7 @@ class PropHaz(GSMMFamily):
         :rtype: tuple[np.ndarray, np.ndarray | None]
         """
 
-        if self.__hs is None:
+        if self.__hs is None or not np.array_equal(self.__coef, coef):
             self.__prepare_predictions(coef, delta, Xs)
 
         # Extract and define all variables defined by WPS (2016)
-- 
2.43.0


From 3139d1f6db9408faf158d8de59385406ed8c4b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:20 +0000
Subject: [PATCH 19/36] fix: gradient of MultiGauss family accounts for the
 derivative of the link function

---
 src/mssm/src/python/exp_fam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index 0ea8d82..7b66173 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4822,7 +4822,8 @@ class MultiGauss(GSMMFamily):
         # shown by WPS (2016)
         for mui in range(self.n_par):
 
-            yRmui = RRy[mui, :]
+            # Chain rule: partial of mean with respect to linear predictor is 1/dy1
+            yRmui = RRy[mui, :] / self.links[mui].dy1(mus[:, mui])
 
             grad[total_idx : total_idx + Xfix[mui].shape[1]] = (  # noqa: E203
                 Xfix[mui] * yRmui[:, None]
-- 
2.43.0


From 99bae21e4807719e54628258e60a82c6450ed359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:20 +0000
Subject: [PATCH 20/36] fix: Hessian columns of MultiGauss family account for
 the derivatives of the link functions

---
 src/mssm/src/python/exp_fam.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/exp_fam.py b/src/mssm/src/python/exp_fam.py
index 7b66173..158618c 100644
--- a/src/mssm/src/python/exp_fam.py
+++ b/src/mssm/src/python/exp_fam.py
@@ -4919,6 +4919,13 @@ class MultiGauss(GSMMFamily):
         # RR is of shape m * m
         RR = R.T @ R
 
+        # Chain rule: first & second partial of mean with respect to linear predictor
+        dmu = [1 / link.dy1(mus[:, mi]) for mi, link in enumerate(self.links)]
+        d2mu = [
+            -link.dy2(mus[:, mi]) * np.power(dmu[mi], 3)
+            for mi, link in enumerate(self.links)
+        ]
+
         # Compute column j of the hessian
         Hj = []
 
@@ -4935,7 +4942,7 @@ class MultiGauss(GSMMFamily):
             coef_j_idx = j if parj_idx == 0 else j - par_n_coef[parj_idx - 1]
             xbarj = scp.sparse.csc_array(
                 (
-                    Xfix[parj_idx][:, coef_j_idx].toarray(),
+                    Xfix[parj_idx][:, coef_j_idx].toarray() * dmu[parj_idx],
                     (np.tile(parj_idx, n_obs), np.arange(n_obs)),
                 ),
                 shape=(self.n_par, n_obs),
@@ -4956,9 +4963,15 @@ class MultiGauss(GSMMFamily):
         for mui in range(self.n_par):
             if is_coef:
                 RRxbarjmui = RRxbarj[mui, :]
-                d2 = -np.sum(Xfix[mui] * RRxbarjmui[:, None], axis=0)
+                d2 = -np.sum(Xfix[mui] * (RRxbarjmui * dmu[mui])[:, None], axis=0)
+                if mui == parj_idx:
+                    xj = Xfix[mui][:, coef_j_idx].toarray()
+                    d2 += np.sum(
+                        Xfix[mui] * ((RR @ ymu.T)[mui, :] * d2mu[mui] * xj)[:, None],
+                        axis=0,
+                    )
             else:
-                RJRpRRJymui = RJRpRRJy[mui, :]
+                RJRpRRJymui = RJRpRRJy[mui, :] * dmu[mui]
                 d2 = (Xfix[mui] * RJRpRRJymui[:, None]).sum(axis=0)
             Hj.extend(d2)
 
-- 
2.43.0


From 7b904825c17b6e42e6472d8600930ce071f87c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:48 +0000
Subject: [PATCH 21/36] fix: GAMM.fit resets ar1 and transformation state of an
 earlier call

Otherwise a model first estimated with an ar1 model of the residuals kept using
it for the log-likelihood and residuals after being estimated again without.
---
 src/mssm/models.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 33f5a1e..36d2688 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -3129,7 +3129,14 @@ class GAMM(GAMMLSS):
             )
             max_inner = 1
 
+        # Reset everything an earlier call might have set but this one might not
         self.offset = 0
+        self.rho = None
+        self.res_ar = None
+        self.transform_X = None
+        self.Wr = None
+        self.WN = None
+        self.hessian_obs = None
 
         if len(self.formulas[0].file_paths) == 0:
             # We need to build the model matrix once
-- 
2.43.0


From 96c56cab399afd5460351cee66ea6c3eb8e580b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:48 +0000
Subject: [PATCH 22/36] fix: GSMM.fit no longer modifies sample_hessian_options
 of the caller

---
 src/mssm/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 36d2688..1a8e264 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -1154,7 +1154,7 @@ class GSMM:
                     )
 
             if "n_samples" not in sample_hessian_options:
-                sample_hessian_options["n_samples"] = N_u
+                sample_hessian_options = {**sample_hessian_options, "n_samples": N_u}
 
         # Now fit model
         coef, H, LV, LV_linop, total_edf, term_edfs, penalty, smooth_pen, fit_info = (
-- 
2.43.0


From 688a32f757a70351bcfc9597b1bf7d127ad9e2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:54 +0000
Subject: [PATCH 23/36] fix: GSMM.fit does not keep predictions of an earlier
 call

---
 src/mssm/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mssm/models.py b/src/mssm/models.py
index 1a8e264..c1c7a9a 100644
--- a/src/mssm/models.py
+++ b/src/mssm/models.py
@@ -1220,6 +1220,8 @@ class GSMM:
         self.info = fit_info
 
         # Assign predictions and parameter estimates
+        self.preds = None
+        self.mus = None
         if build_mat is None:
             split_coef = np.split(coef, coef_split_idx)
             self.preds = [X @ spcoef for X, spcoef in zip(Xs, split_coef)]
-- 
2.43.0


From 23d21db0796b4a2413b83d6db3b7f3f9bfa34848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:49 +0000
Subject: [PATCH 24/36] fix: compute_B covers every level of a null penalty

The end of the column range did not depend on where the term starts, so that
levels were left out of the trace for terms that come later in the formula.
---
 src/mssm/src/python/matrix_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/matrix_solvers.py b/src/mssm/src/python/matrix_solvers.py
index 4bf6294..945151c 100644
--- a/src/mssm/src/python/matrix_solvers.py
+++ b/src/mssm/src/python/matrix_solvers.py
@@ -667,7 +667,7 @@ def compute_B(
 
             D_idx = np.arange(
                 lTerm.start_index + NULL_idx,
-                lTerm.S_J.shape[1] * (lTerm.rep_sj + 1),
+                lTerm.start_index + lTerm.S_J.shape[1] * lTerm.rep_sj,
                 lTerm.S_J.shape[1],
             )
 
-- 
2.43.0


From a641154d904e62c163acedc151ae5a8df6c64eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:20 +0000
Subject: [PATCH 25/36] fix: f.build_matrix drops the columns in drop_coef
 rather than the last ones

---
 src/mssm/src/python/terms.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/terms.py b/src/mssm/src/python/terms.py
index cabc121..8880324 100644
--- a/src/mssm/src/python/terms.py
+++ b/src/mssm/src/python/terms.py
@@ -1345,13 +1345,21 @@ class f(GammTerm):
 
         f_cols = len(term_ridx)
 
+        # Columns of ``matrix_term`` the elements in ``term_ridx`` belong to
+        n_levels = len(by_levels) if self.by is not None else 1
+        term_cidx = [
+            m_coli % m_cols
+            for m_coli in range(m_cols * n_levels)
+            if self.drop_coef is None or m_coli not in self.drop_coef
+        ]
+
         if n_coef != f_cols:
             raise KeyError("Not all model matrix columns were created.")
 
         # Find basis elements > 0 and collect correspondings elements and row indices
         for m_coli in range(f_cols):
             final_ridx = term_ridx[m_coli]
-            final_col = matrix_term[final_ridx, m_coli % m_cols]
+            final_col = matrix_term[final_ridx, term_cidx[m_coli]]
 
             # Tolerance row index for this columns
             cidx = abs(final_col) > tol
-- 
2.43.0


From d161ba7039cb905c9f3c0569887523cccfbfe248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:29 +0000
Subject: [PATCH 26/36] fix: irf.get_coef_info returns one name per coefficient
 with a by-factor

---
 src/mssm/src/python/terms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/terms.py b/src/mssm/src/python/terms.py
index 8880324..c15ae4c 100644
--- a/src/mssm/src/python/terms.py
+++ b/src/mssm/src/python/terms.py
@@ -2216,13 +2216,14 @@ class irf(GammTerm):
 
         if self.by is not None:
             by_levels = factor_levels[self.by]
-            n_coef *= len(by_levels)
 
             for by_level in by_levels:
                 coef_names.extend(
                     [f"irf_{ti}_{var_label}_{ink}_{by_level}" for ink in range(n_coef)]
                 )
 
+            n_coef *= len(by_levels)
+
         else:
             coef_names.extend([f"irf_{ti}_{var_label}_{ink}" for ink in range(n_coef)])
 
-- 
2.43.0


From b0e15f14f1b9f9201a9208132e7c6f9e79860bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:29 +0000
Subject: [PATCH 27/36] fix: impulse response coefficient names carry the
 term's index

---
 src/mssm/src/python/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index c2ad995..4d4b963 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -824,7 +824,7 @@ class Formula:
             irsterm = terms[irsti]
 
             t_total_coef, t_unpenalized_coef, t_coef_names = irsterm.get_coef_info(
-                self.has_intercept, factor_levels
+                irsti, factor_levels
             )
 
             self.coef_names.extend(t_coef_names)
-- 
2.43.0


From 978fa4798204d91b3deaf9254c78a592b993085f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:15 +0000
Subject: [PATCH 28/36] fix: Formula with factor smooths as the only smooth
 terms can be constructed

---
 src/mssm/src/python/formula.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mssm/src/python/formula.py b/src/mssm/src/python/formula.py
index 4d4b963..cf2b2b9 100644
--- a/src/mssm/src/python/formula.py
+++ b/src/mssm/src/python/formula.py
@@ -1684,6 +1684,10 @@ class Formula:
         sti = self.get_smooth_term_idx()
         sti = [ti for ti in sti if isinstance(self.terms[ti], fs) is False]
 
+        # Nothing to check if factor smooths are the only smooth terms
+        if len(sti) == 0:
+            return
+
         term_var = [self.terms[ti].variables for ti in sti]
         n_term_var = [len(tvar) for tvar in term_var]
         max_var = np.max(n_term_var)
-- 
2.43.0


From d3385323ef6c83afd6f6c63a4406ec5a5a0af3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:15 +0000
Subject: [PATCH 29/36] fix: re-parameterised tensor smooths absorb DROP and
 DIFF constraints

---
 src/mssm/src/python/terms.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/mssm/src/python/terms.py b/src/mssm/src/python/terms.py
index c15ae4c..2c31551 100644
--- a/src/mssm/src/python/terms.py
+++ b/src/mssm/src/python/terms.py
@@ -598,7 +598,27 @@ class f(GammTerm):
             )
 
             if self.is_identifiable and self.te is False:
-                A = A @ constraint.Z
+                # Absorb the constraint just like build_matrix does
+                if constraint.type == ConstType.QR:
+                    A = A @ constraint.Z
+
+                elif constraint.type == ConstType.DROP:
+                    A = np.delete(A, constraint.Z, axis=1)
+
+                elif constraint.type == ConstType.DIFF:
+                    A = np.diff(
+                        np.concatenate(
+                            (A[:, constraint.Z :], A[:, : constraint.Z]),  # noqa: E203
+                            axis=1,
+                        )
+                    )
+                    A = np.concatenate(
+                        (
+                            A[:, A.shape[1] - constraint.Z :],  # noqa: E203
+                            A[:, : A.shape[1] - constraint.Z],
+                        ),
+                        axis=1,
+                    )
                 id_k -= 1
 
             # Need inverse of A
-- 
2.43.0


From 6531c5821a9e984520cddb28df9eb4312f13180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:15 +0000
Subject: [PATCH 30/36] fix: transition matrix of a time-varying two-state hsmm
 has shape (2,2,n_T)

---
 src/mssm/src/python/hsmm.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index e7d24a6..cec7573 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -757,12 +757,10 @@ def _compute_series_probs(
                     # print(mustj)
                     T[j, Tj_idx] = mustj
         else:
+            # For tvdtpi case T is already (2,2,n_T)
             T[0, 1] = 1
             T[1, 0] = 1
 
-            if tvdtpi:
-                T = np.stack([T for _ in range(n_T)], axis=2)
-
         if log:
             T = np.log(T)
 
-- 
2.43.0


From f2aa129e197d80556123412f28e712e3495601a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:30 +0000
Subject: [PATCH 31/36] fix: HSMMFamily.predict evaluates time-varying
 transitions like the likelihood

---
 src/mssm/src/python/hsmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index cec7573..9f4f910 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1794,7 +1794,7 @@ class HSMMFamily(GSMMFamily):
                         else:
                             state = np_gen.choice(
                                 state_vals,
-                                p=Ts[state, :, t] if tvdtpi else Ts[state, :],
+                                p=Ts[state, :, t - 1] if tvdtpi else Ts[state, :],
                             )
 
                             dur = np_gen.choice(
-- 
2.43.0


From b56d123d815e0c8734a0abeb543c2783b74d246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:30 +0000
Subject: [PATCH 32/36] fix: state duration residuals use the duration model of
 the run they belong to

---
 src/mssm/src/python/hsmm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 9f4f910..96cc83d 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1052,7 +1052,7 @@ def _compute_dur_res_series(
             else:
                 d_res = d_fams[(dj_idx)].get_resid(
                     np.array([d]).reshape(-1, 1), *mus_d[dj_idx]
-                )[t if tvdtpi else 0, 0]
+                )[t - d if tvdtpi else 0, 0]
 
                 # And collect
                 res[j].append(d_res)
@@ -1062,14 +1062,14 @@ def _compute_dur_res_series(
         t += 1
 
     # Catch dur from last state
-    dj_idx = j if (starts_with_first is True) else j + n_S
+    dj_idx = j if (transitions == 0 or starts_with_first is True) else j + n_S
 
     if mus_d[dj_idx] is None:
         res[j] = None
     else:
         d_res = d_fams[(dj_idx)].get_resid(
             np.array([d]).reshape(-1, 1), *mus_d[dj_idx]
-        )[t - 1 if tvdtpi else 0, 0]
+        )[t - d if tvdtpi else 0, 0]
 
         res[j].append(d_res)
 
-- 
2.43.0


From ce57ee184a12d6a1779cdeea56517447d45c2e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:30 +0000
Subject: [PATCH 33/36] fix: backward sampling uses the duration model at the
 time the state starts

---
 src/mssm/src/cpp/hsmm/decode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mssm/src/cpp/hsmm/decode.cpp b/src/mssm/src/cpp/hsmm/decode.cpp
index d602a2c..a084faf 100644
--- a/src/mssm/src/cpp/hsmm/decode.cpp
+++ b/src/mssm/src/cpp/hsmm/decode.cpp
@@ -525,7 +525,7 @@ std::tuple<
                     state_probs[i] = lam(t-1,0,i) *
                                         ((tvdtpi) ? T(i,tmp_j,t-1): T(i,tmp_j)) *
                                         ((tvdtpi) ?
-                                            ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S,t-1)
+                                            ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S,t)
                                             :
                                             ds(tmp_ed,(starts_with_first) ? tmp_j : tmp_j + n_S)
                                         );
-- 
2.43.0


From 69ae7ef6beac93d93e1ca98f63745c6e6b99f4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:19 +0000
Subject: [PATCH 34/36] fix: event durations of a time-varying hmp model are
 spread over time-points

---
 src/mssm/src/python/hsmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 96cc83d..6cc6911 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -692,7 +692,7 @@ def _compute_series_probs(
                 lpd[int(event_width - 1)] = 0
 
                 if tvdtpi:
-                    lpd = [lpd for _ in range(D - 1)]
+                    lpd = [np.tile(lpdd, n_T) for lpdd in lpd]
             else:
                 raise ValueError(f"Need distribution duration family for state {j}.")
 
@@ -3688,7 +3688,7 @@ class HSMMFamily(GSMMFamily):
                         lpd[int(event_width - 1)] = 0
 
                         if tvdtpi:
-                            lpd = [lpd for _ in range(D - 1)]
+                            lpd = [np.tile(lpdd, n_T) for lpdd in lpd]
                     else:
                         raise ValueError(
                             f"Need distribution duration family for state {j}."
-- 
2.43.0


From 1577e4d758fb7fa84ab12ad79fb6071211fa5da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:00 +0000
Subject: [PATCH 35/36] fix: duration residuals use the states decoded with
 each series' own transition model

---
 src/mssm/src/python/hsmm.py | 45 +++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 6cc6911..8892844 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -2651,19 +2651,8 @@ class HSMMFamily(GSMMFamily):
 
             elif resid_type == "viterbi_dur":
 
-                # Decode viterbi path
-                viterbi = self.decode_viterbi(
-                    coef,
-                    coef_split_idx,
-                    ys,
-                    Xs,
-                    sid=np.array([0]),
-                    tid=np.array([0]),
-                    n_cores=1,
-                )
-
                 res_sep = _compute_dur_res_series(
-                    viterbi[0][1], n_S, mus_d, d_fams, starts_with_first, tvdtpi
+                    states[series][1], n_S, mus_d, d_fams, starts_with_first, tvdtpi
                 )
 
                 # Compute residual of duration MAP under model for stage durations
@@ -2679,17 +2668,6 @@ class HSMMFamily(GSMMFamily):
                 res = res.reshape(1, -1)
 
             elif resid_type == "posterior_dur":
-                state_samples = self.sample_posterior_states(
-                    coef,
-                    coef_split_idx,
-                    ys,
-                    Xs,
-                    n_samples=n_samples,
-                    seed=seed,
-                    sid=np.array([0]),
-                    tid=np.array([0]),
-                    n_cores=1,
-                )
 
                 res = np.zeros((1, n_S, n_samples))
 
@@ -2697,7 +2675,7 @@ class HSMMFamily(GSMMFamily):
 
                     # Extract durations given sampled series
                     res_sep = _compute_dur_res_series(
-                        state_samples[0][1][:, s],
+                        states[series][1][:, s],
                         n_S,
                         mus_d,
                         d_fams,
@@ -2757,6 +2735,25 @@ class HSMMFamily(GSMMFamily):
         if Lrhoi is not None:
             rho = np.sqrt(-1 * (np.power(1 / Lrhoi[1, 1], 2) - 1))
 
+        # Decode or sample states of all series
+        states = None
+        if resid_type == "viterbi_dur":
+            states = self.decode_viterbi(
+                coef, coef_split_idx, ys, Xs, sid=sid, tid=tid, n_cores=n_cores
+            )
+        elif resid_type == "posterior_dur":
+            states = self.sample_posterior_states(
+                coef,
+                coef_split_idx,
+                ys,
+                Xs,
+                n_samples=n_samples,
+                seed=seed,
+                sid=sid,
+                tid=tid,
+                n_cores=n_cores,
+            )
+
         # Split up ys, Xs
         split_Ys, split_Xs = _split_matrices(
             ys,
-- 
2.43.0


From aab033990ba804bed9a6f5a037b87a3a6010e601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:29 +0000
Subject: [PATCH 36/36] fix: HSMMFamily.predict keeps the trace of an event in
 the first sample of the next state

---
 src/mssm/src/python/hsmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mssm/src/python/hsmm.py b/src/mssm/src/python/hsmm.py
index 8892844..a116235 100644
--- a/src/mssm/src/python/hsmm.py
+++ b/src/mssm/src/python/hsmm.py
@@ -1813,7 +1813,7 @@ class HSMMFamily(GSMMFamily):
                             )
 
                     # Collect emission and state predictions
-                    emission_samples[t, :, sample] = emissions[t, state, :, sample]
+                    emission_samples[t, :, sample] += emissions[t, state, :, sample]
                     state_samples[t, sample] = state
 
                     # Add hmp bumps
@@ -1849,7 +1849,7 @@ class HSMMFamily(GSMMFamily):
                         and is_hmp
                         and rho is not None
                         and state % 2 == 1
-                        and dur == 0
+                        and dur < 0
                     ):
                         for m in range(M):
                             Ebump = d1 * event_template[-1] * mus[t - 1, m, state]
-- 
2.43.0

