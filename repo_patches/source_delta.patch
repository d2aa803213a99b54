From da0dc0caa6bdea7e000b43dc2b56d28997577a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 001/107] fix: spatial instruments start right above slx_lags
 when yend is given (set_endog skipped one order)

---
 spreg/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 3fbf27a..734565f 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -683,7 +683,8 @@ def set_endog(y, x, w, yend, q, w_lags, lag_q, slx_lags=0, slx_vars="all"):
     # spatial and non-spatial instruments
     if issubclass(type(yend), np.ndarray):
         if slx_lags > 0:
-            lag_x, lag_xq = get_lags_split(w, x, slx_lags+1, slx_lags)
+            lag_x = get_lags(w, x, slx_lags)
+            lag_xq = lag_x[:, -x.shape[1]:]
         else:
             lag_xq = x
         if lag_q:
-- 
2.43.0


From dab475d4d0980d6197e9c9b28a671954282b07cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 002/107] fix: slx_vars list with slx_lags > 1 selects the
 columns of every lag order (set_endog raised IndexError)

---
 spreg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 734565f..8f2dc36 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -717,7 +717,7 @@ def set_endog(y, x, w, yend, q, w_lags, lag_q, slx_lags=0, slx_vars="all"):
             if slx_vars.shape[0] != x.shape[1]:
                 raise Exception("slx_vars incompatible with x column dimensions")
             
-            lag_x = lag_x[:, slx_vars]
+            lag_x = lag_x[:, np.tile(slx_vars, slx_lags)]
             return yend, q, lag_x
 
 
-- 
2.43.0


From e718a8c97c248d4fe0c61b9c85088022a2315a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 003/107] fix: no duplicated instruments for w_lags > 2 in
 set_endog_sparse (H'H was singular)

---
 spreg/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 8f2dc36..561fe47 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -732,15 +732,17 @@ def set_endog_sparse(y, x, w, yend, q, w_lags, lag_q):
             lag_vars = sphstack(x, q)
         else:
             lag_vars = x
-        spatial_inst = w @ lag_vars
+        spatial_inst = lag = w @ lag_vars
         for i in range(w_lags - 1):
-            spatial_inst = sphstack(spatial_inst, w @ spatial_inst)
+            lag = w @ lag
+            spatial_inst = sphstack(spatial_inst, lag)
         q = sphstack(q, spatial_inst)
         yend = sphstack(yend, yl)
     elif yend == None:  # spatial instruments only
-        q = w @ x
+        q = lag = w @ x
         for i in range(w_lags - 1):
-            q = sphstack(q, w @ q)
+            lag = w @ lag
+            q = sphstack(q, lag)
         yend = yl
     else:
         raise Exception("invalid value passed to yend")
-- 
2.43.0


From 82c5837dbedd670c23d3ccbb3e9e9ab39bee6935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 004/107] fix: instrument names denote the instruments used
 when slx_vars is a list (lag and combo models)

---
 spreg/error_sp.py     | 15 ++++-----------
 spreg/error_sp_het.py | 15 ++++-----------
 spreg/error_sp_hom.py | 18 ++++--------------
 spreg/twosls_sp.py    | 15 ++++-----------
 4 files changed, 16 insertions(+), 47 deletions(-)

diff --git a/spreg/error_sp.py b/spreg/error_sp.py
index 18cc550..9d2717c 100644
--- a/spreg/error_sp.py
+++ b/spreg/error_sp.py
@@ -1041,17 +1041,10 @@ class GM_Combo(BaseGM_Endog_Error):
         if slx_lags > 0:  # need to remove all but last SLX variables from name_x
             self.name_x0 = []
             self.name_x0.append(self.name_x[0])  # constant
-            if (isinstance(slx_vars,list)):   # boolean list passed
-                # x variables that were not lagged
-                self.name_x0.extend(list(compress(self.name_x[1:],[not i for i in slx_vars])))
-                # last wkx variables
-                self.name_x0.extend(self.name_x[-wkx:])
-
-
-            else:
-                okx = int((self.k - self.yend.shape[1] - 1) / (slx_lags + 1))  # number of original exogenous vars
-
-                self.name_x0.extend(self.name_x[-okx:])
+            # highest order lag of all x variables, from which the instruments are built
+            self.name_x0.extend(
+                USER.set_name_spatial_lags(self.name_x[1:kx+1], slx_lags)[-kx:]
+            )
 
             self.name_q.extend(USER.set_name_q_sp(self.name_x0, w_lags, self.name_q, lag_q))
 
diff --git a/spreg/error_sp_het.py b/spreg/error_sp_het.py
index a03d423..ade12f7 100755
--- a/spreg/error_sp_het.py
+++ b/spreg/error_sp_het.py
@@ -1496,17 +1496,10 @@ class GM_Combo_Het(BaseGM_Combo_Het):
         if slx_lags > 0:  # need to remove all but last SLX variables from name_x
             self.name_x0 = []
             self.name_x0.append(self.name_x[0])  # constant
-            if (isinstance(slx_vars,list)):   # boolean list passed
-                # x variables that were not lagged
-                self.name_x0.extend(list(compress(self.name_x[1:],[not i for i in slx_vars])))
-                # last wkx variables
-                self.name_x0.extend(self.name_x[-wkx:])
-
-
-            else:
-                okx = int((self.k - self.yend.shape[1] - 1) / (slx_lags + 1))  # number of original exogenous vars
-
-                self.name_x0.extend(self.name_x[-okx:])
+            # highest order lag of all x variables, from which the instruments are built
+            self.name_x0.extend(
+                USER.set_name_spatial_lags(self.name_x[1:kx+1], slx_lags)[-kx:]
+            )
 
             self.name_q.extend(USER.set_name_q_sp(self.name_x0, w_lags, self.name_q, lag_q))
 
diff --git a/spreg/error_sp_hom.py b/spreg/error_sp_hom.py
index e7210ff..8d49679 100644
--- a/spreg/error_sp_hom.py
+++ b/spreg/error_sp_hom.py
@@ -1448,20 +1448,10 @@ class GM_Combo_Hom(BaseGM_Combo_Hom):
         if slx_lags > 0:  # need to remove all but last SLX variables from name_x
             self.name_x0 = []
             self.name_x0.append(self.name_x[0])  # constant
-            if isinstance(slx_vars, list):  # boolean list passed
-                # x variables that were not lagged
-                self.name_x0.extend(
-                    list(compress(self.name_x[1:], [not i for i in slx_vars]))
-                )
-                # last wkx variables
-                self.name_x0.extend(self.name_x[-wkx:])
-
-            else:
-                okx = int(
-                    (self.k - self.yend.shape[1] - 1) / (slx_lags + 1)
-                )  # number of original exogenous vars
-
-                self.name_x0.extend(self.name_x[-okx:])
+            # highest order lag of all x variables, from which the instruments are built
+            self.name_x0.extend(
+                USER.set_name_spatial_lags(self.name_x[1:kx+1], slx_lags)[-kx:]
+            )
 
             self.name_q.extend(
                 USER.set_name_q_sp(self.name_x0, w_lags, self.name_q, lag_q)
diff --git a/spreg/twosls_sp.py b/spreg/twosls_sp.py
index 8efc6e6..7302aa2 100755
--- a/spreg/twosls_sp.py
+++ b/spreg/twosls_sp.py
@@ -631,17 +631,10 @@ class GM_Lag(BaseGM_Lag):
             if slx_lags > 0:  # need to remove all but last SLX variables from name_x
                 self.name_x0 = []
                 self.name_x0.append(self.name_x[0])  # constant
-                if (isinstance(slx_vars,list)):   # boolean list passed
-                    # x variables that were not lagged
-                    self.name_x0.extend(list(compress(self.name_x[1:],[not i for i in slx_vars])))
-                    # last wkx variables
-                    self.name_x0.extend(self.name_x[-wkx:])
-
-
-                else:
-                    okx = int((self.k - self.kstar - 1) / (slx_lags + 1))  # number of original exogenous vars
-
-                    self.name_x0.extend(self.name_x[-okx:])
+                # highest order lag of all x variables, from which the instruments are built
+                self.name_x0.extend(
+                    USER.set_name_spatial_lags(self.name_x[1:kx+1], slx_lags)[-kx:]
+                )
 
                 self.name_q.extend(USER.set_name_q_sp(self.name_x0, w_lags, self.name_q, lag_q))
 
-- 
2.43.0


From 1c5d026222c3370fee0e4f9200f531edca6a7919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 005/107] fix: iterated HOM regimes estimators filter with the
 current lambda, not the first one

---
 spreg/error_sp_hom_regimes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index 46262e5..d987810 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -427,8 +427,8 @@ class GM_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.iteration, eps = 0, 1
             while self.iteration < max_iter and eps > epsilon:
                 # 2a. SWLS --> \hat{\delta}
-                xs = get_spFilter(w, lambda1, x_constant1)
-                ys = get_spFilter(w, lambda1, y)
+                xs = get_spFilter(w, lambda_old, x_constant1)
+                ys = get_spFilter(w, lambda_old, y)
                 xs = REGI.Regimes_Frame.__init__(
                     self, xs, regimes, constant_regi=None, cols2regi=cols2regi
                 )[0]
@@ -1069,12 +1069,12 @@ class GM_Endog_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.iteration, eps = 0, 1
             while self.iteration < max_iter and eps > epsilon:
                 # 2a. GS2SLS --> \hat{\delta}
-                xs = get_spFilter(w, lambda1, x_constant1)
+                xs = get_spFilter(w, lambda_old, x_constant1)
                 xs = REGI.Regimes_Frame.__init__(
                     self, xs, regimes, constant_regi=None, cols2regi=cols2regi
                 )[0]
-                ys = get_spFilter(w, lambda1, y)
-                yend_s = get_spFilter(w, lambda1, yend)
+                ys = get_spFilter(w, lambda_old, y)
+                yend_s = get_spFilter(w, lambda_old, yend)
                 yend_s = REGI.Regimes_Frame.__init__(
                     self,
                     yend_s,
-- 
2.43.0


From 15053885928ce29c71f6986ace528111d7c0b66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 006/107] fix: power expansion no longer refuses convergent
 series whose increments grow temporarily, accepts integer data

---
 spreg/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 561fe47..e623f98 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -655,10 +655,13 @@ def power_expansion(
         ws = w
     if post_multiply:
         data = data.T
-    running_total = copy.copy(data)
-    increment = copy.copy(data)
+    running_total = data * 1.0
+    increment = data * 1.0
     count = 1
     test = 10000000
+    # the increments of a convergent expansion can grow for a few steps (W need
+    # not be a contraction in this norm), only sustained growth is divergence
+    max_norm = 1e8 * max(la.norm(data), 1.0)
     if max_iterations == None:
         max_iterations = 10000000
     while test > threshold and count <= max_iterations:
@@ -669,7 +672,7 @@ def power_expansion(
         running_total += increment
         test_old = test
         test = la.norm(increment)
-        if test > test_old:
+        if not test <= max_norm or (abs(scalar) >= 1 and test > test_old):
             raise Exception(
                 "power expansion will not converge, check model specification and that weight are less than 1"
             )
-- 
2.43.0


From 23887d01c059f09e131e5a3e00cffbe809eba5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 007/107] fix: power approximation of the spatial multiplier
 does not stop at the first zero or negative trace term

---
 spreg/sputils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index 993ff9a..f12882f 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -317,16 +317,16 @@ def spmultiplier(w, rho, method="simple", mtol=0.00000001):
         ww = ws3
         pow = 1
         adi = 1.0
-        adidiff = 100.00
 
-        while adidiff > mtol:
+        # traces of single powers can be zero or negative before the series has
+        # converged, the powers of rho bound all the remaining terms
+        while mtol < abs(rhop) < 1:
             pow = pow + 1
             ww = SP.csr_matrix.dot(ww, ws3)
             trw = ww.diagonal().sum()
             rhop = rhop * rho
-            adidiff = rhop * trw / n
-            adi = adi + adidiff
-        multipliers["adi"] = adi.item()
+            adi = adi + rhop * trw / n
+        multipliers["adi"] = np.asarray(adi).item()
         multipliers["pow"] = pow
     else:
         multipliers["warn"] = "Method '"+method+"' not supported for spatial impacts.\n"
-- 
2.43.0


From d98147e5777a676d33f1e8844ef02b2c38621abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 008/107] fix: splogdet of a dense matrix with negative
 determinant equals the sparse result

---
 spreg/sputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index f12882f..bb65121 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -212,7 +212,7 @@ def splogdet(a):
         det = np.sum(np.log(np.abs(LU.U.diagonal())))
     else:
         sgn, ldet = la.slogdet(a)
-        det = sgn * ldet
+        det = ldet
     return det
 
 
-- 
2.43.0


From 63f0614a58e860d6ff4337d6ec54d2941334819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 009/107] fix: i_multipliers accepts a pandas Series as id, as
 documented

---
 spreg/sputils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index bb65121..9edca63 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -470,11 +470,11 @@ def i_multipliers(w,coef=0.0,model='lag',id=None):
     eofNbrs = ww.sum(axis=1).reshape(-1,1)
     eonNbrs = ww.sum(axis=0).reshape(-1,1) 
 
-    if (isinstance(id,pd.core.frame.DataFrame)) or (isinstance(id,gpd.geoseries.GeoSeries)):
+    if isinstance(id,(pd.DataFrame,pd.Series)):
         pdid = id   # already a data frame
     elif isinstance(id,np.ndarray):
         pdid = pd.DataFrame(id,columns=["ID"])
-    elif id == None:
+    elif id is None:
         id = np.arange(n,dtype='int32').reshape(-1,1)
         pdid = pd.DataFrame(id,columns=["ID"])
     else:
-- 
2.43.0


From 9199cfbe13d1d59be842d7a6f13fc5bfc29ff3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 010/107] fix: ORD maximum likelihood uses the eigenvalues of
 the weights given (any transformation) and leaves their transformation as it
 was

---
 spreg/ml_error.py |  4 ++--
 spreg/ml_lag.py   |  4 ++--
 spreg/panel_re.py |  4 ++--
 spreg/w_utils.py  | 32 ++++++++++++++++++++++++++++----
 4 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/spreg/ml_error.py b/spreg/ml_error.py
index e12fe7f..9f4053b 100755
--- a/spreg/ml_error.py
+++ b/spreg/ml_error.py
@@ -14,7 +14,7 @@ from .utils import RegressionPropsY, RegressionPropsVM, set_warn, get_lags
 from . import diagnostics as DIAG
 from . import user_output as USER
 from . import regimes as REGI
-from .w_utils import symmetrize
+from .w_utils import symmetrize, symmetrizable
 import pandas as pd
 from .output import output, _nonspat_top
 
@@ -203,7 +203,7 @@ class BaseML_Error(RegressionPropsY, RegressionPropsVM, REGI.Regimes_Frame):
                 W = Wsp
             elif methodML == "ORD":
                 # check on symmetry structure
-                if w.asymmetry(intrinsic=False) == []:
+                if symmetrizable(w):
                     ww = symmetrize(w)
                     WW = np.array(ww.todense())
                     evals = la.eigvalsh(WW)
diff --git a/spreg/ml_lag.py b/spreg/ml_lag.py
index 41cbba2..1cdcbca 100755
--- a/spreg/ml_lag.py
+++ b/spreg/ml_lag.py
@@ -17,7 +17,7 @@ from . import diagnostics as DIAG
 from . import user_output as USER
 import pandas as pd
 from .output import output, _nonspat_top, _spat_diag_out, _spat_pseudo_r2, _summary_impacts
-from .w_utils import symmetrize
+from .w_utils import symmetrize, symmetrizable
 from libpysal import weights
 
 try:
@@ -235,7 +235,7 @@ class BaseML_Lag(RegressionPropsY, RegressionPropsVM):
                 )
             elif methodML == "ORD":
                 # check on symmetry structure
-                if w.asymmetry(intrinsic=False) == []:
+                if symmetrizable(w):
                     ww = symmetrize(w)
                     WW = np.array(ww.todense())
                     evals = la.eigvalsh(WW)
diff --git a/spreg/panel_re.py b/spreg/panel_re.py
index a55e9b9..96a2c23 100755
--- a/spreg/panel_re.py
+++ b/spreg/panel_re.py
@@ -20,7 +20,7 @@ from scipy import sparse as sp
 from scipy.sparse.linalg import splu as SuperLU
 from .utils import RegressionPropsY, RegressionPropsVM, inverse_prod, set_warn
 from .sputils import spdot, spfill_diagonal, spinv
-from spreg.w_utils import symmetrize
+from spreg.w_utils import symmetrize, symmetrizable
 from . import diagnostics as DIAG
 from . import user_output as USER
 from . import summary_output as SUMMARY
@@ -486,7 +486,7 @@ class BasePanel_RE_Error(RegressionPropsY, RegressionPropsVM):
 
         # concentrated Log Likelihood
         I = np.identity(self.n)
-        if w.asymmetry(intrinsic=False) == []:
+        if symmetrizable(w):
             ww = symmetrize(w)
             WW = np.array(ww.todense())
             evals, evecs = la.eigh(WW)
diff --git a/spreg/w_utils.py b/spreg/w_utils.py
index 657a498..dde5cf9 100644
--- a/spreg/w_utils.py
+++ b/spreg/w_utils.py
@@ -16,11 +16,35 @@ def symmetrize(w):
 
     """
     current = w.transform
-    w.transform = "B"
-    d = w.sparse.sum(axis=1)  # row sum
-    d.shape = (w.n,)
+    w.transform = "O"
+    d = np.asarray(w.sparse.sum(axis=1)).flatten()  # row sum
+    d[d == 0] = 1.0  # islands
     d = np.sqrt(d)
     Di12 = SPARSE.dia_matrix((1.0 / d, [0]), shape=(w.n, w.n))
     D12 = SPARSE.dia_matrix((d, [0]), shape=(w.n, w.n))
     w.transform = "r"
-    return D12 @ w.sparse @ Di12
+    ws = D12 @ w.sparse @ Di12
+    w.transform = current
+    return ws
+
+
+def symmetrizable(w):
+    """Check whether w is row standardized from symmetric weights, i.e.,
+    whether symmetrize(w) has the same eigenvalues as w
+
+    Parameters
+    ----------
+    w: weights object
+
+    Returns
+    -------
+    boolean
+
+    """
+    current = w.transform
+    if str(current).upper() != "R":
+        return False
+    w.transform = "O"
+    symmetric = w.asymmetry(intrinsic=True) == []
+    w.transform = current
+    return symmetric
-- 
2.43.0


From 96667c1bca8aba74323c8ededad569e49b4c856f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 011/107] fix: weights restricted to a regime keep their values
 (general weights became binary)

---
 spreg/regimes.py | 48 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/spreg/regimes.py b/spreg/regimes.py
index 10d17f9..0ed5139 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -497,6 +497,32 @@ def set_name_x_regimes(name_x, constant_regi, cols2regi, regimes_set, xtype, rli
         return name_x_regi, xtype_full
 
 
+def _w_subset_values(w, ids):
+    """
+    Returns the subset of W for a list of observation IDs, keeping the values of
+    the weights (libpysal's w_subset returns binary weights)
+
+    Parameters
+    ----------
+    w           : pysal W object
+                  Spatial weights object
+    ids         : list
+                  IDs of the observations to keep
+
+    Returns
+    -------
+                : pysal W object
+                  Subset of W
+    """
+    ids_set = set(ids)
+    neighbors, values = {}, {}
+    for i in ids:
+        kept = [(j, v) for j, v in zip(w.neighbors[i], w.weights[i]) if j in ids_set]
+        neighbors[i] = [j for j, v in kept]
+        values[i] = [v for j, v in kept]
+    return weights.W(neighbors, values, id_order=list(ids), silence_warnings=True)
+
+
 def w_regime(w, regi_ids, regi_i, transform=True, min_n=None):
     """
     Returns the subset of W matrix according to a given regime ID
@@ -517,7 +543,7 @@ def w_regime(w, regi_ids, regi_i, transform=True, min_n=None):
     """
     w_ids = list(map(w.id_order.__getitem__, regi_ids))
     warn = None
-    w_regi_i = weights.set_operations.w_subset(w, w_ids, silence_warnings=True)
+    w_regi_i = _w_subset_values(w, w_ids)
     if min_n:
         if w_regi_i.n < min_n:
             raise Exception(
@@ -557,9 +583,7 @@ def w_regimes(w, regimes, regimes_set, transform=True, get_ids=None, min_n=None)
     w_regi_i = {}
     warn = None
     for r in regimes_set:
-        w_regi_i[r] = weights.set_operations.w_subset(
-            w, w_ids[r], silence_warnings=True
-        )
+        w_regi_i[r] = _w_subset_values(w, w_ids[r])
         if min_n:
             if w_regi_i[r].n < min_n:
                 raise Exception(
@@ -592,16 +616,12 @@ def w_regimes_union(w, w_regi_i, regimes_set):
     w_regi      : pysal W object
                   Spatial weights object containing the union of the subsets of W
     """
-    w_regi = weights.set_operations.w_union(
-        w_regi_i[regimes_set[0]], w_regi_i[regimes_set[1]], silence_warnings=True
-    )
-    if len(regimes_set) > 2:
-        for i in range(len(regimes_set))[2:]:
-            w_regi = weights.set_operations.w_union(
-                w_regi, w_regi_i[regimes_set[i]], silence_warnings=True
-            )
-    w_regi = weights.util.remap_ids(
-        w_regi, dict((i, i) for i in w_regi.id_order), w.id_order
+    neighbors, values = {}, {}
+    for r in regimes_set:
+        neighbors.update(w_regi_i[r].neighbors)
+        values.update(w_regi_i[r].weights)
+    w_regi = weights.W(
+        neighbors, values, id_order=list(w.id_order), silence_warnings=True
     )
     w_regi.transform = w.get_transform()
     return w_regi
-- 
2.43.0


From a42419d9e5fba5f584eada0235cd224ee491a50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 012/107] fix: separate regimes models accept regressors that
 are constant in one regime (size of the stacked results)

---
 spreg/error_sp_het_regimes.py | 6 ++++--
 spreg/error_sp_hom_regimes.py | 6 ++++--
 spreg/error_sp_regimes.py     | 6 ++++--
 spreg/ml_error_regimes.py     | 3 ++-
 spreg/ml_lag_regimes.py       | 3 ++-
 spreg/twosls_sp_regimes.py    | 3 ++-
 6 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index d149d9e..81bb032 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -521,7 +521,8 @@ class GM_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        # less the variables removed for being constant in some regime
+        self.kr = len(cols2regi) + 1 - (x.shape[1] + 1 - x_constant.shape[1])
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
@@ -1232,7 +1233,8 @@ class GM_Endog_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd, self.kf = 0, 0
-        self.kr = len(cols2regi) + 1
+        # less the variables removed for being constant in some regime
+        self.kr = len(cols2regi) + 1 - (x.shape[1] + 1 - x_constant.shape[1])
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
         self.betas = np.zeros((self.nr * self.kr, 1), float)
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index d987810..0cf078d 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -533,7 +533,8 @@ class GM_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        # less the variables removed for being constant in some regime
+        self.kr = len(cols2regi) + 1 - (x.shape[1] + 1 - x_constant.shape[1])
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
@@ -1225,7 +1226,8 @@ class GM_Endog_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd, self.kf = 0, 0
-        self.kr = len(cols2regi) + 1
+        # less the variables removed for being constant in some regime
+        self.kr = len(cols2regi) + 1 - (x.shape[1] + 1 - x_constant.shape[1])
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
         self.betas = np.zeros((self.nr * self.kr, 1), float)
diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index e5c1a2f..cce65a7 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -436,7 +436,8 @@ class GM_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi)
+        # less the variables removed for being constant in some regime
+        self.kr = len(cols2regi) - (x.shape[1] + 1 - x_constant.shape[1])
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
@@ -1045,7 +1046,8 @@ class GM_Endog_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd, self.kf = 0, 0
-        self.kr = len(cols2regi)
+        # less the variables removed for being constant in some regime
+        self.kr = len(cols2regi) - (x.shape[1] + 1 - x_constant.shape[1])
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
         self.betas = np.zeros((self.nr * (self.kr + 1), 1), float)
diff --git a/spreg/ml_error_regimes.py b/spreg/ml_error_regimes.py
index 12af71a..fb7e2e7 100644
--- a/spreg/ml_error_regimes.py
+++ b/spreg/ml_error_regimes.py
@@ -457,7 +457,8 @@ class ML_Error_Regimes(BaseML_Error, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        # less the variables removed for being constant in some regime
+        self.kr = len(cols2regi) + 1 - (x.shape[1] + 1 - x_constant.shape[1])
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
diff --git a/spreg/ml_lag_regimes.py b/spreg/ml_lag_regimes.py
index 060da2c..239cc4b 100644
--- a/spreg/ml_lag_regimes.py
+++ b/spreg/ml_lag_regimes.py
@@ -546,7 +546,8 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        # less the variables removed for being constant in some regime
+        self.kr = len(cols2regi) + 1 - (x.shape[1] + 1 - x_constant.shape[1])
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.name_x_r = name_x
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index b698967..b389050 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -766,7 +766,8 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        # less the variables removed for being constant in some regime
+        self.kr = len(cols2regi) + 1 - (x.shape[1] + 1 - x_constant.shape[1])
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.name_x_r = name_x + name_yend
-- 
2.43.0


From 8b9b1fc510122262f53b447112fb32dfbec3d710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 013/107] fix: name of lambda in separate het regimes models

---
 spreg/error_sp_het_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index 81bb032..fc71e6b 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -1925,7 +1925,7 @@ def _work_endog_error(
     model.name_y = "%s_%s" % (str(r), name_y)
     model.name_x = ["%s_%s" % (str(r), i) for i in name_x]
     model.name_yend = ["%s_%s" % (str(r), i) for i in name_yend]
-    model.name_z = model.name_x + model.name_yend + [str(r)+"lambda"]
+    model.name_z = model.name_x + model.name_yend + [str(r)+"_lambda"]
     model.name_q = ["%s_%s" % (str(r), i) for i in name_q]
     model.name_h = model.name_x + model.name_q
     model.name_w = name_w
-- 
2.43.0


From f691885542c987e6cc9a7d5733b6d067c93151f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 014/107] fix: separate regimes Durbin models (GM_Lag_Regimes,
 slx_lags > 0) use the lag of y of each regime, as their predictions and the
 ML counterpart do

---
 spreg/twosls_sp_regimes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index b389050..445163d 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -961,6 +961,8 @@ def _work(
         yend_r, q_r = set_endog_sparse(y_r, x_r[:, 1:], w_r, yend_r, q_r, w_lags, lag_q)
         title = "SPATIAL TWO STAGE LEAST SQUARES ESTIMATION - REGIME %s" % r
     else:
+        # spatial lag of y with the weights of the regime, as in the predictions
+        yend_r = np.hstack((yend_r[:, :-1], w_r * y_r))
         title = "SPATIAL 2SLS WITH SLX (SPATIAL DURBIN MODEL) - REGIME %s" % r
     # x_constant = USER.check_constant(x_r)
     if robust == "hac" or robust == "ogmm":
-- 
2.43.0


From 0269419531327b3721446df21a57237e979d26a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:02 +0000
Subject: [PATCH 015/107] fix: separate TSLS_Regimes attached coefficients and
 standard errors to the wrong variables when the table has more than 16 rows
 (unstable sort)

---
 spreg/twosls_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 9f408bc..cbb4bcb 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -625,7 +625,7 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
         else:
             diag_out = None
         if summ:
-            self.output.sort_values(by='regime', inplace=True)
+            self.output.sort_values(by='regime', kind='stable', inplace=True)
             output(reg=self, vm=vm, robust=robust, other_end=diag_out, latex=latex)
 
     def _get_spat_diag_props(self, results, regi_ids, x, yend, q):
-- 
2.43.0


From 988cde090b60ad8c3574538ee57b332a4f34973b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 016/107] fix: GM_Lag_Regimes with slx_lags > 0 asked for one
 cols2regi entry too many

---
 spreg/twosls_sp_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 445163d..7f5fa7b 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -526,7 +526,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
                     constant_regi, cols2regi, x_constant, yend=yend2, add_cons=False)[0:-1]
             else:
                 cols2regi = REGI.check_cols2regi(
-                    constant_regi, cols2regi, x_constant, yend=yend2, add_cons=False)
+                    constant_regi, cols2regi, x_constant, yend=yend, add_cons=False)
         else:
             name_q.extend(USER.set_name_q_sp(name_x, w_lags, name_q, lag_q, force_all=True))
             yend2, q2 = yend, q
-- 
2.43.0


From 56b1f6565a3377473703dc6df942cb0f8228d641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:12 +0000
Subject: [PATCH 017/107] fix: GM_Lag_Regimes instrument names denote the
 instruments used (slx_lags > 1, slx_vars list, more than three regressors)

---
 spreg/twosls_sp_regimes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 7f5fa7b..03956d5 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -517,8 +517,8 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             set_warn(self,"WX is computed using the complete W, i.e. not trimmed by regimes.")
             x_constant = np.hstack((x_constant, wx))
             name_slx = USER.set_name_spatial_lags(name_x, slx_lags, slx_vars=slx_vars)
-            iter_slx = iter(name_slx) 
-            name_q_temp = [next(iter_slx) if keep else name for name, keep in zip(name_x, slx_vars)]
+            # highest order lag of all x variables, from which the instruments are built
+            name_q_temp = USER.set_name_spatial_lags(name_x, slx_lags)[-len(name_x):]
             name_q.extend(USER.set_name_q_sp(name_q_temp, w_lags, name_q, lag_q, force_all=True))
             name_x += name_slx
             if cols2regi == 'all':
-- 
2.43.0


From c7c68abb771d3b1d3a18faf91f202397d4564bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 018/107] fix: GM_Lag_Regimes marks the lagged regressors
 correctly when not all of them vary by regime

---
 spreg/twosls_sp_regimes.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 03956d5..129e07d 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -641,10 +641,13 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             self.regime_lag_sep = regime_lag_sep
             self.title = "SPATIAL " + self.title
             if slx_lags > 0:
-                for m in self.regimes_set:
-                    r_output = self.output[(self.output['regime'] == str(m)) & (self.output['var_type'].isin(['x', 'o']))]
-                    wx_index = r_output.index[-((len(r_output)-1)//(slx_lags+1)) * slx_lags:]
-                    self.output.loc[wx_index, 'var_type'] = 'wx'
+                kx = x_constant.shape[1] - wx.shape[1]
+                wx_regi = cols2regi[kx:x_constant.shape[1]]     # lagged x that vary by regime
+                groups = [(str(m), wx_regi.count(True)) for m in self.regimes_set]
+                for m, kwx in groups + [('_Global', wx_regi.count(False))]:
+                    if kwx > 0:
+                        r_output = self.output[(self.output['regime'] == m) & (self.output['var_type'].isin(['x', 'o']))]
+                        self.output.loc[r_output.index[-kwx:], 'var_type'] = 'wx'
                 self.title = " SPATIAL 2SLS WITH SLX (SPATIAL DURBIN MODEL) - REGIMES"
             top_diag = _spat_pseudo_r2(self)
             try:
-- 
2.43.0


From 3f675f09487b7888cffb873d47532cf1dfd34ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 019/107] fix: common factor test of regimes Durbin models
 pairs each x with its lag when not all vary by regime

---
 spreg/output.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/spreg/output.py b/spreg/output.py
index 3fcdd0a..41165ab 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -286,22 +286,26 @@ def _spat_diag_out(reg, w, type, moran=False, ml=False):
             # no common factor test if slx_vars is not "All"
             if reg.slx_lags == 1 and not any(reg.output['var_type'] == 'yend'):
                 if not hasattr(reg, 'slx_vars') or not isinstance(reg.slx_vars, list):
-                    wx_indices = reg.output[(reg.output['var_type'] == 'wx') & (reg.output['regime'] != '_Global')].index
-                    x_indices = []
+                    x_indices, wx_indices = [], []
                     for m in reg.output['regime'].unique():
                         x_indices.extend(reg.output[(reg.output['regime'] == m) & (reg.output['var_type'] == 'x')].index)
-                    vm_indices = x_indices + wx_indices.tolist() + reg.output[reg.output['var_type'] == 'rho'].index.tolist()
-                    cft, cft_p = diagnostics_sp.comfac_test(reg.rho,
-                                                        reg.betas[x_indices],
-                                                        reg.betas[wx_indices],
-                                                        reg.vm[vm_indices, :][:, vm_indices])
-                    reg.cfh_test = cft, cft_p
-                    strSummary += "%-27s    %2d   %12.3f        %9.4f\n" % (
-                        "Common Factor Hypothesis Test",
-                        len(wx_indices),
-                        reg.cfh_test[0],
-                        reg.cfh_test[1],
-                    )
+                        wx_indices.extend(reg.output[(reg.output['regime'] == m) & (reg.output['var_type'] == 'wx')].index)
+                    # the hypothesis needs the lag of each x: not given if x and its lag do not vary by regime in the same way
+                    x_names, wx_names = list(reg.output['var_names'][x_indices]), list(reg.output['var_names'][wx_indices])
+                    if len(x_names) == len(wx_names) and all(
+                            wx in [x[:i] + "W_" + x[i:] for i in range(len(x))] for x, wx in zip(x_names, wx_names)):
+                        vm_indices = x_indices + wx_indices + reg.output[reg.output['var_type'] == 'rho'].index.tolist()
+                        cft, cft_p = diagnostics_sp.comfac_test(reg.rho,
+                                                            reg.betas[x_indices],
+                                                            reg.betas[wx_indices],
+                                                            reg.vm[vm_indices, :][:, vm_indices])
+                        reg.cfh_test = cft, cft_p
+                        strSummary += "%-27s    %2d   %12.3f        %9.4f\n" % (
+                            "Common Factor Hypothesis Test",
+                            len(wx_indices),
+                            reg.cfh_test[0],
+                            reg.cfh_test[1],
+                        )
 
     elif type == "ols":
         strSummary += "- SARERR -\n"
-- 
2.43.0


From 53c7e2ae6645a555c1316a4120f10bb49fa2e97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 020/107] fix: impacts of regimes Durbin models use the lagged
 coefficients of the same regime when not all vary by regime

---
 spreg/sputils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index 9edca63..c3705f4 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -363,12 +363,14 @@ def _sp_effects(reg, variables, spmult, slx_lags=0,slx_vars="All"):
     if slx_lags > 0:
         if reg.output.regime.nunique() > 1:
             btot_idx = pd.Series(btot.flatten(), index=variables_x_index)   
-            wchunk_size = len(variables.query("regime == @reg.output.regime.iloc[0]")) #Number of exogenous variables in each regime
-            for i in range(slx_lags):
-                chunk_indices = variables_x_index + (i+1) * wchunk_size
-                bmult = m1 * reg.betas[chunk_indices]
-                btot_idx[variables_x_index] += bmult.flatten()
-                btot = btot_idx.to_numpy().reshape(btot.shape)
+            for r in variables['regime'].unique():
+                regi_index = variables_x_index[variables['regime'] == r]
+                wchunk_size = len(regi_index) #Number of exogenous variables in each regime (or global)
+                for i in range(slx_lags):
+                    chunk_indices = regi_index + (i+1) * wchunk_size
+                    bmult = m1 * reg.betas[chunk_indices]
+                    btot_idx[regi_index] += bmult.flatten()
+            btot = btot_idx.to_numpy().reshape(btot.shape)
 
         else:
             variables_wx = reg.output.query("var_type == 'wx'")
-- 
2.43.0


From fc4b3578b9368dcfa8261eb46e6db6e1ce9b57d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 021/107] fix: Chow tests appear in the regimes output again
 (1x1 array formatting made the section vanish)

---
 spreg/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/output.py b/spreg/output.py
index 41165ab..e2b90cb 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -227,7 +227,7 @@ def _summary_chow(reg):
     try:
         tot_SSR = reg.score
     except:
-        tot_SSR = np.dot(reg.u.T, reg.u)
+        tot_SSR = np.dot(reg.u.T, reg.u).item()
     try:
         n_clust = reg.nr
     except:
-- 
2.43.0


From 8c24a847952d0217b3d1f1cb7f5d0019f5f939ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 022/107] fix: no empty Chow test row for lambda in models
 without inference on lambda

---
 spreg/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/output.py b/spreg/output.py
index e2b90cb..4ea59ae 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -246,7 +246,7 @@ def _summary_chow(reg):
         names_chow = ["CONSTANT"] + names_chow
 
     if 'lambda' in reg.output.var_type.values:
-        if reg.output.var_type.value_counts()['lambda'] > 1:
+        if reg.output.var_type.value_counts()['lambda'] > 1 and len(regi) > len(names_chow):
             names_chow += ["lambda"]
 
     reg.output_chow = pd.DataFrame()
-- 
2.43.0


From 349c4eb0209afd4098f38714a514dd4bfd612a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 023/107] fix: ML_Error_Regimes Chow table names when not all
 columns vary by regime

---
 spreg/ml_error_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/ml_error_regimes.py b/spreg/ml_error_regimes.py
index fb7e2e7..6272e24 100644
--- a/spreg/ml_error_regimes.py
+++ b/spreg/ml_error_regimes.py
@@ -328,7 +328,7 @@ class ML_Error_Regimes(BaseML_Error, REGI.Regimes_Frame):
         self.name_x_r = USER.set_name_x(name_x, x_constant)
 
         cols2regi = REGI.check_cols2regi(constant_regi, cols2regi, x_constant)
-        self.cols2regi = cols2regi        
+        self.cols2regi = cols2regi[1:]
         self.regimes_set = REGI._get_regimes_set(regimes)
         self.regimes = regimes
         USER.check_regimes(self.regimes_set, self.n, x.shape[1])
-- 
2.43.0


From 75257a9804a8ffc380a63925c8dc87c3f55627d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 024/107] fix: Wald accepts a q vector, as documented

---
 spreg/regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/regimes.py b/spreg/regimes.py
index 0ed5139..cb107c3 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -143,7 +143,7 @@ class Wald:
     """
 
     def __init__(self, reg, r, q=None):
-        if not q:
+        if q is None:
             q = np.zeros((r.shape[0], 1))
         self.w, self.pvalue = wald_test(reg.betas, r, q, reg.vm)
 
-- 
2.43.0


From 0968e64c53a53e06845671f7d070544bb584a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 025/107] fix: regimes given as non-integer floats are not
 truncated

---
 spreg/regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/regimes.py b/spreg/regimes.py
index cb107c3..9a62323 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -715,7 +715,7 @@ def _get_regimes_set(regimes):
     regimes_set = list(set(regimes))
     if isinstance(regimes_set[0], float):
         regimes_set1 = list(set(map(int, regimes_set)))
-        if len(regimes_set1) == len(regimes_set):
+        if set(regimes_set1) == set(regimes_set):
             regimes_set = regimes_set1
     regimes_set.sort()
     return regimes_set
-- 
2.43.0


From 535ce09811de2fad0bbb5c080aac66518c0c89f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 026/107] fix: slx_vars and hard_bound reach the regimes
 estimators

---
 spreg/error_sp.py  | 5 +++++
 spreg/ml_error.py  | 1 +
 spreg/ml_lag.py    | 1 +
 spreg/ols.py       | 1 +
 spreg/twosls.py    | 1 +
 spreg/twosls_sp.py | 1 +
 6 files changed, 10 insertions(+)

diff --git a/spreg/error_sp.py b/spreg/error_sp.py
index 9d2717c..3fa9f99 100644
--- a/spreg/error_sp.py
+++ b/spreg/error_sp.py
@@ -1316,6 +1316,11 @@ class GMM_Error(GM_Error, GM_Endog_Error, GM_Combo, GM_Error_Het, GM_Endog_Error
 
         if regimes is not None:
             from .error_sp_regimes import GMM_Error_Regimes
+            # only passed on when used: not all of the regimes estimators have these options
+            if not isinstance(slx_vars, str):
+                kwargs["slx_vars"] = slx_vars
+            if hard_bound:
+                kwargs["hard_bound"] = hard_bound
             self.__class__ = GMM_Error_Regimes
             self.__init__(
                 y=y, x=x, regimes=regimes, w=w, yend=yend, q=q, estimator=estimator, add_wy=add_wy, 
diff --git a/spreg/ml_error.py b/spreg/ml_error.py
index 9f4053b..253e77f 100755
--- a/spreg/ml_error.py
+++ b/spreg/ml_error.py
@@ -499,6 +499,7 @@ class ML_Error(BaseML_Error):
                 regimes=regimes,
                 w=w,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 method=method,
                 epsilon=epsilon,
                 vm=vm,
diff --git a/spreg/ml_lag.py b/spreg/ml_lag.py
index 1cdcbca..1207e5c 100755
--- a/spreg/ml_lag.py
+++ b/spreg/ml_lag.py
@@ -626,6 +626,7 @@ class ML_Lag(BaseML_Lag):
                 regimes=regimes,
                 w=w,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 method=method,
                 epsilon=epsilon,
                 spat_impacts=spat_impacts,
diff --git a/spreg/ols.py b/spreg/ols.py
index 9b1da1d..a4b411f 100755
--- a/spreg/ols.py
+++ b/spreg/ols.py
@@ -474,6 +474,7 @@ class OLS(BaseOLS):
                 robust=robust,
                 gwk=gwk,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 sig2n_k=sig2n_k,
                 nonspat_diag=nonspat_diag,
                 spat_diag=spat_diag,
diff --git a/spreg/twosls.py b/spreg/twosls.py
index 0c59bb6..5b07aba 100644
--- a/spreg/twosls.py
+++ b/spreg/twosls.py
@@ -492,6 +492,7 @@ class TSLS(BaseTSLS):
                 robust=robust,
                 gwk=gwk,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 sig2n_k=sig2n_k,
                 spat_diag=spat_diag,
                 vm=vm,
diff --git a/spreg/twosls_sp.py b/spreg/twosls_sp.py
index 7302aa2..322b4c5 100755
--- a/spreg/twosls_sp.py
+++ b/spreg/twosls_sp.py
@@ -548,6 +548,7 @@ class GM_Lag(BaseGM_Lag):
                 w=w,
                 w_lags=w_lags,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 lag_q=lag_q,
                 robust=robust,
                 gwk=gwk,
-- 
2.43.0


From 3b13aaf7ec0cba60af7503ba5ce7b5648d93ba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 027/107] fix: slx_vars given as 'All' does not truncate the
 lag names

---
 spreg/user_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/user_output.py b/spreg/user_output.py
index 097dace..ec0dc5d 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -178,7 +178,7 @@ def set_name_spatial_lags(names, w_lags, slx_vars="all", additional=0):
     lag_names2 : string, only returned if additional > 0
 
     """
-    if slx_vars != "all":
+    if not isinstance(slx_vars, str):
         names = list(compress(names,slx_vars))
     lag_names = ["W_" + s for s in names]
     n_i = 1
-- 
2.43.0


From fcea40033f8a5f9022d81db9f10d3c7deb08b7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 028/107] fix: separate OLS/TSLS regimes models with spat_diag
 lost cached vm (AttributeError on vm=True)

---
 spreg/ols_regimes.py    | 1 -
 spreg/twosls_regimes.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index 4ebfd1b..b9d5974 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -682,7 +682,6 @@ class OLS_Regimes(BaseOLS, REGI.Regimes_Frame, RegressionPropsY):
 
     def _get_spat_diag_props(self, x, sig2n_k):
         self.k = self.kr
-        self._cache = {}
         self.x = REGI.regimeX_setup(
             x, self.regimes, [True] * x.shape[1], self.regimes_set
         )
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index cbb4bcb..2a73281 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -629,7 +629,6 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
             output(reg=self, vm=vm, robust=robust, other_end=diag_out, latex=latex)
 
     def _get_spat_diag_props(self, results, regi_ids, x, yend, q):
-        self._cache = {}
         x = REGI.regimeX_setup(x, self.regimes, [True] * x.shape[1], self.regimes_set)
         self.z = sphstack(
             x,
-- 
2.43.0


From 0021ed03da98a8cbf137b7fe4199ae6f6d556e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 029/107] fix: impacts of lag regimes models with slx_vars
 lists or lags varying by regime failed or used other variables' lag
 coefficients

---
 spreg/ml_lag_regimes.py    | 13 +++++++++----
 spreg/output.py            |  8 ++++++++
 spreg/sputils.py           | 17 +++++++++--------
 spreg/twosls_sp_regimes.py | 13 +++++++++----
 4 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/spreg/ml_lag_regimes.py b/spreg/ml_lag_regimes.py
index 239cc4b..8d0553b 100644
--- a/spreg/ml_lag_regimes.py
+++ b/spreg/ml_lag_regimes.py
@@ -401,6 +401,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
                 w,
                 regi_ids,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 cores=cores,
                 cols2regi=cols2regi,
                 method=method,
@@ -442,6 +443,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
             #self.output['var_type'] = ['o'] + ['x'] * (len(self.name_x) - 2) + ['rho']
             self.output['equation'] = 0
             self.slx_lags = slx_lags
+            self.slx_vars = slx_vars
             diag_out = None
             if slx_lags > 0:
                 self.title = ("MAXIMUM LIKELIHOOD SPATIAL DURBIN - REGIMES"+ " (METHOD = "+ method+ ")")
@@ -461,7 +463,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
                 self.title = ("MAXIMUM LIKELIHOOD SPATIAL LAG - REGIMES"+ " (METHOD = "+ method+ ")")
                
             if spat_impacts:
-                self.sp_multipliers, impacts_str = _summary_impacts(self, w, spat_impacts, slx_lags, regimes=True)
+                self.sp_multipliers, impacts_str = _summary_impacts(self, w, spat_impacts, slx_lags, slx_vars, regimes=True)
                 try:
                     diag_out += impacts_str
                 except TypeError:
@@ -478,6 +480,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
         w,
         regi_ids,
         slx_lags,
+        slx_vars,
         cores,
         cols2regi,
         method,
@@ -607,8 +610,10 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
             results[r].other_top += _nonspat_top(results[r], ml=True)
             results[r].other_mid = ""
             if slx_lags > 0:
-                kx = (len(results[r].name_x) - 1) // (slx_lags + 1)
-                var_types = ['o']+['x']*kx + ['wx'] * kx * slx_lags + ['rho']
+                results[r].slx_vars = slx_vars
+                kx = len(results[r].name_x) - 2
+                kwx = slx_vars.count(True) if isinstance(slx_vars, list) else kx // (slx_lags + 1)
+                var_types = ['o'] + ['x'] * (kx - kwx * slx_lags) + ['wx'] * kwx * slx_lags + ['rho']
             else:
                 var_types = ['o']+['x'] * (len(results[r].name_x) - 2) + ['rho']
             results[r].output = pd.DataFrame({'var_names': results[r].name_x,
@@ -618,7 +623,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
             if spat_diag and slx_lags == 1:
                 results[r].other_mid += _spat_diag_out(results[r], None, 'yend', ml=True)
             if spat_impacts:
-                results[r].sp_multipliers, impacts_str = _summary_impacts(results[r], results[r].w, spat_impacts, slx_lags)
+                results[r].sp_multipliers, impacts_str = _summary_impacts(results[r], results[r].w, spat_impacts, slx_lags, slx_vars)
                 results[r].other_mid += impacts_str
             counter += 1
         self.multi = results
diff --git a/spreg/output.py b/spreg/output.py
index 4ea59ae..90c8e48 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -630,6 +630,14 @@ def _summary_impacts(reg, w, spat_impacts, slx_lags=0, slx_vars="All",regimes=Fa
         strSummary += "Omitted since spatial autoregressive parameter is outside the boundary (-1, 1).\n"
         return None, strSummary
 
+    if regimes and slx_lags > 0:
+        wx = reg.output[(reg.output["var_type"] == 'wx') & (reg.output["regime"] != '_Global')]
+        wx_names = [v[len(str(r)) + 1:].partition('_')[2] for v, r in zip(wx['var_names'], wx['regime'])]
+        x_global = variables[variables["regime"] == '_Global']
+        if any(v[len('_Global_'):] in wx_names for v in x_global['var_names']):
+            strSummary += "Omitted since the spatial lags of some variables vary by regime, but the variables do not.\n"
+            return None, strSummary
+
     if "all" in spat_impacts:
         spat_impacts = ["simple", "full", "power"]
 
diff --git a/spreg/sputils.py b/spreg/sputils.py
index c3705f4..f667dea 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -362,15 +362,16 @@ def _sp_effects(reg, variables, spmult, slx_lags=0,slx_vars="All"):
     # Assumes all SLX effects are indirect effects. 
     if slx_lags > 0:
         if reg.output.regime.nunique() > 1:
-            btot_idx = pd.Series(btot.flatten(), index=variables_x_index)   
-            for r in variables['regime'].unique():
-                regi_index = variables_x_index[variables['regime'] == r]
-                wchunk_size = len(regi_index) #Number of exogenous variables in each regime (or global)
+            variables_wx = reg.output.query("var_type == 'wx'")
+            wx_index = dict(zip(variables_wx['var_names'], variables_wx.index))
+            for j, (name, r) in enumerate(zip(variables['var_names'], variables['regime'])):
+                x_name = name[len(str(r)) + 1:]
                 for i in range(slx_lags):
-                    chunk_indices = regi_index + (i+1) * wchunk_size
-                    bmult = m1 * reg.betas[chunk_indices]
-                    btot_idx[regi_index] += bmult.flatten()
-            btot = btot_idx.to_numpy().reshape(btot.shape)
+                    lag = 'W_' if i == 0 else 'W%d_' % (i + 1)
+                    for g in (r, '_Global'):    # coefficient of the lag in this regime or common to all regimes
+                        if '%s_%s%s' % (g, lag, x_name) in wx_index:
+                            btot[j] = btot[j] + m1 * reg.betas[wx_index['%s_%s%s' % (g, lag, x_name)]]
+                            break
 
         else:
             variables_wx = reg.output.query("var_type == 'wx'")
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 129e07d..308bd45 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -577,6 +577,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
                 q=q2,
                 w_lags=w_lags,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 lag_q=lag_q,
                 cores=cores,
                 robust=robust,
@@ -655,11 +656,12 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             except:
                 self.other_top = top_diag
             self.slx_lags = slx_lags
+            self.slx_vars = slx_vars
             diag_out = None
             if spat_diag:
                 diag_out = _spat_diag_out(self, w, 'yend')
             if spat_impacts:
-                self.sp_multipliers, impacts_str = _summary_impacts(self, w, spat_impacts, slx_lags, regimes=True)
+                self.sp_multipliers, impacts_str = _summary_impacts(self, w, spat_impacts, slx_lags, slx_vars, regimes=True)
                 try:
                     diag_out += impacts_str
                 except TypeError:
@@ -678,6 +680,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
         q=None,
         w_lags=1,
         slx_lags=0,
+        slx_vars="all",
         lag_q=True,
         robust=None,
         gwk=None,
@@ -857,8 +860,10 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             results[r].other_top += _spat_pseudo_r2(results[r])
             results[r].other_mid = ""
             if slx_lags > 0:
-                kx = (results[r].k - results[r].kstar - 1) // (slx_lags + 1)
-                var_types = ['o'] + ['x']*kx + ['wx'] * kx * slx_lags + ['yend'] * (len(results[r].name_yend) - 1) + ['rho']
+                results[r].slx_vars = slx_vars
+                kx = results[r].k - results[r].kstar - 1
+                kwx = slx_vars.count(True) if isinstance(slx_vars, list) else kx // (slx_lags + 1)
+                var_types = ['o'] + ['x'] * (kx - kwx * slx_lags) + ['wx'] * kwx * slx_lags + ['yend'] * (len(results[r].name_yend) - 1) + ['rho']
             else:
                 var_types = ['o'] + ['x'] * (len(results[r].name_x)-1) + ['yend'] * (len(results[r].name_yend)-1) + ['rho']
             results[r].output = pd.DataFrame({'var_names': results[r].name_x + results[r].name_yend,
@@ -868,7 +873,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             if spat_diag:
                 results[r].other_mid += _spat_diag_out(results[r], results[r].w, 'yend')
             if spat_impacts:
-                results[r].sp_multipliers, impacts_str = _summary_impacts(results[r], results[r].w, spat_impacts, slx_lags)
+                results[r].sp_multipliers, impacts_str = _summary_impacts(results[r], results[r].w, spat_impacts, slx_lags, slx_vars)
                 results[r].other_mid += impacts_str
             counter += 1
         self.multi = results
-- 
2.43.0


From 9596da9257406782e8b622cb7e8338147f0136c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:51 +0000
Subject: [PATCH 030/107] fix: check_endog reshaped the caller's
 one-dimensional yend/q arrays in place

---
 spreg/user_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/user_output.py b/spreg/user_output.py
index ec0dc5d..466cd32 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -542,7 +542,7 @@ def check_endog(arrays, names):
         if arrays[i] is None:
             pass
         elif len(arrays[i].shape) == 1:
-            arrays[i].shape = (arrays[i].shape[0], 1)
+            arrays[i] = arrays[i].reshape((arrays[i].shape[0], 1))
         check_numeric_bool(arrays[i])
     return (*arrays, *names)
 
-- 
2.43.0


From ed1c76931be7219f4e3901bc1a5d72a90f38cecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:00 +0000
Subject: [PATCH 031/107] fix: SUR models overwrote the caller's dictionaries
 (regimes, SURlagIV) and SURlagIV ignored user names of endogenous variables
 and instruments

---
 spreg/sur.py       |  2 ++
 spreg/sur_error.py |  2 ++
 spreg/sur_lag.py   | 45 ++++++++++++++++++++++++++++++---------------
 3 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/spreg/sur.py b/spreg/sur.py
index fbe4352..32ca4df 100755
--- a/spreg/sur.py
+++ b/spreg/sur.py
@@ -459,6 +459,7 @@ class SUR(BaseSUR, REGI.Regimes_Frame):
             self.name_x_r = name_bigX
             cols2regi_dic = {}
             self.name_bigX = {}
+            bigX = dict(bigX)
             for r in range(self.n_eq):
                 cols2regi_dic[r] = REGI.check_cols2regi(
                     self.constant_regi, self.cols2regi, bigX[r], add_cons=False
@@ -870,6 +871,7 @@ class ThreeSLS(BaseThreeSLS, REGI.Regimes_Frame):
             self.regimes_set = REGI._get_regimes_set(regimes)
             self.regimes = regimes
             cols2regi_dic = {}
+            bigX, bigyend, bigq = dict(bigX), dict(bigyend), dict(bigq)
             self.name_bigX, self.name_x_r, self.name_bigq, self.name_bigyend = (
                 {},
                 {},
diff --git a/spreg/sur_error.py b/spreg/sur_error.py
index 9a1585c..193e6c8 100644
--- a/spreg/sur_error.py
+++ b/spreg/sur_error.py
@@ -358,6 +358,7 @@ class SURerrorGM(BaseSURerrorGM, REGI.Regimes_Frame):
             cols2regi_dic = {}
             self.name_bigX = {}
             self.name_x_r = name_bigX
+            bigX = dict(bigX)
 
             for r in range(self.n_eq):
                 cols2regi_dic[r] = REGI.check_cols2regi(
@@ -805,6 +806,7 @@ class SURerrorML(BaseSURerrorML, REGI.Regimes_Frame):
             self.name_x_r = name_bigX
             cols2regi_dic = {}
             self.name_bigX = {}
+            bigX = dict(bigX)
             for r in range(self.n_eq):
                 cols2regi_dic[r] = REGI.check_cols2regi(
                     self.constant_regi, self.cols2regi, bigX[r], add_cons=False
diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index 6eab0ac..df6b9f3 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -274,22 +274,36 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                 ct = "Constant_" + str(r + 1)  # NOTE: constant always included in X
                 name_x.insert(0, ct)
                 name_bigX[r] = name_x
-        if name_bigyend is None:
-            name_bigyend = {}
         if bigyend is not None:  # check on other endogenous
+            bigyend = dict(bigyend)
             self.bigyend = bigyend
-            for r in range(self.n_eq):
-                ky = bigyend[r].shape[1]
-                name_ye = ["end_" + str(i + 1) + "_" + str(r + 1) for i in range(ky)]
-                name_bigyend[r] = name_ye
-        if name_bigq is None:
-            name_bigq = {}
+            if name_bigyend is None:
+                name_bigyend = {}
+                for r in range(self.n_eq):
+                    ky = bigyend[r].shape[1]
+                    name_ye = [
+                        "end_" + str(i + 1) + "_" + str(r + 1) for i in range(ky)
+                    ]
+                    name_bigyend[r] = name_ye
+            else:
+                name_bigyend = dict(name_bigyend)
+        else:
+            name_bigyend = {}
         if bigq is not None:  # check on instruments
+            bigq = dict(bigq)
             self.bigq = bigq
-            for r in range(self.n_eq):
-                ki = bigq[r].shape[1]
-                name_i = ["inst_" + str(i + 1) + "_" + str(r + 1) for i in range(ki)]
-                name_bigq[r] = name_i
+            if name_bigq is None:
+                name_bigq = {}
+                for r in range(self.n_eq):
+                    ki = bigq[r].shape[1]
+                    name_i = [
+                        "inst_" + str(i + 1) + "_" + str(r + 1) for i in range(ki)
+                    ]
+                    name_bigq[r] = name_i
+            else:
+                name_bigq = dict(name_bigq)
+        else:
+            name_bigq = {}
 
         if regimes is not None:
             self.constant_regi = "many"
@@ -300,7 +314,8 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
             self.regimes = regimes
             cols2regi_dic = {}
             self.name_bigX, self.name_bigq, self.name_bigyend = {}, {}, {}
-            self.name_x_r = name_bigX
+            self.name_x_r = dict(name_bigX)
+            bigX = dict(bigX)
 
             # spatial lag dependent variable varying across regimes
             if regime_lag_sep == True:
@@ -310,7 +325,7 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
 
             for r in range(self.n_eq):
                 if bigyend is not None:
-                    self.name_x_r[r] += name_bigyend[r]
+                    self.name_x_r[r] = name_bigX[r] + name_bigyend[r]
                     cols2regi_dic[r] = REGI.check_cols2regi(
                         self.constant_regi,
                         self.cols2regi,
@@ -488,7 +503,7 @@ def _get_spatial_lag(reg, bigyend, WS, name_bigyend):
         # adjust variable names
         for r in range(reg.n_eq):
             wyname = "W_" + reg.name_bigy[r]
-            name_bigyend[r].append(wyname)
+            name_bigyend[r] = name_bigyend[r] + [wyname]
     else:  # no other endogenous variables
         bigyend = {}
         for r in range(reg.n_eq):
-- 
2.43.0


From 4d63266371fc9de11633bfaf5dc651c71ca7174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:00 +0000
Subject: [PATCH 032/107] fix: SURlagIV with regimes, endogenous variables and
 a common lag lost the regime names of the endogenous variables

---
 spreg/sur_lag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index df6b9f3..32fadee 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -375,7 +375,7 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
         # spatial lag dependent variable fixed across regimes or no regimes
         if regimes is None or regime_lag_sep == False:
             bigyend, self.name_bigyend = _get_spatial_lag(
-                self, bigyend, WS, name_bigyend
+                self, bigyend, WS, self.name_bigyend
             )
         # spatially lagged exogenous variables
         bigwx = {}
-- 
2.43.0


From 3fefa6b89ca84f7094f0df7b597a260317862252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:36 +0000
Subject: [PATCH 033/107] fix: Skater_reg.fit changed the transform of the
 caller's weights to binary, so the models fitted afterwards used other
 weights

---
 spreg/skater_reg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index c563597..ad6bf21 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -222,8 +222,9 @@ class Skater_reg(object):
         if data.shape[0] <= n_clusters*quorum:
             raise ValueError("The number of observations is less than the number of clusters times the quorum.")
         
-        W.transform = "b"
-        W = W.sparse
+        # binary weights, without changing the W object given by the user
+        W = W.sparse.astype(float)
+        W.data[:] = 1.0
         start = time.time()
 
         super_verbose = verbose > 1
-- 
2.43.0


From 4b943d5da5d4e127b2a920a873958b4b8d3121f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:46 +0000
Subject: [PATCH 034/107] fix: fitting printed the model's class name to
 standard output

---
 spreg/output.py      | 1 -
 spreg/user_output.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/spreg/output.py b/spreg/output.py
index 90c8e48..3e49e21 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -92,7 +92,6 @@ def out_part_top(strSummary, reg, m):
     else:
         _reg.z_stat = diagnostics.t_stat(_reg, z_stat=True)
         if _reg.__class__.__name__ not in ('NSLX','PSM','LagPSM') and not _reg.__class__.__name__.endswith('Probit'):
-            print(_reg.__class__.__name__)
             _reg.pr2 = diagnostics_tsls.pr2_aspatial(_reg)
             strSummary += "%-20s:%12.4f\n" % ("Pseudo R-squared", _reg.pr2)
         _reg.__summary["summary_zt"] = "z"
diff --git a/spreg/user_output.py b/spreg/user_output.py
index 466cd32..1c6109c 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -498,7 +498,6 @@ def check_y(y, n, name_y=None):
                     
         y = y.to_numpy()
     if not isinstance(y, np.ndarray):
-        print(y.__class__.__name__)
         raise Exception("y must be a numpy array or a pandas Series")
     shape = y.shape
     if len(shape) > 2:
-- 
2.43.0


From 8a669d1e9e7c545df1d0128764170bb99f2ba79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:47 +0000
Subject: [PATCH 035/107] fix: endogenous regimes models swallowed the
 clustering error and failed later with an unrelated one

---
 spreg/ols_regimes.py       | 2 +-
 spreg/twosls_regimes.py    | 2 +-
 spreg/twosls_sp_regimes.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index b9d5974..bf57e8c 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -1076,7 +1076,7 @@ class OLS_Endog_Regimes(OLS_Regimes):
                 if str(e) == "one or more input arrays have more columns than rows":
                     raise ValueError("One or more input ended up with more variables than observations. Please check your setting for `quorum`.")
                 else:
-                    print("An error occurred:", e)
+                    raise
 
         self._trace = sk_reg_results._trace
         self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 2a73281..60fe78c 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -1095,7 +1095,7 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
                 if str(e) == "one or more input arrays have more columns than rows":
                     raise ValueError("One or more input ended up with more variables than observations. Please check your setting for `quorum`.")
                 else:
-                    print("An error occurred:", e)
+                    raise
 
         self._trace = sk_reg_results._trace
         self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 308bd45..d5a60c4 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -1359,7 +1359,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
                 if str(e) == "one or more input arrays have more columns than rows":
                     raise ValueError("One or more input ended up with more variables than observations. Please check your setting for `quorum`.")
                 else:
-                    print("An error occurred:", e)
+                    raise
 
         self._trace = sk_reg_results._trace
         self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
-- 
2.43.0


From 88ea2507fa050801f9ec9c510eeb2c8bd11b45e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:12 +0000
Subject: [PATCH 036/107] fix: surLMlag combined the score contributions of the
 equations with a matrix product instead of element by element

---
 spreg/diagnostics_sur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/diagnostics_sur.py b/spreg/diagnostics_sur.py
index cc6a032..eff8b7a 100644
--- a/spreg/diagnostics_sur.py
+++ b/spreg/diagnostics_sur.py
@@ -225,7 +225,7 @@ def surLMlag(n_eq, WS, bigy, bigX, bigE, bigYP, sig, varb):
     WY = WS @ Y
     EWY = np.dot(bigE.T, WY)
     sigi = la.inv(sig)
-    SEWE = sigi @ EWY
+    SEWE = sigi * EWY
     score = SEWE.sum(axis=0)  # column sums
     score.resize(1, n_eq)  # score as a row vector
 
-- 
2.43.0


From 3cd6d64d81faf87b043b93f0e64c4073c3fe4d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:36 +0000
Subject: [PATCH 037/107] fix: SURlagIV with regimes and endogenous variables
 failed on sparse regimes matrices

---
 spreg/sur_lag.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index 32fadee..e494b95 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -13,6 +13,7 @@ from . import regimes as REGI
 from .sur import BaseThreeSLS
 from .diagnostics_sur import sur_setp, sur_chow, sur_joinrho
 from .sur_utils import check_k, sur_dictxy, sur_dictZ
+from .sputils import sphstack
 
 __all__ = ["SURlagIV"]
 
@@ -389,13 +390,13 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                     bigwq = {}
                     for r in range(self.n_eq):
                         bigwq = WS @ bigq[r]
-                        bigq[r] = np.hstack((bigq[r], bigwx[r], bigwq))
+                        bigq[r] = sphstack(sphstack(bigq[r], bigwx[r]), bigwq)
                         wqnames = ["W_" + i for i in self.name_bigq[r]]
                         wxnames[r] = wxnames[r] + wqnames
                         self.name_bigq[r] = self.name_bigq[r] + wxnames[r]
                 else:  # no lags for other instruments
                     for r in range(self.n_eq):
-                        bigq[r] = np.hstack((bigq[r], bigwx[r]))
+                        bigq[r] = sphstack(bigq[r], bigwx[r])
                         self.name_bigq[r] = self.name_bigq[r] + wxnames[r]
             else:  # no other instruments only wx
                 bigq = {}
@@ -410,7 +411,7 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                 wxnames[r] = nameswork
                 for i in range(1, w_lags):
                     bigwxwork = WS @ bigwxwork
-                    bigwx[r] = np.hstack((bigwx[r], bigwxwork))
+                    bigwx[r] = sphstack(bigwx[r], bigwxwork)
                     nameswork = ["W" + i for i in nameswork]
                     wxnames[r] = wxnames[r] + nameswork
             if bigq:  # other instruments
@@ -424,15 +425,15 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                         wq[r] = bigwq
                         for i in range(1, w_lags):
                             bigwq = WS @ bigwq
-                            wq[r] = np.hstack((wq[r], bigwq))
+                            wq[r] = sphstack(wq[r], bigwq)
                             wqnameswork = ["W" + i for i in wqnameswork]
                             wqnames[r] = wqnames[r] + wqnameswork
-                        bigq[r] = np.hstack((bigq[r], bigwx[r], wq[r]))
+                        bigq[r] = sphstack(sphstack(bigq[r], bigwx[r]), wq[r])
                         self.name_bigq[r] = self.name_bigq[r] + wxnames[r] + wqnames[r]
 
                 else:  # no lags for other instruments
                     for r in range(self.n_eq):
-                        bigq[r] = np.hstack((bigq[r], bigwx[r]))
+                        bigq[r] = sphstack(bigq[r], bigwx[r])
                         self.name_bigq[r] = self.name_bigq[r] + wxnames[r]
             else:  # no other instruments only wx
                 bigq = {}
@@ -499,7 +500,7 @@ def _get_spatial_lag(reg, bigyend, WS, name_bigyend):
         bigylag[r] = WS @ reg.bigy[r]
     if bigyend is not None:
         for r in range(reg.n_eq):
-            bigyend[r] = np.hstack((bigyend[r], bigylag[r]))
+            bigyend[r] = sphstack(bigyend[r], bigylag[r])
         # adjust variable names
         for r in range(reg.n_eq):
             wyname = "W_" + reg.name_bigy[r]
-- 
2.43.0


From 6ef254120ba7be5ab413bd83de7a639002ea3427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:30 +0000
Subject: [PATCH 038/107] fix: generalized moments search of
 GM_Error/GM_Combo/KKP/SURerrorGM depended on the unit of measurement of the
 response (stopped early for large units)

---
 spreg/utils.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index e623f98..99377db 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -362,6 +362,15 @@ def optim_moments(moments_in, vcX=np.array([0]), all_par=False, start=None, hard
         moments[1] = np.dot(Ec, moments_in[1])
     scale = np.min([[np.min(moments[0]), np.min(moments[1])]])
     moments[0], moments[1] = moments[0] / scale, moments[1] / scale
+    # variance parameters are searched in millions, millionths, ... according to the
+    # size of the residual variance, so that the search does not stop early because
+    # of the unit of measurement of the residuals
+    unit = abs(float(np.ravel(moments_in[1])[0]))
+    if unit > 0:
+        unit = 10.0 ** (6 * round(np.log10(unit) / 6))
+    else:
+        unit = 1.0
+    moments[0][:, 2:] = moments[0][:, 2:] * unit
     if moments[0].shape[0] == 2:
         optim_par = lambda par: foptim_par(
             np.array([[float(par[0]), float(par[0]) ** 2.0]]).T, moments
@@ -383,6 +392,8 @@ def optim_moments(moments_in, vcX=np.array([0]), all_par=False, start=None, hard
         )
         if not start:
             start = [0.0, 1.0, 1.0]
+        else:
+            start = [start[0]] + [s / unit for s in start[1:]]
         bounds = [(-0.99, 0.99), (0.0, None), (0.0, None)]
     lambdaX = op.fmin_l_bfgs_b(optim_par, start, approx_grad=True, bounds=bounds)
 
@@ -391,7 +402,7 @@ def optim_moments(moments_in, vcX=np.array([0]), all_par=False, start=None, hard
             raise Exception("Spatial parameter was outside the bounds of -0.99 and 0.99")
 
     if all_par:
-        return lambdaX[0]
+        return np.append(lambdaX[0][:1], lambdaX[0][1:] * unit)
     return lambdaX[0][0]
 
 
-- 
2.43.0


From e7085646b1851d2d980c6cd7e035f8e04f24dcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:16 +0000
Subject: [PATCH 039/107] fix: PanelFE residuals, predictions and fit measures
 left out the fixed effects (fit depended on the origin of the regressors)

---
 spreg/panel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index 57902d3..06691ba 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -366,8 +366,8 @@ class PanelFE(RegressionPropsY, RegressionPropsVM):
         reg_ols = BaseOLS(dem_y, dem_x, sig2n_k=False)
         self.y, self.x = bigy, bigx
         self.betas = reg_ols.betas
-        self.predy = np.dot(bigx, self.betas)
-        self.u = bigy - self.predy
+        self.u = reg_ols.u
+        self.predy = bigy - self.u
         self.xtxi = la.inv(np.dot(bigx.T, bigx))
         self.df_resid = NT - N
 
@@ -387,7 +387,7 @@ class PanelFE(RegressionPropsY, RegressionPropsVM):
         self.other_top, self.other_mid, other_end = ("", "", "") 
         self.other_top += _nonspat_top(self)
 
-        self.mu_i = self.u.reshape(self.t, N).mean(axis=0).reshape(-1, 1)        
+        self.mu_i = self.fixed_effects
         self.mean_mu_i = self.mu_i.mean()
         self.other_top += "%-20s:%12.4f\n" % (
             "Fixed-effects mean", self.mean_mu_i)        
-- 
2.43.0


From 1030f7aa82ea117095c8fd31b883a6c3a55ec5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:16 +0000
Subject: [PATCH 040/107] fix: ML_ErrorRE returned a complex log-likelihood
 (and AIC, Schwarz)

---
 spreg/panel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index 06691ba..31efecc 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -2114,7 +2114,7 @@ class BaseML_ErrorRE(RegressionPropsY, RegressionPropsVM):
             jacob = jacob.real
             
         clik = nlsig2 + phi_jacob - jacob
-        return clik
+        return clik.real
     
 class ML_ErrorRE(BaseML_ErrorRE):
 
-- 
2.43.0


From 4120504c1299fa11edb61ce731710c1c5483c4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:30 +0000
Subject: [PATCH 041/107] fix: ThreeSLS/SURlagIV regimes Chow tests compared
 the wrong coefficients when there are endogenous variables

---
 spreg/sur.py     | 2 +-
 spreg/sur_lag.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/sur.py b/spreg/sur.py
index 32ca4df..e982ff5 100755
--- a/spreg/sur.py
+++ b/spreg/sur.py
@@ -943,7 +943,7 @@ class ThreeSLS(BaseThreeSLS, REGI.Regimes_Frame):
                 self.chow_regimes[r] = REGI._chow_run(
                     len(cols2regi_dic[r]),
                     0,
-                    0,
+                    len(name_bigyend[r]),
                     len(self.regimes_set),
                     self.b3SLS[r],
                     self.varb[varb_counter:counter_end, varb_counter:counter_end],
diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index e494b95..dd90c5a 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -477,7 +477,7 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                 self.chow_regimes[r] = REGI._chow_run(
                     len(cols2regi_dic[r]),
                     fixed_lag,
-                    0,
+                    len(self.name_x_r[r]) - len(name_bigX[r]),
                     len(self.regimes_set),
                     self.b3SLS[r],
                     self.varb[varb_counter:counter_end, varb_counter:counter_end],
-- 
2.43.0


From 611804b8d8ac73f93e4a75c00462c491674498ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:30 +0000
Subject: [PATCH 042/107] fix: degrees of freedom printed for the global Chow
 test of each equation of SUR regimes models were those of another equation

---
 spreg/summary_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/summary_output.py b/spreg/summary_output.py
index 33145e8..43b3a38 100755
--- a/spreg/summary_output.py
+++ b/spreg/summary_output.py
@@ -1584,7 +1584,7 @@ def summary_chow(reg, lambd=False, sur=False):
         )
     sum_text += "%25s        %2d    %12.3f        %9.4f\n" % (
         "Global test",
-        reg.kr * (reg.nr - 1),
+        len(regi) * (reg.nr - 1),
         joint[0],
         joint[1],
     )
-- 
2.43.0


From bd152252088a689e579f815fba3d07a271307bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:30 +0000
Subject: [PATCH 043/107] fix: GM_ErrorPooled/ML_ErrorPooled failed with
 nonspat_diag=False

---
 spreg/panel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index 31efecc..1822e30 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -853,6 +853,7 @@ class GM_ErrorPooled(BaseGM_ErrorPooled):
         self.output['var_type'] = ['o'] + ['x'] * (kx-1) + ['wx'] * kwx + ['lambda']
         self.output['regime'], self.output['equation'] = (0, 0)
         self.other_top = _summary_iteration(self)
+        other_end = False
 
         if nonspat_diag:
             self.bsk = BSK_tests(self, w, which=['LMC_RE'])
@@ -1065,7 +1066,8 @@ class ML_ErrorPooled(BaseML_ErrorPooled):
 
         self.aic = DIAG.akaike(reg=self)
         self.schwarz = DIAG.schwarz(reg=self)
-        self.other_top = _nonspat_top(self, ml=True)     
+        self.other_top = _nonspat_top(self, ml=True)
+        other_end = False
 
         if nonspat_diag:
             self.bsk = BSK_tests(self, w, which=['LMC_RE'])
-- 
2.43.0


From c53d31f8fd6e13505ab584377fc491bd10113120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:26 +0000
Subject: [PATCH 044/107] fix: SURlagIV with regimes and a common lag failed in
 the summary when all equations have the same number of variables

---
 spreg/summary_output.py | 47 ++++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/spreg/summary_output.py b/spreg/summary_output.py
index 43b3a38..02a0ea5 100755
--- a/spreg/summary_output.py
+++ b/spreg/summary_output.py
@@ -1900,37 +1900,26 @@ def summary_diag_sur(
                 if tsls:
                     kend = len(reg.name_bigyend[list(reg.name_bigyend.keys())[0]])
                     kx += -kend
-                names_chow = {}
-                reg_counter = 1
-                for k in range(len(reg.surchow)):
-                    names_chow[k] = ""
-                    if k < ((kx + kend) * reg_counter - kend) / regK:
-                        kxadj = int(k - (reg_counter - 1) * kend / regK)
-                        for i in reg.name_bigX:
-                            names_chow[k] += reg.name_bigX[i][kxadj] + ", "
-                    else:
-                        for j in reg.name_bigyend:
-                            kxadj = int(k - kx * reg_counter / regK)
-                            names_chow[k] += reg.name_bigyend[j][kxadj] + ", "
-                    if k + 1 == (kx + kend) * reg_counter / regK:
-                        reg_counter += 1
-                    if len(names_chow[k]) > 42:
-                        names_chow[k] = names_chow[k][0:38] + "..."
-                    else:
-                        names_chow[k] = names_chow[k][:-2]
-                reg_counter = 1
-                for k in range(len(reg.surchow)):
-                    if k < ((kx + kend) * reg_counter - kend) / regK:
-                        kadj = int(k - (reg_counter - 1) * kend / regK)
+                order = []
+                for j in range(regK):
+                    order.extend(range(j * (kx // regK), (j + 1) * (kx // regK)))
+                    order.extend(
+                        range(kx + j * (kend // regK), kx + (j + 1) * (kend // regK))
+                    )
+                order.extend(range(kx + regK * (kend // regK), kx + kend))
+                for k in order:
+                    if k < kx:
+                        names = [reg.name_bigX[i][k] for i in reg.name_bigX]
                     else:
-                        kadj = int(kx + k - kx * reg_counter / regK)
-                    if k + 1 == (kx + kend) * reg_counter / regK:
-                        reg_counter += 1
+                        names = [reg.name_bigyend[j][k - kx] for j in reg.name_bigyend]
+                    names_chow = ", ".join(names)
+                    if len(names_chow) > 40:
+                        names_chow = (names_chow + ", ")[0:38] + "..."
                     strChow += "%41s        %2d   %10.3f           %6.4f\n" % (
-                        names_chow[k],
-                        reg.surchow[kadj][1],
-                        reg.surchow[kadj][0],
-                        reg.surchow[kadj][2],
+                        names_chow,
+                        reg.surchow[k][1],
+                        reg.surchow[k][0],
+                        reg.surchow[k][2],
                     )
             if spat_diag and chow_lamb:
                 strChow += "%41s        %2d   %10.3f           %6.4f\n" % (
-- 
2.43.0


From aae8f5e6ec02635572a3a6b76409f0295b22ee33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:51 +0000
Subject: [PATCH 045/107] fix: Probit dropped constant variables without
 showing the warning

---
 spreg/probit.py | 1170 +++++++++++++++++++++++------------------------
 1 file changed, 585 insertions(+), 585 deletions(-)

diff --git a/spreg/probit.py b/spreg/probit.py
index 7b786d5..0b84eef 100755
--- a/spreg/probit.py
+++ b/spreg/probit.py
@@ -1,585 +1,585 @@
-"""Probit regression class and diagnostics."""
-
-__author__ = "Luc Anselin lanselin@gmail.com, Pedro V. Amaral pedrovma@gmail.com"
-
-import numpy as np
-import numpy.linalg as la
-import scipy.optimize as op
-import pandas as pd
-from scipy.stats import norm, chi2
-from libpysal import weights
-chisqprob = chi2.sf
-import scipy.sparse as SP
-from . import user_output as USER
-from . import diagnostics as DIAGNOSTICS  
-from . import diagnostics_probit as PROBDIAG   
-from .output import output, _probit_out
-from .utils import spdot, spbroadcast, set_warn
-
-__all__ = ["Probit"]
-
-class BaseProbit():
-    """
-    Probit class to do the core estimation
-
-    Parameters
-    ----------
-
-    x           : array
-                  nxk array of independent variables (assumed to be aligned with y)
-    y           : array
-                  nx1 array of dependent binary variable
-    optim       : string
-                  Optimization method.
-                  Default: 'newton' (Newton-Raphson).
-                  Alternatives: 'ncg' (Newton-CG), 'bfgs' (BFGS algorithm)
-    bstart      : list with starting values for betas
-    maxiter     : int
-                  Maximum number of iterations until optimizer stops
-
-    Attributes
-    ----------
-    x           : array
-                  Two dimensional array with n rows and one column for each
-                  independent (exogenous) variable, including the constant
-    xmean       : array
-                  kx1 vector with means of explanatory variables
-                  (for use in slopes)
-    y           : array
-                  nx1 array of dependent variable
-    optim       : string
-                  optimization method
-    maxiter     : int
-                  maximum number of iterations
-    q           : array
-                  nx1 array of transformed dependent variable 2*y - 1
-    betas       : array
-                  kx1 array with estimated coefficients
-    bstart      : list with starting values
-    predy       : array
-                  nx1 array of predicted y values (probabilities)
-    n           : int
-                  Number of observations
-    k           : int
-                  Number of variables
-    vm          : array
-                  Variance-covariance matrix (kxk)
-    logl        : float
-                  Log-Likelihhod of the estimation
-    xb          : predicted value of linear index
-                  nx1 array
-    predybin    : predicted value as binary
-                  =1 for predy > 0.5
-    phiy        : normal density at xb (phi function)
-                  nx1 array
-    u_naive     : naive residuals y - predy
-                  nx1 array
-    u_gen       : generalized residuals
-                  nx1 array
-    warning     : boolean
-                  if True Maximum number of iterations exceeded or gradient
-                  and/or function calls not changing.
-
-    Examples - needs updating
-    --------
-    >>> import numpy as np
-    >>> import libpysal
-    >>> import spreg
-    >>> np.set_printoptions(suppress=True) #prevent scientific format
-    >>> dbf = libpysal.io.open(libpysal.examples.get_path('columbus.dbf'),'r')
-    >>> y = np.array([dbf.by_col('CRIME')]).T
-    >>> x = np.array([dbf.by_col('INC'), dbf.by_col('HOVAL')]).T
-    >>> x = np.hstack((np.ones(y.shape),x))
-    >>> model = spreg.probit.BaseProbit((y>40).astype(float), x)
-    >>> print(np.around(model.betas, decimals=6))
-    [[ 3.353811]
-     [-0.199653]
-     [-0.029514]]
-
-    >>> print(np.around(model.vm, decimals=6))
-    [[ 0.852814 -0.043627 -0.008052]
-     [-0.043627  0.004114 -0.000193]
-     [-0.008052 -0.000193  0.00031 ]]
-
-    """
-
-    def __init__(self, y, x, optim="newton",bstart=False,maxiter=100):
-        self.y = y
-        self.q = 2* self.y - 1
-        self.x = x
-        self.xmean =  np.mean(self.x,axis=0).reshape(-1,1)
-        self.n, self.k = x.shape
-        self.optim = optim
-        self.bstart = bstart
-        self.maxiter = maxiter
-
-        par_est, self.warning = self.par_est()
-        self.betas = par_est[0].reshape(-1,1)
-
-        self.logl = -par_est[1].item()
-        H = self.hessian(self.betas)
-        self.vm = - la.inv(H)
-
-        # predicted values
-        self.xb = self.x @ self.betas
-        self.predy = norm.cdf(self.xb)
-        self.predybin = (self.predy > 0.5) * 1
-        self.phiy = norm.pdf(self.xb)
-        
-        # residuals
-        self.u_naive = self.y - self.predy
-        Phi_prod = self.predy * (1.0 - self.predy)
-        self.u_gen = self.phiy * (self.u_naive / Phi_prod)
-
-
-    def par_est(self):
-
-        if self.bstart:
-            if len(self.bstart) != self.k:
-                raise Exception("Incompatible number of parameters in starting values")
-            else:
-                start = np.array(self.bstart).reshape(-1,1)
-        else:
-            xtx = self.x.T @ self.x
-            xty = self.x.T @ self.y
-            start = la.solve(xtx,xty)
-
-        flogl = lambda par: -self.ll(par)
-
-        if self.optim == "newton":
-            fgrad = lambda par: self.gradient(par)
-            fhess = lambda par: self.hessian(par)
-            par_hat = newton(flogl, start, fgrad, fhess, self.maxiter)
-            warn = par_hat[2]
-        else:
-            fgrad = lambda par: -self.gradient(par)
-            if self.optim == "bfgs":
-                par_hat = op.fmin_bfgs(flogl, start, fgrad, full_output=1, disp=0)
-                warn = par_hat[6]
-            if self.optim == "ncg":
-                fhess = lambda par: -self.hessian(par)
-                par_hat = op.fmin_ncg(
-                    flogl, start, fgrad, fhess=fhess, full_output=1, disp=0
-                )
-                warn = par_hat[5]
-        if warn > 0:
-            warn = True
-        else:
-            warn = False
-        return par_hat, warn
-
-    def ll(self, par):
-        beta = np.reshape(np.array(par), (self.k, 1))
-        q = 2 * self.y - 1
-        qxb = q * spdot(self.x, beta)
-        ll = sum(np.log(norm.cdf(qxb)))
-        return ll
-
-    def gradient(self, par):
-        beta = np.reshape(np.array(par), (self.k, 1))
-        q = 2 * self.y - 1
-        qxb = q * spdot(self.x, beta)
-        lamb = q * norm.pdf(qxb) / norm.cdf(qxb)
-        gradient = spdot(lamb.T, self.x)[0]
-        return gradient
-
-    def hessian(self, par):
-        beta = np.reshape(np.array(par), (self.k, 1))
-        q = 2 * self.y - 1
-        xb = spdot(self.x, beta)
-        qxb = q * xb
-        lamb = q * norm.pdf(qxb) / norm.cdf(qxb)
-        hessian = spdot(self.x.T, spbroadcast(self.x, -lamb * (lamb + xb)))
-        return hessian
-
-
-class Probit(BaseProbit):
-
-    """
-    Classic non-spatial Probit and spatial diagnostics. The class includes a
-    printout that formats all the results and tests in a nice format.
-
-    The diagnostics for spatial dependence currently implemented are:
-
-    * Pinkse Error :cite:`Pinkse2004`
-
-    * Kelejian and Prucha Moran's I :cite:`Kelejian2001`
-
-    * Pinkse & Slade Error :cite:`Pinkse1998`
-
-    Parameters
-    ----------
-
-    x           : numpy.ndarray or pandas object
-                  nxk array of independent variables (assumed to be aligned with y)
-    y           : numpy.ndarray or pandas.Series
-                  nx1 array of dependent binary variable
-    w           : W
-                  PySAL weights instance aligned with y
-    slx_lags    : integer
-                  Number of spatial lags of X to include in the model specification.
-                  If slx_lags>0, the specification becomes of the SLX type.
-    slx_vars    : variables to be lagged when slx_lags > 0
-                  default = "All", otherwise a list with Booleans indicating which
-                  variables must be lagged (True) or not (False)
-    optim       : string
-                  Optimization method.
-                  Default: 'newton' (Newton-Raphson).
-                  Alternatives: 'ncg' (Newton-CG), 'bfgs' (BFGS algorithm)
-    bstart      : list
-                  list with starting values for betas, default = False
-    scalem      : string
-                  Method to calculate the scale of the marginal effects.
-                  Default: 'phimean' (Mean of individual marginal effects)
-                  Alternative: 'xmean' (Marginal effects at variables mean)
-    predflag    : flag to print prediction table
-    maxiter     : int
-                  Maximum number of iterations until optimizer stops
-    name_y       : string
-                   Name of dependent variable for use in output
-    name_x       : list of strings
-                   Names of independent variables for use in output
-    name_w       : string
-                   Name of weights matrix for use in output
-    name_ds      : string
-                   Name of dataset for use in output
-
-    Attributes 
-    ----------
-
-    x           : array
-                  Two dimensional array with n rows and one column for each
-                  independent (exogenous) variable, including the constant
-    xmean       : array
-                  kx1 vector with means of explanatory variables
-                  (for use in slopes)
-    y           : array
-                  nx1 array of dependent variable
-    w           : spatial weights object
-    optim       : string
-                  optimization method
-    predflag    : flag to print prediction table (predtable)
-    maxiter     : int
-                  maximum number of iterations
-    q           : array
-                  nx1 array of transformed dependent variable 2*y - 1
-    betas       : array
-                  kx1 array with estimated coefficients
-    bstart      : list with starting values for betas or False
-    predy       : array
-                  nx1 array of predicted y values (probabilities)
-    n           : int
-                  Number of observations
-    k           : int
-                  Number of variables
-    vm          : array
-                  Variance-covariance matrix (kxk)
-    logl        : float
-                  Log-Likelihhod of the estimation
-    xb          : predicted value of linear index
-                  nx1 array
-    predybin    : predicted value as binary
-                  =1 for predy > 0.5
-    phiy        : normal density at xb (phi function)
-                  nx1 array
-    u_naive     : naive residuals y - predy
-                  nx1 array
-    u_gen       : generalized residuals
-                  nx1 array
-    warning     : boolean
-                  if True Maximum number of iterations exceeded or gradient
-                  and/or function calls not changing.
-    std_err     : standard errors of estimates
-    z_stat      : list of tuples
-                  z statistic; each tuple contains the pair (statistic,
-                  p-value), where each is a float
-    predtable   : dictionary
-                  includes margins and cells of actual and predicted
-                  values for discrete choice model
-    fit         : a dictionary containing various measures of fit
-                  TPR    : true positive rate (sensitivity, recall, hit rate)
-                  TNR    : true negative rate (specificity, selectivity)
-                  PREDPC : accuracy, percent correctly predicted
-                  BA     : balanced accuracy
-    predpc      : float
-                  Percent of y correctly predicted (legacy)
-    LRtest      : dictionary
-                   contains the statistic for the null model (L0), the LR test(likr), 
-                   the degrees of freedom (df) and the p-value (pvalue)
-    L0          : likelihood of null model
-    LR          : tuple (legacy)
-                  Likelihood Ratio test of all coefficients = 0
-                  (test statistics, p-value)
-    mcfadrho    : McFadden rho statistics of fit
-    scale       : float
-                  Scale of the marginal effects.
-    slopes      : array
-                  Marginal effects of the independent variables (k-1x1)
-    slopes_vm   : array
-                  Variance-covariance matrix of the slopes (k-1xk-1)
-    slopes_std_err : estimates of standard errors of marginal effects
-    slopes_z_stat  : tuple with z-statistics and p-values for marginal effects
-    Pinkse_error: array with statistic and p-value
-                  Lagrange Multiplier test against spatial error correlation.
-                  Implemented as presented in :cite:`Pinkse2004`
-    KP_error    : array with statistic and p-value
-                  Moran's I type test against spatial error correlation.
-                  Implemented as presented in :cite:`Kelejian2001`
-    PS_error    : array with statistic and p-value
-                  Lagrange Multiplier test against spatial error correlation.
-                  Implemented as presented in :cite:`Pinkse1998`
-    name_y       : string
-                   Name of dependent variable for use in output
-    name_x       : list of strings
-                   Names of independent variables for use in output
-    name_w       : string
-                   Name of weights matrix for use in output
-    name_ds      : string
-                   Name of dataset for use in output
-    title        : string
-                   Name of the regression method used
-
-    Examples
-    --------
-
-    We first need to import the needed modules, namely numpy to convert the
-    data we read into arrays that ``spreg`` understands and ``libpysal`` to
-    perform all the analysis.
-
-    >>> import numpy as np
-    >>> import libpysal
-    >>> np.set_printoptions(suppress=True) #prevent scientific format
-
-    Open data on Columbus neighborhood crime (49 areas) using libpysal.io.open().
-    This is the DBF associated with the Columbus shapefile.  Note that
-    libpysal.io.open() also reads data in CSV format; since the actual class
-    requires data to be passed in as numpy arrays, the user can read their
-    data in using any method.
-
-    >>> dbf = libpysal.io.open(libpysal.examples.get_path('columbus.dbf'),'r')
-
-    Extract the CRIME column (crime) from the DBF file and make it the
-    dependent variable for the regression. Note that libpysal requires this to be
-    an numpy array of shape (n, 1) as opposed to the also common shape of (n, )
-    that other packages accept. Since we want to run a probit model and for this
-    example we use the Columbus data, we also need to transform the continuous
-    CRIME variable into a binary variable. As in :cite:`McMillen1992`, we define
-    y = 1 if CRIME > 40.
-
-    >>> y = np.array([dbf.by_col('CRIME')]).T
-    >>> y = (y>40).astype(float)
-
-    Extract HOVAL (home values) and INC (income) vectors from the DBF to be used as
-    independent variables in the regression.  Note that libpysal requires this to
-    be an nxj numpy array, where j is the number of independent variables (not
-    including a constant). By default this class adds a vector of ones to the
-    independent variables passed in.
-
-    >>> names_to_extract = ['INC', 'HOVAL']
-    >>> x = np.array([dbf.by_col(name) for name in names_to_extract]).T
-
-    Since we want to the test the probit model for spatial dependence, we need to
-    specify the spatial weights matrix that includes the spatial configuration of
-    the observations into the error component of the model. To do that, we can open
-    an already existing gal file or create a new one. In this case, we will use
-    ``columbus.gal``, which contains contiguity relationships between the
-    observations in the Columbus dataset we are using throughout this example.
-    Note that, in order to read the file, not only to open it, we need to
-    append '.read()' at the end of the command.
-
-    >>> w = libpysal.io.open(libpysal.examples.get_path("columbus.gal"), 'r').read()
-
-    Unless there is a good reason not to do it, the weights have to be
-    row-standardized so every row of the matrix sums to one. In libpysal, this
-    can be easily performed in the following way:
-
-    >>> w.transform='r'
-
-    We are all set with the preliminaries, we are good to run the model. In this
-    case, we will need the variables and the weights matrix. If we want to
-    have the names of the variables printed in the output summary, we will
-    have to pass them in as well, although this is optional.
-
-    >>> from spreg import Probit
-    >>> model = Probit(y, x, w=w, name_y='crime', name_x=['income','home value'], name_ds='columbus', name_w='columbus.gal')
-
-    Once we have run the model, we can explore a little bit the output. The
-    regression object we have created has many attributes so take your time to
-    discover them.
-
-    >>> np.around(model.betas, decimals=6)
-    array([[ 3.353811],
-           [-0.199653],
-           [-0.029514]])
-
-    >>> np.around(model.vm, decimals=6)
-    array([[ 0.852814, -0.043627, -0.008052],
-           [-0.043627,  0.004114, -0.000193],
-           [-0.008052, -0.000193,  0.00031 ]])
-
-    Since we have provided a spatial weigths matrix, the diagnostics for
-    spatial dependence have also been computed. We can access them and their
-    p-values individually:
-
-    >>> tests = np.array([['Pinkse_error','KP_error','PS_error']])
-    >>> stats = np.array([[model.Pinkse_error[0],model.KP_error[0],model.PS_error[0]]])
-    >>> pvalue = np.array([[model.Pinkse_error[1],model.KP_error[1],model.PS_error[1]]])
-    >>> print(np.hstack((tests.T,np.around(np.hstack((stats.T,pvalue.T)),6))))
-    [['Pinkse_error' '3.131719' '0.076783']
-     ['KP_error' '1.721312' '0.085194']
-     ['PS_error' '2.558166' '0.109726']]
-
-    Or we can easily obtain a full summary of all the results nicely formatted and
-    ready to be printed simply by typing 'print model.summary'
-
-    """
-
-    def __init__(
-        self,
-        y,
-        x,
-        w=None,
-        slx_lags=0,
-        slx_vars = "All",
-        optim="newton",
-        bstart=False,
-        scalem="phimean",
-        predflag = False,
-        maxiter=100,
-        vm=False,
-        name_y=None,
-        name_x=None,
-        name_w=None,
-        name_ds=None,
-        spat_diag=False,
-        latex=False,
-    ):
-
-        n = USER.check_arrays(y, x)
-        y, name_y = USER.check_y(y, n, name_y)
-        x_constant, name_x, warn = USER.check_constant(x, name_x)
-        set_warn(self, warn)
-        self.name_x = USER.set_name_x(name_x, x_constant)
-
-        w_required=False
-        if spat_diag:
-            w_required=True
-        w = USER.check_weights(w, y, w_required=w_required, slx_lags=slx_lags)
-
-        if slx_lags > 0:
-            x_constant,self.name_x = USER.flex_wx(w,x=x_constant,name_x=self.name_x,constant=True,
-                                            slx_lags=slx_lags,slx_vars=slx_vars)            
-
-        BaseProbit.__init__(
-            self, y=y, x=x_constant, optim=optim, bstart=bstart, maxiter=maxiter
-        )
-        self.title = "CLASSIC PROBIT ESTIMATOR"
-        if slx_lags > 0:
-           self.title += " WITH SPATIALLY LAGGED X (SLX)"        
-        self.slx_lags = slx_lags
-        self.name_ds = USER.set_name_ds(name_ds)
-        self.name_y = USER.set_name_y(name_y)
-        self.name_w = USER.set_name_w(name_w, w)
-
-        self.scalem = scalem
-        self.predflag = predflag  # flag to print prediction table
-        self.w = w   # note, not sparse
-
-        # standard errors and z, p-values
-        self.std_err = DIAGNOSTICS.se_betas(self)
-        self.z_stat = DIAGNOSTICS.t_stat(self,z_stat=True)
-
-        # truepos, trueneg, predpc - measures of fit
-        self.predtable = PROBDIAG.pred_table(self)
-        self.fit = PROBDIAG.probit_fit(self)
-        self.predpc = self.fit["PREDPC"]
-        self.LRtest = PROBDIAG.probit_lrtest(self)
-        self.L0 = self.LRtest["L0"]
-        self.LR = (self.LRtest["likr"],self.LRtest["p-value"])
-        self.mcfadrho = PROBDIAG.mcfad_rho(self)
-
-        # impact measures
-        scale,slopes,slopes_vm,slopes_std_err,slopes_z_stat = PROBDIAG.probit_ape(self)
-        self.scale = scale
-        self.slopes = slopes
-        self.slopes_vm = slopes_vm
-        self.slopes_std_err = slopes_std_err
-        self.slopes_z_stat = slopes_z_stat
-
-        # tests for spatial autocorrelation
-        if spat_diag:
-            self.Pinkse_error,self.KP_error,self.PS_error = PROBDIAG.sp_tests(regprob=self)
-
-        #output
-        self.output = pd.DataFrame(self.name_x, columns=['var_names'])
-        self.output['var_type'] = ['o'] + ['x'] * (len(self.name_x)-1)
-        self.output['regime'], self.output['equation'] = (0, 0)
-        self.other_top, self.other_mid, other_end = _probit_out(reg=self, spat_diag=spat_diag)
-        output(reg=self, vm=vm, robust=None, other_end=other_end, latex=latex)
-
-
-def newton(flogl, start, fgrad, fhess, maxiter):
-
-    """
-    Calculates the Newton-Raphson method
-
-    Parameters
-    ----------
-
-    flogl       : lambda
-                  Function to calculate the log-likelihood
-    start       : array
-                  kx1 array of starting values
-    fgrad       : lambda
-                  Function to calculate the gradient
-    fhess       : lambda
-                  Function to calculate the hessian
-    maxiter     : int
-                  Maximum number of iterations until optimizer stops
-    """
-    warn = 0
-    iteration = 0
-    par_hat0 = start
-    m = 1
-    while iteration < maxiter and m >= 1e-04:
-        H = -la.inv(fhess(par_hat0))
-        g = fgrad(par_hat0).reshape(start.shape)
-        Hg = np.dot(H, g)
-        par_hat0 = par_hat0 + Hg
-        iteration += 1
-        m = np.dot(g.T, Hg)
-    if iteration == maxiter:
-        warn = 1
-    logl = flogl(par_hat0)
-    return (par_hat0, logl, warn)
-
-
-def _test():
-    import doctest
-    start_suppress = np.get_printoptions()["suppress"]
-    np.set_printoptions(suppress=True)
-    doctest.testmod()
-    np.set_printoptions(suppress=start_suppress)
-
-if __name__ == "__main__":
-    _test()
-    import numpy as np
-    import libpysal
-
-    dbf = libpysal.io.open(libpysal.examples.get_path("columbus.dbf"), "r")
-    y = np.array([dbf.by_col("CRIME")]).T
-    var_x = ["INC", "HOVAL"]
-    x = np.array([dbf.by_col(name) for name in var_x]).T
-    w = libpysal.io.open(libpysal.examples.get_path("columbus.gal"), "r").read()
-    w.transform = "r"
-    probit1 = Probit(
-        (y > 40).astype(float),
-        x,
-        w=w,
-        name_x=var_x,
-        name_y="CRIME",
-        name_ds="Columbus",
-        name_w="columbus.dbf",
-    )
-    print(probit1.summary)
-
+"""Probit regression class and diagnostics."""
+
+__author__ = "Luc Anselin lanselin@gmail.com, Pedro V. Amaral pedrovma@gmail.com"
+
+import numpy as np
+import numpy.linalg as la
+import scipy.optimize as op
+import pandas as pd
+from scipy.stats import norm, chi2
+from libpysal import weights
+chisqprob = chi2.sf
+import scipy.sparse as SP
+from . import user_output as USER
+from . import diagnostics as DIAGNOSTICS  
+from . import diagnostics_probit as PROBDIAG   
+from .output import output, _probit_out
+from .utils import spdot, spbroadcast, set_warn
+
+__all__ = ["Probit"]
+
+class BaseProbit():
+    """
+    Probit class to do the core estimation
+
+    Parameters
+    ----------
+
+    x           : array
+                  nxk array of independent variables (assumed to be aligned with y)
+    y           : array
+                  nx1 array of dependent binary variable
+    optim       : string
+                  Optimization method.
+                  Default: 'newton' (Newton-Raphson).
+                  Alternatives: 'ncg' (Newton-CG), 'bfgs' (BFGS algorithm)
+    bstart      : list with starting values for betas
+    maxiter     : int
+                  Maximum number of iterations until optimizer stops
+
+    Attributes
+    ----------
+    x           : array
+                  Two dimensional array with n rows and one column for each
+                  independent (exogenous) variable, including the constant
+    xmean       : array
+                  kx1 vector with means of explanatory variables
+                  (for use in slopes)
+    y           : array
+                  nx1 array of dependent variable
+    optim       : string
+                  optimization method
+    maxiter     : int
+                  maximum number of iterations
+    q           : array
+                  nx1 array of transformed dependent variable 2*y - 1
+    betas       : array
+                  kx1 array with estimated coefficients
+    bstart      : list with starting values
+    predy       : array
+                  nx1 array of predicted y values (probabilities)
+    n           : int
+                  Number of observations
+    k           : int
+                  Number of variables
+    vm          : array
+                  Variance-covariance matrix (kxk)
+    logl        : float
+                  Log-Likelihhod of the estimation
+    xb          : predicted value of linear index
+                  nx1 array
+    predybin    : predicted value as binary
+                  =1 for predy > 0.5
+    phiy        : normal density at xb (phi function)
+                  nx1 array
+    u_naive     : naive residuals y - predy
+                  nx1 array
+    u_gen       : generalized residuals
+                  nx1 array
+    warning     : boolean
+                  if True Maximum number of iterations exceeded or gradient
+                  and/or function calls not changing.
+
+    Examples - needs updating
+    --------
+    >>> import numpy as np
+    >>> import libpysal
+    >>> import spreg
+    >>> np.set_printoptions(suppress=True) #prevent scientific format
+    >>> dbf = libpysal.io.open(libpysal.examples.get_path('columbus.dbf'),'r')
+    >>> y = np.array([dbf.by_col('CRIME')]).T
+    >>> x = np.array([dbf.by_col('INC'), dbf.by_col('HOVAL')]).T
+    >>> x = np.hstack((np.ones(y.shape),x))
+    >>> model = spreg.probit.BaseProbit((y>40).astype(float), x)
+    >>> print(np.around(model.betas, decimals=6))
+    [[ 3.353811]
+     [-0.199653]
+     [-0.029514]]
+
+    >>> print(np.around(model.vm, decimals=6))
+    [[ 0.852814 -0.043627 -0.008052]
+     [-0.043627  0.004114 -0.000193]
+     [-0.008052 -0.000193  0.00031 ]]
+
+    """
+
+    def __init__(self, y, x, optim="newton",bstart=False,maxiter=100):
+        self.y = y
+        self.q = 2* self.y - 1
+        self.x = x
+        self.xmean =  np.mean(self.x,axis=0).reshape(-1,1)
+        self.n, self.k = x.shape
+        self.optim = optim
+        self.bstart = bstart
+        self.maxiter = maxiter
+
+        par_est, self.warning = self.par_est()
+        self.betas = par_est[0].reshape(-1,1)
+
+        self.logl = -par_est[1].item()
+        H = self.hessian(self.betas)
+        self.vm = - la.inv(H)
+
+        # predicted values
+        self.xb = self.x @ self.betas
+        self.predy = norm.cdf(self.xb)
+        self.predybin = (self.predy > 0.5) * 1
+        self.phiy = norm.pdf(self.xb)
+        
+        # residuals
+        self.u_naive = self.y - self.predy
+        Phi_prod = self.predy * (1.0 - self.predy)
+        self.u_gen = self.phiy * (self.u_naive / Phi_prod)
+
+
+    def par_est(self):
+
+        if self.bstart:
+            if len(self.bstart) != self.k:
+                raise Exception("Incompatible number of parameters in starting values")
+            else:
+                start = np.array(self.bstart).reshape(-1,1)
+        else:
+            xtx = self.x.T @ self.x
+            xty = self.x.T @ self.y
+            start = la.solve(xtx,xty)
+
+        flogl = lambda par: -self.ll(par)
+
+        if self.optim == "newton":
+            fgrad = lambda par: self.gradient(par)
+            fhess = lambda par: self.hessian(par)
+            par_hat = newton(flogl, start, fgrad, fhess, self.maxiter)
+            warn = par_hat[2]
+        else:
+            fgrad = lambda par: -self.gradient(par)
+            if self.optim == "bfgs":
+                par_hat = op.fmin_bfgs(flogl, start, fgrad, full_output=1, disp=0)
+                warn = par_hat[6]
+            if self.optim == "ncg":
+                fhess = lambda par: -self.hessian(par)
+                par_hat = op.fmin_ncg(
+                    flogl, start, fgrad, fhess=fhess, full_output=1, disp=0
+                )
+                warn = par_hat[5]
+        if warn > 0:
+            warn = True
+        else:
+            warn = False
+        return par_hat, warn
+
+    def ll(self, par):
+        beta = np.reshape(np.array(par), (self.k, 1))
+        q = 2 * self.y - 1
+        qxb = q * spdot(self.x, beta)
+        ll = sum(np.log(norm.cdf(qxb)))
+        return ll
+
+    def gradient(self, par):
+        beta = np.reshape(np.array(par), (self.k, 1))
+        q = 2 * self.y - 1
+        qxb = q * spdot(self.x, beta)
+        lamb = q * norm.pdf(qxb) / norm.cdf(qxb)
+        gradient = spdot(lamb.T, self.x)[0]
+        return gradient
+
+    def hessian(self, par):
+        beta = np.reshape(np.array(par), (self.k, 1))
+        q = 2 * self.y - 1
+        xb = spdot(self.x, beta)
+        qxb = q * xb
+        lamb = q * norm.pdf(qxb) / norm.cdf(qxb)
+        hessian = spdot(self.x.T, spbroadcast(self.x, -lamb * (lamb + xb)))
+        return hessian
+
+
+class Probit(BaseProbit):
+
+    """
+    Classic non-spatial Probit and spatial diagnostics. The class includes a
+    printout that formats all the results and tests in a nice format.
+
+    The diagnostics for spatial dependence currently implemented are:
+
+    * Pinkse Error :cite:`Pinkse2004`
+
+    * Kelejian and Prucha Moran's I :cite:`Kelejian2001`
+
+    * Pinkse & Slade Error :cite:`Pinkse1998`
+
+    Parameters
+    ----------
+
+    x           : numpy.ndarray or pandas object
+                  nxk array of independent variables (assumed to be aligned with y)
+    y           : numpy.ndarray or pandas.Series
+                  nx1 array of dependent binary variable
+    w           : W
+                  PySAL weights instance aligned with y
+    slx_lags    : integer
+                  Number of spatial lags of X to include in the model specification.
+                  If slx_lags>0, the specification becomes of the SLX type.
+    slx_vars    : variables to be lagged when slx_lags > 0
+                  default = "All", otherwise a list with Booleans indicating which
+                  variables must be lagged (True) or not (False)
+    optim       : string
+                  Optimization method.
+                  Default: 'newton' (Newton-Raphson).
+                  Alternatives: 'ncg' (Newton-CG), 'bfgs' (BFGS algorithm)
+    bstart      : list
+                  list with starting values for betas, default = False
+    scalem      : string
+                  Method to calculate the scale of the marginal effects.
+                  Default: 'phimean' (Mean of individual marginal effects)
+                  Alternative: 'xmean' (Marginal effects at variables mean)
+    predflag    : flag to print prediction table
+    maxiter     : int
+                  Maximum number of iterations until optimizer stops
+    name_y       : string
+                   Name of dependent variable for use in output
+    name_x       : list of strings
+                   Names of independent variables for use in output
+    name_w       : string
+                   Name of weights matrix for use in output
+    name_ds      : string
+                   Name of dataset for use in output
+
+    Attributes 
+    ----------
+
+    x           : array
+                  Two dimensional array with n rows and one column for each
+                  independent (exogenous) variable, including the constant
+    xmean       : array
+                  kx1 vector with means of explanatory variables
+                  (for use in slopes)
+    y           : array
+                  nx1 array of dependent variable
+    w           : spatial weights object
+    optim       : string
+                  optimization method
+    predflag    : flag to print prediction table (predtable)
+    maxiter     : int
+                  maximum number of iterations
+    q           : array
+                  nx1 array of transformed dependent variable 2*y - 1
+    betas       : array
+                  kx1 array with estimated coefficients
+    bstart      : list with starting values for betas or False
+    predy       : array
+                  nx1 array of predicted y values (probabilities)
+    n           : int
+                  Number of observations
+    k           : int
+                  Number of variables
+    vm          : array
+                  Variance-covariance matrix (kxk)
+    logl        : float
+                  Log-Likelihhod of the estimation
+    xb          : predicted value of linear index
+                  nx1 array
+    predybin    : predicted value as binary
+                  =1 for predy > 0.5
+    phiy        : normal density at xb (phi function)
+                  nx1 array
+    u_naive     : naive residuals y - predy
+                  nx1 array
+    u_gen       : generalized residuals
+                  nx1 array
+    warning     : boolean
+                  if True Maximum number of iterations exceeded or gradient
+                  and/or function calls not changing.
+    std_err     : standard errors of estimates
+    z_stat      : list of tuples
+                  z statistic; each tuple contains the pair (statistic,
+                  p-value), where each is a float
+    predtable   : dictionary
+                  includes margins and cells of actual and predicted
+                  values for discrete choice model
+    fit         : a dictionary containing various measures of fit
+                  TPR    : true positive rate (sensitivity, recall, hit rate)
+                  TNR    : true negative rate (specificity, selectivity)
+                  PREDPC : accuracy, percent correctly predicted
+                  BA     : balanced accuracy
+    predpc      : float
+                  Percent of y correctly predicted (legacy)
+    LRtest      : dictionary
+                   contains the statistic for the null model (L0), the LR test(likr), 
+                   the degrees of freedom (df) and the p-value (pvalue)
+    L0          : likelihood of null model
+    LR          : tuple (legacy)
+                  Likelihood Ratio test of all coefficients = 0
+                  (test statistics, p-value)
+    mcfadrho    : McFadden rho statistics of fit
+    scale       : float
+                  Scale of the marginal effects.
+    slopes      : array
+                  Marginal effects of the independent variables (k-1x1)
+    slopes_vm   : array
+                  Variance-covariance matrix of the slopes (k-1xk-1)
+    slopes_std_err : estimates of standard errors of marginal effects
+    slopes_z_stat  : tuple with z-statistics and p-values for marginal effects
+    Pinkse_error: array with statistic and p-value
+                  Lagrange Multiplier test against spatial error correlation.
+                  Implemented as presented in :cite:`Pinkse2004`
+    KP_error    : array with statistic and p-value
+                  Moran's I type test against spatial error correlation.
+                  Implemented as presented in :cite:`Kelejian2001`
+    PS_error    : array with statistic and p-value
+                  Lagrange Multiplier test against spatial error correlation.
+                  Implemented as presented in :cite:`Pinkse1998`
+    name_y       : string
+                   Name of dependent variable for use in output
+    name_x       : list of strings
+                   Names of independent variables for use in output
+    name_w       : string
+                   Name of weights matrix for use in output
+    name_ds      : string
+                   Name of dataset for use in output
+    title        : string
+                   Name of the regression method used
+
+    Examples
+    --------
+
+    We first need to import the needed modules, namely numpy to convert the
+    data we read into arrays that ``spreg`` understands and ``libpysal`` to
+    perform all the analysis.
+
+    >>> import numpy as np
+    >>> import libpysal
+    >>> np.set_printoptions(suppress=True) #prevent scientific format
+
+    Open data on Columbus neighborhood crime (49 areas) using libpysal.io.open().
+    This is the DBF associated with the Columbus shapefile.  Note that
+    libpysal.io.open() also reads data in CSV format; since the actual class
+    requires data to be passed in as numpy arrays, the user can read their
+    data in using any method.
+
+    >>> dbf = libpysal.io.open(libpysal.examples.get_path('columbus.dbf'),'r')
+
+    Extract the CRIME column (crime) from the DBF file and make it the
+    dependent variable for the regression. Note that libpysal requires this to be
+    an numpy array of shape (n, 1) as opposed to the also common shape of (n, )
+    that other packages accept. Since we want to run a probit model and for this
+    example we use the Columbus data, we also need to transform the continuous
+    CRIME variable into a binary variable. As in :cite:`McMillen1992`, we define
+    y = 1 if CRIME > 40.
+
+    >>> y = np.array([dbf.by_col('CRIME')]).T
+    >>> y = (y>40).astype(float)
+
+    Extract HOVAL (home values) and INC (income) vectors from the DBF to be used as
+    independent variables in the regression.  Note that libpysal requires this to
+    be an nxj numpy array, where j is the number of independent variables (not
+    including a constant). By default this class adds a vector of ones to the
+    independent variables passed in.
+
+    >>> names_to_extract = ['INC', 'HOVAL']
+    >>> x = np.array([dbf.by_col(name) for name in names_to_extract]).T
+
+    Since we want to the test the probit model for spatial dependence, we need to
+    specify the spatial weights matrix that includes the spatial configuration of
+    the observations into the error component of the model. To do that, we can open
+    an already existing gal file or create a new one. In this case, we will use
+    ``columbus.gal``, which contains contiguity relationships between the
+    observations in the Columbus dataset we are using throughout this example.
+    Note that, in order to read the file, not only to open it, we need to
+    append '.read()' at the end of the command.
+
+    >>> w = libpysal.io.open(libpysal.examples.get_path("columbus.gal"), 'r').read()
+
+    Unless there is a good reason not to do it, the weights have to be
+    row-standardized so every row of the matrix sums to one. In libpysal, this
+    can be easily performed in the following way:
+
+    >>> w.transform='r'
+
+    We are all set with the preliminaries, we are good to run the model. In this
+    case, we will need the variables and the weights matrix. If we want to
+    have the names of the variables printed in the output summary, we will
+    have to pass them in as well, although this is optional.
+
+    >>> from spreg import Probit
+    >>> model = Probit(y, x, w=w, name_y='crime', name_x=['income','home value'], name_ds='columbus', name_w='columbus.gal')
+
+    Once we have run the model, we can explore a little bit the output. The
+    regression object we have created has many attributes so take your time to
+    discover them.
+
+    >>> np.around(model.betas, decimals=6)
+    array([[ 3.353811],
+           [-0.199653],
+           [-0.029514]])
+
+    >>> np.around(model.vm, decimals=6)
+    array([[ 0.852814, -0.043627, -0.008052],
+           [-0.043627,  0.004114, -0.000193],
+           [-0.008052, -0.000193,  0.00031 ]])
+
+    Since we have provided a spatial weigths matrix, the diagnostics for
+    spatial dependence have also been computed. We can access them and their
+    p-values individually:
+
+    >>> tests = np.array([['Pinkse_error','KP_error','PS_error']])
+    >>> stats = np.array([[model.Pinkse_error[0],model.KP_error[0],model.PS_error[0]]])
+    >>> pvalue = np.array([[model.Pinkse_error[1],model.KP_error[1],model.PS_error[1]]])
+    >>> print(np.hstack((tests.T,np.around(np.hstack((stats.T,pvalue.T)),6))))
+    [['Pinkse_error' '3.131719' '0.076783']
+     ['KP_error' '1.721312' '0.085194']
+     ['PS_error' '2.558166' '0.109726']]
+
+    Or we can easily obtain a full summary of all the results nicely formatted and
+    ready to be printed simply by typing 'print model.summary'
+
+    """
+
+    def __init__(
+        self,
+        y,
+        x,
+        w=None,
+        slx_lags=0,
+        slx_vars = "All",
+        optim="newton",
+        bstart=False,
+        scalem="phimean",
+        predflag = False,
+        maxiter=100,
+        vm=False,
+        name_y=None,
+        name_x=None,
+        name_w=None,
+        name_ds=None,
+        spat_diag=False,
+        latex=False,
+    ):
+
+        n = USER.check_arrays(y, x)
+        y, name_y = USER.check_y(y, n, name_y)
+        x_constant, name_x, warn = USER.check_constant(x, name_x)
+        self.name_x = USER.set_name_x(name_x, x_constant)
+
+        w_required=False
+        if spat_diag:
+            w_required=True
+        w = USER.check_weights(w, y, w_required=w_required, slx_lags=slx_lags)
+
+        if slx_lags > 0:
+            x_constant,self.name_x = USER.flex_wx(w,x=x_constant,name_x=self.name_x,constant=True,
+                                            slx_lags=slx_lags,slx_vars=slx_vars)            
+
+        BaseProbit.__init__(
+            self, y=y, x=x_constant, optim=optim, bstart=bstart, maxiter=maxiter
+        )
+        set_warn(self, warn)  # BaseProbit resets self.warning
+        self.title = "CLASSIC PROBIT ESTIMATOR"
+        if slx_lags > 0:
+           self.title += " WITH SPATIALLY LAGGED X (SLX)"        
+        self.slx_lags = slx_lags
+        self.name_ds = USER.set_name_ds(name_ds)
+        self.name_y = USER.set_name_y(name_y)
+        self.name_w = USER.set_name_w(name_w, w)
+
+        self.scalem = scalem
+        self.predflag = predflag  # flag to print prediction table
+        self.w = w   # note, not sparse
+
+        # standard errors and z, p-values
+        self.std_err = DIAGNOSTICS.se_betas(self)
+        self.z_stat = DIAGNOSTICS.t_stat(self,z_stat=True)
+
+        # truepos, trueneg, predpc - measures of fit
+        self.predtable = PROBDIAG.pred_table(self)
+        self.fit = PROBDIAG.probit_fit(self)
+        self.predpc = self.fit["PREDPC"]
+        self.LRtest = PROBDIAG.probit_lrtest(self)
+        self.L0 = self.LRtest["L0"]
+        self.LR = (self.LRtest["likr"],self.LRtest["p-value"])
+        self.mcfadrho = PROBDIAG.mcfad_rho(self)
+
+        # impact measures
+        scale,slopes,slopes_vm,slopes_std_err,slopes_z_stat = PROBDIAG.probit_ape(self)
+        self.scale = scale
+        self.slopes = slopes
+        self.slopes_vm = slopes_vm
+        self.slopes_std_err = slopes_std_err
+        self.slopes_z_stat = slopes_z_stat
+
+        # tests for spatial autocorrelation
+        if spat_diag:
+            self.Pinkse_error,self.KP_error,self.PS_error = PROBDIAG.sp_tests(regprob=self)
+
+        #output
+        self.output = pd.DataFrame(self.name_x, columns=['var_names'])
+        self.output['var_type'] = ['o'] + ['x'] * (len(self.name_x)-1)
+        self.output['regime'], self.output['equation'] = (0, 0)
+        self.other_top, self.other_mid, other_end = _probit_out(reg=self, spat_diag=spat_diag)
+        output(reg=self, vm=vm, robust=None, other_end=other_end, latex=latex)
+
+
+def newton(flogl, start, fgrad, fhess, maxiter):
+
+    """
+    Calculates the Newton-Raphson method
+
+    Parameters
+    ----------
+
+    flogl       : lambda
+                  Function to calculate the log-likelihood
+    start       : array
+                  kx1 array of starting values
+    fgrad       : lambda
+                  Function to calculate the gradient
+    fhess       : lambda
+                  Function to calculate the hessian
+    maxiter     : int
+                  Maximum number of iterations until optimizer stops
+    """
+    warn = 0
+    iteration = 0
+    par_hat0 = start
+    m = 1
+    while iteration < maxiter and m >= 1e-04:
+        H = -la.inv(fhess(par_hat0))
+        g = fgrad(par_hat0).reshape(start.shape)
+        Hg = np.dot(H, g)
+        par_hat0 = par_hat0 + Hg
+        iteration += 1
+        m = np.dot(g.T, Hg)
+    if iteration == maxiter:
+        warn = 1
+    logl = flogl(par_hat0)
+    return (par_hat0, logl, warn)
+
+
+def _test():
+    import doctest
+    start_suppress = np.get_printoptions()["suppress"]
+    np.set_printoptions(suppress=True)
+    doctest.testmod()
+    np.set_printoptions(suppress=start_suppress)
+
+if __name__ == "__main__":
+    _test()
+    import numpy as np
+    import libpysal
+
+    dbf = libpysal.io.open(libpysal.examples.get_path("columbus.dbf"), "r")
+    y = np.array([dbf.by_col("CRIME")]).T
+    var_x = ["INC", "HOVAL"]
+    x = np.array([dbf.by_col(name) for name in var_x]).T
+    w = libpysal.io.open(libpysal.examples.get_path("columbus.gal"), "r").read()
+    w.transform = "r"
+    probit1 = Probit(
+        (y > 40).astype(float),
+        x,
+        w=w,
+        name_x=var_x,
+        name_y="CRIME",
+        name_ds="Columbus",
+        name_w="columbus.dbf",
+    )
+    print(probit1.summary)
+
-- 
2.43.0


From 98c844f4a9fd831e224a10affb52c9e0c09dde89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:18 +0000
Subject: [PATCH 046/107] fix: panel models failed (or mixed the periods of the
 variables up) in wide format when a variable, or a variable in one period, is
 constant

---
 spreg/panel_fe.py    |  8 ++++----
 spreg/panel_utils.py | 13 +++++++------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/spreg/panel_fe.py b/spreg/panel_fe.py
index 703d351..f4e4fb1 100755
--- a/spreg/panel_fe.py
+++ b/spreg/panel_fe.py
@@ -333,9 +333,9 @@ class Panel_FE_Lag(BasePanel_FE_Lag):
     ):
         set_warn(self, "This function is deprecated and was superseded by spreg.ML_LagFE in panel.py")
         n_rows = USER.check_arrays(y, x)
-        x_constant, name_x, warn = USER.check_constant(x, name_x, just_rem=True)
+        bigy, bigx, name_y, name_x, T, warn = check_panel(y, x, w, name_y, name_x)
         set_warn(self, warn)
-        bigy, bigx, name_y, name_x, T, warn = check_panel(y, x_constant, w, name_y, name_x)
+        bigx, name_x, warn = USER.check_constant(bigx, name_x, just_rem=True)
         set_warn(self, warn)
         w = USER.check_weights(w, bigy, w_required=True, time=True)
 
@@ -623,9 +623,9 @@ class Panel_FE_Error(BasePanel_FE_Error):
     ):
         set_warn(self, "This function is deprecated and was superseded by spreg.ML_ErrorFE in panel.py")
         n_rows = USER.check_arrays(y, x)
-        x_constant, name_x, warn = USER.check_constant(x, name_x, True)
+        bigy, bigx, name_y, name_x, T, warn = check_panel(y, x, w, name_y, name_x)
         set_warn(self, warn)
-        bigy, bigx, name_y, name_x, T, warn = check_panel(y, x_constant, w, name_y, name_x)
+        bigx, name_x, warn = USER.check_constant(bigx, name_x, just_rem=True)
         set_warn(self, warn)
         w = USER.check_weights(w, bigy, w_required=True, time=True)
 
diff --git a/spreg/panel_utils.py b/spreg/panel_utils.py
index e4bbb47..aebdfb4 100755
--- a/spreg/panel_utils.py
+++ b/spreg/panel_utils.py
@@ -21,13 +21,12 @@ def prepare_panel(y, x, w, name_y, name_x, slx_lags, slx_vars, title, add_consta
     """
     warn = []
     n_rows = USER.check_arrays(y, x)
-    x_constant, name_x, warn_add = USER.check_constant(x, name_x, just_rem=True)
+    bigy, bigx, name_y, name_x, T, warn_add = check_panel(y, x, w, name_y, name_x)
     warn.append(warn_add)
-    bigy, bigx, name_y, name_x, T, warn_add = check_panel(y, x_constant, w, name_y, name_x)
+    # constants are removed after the conversion to long format: in wide format each
+    # variable takes one column per period
+    bigx, name_x, warn_add = USER.check_constant(bigx, name_x, just_rem=not add_constant)
     warn.append(warn_add)
-    if add_constant:
-        bigx, name_x, warn_add = USER.check_constant(bigx, name_x)
-        warn.append(warn_add)
     name_x = USER.set_name_x(name_x, bigx, constant=not add_constant)
     name_y = USER.set_name_y(name_y)
 
@@ -72,8 +71,10 @@ def check_panel(y, x, w, name_y, name_x):
             try:
                 name_x = x.columns.to_list()
             except AttributeError:
-                name_x = x.name
+                name_x = [x.name]
         x = x.to_numpy()
+    if x.ndim == 1:
+        x = x.reshape(-1, 1)
 
     # Check if 'y' is a balanced panel with respect to 'W'
     if y.shape[0] / w.n != y.shape[0] // w.n:
-- 
2.43.0


From 9bcb98dce10721c2672ab2771860172dcfc8516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:40 +0000
Subject: [PATCH 047/107] fix: sur_dictxy/sur_dictZ failed with data in
 space-time long format (dict.has_key)

---
 spreg/sur_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spreg/sur_utils.py b/spreg/sur_utils.py
index 3041e41..0457234 100644
--- a/spreg/sur_utils.py
+++ b/spreg/sur_utils.py
@@ -121,11 +121,11 @@ def sur_dictxy(db, y_vars, x_vars, space_id=None, time_id=None):
         for i in range(bign):
             sval = ss[i][0]  # e.g. FIPSNO 27077
             tval = tt[i][0]  # e.g. TIME 1960
-            if tmpy.has_key(tval):
+            if tval in tmpy:
                 tmpy[tval][sval] = y[i]
-            if tmpX.has_key(tval):
+            if tval in tmpX:
                 tmpX[tval][sval] = longxc[i]
-            if not sdict.has_key(sval):
+            if sval not in sdict:
                 skeys.append(sval)
                 sdict[sval] = True
 
@@ -226,9 +226,9 @@ def sur_dictZ(db, z_vars, form="spreg", const=False, space_id=None, time_id=None
         for i in range(bign):
             sval = ss[i][0]  # e.g. 27077
             tval = tt[i][0]  # e.g. 1960
-            if tmpz.has_key(tval):
+            if tval in tmpz:
                 tmpz[tval][sval] = longz[i]
-            if not sdict.has_key(sval):
+            if sval not in sdict:
                 skeys.append(sval)
                 sdict[sval] = True
 
-- 
2.43.0


From 3a2744c7cb2917ba231db58633ec74fd6e55193f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:30 +0000
Subject: [PATCH 048/107] fix: ML_Error_Regimes refused one-dimensional x
 (arrays and pandas Series)

---
 spreg/ml_error_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/ml_error_regimes.py b/spreg/ml_error_regimes.py
index 6272e24..7d01f56 100644
--- a/spreg/ml_error_regimes.py
+++ b/spreg/ml_error_regimes.py
@@ -331,7 +331,7 @@ class ML_Error_Regimes(BaseML_Error, REGI.Regimes_Frame):
         self.cols2regi = cols2regi[1:]
         self.regimes_set = REGI._get_regimes_set(regimes)
         self.regimes = regimes
-        USER.check_regimes(self.regimes_set, self.n, x.shape[1])
+        USER.check_regimes(self.regimes_set, self.n, x_constant.shape[1])
         self.regime_err_sep = regime_err_sep
 
         if regime_err_sep == True:
-- 
2.43.0


From 8a8c6b8b438084762865201dba6254f320b602ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:30 +0000
Subject: [PATCH 049/107] fix: PanelFE truncated the within-transformed
 regressors when x holds integers

---
 spreg/panel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index 1822e30..e6dea16 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -357,7 +357,7 @@ class PanelFE(RegressionPropsY, RegressionPropsVM):
         
         dem_y = bigy - np.tile(y_mean, T).reshape(-1, 1)
         
-        dem_x = np.zeros_like(bigx)
+        dem_x = np.zeros(bigx.shape)
         for i in range(self.k):
             col_mean = x_mean[:, i] 
             col_vals = bigx[:, i] 
-- 
2.43.0


From aa6bbae834e4c36478dddc5779698aeccca0f64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:30 +0000
Subject: [PATCH 050/107] fix: panel models failed when long-format y is
 one-dimensional (array or pandas Series)

---
 spreg/panel_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/panel_utils.py b/spreg/panel_utils.py
index aebdfb4..e5780d4 100755
--- a/spreg/panel_utils.py
+++ b/spreg/panel_utils.py
@@ -76,6 +76,8 @@ def check_panel(y, x, w, name_y, name_x):
     if x.ndim == 1:
         x = x.reshape(-1, 1)
 
+    if y.ndim == 1:
+        y = y.reshape(-1, 1)
     # Check if 'y' is a balanced panel with respect to 'W'
     if y.shape[0] / w.n != y.shape[0] // w.n:
         raise Exception("y must be ntx1 or nxt, and w must be an nxn PySAL W" "object.")
-- 
2.43.0


From f740df1d32790e3ce4395137098f2aa568c1d45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:13 +0000
Subject: [PATCH 051/107] fix: ML_ErrorPooled ignored the name of a pandas
 dependent variable

---
 spreg/panel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index e6dea16..eeb5095 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -1054,7 +1054,7 @@ class ML_ErrorPooled(BaseML_ErrorPooled):
         BaseML_ErrorPooled.__init__(self, bigy, bigx, w, method=method, epsilon=epsilon)
         
         self.name_ds = USER.set_name_ds(name_ds)
-        self.name_y = USER.set_name_y(name_y)
+        self.name_y = USER.set_name_y(self.name_y)
         self.slx_lags = slx_lags
         self.name_w = USER.set_name_w(name_w, w)
         
-- 
2.43.0


From 3aa3e6b69469d2d78f4e0d65693fe5ee0446a18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:07 +0000
Subject: [PATCH 052/107] fix: panel models accepted boolean y and wide-format
 y with a number of rows different from w.n

---
 spreg/panel_utils.py | 3 +++
 spreg/sp_panels.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/spreg/panel_utils.py b/spreg/panel_utils.py
index e5780d4..82abe40 100755
--- a/spreg/panel_utils.py
+++ b/spreg/panel_utils.py
@@ -81,8 +81,11 @@ def check_panel(y, x, w, name_y, name_x):
     # Check if 'y' is a balanced panel with respect to 'W'
     if y.shape[0] / w.n != y.shape[0] // w.n:
         raise Exception("y must be ntx1 or nxt, and w must be an nxn PySAL W" "object.")
+    USER.check_numeric_bool(y)
     # Wide format
     if y.shape[1] > 1:
+        if y.shape[0] != w.n:
+            raise Exception("y in wide format must have n rows, and w must be an nxn PySAL W object.")
         warn = (
             "Assuming panel is in wide format.\n"
             "y[:, 0] refers to T0, y[:, 1] refers to T1, etc.\n"
diff --git a/spreg/sp_panels.py b/spreg/sp_panels.py
index 7a27a5e..a17ed8a 100755
--- a/spreg/sp_panels.py
+++ b/spreg/sp_panels.py
@@ -511,7 +511,10 @@ def _get_panel_data(y, x, w, name_y, name_x):
 
     if y.shape[0] / w.n != y.shape[0] // w.n:
         raise Exception("y must be ntx1 or nxt, and w must be an nxn PySAL W object.")
+    USER.check_numeric_bool(y)
     N, T = y.shape[0], y.shape[1]
+    if T > 1 and N != w.n:
+        raise Exception("y in wide format must have n rows, and w must be an nxn PySAL W object.")
     k = x.shape[1] // T
     if x.shape[0] != N and x.shape[0] != N * T:
         raise Exception(
-- 
2.43.0


From 13e923d6a5794eaef16318e255fb61b0d18a9c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:25 +0000
Subject: [PATCH 053/107] fix: TSLS_Regimes did not check the lengths of yend
 and q

---
 spreg/twosls_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 60fe78c..152c0ff 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -342,7 +342,7 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
         latex=False,
     ):
 
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         USER.check_robust(robust, gwk)
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
-- 
2.43.0


From cfd1f28094bbb5a70a143c6cbd6ba8007d37e692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:25 +0000
Subject: [PATCH 054/107] fix: PooledOLS ignored an unknown robust and gave
 White variances for hac

---
 spreg/panel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spreg/panel.py b/spreg/panel.py
index eeb5095..4593f8b 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -182,6 +182,7 @@ class PooledOLS(BaseOLS, RegressionPropsY, RegressionPropsVM):
         
         self.k = bigx.shape[1]
         
+        USER.check_robust(robust, None)
         BaseOLS.__init__(self, bigy, bigx, robust=robust, sig2n_k=True)
 
         self.name_ds = USER.set_name_ds(name_ds)
-- 
2.43.0


From 8042264eb7dc3e51a4728a160264bd17fa7934aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:32 +0000
Subject: [PATCH 055/107] fix: the SUR estimators accepted non-finite, boolean
 or text data, unequal numbers of observations and invalid weights

---
 spreg/sur.py       |  6 ++++++
 spreg/sur_error.py |  9 ++++++++-
 spreg/sur_lag.py   |  4 +++-
 spreg/sur_utils.py | 28 ++++++++++++++++++++++++++++
 4 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/spreg/sur.py b/spreg/sur.py
index e982ff5..84fc15b 100755
--- a/spreg/sur.py
+++ b/spreg/sur.py
@@ -20,6 +20,7 @@ from .sur_utils import (
     sur_resids,
     sur_predict,
     check_k,
+    sur_check,
 )
 from .diagnostics_sur import (
     sur_setp,
@@ -427,6 +428,9 @@ class SUR(BaseSUR, REGI.Regimes_Frame):
             else:
                 raise Exception("Error: bigy and bigX must be both lists or both dictionaries")
 
+        sur_check(bigy, bigX)
+        w = USER.check_weights(w, bigy[0], w_required=False)
+
         self.name_ds = USER.set_name_ds(name_ds)
         self.name_w = USER.set_name_w(name_w, w)
         self.n_eq = len(bigy.keys())
@@ -828,6 +832,8 @@ class ThreeSLS(BaseThreeSLS, REGI.Regimes_Frame):
             else:
                 raise Exception("Error: bigy, bigX, bigyend and bigq must be all lists or all dictionaries")
 
+        sur_check(bigy, bigX, bigyend, bigq)
+
         self.name_ds = USER.set_name_ds(name_ds)
         self.n_eq = len(bigy.keys())
 
diff --git a/spreg/sur_error.py b/spreg/sur_error.py
index 193e6c8..3680ab2 100644
--- a/spreg/sur_error.py
+++ b/spreg/sur_error.py
@@ -29,6 +29,7 @@ from .sur_utils import (
     sur_resids,
     filter_dict,
     check_k,
+    sur_check,
 )
 from .sur import BaseSUR, _sur_ols
 from .diagnostics_sur import sur_setp, lam_setp, sur_chow
@@ -327,6 +328,9 @@ class SURerrorGM(BaseSURerrorGM, REGI.Regimes_Frame):
             else:
                 raise Exception("Error: bigy and bigX must be both lists or both dictionaries")
 
+        sur_check(bigy, bigX)
+        w = USER.check_weights(w, bigy[0], w_required=True)
+
         # check on variable names for listing results
         self.name_ds = USER.set_name_ds(name_ds)
         self.name_w = USER.set_name_w(name_w, w)
@@ -774,7 +778,10 @@ class SURerrorML(BaseSURerrorML, REGI.Regimes_Frame):
                     raise Exception("Error: bigy and bigX must have the same number of elements")
             else:
                 raise Exception("Error: bigy and bigX must be both lists or both dictionaries")
-            
+
+        sur_check(bigy, bigX)
+        w = USER.check_weights(w, bigy[0], w_required=True)
+
         # check on variable names for listing results
         self.name_ds = USER.set_name_ds(name_ds)
         self.name_w = USER.set_name_w(name_w, w)
diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index dd90c5a..57ce2a3 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -12,7 +12,7 @@ from . import user_output as USER
 from . import regimes as REGI
 from .sur import BaseThreeSLS
 from .diagnostics_sur import sur_setp, sur_chow, sur_joinrho
-from .sur_utils import check_k, sur_dictxy, sur_dictZ
+from .sur_utils import check_k, sur_check, sur_dictxy, sur_dictZ
 from .sputils import sphstack
 
 __all__ = ["SURlagIV"]
@@ -250,6 +250,8 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
         
         if w is None:
             raise Exception("Spatial weights required for SUR-Lag")
+        sur_check(bigy, bigX, bigyend, bigq)
+        w = USER.check_weights(w, bigy[0], w_required=True)
         self.w = w
         WS = w.sparse
         self.name_ds = USER.set_name_ds(name_ds)
diff --git a/spreg/sur_utils.py b/spreg/sur_utils.py
index 0457234..509b6dd 100644
--- a/spreg/sur_utils.py
+++ b/spreg/sur_utils.py
@@ -9,6 +9,7 @@ import numpy as np
 import numpy.linalg as la
 import pandas as pd
 from .utils import spdot
+from . import user_output as USER
 
 __all__ = [
     "sur_dictxy",
@@ -24,6 +25,33 @@ __all__ = [
 ]
 
 
+def sur_check(*bigs):
+    """
+    Checks that the data of all the equations in a SUR system are numeric (without NaN,
+    infinite or boolean elements) and have the same number of observations
+
+    Parameters
+    ----------
+    bigs       : dictionaries
+                 with one array per equation (e.g. bigy, bigX); None is ignored
+
+    Returns
+    -------
+    Returns : nothing
+              Nothing is returned
+    """
+    n = None
+    for big in bigs:
+        if big is None:
+            continue
+        for r in big:
+            USER.check_numeric_bool(np.asarray(big[r]))
+            if n is None:
+                n = big[r].shape[0]
+            if big[r].shape[0] != n:
+                raise Exception("all equations must have the same number of observations")
+
+
 def sur_dictxy(db, y_vars, x_vars, space_id=None, time_id=None):
     """
     Stack X and y matrices and variable names as dictionaries by equation
-- 
2.43.0


From 09c75404c01380cd5e150eccfe85beab2309eba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:54 +0000
Subject: [PATCH 056/107] fix: SUR ran one iteration more than maxiter

---
 spreg/sur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/sur.py b/spreg/sur.py
index 84fc15b..2a4ce0f 100755
--- a/spreg/sur.py
+++ b/spreg/sur.py
@@ -137,7 +137,7 @@ class BaseSUR:
         # self.niter = 0
         if iter:  # iterated FGLS aka ML
             n_iter = 0
-            while np.abs(det1 - det0) > epsilon and n_iter <= maxiter:
+            while np.abs(det1 - det0) > epsilon and n_iter < maxiter:
                 n_iter += 1
                 det0 = det1
                 self.bSUR, self.varb, self.sig = sur_est(
-- 
2.43.0


From 1c2559fdde72a3f991fc10055ff5d1948cb09323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:54 +0000
Subject: [PATCH 057/107] fix: joint test on the spatial coefficients of
 SURlagIV only covered the last regime with regime_lag_sep

---
 spreg/diagnostics_sur.py | 18 +++++++++++++-----
 spreg/sur_lag.py         | 12 +++++++++++-
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/spreg/diagnostics_sur.py b/spreg/diagnostics_sur.py
index eff8b7a..9fae640 100644
--- a/spreg/diagnostics_sur.py
+++ b/spreg/diagnostics_sur.py
@@ -308,7 +308,7 @@ def sur_chow(n_eq, bigK, bSUR, varb):
     return test
 
 
-def sur_joinrho(n_eq, bigK, bSUR, varb):
+def sur_joinrho(n_eq, bigK, bSUR, varb, nr=1, bigKyend=None):
     """
     Test on joint significance of spatial autoregressive coefficient in SUR
 
@@ -325,6 +325,12 @@ def sur_joinrho(n_eq, bigK, bSUR, varb):
                  the spatial autoregressive term as last
     varb       : array
                  variance-covariance matrix for regression coefficients
+    nr         : int
+                 number of regimes over which the spatial autoregressive
+                 coefficient varies (default 1)
+    bigKyend   : list
+                 number of endogenous variables by equation in each regime
+                 (includes the spatial lag); only used if nr > 1
 
     Returns
     -------
@@ -333,11 +339,13 @@ def sur_joinrho(n_eq, bigK, bSUR, varb):
 
     """
     bb = sur_dict2mat(bSUR)
-    R = np.zeros((n_eq, varb.shape[0]))
-    q = np.zeros((n_eq, 1))
+    R = np.zeros((n_eq * nr, varb.shape[0]))
+    q = np.zeros((n_eq * nr, 1))
     kc = -1
     for i in range(n_eq):
         kc = kc + bigK[i]
-        R[i, kc] = 1
+        for j in range(nr):
+            # the blocks of endogenous variables of the regimes come last
+            R[i * nr + j, kc - (j * bigKyend[i] if j > 0 else 0)] = 1
     w, p = wald_test(bb, R, q, varb)
-    return (w, n_eq, p)
+    return (w, n_eq * nr, p)
diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index 57ce2a3..c190de4 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -455,7 +455,17 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
 
         # test on joint significance of spatial coefficients
         if spat_diag:
-            self.joinrho = sur_joinrho(self.n_eq, self.bigK, self.b3SLS, self.varb)
+            if regimes is not None and regime_lag_sep == True:
+                self.joinrho = sur_joinrho(
+                    self.n_eq,
+                    self.bigK,
+                    self.b3SLS,
+                    self.varb,
+                    nr=len(self.regimes_set),
+                    bigKyend=[len(self.name_x_r[r]) - len(name_bigX[r]) for r in range(self.n_eq)],
+                )
+            else:
+                self.joinrho = sur_joinrho(self.n_eq, self.bigK, self.b3SLS, self.varb)
         else:
             self.joinrho = None
 
-- 
2.43.0


From fbe113ba44f607bade30a06c5d01fb67ae1d4bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:54 +0000
Subject: [PATCH 058/107] fix: SURerrorML with regimes did not estimate the
 equation by equation lambdas (errllik -inf, LR test inf)

---
 spreg/ml_error.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spreg/ml_error.py b/spreg/ml_error.py
index 253e77f..90df520 100755
--- a/spreg/ml_error.py
+++ b/spreg/ml_error.py
@@ -578,8 +578,8 @@ def err_c_loglik_sp(lam, n, y, ylag, x, xlag, I, Wsp):
 
     # 2. OLS residuals (using solve instead of inv)
     # Equivalent to: B = (X'X)^-1 X'y
-    xsxs = np.dot(xs.T, xs)
-    xsys = np.dot(xs.T, ys)
+    xsxs = spdot(xs.T, xs)
+    xsys = spdot(xs.T, ys)
     
     try:
         # Solves Ax = B for x. stable and faster than inv
@@ -588,7 +588,7 @@ def err_c_loglik_sp(lam, n, y, ylag, x, xlag, I, Wsp):
         return np.inf # Return infinity if singular to steer optimizer away
 
     # Calculate residuals
-    xb = np.dot(xs, betas)
+    xb = spdot(xs, betas)
     e = ys - xb
     
     # Calculate sigma^2
-- 
2.43.0


From 2dc67345dd2e2be339ffcf9433ae796b9de5fd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:00 +0000
Subject: [PATCH 059/107] fix: BSK_tests failed for the marginal tests of
 models other than PooledOLS and for LM2 without LM1 or LMJ

---
 spreg/diagnostics_panel.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spreg/diagnostics_panel.py b/spreg/diagnostics_panel.py
index 8222809..40dd0e4 100755
--- a/spreg/diagnostics_panel.py
+++ b/spreg/diagnostics_panel.py
@@ -273,16 +273,17 @@ def BSK_tests(reg, w, which="all", GM_BSK=False):
 
     if any(test in which for test in ["LMJ", "LM1", "LM2"]):
         if reg.__class__.__name__ != 'PooledOLS':
-            pooled_mod = PooledOLS(reg.y, reg.x)
+            pooled_mod = PooledOLS(reg.y, reg.x, w, spat_diag=False)
         else:
             pooled_mod = reg
 
+        u = pooled_mod.u
+        u_mat = u.reshape((T, N))
+        u_sq_sum = np.sum(u**2)
+
         if any(test in which for test in ["LMJ", "LM1"]):
             # G term (Random Effects) - Eq 2.11
-            u = pooled_mod.u 
-            u_mat = u.reshape((T, N))
             u_sum_sq = np.sum(np.sum(u_mat, axis=0)**2) 
-            u_sq_sum = np.sum(u**2)
             G = (u_sum_sq / u_sq_sum) - 1
 
             # LM1: Marginal RE (Eq 2.12)
-- 
2.43.0


From 91f5c7c744a71b0c6d3a066ba3bb06b72d28c0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:54 +0000
Subject: [PATCH 060/107] fix: ML_ErrorRE used non-orthogonal eigenvectors for
 symmetric weights with repeated eigenvalues

---
 spreg/panel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index 4593f8b..a5983fe 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -1942,7 +1942,11 @@ class BaseML_ErrorRE(RegressionPropsY, RegressionPropsVM):
             xlag[:, i] = (x_reshaped[:, :, i] @ Wsp.T).reshape(-1)
 
         I = np.identity(N)
-        evals, evecs = la.eig(W)
+        if np.array_equal(W, W.T):
+            # orthonormal eigenvectors also when eigenvalues are repeated
+            evals, evecs = la.eigh(W)
+        else:
+            evals, evecs = la.eig(W)
         
         y_mean_small = y_reshaped.mean(axis=0).reshape(N, 1)        
         x_mean_small = x_reshaped.mean(axis=0) # N x k
-- 
2.43.0


From f406e13b064028d823748077b2ee2bb5b4399196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:17 +0000
Subject: [PATCH 061/107] fix: LR test of probit against the constant-only
 model counted the constant in its degrees of freedom

---
 spreg/diagnostics_probit.py | 687 ++++++++++++++++++------------------
 1 file changed, 344 insertions(+), 343 deletions(-)

diff --git a/spreg/diagnostics_probit.py b/spreg/diagnostics_probit.py
index 40c3edd..bb236e2 100644
--- a/spreg/diagnostics_probit.py
+++ b/spreg/diagnostics_probit.py
@@ -1,343 +1,344 @@
-"""
-Diagnostics in probit regression. 
-        
-"""
-__author__ = (
-    "Luc Anselin lanselin@gmail.com, Pedro Amaral pedrovma@gmail.com "
-)
-
-from math import sqrt, pi
-
-from libpysal.common import MISSINGVALUE
-import numpy as np
-import numpy.linalg as la
-import scipy.sparse as SP
-from scipy import stats
-from scipy.stats import norm
-
-__all__ = [
-    "pred_table",
-    "probit_fit",
-    "probit_lrtest",
-    "mcfad_rho",
-    "probit_ape",
-    "sp_tests",
-    "moran_KP",
-]
-
-
-def pred_table(reg):
-    """
-    Calculates a table comparing predicted to actual outcomes for a 
-    discrete choice model
-
-    Parameters
-    ----------
-    reg             : regression object
-                      output instance from a probit regression model
-
-    Returns
-    ----------
-    predtab_vals    : dictionary
-                      includes margins and cells of actual and predicted
-                      values for discrete choice model
-                      actpos   : observed positives (=1)
-                      actneg   : observed negatives (=0)
-                      predpos  : predicted positives 
-                      predneg  : predicted negatives
-                      truepos  : predicted 1 when actual = 1
-                      falsepos : predicted 1 when actual = 0
-                      trueneg  : predicted 0 when actual = 0
-                      falseneg : predicted 0 when actual = 1
-
-    """
-    predtab_vals = {}
-    pos = reg.y.sum()
-    predtab_vals["actpos"] = int(pos)
-    neg = reg.n - pos
-    predtab_vals["actneg"] = int(neg)
-    act1 = (reg.y == 1) * 1
-    act0 = (reg.y == 0) * 1
-    ppos = reg.predybin.sum()
-    predtab_vals["predpos"] = ppos
-    pneg = reg.n - ppos
-    predtab_vals["predneg"] = pneg
-    pred1 = (reg.predybin == 1) * 1
-    pred0 = (reg.predybin == 0) * 1
-    truep = (pred1 * act1) * 1
-    predtab_vals["truepos"] = truep.sum()
-    truen = (pred0 * act0) * 1
-    predtab_vals["trueneg"] = truen.sum()
-    fpos = (pred1 * act0) * 1
-    predtab_vals["falsepos"] = fpos.sum()
-    fneg = (pred0 * act1) * 1
-    predtab_vals["falseneg"] = fneg.sum()
-
-    return predtab_vals
-
-
-def probit_fit(reg):
-    """
-    Various measures of fit for discrete choice models, derived from the
-    prediction table (pred_table)
-    
-    Parameters
-    ----------
-    reg             : regression object
-                      output instance from a probit regression model
-                      must contain predtable attribute
-
-    Returns
-    ----------
-    prob_fit    : a dictionary containing various measures of fit
-                  TPR    : true positive rate (sensitivity, recall, hit rate)
-                  TNR    : true negative rate (specificity, selectivity)
-                  PREDPC : accuracy, percent correctly predicted
-                  BA     : balanced accuracy
-    
-    """
-
-    prob_fit = {}
-    prob_fit["TPR"] = 100.0 * reg.predtable["truepos"] / reg.predtable["actpos"]
-    prob_fit["TNR"] = 100.0 * reg.predtable["trueneg"] / reg.predtable["actneg"]
-    prob_fit["BA"] = (prob_fit["TPR"] + prob_fit["TNR"])/2.0
-    prob_fit["PREDPC"] = 100.0 * (reg.predtable["truepos"] + reg.predtable["trueneg"]) / reg.n
-
-    return prob_fit
-
-def probit_lrtest(regprob):
-    """
-    Likelihood ratio test statistic for probit model
-
-    Parameters
-    ----------
-    regprob      : probit regression object
-
-    Returns
-    -------
-
-    likratio     : dictionary
-                   contains the statistic for the null model (L0), the LR test(likr), 
-                   the degrees of freedom (df) and the p-value (pvalue)
-    L0           : float
-                   log likelihood of null model
-    likr         : float
-                   likelihood ratio statistic
-    df           : integer
-                   degrees of freedom
-    p-value      : float
-                   p-value
-    """
-
-    likratio = {}
-    P = np.mean(regprob.y)
-    L0 = regprob.n * (P * np.log(P) + (1 - P) * np.log(1 - P))
-    likratio["L0"] = L0
-    LR = -2.0 * (L0 - regprob.logl)
-    likratio["likr"] = LR
-    likratio["df"] = regprob.k
-    pval = stats.chisqprob(LR, regprob.k)
-    likratio["p-value"] = pval
-
-    return likratio
-
-def mcfad_rho(regprob):
-    """
-    McFadden's rho measure of fit
-
-    Parameters
-    ---------
-    regprob    : probit regression object
-
-    Returns
-    -------
-    rho        : McFadden's rho (1 - L/L0)
-    
-    """
-
-    rho = 1.0 - (regprob.logl / regprob.L0)
-    return rho
-
-def probit_ape(regprob):
-    """
-    Average partial effects
-
-    Parameters
-    ----------
-    regprob   : probit regression object
-
-    Returns
-    -------
-    tuple with:
-        scale          : the scale of the marginal effects, determined by regprob.scalem
-                         Default: 'phimean' (Mean of individual marginal effects)
-                         Alternative: 'xmean' (Marginal effects at variables mean)
-        slopes         : marginal effects or average partial effects (not for constant)
-        slopes_vm      : estimates of variance of marginal effects (not for constant)
-        slopes_std_err : estimates of standard errors of marginal effects
-        slopes_z_stat  : tuple with z-statistics and p-values for marginal effects
-    
-    """
-        
-
-    if regprob.scalem == "xmean":
-        xmb = regprob.xmean.T @ regprob.betas
-        scale = stats.norm.pdf(xmb)
-            
-    elif regprob.scalem == "phimean":
-        scale = np.mean(regprob.phiy,axis=0)
-
-    # average partial effects (no constant)
-    slopes = (regprob.betas[1:,0] * scale).reshape(-1,1)
-
-    # variance of partial effects
-    xmb = regprob.xmean.T @ regprob.betas
-    bxt = regprob.betas @ regprob.xmean.T
-    dfdb = np.eye(regprob.k) - xmb * bxt
-    slopes_vm = (scale ** 2) * ((dfdb @ regprob.vm) @ dfdb.T)
-
-    # standard errors
-    slopes_std_err = np.sqrt(slopes_vm[1:,1:].diagonal()).reshape(-1,1)
-
-    # z-stats and p-values
-    sl_zStat = slopes / slopes_std_err
-    slopes_z_stat = [(sl_zStat[i,0],stats.norm.sf(abs(sl_zStat[i,0])) * 2) for i in range(len(slopes))]
-
-
-    return (scale, slopes,slopes_vm[1:,1:],slopes_std_err,slopes_z_stat)
-
-
-def sp_tests(regprob=None, obj_list=None):
-    """
-    Calculates tests for spatial dependence in Probit models
-
-    Parameters
-    ----------
-    regprob     : regression object from spreg
-                  output instance from a probit model
-    obj_list    : list
-                  list of regression elements from both libpysal and statsmodels' ProbitResults
-                  The list should be such as:
-                  [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]               
-    
-    Returns
-    -------
-    tuple with LM_Err, moran, ps as 2x1 arrays with statistic and p-value
-               LM_Err: Pinkse
-               moran : Kelejian-Prucha generalized Moran
-               ps    : Pinkse-Slade
-
-    Examples
-    --------
-    The results of this function will be automatically added to the output of the probit model if using spreg.
-    If using the Probit estimator from statsmodels, the user can call the function with the obj_list argument.
-    The argument obj_list should be a list with the following elements, in this order:
-    [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]
-    The function will then return and print the results of the spatial diagnostics.
-
-    >>> import libpysal
-    >>> import statsmodels.api as sm
-    >>> import geopandas as gpd
-    >>> from spreg.diagnostics_probit import sp_tests
-
-    >>> columb = libpysal.examples.load_example('Columbus')
-    >>> dfs = gpd.read_file(columb.get_path("columbus.shp"))
-    >>> w = libpysal.weights.Queen.from_dataframe(dfs)
-    >>> w.transform='r'
-
-    >>> y = (dfs["CRIME"] > 40).astype(float)
-    >>> X = dfs[["INC","HOVAL"]]
-    >>> X = sm.add_constant(X)
-
-    >>> probit_mod = sm.Probit(y, X)
-    >>> probit_res = probit_mod.fit(disp=False)
-    >>> LM_err, moran, ps = sp_tests(obj_list=[w, probit_res.fittedvalues, probit_res.resid_response, probit_res.resid_generalized])
-    PROBIT MODEL DIAGNOSTICS FOR SPATIAL DEPENDENCE
-    TEST                              DF         VALUE           PROB
-    Kelejian-Prucha (error)           1          1.721           0.0852
-    Pinkse (error)                    1          3.132           0.0768
-    Pinkse-Slade (error)              1          2.558           0.1097
-
-    """
-    if regprob:
-        w, Phi, phi, u_naive, u_gen, n = regprob.w, regprob.predy, regprob.phiy, regprob.u_naive, regprob.u_gen, regprob.n
-    elif obj_list:
-        w, fittedvalues, u_naive, u_gen = obj_list
-        Phi = norm.cdf(fittedvalues)
-        phi = norm.pdf(fittedvalues)
-        n = w.n
-
-    try:
-        w = w.sparse
-    except:
-        w = w
-        
-    # Pinkse_error:
-    Phi_prod = Phi * (1 - Phi)
-    sig2 = np.sum((phi * phi) / Phi_prod) / n
-    LM_err_num = np.dot(u_gen.T, (w @ u_gen)) ** 2
-    trWW = np.sum((w @ w).diagonal())
-    trWWWWp = trWW + np.sum((w @ w.T).diagonal())
-    LM_err = (1.0 * LM_err_num / (sig2 ** 2 * trWWWWp)).item()
-    LM_err = np.array([LM_err, stats.chisqprob(LM_err, 1)])
-    # KP_error:
-    moran = moran_KP(w, u_naive, Phi_prod)
-    # Pinkse-Slade_error:
-    u_std = u_naive / np.sqrt(Phi_prod)
-    ps_num = np.dot(u_std.T, (w @ u_std)) ** 2
-    trWpW = np.sum((w.T @ w).diagonal())
-    ps = (ps_num / (trWW + trWpW)).item()
-    # chi-square instead of bootstrap.
-    ps = np.array([ps, stats.chisqprob(ps, 1)])
-
-    if obj_list:
-        from .output import _probit_out
-        reg_simile = type('reg_simile', (object,), {})()
-        reg_simile.Pinkse_error = LM_err
-        reg_simile.KP_error = moran
-        reg_simile.PS_error = ps
-        print("PROBIT MODEL "+_probit_out(reg_simile, spat_diag=True, sptests_only=True)[1:])
-
-    return LM_err, moran, ps
-
-def moran_KP(w, u, sig2i):
-    """
-    Calculates Kelejian-Prucha Moran-flavoured tests
-
-    Parameters
-    ----------
-
-    w           : W
-                  PySAL weights instance aligned with y
-    u           : array
-                  nx1 array of naive residuals
-    sig2i       : array
-                  nx1 array of individual variance
-
-    Returns
-    -------
-    moran       : array, Kelejian-Prucha Moran's I with p-value   
-    """
-    try:
-        w = w.sparse
-    except:
-        pass
-    moran_num = np.dot(u.T, (w @ u))
-    E = SP.lil_matrix(w.shape)
-    E.setdiag(sig2i.flat)
-    E = E.asformat("csr")
-    WE = w @ E
-    moran_den = np.sqrt(np.sum((WE @ WE + (w.T @ E) @ WE).diagonal()))
-    moran = (1.0 * moran_num / moran_den).item()
-    moran = np.array([moran, stats.norm.sf(abs(moran)) * 2.0])
-    return moran
-
-
-def _test():
-    import doctest
-
-    doctest.testmod()
-
-
-if __name__ == "__main__":
-    _test()
+"""
+Diagnostics in probit regression. 
+        
+"""
+__author__ = (
+    "Luc Anselin lanselin@gmail.com, Pedro Amaral pedrovma@gmail.com "
+)
+
+from math import sqrt, pi
+
+from libpysal.common import MISSINGVALUE
+import numpy as np
+import numpy.linalg as la
+import scipy.sparse as SP
+from scipy import stats
+from scipy.stats import norm
+
+__all__ = [
+    "pred_table",
+    "probit_fit",
+    "probit_lrtest",
+    "mcfad_rho",
+    "probit_ape",
+    "sp_tests",
+    "moran_KP",
+]
+
+
+def pred_table(reg):
+    """
+    Calculates a table comparing predicted to actual outcomes for a 
+    discrete choice model
+
+    Parameters
+    ----------
+    reg             : regression object
+                      output instance from a probit regression model
+
+    Returns
+    ----------
+    predtab_vals    : dictionary
+                      includes margins and cells of actual and predicted
+                      values for discrete choice model
+                      actpos   : observed positives (=1)
+                      actneg   : observed negatives (=0)
+                      predpos  : predicted positives 
+                      predneg  : predicted negatives
+                      truepos  : predicted 1 when actual = 1
+                      falsepos : predicted 1 when actual = 0
+                      trueneg  : predicted 0 when actual = 0
+                      falseneg : predicted 0 when actual = 1
+
+    """
+    predtab_vals = {}
+    pos = reg.y.sum()
+    predtab_vals["actpos"] = int(pos)
+    neg = reg.n - pos
+    predtab_vals["actneg"] = int(neg)
+    act1 = (reg.y == 1) * 1
+    act0 = (reg.y == 0) * 1
+    ppos = reg.predybin.sum()
+    predtab_vals["predpos"] = ppos
+    pneg = reg.n - ppos
+    predtab_vals["predneg"] = pneg
+    pred1 = (reg.predybin == 1) * 1
+    pred0 = (reg.predybin == 0) * 1
+    truep = (pred1 * act1) * 1
+    predtab_vals["truepos"] = truep.sum()
+    truen = (pred0 * act0) * 1
+    predtab_vals["trueneg"] = truen.sum()
+    fpos = (pred1 * act0) * 1
+    predtab_vals["falsepos"] = fpos.sum()
+    fneg = (pred0 * act1) * 1
+    predtab_vals["falseneg"] = fneg.sum()
+
+    return predtab_vals
+
+
+def probit_fit(reg):
+    """
+    Various measures of fit for discrete choice models, derived from the
+    prediction table (pred_table)
+    
+    Parameters
+    ----------
+    reg             : regression object
+                      output instance from a probit regression model
+                      must contain predtable attribute
+
+    Returns
+    ----------
+    prob_fit    : a dictionary containing various measures of fit
+                  TPR    : true positive rate (sensitivity, recall, hit rate)
+                  TNR    : true negative rate (specificity, selectivity)
+                  PREDPC : accuracy, percent correctly predicted
+                  BA     : balanced accuracy
+    
+    """
+
+    prob_fit = {}
+    prob_fit["TPR"] = 100.0 * reg.predtable["truepos"] / reg.predtable["actpos"]
+    prob_fit["TNR"] = 100.0 * reg.predtable["trueneg"] / reg.predtable["actneg"]
+    prob_fit["BA"] = (prob_fit["TPR"] + prob_fit["TNR"])/2.0
+    prob_fit["PREDPC"] = 100.0 * (reg.predtable["truepos"] + reg.predtable["trueneg"]) / reg.n
+
+    return prob_fit
+
+def probit_lrtest(regprob):
+    """
+    Likelihood ratio test statistic for probit model
+
+    Parameters
+    ----------
+    regprob      : probit regression object
+
+    Returns
+    -------
+
+    likratio     : dictionary
+                   contains the statistic for the null model (L0), the LR test(likr), 
+                   the degrees of freedom (df) and the p-value (pvalue)
+    L0           : float
+                   log likelihood of null model
+    likr         : float
+                   likelihood ratio statistic
+    df           : integer
+                   degrees of freedom
+    p-value      : float
+                   p-value
+    """
+
+    likratio = {}
+    P = np.mean(regprob.y)
+    L0 = regprob.n * (P * np.log(P) + (1 - P) * np.log(1 - P))
+    likratio["L0"] = L0
+    LR = -2.0 * (L0 - regprob.logl)
+    likratio["likr"] = LR
+    df = regprob.k - 1  # the null model keeps the constant
+    likratio["df"] = df
+    pval = stats.chisqprob(LR, df)
+    likratio["p-value"] = pval
+
+    return likratio
+
+def mcfad_rho(regprob):
+    """
+    McFadden's rho measure of fit
+
+    Parameters
+    ---------
+    regprob    : probit regression object
+
+    Returns
+    -------
+    rho        : McFadden's rho (1 - L/L0)
+    
+    """
+
+    rho = 1.0 - (regprob.logl / regprob.L0)
+    return rho
+
+def probit_ape(regprob):
+    """
+    Average partial effects
+
+    Parameters
+    ----------
+    regprob   : probit regression object
+
+    Returns
+    -------
+    tuple with:
+        scale          : the scale of the marginal effects, determined by regprob.scalem
+                         Default: 'phimean' (Mean of individual marginal effects)
+                         Alternative: 'xmean' (Marginal effects at variables mean)
+        slopes         : marginal effects or average partial effects (not for constant)
+        slopes_vm      : estimates of variance of marginal effects (not for constant)
+        slopes_std_err : estimates of standard errors of marginal effects
+        slopes_z_stat  : tuple with z-statistics and p-values for marginal effects
+    
+    """
+        
+
+    if regprob.scalem == "xmean":
+        xmb = regprob.xmean.T @ regprob.betas
+        scale = stats.norm.pdf(xmb)
+            
+    elif regprob.scalem == "phimean":
+        scale = np.mean(regprob.phiy,axis=0)
+
+    # average partial effects (no constant)
+    slopes = (regprob.betas[1:,0] * scale).reshape(-1,1)
+
+    # variance of partial effects
+    xmb = regprob.xmean.T @ regprob.betas
+    bxt = regprob.betas @ regprob.xmean.T
+    dfdb = np.eye(regprob.k) - xmb * bxt
+    slopes_vm = (scale ** 2) * ((dfdb @ regprob.vm) @ dfdb.T)
+
+    # standard errors
+    slopes_std_err = np.sqrt(slopes_vm[1:,1:].diagonal()).reshape(-1,1)
+
+    # z-stats and p-values
+    sl_zStat = slopes / slopes_std_err
+    slopes_z_stat = [(sl_zStat[i,0],stats.norm.sf(abs(sl_zStat[i,0])) * 2) for i in range(len(slopes))]
+
+
+    return (scale, slopes,slopes_vm[1:,1:],slopes_std_err,slopes_z_stat)
+
+
+def sp_tests(regprob=None, obj_list=None):
+    """
+    Calculates tests for spatial dependence in Probit models
+
+    Parameters
+    ----------
+    regprob     : regression object from spreg
+                  output instance from a probit model
+    obj_list    : list
+                  list of regression elements from both libpysal and statsmodels' ProbitResults
+                  The list should be such as:
+                  [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]               
+    
+    Returns
+    -------
+    tuple with LM_Err, moran, ps as 2x1 arrays with statistic and p-value
+               LM_Err: Pinkse
+               moran : Kelejian-Prucha generalized Moran
+               ps    : Pinkse-Slade
+
+    Examples
+    --------
+    The results of this function will be automatically added to the output of the probit model if using spreg.
+    If using the Probit estimator from statsmodels, the user can call the function with the obj_list argument.
+    The argument obj_list should be a list with the following elements, in this order:
+    [libpysal.weights, ProbitResults.fittedvalues, ProbitResults.resid_response, ProbitResults.resid_generalized]
+    The function will then return and print the results of the spatial diagnostics.
+
+    >>> import libpysal
+    >>> import statsmodels.api as sm
+    >>> import geopandas as gpd
+    >>> from spreg.diagnostics_probit import sp_tests
+
+    >>> columb = libpysal.examples.load_example('Columbus')
+    >>> dfs = gpd.read_file(columb.get_path("columbus.shp"))
+    >>> w = libpysal.weights.Queen.from_dataframe(dfs)
+    >>> w.transform='r'
+
+    >>> y = (dfs["CRIME"] > 40).astype(float)
+    >>> X = dfs[["INC","HOVAL"]]
+    >>> X = sm.add_constant(X)
+
+    >>> probit_mod = sm.Probit(y, X)
+    >>> probit_res = probit_mod.fit(disp=False)
+    >>> LM_err, moran, ps = sp_tests(obj_list=[w, probit_res.fittedvalues, probit_res.resid_response, probit_res.resid_generalized])
+    PROBIT MODEL DIAGNOSTICS FOR SPATIAL DEPENDENCE
+    TEST                              DF         VALUE           PROB
+    Kelejian-Prucha (error)           1          1.721           0.0852
+    Pinkse (error)                    1          3.132           0.0768
+    Pinkse-Slade (error)              1          2.558           0.1097
+
+    """
+    if regprob:
+        w, Phi, phi, u_naive, u_gen, n = regprob.w, regprob.predy, regprob.phiy, regprob.u_naive, regprob.u_gen, regprob.n
+    elif obj_list:
+        w, fittedvalues, u_naive, u_gen = obj_list
+        Phi = norm.cdf(fittedvalues)
+        phi = norm.pdf(fittedvalues)
+        n = w.n
+
+    try:
+        w = w.sparse
+    except:
+        w = w
+        
+    # Pinkse_error:
+    Phi_prod = Phi * (1 - Phi)
+    sig2 = np.sum((phi * phi) / Phi_prod) / n
+    LM_err_num = np.dot(u_gen.T, (w @ u_gen)) ** 2
+    trWW = np.sum((w @ w).diagonal())
+    trWWWWp = trWW + np.sum((w @ w.T).diagonal())
+    LM_err = (1.0 * LM_err_num / (sig2 ** 2 * trWWWWp)).item()
+    LM_err = np.array([LM_err, stats.chisqprob(LM_err, 1)])
+    # KP_error:
+    moran = moran_KP(w, u_naive, Phi_prod)
+    # Pinkse-Slade_error:
+    u_std = u_naive / np.sqrt(Phi_prod)
+    ps_num = np.dot(u_std.T, (w @ u_std)) ** 2
+    trWpW = np.sum((w.T @ w).diagonal())
+    ps = (ps_num / (trWW + trWpW)).item()
+    # chi-square instead of bootstrap.
+    ps = np.array([ps, stats.chisqprob(ps, 1)])
+
+    if obj_list:
+        from .output import _probit_out
+        reg_simile = type('reg_simile', (object,), {})()
+        reg_simile.Pinkse_error = LM_err
+        reg_simile.KP_error = moran
+        reg_simile.PS_error = ps
+        print("PROBIT MODEL "+_probit_out(reg_simile, spat_diag=True, sptests_only=True)[1:])
+
+    return LM_err, moran, ps
+
+def moran_KP(w, u, sig2i):
+    """
+    Calculates Kelejian-Prucha Moran-flavoured tests
+
+    Parameters
+    ----------
+
+    w           : W
+                  PySAL weights instance aligned with y
+    u           : array
+                  nx1 array of naive residuals
+    sig2i       : array
+                  nx1 array of individual variance
+
+    Returns
+    -------
+    moran       : array, Kelejian-Prucha Moran's I with p-value   
+    """
+    try:
+        w = w.sparse
+    except:
+        pass
+    moran_num = np.dot(u.T, (w @ u))
+    E = SP.lil_matrix(w.shape)
+    E.setdiag(sig2i.flat)
+    E = E.asformat("csr")
+    WE = w @ E
+    moran_den = np.sqrt(np.sum((WE @ WE + (w.T @ E) @ WE).diagonal()))
+    moran = (1.0 * moran_num / moran_den).item()
+    moran = np.array([moran, stats.norm.sf(abs(moran)) * 2.0])
+    return moran
+
+
+def _test():
+    import doctest
+
+    doctest.testmod()
+
+
+if __name__ == "__main__":
+    _test()
-- 
2.43.0


From 15256ca6c4b80c400db10028dfa9363e0b8d1293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:17 +0000
Subject: [PATCH 062/107] fix: Probit ignored predflag, the prediction table
 was never printed

---
 spreg/probit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/probit.py b/spreg/probit.py
index 0b84eef..c0879a0 100755
--- a/spreg/probit.py
+++ b/spreg/probit.py
@@ -514,7 +514,7 @@ class Probit(BaseProbit):
         self.output = pd.DataFrame(self.name_x, columns=['var_names'])
         self.output['var_type'] = ['o'] + ['x'] * (len(self.name_x)-1)
         self.output['regime'], self.output['equation'] = (0, 0)
-        self.other_top, self.other_mid, other_end = _probit_out(reg=self, spat_diag=spat_diag)
+        self.other_top, self.other_mid, other_end = _probit_out(reg=self, spat_diag=spat_diag, predflag=predflag)
         output(reg=self, vm=vm, robust=None, other_end=other_end, latex=latex)
 
 
-- 
2.43.0


From 2efa630a2b0c6ee255ea54f4811f5118b0c361ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:32 +0000
Subject: [PATCH 063/107] fix: probit generalized residuals and spatial tests
 were NaN once a fitted probability rounds to one

---
 spreg/diagnostics_probit.py | 8 ++++----
 spreg/probit.py             | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/spreg/diagnostics_probit.py b/spreg/diagnostics_probit.py
index bb236e2..aedee21 100644
--- a/spreg/diagnostics_probit.py
+++ b/spreg/diagnostics_probit.py
@@ -261,12 +261,11 @@ def sp_tests(regprob=None, obj_list=None):
 
     """
     if regprob:
-        w, Phi, phi, u_naive, u_gen, n = regprob.w, regprob.predy, regprob.phiy, regprob.u_naive, regprob.u_gen, regprob.n
+        w, fittedvalues, u_naive, u_gen, n = regprob.w, regprob.xb, regprob.u_naive, regprob.u_gen, regprob.n
     elif obj_list:
         w, fittedvalues, u_naive, u_gen = obj_list
-        Phi = norm.cdf(fittedvalues)
-        phi = norm.pdf(fittedvalues)
         n = w.n
+    phi = norm.pdf(fittedvalues)
 
     try:
         w = w.sparse
@@ -274,7 +273,8 @@ def sp_tests(regprob=None, obj_list=None):
         w = w
         
     # Pinkse_error:
-    Phi_prod = Phi * (1 - Phi)
+    Phi_prod = norm.cdf(fittedvalues) * norm.sf(fittedvalues)
+    Phi_prod = np.maximum(Phi_prod, np.finfo(float).tiny)
     sig2 = np.sum((phi * phi) / Phi_prod) / n
     LM_err_num = np.dot(u_gen.T, (w @ u_gen)) ** 2
     trWW = np.sum((w @ w).diagonal())
diff --git a/spreg/probit.py b/spreg/probit.py
index c0879a0..b4351f1 100755
--- a/spreg/probit.py
+++ b/spreg/probit.py
@@ -128,8 +128,8 @@ class BaseProbit():
         
         # residuals
         self.u_naive = self.y - self.predy
-        Phi_prod = self.predy * (1.0 - self.predy)
-        self.u_gen = self.phiy * (self.u_naive / Phi_prod)
+        qxb = self.q * self.xb
+        self.u_gen = self.q * norm.pdf(qxb) / norm.cdf(qxb)
 
 
     def par_est(self):
-- 
2.43.0


From ce3074187e7d56ffd40cd6c87d75016ca0ebb99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:22 +0000
Subject: [PATCH 064/107] fix: Probit overflowed for a response held as
 unsigned integers

---
 spreg/probit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spreg/probit.py b/spreg/probit.py
index b4351f1..89ad65b 100755
--- a/spreg/probit.py
+++ b/spreg/probit.py
@@ -105,7 +105,7 @@ class BaseProbit():
 
     def __init__(self, y, x, optim="newton",bstart=False,maxiter=100):
         self.y = y
-        self.q = 2* self.y - 1
+        self.q = 2.0 * self.y - 1
         self.x = x
         self.xmean =  np.mean(self.x,axis=0).reshape(-1,1)
         self.n, self.k = x.shape
@@ -170,14 +170,14 @@ class BaseProbit():
 
     def ll(self, par):
         beta = np.reshape(np.array(par), (self.k, 1))
-        q = 2 * self.y - 1
+        q = 2.0 * self.y - 1
         qxb = q * spdot(self.x, beta)
         ll = sum(np.log(norm.cdf(qxb)))
         return ll
 
     def gradient(self, par):
         beta = np.reshape(np.array(par), (self.k, 1))
-        q = 2 * self.y - 1
+        q = 2.0 * self.y - 1
         qxb = q * spdot(self.x, beta)
         lamb = q * norm.pdf(qxb) / norm.cdf(qxb)
         gradient = spdot(lamb.T, self.x)[0]
@@ -185,7 +185,7 @@ class BaseProbit():
 
     def hessian(self, par):
         beta = np.reshape(np.array(par), (self.k, 1))
-        q = 2 * self.y - 1
+        q = 2.0 * self.y - 1
         xb = spdot(self.x, beta)
         qxb = q * xb
         lamb = q * norm.pdf(qxb) / norm.cdf(qxb)
-- 
2.43.0


From 7063fa50784397db4e76ee347e8181d45cd0b9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:27 +0000
Subject: [PATCH 065/107] fix: ML_ErrorRE stayed at phi=0, a stationary point
 of the likelihood whatever the data, when its search touched that bound

---
 spreg/panel.py | 52 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index a5983fe..b65a4f2 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -1951,27 +1951,37 @@ class BaseML_ErrorRE(RegressionPropsY, RegressionPropsVM):
         y_mean_small = y_reshaped.mean(axis=0).reshape(N, 1)        
         x_mean_small = x_reshaped.mean(axis=0) # N x k
 
-        res = minimize(
-            self.err_c_loglik_ord,
-            (0.0, 0.1),
-            bounds=((-0.999, 0.999), (1e-8, 1e+09)),
-            method="L-BFGS-B",
-            args=(
-                evals,
-                evecs,
-                N,
-                self.t,
-                self.y,
-                self.x,
-                ylag,
-                xlag,
-                y_mean_small, 
-                x_mean_small,
-                I,
-                Wsp,
-            ),
-            options={'ftol': 1e-9}
-        )
+        def search(start):
+            return minimize(
+                self.err_c_loglik_ord,
+                start,
+                bounds=((-0.999, 0.999), (1e-8, 1e+09)),
+                method="L-BFGS-B",
+                args=(
+                    evals,
+                    evecs,
+                    N,
+                    self.t,
+                    self.y,
+                    self.x,
+                    ylag,
+                    xlag,
+                    y_mean_small,
+                    x_mean_small,
+                    I,
+                    Wsp,
+                ),
+                options={'ftol': 1e-9}
+            )
+
+        res = search((0.0, 0.1))
+        if res.x[1] < 1e-3:
+            # the likelihood depends on phi squared, so its derivative is zero
+            # at phi=0 even when that is not the maximum
+            for start in ((res.x[0], 0.5), (0.0, 0.5), (0.0, 2.0)):
+                other = search(start)
+                if other.fun < res.fun - 1e-6:
+                    res = other
         self.lam, self.phi = res.x
         self.phi = self.phi**2
 
-- 
2.43.0


From b96cad1485ddaedb8d1bfea97a02908332547ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:05 +0000
Subject: [PATCH 066/107] fix: make_wnslx gave a matrix of the wrong size when
 the last points are not a neighbour or have none

---
 spreg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 99377db..633a5e2 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -962,7 +962,7 @@ def make_wnslx(coords,params,leafsize=30,distance_metric='Euclidean'):
         colids = nbrs[pickgd].flatten()
         fdis = fdis[pickgd].flatten()
     
-    spdis = coo_array((fdis,(rowids,colids)))
+    spdis = coo_array((fdis,(rowids,colids)),shape=(n,n))
     spdis = spdis.tocsr(copy=True)
     
     return spdis
-- 
2.43.0


From 0d266b70a654c2b3a1da338f435ff0bf9d8a0852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:05 +0000
Subject: [PATCH 067/107] fix: make_wnslx took a point as its own neighbor when
 other points share its location

---
 spreg/utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 633a5e2..b7b77e9 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -928,10 +928,12 @@ def make_wnslx(coords,params,leafsize=30,distance_metric='Euclidean'):
     transform = params[2]
     kdt = KDTree(coords,leafsize=leafsize,distance_metric=distance_metric)
     dis,nbrs = kdt.query(coords,k=k+1,distance_upper_bound=distance_upper_bound) 
-    # get rid of diagonals
-    dis = dis[:,1:]
-    nbrs = nbrs[:,1:]
     n = dis.shape[0]
+    # get rid of diagonals (not always in first place when points coincide)
+    own = nbrs == np.arange(n).reshape(-1,1)
+    own[~own.any(axis=1),-1] = True   # not found among more than k coincident points
+    dis = dis[~own].reshape(n,-1)
+    nbrs = nbrs[~own].reshape(n,-1)
 
     # maximum distance in each row
     if (np.isinf(distance_upper_bound)): # no fixed bandwidth
@@ -940,8 +942,8 @@ def make_wnslx(coords,params,leafsize=30,distance_metric='Euclidean'):
         dis = np.nan_to_num(dis,copy=True,posinf=0)   # turn inf to zero
         mxrow = np.amax(dis,axis=1).reshape(-1,1)
 
-    # rescaled distance
-    fdis = dis / mxrow
+    # rescaled distance (zero when all neighbors coincide with the point)
+    fdis = dis / np.where(mxrow == 0, 1, mxrow)
 
     if transform.lower() == 'power':   # triangular kernel weights
         fdis = -fdis + 1.0
-- 
2.43.0


From cfaf3161b72c0ded3463d5acacfeb980f5dd70df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:05 +0000
Subject: [PATCH 068/107] fix: variance of NSLX was NaN for the power
 transformation (log of the zero weight of the farthest neighbor)

---
 spreg/nslx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/nslx.py b/spreg/nslx.py
index b2aa5d7..7ec3a97 100755
--- a/spreg/nslx.py
+++ b/spreg/nslx.py
@@ -541,7 +541,8 @@ def _nltransform(a,w,transform,gradflag=0):
         elif gradflag == 1:
             walpha = walpha.power(a)
             ww = w.copy()
-            np.log(ww.data, out = ww.data)
+            # zero weights do not depend on alpha
+            np.log(ww.data, out = ww.data, where = ww.data > 0)
             wgrad = walpha.multiply(ww)
             walpha = wgrad
             
-- 
2.43.0


From 7270a0374e29188dcf807476b67d07f602aff946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:17 +0000
Subject: [PATCH 069/107] fix: NSLX left the W prefix out of the name when a
 list of params is cut to a single lagged variable

---
 spreg/nslx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/nslx.py b/spreg/nslx.py
index 7ec3a97..dec1ccd 100755
--- a/spreg/nslx.py
+++ b/spreg/nslx.py
@@ -346,7 +346,7 @@ class NSLX(BaseNSLX):
                 elif g != len(xw_name):
                     raise Exception("Mismatch dimension params and slx_vars")
 
-        if g == 1:
+        if len(transform) == 1:
             cp = transform[0][0]
             xw_name = [ "W"+ cp + "_"+ i for i in xw_name]
         elif len(transform) > 1:
-- 
2.43.0


From 6c5a2dc120adde611209e2b3ce1206886c662fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:24 +0000
Subject: [PATCH 070/107] fix: check_coords failed for point series without a
 name or whose index does not contain 0

---
 spreg/user_output.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spreg/user_output.py b/spreg/user_output.py
index 1c6109c..5f41397 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -1039,7 +1039,7 @@ def check_coords(data,name_coords):
                     name_coords = data.columns.to_list()
 
         elif (isinstance(data,gpd.geoseries.GeoSeries)):   # geometry column
-            if data[0].geom_type == 'Point':
+            if data.iloc[0].geom_type == 'Point':
                 xy = data.get_coordinates()
                 xy = np.array(xy)
 
@@ -1048,6 +1048,8 @@ def check_coords(data,name_coords):
                         name_coords = data.name
                     except AttributeError:
                         name_coords = data.columns.to_list()
+                if name_coords is None:   # series without a name
+                    name_coords = "unknown"
 
             else:
                 raise Exception("Data type not supported")
-- 
2.43.0


From 868cfc91b21a4284c59df69ad3284b1ee394c05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:18 +0000
Subject: [PATCH 071/107] fix: Skater_reg.fit returned no labels when the
 quorum left no further cut

---
 spreg/skater_reg.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index ad6bf21..7af0e32 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -288,10 +288,10 @@ class Skater_reg(object):
         while current_n_subtrees < n_clusters:  # while we don't have enough regions
             (
                 best_deletion,
-                trees_scores,
+                new_scores,
                 new_MSF,
-                current_n_subtrees,
-                current_labels,
+                new_n_subtrees,
+                new_labels,
             ) = self.find_cut(
                 MSF,
                 data,
@@ -318,6 +318,9 @@ class Skater_reg(object):
                     )
                 prev_score = best_deletion.score
                 MSF = new_MSF
+                trees_scores = new_scores
+                current_n_subtrees = new_n_subtrees
+                current_labels = new_labels
             else:  # otherwise, it means the MSF admits no further cuts
                 prev_n_subtrees, _ = cg.connected_components(MSF, directed=False)
                 warn(
@@ -328,6 +331,7 @@ class Skater_reg(object):
                     OptimizeWarning,
                     stacklevel=2,
                 )
+                break
             if trace:
                 self._trace.append((current_labels, best_deletion))
 
-- 
2.43.0


From 7a1e6f0f6855af040649ade12b74046900ebe61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:18 +0000
Subject: [PATCH 072/107] fix: Skater_reg with spatial lag models left the lag
 of the first regressor out of the instruments (and failed with one regressor)

---
 spreg/skater_reg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 7af0e32..cc66a4b 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -542,7 +542,8 @@ class Skater_reg(object):
 
     def _prep_lag(self, data_reg):
         # if the model is a spatial lag, add the lagged dependent variable to the model
-        data_reg['yend'], data_reg['q'] = set_endog(data_reg["y"], data_reg["x"][:, 1:], data_reg["w"], yend=None,
+        data_reg = dict(data_reg)
+        data_reg['yend'], data_reg['q'] = set_endog(data_reg["y"], data_reg["x"], data_reg["w"], yend=None,
             q=None, w_lags=1, lag_q=True)
         return data_reg
 
-- 
2.43.0


From a58a404eca70240a227bffa8e3466c92baf4fffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:18 +0000
Subject: [PATCH 073/107] fix: Skater_reg disconnected neighbors with identical
 attributes

---
 spreg/skater_reg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index cc66a4b..071172e 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -230,6 +230,10 @@ class Skater_reg(object):
         super_verbose = verbose > 1
         start_W = time.time()
         dissim = W.multiply(attribute_kernel)
+        # neighbors with identical attributes stay connected
+        dissim = dissim.tocoo()
+        dissim.data[(dissim.data == 0) & (dissim.row != dissim.col)] = np.finfo(float).tiny
+        dissim = dissim.tocsr()
         dissim.eliminate_zeros()
         end_W = time.time() - start_W
 
-- 
2.43.0


From 98ed5a790fa83c543a2d5317691eb231f44f94d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:18 +0000
Subject: [PATCH 074/107] fix: Skater_reg compared cuts of different trees by
 their own scores when the graph is not connected

---
 spreg/skater_reg.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 071172e..323b2c4 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -288,6 +288,25 @@ class Skater_reg(object):
             if super_verbose:
                 print(self._trace[-1])
         trees_scores = None
+        if current_n_subtrees > 1:
+            # scores of the initial trees, to compare cuts of different trees
+            trees_scores = {}
+            score = self.score_stats if model_family == "statsmodels" else self.score_spreg
+            # (GM_Lag is always scored for all the trees together)
+            if data_reg is None or getattr(data_reg["reg"], "__name__", "") not in {
+                "GM_Lag",
+                "BaseGM_Lag",
+            }:
+                for tree in range(current_n_subtrees):
+                    trees_scores.update(
+                        score(
+                            data,
+                            data_reg,
+                            current_labels,
+                            current_labels=current_labels,
+                            current_tree=tree,
+                        )[1]
+                    )
         prev_score = np.inf
         while current_n_subtrees < n_clusters:  # while we don't have enough regions
             (
-- 
2.43.0


From 72d886b3efcb46a4f47245258dd057a027c516b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:09 +0000
Subject: [PATCH 075/107] fix: endogenous regimes failed with trace=False

---
 spreg/ols_regimes.py       | 8 +++++---
 spreg/skater_reg.py        | 1 +
 spreg/twosls_regimes.py    | 8 +++++---
 spreg/twosls_sp_regimes.py | 8 +++++---
 4 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index bf57e8c..33bf17b 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -1057,6 +1057,7 @@ class OLS_Endog_Regimes(OLS_Regimes):
         if quorum < 0:
             quorum = np.max([(x_constant.shape[1]+1)*10, 30])
 
+        n_clusters_given = bool(n_clusters)
         if not n_clusters:
             n_clusters_opt = x_constant.shape[0]*0.70//quorum
             if n_clusters_opt < 2:
@@ -1071,15 +1072,16 @@ class OLS_Endog_Regimes(OLS_Regimes):
                 # Call the Skater_reg method based on OLS
                 sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseOLS,'y':y,'x':x_constant}, quorum=quorum, trace=trace)
                 self.clusters = sk_reg_results.current_labels_
-                self.score = sk_reg_results._trace[-1][1][2]
+                self.score = sk_reg_results.score_
             except Exception as e:
                 if str(e) == "one or more input arrays have more columns than rows":
                     raise ValueError("One or more input ended up with more variables than observations. Please check your setting for `quorum`.")
                 else:
                     raise
 
-        self._trace = sk_reg_results._trace
-        self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
+        if trace or not n_clusters_given:
+            self._trace = sk_reg_results._trace
+            self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
         OLS_Regimes.__init__(self, y, x_constant, regimes=self.clusters, w=w, name_regimes='Skater_reg', name_y=name_y, name_x=name_x,
                                      constant_regi='many', cols2regi='all', regime_err_sep=True, **kwargs)
 
diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 323b2c4..78d7eba 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -359,6 +359,7 @@ class Skater_reg(object):
                 self._trace.append((current_labels, best_deletion))
 
         self.current_labels_ = current_labels
+        self.score_ = prev_score
         self.minimum_spanning_forest_ = MSF
         self._elapsed_time = time.time() - start
         return self
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 152c0ff..1402643 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -1077,6 +1077,7 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
         if quorum < 0:
             quorum = np.max([(x_constant.shape[1]+1)*10, 30])
         
+        n_clusters_given = bool(n_clusters)
         if not n_clusters:
             n_clusters_opt = x_constant.shape[0]*0.70//quorum
             if n_clusters_opt < 2:
@@ -1090,15 +1091,16 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
             try:
                 sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseTSLS,'y':y,'x':x_constant,'yend':yend,'q':q}, quorum=quorum, trace=trace)
                 self.clusters = sk_reg_results.current_labels_
-                self.score = sk_reg_results._trace[-1][1][2]
+                self.score = sk_reg_results.score_
             except Exception as e:
                 if str(e) == "one or more input arrays have more columns than rows":
                     raise ValueError("One or more input ended up with more variables than observations. Please check your setting for `quorum`.")
                 else:
                     raise
 
-        self._trace = sk_reg_results._trace
-        self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
+        if trace or not n_clusters_given:
+            self._trace = sk_reg_results._trace
+            self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
         TSLS_Regimes.__init__(self, y, x_constant, yend, q, regimes=self.clusters, w=w, name_y=name_y, name_x=name_x, name_yend=name_yend, 
                               name_q=name_q, name_regimes='Skater_reg', constant_regi='many', cols2regi='all', regime_err_sep=True, **kwargs)
 
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index d5a60c4..7bac64b 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -1340,6 +1340,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
         if quorum < 0:
             quorum = np.max([(x.shape[1]+1)*10, 30])
         
+        n_clusters_given = bool(n_clusters)
         if not n_clusters:
             n_clusters_opt = x_constant.shape[0]*0.70//quorum
             if n_clusters_opt < 2:
@@ -1354,15 +1355,16 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
                 # Call the Skater_reg method based on GM_Lag
                 sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseGM_Lag,'y':y,'x':x_constant,'w':w}, quorum=quorum, trace=trace)
                 self.clusters = sk_reg_results.current_labels_
-                self.score = sk_reg_results._trace[-1][1][2]
+                self.score = sk_reg_results.score_
             except Exception as e:
                 if str(e) == "one or more input arrays have more columns than rows":
                     raise ValueError("One or more input ended up with more variables than observations. Please check your setting for `quorum`.")
                 else:
                     raise
 
-        self._trace = sk_reg_results._trace
-        self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
+        if trace or not n_clusters_given:
+            self._trace = sk_reg_results._trace
+            self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
         GM_Lag_Regimes.__init__(self, y, x, regimes=self.clusters, w=w, name_y=name_y, name_x=name_x, name_regimes='Skater_reg',
                                 constant_regi='many', cols2regi='all', regime_err_sep=False, **kwargs)
 
-- 
2.43.0


From c48badbc2c72e0345bd31a882b82bccc76097556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:27 +0000
Subject: [PATCH 076/107] fix: endogenous regimes failed when the number of
 clusters is chosen and only one split was recorded

---
 spreg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index b7b77e9..0a2fca9 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -882,7 +882,7 @@ def optim_k(trace, window_size=None):
         l = (window_size-1)*b/2
         treshold.append(trace[i+window_size] < ma[i] - b - l - 2.75*std_dev[i])
         i += 1
-    return i+window_size
+    return max(i+window_size, 2) # the first value of trace is for two regimes
 
 
 def make_wnslx(coords,params,leafsize=30,distance_metric='Euclidean'):
-- 
2.43.0


From 6a17b49bf3354db9fe59526a6a1d4ed49f802619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:14 +0000
Subject: [PATCH 077/107] fix: Skater_reg added up the scores of the clusters
 whatever the reduction given

---
 spreg/skater_reg.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 78d7eba..4f190bb 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -645,8 +645,10 @@ class Skater_reg(object):
         except:
             pass
 
+        # the regression scores of the trees are added up
+        reduction = sum if data_reg is not None else self.reduction
         try:
-            old_score = sum(trees_scores.values())
+            old_score = reduction(list(trees_scores.values()))
         except:
             pass
         best_scores = {}
@@ -686,7 +688,15 @@ class Skater_reg(object):
 
             if np.isfinite(new_score):
                 try:
-                    d_score = trees_scores[current_tree] - new_score
+                    if reduction is sum:
+                        d_score = trees_scores[current_tree] - new_score
+                    else:
+                        other_scores = dict(trees_scores)
+                        del other_scores[current_tree]
+                        d_score = old_score - reduction(
+                            list(other_scores.values())
+                            + list(new_trees_scores.values())
+                        )
                     score = old_score - d_score
                 except:
                     d_score = -new_score
-- 
2.43.0


From abec9f11bf9086f6b4b52549216ca61f7036b933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:46 +0000
Subject: [PATCH 078/107] fix: GM_Lag_Endog_Regimes failed with names when a
 constant is among the regressors and with a pandas Series as x

---
 spreg/twosls_sp_regimes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 7bac64b..d886c2c 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -1338,7 +1338,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
         x_std = (x_constant - np.mean(x_constant, axis=0)) / np.std(x_constant, axis=0)
 
         if quorum < 0:
-            quorum = np.max([(x.shape[1]+1)*10, 30])
+            quorum = np.max([(x_constant.shape[1]+1)*10, 30])
         
         n_clusters_given = bool(n_clusters)
         if not n_clusters:
@@ -1365,7 +1365,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
         if trace or not n_clusters_given:
             self._trace = sk_reg_results._trace
             self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
-        GM_Lag_Regimes.__init__(self, y, x, regimes=self.clusters, w=w, name_y=name_y, name_x=name_x, name_regimes='Skater_reg',
+        GM_Lag_Regimes.__init__(self, y, x_constant, regimes=self.clusters, w=w, name_y=name_y, name_x=name_x, name_regimes='Skater_reg',
                                 constant_regi='many', cols2regi='all', regime_err_sep=False, **kwargs)
 
 
-- 
2.43.0


From 36c3170a1f45dd70e0b0388d19094f236f490aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:28 +0000
Subject: [PATCH 079/107] fix: name_regimes could not be given to
 TSLS_Endog_Regimes and GM_Lag_Endog_Regimes

---
 spreg/twosls_regimes.py    | 4 ++--
 spreg/twosls_sp_regimes.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 1402643..c0e2138 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -1060,7 +1060,7 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
 
     def __init__(
         self, y, x, yend, q, w=None, n_clusters=None, quorum=-1, trace=True, name_y=None, name_x=None, name_yend=None, name_q=None, 
-        constant_regi='many', cols2regi='all', regime_err_sep=True, **kwargs):
+        constant_regi='many', cols2regi='all', regime_err_sep=True, name_regimes='Skater_reg', **kwargs):
 
         n = USER.check_arrays(y, x)
         y, name_y = USER.check_y(y, n, name_y)
@@ -1102,7 +1102,7 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
             self._trace = sk_reg_results._trace
             self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
         TSLS_Regimes.__init__(self, y, x_constant, yend, q, regimes=self.clusters, w=w, name_y=name_y, name_x=name_x, name_yend=name_yend, 
-                              name_q=name_q, name_regimes='Skater_reg', constant_regi='many', cols2regi='all', regime_err_sep=True, **kwargs)
+                              name_q=name_q, name_regimes=name_regimes, constant_regi='many', cols2regi='all', regime_err_sep=True, **kwargs)
 
 
 def _test():
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index d886c2c..f510aaf 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -1325,7 +1325,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
 
     def __init__(
         self, y, x, w, n_clusters=None, quorum=-1, trace=True, name_y=None, name_x=None,
-        constant_regi='many', cols2regi='all', regime_err_sep=False, **kwargs):
+        constant_regi='many', cols2regi='all', regime_err_sep=False, name_regimes='Skater_reg', **kwargs):
 
         n = USER.check_arrays(y, x)
         y, name_y = USER.check_y(y, n, name_y)
@@ -1365,7 +1365,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
         if trace or not n_clusters_given:
             self._trace = sk_reg_results._trace
             self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
-        GM_Lag_Regimes.__init__(self, y, x_constant, regimes=self.clusters, w=w, name_y=name_y, name_x=name_x, name_regimes='Skater_reg',
+        GM_Lag_Regimes.__init__(self, y, x_constant, regimes=self.clusters, w=w, name_y=name_y, name_x=name_x, name_regimes=name_regimes,
                                 constant_regi='many', cols2regi='all', regime_err_sep=False, **kwargs)
 
 
-- 
2.43.0


From 7b046c2022e2128cecadcf37e77101baae22e1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:21 +0000
Subject: [PATCH 080/107] fix: stge_pre reported LAG when it selects and
 estimates SDM

---
 spreg/spsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/spsearch.py b/spreg/spsearch.py
index be59729..9f021e3 100755
--- a/spreg/spsearch.py
+++ b/spreg/spsearch.py
@@ -697,7 +697,7 @@ def stge_pre(
                 except:  # ignore lag model
                     if p_rlag <= p_rerror:
                         k = idv + 1
-                        result = models[1]
+                        result = models[k]
 
                     else:
                         k = idv + 2
-- 
2.43.0


From 4c2a8f0e1663910c09092c19fa662bee2e7c7549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:21 +0000
Subject: [PATCH 081/107] fix: gets_sdm did not print its result when the
 selected model cannot be estimated

---
 spreg/spsearch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/spsearch.py b/spreg/spsearch.py
index 9f021e3..a34df76 100755
--- a/spreg/spsearch.py
+++ b/spreg/spsearch.py
@@ -1369,7 +1369,7 @@ def gets_sdm(
                 )
             except:
                 result = result + " -- Exception: SARSAR parameters out of bounds"
-                return (result, finreg)
+                finreg = False
         elif result == "SLX-Err":
             try:
                 finreg = ERROR.GMM_Error(
@@ -1386,7 +1386,7 @@ def gets_sdm(
                 )
             except:
                 result = result + " -- Exception: SLX Error parameters out of bounds"
-                return (result, finreg)
+                finreg = False
         elif result == "GNS":
             try:
                 finreg = ERROR.GMM_Error(
-- 
2.43.0


From dda635fceb11b73c9f09d5a5b25869def6e14fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:08 +0000
Subject: [PATCH 082/107] fix: specification searches failed or lost names
 given when only one of name_y and name_x is given or a constant is among the
 regressors

---
 spreg/spsearch.py | 249 ++++++++++++++++------------------------------
 1 file changed, 86 insertions(+), 163 deletions(-)

diff --git a/spreg/spsearch.py b/spreg/spsearch.py
index a34df76..8a29518 100755
--- a/spreg/spsearch.py
+++ b/spreg/spsearch.py
@@ -9,6 +9,7 @@ __author__ = "Luc Anselin lanselin@gmail.com,\
 
 import numpy as np
 from . import ols as OLS
+from . import user_output as USER
 from . import twosls_sp as STSLS
 from .diagnostics_sp import LMtests, AKtest
 from . import error_sp as ERROR
@@ -131,34 +132,21 @@ def stge_classic(
     p = p_value
     k = 0  # indicator for type of final model 0 = OLS; 1 = Lag; 2 = Error; 3 = SAR-SAR; 4 = LAG from SAR
 
-    if not (name_y) or not (name_x):
-        model_ols_1 = OLS.OLS(
-            y,
-            x,
-            w=w,
-            slx_lags=0,
-            spat_diag=True,
-            name_w=name_w,
-            name_ds=name_ds,
-            latex=latex,
-        )
-
-        name_y = model_ols_1.name_y
-        name_x = model_ols_1.name_x[1:]
+    name_y = name_y or None
+    name_x = name_x or None
 
-    else:
-        model_ols_1 = OLS.OLS(
-            y,
-            x,
-            w=w,
-            slx_lags=0,
-            spat_diag=True,
-            name_y=name_y,
-            name_x=name_x,
-            name_w=name_w,
-            name_ds=name_ds,
-            latex=latex,
-        )
+    model_ols_1 = OLS.OLS(
+        y,
+        x,
+        w=w,
+        slx_lags=0,
+        spat_diag=True,
+        name_y=name_y,
+        name_x=name_x,
+        name_w=name_w,
+        name_ds=name_ds,
+        latex=latex,
+    )
 
     pvals = [
         model_ols_1.lm_error[1],
@@ -377,34 +365,21 @@ def stge_kb(
     p = p_value
     k = 0  # indicator for type of final model 0 = OLS; 1 = Lag; 2 = SLX; 3 = SDM
 
-    if not (name_y) or not (name_x):
-        model_ols_1 = OLS.OLS(
-            y,
-            x,
-            w=w,
-            slx_lags=0,
-            spat_diag=True,
-            name_w=name_w,
-            name_ds=name_ds,
-            latex=latex,
-        )
-
-        name_y = model_ols_1.name_y
-        name_x = model_ols_1.name_x[1:]
+    name_y = name_y or None
+    name_x = name_x or None
 
-    else:
-        model_ols_1 = OLS.OLS(
-            y,
-            x,
-            w=w,
-            slx_lags=0,
-            spat_diag=True,
-            name_y=name_y,
-            name_x=name_x,
-            name_w=name_w,
-            name_ds=name_ds,
-            latex=latex,
-        )
+    model_ols_1 = OLS.OLS(
+        y,
+        x,
+        w=w,
+        slx_lags=0,
+        spat_diag=True,
+        name_y=name_y,
+        name_x=name_x,
+        name_w=name_w,
+        name_ds=name_ds,
+        latex=latex,
+    )
 
     pvals = [
         model_ols_1.rlm_wx[1],
@@ -575,34 +550,21 @@ def stge_pre(
 
     models = ["OLS", "LAG", "ERROR", "SARSAR", "SLX", "SDM", "SLX-ERR", "GNS"]
 
-    if not (name_y) or not (name_x):
-        model_ols_1 = OLS.OLS(
-            y,
-            x,
-            w=w,
-            slx_lags=0,
-            spat_diag=True,
-            name_w=name_w,
-            name_ds=name_ds,
-            latex=latex,
-        )
-
-        name_y = model_ols_1.name_y
-        name_x = model_ols_1.name_x[1:]
+    name_y = name_y or None
+    name_x = name_x or None
 
-    else:
-        model_ols_1 = OLS.OLS(
-            y,
-            x,
-            w=w,
-            slx_lags=0,
-            spat_diag=True,
-            name_y=name_y,
-            name_x=name_x,
-            name_w=name_w,
-            name_ds=name_ds,
-            latex=latex,
-        )
+    model_ols_1 = OLS.OLS(
+        y,
+        x,
+        w=w,
+        slx_lags=0,
+        spat_diag=True,
+        name_y=name_y,
+        name_x=name_x,
+        name_w=name_w,
+        name_ds=name_ds,
+        latex=latex,
+    )
 
     pv1 = model_ols_1.lm_wx[1]  # LM test on WX
     pv2 = model_ols_1.rlm_wx[1]  # robust LM test in presence of rho
@@ -858,50 +820,30 @@ def gets_gns(
     finreg = False
     p = p_value
 
-    k = x.shape[1]
+    k = USER.check_constant(x)[0].shape[1] - 1  # constants in x are dropped
 
-    if not (name_y) or not (name_x):
-        try:
-            model_gns = ERROR.GMM_Error(
-                y,
-                x,
-                w=w,
-                slx_lags=1,
-                add_wy=True,
-                w_lags=w_lags,
-                hard_bound=True,
-                name_w=name_w,
-                name_ds=name_ds,
-                latex=latex,
-            )
-        except:
-            result = "Exception: GNS parameters out of bounds"
-            print(result)
-            return (result, finreg)
-
-        name_y = model_gns.name_y
-        name_x = model_gns.name_x[1 : k + 1]
+    name_y = name_y or None
+    name_x = name_x or None
 
-    else:
-        try:
-            model_gns = ERROR.GMM_Error(
-                y,
-                x,
-                w=w,
-                slx_lags=1,
-                add_wy=True,
-                w_lags=w_lags,
-                hard_bound=True,
-                name_y=name_y,
-                name_x=name_x,
-                name_w=name_w,
-                name_ds=name_ds,
-                latex=latex,
-            )
-        except:
-            result = "Exception: GNS parameters out of bounds"
-            print(result)
-            return (result, finreg)
+    try:
+        model_gns = ERROR.GMM_Error(
+            y,
+            x,
+            w=w,
+            slx_lags=1,
+            add_wy=True,
+            w_lags=w_lags,
+            hard_bound=True,
+            name_y=name_y,
+            name_x=name_x,
+            name_w=name_w,
+            name_ds=name_ds,
+            latex=latex,
+        )
+    except:
+        result = "Exception: GNS parameters out of bounds"
+        print(result)
+        return (result, finreg)
 
     pstats = np.array(model_gns.z_stat)[1 + k :, 1]  # t statistics p-values
     pk = len(
@@ -1194,48 +1136,29 @@ def gets_sdm(
     finreg = False
     p = p_value
 
-    k = x.shape[1]
-
-    if not (name_y) or not (name_x):
-        try:
-            model_sdm = STSLS.GM_Lag(
-                y,
-                x,
-                w=w,
-                slx_lags=1,
-                w_lags=w_lags,
-                hard_bound=True,
-                name_w=name_w,
-                name_ds=name_ds,
-                latex=latex,
-            )
-        except:
-            result = "Exception: SDM parameters out of bounds"
-            print(result)
-            return (result, finreg)
+    k = USER.check_constant(x)[0].shape[1] - 1  # constants in x are dropped
 
-        name_y = model_sdm.name_y
-        name_x = model_sdm.name_x[1 : k + 1]
+    name_y = name_y or None
+    name_x = name_x or None
 
-    else:
-        try:
-            model_sdm = STSLS.GM_Lag(
-                y,
-                x,
-                w=w,
-                slx_lags=1,
-                w_lags=w_lags,
-                hard_bound=True,
-                name_y=name_y,
-                name_x=name_x,
-                name_w=name_w,
-                name_ds=name_ds,
-                latex=latex,
-            )
-        except:
-            result = "Exception: SDM parameters out of bounds"
-            print(result)
-            return (result, finreg)
+    try:
+        model_sdm = STSLS.GM_Lag(
+            y,
+            x,
+            w=w,
+            slx_lags=1,
+            w_lags=w_lags,
+            hard_bound=True,
+            name_y=name_y,
+            name_x=name_x,
+            name_w=name_w,
+            name_ds=name_ds,
+            latex=latex,
+        )
+    except:
+        result = "Exception: SDM parameters out of bounds"
+        print(result)
+        return (result, finreg)
 
     pstats = np.array(model_sdm.z_stat)[1 + k :, 1]  # spatial parameters
     pk = len(pstats)
-- 
2.43.0


From 98ed404893aa57c4cd0af6dace19c5e240dfa9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:18 +0000
Subject: [PATCH 083/107] fix: the robust option of the specification searches
 had no effect

---
 spreg/spsearch.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/spreg/spsearch.py b/spreg/spsearch.py
index 8a29518..b2de181 100755
--- a/spreg/spsearch.py
+++ b/spreg/spsearch.py
@@ -139,6 +139,7 @@ def stge_classic(
         y,
         x,
         w=w,
+        robust=robust,
         slx_lags=0,
         spat_diag=True,
         name_y=name_y,
@@ -185,6 +186,7 @@ def stge_classic(
                         y,
                         x,
                         w=w,
+                        robust=robust,
                         slx_lags=0,
                         w_lags=w_lags,
                         hard_bound=True,
@@ -232,6 +234,7 @@ def stge_classic(
                     y,
                     x,
                     w=w,
+                    robust=robust,
                     slx_lags=0,
                     w_lags=w_lags,
                     hard_bound=True,
@@ -372,6 +375,7 @@ def stge_kb(
         y,
         x,
         w=w,
+        robust=robust,
         slx_lags=0,
         spat_diag=True,
         name_y=name_y,
@@ -417,6 +421,7 @@ def stge_kb(
                     y,
                     x,
                     w=w,
+                    robust=robust,
                     slx_lags=0,
                     w_lags=w_lags,
                     hard_bound=True,
@@ -434,6 +439,7 @@ def stge_kb(
                 y,
                 x,
                 w=w,
+                robust=robust,
                 slx_lags=1,
                 spat_diag=True,
                 name_y=name_y,
@@ -448,6 +454,7 @@ def stge_kb(
                     y,
                     x,
                     w=w,
+                    robust=robust,
                     slx_lags=1,
                     w_lags=w_lags,
                     hard_bound=True,
@@ -557,6 +564,7 @@ def stge_pre(
         y,
         x,
         w=w,
+        robust=robust,
         slx_lags=0,
         spat_diag=True,
         name_y=name_y,
@@ -576,6 +584,7 @@ def stge_pre(
             y,
             x,
             w=w,
+            robust=robust,
             slx_lags=1,
             spat_diag=True,
             name_y=name_y,
@@ -633,6 +642,7 @@ def stge_pre(
                         y,
                         x,
                         w=w,
+                        robust=robust,
                         slx_lags=slx,
                         w_lags=w_lags,
                         hard_bound=True,
@@ -684,6 +694,7 @@ def stge_pre(
                     y,
                     x,
                     w=w,
+                    robust=robust,
                     slx_lags=slx,
                     w_lags=w_lags,
                     hard_bound=True,
@@ -868,6 +879,7 @@ def gets_gns(
                     y,
                     x,
                     w=w,
+                    robust=robust,
                     slx_lags=1,
                     w_lags=w_lags,
                     hard_bound=True,
@@ -993,6 +1005,7 @@ def gets_gns(
                 y,
                 x,
                 w=w,
+                robust=robust,
                 slx_lags=0,
                 spat_diag=True,
                 name_y=name_y,
@@ -1006,6 +1019,7 @@ def gets_gns(
                 y,
                 x,
                 w=w,
+                robust=robust,
                 slx_lags=1,
                 spat_diag=True,
                 name_y=name_y,
@@ -1037,6 +1051,7 @@ def gets_gns(
                     y,
                     x,
                     w=w,
+                    robust=robust,
                     slx_lags=0,
                     w_lags=w_lags,
                     hard_bound=True,
@@ -1146,6 +1161,7 @@ def gets_sdm(
             y,
             x,
             w=w,
+            robust=robust,
             slx_lags=1,
             w_lags=w_lags,
             hard_bound=True,
@@ -1183,6 +1199,7 @@ def gets_sdm(
             y,
             x,
             w=w,
+            robust=robust,
             spat_diag=True,
             name_y=name_y,
             name_x=name_x,
@@ -1209,6 +1226,7 @@ def gets_sdm(
                 y,
                 x,
                 w=w,
+                robust=robust,
                 slx_lags=1,
                 spat_diag=True,
                 name_y=name_y,
@@ -1232,6 +1250,7 @@ def gets_sdm(
                     y,
                     x,
                     w=w,
+                    robust=robust,
                     slx_lags=0,
                     w_lags=w_lags,
                     hard_bound=True,
-- 
2.43.0


From 54fa9e798d5cca74f64caf58fc1473c47206ab3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:33 +0000
Subject: [PATCH 084/107] fix: reports of the specification searches named the
 weights and data set False when no name is given

---
 spreg/spsearch.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/spreg/spsearch.py b/spreg/spsearch.py
index b2de181..38fba25 100755
--- a/spreg/spsearch.py
+++ b/spreg/spsearch.py
@@ -134,6 +134,8 @@ def stge_classic(
 
     name_y = name_y or None
     name_x = name_x or None
+    name_w = name_w or None
+    name_ds = name_ds or None
 
     model_ols_1 = OLS.OLS(
         y,
@@ -370,6 +372,8 @@ def stge_kb(
 
     name_y = name_y or None
     name_x = name_x or None
+    name_w = name_w or None
+    name_ds = name_ds or None
 
     model_ols_1 = OLS.OLS(
         y,
@@ -559,6 +563,8 @@ def stge_pre(
 
     name_y = name_y or None
     name_x = name_x or None
+    name_w = name_w or None
+    name_ds = name_ds or None
 
     model_ols_1 = OLS.OLS(
         y,
@@ -835,6 +841,8 @@ def gets_gns(
 
     name_y = name_y or None
     name_x = name_x or None
+    name_w = name_w or None
+    name_ds = name_ds or None
 
     try:
         model_gns = ERROR.GMM_Error(
@@ -1155,6 +1163,8 @@ def gets_sdm(
 
     name_y = name_y or None
     name_x = name_x or None
+    name_w = name_w or None
+    name_ds = name_ds or None
 
     try:
         model_sdm = STSLS.GM_Lag(
-- 
2.43.0


From 358b9bc08a82d376287756dac8d47086782c42f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:22 +0000
Subject: [PATCH 085/107] fix: gets_sdm could fail with a singular matrix
 computing unused tests of an SLX model

---
 spreg/spsearch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/spsearch.py b/spreg/spsearch.py
index 38fba25..351368b 100755
--- a/spreg/spsearch.py
+++ b/spreg/spsearch.py
@@ -1219,7 +1219,7 @@ def gets_sdm(
         )
 
         # check on LM-Error
-        errtest = LMtests(model_ols, w)
+        errtest = LMtests(model_ols, w, tests=["lme"])
         if errtest.lme[1] < p:  # ERROR
             result = "ERROR"
 
@@ -1246,7 +1246,7 @@ def gets_sdm(
                 latex=latex,
             )
 
-            errtest = LMtests(model_slx, w)
+            errtest = LMtests(model_slx, w, tests=["lme"])
             if errtest.lme[1] < p:  # SLX-ERROR
                 result = "SLX-Err"
 
-- 
2.43.0


From 3ed8b3a0df198c431da5f0b011098ab97f7f1aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:10 +0000
Subject: [PATCH 086/107] fix: titles of the separate regimes of
 GM_Error_Hom_Regimes said 2SLS

---
 spreg/error_sp_hom_regimes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index 0cf078d..3591bb6 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -1844,9 +1844,9 @@ def _work_error(
     set_warn(model, warn)
     model.w = w_r
     if slx_lags == 0:
-        model.title = "GM SPATIALLY WEIGHTED 2SLS (HOM) - REGIME %s" % r
+        model.title = "GM SPATIALLY WEIGHTED LS (HOM) - REGIME %s" % r
     else:
-        model.title = "GM SPATIALLY WEIGHTED 2SLS + SLX (Error-HOM) - REGIME %s" % r    
+        model.title = "GM SPATIALLY WEIGHTED LS + SLX (Error-HOM) - REGIME %s" % r    
     model.name_ds = name_ds
     model.name_y = "%s_%s" % (str(r), name_y)
     model.name_x = ["%s_%s" % (str(r), i) for i in name_x]
-- 
2.43.0


From e22fa4c9e35a75ca49f9e7a6f957ffab7b34cb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:00 +0000
Subject: [PATCH 087/107] fix: flex_wx named the instruments in another order
 than their columns

---
 spreg/user_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/user_output.py b/spreg/user_output.py
index 5f41397..1442f65 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -998,7 +998,7 @@ def flex_wx(w,x,name_x,constant=True,slx_lags=1,slx_vars="All",panel=False,q_lag
         if sum(q_vars) > 0:
             lag_xq2 = get_lags(w, qwork, q_lags)
             qlagname2 = set_name_spatial_lags(qnamework,q_lags)
-            bigq = np.hstack((lag_xq,lag_xq2))
+            bigq = np.hstack((lag_xq2,lag_xq))
         else:
             bigq = lag_xq
             qlagname2 = []
-- 
2.43.0


From b73b166e02360f7c6ca2d6af4bdbd36b6cfeb671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:07 +0000
Subject: [PATCH 088/107] fix: the deprecated Panel_RE_Error searched lambda up
 to 1, where the likelihood is singular

---
 spreg/panel_re.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/panel_re.py b/spreg/panel_re.py
index 96a2c23..0f28eaf 100755
--- a/spreg/panel_re.py
+++ b/spreg/panel_re.py
@@ -501,7 +501,7 @@ class BasePanel_RE_Error(RegressionPropsY, RegressionPropsVM):
         res = minimize(
             err_c_loglik_ord,
             (0.0, 0.1),
-            bounds=((-1.0, 1.0), (0.0, 10000.0)),
+            bounds=((-0.999, 0.999), (0.0, 10000.0)),
             method="L-BFGS-B",
             args=(
                 evals,
-- 
2.43.0


From 486cf1f6cbd2f003e6d0f7d04626eddc1bd3de85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:18 +0000
Subject: [PATCH 089/107] fix: the deprecated Panel_RE_Error needs orthonormal
 eigenvectors for symmetric weights

---
 spreg/panel_re.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spreg/panel_re.py b/spreg/panel_re.py
index 0f28eaf..fe4b0d5 100755
--- a/spreg/panel_re.py
+++ b/spreg/panel_re.py
@@ -491,6 +491,9 @@ class BasePanel_RE_Error(RegressionPropsY, RegressionPropsVM):
             WW = np.array(ww.todense())
             evals, evecs = la.eigh(WW)
             W = WW
+        elif np.array_equal(W, W.T):
+            # orthonormal eigenvectors also when eigenvalues are repeated
+            evals, evecs = la.eigh(W)
         else:  # need dense here
             evals, evecs = la.eig(W)
         one = np.ones((self.t, 1))
-- 
2.43.0


From 1420f96db72c351cbc8d396185d8fe9555dc31c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:38 +0000
Subject: [PATCH 090/107] fix: OLS_Regimes returned NaN when a regime has too
 few observations for its error variance

---
 spreg/regimes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spreg/regimes.py b/spreg/regimes.py
index 9a62323..d40e040 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -724,6 +724,12 @@ def _get_regimes_set(regimes):
 def _get_weighted_var(regimes, regimes_set, sig2n_k, u, y, x, yend=None, q=None):
     regi_ids = dict((r, list(np.where(np.array(regimes) == r)[0])) for r in regimes_set)
     if sig2n_k:
+        for r in regimes_set:
+            if len(regi_ids[r]) <= x.shape[1]:
+                raise Exception(
+                    "The error variance of regime %s cannot be estimated: %d observations for %d coefficients."
+                    % (r, len(regi_ids[r]), x.shape[1])
+                )
         sig = dict(
             (
                 r,
-- 
2.43.0


From d42121a4c6865d93cb93b914a1bb7bfed8251285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:38 +0000
Subject: [PATCH 091/107] fix: Moran's I of separate OLS_Regimes used the
 number of coefficients of one regime

---
 spreg/ols_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index 33bf17b..5c5033f 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -681,7 +681,7 @@ class OLS_Regimes(BaseOLS, REGI.Regimes_Frame, RegressionPropsY):
         output(reg=self, vm=vm, robust=robust, other_end=other_end, latex=latex)
 
     def _get_spat_diag_props(self, x, sig2n_k):
-        self.k = self.kr
+        self.k = self.kr * self.nr
         self.x = REGI.regimeX_setup(
             x, self.regimes, [True] * x.shape[1], self.regimes_set
         )
-- 
2.43.0


From 2e7a4e30c7fa264ebb595d818187cd734093b52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:38 +0000
Subject: [PATCH 092/107] fix: regimes models with optimal GMM weights kept the
 residual variance of the first stage

---
 spreg/twosls_regimes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index c0e2138..787604d 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -715,6 +715,9 @@ def _optimal_weight(reg, sig2n_k, warn=True):
         vm = fac2 * (reg.n - reg.k)
     else:
         vm = fac2 * reg.n
+    # drop what was computed from the first-stage residuals
+    for stale in ("utu", "sig2n", "sig2n_k"):
+        reg._cache.pop(stale, None)
     RegressionProps_basic(reg, betas=betas, vm=vm, sig2=False)
     #reg.title += " (Optimal-Weighted GMM)"
     if warn:
-- 
2.43.0


From dbd889476de82dee9af0531cee8ef7bc9833bb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:38 +0000
Subject: [PATCH 093/107] fix: White test of jointly estimated OLS_Regimes was
 singular

---
 spreg/diagnostics.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/spreg/diagnostics.py b/spreg/diagnostics.py
index 2811c17..e283a5d 100755
--- a/spreg/diagnostics.py
+++ b/spreg/diagnostics.py
@@ -13,6 +13,7 @@ import numpy as np
 import numpy.linalg as la
 import scipy.sparse as SP
 from scipy import stats
+from scipy.linalg import qr
 from .ols import BaseOLS
 from .utils import spmultiply, sphstack, spmin, spmax
 
@@ -1002,6 +1003,15 @@ def white(reg):
     A = sphstack(np.ones((A.shape[0], 1)), A)  # add a constant back in
     n, k = A.shape
 
+    # Remove what is left of exact collinearity (regime dummies add up to the constant)
+    if n > k:
+        D = A.toarray() if SP.issparse(A) else A
+        R, order = qr(D / np.sqrt((D**2).sum(axis=0)), mode="r", pivoting=True)
+        rank = int((np.abs(np.diagonal(R)) > 1e-10).sum())
+        if rank < k:
+            A = A[:, sorted(order[:rank])]
+            k = rank
+
     # Conduct the auxiliary regression and calculate the statistic
     from . import ols as OLS
 
-- 
2.43.0


From ed0dac3fc27d264db5ff11b200b73a9fb329829a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:49 +0000
Subject: [PATCH 094/107] fix: Skater_reg with an affinity failed to score
 clusters on the data

---
 spreg/skater_reg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 4f190bb..6dc7cab 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -157,7 +157,10 @@ class Skater_reg(object):
         if affinity is not None:
             # invert the 0,1 affinity to
             # to an unbounded positive dissimilarity
-            metric = lambda x: -np.log(affinity(x))
+            # (Y is given when scoring observations against their cluster center)
+            metric = lambda X, Y=None: -np.log(
+                affinity(X) if Y is None else affinity(X, Y)
+            )
         else:
             metric = dissimilarity
         self.metric = metric
-- 
2.43.0


From 14dca50bb202e8260487074f4064c400d0ebd3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:35 +0000
Subject: [PATCH 095/107] fix: Skater_reg could not score a cluster in which a
 regressor is constant

---
 spreg/skater_reg.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 6dc7cab..9f0b16b 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -445,10 +445,7 @@ class Skater_reg(object):
                             temp_vars[key] = mat[:, ~small_diag_indices]
 
                     x = temp_vars["x"]
-                    try:
-                        x = np.hstack((np.ones((x.shape[0], 1)), x))
-                    except np.linalg.LinAlgError:
-                        x = _const_x(x)
+                    x = _const_x(x)  # columns without variation in this cluster
 
                     if temp_vars["yend"] is not None:
                         kargs["yend"] = temp_vars["yend"]
-- 
2.43.0


From b2f9ca4da80a3e5d0d8b6cdfd17af06bd1fbdace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:39 +0000
Subject: [PATCH 096/107] fix: PanelRE took regressors measured in large units
 for time-invariant ones

---
 spreg/panel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/panel.py b/spreg/panel.py
index b65a4f2..7a969d5 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -554,7 +554,7 @@ class PanelRE(RegressionPropsY, RegressionPropsVM):
         x_dem = bigx - x_mean_long
         
         var_check = np.var(x_dem, axis=0)
-        valid_cols = var_check > 1e-12 
+        valid_cols = var_check > 1e-12 * np.var(bigx, axis=0) 
         
         beta_fe = None
         xtx_inv_fe = None
-- 
2.43.0


From cb803f53cc464acc8bc3bd06b31a6ae9eb4b061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:10 +0000
Subject: [PATCH 097/107] fix: power expansion stopped early for data in small
 units (predictions and variances of ML lag models)

---
 spreg/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/utils.py b/spreg/utils.py
index 0a2fca9..9e8a1bb 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -673,6 +673,8 @@ def power_expansion(
     # the increments of a convergent expansion can grow for a few steps (W need
     # not be a contraction in this norm), only sustained growth is divergence
     max_norm = 1e8 * max(la.norm(data), 1.0)
+    # data in small units need a correspondingly smaller threshold
+    threshold = threshold * min(la.norm(data), 1.0)
     if max_iterations == None:
         max_iterations = 10000000
     while test > threshold and count <= max_iterations:
-- 
2.43.0


From db025de932889b5bf4874f1d6791681979185326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:35 +0000
Subject: [PATCH 098/107] fix: wide panels whose x had columns beyond a
 multiple of the periods lost those columns silently

---
 spreg/panel_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spreg/panel_utils.py b/spreg/panel_utils.py
index 82abe40..7eede11 100755
--- a/spreg/panel_utils.py
+++ b/spreg/panel_utils.py
@@ -93,6 +93,10 @@ def check_panel(y, x, w, name_y, name_x):
             "to k2, etc."
         )
         N, T = y.shape[0], y.shape[1]
+        if x.shape[1] == 0 or x.shape[1] % T != 0:
+            raise Exception(
+                "X must have either n rows and k*t columns or n*t rows and k columns."
+            )
         k = x.shape[1] // T
         bigy = y.reshape((y.size, 1), order="F")
         bigx = x[:, 0:T].reshape((N * T, 1), order="F")
-- 
2.43.0


From a8aaba011f7c751cabaae10db067fbe3752024b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:20 +0000
Subject: [PATCH 099/107] fix: sur_dictZ failed for time identifiers that are
 not numbers

---
 spreg/sur_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/sur_utils.py b/spreg/sur_utils.py
index 509b6dd..fbc900c 100644
--- a/spreg/sur_utils.py
+++ b/spreg/sur_utils.py
@@ -237,7 +237,7 @@ def sur_dictZ(db, z_vars, form="spreg", const=False, space_id=None, time_id=None
         n_eq = len(tt1)
         tt2 = list(tt1)
         tt2.sort()
-        tt3 = [str(int(a)) for a in tt2]
+        tt3 = [a if isinstance(a, str) else str(int(a)) for a in tt2]
         n = bign / n_eq
         try:
             longz = np.array([db[name] for name in z_vars[0]]).T
-- 
2.43.0


From d3f0cb439c6b308e0d6f1280c9a72e97bfda6bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:24 +0000
Subject: [PATCH 100/107] fix: repeated rows of a long-format system overwrote
 each other silently

---
 spreg/sur_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spreg/sur_utils.py b/spreg/sur_utils.py
index fbc900c..65cd87a 100644
--- a/spreg/sur_utils.py
+++ b/spreg/sur_utils.py
@@ -156,6 +156,8 @@ def sur_dictxy(db, y_vars, x_vars, space_id=None, time_id=None):
             if sval not in sdict:
                 skeys.append(sval)
                 sdict[sval] = True
+        if bign != n_eq * len(skeys):
+            raise Exception("Error: every space id must have one row per time id")
 
         bigy = {}
         bigX = {}
@@ -259,6 +261,8 @@ def sur_dictZ(db, z_vars, form="spreg", const=False, space_id=None, time_id=None
             if sval not in sdict:
                 skeys.append(sval)
                 sdict[sval] = True
+        if bign != n_eq * len(skeys):
+            raise Exception("Error: every space id must have one row per time id")
 
         bigZ = {}
         bigZ_names = {}
-- 
2.43.0


From 19be930b24de9216d38516d606cb7880a61d2371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:42 +0000
Subject: [PATCH 101/107] fix: hard_bound and the boundary warning ignored the
 spatial lag parameter of combo models and of separate lags with common
 coefficients

---
 spreg/error_sp.py             | 3 ++-
 spreg/error_sp_het.py         | 3 ++-
 spreg/error_sp_het_regimes.py | 6 ++++--
 spreg/error_sp_hom.py         | 3 ++-
 spreg/error_sp_hom_regimes.py | 6 ++++--
 spreg/twosls_sp_regimes.py    | 6 ++++--
 6 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/spreg/error_sp.py b/spreg/error_sp.py
index 3fa9f99..0a27646 100644
--- a/spreg/error_sp.py
+++ b/spreg/error_sp.py
@@ -999,7 +999,8 @@ class GM_Combo(BaseGM_Endog_Error):
 
         self.rho = self.betas[-2]
         self.predy_e, self.e_pred, warn = sp_att(
-            w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho
+            w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho,
+            hard_bound=hard_bound
         )
         set_warn(self, warn)
         self.title = "SPATIALLY WEIGHTED 2SLS - GM-COMBO MODEL"
diff --git a/spreg/error_sp_het.py b/spreg/error_sp_het.py
index ade12f7..245ebc7 100755
--- a/spreg/error_sp_het.py
+++ b/spreg/error_sp_het.py
@@ -1456,7 +1456,8 @@ class GM_Combo_Het(BaseGM_Combo_Het):
         )
         self.rho = self.betas[-2]
         self.predy_e, self.e_pred, warn = UTILS.sp_att(
-            w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho
+            w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho,
+            hard_bound=hard_bound
         )
         UTILS.set_warn(self, warn)
         self.title = "SPATIALLY WEIGHTED 2SLS- GM-COMBO MODEL (HET)"
diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index fc71e6b..d29f0bc 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -1805,7 +1805,8 @@ class GM_Combo_Het_Regimes(GM_Endog_Error_Het_Regimes):
         if regime_err_sep != True:
             self.rho = self.betas[-2]
             self.predy_e, self.e_pred, warn = UTILS.sp_att(
-                w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho
+                w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho,
+                hard_bound=hard_bound
             )
             UTILS.set_warn(self, warn)
             self.regime_lag_sep = regime_lag_sep
@@ -1907,7 +1908,8 @@ def _work_endog_error(
     if add_lag != False:
         model.rho = model.betas[-2]
         model.predy_e, model.e_pred, warn = sp_att(
-            w_r, model.y, model.predy, model.yend[:, -1].reshape(model.n, 1), model.rho
+            w_r, model.y, model.predy, model.yend[:, -1].reshape(model.n, 1), model.rho,
+            hard_bound=hard_bound
         )
         set_warn(model, warn)
         
diff --git a/spreg/error_sp_hom.py b/spreg/error_sp_hom.py
index 8d49679..75cc08c 100644
--- a/spreg/error_sp_hom.py
+++ b/spreg/error_sp_hom.py
@@ -1406,7 +1406,8 @@ class GM_Combo_Hom(BaseGM_Combo_Hom):
         )
         self.rho = self.betas[-2]
         self.predy_e, self.e_pred, warn = sp_att(
-            w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho
+            w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho,
+            hard_bound=hard_bound
         )
         set_warn(self, warn)
         self.title = "SPATIALLY WEIGHTED 2SLS- GM-COMBO MODEL (HOM)"
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index 3591bb6..bfe3a21 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -1804,7 +1804,8 @@ class GM_Combo_Hom_Regimes(GM_Endog_Error_Hom_Regimes):
         if regime_err_sep != True:
             self.rho = self.betas[-2]
             self.predy_e, self.e_pred, warn = sp_att(
-                w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho
+                w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho,
+                hard_bound=hard_bound
             )
             set_warn(self, warn)
             self.regime_lag_sep = regime_lag_sep
@@ -1897,7 +1898,8 @@ def _work_endog_error(
     if add_lag != False:
         model.rho = model.betas[-2]
         model.predy_e, model.e_pred, warn = sp_att(
-            w_r, model.y, model.predy, model.yend[:, -1].reshape(model.n, 1), model.rho
+            w_r, model.y, model.predy, model.yend[:, -1].reshape(model.n, 1), model.rho,
+            hard_bound=hard_bound
         )
         set_warn(model, warn)
     if slx_lags == 0:
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index f510aaf..f4364c2 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -632,7 +632,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             )
 
             if regime_lag_sep:  # not currently available.
-                self.sp_att_reg(w_i, regi_ids, yend2[:, -1].reshape(self.n, 1))
+                self.sp_att_reg(w_i, regi_ids, yend2[:, -1].reshape(self.n, 1), hard_bound)
             else:
                 self.rho = self.betas[-1]
                 self.output.iat[-1, self.output.columns.get_loc('var_type')] = 'rho'
@@ -889,7 +889,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
         #   self._get_spat_diag_props(y, x, w, yend, q, w_lags, lag_q)
         output(reg=self, vm=vm, robust=robust, other_end=False, latex=latex)
 
-    def sp_att_reg(self, w_i, regi_ids, wy):
+    def sp_att_reg(self, w_i, regi_ids, wy, hard_bound=False):
         predy_e_r, e_pred_r = {}, {}
         self.predy_e = np.zeros((self.n, 1), float)
         self.e_pred = np.zeros((self.n, 1), float)
@@ -908,7 +908,9 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
                 self.predy[regi_ids[r]],
                 wy[regi_ids[r]],
                 self.rho,
+                hard_bound=hard_bound,
             )
+            set_warn(self, warn)
             counter += 1
 
     def _get_spat_diag_props(self, y, x, w, yend, q, w_lags, lag_q):
-- 
2.43.0


From 79b4433d3b34944e45cef1194299401af05f8e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:15 +0000
Subject: [PATCH 102/107] fix: breusch_pagan and koenker_bassett refused an
 array of auxiliary regressors

---
 spreg/diagnostics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/diagnostics.py b/spreg/diagnostics.py
index e283a5d..98c3b97 100755
--- a/spreg/diagnostics.py
+++ b/spreg/diagnostics.py
@@ -801,7 +801,7 @@ def breusch_pagan(reg, z=None):
     den = ete / n
     g = e2 / den - 1.0
 
-    if z == None:
+    if z is None:
         x = reg.x
         # constant = constant_check(x)
         # if constant == False:
@@ -1122,7 +1122,7 @@ def koenker_bassett(reg, z=None):
     g = u - ubari
     v = (1.0 / n) * np.sum((u - ubar) ** 2)
 
-    if z == None:
+    if z is None:
         x = reg.x
         # constant = constant_check(x)
         # if constant == False:
-- 
2.43.0


From 8c83a3139736db21c93fb3d232a950784ef21ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:11 +0000
Subject: [PATCH 103/107] fix: dgp_spdurbin and dgp_gns went on after refusing
 weights of the wrong dimension

---
 spreg/dgp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/dgp.py b/spreg/dgp.py
index a61b7f7..f60932d 100644
--- a/spreg/dgp.py
+++ b/spreg/dgp.py
@@ -659,6 +659,7 @@ def dgp_spdurbin(u,xb,wxg,w,rho=0.5,imethod='power_exp',ybin=False):
         return None
     if w.n != n1:
         print("Error: incompatible weights dimensions")
+        return None
     y1 = xb + wxg + u
     y = inverse_prod(w,y1,rho,inv_method=imethod)
     if ybin:
@@ -784,6 +785,7 @@ def dgp_gns(u,xb,wxg,w,rho=0.5,lam=0.2,model='sar',imethod='power_exp',ybin=Fals
         return None
     if w.n != n1:
         print("Error: incompatible weights dimensions")
+        return None
     if model == 'sar':
         u1 = inverse_prod(w,u,lam,inv_method=imethod)
     elif model == 'ma':
-- 
2.43.0


From a4e15a9c97564229ae08a688361ef0b0039acd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:31 +0000
Subject: [PATCH 104/107] fix: name_x of another length than the columns of x
 was accepted and mislabelled the coefficients of regimes models

---
 spreg/user_output.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spreg/user_output.py b/spreg/user_output.py
index 1442f65..7b36429 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -912,6 +912,11 @@ def check_constant(x, name_x=None, just_rem=False):
 
     if x_constant.ndim == 1:
         x_constant = x_constant.reshape(-1, 1)
+    if keep_x and len(keep_x) != x_constant.shape[1]:
+        raise Exception(
+            "name_x must have one name for each column of x (%d names, %d columns)."
+            % (len(keep_x), x_constant.shape[1])
+        )
 
     if isinstance(x_constant, np.ndarray):
         diffs = np.ptp(x_constant, axis=0)
-- 
2.43.0


From f11d1fd7022c3252e75d8660ac77c4d53729f95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:50 +0000
Subject: [PATCH 105/107] fix: name_yend and name_q of another length than the
 columns were accepted and mislabelled the coefficients

---
 spreg/error_sp_het_regimes.py |  2 +-
 spreg/error_sp_hom_regimes.py |  2 +-
 spreg/error_sp_regimes.py     |  2 +-
 spreg/twosls_regimes.py       |  2 +-
 spreg/user_output.py          | 10 +++++++++-
 5 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index d29f0bc..00b866d 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -946,7 +946,7 @@ class GM_Endog_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
         n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
-        yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
+        yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q], check_names=summ)
         self.constant_regi = constant_regi
         self.cols2regi = cols2regi
         self.name_ds = USER.set_name_ds(name_ds)
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index bfe3a21..68c895c 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -963,7 +963,7 @@ class GM_Endog_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
         n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
-        yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
+        yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q], check_names=summ)
         self.constant_regi = constant_regi
         self.cols2regi = cols2regi
         self.name_ds = USER.set_name_ds(name_ds)
diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index cce65a7..2c64192 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -824,7 +824,7 @@ class GM_Endog_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
         n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
-        yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
+        yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q], check_names=summ)
         x_constant, name_x, warn = USER.check_constant(
             x, name_x, just_rem=True)
         set_warn(self, warn)
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 787604d..3beae01 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -345,7 +345,7 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
         n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         USER.check_robust(robust, gwk)
-        yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
+        yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q], check_names=summ)
         if robust == "hac":
             if regime_err_sep:
                 set_warn(
diff --git a/spreg/user_output.py b/spreg/user_output.py
index 7b36429..8164b3e 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -518,7 +518,7 @@ def check_y(y, n, name_y=None):
 
     return y, name_y
 
-def check_endog(arrays, names):
+def check_endog(arrays, names, check_names=True):
     """Check if each of the endogenous arrays passed by a user to a regression class are
     pandas objects. In this case, the function converts them to numpy arrays and collects their names.
 
@@ -528,6 +528,8 @@ def check_endog(arrays, names):
               List of endogenous variables passed by the user to a regression class
     names  : list
               List of names of the endogenous variables, assumed in the same order as the arrays
+    check_names : boolean
+              If True (default), lists of names must be as long as the number of columns
     """
     for i in range(len(arrays)):
         if isinstance(arrays[i], (pd.Series, pd.DataFrame)):
@@ -542,6 +544,12 @@ def check_endog(arrays, names):
             pass
         elif len(arrays[i].shape) == 1:
             arrays[i] = arrays[i].reshape((arrays[i].shape[0], 1))
+        if check_names and arrays[i] is not None and names[i]:
+            if len(names[i]) != arrays[i].shape[1]:
+                raise Exception(
+                    "name_yend and name_q must have one name for each column (%d names, %d columns)."
+                    % (len(names[i]), arrays[i].shape[1])
+                )
         check_numeric_bool(arrays[i])
     return (*arrays, *names)
 
-- 
2.43.0


From 06b214677c98f53762c63ba5009998cfb3f6bb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:16 +0000
Subject: [PATCH 106/107] fix: fixed effects panels kept time-invariant
 variables and returned arbitrary coefficients for them

---
 spreg/panel_fe.py    |  6 +++++-
 spreg/panel_utils.py | 31 +++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/spreg/panel_fe.py b/spreg/panel_fe.py
index f4e4fb1..92402ad 100755
--- a/spreg/panel_fe.py
+++ b/spreg/panel_fe.py
@@ -31,7 +31,7 @@ try:
 except ImportError:
     minimize_scalar_available = False
 
-from .panel_utils import check_panel, demean_panel
+from .panel_utils import check_panel, demean_panel, drop_time_invariant
 
 __all__ = ["Panel_FE_Lag", "Panel_FE_Error"]
 
@@ -337,6 +337,8 @@ class Panel_FE_Lag(BasePanel_FE_Lag):
         set_warn(self, warn)
         bigx, name_x, warn = USER.check_constant(bigx, name_x, just_rem=True)
         set_warn(self, warn)
+        bigx, name_x, warn = drop_time_invariant(bigx, name_x, T)
+        set_warn(self, warn)
         w = USER.check_weights(w, bigy, w_required=True, time=True)
 
         BasePanel_FE_Lag.__init__(self, bigy, bigx, w, epsilon=epsilon)
@@ -627,6 +629,8 @@ class Panel_FE_Error(BasePanel_FE_Error):
         set_warn(self, warn)
         bigx, name_x, warn = USER.check_constant(bigx, name_x, just_rem=True)
         set_warn(self, warn)
+        bigx, name_x, warn = drop_time_invariant(bigx, name_x, T)
+        set_warn(self, warn)
         w = USER.check_weights(w, bigy, w_required=True, time=True)
 
         BasePanel_FE_Error.__init__(self, bigy, bigx, w, epsilon=epsilon)
diff --git a/spreg/panel_utils.py b/spreg/panel_utils.py
index 7eede11..aae96ad 100755
--- a/spreg/panel_utils.py
+++ b/spreg/panel_utils.py
@@ -27,6 +27,9 @@ def prepare_panel(y, x, w, name_y, name_x, slx_lags, slx_vars, title, add_consta
     # variable takes one column per period
     bigx, name_x, warn_add = USER.check_constant(bigx, name_x, just_rem=not add_constant)
     warn.append(warn_add)
+    if not add_constant:  # fixed effects models
+        bigx, name_x, warn_add = drop_time_invariant(bigx, name_x, T)
+        warn.append(warn_add)
     name_x = USER.set_name_x(name_x, bigx, constant=not add_constant)
     name_y = USER.set_name_y(name_y)
 
@@ -40,6 +43,34 @@ def prepare_panel(y, x, w, name_y, name_x, slx_lags, slx_vars, title, add_consta
     kwx = bigx.shape[1] - kx
     return bigy, bigx, name_y, name_x, w, warn, slx_lags, title, kx, kwx, T
 
+def drop_time_invariant(bigx, name_x, T):
+    """
+    Remove the variables which do not change over time from a long format matrix,
+    as they vanish when the data are demeaned.
+
+    Parameters
+    ----------
+    bigx       : array
+                 (n*t)xk array of independent variables, sorted by period
+    name_x     : list of strings
+                 Names of independent variables
+    T          : integer
+                 Number of periods
+    """
+    varies = np.ptp(bigx.reshape(T, -1, bigx.shape[1]), axis=0).max(axis=0) > 0
+    if varies.all():
+        return bigx, name_x, None
+    if not varies.any():
+        raise Exception("All the variables are time-invariant.")
+    if name_x:
+        dropped = [name_x[i] for i in np.nonzero(~varies)[0]]
+        name_x = [name_x[i] for i in np.nonzero(varies)[0]]
+        warn = "Variable(s) %s removed for being time-invariant." % dropped
+    else:
+        warn = "%d variable(s) removed for being time-invariant." % np.sum(~varies)
+    return bigx[:, varies], name_x, warn
+
+
 def check_panel(y, x, w, name_y, name_x):
     """
     Check the data structure and converts from wide to long if needed.
-- 
2.43.0


From 13d5665a4797c152b0b1c973bb4e426043663208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:11 +0000
Subject: [PATCH 107/107] fix: Skater_reg refused exactly as many observations
 as the clusters times the quorum

---
 spreg/skater_reg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 9f0b16b..11ba943 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -222,7 +222,7 @@ class Skater_reg(object):
         else:
             attribute_kernel = self.metric(data)
 
-        if data.shape[0] <= n_clusters*quorum:
+        if data.shape[0] < n_clusters*quorum:
             raise ValueError("The number of observations is less than the number of clusters times the quorum.")
         
         # binary weights, without changing the W object given by the user
-- 
2.43.0

