From 2d1743c6b474962781aba43ebb3156d3d887d1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 01/63] fix: lag only the selected variables of every order in
 set_endog

---
 spreg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 3fbf27a..ae29e85 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -716,7 +716,7 @@ def set_endog(y, x, w, yend, q, w_lags, lag_q, slx_lags=0, slx_vars="all"):
             if slx_vars.shape[0] != x.shape[1]:
                 raise Exception("slx_vars incompatible with x column dimensions")
             
-            lag_x = lag_x[:, slx_vars]
+            lag_x = lag_x[:, np.tile(slx_vars, slx_lags)]
             return yend, q, lag_x
 
 
-- 
2.43.0


From 30e990a9c597ffb3cd245e1220c0ebb8e61e6d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 02/63] fix: do not repeat lower-order lags in set_endog_sparse
 instruments

---
 spreg/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index ae29e85..9818b69 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -731,15 +731,19 @@ def set_endog_sparse(y, x, w, yend, q, w_lags, lag_q):
             lag_vars = sphstack(x, q)
         else:
             lag_vars = x
-        spatial_inst = w @ lag_vars
+        lag = w @ lag_vars
+        spatial_inst = lag
         for i in range(w_lags - 1):
-            spatial_inst = sphstack(spatial_inst, w @ spatial_inst)
+            lag = w @ lag
+            spatial_inst = sphstack(spatial_inst, lag)
         q = sphstack(q, spatial_inst)
         yend = sphstack(yend, yl)
     elif yend == None:  # spatial instruments only
-        q = w @ x
+        lag = w @ x
+        q = lag
         for i in range(w_lags - 1):
-            q = sphstack(q, w @ q)
+            lag = w @ lag
+            q = sphstack(q, lag)
         yend = yl
     else:
         raise Exception("invalid value passed to yend")
-- 
2.43.0


From e49ce420bb705f1bfb1687b9d4225b02eb7c4c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 03/63] fix: use the eigenvalues of the actual W in the ORD
 method of ML_Lag and ML_Error

---
 spreg/ml_error.py | 7 ++++---
 spreg/ml_lag.py   | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/spreg/ml_error.py b/spreg/ml_error.py
index e12fe7f..9798b8d 100755
--- a/spreg/ml_error.py
+++ b/spreg/ml_error.py
@@ -203,9 +203,10 @@ class BaseML_Error(RegressionPropsY, RegressionPropsVM, REGI.Regimes_Frame):
                 W = Wsp
             elif methodML == "ORD":
                 # check on symmetry structure
-                if w.asymmetry(intrinsic=False) == []:
-                    ww = symmetrize(w)
-                    WW = np.array(ww.todense())
+                WW = None
+                if w.transform.upper() == "R" and w.asymmetry(intrinsic=False) == []:
+                    WW = np.array(symmetrize(w).todense())
+                if WW is not None and np.allclose(WW, WW.T):
                     evals = la.eigvalsh(WW)
                     W = WW
                 else:
diff --git a/spreg/ml_lag.py b/spreg/ml_lag.py
index 41cbba2..12da8fc 100755
--- a/spreg/ml_lag.py
+++ b/spreg/ml_lag.py
@@ -235,9 +235,10 @@ class BaseML_Lag(RegressionPropsY, RegressionPropsVM):
                 )
             elif methodML == "ORD":
                 # check on symmetry structure
-                if w.asymmetry(intrinsic=False) == []:
-                    ww = symmetrize(w)
-                    WW = np.array(ww.todense())
+                WW = None
+                if w.transform.upper() == "R" and w.asymmetry(intrinsic=False) == []:
+                    WW = np.array(symmetrize(w).todense())
+                if WW is not None and np.allclose(WW, WW.T):
                     evals = la.eigvalsh(WW)
                     W = WW
                 else:
-- 
2.43.0


From c6e7cc2116cf43e57899220c83ea1c5a9e888eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 04/63] fix: keep the Panel_RE_Error optimiser away from lambda
 = +-1, where the likelihood is infinite

The line search of L-BFGS-B evaluates the bounds, gets infinite values there
and gives up at the starting values (0, 0.1), after which the information
matrix is singular.
---
 spreg/panel_re.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/panel_re.py b/spreg/panel_re.py
index a55e9b9..b1fbb9d 100755
--- a/spreg/panel_re.py
+++ b/spreg/panel_re.py
@@ -501,7 +501,7 @@ class BasePanel_RE_Error(RegressionPropsY, RegressionPropsVM):
         res = minimize(
             err_c_loglik_ord,
             (0.0, 0.1),
-            bounds=((-1.0, 1.0), (0.0, 10000.0)),
+            bounds=((-0.9999, 0.9999), (0.0, 10000.0)),
             method="L-BFGS-B",
             args=(
                 evals,
-- 
2.43.0


From 27ed1aebd45e1fcdc3e06d39a3ea41a1e5db22ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 05/63] fix: use the number of columns of the whole design in
 the spatial diagnostics of OLS_Regimes

With one model per regime the expectation and variance of Moran's I were
computed with the number of regressors of a single regime.
---
 spreg/ols_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index 4ebfd1b..3dcc232 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -681,11 +681,11 @@ class OLS_Regimes(BaseOLS, REGI.Regimes_Frame, RegressionPropsY):
         output(reg=self, vm=vm, robust=robust, other_end=other_end, latex=latex)
 
     def _get_spat_diag_props(self, x, sig2n_k):
-        self.k = self.kr
         self._cache = {}
         self.x = REGI.regimeX_setup(
             x, self.regimes, [True] * x.shape[1], self.regimes_set
         )
+        self.k = self.x.shape[1]
         self.xtx = spdot(self.x.T, self.x)
         self.xtxi = np.linalg.inv(self.xtx)
 
-- 
2.43.0


From daeff71c940105dd7b60e69166b1c0239763e232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:39 +0000
Subject: [PATCH 06/63] fix: power_expansion refused convergent series
 (temporary growth of the 2-norm, or data larger than 1e7) and integer data

---
 spreg/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 9818b69..2b4eead 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -659,6 +659,7 @@ def power_expansion(
     increment = copy.copy(data)
     count = 1
     test = 10000000
+    norm = np.inf
     if max_iterations == None:
         max_iterations = 10000000
     while test > threshold and count <= max_iterations:
@@ -666,10 +667,11 @@ def power_expansion(
             increment = increment @ ws * scalar
         else:
             increment = ws @ increment * scalar
-        running_total += increment
-        test_old = test
+        running_total = running_total + increment
+        norm_old = norm
+        norm = la.norm(increment, np.inf)
         test = la.norm(increment)
-        if test > test_old:
+        if norm > norm_old:
             raise Exception(
                 "power expansion will not converge, check model specification and that weight are less than 1"
             )
-- 
2.43.0


From e1534d8e7823e886c97b924dd85dd13b335a834c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 07/63] fix: spmultiplier power method stopped at the first
 zero or negative term of the series

---
 spreg/sputils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index 993ff9a..3be543f 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -318,14 +318,17 @@ def spmultiplier(w, rho, method="simple", mtol=0.00000001):
         pow = 1
         adi = 1.0
         adidiff = 100.00
+        adimax = 100.00
 
-        while adidiff > mtol:
+        while adimax > mtol:
             pow = pow + 1
             ww = SP.csr_matrix.dot(ww, ws3)
             trw = ww.diagonal().sum()
             rhop = rhop * rho
             adidiff = rhop * trw / n
             adi = adi + adidiff
+            # bound on the next terms: a zero or negative term does not end the series
+            adimax = abs(rhop) * abs(ww).sum(axis=1).max()
         multipliers["adi"] = adi.item()
         multipliers["pow"] = pow
     else:
-- 
2.43.0


From d877e1f9ff0a66859e7bd202c161124d31f8b092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:27 +0000
Subject: [PATCH 08/63] fix: i_multipliers accepts a pandas Series as id (as
 documented) and keeps rows aligned for any id index

---
 spreg/sputils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index 3be543f..1751432 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -473,7 +473,7 @@ def i_multipliers(w,coef=0.0,model='lag',id=None):
     eofNbrs = ww.sum(axis=1).reshape(-1,1)
     eonNbrs = ww.sum(axis=0).reshape(-1,1) 
 
-    if (isinstance(id,pd.core.frame.DataFrame)) or (isinstance(id,gpd.geoseries.GeoSeries)):
+    if isinstance(id,(pd.core.frame.DataFrame,pd.Series)):
         pdid = id   # already a data frame
     elif isinstance(id,np.ndarray):
         pdid = pd.DataFrame(id,columns=["ID"])
@@ -484,7 +484,7 @@ def i_multipliers(w,coef=0.0,model='lag',id=None):
         raise Exception("ID format not supported")
         
     impacts = np.concatenate((edirect,eofNbrs,eonNbrs),axis=1)  
-    dfimpacts = pd.DataFrame(impacts,columns=["Direct","EofNbrs","EonNbrs"])
+    dfimpacts = pd.DataFrame(impacts,columns=["Direct","EofNbrs","EonNbrs"],index=pdid.index)
     dfimpacts = pd.concat([pdid,dfimpacts],axis=1)
 
     return dfimpacts
-- 
2.43.0


From e2d7b22ed61b36ab65340ac92bc560639a547827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:09 +0000
Subject: [PATCH 09/63] fix: GM_Lag_Regimes labelled every regressor as a
 spatial lag of X when the constant is fixed (empty impacts table)

---
 spreg/twosls_sp_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index b698967..b677e38 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -643,7 +643,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             if slx_lags > 0:
                 for m in self.regimes_set:
                     r_output = self.output[(self.output['regime'] == str(m)) & (self.output['var_type'].isin(['x', 'o']))]
-                    wx_index = r_output.index[-((len(r_output)-1)//(slx_lags+1)) * slx_lags:]
+                    wx_index = r_output.index[-wx.shape[1]:]
                     self.output.loc[wx_index, 'var_type'] = 'wx'
                 self.title = " SPATIAL 2SLS WITH SLX (SPATIAL DURBIN MODEL) - REGIMES"
             top_diag = _spat_pseudo_r2(self)
-- 
2.43.0


From 93e5e4ef0409a453c8934a0070b54386f78bd936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:01 +0000
Subject: [PATCH 10/63] fix: dgp_spdurbin and dgp_gns went on after reporting
 incompatible weights instead of returning None

---
 spreg/dgp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/dgp.py b/spreg/dgp.py
index a61b7f7..2a4c6ad 100644
--- a/spreg/dgp.py
+++ b/spreg/dgp.py
@@ -659,6 +659,7 @@ def dgp_spdurbin(u,xb,wxg,w,rho=0.5,imethod='power_exp',ybin=False):
         return None
     if w.n != n1:
         print("Error: incompatible weights dimensions")
+        return None
     y1 = xb + wxg + u
     y = inverse_prod(w,y1,rho,inv_method=imethod)
     if ybin:
@@ -784,6 +785,7 @@ def dgp_gns(u,xb,wxg,w,rho=0.5,lam=0.2,model='sar',imethod='power_exp',ybin=Fals
         return None
     if w.n != n1:
         print("Error: incompatible weights dimensions")
+        return None
     if model == 'sar':
         u1 = inverse_prod(w,u,lam,inv_method=imethod)
     elif model == 'ma':
-- 
2.43.0


From 69c932500c3c2e9708b9e85771f8c2271fe47363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:12 +0000
Subject: [PATCH 11/63] fix: OLS_Regimes and TSLS_Regimes with separate error
 variances lost their covariance when spatial diagnostics were requested

---
 spreg/ols_regimes.py    | 2 +-
 spreg/twosls_regimes.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index 3dcc232..6150930 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -681,7 +681,7 @@ class OLS_Regimes(BaseOLS, REGI.Regimes_Frame, RegressionPropsY):
         output(reg=self, vm=vm, robust=robust, other_end=other_end, latex=latex)
 
     def _get_spat_diag_props(self, x, sig2n_k):
-        self._cache = {}
+        self._cache = {"vm": self.vm}
         self.x = REGI.regimeX_setup(
             x, self.regimes, [True] * x.shape[1], self.regimes_set
         )
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 9f408bc..6840b27 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -629,7 +629,7 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
             output(reg=self, vm=vm, robust=robust, other_end=diag_out, latex=latex)
 
     def _get_spat_diag_props(self, results, regi_ids, x, yend, q):
-        self._cache = {}
+        self._cache = {"vm": self.vm}
         x = REGI.regimeX_setup(x, self.regimes, [True] * x.shape[1], self.regimes_set)
         self.z = sphstack(
             x,
-- 
2.43.0


From aae808ee7050ca6c5e2c073bd731d2d26e99dc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:54 +0000
Subject: [PATCH 12/63] fix: probit likelihood ratio test counted the constant
 in its degrees of freedom

---
 spreg/diagnostics_probit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/diagnostics_probit.py b/spreg/diagnostics_probit.py
index 40c3edd..bf1428a 100644
--- a/spreg/diagnostics_probit.py
+++ b/spreg/diagnostics_probit.py
@@ -135,8 +135,8 @@ def probit_lrtest(regprob):
     likratio["L0"] = L0
     LR = -2.0 * (L0 - regprob.logl)
     likratio["likr"] = LR
-    likratio["df"] = regprob.k
-    pval = stats.chisqprob(LR, regprob.k)
+    likratio["df"] = regprob.k - 1
+    pval = stats.chisqprob(LR, regprob.k - 1)
     likratio["p-value"] = pval
 
     return likratio
-- 
2.43.0


From 32c0364e368e21904383d8ec6096d5e203b9b19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 13/63] fix: Chow tests of 3SLS and SUR-lag regimes compared
 the wrong coefficients with endogenous variables

---
 spreg/sur.py     | 4 +++-
 spreg/sur_lag.py | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/spreg/sur.py b/spreg/sur.py
index fbe4352..e0eef4c 100755
--- a/spreg/sur.py
+++ b/spreg/sur.py
@@ -870,6 +870,7 @@ class ThreeSLS(BaseThreeSLS, REGI.Regimes_Frame):
             self.regimes_set = REGI._get_regimes_set(regimes)
             self.regimes = regimes
             cols2regi_dic = {}
+            kryd = {}  # number of endogenous variables by equation
             self.name_bigX, self.name_x_r, self.name_bigq, self.name_bigyend = (
                 {},
                 {},
@@ -886,6 +887,7 @@ class ThreeSLS(BaseThreeSLS, REGI.Regimes_Frame):
                     yend=bigyend[r],
                     add_cons=False,
                 )
+                kryd[r] = bigyend[r].shape[1]
                 USER.check_regimes(self.regimes_set, bigy[0].shape[0], bigX[r].shape[1])
                 bigX[r], self.name_bigX[r], xtype = REGI.Regimes_Frame.__init__(
                     self,
@@ -941,7 +943,7 @@ class ThreeSLS(BaseThreeSLS, REGI.Regimes_Frame):
                 self.chow_regimes[r] = REGI._chow_run(
                     len(cols2regi_dic[r]),
                     0,
-                    0,
+                    kryd[r],
                     len(self.regimes_set),
                     self.b3SLS[r],
                     self.varb[varb_counter:counter_end, varb_counter:counter_end],
diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index 6eab0ac..1250a72 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -299,6 +299,7 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
             self.regimes_set = REGI._get_regimes_set(regimes)
             self.regimes = regimes
             cols2regi_dic = {}
+            kryd = {}  # number of regime-varying endogenous variables by equation
             self.name_bigX, self.name_bigq, self.name_bigyend = {}, {}, {}
             self.name_x_r = name_bigX
 
@@ -309,7 +310,9 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                 )
 
             for r in range(self.n_eq):
+                kryd[r] = 0
                 if bigyend is not None:
+                    kryd[r] = bigyend[r].shape[1]
                     self.name_x_r[r] += name_bigyend[r]
                     cols2regi_dic[r] = REGI.check_cols2regi(
                         self.constant_regi,
@@ -461,7 +464,7 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                 self.chow_regimes[r] = REGI._chow_run(
                     len(cols2regi_dic[r]),
                     fixed_lag,
-                    0,
+                    kryd[r],
                     len(self.regimes_set),
                     self.b3SLS[r],
                     self.varb[varb_counter:counter_end, varb_counter:counter_end],
-- 
2.43.0


From 6c27b08f08559f4a90fefcbdce59e320095ec4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 14/63] fix: SUR and 3SLS classes modified the dictionaries of
 the user, SURlagIV ignored the names provided

---
 spreg/sur.py       |  6 ++++++
 spreg/sur_error.py |  4 ++++
 spreg/sur_lag.py   | 37 +++++++++++++++++++++++++------------
 3 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/spreg/sur.py b/spreg/sur.py
index e0eef4c..55d918c 100755
--- a/spreg/sur.py
+++ b/spreg/sur.py
@@ -427,6 +427,8 @@ class SUR(BaseSUR, REGI.Regimes_Frame):
             else:
                 raise Exception("Error: bigy and bigX must be both lists or both dictionaries")
 
+        # work on copies: the dictionaries provided by the user are not modified
+        bigX = dict(bigX)
         self.name_ds = USER.set_name_ds(name_ds)
         self.name_w = USER.set_name_w(name_w, w)
         self.n_eq = len(bigy.keys())
@@ -827,6 +829,10 @@ class ThreeSLS(BaseThreeSLS, REGI.Regimes_Frame):
             else:
                 raise Exception("Error: bigy, bigX, bigyend and bigq must be all lists or all dictionaries")
 
+        # work on copies: the dictionaries provided by the user are not modified
+        bigX = dict(bigX)
+        bigyend = dict(bigyend)
+        bigq = dict(bigq)
         self.name_ds = USER.set_name_ds(name_ds)
         self.n_eq = len(bigy.keys())
 
diff --git a/spreg/sur_error.py b/spreg/sur_error.py
index 9a1585c..d73797c 100644
--- a/spreg/sur_error.py
+++ b/spreg/sur_error.py
@@ -328,6 +328,8 @@ class SURerrorGM(BaseSURerrorGM, REGI.Regimes_Frame):
                 raise Exception("Error: bigy and bigX must be both lists or both dictionaries")
 
         # check on variable names for listing results
+        # work on copies: the dictionaries provided by the user are not modified
+        bigX = dict(bigX)
         self.name_ds = USER.set_name_ds(name_ds)
         self.name_w = USER.set_name_w(name_w, w)
         # initialize names - should be generated by sur_stack
@@ -775,6 +777,8 @@ class SURerrorML(BaseSURerrorML, REGI.Regimes_Frame):
                 raise Exception("Error: bigy and bigX must be both lists or both dictionaries")
             
         # check on variable names for listing results
+        # work on copies: the dictionaries provided by the user are not modified
+        bigX = dict(bigX)
         self.name_ds = USER.set_name_ds(name_ds)
         self.name_w = USER.set_name_w(name_w, w)
         self.n_eq = len(bigy.keys())
diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index 1250a72..68b8139 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -244,6 +244,12 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
             else:
                 raise Exception("Error: bigy, bigX, bigyend (if provided) and bigq (if provided) must be all lists or all dictionaries")
 
+        # work on copies: the dictionaries provided by the user are not modified
+        bigX = dict(bigX)
+        if bigyend is not None:
+            bigyend = dict(bigyend)
+        if bigq is not None:
+            bigq = dict(bigq)
         self.name_ds = USER.set_name_ds(name_ds)
         self.n_eq = len(bigy.keys())
         
@@ -274,22 +280,29 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                 ct = "Constant_" + str(r + 1)  # NOTE: constant always included in X
                 name_x.insert(0, ct)
                 name_bigX[r] = name_x
-        if name_bigyend is None:
-            name_bigyend = {}
+        name_bigX = {r: list(name_bigX[r]) for r in name_bigX}
         if bigyend is not None:  # check on other endogenous
             self.bigyend = bigyend
-            for r in range(self.n_eq):
-                ky = bigyend[r].shape[1]
-                name_ye = ["end_" + str(i + 1) + "_" + str(r + 1) for i in range(ky)]
-                name_bigyend[r] = name_ye
-        if name_bigq is None:
-            name_bigq = {}
+            if name_bigyend is None:
+                name_bigyend = {}
+                for r in range(self.n_eq):
+                    ky = bigyend[r].shape[1]
+                    name_ye = ["end_" + str(i + 1) + "_" + str(r + 1) for i in range(ky)]
+                    name_bigyend[r] = name_ye
+            name_bigyend = {r: list(name_bigyend[r]) for r in name_bigyend}
+        else:
+            name_bigyend = {}
         if bigq is not None:  # check on instruments
             self.bigq = bigq
-            for r in range(self.n_eq):
-                ki = bigq[r].shape[1]
-                name_i = ["inst_" + str(i + 1) + "_" + str(r + 1) for i in range(ki)]
-                name_bigq[r] = name_i
+            if name_bigq is None:
+                name_bigq = {}
+                for r in range(self.n_eq):
+                    ki = bigq[r].shape[1]
+                    name_i = ["inst_" + str(i + 1) + "_" + str(r + 1) for i in range(ki)]
+                    name_bigq[r] = name_i
+            name_bigq = {r: list(name_bigq[r]) for r in name_bigq}
+        else:
+            name_bigq = {}
 
         if regimes is not None:
             self.constant_regi = "many"
-- 
2.43.0


From 1c2cb002bbe70d1a9c8d08ad1d71af950fd586f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 15/63] fix: SURlagIV with regimes crashed with endogenous
 variables or a common spatial lag

---
 spreg/summary_output.py | 36 ++++++++++++++++--------------------
 spreg/sur_lag.py        | 17 +++++++++--------
 2 files changed, 25 insertions(+), 28 deletions(-)

diff --git a/spreg/summary_output.py b/spreg/summary_output.py
index 33145e8..f4baf8f 100755
--- a/spreg/summary_output.py
+++ b/spreg/summary_output.py
@@ -1900,37 +1900,33 @@ def summary_diag_sur(
                 if tsls:
                     kend = len(reg.name_bigyend[list(reg.name_bigyend.keys())[0]])
                     kx += -kend
+                # coefficients regime by regime, exogenous before endogenous,
+                # variables fixed across regimes (such as the spatial lag) last
+                kxr, kyr = kx // regK, kend // regK
+                order = []
+                for g in range(regK):
+                    order += range(g * kxr, (g + 1) * kxr)
+                    order += range(kx + g * kyr, kx + (g + 1) * kyr)
+                order += range(kx + regK * kyr, kx + kend)
                 names_chow = {}
-                reg_counter = 1
-                for k in range(len(reg.surchow)):
+                for k in order:
                     names_chow[k] = ""
-                    if k < ((kx + kend) * reg_counter - kend) / regK:
-                        kxadj = int(k - (reg_counter - 1) * kend / regK)
+                    if k < kx:
                         for i in reg.name_bigX:
-                            names_chow[k] += reg.name_bigX[i][kxadj] + ", "
+                            names_chow[k] += reg.name_bigX[i][k] + ", "
                     else:
                         for j in reg.name_bigyend:
-                            kxadj = int(k - kx * reg_counter / regK)
-                            names_chow[k] += reg.name_bigyend[j][kxadj] + ", "
-                    if k + 1 == (kx + kend) * reg_counter / regK:
-                        reg_counter += 1
+                            names_chow[k] += reg.name_bigyend[j][k - kx] + ", "
                     if len(names_chow[k]) > 42:
                         names_chow[k] = names_chow[k][0:38] + "..."
                     else:
                         names_chow[k] = names_chow[k][:-2]
-                reg_counter = 1
-                for k in range(len(reg.surchow)):
-                    if k < ((kx + kend) * reg_counter - kend) / regK:
-                        kadj = int(k - (reg_counter - 1) * kend / regK)
-                    else:
-                        kadj = int(kx + k - kx * reg_counter / regK)
-                    if k + 1 == (kx + kend) * reg_counter / regK:
-                        reg_counter += 1
+                for k in order:
                     strChow += "%41s        %2d   %10.3f           %6.4f\n" % (
                         names_chow[k],
-                        reg.surchow[kadj][1],
-                        reg.surchow[kadj][0],
-                        reg.surchow[kadj][2],
+                        reg.surchow[k][1],
+                        reg.surchow[k][0],
+                        reg.surchow[k][2],
                     )
             if spat_diag and chow_lamb:
                 strChow += "%41s        %2d   %10.3f           %6.4f\n" % (
diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index 68b8139..0f0f62d 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -11,6 +11,7 @@ from . import summary_output as SUMMARY
 from . import user_output as USER
 from . import regimes as REGI
 from .sur import BaseThreeSLS
+from .sputils import sphstack
 from .diagnostics_sur import sur_setp, sur_chow, sur_joinrho
 from .sur_utils import check_k, sur_dictxy, sur_dictZ
 
@@ -376,7 +377,7 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
         # spatial lag dependent variable fixed across regimes or no regimes
         if regimes is None or regime_lag_sep == False:
             bigyend, self.name_bigyend = _get_spatial_lag(
-                self, bigyend, WS, name_bigyend
+                self, bigyend, WS, self.name_bigyend
             )
         # spatially lagged exogenous variables
         bigwx = {}
@@ -390,13 +391,13 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                     bigwq = {}
                     for r in range(self.n_eq):
                         bigwq = WS @ bigq[r]
-                        bigq[r] = np.hstack((bigq[r], bigwx[r], bigwq))
+                        bigq[r] = sphstack(sphstack(bigq[r], bigwx[r]), bigwq)
                         wqnames = ["W_" + i for i in self.name_bigq[r]]
                         wxnames[r] = wxnames[r] + wqnames
                         self.name_bigq[r] = self.name_bigq[r] + wxnames[r]
                 else:  # no lags for other instruments
                     for r in range(self.n_eq):
-                        bigq[r] = np.hstack((bigq[r], bigwx[r]))
+                        bigq[r] = sphstack(bigq[r], bigwx[r])
                         self.name_bigq[r] = self.name_bigq[r] + wxnames[r]
             else:  # no other instruments only wx
                 bigq = {}
@@ -411,7 +412,7 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                 wxnames[r] = nameswork
                 for i in range(1, w_lags):
                     bigwxwork = WS @ bigwxwork
-                    bigwx[r] = np.hstack((bigwx[r], bigwxwork))
+                    bigwx[r] = sphstack(bigwx[r], bigwxwork)
                     nameswork = ["W" + i for i in nameswork]
                     wxnames[r] = wxnames[r] + nameswork
             if bigq:  # other instruments
@@ -425,15 +426,15 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
                         wq[r] = bigwq
                         for i in range(1, w_lags):
                             bigwq = WS @ bigwq
-                            wq[r] = np.hstack((wq[r], bigwq))
+                            wq[r] = sphstack(wq[r], bigwq)
                             wqnameswork = ["W" + i for i in wqnameswork]
                             wqnames[r] = wqnames[r] + wqnameswork
-                        bigq[r] = np.hstack((bigq[r], bigwx[r], wq[r]))
+                        bigq[r] = sphstack(sphstack(bigq[r], bigwx[r]), wq[r])
                         self.name_bigq[r] = self.name_bigq[r] + wxnames[r] + wqnames[r]
 
                 else:  # no lags for other instruments
                     for r in range(self.n_eq):
-                        bigq[r] = np.hstack((bigq[r], bigwx[r]))
+                        bigq[r] = sphstack(bigq[r], bigwx[r])
                         self.name_bigq[r] = self.name_bigq[r] + wxnames[r]
             else:  # no other instruments only wx
                 bigq = {}
@@ -500,7 +501,7 @@ def _get_spatial_lag(reg, bigyend, WS, name_bigyend):
         bigylag[r] = WS @ reg.bigy[r]
     if bigyend is not None:
         for r in range(reg.n_eq):
-            bigyend[r] = np.hstack((bigyend[r], bigylag[r]))
+            bigyend[r] = sphstack(bigyend[r], bigylag[r])
         # adjust variable names
         for r in range(reg.n_eq):
             wyname = "W_" + reg.name_bigy[r]
-- 
2.43.0


From a3ca91703b9dc0398a557fa5eb172b3922cc0ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 16/63] fix: sur_dictxy and sur_dictZ failed on stacked data
 (Python 2 dict.has_key)

---
 spreg/sur_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spreg/sur_utils.py b/spreg/sur_utils.py
index 3041e41..0457234 100644
--- a/spreg/sur_utils.py
+++ b/spreg/sur_utils.py
@@ -121,11 +121,11 @@ def sur_dictxy(db, y_vars, x_vars, space_id=None, time_id=None):
         for i in range(bign):
             sval = ss[i][0]  # e.g. FIPSNO 27077
             tval = tt[i][0]  # e.g. TIME 1960
-            if tmpy.has_key(tval):
+            if tval in tmpy:
                 tmpy[tval][sval] = y[i]
-            if tmpX.has_key(tval):
+            if tval in tmpX:
                 tmpX[tval][sval] = longxc[i]
-            if not sdict.has_key(sval):
+            if sval not in sdict:
                 skeys.append(sval)
                 sdict[sval] = True
 
@@ -226,9 +226,9 @@ def sur_dictZ(db, z_vars, form="spreg", const=False, space_id=None, time_id=None
         for i in range(bign):
             sval = ss[i][0]  # e.g. 27077
             tval = tt[i][0]  # e.g. 1960
-            if tmpz.has_key(tval):
+            if tval in tmpz:
                 tmpz[tval][sval] = longz[i]
-            if not sdict.has_key(sval):
+            if sval not in sdict:
                 skeys.append(sval)
                 sdict[sval] = True
 
-- 
2.43.0


From a870da69d87024bc084a3d3279d7f4bc79d5258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:21 +0000
Subject: [PATCH 17/63] fix: SUR LM lag test used the matrix product of the
 inverse covariance and E'WY in its score

---
 spreg/diagnostics_sur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/diagnostics_sur.py b/spreg/diagnostics_sur.py
index cc6a032..170a474 100644
--- a/spreg/diagnostics_sur.py
+++ b/spreg/diagnostics_sur.py
@@ -225,7 +225,7 @@ def surLMlag(n_eq, WS, bigy, bigX, bigE, bigYP, sig, varb):
     WY = WS @ Y
     EWY = np.dot(bigE.T, WY)
     sigi = la.inv(sig)
-    SEWE = sigi @ EWY
+    SEWE = sigi * EWY  # element by element
     score = SEWE.sum(axis=0)  # column sums
     score.resize(1, n_eq)  # score as a row vector
 
-- 
2.43.0


From 8ae39c6555cdbd8fbe6adb71211c8307df221eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:41 +0000
Subject: [PATCH 18/63] fix: err_c_loglik_sp returned infinity for sparse X,
 SURerrorML with regimes started from lambda = 1

---
 spreg/ml_error.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spreg/ml_error.py b/spreg/ml_error.py
index 9798b8d..f5b3b73 100755
--- a/spreg/ml_error.py
+++ b/spreg/ml_error.py
@@ -578,8 +578,8 @@ def err_c_loglik_sp(lam, n, y, ylag, x, xlag, I, Wsp):
 
     # 2. OLS residuals (using solve instead of inv)
     # Equivalent to: B = (X'X)^-1 X'y
-    xsxs = np.dot(xs.T, xs)
-    xsys = np.dot(xs.T, ys)
+    xsxs = spdot(xs.T, xs)
+    xsys = spdot(xs.T, ys)
     
     try:
         # Solves Ax = B for x. stable and faster than inv
@@ -588,7 +588,7 @@ def err_c_loglik_sp(lam, n, y, ylag, x, xlag, I, Wsp):
         return np.inf # Return infinity if singular to steer optimizer away
 
     # Calculate residuals
-    xb = np.dot(xs, betas)
+    xb = spdot(xs, betas)
     e = ys - xb
     
     # Calculate sigma^2
-- 
2.43.0


From fe843a49e932f1bf00d424c15cba8016ed8bc3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:02 +0000
Subject: [PATCH 19/63] fix: log-likelihood constants of Panel_FE_Lag,
 Panel_FE_Error, Panel_RE_Lag and Panel_RE_Error

---
 spreg/panel_fe.py |  4 ++--
 spreg/panel_re.py | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/spreg/panel_fe.py b/spreg/panel_fe.py
index 703d351..9311fac 100755
--- a/spreg/panel_fe.py
+++ b/spreg/panel_fe.py
@@ -647,7 +647,7 @@ def lag_c_loglik_sp(rho, n, t, e0, e1, I, Wsp):
         if rho.shape == (1, 1):
             rho = rho[0][0]
     er = e0 - rho * e1
-    sig2 = spdot(er.T, er)
+    sig2 = spdot(er.T, er) / (n * t)
     nlsig2 = (n * t / 2.0) * np.log(sig2)
     a = I - rho * Wsp
     LU = SuperLU(a.tocsc())
@@ -670,7 +670,7 @@ def err_c_loglik_sp(lam, n, t, y, ylag, x, xlag, I, Wsp):
     x1 = np.dot(xsxsi, xsys)
     x2 = np.dot(xsys.T, x1)
     ee = ysys - x2
-    sig2 = ee[0][0]
+    sig2 = ee[0][0] / (n * t)
     nlsig2 = (n * t / 2.0) * np.log(sig2)
     a = I - lam * Wsp
     LU = SuperLU(a.tocsc())
diff --git a/spreg/panel_re.py b/spreg/panel_re.py
index b1fbb9d..4f9e72b 100755
--- a/spreg/panel_re.py
+++ b/spreg/panel_re.py
@@ -170,7 +170,13 @@ class BasePanel_RE_Lag(RegressionPropsY, RegressionPropsVM):
 
         # compute full log-likelihood, including constants
         ln2pi = np.log(2.0 * np.pi)
-        llik = -res_rho.fun - (self.n * self.t) / 2.0 * ln2pi - (self.n * self.t) / 2.0
+        phi_jacob = self.n / 2.0 * np.log(self.phi ** 2)
+        llik = (
+            -res_rho.fun
+            + phi_jacob
+            - (self.n * self.t) / 2.0 * ln2pi
+            - (self.n * self.t) / 2.0
+        )
         self.logll = llik[0][0]
 
         # b, residuals and predicted values
@@ -824,7 +830,7 @@ def err_c_loglik_ord(
     x1 = np.dot(xsxsi, xsys)
     x2 = np.dot(xsys.T, x1)
     ee = ysys - x2
-    sig2 = ee[0][0]
+    sig2 = ee[0][0] / (n * t)
     nlsig2 = (n * t / 2.0) * np.log(sig2)
     # Term 2
     revals = t * phi ** 2 * (1 - lam * evals) ** 2
-- 
2.43.0


From 83292ca6262234a8b0911092f27412330590af1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:39 +0000
Subject: [PATCH 20/63] fix: panel_Hausman compares as many coefficients as its
 chi-squared distribution has degrees of freedom

---
 spreg/diagnostics_panel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/diagnostics_panel.py b/spreg/diagnostics_panel.py
index 8222809..b262e76 100755
--- a/spreg/diagnostics_panel.py
+++ b/spreg/diagnostics_panel.py
@@ -218,7 +218,7 @@ def panel_Hausman(panel_fe, panel_re, sp_lag=True):
     vard = panel_re.varb[1:, 1:] - panel_fe.varb
     vardi = la.inv(vard)
     h = spdot(d.T, spdot(vardi, d))
-    pval = chisqprob(h, panel_re.k)
+    pval = chisqprob(h, d.shape[0])
     return (h[0][0], pval[0][0])
 
 def BSK_tests(reg, w, which="all", GM_BSK=False):
-- 
2.43.0


From 8f6fc2dba0b12487f2daf9ace159201a979f6e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:09 +0000
Subject: [PATCH 21/63] fix: p-value of the joint BSK test when only one of the
 marginal statistics is positive

---
 spreg/diagnostics_panel.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/spreg/diagnostics_panel.py b/spreg/diagnostics_panel.py
index b262e76..e1d9855 100755
--- a/spreg/diagnostics_panel.py
+++ b/spreg/diagnostics_panel.py
@@ -326,17 +326,18 @@ def BSK_tests(reg, w, which="all", GM_BSK=False):
             # Joint Test (Eq 2.19)
             if LM1 > 0 and LM2 > 0:
                 LM_J = LM1**2 + LM2**2
-                prob_ch1 = 1 - stats.chi2.cdf(LM_J, df=1)
-                prob_ch2 = 1 - stats.chi2.cdf(LM_J, df=2)
-                pval_J = 0.5 * prob_ch1 + 0.25 * prob_ch2
             elif LM1 > 0 and LM2 <= 0:
                 LM_J = LM1**2
-                pval_J = 0.5 * (1 - stats.chi2.cdf(LM_J, df=1)) 
             elif LM1 <= 0 and LM2 > 0:
                 LM_J = LM2**2
-                pval_J = 0.5 * (1 - stats.chi2.cdf(LM_J, df=1))
             else:
                 LM_J = 0
+            if LM_J > 0:
+                # mixture of chi-squared distributions under the null
+                prob_ch1 = 1 - stats.chi2.cdf(LM_J, df=1)
+                prob_ch2 = 1 - stats.chi2.cdf(LM_J, df=2)
+                pval_J = 0.5 * prob_ch1 + 0.25 * prob_ch2
+            else:
                 pval_J = 1.0
 
             test_names.append("LM Joint (LMJ)")
-- 
2.43.0


From 3fb5c4c28967f67916befe8fd2c6771fd53f751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:09 +0000
Subject: [PATCH 22/63] fix: BSK_tests crashed when only the marginal spatial
 test was requested

---
 spreg/diagnostics_panel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spreg/diagnostics_panel.py b/spreg/diagnostics_panel.py
index e1d9855..1aceda0 100755
--- a/spreg/diagnostics_panel.py
+++ b/spreg/diagnostics_panel.py
@@ -277,12 +277,13 @@ def BSK_tests(reg, w, which="all", GM_BSK=False):
         else:
             pooled_mod = reg
 
+        u = pooled_mod.u 
+        u_mat = u.reshape((T, N))
+        u_sq_sum = np.sum(u**2)
+
         if any(test in which for test in ["LMJ", "LM1"]):
             # G term (Random Effects) - Eq 2.11
-            u = pooled_mod.u 
-            u_mat = u.reshape((T, N))
             u_sum_sq = np.sum(np.sum(u_mat, axis=0)**2) 
-            u_sq_sum = np.sum(u**2)
             G = (u_sum_sq / u_sq_sum) - 1
 
             # LM1: Marginal RE (Eq 2.12)
-- 
2.43.0


From 9b4bf947671900a641615bec19c2a87f1bd69cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:32 +0000
Subject: [PATCH 23/63] fix: BSK_tests did not pass the weights to PooledOLS

---
 spreg/diagnostics_panel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/diagnostics_panel.py b/spreg/diagnostics_panel.py
index 1aceda0..e98b609 100755
--- a/spreg/diagnostics_panel.py
+++ b/spreg/diagnostics_panel.py
@@ -273,7 +273,7 @@ def BSK_tests(reg, w, which="all", GM_BSK=False):
 
     if any(test in which for test in ["LMJ", "LM1", "LM2"]):
         if reg.__class__.__name__ != 'PooledOLS':
-            pooled_mod = PooledOLS(reg.y, reg.x)
+            pooled_mod = PooledOLS(reg.y, reg.x, w, spat_diag=False)
         else:
             pooled_mod = reg
 
-- 
2.43.0


From 690be73d50b24dca08439545f2181c4e35e90b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:57 +0000
Subject: [PATCH 24/63] fix: slx_vars was dropped when a class was called with
 regimes, and crashed the spatial lag regimes classes

---
 spreg/error_sp.py          |  4 +++-
 spreg/ml_error.py          |  1 +
 spreg/ml_lag.py            |  1 +
 spreg/ml_lag_regimes.py    | 11 ++++++++---
 spreg/ols.py               |  1 +
 spreg/sputils.py           | 13 ++++++++++---
 spreg/twosls.py            |  1 +
 spreg/twosls_sp.py         |  1 +
 spreg/twosls_sp_regimes.py | 11 ++++++++---
 spreg/user_output.py       |  2 +-
 10 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/spreg/error_sp.py b/spreg/error_sp.py
index 18cc550..bef13bc 100644
--- a/spreg/error_sp.py
+++ b/spreg/error_sp.py
@@ -1324,6 +1324,8 @@ class GMM_Error(GM_Error, GM_Endog_Error, GM_Combo, GM_Error_Het, GM_Endog_Error
         if regimes is not None:
             from .error_sp_regimes import GMM_Error_Regimes
             self.__class__ = GMM_Error_Regimes
+            if isinstance(slx_vars, list):
+                kwargs["slx_vars"] = slx_vars
             self.__init__(
                 y=y, x=x, regimes=regimes, w=w, yend=yend, q=q, estimator=estimator, add_wy=add_wy, 
                 slx_lags=slx_lags, vm=vm, name_y=name_y, name_x=name_x, name_w=name_w, name_yend=name_yend,
@@ -1373,7 +1375,7 @@ class GMM_Error(GM_Error, GM_Endog_Error, GM_Combo, GM_Error_Het, GM_Endog_Error
                                         name_w=name_w, name_ds=name_ds, latex=latex, hard_bound=hard_bound)
             else:
                 set_warn(self, 'Combination of arguments passed to GMM_Error not allowed. Using default arguments instead.')
-                GM_Error_Het.__init__(self, y=y, x=x, w=w, slx_lags=slx_lags, vm=vm, name_y=name_y, name_x=name_x, 
+                GM_Error_Het.__init__(self, y=y, x=x, w=w, slx_lags=slx_lags, slx_vars=slx_vars, vm=vm, name_y=name_y, name_x=name_x, 
                                         name_w=name_w, name_ds=name_ds, latex=latex, hard_bound=hard_bound)
 
 
diff --git a/spreg/ml_error.py b/spreg/ml_error.py
index f5b3b73..4413626 100755
--- a/spreg/ml_error.py
+++ b/spreg/ml_error.py
@@ -500,6 +500,7 @@ class ML_Error(BaseML_Error):
                 regimes=regimes,
                 w=w,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 method=method,
                 epsilon=epsilon,
                 vm=vm,
diff --git a/spreg/ml_lag.py b/spreg/ml_lag.py
index 12da8fc..efb4691 100755
--- a/spreg/ml_lag.py
+++ b/spreg/ml_lag.py
@@ -627,6 +627,7 @@ class ML_Lag(BaseML_Lag):
                 regimes=regimes,
                 w=w,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 method=method,
                 epsilon=epsilon,
                 spat_impacts=spat_impacts,
diff --git a/spreg/ml_lag_regimes.py b/spreg/ml_lag_regimes.py
index 060da2c..f9fdf99 100644
--- a/spreg/ml_lag_regimes.py
+++ b/spreg/ml_lag_regimes.py
@@ -367,6 +367,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
         self.regimes_set = REGI._get_regimes_set(regimes)
         self.regimes = regimes
         self.regime_lag_sep = regime_lag_sep
+        self.slx_vars = slx_vars
         self._cache = {}
         self.name_ds = USER.set_name_ds(name_ds)
         self.name_w = USER.set_name_w(name_w, w)
@@ -461,7 +462,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
                 self.title = ("MAXIMUM LIKELIHOOD SPATIAL LAG - REGIMES"+ " (METHOD = "+ method+ ")")
                
             if spat_impacts:
-                self.sp_multipliers, impacts_str = _summary_impacts(self, w, spat_impacts, slx_lags, regimes=True)
+                self.sp_multipliers, impacts_str = _summary_impacts(self, w, spat_impacts, slx_lags, slx_vars, regimes=True)
                 try:
                     diag_out += impacts_str
                 except TypeError:
@@ -607,7 +608,11 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
             results[r].other_mid = ""
             if slx_lags > 0:
                 kx = (len(results[r].name_x) - 1) // (slx_lags + 1)
-                var_types = ['o']+['x']*kx + ['wx'] * kx * slx_lags + ['rho']
+                kwx = kx
+                results[r].slx_vars = self.slx_vars
+                if isinstance(self.slx_vars, list):
+                    kx, kwx = len(self.slx_vars), self.slx_vars.count(True)
+                var_types = ['o']+['x']*kx + ['wx'] * kwx * slx_lags + ['rho']
             else:
                 var_types = ['o']+['x'] * (len(results[r].name_x) - 2) + ['rho']
             results[r].output = pd.DataFrame({'var_names': results[r].name_x,
@@ -617,7 +622,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
             if spat_diag and slx_lags == 1:
                 results[r].other_mid += _spat_diag_out(results[r], None, 'yend', ml=True)
             if spat_impacts:
-                results[r].sp_multipliers, impacts_str = _summary_impacts(results[r], results[r].w, spat_impacts, slx_lags)
+                results[r].sp_multipliers, impacts_str = _summary_impacts(results[r], results[r].w, spat_impacts, slx_lags, self.slx_vars)
                 results[r].other_mid += impacts_str
             counter += 1
         self.multi = results
diff --git a/spreg/ols.py b/spreg/ols.py
index 9b1da1d..a4b411f 100755
--- a/spreg/ols.py
+++ b/spreg/ols.py
@@ -474,6 +474,7 @@ class OLS(BaseOLS):
                 robust=robust,
                 gwk=gwk,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 sig2n_k=sig2n_k,
                 nonspat_diag=nonspat_diag,
                 spat_diag=spat_diag,
diff --git a/spreg/sputils.py b/spreg/sputils.py
index 1751432..5f10bc3 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -368,9 +368,16 @@ def _sp_effects(reg, variables, spmult, slx_lags=0,slx_vars="All"):
             btot_idx = pd.Series(btot.flatten(), index=variables_x_index)   
             wchunk_size = len(variables.query("regime == @reg.output.regime.iloc[0]")) #Number of exogenous variables in each regime
             for i in range(slx_lags):
-                chunk_indices = variables_x_index + (i+1) * wchunk_size
-                bmult = m1 * reg.betas[chunk_indices]
-                btot_idx[variables_x_index] += bmult.flatten()
+                if isinstance(slx_vars, list):
+                    for r in variables['regime'].unique():
+                        x_r = list(compress(variables_x_index[variables['regime'] == r], slx_vars))
+                        wx_r = reg.output.query("regime == @r and var_type == 'wx'").index
+                        bmult = m1 * reg.betas[wx_r[i * len(x_r):(i + 1) * len(x_r)]]
+                        btot_idx[x_r] += bmult.flatten()
+                else:
+                    chunk_indices = variables_x_index + (i+1) * wchunk_size
+                    bmult = m1 * reg.betas[chunk_indices]
+                    btot_idx[variables_x_index] += bmult.flatten()
                 btot = btot_idx.to_numpy().reshape(btot.shape)
 
         else:
diff --git a/spreg/twosls.py b/spreg/twosls.py
index 0c59bb6..5b07aba 100644
--- a/spreg/twosls.py
+++ b/spreg/twosls.py
@@ -492,6 +492,7 @@ class TSLS(BaseTSLS):
                 robust=robust,
                 gwk=gwk,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 sig2n_k=sig2n_k,
                 spat_diag=spat_diag,
                 vm=vm,
diff --git a/spreg/twosls_sp.py b/spreg/twosls_sp.py
index 8efc6e6..26eb06a 100755
--- a/spreg/twosls_sp.py
+++ b/spreg/twosls_sp.py
@@ -548,6 +548,7 @@ class GM_Lag(BaseGM_Lag):
                 w=w,
                 w_lags=w_lags,
                 slx_lags=slx_lags,
+                slx_vars=slx_vars,
                 lag_q=lag_q,
                 robust=robust,
                 gwk=gwk,
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index b677e38..b336603 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -546,6 +546,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             regime_lag_sep = False
         self.regime_err_sep = regime_err_sep
         self.regime_lag_sep = regime_lag_sep
+        self.slx_vars = slx_vars
 
         if regime_lag_sep == True:
             cols2regi += [True]
@@ -656,7 +657,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             if spat_diag:
                 diag_out = _spat_diag_out(self, w, 'yend')
             if spat_impacts:
-                self.sp_multipliers, impacts_str = _summary_impacts(self, w, spat_impacts, slx_lags, regimes=True)
+                self.sp_multipliers, impacts_str = _summary_impacts(self, w, spat_impacts, slx_lags, slx_vars, regimes=True)
                 try:
                     diag_out += impacts_str
                 except TypeError:
@@ -854,7 +855,11 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             results[r].other_mid = ""
             if slx_lags > 0:
                 kx = (results[r].k - results[r].kstar - 1) // (slx_lags + 1)
-                var_types = ['o'] + ['x']*kx + ['wx'] * kx * slx_lags + ['yend'] * (len(results[r].name_yend) - 1) + ['rho']
+                kwx = kx
+                results[r].slx_vars = self.slx_vars
+                if isinstance(self.slx_vars, list):
+                    kx, kwx = len(self.slx_vars), self.slx_vars.count(True)
+                var_types = ['o'] + ['x']*kx + ['wx'] * kwx * slx_lags + ['yend'] * (len(results[r].name_yend) - 1) + ['rho']
             else:
                 var_types = ['o'] + ['x'] * (len(results[r].name_x)-1) + ['yend'] * (len(results[r].name_yend)-1) + ['rho']
             results[r].output = pd.DataFrame({'var_names': results[r].name_x + results[r].name_yend,
@@ -864,7 +869,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             if spat_diag:
                 results[r].other_mid += _spat_diag_out(results[r], results[r].w, 'yend')
             if spat_impacts:
-                results[r].sp_multipliers, impacts_str = _summary_impacts(results[r], results[r].w, spat_impacts, slx_lags)
+                results[r].sp_multipliers, impacts_str = _summary_impacts(results[r], results[r].w, spat_impacts, slx_lags, self.slx_vars)
                 results[r].other_mid += impacts_str
             counter += 1
         self.multi = results
diff --git a/spreg/user_output.py b/spreg/user_output.py
index 097dace..4f6ceb7 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -178,7 +178,7 @@ def set_name_spatial_lags(names, w_lags, slx_vars="all", additional=0):
     lag_names2 : string, only returned if additional > 0
 
     """
-    if slx_vars != "all":
+    if not (isinstance(slx_vars, str) and slx_vars.lower() == "all"):
         names = list(compress(names,slx_vars))
     lag_names = ["W_" + s for s in names]
     n_i = 1
-- 
2.43.0


From a0093a9c1059b1e0c81406392da0c117167d3ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:58 +0000
Subject: [PATCH 25/63] fix: instrument names with slx_vars (and slx_vars='all'
 in GM_Lag_Regimes) did not match the instruments

---
 spreg/error_sp.py          | 8 ++++----
 spreg/error_sp_het.py      | 8 ++++----
 spreg/error_sp_hom.py      | 6 ++----
 spreg/twosls_sp.py         | 8 ++++----
 spreg/twosls_sp_regimes.py | 4 ++--
 5 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/spreg/error_sp.py b/spreg/error_sp.py
index bef13bc..035f390 100644
--- a/spreg/error_sp.py
+++ b/spreg/error_sp.py
@@ -1042,10 +1042,10 @@ class GM_Combo(BaseGM_Endog_Error):
             self.name_x0 = []
             self.name_x0.append(self.name_x[0])  # constant
             if (isinstance(slx_vars,list)):   # boolean list passed
-                # x variables that were not lagged
-                self.name_x0.extend(list(compress(self.name_x[1:],[not i for i in slx_vars])))
-                # last wkx variables
-                self.name_x0.extend(self.name_x[-wkx:])
+                # the instruments are higher order lags of all x variables
+                self.name_x0.extend(
+                    USER.set_name_spatial_lags(self.name_x[1 : kx + 1], slx_lags)[-kx:]
+                )
 
 
             else:
diff --git a/spreg/error_sp_het.py b/spreg/error_sp_het.py
index a03d423..268aa90 100755
--- a/spreg/error_sp_het.py
+++ b/spreg/error_sp_het.py
@@ -1497,10 +1497,10 @@ class GM_Combo_Het(BaseGM_Combo_Het):
             self.name_x0 = []
             self.name_x0.append(self.name_x[0])  # constant
             if (isinstance(slx_vars,list)):   # boolean list passed
-                # x variables that were not lagged
-                self.name_x0.extend(list(compress(self.name_x[1:],[not i for i in slx_vars])))
-                # last wkx variables
-                self.name_x0.extend(self.name_x[-wkx:])
+                # the instruments are higher order lags of all x variables
+                self.name_x0.extend(
+                    USER.set_name_spatial_lags(self.name_x[1 : kx + 1], slx_lags)[-kx:]
+                )
 
 
             else:
diff --git a/spreg/error_sp_hom.py b/spreg/error_sp_hom.py
index e7210ff..b46cfaa 100644
--- a/spreg/error_sp_hom.py
+++ b/spreg/error_sp_hom.py
@@ -1449,12 +1449,10 @@ class GM_Combo_Hom(BaseGM_Combo_Hom):
             self.name_x0 = []
             self.name_x0.append(self.name_x[0])  # constant
             if isinstance(slx_vars, list):  # boolean list passed
-                # x variables that were not lagged
+                # the instruments are higher order lags of all x variables
                 self.name_x0.extend(
-                    list(compress(self.name_x[1:], [not i for i in slx_vars]))
+                    USER.set_name_spatial_lags(self.name_x[1 : kx + 1], slx_lags)[-kx:]
                 )
-                # last wkx variables
-                self.name_x0.extend(self.name_x[-wkx:])
 
             else:
                 okx = int(
diff --git a/spreg/twosls_sp.py b/spreg/twosls_sp.py
index 26eb06a..e974836 100755
--- a/spreg/twosls_sp.py
+++ b/spreg/twosls_sp.py
@@ -633,10 +633,10 @@ class GM_Lag(BaseGM_Lag):
                 self.name_x0 = []
                 self.name_x0.append(self.name_x[0])  # constant
                 if (isinstance(slx_vars,list)):   # boolean list passed
-                    # x variables that were not lagged
-                    self.name_x0.extend(list(compress(self.name_x[1:],[not i for i in slx_vars])))
-                    # last wkx variables
-                    self.name_x0.extend(self.name_x[-wkx:])
+                    # the instruments are higher order lags of all x variables
+                    self.name_x0.extend(
+                        USER.set_name_spatial_lags(self.name_x[1 : kx + 1], slx_lags)[-kx:]
+                    )
 
 
                 else:
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index b336603..1817038 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -517,8 +517,8 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             set_warn(self,"WX is computed using the complete W, i.e. not trimmed by regimes.")
             x_constant = np.hstack((x_constant, wx))
             name_slx = USER.set_name_spatial_lags(name_x, slx_lags, slx_vars=slx_vars)
-            iter_slx = iter(name_slx) 
-            name_q_temp = [next(iter_slx) if keep else name for name, keep in zip(name_x, slx_vars)]
+            # the instruments are higher order lags of all x variables
+            name_q_temp = USER.set_name_spatial_lags(name_x, slx_lags)[-len(name_x):]
             name_q.extend(USER.set_name_q_sp(name_q_temp, w_lags, name_q, lag_q, force_all=True))
             name_x += name_slx
             if cols2regi == 'all':
-- 
2.43.0


From 14c937fac4a4a376a0736d80e4be2f205fc3cc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:11 +0000
Subject: [PATCH 26/63] fix: set_endog skipped the first instrument lag of X in
 models with WX and endogenous variables

---
 spreg/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 2b4eead..fea3689 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -685,7 +685,8 @@ def set_endog(y, x, w, yend, q, w_lags, lag_q, slx_lags=0, slx_vars="all"):
     # spatial and non-spatial instruments
     if issubclass(type(yend), np.ndarray):
         if slx_lags > 0:
-            lag_x, lag_xq = get_lags_split(w, x, slx_lags+1, slx_lags)
+            lag_x = get_lags(w, x, slx_lags)
+            lag_xq = lag_x[:, -x.shape[1]:]
         else:
             lag_xq = x
         if lag_q:
-- 
2.43.0


From 6a03a33594ecee11be257762a0a361885ab0efcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:45 +0000
Subject: [PATCH 27/63] fix: 2SLS and lag regimes classes did not check yend
 and q

---
 spreg/error_sp_het_regimes.py | 2 +-
 spreg/error_sp_hom_regimes.py | 2 +-
 spreg/error_sp_regimes.py     | 2 +-
 spreg/twosls_regimes.py       | 2 +-
 spreg/twosls_sp_regimes.py    | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index d149d9e..993c3fb 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -1720,7 +1720,7 @@ class GM_Combo_Het_Regimes(GM_Endog_Error_Het_Regimes):
         if regime_err_sep and not regime_lag_sep:
             set_warn(self, "regime_err_sep set to False when regime_lag_sep=False.")                
             regime_err_sep = False
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         self.step1c = step1c
         y, name_y = USER.check_y(y, n, name_y)
         w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index 46262e5..f553923 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -1720,7 +1720,7 @@ class GM_Combo_Hom_Regimes(GM_Endog_Error_Hom_Regimes):
         if regime_err_sep and not regime_lag_sep:
             set_warn(self, "regime_err_sep set to False when regime_lag_sep=False.")                
             regime_err_sep = False
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index e5c1a2f..f6aeb1f 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -1501,7 +1501,7 @@ class GM_Combo_Regimes(GM_Endog_Error_Regimes, REGI.Regimes_Frame):
         if regime_err_sep and not regime_lag_sep:
             set_warn(self, "regime_err_sep set to False when regime_lag_sep=False.")                
             regime_err_sep = False
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 6840b27..b1b5702 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -342,7 +342,7 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
         latex=False,
     ):
 
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         USER.check_robust(robust, gwk)
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 1817038..46f7d89 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -482,7 +482,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
         hard_bound=False,
     ):
 
-        n = USER.check_arrays(y, x)
+        n = USER.check_arrays(y, x, yend, q)
         y, name_y = USER.check_y(y, n, name_y)
         yend, q, name_yend, name_q = USER.check_endog([yend, q], [name_yend, name_q])
         w = USER.check_weights(w, y, w_required=True, slx_lags=slx_lags)
-- 
2.43.0


From f0782cbbf5b3a3a18d07dc70cddd9d7d949fa7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:05 +0000
Subject: [PATCH 28/63] fix: ML_Lag left a half-built object for an unsupported
 method

---
 spreg/ml_lag.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/spreg/ml_lag.py b/spreg/ml_lag.py
index efb4691..55063ed 100755
--- a/spreg/ml_lag.py
+++ b/spreg/ml_lag.py
@@ -253,10 +253,7 @@ class BaseML_Lag(RegressionPropsY, RegressionPropsVM):
                     options={'xatol': epsilon},
                 )
         else:
-            # program will crash, need to catch
-            print(("{0} is an unsupported method".format(methodML)))
-            self = None
-            return
+            raise Exception("{0} is an unsupported method".format(method))
 
         self.rho = res.x[0][0]
 
-- 
2.43.0


From 3964a2dd98b3bb442565ce39a8fca8b7979c7bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:54 +0000
Subject: [PATCH 29/63] fix: check_endog changed the shape of the caller's
 arrays

---
 spreg/user_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/user_output.py b/spreg/user_output.py
index 4f6ceb7..4eb037f 100755
--- a/spreg/user_output.py
+++ b/spreg/user_output.py
@@ -542,7 +542,7 @@ def check_endog(arrays, names):
         if arrays[i] is None:
             pass
         elif len(arrays[i].shape) == 1:
-            arrays[i].shape = (arrays[i].shape[0], 1)
+            arrays[i] = arrays[i].reshape(arrays[i].shape[0], 1)
         check_numeric_bool(arrays[i])
     return (*arrays, *names)
 
-- 
2.43.0


From 9dd27304740e7d9aaedf32b9c13f53773f38aaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:36 +0000
Subject: [PATCH 30/63] fix: SUR classes accepted missing values and unchecked
 spatial weights

---
 spreg/sur.py       |  4 ++++
 spreg/sur_error.py |  5 +++++
 spreg/sur_lag.py   |  4 +++-
 spreg/sur_utils.py | 17 +++++++++++++++++
 4 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/spreg/sur.py b/spreg/sur.py
index 55d918c..e2d9fec 100755
--- a/spreg/sur.py
+++ b/spreg/sur.py
@@ -20,6 +20,7 @@ from .sur_utils import (
     sur_resids,
     sur_predict,
     check_k,
+    check_system,
 )
 from .diagnostics_sur import (
     sur_setp,
@@ -427,6 +428,8 @@ class SUR(BaseSUR, REGI.Regimes_Frame):
             else:
                 raise Exception("Error: bigy and bigX must be both lists or both dictionaries")
 
+        check_system(bigy, bigX)
+        w = USER.check_weights(w, bigy[0], w_required=False)
         # work on copies: the dictionaries provided by the user are not modified
         bigX = dict(bigX)
         self.name_ds = USER.set_name_ds(name_ds)
@@ -829,6 +832,7 @@ class ThreeSLS(BaseThreeSLS, REGI.Regimes_Frame):
             else:
                 raise Exception("Error: bigy, bigX, bigyend and bigq must be all lists or all dictionaries")
 
+        check_system(bigy, bigX, bigyend, bigq)
         # work on copies: the dictionaries provided by the user are not modified
         bigX = dict(bigX)
         bigyend = dict(bigyend)
diff --git a/spreg/sur_error.py b/spreg/sur_error.py
index d73797c..d6725e8 100644
--- a/spreg/sur_error.py
+++ b/spreg/sur_error.py
@@ -29,6 +29,7 @@ from .sur_utils import (
     sur_resids,
     filter_dict,
     check_k,
+    check_system,
 )
 from .sur import BaseSUR, _sur_ols
 from .diagnostics_sur import sur_setp, lam_setp, sur_chow
@@ -328,6 +329,8 @@ class SURerrorGM(BaseSURerrorGM, REGI.Regimes_Frame):
                 raise Exception("Error: bigy and bigX must be both lists or both dictionaries")
 
         # check on variable names for listing results
+        check_system(bigy, bigX)
+        w = USER.check_weights(w, bigy[0], w_required=True)
         # work on copies: the dictionaries provided by the user are not modified
         bigX = dict(bigX)
         self.name_ds = USER.set_name_ds(name_ds)
@@ -777,6 +780,8 @@ class SURerrorML(BaseSURerrorML, REGI.Regimes_Frame):
                 raise Exception("Error: bigy and bigX must be both lists or both dictionaries")
             
         # check on variable names for listing results
+        check_system(bigy, bigX)
+        w = USER.check_weights(w, bigy[0], w_required=True)
         # work on copies: the dictionaries provided by the user are not modified
         bigX = dict(bigX)
         self.name_ds = USER.set_name_ds(name_ds)
diff --git a/spreg/sur_lag.py b/spreg/sur_lag.py
index 0f0f62d..e0ac1ea 100644
--- a/spreg/sur_lag.py
+++ b/spreg/sur_lag.py
@@ -13,7 +13,7 @@ from . import regimes as REGI
 from .sur import BaseThreeSLS
 from .sputils import sphstack
 from .diagnostics_sur import sur_setp, sur_chow, sur_joinrho
-from .sur_utils import check_k, sur_dictxy, sur_dictZ
+from .sur_utils import check_k, check_system, sur_dictxy, sur_dictZ
 
 __all__ = ["SURlagIV"]
 
@@ -245,6 +245,8 @@ class SURlagIV(BaseThreeSLS, REGI.Regimes_Frame):
             else:
                 raise Exception("Error: bigy, bigX, bigyend (if provided) and bigq (if provided) must be all lists or all dictionaries")
 
+        check_system(bigy, bigX, bigyend, bigq)
+        w = USER.check_weights(w, bigy[0], w_required=True)
         # work on copies: the dictionaries provided by the user are not modified
         bigX = dict(bigX)
         if bigyend is not None:
diff --git a/spreg/sur_utils.py b/spreg/sur_utils.py
index 0457234..652d272 100644
--- a/spreg/sur_utils.py
+++ b/spreg/sur_utils.py
@@ -8,6 +8,7 @@ __author__ = "Luc Anselin lanselin@gmail.com,    \
 import numpy as np
 import numpy.linalg as la
 import pandas as pd
+from . import user_output as USER
 from .utils import spdot
 
 __all__ = [
@@ -514,3 +515,19 @@ def check_k(bigK):
     k = kk[0]
     check = np.equal(k, kk)
     return all(check)
+
+
+def check_system(bigy, *bigvars):
+    """
+    Check the arrays of every equation of a system (same number of rows,
+    at most two dimensions, no missing values)
+
+    Parameters
+    ----------
+    bigy     : dictionary
+               with vector of dependent variable for each equation
+    bigvars  : dictionaries (or None)
+               with matrices of other variables for each equation
+    """
+    for r in bigy:
+        USER.check_arrays(bigy[r], *[b[r] for b in bigvars if b is not None])
-- 
2.43.0


From 2ba149b33d9bedfee1166ab4737d0491219e062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:12 +0000
Subject: [PATCH 31/63] fix: GMM_Error dropped hard_bound when called with
 regimes

---
 spreg/error_sp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/error_sp.py b/spreg/error_sp.py
index 035f390..a26259e 100644
--- a/spreg/error_sp.py
+++ b/spreg/error_sp.py
@@ -1326,6 +1326,8 @@ class GMM_Error(GM_Error, GM_Endog_Error, GM_Combo, GM_Error_Het, GM_Endog_Error
             self.__class__ = GMM_Error_Regimes
             if isinstance(slx_vars, list):
                 kwargs["slx_vars"] = slx_vars
+            if hard_bound and estimator in ('het', 'hom'):
+                kwargs["hard_bound"] = hard_bound
             self.__init__(
                 y=y, x=x, regimes=regimes, w=w, yend=yend, q=q, estimator=estimator, add_wy=add_wy, 
                 slx_lags=slx_lags, vm=vm, name_y=name_y, name_x=name_x, name_w=name_w, name_yend=name_yend,
-- 
2.43.0


From cf9db2b52280fcdc460f1ad31b7e541483442f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:47 +0000
Subject: [PATCH 32/63] fix: symmetrize left the caller's weights
 row-standardised; Panel_RE_Error used row-standardised eigenvalues for any W

---
 spreg/panel_re.py | 9 ++++++---
 spreg/w_utils.py  | 4 +++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/spreg/panel_re.py b/spreg/panel_re.py
index 4f9e72b..00587f1 100755
--- a/spreg/panel_re.py
+++ b/spreg/panel_re.py
@@ -492,9 +492,12 @@ class BasePanel_RE_Error(RegressionPropsY, RegressionPropsVM):
 
         # concentrated Log Likelihood
         I = np.identity(self.n)
-        if w.asymmetry(intrinsic=False) == []:
-            ww = symmetrize(w)
-            WW = np.array(ww.todense())
+        WW = None
+        if np.allclose(W, W.T):
+            WW = W
+        elif w.transform.upper() == "R" and w.asymmetry(intrinsic=False) == []:
+            WW = np.array(symmetrize(w).todense())
+        if WW is not None:
             evals, evecs = la.eigh(WW)
             W = WW
         else:  # need dense here
diff --git a/spreg/w_utils.py b/spreg/w_utils.py
index 657a498..6ac97a8 100644
--- a/spreg/w_utils.py
+++ b/spreg/w_utils.py
@@ -23,4 +23,6 @@ def symmetrize(w):
     Di12 = SPARSE.dia_matrix((1.0 / d, [0]), shape=(w.n, w.n))
     D12 = SPARSE.dia_matrix((d, [0]), shape=(w.n, w.n))
     w.transform = "r"
-    return D12 @ w.sparse @ Di12
+    wr = w.sparse
+    w.transform = current  # leave the weights of the caller as they were
+    return D12 @ wr @ Di12
-- 
2.43.0


From 3651b10b9ebed19e20c2f6d35112f8c292030f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:22 +0000
Subject: [PATCH 33/63] fix: Skater_reg.fit changed the caller's weights
 transformation and regression dictionary

---
 spreg/skater_reg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index c563597..fe50bd4 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -222,8 +222,11 @@ class Skater_reg(object):
         if data.shape[0] <= n_clusters*quorum:
             raise ValueError("The number of observations is less than the number of clusters times the quorum.")
         
+        transform = W.get_transform()
         W.transform = "b"
-        W = W.sparse
+        W_sparse = W.sparse
+        W.transform = transform  # leave the caller's weights as they were
+        W = W_sparse
         start = time.time()
 
         super_verbose = verbose > 1
@@ -537,6 +540,7 @@ class Skater_reg(object):
 
     def _prep_lag(self, data_reg):
         # if the model is a spatial lag, add the lagged dependent variable to the model
+        data_reg = data_reg.copy()
         data_reg['yend'], data_reg['q'] = set_endog(data_reg["y"], data_reg["x"][:, 1:], data_reg["w"], yend=None,
             q=None, w_lags=1, lag_q=True)
         return data_reg
-- 
2.43.0


From 66bbe91716c61b2763c68b0153f4d206caff54d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 34/63] fix: Skater_reg with GM_Lag dropped the lag of the
 first x and the user's endogenous variables from the regressions

---
 spreg/skater_reg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index fe50bd4..efe4c74 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -541,8 +541,8 @@ class Skater_reg(object):
     def _prep_lag(self, data_reg):
         # if the model is a spatial lag, add the lagged dependent variable to the model
         data_reg = data_reg.copy()
-        data_reg['yend'], data_reg['q'] = set_endog(data_reg["y"], data_reg["x"][:, 1:], data_reg["w"], yend=None,
-            q=None, w_lags=1, lag_q=True)
+        data_reg['yend'], data_reg['q'] = set_endog(data_reg["y"], data_reg["x"], data_reg["w"],
+            yend=data_reg.get("yend"), q=data_reg.get("q"), w_lags=1, lag_q=True)
         return data_reg
 
     def find_cut(
-- 
2.43.0


From 447e34c5443eff871e2acee595d6903ee8430dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:00 +0000
Subject: [PATCH 35/63] fix: Skater_reg lost the clusters found so far when no
 further cut met the quorum

---
 spreg/skater_reg.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index efe4c74..a67bb72 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -292,8 +292,8 @@ class Skater_reg(object):
                 best_deletion,
                 trees_scores,
                 new_MSF,
-                current_n_subtrees,
-                current_labels,
+                new_n_subtrees,
+                new_labels,
             ) = self.find_cut(
                 MSF,
                 data,
@@ -320,6 +320,8 @@ class Skater_reg(object):
                     )
                 prev_score = best_deletion.score
                 MSF = new_MSF
+                current_n_subtrees = new_n_subtrees
+                current_labels = new_labels
             else:  # otherwise, it means the MSF admits no further cuts
                 prev_n_subtrees, _ = cg.connected_components(MSF, directed=False)
                 warn(
@@ -330,6 +332,7 @@ class Skater_reg(object):
                     OptimizeWarning,
                     stacklevel=2,
                 )
+                break  # the labels found so far are the result
             if trace:
                 self._trace.append((current_labels, best_deletion))
 
-- 
2.43.0


From f9cb20a4bd6205ee79e2a6f8974bed8622529a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:24 +0000
Subject: [PATCH 36/63] fix: Skater_reg scores failed unless one tree was being
 cut, and ignored the labels of the previous fit

---
 spreg/skater_reg.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index a67bb72..54faba1 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -372,7 +372,7 @@ class Skater_reg(object):
         current_tree: integer indicating the tree's label currently being considered for division
         """
 
-        labels, subtree_quorums = self._prep_score(all_labels, current_tree, current_labels)
+        all_labels, labels, subtree_quorums = self._prep_score(all_labels, current_tree, current_labels)
         if (subtree_quorums < quorum).any():
             return np.inf, None
 
@@ -470,7 +470,7 @@ class Skater_reg(object):
         NOTE: Optimization occurs with respect to a *dissimilarity* metric, so the problem *minimizes*
               the map dissimilarity. So, lower scores are better.
         """
-        labels, subtree_quorums = self._prep_score(
+        all_labels, labels, subtree_quorums = self._prep_score(
             all_labels, current_tree, current_labels
         )
         if (subtree_quorums < quorum).any():
@@ -511,15 +511,17 @@ class Skater_reg(object):
     def _prep_score(self, all_labels, current_tree, current_labels):
         if all_labels is None:
             try:
-                labels = self.current_labels_
+                all_labels = self.current_labels_
             except AttributeError:
                 raise ValueError(
                     "Labels not provided and MSF_Prune object has not been fit to data yet."
                 )
         if current_tree is not None:
             labels = all_labels[current_labels == current_tree]
+        else:
+            labels = all_labels
         _, subtree_quorums = np.unique(labels, return_counts=True)
-        return labels, subtree_quorums
+        return all_labels, labels, subtree_quorums
 
     def _data_reg_none(self, data, all_labels, set_labels):
         assert data.shape[0] == len(
-- 
2.43.0


From 84c8151e83c5e443331d96e4c4ab2910bcaa1258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:31 +0000
Subject: [PATCH 37/63] fix: Skater_reg on a disconnected graph ignored the
 score of the trees that were not cut

---
 spreg/skater_reg.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 54faba1..0767ea9 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -624,6 +624,11 @@ class Skater_reg(object):
         except:
             pass
 
+        if trees_scores is None and current_n_subtrees > 1:
+            # disconnected graph: cuts in different trees are compared through the score of all the trees
+            score = self.score_stats if model_family == "statsmodels" else self.score_spreg
+            _, trees_scores = score(data, data_reg, current_labels)
+
         try:
             old_score = sum(trees_scores.values())
         except:
-- 
2.43.0


From b86692dd25d9f646f723f03ee5cf1d0da390d203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:15 +0000
Subject: [PATCH 38/63] fix: splogdet of a dense matrix with negative
 determinant returned minus the log

---
 spreg/sputils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spreg/sputils.py b/spreg/sputils.py
index 5f10bc3..deb9fb3 100755
--- a/spreg/sputils.py
+++ b/spreg/sputils.py
@@ -211,8 +211,7 @@ def splogdet(a):
         LU = SPla.splu(a)
         det = np.sum(np.log(np.abs(LU.U.diagonal())))
     else:
-        sgn, ldet = la.slogdet(a)
-        det = sgn * ldet
+        det = la.slogdet(a)[1]
     return det
 
 
-- 
2.43.0


From 1235c22f4313c82d5f680401d596922ec0de3b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:04 +0000
Subject: [PATCH 39/63] fix: Wald could not be given the constants of more than
 one restriction

---
 spreg/regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/regimes.py b/spreg/regimes.py
index 10d17f9..941c253 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -143,7 +143,7 @@ class Wald:
     """
 
     def __init__(self, reg, r, q=None):
-        if not q:
+        if q is None:
             q = np.zeros((r.shape[0], 1))
         self.w, self.pvalue = wald_test(reg.betas, r, q, reg.vm)
 
-- 
2.43.0


From 83f89dc61a669add21c42e587e31d8329f34a3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:04 +0000
Subject: [PATCH 40/63] fix: _get_weighted_var failed for models with
 endogenous variables

---
 spreg/regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/regimes.py b/spreg/regimes.py
index 941c253..da7c33a 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -723,7 +723,7 @@ def _get_weighted_var(regimes, regimes_set, sig2n_k, u, y, x, yend=None, q=None)
         sig_vec[regi_ids[r]] = 1 / np.sqrt(sig[r]).item()
         y2[regi_ids[r]] = y[regi_ids[r]] / np.sqrt(sig[r]).item()
     x2 = spbroadcast(x, sig_vec)
-    if yend != None:
+    if yend is not None:
         yend2 = spbroadcast(yend, sig_vec)
         q2 = spbroadcast(q, sig_vec)
         return y2, x2, yend2, q2
-- 
2.43.0


From 24751e0a64c1c24087a389629b1532264274fba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:04 +0000
Subject: [PATCH 41/63] fix: regimes labelled with fractional numbers were
 truncated to integers and then not found

---
 spreg/regimes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/regimes.py b/spreg/regimes.py
index da7c33a..7fa6865 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -694,8 +694,8 @@ def _get_regimes_set(regimes):
     """Creates a list with regimes in alphabetical order."""
     regimes_set = list(set(regimes))
     if isinstance(regimes_set[0], float):
-        regimes_set1 = list(set(map(int, regimes_set)))
-        if len(regimes_set1) == len(regimes_set):
+        regimes_set1 = list(map(int, regimes_set))
+        if regimes_set1 == regimes_set:
             regimes_set = regimes_set1
     regimes_set.sort()
     return regimes_set
-- 
2.43.0


From 2c9aab596cff2d919937f4511a45bd1907994641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:51 +0000
Subject: [PATCH 42/63] fix: restricting weights to regimes replaced their
 values by ones

---
 spreg/regimes.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/spreg/regimes.py b/spreg/regimes.py
index 7fa6865..796bf8d 100755
--- a/spreg/regimes.py
+++ b/spreg/regimes.py
@@ -497,6 +497,17 @@ def set_name_x_regimes(name_x, constant_regi, cols2regi, regimes_set, xtype, rli
         return name_x_regi, xtype_full
 
 
+def _w_subset(w, ids):
+    """Subset of W with the links between ids, keeping their weights (libpysal's w_subset makes them binary)."""
+    ids_set = set(ids)
+    neighbors, wts = {}, {}
+    for i in ids:
+        links = [(j, v) for j, v in zip(w.neighbors[i], w.weights[i]) if j in ids_set]
+        neighbors[i] = [j for j, v in links]
+        wts[i] = [v for j, v in links]
+    return weights.W(neighbors, wts, id_order=list(ids), silence_warnings=True)
+
+
 def w_regime(w, regi_ids, regi_i, transform=True, min_n=None):
     """
     Returns the subset of W matrix according to a given regime ID
@@ -517,7 +528,7 @@ def w_regime(w, regi_ids, regi_i, transform=True, min_n=None):
     """
     w_ids = list(map(w.id_order.__getitem__, regi_ids))
     warn = None
-    w_regi_i = weights.set_operations.w_subset(w, w_ids, silence_warnings=True)
+    w_regi_i = _w_subset(w, w_ids)
     if min_n:
         if w_regi_i.n < min_n:
             raise Exception(
@@ -557,9 +568,7 @@ def w_regimes(w, regimes, regimes_set, transform=True, get_ids=None, min_n=None)
     w_regi_i = {}
     warn = None
     for r in regimes_set:
-        w_regi_i[r] = weights.set_operations.w_subset(
-            w, w_ids[r], silence_warnings=True
-        )
+        w_regi_i[r] = _w_subset(w, w_ids[r])
         if min_n:
             if w_regi_i[r].n < min_n:
                 raise Exception(
@@ -592,16 +601,12 @@ def w_regimes_union(w, w_regi_i, regimes_set):
     w_regi      : pysal W object
                   Spatial weights object containing the union of the subsets of W
     """
-    w_regi = weights.set_operations.w_union(
-        w_regi_i[regimes_set[0]], w_regi_i[regimes_set[1]], silence_warnings=True
-    )
-    if len(regimes_set) > 2:
-        for i in range(len(regimes_set))[2:]:
-            w_regi = weights.set_operations.w_union(
-                w_regi, w_regi_i[regimes_set[i]], silence_warnings=True
-            )
-    w_regi = weights.util.remap_ids(
-        w_regi, dict((i, i) for i in w_regi.id_order), w.id_order
+    neighbors, wts = {}, {}
+    for r in regimes_set:
+        neighbors.update(w_regi_i[r].neighbors)
+        wts.update(w_regi_i[r].weights)
+    w_regi = weights.W(
+        neighbors, wts, id_order=list(w.id_order), silence_warnings=True
     )
     w_regi.transform = w.get_transform()
     return w_regi
-- 
2.43.0


From 72a3663495dd921d1b41b2e32aeb060127902547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 43/63] fix: Skater_reg used binary weights in the regressions
 of the clusters

---
 spreg/skater_reg.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spreg/skater_reg.py b/spreg/skater_reg.py
index 0767ea9..f4859c3 100755
--- a/spreg/skater_reg.py
+++ b/spreg/skater_reg.py
@@ -6,7 +6,7 @@ from scipy.sparse import csgraph as cg
 from scipy.optimize import OptimizeWarning
 from collections import namedtuple
 from warnings import warn
-from libpysal.weights import w_subset
+from .regimes import w_regime
 from .utils import set_endog
 import time
 import numpy as np
@@ -402,8 +402,7 @@ class Skater_reg(object):
                     regi_ids = label_indices[l]
 
                     if "w" in data_reg:
-                        w_ids = list(map(data_reg["w"].id_order.__getitem__, regi_ids))
-                        kargs["w"] = w_subset(data_reg["w"], w_ids, silence_warnings=True)
+                        kargs["w"] = w_regime(data_reg["w"], regi_ids, l)[0]
 
                     x = data_reg["x"][regi_ids]
                     y = data_reg["y"][regi_ids]
-- 
2.43.0


From da80b7ee880e55855ed1e589bdb3d2108354ed39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:30 +0000
Subject: [PATCH 44/63] fix: the gradient of the power transformation of NSLX
 was not a number at the bandwidth

---
 spreg/nslx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spreg/nslx.py b/spreg/nslx.py
index b2aa5d7..c50a810 100755
--- a/spreg/nslx.py
+++ b/spreg/nslx.py
@@ -541,7 +541,8 @@ def _nltransform(a,w,transform,gradflag=0):
         elif gradflag == 1:
             walpha = walpha.power(a)
             ww = w.copy()
-            np.log(ww.data, out = ww.data)
+            # w**a * log(w) is zero for w = 0 (e.g., the neighbor at the bandwidth)
+            np.log(ww.data, out = ww.data, where = ww.data > 0)
             wgrad = walpha.multiply(ww)
             walpha = wgrad
             
-- 
2.43.0


From 4bb1c9da364993b57f064b29762aac7f454c98c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:30 +0000
Subject: [PATCH 45/63] fix: the NSLX weights were not square when the last
 point is not a neighbor of any other

---
 spreg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index fea3689..442d144 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -952,7 +952,7 @@ def make_wnslx(coords,params,leafsize=30,distance_metric='Euclidean'):
         colids = nbrs[pickgd].flatten()
         fdis = fdis[pickgd].flatten()
     
-    spdis = coo_array((fdis,(rowids,colids)))
+    spdis = coo_array((fdis,(rowids,colids)), shape=(n,n))
     spdis = spdis.tocsr(copy=True)
     
     return spdis
-- 
2.43.0


From 59dc90c3dcdf4a34fb1729bece70b4ffc4808237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:30 +0000
Subject: [PATCH 46/63] fix: NSLX weights of coincident points had the point
 itself as neighbor

---
 spreg/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 442d144..1430765 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -919,9 +919,11 @@ def make_wnslx(coords,params,leafsize=30,distance_metric='Euclidean'):
     kdt = KDTree(coords,leafsize=leafsize,distance_metric=distance_metric)
     dis,nbrs = kdt.query(coords,k=k+1,distance_upper_bound=distance_upper_bound) 
     # get rid of diagonals
-    dis = dis[:,1:]
-    nbrs = nbrs[:,1:]
     n = dis.shape[0]
+    own = (nbrs == np.arange(n).reshape(-1,1))
+    own[~own.any(axis=1),0] = True   # point itself crowded out by coincident points
+    dis = dis[~own].reshape(n,k)
+    nbrs = nbrs[~own].reshape(n,k)
 
     # maximum distance in each row
     if (np.isinf(distance_upper_bound)): # no fixed bandwidth
-- 
2.43.0


From 3462a18e2a1abd1c805cbd97a62b223c004d7ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:45 +0000
Subject: [PATCH 47/63] fix: NSLX did not label the lag of a single variable
 selected from a list of parameters

---
 spreg/nslx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spreg/nslx.py b/spreg/nslx.py
index c50a810..a776152 100755
--- a/spreg/nslx.py
+++ b/spreg/nslx.py
@@ -343,6 +343,7 @@ class NSLX(BaseNSLX):
                 if g == len(slx_vars):  # params does not have correct form
                     params = list(compress(params,slx_vars))
                     transform = list(compress(transform,slx_vars))
+                    g = len(params)
                 elif g != len(xw_name):
                     raise Exception("Mismatch dimension params and slx_vars")
 
-- 
2.43.0


From 3485e738eb23dba98c82c0bbd40fa605aa1ebda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:45 +0000
Subject: [PATCH 48/63] fix: NSLX weights were not a number when all neighbors
 of a point coincide with it

---
 spreg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/utils.py b/spreg/utils.py
index 1430765..e4ab284 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -933,7 +933,7 @@ def make_wnslx(coords,params,leafsize=30,distance_metric='Euclidean'):
         mxrow = np.amax(dis,axis=1).reshape(-1,1)
 
     # rescaled distance
-    fdis = dis / mxrow
+    fdis = np.divide(dis, mxrow, out=np.zeros_like(dis), where=mxrow>0)   # all neighbors may be coincident
 
     if transform.lower() == 'power':   # triangular kernel weights
         fdis = -fdis + 1.0
-- 
2.43.0


From fc0a947924914eb8c25836f3ab158a2665e1d956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:15 +0000
Subject: [PATCH 49/63] fix: hard_bound was not applied to the spatial lag
 coefficient of the GM_Combo models

---
 spreg/error_sp.py             | 2 +-
 spreg/error_sp_het.py         | 2 +-
 spreg/error_sp_het_regimes.py | 4 ++--
 spreg/error_sp_hom.py         | 2 +-
 spreg/error_sp_hom_regimes.py | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/spreg/error_sp.py b/spreg/error_sp.py
index a26259e..6cc366a 100644
--- a/spreg/error_sp.py
+++ b/spreg/error_sp.py
@@ -999,7 +999,7 @@ class GM_Combo(BaseGM_Endog_Error):
 
         self.rho = self.betas[-2]
         self.predy_e, self.e_pred, warn = sp_att(
-            w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho
+            w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho, hard_bound=hard_bound
         )
         set_warn(self, warn)
         self.title = "SPATIALLY WEIGHTED 2SLS - GM-COMBO MODEL"
diff --git a/spreg/error_sp_het.py b/spreg/error_sp_het.py
index 268aa90..a84bcf1 100755
--- a/spreg/error_sp_het.py
+++ b/spreg/error_sp_het.py
@@ -1456,7 +1456,7 @@ class GM_Combo_Het(BaseGM_Combo_Het):
         )
         self.rho = self.betas[-2]
         self.predy_e, self.e_pred, warn = UTILS.sp_att(
-            w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho
+            w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho, hard_bound=hard_bound
         )
         UTILS.set_warn(self, warn)
         self.title = "SPATIALLY WEIGHTED 2SLS- GM-COMBO MODEL (HET)"
diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index 993c3fb..92afb62 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -1803,7 +1803,7 @@ class GM_Combo_Het_Regimes(GM_Endog_Error_Het_Regimes):
         if regime_err_sep != True:
             self.rho = self.betas[-2]
             self.predy_e, self.e_pred, warn = UTILS.sp_att(
-                w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho
+                w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho, hard_bound=hard_bound
             )
             UTILS.set_warn(self, warn)
             self.regime_lag_sep = regime_lag_sep
@@ -1905,7 +1905,7 @@ def _work_endog_error(
     if add_lag != False:
         model.rho = model.betas[-2]
         model.predy_e, model.e_pred, warn = sp_att(
-            w_r, model.y, model.predy, model.yend[:, -1].reshape(model.n, 1), model.rho
+            w_r, model.y, model.predy, model.yend[:, -1].reshape(model.n, 1), model.rho, hard_bound=hard_bound
         )
         set_warn(model, warn)
         
diff --git a/spreg/error_sp_hom.py b/spreg/error_sp_hom.py
index b46cfaa..61ee1c8 100644
--- a/spreg/error_sp_hom.py
+++ b/spreg/error_sp_hom.py
@@ -1406,7 +1406,7 @@ class GM_Combo_Hom(BaseGM_Combo_Hom):
         )
         self.rho = self.betas[-2]
         self.predy_e, self.e_pred, warn = sp_att(
-            w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho
+            w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho, hard_bound=hard_bound
         )
         set_warn(self, warn)
         self.title = "SPATIALLY WEIGHTED 2SLS- GM-COMBO MODEL (HOM)"
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index f553923..20622c4 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -1802,7 +1802,7 @@ class GM_Combo_Hom_Regimes(GM_Endog_Error_Hom_Regimes):
         if regime_err_sep != True:
             self.rho = self.betas[-2]
             self.predy_e, self.e_pred, warn = sp_att(
-                w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho
+                w, self.y, self.predy, yend2[:, -1].reshape(self.n, 1), self.rho, hard_bound=hard_bound
             )
             set_warn(self, warn)
             self.regime_lag_sep = regime_lag_sep
@@ -1895,7 +1895,7 @@ def _work_endog_error(
     if add_lag != False:
         model.rho = model.betas[-2]
         model.predy_e, model.e_pred, warn = sp_att(
-            w_r, model.y, model.predy, model.yend[:, -1].reshape(model.n, 1), model.rho
+            w_r, model.y, model.predy, model.yend[:, -1].reshape(model.n, 1), model.rho, hard_bound=hard_bound
         )
         set_warn(model, warn)
     if slx_lags == 0:
-- 
2.43.0


From ba02028123bcb5a0b2b93e4ebd7382a1221eb40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 50/63] fix: stge_pre reported LAG instead of SDM when the lag
 model of the common tests was refused

---
 spreg/spsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/spsearch.py b/spreg/spsearch.py
index be59729..9f021e3 100755
--- a/spreg/spsearch.py
+++ b/spreg/spsearch.py
@@ -697,7 +697,7 @@ def stge_pre(
                 except:  # ignore lag model
                     if p_rlag <= p_rerror:
                         k = idv + 1
-                        result = models[1]
+                        result = models[k]
 
                     else:
                         k = idv + 2
-- 
2.43.0


From c781716c87ae498d33c9e5865cc26ae37c9d4e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:01 +0000
Subject: [PATCH 51/63] fix: iterate the spatial filter in the HOM regimes
 models

GM_Error_Hom_Regimes and GM_Endog_Error_Hom_Regimes kept filtering with the
first-step lambda in every iteration, so max_iter > 1 never updated the
coefficients.
---
 spreg/error_sp_hom_regimes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index 20622c4..074037c 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -427,8 +427,8 @@ class GM_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.iteration, eps = 0, 1
             while self.iteration < max_iter and eps > epsilon:
                 # 2a. SWLS --> \hat{\delta}
-                xs = get_spFilter(w, lambda1, x_constant1)
-                ys = get_spFilter(w, lambda1, y)
+                xs = get_spFilter(w, lambda_old, x_constant1)
+                ys = get_spFilter(w, lambda_old, y)
                 xs = REGI.Regimes_Frame.__init__(
                     self, xs, regimes, constant_regi=None, cols2regi=cols2regi
                 )[0]
@@ -1069,12 +1069,12 @@ class GM_Endog_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
             self.iteration, eps = 0, 1
             while self.iteration < max_iter and eps > epsilon:
                 # 2a. GS2SLS --> \hat{\delta}
-                xs = get_spFilter(w, lambda1, x_constant1)
+                xs = get_spFilter(w, lambda_old, x_constant1)
                 xs = REGI.Regimes_Frame.__init__(
                     self, xs, regimes, constant_regi=None, cols2regi=cols2regi
                 )[0]
-                ys = get_spFilter(w, lambda1, y)
-                yend_s = get_spFilter(w, lambda1, yend)
+                ys = get_spFilter(w, lambda_old, y)
+                yend_s = get_spFilter(w, lambda_old, yend)
                 yend_s = REGI.Regimes_Frame.__init__(
                     self,
                     yend_s,
-- 
2.43.0


From bf3c2a9f6298ae07969cea147a41276ce3a7a560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:42 +0000
Subject: [PATCH 52/63] fix: check the bounds of every regime's lag coefficient
 in joint lag regimes with HAC

---
 spreg/twosls_sp_regimes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 46f7d89..0312fd7 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -632,7 +632,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
             )
 
             if regime_lag_sep:  # not currently available.
-                self.sp_att_reg(w_i, regi_ids, yend2[:, -1].reshape(self.n, 1))
+                self.sp_att_reg(w_i, regi_ids, yend2[:, -1].reshape(self.n, 1), hard_bound=hard_bound)
             else:
                 self.rho = self.betas[-1]
                 self.output.iat[-1, self.output.columns.get_loc('var_type')] = 'rho'
@@ -885,7 +885,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
         #   self._get_spat_diag_props(y, x, w, yend, q, w_lags, lag_q)
         output(reg=self, vm=vm, robust=robust, other_end=False, latex=latex)
 
-    def sp_att_reg(self, w_i, regi_ids, wy):
+    def sp_att_reg(self, w_i, regi_ids, wy, hard_bound=False):
         predy_e_r, e_pred_r = {}, {}
         self.predy_e = np.zeros((self.n, 1), float)
         self.e_pred = np.zeros((self.n, 1), float)
@@ -904,7 +904,9 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
                 self.predy[regi_ids[r]],
                 wy[regi_ids[r]],
                 self.rho,
+                hard_bound=hard_bound,
             )
+            set_warn(self, warn)
             counter += 1
 
     def _get_spat_diag_props(self, y, x, w, yend, q, w_lags, lag_q):
-- 
2.43.0


From c454c83be54ccc3d89d3124e9e330696b29b29ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:46 +0000
Subject: [PATCH 53/63] fix: breusch_pagan and koenker_bassett failed when
 given a z array

---
 spreg/diagnostics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/diagnostics.py b/spreg/diagnostics.py
index 2811c17..f2802a3 100755
--- a/spreg/diagnostics.py
+++ b/spreg/diagnostics.py
@@ -800,7 +800,7 @@ def breusch_pagan(reg, z=None):
     den = ete / n
     g = e2 / den - 1.0
 
-    if z == None:
+    if z is None:
         x = reg.x
         # constant = constant_check(x)
         # if constant == False:
@@ -1112,7 +1112,7 @@ def koenker_bassett(reg, z=None):
     g = u - ubari
     v = (1.0 / n) * np.sum((u - ubar) ** 2)
 
-    if z == None:
+    if z is None:
         x = reg.x
         # constant = constant_check(x)
         # if constant == False:
-- 
2.43.0


From 7d4422db555fedfc91cd88b228c7559515213f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:31 +0000
Subject: [PATCH 54/63] fix: endogenous regimes failed with trace=False and
 when only two regimes were considered

---
 spreg/ols_regimes.py       | 8 +++++---
 spreg/twosls_regimes.py    | 8 +++++---
 spreg/twosls_sp_regimes.py | 8 +++++---
 spreg/utils.py             | 2 ++
 4 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index 6150930..21cd803 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -1063,6 +1063,7 @@ class OLS_Endog_Regimes(OLS_Regimes):
             if n_clusters_opt < 2:
                 raise ValueError(
                     "The combination of the values of `N` and `quorum` is not compatible with regimes estimation.")
+            trace = True
             sk_reg_results = Skater_reg().fit(n_clusters_opt, w, x_std, {'reg':BaseOLS,'y':y,'x':x_constant}, quorum=quorum, trace=True)
             n_clusters = optim_k([sk_reg_results._trace[i][1][2] for i in range(1, len(sk_reg_results._trace))])
             self.clusters = sk_reg_results._trace[n_clusters-1][0]
@@ -1070,7 +1071,7 @@ class OLS_Endog_Regimes(OLS_Regimes):
         else:
             try:
                 # Call the Skater_reg method based on OLS
-                sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseOLS,'y':y,'x':x_constant}, quorum=quorum, trace=trace)
+                sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseOLS,'y':y,'x':x_constant}, quorum=quorum, trace=True)
                 self.clusters = sk_reg_results.current_labels_
                 self.score = sk_reg_results._trace[-1][1][2]
             except Exception as e:
@@ -1079,8 +1080,9 @@ class OLS_Endog_Regimes(OLS_Regimes):
                 else:
                     print("An error occurred:", e)
 
-        self._trace = sk_reg_results._trace
-        self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
+        if trace:
+            self._trace = sk_reg_results._trace
+        self.SSR = [step[1][2] for step in sk_reg_results._trace[1:]]
         OLS_Regimes.__init__(self, y, x_constant, regimes=self.clusters, w=w, name_regimes='Skater_reg', name_y=name_y, name_x=name_x,
                                      constant_regi='many', cols2regi='all', regime_err_sep=True, **kwargs)
 
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index b1b5702..edf970f 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -1083,13 +1083,14 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
             if n_clusters_opt < 2:
                 raise ValueError(
                     "The combination of the values of `N` and `quorum` is not compatible with regimes estimation.")
+            trace = True
             sk_reg_results = Skater_reg().fit(n_clusters_opt, w, x_std, {'reg':BaseTSLS,'y':y,'x':x_constant,'yend':yend,'q':q}, quorum=quorum, trace=True)
             n_clusters = optim_k([sk_reg_results._trace[i][1][2] for i in range(1, len(sk_reg_results._trace))])
             self.clusters = sk_reg_results._trace[n_clusters-1][0]
             self.score = sk_reg_results._trace[n_clusters-1][1][2]
         else:
             try:
-                sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseTSLS,'y':y,'x':x_constant,'yend':yend,'q':q}, quorum=quorum, trace=trace)
+                sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseTSLS,'y':y,'x':x_constant,'yend':yend,'q':q}, quorum=quorum, trace=True)
                 self.clusters = sk_reg_results.current_labels_
                 self.score = sk_reg_results._trace[-1][1][2]
             except Exception as e:
@@ -1098,8 +1099,9 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
                 else:
                     print("An error occurred:", e)
 
-        self._trace = sk_reg_results._trace
-        self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
+        if trace:
+            self._trace = sk_reg_results._trace
+        self.SSR = [step[1][2] for step in sk_reg_results._trace[1:]]
         TSLS_Regimes.__init__(self, y, x_constant, yend, q, regimes=self.clusters, w=w, name_y=name_y, name_x=name_x, name_yend=name_yend, 
                               name_q=name_q, name_regimes='Skater_reg', constant_regi='many', cols2regi='all', regime_err_sep=True, **kwargs)
 
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 0312fd7..65bf74c 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -1341,6 +1341,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
             if n_clusters_opt < 2:
                 raise ValueError(
                     "The combination of the values of `N` and `quorum` is not compatible with regimes estimation.")
+            trace = True
             sk_reg_results = Skater_reg().fit(n_clusters_opt, w, x_std, {'reg':BaseGM_Lag,'y':y,'x':x_constant,'w':w}, quorum=quorum, trace=True)
             n_clusters = optim_k([sk_reg_results._trace[i][1][2] for i in range(1, len(sk_reg_results._trace))])
             self.clusters = sk_reg_results._trace[n_clusters-1][0]
@@ -1348,7 +1349,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
         else:
             try:
                 # Call the Skater_reg method based on GM_Lag
-                sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseGM_Lag,'y':y,'x':x_constant,'w':w}, quorum=quorum, trace=trace)
+                sk_reg_results = Skater_reg().fit(n_clusters, w, x_std, {'reg':BaseGM_Lag,'y':y,'x':x_constant,'w':w}, quorum=quorum, trace=True)
                 self.clusters = sk_reg_results.current_labels_
                 self.score = sk_reg_results._trace[-1][1][2]
             except Exception as e:
@@ -1357,8 +1358,9 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
                 else:
                     print("An error occurred:", e)
 
-        self._trace = sk_reg_results._trace
-        self.SSR = [self._trace[i][1][2] for i in range(1, len(self._trace))]
+        if trace:
+            self._trace = sk_reg_results._trace
+        self.SSR = [step[1][2] for step in sk_reg_results._trace[1:]]
         GM_Lag_Regimes.__init__(self, y, x, regimes=self.clusters, w=w, name_y=name_y, name_x=name_x, name_regimes='Skater_reg',
                                 constant_regi='many', cols2regi='all', regime_err_sep=False, **kwargs)
 
diff --git a/spreg/utils.py b/spreg/utils.py
index e4ab284..9bb3565 100755
--- a/spreg/utils.py
+++ b/spreg/utils.py
@@ -857,6 +857,8 @@ def optim_k(trace, window_size=None):
     """
 
     N = len(trace)
+    if N == 1:
+        return 2  # the only solution considered is the one with two regimes
     if not window_size:
         window_size = N//4 # Mojena suggests from 70% to 90%
         if window_size < 2:
-- 
2.43.0


From e8a0f7d09284105e66a259632408af8adeefb2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:47 +0000
Subject: [PATCH 55/63] fix: GM_Lag_Endog_Regimes failed for a single series or
 a constant among the regressors

---
 spreg/twosls_sp_regimes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 65bf74c..24771e9 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -1334,7 +1334,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
         x_std = (x_constant - np.mean(x_constant, axis=0)) / np.std(x_constant, axis=0)
 
         if quorum < 0:
-            quorum = np.max([(x.shape[1]+1)*10, 30])
+            quorum = np.max([(x_constant.shape[1]+1)*10, 30])
         
         if not n_clusters:
             n_clusters_opt = x_constant.shape[0]*0.70//quorum
@@ -1361,7 +1361,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
         if trace:
             self._trace = sk_reg_results._trace
         self.SSR = [step[1][2] for step in sk_reg_results._trace[1:]]
-        GM_Lag_Regimes.__init__(self, y, x, regimes=self.clusters, w=w, name_y=name_y, name_x=name_x, name_regimes='Skater_reg',
+        GM_Lag_Regimes.__init__(self, y, x_constant, regimes=self.clusters, w=w, name_y=name_y, name_x=name_x, name_regimes='Skater_reg',
                                 constant_regi='many', cols2regi='all', regime_err_sep=False, **kwargs)
 
 
-- 
2.43.0


From 6f6fb7136fa08cc64dce395a34add874e05ff9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:01 +0000
Subject: [PATCH 56/63] fix: endogenous regimes hid the reason why the search
 for regimes failed

---
 spreg/ols_regimes.py       | 2 +-
 spreg/twosls_regimes.py    | 2 +-
 spreg/twosls_sp_regimes.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spreg/ols_regimes.py b/spreg/ols_regimes.py
index 21cd803..7cea125 100755
--- a/spreg/ols_regimes.py
+++ b/spreg/ols_regimes.py
@@ -1078,7 +1078,7 @@ class OLS_Endog_Regimes(OLS_Regimes):
                 if str(e) == "one or more input arrays have more columns than rows":
                     raise ValueError("One or more input ended up with more variables than observations. Please check your setting for `quorum`.")
                 else:
-                    print("An error occurred:", e)
+                    raise
 
         if trace:
             self._trace = sk_reg_results._trace
diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index edf970f..0cfbaf9 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -1097,7 +1097,7 @@ class TSLS_Endog_Regimes(TSLS_Regimes):
                 if str(e) == "one or more input arrays have more columns than rows":
                     raise ValueError("One or more input ended up with more variables than observations. Please check your setting for `quorum`.")
                 else:
-                    print("An error occurred:", e)
+                    raise
 
         if trace:
             self._trace = sk_reg_results._trace
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 24771e9..2abe933 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -1356,7 +1356,7 @@ class GM_Lag_Endog_Regimes(GM_Lag_Regimes):
                 if str(e) == "one or more input arrays have more columns than rows":
                     raise ValueError("One or more input ended up with more variables than observations. Please check your setting for `quorum`.")
                 else:
-                    print("An error occurred:", e)
+                    raise
 
         if trace:
             self._trace = sk_reg_results._trace
-- 
2.43.0


From 2b9a78387555617af7a4b0a9ca3bc204eb8125e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:26 +0000
Subject: [PATCH 57/63] fix: gets_sdm computed tests on the SLX model that are
 not defined for it and could fail with a singular matrix

---
 spreg/spsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/spsearch.py b/spreg/spsearch.py
index 9f021e3..23b3ebb 100755
--- a/spreg/spsearch.py
+++ b/spreg/spsearch.py
@@ -1295,7 +1295,7 @@ def gets_sdm(
                 latex=latex,
             )
 
-            errtest = LMtests(model_slx, w)
+            errtest = LMtests(model_slx, w, tests=["lme"])
             if errtest.lme[1] < p:  # SLX-ERROR
                 result = "SLX-Err"
 
-- 
2.43.0


From c9bfb591e3205b5dd0de661a97fbb872ae8b4472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:52 +0000
Subject: [PATCH 58/63] fix: SURerrorML failed with a singular matrix when the
 search for lambda reached the bound 1

---
 spreg/sur_error.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/sur_error.py b/spreg/sur_error.py
index d6725e8..fc8535c 100644
--- a/spreg/sur_error.py
+++ b/spreg/sur_error.py
@@ -544,7 +544,7 @@ class BaseSURerrorML:
         self.llik = reg0.llik  # as is, includes constant
 
         # iteration
-        lambdabounds = [(-1.0, +1.0) for i in range(self.n_eq)]
+        lambdabounds = [(-0.999999, +0.999999) for i in range(self.n_eq)]
         while abs(fun0 - fun1) > epsilon:
             fun0 = fun1
             sply = filter_dict(lam, self.bigy, self.bigylag)
-- 
2.43.0


From 86ad0e268eda7249f393cbafaa214a658c7ca1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:20 +0000
Subject: [PATCH 59/63] fix: separate regimes with a regressor constant within
 a regime

The regressor is dropped with a warning, but eleven estimators sized the
coefficient vector and covariance for it and raised a broadcasting error.
---
 spreg/error_sp_het_regimes.py | 4 ++--
 spreg/error_sp_hom_regimes.py | 4 ++--
 spreg/error_sp_regimes.py     | 4 ++--
 spreg/ml_error_regimes.py     | 2 +-
 spreg/ml_lag_regimes.py       | 2 +-
 spreg/twosls_sp_regimes.py    | 2 +-
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/spreg/error_sp_het_regimes.py b/spreg/error_sp_het_regimes.py
index 92afb62..7e36b16 100644
--- a/spreg/error_sp_het_regimes.py
+++ b/spreg/error_sp_het_regimes.py
@@ -521,7 +521,7 @@ class GM_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        self.kr = len(cols2regi) + x_constant.shape[1] - x.shape[1]
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
@@ -1232,7 +1232,7 @@ class GM_Endog_Error_Het_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd, self.kf = 0, 0
-        self.kr = len(cols2regi) + 1
+        self.kr = len(cols2regi) + x_constant.shape[1] - x.shape[1]
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
         self.betas = np.zeros((self.nr * self.kr, 1), float)
diff --git a/spreg/error_sp_hom_regimes.py b/spreg/error_sp_hom_regimes.py
index 074037c..230504f 100644
--- a/spreg/error_sp_hom_regimes.py
+++ b/spreg/error_sp_hom_regimes.py
@@ -533,7 +533,7 @@ class GM_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        self.kr = len(cols2regi) + x_constant.shape[1] - x.shape[1]
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
@@ -1225,7 +1225,7 @@ class GM_Endog_Error_Hom_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd, self.kf = 0, 0
-        self.kr = len(cols2regi) + 1
+        self.kr = len(cols2regi) + x_constant.shape[1] - x.shape[1]
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
         self.betas = np.zeros((self.nr * self.kr, 1), float)
diff --git a/spreg/error_sp_regimes.py b/spreg/error_sp_regimes.py
index f6aeb1f..16cdf44 100644
--- a/spreg/error_sp_regimes.py
+++ b/spreg/error_sp_regimes.py
@@ -436,7 +436,7 @@ class GM_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi)
+        self.kr = len(cols2regi) - 1 + x_constant.shape[1] - x.shape[1]
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
@@ -1045,7 +1045,7 @@ class GM_Endog_Error_Regimes(RegressionPropsY, REGI.Regimes_Frame):
                 )
 
         self.kryd, self.kf = 0, 0
-        self.kr = len(cols2regi)
+        self.kr = len(cols2regi) - 1 + x_constant.shape[1] - x.shape[1]
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
         self.betas = np.zeros((self.nr * (self.kr + 1), 1), float)
diff --git a/spreg/ml_error_regimes.py b/spreg/ml_error_regimes.py
index 12af71a..1d3ec90 100644
--- a/spreg/ml_error_regimes.py
+++ b/spreg/ml_error_regimes.py
@@ -457,7 +457,7 @@ class ML_Error_Regimes(BaseML_Error, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        self.kr = len(cols2regi) + x_constant.shape[1] - x.shape[1]
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.vm = np.zeros((self.nr * self.kr, self.nr * self.kr), float)
diff --git a/spreg/ml_lag_regimes.py b/spreg/ml_lag_regimes.py
index f9fdf99..b78d0c4 100644
--- a/spreg/ml_lag_regimes.py
+++ b/spreg/ml_lag_regimes.py
@@ -547,7 +547,7 @@ class ML_Lag_Regimes(BaseML_Lag, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        self.kr = len(cols2regi) + x_constant.shape[1] - x.shape[1]
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.name_x_r = name_x
diff --git a/spreg/twosls_sp_regimes.py b/spreg/twosls_sp_regimes.py
index 2abe933..babbd46 100644
--- a/spreg/twosls_sp_regimes.py
+++ b/spreg/twosls_sp_regimes.py
@@ -767,7 +767,7 @@ class GM_Lag_Regimes(TSLS_Regimes, REGI.Regimes_Frame):
                 )
 
         self.kryd = 0
-        self.kr = len(cols2regi) + 1
+        self.kr = len(cols2regi) + x_constant.shape[1] - x.shape[1]
         self.kf = 0
         self.nr = len(self.regimes_set)
         self.name_x_r = name_x + name_yend
-- 
2.43.0


From 3255a67796bb018704b531c7451cca2ce98c9157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:05 +0000
Subject: [PATCH 60/63] fix: TSLS_Regimes with regime_err_sep ordered its
 coefficient table with an unstable sort, which paired names with the wrong
 coefficients once the table had more than 16 rows

---
 spreg/twosls_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/twosls_regimes.py b/spreg/twosls_regimes.py
index 0cfbaf9..0fc4055 100644
--- a/spreg/twosls_regimes.py
+++ b/spreg/twosls_regimes.py
@@ -625,7 +625,7 @@ class TSLS_Regimes(BaseTSLS, REGI.Regimes_Frame):
         else:
             diag_out = None
         if summ:
-            self.output.sort_values(by='regime', inplace=True)
+            self.output.sort_values(by='regime', kind='stable', inplace=True)
             output(reg=self, vm=vm, robust=robust, other_end=diag_out, latex=latex)
 
     def _get_spat_diag_props(self, results, regi_ids, x, yend, q):
-- 
2.43.0


From 652a62ae9225c70ecae0c04d507aa634b5e873de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:20 +0000
Subject: [PATCH 61/63] fix: the Chow test table was missing from every regimes
 summary: the 1x1 sum of squares no longer formats as a number and the error
 was swallowed

---
 spreg/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/output.py b/spreg/output.py
index 3fcdd0a..15c9ff7 100755
--- a/spreg/output.py
+++ b/spreg/output.py
@@ -227,7 +227,7 @@ def _summary_chow(reg):
     try:
         tot_SSR = reg.score
     except:
-        tot_SSR = np.dot(reg.u.T, reg.u)
+        tot_SSR = np.dot(reg.u.T, reg.u).item()
     try:
         n_clust = reg.nr
     except:
-- 
2.43.0


From 39832b416a22fa79e3661fbe904b3fef7f73353b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:29 +0000
Subject: [PATCH 62/63] fix: ML_Error_Regimes kept the constant's flag in
 cols2regi, so the Chow table named the wrong variables or was left out when
 some coefficients are fixed

---
 spreg/ml_error_regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spreg/ml_error_regimes.py b/spreg/ml_error_regimes.py
index 1d3ec90..cce5edb 100644
--- a/spreg/ml_error_regimes.py
+++ b/spreg/ml_error_regimes.py
@@ -328,7 +328,7 @@ class ML_Error_Regimes(BaseML_Error, REGI.Regimes_Frame):
         self.name_x_r = USER.set_name_x(name_x, x_constant)
 
         cols2regi = REGI.check_cols2regi(constant_regi, cols2regi, x_constant)
-        self.cols2regi = cols2regi        
+        self.cols2regi = cols2regi[1:]  # without the constant
         self.regimes_set = REGI._get_regimes_set(regimes)
         self.regimes = regimes
         USER.check_regimes(self.regimes_set, self.n, x.shape[1])
-- 
2.43.0


From 5c25d21f8ab8622a70a73fc9698259609e7d041d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:23 +0000
Subject: [PATCH 63/63] fix: pooled spatial error panels fail with
 nonspat_diag=False (other_end never set)

---
 spreg/panel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spreg/panel.py b/spreg/panel.py
index 57902d3..7c44d36 100755
--- a/spreg/panel.py
+++ b/spreg/panel.py
@@ -854,6 +854,7 @@ class GM_ErrorPooled(BaseGM_ErrorPooled):
         self.output['regime'], self.output['equation'] = (0, 0)
         self.other_top = _summary_iteration(self)
 
+        other_end = ""
         if nonspat_diag:
             self.bsk = BSK_tests(self, w, which=['LMC_RE'])
             other_end = "\nDIAGNOSTIC TESTS\n"
@@ -1067,6 +1068,7 @@ class ML_ErrorPooled(BaseML_ErrorPooled):
         self.schwarz = DIAG.schwarz(reg=self)
         self.other_top = _nonspat_top(self, ml=True)     
 
+        other_end = ""
         if nonspat_diag:
             self.bsk = BSK_tests(self, w, which=['LMC_RE'])
             other_end = "\nDIAGNOSTIC TESTS\n"
-- 
2.43.0

