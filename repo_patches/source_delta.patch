From 818d1fc51b55f6ace45ea309b2aff33fbf208be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 01/58] fix: make ModelBuilder.save atomic

Saving wrote straight into the target file, so an interrupted save destroyed
the previously saved model, and saving a (lazily) loaded model back to its own
file lost both the file and the data in memory.
---
 pymc_extras/model_builder.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/model_builder.py b/pymc_extras/model_builder.py
index 6e712e5..41eac20 100644
--- a/pymc_extras/model_builder.py
+++ b/pymc_extras/model_builder.py
@@ -15,6 +15,8 @@
 
 import hashlib
 import json
+import os
+import uuid
 import warnings
 
 from abc import abstractmethod
@@ -385,8 +387,16 @@ class ModelBuilder:
         >>> model.save('model_results.nc')  # This will call the overridden method in MyModel
         """
         if self.idata is not None and "posterior" in self.idata:
-            file = Path(str(fname))
-            self.idata.to_netcdf(str(file))
+            file = Path(str(fname)).resolve()
+            # Write to a sibling file and move it into place only once it is complete. A save that is
+            # interrupted must not destroy the model saved before it, and when this model was itself loaded
+            # (lazily) from `fname`, its data still lives in the file that is about to be replaced.
+            temp_file = file.with_name(f".{file.name}.{uuid.uuid4().hex}.tmp")
+            try:
+                self.idata.to_netcdf(str(temp_file))
+                os.replace(temp_file, file)
+            finally:
+                temp_file.unlink(missing_ok=True)
         else:
             raise RuntimeError("The model hasn't been fit yet, call .fit() first")
 
-- 
2.43.0


From cd4876a2de203b4402d86d3a4a8e4a3b40524f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 02/58] fix: keep rows of X and y paired in the data stored by
 ModelBuilder.fit

y was given a fresh index and then joined to X by label, so an X with a
shuffled or non-default index was stored (and reloaded) with other rows' targets.
---
 pymc_extras/model_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/model_builder.py b/pymc_extras/model_builder.py
index 41eac20..f3351cb 100644
--- a/pymc_extras/model_builder.py
+++ b/pymc_extras/model_builder.py
@@ -513,7 +513,7 @@ class ModelBuilder:
             predictor_names = []
         if y is None:
             y = np.zeros(X.shape[0])
-        y = pd.DataFrame({self.output_var: y})
+        y = pd.DataFrame({self.output_var: np.asarray(y)}, index=X.index)
         self._generate_and_preprocess_model_data(X, y.values.flatten())
         self.build_model(self.X, self.y)
 
-- 
2.43.0


From 79613a3a6c2c8a704c22ee98f4db6392e43992d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 03/58] fix: do not let later saves change a loaded
 ModelBuilder model

ModelBuilder.load kept lazy handles that reopen the path on access, so saving
another model to the same path silently replaced (or broke) the data of every
model loaded from it before.
---
 pymc_extras/model_builder.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pymc_extras/model_builder.py b/pymc_extras/model_builder.py
index f3351cb..ff0ea96 100644
--- a/pymc_extras/model_builder.py
+++ b/pymc_extras/model_builder.py
@@ -389,8 +389,7 @@ class ModelBuilder:
         if self.idata is not None and "posterior" in self.idata:
             file = Path(str(fname)).resolve()
             # Write to a sibling file and move it into place only once it is complete. A save that is
-            # interrupted must not destroy the model saved before it, and when this model was itself loaded
-            # (lazily) from `fname`, its data still lives in the file that is about to be replaced.
+            # interrupted must not destroy the model saved before it.
             temp_file = file.with_name(f".{file.name}.{uuid.uuid4().hex}.tmp")
             try:
                 self.idata.to_netcdf(str(temp_file))
@@ -446,7 +445,10 @@ class ModelBuilder:
         >>> imported_model = MyModel.load(name)
         """
         filepath = Path(str(fname))
-        idata = az.from_netcdf(filepath)
+        # arviz reads lazily and reopens the path on access, so a later (or concurrent) save to the same path
+        # would leak into this model. Read everything now, through a single open file.
+        with open(filepath, "rb") as file:
+            idata = az.from_netcdf(file).load()
         # needs to be converted, because json.loads was changing tuple to list
         model_config = cls._model_config_formatting(json.loads(idata.attrs["model_config"]))
         model = cls(
-- 
2.43.0


From 583c45a590895cf5290dced4ba4044d606870c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 04/58] fix: accept a single observation in LinearModel

---
 pymc_extras/linearmodel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/linearmodel.py b/pymc_extras/linearmodel.py
index b1f78b2..c88e157 100644
--- a/pymc_extras/linearmodel.py
+++ b/pymc_extras/linearmodel.py
@@ -96,9 +96,10 @@ class LinearModel(ModelBuilder):
 
     def _data_setter(self, X: pd.DataFrame, y: pd.DataFrame | pd.Series | None = None):
         with self.model:
-            pm.set_data({"x": X.squeeze()})
+            # atleast_1d, because squeezing a single observation gives a scalar
+            pm.set_data({"x": np.atleast_1d(np.squeeze(X))})
             if y is not None:
-                pm.set_data({"y_data": y.squeeze()})
+                pm.set_data({"y_data": np.atleast_1d(np.squeeze(y))})
 
     def _generate_and_preprocess_model_data(
         self, X: pd.DataFrame | pd.Series, y: pd.Series
-- 
2.43.0


From 4662ff7d51b2d806e6c6e720cc73266732d55d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 05/58] fix: treat partially missing observations exactly in
 the Kalman filters

The intercept of a missing element was still subtracted from its zero fill, its
noise stayed correlated with observed elements, the normalising constant of the
standard filter was counted once whatever the number of observed series, and the
reported one-step forecast was that of the masked system.
---
 .../statespace/filters/kalman_filter.py       | 79 +++++++++++++++----
 1 file changed, 65 insertions(+), 14 deletions(-)

diff --git a/pymc_extras/statespace/filters/kalman_filter.py b/pymc_extras/statespace/filters/kalman_filter.py
index 0ca47b5..0031248 100644
--- a/pymc_extras/statespace/filters/kalman_filter.py
+++ b/pymc_extras/statespace/filters/kalman_filter.py
@@ -307,15 +307,23 @@ class BaseFilter(ABC):
 
         return filter_results
 
+    def get_missing_mask(self, y) -> TensorVariable:
+        """
+        Boolean vector marking the elements of `y` that were not observed.
+        """
+        return pt.or_(pt.isnan(y), pt.eq(y, self.missing_fill_value))
+
     def handle_missing_values(
-        self, y, Z, H
-    ) -> tuple[TensorVariable, TensorVariable, TensorVariable, float]:
+        self, y, d, Z, H
+    ) -> tuple[TensorVariable, TensorVariable, TensorVariable, TensorVariable, float]:
         """
         Handle missing values in the observation data `y`
 
-        Adjusts the design matrix `Z` and the observation noise covariance matrix `H` by removing rows and/or columns
-        associated with the data that is not observed at this iteration. Missing values are replaced with zeros to prevent
-        propagating NaNs through the computation.
+        Adjusts the observation intercept `d`, the design matrix `Z` and the observation noise covariance matrix `H` by
+        removing rows and columns associated with the data that is not observed at this iteration. Missing values are
+        replaced with zeros to prevent propagating NaNs through the computation. To keep the problem well-posed, missing
+        observations are given unit noise, uncorrelated with anything else. They are thus treated as perfectly predicted
+        draws from a standard normal, which carry no information about the hidden states.
 
         Return a binary flag tensor `all_nan_flag`,indicating if all values in the observation data are missing. This
         flag is used for numerical adjustments in the update method.
@@ -324,6 +332,8 @@ class BaseFilter(ABC):
         ----------
         y : TensorVariable
             The observation data at time t.
+        d : TensorVariable
+            The observation intercept.
         Z : TensorVariable
             The design matrix.
         H : TensorVariable
@@ -334,6 +344,9 @@ class BaseFilter(ABC):
         y_masked : TensorVariable
             Observation vector with missing values replaced by zeros.
 
+        d_masked : TensorVariable
+            Observation intercept with values associated with missing observations replaced by zeros.
+
         Z_masked: TensorVariable
             Design matrix adjusted to exclude the missing states from the information set of observed variables in the
             update step
@@ -349,15 +362,33 @@ class BaseFilter(ABC):
         .. [1] Durbin, J., and S. J. Koopman. Time Series Analysis by State Space Methods.
                2nd ed, Oxford University Press, 2012.
         """
-        nan_mask = pt.or_(pt.isnan(y), pt.eq(y, self.missing_fill_value))
+        nan_mask = self.get_missing_mask(y)
         all_nan_flag = pt.all(nan_mask).astype(pytensor.config.floatX)
         W = pt.diag(pt.bitwise_not(nan_mask).astype(pytensor.config.floatX))
 
+        d_masked = W.dot(d)
         Z_masked = W.dot(Z)
-        H_masked = W.dot(H)
+        H_masked = W.dot(H).dot(W) + pt.diag(nan_mask.astype(pytensor.config.floatX))
         y_masked = pt.set_subtensor(y[nan_mask], 0.0)
 
-        return y_masked, Z_masked, H_masked, all_nan_flag
+        return y_masked, d_masked, Z_masked, H_masked, all_nan_flag
+
+    def predict_observation(self, a, P, d, Z, H) -> tuple[TensorVariable, TensorVariable]:
+        """
+        One-step forecast of the observed states, given information up to, but not including, the current timestep. The
+        forecast is made for all observed states, whether or not they turn out to be missing.
+
+        Returns
+        -------
+        obs_mu : TensorVariable
+            d + Z @ a[t | t-1]
+        obs_cov : TensorVariable
+            Z @ P[t | t-1] @ Z.T + H
+        """
+        obs_mu = d + Z.dot(a)
+        obs_cov = quad_form_sym(Z, P) + stabilize(H, self.cov_jitter)
+
+        return obs_mu, obs_cov
 
     @staticmethod
     def predict(a, P, c, T, R, Q) -> tuple[TensorVariable, TensorVariable]:
@@ -527,12 +558,21 @@ class BaseFilter(ABC):
                2nd ed, Oxford University Press, 2012.
         """
         y, a, P, c, d, T, Z, R, H, Q = self.unpack_args(args)
-        y_masked, Z_masked, H_masked, all_nan_flag = self.handle_missing_values(y, Z, H)
+        y_masked, d_masked, Z_masked, H_masked, all_nan_flag = self.handle_missing_values(
+            y, d, Z, H
+        )
 
-        a_filtered, P_filtered, obs_mu, obs_cov, ll = self.update(
-            y=y_masked, a=a, d=d, P=P, Z=Z_masked, H=H_masked, all_nan_flag=all_nan_flag
+        a_filtered, P_filtered, _, _, ll = self.update(
+            y=y_masked, a=a, d=d_masked, P=P, Z=Z_masked, H=H_masked, all_nan_flag=all_nan_flag
         )
 
+        # Missing observations enter the update as draws from a standard normal, located exactly at the mean. Remove
+        # the only contribution they make to the likelihood, which is a constant.
+        n_missing = self.get_missing_mask(y).sum()
+        ll = pt.switch(all_nan_flag, 0.0, ll + 0.5 * n_missing * MVN_CONST)
+
+        obs_mu, obs_cov = self.predict_observation(a=a, P=P, d=d, Z=Z, H=H)
+
         P_filtered = stabilize(P_filtered, self.cov_jitter)
 
         a_hat, P_hat = self.predict(a=a_filtered, P=P_filtered, c=c, T=T, R=R, Q=Q)
@@ -611,7 +651,7 @@ class StandardFilter(BaseFilter):
         ll = pt.switch(
             all_nan_flag,
             0.0,
-            -0.5 * (MVN_CONST + F_logdet + inner_term).ravel()[0],
+            -0.5 * (self.n_endog * MVN_CONST + F_logdet + inner_term).ravel()[0],
         )
 
         return a_filtered, P_filtered, y_hat, F, ll
@@ -715,6 +755,18 @@ class SquareRootFilter(BaseFilter):
 
         return a_filtered, P_chol_filtered, y_hat, F_chol, ll
 
+    def predict_observation(self, a, P, d, Z, H):
+        """
+        .. warning::
+            Very important -- In this function, $P$ is the **cholesky factor** of the covariance matrix, not the
+            covariance matrix itself. The returned `obs_cov`, on the other hand, is a covariance matrix.
+        """
+        obs_mu = d + Z.dot(a)
+        ZP_chol = Z.dot(P)
+        obs_cov = ZP_chol.dot(ZP_chol.T) + H
+
+        return obs_mu, obs_cov
+
     def _postprocess_scan_results(self, results, a0, P0, n) -> list[TensorVariable]:
         """
         Convert the Cholesky factor of the covariance matrix back to the covariance matrix itself.
@@ -726,7 +778,7 @@ class SquareRootFilter(BaseFilter):
             observed_states,
             filtered_covariances_cholesky,
             predicted_covariances_cholesky,
-            observed_covariances_cholesky,
+            observed_covariances,
             loglike_obs,
         ) = results
 
@@ -737,7 +789,6 @@ class SquareRootFilter(BaseFilter):
 
         filtered_covariances = square_sequnece(filtered_covariances_cholesky, k=self.n_states)
         predicted_covariances = square_sequnece(predicted_covariances_cholesky, k=self.n_states)
-        observed_covariances = square_sequnece(observed_covariances_cholesky, k=self.n_endog)
 
         return [
             filtered_states,
-- 
2.43.0


From de82b7968aa04b3e574718cbf67865b45d746253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 06/58] fix: log-likelihood of SquareRootFilter

The innovation was divided by the Cholesky factor of F twice instead of by F,
log det F was multiplied by the number of observed series, and H with some but
not all variances equal to zero could not be factorised.
---
 pymc_extras/statespace/filters/kalman_filter.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pymc_extras/statespace/filters/kalman_filter.py b/pymc_extras/statespace/filters/kalman_filter.py
index 0031248..cb43379 100644
--- a/pymc_extras/statespace/filters/kalman_filter.py
+++ b/pymc_extras/statespace/filters/kalman_filter.py
@@ -703,7 +703,11 @@ class SquareRootFilter(BaseFilter):
         y_hat = Z.dot(a) + d
         v = y - y_hat
 
-        H_chol = pytensor.ifelse(pt.all(pt.eq(H, 0.0)), H, pt.linalg.cholesky(H, lower=True))
+        # Only some observed states may be measured without error, in which case H is singular but not zero.
+        H_jitter = pt.diag(pt.eq(pt.diag(H), 0.0).astype(pytensor.config.floatX)) * self.cov_jitter
+        H_chol = pytensor.ifelse(
+            pt.all(pt.eq(H, 0.0)), H, pt.linalg.cholesky(H + H_jitter, lower=True)
+        )
 
         # The following notation comes from https://ipnpr.jpl.nasa.gov/progress_report/42-233/42-233A.pdf
         # Construct upper-triangular block matrix A = [[chol(H), Z @ L_pred],
@@ -725,15 +729,13 @@ class SquareRootFilter(BaseFilter):
         def compute_non_degenerate(P_chol_filtered, F_chol, K_F_chol, v):
             a_filtered = a + K_F_chol @ solve_triangular(F_chol, v, lower=True)
 
-            inner_term = solve_triangular(
-                F_chol, solve_triangular(F_chol, v, lower=True), lower=True
-            )
-            loss = (v.T @ inner_term).ravel()
+            F_chol_inv_v = solve_triangular(F_chol, v, lower=True)
+            loss = F_chol_inv_v.T @ F_chol_inv_v
 
             # abs necessary because we're not guaranteed a positive diagonal from the schur decomposition
             logdet = 2 * pt.log(pt.abs(pt.diag(F_chol))).sum()
 
-            ll = -0.5 * (self.n_endog * (MVN_CONST + logdet) + loss)[0]
+            ll = -0.5 * (self.n_endog * MVN_CONST + logdet + loss)
 
             return [a_filtered, P_chol_filtered, ll]
 
-- 
2.43.0


From 89f9ee1673b3c466ee0643dd7535f991c6f9684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 07/58] fix: UnivariateFilter with missing values, several
 series and time-varying matrices

Values equal to missing_fill_value were treated as data, the forecast of the last
series alone was returned, and arguments were not reordered when matrices vary
over time.
---
 .../statespace/filters/kalman_filter.py       | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pymc_extras/statespace/filters/kalman_filter.py b/pymc_extras/statespace/filters/kalman_filter.py
index cb43379..409c22a 100644
--- a/pymc_extras/statespace/filters/kalman_filter.py
+++ b/pymc_extras/statespace/filters/kalman_filter.py
@@ -839,10 +839,11 @@ class UnivariateFilter(BaseFilter):
 
         ll_inner = pt.switch(F_zero_flag, 0.0, pt.log(F) + v**2 / F)
 
-        return a_filtered, P_filtered, pt.atleast_1d(y_hat), pt.atleast_2d(F), ll_inner
+        return a_filtered, P_filtered, ll_inner
 
-    def kalman_step(self, y, a, P, c, d, T, Z, R, H, Q):
-        nan_mask = pt.isnan(y)
+    def kalman_step(self, *args):
+        y, a, P, c, d, T, Z, R, H, Q = self.unpack_args(args)
+        nan_mask = self.get_missing_mask(y)
 
         W = pt.set_subtensor(pt.eye(y.shape[0])[nan_mask, nan_mask], 0.0)
         Z_masked = W.dot(Z)
@@ -852,18 +853,15 @@ class UnivariateFilter(BaseFilter):
         result, updates = pytensor.scan(
             self._univariate_inner_filter_step,
             sequences=[y_masked, Z_masked, d, pt.diag(H_masked), nan_mask],
-            outputs_info=[a, P, None, None, None],
+            outputs_info=[a, P, None],
             mode=get_mode(self.mode),
             name="univariate_inner_scan",
         )
 
-        a_filtered, P_filtered, obs_mu, obs_cov, ll_inner = result
-        a_filtered, P_filtered, obs_mu, obs_cov = (
-            a_filtered[-1],
-            P_filtered[-1],
-            obs_mu[-1],
-            obs_cov[-1],
-        )
+        a_filtered, P_filtered, ll_inner = result
+        a_filtered, P_filtered = a_filtered[-1], P_filtered[-1]
+
+        obs_mu, obs_cov = self.predict_observation(a=a, P=P, d=d, Z=Z, H=H)
 
         P_filtered = stabilize(0.5 * (P_filtered + P_filtered.T), self.cov_jitter)
         a_hat, P_hat = self.predict(a=a_filtered, P=P_filtered, c=c, T=T, R=R, Q=Q)
-- 
2.43.0


From ba9d6e61b999aa39313b5bec8539291e93b195cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 08/58] fix: independent initial draws and aligned matrices in
 LinearGaussianStateSpace

The initial state, the initial observation and the first innovation were drawn
from the same random state, so they were perfectly correlated. The initial
observation ignored d, and y[k+1] was made with the time-varying d, Z and H of
step k.
---
 .../statespace/filters/distributions.py       | 33 ++++++++++++++++---
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/pymc_extras/statespace/filters/distributions.py b/pymc_extras/statespace/filters/distributions.py
index d3b70c8..69bf705 100644
--- a/pymc_extras/statespace/filters/distributions.py
+++ b/pymc_extras/statespace/filters/distributions.py
@@ -10,8 +10,11 @@ from pymc.distributions.multivariate import MvNormal
 from pymc.distributions.shape_utils import get_support_shape_1d
 from pymc.logprob.abstract import _logprob
 from pytensor.graph.basic import Node
+from pytensor.graph.replace import clone_replace
 from pytensor.tensor.random.basic import MvNormalRV
 
+from pymc_extras.statespace.filters.utilities import decide_if_x_time_varies
+
 floatX = pytensor.config.floatX
 COV_ZERO_TOL = 0
 
@@ -211,11 +214,13 @@ class _LinearGaussianStateSpace(Continuous):
         H_.name = "H"
         Q_.name = "Q"
 
+        # A matrix without a time dimension is static, even if it is listed among the sequences
         sequences = [
             x
             for x, name in zip([c_, d_, T_, Z_, R_, H_, Q_], ["c", "d", "T", "Z", "R", "H", "Q"])
-            if name in sequence_names
+            if name in sequence_names and decide_if_x_time_varies(x, name)
         ]
+        sequence_names = [x.name for x in sequences]
         non_sequences = [x for x in [c_, d_, T_, Z_, R_, H_, Q_] if x not in sequences]
 
         rng = pytensor.shared(np.random.default_rng())
@@ -257,24 +262,43 @@ class _LinearGaussianStateSpace(Continuous):
 
             return next_state, {rng: next_rng}
 
+        d_init = d_ if d_ in non_sequences else d_[0]
         Z_init = Z_ if Z_ in non_sequences else Z_[0]
         H_init = H_ if H_ in non_sequences else H_[0]
 
-        init_x_ = MvNormalSVD.dist(a0_, P0_, rng=rng)
-        init_y_ = MvNormalSVD.dist(Z_init @ init_x_, H_init, rng=rng)
+        init_x_rng, init_x_ = MvNormalSVD.dist(a0_, P0_, rng=rng).owner.outputs
+        init_y_rng, init_y_ = MvNormalSVD.dist(
+            d_init + Z_init @ init_x_, H_init, rng=init_x_rng
+        ).owner.outputs
 
         init_dist_ = pt.concatenate([init_x_, init_y_], axis=0)
 
+        if append_x0:
+            # Step k takes x[k] to x[k+1], then makes y[k+1]. The first value of the matrices of the observation equation
+            # was used by the initial observation.
+            sequences = [
+                seq[1:].copy(name=seq.name) if seq in (d_, Z_, H_) else seq for seq in sequences
+            ]
+
+        # Scan only knows how to update shared variables. Use a placeholder to build the graph, then replace it by the
+        # rng that already made the initial draws, so that it does not repeat them.
+        scan_rng = pytensor.shared(np.random.default_rng())
+
         statespace, updates = pytensor.scan(
             step_fn,
             outputs_info=[init_dist_],
             sequences=None if len(sequences) == 0 else sequences,
-            non_sequences=[*non_sequences, rng],
+            non_sequences=[*non_sequences, scan_rng],
             n_steps=steps,
             mode=mode,
             strict=True,
         )
 
+        (ss_rng,) = tuple(updates.values())
+        statespace, ss_rng = clone_replace(
+            [statespace, ss_rng], replace={scan_rng: init_y_rng}, copy_inputs_over=True
+        )
+
         if append_x0:
             statespace_ = pt.concatenate([init_dist_[None], statespace], axis=0)
             statespace_ = pt.specify_shape(statespace_, (steps + 1, None))
@@ -282,7 +306,6 @@ class _LinearGaussianStateSpace(Continuous):
             statespace_ = statespace
             statespace_ = pt.specify_shape(statespace_, (steps, None))
 
-        (ss_rng,) = tuple(updates.values())
         linear_gaussian_ss_op = LinearGaussianStateSpaceRV(
             inputs=[a0_, P0_, c_, d_, T_, Z_, R_, H_, Q_, steps, rng],
             outputs=[ss_rng, statespace_],
-- 
2.43.0


From 97655a603c5cccd1ebc5974b568683bee25b1345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 09/58] fix: state and observation counts of
 LinearGaussianStateSpace with time-varying T or H

---
 pymc_extras/statespace/filters/distributions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymc_extras/statespace/filters/distributions.py b/pymc_extras/statespace/filters/distributions.py
index 69bf705..4d43e98 100644
--- a/pymc_extras/statespace/filters/distributions.py
+++ b/pymc_extras/statespace/filters/distributions.py
@@ -390,7 +390,7 @@ class LinearGaussianStateSpace(Continuous):
         latent_obs_combined = _LinearGaussianStateSpace.dist(
             a0, P0, c, d, T, Z, R, H, Q, steps=steps, **kwargs
         )
-        k_states = T.type.shape[0]
+        k_states = T.type.shape[-1]
 
         latent_states = latent_obs_combined[..., :k_states]
         obs_states = latent_obs_combined[..., k_states:]
@@ -399,14 +399,14 @@ class LinearGaussianStateSpace(Continuous):
 
     @classmethod
     def _get_k_states(cls, T):
-        k_states = T.type.shape[0]
+        k_states = T.type.shape[-1]
         if k_states is None:
             raise ValueError(lgss_shape_message)
         return k_states
 
     @classmethod
     def _get_k_endog(cls, H):
-        k_endog = H.type.shape[0]
+        k_endog = H.type.shape[-1]
         if k_endog is None:
             raise ValueError(lgss_shape_message)
 
-- 
2.43.0


From 5a281d8cb0f883650263c8bb94b0e8d1cef5c539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 10/58] fix: state intercept and time-varying matrices in the
 Kalman smoother

The smoother predicted without c, and its time-varying T, R and Q were shifted by
one step against the filtered states.
---
 pymc_extras/statespace/core/statespace.py     | 13 +++++--
 .../statespace/filters/kalman_smoother.py     | 35 +++++++++++++------
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index 8ad86c1..f0cf07c 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -940,10 +940,17 @@ class PyMCStateSpace:
 
         pymc_model = modelcontext(None)
         with pymc_model:
-            *_, T, Z, R, H, Q = matrices
+            *_, c, d, T, Z, R, H, Q = matrices
 
             smooth_states, smooth_covariances = self.kalman_smoother.build_graph(
-                T, R, Q, filtered_states, filtered_covariances, mode=mode, cov_jitter=cov_jitter
+                T,
+                R,
+                Q,
+                filtered_states,
+                filtered_covariances,
+                mode=mode,
+                cov_jitter=cov_jitter,
+                c=c,
             )
             smooth_states.name = "smooth_states"
             smooth_covariances.name = "smooth_covariances"
@@ -1047,7 +1054,7 @@ class PyMCStateSpace:
         filtered_covariances, predicted_covariances, _ = covariances
 
         [smoothed_states, smoothed_covariances] = self.kalman_smoother.build_graph(
-            T, R, Q, filtered_states, filtered_covariances, mode=self._fit_mode
+            T, R, Q, filtered_states, filtered_covariances, mode=self._fit_mode, c=c
         )
 
         grouped_outputs = [
diff --git a/pymc_extras/statespace/filters/kalman_smoother.py b/pymc_extras/statespace/filters/kalman_smoother.py
index f15913b..f8eef7b 100644
--- a/pymc_extras/statespace/filters/kalman_smoother.py
+++ b/pymc_extras/statespace/filters/kalman_smoother.py
@@ -31,7 +31,7 @@ class KalmanSmoother:
         non-sequences. This function works out which matrices are where, and returns a standardized order expected
         by the kalman_step function.
 
-        The standard order is: a, P, a_smooth, P_smooth, T, R, Q
+        The standard order is: a, P, a_smooth, P_smooth, c, T, R, Q
         """
         # If there are no sequence parameters (all params are static),
         # no changes are needed, params will be in order.
@@ -51,7 +51,7 @@ class KalmanSmoother:
             args[n_seq + 2 :],
         )
         return_ordered = []
-        for name in ["T", "R", "Q"]:
+        for name in ["c", "T", "R", "Q"]:
             if name in self.seq_names:
                 idx = self.seq_names.index(name)
                 return_ordered.append(seqs[idx])
@@ -59,12 +59,20 @@ class KalmanSmoother:
                 idx = self.non_seq_names.index(name)
                 return_ordered.append(non_seqs[idx])
 
-        T, R, Q = return_ordered
+        c, T, R, Q = return_ordered
 
-        return a, P, a_smooth, P_smooth, T, R, Q
+        return a, P, a_smooth, P_smooth, c, T, R, Q
 
     def build_graph(
-        self, T, R, Q, filtered_states, filtered_covariances, mode=None, cov_jitter=JITTER_DEFAULT
+        self,
+        T,
+        R,
+        Q,
+        filtered_states,
+        filtered_covariances,
+        mode=None,
+        cov_jitter=JITTER_DEFAULT,
+        c=None,
     ):
         self.mode = mode
         self.cov_jitter = cov_jitter
@@ -74,10 +82,17 @@ class KalmanSmoother:
         a_last = pt.specify_shape(filtered_states[-1], (k,))
         P_last = pt.specify_shape(filtered_covariances[-1], (k, k))
 
+        if c is None:
+            c = pt.zeros_like(a_last)
+
         sequences, non_sequences, seq_names, non_seq_names = split_vars_into_seq_and_nonseq(
-            [T, R, Q], ["T", "R", "Q"]
+            [c, T, R, Q], ["c", "T", "R", "Q"]
         )
 
+        # There is no transition out of the last state. Without this, the reversed sequences would be misaligned with
+        # the filtered states.
+        sequences = [seq[:-1] for seq in sequences]
+
         self.seq_names = seq_names
         self.non_seq_names = non_seq_names
 
@@ -105,8 +120,8 @@ class KalmanSmoother:
         return smoothed_states, smoothed_covariances
 
     def smoother_step(self, *args):
-        a, P, a_smooth, P_smooth, T, R, Q = self.unpack_args(args)
-        a_hat, P_hat = self.predict(a, P, T, R, Q)
+        a, P, a_smooth, P_smooth, c, T, R, Q = self.unpack_args(args)
+        a_hat, P_hat = self.predict(a, P, c, T, R, Q)
 
         # Use pinv, otherwise P_hat is singular when there is missing data
         smoother_gain = matrix_dot(pt.linalg.pinv(P_hat), T, P).T
@@ -118,8 +133,8 @@ class KalmanSmoother:
 
         return a_smooth_next, P_smooth_next
 
-    def predict(self, a, P, T, R, Q):
-        a_hat = T.dot(a)
+    def predict(self, a, P, c, T, R, Q):
+        a_hat = T.dot(a) + c
         P_hat = quad_form_sym(T, P) + quad_form_sym(R, Q)
         P_hat = stabilize(P_hat, self.cov_jitter)
 
-- 
2.43.0


From 68207dee0d628a797ec9fc82ff439b0b06eb65cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 11/58] fix: initialise the square root filter with the
 Cholesky factor of P0

Models built with filter_type="cholesky" passed P0 itself.
---
 pymc_extras/statespace/core/statespace.py | 31 +++++++++++++----------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index f0cf07c..38dd273 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -865,9 +865,9 @@ class PyMCStateSpace:
             missing_fill_value=missing_fill_value,
         )
 
-        filter_outputs = self.kalman_filter.build_graph(
+        filter_outputs = self._build_filter_graph(
             pt.as_tensor_variable(data),
-            *self.unpack_statespace(),
+            self.unpack_statespace(),
             mode=mode,
             missing_fill_value=missing_fill_value,
             cov_jitter=cov_jitter,
@@ -900,6 +900,19 @@ class PyMCStateSpace:
         self._fit_dims = pm_mod.named_vars_to_dims.copy()
         self._fit_mode = mode
 
+    def _build_filter_graph(self, data, matrices, **kwargs):
+        """
+        Build the computation graph of the Kalman filter, given all statespace matrices.
+
+        The square root filter is written in terms of the Cholesky factor of the state covariance, and expects its
+        initial value in the same form.
+        """
+        x0, P0, *params = matrices
+        if isinstance(self.kalman_filter, SquareRootFilter):
+            P0 = pt.linalg.cholesky(stabilize(P0), lower=True)
+
+        return self.kalman_filter.build_graph(data, x0, P0, *params, **kwargs)
+
     def _build_smoother_graph(
         self,
         filtered_states: pt.TensorVariable,
@@ -1033,18 +1046,8 @@ class PyMCStateSpace:
             register_data=True,
         )
 
-        filter_outputs = self.kalman_filter.build_graph(
-            data,
-            x0,
-            P0,
-            c,
-            d,
-            T,
-            Z,
-            R,
-            H,
-            Q,
-            mode=self._fit_mode,
+        filter_outputs = self._build_filter_graph(
+            data, [x0, P0, c, d, T, Z, R, H, Q], mode=self._fit_mode
         )
 
         filter_outputs.pop(-1)
-- 
2.43.0


From 7cf29aa8c11c562631d7bff42a6738d73d067968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 12/58] fix: observation intercept in conditional samples of
 the observed states

---
 pymc_extras/statespace/core/statespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index 38dd273..aa97969 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -1148,7 +1148,7 @@ class PyMCStateSpace:
                     dims=state_dims,
                 )
 
-                obs_mu = (Z @ mu[..., None]).squeeze(-1)
+                obs_mu = d + (Z @ mu[..., None]).squeeze(-1)
                 obs_cov = Z @ cov @ pt.swapaxes(Z, -2, -1) + H
 
                 SequenceMvNormal(
-- 
2.43.0


From d8f9bbe1f079c4611c06f287bc0401e7e6cba65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 13/58] fix: use_data_time_dim with explicit steps in
 unconditional sampling

The trajectories had one more value than the time dimension.
---
 pymc_extras/statespace/core/statespace.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index aa97969..bd85be8 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -1238,15 +1238,16 @@ class PyMCStateSpace:
         if not use_data_time_dim and steps is not None:
             temp_coords.update({TIME_DIM: np.arange(1 + steps, dtype="int")})
             steps = len(temp_coords[TIME_DIM]) - 1
-        elif steps is not None:
+        else:
             n_dimsteps = len(temp_coords[TIME_DIM])
-            if n_dimsteps != steps:
+            if steps is not None and n_dimsteps != steps:
                 raise ValueError(
                     f"Length of time dimension does not match specified number of steps, expected"
                     f" {n_dimsteps} steps, or steps=None."
                 )
-        else:
-            steps = len(temp_coords[TIME_DIM]) - 1
+
+            # The initial state is one of the values along the time dimension
+            steps = n_dimsteps - 1
 
         if all([dim in self._fit_coords for dim in [TIME_DIM, ALL_STATE_DIM, OBS_STATE_DIM]]):
             dims = [TIME_DIM, ALL_STATE_DIM, OBS_STATE_DIM]
-- 
2.43.0


From 1520cb5e9071801991130af2b8be77fe8f7bd858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 14/58] fix: keep forecast scenarios aligned with the model

Columns in another order than in the fit data were never re-ordered, and the
dictionary passed by the user was written to.
---
 pymc_extras/statespace/core/statespace.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index bd85be8..b5c883f 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -1621,6 +1621,8 @@ class PyMCStateSpace:
             )
 
         if isinstance(scenario, dict):
+            # Don't write to the dictionary the user passed
+            scenario = scenario.copy()
             for name, data in scenario.items():
                 if name not in self._exog_names:
                     raise ValueError(
@@ -1630,7 +1632,7 @@ class PyMCStateSpace:
 
                 # Recursively call this function to trigger the non-dictionary branch of the checks on each object
                 # inside the dictionary
-                scenario[name] = self._validate_scenario_data(data, name)
+                scenario[name] = self._validate_scenario_data(data, name, verbose=verbose)
 
             # The provided dictionary might be a mix of numpy arrays and dataframes if the user is truly horrible.
             # For checking shapes, the first object will always be good enough. But we also need to make sure all the
@@ -1708,13 +1710,14 @@ class PyMCStateSpace:
                         f"{', '.join(extra_columns)}"
                     )
 
-                if not (a == b for a, b in zip(expected_cols, cols)) and verbose:
-                    _log.warning(
-                        f"Scenario data for {name} has a different column order than the data used to fit the "
-                        f"model. Columns will be automatically re-ordered. Ensure consistent ordering to avoid "
-                        f"silent errors."
-                    )
-                    scenario = scenario[expected_cols]
+                if not all(a == b for a, b in zip(expected_cols, cols)):
+                    if verbose:
+                        _log.warning(
+                            f"Scenario data for {name} has a different column order than the data used to fit the "
+                            f"model. Columns will be automatically re-ordered. Ensure consistent ordering to avoid "
+                            f"silent errors."
+                        )
+                    scenario = scenario[list(expected_cols)]
 
             return scenario
 
@@ -1865,6 +1868,7 @@ class PyMCStateSpace:
             return scenario
 
         if isinstance(scenario, dict):
+            scenario = scenario.copy()
             for name, data in scenario.items():
                 scenario[name] = self._finalize_scenario_initialization(data, forecast_index, name)
             return scenario
-- 
2.43.0


From c88a0ac68093b9793259bc1e58fa265ba92fe86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 15/58] fix: default forecast start with verbose=False

---
 pymc_extras/statespace/core/statespace.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index b5c883f..1af1be0 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -1978,11 +1978,12 @@ class PyMCStateSpace:
         _validate_filter_arg(filter_output)
         time_index = self._get_fit_time_index()
 
-        if start is None and verbose:
-            _log.warning(
-                "No start date provided. Using the last date in the data index. To silence this warning, "
-                "explicitly pass a start date or set verbose = False"
-            )
+        if start is None:
+            if verbose:
+                _log.warning(
+                    "No start date provided. Using the last date in the data index. To silence this warning, "
+                    "explicitly pass a start date or set verbose = False"
+                )
             start = time_index[-1]
 
         if self._needs_exog_data and not isinstance(scenario, dict):
-- 
2.43.0


From 53edd2075193b860a657c72f8df6de3f95c1af7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 16/58] fix: sample time-varying statespace matrices

---
 pymc_extras/statespace/core/statespace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index 1af1be0..53bd14c 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -1502,6 +1502,8 @@ class PyMCStateSpace:
                 if (long_name in matrix_names) or (short_name in matrix_names):
                     name = long_name if long_name in matrix_names else short_name
                     dims = [x if x in self._fit_coords else None for x in MATRIX_DIMS[short_name]]
+                    if matrix.ndim > len(dims):
+                        dims = [TIME_DIM if TIME_DIM in self._fit_coords else None, *dims]
                     pm.Deterministic(name, matrix, dims=dims)
 
         # TODO: Remove this after pm.Flat has its initial_value fixed
-- 
2.43.0


From 8eb5b42d89531f59b902fc3b0bf198cc8585ad35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 17/58] fix: compile_kwargs in impulse_response_function

They were passed twice to sample_posterior_predictive.
---
 pymc_extras/statespace/core/statespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index 53bd14c..b1e214e 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -2236,7 +2236,7 @@ class PyMCStateSpace:
 
             pm.Deterministic("irf", irf, dims=[TIME_DIM, ALL_STATE_DIM])
 
-            compile_kwargs = kwargs.get("compile_kwargs", {})
+            compile_kwargs = dict(kwargs.pop("compile_kwargs", {}))
             if "mode" not in compile_kwargs.keys():
                 compile_kwargs = {"mode": self._fit_mode}
             else:
-- 
2.43.0


From e53ec17f7da7cd625ced4279c264a97153bdf7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 18/58] fix: do not modify the data passed to
 build_statespace_graph

The name of a Series and the frequency of its index were overwritten.
---
 pymc_extras/statespace/utils/data_tools.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pymc_extras/statespace/utils/data_tools.py b/pymc_extras/statespace/utils/data_tools.py
index 5119726..a5b6858 100644
--- a/pymc_extras/statespace/utils/data_tools.py
+++ b/pymc_extras/statespace/utils/data_tools.py
@@ -80,9 +80,7 @@ def preprocess_numpy_data(data, n_obs, obs_coords=None):
 
 def preprocess_pandas_data(data, n_obs, obs_coords=None, check_column_names=False):
     if isinstance(data, pd.Series):
-        if data.name is None:
-            data.name = "data"
-        data = data.to_frame()
+        data = data.to_frame(name="data" if data.name is None else data.name)
 
     col_names = data.columns
     _validate_data_shape(data.shape, n_obs, obs_coords, check_column_names, col_names)
@@ -95,10 +93,9 @@ def preprocess_pandas_data(data, n_obs, obs_coords=None, check_column_names=Fals
     elif isinstance(data.index, pd.DatetimeIndex):
         if data.index.freq is None:
             warnings.warn(NO_FREQ_INFO_WARNING)
-            data.index.freq = data.index.inferred_freq
+            return data.values, pd.DatetimeIndex(data.index, freq=data.index.inferred_freq)
 
-        index = data.index
-        return data.values, index
+        return data.values, data.index
 
     else:
         raise IndexError(
-- 
2.43.0


From 9b0fa3cd385e5b78976ed8e685057cc8e9a0f327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 19/58] fix: use the fit's missing_fill_value and cov_jitter in
 conditional samples and forecasts

---
 pymc_extras/statespace/core/statespace.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index b1e214e..55b3d5d 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -221,6 +221,8 @@ class PyMCStateSpace:
         measurement_error: bool = False,
     ):
         self._fit_mode: str | None = None
+        self._fit_missing_fill_value: float | None = None
+        self._fit_cov_jitter: float | None = None
         self._fit_coords: dict[str, Sequence[str]] | None = None
         self._fit_dims: dict[str, Sequence[str]] | None = None
         self._fit_data: pt.TensorVariable | None = None
@@ -899,6 +901,8 @@ class PyMCStateSpace:
         self._fit_coords = pm_mod.coords.copy()
         self._fit_dims = pm_mod.named_vars_to_dims.copy()
         self._fit_mode = mode
+        self._fit_missing_fill_value = missing_fill_value
+        self._fit_cov_jitter = cov_jitter
 
     def _build_filter_graph(self, data, matrices, **kwargs):
         """
@@ -1044,10 +1048,15 @@ class PyMCStateSpace:
             obs_coords=obs_coords,
             data_dims=data_dims,
             register_data=True,
+            missing_fill_value=self._fit_missing_fill_value,
         )
 
         filter_outputs = self._build_filter_graph(
-            data, [x0, P0, c, d, T, Z, R, H, Q], mode=self._fit_mode
+            data,
+            [x0, P0, c, d, T, Z, R, H, Q],
+            mode=self._fit_mode,
+            missing_fill_value=self._fit_missing_fill_value,
+            cov_jitter=self._fit_cov_jitter,
         )
 
         filter_outputs.pop(-1)
-- 
2.43.0


From 0a22157838dd3dae8b7c6aac4de3d0c20007e890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 20/58] fix: SquareRootFilter with a single state or with zero
 variances in Q or H

---
 .../statespace/filters/kalman_filter.py       | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pymc_extras/statespace/filters/kalman_filter.py b/pymc_extras/statespace/filters/kalman_filter.py
index 409c22a..705b10c 100644
--- a/pymc_extras/statespace/filters/kalman_filter.py
+++ b/pymc_extras/statespace/filters/kalman_filter.py
@@ -666,6 +666,17 @@ class SquareRootFilter(BaseFilter):
 
     """
 
+    @staticmethod
+    def _cholesky_with_zeros(X):
+        """
+        Cholesky factor of a covariance matrix, some (or all) of whose variances may be zero, because states have no
+        innovations or are observed without error.
+        """
+        is_zero = pt.eq(pt.diag(X), 0.0).astype(pytensor.config.floatX)
+        L = pt.linalg.cholesky(X + pt.diag(is_zero), lower=True)
+
+        return L * (1 - is_zero)[:, None]
+
     def predict(self, a, P, c, T, R, Q):
         """
         Compute one-step forecasts for the hidden states conditioned on information up to, but not including, the current
@@ -679,11 +690,12 @@ class SquareRootFilter(BaseFilter):
         P_chol = P
 
         a_hat = T.dot(a) + c
-        Q_chol = pt.linalg.cholesky(Q, lower=True)
+        Q_chol = self._cholesky_with_zeros(Q)
 
         M = pt.horizontal_stack(T @ P_chol, R @ Q_chol).T
         R_decomp = pt.linalg.qr(M, mode="r")
         P_chol_hat = R_decomp[: self.n_states, : self.n_states].T
+        P_chol_hat = pt.specify_shape(P_chol_hat, (self.n_states, self.n_states))
 
         return a_hat, P_chol_hat
 
@@ -703,11 +715,7 @@ class SquareRootFilter(BaseFilter):
         y_hat = Z.dot(a) + d
         v = y - y_hat
 
-        # Only some observed states may be measured without error, in which case H is singular but not zero.
-        H_jitter = pt.diag(pt.eq(pt.diag(H), 0.0).astype(pytensor.config.floatX)) * self.cov_jitter
-        H_chol = pytensor.ifelse(
-            pt.all(pt.eq(H, 0.0)), H, pt.linalg.cholesky(H + H_jitter, lower=True)
-        )
+        H_chol = self._cholesky_with_zeros(H)
 
         # The following notation comes from https://ipnpr.jpl.nasa.gov/progress_report/42-233/42-233A.pdf
         # Construct upper-triangular block matrix A = [[chol(H), Z @ L_pred],
-- 
2.43.0


From af559c90492e86ad7265938c1d6879d8f761e7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 21/58] fix: forecast horizon taken from the scenario index

use_scenario_index=True was refused unless arguments it ignores were passed, and
the index was not found when the first of several scenarios was an array.
---
 pymc_extras/statespace/core/statespace.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index 55b3d5d..bfce2b7 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -1547,9 +1547,9 @@ class PyMCStateSpace:
                 raise ValueError(
                     "Integer start must be within the range of the data index used to fit the model."
                 )
-        if periods is None and end is None:
+        if not use_scenario_index and periods is None and end is None:
             raise ValueError("Must specify one of either periods or end")
-        if periods is not None and end is not None:
+        if not use_scenario_index and periods is not None and end is not None:
             raise ValueError("Must specify exactly one of either periods or end")
         if scenario is None and use_scenario_index:
             raise ValueError("use_scenario_index=True requires a scenario to be provided.")
@@ -1775,7 +1775,11 @@ class PyMCStateSpace:
             if isinstance(x, pd.DataFrame | pd.Series):
                 return x.index
             elif isinstance(x, dict):
-                return get_or_create_index(next(iter(x.values())), time_index, start)
+                # Prefer a scenario that has an index
+                with_index = (df for df in x.values() if isinstance(df, pd.DataFrame | pd.Series))
+                return get_or_create_index(
+                    next(with_index, next(iter(x.values()))), time_index, start
+                )
             elif isinstance(x, np.ndarray | list | tuple):
                 if start is None:
                     raise ValueError(
-- 
2.43.0


From d9403afc9d081416e7646130374c826c7b59ea31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:41 +0000
Subject: [PATCH 22/58] fix: single-step trajectories with time-varying
 matrices in LinearGaussianStateSpace

Scan does not name the sequences of a single step, so rv_op could not be built.
---
 pymc_extras/statespace/filters/distributions.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/pymc_extras/statespace/filters/distributions.py b/pymc_extras/statespace/filters/distributions.py
index 4d43e98..e9d4862 100644
--- a/pymc_extras/statespace/filters/distributions.py
+++ b/pymc_extras/statespace/filters/distributions.py
@@ -225,19 +225,13 @@ class _LinearGaussianStateSpace(Continuous):
 
         rng = pytensor.shared(np.random.default_rng())
 
-        def sort_args(args):
-            sorted_args = []
-
-            # Inside the scan, outputs_info variables get a time step appended to their name
-            # e.g. x -> x[t]. Remove this so we can identify variables by name.
-            arg_names = [x.name.replace("[t]", "") for x in args]
+        # Scan gives the sequences and non-sequences to the step function in the order it got them. (It does not always keep
+        # their names: it has none for the sequences of a single step.)
+        arg_names = [x.name for x in (*sequences, *non_sequences)]
 
+        def sort_args(args):
             # c, d ,T, Z, R, H, Q is the "canonical" ordering
-            for name in ["c", "d", "T", "Z", "R", "H", "Q"]:
-                idx = arg_names.index(name)
-                sorted_args.append(args[idx])
-
-            return sorted_args
+            return [args[arg_names.index(name)] for name in ["c", "d", "T", "Z", "R", "H", "Q"]]
 
         n_seq = len(sequence_names)
 
-- 
2.43.0


From dc1f18998496c64e59a1b84ea007af6e0bc68550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:41 +0000
Subject: [PATCH 23/58] fix: accept integer scenarios in forecast

---
 pymc_extras/statespace/core/statespace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index bfce2b7..0c7a24e 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -2065,7 +2065,8 @@ class PyMCStateSpace:
             if scenario is not None:
                 sub_dict = {
                     forecast_model[data_name]: pt.as_tensor_variable(
-                        scenario.get(data_name), name=data_name
+                        np.asarray(scenario.get(data_name), dtype=forecast_model[data_name].dtype),
+                        name=data_name,
                     )
                     for data_name in self.data_names
                 }
-- 
2.43.0


From 9a51834f69076b618149254be060f8fa030cb696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 24/58] fix: do not marginalize variables that are summed over
 their first dimension

The check of reduced axes took dimension 0 for no dimension, and the logp was wrong.
---
 pymc_extras/model/marginal/graph_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/model/marginal/graph_analysis.py b/pymc_extras/model/marginal/graph_analysis.py
index d4ad98a..e136e2a 100644
--- a/pymc_extras/model/marginal/graph_analysis.py
+++ b/pymc_extras/model/marginal/graph_analysis.py
@@ -219,7 +219,7 @@ def _subgraph_batch_dim_connection(var_dims: VAR_DIMS, input_vars, output_vars)
             elif axes is None:
                 axes = tuple(range(node.inputs[0].type.ndim))
 
-            if any(input_dims[axis] for axis in axes):
+            if any(input_dims[axis] is not None for axis in axes):
                 raise ValueError(
                     f"Use of known dimensions as reduced dimensions of op {node.op} not supported."
                 )
-- 
2.43.0


From 07b49dbfa773d7be01fbd47c1ee68b97718d99ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 25/58] fix: marginal logp with multivariate dependents or
 permuted batch dimensions

Axes of the dependent logp were counted as if its support axes were still there,
and a permutation of more than two batch dimensions was not inverted.
---
 pymc_extras/model/marginal/distributions.py | 26 ++++++++++++---------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pymc_extras/model/marginal/distributions.py b/pymc_extras/model/marginal/distributions.py
index 33f4bc7..d2faf8e 100644
--- a/pymc_extras/model/marginal/distributions.py
+++ b/pymc_extras/model/marginal/distributions.py
@@ -98,21 +98,25 @@ def reduce_batch_dependent_logps(
         dependent_ops, dependent_logps, dependent_dims_connections
     ):
         if dependent_logp.type.ndim > 0:
-            # Find which support axis implied by the MarginalRV need to be reduced
-            # Some may have already been reduced by the logp expression of the dependent RV (e.g., multivariate RVs)
+            # Support axes of the dependent RV are already collapsed in its logp (e.g., multivariate RVs)
             dep_supp_axes = get_support_axes(dependent_op)[0]
-
-            # Dependent RV support axes are already collapsed in the logp, so we ignore them
-            supp_axes = [
-                -i
-                for i, dim in enumerate(reversed(dependent_dims_connection), start=1)
-                if (dim is None and -i not in dep_supp_axes)
+            ndim = len(dependent_dims_connection)
+            logp_dims = [
+                dim
+                for axis, dim in enumerate(dependent_dims_connection)
+                if (axis - ndim) not in dep_supp_axes
             ]
-            dependent_logp = dependent_logp.sum(supp_axes)
+
+            # The remaining axes that are not connected to the marginalized RV need to be reduced
+            dependent_logp = dependent_logp.sum(
+                [axis for axis, dim in enumerate(logp_dims) if dim is None]
+            )
 
             # Finally, we need to align the dependent logp batch dimensions with the marginalized logp
-            dims_alignment = [dim for dim in dependent_dims_connection if dim is not None]
-            dependent_logp = dependent_logp.transpose(*dims_alignment)
+            known_dims = [dim for dim in logp_dims if dim is not None]
+            dependent_logp = dependent_logp.transpose(
+                *sorted(range(len(known_dims)), key=known_dims.__getitem__)
+            )
 
         reduced_logps.append(dependent_logp)
 
-- 
2.43.0


From 5234e5f5ec4e8555270bbb02f3bbb9f648bd7272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:18 +0000
Subject: [PATCH 26/58] fix: leave the model and its clones unchanged when a
 marginalization is refused

Variables were removed from the model before the checks, and clones shared the
dictionaries of dims with the original.
---
 pymc_extras/model/marginal/marginal_model.py | 28 +++++++++++++-------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pymc_extras/model/marginal/marginal_model.py b/pymc_extras/model/marginal/marginal_model.py
index 41ce699..dc355b0 100644
--- a/pymc_extras/model/marginal/marginal_model.py
+++ b/pymc_extras/model/marginal/marginal_model.py
@@ -236,7 +236,7 @@ class MarginalModel(Model):
         new_model.named_vars = treedict(
             {name: vars_to_clone[var] for name, var in model.named_vars.items()}
         )
-        new_model.named_vars_to_dims = model.named_vars_to_dims
+        new_model.named_vars_to_dims = treedict(model.named_vars_to_dims)
         new_model.values_to_rvs = {vv: vars_to_clone[rv] for vv, rv in model.values_to_rvs.items()}
         new_model.rvs_to_values = {vars_to_clone[rv]: vv for rv, vv in model.rvs_to_values.items()}
         new_model.rvs_to_transforms = {
@@ -251,7 +251,7 @@ class MarginalModel(Model):
         new_model.deterministics = [vars_to_clone[det] for det in model.deterministics]
 
         new_model.marginalized_rvs = [vars_to_clone[rv] for rv in marginalized_rvs]
-        new_model._marginalized_named_vars_to_dims = marginalized_named_vars_to_dims
+        new_model._marginalized_named_vars_to_dims = dict(marginalized_named_vars_to_dims)
         return new_model
 
     def clone(self):
@@ -288,15 +288,25 @@ class MarginalModel(Model):
                     f"Marginalization of RV with distribution {rv_to_marginalize.owner.op} is not supported"
                 )
 
-            if rv_to_marginalize.name in self.named_vars_to_dims:
-                dims = self.named_vars_to_dims[rv_to_marginalize.name]
-                self._marginalized_named_vars_to_dims[rv_to_marginalize.name] = dims
+        # Raise errors and warnings immediately, and on a clone, so that the model is not left half marginalized
+        m = self.clone()
+        m._set_marginalized([m.vars_to_clone[rv] for rv in rvs_to_marginalize])
+        m._marginalize(user_warnings=True)
 
-            self._delete_rv_mappings(rv_to_marginalize)
-            self.marginalized_rvs.append(rv_to_marginalize)
+        self._set_marginalized(rvs_to_marginalize)
 
-        # Raise errors and warnings immediately
-        self.clone()._marginalize(user_warnings=True)
+    def _set_marginalized(self, rvs: Sequence[TensorVariable]) -> None:
+        """Move free RVs to the list of marginalized RVs"""
+        for rv in rvs:
+            if rv not in self.free_RVs:
+                raise ValueError(f"Marginalized RV {rv} is not a free RV in the model")
+
+            if rv.name in self.named_vars_to_dims:
+                dims = self.named_vars_to_dims[rv.name]
+                self._marginalized_named_vars_to_dims[rv.name] = dims
+
+            self._delete_rv_mappings(rv)
+            self.marginalized_rvs.append(rv)
 
     def _to_transformed(self):
         """Create a function from the untransformed space to the transformed space"""
-- 
2.43.0


From a2f84174e4704139789f053b588570efbb72eeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:18 +0000
Subject: [PATCH 27/58] fix: unmarginalize variables given by name

---
 pymc_extras/model/marginal/marginal_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/model/marginal/marginal_model.py b/pymc_extras/model/marginal/marginal_model.py
index dc355b0..71cd9d6 100644
--- a/pymc_extras/model/marginal/marginal_model.py
+++ b/pymc_extras/model/marginal/marginal_model.py
@@ -329,7 +329,8 @@ class MarginalModel(Model):
     def unmarginalize(self, rvs_to_unmarginalize: Sequence[TensorVariable | str]):
         for rv in rvs_to_unmarginalize:
             if isinstance(rv, str):
-                rv = self[rv]
+                # Marginalized RVs are not among the named variables of the model
+                [rv] = [var for var in self.marginalized_rvs if var.name == rv] or [self[rv]]
             self.marginalized_rvs.remove(rv)
             if rv.name in self._marginalized_named_vars_to_dims:
                 dims = self._marginalized_named_vars_to_dims.pop(rv.name)
-- 
2.43.0


From a53582e3dce4e3e5466440937dbb12868e15c1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:29 +0000
Subject: [PATCH 28/58] fix: logp of marginal models with Potentials of
 dependent variables

The Potential kept the variables from before the marginalization, and its logp
could not be compiled.
---
 pymc_extras/model/marginal/marginal_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/model/marginal/marginal_model.py b/pymc_extras/model/marginal/marginal_model.py
index 71cd9d6..6935a4e 100644
--- a/pymc_extras/model/marginal/marginal_model.py
+++ b/pymc_extras/model/marginal/marginal_model.py
@@ -141,7 +141,11 @@ class MarginalModel(Model):
             self.observed_RVs.insert(index, new_rv)
 
     def _marginalize(self, user_warnings=False):
-        fg = FunctionGraph(outputs=self.basic_RVs + self.marginalized_rvs, clone=False)
+        # Deterministics and Potentials must see the replaced dependent RVs as well
+        fg = FunctionGraph(
+            outputs=self.basic_RVs + self.marginalized_rvs + self.deterministics + self.potentials,
+            clone=False,
+        )
 
         toposort = fg.toposort()
         rvs_left_to_marginalize = self.marginalized_rvs
-- 
2.43.0


From f1b771d2c7771f703b39b7fa4e051c6678490ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:58 +0000
Subject: [PATCH 29/58] fix: refuse marginalizations that would make the model
 graph cyclic

Dependents of the marginalized variable that depended on each other through a
third variable made the graph cyclic, and logp never returned.
---
 pymc_extras/model/marginal/marginal_model.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/model/marginal/marginal_model.py b/pymc_extras/model/marginal/marginal_model.py
index 6935a4e..a9361f1 100644
--- a/pymc_extras/model/marginal/marginal_model.py
+++ b/pymc_extras/model/marginal/marginal_model.py
@@ -16,7 +16,7 @@ from pymc.model import Model
 from pymc.pytensorf import compile_pymc, constant_fold
 from pymc.util import RandomState, _get_seeds_per_chain, treedict
 from pytensor.compile import SharedVariable
-from pytensor.graph import FunctionGraph, clone_replace, graph_inputs
+from pytensor.graph import FunctionGraph, ancestors, clone_replace, graph_inputs
 from pytensor.graph.replace import vectorize_graph
 from pytensor.tensor import TensorVariable
 from pytensor.tensor.special import log_softmax
@@ -592,6 +592,14 @@ def replace_finite_discrete_marginal_subgraph(fgraph, rv_to_marginalize, all_rvs
     input_rvs = list(set((*marginalized_rv_input_rvs, *other_direct_rv_ancestors)))
     output_rvs = [rv_to_marginalize, *dependent_rvs]
 
+    # All outputs are computed together from all inputs, so no input may be computed from an output
+    for input_rv in input_rvs:
+        if any(rv in dependent_rvs for rv in ancestors([input_rv])):
+            raise NotImplementedError(
+                f"Cannot marginalize {rv_to_marginalize} because some of its dependent RVs depend on each other "
+                f"through {input_rv}"
+            )
+
     # We are strict about shared variables in SymbolicRandomVariables
     inputs = input_rvs + collect_shared_vars(output_rvs, blockers=input_rvs)
 
-- 
2.43.0


From 05b0ce0a1695952d3da7ea2c1637635ecd2025cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:30 +0000
Subject: [PATCH 30/58] fix: marginal logp of several dependents observed with
 the same value

conditional_logp could not tell their constant values apart.
---
 pymc_extras/model/marginal/distributions.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/model/marginal/distributions.py b/pymc_extras/model/marginal/distributions.py
index d2faf8e..f662735 100644
--- a/pymc_extras/model/marginal/distributions.py
+++ b/pymc_extras/model/marginal/distributions.py
@@ -10,7 +10,7 @@ from pymc.pytensorf import constant_fold
 from pytensor import Variable
 from pytensor.compile.builders import OpFromGraph
 from pytensor.compile.mode import Mode
-from pytensor.graph import Op, vectorize_graph
+from pytensor.graph import Constant, Op, vectorize_graph
 from pytensor.graph.replace import clone_replace, graph_replace
 from pytensor.scan import map as scan_map
 from pytensor.scan import scan
@@ -142,6 +142,19 @@ def inline_ofg_outputs(op: OpFromGraph, inputs: Sequence[Variable]) -> tuple[Var
     )
 
 
+def replace_constant_values(values: Sequence[Variable]) -> tuple[list[Variable], dict]:
+    """Replace constant values by placeholders, and return the mapping to undo it.
+
+    Observed variables with equal data have the same constant as value, and conditional_logp
+    cannot tell them apart.
+    """
+    placeholders = {
+        idx: value.type() for idx, value in enumerate(values) if isinstance(value, Constant)
+    }
+    new_values = [placeholders.get(idx, value) for idx, value in enumerate(values)]
+    return new_values, {var: values[idx] for idx, var in placeholders.items()}
+
+
 DUMMY_ZERO = pt.constant(0, name="dummy_zero")
 
 
@@ -151,6 +164,7 @@ def finite_discrete_marginal_rv_logp(op: MarginalFiniteDiscreteRV, values, *inpu
     marginalized_rv, *inner_rvs = inline_ofg_outputs(op, inputs)
 
     # Obtain the joint_logp graph of the inner RV graph
+    values, constant_values = replace_constant_values(values)
     inner_rv_values = dict(zip(inner_rvs, values))
     marginalized_vv = marginalized_rv.clone()
     rv_values = inner_rv_values | {marginalized_rv: marginalized_vv}
@@ -202,6 +216,7 @@ def finite_discrete_marginal_rv_logp(op: MarginalFiniteDiscreteRV, values, *inpu
 
     # Align logp with non-collapsed batch dimensions of first RV
     joint_logp = align_logp_dims(dims=op.dims_connections[0], logp=joint_logp)
+    joint_logp = graph_replace(joint_logp, replace=constant_values, strict=False)
 
     # We have to add dummy logps for the remaining value variables, otherwise PyMC will raise
     dummy_logps = (DUMMY_ZERO,) * (len(values) - 1)
@@ -223,6 +238,7 @@ def marginal_hmm_logp(op, values, *inputs, **kwargs):
     # PyMC will detect a random variable in the logp graph (init_dist_), that isn't relevant at this step.
     chain_value = chain_rv.clone()
     dependent_rvs = clone_replace(dependent_rvs, {chain_rv: chain_value})
+    values, constant_values = replace_constant_values(values)
     logp_emissions_dict = conditional_logp(dict(zip(dependent_rvs, values)))
 
     # Reduce and add the batch dims beyond the chain dimension
@@ -273,6 +289,7 @@ def marginal_hmm_logp(op, values, *inputs, **kwargs):
     # The last dim of chain_rv was removed when computing the logp
     remaining_dims_first_emission.remove(chain_rv.type.ndim - 1)
     joint_logp = align_logp_dims(remaining_dims_first_emission, joint_logp)
+    joint_logp = graph_replace(joint_logp, replace=constant_values, strict=False)
 
     # If there are multiple emission streams, we have to add dummy logps for the remaining value variables. The first
     # return is the joint probability of everything together, but PyMC still expects one logp for each emission stream.
-- 
2.43.0


From 731f8342bb9e8d510905148fc5e9c2f8c09850e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:40 +0000
Subject: [PATCH 31/58] fix: support axes of a marginalized DiscreteMarkovChain

The time axis was never counted among the axes that the marginal logp collapses.
---
 pymc_extras/model/marginal/distributions.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pymc_extras/model/marginal/distributions.py b/pymc_extras/model/marginal/distributions.py
index f662735..733ad43 100644
--- a/pymc_extras/model/marginal/distributions.py
+++ b/pymc_extras/model/marginal/distributions.py
@@ -29,16 +29,15 @@ class MarginalRV(OpFromGraph, MeasurableOp):
     @property
     def support_axes(self) -> tuple[tuple[int]]:
         """Dimensions of dependent RVs that belong to the core (non-batched) marginalized variable."""
-        marginalized_ndim_supp = self.inner_outputs[0].owner.op.ndim_supp
+        marginalized_rv = self.inner_outputs[0]
+        marginalized_batch_ndim = marginalized_rv.type.ndim - marginalized_rv.owner.op.ndim_supp
         support_axes_vars = []
         for dims_connection in self.dims_connections:
-            ndim = len(dims_connection)
-            marginalized_supp_axes = ndim - marginalized_ndim_supp
             support_axes_vars.append(
                 tuple(
                     -i
                     for i, dim in enumerate(reversed(dims_connection), start=1)
-                    if (dim is None or dim > marginalized_supp_axes)
+                    if (dim is None or dim >= marginalized_batch_ndim)
                 )
             )
         return tuple(support_axes_vars)
-- 
2.43.0


From 5de683099ef069d37f320419514b8ea59fa261c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:05 +0000
Subject: [PATCH 32/58] fix: recovered probabilities of nested or batched
 marginalized variables

Logp terms of variables that depend on another marginalized variable were aligned
with the wrong dimensions. Elements that are not conditionally independent of each
other were treated as if they were; this now raises NotImplementedError.
---
 pymc_extras/model/marginal/marginal_model.py | 85 +++++++++++++++++---
 1 file changed, 72 insertions(+), 13 deletions(-)

diff --git a/pymc_extras/model/marginal/marginal_model.py b/pymc_extras/model/marginal/marginal_model.py
index a9361f1..6eed24b 100644
--- a/pymc_extras/model/marginal/marginal_model.py
+++ b/pymc_extras/model/marginal/marginal_model.py
@@ -27,6 +27,7 @@ from pymc_extras.distributions import DiscreteMarkovChain
 from pymc_extras.model.marginal.distributions import (
     MarginalDiscreteMarkovChainRV,
     MarginalFiniteDiscreteRV,
+    MarginalRV,
     get_domain_of_finite_discrete_rv,
     reduce_batch_dependent_logps,
 )
@@ -438,19 +439,7 @@ class MarginalModel(Model):
             m = self.clone()
             marginalized_rv = m.vars_to_clone[marginalized_rv]
             m.unmarginalize([marginalized_rv])
-            dependent_rvs = find_conditional_dependent_rvs(marginalized_rv, m.basic_RVs)
-            logps = m.logp(vars=[marginalized_rv, *dependent_rvs], sum=False)
-
-            # Handle batch dims for marginalized value and its dependent RVs
-            dependent_rvs_dim_connections = subgraph_batch_dim_connection(
-                marginalized_rv, dependent_rvs
-            )
-            marginalized_logp, *dependent_logps = logps
-            joint_logp = marginalized_logp + reduce_batch_dependent_logps(
-                dependent_rvs_dim_connections,
-                [dependent_var.owner.op for dependent_var in dependent_rvs],
-                dependent_logps,
-            )
+            joint_logp = conditional_joint_logp(m.clone()._marginalize(), marginalized_rv.name)
 
             marginalized_value = m.rvs_to_values[marginalized_rv]
             other_values = [v for v in m.value_vars if v is not marginalized_value]
@@ -557,6 +546,76 @@ def marginalize(model: Model, rvs_to_marginalize: ModelRVs) -> MarginalModel:
     return marginal_model
 
 
+def conditional_joint_logp(model: MarginalModel, name: str) -> TensorVariable:
+    """Sum of the logp terms that depend on a discrete RV, aligned with the elements of the RV.
+
+    Parameters
+    ----------
+    model : MarginalModel
+        Model in which the RV is free, and whose other marginalized RVs were already marginalized by `_marginalize`.
+    name : str
+        Name of the RV.
+    """
+    rv = model[name]
+    dependent_rvs = find_conditional_dependent_rvs(rv, model.basic_RVs)
+
+    # Variables that depend on the same marginalized RV have a joint logp, which is assigned to the first of them
+    rvs = []
+    for var in (rv, *dependent_rvs):
+        is_marginal = isinstance(var.owner.op, MarginalRV)
+        for out in var.owner.outputs[1:] if is_marginal else [var]:
+            if out not in rvs:
+                rvs.append(out)
+    logps = dict(zip(rvs, model._logp(vars=rvs, sum=False)))
+
+    if rv.type.ndim == 0:
+        return pt.add(*(logp.sum() for logp in logps.values()))
+
+    # Otherwise, every logp term must be a sum over the elements of the RV
+    not_separable_msg = (
+        f"The elements of {name} are not conditionally independent of each other given the other variables, "
+        "and their probabilities cannot be recovered separately."
+    )
+    all_dims = list(range(rv.type.ndim))
+
+    if isinstance(rv.owner.op, MarginalRV):
+        op = rv.owner.op
+        marginal_rvs = rv.owner.outputs[1:]
+        rv_dims = list(op.dims_connections[marginal_rvs.index(rv)])
+        logp_ndim = len(op.dims_connections[0])
+        logp_dims = [
+            dim
+            for axis, dim in enumerate(op.dims_connections[0])
+            if (axis - logp_ndim) not in op.support_axes[0]
+        ]
+        if None in rv_dims or set(rv_dims) != set(logp_dims):
+            raise NotImplementedError(not_separable_msg)
+        rv_logp = logps[marginal_rvs[0]].transpose(*(logp_dims.index(dim) for dim in rv_dims))
+    else:
+        marginal_rvs = [rv]
+        rv_logp = logps[rv]
+
+    other_rvs = [var for var in rvs if var not in marginal_rvs]
+    if not other_rvs:
+        return rv_logp
+
+    try:
+        dims_connections = subgraph_batch_dim_connection(rv, other_rvs)
+    except ValueError as e:
+        raise NotImplementedError(not_separable_msg) from e
+    for var, dims_connection in zip(other_rvs, dims_connections):
+        # Besides the first one, dependents of a marginalized RV have a dummy logp
+        is_dummy = isinstance(var.owner.op, MarginalRV) and var is not var.owner.outputs[1]
+        if not is_dummy and sorted(dim for dim in dims_connection if dim is not None) != all_dims:
+            raise NotImplementedError(not_separable_msg)
+
+    return rv_logp + reduce_batch_dependent_logps(
+        dims_connections,
+        [var.owner.op for var in other_rvs],
+        [logps[var] for var in other_rvs],
+    )
+
+
 def collect_shared_vars(outputs, blockers):
     return [
         inp for inp in graph_inputs(outputs, blockers=blockers) if isinstance(inp, SharedVariable)
-- 
2.43.0


From 2f437df929800253b088ec8ee4154af5266d6a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:05 +0000
Subject: [PATCH 33/58] fix: refuse unknown names in recover_marginals

---
 pymc_extras/model/marginal/marginal_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/model/marginal/marginal_model.py b/pymc_extras/model/marginal/marginal_model.py
index 6eed24b..f01aa94 100644
--- a/pymc_extras/model/marginal/marginal_model.py
+++ b/pymc_extras/model/marginal/marginal_model.py
@@ -399,7 +399,7 @@ class MarginalModel(Model):
 
         var_names = [var if isinstance(var, str) else var.name for var in var_names]
         vars_to_recover = [v for v in self.marginalized_rvs if v.name in var_names]
-        missing_names = [v.name for v in vars_to_recover if v not in self.marginalized_rvs]
+        missing_names = set(var_names) - {v.name for v in vars_to_recover}
         if missing_names:
             raise ValueError(f"Unrecognized var_names: {missing_names}")
 
-- 
2.43.0


From 3b3d844ed15cfbe610d2102c6f6e46b7b16173b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:04 +0000
Subject: [PATCH 34/58] fix: load saved models with lists or tuples in
 model_config

---
 pymc_extras/model_builder.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/pymc_extras/model_builder.py b/pymc_extras/model_builder.py
index ff0ea96..11fb886 100644
--- a/pymc_extras/model_builder.py
+++ b/pymc_extras/model_builder.py
@@ -350,12 +350,16 @@ class ModelBuilder:
         idata.attrs["model_type"] = self._model_type
         idata.attrs["version"] = self.version
         idata.attrs["sampler_config"] = json.dumps(self.sampler_config)
-        idata.attrs["model_config"] = json.dumps(self._serializable_model_config)
+        idata.attrs["model_config"] = self._model_config_to_json()
         # Only classes with non-dataset parameters will implement save_input_params
         if hasattr(self, "_save_input_params"):
             self._save_input_params(idata)
         return idata
 
+    def _model_config_to_json(self) -> str:
+        # Lists in a saved model_config are loaded as numpy arrays, which must be serializable again
+        return json.dumps(self._serializable_model_config, default=lambda obj: obj.tolist())
+
     def save(self, fname: str) -> None:
         """
         Save the model's inference data to a file.
@@ -399,6 +403,15 @@ class ModelBuilder:
         else:
             raise RuntimeError("The model hasn't been fit yet, call .fit() first")
 
+    @staticmethod
+    def _list_to_array(values: list):
+        # Ragged lists and lists of mixed types have no equivalent array
+        try:
+            array = np.array(values)
+        except ValueError:
+            return values
+        return values if array.dtype.kind in "OSU" and array.tolist() != values else array
+
     @classmethod
     def _model_config_formatting(cls, model_config: dict) -> dict:
         """
@@ -414,7 +427,9 @@ class ModelBuilder:
                             model_config[key][sub_key] = tuple(model_config[key][sub_key])
                         # Convert all other lists to numpy arrays
                         else:
-                            model_config[key][sub_key] = np.array(model_config[key][sub_key])
+                            model_config[key][sub_key] = cls._list_to_array(
+                                model_config[key][sub_key]
+                            )
         return model_config
 
     @classmethod
@@ -764,8 +779,10 @@ class ModelBuilder:
         >>> model.id
         '0123456789abcdef'
         """
+        # Hash the config the way it will be loaded, so that a list or tuple gives the same id before and after saving
+        model_config = self._model_config_formatting(json.loads(self._model_config_to_json()))
         hasher = hashlib.sha256()
-        hasher.update(str(self.model_config.values()).encode())
+        hasher.update(str(model_config.values()).encode())
         hasher.update(self.version.encode())
         hasher.update(self._model_type.encode())
         return hasher.hexdigest()[:16]
-- 
2.43.0


From ba0ca24d1faae8abd1806d410e21987b9c72efdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:25 +0000
Subject: [PATCH 35/58] fix: keep all rows and columns of X in the data stored
 by fit

---
 pymc_extras/model_builder.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pymc_extras/model_builder.py b/pymc_extras/model_builder.py
index 11fb886..a398321 100644
--- a/pymc_extras/model_builder.py
+++ b/pymc_extras/model_builder.py
@@ -543,6 +543,14 @@ class ModelBuilder:
         X_df = pd.DataFrame(X, columns=X.columns)
         combined_data = pd.concat([X_df, y], axis=1)
         assert all(combined_data.columns), "All columns must have non-empty names"
+        # The dataset has one variable per column along one dimension named after the index. Do not spread the rows
+        # over a grid of index levels, nor let the index replace a column of the same name.
+        if isinstance(combined_data.index, pd.MultiIndex):
+            combined_data = combined_data.reset_index(drop=True)
+        index_name = combined_data.index.name or "index"
+        while index_name in combined_data.columns:
+            index_name = f"_{index_name}"
+        combined_data = combined_data.rename_axis(index_name)
         with warnings.catch_warnings():
             warnings.filterwarnings(
                 "ignore",
-- 
2.43.0


From 337d896b3c3287c9b0a5b5e522129d6ec7af441e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:04 +0000
Subject: [PATCH 36/58] fix: keep the observed data of the fit in
 sample_prior_predictive

---
 pymc_extras/model_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/model_builder.py b/pymc_extras/model_builder.py
index a398321..e9bb96c 100644
--- a/pymc_extras/model_builder.py
+++ b/pymc_extras/model_builder.py
@@ -637,12 +637,12 @@ class ModelBuilder:
         prior_predictive_samples : DataArray, shape (n_pred, samples)
             Prior predictive samples for each input X_pred
         """
-        if y_pred is None:
-            y_pred = pd.Series(np.zeros(len(X_pred)), name=self.output_var)
         if samples is None:
             samples = self.sampler_config.get("draws", 500)
 
         if self.model is None:
+            if y_pred is None:
+                y_pred = pd.Series(np.zeros(len(X_pred)), name=self.output_var)
             self.build_model(X_pred, y_pred)
         else:
             self._data_setter(X_pred, y_pred)
-- 
2.43.0


From 0c3a5539a423fe380932a5b7f195da989d377801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:04 +0000
Subject: [PATCH 37/58] fix: leave earlier results in place when
 ModelBuilder.fit fails

---
 pymc_extras/model_builder.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/model_builder.py b/pymc_extras/model_builder.py
index e9bb96c..6d2b927 100644
--- a/pymc_extras/model_builder.py
+++ b/pymc_extras/model_builder.py
@@ -538,7 +538,6 @@ class ModelBuilder:
         sampler_config["progressbar"] = progressbar
         sampler_config["random_seed"] = random_seed
         sampler_config.update(**kwargs)
-        self.idata = self.sample_model(**sampler_config)
 
         X_df = pd.DataFrame(X, columns=X.columns)
         combined_data = pd.concat([X_df, y], axis=1)
@@ -551,13 +550,16 @@ class ModelBuilder:
         while index_name in combined_data.columns:
             index_name = f"_{index_name}"
         combined_data = combined_data.rename_axis(index_name)
+        # Only keep the results once they are complete, they cannot be loaded without fit_data
+        idata = self.sample_model(**sampler_config)
         with warnings.catch_warnings():
             warnings.filterwarnings(
                 "ignore",
                 category=UserWarning,
                 message="The group fit_data is not defined in the InferenceData scheme",
             )
-            self.idata.add_groups(fit_data=combined_data.to_xarray())  # type: ignore
+            idata.add_groups(fit_data=combined_data.to_xarray())  # type: ignore
+        self.idata = idata
 
         return self.idata  # type: ignore
 
-- 
2.43.0


From b62084246622eb6d5a39afbe1f06b2bd7948bcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:04 +0000
Subject: [PATCH 38/58] fix: use random_seed for the predictive samples of
 ModelBuilder.fit

---
 pymc_extras/model_builder.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/model_builder.py b/pymc_extras/model_builder.py
index 6d2b927..b1ab4f3 100644
--- a/pymc_extras/model_builder.py
+++ b/pymc_extras/model_builder.py
@@ -307,8 +307,14 @@ class ModelBuilder:
         with self.model:
             sampler_args = {**self.sampler_config, **kwargs}
             idata = pm.sample(**sampler_args)
-            idata.extend(pm.sample_prior_predictive(), join="right")
-            idata.extend(pm.sample_posterior_predictive(idata), join="right")
+            # random_seed may be a sequence with one seed per chain
+            random_seed = sampler_args.get("random_seed")
+            if np.ndim(random_seed) > 0:
+                random_seed = random_seed[0]
+            idata.extend(pm.sample_prior_predictive(random_seed=random_seed), join="right")
+            idata.extend(
+                pm.sample_posterior_predictive(idata, random_seed=random_seed), join="right"
+            )
 
         idata = self.set_idata_attrs(idata)
         return idata
-- 
2.43.0


From d44ecc5f73177106763ea27b1437e8a444529a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:08 +0000
Subject: [PATCH 39/58] fix: keep the fitted model when ModelBuilder.fit fails

---
 pymc_extras/model_builder.py | 43 +++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/pymc_extras/model_builder.py b/pymc_extras/model_builder.py
index b1ab4f3..38be837 100644
--- a/pymc_extras/model_builder.py
+++ b/pymc_extras/model_builder.py
@@ -537,14 +537,6 @@ class ModelBuilder:
         if y is None:
             y = np.zeros(X.shape[0])
         y = pd.DataFrame({self.output_var: np.asarray(y)}, index=X.index)
-        self._generate_and_preprocess_model_data(X, y.values.flatten())
-        self.build_model(self.X, self.y)
-
-        sampler_config = self.sampler_config.copy()
-        sampler_config["progressbar"] = progressbar
-        sampler_config["random_seed"] = random_seed
-        sampler_config.update(**kwargs)
-
         X_df = pd.DataFrame(X, columns=X.columns)
         combined_data = pd.concat([X_df, y], axis=1)
         assert all(combined_data.columns), "All columns must have non-empty names"
@@ -556,16 +548,31 @@ class ModelBuilder:
         while index_name in combined_data.columns:
             index_name = f"_{index_name}"
         combined_data = combined_data.rename_axis(index_name)
-        # Only keep the results once they are complete, they cannot be loaded without fit_data
-        idata = self.sample_model(**sampler_config)
-        with warnings.catch_warnings():
-            warnings.filterwarnings(
-                "ignore",
-                category=UserWarning,
-                message="The group fit_data is not defined in the InferenceData scheme",
-            )
-            idata.add_groups(fit_data=combined_data.to_xarray())  # type: ignore
-        self.idata = idata
+
+        previous_model = self.model
+        try:
+            self._generate_and_preprocess_model_data(X, y.values.flatten())
+            self.build_model(self.X, self.y)
+
+            sampler_config = self.sampler_config.copy()
+            sampler_config["progressbar"] = progressbar
+            sampler_config["random_seed"] = random_seed
+            sampler_config.update(**kwargs)
+            idata = self.sample_model(**sampler_config)
+
+            with warnings.catch_warnings():
+                warnings.filterwarnings(
+                    "ignore",
+                    category=UserWarning,
+                    message="The group fit_data is not defined in the InferenceData scheme",
+                )
+                idata.add_groups(fit_data=combined_data.to_xarray())  # type: ignore
+            # Only keep the results once they are complete, they cannot be loaded without fit_data
+            self.idata = idata
+        except BaseException:
+            # Keep the model that belongs to the results of the previous fit
+            self.model = previous_model
+            raise
 
         return self.idata  # type: ignore
 
-- 
2.43.0


From 53296298fcfb910d6acbd86db158a7f2cc0462ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:33 +0000
Subject: [PATCH 40/58] fix: discard a partly built model in
 sample_prior_predictive

---
 pymc_extras/model_builder.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/model_builder.py b/pymc_extras/model_builder.py
index 38be837..a5f2a38 100644
--- a/pymc_extras/model_builder.py
+++ b/pymc_extras/model_builder.py
@@ -658,7 +658,12 @@ class ModelBuilder:
         if self.model is None:
             if y_pred is None:
                 y_pred = pd.Series(np.zeros(len(X_pred)), name=self.output_var)
-            self.build_model(X_pred, y_pred)
+            try:
+                self.build_model(X_pred, y_pred)
+            except BaseException:
+                # A model that is only built in part must not be used by later calls
+                self.model = None
+                raise
         else:
             self._data_setter(X_pred, y_pred)
         with self.model:  # sample with new input data
-- 
2.43.0


From c3cef46d2fd73151fb07c61add3ebe004a446adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:05 +0000
Subject: [PATCH 41/58] fix: order of the variables in the Laplace
 approximation

---
 pymc_extras/inference/laplace.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pymc_extras/inference/laplace.py b/pymc_extras/inference/laplace.py
index 1cfe041..85f08f3 100644
--- a/pymc_extras/inference/laplace.py
+++ b/pymc_extras/inference/laplace.py
@@ -288,8 +288,8 @@ def fit_mvn_to_MAP(
         logp = frozen_model.logp(jacobian=True)
         variables = frozen_model.continuous_value_vars
 
-    variable_names = {var.name for var in variables}
-    optimized_free_params = {k: v for k, v in optimized_point.items() if k in variable_names}
+    # The order must be that of the inputs of the hessian. The point has untransformed values after transformed ones.
+    optimized_free_params = {var.name: optimized_point[var.name] for var in variables}
     mu = DictToArrayBijection.map(optimized_free_params)
 
     _, f_hess, _ = scipy_optimize_funcs_from_loss(
@@ -396,9 +396,14 @@ def sample_laplace_posterior(
             slice(sum(flat_shapes[:i]), sum(flat_shapes[: i + 1])) for i in range(len(flat_shapes))
         ]
 
-        posterior_draws = [
-            posterior_draws[..., idx].reshape((chains, draws, *shape)).astype(dtype)
+        draws_by_name = {
+            name: posterior_draws[..., idx].reshape((chains, draws, *shape)).astype(dtype)
             for idx, (name, shape, _, dtype) in zip(slices, info)
+        }
+        posterior_draws = [
+            draws_by_name[var.name]
+            for var in get_default_varnames(model.unobserved_value_vars, include_transformed=False)
+            if var.name in draws_by_name
         ]
 
     idata = laplace_draws_to_inferencedata(posterior_draws, model)
@@ -541,7 +546,8 @@ def fit_laplace(
         return_raw=return_raw,
         jitter_rvs=jitter_rvs,
         progressbar=progressbar,
-        include_transformed=include_transformed,
+        # Transformed values are always needed to fit in the unconstrained space
+        include_transformed=True,
         gradient_backend=gradient_backend,
         compile_kwargs=compile_kwargs,
         **optimizer_kwargs,
-- 
2.43.0


From fe5c5f68ac2999792f408a3fa143315f5dd9c706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:05 +0000
Subject: [PATCH 42/58] fix: Laplace approximation with a single parameter,
 chain or draw

---
 pymc_extras/inference/laplace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/inference/laplace.py b/pymc_extras/inference/laplace.py
index 85f08f3..10f5662 100644
--- a/pymc_extras/inference/laplace.py
+++ b/pymc_extras/inference/laplace.py
@@ -371,7 +371,8 @@ def sample_laplace_posterior(
     posterior_dist = stats.multivariate_normal(
         mean=mu.data, cov=H_inv, allow_singular=True, seed=rng
     )
-    posterior_draws = posterior_dist.rvs(size=(chains, draws))
+    # scipy drops dimensions of length one
+    posterior_draws = posterior_dist.rvs(size=(chains, draws)).reshape((chains, draws, -1))
 
     if transform_samples:
         constrained_rvs, unconstrained_vector = _unconstrained_vector_to_constrained_rvs(model)
-- 
2.43.0


From 114b18c2bc827d27f9bf3a0016697928df799d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:05 +0000
Subject: [PATCH 43/58] fix: Laplace approximation of vector variables without
 dims

---
 pymc_extras/inference/laplace.py | 38 ++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/pymc_extras/inference/laplace.py b/pymc_extras/inference/laplace.py
index 10f5662..dd195c4 100644
--- a/pymc_extras/inference/laplace.py
+++ b/pymc_extras/inference/laplace.py
@@ -79,14 +79,20 @@ def laplace_draws_to_inferencedata(
         extra_dims = model.named_vars_to_dims.get(name)
         if extra_dims is None:
             return coords
-        return coords | {dim: list(model.coords[dim]) for dim in extra_dims}
+        return coords | {
+            dim: list(model.coords[dim])
+            for dim in extra_dims
+            if model.coords.get(dim) is not None
+        }
 
-    def make_rv_dims(name):
+    def make_rv_dims(name, ndim):
         dims = ["chain", "draw"]
         extra_dims = model.named_vars_to_dims.get(name)
         if extra_dims is None:
-            return dims
-        return dims + list(extra_dims)
+            return dims + [f"{name}_dim_{i}" for i in range(ndim - 2)]
+        return dims + [
+            f"{name}_dim_{i}" if dim is None else dim for i, dim in enumerate(extra_dims)
+        ]
 
     names = [
         x.name for x in get_default_varnames(model.unobserved_value_vars, include_transformed=False)
@@ -95,7 +101,7 @@ def laplace_draws_to_inferencedata(
         name: xr.DataArray(
             data=draws,
             coords=make_rv_coords(name),
-            dims=make_rv_dims(name),
+            dims=make_rv_dims(name, draws.ndim),
             name=name,
         )
         for name, draws in zip(names, posterior_draws)
@@ -133,9 +139,7 @@ def add_fit_to_inferencedata(
     model = pm.modelcontext(model)
     coords = model.coords
 
-    variable_names, *_ = zip(*mu.point_map_info)
-
-    def make_unpacked_variable_names(name):
+    def make_unpacked_variable_names(name, shape):
         value_to_dim = {
             x.name: model.named_vars_to_dims.get(model.values_to_rvs[x].name, None)
             for x in model.value_vars
@@ -145,14 +149,24 @@ def add_fit_to_inferencedata(
         rv_to_dim = model.named_vars_to_dims
         dims_dict = rv_to_dim | value_to_dim
 
-        dims = dims_dict.get(name)
-        if dims is None:
+        if not shape:
             return [name]
-        labels = product(*(coords[dim] for dim in dims))
+        dims = dims_dict.get(name, [None] * len(shape))
+        labels = product(
+            *(
+                # Values of transformed variables need not have the shape of the variable
+                coords[dim]
+                if coords.get(dim) is not None and len(coords[dim]) == length
+                else range(length)
+                for dim, length in zip(dims, shape)
+            )
+        )
         return [f"{name}[{','.join(map(str, label))}]" for label in labels]
 
     unpacked_variable_names = reduce(
-        lambda lst, name: lst + make_unpacked_variable_names(name), variable_names, []
+        lambda lst, info: lst + make_unpacked_variable_names(info[0], info[1]),
+        mu.point_map_info,
+        [],
     )
 
     mean_dataarray = xr.DataArray(mu.data, dims=["rows"], coords={"rows": unpacked_variable_names})
-- 
2.43.0


From 3b36139ff7d19a5a92ab2d7e46f0ad7763a02699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:05 +0000
Subject: [PATCH 44/58] fix: fit_laplace outside of a model context

---
 pymc_extras/inference/laplace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/inference/laplace.py b/pymc_extras/inference/laplace.py
index dd195c4..b5c5158 100644
--- a/pymc_extras/inference/laplace.py
+++ b/pymc_extras/inference/laplace.py
@@ -422,7 +422,7 @@ def sample_laplace_posterior(
         ]
 
     idata = laplace_draws_to_inferencedata(posterior_draws, model)
-    idata = add_fit_to_inferencedata(idata, mu, H_inv)
+    idata = add_fit_to_inferencedata(idata, mu, H_inv, model)
     idata = add_data_to_inferencedata(idata, progressbar, model, compile_kwargs)
 
     return idata
-- 
2.43.0


From 9390031ba8a6679931caf9b1c55d21299eba426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:05 +0000
Subject: [PATCH 45/58] fix: return_raw in fit_laplace

---
 pymc_extras/inference/laplace.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pymc_extras/inference/laplace.py b/pymc_extras/inference/laplace.py
index b5c5158..94e25a3 100644
--- a/pymc_extras/inference/laplace.py
+++ b/pymc_extras/inference/laplace.py
@@ -39,6 +39,7 @@ from pymc.model.transform.conditioning import remove_value_transforms
 from pymc.model.transform.optimization import freeze_dims_and_data
 from pymc.util import get_default_varnames
 from scipy import stats
+from scipy.optimize import OptimizeResult
 
 from pymc_extras.inference.find_map import (
     GradientBackend,
@@ -450,7 +451,7 @@ def fit_laplace(
     diag_jitter: float | None = 1e-8,
     optimizer_kwargs: dict | None = None,
     compile_kwargs: dict | None = None,
-) -> az.InferenceData:
+) -> az.InferenceData | tuple[az.InferenceData, OptimizeResult]:
     """
     Create a Laplace (quadratic) approximation for a posterior distribution.
 
@@ -520,8 +521,9 @@ def fit_laplace(
 
     Returns
     -------
-    idata: az.InferenceData
-        An InferenceData object containing the approximated posterior samples.
+    idata: az.InferenceData or tuple[az.InferenceData, OptimizeResult]
+        An InferenceData object containing the approximated posterior samples. If return_raw is True, also returns the
+        object returned by ``scipy.optimize.minimize``.
 
     Examples
     --------
@@ -550,7 +552,7 @@ def fit_laplace(
     compile_kwargs = {} if compile_kwargs is None else compile_kwargs
     optimizer_kwargs = {} if optimizer_kwargs is None else optimizer_kwargs
 
-    optimized_point = find_MAP(
+    optimized_point, optimizer_result = find_MAP(
         method=optimize_method,
         model=model,
         use_grad=use_grad,
@@ -558,7 +560,7 @@ def fit_laplace(
         use_hess=use_hess,
         initvals=initvals,
         random_seed=random_seed,
-        return_raw=return_raw,
+        return_raw=True,
         jitter_rvs=jitter_rvs,
         progressbar=progressbar,
         # Transformed values are always needed to fit in the unconstrained space
@@ -578,7 +580,7 @@ def fit_laplace(
         compile_kwargs=compile_kwargs,
     )
 
-    return sample_laplace_posterior(
+    idata = sample_laplace_posterior(
         mu=mu,
         H_inv=H_inv,
         model=model,
@@ -589,3 +591,8 @@ def fit_laplace(
         random_seed=random_seed,
         compile_kwargs=compile_kwargs,
     )
+
+    if return_raw:
+        return idata, optimizer_result
+
+    return idata
-- 
2.43.0


From 88d80633173e78e2e60d50eb9cc1cf4af71f7d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:05 +0000
Subject: [PATCH 46/58] fix: gradient_backend in fit_laplace

---
 pymc_extras/inference/find_map.py | 2 +-
 pymc_extras/inference/laplace.py  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/inference/find_map.py b/pymc_extras/inference/find_map.py
index 72ce3b1..5f6b72c 100644
--- a/pymc_extras/inference/find_map.py
+++ b/pymc_extras/inference/find_map.py
@@ -252,7 +252,7 @@ def scipy_optimize_funcs_from_loss(
         The compiled hessian-vector product function, or None if use_hessp is False.
     """
 
-    compile_kwargs = {} if compile_kwargs is None else compile_kwargs
+    compile_kwargs = {} if compile_kwargs is None else compile_kwargs.copy()
 
     if (use_hess or use_hessp) and not use_grad:
         raise ValueError(
diff --git a/pymc_extras/inference/laplace.py b/pymc_extras/inference/laplace.py
index 94e25a3..659b332 100644
--- a/pymc_extras/inference/laplace.py
+++ b/pymc_extras/inference/laplace.py
@@ -575,6 +575,7 @@ def fit_laplace(
         model=model,
         on_bad_cov=on_bad_cov,
         transform_samples=fit_in_unconstrained_space,
+        gradient_backend=gradient_backend,
         zero_tol=zero_tol,
         diag_jitter=diag_jitter,
         compile_kwargs=compile_kwargs,
-- 
2.43.0


From 51aabf06bd7da736899366a9c64012f8b329264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:05 +0000
Subject: [PATCH 47/58] fix: nearest PSD matrix when eigenvalues are repeated

---
 pymc_extras/inference/find_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/inference/find_map.py b/pymc_extras/inference/find_map.py
index 5f6b72c..5197828 100644
--- a/pymc_extras/inference/find_map.py
+++ b/pymc_extras/inference/find_map.py
@@ -59,7 +59,7 @@ def get_nearest_psd(A: np.ndarray) -> np.ndarray:
         The nearest positive semi-definite matrix to the input matrix.
     """
     C = (A + A.T) / 2
-    eigval, eigvec = np.linalg.eig(C)
+    eigval, eigvec = np.linalg.eigh(C)
     eigval[eigval < 0] = 0
 
     return eigvec @ np.diag(eigval) @ eigvec.T
-- 
2.43.0


From 1c83c861d4179293e5e9ac6a7d9bcb5f11a10704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:05 +0000
Subject: [PATCH 48/58] fix: jax hessian-vector products with trust-constr

---
 pymc_extras/inference/find_map.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymc_extras/inference/find_map.py b/pymc_extras/inference/find_map.py
index 5197828..0a85566 100644
--- a/pymc_extras/inference/find_map.py
+++ b/pymc_extras/inference/find_map.py
@@ -136,6 +136,8 @@ def _compile_jax_gradients(
     if use_hessp:
 
         def f_hessp_jax(x, p):
+            # Some optimizers probe with integer vectors
+            p = jax.numpy.asarray(p, dtype=x.dtype)
             y, u = jax.jvp(lambda x: f_loss_and_grad(x)[1], (x,), (p,))
             return jax.numpy.stack(u)
 
-- 
2.43.0


From 34ec5631f81496320c552db9c71667740c55d1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:55 +0000
Subject: [PATCH 49/58] fix: jitter_rvs in find_MAP

---
 pymc_extras/inference/find_map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/inference/find_map.py b/pymc_extras/inference/find_map.py
index 0a85566..439d0b7 100644
--- a/pymc_extras/inference/find_map.py
+++ b/pymc_extras/inference/find_map.py
@@ -372,7 +372,8 @@ def find_MAP(
     model = pm.modelcontext(model)
     frozen_model = freeze_dims_and_data(model)
 
-    jitter_rvs = [] if jitter_rvs is None else jitter_rvs
+    # The variables of the frozen model are not those of the model
+    jitter_rvs = [] if jitter_rvs is None else [frozen_model[rv.name] for rv in jitter_rvs]
     compile_kwargs = {} if compile_kwargs is None else compile_kwargs
 
     ipfn = make_initial_point_fn(
-- 
2.43.0


From 24f666c2a8343440d767f97f2bc9c4f396233512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:26 +0000
Subject: [PATCH 50/58] fix: underflow of marginal likelihoods in constant
 graphs

---
 pymc_extras/model/marginal/distributions.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pymc_extras/model/marginal/distributions.py b/pymc_extras/model/marginal/distributions.py
index 733ad43..a85eb07 100644
--- a/pymc_extras/model/marginal/distributions.py
+++ b/pymc_extras/model/marginal/distributions.py
@@ -10,6 +10,7 @@ from pymc.pytensorf import constant_fold
 from pytensor import Variable
 from pytensor.compile.builders import OpFromGraph
 from pytensor.compile.mode import Mode
+from pytensor.gradient import zero_grad
 from pytensor.graph import Constant, Op, vectorize_graph
 from pytensor.graph.replace import clone_replace, graph_replace
 from pytensor.scan import map as scan_map
@@ -154,6 +155,16 @@ def replace_constant_values(values: Sequence[Variable]) -> tuple[list[Variable],
     return new_values, {var: values[idx] for idx, var in placeholders.items()}
 
 
+def stable_logsumexp(x: TensorVariable, axis: int) -> TensorVariable:
+    """Logsumexp that does not underflow.
+
+    `pt.logsumexp` relies on a rewrite for its stability, which comes too late for constant graphs.
+    """
+    x_max = pt.max(x, axis=axis, keepdims=True)
+    x_max = zero_grad(pt.switch(pt.isinf(x_max), 0, x_max))
+    return pt.log(pt.sum(pt.exp(x - x_max), axis=axis)) + x_max.squeeze(axis)
+
+
 DUMMY_ZERO = pt.constant(0, name="dummy_zero")
 
 
@@ -211,7 +222,7 @@ def finite_discrete_marginal_rv_logp(op: MarginalFiniteDiscreteRV, values, *inpu
             mode=Mode().including("local_remove_check_parameter"),
         )
 
-    joint_logp = pt.logsumexp(joint_logps, axis=0)
+    joint_logp = stable_logsumexp(joint_logps, axis=0)
 
     # Align logp with non-collapsed batch dimensions of first RV
     joint_logp = align_logp_dims(dims=op.dims_connections[0], logp=joint_logp)
@@ -268,7 +279,7 @@ def marginal_hmm_logp(op, values, *inputs, **kwargs):
     log_alpha_init = batch_logp_init_dist + batch_logp_emissions[..., 0]
 
     def step_alpha(logp_emission, log_alpha, log_P):
-        step_log_prob = pt.logsumexp(log_alpha[:, None] + log_P, axis=0)
+        step_log_prob = stable_logsumexp(log_alpha[:, None] + log_P, axis=0)
         return logp_emission + step_log_prob
 
     P_bcast_dims = (len(chain_shape) - 1) - (P.type.ndim - 2)
@@ -281,7 +292,7 @@ def marginal_hmm_logp(op, values, *inputs, **kwargs):
         sequences=pt.moveaxis(batch_logp_emissions[..., 1:], -1, 0),
     )
     # Final logp is just the sum of the last scan state
-    joint_logp = pt.logsumexp(log_alpha_seq[-1], axis=0)
+    joint_logp = stable_logsumexp(log_alpha_seq[-1], axis=0)
 
     # Align logp with non-collapsed batch dimensions of first RV
     remaining_dims_first_emission = list(op.dims_connections[0])
-- 
2.43.0


From bb779f6a43d1eee36f7c34da87020e5d4f04e42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:00 +0000
Subject: [PATCH 51/58] fix: parameters of the random draws of
 BetaNegativeBinomial

---
 pymc_extras/distributions/discrete.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/distributions/discrete.py b/pymc_extras/distributions/discrete.py
index 0bfe8e7..23d41d3 100644
--- a/pymc_extras/distributions/discrete.py
+++ b/pymc_extras/distributions/discrete.py
@@ -251,7 +251,7 @@ class BetaNegativeBinomial:
             alpha, beta, r = pt.broadcast_arrays(alpha, beta, r)
 
         p = pm.Beta.dist(alpha, beta, size=size)
-        return pm.NegativeBinomial.dist(p, r, size=size)
+        return pm.NegativeBinomial.dist(p=p, n=r, size=size)
 
     @staticmethod
     def beta_negative_binomial_logp(value, alpha, beta, r):
-- 
2.43.0


From ed65fb6040bb8ab31d0deb8399ec638cc22a5d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:00 +0000
Subject: [PATCH 52/58] fix: draws of GeneralizedPoisson beyond its support

---
 pymc_extras/distributions/discrete.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/distributions/discrete.py b/pymc_extras/distributions/discrete.py
index 23d41d3..937bd1a 100644
--- a/pymc_extras/distributions/discrete.py
+++ b/pymc_extras/distributions/discrete.py
@@ -77,6 +77,8 @@ class GeneralizedPoissonRV(RandomVariable):
             below_cutpoint = log_s < log_u
             while np.any(below_cutpoint[idxs_mask]):
                 x_ += 1
+                # There is no mass at values for which theta + lam * value is not positive
+                below_cutpoint = below_cutpoint & (theta + lam * x_ > 0)
                 x[below_cutpoint] += 1
                 log_c = np.log(theta_m_lam + lam * x_)
                 # Compute log(1 + lam / C)
@@ -87,7 +89,7 @@ class GeneralizedPoissonRV(RandomVariable):
                 )
                 log_p = log_c + log1p_lam_m_C * (x_ - 1) + log_p - np.log(x_) - lam
                 log_s = np.logaddexp(log_s, log_p)
-                below_cutpoint = log_s < log_u
+                below_cutpoint = below_cutpoint & (log_s < log_u)
             return x
 
     @classmethod
-- 
2.43.0


From c65f90d4016dd9e9fa886526b564b0f4509fd884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:29 +0000
Subject: [PATCH 53/58] fix: logp of Skellam with zero or large means

---
 pymc_extras/distributions/discrete.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pymc_extras/distributions/discrete.py b/pymc_extras/distributions/discrete.py
index 937bd1a..e14c056 100644
--- a/pymc_extras/distributions/discrete.py
+++ b/pymc_extras/distributions/discrete.py
@@ -365,12 +365,21 @@ class Skellam:
 
     @staticmethod
     def skellam_logp(value, mu1, mu2):
+        # The means may be zero, in which case one of the two Poisson variables is
+        safe_mu1 = pt.switch(pt.eq(mu1, 0), 1, mu1)
+        safe_mu2 = pt.switch(pt.eq(mu2, 0), 1, mu2)
+        z = 2 * pt.sqrt(safe_mu1 * safe_mu2)
+        # The scaled Bessel function does not overflow
         res = (
-            -mu1
-            - mu2
-            + 0.5 * value * (pt.log(mu1) - pt.log(mu2))
-            + pt.log(pt.iv(value, 2 * pt.sqrt(mu1 * mu2)))
+            -safe_mu1
+            - safe_mu2
+            + 0.5 * value * (pt.log(safe_mu1) - pt.log(safe_mu2))
+            + pt.log(pt.ive(value, z))
+            + z
         )
+        res = pt.switch(pt.eq(mu2, 0), pm.logp(pm.Poisson.dist(safe_mu1), value), res)
+        res = pt.switch(pt.eq(mu1, 0), pm.logp(pm.Poisson.dist(safe_mu2), -value), res)
+        res = pt.switch(pt.eq(mu1, 0) & pt.eq(mu2, 0), pt.switch(pt.eq(value, 0), 0, -np.inf), res)
         return check_parameters(
             res,
             mu1 >= 0,
-- 
2.43.0


From c18e91f267e76c2427b5bbf3c6930dacffa08c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:11 +0000
Subject: [PATCH 54/58] fix: logp of batched DiscreteMarkovChain with batched
 init_dist or several lags

---
 pymc_extras/distributions/timeseries.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/distributions/timeseries.py b/pymc_extras/distributions/timeseries.py
index bb4072f..6e03502 100644
--- a/pymc_extras/distributions/timeseries.py
+++ b/pymc_extras/distributions/timeseries.py
@@ -259,7 +259,8 @@ def discrete_mc_logp(op, values, P, steps, init_dist, state_rng, **kwargs):
 
     indexes = [value[..., i : -(n_lags - i) if n_lags != i else None] for i in range(n_lags + 1)]
 
-    mc_logprob = logp(init_dist, value[..., :n_lags]).sum(axis=-1)
+    # The lags are the leading dimension of init_dist, before any batch dimensions
+    mc_logprob = logp(init_dist, pt.moveaxis(value[..., :n_lags], -1, 0)).sum(axis=0)
     mc_logprob += pt.log(P[tuple(indexes)]).sum(axis=-1)
 
     # We cannot leave any RV in the logp graph, even if just for an assert
-- 
2.43.0


From 9b466a055fad8fce4bb9c288eee481d27e101553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:17 +0000
Subject: [PATCH 55/58] fix: support point of batched DiscreteMarkovChain

---
 pymc_extras/distributions/timeseries.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pymc_extras/distributions/timeseries.py b/pymc_extras/distributions/timeseries.py
index 6e03502..29108c2 100644
--- a/pymc_extras/distributions/timeseries.py
+++ b/pymc_extras/distributions/timeseries.py
@@ -233,23 +233,26 @@ def change_mc_size(op, dist, new_size, expand=False):
 
 @_support_point.register(DiscreteMarkovChainRV)
 def discrete_mc_moment(op, rv, P, steps, init_dist, state_rng):
-    init_dist_moment = support_point(init_dist)
     n_lags = op.n_lags
+    init_dist_moment = support_point(init_dist)
+    # Slices of a broadcasted support point, as taken by Scan, may be rewritten to the wrong shape
+    init_dist_moment = pt.stack([init_dist_moment[i] for i in range(n_lags)])
 
     def greedy_transition(*args):
-        *states, transition_probs, old_rng = args
+        *states, transition_probs = args
         p = transition_probs[tuple(states)]
-        return pt.argmax(p)
+        return pt.argmax(p, axis=-1).astype(init_dist_moment.dtype)
 
+    # The support point must not depend on random draws
     chain_moment, moment_updates = pytensor.scan(
         greedy_transition,
-        non_sequences=[P, state_rng],
-        outputs_info=_make_outputs_info(n_lags, init_dist),
+        non_sequences=[P],
+        outputs_info=_make_outputs_info(n_lags, init_dist_moment),
         n_steps=steps,
         strict=True,
     )
     chain_moment = pt.concatenate([init_dist_moment, chain_moment])
-    return chain_moment
+    return pt.moveaxis(chain_moment, 0, -1)
 
 
 @_logprob.register(DiscreteMarkovChainRV)
-- 
2.43.0


From 538509707996be36b696e598ec1aca4b4b4fc725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:59 +0000
Subject: [PATCH 56/58] fix: logp of Skellam far from zero

---
 pymc_extras/distributions/discrete.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/distributions/discrete.py b/pymc_extras/distributions/discrete.py
index e14c056..b807ab6 100644
--- a/pymc_extras/distributions/discrete.py
+++ b/pymc_extras/distributions/discrete.py
@@ -303,6 +303,30 @@ class BetaNegativeBinomial:
         )
 
 
+def _log_ive(order, z):
+    """Logarithm of the exponentially scaled modified Bessel function of the first kind.
+
+    The uniform asymptotic expansion for large orders is used where the function itself underflows.
+    """
+    ive = pt.ive(order, z)
+    underflow = pt.eq(ive, 0)
+
+    order = pt.maximum(pt.abs(order), 1)
+    x = z / order
+    root = pt.sqrt(1 + x**2)
+    t = 1 / root
+    u1 = (3 * t - 5 * t**3) / 24
+    u2 = (81 * t**2 - 462 * t**4 + 385 * t**6) / 1152
+    u3 = (30375 * t**3 - 369603 * t**5 + 765765 * t**7 - 425425 * t**9) / 414720
+    expansion = (
+        order * (root + pt.log(x / (1 + root)))
+        - z
+        - 0.5 * pt.log(2 * np.pi * order * root)
+        + pt.log1p(u1 / order + u2 / order**2 + u3 / order**3)
+    )
+    return pt.switch(underflow, expansion, pt.log(pt.switch(underflow, 1, ive)))
+
+
 class Skellam:
     R"""
     Skellam distribution.
@@ -374,7 +398,7 @@ class Skellam:
             -safe_mu1
             - safe_mu2
             + 0.5 * value * (pt.log(safe_mu1) - pt.log(safe_mu2))
-            + pt.log(pt.ive(value, z))
+            + _log_ive(value, z)
             + z
         )
         res = pt.switch(pt.eq(mu2, 0), pm.logp(pm.Poisson.dist(safe_mu1), value), res)
-- 
2.43.0


From 4e153d8fa69d9a5610d00babd1058f5775924cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:22 +0000
Subject: [PATCH 57/58] fix: shape of the draws of GenExtreme with parameters
 of size one

---
 pymc_extras/distributions/continuous.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymc_extras/distributions/continuous.py b/pymc_extras/distributions/continuous.py
index 4194179..061b2a7 100644
--- a/pymc_extras/distributions/continuous.py
+++ b/pymc_extras/distributions/continuous.py
@@ -52,6 +52,9 @@ class GenExtremeRV(RandomVariable):
         xi: np.ndarray,
         size: tuple[int, ...],
     ) -> np.ndarray:
+        if size is None:
+            # Scipy returns a scalar if all the parameters have size one
+            size = np.broadcast_shapes(np.shape(mu), np.shape(sigma), np.shape(xi))
         # Notice negative here, since remainder of GenExtreme is based on Coles parametrization
         return stats.genextreme.rvs(c=-xi, loc=mu, scale=sigma, random_state=rng, size=size)
 
-- 
2.43.0


From 2e0eaa812bd739855547b7c6e1f79edd2bad4630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:37 +0000
Subject: [PATCH 58/58] fix: scalar draws of GeneralizedPoisson

---
 pymc_extras/distributions/discrete.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/distributions/discrete.py b/pymc_extras/distributions/discrete.py
index b807ab6..080595b 100644
--- a/pymc_extras/distributions/discrete.py
+++ b/pymc_extras/distributions/discrete.py
@@ -99,7 +99,7 @@ class GeneralizedPoissonRV(RandomVariable):
         x = y.copy()
         higher_than_zero = y > 0
         while np.any(higher_than_zero[idxs_mask]):
-            y = rng.poisson(lam_ * y)
+            y = rng.poisson(lam_ * y, size=dist_size)
             x[higher_than_zero] = x[higher_than_zero] + y[higher_than_zero]
             higher_than_zero = y > 0
         return x
-- 
2.43.0

