From 60062edd60710924a173a95c8351a40302f1c0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 01/38] fix: label simulator dataframe rows with the batch
 member they belong to

---
 moirae/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/simulator.py b/moirae/simulator.py
index ac236c3..6e2f1a9 100644
--- a/moirae/simulator.py
+++ b/moirae/simulator.py
@@ -161,7 +161,7 @@ class Simulator:
             return pd.DataFrame(values, columns=params[0].all_names)
 
         # Make a dataframe of each component of the history
-        member = np.repeat(np.arange(batch_size), len(self.input_history))
+        member = np.tile(np.arange(batch_size), len(self.input_history))
         return pd.concat([
             pd.DataFrame({'batch': member}),
             _squish(self.input_history),
-- 
2.43.0


From b5dbdfacd6d2336b9419d0a5fa8f4a0895f3ab38 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 02/38] fix: relax hysteresis towards its maximum when the
 current ramps to zero

---
 moirae/models/ecm/utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index 94049dc..8d045b6 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -140,13 +140,12 @@ def hysteresis_solver_const_sign(
     h_dt: float
         Hysteresis value at the end of the time interval
     """
-    assert i0 * (i0 + (alpha * dt)) >= 0, 'Current flips sign in interval dt!!'
+    # Allow for the round-off error in the current at the end of the interval
+    assert i0 * (i0 + (alpha * dt)) >= -1e-8 * i0 * i0, 'Current flips sign in interval dt!!'
     exp_factor = kappa * dt  # shape (broadcasted_batch_size, 1)
     exp_factor = exp_factor * (i0 + (0.5 * alpha * dt))
-    # Now, flip the sign depending if current is positive in the interval
-    if i0 > -(alpha * dt):  # this indicates (i0 + alpha * t) > 0
-        exp_factor = -exp_factor
-    exp_factor = np.exp(exp_factor)
+    # The hysteresis always relaxes towards M, regardless of the direction of the current
+    exp_factor = np.exp(-np.abs(exp_factor))
     h_dt = exp_factor * h0
     h_dt = h_dt + ((1 - exp_factor) * M)
     return h_dt
-- 
2.43.0


From 78e302e670891d55cec67283114d292ddfa0bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 03/38] fix: use current at start of step in the RC update for
 linear currents

---
 moirae/models/ecm/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 831022d..05183d1 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -90,7 +90,7 @@ class EquivalentCircuitModel(CellModel):
             assert len(tau.shape) == 2, f'RC time constant has shape {tau.shape}D, instead of 2D!'
             exp_factor = np.exp(-delta_t / tau)  # shape (batch_size, num_rc)
             iRC_kp1 = iRC_kp1 * exp_factor  # shape (batch_size, num_rc)
-            iRC_kp1 = iRC_kp1 + ((1 - exp_factor) * (current_kp1 - (current_slope * tau)))  # shape (batch_size, num_rc)
+            iRC_kp1 = iRC_kp1 + ((1 - exp_factor) * (current_kp1 - (current_slope * (delta_t + tau))))
             iRC_kp1 = iRC_kp1 + (current_slope * delta_t)  # shape (batch_size, num_rc)
 
         # Update hysteresis
-- 
2.43.0


From b262b65aa4a4cc87dc367cd2462a21e1c3e13da1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 04/38] fix: support batched entropic coefficients and
 temperatures in the OCV

---
 moirae/models/ecm/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index 5c8552f..576a2a6 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -137,7 +137,7 @@ class OpenCircuitVoltage(HealthVariable):
         if temp is not None:
             T_ref = self.ocv_ref.reference_temperature
             delta_T = temp - T_ref
-            ocv += delta_T * self.ocv_ent.get_value(soc=soc)
+            ocv = ocv + delta_T * self.ocv_ent.get_value(soc=soc)
         return ocv
 
     def __call__(self,
-- 
2.43.0


From 53b00c9adb2273eb20f65b50adb446e2cf5aecee Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 05/38] fix: support batched temperature dependence and
 auxiliary parameters of interpolated health variables

---
 moirae/models/ecm/components.py | 2 +-
 moirae/models/ecm/utils.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index 576a2a6..c2082f7 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -61,7 +61,7 @@ class Resistance(SOCInterpolatedHealth):
         reference_value = super().get_value(soc)
 
         # Correct for temperature dependence
-        if temp is None or self.temperature_dependence_factor == 0:
+        if temp is None or np.all(self.temperature_dependence_factor == 0):
             return reference_value
         gamma = self.temperature_dependence_factor
         deltaT = np.array(temp) - self.reference_temperature
diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index 8d045b6..afb9fa6 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -70,7 +70,7 @@ class SOCInterpolatedHealth(HealthVariable):
         if len(soc_shape) == 2:
             soc_batch_size = soc.shape[0]
             soc_dim = soc.shape[1]
-        internal_batch_size = self.batch_size
+        internal_batch_size = self.base_values.shape[0]
 
         # Special case: no interpolation
         if self.base_values.shape[-1] == 1:
-- 
2.43.0


From 22fc15fb68cea66e17acdadb9d5d73e441a65137 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 06/38] fix: return the nearest positive semi-definite matrix
 when repairing covariances

---
 moirae/estimators/online/filters/kalman/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moirae/estimators/online/filters/kalman/utils.py b/moirae/estimators/online/filters/kalman/utils.py
index 6b07c14..68a8216 100644
--- a/moirae/estimators/online/filters/kalman/utils.py
+++ b/moirae/estimators/online/filters/kalman/utils.py
@@ -36,8 +36,9 @@ def enforce_positive_semi_defiteness(Sig: np.ndarray) -> np.ndarray:
         Sig: matrix that should be positive semi-definite but isn't
     """
     # Perform singular value decomposition
+    Sig = (Sig + Sig.T) / 2
     _, S_diagonal, V_complex_conjugate = np.linalg.svd(Sig)
-    H_matrix = np.matmul(V_complex_conjugate.T, np.matmul(S_diagonal, V_complex_conjugate))
+    H_matrix = np.matmul(V_complex_conjugate.T, np.matmul(np.diag(S_diagonal), V_complex_conjugate))
     return (Sig + Sig.T + H_matrix + H_matrix.T) / 4
 
 
-- 
2.43.0


From c931f47320bf5bab4fab1618128008c3ca16c0ae Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 07/38] fix: count values per batch member when updating
 batched parameters

---
 moirae/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/base.py b/moirae/models/base.py
index 5f9ac1f..2634e50 100644
--- a/moirae/models/base.py
+++ b/moirae/models/base.py
@@ -395,7 +395,7 @@ class HealthVariable(BaseModel, arbitrary_types_allowed=True):
             model = models[-1]
             attr = my_names[-1]
             cur_value = getattr(model, attr)
-            num_params = np.size(cur_value)
+            num_params = cur_value.shape[-1]
 
             # Get the parameters to use
             end = pos + num_params
-- 
2.43.0


From 61d120885746cc5628b642c06cf334037e4e55c6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 08/38] fix: do not share memory with the array given to
 GeneralContainer.from_numpy

---
 moirae/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/base.py b/moirae/models/base.py
index 2634e50..c457fdb 100644
--- a/moirae/models/base.py
+++ b/moirae/models/base.py
@@ -532,7 +532,7 @@ class GeneralContainer(BaseModel,
             field_len = current_field.shape[-1]
 
             end_index = begin_index + field_len
-            new_field_values = values[:, begin_index:end_index]
+            new_field_values = values[:, begin_index:end_index].copy()
             setattr(self, field_name, new_field_values)
             begin_index = end_index
 
-- 
2.43.0


From 642f33e7cef3af9ed4389159168117c4ad6647b7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 09/38] fix: combine both distributions in DualEstimator.state

---
 moirae/estimators/online/dual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/dual.py b/moirae/estimators/online/dual.py
index 1ab41d7..f42a32c 100644
--- a/moirae/estimators/online/dual.py
+++ b/moirae/estimators/online/dual.py
@@ -90,7 +90,7 @@ class DualEstimator(OnlineEstimator):
     def state(self) -> MultivariateRandomDistribution:
         # Get converted states
         transient_converted, asoh_converted = self._get_converted_states()
-        return transient_converted.combine_with(asoh_converted)
+        return transient_converted.combine_with((asoh_converted,))
 
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
         # Get converted states
-- 
2.43.0


From 49b940796efa3c8241452b3677a49d4293329124 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 10/38] fix: only update estimated parameters in
 DualEstimator.get_estimated_state

---
 moirae/estimators/online/dual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/dual.py b/moirae/estimators/online/dual.py
index f42a32c..8cf8e69 100644
--- a/moirae/estimators/online/dual.py
+++ b/moirae/estimators/online/dual.py
@@ -98,7 +98,7 @@ class DualEstimator(OnlineEstimator):
 
         # Translate to model object
         estimated_transient = self.transients.make_copy(values=transient_converted.get_mean())
-        estimated_asoh = self.asoh.make_copy(values=asoh_converted.get_mean())
+        estimated_asoh = self.asoh.make_copy(values=asoh_converted.get_mean(), names=self.asoh_wrapper.asoh_inputs)
         return estimated_transient, estimated_asoh
 
     def step(self, inputs: InputQuantities, measurements: OutputQuantities) -> \
-- 
2.43.0


From 70a7e45378879c423db120051526b8d437144ddd Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 11/38] fix: do not pass the model keyword arguments to the UKF
 correction

---
 moirae/estimators/online/filters/kalman/unscented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/filters/kalman/unscented.py b/moirae/estimators/online/filters/kalman/unscented.py
index 53df156..0971f07 100644
--- a/moirae/estimators/online/filters/kalman/unscented.py
+++ b/moirae/estimators/online/filters/kalman/unscented.py
@@ -181,7 +181,7 @@ class UnscentedKalmanFilter(BaseFilter):
         # Step 1: perform estimation update
         x_k_minus, y_k, cov_xy = self.estimation_update(sigma_pts=sigma_pts, new_controls=new_controls, **kwargs)
         # Step 2: correction step, adjust hidden states based on new measurement
-        self.correction_update(x_k_minus=x_k_minus, y_hat=y_k, cov_xy=cov_xy, y=measurements, **kwargs)
+        self.correction_update(x_k_minus=x_k_minus, y_hat=y_k, cov_xy=cov_xy, y=measurements)
         # Don't forget to update the internal control!
         self.controls = new_controls.model_copy(deep=True)
         # Return
-- 
2.43.0


From 0251b6f4c461ade1fb81a53a0a28959e5770ccfd Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 12/38] fix: report standard deviations rather than variances
 in the _std columns

---
 moirae/interface/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/__init__.py b/moirae/interface/__init__.py
index 2911fcd..cd119c3 100644
--- a/moirae/interface/__init__.py
+++ b/moirae/interface/__init__.py
@@ -130,9 +130,9 @@ def run_online_estimate(
 
             if output_states:
                 state_mean[i, :] = new_state.get_mean()
-                state_std[i, :] = np.diag(new_state.get_covariance())
+                state_std[i, :] = np.sqrt(np.diag(new_state.get_covariance()))
                 output_mean[i, :] = new_outputs.get_mean()
-                output_std[i, :] = np.diag(new_outputs.get_covariance())
+                output_std[i, :] = np.sqrt(np.diag(new_outputs.get_covariance()))
 
             # Store estimates
             if hdf5_output is not None:
-- 
2.43.0


From 254522ad988f20723a8ef1e87ef12a2139c1fc1b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 13/38] fix: read every recorded cycle from HDF5, not just
 those before the first gap

---
 moirae/interface/hdf5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 1aa2fa3..4039e08 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -280,8 +280,8 @@ def read_state_estimates(data_path: Union[str, Path, h5py.Group],
             return values
 
         for i, time in enumerate(data_group['time']):
-            if np.isnan(time):  # NaN marks the end of the data
-                return
+            if np.isnan(time):  # NaN marks an entry which was not written
+                continue
             # Unpack the dists
             state_values = _unpack(i, 'state_')
             state_dist = dist_type(**state_values)
-- 
2.43.0


From f44638e663fc42d9d0414ae386c9259fe12a4049 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 14/38] fix: allow resizable HDF5 outputs to grow past their
 expected size

---
 moirae/interface/hdf5.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 4039e08..3341201 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -162,7 +162,7 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
             for key, value in to_insert.items():
                 if self.resizable:
                     starting_size = 128 if expected is None else expected
-                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (expected, *value.shape)}
+                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (None, *value.shape)}
                 else:
                     my_kwargs = {'shape': (expected, *value.shape)}
 
@@ -206,8 +206,8 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
             for key, value in to_insert.items():
                 my_dataset: h5py.Dataset = my_group[key]
 
-                # Expand by one chunk size if necessary
-                if my_dataset.shape[0] <= ind:
+                # Expand by whole chunks if necessary
+                while my_dataset.shape[0] <= ind:
                     my_dataset.resize(my_dataset.shape[0] + my_dataset.chunks[0], axis=0)
 
                 my_ind = (ind,) + (slice(None),) * value.ndim
-- 
2.43.0


From ae6945b6898894748214ab6108433e1af077fff9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 15/38] fix: store estimates as floats even if the initial
 state holds integers

---
 moirae/interface/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 3341201..0fae9a2 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -166,7 +166,7 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
                 else:
                     my_kwargs = {'shape': (expected, *value.shape)}
 
-                my_group.create_dataset(key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
+                my_group.create_dataset(key, dtype=float, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
 
     def append_step(self,
                     time: float,
-- 
2.43.0


From 5363f86ad4646b0ecc413479694f9f0234b95005 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 16/38] fix: evaluate mean squared loss for batches of
 parameters

---
 moirae/estimators/offline/loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/offline/loss.py b/moirae/estimators/offline/loss.py
index 2036d32..04e14a0 100644
--- a/moirae/estimators/offline/loss.py
+++ b/moirae/estimators/offline/loss.py
@@ -87,7 +87,7 @@ class MeanSquaredLoss(BaseLoss):
 
         # Prepare the output arrays
         num_outs = len(initial_output)
-        pred_y = np.zeros((len(raw_data), 1, num_outs))
+        pred_y = np.zeros((len(raw_data), x.shape[0], num_outs))
         true_y = np.zeros((len(raw_data), x.shape[0], num_outs))
 
         true_y[0, :] = initial_output.to_numpy()
-- 
2.43.0


From 172d4eac3839e95ec426eb689fbf1aba9d2c3aaa Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 17/38] fix: report JointEstimator.state in the coordinates of
 the cell model

---
 moirae/estimators/online/joint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/estimators/online/joint.py b/moirae/estimators/online/joint.py
index 5614b83..cd028ff 100644
--- a/moirae/estimators/online/joint.py
+++ b/moirae/estimators/online/joint.py
@@ -42,10 +42,10 @@ class JointEstimator(OnlineEstimator):
 
     @property
     def state(self) -> MultivariateRandomDistribution:
-        return self.filter.hidden.model_copy(deep=True)
+        return self.filter.hidden.convert(conversion_operator=self.joint_model.hidden_conversion)
 
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
-        joint_state = self.state
+        joint_state = self.filter.hidden
         estimated_asoh, estimated_transient = self.joint_model.create_cell_model_inputs(
             hidden_states=np.atleast_2d(joint_state.get_mean()))
         return estimated_transient, estimated_asoh
-- 
2.43.0


From 6cf5a24509052215f5c81e02138984800d215295 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 18/38] fix: relax hysteresis in the direction of the current
 when ramping from rest

---
 moirae/models/ecm/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 05183d1..199a6ca 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -99,10 +99,8 @@ class EquivalentCircuitModel(CellModel):
         M = asoh.h0.get_value(soc=soc_k)  # shape (h0_batch, soc_batch, 1)
         # Recall that, if charging, than M has to be >0, but, if dischargin, it
         # has to be <0. The easiest way to check for that is to multiply by the
-        # current and divide by its absolute value
-        M = M * current_k  # shape (h0_batch, trans_batch, 1)
-        if not np.allclose(current_k, 0):
-            M = M / abs(current_k)  # shape (h0_batch, trans_batch, 1)
+        # sign of the current, which is that of the new current if starting from rest
+        M = M * np.sign(np.where(current_k == 0, current_kp1, current_k))  # shape (h0_batch, trans_batch, 1)
 
         gamma = asoh.h0.gamma  # shape (h0_batch, 1)
         kappa = (coul_eff * gamma) / Qt  # shape (asoh_batch, 1)
-- 
2.43.0


From a95d9c4637e6630db6deed45f0b625b1146de84e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 19/38] fix: support batching only some of the RC elements

---
 moirae/models/ecm/__init__.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 199a6ca..6dd8a1f 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -75,8 +75,8 @@ class EquivalentCircuitModel(CellModel):
         # Update i_RCs
         iRC_kp1 = transient_state.i_rc.copy()  # Shape: (trans_batch_size, num_rc)
         if iRC_kp1.shape[1] > 0:  # If there are RC elements
-            tau = np.array([RC.time_constant(soc=soc_k, temp=temp_k)
-                            for RC in asoh.rc_elements])  # Shape: (num_rc, rc_batch, soc_batch, soc_dim=1)
+            tau = np.array(np.broadcast_arrays(*[RC.time_constant(soc=soc_k, temp=temp_k)
+                                                 for RC in asoh.rc_elements]))  # Shape: (num_rc, rc_batch, soc_batch, soc_dim=1)
             assert len(tau.shape) == 4, f'RC time constant has shape {tau.shape}D, instead of 4D!'
             # NOTE: we already assume that the A-SOH batch and transient batch are broadcastable!
             if tau.shape[1] == tau.shape[2]:
@@ -177,11 +177,11 @@ class EquivalentCircuitModel(CellModel):
 
         # Check RC elements
         if transient_state.i_rc.shape[-1] > 0:
-            rc_rs = np.array(
-                [rc.r.get_value(soc=transient_state.soc,
-                                temp=new_inputs.temperature)
-                 for rc in asoh.rc_elements]
-            )  # Shape: (num_rc, rc.r_batch, soc_batch, soc_dim=1)
+            rc_rs = np.array(np.broadcast_arrays(
+                *[rc.r.get_value(soc=transient_state.soc,
+                                 temp=new_inputs.temperature)
+                  for rc in asoh.rc_elements]
+            ))  # Shape: (num_rc, rc.r_batch, soc_batch, soc_dim=1)
             # Transpose to get shape of (rc.r_batch, num_rc, soc_batch, soc_dim=1)
             rc_rs = np.swapaxes(rc_rs, axis1=0, axis2=1)
             # Get currents through resistors in RC
-- 
2.43.0


From 5140db524a74cc4cf9496428ca4d0713119af5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 20/38] fix: keep temperature dependence on the health batch
 dimension

---
 moirae/models/ecm/components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index c2082f7..4235e14 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -63,7 +63,7 @@ class Resistance(SOCInterpolatedHealth):
         # Correct for temperature dependence
         if temp is None or np.all(self.temperature_dependence_factor == 0):
             return reference_value
-        gamma = self.temperature_dependence_factor
+        gamma = self.temperature_dependence_factor[:, :, None]  # shape (batch, 1, 1)
         deltaT = np.array(temp) - self.reference_temperature
         new_value = reference_value * np.exp(- gamma * deltaT)
         return new_value
@@ -135,7 +135,7 @@ class OpenCircuitVoltage(HealthVariable):
         """
         ocv = self.ocv_ref.get_value(soc=soc)
         if temp is not None:
-            T_ref = self.ocv_ref.reference_temperature
+            T_ref = self.ocv_ref.reference_temperature[:, :, None]  # shape (batch, 1, 1)
             delta_T = temp - T_ref
             ocv = ocv + delta_T * self.ocv_ent.get_value(soc=soc)
         return ocv
-- 
2.43.0


From 503c400ebed00c9f21a217571a582acf47fe7994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 21/38] fix: do not share parameters between the RC elements of
 the ECM template

---
 moirae/models/ecm/advancedSOH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/ecm/advancedSOH.py b/moirae/models/ecm/advancedSOH.py
index 657b339..4932aad 100644
--- a/moirae/models/ecm/advancedSOH.py
+++ b/moirae/models/ecm/advancedSOH.py
@@ -113,7 +113,7 @@ class ECMASOH(HealthVariable):
                 RC_R = Resistance(base_values=0.01,
                                   temperature_dependence_factor=0.0025)
                 RC_C = Capacitance(base_values=2500)
-                RCcomps = tuple(RCComponent(r=RC_R, c=RC_C).model_copy()
+                RCcomps = tuple(RCComponent(r=RC_R, c=RC_C).model_copy(deep=True)
                                 for _ in range(num_RC))
             else:
                 if len(RC) != num_RC:
-- 
2.43.0


From 92dd9f220b94d296d151387a7a470dd5c0cfe7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 22/38] fix: accept batches of hysteresis approach rates

---
 moirae/models/ecm/components.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index 4235e14..481479c 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -1,7 +1,7 @@
 """Models for the components of circuits"""
 from typing import List, Optional, Union
 
-from pydantic import Field
+from pydantic import Field, field_validator
 import numpy as np
 
 from moirae.models.base import HealthVariable, ListParameter, ScalarParameter
@@ -155,5 +155,11 @@ class HysteresisParameters(SOCInterpolatedHealth):
         Field(
             description='Values of maximum hysteresis at specified SOCs. Units: V')
     gamma: ScalarParameter = Field(default=0.,
-                                   description='Exponential approach rate. Units: 1/V',
-                                   ge=0.)
+                                   description='Exponential approach rate. Units: 1/V')
+
+    @field_validator('gamma', mode='after')
+    @classmethod
+    def _non_negative(cls, value: np.ndarray) -> np.ndarray:
+        if np.any(value < 0):
+            raise ValueError('Input should be greater than or equal to 0')
+        return value
-- 
2.43.0


From 52fb747ab88851e38b83e35ec3d711855922cd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:30 +0000
Subject: [PATCH 23/38] fix: build sigma points from covariances that are only
 positive semi-definite

---
 moirae/estimators/online/filters/kalman/unscented.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/moirae/estimators/online/filters/kalman/unscented.py b/moirae/estimators/online/filters/kalman/unscented.py
index 0971f07..7ab10f4 100644
--- a/moirae/estimators/online/filters/kalman/unscented.py
+++ b/moirae/estimators/online/filters/kalman/unscented.py
@@ -206,7 +206,11 @@ class UnscentedKalmanFilter(BaseFilter):
 
         # Sigma points are the augmented "mean" + each individual row of the transpose of the Cholesky decomposition of
         # Cov_aug, with a weighing factor of plus and minus gamma_param
-        sqrt_cov_aug = np.linalg.cholesky(cov_aug).T
+        try:
+            sqrt_cov_aug = np.linalg.cholesky(cov_aug).T
+        except np.linalg.LinAlgError:  # covariance is only semi-definite, for which Cholesky is not available
+            eig_vals, eig_vecs = np.linalg.eigh(cov_aug)
+            sqrt_cov_aug = (eig_vecs * np.sqrt(np.maximum(eig_vals, 0.))).T
         aux_sigma_pts = np.vstack((np.zeros((self._aug_len,)),
                                    self.gamma_param * sqrt_cov_aug,
                                    -self.gamma_param * sqrt_cov_aug))
-- 
2.43.0


From ce09a6870b49db21dac4f69d2ed03424124d0947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 24/38] fix: write estimates of datasets without cycle numbers
 to HDF5

The number of cycles is already treated as optional when sizing the file, but each step still looked the column up, so runs over such datasets failed with a KeyError.
---
 moirae/interface/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/__init__.py b/moirae/interface/__init__.py
index cd119c3..00b69a8 100644
--- a/moirae/interface/__init__.py
+++ b/moirae/interface/__init__.py
@@ -82,7 +82,7 @@ def run_online_estimate(
             raise ValueError('No time series data in the provided dataset')
 
         num_rows = dataset.raw_data.shape[0]
-        num_cycles = dataset.raw_data['cycle_number'].max() + 1 if 'cycle_number' in dataset.raw_data else 0
+        num_cycles = dataset.raw_data['cycle_number'].max() + 1 if 'cycle_number' in dataset.raw_data else 1
 
         def _row_iter(d):
             for _, r in d.iterrows():
@@ -136,7 +136,7 @@ def run_online_estimate(
 
             # Store estimates
             if hdf5_output is not None:
-                h5_writer.append_step(row['test_time'], row['cycle_number'], new_state, new_outputs)
+                h5_writer.append_step(row['test_time'], row.get('cycle_number', 0), new_state, new_outputs)
 
     # Compile the outputs into a dataframe
     output = None
-- 
2.43.0


From ae582f07cb44531773174821acc2a51abb82a6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:10 +0000
Subject: [PATCH 25/38] fix: do not alter the metadata of HDF5 records that
 cannot be overwritten

Preparing to write into a file which already holds estimates is refused, but the attributes describing them had been replaced by then and the existing estimates were misread afterwards.
---
 moirae/interface/hdf5.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 0fae9a2..d802562 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -129,6 +129,11 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
         if not self.resizable and (expected_steps is None or expected_cycles is None):
             raise ValueError('Expected sizes must be provided if not writing in resizable mode')
 
+        # Make sure not to overwrite existing data before altering the file
+        for what, where in [(self.per_timestep, 'per_timestep'), (self.per_cycle, 'per_cycle')]:
+            if what != "none" and where in self._group_handle:
+                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
+
         # Put the metadata in the attributes of the group
         self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
         self._group_handle.attrs['state_names'] = estimator.state_names
@@ -156,8 +161,6 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
             to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
 
             # Create datasets
-            if where in self._group_handle:
-                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
             my_group = self._group_handle.create_group(where)
             for key, value in to_insert.items():
                 if self.resizable:
-- 
2.43.0


From da13e40b897d5cc79d4059f90a0fe251fc950fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:36 +0000
Subject: [PATCH 26/38] fix: refuse datasets without time series in the OCV
 extractor

Datasets always have an entry for the raw data, which is None when there is none, so the check never failed.
---
 moirae/extractors/ecm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/extractors/ecm.py b/moirae/extractors/ecm.py
index f7678bd..bde56ef 100644
--- a/moirae/extractors/ecm.py
+++ b/moirae/extractors/ecm.py
@@ -74,7 +74,7 @@ class OCVExtractor(BaseExtractor):
 
     def check_data(self, data: CellDataset):
         # Check if there is a raw_data table
-        if 'raw_data' not in data.tables:
+        if data.tables.get('raw_data') is None:
             raise ValueError('`raw_data` table is required')
 
         # Compute the per-cycle capacity if unavailable
-- 
2.43.0


From 5c31092db9fde8b0c62604fef7713cd0e3d94053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:36 +0000
Subject: [PATCH 27/38] fix: combine a Gaussian with any iterable of others,
 including one-shot iterators

---
 moirae/estimators/online/filters/distributions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moirae/estimators/online/filters/distributions.py b/moirae/estimators/online/filters/distributions.py
index 9238b00..10e374f 100644
--- a/moirae/estimators/online/filters/distributions.py
+++ b/moirae/estimators/online/filters/distributions.py
@@ -164,6 +164,7 @@ class MultivariateGaussian(MultivariateRandomDistribution, validate_assignment=T
         return self.covariance.copy()
 
     def combine_with(self, random_dists: Iterable[Self]) -> Self:
+        random_dists = list(random_dists)  # passed over twice below
         combined_mean = [self.get_mean(),]
         combined_mean += [gaussian.get_mean() for gaussian in random_dists]
         combined_cov = [self.get_covariance(),]
-- 
2.43.0


From 2e4bdad6b02c6c205c74a93b6c065c06ce9db5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:39 +0000
Subject: [PATCH 28/38] fix: count the charge of ramps that change sign or
 start from rest with the efficiency of its direction

---
 moirae/models/ecm/__init__.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 6dd8a1f..b5835fd 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -57,8 +57,11 @@ class EquivalentCircuitModel(CellModel):
         # steps, independent of temperature or SOC variations. The value used
         # will be the one at the previous SOC and temperature values.
 
-        # Set Coulombic efficiency to 1. if discharging
-        coul_eff = np.atleast_2d(1) if current_k < 0 else asoh.ce  # shape (ce_batch, 1)
+        # Set Coulombic efficiency to 1. if discharging (starting from rest, the direction is that of the new current)
+        is_discharge = current_k < 0 or (current_k == 0 and current_kp1 < 0)
+        coul_eff = np.atleast_2d(1) if is_discharge else asoh.ce  # shape (ce_batch, 1)
+        # If the current flips sign, the other direction applies to what flows afterwards
+        coul_eff_flip = asoh.ce if is_discharge else np.atleast_2d(1)  # shape (ce_batch, 1)
 
         # Update SOC
         soc_k = transient_state.soc.copy()  # shape (soc_batch, 1)
@@ -66,6 +69,9 @@ class EquivalentCircuitModel(CellModel):
         charge_cycled = delta_t * (current_k + ((current_slope * delta_t) / 2))  # shape (trans_batch, 1)
         # NOTE: the below operation only works if batches are broadcastable!!!
         soc_kp1 = soc_k + (coul_eff * (charge_cycled / Qt))  # shape (trans_batch, 1)
+        if current_k * current_kp1 < 0 and self.current_behavior != 'constant':
+            charge_flip = current_kp1 * (delta_t + (current_k / current_slope)) / 2
+            soc_kp1 = soc_kp1 + ((coul_eff_flip - coul_eff) * (charge_flip / Qt))
 
         # Update q0
         q0_kp1 = None
@@ -130,7 +136,7 @@ class EquivalentCircuitModel(CellModel):
             # 4. use the starting current of 0.0
             hyst_kp1 = hysteresis_solver_const_sign(h0=h_mid,
                                                     M=-M,
-                                                    kappa=kappa,
+                                                    kappa=(coul_eff_flip * gamma) / Qt,
                                                     dt=(delta_t - phi),
                                                     i0=0.0,
                                                     alpha=current_slope)
-- 
2.43.0


From 1afe58a668eba4da486c0750a61e37c073bd7dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:33 +0000
Subject: [PATCH 29/38] fix: a capacity set in coulombs as a plain number stays
 a parameter of the cell

---
 moirae/models/ecm/components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index 481479c..7cefebb 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -4,7 +4,7 @@ from typing import List, Optional, Union
 from pydantic import Field, field_validator
 import numpy as np
 
-from moirae.models.base import HealthVariable, ListParameter, ScalarParameter
+from moirae.models.base import HealthVariable, ListParameter, ScalarParameter, enforce_dimensions
 from .utils import SOCInterpolatedHealth
 
 
@@ -25,7 +25,7 @@ class MaxTheoreticalCapacity(HealthVariable):
         """
         Sets the capacity based on specified value in Amp-seconds
         """
-        self.base_values = amp_seconds / 3600.
+        self.base_values = enforce_dimensions(np.asarray(amp_seconds) / 3600., 0)
 
     @property
     def amp_hour(self) -> float:
-- 
2.43.0


From 12d263bbe0a8e2d7fa13d1fabb9575f004681f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:16 +0000
Subject: [PATCH 30/38] fix: update the ECM with a linear current over a step
 of no duration

---
 moirae/models/ecm/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index b5835fd..b1c6600 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -45,6 +45,11 @@ class EquivalentCircuitModel(CellModel):
         #     + [(1 - exp(-delta_t/Tau_j,k) * (I_k - I_slope * Tau_j,k)]
         # hyst_(k+1) = [see code, it's messy]
 
+        # If no time passes (e.g., two samples recorded at the same time), there is no slope of the current to follow
+        if self.current_behavior != 'constant' and np.all(new_inputs.time == previous_inputs.time):
+            return EquivalentCircuitModel('constant').update_transient_state(previous_inputs, new_inputs,
+                                                                             transient_state, asoh)
+
         # Get basic info
         delta_t = new_inputs.time - previous_inputs.time  # shape (time_batch, 1)
         current_k = previous_inputs.current  # shape (current_batch, 1)
-- 
2.43.0


From 1d3e2e8111842582c158ef3529211e7e4e528f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:16 +0000
Subject: [PATCH 31/38] fix: load SOC pinpoints of a health parameter from JSON

---
 moirae/models/ecm/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index afb9fa6..7643d70 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -1,8 +1,8 @@
-from typing import List, Optional, Union, Literal, Callable, Iterator
+from typing import Annotated, List, Optional, Union, Literal, Callable, Iterator
 from numbers import Number
 
 import numpy as np
-from pydantic import Field, field_serializer
+from pydantic import BeforeValidator, Field, field_serializer
 from scipy.interpolate import interp1d
 
 from moirae.models.base import HealthVariable, ListParameter
@@ -13,7 +13,9 @@ class SOCInterpolatedHealth(HealthVariable):
     """
     base_values: ListParameter = \
         Field(default=0, description='Values at specified SOCs')
-    soc_pinpoints: Optional[np.ndarray] = Field(default=None, description='SOC pinpoints for interpolation.')
+    soc_pinpoints: Annotated[
+        Optional[np.ndarray], BeforeValidator(lambda x: np.array(x) if isinstance(x, (list, tuple)) else x)
+    ] = Field(default=None, description='SOC pinpoints for interpolation.')
     interpolation_style: Literal['linear', 'nearest', 'nearest-up', 'zero', 'slinear',
                                  'quadratic', 'cubic', 'previous', 'next'] = \
         Field(default='linear', description='Type of interpolation to perform')
-- 
2.43.0


From a5b9ad83ace0a976c4639c41efe1a0136c3efd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:16 +0000
Subject: [PATCH 32/38] fix: record every parameter of the initial health in
 the HDF5 metadata

---
 moirae/interface/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index d802562..c9a80c3 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -141,7 +141,7 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
         self._group_handle.attrs['estimator_name'] = estimator.__class__.__name__
         self._group_handle.attrs['distribution_type'] = estimator.state.__class__.__name__
         self._group_handle.attrs['cell_model'] = estimator.cell_model.__class__.__name__
-        self._group_handle.attrs['initial_asoh'] = estimator.asoh.model_dump_json()
+        self._group_handle.attrs['initial_asoh'] = estimator.asoh.model_dump_json(serialize_as_any=True)
         self._group_handle.attrs['initial_transient_state'] = estimator.transients.model_dump_json()
 
         # Update accordingly
-- 
2.43.0


From 6f696cc31f6b2c91cabe7ef632cbcb0aecca2064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:16 +0000
Subject: [PATCH 33/38] fix: keep model wrappers of estimators independent of
 the objects they were made from

---
 moirae/estimators/online/utils/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moirae/estimators/online/utils/model.py b/moirae/estimators/online/utils/model.py
index 634f924..5eca2b9 100644
--- a/moirae/estimators/online/utils/model.py
+++ b/moirae/estimators/online/utils/model.py
@@ -66,10 +66,10 @@ class BaseCellWrapper(ModelWrapper):
         if transients.batch_size > 1:
             raise ValueError(f'The batch size of the transient state must be 1. Found: {transients.batch_size}')
 
-        self.transients = transients
+        self.transients = transients.model_copy(deep=True)
         self.cell_model = cell_model
-        self.asoh = asoh
-        self.inputs = inputs
+        self.asoh = asoh.model_copy(deep=True)
+        self.inputs = inputs.model_copy(deep=True)
 
         # Capture the shape of the outputs
         self._num_output_dimensions = self.cell_model.calculate_terminal_voltage(new_inputs=self.inputs,
-- 
2.43.0


From 04c72c092877071389f885e4862336c9d39db29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:28 +0000
Subject: [PATCH 34/38] fix: accept one prediction for all samples in the
 unscented filter

---
 moirae/estimators/online/filters/kalman/unscented.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/moirae/estimators/online/filters/kalman/unscented.py b/moirae/estimators/online/filters/kalman/unscented.py
index 7ab10f4..b8ca007 100644
--- a/moirae/estimators/online/filters/kalman/unscented.py
+++ b/moirae/estimators/online/filters/kalman/unscented.py
@@ -292,6 +292,9 @@ class UnscentedKalmanFilter(BaseFilter):
         """
         y_preds = self.model.predict_measurement(hidden_states=updated_hidden_states,
                                                  controls=controls.get_mean(), **kwargs)
+        # Models provide a single prediction if it does not depend on the hidden states
+        if y_preds.shape[0] == 1:
+            y_preds = np.repeat(y_preds, updated_hidden_states.shape[0], axis=0)
         return y_preds
 
     def estimation_update(self,
@@ -316,8 +319,8 @@ class UnscentedKalmanFilter(BaseFilter):
 
         # Step 1b: evolve hidden states based on the model and the previous input
         x_updated = self._evolve_hidden(hidden_states=x_hid, new_controls=new_controls, **kwargs)
-        # Don't forget to include process noise!
-        x_updated += w_hid
+        # Don't forget to include process noise! (without altering the array which belongs to the model)
+        x_updated = x_updated + w_hid
         # Assemble x_k_minus
         x_k_minus_info = self._assemble_unscented_estimate(samples=x_updated)
         x_k_minus = MultivariateGaussian.model_validate(x_k_minus_info)
-- 
2.43.0


From bc2e97fc33c3001bae7617bd4550e0015edf6faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 35/38] fix: refuse estimates that do not fit before writing
 any part of them

---
 moirae/interface/hdf5.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index c9a80c3..6a53276 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -187,8 +187,9 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
         """
         self._check_if_ready()
 
-        # Write the column to the appropriate part of the HDF5 file
+        # Write the column to the appropriate part of the HDF5 file, once it is clear that all of it fits
         # TODO (wardlt): Introduce a batched write implementation.
+        to_write = []
         for ind, what, where in [(self.position, self.per_timestep, 'per_timestep'),
                                  (int(cycle), self.per_cycle, 'per_cycle')]:
             # Determine if we must write
@@ -205,16 +206,22 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
             to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
             to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
 
-            # Write it
+            # Find where to write it
             for key, value in to_insert.items():
                 my_dataset: h5py.Dataset = my_group[key]
+                if my_dataset.shape[1:] != value.shape:
+                    raise ValueError(f'Storage for {where}/{key} has a shape of {my_dataset.shape[1:]},'
+                                     f' but the estimate has {value.shape}')
 
                 # Expand by whole chunks if necessary
                 while my_dataset.shape[0] <= ind:
                     my_dataset.resize(my_dataset.shape[0] + my_dataset.chunks[0], axis=0)
 
                 my_ind = (ind,) + (slice(None),) * value.ndim
-                my_dataset[my_ind] = value
+                to_write.append((my_dataset, my_ind, value))
+
+        for my_dataset, my_ind, value in to_write:
+            my_dataset[my_ind] = value
 
         # Increment the step position
         self.position += 1
-- 
2.43.0


From 3eb50d85f0fd82c772876278c1aeaabff6296b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 36/38] fix: refuse datasets whose capacities are not known in
 the OCV extractor

---
 moirae/extractors/ecm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/extractors/ecm.py b/moirae/extractors/ecm.py
index bde56ef..edcaff3 100644
--- a/moirae/extractors/ecm.py
+++ b/moirae/extractors/ecm.py
@@ -83,7 +83,7 @@ class OCVExtractor(BaseExtractor):
 
         # Ensure at least one cycle samples capacities within
         sampled_soc = data.tables['cycle_stats']['capacity_charge'].max() / self.capacity
-        if sampled_soc < self.soc_requirement:
+        if not sampled_soc >= self.soc_requirement:  # also refuses capacities that are not known (NaN)
             raise ValueError(f'Dataset must sample {self.soc_requirement*100:.1f}% of SOC.'
                              f' Only sampled {sampled_soc*100:.1f}%')
 
-- 
2.43.0


From 0db680ec979cb004c54535cce60532f518da83e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 37/38] fix: refuse arrays too short for the container they are
 loaded into

---
 moirae/models/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/moirae/models/base.py b/moirae/models/base.py
index c457fdb..1c816f2 100644
--- a/moirae/models/base.py
+++ b/moirae/models/base.py
@@ -522,6 +522,8 @@ class GeneralContainer(BaseModel,
         # Sure the values are a 2D array
         if values.ndim == 1:
             values = values[None, :]
+        if values.shape[-1] < len(self):
+            raise ValueError(f'Required at least {len(self)} values, but only provided {values.shape[-1]}')
 
         # We need to know where to start reading from in the array
         begin_index = 0
-- 
2.43.0


From 3243d93d9c684099f68b0330d1f345529913c640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:34 +0000
Subject: [PATCH 38/38] fix: keep every member when only the previous inputs
 are batched in the Thevenin interface

---
 moirae/models/thevenin/__init__.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/moirae/models/thevenin/__init__.py b/moirae/models/thevenin/__init__.py
index 2caad10..f591366 100644
--- a/moirae/models/thevenin/__init__.py
+++ b/moirae/models/thevenin/__init__.py
@@ -22,19 +22,22 @@ class TheveninModel(CellModel):
         self.isothermal = isothermal
         # TODO (wardlt): Add a maximum timestep size? Victor was using that to avoid the issues with the integrator
 
-    def _make_models(self, transient: TheveninTransient, asoh: TheveninASOH, inputs: TheveninInput) -> Iterator[Model]:
+    def _make_models(self, transient: TheveninTransient, asoh: TheveninASOH, inputs: TheveninInput,
+                     batch_size: int) -> Iterator[Model]:
         """
         Generate a model for each member of the batch of experimental conditions
 
         Args:
             transient: Batch of transient states
             asoh: Batch of health variables
+            inputs: Batch of new inputs
+            batch_size: Number of members in the batch
 
         Yields:
             A model for each member of the batch
         """
 
-        for b in range(max(transient.batch_size, asoh.batch_size, inputs.batch_size)):
+        for b in range(batch_size):
             # The value of each member of the transient or ASOH is a 2D array with the first dimension either 1
             #  or batch_size. The % signs below are a short syntax for either using the same value for all batches
             #  (anything mod 1 is 0) or the appropriate member of the batch
@@ -73,11 +76,12 @@ class TheveninModel(CellModel):
             asoh: TheveninASOH
     ) -> TheveninTransient:
         # Initialize the array in which to store output values
-        batch_size = max(transient_state.batch_size, asoh.batch_size, new_inputs.batch_size)
+        batch_size = max(transient_state.batch_size, asoh.batch_size, new_inputs.batch_size,
+                         previous_inputs.batch_size)
         output_array = np.zeros((batch_size, len(transient_state)))
 
         # Iterate over models representing each member of the batch
-        for model_i, model in enumerate(self._make_models(transient_state, asoh, new_inputs)):
+        for model_i, model in enumerate(self._make_models(transient_state, asoh, new_inputs, batch_size)):
             # Propagate the system under a constant current load
             # TODO (wardlt): Make current time-dependent, which is possible by passing a function to add_step
             exp = Experiment()
-- 
2.43.0

