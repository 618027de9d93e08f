From 6e4fa841cf5048533e4ca9845da60330025d3c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 01/36] fix: estimate and record the first row of the dataset

run_online_estimate consumed the first record to get the initial inputs and
never gave it to the estimator, so that every row of the output was shifted by
one with respect to the dataset and the last row was left as zeros.
---
 moirae/interface/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/moirae/interface/__init__.py b/moirae/interface/__init__.py
index 2911fcd..9fb672b 100644
--- a/moirae/interface/__init__.py
+++ b/moirae/interface/__init__.py
@@ -2,6 +2,7 @@
 with a particular emphasis on data built with
 `battery-data-toolkit <https://github.com/ROVI-org/battery-data-toolkit>`_"""
 from contextlib import nullcontext
+from itertools import chain
 from typing import Tuple, Union
 from math import isfinite
 from pathlib import Path
@@ -98,8 +99,10 @@ def run_online_estimate(
         raise ValueError(f'Unrecognized data type: {type(dataset)}')
 
     # Update the initial inputs for the
-    initial_input, _ = row_to_inputs(next(row_iter))
+    first_row = next(row_iter)
+    initial_input, _ = row_to_inputs(first_row)
     estimator._u = initial_input
+    row_iter = chain([first_row], row_iter)  # The first row is part of the data to be assimilated
 
     # Initialize the output arrays
     if output_states:
-- 
2.43.0


From 79b058f2ebe3fa91a5abe65ccc39c376301baf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 02/36] fix: combine both filters in DualEstimator.state

combine_with takes an iterable of distributions; passing the distribution
itself raised an AttributeError, for example when recording to HDF5.
---
 moirae/estimators/online/dual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/dual.py b/moirae/estimators/online/dual.py
index 1ab41d7..f42a32c 100644
--- a/moirae/estimators/online/dual.py
+++ b/moirae/estimators/online/dual.py
@@ -90,7 +90,7 @@ class DualEstimator(OnlineEstimator):
     def state(self) -> MultivariateRandomDistribution:
         # Get converted states
         transient_converted, asoh_converted = self._get_converted_states()
-        return transient_converted.combine_with(asoh_converted)
+        return transient_converted.combine_with((asoh_converted,))
 
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
         # Get converted states
-- 
2.43.0


From 7c071b76cf070d1c6c3e9093bf98a2006a3bcace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:13 +0000
Subject: [PATCH 03/36] fix: refuse to overwrite estimates before changing the
 file

HDF5Writer.prepare replaced the metadata of the group before noticing that it
already holds estimates, which made the existing estimates unreadable (e.g.,
with a different level of detail in the second session).
---
 moirae/interface/hdf5.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 1aa2fa3..85aa4aa 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -129,6 +129,11 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
         if not self.resizable and (expected_steps is None or expected_cycles is None):
             raise ValueError('Expected sizes must be provided if not writing in resizable mode')
 
+        # Refuse to replace existing estimates before changing anything in the file
+        for where in ['per_timestep', 'per_cycle']:
+            if where in self._group_handle:
+                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
+
         # Put the metadata in the attributes of the group
         self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
         self._group_handle.attrs['state_names'] = estimator.state_names
@@ -156,8 +161,6 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
             to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
 
             # Create datasets
-            if where in self._group_handle:
-                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
             my_group = self._group_handle.create_group(where)
             for key, value in to_insert.items():
                 if self.resizable:
-- 
2.43.0


From 0d70dbe2193cd06e4e53fe4deb82d725ae6d096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:13 +0000
Subject: [PATCH 04/36] fix: mark estimates as stored only once they are
 complete

append_step wrote the time, which marks a record as present, before the
estimates. A failure part way left a record with missing values that readers
return as data and, for the per-cycle estimates, was never written again.
---
 moirae/interface/hdf5.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 85aa4aa..e1eb4ce 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -200,10 +200,14 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
             if where == "per_cycle" and ind < my_group['time'].shape[0] and not np.isnan(my_group['time'][ind]):
                 continue
 
-            # Determine what to write
-            to_insert = {'time': np.array(time)}
-            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
+            # A time which is not NaN marks a complete record. Unset it if replacing a step that failed to be stored
+            if ind < my_group['time'].shape[0] and not np.isnan(my_group['time'][ind]):
+                my_group['time'][ind] = np.nan
+
+            # Determine what to write, with the time being last
+            to_insert = _convert_state_to_numpy_dict(state, what, 'state')
             to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
+            to_insert['time'] = np.array(time)
 
             # Write it
             for key, value in to_insert.items():
-- 
2.43.0


From 8fbc19047a749353b28560d4b258b1463cdca7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:13 +0000
Subject: [PATCH 05/36] fix: expand storage enough to hold the cycle being
 written

A cycle number more than one chunk past the end of the per-cycle estimates
failed with an IndexError even though the storage is resizable.
---
 moirae/interface/hdf5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index e1eb4ce..7c6432a 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -213,9 +213,9 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
             for key, value in to_insert.items():
                 my_dataset: h5py.Dataset = my_group[key]
 
-                # Expand by one chunk size if necessary
+                # Expand by one chunk size if necessary, or more if that is not enough
                 if my_dataset.shape[0] <= ind:
-                    my_dataset.resize(my_dataset.shape[0] + my_dataset.chunks[0], axis=0)
+                    my_dataset.resize(max(my_dataset.shape[0] + my_dataset.chunks[0], ind + 1), axis=0)
 
                 my_ind = (ind,) + (slice(None),) * value.ndim
                 my_dataset[my_ind] = value
-- 
2.43.0


From af5540022212a5cb71ffa59ecca9b3d9d9cc3056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:13 +0000
Subject: [PATCH 06/36] fix: read per-cycle estimates past cycles without data

Per-cycle estimates are stored by cycle number, so the first missing cycle
number (e.g., if counting from 1) was taken as the end of the data.
---
 moirae/interface/hdf5.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 7c6432a..82a9879 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -287,8 +287,10 @@ def read_state_estimates(data_path: Union[str, Path, h5py.Group],
             return values
 
         for i, time in enumerate(data_group['time']):
-            if np.isnan(time):  # NaN marks the end of the data
-                return
+            if np.isnan(time):  # NaN marks the end of the data, or a cycle without any timesteps
+                if per_timestep:
+                    return
+                continue
             # Unpack the dists
             state_values = _unpack(i, 'state_')
             state_dist = dist_type(**state_values)
-- 
2.43.0


From eb4e5f86af21c8d31e4a77db3029a7d8cae02337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:13 +0000
Subject: [PATCH 07/36] fix: close a file which does not contain state
 estimates

h5py raises a KeyError rather than a ValueError for a missing group, so the
file was left open.
---
 moirae/interface/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 82a9879..b7c4737 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -248,7 +248,7 @@ def read_state_estimates(data_path: Union[str, Path, h5py.Group],
         file = h5py.File(data_path, mode='r')
         try:
             se_group = file['state_estimates']
-        except ValueError:
+        except (KeyError, ValueError):
             file.close()
             raise
     else:
-- 
2.43.0


From ed3164d14934e2ef13db6f0a97b60600b6c74896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:13 +0000
Subject: [PATCH 08/36] fix: do not keep the HDF5 file open if the writer fails
 to start or stop

A failure to create the group when opening the writer left the file open, and
a failure to close it left the writer marked as ready.
---
 moirae/interface/hdf5.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index b7c4737..294f7a0 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -88,18 +88,21 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
             root = self._file_handle = h5py.File(self.hdf5_output, mode='a', **self.file_options)
         else:
             root = self.hdf5_output
-        if self.storage_key not in root:
-            root.create_group(self.storage_key)
-        self._group_handle = root.get(self.storage_key)
+        try:
+            if self.storage_key not in root:
+                root.create_group(self.storage_key)
+            self._group_handle = root.get(self.storage_key)
+        except BaseException:
+            self.__exit__(None, None, None)  # Will not be called by the `with` statement
+            raise
         self.position = 0  # TODO (wardlt): Support re-opening files for writing phase
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         """Close the file and stop being ready to write"""
-        if self._file_handle is not None:
-            self._file_handle.close()
-            self._file_handle = None
-        self._group_handle = None
+        file_handle, self._file_handle, self._group_handle = self._file_handle, None, None
+        if file_handle is not None:
+            file_handle.close()
 
     @property
     def is_ready(self) -> bool:
-- 
2.43.0


From d6a94c53677d017ce8e13ff1568587507f131699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:28 +0000
Subject: [PATCH 09/36] fix: record estimates for datasets without cycle
 numbers

cycle_number is optional when determining the number of cycles, but storing
the estimates failed with a KeyError if it was missing. Treat such datasets
(e.g., those from the Simulator) as being a single cycle.
---
 moirae/interface/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/__init__.py b/moirae/interface/__init__.py
index 9fb672b..3bac910 100644
--- a/moirae/interface/__init__.py
+++ b/moirae/interface/__init__.py
@@ -83,7 +83,7 @@ def run_online_estimate(
             raise ValueError('No time series data in the provided dataset')
 
         num_rows = dataset.raw_data.shape[0]
-        num_cycles = dataset.raw_data['cycle_number'].max() + 1 if 'cycle_number' in dataset.raw_data else 0
+        num_cycles = dataset.raw_data['cycle_number'].max() + 1 if 'cycle_number' in dataset.raw_data else 1
 
         def _row_iter(d):
             for _, r in d.iterrows():
@@ -139,7 +139,8 @@ def run_online_estimate(
 
             # Store estimates
             if hdf5_output is not None:
-                h5_writer.append_step(row['test_time'], row['cycle_number'], new_state, new_outputs)
+                cycle = row['cycle_number'] if 'cycle_number' in row else 0  # Treat as a single cycle if undefined
+                h5_writer.append_step(row['test_time'], cycle, new_state, new_outputs)
 
     # Compile the outputs into a dataframe
     output = None
-- 
2.43.0


From ba660c5f10f4adc4214b033ee0af687ddb6a2bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:51 +0000
Subject: [PATCH 10/36] fix: label the members of a batch correctly in
 Simulator.to_dataframe

The rows hold all members of the batch for each step, but were labelled as if
holding all steps for each member, so that to_batdata mixed the members.
---
 moirae/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/simulator.py b/moirae/simulator.py
index ac236c3..e3bdfc0 100644
--- a/moirae/simulator.py
+++ b/moirae/simulator.py
@@ -161,7 +161,7 @@ class Simulator:
             return pd.DataFrame(values, columns=params[0].all_names)
 
         # Make a dataframe of each component of the history
-        member = np.repeat(np.arange(batch_size), len(self.input_history))
+        member = np.tile(np.arange(batch_size), len(self.input_history))  # All members are listed for each step
         return pd.concat([
             pd.DataFrame({'batch': member}),
             _squish(self.input_history),
-- 
2.43.0


From 29801a0badb2d3f0e47f1119ddb7ddf8377becb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 11/36] fix: leave the Simulator unchanged if a step fails

A failure when computing the measurement or the degradation left the simulator
with the new transient state but the old measurement and no history. The state
and history were also shared with the objects returned to the caller.
---
 moirae/simulator.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/moirae/simulator.py b/moirae/simulator.py
index e3bdfc0..e5bfafd 100644
--- a/moirae/simulator.py
+++ b/moirae/simulator.py
@@ -94,30 +94,28 @@ class Simulator:
                                                           asoh=self.asoh,
                                                           previous_inputs=self.previous_input)
 
-        # Update internal
-        self.transient = new_transient
-        self.previous_input = new_inputs.model_copy(deep=True)
-
         # Get new measurement
-        new_measurement = self.model.calculate_terminal_voltage(new_inputs=self.previous_input,
-                                                                transient_state=self.transient,
+        new_measurement = self.model.calculate_terminal_voltage(new_inputs=new_inputs,
+                                                                transient_state=new_transient,
                                                                 asoh=self.asoh)
 
-        # Update measurement
-        self.measurement = new_measurement.model_copy(deep=True)
-
         # Degrade A-SOH
         new_asoh = self.degradation_model.update_asoh(previous_asoh=self.asoh,
                                                       new_inputs=new_inputs,
                                                       new_transients=new_transient,
                                                       new_measurements=new_measurement)
+
+        # Update internal only after all models succeed, using copies which are not shared with the caller
+        self.transient = new_transient.model_copy(deep=True)
+        self.previous_input = new_inputs.model_copy(deep=True)
+        self.measurement = new_measurement.model_copy(deep=True)
         self.asoh = new_asoh.model_copy(deep=True)
 
         if self.keep_history:
-            self.input_history.append(self.previous_input)
-            self.transient_history.append(new_transient)
-            self.asoh_history.append(new_asoh)
-            self.measurement_history.append(new_measurement)
+            self.input_history.append(self.previous_input.model_copy(deep=True))
+            self.transient_history.append(self.transient.model_copy(deep=True))
+            self.asoh_history.append(self.asoh.model_copy(deep=True))
+            self.measurement_history.append(self.measurement.model_copy(deep=True))
 
         return new_transient, new_measurement
 
-- 
2.43.0


From 1ba7394735525e03c2f80d165cc50ea9f867c6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 12/36] fix: leave the estimators unchanged if a step fails

If the second filter of DualEstimator failed, the first had already advanced
and processed the measurement again when retrying. Same if converting the
results of a step failed, in both estimators.
---
 moirae/estimators/online/dual.py         |  3 ++-
 moirae/estimators/online/filters/base.py | 28 +++++++++++++++++++++++-
 moirae/estimators/online/joint.py        |  3 ++-
 3 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/moirae/estimators/online/dual.py b/moirae/estimators/online/dual.py
index f42a32c..192dc9a 100644
--- a/moirae/estimators/online/dual.py
+++ b/moirae/estimators/online/dual.py
@@ -7,7 +7,7 @@ import numpy as np
 from moirae.models.base import InputQuantities, OutputQuantities, GeneralContainer, HealthVariable, CellModel
 from .utils.model import CellModelWrapper, DegradationModelWrapper, convert_vals_model_to_filter
 from moirae.estimators.online import OnlineEstimator
-from .filters.base import BaseFilter
+from .filters.base import BaseFilter, restore_on_failure
 from .filters.distributions import MultivariateRandomDistribution, MultivariateGaussian
 from .filters.kalman.unscented import UnscentedKalmanFilter as UKF
 from .filters.kalman.unscented import UKFTuningParameters
@@ -101,6 +101,7 @@ class DualEstimator(OnlineEstimator):
         estimated_asoh = self.asoh.make_copy(values=asoh_converted.get_mean())
         return estimated_transient, estimated_asoh
 
+    @restore_on_failure('trans_filter', 'asoh_filter')
     def step(self, inputs: InputQuantities, measurements: OutputQuantities) -> \
             Tuple[MultivariateRandomDistribution, MultivariateRandomDistribution]:
         # Refactor inputs and measurements to filter-lingo
diff --git a/moirae/estimators/online/filters/base.py b/moirae/estimators/online/filters/base.py
index 241f949..96ef628 100644
--- a/moirae/estimators/online/filters/base.py
+++ b/moirae/estimators/online/filters/base.py
@@ -1,6 +1,7 @@
 """ Base definitions for all filters """
 from abc import abstractmethod
-from typing import Tuple, TypedDict
+from functools import wraps
+from typing import Callable, Tuple, TypedDict
 from typing_extensions import NotRequired, Self
 
 import numpy as np
@@ -128,3 +129,28 @@ class BaseFilter:
             output_prediction: predicted output, which is what the filter predicted the 'measurements' argument to be
         """
         raise NotImplementedError('Please implement in child class!')
+
+
+def restore_on_failure(*filter_names: str) -> Callable:
+    """
+    Decorate a method such that, if it fails, the filters it uses are left in the state they had before the call
+
+    Args:
+        filter_names: Names of the attributes which hold the filters
+    """
+
+    def decorator(func: Callable) -> Callable:
+        @wraps(func)
+        def wrapper(self, *args, **kwargs):
+            filters = [getattr(self, name) for name in filter_names]
+            previous = [(f.hidden, f.controls) for f in filters]
+            try:
+                return func(self, *args, **kwargs)
+            except BaseException:
+                for f, (hidden, controls) in zip(filters, previous):
+                    f.hidden, f.controls = hidden, controls
+                raise
+
+        return wrapper
+
+    return decorator
diff --git a/moirae/estimators/online/joint.py b/moirae/estimators/online/joint.py
index 5614b83..2edb64d 100644
--- a/moirae/estimators/online/joint.py
+++ b/moirae/estimators/online/joint.py
@@ -8,7 +8,7 @@ from scipy.linalg import block_diag
 from moirae.models.base import InputQuantities, OutputQuantities, GeneralContainer, HealthVariable, CellModel
 from .utils.model import JointCellModelWrapper, convert_vals_model_to_filter
 from moirae.estimators.online import OnlineEstimator
-from .filters.base import BaseFilter
+from .filters.base import BaseFilter, restore_on_failure
 from .filters.distributions import MultivariateRandomDistribution, MultivariateGaussian
 from .filters.kalman.unscented import UnscentedKalmanFilter as UKF
 from .filters.kalman.unscented import UKFTuningParameters
@@ -50,6 +50,7 @@ class JointEstimator(OnlineEstimator):
             hidden_states=np.atleast_2d(joint_state.get_mean()))
         return estimated_transient, estimated_asoh
 
+    @restore_on_failure('filter')
     def step(self, inputs: InputQuantities, measurements: OutputQuantities) -> \
             Tuple[MultivariateRandomDistribution, MultivariateRandomDistribution]:
         # TODO (vventuri): convert this later to allow for uncertain input quantities
-- 
2.43.0


From e024634b4b03231dd32b650e9d29841822c5c3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 13/36] fix: support repeated timesteps in the ECM with a
 linear current

The slope of the current is not defined if no time has passed between two
inputs, which failed with an AssertionError from the hysteresis model.
---
 moirae/models/ecm/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 831022d..e944fc1 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -50,7 +50,9 @@ class EquivalentCircuitModel(CellModel):
         current_k = previous_inputs.current  # shape (current_batch, 1)
         temp_k = previous_inputs.temperature  # shape (temp_batch, 1)
         current_kp1 = new_inputs.current  # shape (current_batch, 1)
-        current_slope = np.atleast_2d(0.0) if self.current_behavior == 'constant' \
+        # Cannot define a slope if no time has passed (e.g., duplicate measurements)
+        current_behavior = 'constant' if np.all(delta_t == 0) else self.current_behavior
+        current_slope = np.atleast_2d(0.0) if current_behavior == 'constant' \
             else (current_kp1 - current_k) / delta_t  # shape (trans_batch, 1)
 
         # We will assume that all health parameters remain constant between time
@@ -108,7 +110,7 @@ class EquivalentCircuitModel(CellModel):
         kappa = (coul_eff * gamma) / Qt  # shape (asoh_batch, 1)
         # We need to figure out if the current changes sign during this process
 
-        if current_k * current_kp1 >= 0 or self.current_behavior == 'constant':
+        if current_k * current_kp1 >= 0 or current_behavior == 'constant':
             hyst_kp1 = hysteresis_solver_const_sign(h0=transient_state.hyst,
                                                     M=M,
                                                     kappa=kappa,
-- 
2.43.0


From d2a01369eedcb74f60b1b5ef00dbce364a4295f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 14/36] fix: do not count the change in current twice in the RC
 elements

With a linear current, the currents of the RC elements were computed as if the
ramp started from the new current, so that they depended on the size of the
timesteps: splitting a timestep in two gave a different result.
---
 moirae/models/ecm/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index e944fc1..e3df45e 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -92,7 +92,9 @@ class EquivalentCircuitModel(CellModel):
             assert len(tau.shape) == 2, f'RC time constant has shape {tau.shape}D, instead of 2D!'
             exp_factor = np.exp(-delta_t / tau)  # shape (batch_size, num_rc)
             iRC_kp1 = iRC_kp1 * exp_factor  # shape (batch_size, num_rc)
-            iRC_kp1 = iRC_kp1 + ((1 - exp_factor) * (current_kp1 - (current_slope * tau)))  # shape (batch_size, num_rc)
+            # The linear ramp, which is added below, starts from the previous current
+            current_rc = current_kp1 if current_behavior == 'constant' else current_k  # shape (current_batch, 1)
+            iRC_kp1 = iRC_kp1 + ((1 - exp_factor) * (current_rc - (current_slope * tau)))  # shape (batch_size, num_rc)
             iRC_kp1 = iRC_kp1 + (current_slope * delta_t)  # shape (batch_size, num_rc)
 
         # Update hysteresis
-- 
2.43.0


From 6cf0ee32ad3f9e3c75994caf3acd278418cddb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 15/36] fix: approach the correct hysteresis when the current
 ramps from rest

The maximum hysteresis was taken as zero for the whole timestep if its initial
current is zero, even if the current changes linearly to a new value.
---
 moirae/models/ecm/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index e3df45e..4633747 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -103,10 +103,9 @@ class EquivalentCircuitModel(CellModel):
         M = asoh.h0.get_value(soc=soc_k)  # shape (h0_batch, soc_batch, 1)
         # Recall that, if charging, than M has to be >0, but, if dischargin, it
         # has to be <0. The easiest way to check for that is to multiply by the
-        # current and divide by its absolute value
-        M = M * current_k  # shape (h0_batch, trans_batch, 1)
-        if not np.allclose(current_k, 0):
-            M = M / abs(current_k)  # shape (h0_batch, trans_batch, 1)
+        # sign of the current, which is that of the new one if ramping from rest
+        starts_at_rest = current_behavior != 'constant' and np.all(current_k == 0)
+        M = M * np.sign(current_kp1 if starts_at_rest else current_k)  # shape (h0_batch, trans_batch, 1)
 
         gamma = asoh.h0.gamma  # shape (h0_batch, 1)
         kappa = (coul_eff * gamma) / Qt  # shape (asoh_batch, 1)
-- 
2.43.0


From 4f78a25768c9cb66f14b8ae6fc49b824725d6dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 16/36] fix: compute hysteresis when the current ramps down to
 zero

The direction was derived from the current at the end of the interval, which is
zero (or off by round-off) if the current reaches zero or changes sign with a
linear current: the hysteresis of a charging cell then moved away from its
limit, or the assertion failed.
---
 moirae/models/ecm/utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index 94049dc..8f6100f 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -140,12 +140,11 @@ def hysteresis_solver_const_sign(
     h_dt: float
         Hysteresis value at the end of the time interval
     """
-    assert i0 * (i0 + (alpha * dt)) >= 0, 'Current flips sign in interval dt!!'
+    # Allow for round-off in intervals which end when the current reaches zero
+    assert np.all(i0 * (i0 + (alpha * dt)) >= -1e-9 * np.square(i0)), 'Current flips sign in interval dt!!'
     exp_factor = kappa * dt  # shape (broadcasted_batch_size, 1)
-    exp_factor = exp_factor * (i0 + (0.5 * alpha * dt))
-    # Now, flip the sign depending if current is positive in the interval
-    if i0 > -(alpha * dt):  # this indicates (i0 + alpha * t) > 0
-        exp_factor = -exp_factor
+    # Approach M regardless of the sign of the current, which is that of its average over the interval
+    exp_factor = -exp_factor * np.abs(i0 + (0.5 * alpha * dt))
     exp_factor = np.exp(exp_factor)
     h_dt = exp_factor * h0
     h_dt = h_dt + ((1 - exp_factor) * M)
-- 
2.43.0


From 8276734069a6bea48de3b0b2eee8cd75e287c279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 17/36] fix: evaluate the loss for a batch of parameters

Storage for the predictions had space for a single member of the batch, so
evaluating the loss of more than one set of parameters failed.
---
 moirae/estimators/offline/loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/offline/loss.py b/moirae/estimators/offline/loss.py
index 2036d32..04e14a0 100644
--- a/moirae/estimators/offline/loss.py
+++ b/moirae/estimators/offline/loss.py
@@ -87,7 +87,7 @@ class MeanSquaredLoss(BaseLoss):
 
         # Prepare the output arrays
         num_outs = len(initial_output)
-        pred_y = np.zeros((len(raw_data), 1, num_outs))
+        pred_y = np.zeros((len(raw_data), x.shape[0], num_outs))
         true_y = np.zeros((len(raw_data), x.shape[0], num_outs))
 
         true_y[0, :] = initial_output.to_numpy()
-- 
2.43.0


From 83fdd628bf94bf4146ff36fc7918c0e5a36763b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 18/36] fix: compute the nearest positive semi-definite matrix

np.linalg.svd returns the singular values as a vector, which has to be expanded
to a diagonal matrix. The result was neither symmetric nor close to the input.
---
 moirae/estimators/online/filters/kalman/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/filters/kalman/utils.py b/moirae/estimators/online/filters/kalman/utils.py
index 6b07c14..d77d09b 100644
--- a/moirae/estimators/online/filters/kalman/utils.py
+++ b/moirae/estimators/online/filters/kalman/utils.py
@@ -37,7 +37,7 @@ def enforce_positive_semi_defiteness(Sig: np.ndarray) -> np.ndarray:
     """
     # Perform singular value decomposition
     _, S_diagonal, V_complex_conjugate = np.linalg.svd(Sig)
-    H_matrix = np.matmul(V_complex_conjugate.T, np.matmul(S_diagonal, V_complex_conjugate))
+    H_matrix = np.matmul(V_complex_conjugate.T, np.matmul(np.diag(S_diagonal), V_complex_conjugate))
     return (Sig + Sig.T + H_matrix + H_matrix.T) / 4
 
 
-- 
2.43.0


From 02b0c948c2a336b89b15c9db8272ad87e1399a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 19/36] fix: do not share parameters between the caller and a
 running estimation

The model wrappers kept references to the health parameters, transient state
and inputs provided by the caller. Changing any of them, such as when preparing
a second estimator, altered the estimation already in progress.
---
 moirae/estimators/online/utils/model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/moirae/estimators/online/utils/model.py b/moirae/estimators/online/utils/model.py
index 634f924..b19a115 100644
--- a/moirae/estimators/online/utils/model.py
+++ b/moirae/estimators/online/utils/model.py
@@ -66,10 +66,11 @@ class BaseCellWrapper(ModelWrapper):
         if transients.batch_size > 1:
             raise ValueError(f'The batch size of the transient state must be 1. Found: {transients.batch_size}')
 
-        self.transients = transients
+        # Use copies so that later changes by the caller do not alter a running estimation
+        self.transients = transients.model_copy(deep=True)
         self.cell_model = cell_model
-        self.asoh = asoh
-        self.inputs = inputs
+        self.asoh = asoh.model_copy(deep=True)
+        self.inputs = inputs.model_copy(deep=True)
 
         # Capture the shape of the outputs
         self._num_output_dimensions = self.cell_model.calculate_terminal_voltage(new_inputs=self.inputs,
-- 
2.43.0


From 27ea2fdc4a2ec7209296f8634781d7f566e8f631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 20/36] fix: load interpolated health parameters saved after
 being used

The SOC pinpoints are filled in when first interpolating and were saved to
JSON, but could not be read back. The initial_asoh stored along with the
estimates could thus not be loaded.
---
 moirae/models/ecm/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index 8f6100f..b2cc0c5 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -2,7 +2,7 @@ from typing import List, Optional, Union, Literal, Callable, Iterator
 from numbers import Number
 
 import numpy as np
-from pydantic import Field, field_serializer
+from pydantic import Field, field_serializer, field_validator
 from scipy.interpolate import interp1d
 
 from moirae.models.base import HealthVariable, ListParameter
@@ -18,6 +18,11 @@ class SOCInterpolatedHealth(HealthVariable):
                                  'quadratic', 'cubic', 'previous', 'next'] = \
         Field(default='linear', description='Type of interpolation to perform')
 
+    @field_validator('soc_pinpoints', mode='before')
+    @classmethod
+    def _validate_numpy(cls, value):
+        return np.array(value) if isinstance(value, list) else value  # As when reading from JSON
+
     @field_serializer('soc_pinpoints', when_used='json-unless-none')
     def _serialize_numpy(self, value: np.ndarray):
         return value.tolist()
-- 
2.43.0


From c79aae4648ded39d58d417c2bcc32043718f48c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:08 +0000
Subject: [PATCH 21/36] fix: estimate a subset of the updatable parameters with
 DualEstimator

The parameters estimated were assumed to be all those marked as updatable,
ignoring the names given to the wrapper, which failed for a subset.
---
 moirae/estimators/online/dual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/estimators/online/dual.py b/moirae/estimators/online/dual.py
index 192dc9a..8ed539a 100644
--- a/moirae/estimators/online/dual.py
+++ b/moirae/estimators/online/dual.py
@@ -98,7 +98,7 @@ class DualEstimator(OnlineEstimator):
 
         # Translate to model object
         estimated_transient = self.transients.make_copy(values=transient_converted.get_mean())
-        estimated_asoh = self.asoh.make_copy(values=asoh_converted.get_mean())
+        estimated_asoh = self.asoh.make_copy(values=asoh_converted.get_mean(), names=self._updatable_names)
         return estimated_transient, estimated_asoh
 
     @restore_on_failure('trans_filter', 'asoh_filter')
-- 
2.43.0


From c70f0feca895f90e46f4894500e7a3810bcef927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 22/36] fix: provide JointEstimator.state in the coordinates of
 the model

With a conversion operator (e.g., normalize_asoh), the state was given in the
coordinates of the filter, unlike the state returned by step and that of the
DualEstimator.
---
 moirae/estimators/online/joint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/estimators/online/joint.py b/moirae/estimators/online/joint.py
index 2edb64d..1f93833 100644
--- a/moirae/estimators/online/joint.py
+++ b/moirae/estimators/online/joint.py
@@ -42,10 +42,10 @@ class JointEstimator(OnlineEstimator):
 
     @property
     def state(self) -> MultivariateRandomDistribution:
-        return self.filter.hidden.model_copy(deep=True)
+        return self.filter.hidden.convert(conversion_operator=self.joint_model.hidden_conversion)
 
     def get_estimated_state(self) -> Tuple[GeneralContainer, HealthVariable]:
-        joint_state = self.state
+        joint_state = self.filter.hidden  # In the coordinates of the filter, which are used by the wrapper
         estimated_asoh, estimated_transient = self.joint_model.create_cell_model_inputs(
             hidden_states=np.atleast_2d(joint_state.get_mean()))
         return estimated_transient, estimated_asoh
-- 
2.43.0


From 10e0397453e4bd4c9b0297dc6cfeddcee1ee7a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 23/36] fix: refuse to record over an object which is not a
 group

---
 moirae/interface/hdf5.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/moirae/interface/hdf5.py b/moirae/interface/hdf5.py
index 294f7a0..3fb3b4c 100644
--- a/moirae/interface/hdf5.py
+++ b/moirae/interface/hdf5.py
@@ -89,9 +89,7 @@ class HDF5Writer(BaseModel, AbstractContextManager, arbitrary_types_allowed=True
         else:
             root = self.hdf5_output
         try:
-            if self.storage_key not in root:
-                root.create_group(self.storage_key)
-            self._group_handle = root.get(self.storage_key)
+            self._group_handle = root.require_group(self.storage_key)  # Fails if another type of object
         except BaseException:
             self.__exit__(None, None, None)  # Will not be called by the `with` statement
             raise
-- 
2.43.0


From 27334e77bdebce7e2750d9b45309697af87ff6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 24/36] fix: support batches of parameters for only some of the
 RC elements

---
 moirae/models/ecm/__init__.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/moirae/models/ecm/__init__.py b/moirae/models/ecm/__init__.py
index 4633747..a610175 100644
--- a/moirae/models/ecm/__init__.py
+++ b/moirae/models/ecm/__init__.py
@@ -77,8 +77,9 @@ class EquivalentCircuitModel(CellModel):
         # Update i_RCs
         iRC_kp1 = transient_state.i_rc.copy()  # Shape: (trans_batch_size, num_rc)
         if iRC_kp1.shape[1] > 0:  # If there are RC elements
-            tau = np.array([RC.time_constant(soc=soc_k, temp=temp_k)
-                            for RC in asoh.rc_elements])  # Shape: (num_rc, rc_batch, soc_batch, soc_dim=1)
+            tau = np.array(np.broadcast_arrays(
+                *[RC.time_constant(soc=soc_k, temp=temp_k) for RC in asoh.rc_elements]
+            ))  # Shape: (num_rc, rc_batch, soc_batch, soc_dim=1)
             assert len(tau.shape) == 4, f'RC time constant has shape {tau.shape}D, instead of 4D!'
             # NOTE: we already assume that the A-SOH batch and transient batch are broadcastable!
             if tau.shape[1] == tau.shape[2]:
@@ -182,11 +183,11 @@ class EquivalentCircuitModel(CellModel):
 
         # Check RC elements
         if transient_state.i_rc.shape[-1] > 0:
-            rc_rs = np.array(
-                [rc.r.get_value(soc=transient_state.soc,
-                                temp=new_inputs.temperature)
-                 for rc in asoh.rc_elements]
-            )  # Shape: (num_rc, rc.r_batch, soc_batch, soc_dim=1)
+            rc_rs = np.array(np.broadcast_arrays(
+                *[rc.r.get_value(soc=transient_state.soc,
+                                 temp=new_inputs.temperature)
+                  for rc in asoh.rc_elements]
+            ))  # Shape: (num_rc, rc.r_batch, soc_batch, soc_dim=1)
             # Transpose to get shape of (rc.r_batch, num_rc, soc_batch, soc_dim=1)
             rc_rs = np.swapaxes(rc_rs, axis1=0, axis2=1)
             # Get currents through resistors in RC
-- 
2.43.0


From 581a8ddd82fc0fa33117ad9888eba2b11230d9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 25/36] fix: keep singular covariances usable by the Kalman
 filters

---
 .../estimators/online/filters/kalman/utils.py | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/moirae/estimators/online/filters/kalman/utils.py b/moirae/estimators/online/filters/kalman/utils.py
index d77d09b..b7bbaa7 100644
--- a/moirae/estimators/online/filters/kalman/utils.py
+++ b/moirae/estimators/online/filters/kalman/utils.py
@@ -13,15 +13,25 @@ def ensure_positive_semi_definite(Sig: np.ndarray) -> np.ndarray:
     Returns:
         "Closest" (most similar) positive semi-definite matrix
     """
-    if np.allclose(Sig, Sig.T):  # checking if it is symmetric
+    # Remove asymmetries due to round-off, the closest matrix is the same without them
+    Sig = (Sig + Sig.T) / 2
+    try:
+        # checking for positive semi-definiteness
+        np.linalg.cholesky(Sig)  # throws LinAlgError if not
+        return Sig
+    except np.linalg.LinAlgError:
+        nearest = enforce_positive_semi_defiteness(Sig)
+
+    # The nearest matrix is singular, so round-off can leave eigenvalues slightly below zero. Shift them if needed
+    shift = np.spacing(np.linalg.norm(nearest))
+    for _ in range(8):
         try:
-            # checking for positive semi-definiteness
-            np.linalg.cholesky(Sig)  # throws LinAlgError if not
-            return Sig.copy()
+            np.linalg.cholesky(nearest)
+            break
         except np.linalg.LinAlgError:
-            return enforce_positive_semi_defiteness(Sig).copy()
-    else:
-        return enforce_positive_semi_defiteness(Sig).copy()
+            nearest = nearest + shift * np.eye(len(nearest))
+            shift *= 10
+    return nearest
 
 
 def enforce_positive_semi_defiteness(Sig: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 4331339d5dfc82616d092cc82f630f70b7f5c8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 26/36] fix: support batches of any health parameter in the
 circuit components

---
 moirae/models/ecm/components.py | 6 +++---
 moirae/models/ecm/utils.py      | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index 5c8552f..e8885aa 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -61,9 +61,9 @@ class Resistance(SOCInterpolatedHealth):
         reference_value = super().get_value(soc)
 
         # Correct for temperature dependence
-        if temp is None or self.temperature_dependence_factor == 0:
+        if temp is None or np.all(self.temperature_dependence_factor == 0):
             return reference_value
-        gamma = self.temperature_dependence_factor
+        gamma = np.atleast_2d(self.temperature_dependence_factor)[:, :, None]  # shape (internal_batch, 1, 1)
         deltaT = np.array(temp) - self.reference_temperature
         new_value = reference_value * np.exp(- gamma * deltaT)
         return new_value
@@ -137,7 +137,7 @@ class OpenCircuitVoltage(HealthVariable):
         if temp is not None:
             T_ref = self.ocv_ref.reference_temperature
             delta_T = temp - T_ref
-            ocv += delta_T * self.ocv_ent.get_value(soc=soc)
+            ocv = ocv + (delta_T * self.ocv_ent.get_value(soc=soc))  # Either could be batched
         return ocv
 
     def __call__(self,
diff --git a/moirae/models/ecm/utils.py b/moirae/models/ecm/utils.py
index b2cc0c5..41cf9da 100644
--- a/moirae/models/ecm/utils.py
+++ b/moirae/models/ecm/utils.py
@@ -75,7 +75,7 @@ class SOCInterpolatedHealth(HealthVariable):
         if len(soc_shape) == 2:
             soc_batch_size = soc.shape[0]
             soc_dim = soc.shape[1]
-        internal_batch_size = self.batch_size
+        internal_batch_size = self.base_values.shape[0]  # Other parameters, such as rates, may be batched
 
         # Special case: no interpolation
         if self.base_values.shape[-1] == 1:
-- 
2.43.0


From ccee999e368e26b37bfac6d1692d4682eaef456c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 27/36] fix: list all members of a batch in
 Simulator.to_dataframe if their outputs are equal

---
 moirae/simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moirae/simulator.py b/moirae/simulator.py
index e5bfafd..3199039 100644
--- a/moirae/simulator.py
+++ b/moirae/simulator.py
@@ -149,7 +149,8 @@ class Simulator:
         if not self.keep_history:
             raise ValueError('History was not stored. Set keep_history=True')
 
-        batch_size = self.measurement.batch_size
+        # The outputs may not (yet) differ between the members of the batch
+        batch_size = max(x.batch_size for x in (self.asoh, self.transient, self.measurement))
 
         def _squish(params: List[GeneralContainer]) -> pd.DataFrame:
             values = np.concatenate([
-- 
2.43.0


From 6230fa1124bbebb123a3fa99df203958d2157c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:15 +0000
Subject: [PATCH 28/36] fix: accept batches of hysteresis rates

---
 moirae/models/ecm/components.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index e8885aa..ec73b20 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -1,7 +1,7 @@
 """Models for the components of circuits"""
 from typing import List, Optional, Union
 
-from pydantic import Field
+from pydantic import Field, field_validator
 import numpy as np
 
 from moirae.models.base import HealthVariable, ListParameter, ScalarParameter
@@ -155,5 +155,11 @@ class HysteresisParameters(SOCInterpolatedHealth):
         Field(
             description='Values of maximum hysteresis at specified SOCs. Units: V')
     gamma: ScalarParameter = Field(default=0.,
-                                   description='Exponential approach rate. Units: 1/V',
-                                   ge=0.)
+                                   description='Exponential approach rate. Units: 1/V')
+
+    @field_validator('gamma')
+    @classmethod
+    def check_gamma(cls, value: np.ndarray) -> np.ndarray:
+        if not np.all(value >= 0.):
+            raise ValueError('Input should be greater than or equal to 0')
+        return value
-- 
2.43.0


From da62112b41321f7123d66ce825fcbe910c9d5527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 29/36] fix: update batches of health parameters by name

---
 moirae/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/base.py b/moirae/models/base.py
index 5f9ac1f..719a427 100644
--- a/moirae/models/base.py
+++ b/moirae/models/base.py
@@ -395,7 +395,7 @@ class HealthVariable(BaseModel, arbitrary_types_allowed=True):
             model = models[-1]
             attr = my_names[-1]
             cur_value = getattr(model, attr)
-            num_params = np.size(cur_value)
+            num_params = np.atleast_1d(cur_value).shape[-1]
 
             # Get the parameters to use
             end = pos + num_params
-- 
2.43.0


From e4355c369c17f1f67d0d433d90c712e9f758306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 30/36] fix: a refused update of health parameters changes none
 of them

---
 moirae/models/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/moirae/models/base.py b/moirae/models/base.py
index 719a427..f8242bb 100644
--- a/moirae/models/base.py
+++ b/moirae/models/base.py
@@ -379,6 +379,7 @@ class HealthVariable(BaseModel, arbitrary_types_allowed=True):
             names = list(k for k, v in self.iter_parameters())
 
         end = pos = 0
+        updates = []  # Applied once known to be valid, so that a refused update changes nothing
         for name in names:
             # Get the associated model, and which attribute to set
             my_names, models = self._get_model_chain(name)
@@ -401,8 +402,7 @@ class HealthVariable(BaseModel, arbitrary_types_allowed=True):
             end = pos + num_params
             if pos + num_params > values.shape[-1]:
                 raise ValueError(f'Required at least {end} values, but only provided {len(values)}')
-            new_value = values[:, pos:end]
-            setattr(model, attr, new_value)
+            updates.append((model, attr, values[:, pos:end]))
 
             # Increment the starting point for the next parameter
             pos = end
@@ -411,6 +411,9 @@ class HealthVariable(BaseModel, arbitrary_types_allowed=True):
         if end != values.shape[-1]:
             raise ValueError(f'Did not use all parameters. Provided {len(values)}, used {end}')
 
+        for model, attr, new_value in updates:
+            setattr(model, attr, new_value)
+
     def make_copy(self, values: np.ndarray, names: Optional[Sequence[str]] = None) -> Self:
         """
         Create a copy of the current object with values specified by numpy.ndarray
-- 
2.43.0


From 1b998dc4c8c0f8b20eea953ae5fd2a0af06a03f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 31/36] fix: do not share the array passed to
 GeneralContainer.from_numpy

---
 moirae/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/base.py b/moirae/models/base.py
index f8242bb..70c1455 100644
--- a/moirae/models/base.py
+++ b/moirae/models/base.py
@@ -535,7 +535,7 @@ class GeneralContainer(BaseModel,
             field_len = current_field.shape[-1]
 
             end_index = begin_index + field_len
-            new_field_values = values[:, begin_index:end_index]
+            new_field_values = values[:, begin_index:end_index].copy()  # Not shared with the caller
             setattr(self, field_name, new_field_values)
             begin_index = end_index
 
-- 
2.43.0


From 3a99caf891338ad34e3b845bd79dc350805cd3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:39 +0000
Subject: [PATCH 32/36] fix: dual estimation of parameters which do not affect
 the voltage of a step failed

---
 moirae/estimators/online/utils/model.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/moirae/estimators/online/utils/model.py b/moirae/estimators/online/utils/model.py
index b19a115..085e6e6 100644
--- a/moirae/estimators/online/utils/model.py
+++ b/moirae/estimators/online/utils/model.py
@@ -257,10 +257,14 @@ class DegradationModelWrapper(BaseCellWrapper):
         # Finally, compute outputs
         outputs = self.cell_model.calculate_terminal_voltage(new_inputs=inputs,
                                                              transient_state=propagated_transients,
-                                                             asoh=asoh)
+                                                             asoh=asoh).to_numpy()
+
+        # Every A-SOH has an output, even if none of the estimated parameters affects it (e.g., the Coulombic efficiency
+        # during discharge)
+        outputs = np.broadcast_to(outputs, (hidden_states.shape[0], outputs.shape[1])).copy()
 
         # Convert outpus to filter lingo
-        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs.to_numpy())
+        outputs = self.output_conversion.inverse_transform_samples(transformed_samples=outputs)
         return outputs
 
 
-- 
2.43.0


From 43d306caa7059e5f0e2bd0375b40fc5decf0fadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:47 +0000
Subject: [PATCH 33/36] fix: the columns of standard deviations held variances

---
 moirae/interface/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moirae/interface/__init__.py b/moirae/interface/__init__.py
index 3bac910..dbbb113 100644
--- a/moirae/interface/__init__.py
+++ b/moirae/interface/__init__.py
@@ -133,9 +133,9 @@ def run_online_estimate(
 
             if output_states:
                 state_mean[i, :] = new_state.get_mean()
-                state_std[i, :] = np.diag(new_state.get_covariance())
+                state_std[i, :] = np.sqrt(np.diag(new_state.get_covariance()))
                 output_mean[i, :] = new_outputs.get_mean()
-                output_std[i, :] = np.diag(new_outputs.get_covariance())
+                output_std[i, :] = np.sqrt(np.diag(new_outputs.get_covariance()))
 
             # Store estimates
             if hdf5_output is not None:
-- 
2.43.0


From eb57076d27ae99b142bcec6ee53f484bfb80b28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:19 +0000
Subject: [PATCH 34/36] fix: do not share the default parameters between the RC
 elements of a template

---
 moirae/models/ecm/advancedSOH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/ecm/advancedSOH.py b/moirae/models/ecm/advancedSOH.py
index 657b339..4932aad 100644
--- a/moirae/models/ecm/advancedSOH.py
+++ b/moirae/models/ecm/advancedSOH.py
@@ -113,7 +113,7 @@ class ECMASOH(HealthVariable):
                 RC_R = Resistance(base_values=0.01,
                                   temperature_dependence_factor=0.0025)
                 RC_C = Capacitance(base_values=2500)
-                RCcomps = tuple(RCComponent(r=RC_R, c=RC_C).model_copy()
+                RCcomps = tuple(RCComponent(r=RC_R, c=RC_C).model_copy(deep=True)
                                 for _ in range(num_RC))
             else:
                 if len(RC) != num_RC:
-- 
2.43.0


From 5face39c4cb1afa506405af9129fbbb9a34543b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:49 +0000
Subject: [PATCH 35/36] fix: keep the capacity usable after setting it in
 Amp-seconds

---
 moirae/models/ecm/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moirae/models/ecm/components.py b/moirae/models/ecm/components.py
index ec73b20..9e1b0ba 100644
--- a/moirae/models/ecm/components.py
+++ b/moirae/models/ecm/components.py
@@ -25,7 +25,7 @@ class MaxTheoreticalCapacity(HealthVariable):
         """
         Sets the capacity based on specified value in Amp-seconds
         """
-        self.base_values = amp_seconds / 3600.
+        self.set_value('base_values', amp_seconds / 3600.)
 
     @property
     def amp_hour(self) -> float:
-- 
2.43.0


From ca42a40d3d926f13b70c7fd5d58205da1b38d216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:07 +0000
Subject: [PATCH 36/36] fix: compute the theoretical energy of each member of a
 batch of reference temperatures

---
 moirae/models/ecm/advancedSOH.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/moirae/models/ecm/advancedSOH.py b/moirae/models/ecm/advancedSOH.py
index 4932aad..05a2dc9 100644
--- a/moirae/models/ecm/advancedSOH.py
+++ b/moirae/models/ecm/advancedSOH.py
@@ -47,11 +47,13 @@ class ECMASOH(HealthVariable):
         # Get SOC values to be used in the integration
         soc_vals = np.linspace(min(soc_limits), max(soc_limits), 100)
         # Get corresponding OCV
-        ocv_vals = self.ocv(soc=soc_vals, temp=temperature)  # shape (ocv_batch, 1, soc_dim)
+        ocv_vals = self.ocv(soc=soc_vals, temp=temperature)  # shape (ocv_batch, ref_temp_batch, soc_dim)
         # Integrate
         energy = trapezoid(y=ocv_vals, x=soc_vals, axis=-1)  # integrate over the last axis, corresponding to soc_dim
+        if energy.shape[0] == energy.shape[1]:  # Values of the OCV and its reference temperature for the same members
+            energy = np.diagonal(energy)
         # Now, multiply by the charge
-        return energy * self.q_t.amp_hour  # shape (asoh_batch, 1)
+        return energy.reshape((-1, 1)) * self.q_t.amp_hour  # shape (asoh_batch, 1)
 
     @classmethod
     def provide_template(
-- 
2.43.0

