From cde617520dc6cc01c154a0c434cd243a316efcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 01/42] fix: keep beam voltage and current when moving controls
 to the material frame

---
 putting_dune/simulator.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/putting_dune/simulator.py b/putting_dune/simulator.py
index 26618ea..1025bde 100644
--- a/putting_dune/simulator.py
+++ b/putting_dune/simulator.py
@@ -134,11 +134,8 @@ class PuttingDuneSimulator:
     for control in controls:
       # Convert the control from the microscope frame to material frame.
       # TODO(joshgreaves): Control clipping to [0, 1]?
-      control_position = self._fov.microscope_frame_to_material_frame(
-          control.position
-      )
       control = microscope_utils.BeamControlMaterialFrame(
-          microscope_utils.BeamControl(control_position, control.dwell_time)
+          self._fov.microscope_frame_to_material_frame(control)
       )
 
       for observer in self._observers:
-- 
2.43.0


From c7fc06badecd9bcfa00a7c0c4f9573c71e8de3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 02/42] fix: serialize transition label images independently of
 the raw images

---
 putting_dune/microscope_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index 0930f2f..f20ac76 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -701,12 +701,12 @@ class Transition(ProtoModel[putting_dune_pb2.Transition]):
 
     label_image_before = (
         tf.make_tensor_proto(self.label_image_before)
-        if self.image_before is not None
+        if self.label_image_before is not None
         else None
     )
     label_image_after = (
         tf.make_tensor_proto(self.label_image_after)
-        if self.image_after is not None
+        if self.label_image_after is not None
         else None
     )
 
-- 
2.43.0


From dfab2ed065b4d04302a31772101c28c1c767100a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 03/42] fix: keep the fractional part of a drift when reading
 it from its proto

---
 putting_dune/microscope_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index f20ac76..d4d4070 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -812,7 +812,7 @@ class Drift(ProtoModel[putting_dune_pb2.Drift]):
     num_atoms = len(proto_drift.jitter)
 
     jitter = np.empty((num_atoms, 2), dtype=np.float32)
-    drift = np.empty(2, dtype=np.int32)
+    drift = np.empty(2, dtype=np.float32)
 
     for i, atom in enumerate(proto_drift.jitter):
       jitter[i, 0] = atom.x
-- 
2.43.0


From 39eafddb2884afda14b9c5b6ecbb54d6a1611277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 04/42] fix: log the agent's own goal evaluation instead of
 evaluating the goal a second time

---
 putting_dune/microscope_agent.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index 69e07bb..9ef4045 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -48,6 +48,11 @@ class MicroscopeAgent:
     self.feature_constructor = adapters_and_goal.feature_constructor
     self.goal = adapters_and_goal.goal
     self._is_first_step = True
+    # The goal evaluation of the last step, for logging. Evaluating the goal
+    # again would advance its state a second time.
+    self.last_goal_return = goals.GoalReturn(
+        reward=0.0, is_terminal=False, is_truncated=False
+    )
 
   def reset(
       self,
@@ -73,6 +78,9 @@ class MicroscopeAgent:
       # TODO(joshgreaves): This is desirable for now, but we will need to
       # rethink it in the future.
       # If we couldn't find a silicon, rescan.
+      self.last_goal_return = goals.GoalReturn(
+          reward=0.0, is_terminal=False, is_truncated=False
+      )
       return [
           microscope_utils.BeamControlMicroscopeFrame(
               microscope_utils.BeamControl(
@@ -82,6 +90,8 @@ class MicroscopeAgent:
           )
       ]
 
+    self.last_goal_return = goal_return
+
     elapsed_seconds = observation.elapsed_time.total_seconds()
     discount = constants.GAMMA_PER_SECOND**elapsed_seconds
 
@@ -243,9 +253,7 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       observation: microscope_utils.MicroscopeObservation,
   ) -> List[microscope_utils.BeamControlMicroscopeFrame]:
     beam_control = self.__wrapped__.step(observation)
-    goal_return = self.__wrapped__.goal.calculate_reward_and_terminal(
-        observation
-    )
+    goal_return = self.__wrapped__.last_goal_return
     self._episode_step += 1
     self._episode_return += goal_return.reward
 
-- 
2.43.0


From 04af4643ecc5d641634db5ef8afbc3831de96f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 05/42] fix: number a finished episode's record like its steps

---
 putting_dune/microscope_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index 9ef4045..21a0d6c 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -235,8 +235,8 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       observation: microscope_utils.MicroscopeObservation,
   ) -> None:
     if self._episode_step > 0:
-      self._episode += 1
       self._episode_records.append(self._make_episode_record())
+      self._episode += 1
     if self._current_trajectory:
       self._trajectories.append(
           microscope_utils.Trajectory(self._current_trajectory)
-- 
2.43.0


From e860b6b23e4ae24ada5db334e56e41f96c2c2a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 06/42] fix: flushing the agent log does not duplicate the
 episode in progress

---
 putting_dune/microscope_agent.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index 21a0d6c..8b36744 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -198,17 +198,19 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       self.flush()
 
   def flush(self) -> None:
+    # Include the episode in progress without recording it as finished, since
+    # it may continue after this flush.
+    trajectories = list(self._trajectories)
+    episode_records = list(self._episode_records)
     if self._current_trajectory:
-      self._trajectories.append(
-          microscope_utils.Trajectory(self._current_trajectory)
-      )
+      trajectories.append(microscope_utils.Trajectory(self._current_trajectory))
     if self._episode_step != 0:
-      self._episode_records.append(self._make_episode_record())
+      episode_records.append(self._make_episode_record())
 
     # Write the records
     pdio.write_records(
         self._logdir / 'trajectories.tfrecords',
-        self._trajectories,
+        trajectories,
     )
 
     # Write steps
@@ -226,7 +228,7 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
           fp, fieldnames=typing.get_type_hints(EpisodeRecord).keys()
       )
       writer.writeheader()
-      for record in self._episode_records:
+      for record in episode_records:
         writer.writerow(record)
 
   def reset(
-- 
2.43.0


From 52ebeea1e1dd48229a682a86fa2921513230d3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 07/42] fix: report a missing silicon from image features as
 SiliconNotFoundError

The goal delta reshaped an empty selection, so the microscope agent crashed
with a ValueError instead of rescanning.
---
 putting_dune/feature_constructors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/feature_constructors.py b/putting_dune/feature_constructors.py
index 410f980..cf07d39 100644
--- a/putting_dune/feature_constructors.py
+++ b/putting_dune/feature_constructors.py
@@ -66,7 +66,7 @@ def _get_silicon_goal_delta(
     goal: goals.SingleSiliconGoalReaching,
 ) -> np.ndarray:
   """Gets the delta from the current silicon position to goal in angstroms."""
-  silicon_position = graphene.get_silicon_positions(grid).reshape(2)
+  silicon_position = graphene.get_single_silicon_position(grid).reshape(2)
   silicon_position_material_frame = fov.microscope_frame_to_material_frame(
       silicon_position
   )
-- 
2.43.0


From 09eaa255a3e542c70fe663c33cd193c37d058032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:10 +0000
Subject: [PATCH 08/42] fix: allocate the grid mask as (height, width), the
 shape of its pixel grid

---
 putting_dune/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/imaging.py b/putting_dune/imaging.py
index 12874d2..fbcd991 100644
--- a/putting_dune/imaging.py
+++ b/putting_dune/imaging.py
@@ -98,7 +98,7 @@ def generate_grid_mask(
   # We need to work with a grid in the material frame to work out distances
   # in angstroms.
   material_grid = fov.microscope_frame_to_material_frame(grid)
-  mask = np.zeros(image_dimensions, dtype=np.uint8)
+  mask = np.zeros((height, width), dtype=np.uint8)
 
   for pos, atomic_number in zip(
       material_grid.atom_positions, material_grid.atomic_numbers
-- 
2.43.0


From 84a59120a8f5eb47d074c11188f2fdb4f51c75c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:10 +0000
Subject: [PATCH 09/42] fix: blur a non-square field of view with each axis's
 own scale

---
 putting_dune/imaging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/imaging.py b/putting_dune/imaging.py
index fbcd991..106b9a5 100644
--- a/putting_dune/imaging.py
+++ b/putting_dune/imaging.py
@@ -158,7 +158,8 @@ def generate_clean_image(
   # For example, at 512 pixels with 20 angstrom FOV => sigma = 12
   # => sigma = 200 / FOV ~= image_size / (2 * FOV)
   # Empirically, this looks about right.
-  sigma = (image_size / (2.15 * fov_width), image_size / (2.15 * fov_height))
+  # The image's rows span the FOV's height, and its columns the FOV's width.
+  sigma = (image_size / (2.15 * fov_height), image_size / (2.15 * fov_width))
 
   image = ndimage.gaussian_filter(image, sigma, mode='constant')
 
-- 
2.43.0


From 6d2d1ed6f24619433a8d2c50f8ce62335e8cbd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 10/42] fix: keep the label image when applying a drift to an
 observation

---
 putting_dune/microscope_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index d4d4070..d7b8177 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -803,6 +803,7 @@ class Drift(ProtoModel[putting_dune_pb2.Drift]):
         controls=observation.controls,
         elapsed_time=observation.elapsed_time,
         image=observation.image,
+        label_image=observation.label_image,
     )
     return shifted_observation
 
-- 
2.43.0


From 1cf6bfe5eb51f4dac2d4269656a15a1ce76c03e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 11/42] fix: naive_merge does not write into the first
 coordinate array

---
 putting_dune/alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 2caa0e0..f6cdb3c 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -801,7 +801,7 @@ def naive_merge(
       mapped to each merged point.
   """
   coordinates = [c for c in coordinates if c.shape[0]]
-  positions = coordinates[0]
+  positions = coordinates[0].copy()
   counts = np.ones(coordinates[0].shape[:1])
 
   for m in coordinates[1:]:
-- 
2.43.0


From ed793816592bb469187da354dc39c7ff4836fc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 12/42] fix: align_latest does not write into its initial shift

---
 putting_dune/alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index f6cdb3c..d94d222 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -121,7 +121,7 @@ def align_latest(
   if init_shift is None:
     cumulative_drift = np.zeros(new_coordinates.shape[-1])
   else:
-    cumulative_drift = init_shift
+    cumulative_drift = init_shift.copy()
   noise_scales = np.linspace(noise_scale, 0, num=iterations)
   class_masks = [new_classes == i for i in set(new_classes)]
   reference_class_masks = [reference_classes == i for i in set(new_classes)]
-- 
2.43.0


From abb6c3dd5f795111f02a8c7e2a56c34d25295ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 13/42] fix: propagate_atomic_numbers does not write into the
 caller's array

---
 putting_dune/alignment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index d94d222..0d10ab1 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -777,6 +777,8 @@ def propagate_atomic_numbers(
         merged_atom_positions.shape[0], dtype=original_atomic_numbers.dtype
     )
     new_atomic_numbers.fill(default_atomic_number)
+  else:
+    new_atomic_numbers = new_atomic_numbers.copy()
 
   new_atomic_numbers[closest_neighbors] = original_atomic_numbers[
       original_atoms
-- 
2.43.0


From cd374348ecd9b6696063beabcb3478ec57978a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 14/42] fix: propagate_graphene_classes does not write into the
 caller's labels

---
 putting_dune/alignment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 0d10ab1..16db6a6 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -922,6 +922,7 @@ def propagate_graphene_classes(
   degrees = neighbor_mask.sum(-1)
 
   classified = degrees >= 3
+  classes = classes.copy()
 
   frontiers = np.zeros(classified.shape)
   i = 0
-- 
2.43.0


From 9e5e33df4f03fc5d90522dc12f7efa05c4755353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 15/42] fix: rotate the human-prior rate peak towards each
 neighbour, not its mirror image

---
 putting_dune/graphene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/graphene.py b/putting_dune/graphene.py
index 746c636..1d90afc 100644
--- a/putting_dune/graphene.py
+++ b/putting_dune/graphene.py
@@ -220,7 +220,7 @@ class HumanPriorRatePredictor:
     relative_beam_position /= constants.CARBON_BOND_DISTANCE_ANGSTROMS
     rates = np.zeros((neighbor_indices.shape), dtype=float)
     for i, angle in enumerate(angles):
-      rotated_mean = geometry.rotate_coordinates(self.mean, -angle)
+      rotated_mean = geometry.rotate_coordinates(self.mean, angle)
       rate = single_silicon_prior_rates(
           relative_beam_position, rotated_mean, self.cov, self.max_rate
       )
-- 
2.43.0


From 929ea28c2e7950c2a5ad9ce5ccd2342ed7df5ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 16/42] fix: plot rates along the arc at the angle shown on the
 axis

---
 putting_dune/plotting_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/plotting_utils.py b/putting_dune/plotting_utils.py
index 8f9a1a1..a06666d 100644
--- a/putting_dune/plotting_utils.py
+++ b/putting_dune/plotting_utils.py
@@ -467,7 +467,7 @@ def plot_rate_along_arc3(
   }
 
   for angle in np.linspace(0.0, 2 * np.pi, num_points):
-    beam_pos = np.asarray([np.sin(angle) * radius, np.cos(angle) * radius])
+    beam_pos = np.asarray([np.cos(angle) * radius, np.sin(angle) * radius])
     beam_pos = geometry.PointMaterialFrame(geometry.Point(beam_pos))
     rates = rate_function(grid, beam_pos)
 
-- 
2.43.0


From 0c136d0b4976e517f3921cbeeb61be4b581c55ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 17/42] fix: report predicted rates from the direction logits,
 not from the total rate

---
 putting_dune/rate_learning/learn_rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 7bd6898..c1d185a 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -148,7 +148,7 @@ def batched_loss_fn(
       next_state_logprobs[jnp.arange(next_state.shape[0]), next_state - 1]
       * did_transition
   )
-  next_state_probs = jax.nn.softmax(predicted_rates[:, -1:], axis=-1)
+  next_state_probs = jax.nn.softmax(predicted_rates[:, :-1], axis=-1)
 
   losses = (
       next_state_loss * class_loss_weight + total_rate_loss * rate_loss_weight
-- 
2.43.0


From 07a06ff7854aad366f0249afea306802e60ca598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 18/42] fix: package the rate predictor so that it returns
 rates, not raw network outputs

---
 putting_dune/rate_learning/learn_rates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index c1d185a..39e753e 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -900,7 +900,9 @@ class LearnedTransitionRatePredictor:
       rates, _ = self.batch_apply(
           self.params, self.state, context, self.rng, False
       )
-      return jnp.squeeze(rates, axis=0)
+      total_rate = rates[..., -1:]
+      weights = jax.nn.softmax(rates[..., :-1], axis=-1)
+      return (total_rate * weights).mean(0)
 
     apply_model = functools.partial(apply_model, fixed_context=fixed_context)
     apply_model = jax.jit(apply_model)
-- 
2.43.0


From 839e35d1fa707fdb9d1f3171672eb469502259a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 19/42] fix: query the rate model with the context layout and
 units it was trained with

---
 putting_dune/rate_learning/learn_rates.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 39e753e..7ea1d96 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -31,7 +31,6 @@ import matplotlib.pyplot as plt
 from ml_collections import config_dict
 import numpy as np
 import optax
-from putting_dune import constants
 from putting_dune import geometry
 from putting_dune import microscope_utils
 from putting_dune.rate_learning import data_utils
@@ -954,16 +953,15 @@ class LearnedTransitionRatePredictor:
     neighbor_positions = grid.atom_positions[neighbor_indices, :]
     neighbor_positions = neighbor_positions - current_position
     beam_pos = beam_pos - current_position
-    beam_pos = beam_pos / constants.CARBON_BOND_DISTANCE_ANGSTROMS
     new_beam_pos, _, neighbor_order = data_utils.standardize_beam_and_neighbors(
         beam_pos,
         neighbor_positions,
     )
     context = new_beam_pos
     if self.config.use_voltage:
-      context = np.concatenate([voltage_kv, context], axis=-1)
+      context = np.concatenate([[[voltage_kv]], context], axis=-1)
     if self.config.use_current:
-      context = np.concatenate([current_na, context], axis=-1)
+      context = np.concatenate([[[current_na]], context], axis=-1)
 
     rates = np.asarray(self.packaged_model(context))[0]
 
-- 
2.43.0


From 2567fb4d38ec2f5271b64277a292d27e8cf4d535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 20/42] fix: call the packaged rate model through its exported
 function

---
 putting_dune/rate_learning/learn_rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 7ea1d96..aabba7d 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -963,7 +963,7 @@ class LearnedTransitionRatePredictor:
     if self.config.use_current:
       context = np.concatenate([[[current_na]], context], axis=-1)
 
-    rates = np.asarray(self.packaged_model(context))[0]
+    rates = np.asarray(self.packaged_model.__call__(context))[0]
 
     # neighbor_order is an array mapping the canonical order of neighbors
     # (increasing angle from (1, 0)) to the order they were given in.
-- 
2.43.0


From 716ee93003d107e79bda7b601d72e03c0c665966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 21/42] fix: save and restore the rate network state along with
 its parameters

---
 putting_dune/rate_learning/learn_rates.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index aabba7d..815039c 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -842,7 +842,7 @@ class LearnedTransitionRatePredictor:
     epath.Path(save_dir).mkdir(parents=True, exist_ok=True)
     path = epath.Path(checkpoint_path)
     with path.open('wb') as f:
-      f.write(flax.serialization.to_bytes(self.params))
+      f.write(flax.serialization.to_bytes((self.params, self.state)))
 
     self.package_model(fixed_context=fixed_context)
     logging.info('Saving tf saved model to %s', save_dir)
@@ -870,7 +870,9 @@ class LearnedTransitionRatePredictor:
       checkpoint_path = os.path.join(load_dir, str(step) + '.ckpt')
       path = epath.Path(checkpoint_path)
       with path.open('rb') as f:
-        self.params = flax.serialization.from_bytes(self.params, f.read())
+        self.params, self.state = flax.serialization.from_bytes(
+            (self.params, self.state), f.read()
+        )
     self.packaged_model = tf.saved_model.load(load_dir)
 
     if load_config:
-- 
2.43.0


From aab0eac7371783812d072ea6fbbfb95b641ca4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 22/42] fix: use a fresh random key for every minibatch and
 evaluation of rate training

---
 putting_dune/rate_learning/learn_rates.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 815039c..b9ec36c 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -190,7 +190,7 @@ def train_epoch(
   Returns:
     Updated parameters, optimizer state, prng key.
   """
-  key, data_key = jax.random.split(key)
+  key, data_key, step_key = jax.random.split(key, 3)
   data_size = list(train_data.values())[0].shape[0]
   indices = jax.random.permutation(
       data_key, jnp.arange(data_size), independent=True
@@ -201,8 +201,10 @@ def train_epoch(
   ]
   batch_inds = jnp.stack(batch_inds)
   batches = {k: array[batch_inds] for k, array in train_data.items()}
+  step_keys = jax.random.split(step_key, len(batch_inds))
 
-  def train_step(state, batch):
+  def train_step(state, inputs):
+    batch, step_key = inputs
     params = state[0]
     network_state = state[1]
     opt_state = state[2]
@@ -216,7 +218,7 @@ def train_epoch(
         batch['dt'],
         (batch['next_state'] != 0),
         batch['context'],
-        key,
+        step_key,
         True,
         train_args.class_loss_weight,
         train_args.rate_loss_weight,
@@ -226,7 +228,7 @@ def train_epoch(
     return (params, network_state, opt_state), None
 
   (params, network_state, opt_state), _ = jax.lax.scan(
-      train_step, (params, network_state, opt_state), batches
+      train_step, (params, network_state, opt_state), (batches, step_keys)
   )
 
   return params, network_state, opt_state, key
@@ -282,6 +284,7 @@ def train_model(
         train_data,
         train_args,
     )
+    test_key, train_key = jax.random.split(key)
 
     test_loss, (_, _, test_rate_loss, test_class_loss) = batched_loss_fn(
         params,
@@ -291,7 +294,7 @@ def train_model(
         test_data['dt'],
         (test_data['next_state'] != 0),
         test_data['context'],
-        key,
+        test_key,
         is_training=False,
     )
     train_loss, (_, _, train_rate_loss, train_class_loss) = batched_loss_fn(
@@ -302,7 +305,7 @@ def train_model(
         train_data['dt'],
         (train_data['next_state'] != 0),
         train_data['context'],
-        key,
+        train_key,
         is_training=False,
     )
     metrics = {
-- 
2.43.0


From 316cdd4181754cfc31b42357cd17f1e4479b0a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 23/42] fix: do not return a key already used by the last
 distillation batch

---
 putting_dune/rate_learning/learn_rates.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index b9ec36c..4c33f55 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -464,12 +464,13 @@ def distill_train_epoch(
     params = optax.apply_updates(params, updates)
     return (params, network_state, opt_state), loss
 
-  keys = jax.random.split(key, batches)
+  key, step_key = jax.random.split(key)
+  keys = jax.random.split(step_key, batches)
   (params, network_state, opt_state), losses = jax.lax.scan(
       distill_train_step, (params, network_state, opt_state), keys
   )
 
-  return params, network_state, opt_state, keys[-1], jnp.mean(losses)  # pytype: disable=bad-return-type  # jnp-type
+  return params, network_state, opt_state, key, jnp.mean(losses)  # pytype: disable=bad-return-type  # jnp-type
 
 
 def distill_multiple_models_to_single(
-- 
2.43.0


From da92333463ed90c5d3f1025b4d6d9ea2a129232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 24/42] fix: sample the synthetic context and apply the network
 with different keys

---
 putting_dune/rate_learning/data_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/putting_dune/rate_learning/data_utils.py b/putting_dune/rate_learning/data_utils.py
index f5b457f..6a2ea4f 100644
--- a/putting_dune/rate_learning/data_utils.py
+++ b/putting_dune/rate_learning/data_utils.py
@@ -202,13 +202,13 @@ def generate_synthetic_data(
 
   @jax.jit
   def sample_network_rates(element_key):
-    state_key, time_key, actual_time_key, context_key = jax.random.split(
-        element_key, 4
+    state_key, time_key, actual_time_key, context_key, apply_key = (
+        jax.random.split(element_key, 5)
     )
     context = jax.random.normal(
         context_key, shape=(1, context_dim + position_dim)
     )
-    rates, _ = apply_mlp(init_params, init_state, context_key, context)
+    rates, _ = apply_mlp(init_params, init_state, apply_key, context)
     rates = rates[0, :-1]
 
     total_rate = jnp.sum(rates)
-- 
2.43.0


From fb6e273b78e1f2c67b8def204c348d56d043f929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 25/42] fix: package the rate model with its own key, leaving
 an unused one behind

---
 putting_dune/rate_learning/learn_rates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 4c33f55..88e2f77 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -897,13 +897,15 @@ class LearnedTransitionRatePredictor:
       input_shape = (1, self.context_dim - fixed_context.shape[0])
       fixed_context = jnp.asarray(fixed_context)
 
+    key, self.rng = jax.random.split(self.rng)
+
     def apply_model(context, fixed_context):
       if fixed_context is not None:
         fixed_context = jnp.repeat(fixed_context[None], context.shape[0], 0)
         context = jnp.concatenate([fixed_context, context], axis=-1)
 
       rates, _ = self.batch_apply(
-          self.params, self.state, context, self.rng, False
+          self.params, self.state, context, key, False
       )
       total_rate = rates[..., -1:]
       weights = jax.nn.softmax(rates[..., :-1], axis=-1)
-- 
2.43.0


From 07398fb71c2551c18b18efa4452f7791d343bcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 26/42] fix: score each neighbour of a synthetic transition at
 its own angle, not the mirrored one

---
 putting_dune/rate_learning/data_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/data_utils.py b/putting_dune/rate_learning/data_utils.py
index 6a2ea4f..3eac8d7 100644
--- a/putting_dune/rate_learning/data_utils.py
+++ b/putting_dune/rate_learning/data_utils.py
@@ -250,7 +250,10 @@ def generate_synthetic_data(
     )
     context = jax.random.normal(context_key, shape=(context_dim,))
     rates = graphene.single_silicon_prior_rates(  # pytype: disable=wrong-arg-types  # jnp-type
-        get_all_position_rotations(position, num_states=num_states),
+        # Neighbor n is at angle 2 pi n / num_states: turn it back onto (1, 0).
+        get_all_position_rotations(position, num_states=num_states)[
+            -jnp.arange(num_states)
+        ],
         mean=constants.SIGR_PRIOR_RATE_MEAN,
         cov=constants.SIGR_PRIOR_RATE_COV,
         max_rate=constants.SIGR_PRIOR_MAX_RATE,
-- 
2.43.0


From 62711dad1851c4f048b18f11588d522332492c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 27/42] fix: package the rate model with the context width it
 was trained on

---
 putting_dune/rate_learning/learn_rates.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 88e2f77..4bc17bc 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -762,6 +762,7 @@ class LearnedTransitionRatePredictor:
         augment_data=self.config.augment_data,
         test_fraction=self.config.val_frac,
     )
+    self.context_dim = train_datasets['context'].shape[-1]
 
     (self.params, self.state, self.opt_state, train_metrics) = (
         train_multiple_models(
-- 
2.43.0


From 79c29076e041dbbf756ca3600da4607f2bef29f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 28/42] fix: train rate models without optional context columns

---
 putting_dune/pipeline/train_rate_learner.py | 2 +-
 putting_dune/rate_learning/data_utils.py    | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 081695a..2a249a3 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -553,7 +553,7 @@ def stack_data(
   if context:
     context = np.stack(context, axis=-1)
   else:
-    context = None
+    context = np.zeros((len(data), 0))
 
   dataset = Dataset(
       next_state=next_states,
diff --git a/putting_dune/rate_learning/data_utils.py b/putting_dune/rate_learning/data_utils.py
index 3eac8d7..85fbca8 100644
--- a/putting_dune/rate_learning/data_utils.py
+++ b/putting_dune/rate_learning/data_utils.py
@@ -144,7 +144,9 @@ def rotate_dataset(
       states, times, rates, position, context
   )
   if context is not None:
-    rot_context = rot_context.reshape(-1, *context.shape[1:])
+    rot_context = rot_context.reshape(
+        num_states * context.shape[0], *context.shape[1:]
+    )
 
   return (
       rot_states.reshape(-1, *states.shape[1:]),
-- 
2.43.0


From 6491cdbc395532a5b162e3cb7eeb5476a1b212f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 29/42] fix: repackage a rate model after its parameters change

---
 putting_dune/rate_learning/learn_rates.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 4bc17bc..78f03f7 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -776,6 +776,7 @@ class LearnedTransitionRatePredictor:
             train_config=self.config,
         )
     )
+    self._discard_packaged_model()
 
     return train_metrics
 
@@ -825,9 +826,15 @@ class LearnedTransitionRatePredictor:
     )
     self.params = tree_stack([distillation_params])
     self.state = tree_stack([distillation_state])
+    self._discard_packaged_model()
 
     return distill_metrics
 
+  def _discard_packaged_model(self) -> None:
+    """Drops the packaged model, which holds parameters since replaced."""
+    if hasattr(self, 'packaged_model'):
+      del self.packaged_model
+
   def save(
       self,
       save_dir: str,
-- 
2.43.0


From 08130ac30029f5fe72ceede83779b1eb76742ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 30/42] fix: an atom detection with no atoms of one kind still
 gives a grid

---
 putting_dune/atom_detector.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index 69c9742..49252b1 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -167,6 +167,10 @@ class AtomDetector:
         masked_silicon_probs.astype(np.uint8), 1, 140
     )
 
+    # Keep two columns even if there are no atoms of one kind
+    carbon_centroids = np.array(carbon_centroids).reshape(-1, 2)
+    silicon_centroids = np.array(silicon_centroids).reshape(-1, 2)
+
     # Construct an array of atomic numbers for both atoms
     carbon_atomic_numbers = np.array([constants.CARBON] * len(carbon_centroids))
     silicon_atomic_numbers = np.array(
@@ -180,6 +184,6 @@ class AtomDetector:
             ),
             atomic_numbers=np.concatenate(
                 [carbon_atomic_numbers, silicon_atomic_numbers]
-            ),
+            ).astype(np.int32),
         )
     )
-- 
2.43.0


From 41bd2b276fd9ae202ab45762a927d6fd32a4fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:41 +0000
Subject: [PATCH 31/42] fix: an interrupted detector download is not taken for
 a cached model

---
 putting_dune/atom_detector.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index 49252b1..1b60a98 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -16,8 +16,9 @@
 import dataclasses
 import functools
 import io
+import tempfile
 from typing import Any, List, Tuple
-import urllib
+import urllib.request
 import zipfile
 
 import cv2
@@ -108,10 +109,14 @@ class AtomDetector:
     )
 
     if not model_path.exists():
-      model_path.mkdir(parents=True)
-      with urllib.request.urlopen(url) as request:
-        with zipfile.ZipFile(io.BytesIO(request.read())) as model_zip:
-          model_zip.extractall(model_path.parent)
+      # Extract next to the final location, and move the model into place only
+      # once it is complete.
+      model_path.parent.mkdir(parents=True, exist_ok=True)
+      with tempfile.TemporaryDirectory(dir=model_path.parent) as temp_dir:
+        with urllib.request.urlopen(url) as request:
+          with zipfile.ZipFile(io.BytesIO(request.read())) as model_zip:
+            model_zip.extractall(temp_dir)
+        (epath.Path(temp_dir) / model_path.name).rename(model_path)
 
     return AtomDetector(model_path=model_path)
     # pylint: enable=unreachable
-- 
2.43.0


From 4dd8b12d0a1a088f73587b69432b67793a9c4284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:41 +0000
Subject: [PATCH 32/42] fix: an interrupted aligner extraction is not taken for
 a cached model

---
 putting_dune/alignment.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 16db6a6..4920322 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -17,6 +17,7 @@
 import collections
 import copy
 import functools
+import tempfile
 import typing
 from typing import Any, Deque, Optional, Sequence, Tuple
 import zipfile
@@ -481,10 +482,16 @@ class ImageAligner:
       workdir = epath.resource_path('putting_dune')
     model_path = epath.Path(workdir) / 'model_weights' / 'image-alignment-model'
     if not model_path.exists() or reload:
-      model_path.mkdir(parents=True, exist_ok=True)
-      with path.open('rb') as model_zip_fp:
-        with zipfile.ZipFile(model_zip_fp) as model_zip:
-          model_zip.extractall(model_path.parent)
+      # Extract next to the final location, and move the model into place only
+      # once it is complete.
+      model_path.parent.mkdir(parents=True, exist_ok=True)
+      with tempfile.TemporaryDirectory(dir=model_path.parent) as temp_dir:
+        with path.open('rb') as model_zip_fp:
+          with zipfile.ZipFile(model_zip_fp) as model_zip:
+            model_zip.extractall(temp_dir)
+        if model_path.exists():
+          model_path.rmtree()
+        (epath.Path(temp_dir) / model_path.name).rename(model_path)
 
     return ImageAligner(model_path=model_path, **kwargs)
 
-- 
2.43.0


From 7a65832a4ede6fbb0675007eb2962f73bb3c96ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:41 +0000
Subject: [PATCH 33/42] fix: an interrupted agent download is not taken for a
 cached agent

---
 putting_dune/experiments/registry.py | 29 +++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/putting_dune/experiments/registry.py b/putting_dune/experiments/registry.py
index 9f7df26..ef7e4b4 100644
--- a/putting_dune/experiments/registry.py
+++ b/putting_dune/experiments/registry.py
@@ -17,6 +17,7 @@
 import dataclasses
 import datetime as dt
 import functools
+import tempfile
 from typing import Callable, Optional, Tuple
 import urllib.request
 import zipfile
@@ -93,19 +94,21 @@ class _TfAgentCreator:
     # Download the file if necessary.
     if not model_path.exists():
       logging.info("Couldn't find agent checkpointing. Downloading...")
-      zip_path = model_weights_path / 'tmp.zip'
-      zip_path_str = str(zip_path)
-      urllib.request.urlretrieve(
-          self.download_url,
-          zip_path_str,
-      )
-
-      logging.info('Unzipping agent checkpoint...')
-      with zipfile.ZipFile(zip_path_str, mode='r') as zf:
-        zf.extractall(model_weights_path)
-
-      # Delete the zip file.
-      zip_path.unlink()
+      # Download and extract next to the final location, and move the agent into
+      # place only once it is complete.
+      with tempfile.TemporaryDirectory(dir=model_weights_path) as temp_dir:
+        temp_path = epath.Path(temp_dir)
+        zip_path_str = str(temp_path / 'tmp.zip')
+        urllib.request.urlretrieve(
+            self.download_url,
+            zip_path_str,
+        )
+
+        logging.info('Unzipping agent checkpoint...')
+        with zipfile.ZipFile(zip_path_str, mode='r') as zf:
+          zf.extractall(temp_path)
+
+        (temp_path / self.model_name).rename(model_path)
 
     agent = tf_eval_agent.TfEvalAgent(str(model_path))
     logging.info('Agent loaded!')
-- 
2.43.0


From 2e048339695496b62d75c89e5566f644a78d530f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:09 +0000
Subject: [PATCH 34/42] fix: an uploaded trajectory keeps the beam position in
 the microscope frame, as controls are read

---
 putting_dune/pipeline/upload_microscope_data.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/putting_dune/pipeline/upload_microscope_data.py b/putting_dune/pipeline/upload_microscope_data.py
index e6eccd6..14df6ec 100644
--- a/putting_dune/pipeline/upload_microscope_data.py
+++ b/putting_dune/pipeline/upload_microscope_data.py
@@ -170,7 +170,6 @@ def convert_dataset_to_proto(
       beam_loc = geometry.PointMicroscopeFrame(
           geometry.Point(beam_loc[0], beam_loc[1])
       )
-      beam_loc = fov.microscope_frame_to_material_frame(beam_loc)
       beam_control = (
           microscope_utils.BeamControl(
               beam_loc,
-- 
2.43.0


From 6c8fadea069655800964ff36f2137c51c7603e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:00 +0000
Subject: [PATCH 35/42] fix: the accuracy of the image aligner compares classes
 pixel by pixel

---
 putting_dune/image_alignment/train.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/putting_dune/image_alignment/train.py b/putting_dune/image_alignment/train.py
index f06924b..97af199 100644
--- a/putting_dune/image_alignment/train.py
+++ b/putting_dune/image_alignment/train.py
@@ -124,7 +124,9 @@ def train_step(
     drift_losses = jnp.square(batch['drift'] - pred_drift).sum(-1)
     drift_loss = jnp.mean(drift_losses)
     final_drift_loss = jnp.mean(drift_losses[..., -1])
-    accuracies = jnp.argmax(logits, axis=-1) == jnp.argmax(batch['mask'])
+    accuracies = jnp.argmax(logits, axis=-1) == jnp.argmax(
+        batch['mask'], axis=-1
+    )
     accuracy = jnp.mean(accuracies)
     final_accuracy = jnp.mean(accuracies[..., -1])
     drift_errors = jnp.linalg.norm(batch['drift'] - pred_drift, axis=-1)
@@ -177,7 +179,9 @@ def eval_step(
   drift_loss = jnp.mean(drift_losses)
   final_drift_loss = jnp.mean(drift_losses[..., -1])
 
-  accuracies = jnp.argmax(logits, axis=-1) == jnp.argmax(batch['mask'])
+  accuracies = jnp.argmax(logits, axis=-1) == jnp.argmax(
+      batch['mask'], axis=-1
+  )
   accuracy = jnp.mean(accuracies)
   final_accuracy = jnp.mean(accuracies[..., -1])
   drift_errors = jnp.linalg.norm(batch['drift'] - pred_drift, axis=-1)
-- 
2.43.0


From 814e03037b5d8c65fdbf0f23af22ed87eb8c1d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:00 +0000
Subject: [PATCH 36/42] fix: the best graph aligner is the one of lowest loss

---
 putting_dune/graph_alignment/train.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/graph_alignment/train.py b/putting_dune/graph_alignment/train.py
index 05bf998..31310cf 100644
--- a/putting_dune/graph_alignment/train.py
+++ b/putting_dune/graph_alignment/train.py
@@ -276,7 +276,7 @@ def train(config: Config) -> TrainState:
       config.workdir,
       checkpointers=checkpoint.PyTreeCheckpointer(),
       options=checkpoint.CheckpointManagerOptions(
-          best_fn=lambda metrics: metrics['eval/total_loss'],
+          best_fn=lambda metrics: -metrics['eval/total_loss'],
           create=True,
       ),
       metadata=config.to_dict(),
-- 
2.43.0


From a7eb1d1d69e3813596a326f1aaf91b3bd88baaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:00 +0000
Subject: [PATCH 37/42] fix: the atom detector trains on batches of the
 configured size

---
 putting_dune/atom_detection/train.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/putting_dune/atom_detection/train.py b/putting_dune/atom_detection/train.py
index d6c584e..0fa5b01 100644
--- a/putting_dune/atom_detection/train.py
+++ b/putting_dune/atom_detection/train.py
@@ -193,6 +193,7 @@ def train(config: Config) -> TrainState:
 
   dataset_config = atom_detection_dataset.AtomDetectionDatasetConfig(
       data_dir=config.data_dir.as_posix(),
+      batch_size=config.batch_size,
   )
 
   train_ds, test_ds = atom_detection_dataset.make_dataset(
-- 
2.43.0


From aec7e04a375d5ce54c7728635de6507030ee4f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:00 +0000
Subject: [PATCH 38/42] fix: the graph aligner trains on batches of the
 configured size

---
 putting_dune/graph_alignment/train.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/putting_dune/graph_alignment/train.py b/putting_dune/graph_alignment/train.py
index 31310cf..37d4a6b 100644
--- a/putting_dune/graph_alignment/train.py
+++ b/putting_dune/graph_alignment/train.py
@@ -284,6 +284,7 @@ def train(config: Config) -> TrainState:
 
   dataset_config = graph_alignment_dataset.GraphAlignmentDatasetConfig(
       data_dir=config.data_dir.as_posix(),
+      batch_size=config.batch_size,
   )
 
   train_ds, test_ds = graph_alignment_dataset.make_dataset(
-- 
2.43.0


From f78dde3594901812d7aa84ba450f7fe660e686f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:46 +0000
Subject: [PATCH 39/42] fix: a resumed training run restores epoch 0 and does
 not repeat the last saved epoch

---
 putting_dune/atom_detection/train.py  | 6 ++++--
 putting_dune/graph_alignment/train.py | 6 ++++--
 putting_dune/image_alignment/train.py | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/putting_dune/atom_detection/train.py b/putting_dune/atom_detection/train.py
index 0fa5b01..352d71a 100644
--- a/putting_dune/atom_detection/train.py
+++ b/putting_dune/atom_detection/train.py
@@ -210,7 +210,8 @@ def train(config: Config) -> TrainState:
   )
   hooks = [progress]
 
-  if latest_step := chkpt_manager.latest_step():
+  latest_step = chkpt_manager.latest_step()
+  if latest_step is not None:
     with progress.timed('restore-checkpoint'):
       restored = chkpt_manager.restore(latest_step, items=state)
       state = jax.tree_util.tree_map(
@@ -219,9 +220,10 @@ def train(config: Config) -> TrainState:
           restored,
       )
 
+  first_epoch = 0 if latest_step is None else latest_step + 1
   with metric_writers.ensure_flushes(writer):
     for epoch in etqdm.tqdm(
-        range(chkpt_manager.latest_step() or 0, config.epochs),
+        range(first_epoch, config.epochs),
         desc='Epoch',
     ):
       state = functools.reduce(
diff --git a/putting_dune/graph_alignment/train.py b/putting_dune/graph_alignment/train.py
index 37d4a6b..5b7b837 100644
--- a/putting_dune/graph_alignment/train.py
+++ b/putting_dune/graph_alignment/train.py
@@ -363,7 +363,8 @@ def train(config: Config) -> TrainState:
   )
   hooks = [progress]
 
-  if latest_step := chkpt_manager.latest_step():
+  latest_step = chkpt_manager.latest_step()
+  if latest_step is not None:
     with progress.timed('restore-checkpoint'):
       restored = chkpt_manager.restore(latest_step, items=state)
       restored = sanitize_state_keys(
@@ -385,9 +386,10 @@ def train(config: Config) -> TrainState:
   )
   eval_step = functools.partial(train_step, do_grad_step=False)
 
+  first_epoch = 0 if latest_step is None else latest_step + 1
   with metric_writers.ensure_flushes(writer):
     for epoch in etqdm.tqdm(
-        range(chkpt_manager.latest_step() or 0, config.epochs),
+        range(first_epoch, config.epochs),
         desc='Epoch',
     ):
       state = functools.reduce(
diff --git a/putting_dune/image_alignment/train.py b/putting_dune/image_alignment/train.py
index 97af199..de1b003 100644
--- a/putting_dune/image_alignment/train.py
+++ b/putting_dune/image_alignment/train.py
@@ -347,7 +347,8 @@ def train(config: Config) -> TrainState:
       state_sharding,
   ) = make_batch_sharding(train_ds.element_spec, state)
 
-  if latest_step := chkpt_manager.latest_step():
+  latest_step = chkpt_manager.latest_step()
+  if latest_step is not None:
     with progress.timed('restore-checkpoint'):
       restore_args = jax.tree_util.tree_map(
           lambda sharding: checkpoint.ArrayRestoreArgs(  # pylint: disable=g-long-lambda
@@ -393,10 +394,11 @@ def train(config: Config) -> TrainState:
 
   train_iter = map(globalize_batch, train_ds.as_numpy_iterator())
   test_iter = map(globalize_batch, test_ds.as_numpy_iterator())
+  first_epoch = 0 if latest_step is None else latest_step + 1
   with jax.spmd_mode('allow_all'):
     with metric_writers.ensure_flushes(writer):
       for epoch in etqdm.tqdm(
-          range(chkpt_manager.latest_step() or 0, config.epochs),
+          range(first_epoch, config.epochs),
           desc='Epoch',
       ):
         state = functools.reduce(
-- 
2.43.0


From 46f5e22cec869669a6bc334ea21323a86c48db07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:27 +0000
Subject: [PATCH 40/42] fix: the atom detector was exported under an input name
 and archive layout its loader does not accept

---
 putting_dune/atom_detection/save_model.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/putting_dune/atom_detection/save_model.py b/putting_dune/atom_detection/save_model.py
index e815f51..5458134 100644
--- a/putting_dune/atom_detection/save_model.py
+++ b/putting_dune/atom_detection/save_model.py
@@ -95,7 +95,7 @@ def save(config: Config):
       autograph=False,
       input_signature=[
           tf.TensorSpec(
-              shape=config.input_shape, dtype=np.float32, name='image'
+              shape=config.input_shape, dtype=np.float32, name='preprocessed_inputs_0'
           )
       ],
   )
@@ -113,15 +113,16 @@ def save(config: Config):
   logging.info('Will save model at: %s', copy_target)
 
   with tempfile.TemporaryDirectory() as tmpdir:
-    save_path = epath.Path(tmpdir) / 'packaged'
-    zip_path = epath.Path(tmpdir) / 'packaged.zip'
+    save_path = epath.Path(tmpdir) / 'atom-detection-model'
+    zip_path = epath.Path(tmpdir) / 'atom-detection-model.zip'
     tf.saved_model.save(tf_module, save_path)
 
     zipped = zipfile.ZipFile(zip_path, 'w')
     for dirname, _, files in os.walk(save_path):
-      zipped.write(dirname)
+      zipped.write(dirname, os.path.relpath(dirname, tmpdir))
       for filename in files:
-        zipped.write(os.path.join(dirname, filename))
+        path = os.path.join(dirname, filename)
+        zipped.write(path, os.path.relpath(path, tmpdir))
     zipped.close()
     zip_path.copy(dst=copy_target, overwrite=config.overwrite)
 
-- 
2.43.0


From b66e9cc166a9cd24ca2d59d50b9fc6bd02071463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:06 +0000
Subject: [PATCH 41/42] fix: a directory of trajectories was searched for files
 the record reader does not read, and aligned to nothing

---
 putting_dune/pipeline/align_trajectories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/align_trajectories.py b/putting_dune/pipeline/align_trajectories.py
index 5d681e4..4c215d1 100644
--- a/putting_dune/pipeline/align_trajectories.py
+++ b/putting_dune/pipeline/align_trajectories.py
@@ -94,7 +94,7 @@ def do_alignment(
 def main(args: Args) -> None:
   trajectories = []
   if args.source_path.is_dir():
-    files = list(args.source_path.glob('*.recordio'))
+    files = list(args.source_path.glob('*.tfrecords'))
   else:
     files = [args.source_path]
   for file in files:
-- 
2.43.0


From fde4b9eaf16998428133e2bed911cdc5f1f616e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:06 +0000
Subject: [PATCH 42/42] fix: uploaded datasets whose directory names contain
 dots lost part of their name and overwrote each other

---
 putting_dune/pipeline/upload_microscope_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/upload_microscope_data.py b/putting_dune/pipeline/upload_microscope_data.py
index 14df6ec..8e2ae4c 100644
--- a/putting_dune/pipeline/upload_microscope_data.py
+++ b/putting_dune/pipeline/upload_microscope_data.py
@@ -219,7 +219,8 @@ def main(args: Args) -> None:
                 dataset_path.relative_to(args.directory).parts,
             )
         )
-    ).with_suffix('.riegeli')
+        + '.riegeli'
+    )
     pbar.set_postfix_str(filename)
 
     # Load dataset
-- 
2.43.0

