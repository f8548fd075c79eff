From b40b4facda43e4aacf142a9ac45d6e5aea201a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:06 +0000
Subject: [PATCH 01/15] fix: keep the discretizer's radices concrete so that
 discretize works under jit

---
 waymax/dynamics/discretizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/waymax/dynamics/discretizer.py b/waymax/dynamics/discretizer.py
index b7e7add..494f1a0 100644
--- a/waymax/dynamics/discretizer.py
+++ b/waymax/dynamics/discretizer.py
@@ -18,6 +18,7 @@ import functools
 from dm_env import specs
 import jax
 import jax.numpy as jnp
+import numpy as np
 
 from waymax import config as _config
 from waymax import datatypes
@@ -73,9 +74,10 @@ class Discretizer:
     indices_nd = jnp.rint(
         jnp.maximum(jnp.minimum(normalized_indices, self._bins), 0)
     ).astype(jnp.int32)
+    # The dimensions must stay concrete for this to be traceable under jit.
     indices_1d = jnp.ravel_multi_index(  # pytype: disable=wrong-arg-types  # jnp-type
         jnp.split(indices_nd, self._bins.shape[0], -1),
-        self._bins + 1,
+        tuple((np.asarray(self._bins) + 1).tolist()),
         mode='clip',
     )
     return indices_1d
-- 
2.43.0


From 898f7403d3294fa0aa70e0de0dc263a1664ebeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 02/15] fix: report nothing offroad without road edges and
 ignore unusable prior points

---
 waymax/metrics/roadgraph.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/waymax/metrics/roadgraph.py b/waymax/metrics/roadgraph.py
index ea8a44c..5693a82 100644
--- a/waymax/metrics/roadgraph.py
+++ b/waymax/metrics/roadgraph.py
@@ -188,10 +188,10 @@ def compute_signed_distance_to_nearest_road_edge_point(
   # Do not consider invalid points.
   # Shape: (num_points).
   is_road_edge = datatypes.is_road_edge(roadgraph_points.types)
+  # Shape: (num_points).
+  is_usable = roadgraph_points.valid & is_road_edge
   # Shape: (..., num_query_points, num_points).
-  square_distances = jnp.where(
-      roadgraph_points.valid & is_road_edge, square_distances, float('inf')
-  )
+  square_distances = jnp.where(is_usable, square_distances, float('inf'))
   # Shape: (..., num_query_points).
   nearest_indices = jnp.argmin(square_distances, axis=-1)
   # Shape: (..., num_query_points).
@@ -214,8 +214,12 @@ def compute_signed_distance_to_nearest_road_edge_point(
   cross_product_prior = jnp.cross(points_to_edge, prior_vector_xys)
   # If the prior point is contiguous, consider both half-plane distances.
   # Shape: (..., num_query_points).
-  prior_point_in_same_curve = jnp.equal(
-      roadgraph_points.ids[nearest_indices], roadgraph_points.ids[prior_indices]
+  prior_point_in_same_curve = jnp.logical_and(
+      is_usable[prior_indices],
+      jnp.equal(
+          roadgraph_points.ids[nearest_indices],
+          roadgraph_points.ids[prior_indices],
+      ),
   )
   # Shape: (..., num_query_points).
   offroad_sign = jnp.sign(
@@ -228,6 +232,8 @@ def compute_signed_distance_to_nearest_road_edge_point(
       )
   )
   # Shape: (..., num_query_points).
-  return (
+  signed_distances = (
       jnp.linalg.norm(nearest_xys - query_points[:, :2], axis=-1) * offroad_sign
   )
+  # Without any road edge there is nothing to be on the wrong side of.
+  return jnp.where(jnp.any(is_usable), signed_distances, -jnp.inf)
-- 
2.43.0


From 378e884bfe96edc1f91be80d6806da896b2ad66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:05 +0000
Subject: [PATCH 03/15] fix: mark every viewer as its own ego in
 observation_from_state

---
 waymax/datatypes/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/datatypes/observation.py b/waymax/datatypes/observation.py
index 8836305..55309a8 100644
--- a/waymax/datatypes/observation.py
+++ b/waymax/datatypes/observation.py
@@ -568,7 +568,7 @@ def observation_from_state(
   # state.shape + (num_obj, num_obj)
   target_shape = state.shape + (num_obj, num_obj)
   is_ego = jax.lax.broadcast_in_dim(
-      jnp.diag(jnp.arange(num_obj)) == 1,
+      jnp.eye(num_obj, dtype=jnp.bool_),
       shape=target_shape,
       broadcast_dimensions=(len(target_shape) - 2, len(target_shape) - 1),
   )
-- 
2.43.0


From 7649dd4f939f5c2e02be0b97575a951c3210f794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:05 +0000
Subject: [PATCH 04/15] fix: select along the viewer axis in
 Observation.for_obj

---
 waymax/datatypes/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/datatypes/observation.py b/waymax/datatypes/observation.py
index 55309a8..3981400 100644
--- a/waymax/datatypes/observation.py
+++ b/waymax/datatypes/observation.py
@@ -254,7 +254,7 @@ class Observation:
     Returns:
       A Observation with shape (..., 1).
     """
-    axis = len(self.shape) - 2
+    axis = len(self.shape) - 1
     return operations.dynamic_slice(
         inputs=self, start_index=idx, slice_size=1, axis=axis
     )
-- 
2.43.0


From 8f1370cb1f8698f6c3f252a245c4cce0df55cbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:05 +0000
Subject: [PATCH 05/15] fix: keep integer attributes exact in
 filter_topk_roadgraph_points

---
 waymax/datatypes/roadgraph.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/waymax/datatypes/roadgraph.py b/waymax/datatypes/roadgraph.py
index 5a24223..78684ca 100644
--- a/waymax/datatypes/roadgraph.py
+++ b/waymax/datatypes/roadgraph.py
@@ -209,9 +209,6 @@ def filter_topk_roadgraph_points(
             roadgraph.dir_x,
             roadgraph.dir_y,
             roadgraph.dir_z,
-            roadgraph.types,
-            roadgraph.ids,
-            roadgraph.valid,
         ],
         axis=-1,
         dtype=jnp.float32,
@@ -225,9 +222,10 @@ def filter_topk_roadgraph_points(
         dir_x=filtered[..., 3],
         dir_y=filtered[..., 4],
         dir_z=filtered[..., 5],
-        types=filtered[..., 6].astype(jnp.int32),
-        ids=filtered[..., 7].astype(jnp.int32),
-        valid=filtered[..., 8].astype(jnp.bool_),
+        # Not gathered through float32, which cannot hold large identifiers.
+        types=jnp.take_along_axis(roadgraph.types, top_idx, axis=-1),
+        ids=jnp.take_along_axis(roadgraph.ids, top_idx, axis=-1),
+        valid=jnp.take_along_axis(roadgraph.valid, top_idx, axis=-1),
     )
   else:
     return roadgraph
-- 
2.43.0


From 8e9796fc3c7ab843b864c8543c0f6f814468648f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:05 +0000
Subject: [PATCH 06/15] fix: tile the action validity per object in
 PlanningAgentDynamics.forward and pass allow_new_objects on

---
 waymax/env/planning_agent_environment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/waymax/env/planning_agent_environment.py b/waymax/env/planning_agent_environment.py
index d547a30..653ba14 100644
--- a/waymax/env/planning_agent_environment.py
+++ b/waymax/env/planning_agent_environment.py
@@ -100,7 +100,7 @@ class PlanningAgentDynamics(_dynamics.DynamicsModel):
         action.data[..., jnp.newaxis, :], trajectory.num_objects, axis=-2
     )
     tiled_valid = jnp.repeat(
-        action.valid[..., jnp.newaxis], trajectory.num_objects, axis=-1
+        action.valid[..., jnp.newaxis, :], trajectory.num_objects, axis=-2
     )
     tiled_action = datatypes.Action(data=tiled_action_data, valid=tiled_valid)
     tiled_action.validate()
@@ -110,6 +110,7 @@ class PlanningAgentDynamics(_dynamics.DynamicsModel):
         log_trajectory,
         is_controlled,
         timestep,
+        allow_new_objects,
     )
 
   def inverse(
-- 
2.43.0


From 6bcff7f9365ae79e526c32e3e42f47c6fbc6ae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:05 +0000
Subject: [PATCH 07/15] fix: give the configured sim agents their (empty)
 parameters in make_sdc_dm_environment

---
 waymax/env/wrappers/dm_env_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/waymax/env/wrappers/dm_env_wrapper.py b/waymax/env/wrappers/dm_env_wrapper.py
index 6c89bc1..2819329 100644
--- a/waymax/env/wrappers/dm_env_wrapper.py
+++ b/waymax/env/wrappers/dm_env_wrapper.py
@@ -218,5 +218,6 @@ def make_sdc_dm_environment(
       dynamics_model=dynamics_model,
       config=env_config,
       sim_agent_actors=sim_agent_actors,
+      sim_agent_params=[{} for _ in sim_agent_actors],
   )
   return DMEnvWrapper(dataset_iterator, single_env)
-- 
2.43.0


From 8b904d14b2158097c42490486f8521f11dbbc008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:05 +0000
Subject: [PATCH 08/15] fix: do not truncate the per-timestep which_time
 feature to the number of objects

---
 waymax/dataloader/womd_dataloader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/waymax/dataloader/womd_dataloader.py b/waymax/dataloader/womd_dataloader.py
index e851294..98f1bb1 100644
--- a/waymax/dataloader/womd_dataloader.py
+++ b/waymax/dataloader/womd_dataloader.py
@@ -71,8 +71,11 @@ def preprocess_womd_example(
 
   if max_num_objects is not None:
     # TODO(b/246965197) check sdc included if it is needed.
+    # 'state/which_time' is indexed by timestep, not by object.
     return {
-        k: v[:max_num_objects] if k.startswith('state/') else v
+        k: v[:max_num_objects]
+        if k.startswith('state/') and k != 'state/which_time'
+        else v
         for k, v in processed.items()
     }
   else:
-- 
2.43.0


From 4ac59072c0b393eccfe82d841425708c8b1e3b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:05 +0000
Subject: [PATCH 09/15] fix: accept a common updates_start_idx for a batch of
 start indices in update_by_slice_in_dim

---
 waymax/datatypes/operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/waymax/datatypes/operations.py b/waymax/datatypes/operations.py
index dc57cd7..b370450 100644
--- a/waymax/datatypes/operations.py
+++ b/waymax/datatypes/operations.py
@@ -158,6 +158,10 @@ def update_by_slice_in_dim(
 
   if updates_start_idx is None:
     updates_start_idx = inputs_start_idx
+  elif hasattr(inputs_start_idx, 'shape'):
+    updates_start_idx = jnp.broadcast_to(
+        updates_start_idx, inputs_start_idx.shape
+    )
 
   def _update(source, update, inputs_start_idx, updates_start_idx):
     if slice_size is not None:
-- 
2.43.0


From 144ff14cf7ff1ceb90047a9a0841948b3a530e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:05 +0000
Subject: [PATCH 10/15] fix: keep percent signs of the base name in
 generate_sharded_filenames

---
 waymax/dataloader/dataloader_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/waymax/dataloader/dataloader_utils.py b/waymax/dataloader/dataloader_utils.py
index 6ef2c80..a537074 100644
--- a/waymax/dataloader/dataloader_utils.py
+++ b/waymax/dataloader/dataloader_utils.py
@@ -56,8 +56,8 @@ def generate_sharded_filenames(path: str) -> Sequence[str]:
   base_name, num_shards = path.split('@')
   num_shards = int(num_shards)
   shard_width = max(5, int(math.log10(num_shards) + 1))
-  format_str = base_name + '-%0' + str(shard_width) + 'd-of-%05d'
-  return [format_str % (i, num_shards) for i in range(num_shards)]
+  format_str = '-%0' + str(shard_width) + 'd-of-%05d'
+  return [base_name + format_str % (i, num_shards) for i in range(num_shards)]
 
 
 def tf_examples_dataset(
-- 
2.43.0


From 67b449a7ced3191c74c38ef7aa7a90ec0b7413f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 11/15] fix: let action_spec expand scalar bounds of the
 dynamics spec

---
 waymax/env/base_environment.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/waymax/env/base_environment.py b/waymax/env/base_environment.py
index afcc90d..6dc4d6c 100644
--- a/waymax/env/base_environment.py
+++ b/waymax/env/base_environment.py
@@ -21,6 +21,7 @@ import chex
 from dm_env import specs
 import jax
 from jax import numpy as jnp
+import numpy as np
 from waymax import config as _config
 from waymax import datatypes
 from waymax import dynamics as _dynamics
@@ -168,17 +169,12 @@ class BaseEnvironment(abstract_environment.AbstractEnvironment):
     # Dynamics model class defines specs for a single agent.
     # Need to expand it to multiple objects.
     single_agent_spec = self.dynamics.action_spec()  # rank 1
+    data_shape = (self.config.max_num_objects,) + single_agent_spec.shape
     data_spec = specs.BoundedArray(
-        shape=(self.config.max_num_objects,) + single_agent_spec.shape,
+        shape=data_shape,
         dtype=single_agent_spec.dtype,
-        minimum=jnp.tile(
-            single_agent_spec.minimum[jnp.newaxis, :],
-            [self.config.max_num_objects, 1],
-        ),
-        maximum=jnp.tile(
-            single_agent_spec.maximum[jnp.newaxis, :],
-            [self.config.max_num_objects, 1],
-        ),
+        minimum=np.broadcast_to(single_agent_spec.minimum, data_shape),
+        maximum=np.broadcast_to(single_agent_spec.maximum, data_shape),
     )
     valid_spec = specs.Array(
         shape=(self.config.max_num_objects, 1), dtype=jnp.bool_
-- 
2.43.0


From 422ec079b42abd2694b535c4c1471cf789aa1c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 12/15] fix: read the figure image with buffer_rgba,
 tostring_argb is gone from matplotlib

---
 waymax/visualization/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/waymax/visualization/utils.py b/waymax/visualization/utils.py
index c3c3636..eec198b 100644
--- a/waymax/visualization/utils.py
+++ b/waymax/visualization/utils.py
@@ -80,14 +80,13 @@ def center_at_xy(
 
 
 def img_from_fig(fig: matplotlib.figure.Figure) -> np.ndarray:
-  """Returns a [H, W, 3] uint8 np image from fig.canvas.tostring_argb()."""
+  """Returns a [H, W, 3] uint8 np image from fig.canvas.buffer_rgba()."""
   # Just enough margin in the figure to display xticks and yticks.
   fig.subplots_adjust(
       left=0.08, bottom=0.08, right=0.98, top=0.98, wspace=0.0, hspace=0.0
   )
   fig.canvas.draw()
-  data = np.frombuffer(fig.canvas.tostring_argb(), dtype=np.uint8)
-  img = data.reshape(fig.canvas.get_width_height()[::-1] + (4,))[:, :, 1:]
+  img = np.array(fig.canvas.buffer_rgba())[:, :, :3]
   plt.close(fig)
   return img
 
-- 
2.43.0


From 2fa126e6ff42bdc7d6ff6424840f1f59d9dbe3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 13/15] fix: keep the object axis when centring a plot on a
 chosen agent

---
 waymax/visualization/viz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/waymax/visualization/viz.py b/waymax/visualization/viz.py
index e94e3c7..3f13822 100644
--- a/waymax/visualization/viz.py
+++ b/waymax/visualization/viz.py
@@ -299,7 +299,7 @@ def plot_simulator_state(
   if viz_config.center_agent_idx == -1:
     xy = current_xy[state.object_metadata.is_sdc]
   else:
-    xy = current_xy[viz_config.center_agent_idx]
+    xy = current_xy[np.newaxis, viz_config.center_agent_idx]
   origin_x, origin_y = xy[0, :2]
   ax.axis((
       origin_x - viz_config.back_x,
@@ -374,7 +374,7 @@ def plot_observation(
   if viz_config.center_agent_idx == -1:
     xy = current_xy[obs.metadata.is_sdc]
   else:
-    xy = current_xy[viz_config.center_agent_idx]
+    xy = current_xy[np.newaxis, viz_config.center_agent_idx]
   origin_x, origin_y = xy[0, :2]
   ax.axis((
       origin_x - viz_config.back_x,
@@ -450,7 +450,7 @@ def plot_single_agent_brax_timestep(
   if viz_config.center_agent_idx == -1:
     xy = current_xy[state.object_metadata.is_sdc]
   else:
-    xy = current_xy[viz_config.center_agent_idx]
+    xy = current_xy[np.newaxis, viz_config.center_agent_idx]
   origin_x, origin_y = xy[0, :2]
   ax.axis((
       origin_x - viz_config.back_x,
-- 
2.43.0


From a6a60a6643c113c5dabe55ec4e4ab997ea846802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 14/15] fix: limit the heading change inferred by the delta
 models to max_dyaw

---
 waymax/dynamics/delta.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/waymax/dynamics/delta.py b/waymax/dynamics/delta.py
index b70a80b..533d657 100644
--- a/waymax/dynamics/delta.py
+++ b/waymax/dynamics/delta.py
@@ -114,7 +114,11 @@ class DeltaGlobal(abstract_dynamics.DynamicsModel):
         self.action_spec().minimum[1],
         self.action_spec().maximum[1],
     )
-    yaw = geometry.wrap_yaws(action[..., 2])
+    yaw = jnp.clip(
+        geometry.wrap_yaws(action[..., 2]),
+        self.action_spec().minimum[2],
+        self.action_spec().maximum[2],
+    )
     return jnp.stack([x, y, yaw], axis=-1)
 
   def inverse(
-- 
2.43.0


From 374a074c00f7898187a3f259e2492024290552ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 15/15] fix: clip the actions DeltaLocal infers in the local
 frame only

---
 waymax/dynamics/delta.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/waymax/dynamics/delta.py b/waymax/dynamics/delta.py
index 533d657..3c53937 100644
--- a/waymax/dynamics/delta.py
+++ b/waymax/dynamics/delta.py
@@ -139,6 +139,13 @@ class DeltaGlobal(abstract_dynamics.DynamicsModel):
       An Action that converts traj[timestep] to traj[timestep+1] of shape
         (..., num_objects, dim=2).
     """
+    action = self._displacement(trajectory, timestep)
+    return action.replace(data=self._clip_values(action.data))
+
+  def _displacement(
+      self, trajectory: datatypes.Trajectory, timestep: int
+  ) -> datatypes.Action:
+    """Returns the unclipped (dx, dy, dyaw) from timestep to timestep + 1."""
     # Form a tensor of shape (..., num_objects, num_timesteps, 3)
     xy_yaw_ = jnp.stack([trajectory.x, trajectory.y, trajectory.yaw], axis=-1)
     # Sliced before/after values of shape (..., num_objects, num_timesteps=2, 3)
@@ -154,7 +161,6 @@ class DeltaGlobal(abstract_dynamics.DynamicsModel):
 
     # Defaults to 0s for invalid actions.
     action_array = jnp.where(valid, raw_action_array, 0.0)
-    action_array = self._clip_values(action_array)
 
     return datatypes.Action(data=action_array, valid=valid)
 
@@ -204,7 +210,7 @@ class DeltaLocal(DeltaGlobal):
       metadata: datatypes.ObjectMetadata,
       timestep: int,
   ) -> datatypes.Action:
-    """Calls DeltaGlobal's inverse and converts to local coordinates.
+    """Infers the displacement and converts it to local coordinates.
 
     Args:
       trajectory: A Trajectory used to infer actions of shape (..., num_objects,
@@ -216,7 +222,8 @@ class DeltaLocal(DeltaGlobal):
       An Action that converts traj[timestep] to traj[timestep+1] of shape
         (..., num_objects, dim=2).
     """
-    global_actions = super().inverse(trajectory, metadata, timestep)
+    # Clips only in the local frame, in which the bounds are defined.
+    global_actions = self._displacement(trajectory, timestep)
 
     # Yaw in global coordinates.
     current_yaw = jax.lax.dynamic_slice_in_dim(
-- 
2.43.0

