"""Behaviour-preserving edits on which the checks have to stay quiet (exit 0).

python3 tools/refactors.py [id ...]
"""
import os
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = os.environ.get('WT', '/tmp/refwt')
R = []


def r(id, checks, *edits):
  R.append((id, checks.split(), edits))


r('offroad_helper', 'C14 C30', ('metrics/roadgraph.py', """  square_distances = jnp.sum(z_stretched_differences**2, axis=-1)
""", """  square_distances = jnp.einsum(
      '...i,...i->...', z_stretched_differences, z_stretched_differences
  )
"""), ('metrics/roadgraph.py', """  prior_indices = jnp.maximum(
      jnp.zeros_like(nearest_indices), nearest_indices - 1
  )
""", """  prior_indices = jnp.where(nearest_indices > 0, nearest_indices - 1, 0)
"""), ('metrics/roadgraph.py', """  return jnp.any(distances > 0.0, axis=-1)
""", """  return jnp.max(distances, axis=-1) > 0.0
"""))
r('offroad_cross', 'C14', ('metrics/roadgraph.py', """  cross_product = jnp.cross(points_to_edge, nearest_vector_xys)
""", """  cross_product = (
      points_to_edge[..., 0] * nearest_vector_xys[..., 1]
      - points_to_edge[..., 1] * nearest_vector_xys[..., 0]
  )
"""), ('metrics/roadgraph.py', """  offroad_sign = jnp.sign(
      jnp.where(
          jnp.logical_and(
              prior_point_in_same_curve, cross_product_prior < cross_product
          ),
          cross_product_prior,
          cross_product,
      )
  )
""", """  side = jnp.where(
      prior_point_in_same_curve,
      jnp.minimum(cross_product_prior, cross_product),
      cross_product,
  )
  offroad_sign = jnp.sign(side)
"""))
r('overlap_where', 'C13 C19', ('metrics/overlap.py', """    num_overlap = jnp.sum(pairwise_overlap, axis=-2)
    overlap_indication = (num_overlap > 0).astype(jnp.float32)
""", """    overlap_indication = jnp.where(
        jnp.any(pairwise_overlap, axis=-2), 1.0, 0.0
    )
"""))
r('geom_norm', 'C11 C12 C13', ('utils/geometry.py', """    distance = jnp.minimum(max_a, max_b) - jnp.maximum(min_a, min_b)
    return jnp.all(distance > 0, axis=-1)
""", """    return jnp.all((max_a > min_b) & (max_b > min_a), axis=-1)
"""), ('utils/geometry.py', """    self_mask = jnp.eye(num_agents)
    # Removes overlap on self.
    return jnp.where(self_mask, False, overlaps)
""", """    return overlaps & ~jnp.eye(num_agents, dtype=bool)
"""), ('utils/geometry.py', """  return jnp.einsum(
      'pab,pnb->pna', matrix_p, points_p, precision='float32'
  ).reshape(points.shape)
""", """  rotated = jnp.matmul(
      points_p, jnp.swapaxes(matrix_p, -1, -2), precision='float32'
  )
  return rotated.reshape(points.shape)
"""))
r('geom_corners', 'C12 C13 C14 C31', ('utils/geometry.py', """  c, s = jnp.cos(bbox[4]), jnp.sin(bbox[4])
  lc = bbox[2] / 2 * c
  ls = bbox[2] / 2 * s
  wc = bbox[3] / 2 * c
  ws = bbox[3] / 2 * s
  points = jnp.array([
      [lc + ws, ls - wc],
      [lc - ws, ls + wc],
      [-lc - ws, -ls + wc],
      [-lc + ws, -ls - wc],
  ])
  points += bbox[jnp.newaxis, :2]
  return points
""", """  x, y, length, width, yaw = bbox
  c, s = jnp.cos(yaw), jnp.sin(yaw)
  half = jnp.array([
      [length, -width],
      [length, width],
      [-length, width],
      [-length, -width],
  ]) / 2
  return jnp.stack(
      [
          x + half[:, 0] * c - half[:, 1] * s,
          y + half[:, 0] * s + half[:, 1] * c,
      ],
      axis=-1,
  )
"""))
r('wrap_floor', 'C11 C07 C06', ('utils/geometry.py', """  return (yaws + jnp.pi) % (2 * jnp.pi) - jnp.pi
""", """  turns = jnp.floor((yaws + jnp.pi) / (2 * jnp.pi))
  return yaws - turns * (2 * jnp.pi)
"""))
r('bicycle_hypot', 'C07 C08 C15 C09', ('dynamics/bicycle_model.py', """    speed = jnp.sqrt(trajectory.vel_x**2 + trajectory.vel_y**2)
""", """    speed = jnp.linalg.norm(trajectory.vel_xy, axis=-1)
"""), ('dynamics/bicycle_model.py', """    delta_yaw = steering * (speed * t + 0.5 * accel * t**2)
    new_yaw""", """    mean_speed = (speed + (speed + accel * t)) / 2
    delta_yaw = steering * mean_speed * t
    new_yaw"""), ('dynamics/bicycle_model.py', """  steering = delta_yaw / (speed[..., 0:1, :] * dt + 0.5 * accel * dt**2)
""", """  travelled = (speed[..., 0:1, :] + new_speed) / 2 * dt
  steering = delta_yaw / travelled
"""))
r('bicycle_slow', 'C08 C15', ('dynamics/bicycle_model.py', """  steering = jnp.where(jnp.abs(speed[..., 0:1, :]) < _SPEED_LIMIT, 0, steering)
  steering = jnp.where(jnp.abs(speed[..., 1:2, :]) < _SPEED_LIMIT, 0, steering)
""", """  is_slow = jnp.any(speed < _SPEED_LIMIT, axis=-2, keepdims=True)
  steering = jnp.where(is_slow, 0.0, steering)
"""))
r('delta_rot', 'C06 C09', ('dynamics/delta.py', """    rotated_xy = jnp.matmul(
        rotation_mat, action.data[..., :2, jnp.newaxis], precision='float32'
    )[..., 0]
""", """    rotated_xy = geometry.rotate_points(
        rotation_mat, action.data[..., jnp.newaxis, :2]
    )[..., 0, :]
"""))
r('apply_update', 'C01 C02 C03 C09', ('dynamics/abstract_dynamics.py', """  exist_and_controlled = is_controlled & current_traj.valid
""", """  exist_and_controlled = jnp.logical_and(
      current_traj.valid, jnp.where(is_controlled, True, False)
  )
"""))
r('discretizer', 'C10', ('dynamics/discretizer.py', """    indices_nd = jnp.rint(
        jnp.maximum(jnp.minimum(normalized_indices, self._bins), 0)
    ).astype(jnp.int32)
""", """    indices_nd = jnp.round(
        jnp.clip(normalized_indices, 0, self._bins)
    ).astype(jnp.int32)
"""), ('dynamics/discretizer.py', """    indices_nd = jnp.stack(
        jnp.unravel_index(jnp.reshape(indices_1d, [-1]), self._bins + 1),
        axis=-1,
    )
""", """    sizes = (np.asarray(self._bins) + 1).tolist()
    rest = jnp.reshape(indices_1d, [-1])
    digits = []
    for size in reversed(sizes):
      digits.append(rest % size)
      rest = rest // size
    indices_nd = jnp.stack(digits[::-1], axis=-1)
"""))
r('route_take', 'C17', ('metrics/route.py', """      return jnp.take_along_axis(path.arc_length, indices=idx, axis=-1)[..., 0]
""", """      onehot = jax.nn.one_hot(
          idx[..., 0], path.arc_length.shape[-1], dtype=jnp.float32
      )
      return jnp.sum(jnp.where(onehot > 0, path.arc_length, 0.0), axis=-1)
"""), ('metrics/route.py', """    sdc_off_route = (
        min_sdc_dist_to_valid_on_route_paths > self.MAX_DISTANCE_TO_ROUTE_PATH
    ) | (
        min_sdc_dist_to_valid_on_route_paths
        - min_sdc_dist_to_valid_off_route_paths
        > self.MAX_RELATIVE_DISTANCE_TO_OFF_ROUTE_PATH
    )
""", """    too_far = (
        min_sdc_dist_to_valid_on_route_paths > self.MAX_DISTANCE_TO_ROUTE_PATH
    )
    closer_elsewhere = (
        min_sdc_dist_to_valid_on_route_paths
        - min_sdc_dist_to_valid_off_route_paths
    ) > self.MAX_RELATIVE_DISTANCE_TO_OFF_ROUTE_PATH
    sdc_off_route = jnp.logical_or(too_far, closer_elsewhere)
"""))
r('reward_sum', 'C18 C30', ('rewards/linear_combination_reward.py', """    reward = jnp.zeros_like(agent_mask)
    for reward_metric_name, reward_weight in self._config.rewards.items():
      metric_all_agents = all_metrics[reward_metric_name].masked_value()
      metric = metric_all_agents * agent_mask
      reward += metric * reward_weight

    return reward
""", """    reward = jnp.zeros(agent_mask.shape, jnp.float32)
    for name in self._config.rewards:
      result = all_metrics[name]
      counts = result.valid & agent_mask
      reward = reward + jnp.where(
          counts, result.value * self._config.rewards[name], 0.0
      )
    return reward
"""))
r('merge_reduce', 'C20', ('agents/actor_core.py', """  action = actor_outputs[0].action

  def _merge_actions(mask, first, second):
    return jax.tree_util.tree_map(
        lambda x, y: jnp.where(mask, x, y),
        first,
        second,
    )

  for output in actor_outputs[1:]:
    action = _merge_actions(
        output.is_controlled[..., jnp.newaxis], output.action, action
    )

  return action
""", """  data, valid = actor_outputs[0].action.data, actor_outputs[0].action.valid
  for i in range(1, len(actor_outputs)):
    output = actor_outputs[i]
    mask = jnp.expand_dims(output.is_controlled, axis=-1)
    data = jnp.where(mask, output.action.data, data)
    valid = (mask & output.action.valid) | (~mask & valid)
  return datatypes.Action(data=data, valid=valid)
"""))
r('plan_loop', 'C19 C01 C04 C05 C30', ('env/planning_agent_environment.py', """      action = agent_output.action
      controlled_by_sim = agent_output.is_controlled & is_controllable
      merged_action_data = jnp.where(
          controlled_by_sim[..., jnp.newaxis], action.data, merged_action.data
      )
      merged_action_valid = jnp.where(
          controlled_by_sim[..., jnp.newaxis], action.valid, merged_action.valid
      )
      merged_action = datatypes.Action(
          data=merged_action_data, valid=merged_action_valid
      )
      merged_controlled = merged_controlled | controlled_by_sim
""", """      controlled_by_sim = agent_output.is_controlled & is_controllable
      merged_action = datatypes.update_by_mask(
          merged_action, agent_output.action, controlled_by_sim[..., jnp.newaxis]
      )
      merged_controlled = jnp.logical_or(merged_controlled, controlled_by_sim)
"""))
r('obs_eye', 'C22 C30', ('datatypes/observation.py', """  is_ego = jax.lax.broadcast_in_dim(
      jnp.eye(num_obj, dtype=jnp.bool_),
      shape=target_shape,
      broadcast_dimensions=(len(target_shape) - 2, len(target_shape) - 1),
  )
""", """  is_ego = jnp.broadcast_to(jnp.eye(num_obj, dtype=jnp.bool_), target_shape)
"""), ('datatypes/observation.py', """    _, sdc_idx = jax.lax.top_k(state.object_metadata.is_sdc, k=1)
    sdc_xy = jnp.take""", """    sdc_idx = jnp.argmax(state.object_metadata.is_sdc, axis=-1, keepdims=True)
    sdc_xy = jnp.take"""))
r('topk_sort', 'C23 C22', ('datatypes/roadgraph.py', """    _, top_idx = jax.lax.top_k(-valid_distances, topk)
""", """    top_idx = jnp.argsort(valid_distances, axis=-1)[..., :topk]
"""))
r('topk_sq', 'C23', ('datatypes/roadgraph.py', """    distances = jnp.linalg.norm(
        reference_points[..., jnp.newaxis, :] - roadgraph.xy, axis=-1
    )
""", """    offset = reference_points[..., jnp.newaxis, :] - roadgraph.xy
    distances = jnp.sum(offset * offset, axis=-1)
"""))
r('onehot_where', 'C24 C17 C19 C18', ('datatypes/operations.py', """    return jnp.sum(
        x * reshaped_selection, axis=(selection.ndim - 1), keepdims=keepdims
    ).astype(x.dtype)
""", """    picked = jnp.where(reshaped_selection, x, jnp.zeros_like(x))
    return jnp.sum(
        picked, axis=selection.ndim - 1, keepdims=keepdims
    ).astype(x.dtype)
"""))
r('onehot_argmax', 'C17 C19', ('metrics/route.py', """    sdc_xy_start = datatypes.select_by_onehot(
        simulator_state.log_trajectory.xy[..., 0, :],
        simulator_state.object_metadata.is_sdc,
        keepdims=False,
    )
""", """    sdc_index = jnp.argmax(simulator_state.object_metadata.is_sdc, axis=-1)
    sdc_xy_start = jnp.take_along_axis(
        simulator_state.log_trajectory.xy[..., 0, :],
        sdc_index[..., jnp.newaxis, jnp.newaxis],
        axis=-2,
    )[..., 0, :]
"""))
r('rollout_loop', 'C26', ('env/rollout.py', """  padding_action = jax.tree_util.tree_map(
      lambda x: jnp.zeros_like(x[-1]), output.action
  )
""", """  padding_action = jax.tree_util.tree_map(
      lambda x: jnp.zeros(x.shape[1:], x.dtype), output.action
  )
"""))
r('brax_pack', 'C27 C05', ('env/wrappers/brax_wrapper.py', """    done = jnp.logical_or(termination, truncation)
    discount = jnp.logical_not(termination).astype(jnp.float32)
    metric_dict""", """    done = termination | truncation
    discount = jnp.where(termination, 0.0, 1.0)
    metric_dict"""))
r('dm_reorder', 'C27', ('env/wrappers/dm_env_wrapper.py', """    discount = jnp.logical_not(termination).astype(jnp.float32)
    if jnp.all(done):
      self._done = True
      return dm_env.TimeStep(
          dm_env.StepType.LAST,
          discount=discount,
          reward=reward,
          observation=self.observe(self._cur_state),
      )
    elif jnp.any(done):""", """    observation = self.observe(self._cur_state)
    self._done = bool(jnp.all(done))
    if self._done:
      discount = 1.0 - termination.astype(jnp.float32)
      return dm_env.TimeStep(
          step_type=dm_env.StepType.LAST,
          reward=reward,
          discount=discount,
          observation=observation,
      )
    if jnp.any(done):"""))
r('womd_mean', 'C25', ('dataloader/womd_factories.py', """  length = jnp.asarray(example[f'{prefix}/length'], jnp.float32)
  length = operations.masked_mean(length, valid=valid, axis=-1)
  width = jnp.asarray(example[f'{prefix}/width'], jnp.float32)
  width = operations.masked_mean(width, valid=valid, axis=-1)
  height = jnp.asarray(example[f'{prefix}/height'], jnp.float32)
  height = operations.masked_mean(height, valid=valid, axis=-1)
""", """  def _dimension(name):
    per_step = jnp.asarray(example[f'{prefix}/{name}'], jnp.float32)
    return operations.masked_mean(per_step, valid=valid, axis=-1)

  length, width, height = map(_dimension, ('length', 'width', 'height'))
"""), ('datatypes/operations.py', """  num_valid = jnp.sum(valid.astype(jnp.float32), axis=axis)
  masked_sum = jnp.sum(x, where=valid, axis=axis)
  mean = masked_sum / num_valid
  mean = jnp.where(num_valid == 0, invalid_value, mean)
""", """  num_valid = jnp.count_nonzero(valid, axis=axis)
  masked_sum = jnp.sum(jnp.where(valid, x, 0), axis=axis)
  mean = jnp.where(
      num_valid > 0, masked_sum / jnp.maximum(num_valid, 1), invalid_value
  )
"""))
r('idm_lead', 'C21', ('agents/waypoint_following_agent.py', """    lead_dist = jnp.where(lead_dist == 0, _MINIMUM_LEAD_DISTANCE, lead_dist)
    return self.max_accel * (
        1
        - (cur_speed / self.desired_vel) ** self.delta
        - (s_star / lead_dist) ** 2
    )
""", """    lead_dist = jnp.where(lead_dist == 0, _MINIMUM_LEAD_DISTANCE, lead_dist)
    free_road = (cur_speed / self.desired_vel) ** self.delta
    interaction = jnp.square(s_star / lead_dist)
    return self.max_accel * (1 - free_road - interaction)
"""), ('agents/waypoint_following_agent.py', """        collision_indicator=collision_pairwise.any(axis=-2),
""", """        collision_indicator=jnp.sum(collision_pairwise, axis=-2) > 0,
"""))
r('state_done', 'C05 C04 C26', ('datatypes/simulator_state.py', """    return jnp.array(  # pytype: disable=bad-return-type  # jnp-type
        (self.timestep + 1) >= self.log_trajectory.num_timesteps, bool
    )
""", """    return jnp.asarray(self.remaining_timesteps <= 0)
"""), ('datatypes/simulator_state.py', """  return state.replace(
      timestep=state.timestep + num_steps,
      sim_trajectory=operations.update_by_slice_in_dim(
          inputs=state.sim_trajectory,
          updates=state.log_trajectory,
          inputs_start_idx=state.timestep + 1,
          slice_size=num_steps,
          axis=-1,
      ),
  )
""", """  start = state.timestep + 1
  new_steps = operations.dynamic_slice(
      state.log_trajectory, start, num_steps, axis=-1
  )
  sim_trajectory = operations.dynamic_update_slice_in_dim(
      state.sim_trajectory, new_steps, start, axis=-1
  )
  return state.replace(
      timestep=state.timestep + num_steps, sim_trajectory=sim_trajectory
  )
"""))
r('kim_max', 'C15 C30', ('metrics/comfort.py', """    kim_infeasibility_bool = jnp.logical_or(
        jnp.abs(accel) > self._max_acc + _KIM_EPSILON,
        jnp.abs(steering) > self._max_steering + _KIM_EPSILON,
    )
    kim_infeasibility = 1.0 * kim_infeasibility_bool
""", """    limits = jnp.array([self._max_acc, self._max_steering]) + _KIM_EPSILON
    exceeded = jnp.any(
        jnp.abs(jnp.stack([accel, steering], axis=-1)) > limits, axis=-1
    )
    kim_infeasibility = exceeded.astype(jnp.float32)
"""))
r('div_hypot', 'C16 C30', ('metrics/imitation.py', """    return jnp.linalg.norm(object_xy - log_xy, axis=-1)
""", """    dx, dy = jnp.moveaxis(object_xy - log_xy, -1, 0)
    return jnp.hypot(dx, dy)
"""))
r('const_speed', 'C21', ('agents/constant_speed.py', """    traj_combined = jax.tree_util.tree_map(
        lambda x, y: jnp.concatenate((x, y), axis=-1), traj_t0, traj_t1
    )
""", """    traj_combined = jax.tree_util.tree_map(
        lambda *steps: jnp.stack([s[..., 0] for s in steps], axis=-1),
        traj_t0,
        traj_t1,
    )
"""))
r('shards', 'C29', ('dataloader/dataloader_utils.py', """  shard_width = max(5, int(math.log10(num_shards) + 1))
  format_str = '-%0' + str(shard_width) + 'd-of-%05d'
  return [base_name + format_str % (i, num_shards) for i in range(num_shards)]
""", """  if num_shards < 1:
    raise ValueError('math domain error')
  shard_width = max(5, len(str(num_shards)))
  filenames = []
  for i in range(num_shards):
    filenames.append(f'{base_name}-{i:0{shard_width}d}-of-{num_shards:05d}')
  return filenames
"""))

# --- second batch
r('idm_speed', 'C21', ('agents/waypoint_following_agent.py', """    speed = jnp.where(speed < 0, 0, speed)
    return speed, valid
""", """    return jnp.maximum(speed, 0.0), valid
"""), ('agents/waypoint_following_agent.py', """    return self.max_accel * (
        1
        - (cur_speed / self.desired_vel) ** self.delta
        - (s_star / lead_dist) ** 2
    )
""", """    free_road = 1 - jnp.power(cur_speed / self.desired_vel, self.delta)
    interaction = jnp.square(s_star / lead_dist)
    return self.max_accel * (free_road - interaction)
"""))
r('idm_project', 'C21', ('agents/waypoint_following_agent.py', """    last_valid_idx = jnp.where(traj.valid, jnp.arange(traj.shape[0]), 0)
    last_valid_idx = jnp.argmax(last_valid_idx, axis=-1)
""", """    last_valid_idx = jnp.max(
        jnp.where(traj.valid, jnp.arange(traj.shape[0]), 0), axis=-1
    )
"""), ('agents/waypoint_following_agent.py', """    proj_xy = src_dir * jnp.inner(src_dir, xy - src_xy) + src_xy
""", """    along = jnp.sum(src_dir * (xy[0] - src_xy), axis=-1)
    proj_xy = src_xy + along * src_dir
"""), ('agents/waypoint_following_agent.py', """    dist_travel = (new_speed + cur_speed) / 2 * dt
""", """    dist_travel = 0.5 * dt * (new_speed + cur_speed)
"""))
r('idm_headway', 'C21', ('agents/waypoint_following_agent.py', """  spacings = jnp.linspace(0, distance, num=num_points + 1, endpoint=True)
  spacings = jnp.reshape(
      spacings, (1,) * len(final_dir.shape[:-2]) + (num_points + 1, 1)
  )
  new_xy_points = ((final_dir * spacings) + final_xyz)[..., 1:, :]
""", """  spacings = jnp.linspace(0, distance, num=num_points + 1)[1:, jnp.newaxis]
  new_xy_points = final_xyz + final_dir * spacings
"""), ('agents/waypoint_following_agent.py', """    tile_shape = ((1,) * len(item.shape[:-1])) + (num_points,)
    new_item = jnp.tile(item[..., -1:], tile_shape)
""", """    new_item = jnp.repeat(item[..., -1:], num_points, axis=-1)
"""))
r('update_mask_select', 'C24 C01', ('datatypes/operations.py', """      lambda x, y: jnp.where(mask, x, y), updates, inputs
""", """      lambda old, new: jnp.where(jnp.logical_not(mask), old, new),
      inputs,
      updates,
"""), ('datatypes/operations.py', """  num_valid = jnp.sum(valid.astype(jnp.float32), axis=axis)
  masked_sum = jnp.sum(x, where=valid, axis=axis)
  mean = masked_sum / num_valid
  mean = jnp.where(num_valid == 0, invalid_value, mean)
""", """  num_valid = jnp.count_nonzero(valid, axis=axis)
  masked_sum = jnp.where(valid, x, 0).sum(axis=axis)
  any_valid = num_valid > 0
  mean = jnp.where(
      any_valid, masked_sum / jnp.maximum(num_valid, 1), invalid_value
  )
"""), ('datatypes/operations.py', """    return -1 * jnp.ones_like(data)
""", """    return jnp.full_like(data, -1)
"""))
r('slice_take', 'C24 C30 C22', ('datatypes/operations.py', """  def _slice(x, start_index):
    return jax.lax.dynamic_slice_in_dim(x, start_index, slice_size, axis)
""", """  def _slice(x, start_index):
    length = x.shape[axis]
    start = jnp.where(start_index < 0, start_index + length, start_index)
    start = jnp.clip(start, 0, length - slice_size)
    return jnp.take(x, start + jnp.arange(slice_size), axis=axis)
"""))
r('control_mask', 'C02 C03 C01', ('env/base_environment.py', """  if (
      config.controlled_object == _config.ObjectType.VALID
      and not config.allow_new_objects_after_warmup
  ):
    return datatypes.dynamic_index(
        state.sim_trajectory.valid,
        index=config.init_steps - 1,
        axis=-1,
        keepdims=False,
    )
  else:
    return datatypes.get_control_mask(
        state.object_metadata, config.controlled_object
    )
""", """  replay_valid = config.controlled_object == _config.ObjectType.VALID
  if not replay_valid or config.allow_new_objects_after_warmup:
    return datatypes.get_control_mask(
        state.object_metadata, config.controlled_object
    )
  return state.sim_trajectory.valid[..., config.init_steps - 1]
"""))
r('rollout_stack', 'C26', ('env/rollout.py', """  padding_action = jax.tree_util.tree_map(
      lambda x: jnp.zeros_like(x[-1]), output.action
  )
""", """  padding_action = jax.tree_util.tree_map(
      lambda x: jnp.zeros(x.shape[1:], x.dtype), output.action
  )
"""), ('env/rollout.py', """      lambda x, y: jnp.concatenate([x, y[jnp.newaxis]], axis=0),
""", """      lambda x, y: jnp.append(x, jnp.expand_dims(y, 0), axis=0),
"""))
r('obs_traj', 'C22 C30 C11', ('datatypes/observation.py', """  local_yaw = traj.yaw + jnp.expand_dims(pose2d.delta_yaw, axis=expand_axis)
  local_valid = traj.valid & jnp.expand_dims(pose2d.valid, axis=expand_axis)
""", """  extra = (1,) * len(expand_axis)
  local_yaw = traj.yaw + pose2d.delta_yaw.reshape(pose2d.shape + extra)
  local_valid = jnp.logical_and(
      pose2d.valid.reshape(pose2d.shape + extra), traj.valid
  )
"""), ('datatypes/observation.py', """    return jnp.repeat(jnp.expand_dims(x, axis=axis), repeats, axis=axis)
""", """    return jnp.stack([x] * repeats, axis=axis)
"""))
r('obs_sdc', 'C22', ('datatypes/observation.py', """    _, sdc_idx = jax.lax.top_k(state.object_metadata.is_sdc, k=1)
    sdc_xy = jnp.take_along_axis(obj_xy, sdc_idx[..., jnp.newaxis], axis=-2)
    sdc_yaw = jnp.take_along_axis(obj_yaw, sdc_idx, axis=-1)
    sdc_valid = jnp.take_along_axis(obj_valid, sdc_idx, axis=-1)
""", """    sdc_idx = jnp.argmax(
        state.object_metadata.is_sdc, axis=-1, keepdims=True
    )
    sdc_xy = jnp.take_along_axis(obj_xy, sdc_idx[..., jnp.newaxis], axis=-2)
    sdc_yaw = jnp.take_along_axis(obj_yaw, sdc_idx, axis=-1)
    sdc_valid = jnp.take_along_axis(obj_valid, sdc_idx, axis=-1)
"""))
r('geom_rot', 'C11 C06 C12', ('utils/geometry.py', """  return jnp.stack([cos, -sin, sin, cos], axis=-1).reshape(angle.shape + (2, 2))
""", """  top = jnp.stack([cos, -sin], axis=-1)
  bottom = jnp.stack([sin, cos], axis=-1)
  return jnp.stack([top, bottom], axis=-2)
"""), ('utils/geometry.py', """  prefix_len = matrix.ndim - 2
  chex.assert_equal_shape_prefix((matrix, points), prefix_len)

  num_dof = matrix.shape[-1]
  matrix_p = matrix.reshape(-1, num_dof, num_dof)
  points_p = points.reshape(matrix_p.shape[0], -1, num_dof)
  return jnp.einsum(
      'pab,pnb->pna', matrix_p, points_p, precision='float32'
  ).reshape(points.shape)
""", """  prefix_len = matrix.ndim - 2
  chex.assert_equal_shape_prefix((matrix, points), prefix_len)
  for _ in range(points.ndim - prefix_len - 1):
    matrix = jnp.expand_dims(matrix, axis=prefix_len)
  return jnp.sum(matrix * points[..., jnp.newaxis, :], axis=-1)
"""))
r('geom_pose', 'C11 C22', ('utils/geometry.py', """    pose_yaw = -jnp.array(local_yaw)  # rotate x-axis by yaw count-clockwise.
    c, s = jnp.cos(pose_yaw), jnp.sin(pose_yaw)
    rotation_matrix = jnp.array([[c, -s], [s, c]])
    translation_vector = -jnp.array([
        [c * local_xy[0] - s * local_xy[1]],
        [s * local_xy[0] + c * local_xy[1]],
    ])
    pose_matrix = jnp.concatenate(
        [rotation_matrix, translation_vector], axis=-1
    )
    pose_matrix = jnp.concatenate(
        [pose_matrix, jnp.array([[0.0, 0.0, 1.0]])], axis=0
    )
""", """    pose_yaw = -jnp.array(local_yaw)  # rotate x-axis by yaw count-clockwise.
    rotation_matrix = rotation_matrix_2d(pose_yaw)
    pose_matrix = jnp.eye(3)
    pose_matrix = pose_matrix.at[:2, :2].set(rotation_matrix)
    pose_matrix = pose_matrix.at[:2, 2].set(-rotation_matrix @ local_xy)
"""), ('utils/geometry.py', """  pad_width = [(0, 1) if i == pts.ndim - 1 else (0, 0) for i in range(pts.ndim)]
  # Add homogeneous dimension.
  out_pts = jnp.pad(pts, pad_width, mode='constant', constant_values=1.0)
""", """  # Add homogeneous dimension.
  out_pts = jnp.concatenate([pts, jnp.ones_like(pts[..., :1])], axis=-1)
"""))
r('bicycle_inv', 'C08 C15 C09', ('dynamics/bicycle_model.py', """  steering = jnp.where(jnp.abs(speed[..., 0:1, :]) < _SPEED_LIMIT, 0, steering)
  steering = jnp.where(jnp.abs(speed[..., 1:2, :]) < _SPEED_LIMIT, 0, steering)
""", """  slow = jnp.any(speed < _SPEED_LIMIT, axis=-2, keepdims=True)
  steering = jnp.where(slow, 0.0, steering)
"""), ('dynamics/bicycle_model.py', """  steering = delta_yaw / (speed[..., 0:1, :] * dt + 0.5 * accel * dt**2)
""", """  travelled = 0.5 * (speed[..., 0:1, :] + new_speed) * dt
  steering = delta_yaw / travelled
"""))
r('bicycle_fwd', 'C07 C09', ('dynamics/bicycle_model.py', """    acc = jnp.clip(
        action_array[..., 0],
        self.action_spec().minimum[0],
        self.action_spec().maximum[0],
    )
    steering = jnp.clip(
        action_array[..., 1],
        self.action_spec().minimum[1],
        self.action_spec().maximum[1],
    )
    return jnp.stack([acc, steering], axis=-1)
""", """    spec = self.action_spec()
    return jnp.clip(
        action_array,
        spec.minimum.astype(np.float32),
        spec.maximum.astype(np.float32),
    )
"""), ('dynamics/bicycle_model.py', """    delta_yaw = steering * (speed * t + 0.5 * accel * t**2)
    new_yaw = geometry.wrap_yaws(yaw + delta_yaw)
    new_vel = speed + accel * t
""", """    new_vel = speed + accel * t
    delta_yaw = steering * t * (speed + new_vel) / 2
    new_yaw = geometry.wrap_yaws(yaw + delta_yaw)
"""))
r('apply_valid', 'C03 C02 C09', ('dynamics/abstract_dynamics.py', """  exist_and_controlled = is_controlled & current_traj.valid
""", """  keep = is_controlled & current_traj.valid
"""), ('dynamics/abstract_dynamics.py', """  next_valid = jnp.where(
      exist_and_controlled,
      current_traj.valid,
      current_traj.valid & default_next_traj.valid,
  )
  if allow_object_injection:
    # Additionally allow non-exist_and_controlled objects to appear.
    next_valid = jnp.where(
        exist_and_controlled, next_valid, default_next_traj.valid
    )
""", """  logged = default_next_traj.valid
  if not allow_object_injection:
    logged = logged & current_traj.valid
  next_valid = keep | logged
"""), ('dynamics/abstract_dynamics.py', """  # Update the simulated trajectory in the simulator state.
  return datatypes.update_by_slice_in_dim(
      inputs=sim_trajectory,
      updates=updated_traj,
      inputs_start_idx=timestep + 1,
      updates_start_idx=0,
      slice_size=1,
      axis=-1,
  )
""", """  # Update the simulated trajectory in the simulator state.
  return datatypes.dynamic_update_slice_in_dim(
      sim_trajectory, updated_traj, timestep + 1, -1
  )
"""))
r('womd_rg', 'C25', ('dataloader/womd_factories.py', """  out = roadgraph.RoadgraphPoints(
      x=xyz[..., 0],
      y=xyz[..., 1],
      z=xyz[..., 2],
      dir_x=dir_xyz[..., 0],
      dir_y=dir_xyz[..., 1],
      dir_z=dir_xyz[..., 2],
""", """  x, y, z = jnp.unstack(xyz, axis=-1)
  dir_x, dir_y, dir_z = jnp.moveaxis(dir_xyz, -1, 0)
  out = roadgraph.RoadgraphPoints(
      x=x,
      y=y,
      z=z,
      dir_x=dir_x,
      dir_y=dir_y,
      dir_z=dir_z,
"""), ('dataloader/womd_factories.py', """  sim_trajectory = jax.tree_util.tree_map(
      lambda x: jnp.zeros(x.shape, x.dtype), log_trajectory
  )

  # Updates timestep 0 from log_trajectory to sim_trajectory for all objects
  # and all fields.
  sim_trajectory = operations.update_by_slice_in_dim(
      sim_trajectory,
      log_trajectory,
      inputs_start_idx=0,
      slice_size=1,
      axis=-1,
  )
""", """  sim_trajectory = jax.tree_util.tree_map(
      lambda x: jnp.zeros_like(x).at[..., 0].set(x[..., 0]), log_trajectory
  )
"""))
r('plan_kim', 'C19 C18', ('env/planning_agent_environment.py', """      kim_metric = kim_metric.replace(
          value=kim_metric.value * kim_metric_valid,
          valid=kim_metric.valid & kim_metric_valid,
      )
""", """      kim_metric = kim_metric.replace(
          value=jnp.where(kim_metric_valid, kim_metric.value, 0.0),
          valid=jnp.logical_and(kim_metric_valid, kim_metric.valid),
      )
"""), ('env/planning_agent_environment.py', """    for metric_name in multi_agent_metrics_names:
      if metric_name in metric_dict:
        one_metric_dict = {metric_name: metric_dict[metric_name]}
        one_hot_metric = datatypes.select_by_onehot(
            one_metric_dict, state.object_metadata.is_sdc, keepdims=False
        )
        metric_dict[metric_name] = one_hot_metric[metric_name]
""", """    selected = {
        name: datatypes.select_by_onehot(result, state.object_metadata.is_sdc)
        for name, result in metric_dict.items()
        if name in multi_agent_metrics_names
    }
    metric_dict = {**metric_dict, **selected}
"""))
r('kim_linalg', 'C15 C30', ('metrics/comfort.py', """    kim_infeasibility_bool = jnp.logical_or(
        jnp.abs(accel) > self._max_acc + _KIM_EPSILON,
        jnp.abs(steering) > self._max_steering + _KIM_EPSILON,
    )
    kim_infeasibility = 1.0 * kim_infeasibility_bool
""", """    limits = jnp.array([self._max_acc, self._max_steering]) + _KIM_EPSILON
    exceeds = jnp.abs(jnp.stack([accel, steering], axis=-1)) > limits
    kim_infeasibility = jnp.any(exceeds, axis=-1).astype(jnp.float32)
"""))
r('metric_slice', 'C13 C14 C16 C30', ('metrics/overlap.py', """    current_object_state = datatypes.dynamic_slice(
        simulator_state.sim_trajectory,
        simulator_state.timestep,
        1,
        -1,
    )
""", """    current_object_state = simulator_state.current_sim_trajectory
"""), ('metrics/roadgraph.py', """    current_object_state = datatypes.dynamic_slice(
        simulator_state.sim_trajectory,
        simulator_state.timestep,
        1,
        -1,
    )
""", """    current_object_state = simulator_state.current_sim_trajectory
"""), ('metrics/roadgraph.py', """  z = jnp.ones_like(bbox_corners[..., 0:1]) * trajectory.z[..., jnp.newaxis, :]
""", """  z = jnp.broadcast_to(
      trajectory.z[..., jnp.newaxis, :], bbox_corners[..., 0:1].shape
  )
"""))

V = 'visualization/viz.py'
r('viz_masks', 'C33', (V, """  # Shrinks bounding_boxes for non-current steps.
  traj_5dof[time_indices != time_idx, 2:4] /= 10
""", """  # Shrinks bounding_boxes for non-current steps.
  is_current = time_indices == time_idx
  scale = np.where(is_current, 1.0, 0.1)[..., np.newaxis]
  traj_5dof = np.concatenate(
      [traj_5dof[..., :2], traj_5dof[..., 2:4] * scale, traj_5dof[..., 4:]],
      axis=-1,
  )
  upcoming = time_indices >= time_idx
"""), (V, """      bboxes=traj_5dof[(time_indices >= time_idx) & valid_controlled],
""", """      bboxes=traj_5dof[np.logical_and(upcoming, valid_controlled)],
"""), (V, """      bboxes=traj_5dof[(time_indices < time_idx) & valid],
""", """      bboxes=traj_5dof[~upcoming & valid],
"""))
r('viz_overlap', 'C33', (V, """  # Remove overlap against invalid objects.
  overlap_mask_matrix = np.where(
      valid[None, :, time_idx], overlap_mask_matrix, False
  )
  # (A,)
  overlap_mask = np.any(overlap_mask_matrix, axis=1)
""", """  # Remove overlap against invalid objects.
  currently_valid = np.asarray(valid[:, time_idx])
  # (A,)
  overlap_mask = (np.asarray(overlap_mask_matrix) & currently_valid).any(axis=1)
"""), (V, """      bboxes=traj_5dof[:, time_idx][overlap_mask & valid[:, time_idx]],
""", """      bboxes=traj_5dof[overlap_mask & currently_valid, time_idx],
"""))
r('viz_labels', 'C33', (V, """    for i in range(num_obj):
      if not traj.valid[i, time_idx]:
        continue
      ax.text(
          traj_5dof[i, time_idx, 0] - 2,
          traj_5dof[i, time_idx, 1] + 2,
          f'{indices[i]}',
          zorder=10,
      )
""", """    for i in np.flatnonzero(np.asarray(traj.valid)[:, time_idx]):
      x, y = traj_5dof[i, time_idx, :2]
      ax.text(x - 2, y + 2, str(indices[i]), zorder=10)
"""))
r('viz_labels2', 'C33', (V, """    for i in range(num_obj):
      if not traj.valid[i, time_idx]:
        continue
      ax.text(
          traj_5dof[i, time_idx, 0] - 2,
          traj_5dof[i, time_idx, 1] + 2,
          f'{indices[i]}',
          zorder=10,
      )
""", """    for i, label in enumerate(indices):
      if traj.valid[i, time_idx]:
        x, y = traj_5dof[i, time_idx, :2]
        ax.text(x - 2, y + 2, str(label), zorder=10)
"""))
r('viz_road', 'C33', (V, """  xy = rg_pts.xy[rg_pts.valid]
  rg_type = rg_pts.types[rg_pts.valid]
  for curr_type in np.unique(rg_type):
    if curr_type in _RoadGraphShown:
      p1 = xy[rg_type == curr_type]
      rg_color = color.ROAD_GRAPH_COLORS.get(curr_type, _RoadGraphDefaultColor)
      ax.plot(p1[:, 0], p1[:, 1], '.', color=rg_color, ms=2)
""", """  xy = rg_pts.xy[rg_pts.valid]
  rg_type = rg_pts.types[rg_pts.valid]
  for curr_type in np.unique(rg_type):
    if curr_type not in _RoadGraphShown:
      continue
    mask = rg_type == curr_type
    rg_color = color.ROAD_GRAPH_COLORS.get(curr_type, _RoadGraphDefaultColor)
    ax.plot(xy[mask, 0], xy[mask, 1], '.', color=rg_color, ms=2)
"""))
r('viz_tl', 'C33', (V, """  tls_xy = tls.xy[:, timestep][valid]
  tls_state = tls.state[:, timestep][valid]

  for xy, state in zip(tls_xy, tls_state):
    tl_color = color.TRAFFIC_LIGHT_COLORS[int(state)]
    ax.plot(xy[0], xy[1], marker='o', color=tl_color, ms=4)
""", """  for i in range(tls.num_traffic_lights):
    if not tls.valid[i, timestep]:
      continue
    tl_color = color.TRAFFIC_LIGHT_COLORS[int(tls.state[i, timestep])]
    ax.plot(
        tls.x[i, timestep],
        tls.y[i, timestep],
        marker='o',
        color=tl_color,
        ms=4,
    )
"""))
r('viz_paths', 'C33', (V, """    xy = paths.xy[i][paths.valid[i]]
    if paths.on_route[i]:
      ax.plot(xy[:, 0], xy[:, 1], 'co', ms=5, alpha=0.1)
    else:
      ax.plot(xy[:, 0], xy[:, 1], 'go', ms=5, alpha=0.1)
""", """    xy = paths.xy[i][paths.valid[i]]
    fmt = 'co' if paths.on_route[i] else 'go'
    ax.plot(xy[:, 0], xy[:, 1], fmt, ms=5, alpha=0.1)
"""))
r('viz_corners', 'C33', ('visualization/utils.py', """    tl = pt + length / 2 * u - width / 2 * ut
    tr = pt + length / 2 * u + width / 2 * ut
    br = pt - length / 2 * u + width / 2 * ut
    bl = pt - length / 2 * u - width / 2 * ut

    # Compute heading arrow using center left/right/front.
    cl = pt - width / 2 * ut
    cr = pt + width / 2 * ut
    cf = pt + length / 2 * u
""", """    forward = 0.5 * length * u
    right = 0.5 * width * ut
    # Compute heading arrow using center left/right/front.
    cl = pt - right
    cr = pt + right
    cf = pt + forward
    tl, tr = cl + forward, cr + forward
    bl, br = cl - forward, cr - forward
"""), ('visualization/utils.py', """        [tl[0, :], tr[0, :], br[0, :], bl[0, :], tl[0, :]],
        [tl[1, :], tr[1, :], br[1, :], bl[1, :], tl[1, :]],
""", """        *np.stack([tl, tr, br, bl, tl], axis=1),
"""))
r('viz_center', 'C33', (V, """  if viz_config.center_agent_idx == -1:
    xy = current_xy[obs.metadata.is_sdc]
  else:
    xy = current_xy[np.newaxis, viz_config.center_agent_idx]
  origin_x, origin_y = xy[0, :2]
  ax.axis((
      origin_x - viz_config.back_x,
      origin_x + viz_config.front_x,
      origin_y - viz_config.back_y,
      origin_y + viz_config.front_y,
  ))
""", """  if viz_config.center_agent_idx == -1:
    center = current_xy[obs.metadata.is_sdc][0]
  else:
    center = current_xy[viz_config.center_agent_idx]
  utils.center_at_xy(ax, center, viz_config)
"""))
r('brax_order', 'C27 C32', ('env/wrappers/brax_wrapper.py', """    obs = self.observe(next_state)
    reward = self.reward(timestep.state, action)
    termination = self.termination(next_state)
    truncation = self.truncation(next_state)
    done = jnp.logical_or(termination, truncation)
    discount = jnp.logical_not(termination).astype(jnp.float32)
    metric_dict = self.metrics(timestep.state)
""", """    metric_dict = self._wrapped_env.metrics(timestep.state)
    reward = self._wrapped_env.reward(timestep.state, action)
    obs = self._wrapped_env.observe(next_state)
    termination = self.termination(next_state)
    done = termination | self.truncation(next_state)
    discount = jnp.where(termination, 0.0, 1.0)
"""))
r('womd_pre', 'C28', ('dataloader/womd_dataloader.py', """    wrap_yaws = lambda yaws: (yaws + jnp.pi) % (2 * jnp.pi) - jnp.pi
    processed['state/all/bbox_yaw'] = wrap_yaws(processed['state/all/bbox_yaw'])
""", """    yaw = processed['state/all/bbox_yaw']
    processed['state/all/bbox_yaw'] = (
        tf.math.floormod(yaw + jnp.pi, 2 * jnp.pi) - jnp.pi
    )
"""), ('dataloader/womd_dataloader.py', """    return {
        k: v[:max_num_objects]
        if k.startswith('state/') and k != 'state/which_time'
        else v
        for k, v in processed.items()
    }
  else:
    return processed
""", """    limited = {}
    for key, value in processed.items():
      per_object = key.startswith('state/') and key != 'state/which_time'
      limited[key] = value[:max_num_objects] if per_object else value
    return limited
  return processed
"""))

r('load_batch', 'C34 C29', ('dataloader/dataloader_utils.py', """    if batch_dims:
      for batch_size in reversed(batch_dims):
        ds = ds.batch(
            batch_size,
            drop_remainder=drop_remainder,
            num_parallel_calls=AUTOTUNE,
            deterministic=deterministic,
        )
    return ds
""", """    batch = functools.partial(
        tf.data.Dataset.batch,
        drop_remainder=drop_remainder,
        num_parallel_calls=AUTOTUNE,
        deterministic=deterministic,
    )
    return functools.reduce(batch, batch_dims[::-1], ds)
"""), ('dataloader/dataloader_utils.py', """  if shuffle_seed:
    random.seed(shuffle_seed)
    random.shuffle(files_to_load)
""", """  if shuffle_seed:
    files_to_load = list(files_to_load)
    random.Random(shuffle_seed).shuffle(files_to_load)
"""))
r('load_helper', 'C34 C29', ('dataloader/dataloader_utils.py', """  files = files.shard(jax.process_count(), jax.process_index())
""", """  num_hosts, host = jax.process_count(), jax.process_index()
  files = files.shard(num_shards=num_hosts, index=host)
"""), ('dataloader/dataloader_utils.py', """    local_files = local_files.shard(num_shards, shard_index)
    ds = local_files.interleave(
        dataset_fn,
        num_parallel_calls=AUTOTUNE,
        cycle_length=AUTOTUNE,
        deterministic=deterministic,
    )

    ds = ds.repeat(repeat)
""", """    ds = (
        local_files.shard(num_shards, shard_index)
        .interleave(
            lambda f: dataset_fn(f),
            num_parallel_calls=AUTOTUNE,
            cycle_length=AUTOTUNE,
            deterministic=deterministic,
        )
        .repeat(count=repeat)
    )
"""), ('dataloader/dataloader_utils.py', """  make_dataset_fn = functools.partial(
      _make_dataset, num_shards=num_shards, local_files=files
  )
  indices = tf.data.Dataset.range(num_shards)
  dataset = indices.interleave(
      make_dataset_fn, num_parallel_calls=AUTOTUNE, deterministic=deterministic
  )
""", """  dataset = tf.data.Dataset.range(num_shards).interleave(
      lambda i: _make_dataset(i, num_shards, files),
      num_parallel_calls=AUTOTUNE,
      deterministic=deterministic,
  )
"""))
r('load_gen', 'C34', ('dataloader/dataloader_utils.py', """  if postprocess_fn is None:
    for example in dataset.as_numpy_iterator():
      yield example
  else:
    if config.distributed:
      postprocess_fn = jax.pmap(postprocess_fn, axis_name='batch')
    else:
      postprocess_fn = jax.jit(postprocess_fn)
    for example in dataset.as_numpy_iterator():
      yield postprocess_fn(example)
""", """  if postprocess_fn is None:
    yield from dataset.as_numpy_iterator()
    return
  convert = (
      jax.pmap(postprocess_fn, axis_name='batch')
      if config.distributed
      else jax.jit(postprocess_fn)
  )
  yield from map(convert, dataset.as_numpy_iterator())
"""))
r('cfg_any', 'C35', ('config.py', """    if not self.data_config.include_sdc_paths and (
        ('sdc_wrongway' in self.env_config.metrics.metrics_to_run)
        | ('sdc_progression' in self.env_config.metrics.metrics_to_run)
        | ('sdc_off_route' in self.env_config.metrics.metrics_to_run)
    ):
""", """    route_metrics = {'sdc_wrongway', 'sdc_progression', 'sdc_off_route'}
    requested = route_metrics.intersection(
        self.env_config.metrics.metrics_to_run
    )
    if requested and not self.data_config.include_sdc_paths:
"""), ('config.py', """    if self.observation is not None:
      if self.observation.num_steps > self.init_steps:
""", """    if self.observation is not None:
      missing = self.observation.num_steps - self.init_steps
      if missing >= 1:
"""))
r('cfg_metrics', 'C35 C18', ('metrics/metric_factory.py', """  results = {}
  for metric_name in metrics_config.metrics_to_run:
    if metric_name in _METRICS_REGISTRY:
      results[metric_name] = _METRICS_REGISTRY[metric_name].compute(
          simulator_state
      )
    else:
      raise ValueError(f'Metric {metric_name} not registered.')

  return results
""", """  unknown = [
      name
      for name in metrics_config.metrics_to_run
      if name not in _METRICS_REGISTRY
  ]
  if unknown:
    raise ValueError(f'Metric {unknown[0]} not registered.')
  return {
      name: _METRICS_REGISTRY[name].compute(simulator_state)
      for name in metrics_config.metrics_to_run
  }
"""), ('rewards/linear_combination_reward.py', """  metric_names = metrics.get_metric_names()
  for reward_metric_name in config.rewards.keys():
    if reward_metric_name not in metric_names:
      raise ValueError(
""", """  metric_names = set(metrics.get_metric_names())
  for reward_metric_name in sorted(set(config.rewards) - metric_names):
      raise ValueError(
"""))


def main():
  want = sys.argv[1:]
  for id_, checks, edits in R:
    if want and id_ not in want:
      continue
    shutil.rmtree(WT, ignore_errors=True)
    shutil.copytree('/repo', WT, symlinks=True)
    bad = False
    for f, old, new in edits:
      p = f'{WT}/waymax/{f}'
      t = open(p).read()
      if t.count(old) != 1:
        print(id_, 'edit matches', t.count(old), 'times in', f, flush=True)
        bad = True
        continue
      open(p, 'w').write(t.replace(old, new))
    for c in checks:
      t0 = time.time()
      x = subprocess.run(['bash', 'check.sh', c, 'quick'], cwd=ROOT, capture_output=True, text=True, env=dict(os.environ, SVX_REPO=WT))
      lines = [l for l in (x.stdout + x.stderr).split('\n') if l.startswith(('VIOLATION', 'INCONCLUSIVE'))]
      print('quiet' if x.returncode == 0 else 'NOISY rc=%d' % x.returncode, id_, c, '%.0fs' % (time.time() - t0), lines[:4], flush=True)
  shutil.rmtree(WT, ignore_errors=True)


main()
