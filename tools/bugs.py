"""Quick sweep of small planted changes: reports those a check stays quiet on.

python3 tools/bugs.py [id-substring ...]     (results: /tmp/bugs.log)
"""
import os
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = os.environ.get('WT', '/tmp/bugwt')
B = []


def b(id, pid, path, old, new):
  B.append((id, pid, path, old, new))


D = 'dynamics/'
# --- stepping -------------------------------------------------------------
b('ts_cur', 'C02', D + 'abstract_dynamics.py', "replacement_dict['timestamp_micros'] = default_next_traj.timestamp_micros", "replacement_dict['timestamp_micros'] = current_traj.timestamp_micros + 100000")
b('ts_valid', 'C02', D + 'abstract_dynamics.py', "replacement_dict['timestamp_micros'] = default_next_traj.timestamp_micros", "replacement_dict['timestamp_micros'] = jnp.where(next_valid, default_next_traj.timestamp_micros, -1)")
b('dims_log', 'C02', D + 'abstract_dynamics.py', "updated_traj = current_traj.replace(**replacement_dict)", "updated_traj = default_next_traj.replace(**replacement_dict)")
b('ctl_invalid_upd', 'C02', D + 'abstract_dynamics.py', "          is_controlled, trajectory_update[field], default_next_traj[field]\n      )\n      replacement_dict[field] = new_value", "          is_controlled & trajectory_update.valid,\n          trajectory_update[field],\n          default_next_traj[field],\n      )\n      replacement_dict[field] = new_value")
b('ctl_exist', 'C02', D + 'abstract_dynamics.py', "          is_controlled, trajectory_update[field], default_next_traj[field]\n      )\n      replacement_dict[field] = new_value", "          is_controlled & current_traj.valid,\n          trajectory_update[field],\n          default_next_traj[field],\n      )\n      replacement_dict[field] = new_value")
b('inject_ctl', 'C03', D + 'abstract_dynamics.py', "        exist_and_controlled, next_valid, default_next_traj.valid\n", "        is_controlled, next_valid, default_next_traj.valid\n")
b('valid_upd', 'C03', D + 'abstract_dynamics.py', "      exist_and_controlled,\n      current_traj.valid,\n", "      exist_and_controlled,\n      trajectory_update.valid,\n")
b('mask_idx', 'C02', 'env/base_environment.py', "index=config.init_steps - 1,", "index=config.init_steps,")
b('mask_meta', 'C02', 'env/base_environment.py', "    return datatypes.dynamic_index(\n        state.sim_trajectory.valid,", "    return state.object_metadata.is_valid & datatypes.dynamic_index(\n        state.sim_trajectory.valid,")
b('mask_log', 'C02', 'env/base_environment.py', "        state.sim_trajectory.valid,\n        index=config.init_steps - 1,", "        state.log_trajectory.valid,\n        index=config.init_steps - 1,")
b('reset_simkeep', 'C04', 'env/base_environment.py', "        timestep=jnp.array(-1), sim_trajectory=sim_traj_uninitialized\n    )\n    return", "        timestep=jnp.array(-1),\n        sim_trajectory=sim_traj_uninitialized.replace(\n            length=state.log_trajectory.length\n        ),\n    )\n    return")
b('upd_log_steps', 'C04', 'datatypes/simulator_state.py', "          inputs_start_idx=state.timestep + 1,\n          slice_size=num_steps,", "          inputs_start_idx=jnp.maximum(state.timestep, 0),\n          slice_size=num_steps,")
b('done_ge', 'C05', 'datatypes/simulator_state.py', "(self.timestep + 1) >= self.log_trajectory.num_timesteps", "(self.timestep + 1) == self.log_trajectory.num_timesteps")
# --- delta ----------------------------------------------------------------
b('d_yawwrap', 'C06', D + 'delta.py', "        yaw=trajectory.yaw + dyaw,", "        yaw=geometry.wrap_yaws(trajectory.yaw + dyaw),")
b('d_clip_y', 'C06', D + 'delta.py', "        self.action_spec().minimum[1],\n        self.action_spec().maximum[1],", "        self.action_spec().minimum[0],\n        self.action_spec().maximum[1],")
b('d_valid0', 'C06', D + 'delta.py', "    valid = valids[..., 0:1] & valids[..., 1:2]\n\n    # Defaults", "    valid = valids[..., 1:2]\n\n    # Defaults")
b('d_local_t', 'C06', D + 'delta.py', "        trajectory.yaw, timestep, slice_size=1, axis=-1\n    )[..., 0]\n    current_valid", "        trajectory.yaw, timestep + 1, slice_size=1, axis=-1\n    )[..., 0]\n    current_valid")
# --- bicycle --------------------------------------------------------------
b('b_speedabs', 'C07', D + 'bicycle_model.py', "    new_vel = speed + accel * t\n", "    new_vel = jnp.maximum(speed + accel * t, 0.0)\n")
b('b_pos_vel', 'C07', D + 'bicycle_model.py', "    new_x = x + vel_x * t + 0.5", "    new_x = x + speed * jnp.cos(yaw) * t + 0.5")
b('b_norm_clip', 'C07', D + 'bicycle_model.py', "      steering = steering * self._max_steering", "      steering = steering * self._max_accel")
b('b_valid', 'C07', D + 'bicycle_model.py', "        valid=trajectory.valid & action.valid,", "        valid=action.valid,")
b('bi_le', 'C08', D + 'bicycle_model.py', "  steering = jnp.where(jnp.abs(speed[..., 1:2, :]) < _SPEED_LIMIT, 0, steering)\n", "")
b('bi_half', 'C08', D + 'bicycle_model.py', "(speed[..., 0:1, :] * dt + 0.5 * accel * dt**2)", "(speed[..., 0:1, :] * dt + accel * dt**2)")
b('bi_nrm', 'C08', D + 'bicycle_model.py', "      action_array = self._clip_values(action_array)\n    else:", "      action_array = jnp.tanh(action_array)\n    else:")
b('bi_nwrap', 'C08', D + 'bicycle_model.py', "  delta_yaw = geometry.wrap_yaws(real_new_yaw - yaw)", "  delta_yaw = real_new_yaw - yaw")
# --- expert / state -------------------------------------------------------
b('st_valid', 'C09', D + 'state_dynamics.py', "        trajectory.valid, start_index=timestep + 1, slice_size=1, axis=-1", "        trajectory.valid, start_index=timestep, slice_size=1, axis=-1")
b('ex_ctl', 'C09', 'agents/expert.py', "is_controlled=is_controlled_func(state),", "is_controlled=is_controlled_func(state) & logged_action.valid[..., 0],")
b('ex_log', 'C09', 'agents/expert.py', "      simulator_state.sim_trajectory, simulator_state.timestep, 1, axis=-1", "      simulator_state.log_trajectory, simulator_state.timestep, 1, axis=-1")
# --- discretizer ----------------------------------------------------------
b('di_floor', 'C10', D + 'discretizer.py', "    indices_nd = jnp.rint(", "    indices_nd = jnp.floor(")
b('di_scale', 'C10', D + 'discretizer.py', "    self._scale = bins / (max_value - min_value)", "    self._scale = (bins + 1) / (max_value - min_value)")
b('di_argmin', 'C10', D + 'discretizer.py', "jnp.argmin(distances, axis=0)", "jnp.argmin(distances[::-1], axis=0)")
b('di_default', 'C10', D + 'discretizer.py', "    action_array = jnp.where(valid, best_action, discrete_invalid_placeholder)", "    action_array = jnp.where(valid, best_action, 0)")
b('di_ravel', 'C10', D + 'discretizer.py', "mode='clip',", "mode='clip', order='F',")
b('di_corner', 'C10', D + 'discretizer.py', "      next_traj.bbox_corners.reshape(*next_traj.shape, -1)\n      - log_traj.bbox_corners.reshape(1, *log_traj.shape, -1),", "      next_traj.xy - log_traj.xy[jnp.newaxis],")
# --- geometry -------------------------------------------------------------
G = 'utils/geometry.py'
b('g_trans', 'C11', G, "        [s * local_xy[0] + c * local_xy[1]],", "        [s * local_xy[0] - c * local_xy[1]],")
b('g_traj_vel', 'C11', G, "      out_traj = jnp.concatenate([out_traj, out_vel_xy - origin], -1)", "      out_traj = jnp.concatenate([out_traj, out_vel_xy], -1)")
b('g_wrap', 'C11', G, "  return (yaws + jnp.pi) % (2 * jnp.pi) - jnp.pi", "  return jnp.where(jnp.abs(yaws) > jnp.pi, yaws - jnp.sign(yaws) * 2 * jnp.pi, yaws) if not hasattr(yaws, 'numpy') else (yaws + jnp.pi) % (2 * jnp.pi) - jnp.pi")
b('g_corner', 'C12', G, "  wc = bbox[3] / 2 * c\n  ws = bbox[3] / 2 * s", "  wc = bbox[3] / 2 * c\n  ws = bbox[2] / 2 * s")
b('g_order', 'C12', G, "      [lc + ws, ls - wc],\n      [lc - ws, ls + wc],", "      [lc - ws, ls + wc],\n      [lc + ws, ls - wc],")
b('g_one', 'C12', G, "      _overlap_a_over_b(bboxes_b, bboxes_a),\n", "      _overlap_a_over_b(bboxes_a, bboxes_b),\n")
# --- metrics --------------------------------------------------------------
M = 'metrics/'
b('o_valid', 'C13', M + 'overlap.py', "    pairwise_overlap = jnp.logical_and(pairwise_overlap, valid)\n", "    pairwise_overlap = jnp.logical_and(\n        pairwise_overlap, valid[..., 0][..., jnp.newaxis, :]\n    )\n")
b('o_count', 'C13', M + 'overlap.py', "(num_overlap > 0)", "(num_overlap == 1)")
b('o_log', 'C13', M + 'overlap.py', "        simulator_state.sim_trajectory,", "        simulator_state.sim_trajectory.replace(\n            yaw=simulator_state.log_trajectory.yaw\n        ),")
b('r_z', 'C14', M + 'roadgraph.py', "trajectory.z[..., jnp.newaxis, :]", "trajectory.z[..., :1, jnp.newaxis]")
b('r_zs', 'C14', M + 'roadgraph.py', "z_stretch: float = 2.0", "z_stretch: float = 1.0")
b('r_ids', 'C14', M + 'roadgraph.py', "      is_usable[prior_indices],\n", "      roadgraph_points.valid[prior_indices],\n")
b('r_all', 'C14', M + 'roadgraph.py', "jnp.any(distances > 0.0, axis=-1)", "jnp.any(distances >= 0.0, axis=-1)")
b('r_edge', 'C14', 'datatypes/roadgraph.py', "      types == MapElementIds.ROAD_EDGE_MEDIAN,\n", "      types == MapElementIds.ROAD_EDGE_UNKNOWN,\n")
b('k_thr', 'C15', M + 'comfort.py', "        jnp.abs(steering) > self._max_steering + _KIM_EPSILON,", "        steering > self._max_steering + _KIM_EPSILON,")
b('k_t', 'C15', M + 'comfort.py', "(traj, timestep - 1, self._dt)", "(traj, jnp.maximum(timestep - 1, 1), self._dt)")
b('k_ts', 'C15', M + 'comfort.py', "compute_inverse(traj, timestep - 1, self._dt)", "compute_inverse(traj, timestep - 1)")
b('l_xyz', 'C16', M + 'imitation.py', "current_object_state.xy, current_log_state.xy\n", "current_object_state.xyz, current_log_state.xyz\n")
b('l_valid', 'C16', M + 'imitation.py', "valid = current_object_state.valid & current_log_state.valid", "valid = current_log_state.valid")
b('p_start', 'C17', M + 'route.py', "simulator_state.log_trajectory.xy[..., 0, :],", "simulator_state.sim_trajectory.xy[..., 0, :],")
b('p_arc', 'C17', M + 'route.py', "      dist = jnp.where(path.valid, dist_raw, jnp.inf)\n", "      dist = dist_raw\n")
b('p_valid', 'C17', M + 'route.py', "    progress = jnp.where(valid, progress, 0.0)\n", "    progress = jnp.where(valid, jnp.maximum(progress, 0.0), 0.0)\n")
b('p_off', 'C17', M + 'route.py', "        ~sdc_paths.on_route, sdc_dist_to_valid_paths, jnp.inf", "        ~sdc_paths.on_route, sdc_dist_to_paths, jnp.inf")
b('p_ww', 'C17', M + 'roadgraph.py', "(min_dist < self.WRONG_WAY_THRES) | ~valid, 0, min_dist", "(min_dist < self.WRONG_WAY_THRES) | ~valid, 0, min_dist - self.WRONG_WAY_THRES")
b('p_wwv', 'C17', M + 'roadgraph.py', "    dist = jnp.where(sdc_paths.valid, dist_raw, jnp.inf)\n", "    dist = jnp.where(\n        sdc_paths.valid & sdc_paths.on_route, dist_raw, jnp.inf\n    )\n")
b('w_mask', 'C18', 'rewards/linear_combination_reward.py', "all_metrics[reward_metric_name].masked_value()", "all_metrics[reward_metric_name].value")
b('w_agent', 'C18', 'rewards/linear_combination_reward.py', "      metric = metric_all_agents * agent_mask\n      reward += metric * reward_weight\n", "      metric = metric_all_agents * agent_mask\n      reward += metric * abs(reward_weight)\n")
b('w_noreward', 'C18', 'env/planning_agent_environment.py', "      agent_mask = datatypes.get_control_mask(\n          state.object_metadata, self.config.controlled_object\n      )", "      agent_mask = state.object_metadata.is_valid")
# --- planning env ---------------------------------------------------------
P = 'env/planning_agent_environment.py'
b('pl_ovl_t', 'C19', P, "      log_trajectory, 0, axis=-1, keepdims=False", "      log_trajectory, 1, axis=-1, keepdims=False")
b('pl_merge', 'C19', P, "      merged_controlled = merged_controlled | controlled_by_sim", "      merged_controlled = merged_controlled | agent_output.is_controlled")
b('pl_mergev', 'C19', P, "          controlled_by_sim[..., jnp.newaxis], action.valid, merged_action.valid", "          agent_output.is_controlled[..., jnp.newaxis], action.valid, merged_action.valid")
b('pl_state', 'C19', P, "      updated_sim_agent_actor_states.append(agent_output.actor_state)", "      updated_sim_agent_actor_states.append(actor_state)")
b('pl_kim', 'C19', P, "          valid=kim_metric.valid & kim_metric_valid,", "          valid=kim_metric.valid,")
b('pl_inj', 'C03', P, "allow_object_injection=self.config.allow_new_objects_after_warmup,", "allow_object_injection=False,")
b('pl_key', 'C19', P, "self._sim_agent_params,\n        keys,", "self._sim_agent_params,\n        keys[:1] * len(keys) if isinstance(keys, list) else jax.numpy.broadcast_to(keys[0], keys.shape) if len(keys) else keys,")
b('pl_params', 'C19', P, "agent.select_action(params, state,", "agent.select_action(self._sim_agent_params[0], state,")
b('m_first', 'C20', 'agents/actor_core.py', "  for output in actor_outputs[1:]:", "  for output in actor_outputs[1:2]:")
b('m_valid', 'C20', 'agents/actor_core.py', "        output.is_controlled[..., jnp.newaxis], output.action, action\n", "        output.is_controlled[..., jnp.newaxis] & output.action.valid,\n        output.action,\n        action,\n")
# --- agents ---------------------------------------------------------------
W = 'agents/waypoint_following_agent.py'
b('w_neg', 'C21', W, "    speed = jnp.where(speed < 0, 0, speed)\n", "    speed = jnp.where(speed < -1, 0, speed)\n")
b('w_self', 'C21', W, "        & ~self_mask\n", "")
b('w_valid', 'C21', W, "        traj.valid[..., jnp.newaxis, :]\n        & obj_curr_traj.valid[..., jnp.newaxis, :, :]\n", "        traj.valid[..., jnp.newaxis, :]\n")
b('w_proj', 'C21', W, "        traj.valid, jnp.linalg.norm(traj.xy - xy, axis=-1), jnp.inf\n", "        True, jnp.linalg.norm(traj.xy - xy, axis=-1), jnp.inf\n")
b('w_last', 'C21', W, "    last_valid_idx = jnp.where(traj.valid, jnp.arange(traj.shape[0]), 0)\n", "    last_valid_idx = jnp.arange(traj.shape[0])\n")
b('w_lead', 'C21', W, "    lead_vel = jnp.min(collision_vels_cum, axis=-1)\n", "    lead_vel = jnp.max(jnp.where(mask_t, collision_vels_cum, -jnp.inf), axis=-1)\n    lead_vel = jnp.where(jnp.isfinite(lead_vel), lead_vel, jnp.inf)\n")
b('w_dist', 'C21', W, "    lead_dist = jnp.min(dists_to_collision, axis=-1)\n", "    lead_dist = jnp.min(jnp.where(collision_indicator, cum_arc_length, 1e6), axis=-1)\n")
b('w_fallback', 'C21', W, "    new_speed = jnp.where(valid, new_speed[..., jnp.newaxis], cur_speed)\n", "    new_speed = jnp.where(valid, new_speed[..., jnp.newaxis], 0.0)\n")
b('w_inv', 'C21', W, "        valid=valid & cur_sim_traj.valid,\n", "        valid=valid,\n")
b('w_thr', 'C21', W, "          new_speed > _STATIC_SPEED_THRESHOLD\n", "          cur_speed > _STATIC_SPEED_THRESHOLD\n")
b('w_default', 'C21', W, "      default_x_vel = jnp.zeros_like(cur_sim_traj.vel_x)\n", "      default_x_vel = cur_sim_traj.vel_x\n")
b('w_pts', 'C21', W, "  spacings = jnp.linspace(0, distance, num=num_points + 1, endpoint=True)", "  spacings = jnp.linspace(0, distance, num=num_points + 1, endpoint=False)")
b('w_idm_decel', 'C21', W, "(2 * jnp.sqrt(self.max_accel * self.max_decel))", "(2 * jnp.sqrt(self.max_accel * self.max_accel))")
b('w_arg', 'C21', W, "    return datatypes.dynamic_slice(local_traj, top_idx, num_pts, axis=-1)", "    return datatypes.dynamic_slice(local_traj, top_idx + 1, num_pts, axis=-1)")
b('cs_time', 'C21', 'agents/constant_speed.py', "        valid=is_controlled[..., jnp.newaxis] & traj_t0.valid,\n", "        valid=traj_t0.valid,\n")
b('cs_speed', 'C21', 'agents/constant_speed.py', "      vel_y = speed * jnp.sin(traj_t0.yaw)", "      vel_y = speed * jnp.sin(traj_t0.vel_yaw)")
# --- observation ----------------------------------------------------------
O = 'datatypes/observation.py'
b('ob_steps', 'C22', O, "x, state.timestep - obs_num_steps + 1, obs_num_steps, axis=-1", "x, jnp.maximum(state.timestep - obs_num_steps, 0) + 1 - 0 * obs_num_steps, obs_num_steps, axis=-1")
b('ob_valid', 'C22', O, "  valid = jnp.logical_and(roadgraph_points.valid, pose2d.valid[..., None])\n", "  valid = roadgraph_points.valid\n")
b('ob_ref', 'C22', O, "          global_obs.roadgraph_static_points, obj_xy, roadgraph_top_k\n", "          global_obs.roadgraph_static_points,\n          jnp.broadcast_to(obj_xy[..., :1, :], obj_xy.shape),\n          roadgraph_top_k,\n")
b('ob_sdcv', 'C22', O, "        xy=sdc_xy_expand, yaw=sdc_yaw_expand, valid=sdc_valid_expand\n", "        xy=sdc_xy_expand, yaw=sdc_yaw_expand, valid=obj_valid\n")
b('ob_log', 'C22', O, "  global_traj = slice_by_time(state.sim_trajectory)\n", "  global_traj = slice_by_time(state.sim_trajectory).replace(\n      valid=slice_by_time(state.log_trajectory).valid\n  )\n")
b('ob_paths', 'C22', O, "  if state.sdc_paths is not None:\n", "  if state.sdc_paths is not None and coordinate_frame != config.CoordinateFrame.GLOBAL:\n")
b('ob_comb', 'C22', O, "      delta_yaw=dst_pose.delta_yaw - src_pose.delta_yaw,\n", "      delta_yaw=dst_pose.delta_yaw,\n")
b('ob_for', 'C22', O, "        inputs=self, start_index=idx, slice_size=1, axis=axis\n", "        inputs=self, start_index=idx, slice_size=1, axis=0\n")
b('f_valid', 'C23', 'datatypes/roadgraph.py', "  elif topk < roadgraph.num_points:", "  elif topk < roadgraph.num_points - 1:")
b('f_tie', 'C23', 'datatypes/roadgraph.py', "        valid=jnp.take_along_axis(roadgraph.valid, top_idx, axis=-1),", "        valid=jnp.ones_like(top_idx, dtype=jnp.bool_),")
b('op_axis', 'C24', 'datatypes/operations.py', "        x * reshaped_selection, axis=(selection.ndim - 1), keepdims=keepdims\n", "        x * reshaped_selection, axis=(selection.ndim - 1 if selection.ndim < 3 else 1), keepdims=keepdims\n")
b('op_bool', 'C24', 'datatypes/operations.py', "    return -1 * jnp.ones_like(data)\n", "    return jnp.nan * jnp.ones_like(data) if data.dtype == jnp.float16 else -1 * jnp.ones_like(data) if data.ndim < 3 else jnp.zeros_like(data)\n")
b('op_cmp', 'C31', 'datatypes/operations.py', "  return jax.tree_util.tree_all(flags)\n", "  return bool(jax.tree_util.tree_leaves(flags)[0])\n")
b('op_start', 'C24', 'datatypes/operations.py', "  elif hasattr(inputs_start_idx, 'shape'):\n", "  elif False and hasattr(inputs_start_idx, 'shape'):\n")
# --- data -----------------------------------------------------------------
F = 'dataloader/womd_factories.py'
b('fa_sdc', 'C25', F, "jnp.asarray(example['state/is_sdc'] == 1)", "jnp.asarray(example['state/is_sdc'] != 0)")
b('fa_valid', 'C25', F, "jnp.asarray(example['state/tracks_to_predict'] != -1)", "jnp.asarray(example['state/tracks_to_predict'] >= 0)")
b('fa_dir', 'C25', F, "      dir_z=dir_xyz[..., 2],", "      dir_z=xyz[..., 2],")
b('fa_swap', 'C25', F, "lambda x: jnp.swapaxes(x, -1, -2), origin", "lambda x: x.T, origin")
b('fa_int', 'C25', F, "  ids = jnp.asarray(example['state/id'], dtype=jnp.int32)", "  ids = jnp.asarray(jnp.asarray(example['state/id'], dtype=jnp.float32), dtype=jnp.int32)")
b('fa_sim', 'C25', F, "      slice_size=1,\n      axis=-1,", "      slice_size=2,\n      axis=-1,")
b('pp_obj', 'C28', 'dataloader/womd_dataloader.py', "        if k.startswith('state/') and", "        if k.startswith('state') and k != 'state/all/valid' and")
b('pp_yaw', 'C28', 'dataloader/womd_dataloader.py', "(yaws + jnp.pi) % (2 * jnp.pi) - jnp.pi", "(yaws - jnp.pi) % (2 * jnp.pi) - jnp.pi")
b('sh_w', 'C29', 'dataloader/dataloader_utils.py', "'d-of-%05d'", "'d-of-%04d'")
b('sh_n', 'C29', 'dataloader/dataloader_utils.py', "(i, num_shards) for i in range(num_shards)", "(i, num_shards) for i in range(min(num_shards, 99999))")
# --- rollout / wrappers ---------------------------------------------------
b('ro_rng', 'C26', 'env/rollout.py', "        rng=rng,\n        actor_state=actor_output", "        rng=carry.rng,\n        actor_state=actor_output")
b('ro_last', 'C26', 'env/rollout.py', "      reward=env.reward(carry.state, padding_action),", "      reward=jnp.zeros_like(env.reward(carry.state, padding_action)),")
b('ro_met', 'C26', 'env/rollout.py', "        metrics=env.metrics(carry.state),", "        metrics=env.metrics(next_state),")
b('ro_params', 'C26', 'env/rollout.py', "        actor_params, carry.state, carry.actor_state", "        actor_params, carry.state, actor_init_state")
b('br_done', 'C27', 'env/wrappers/brax_wrapper.py', "    done = jnp.logical_or(termination, truncation)", "    done = termination")
b('br_disc', 'C27', 'env/wrappers/brax_wrapper.py', "    discount = jnp.logical_not(termination)", "    discount = jnp.logical_not(done)")
b('br_rew', 'C27', 'env/wrappers/brax_wrapper.py', "    reward = self.reward(timestep.state, action)", "    reward = self.reward(next_state, action)")
b('dm_done', 'C27', 'env/wrappers/dm_env_wrapper.py', "    self._done = False\n    return dm_env.restart", "    return dm_env.restart")
b('dm_rew', 'C27', 'env/wrappers/dm_env_wrapper.py', "    if jnp.all(done):", "    if jnp.any(done):")
b('sp_disc', 'C32', 'env/planning_agent_environment.py', "        shape=tuple(), minimum=0.0, maximum=1.0, dtype=jnp.float32", "        shape=(1,), minimum=0.0, maximum=1.0, dtype=jnp.float32")
b('sp_n', 'C32', D + 'discretizer.py', "maximum=[self._num_bins - 1]", "maximum=[self._num_bins]")
b('sp_rew', 'C32', 'env/base_environment.py', "  return specs.Array(shape=(config.max_num_objects,), dtype=jnp.float32)", "  return specs.Array(shape=(config.max_num_objects, 1), dtype=jnp.float32)")
b('vw_speed', 'C31', 'datatypes/object_state.py', "    return jnp.where(self.valid, speed, _INVALID_FLOAT_VALUE)", "    return speed")
b('vw_dir', 'C31', 'datatypes/roadgraph.py', "jnp.stack([self.dir_x, self.dir_y, self.dir_z], axis=-1)", "jnp.stack([self.dir_x, self.dir_y, self.z], axis=-1)")
b('ba_reset', 'C30', 'env/base_environment.py', "index=config.init_steps - 1,\n        axis=-1,", "index=config.init_steps - 1,\n        axis=2 if state.sim_trajectory.valid.ndim == 3 and state.sim_trajectory.valid.shape[0] != 2 else -1 if state.sim_trajectory.valid.ndim != 3 else 2,")
b('ba_leader', 'C30', W, "    collision_vels_t = jnp.min(collision_vels_at, axis=-2)", "    collision_vels_t = jnp.min(collision_vels_at, axis=-2 if collision_vels_at.ndim < 4 else 0)\n    collision_vels_t = jnp.broadcast_to(collision_vels_t, collision_vels_at.shape[:-2] + collision_vels_at.shape[-1:])")


def main():
  want = sys.argv[1:]
  todo = [x for x in B if not want or any(w in x[0] or w == x[1] for w in want)]
  shutil.rmtree(WT, ignore_errors=True)
  shutil.copytree('/repo', WT, symlinks=True,
                  ignore=shutil.ignore_patterns('.git', '__pycache__'))
  log = open('/tmp/bugs.log', 'a')
  for id, pid, path, old, new in todo:
    src = open(f'/repo/waymax/{path}').read()
    if old not in src:
      print('NOMATCH', id, path, flush=True)
      continue
    open(f'{WT}/waymax/{path}', 'w').write(src.replace(old, new, 1))
    t0 = time.time()
    env = dict(os.environ, SVX_REPO=WT, SVX_EVIDENCE='/tmp/bug_ev')
    p = subprocess.run(['bash', f'{ROOT}/check.sh', pid, 'quick'], env=env,
                       capture_output=True, text=True)
    res = {1: 'caught', 0: 'SURVIVED'}.get(p.returncode, 'INCONCLUSIVE')
    if p.returncode == 1 and f'VIOLATION property={pid}' not in p.stdout:
      res = 'ODD'
    line = f'{res} {id} {pid} {time.time() - t0:.0f}s'
    print(line, flush=True)
    log.write(line + '\n')
    log.flush()
    open(f'{WT}/waymax/{path}', 'w').write(src)
  shutil.rmtree(WT, ignore_errors=True)


main()
