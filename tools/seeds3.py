S = []


def s(id, property, edits, needs, breaks, demo):
  S.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


s('c03_timestep', 'C03', [('dynamics/abstract_dynamics.py', """  exist_and_controlled = is_controlled & current_traj.valid
""", """  exist_and_controlled = (
      is_controlled
      & current_traj.valid
      & (trajectory_update.valid | default_next_traj.valid)
  )
""")], 'a controlled object that the log has already left, driven by an invalid action',
  'A controlled object vanishes when its action is invalid and the log does not have it any more.', """
from waymax.dynamics import StateDynamics
rng = np.random.default_rng(0)
t = traj(rng, 2, 3, valid=jnp.ones((2, 3), bool))
log = traj(rng, 2, 3, valid=jnp.asarray([[True, False, False]] * 2))
a = datatypes.Action(data=jnp.ones((2, 5)), valid=jnp.zeros((2, 1), bool))
o = StateDynamics().forward(a, t, log, jnp.array([True, False]), 0)
check(o.valid[0, 1], 'controlled object vanishes')
check(not o.valid[1, 1], 'other object stays')
""")

s('c05_remaining', 'C05', [('datatypes/simulator_state.py', """    return jnp.array(self.log_trajectory.num_timesteps - self.timestep - 1, int)  # pytype: disable=bad-return-type  # jnp-type
""", """    last = jnp.max(
        jnp.where(
            self.log_trajectory.valid.any(axis=-2),
            jnp.arange(self.log_trajectory.num_timesteps),
            0,
        ),
        axis=-1,
    )
    return jnp.array(jnp.maximum(last, self.timestep) - self.timestep, int)
""")], 'a log whose last steps have no valid object', 'The remaining steps stop at the last valid step of the log while the episode goes on.', """
rng = np.random.default_rng(0)
st = state(rng, 2, 6, timestep=2)
v = np.ones((2, 6), bool)
v[:, 4:] = False
st = st.replace(log_trajectory=st.log_trajectory.replace(valid=jnp.asarray(v)))
check(int(st.remaining_timesteps) == 3 and not bool(st.is_done), 'remaining %s' % st.remaining_timesteps)
""")

s('c06_swap', 'C06', [('dynamics/delta.py', """    # Concatenate last dimension for dx, dy and dyaw. Shape (..., 3)
    local_action_array = jnp.concatenate(
        [local_xy, global_actions.data[..., 2:3]], axis=-1
    )
    local_action_array = self._clip_values(local_action_array)
""", """    # Concatenate last dimension for dx, dy and dyaw. Shape (..., 3)
    local_action_array = jnp.concatenate(
        [local_xy, global_actions.data[..., 2:3]], axis=-1
    )
""")], 'a diagonal motion at the bounds seen by a vehicle that is turned by 45 degrees', 'The inverse of local delta dynamics leaves the action bounds.', """
from waymax.dynamics import DeltaLocal
f = lambda a: jnp.asarray([a], jnp.float32)
z = f([0, 0])
t = datatypes.Trajectory(x=f([0, 5.9]), y=f([0, 5.9]), z=z, vel_x=z, vel_y=z, yaw=f([np.pi / 4] * 2), valid=z > -1, timestamp_micros=jnp.zeros((1, 2), jnp.int32), length=z, width=z, height=z)
a = DeltaLocal().inverse(t, None, 0).data
s_ = DeltaLocal().action_spec()
check(bool((a >= s_.minimum - 1e-4).all() and (a <= s_.maximum + 1e-4).all()), 'inverse %s' % a)
""")

s('c06_velheading', 'C06', [('dynamics/delta.py', """    vel_x = dx / self._dt
    vel_y = dy / self._dt
""", """    vel_x = dx / datatypes.TIME_INTERVAL
    vel_y = dy / datatypes.TIME_INTERVAL
""")], 'delta dynamics built with another time step than 0.1 s', 'The velocity ignores the configured time step.', """
from waymax.dynamics import DeltaGlobal
rng = np.random.default_rng(0)
t = traj(rng, 2, 1, valid=jnp.ones((2, 1), bool))
u = DeltaGlobal(dt=0.5).compute_update(datatypes.Action(data=jnp.asarray([[1.0, 2.0, 0.1]] * 2), valid=jnp.ones((2, 1), bool)), t)
check(np.allclose(u.vel_x, 2.0) and np.allclose(u.vel_y, 4.0), 'velocity %s %s' % (u.vel_x, u.vel_y))
""")

s('c18_nan', 'C18', [('rewards/linear_combination_reward.py', """      metric_all_agents = all_metrics[reward_metric_name].masked_value()
      metric = metric_all_agents * agent_mask
""", """      metric_all_agents = all_metrics[reward_metric_name].value
      metric = metric_all_agents * agent_mask
""")], 'an acting agent for which a metric is not valid', 'Invalid metric values enter the reward.', """
from waymax import rewards
rng = np.random.default_rng(0)
st = state(rng, 2, 5, timestep=2)
v = np.zeros((2, 5), bool)
st = st.replace(sim_trajectory=st.sim_trajectory.replace(valid=jnp.asarray(v)))
r = rewards.LinearCombinationReward(config.LinearCombinationRewardConfig(rewards={'log_divergence': 1.0})).compute(st, None, jnp.ones(2, bool))
check(np.allclose(r, 0), 'reward %s' % r)
""")

s('c09_curlog', 'C09', [('agents/expert.py', """      simulator_state.sim_trajectory, simulator_state.timestep, 1, axis=-1
  )
  next""", """      simulator_state.log_trajectory, simulator_state.timestep, 1, axis=-1
  )
  next""")], 'delta dynamics from a state that has left the log', 'The expert action starts from the logged instead of the simulated position.', """
from waymax import dynamics, agents
rng = np.random.default_rng(0)
st = state(rng, 2, 5, timestep=2)
ok = jnp.ones((2, 5), bool)
lg = st.log_trajectory.replace(x=jnp.zeros((2, 5)), y=jnp.zeros((2, 5)), valid=ok)
sm = lg.replace(x=jnp.ones((2, 5)))
st = st.replace(log_trajectory=lg, sim_trajectory=sm)
a = agents.create_expert_actor(dynamics.DeltaGlobal(), lambda s: jnp.ones(2, bool)).select_action({}, st, None, None).action
o = dynamics.DeltaGlobal().forward(a, sm, lg, jnp.ones(2, bool), 2)
check(np.allclose(o.x[:, 3], 0, atol=1e-5), 'x %s' % o.x[:, 3])
""")

s('c15_valid', 'C15', [('metrics/comfort.py', '', '')], '', '', '')

s('c30_slice', 'C30', [('datatypes/operations.py', """  map_fn = _vmap_over_batch_dims(_slice, start_index)
  map_fn = functools.partial(map_fn, start_index=start_index)
""", """  if getattr(start_index, 'ndim', 0):
    lead = jnp.ravel(start_index)[0]
    start_index = jnp.where(
        jnp.all(start_index == lead), lead, jnp.sort(start_index, axis=-1)
    )
  map_fn = _vmap_over_batch_dims(_slice, start_index)
  map_fn = functools.partial(map_fn, start_index=start_index)
""")], 'a batch whose timesteps differ and are not increasing', 'Each batch entry may be sliced at the timestep of another entry.', """
from waymax.datatypes import operations as o
x = jnp.arange(12.0).reshape(2, 6)
r = o.dynamic_slice(x, jnp.asarray([4, 1]), 2, axis=-1)
check(np.allclose(r, [[4, 5], [7, 8]]), 'got %s' % r)
""")

s('c28_cap', 'C28', [('dataloader/womd_utils.py', '', '')], '', '', '')

s('c31_velyaw', 'C31', [('datatypes/object_state.py', """    vel_yaw = jnp.arctan2(self.vel_y, self.vel_x)
""", """    vel_yaw = jnp.where(
        self.speed > 1e-3, jnp.arctan2(self.vel_y, self.vel_x), self.yaw
    )
""")], 'an object that hardly moves', 'The direction of motion is replaced by the heading at low speed.', """
rng = np.random.default_rng(0)
t = traj(rng, 1, 1, valid=jnp.ones((1, 1), bool), vel_x=jnp.full((1, 1), 1e-4), vel_y=jnp.full((1, 1), 1e-4), yaw=jnp.full((1, 1), 2.0))
check(np.allclose(t.vel_yaw, np.pi / 4, atol=1e-3), 'angle %s' % t.vel_yaw)
""")

s('c21_const', 'C21', [('agents/constant_speed.py', """      vel_x = speed * jnp.cos(traj_t0.yaw)
      vel_y = speed * jnp.sin(traj_t0.yaw)
""", """      vel_x = speed * jnp.cos(traj_t0.vel_yaw)
      vel_y = speed * jnp.sin(traj_t0.vel_yaw)
""")], 'an object whose velocity does not point along its heading', 'Constant speed actors drive along the velocity instead of the heading.', """
from waymax import dynamics, agents
rng = np.random.default_rng(0)
st = state(rng, 2, 5, timestep=2)
st = st.replace(sim_trajectory=st.sim_trajectory.replace(valid=jnp.ones((2, 5), bool)))
a = agents.create_constant_speed_actor(dynamics.StateDynamics(), lambda s: jnp.ones(2, bool), speed=3.0).select_action({}, st, None, None).action
y = st.sim_trajectory.yaw[:, 2]
check(np.allclose(a.data[:, 3], 3 * np.cos(y), atol=1e-4), 'velocity %s, heading %s' % (a.data[:, 3], y))
""")

s('c02_swap', 'C02', [('dynamics/abstract_dynamics.py', """  exist_and_controlled = is_controlled & current_traj.valid
""", """  exist_and_controlled = (
      is_controlled & current_traj.valid & trajectory_update.valid
  )
""")], '', '', '')

s('c04_simkeep', 'C04', [('env/base_environment.py', """    state_uninitialized = state.replace(
        timestep=jnp.array(-1), sim_trajectory=sim_traj_uninitialized
    )
""", """    state_uninitialized = state.replace(
        timestep=jnp.array(-1),
        sim_trajectory=sim_traj_uninitialized.replace(
            length=state.sim_trajectory.length
        ),
    )
""")], 'resetting a state whose simulated box sizes are not placeholders', 'Reset keeps simulated box lengths after the warm-up.', """
from waymax import dynamics, env
rng = np.random.default_rng(1)
e = env.BaseEnvironment(dynamics.DeltaLocal(), config.EnvironmentConfig(max_num_objects=3, init_steps=2, controlled_object=config.ObjectType.SDC))
a = state(rng, 3, 8, timestep=4)
b = a.replace(sim_trajectory=traj(rng, 3, 8))
check(e.reset(a) == e.reset(b), 'reset depends on the simulation')
""")

s('c17_offroute', 'C17', [('metrics/route.py', """    sdc_dist_to_valid_off_route_paths = jnp.where(
        ~sdc_paths.on_route, sdc_dist_to_valid_paths, jnp.inf
    )
""", """    sdc_dist_to_valid_off_route_paths = jnp.where(
        ~sdc_paths.on_route, sdc_dist_to_paths, jnp.inf
    )
""")], 'an invalid point of an off-route path close to the vehicle', 'Invalid off-route points make the vehicle off-route.', """
from waymax import metrics
rng = np.random.default_rng(3)
st = state(rng, 2, 4, timestep=2)
f = lambda a: jnp.asarray(a, jnp.float32)
z = f([[0, 0], [0, 0]])
st = st.replace(sdc_paths=datatypes.Paths(x=z, y=f([[4, 4], [0, 40]]), z=z, ids=jnp.ones((2, 2), jnp.int32), valid=jnp.asarray([[True, True], [False, True]]), arc_length=z, on_route=jnp.asarray([[True], [False]])))
t = jnp.zeros((2, 4))
tr = st.sim_trajectory.replace(x=t, y=t, valid=t > -1)
st = st.replace(sim_trajectory=tr)
r = metrics.OffRouteMetric().compute(st)
check(float(r.value) == 0, 'off-route %s' % r.value)
""")

s('c22_sdcidx', 'C22', [('datatypes/observation.py', """  is_ego = state.object_metadata.is_sdc[..., jnp.newaxis, :]
  global_obs_filter""", """  is_ego = (state.object_metadata.is_sdc & obj_valid)[..., jnp.newaxis, :]
  global_obs_filter""")], 'an observation while the self-driving car is invalid', 'The viewer is not marked as its own ego while it is invalid.', """
from waymax.datatypes import observation as ob
rng = np.random.default_rng(3)
st = state(rng, 2, 8, timestep=5)
st = st.replace(sim_trajectory=st.sim_trajectory.replace(valid=jnp.zeros((2, 8), bool)))
o = ob.sdc_observation_from_state(st, roadgraph_top_k=2)
check(bool(o.is_ego[0, 0]) and not bool(o.is_ego[0, 1]), 'ego %s' % o.is_ego)
""")

s('c25_past', 'C25', [('dataloader/womd_utils.py', """      start_index=jnp.array(state.timestep, int) - num_history,
      slice_size=num_history,
      axis=-1,
  )

  # Here is""", """      start_index=jnp.maximum(jnp.array(state.timestep, int) - num_history, 0),
      slice_size=num_history,
      axis=-1,
  )

  # Here is""")], '', '', '')

s('c12_self', 'C12', [('utils/geometry.py', """    self_mask = jnp.eye(num_agents)
    # Removes overlap on self.
    return jnp.where(self_mask, False, overlaps)
""", """    # Removes overlap on self (identical boxes).
    self_mask = jnp.all(traj[:, jnp.newaxis] == traj[jnp.newaxis], axis=-1)
    return jnp.where(self_mask, False, overlaps)
""")], 'two distinct objects with exactly the same box', 'Two objects with the same box do not overlap.', """
from waymax.utils import geometry as g
b = jnp.asarray([[0, 0, 4, 2, 0.5], [0, 0, 4, 2, 0.5], [50, 0, 4, 2, 0]], jnp.float32)
o = g.compute_pairwise_overlaps(b)
check(bool(o[0, 1]) and bool(o[1, 0]) and not bool(o[0, 0]), 'overlaps %s' % o)
""")

s('c08_lowspeed', 'C08', [('dynamics/bicycle_model.py', '', '')], '', '', '')

s('c26_pad', 'C26', [('env/rollout.py', """      lambda x: jnp.zeros_like(x[-1]), output.action
  )
  last_output""", """      lambda x: x[-1] & False if x.dtype == jnp.bool_ else x[-1], output.action
  )
  last_output""")], 'any rollout whose last action is not zero', 'The final entry repeats the data of the last action.', """
from waymax import dynamics, env, agents
import importlib
ro = importlib.import_module("waymax.env.rollout")
rng = np.random.default_rng(1)
st = state(rng, 3, 8)
e = env.BaseEnvironment(dynamics.StateDynamics(), config.EnvironmentConfig(max_num_objects=3, init_steps=2, controlled_object=config.ObjectType.SDC, metrics=config.MetricsConfig(metrics_to_run=()), rewards=config.LinearCombinationRewardConfig(rewards={})))
act = agents.create_expert_actor(dynamics.StateDynamics(), lambda s: jnp.ones(3, bool))
o = ro.rollout(st, act, e, jax.random.PRNGKey(0), 3)
check(np.allclose(o.action.data[-1], 0) and not bool(o.action.valid[-1].any()), 'final action %s' % o.action.data[-1])
""")

s('c19_warm', 'C19', [('env/planning_agent_environment.py', """      kim_metric_valid = state.timestep > self.config.init_steps - 1
""", """      kim_metric_valid = state.timestep > 1
""")], 'a warm-up longer than two steps and a fresh reset', 'The kinematics metric reports the logged warm-up.', """
from waymax import dynamics, env
rng = np.random.default_rng(1)
st = state(rng, 3, 8)
st = st.replace(log_trajectory=st.log_trajectory.replace(valid=jnp.ones((3, 8), bool)))
e = env.PlanningAgentEnvironment(dynamics.DeltaLocal(), config.EnvironmentConfig(max_num_objects=3, init_steps=4, controlled_object=config.ObjectType.SDC, metrics=config.MetricsConfig(metrics_to_run=('kinematic_infeasibility',))))
m = e.metrics(e.reset(st))['kinematic_infeasibility']
check(not bool(m.valid) and float(m.value) == 0, 'metric %s' % m)
""")
S = [x for x in S if x['demo']]
