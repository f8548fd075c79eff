S = []


def s(id, property, edits, needs, breaks, demo):
  S.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


s('c01_meta', 'C01', [('env/base_environment.py', """    return state.replace(sim_trajectory=new_traj, timestep=state.timestep + 1)
""", """    metadata = state.object_metadata.replace(
        is_controlled=state.object_metadata.is_controlled & is_controlled
    )
    return state.replace(
        sim_trajectory=new_traj,
        timestep=state.timestep + 1,
        object_metadata=metadata,
    )
""")], 'a state whose metadata marks an object as controlled which the environment does not control',
  'Stepping rewrites the object metadata.', """
from waymax import dynamics, env
rng = np.random.default_rng(1)
st = state(rng, 3, 8, timestep=3)
st = st.replace(object_metadata=st.object_metadata.replace(is_controlled=jnp.ones(3, bool)))
e = env.BaseEnvironment(dynamics.StateDynamics(), config.EnvironmentConfig(max_num_objects=3, init_steps=3, controlled_object=config.ObjectType.SDC))
o = e.step(st, datatypes.Action(data=jnp.full((3, 5), 7.0), valid=jnp.ones((3, 1), bool)))
check(o.object_metadata == st.object_metadata, 'metadata changed')
""")

s('c03_entry', 'C03', [('dynamics/abstract_dynamics.py', """        & default_next_traj.valid
""", """        & reference_trajectory.valid.any(axis=-1, keepdims=True)
""")], '', '', '')

s('c05_discount', 'C05', [('env/wrappers/brax_wrapper.py', """    discount = jnp.logical_not(termination).astype(jnp.float32)
    metric_dict""", """    discount = jnp.logical_not(termination & truncation).astype(jnp.float32)
    metric_dict""")], '', '', '')

s('c06_localyaw', 'C06', [('dynamics/delta.py', '', '')], '', '', '')

s('c11_compose', 'C11', [('datatypes/observation.py', """      delta_yaw=dst_pose.delta_yaw - src_pose.delta_yaw,
""", """      delta_yaw=geometry.wrap_yaws(dst_pose.delta_yaw + src_pose.delta_yaw),
""")], 'composing with a source pose that is rotated (built-in observations use an unrotated source)',
  'Composing two poses turns headings by the wrong angle.', """
from waymax.datatypes import observation as ob
a = ob.ObjectPose2D.from_center_and_yaw(jnp.array([[1.0, 2.0]]), jnp.array([0.7]))
b = ob.ObjectPose2D.from_center_and_yaw(jnp.array([[-1.0, 3.0]]), jnp.array([0.2]))
c = ob.combine_two_object_pose_2d(a, b)
m = c.matrix[0]
ang = float(jnp.arctan2(m[1, 0], m[0, 0]))
check(abs(np.sin(ang - float(c.delta_yaw[0]))) < 1e-5, 'matrix turns by %s, headings by %s' % (ang, c.delta_yaw))
""")

s('c13_self', 'C13', [('metrics/overlap.py', """    num_overlap = jnp.sum(pairwise_overlap, axis=-2)
""", """    num_overlap = jnp.sum(
        pairwise_overlap & (current_traj.valid[..., 0:1] | ~valid), axis=-1
    )
    num_overlap = jnp.where(
        valid[..., 0], num_overlap, jnp.sum(pairwise_overlap, axis=-2)
    )
""")], '', '', '')

s('c14_prior', 'C14', [('metrics/roadgraph.py', """      is_usable[prior_indices],
      jnp.equal(""", """      roadgraph_points.valid[prior_indices],
      jnp.equal(""")], 'a valid map point that is no road edge right before the nearest road edge and with the same id',
  'The direction of a point that is not a road edge decides the side.', """
from waymax.metrics import roadgraph as m
f = lambda *v: jnp.asarray(v, jnp.float32)
rg = datatypes.RoadgraphPoints(x=f(50, 0), y=f(0, 0), z=f(0, 0), dir_x=f(-1, 1), dir_y=f(0, 0), dir_z=f(0, 0), types=jnp.asarray([1, 15]), ids=jnp.asarray([4, 4]), valid=jnp.ones(2, bool))
q = f(0, 1, 0)[None], f(0, -1, 0)[None]
one = lambda p, r: np.sign(float(m.compute_signed_distance_to_nearest_road_edge_point(p, r)[0]))
alone = jax.tree_util.tree_map(lambda x: x[1:], rg)
for p in q:
  check(one(p, rg) == one(p, alone), 'a non-edge point changes the side of %s' % p)
""")

s('c16_z', 'C16', [('metrics/imitation.py', """        current_object_state.xy, current_log_state.xy
""", """        current_object_state.xyz, current_log_state.xyz
""")], 'an object whose simulated height differs from the logged height', 'Log divergence includes the height difference.', """
from waymax import metrics
rng = np.random.default_rng(3)
st = state(rng, 3, 6, timestep=3)
r = metrics.LogDivergenceMetric().compute(st)
k = 3
want = np.hypot(st.sim_trajectory.x[:, k] - st.log_trajectory.x[:, k], st.sim_trajectory.y[:, k] - st.log_trajectory.y[:, k])
check(np.allclose(r.value, want, atol=1e-3), '%s is not %s' % (r.value, want))
""")

s('c17_progress', 'C17', [('metrics/route.py', """      dist = jnp.where(path.valid, dist_raw, jnp.inf)
      idx = jnp.argmin(dist, axis=-1, keepdims=True)
""", """      num_valid = jnp.sum(path.valid, axis=-1, keepdims=True)
      in_path = jnp.arange(path.valid.shape[-1]) < num_valid
      dist = jnp.where(in_path, dist_raw, jnp.inf)
      idx = jnp.argmin(dist, axis=-1, keepdims=True)
""")], 'a route with invalid points before or between its valid ones', 'Arc lengths of invalid path points are used for the route progress.', """
from waymax import metrics
rng = np.random.default_rng(3)
st = state(rng, 2, 4, timestep=2)
px = jnp.asarray([[2.0, 0, 1, 2, 3, 4]], jnp.float32)
z = px * 0
v = jnp.asarray([[False, True, True, True, True, True]])
st = st.replace(sdc_paths=datatypes.Paths(x=px, y=z, z=z, ids=jnp.ones((1, 6), jnp.int32), valid=v, arc_length=jnp.asarray([[900.0, 0, 1, 2, 3, 4]]), on_route=jnp.asarray([[True]])))
t = jnp.asarray([[0.0, 1.0, 2.0, 4.0]] * 2)
tr = st.sim_trajectory.replace(x=t, y=t * 0, valid=t > -1)
st = st.replace(sim_trajectory=tr, log_trajectory=tr)
r = metrics.ProgressionMetric().compute(st)
check(abs(float(r.value) - 0.5) < 1e-3, 'progress %s is not 0.5' % r.value)
""")

s('c18_mask', 'C18', [('rewards/linear_combination_reward.py', '', '')], '', '', '')

s('c19_simmask', 'C19', [('env/planning_agent_environment.py', """    is_controllable = ~_initialized_overlap(state.log_trajectory)
""", """    is_controllable = (
        ~_initialized_overlap(state.log_trajectory)
        | state.object_metadata.is_modeled
    )
""")], 'a modeled object that starts out overlapping another one and a simulated agent that claims it', 'Modeled objects that start out overlapping are driven by simulated agents.', """
from waymax import dynamics, env, agents
rng = np.random.default_rng(1)
st = state(rng, 3, 8)
x = jnp.asarray([[0.0], [100.0], [100.5]]) + jnp.zeros((3, 8))
st = st.replace(log_trajectory=st.log_trajectory.replace(x=x, y=x * 0, valid=x > -1), object_metadata=st.object_metadata.replace(is_modeled=jnp.asarray([False, True, False])))
a = agents.create_constant_speed_actor(dynamics.StateDynamics(), lambda s: ~s.object_metadata.is_sdc, speed=3.0)
e = env.PlanningAgentEnvironment(dynamics.DeltaLocal(), config.EnvironmentConfig(max_num_objects=3, init_steps=2, controlled_object=config.ObjectType.SDC), [a], [{}])
o = e.step(e.reset(st), datatypes.Action(data=jnp.zeros(3), valid=jnp.ones(1, bool)))
k = int(o.timestep)
check(np.allclose(o.sim_trajectory.x[1:, k], st.log_trajectory.x[1:, k]) and np.allclose(o.sim_trajectory.vel_x[1:, k], st.log_trajectory.vel_x[1:, k]), 'driven')
""")

s('c20_invalid', 'C20', [('agents/actor_core.py', """        output.is_controlled[..., jnp.newaxis], output.action, action
""", """        output.is_controlled[..., jnp.newaxis] & output.action.valid,
        output.action,
        action,
""")], 'a later actor that controls an object with an action marked invalid', 'An invalid action of the controlling actor is replaced by what the first actor proposed.', """
from waymax.agents import actor_core
o = lambda c, d, v: actor_core.WaymaxActorOutput(actor_state=None, action=datatypes.Action(data=jnp.full((2, 2), d), valid=jnp.full((2, 1), v)), is_controlled=jnp.asarray(c))
m = actor_core.merge_actions([o([True, False], 1.0, True), o([False, True], 5.0, False)])
check(np.allclose(m.data[1], 5.0) and not bool(m.valid[1, 0]), 'object 1 gets %s %s' % (m.data[1], m.valid[1]))
""")

s('c22_tl', 'C22', [('datatypes/observation.py', """  global_tls = slice_by_time(state.log_traffic_light)
""", """  global_tls = operations.dynamic_slice(
      state.log_traffic_light,
      jnp.maximum(state.timestep - obs_num_steps, 0),
      obs_num_steps,
      axis=-1,
  )
""")], 'an observation taken once the window no longer starts at the first step', 'Traffic lights in the observation lag one step behind the objects.', """
from waymax.datatypes import observation as ob
rng = np.random.default_rng(3)
st = state(rng, 2, 8, timestep=5)
o = ob.sdc_observation_from_state(st, obs_num_steps=3, roadgraph_top_k=2, coordinate_frame=config.CoordinateFrame.GLOBAL)
check(np.allclose(o.traffic_lights.x[0], st.log_traffic_light.x[:, 3:6]), 'traffic lights of other steps')
""")

s('c23_z', 'C23', [('datatypes/roadgraph.py', """    valid_distances = jnp.where(roadgraph.valid, distances, float('inf'))
""", """    valid_distances = jnp.where(roadgraph.valid, distances, 1e3)
""")], 'fewer than k valid points near the reference and others more than a kilometre away', 'Invalid points crowd out far-away valid ones.', """
from waymax.datatypes import roadgraph as r
f = lambda *v: jnp.asarray(v, jnp.float32)
z = f(0, 0, 0)
rg = r.RoadgraphPoints(x=f(1, 2, 5000), y=z, z=z, dir_x=z, dir_y=z, dir_z=z, types=jnp.ones(3, jnp.int32), ids=jnp.ones(3, jnp.int32), valid=jnp.asarray([True, False, True]))
o = r.filter_topk_roadgraph_points(rg, f(0, 0), 2)
check(bool(o.valid.all()), 'kept an invalid point while a valid one is left out')
""")

s('c24_slice', 'C24', [('datatypes/operations.py', """  if updates_start_idx is None:
    updates_start_idx = inputs_start_idx
  elif hasattr""", """  if not hasattr(updates_start_idx, 'shape'):
    updates_start_idx = inputs_start_idx
  elif hasattr""")], 'a slice update whose source position is given as a plain integer different from the target position', 'The source position is ignored when it is a Python integer.', """
from waymax.datatypes import operations as o
a, b = jnp.arange(6.0), jnp.arange(6.0) * 10
r = o.update_by_slice_in_dim(a, b, 3, updates_start_idx=1, slice_size=2)
check(np.allclose(r, [0, 1, 2, 10, 20, 5]), 'got %s' % r)
""")

s('c25_dims', 'C25', [('dataloader/womd_factories.py', """  width = operations.masked_mean(width, valid=valid, axis=-1)
""", """  width = operations.masked_mean(width, valid=width > 0, axis=-1)
""")], 'an object with a recorded width at a step where it is invalid', 'The width is averaged over steps where the object is invalid.', """
from waymax.dataloader import womd_factories as w
n, t = 1, 3
f = lambda v: np.full((n, t), v, np.float32)
ex = {f'state/all/{k}': f(1.0) for k in ('x', 'y', 'z', 'velocity_x', 'velocity_y', 'bbox_yaw', 'length', 'width', 'height')}
ex['state/all/valid'] = np.array([[1, 1, 0]])
ex['state/all/width'] = np.array([[2.0, 2.0, 8.0]], np.float32)
ex['state/all/timestamp_micros'] = np.zeros((n, t), np.int32)
o = w.trajectory_from_womd_dict(ex)
check(np.allclose(o.width, 2.0), 'width %s' % o.width)
""")

s('c26_carry', 'C26', [('env/rollout.py', """        actor_state=actor_output.actor_state,
    )
    return next_carry""", """        actor_state=carry.actor_state,
    )
    return next_carry""")], 'an actor that keeps state between steps, over at least two steps', 'The state of the actor is not carried from step to step.', """
from waymax import dynamics, env, agents
import importlib
ro = importlib.import_module("waymax.env.rollout")
rng = np.random.default_rng(1)
st = state(rng, 3, 8)
e = env.BaseEnvironment(dynamics.StateDynamics(), config.EnvironmentConfig(max_num_objects=3, init_steps=2, controlled_object=config.ObjectType.SDC, metrics=config.MetricsConfig(metrics_to_run=()), rewards=config.LinearCombinationRewardConfig(rewards={})))
def sel(params, s, a, k):
  return agents.WaymaxActorOutput(actor_state=a + 1.0, action=datatypes.Action(data=jnp.full((3, 5), a), valid=jnp.ones((3, 1), bool)), is_controlled=jnp.ones(3, bool))
act = agents.actor_core_factory(lambda k, s: jnp.float32(3.0), sel)
o = ro.rollout(st, act, e, jax.random.PRNGKey(0), 3)
check(np.allclose(o.action.data[:3, 0, 0], [3, 4, 5]), 'actions %s' % o.action.data[:, 0, 0])
""")

s('c27_lastdiscount', 'C27', [('env/wrappers/dm_env_wrapper.py', """    discount = jnp.logical_not(termination).astype(jnp.float32)
    if jnp.all(done):""", """    discount = jnp.logical_not(done).astype(jnp.float32)
    if jnp.all(done):""")], 'the last step of an episode that ends by running out of steps', 'The last step carries a zero discount although the episode is only truncated.', """
from waymax import dynamics, env
rng = np.random.default_rng(1)
st = state(rng, 3, 4)
e = env.PlanningAgentEnvironment(dynamics.DeltaLocal(), config.EnvironmentConfig(max_num_objects=3, init_steps=2, controlled_object=config.ObjectType.SDC, metrics=config.MetricsConfig(metrics_to_run=()), rewards=config.LinearCombinationRewardConfig(rewards={})))
from waymax.env.wrappers.dm_env_wrapper import DMEnvWrapper
w = DMEnvWrapper(iter([st] * 3), e)
w.reset()
while True:
  t = w.step(np.zeros(3, np.float32))
  if t.last():
    break
check(float(t.discount) == 1.0, 'discount %s' % t.discount)
""")

s('c28_yaw', 'C28', [('dataloader/womd_utils.py', '', '')], '', '', '')

s('c29_width', 'C29', [('dataloader/dataloader_utils.py', """  format_str = '-%0' + str(shard_width) + 'd-of-%05d'
""", """  format_str = '-%0' + str(shard_width) + 'd-of-%0' + str(shard_width) + 'd'
  base_name = base_name.rstrip('-')
""")], 'a base name that ends with a dash', 'The end of the base name is changed.', """
from waymax.dataloader import dataloader_utils as d
check(d.generate_sharded_filenames('a/b-@2') == ['a/b--00000-of-00002', 'a/b--00001-of-00002'], d.generate_sharded_filenames('a/b-@2'))
""")

s('c30_time', 'C30', [('metrics/imitation.py', '', '')], '', '', '')

s('c31_speed', 'C31', [('datatypes/object_state.py', '', '')], '', '', '')

s('c12_touch', 'C12', [('utils/geometry.py', """    return jnp.all(distance > 0, axis=-1)

  return jnp.logical_and(
      _overlap_a_over_b(bboxes_a, bboxes_b),
      _overlap_a_over_b(bboxes_b, bboxes_a),
  )
""", """    return jnp.all(distance > 0, axis=-1)

  # Rectangles further apart than their half-diagonals cannot overlap.
  reach_a = jnp.maximum(bboxes_a[..., 2], bboxes_a[..., 3])
  reach_b = jnp.maximum(bboxes_b[..., 2], bboxes_b[..., 3])
  gap = jnp.linalg.norm(bboxes_a[..., :2] - bboxes_b[..., :2], axis=-1)
  near = gap <= (reach_a + reach_b) * 0.5 * 1.2
  return near & jnp.logical_and(
      _overlap_a_over_b(bboxes_a, bboxes_b),
      _overlap_a_over_b(bboxes_b, bboxes_a),
  )
""")], 'two nearly square boxes that meet corner to corner along the diagonal', 'Overlaps near the corners of square boxes are missed.', """
from waymax.utils import geometry as g
f = lambda *v: jnp.asarray(v, jnp.float32)
check(g.has_overlap(f(0, 0, 2, 2, 0), f(1.9, 1.9, 2, 2, 0)), 'corner overlap missed')
""")
S = [x for x in S if x['demo']]
