S = []


def s(id, property, edits, needs, breaks, demo):
  S.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


s('c10_stride', 'C10', [('dynamics/discretizer.py', """        tuple((np.asarray(self._bins) + 1).tolist()),
""", """        (int(np.max(self._bins)) + 1,) * self._bins.shape[0],
"""), ('dynamics/discretizer.py', """        jnp.unravel_index(jnp.reshape(indices_1d, [-1]), self._bins + 1),
""", """        jnp.unravel_index(
            jnp.reshape(indices_1d, [-1]),
            (int(np.max(self._bins)) + 1,) * self._bins.shape[0],
        ),
""")], 'an action space whose dimensions have different numbers of bins', 'Discrete indices leave the range of the action space, although they convert back consistently.', """
from waymax.dynamics import discretizer
d = discretizer.Discretizer(jnp.array([0.0, 0.0]), jnp.array([1.0, 1.0]), jnp.array([1, 3]))
i = d.discretize(jnp.array([[1.0, 1.0]]))
check(int(i[0, 0]) == 7, 'index %s' % i)
""")

s('c10_placeholder', 'C10', [('dynamics/discretizer.py', """  action_array = jnp.where(valid, best_action, discrete_invalid_placeholder)
""", """  action_array = jnp.where(
      valid, best_action, jnp.zeros_like(discrete_invalid_placeholder)
  )
""")], 'the search inverse of an object that is not valid at both steps', 'The placeholder for an invalid motion becomes the most negative action instead of the zero action.', """
from waymax.dynamics import discretizer, delta
rng = np.random.default_rng(0)
st = state(rng, 2, 4)
m = discretizer.DiscreteActionSpaceWrapper(delta.DeltaGlobal(), jnp.array([2, 2, 2]), bin_inverse=False)
t = st.sim_trajectory.replace(valid=jnp.zeros((2, 4), bool))
a = m.inverse(t, st.object_metadata, 1)
check(np.all(np.asarray(a.data) == 13), 'placeholder %s' % a.data)
""")

s('c13_meta', 'C13', [('metrics/overlap.py', """    return self.compute_overlap(current_object_state)
""", """    return self.compute_overlap(
        current_object_state.replace(
            valid=current_object_state.valid
            & simulator_state.object_metadata.is_valid[..., jnp.newaxis]
        )
    )
""")], 'an overlap with an object that the metadata does not mark as valid', 'Overlaps with simulated objects that were not tracked for prediction are not reported.', """
from waymax import metrics
rng = np.random.default_rng(0)
st = state(rng, 2, 5, timestep=2)
f = jnp.zeros((2, 5))
tr = st.sim_trajectory.replace(x=f, y=f, yaw=f, length=f + 4, width=f + 2, valid=f > -1)
md = st.object_metadata.replace(is_valid=jnp.array([True, False]))
r = metrics.OverlapMetric().compute(st.replace(sim_trajectory=tr, object_metadata=md))
check(np.all(np.asarray(r.value) == 1) and bool(r.valid.all()), 'overlap %s' % r)
""")

s('c14_prioredge', 'C14', [('metrics/roadgraph.py', """  nearest_xys = sampled_points[nearest_indices, :2]
""", """  # Shape: (..., num_query_points, 2).
  nearest_xys = (sampled_points + 0.0 * roadgraph_points.dir_xyz)[
      nearest_indices, :2
  ]
"""), ('metrics/roadgraph.py', """              prior_point_in_same_curve, cross_product_prior < cross_product
""", """              prior_point_in_same_curve,
              jnp.abs(cross_product_prior) > jnp.abs(cross_product),
""")], 'a point nearest to a concave bend of a road edge', 'At a bend the direction giving the larger area is used instead of the one that puts the point on the road.', """
from waymax.metrics import roadgraph as r
f = lambda *a: jnp.asarray(a, jnp.float32)
rg = datatypes.RoadgraphPoints(x=f(0, 1), y=f(0, 0), z=f(0, 0), dir_x=f(1, 0), dir_y=f(0, 1), dir_z=f(0, 0),
                               types=jnp.array([15, 15]), ids=jnp.array([1, 1]), valid=jnp.array([True, True]))
q = f([2, 0.5, 0], [1.2, -.5, 0], [.8, .5, 0], [1.5, -.2, 0], [1.2, .5, 0])
d = r.compute_signed_distance_to_nearest_road_edge_point(q[:, :], rg)
want = []
for p in np.asarray(q):
  v = p[:2] - np.array([1, 0])
  c1 = v[0] * 1 - v[1] * 0
  c0 = v[0] * 0 - v[1] * 1
  want.append(np.sign(min(c0, c1)) * np.linalg.norm(v))
check(np.allclose(d, want, atol=1e-5), 'distance %s %s' % (d, want))
""")

s('c15_dt', 'C15', [('metrics/comfort.py', """    actions = bicycle_model.compute_inverse(traj, timestep - 1, self._dt)
""", """    actions = bicycle_model.compute_inverse(
        traj, timestep - 1, datatypes.TIME_INTERVAL
    )
""")], 'a metric built for another step length than 0.1 s', 'The feasibility metric ignores its configured step length.', """
from waymax import metrics
from waymax.metrics import comfort
f = lambda *a: jnp.asarray([a], jnp.float32)
z = f(0, 0)
t = datatypes.Trajectory(x=z, y=z, z=z, vel_x=f(0, 4), vel_y=z, yaw=z, valid=z > -1, timestamp_micros=jnp.zeros((1, 2), jnp.int32), length=z, width=z, height=z)
r = comfort.KinematicsInfeasibilityMetric(dt=0.5).compute_kinematics_infeasibility(t, 1)
check(np.allclose(r.value, 0), 'infeasible %s' % r)
""")

s('c28_order', 'C28', [('dataloader/womd_dataloader.py', """  if max_num_objects is not None:
""", """  if max_num_objects is not None and aggregate_timesteps:
    # Objects that are never observed are the first to be dropped.
    observed = tf.reduce_any(processed['state/all/valid'] > 0, axis=-1)
    order = tf.argsort(tf.cast(~observed, tf.int32), stable=True)
    return {
        k: tf.gather(v, order)[:max_num_objects]
        if k.startswith('state/') and k != 'state/which_time'
        else v
        for k, v in processed.items()
    }
  elif max_num_objects is not None:
""")], 'an object that is never valid listed before one that is', 'Objects are reordered when their number is limited.', """
import tensorflow as tf
from waymax.dataloader import womd_dataloader as w
t = lambda *a: tf.constant(np.asarray(a))
ex = {'state/id': t(1, 2, 3)}
for p, n in (('past', 2), ('current', 1), ('future', 1)):
  ex[f'state/{p}/valid'] = tf.constant(np.array([[0] * n, [1] * n, [1] * n], np.int64))
  ex[f'state/{p}/bbox_yaw'] = tf.constant(np.zeros((3, n), np.float32))
o = w.preprocess_womd_example(ex, aggregate_timesteps=True, max_num_objects=2)
check(list(np.asarray(o['state/id'])) == [1, 2], 'ids %s' % o['state/id'])
""")

s('c28_tlaxis', 'C28', [('dataloader/womd_utils.py', """        if traffic_light_feature == 'timestamp_micros'
        else TL_STEP_AXIS
""", """        if 'timestamp' in traffic_light_feature
        or decoded_tensors[
            f'traffic_light_state/past/{traffic_light_feature}'
        ].shape[TL_STEP_AXIS]
        == decoded_tensors[
            f'traffic_light_state/future/{traffic_light_feature}'
        ].shape[TL_STEP_AXIS]
        else TL_STEP_AXIS
""")], 'as many past as future steps', 'Traffic lights are joined along the light axis when past and future have the same length.', """
import tensorflow as tf
from waymax.dataloader import womd_utils as w
ex = {}
for i, (p, n) in enumerate((('past', 2), ('current', 1), ('future', 2))):
  ex[f'traffic_light_state/{p}/x'] = tf.constant(np.full((n, 1), i, np.float32))
  ex[f'state/{p}/valid'] = tf.zeros((1, n), tf.int64)
try:
  o = w.aggregate_time_tensors(ex)
except Exception as e:
  fail(repr(e))
check(o['traffic_light_state/all/x'].shape == (5, 1), str(o))
""")

s('c32_sym', 'C32', [('env/base_environment.py', """        maximum=np.broadcast_to(single_agent_spec.maximum, data_shape),
""", """        maximum=-np.broadcast_to(single_agent_spec.minimum, data_shape),
""")], 'dynamics with bounds that are not symmetric, such as discrete actions', 'The upper bound of the multi-agent action specification is the mirrored lower bound.', """
from waymax import dynamics, env
m = dynamics.DiscreteActionSpaceWrapper(dynamics.DeltaGlobal(), jnp.array([2, 2, 2]))
e = env.MultiAgentEnvironment(m, config.EnvironmentConfig(max_num_objects=2))
check(np.all(np.asarray(e.action_spec().data.maximum) == 26), 'maximum %s' % e.action_spec().data.maximum)
""")

s('c32_obsbatch', 'C32', [('env/wrappers/dm_env_wrapper.py', """        return specs.Array(shape=array.shape[batch_ndim:], dtype=array.dtype)
""", """        return specs.Array(
            shape=array.shape[min(batch_ndim, 1) :], dtype=array.dtype
        )
""")], 'an environment fed with two batch dimensions', 'The observation specification keeps one of the batch dimensions.', """
from waymax import dynamics, env
from waymax.env.wrappers import dm_env_wrapper
rng = np.random.default_rng(0)
st = state(rng, 2, 12)
st2 = jax.tree.map(lambda x: jnp.broadcast_to(x, (2, 3) + x.shape), st)
e = env.PlanningAgentEnvironment(dynamics.StateDynamics(), config.EnvironmentConfig(max_num_objects=2, controlled_object=config.ObjectType.SDC))
class Obs:
  batch_dims = (2, 3)
  def __init__(self): pass
e.observe = lambda s: s.sim_trajectory and s
import itertools
try:
  sp = dm_env_wrapper.DMEnvWrapper(itertools.repeat(st2), e).observation_spec()
except Exception as ex:
  raise
check(sp.sim_trajectory.x.shape == (2, 12), 'spec %s' % (sp.sim_trajectory.x.shape,))
""")

s('c33_ovl', 'C33', [('visualization/viz.py', """      valid[None, :, time_idx], overlap_mask_matrix, False
""", """      valid[:, None, time_idx], overlap_mask_matrix, False
""")], 'a valid object overlapping an invalid one', 'A vehicle is drawn as overlapping because of an object that is not there.', """
import matplotlib
matplotlib.use('Agg')
from unittest import mock
from waymax.visualization import viz, utils
rng = np.random.default_rng(0)
f = jnp.zeros((2, 1))
t = traj(rng, 2, 1).replace(x=f, y=f, yaw=f, length=f + 4, width=f + 2, valid=jnp.array([[True], [False]]))
n = []
with mock.patch.object(utils, 'plot_numpy_bounding_boxes', lambda ax, bboxes, color, **k: n.append((tuple(np.asarray(color)), len(bboxes)))):
  viz.plot_trajectory(None, t, np.array([True, False]), time_idx=0)
check(sum(k for c, k in n if c == (1.0, 0.0, 0.0)) == 0, 'drawn %s' % n)
""")

s('c33_pathpts', 'C33', [('visualization/viz.py', """    xy = paths.xy[i][paths.valid[i]]
    if paths.on_route[i]:
""", """    xy = paths.xy[i][: int(paths.valid[i].sum())]
    if paths.on_route[i]:
""")], 'a route with an invalid point before a valid one', 'Invalid route points are drawn in place of valid ones.', """
import matplotlib
matplotlib.use('Agg')
from waymax.visualization import viz
f = lambda *a: jnp.asarray([a], jnp.float32)
p = datatypes.Paths(x=f(1, 2, 3), y=f(1, 2, 3), z=f(0, 0, 0), ids=jnp.ones((1, 3), jnp.int32), valid=jnp.array([[True, False, True]]), arc_length=f(0, 1, 2), on_route=jnp.array([[True]]))
got = []
class Ax:
  def plot(self, x, y, *a, **k): got.append((list(map(float, x)), list(map(float, y))))
viz._plot_path_points(Ax(), p)
check(got == [([1.0, 3.0], [1.0, 3.0])], 'drawn %s' % got)
""")

s('c33_tl', 'C33', [('visualization/viz.py', """  tls_xy = tls.xy[:, timestep][valid]
  tls_state = tls.state[:, timestep][valid]
""", """  tls_xy = tls.xy[:, timestep][valid]
  tls_state = tls.state[:, timestep][: len(tls_xy)]
""")], 'an invalid traffic light listed before a valid one', 'Traffic lights are drawn with the colour of another light.', """
import matplotlib
matplotlib.use('Agg')
from waymax.visualization import viz, color
f = lambda *a: jnp.asarray([[v] for v in a], jnp.float32)
t = datatypes.TrafficLights(x=f(1, 2), y=f(1, 2), z=f(0, 0), state=jnp.array([[1], [3]], jnp.int32), lane_ids=jnp.ones((2, 1), jnp.int32), valid=jnp.array([[False], [True]]))
got = []
class Ax:
  def plot(self, x, y, **k): got.append(k['color'])
viz.plot_traffic_light_signals_as_points(Ax(), t, 0)
check(got == [color.TRAFFIC_LIGHT_COLORS[3]], 'drawn %s' % got)
""")
