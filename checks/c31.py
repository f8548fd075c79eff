"""C31: derived views read the fields they name."""
from checks.common import *
from svx.paths import Forked

ROUTE = ('x', 'y', 'z', 'ids', 'valid', 'arc_length', 'on_route')


def stacked(o, parts):
  """o[..., k] are the parts in order."""
  o = np.asarray(o, dtype=object)
  if o.shape != np.shape(parts[0]) + (len(parts),):
    return False
  return T.and_([all_same(o[..., k], p) for k, p in enumerate(parts)])


def speed_ok(v, s, valid):
  rows = []
  for vx, vy, x, ok in zip(*[np.asarray(a, dtype=object).reshape(-1) for a in (v[0], v[1], s, valid)]):
    sq = T.add(T.mul(vx, vx), T.mul(vy, vy))
    r = T.sqrt(sq)
    rows.append(T.ite(ok, T.le(T.absv(T.sub(x, r)), T.mul(r, F(1, 10**4))), T.eqv(x, -1)))
  return T.and_(rows)


def yaw_ok(v, s, valid):
  rows = []
  for vx, vy, x, ok in zip(*[np.asarray(a, dtype=object).reshape(-1) for a in (v[0], v[1], s, valid)]):
    moving = T.or_(T.le(F(1, 10**5), T.absv(vx)), T.le(F(1, 10**5), T.absv(vy)))
    rows.append(T.and_(T.implies(T.and_(ok, moving), T.close(x, T.atan2(vy, vx), F(1, 1000))), T.implies(T.not_(ok), T.eqv(x, -1))))
  return T.and_(rows)


def traj_views(t):
  names = ('yaw', 'x', 'length', 'vel_y', 'valid')
  return dict(xy=t.xy, xyz=t.xyz, vel=t.vel_xy, speed=t.speed, yaw=t.vel_yaw,
              some=t.stack_fields(list(names)), rev=t.stack_fields(['y', 'x']))


def traj_claims(i, o):
  t = i[0]
  f = lambda *ns: [getattr(t, n) for n in ns]
  some = np.asarray(o['some'], dtype=object)
  tovalue = np.vectorize(lambda b: T.ite(b, 1, 0), otypes=[object])
  return [
      c('xy', stacked(o['xy'], f('x', 'y'))), c('xyz', stacked(o['xyz'], f('x', 'y', 'z'))),
      c('velocity', stacked(o['vel'], f('vel_x', 'vel_y'))),
      c('speed', speed_ok(f('vel_x', 'vel_y'), o['speed'], t.valid)),
      c('direction of motion', yaw_ok(f('vel_x', 'vel_y'), o['yaw'], t.valid)),
      c('named fields in order', stacked(some, f('yaw', 'x', 'length', 'vel_y') + [tovalue(t.valid)])),
      c('any order', stacked(o['rev'], f('y', 'x'))),
  ]


def state_views(s):
  return dict(sim=s.current_sim_trajectory, log=s.current_log_trajectory, rem=s.remaining_timesteps, done=s.is_done,
              dims=jnp.asarray([s.num_objects, len(s.shape)] + list(s.shape) + list(s.batch_dims)))


def state_claims(n, t, batch):
  def f(i, o):
    s = i[0]
    ts = np.asarray(s.timestep, dtype=object).reshape(-1)

    def now(src, got):
      rows = []
      for k in TF:
        a = np.asarray(getattr(src, k), dtype=object).reshape((-1, n, t))
        g = np.asarray(getattr(got, k), dtype=object)
        if g.shape != batch + (n, 1):
          return False
        g = g.reshape(-1, n)
        rows += [T.same(g[b, j], at(a[b, j], ts[b])) for b in range(len(ts)) for j in range(n)]
      return T.and_(rows)
    return [c('current simulated slice', now(s.sim_trajectory, o['sim'])), c('current logged slice', now(s.log_trajectory, o['log'])),
            c('sizes', [int(x) for x in np.asarray(o['dims']).reshape(-1)] == [n, len(batch)] + list(batch) * 2)]
  return f


def harnesses(tier):
  hs = []
  H = Harness
  sizes = [(2, 3)] if tier == 'quick' else [(2, 3), (3, 4), (1, 1)]
  for n, t in sizes:
    for batch in ((), (2,)):
      b = f'{n} objects, {t} steps' + (f', batch {batch}' if batch else '')
      sfx = f'_{n}_{t}' + ('_b' if batch else '')
      hs.append(H('trajectory' + sfx, traj_views, (wm.traj(n, t, batch=batch),), traj_claims,
                  functions=['Trajectory.xy', 'Trajectory.xyz', 'Trajectory.vel_xy', 'Trajectory.speed', 'Trajectory.vel_yaw', 'Trajectory.stack_fields'], bounds=b))
      hs.append(H('state' + sfx, state_views, (wm.state(n, t, batch=batch),), state_claims(n, t, batch),
                  functions=['SimulatorState.current_sim_trajectory', 'SimulatorState.current_log_trajectory', 'SimulatorState.num_objects', 'SimulatorState.shape'], bounds=b))

  hs.append(H('roadgraph', lambda r: dict(xy=r.xy, xyz=r.xyz, d=r.dir_xy, d3=r.dir_xyz, n=jnp.asarray(r.num_points), e=datatypes.is_road_edge(r.types)), (wm.roadgraph(4, types=(-1, 25)),),
              lambda i, o: [c('xy', stacked(o['xy'], [i[0].x, i[0].y])), c('xyz', stacked(o['xyz'], [i[0].x, i[0].y, i[0].z])),
                            c('direction', stacked(o['d'], [i[0].dir_x, i[0].dir_y])), c('direction 3d', stacked(o['d3'], [i[0].dir_x, i[0].dir_y, i[0].dir_z])),
                            c('number of points', int(scal(o['n'])) == 4),
                            c('road edges', T.and_([T.iff(e, T.or_(T.eqv(k, 15), T.eqv(k, 16))) for e, k in zip(o['e'], i[0].types)]))],
              functions=['RoadgraphPoints.xy', 'RoadgraphPoints.xyz', 'RoadgraphPoints.dir_xy', 'RoadgraphPoints.dir_xyz', 'is_road_edge'], bounds='4 points, all types -1..25'))
  hs.append(H('paths', lambda r: dict(xy=r.xy, xyz=r.xyz, n=jnp.asarray([r.num_paths, r.num_points_per_path])), (wm.paths(2, 3),),
              lambda i, o: [c('xy', stacked(o['xy'], [i[0].x, i[0].y])), c('xyz', stacked(o['xyz'], [i[0].x, i[0].y, i[0].z])), c('sizes', [int(x) for x in o['n']] == [2, 3])],
              functions=['Paths.xy', 'Paths.xyz'], bounds='2 paths, 3 points'))
  hs.append(H('traffic_lights', lambda r: dict(xy=r.xy, n=jnp.asarray([r.num_traffic_lights, r.num_timesteps])), (wm.tls(2, 3),),
              lambda i, o: [c('xy', stacked(o['xy'], [i[0].x, i[0].y])), c('sizes', [int(x) for x in o['n']] == [2, 3])],
              functions=['TrafficLights.xy'], bounds='2 lights, 3 steps'))

  f1 = lambda: V((3, 1), 'f', -100, 100)
  upd = datatypes.TrajectoryUpdate(x=f1(), y=f1(), yaw=f1(), vel_x=f1(), vel_y=f1(), valid=V((3, 1), 'b'))
  hs.append(H('as_action', lambda u: u.as_action(), (upd,),
              lambda i, o: [c('fields in order', T.and_([all_same(np.asarray(o.data, dtype=object)[:, k:k + 1], getattr(i[0], f)) for k, f in enumerate(('x', 'y', 'yaw', 'vel_x', 'vel_y'))])
                              if np.shape(o.data) == (3, 5) else False),
                            c('validity', all_same(o.valid, i[0].valid))],
              functions=['TrajectoryUpdate.as_action'], bounds='3 objects'))
  hs.append(H('fill_invalid', lambda t: datatypes.fill_invalid_trajectory(t), (wm.traj(2, 2),),
              lambda i, o: [c(k, T.and_([T.not_(x) if k == 'valid' else T.eqv(x, -1) for x in np.asarray(getattr(o, k), dtype=object).reshape(-1)])
                              if np.shape(getattr(o, k)) == (2, 2) else False) for k in TF],
              functions=['fill_invalid_trajectory'], bounds='2 objects, 2 steps'))
  hs.append(H('zeros', lambda x: (datatypes.Trajectory.zeros((2, 3)), x), (V((), 'f', 0, 1),),
              lambda i, o: [c(k, T.and_([T.not_(x) if k == 'valid' else T.eqv(x, 0) for x in np.asarray(getattr(o[0], k), dtype=object).reshape(-1)])
                              if np.shape(getattr(o[0], k)) == (2, 3) else False) for k in TF],
              functions=['Trajectory.zeros'], bounds='2 objects, 3 steps'))
  for shape in ((3,), (2, 3)):
    hs.append(H(f'masked_value_{len(shape)}', lambda a, fill: (a.masked_value(), a.masked_value(7), a.masked_value(fill)),
                (datatypes.MaskedArray(value=V(shape, 'f', -100, 100), valid=V(shape, 'b')), V((), 'f', -100, 100)),
                lambda i, o: [c(nm, T.and_([T.same(x, T.ite(m, v, w)) for x, v, m in zip(*[np.asarray(a, dtype=object).reshape(-1) for a in (o[k], i[0].value, i[0].valid)])]))
                              for k, (nm, w) in enumerate((('default fill', F(0)), ('fixed fill', F(7)), ('given fill', scal(i[1]))))],
                functions=['MaskedArray.masked_value'], bounds=str(shape)))

  # equality of structures: exactly when every element agrees
  def equal(log, a, b):
    log.append(bool(a == b))
    return jnp.zeros(())

  def equal_claims(i, o, log):
    la, lb = [jax.tree_util.tree_leaves(x) for x in i]
    every = T.and_([T.same(x, y) for p, q in zip(la, lb) for x, y in zip(np.asarray(p, dtype=object).reshape(-1), np.asarray(q, dtype=object).reshape(-1))])
    return [c(f'answer {log[0]}', every if log[0] else T.not_(every), reach=True)]

  pairs = {
      'trajectory': lambda: wm.traj(1, 1), 'metadata': lambda: wm.metadata(1), 'roadgraph': lambda: wm.roadgraph(1), 'paths': lambda: wm.paths(1, 1),
      'traffic_lights': lambda: wm.tls(1, 1), 'action': lambda: action(2, 2), 'masked': lambda: datatypes.MaskedArray(value=V((2,)), valid=V((2,), 'b')),
      'update': lambda: datatypes.TrajectoryUpdate(**{k: V((1, 1), 'f', -9, 9) for k in ('x', 'y', 'yaw', 'vel_x', 'vel_y')}, valid=V((1, 1), 'b')),
      'pose': lambda: datatypes.ObjectPose2D(original_xy=V((2,), 'f', -9, 9), original_yaw=V((), 'f', -3, 3), delta_yaw=V((), 'f', -3, 3), matrix=V((2, 2), 'f', -1, 1), valid=V((), 'b')),
  }
  for nm, mk in pairs.items():
    hs.append(Forked(f'equal_{nm}', equal, (mk(), mk()), equal_claims, functions=['__eq__', 'compare_all_leaf_nodes'], bounds='two arbitrary instances of the same shape', samples=0, validate=False))
  return hs
