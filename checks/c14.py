"""C14: offroad metric."""
from checks.c12 import corners
from checks.common import *
from waymax.metrics import roadgraph as R

EPS = F(1, 1000)
MARGIN = F(1, 100)


def usable(rg, p):
  return T.and_(rg.valid[p], T.or_(T.eqv(rg.types[p], 15), T.eqv(rg.types[p], 16)))


def dist2(rg, p, q, stretch=2):
  dz = T.mul(T.sub(rg.z[p], q[2]), stretch)
  return T.add(norm2(T.sub(rg.x[p], q[0]), T.sub(rg.y[p], q[1])), T.mul(dz, dz))


def nearest(rg, p, q, eps=EPS):
  """p is usable and nearer than every other usable point (by a margin in squared distance)."""
  n = len(rg.x)
  d = dist2(rg, p, q)
  return T.and_([usable(rg, p)] + [T.implies(usable(rg, r), T.lt(T.add(d, eps), dist2(rg, r, q)))
                                   for r in range(n) if r != p])


def cross(rg, p, d, q):
  """Side of q relative to the edge through p with the direction of point d (>0: outside)."""
  return T.sub(T.mul(T.sub(q[0], rg.x[p]), rg.dir_y[d]), T.mul(T.sub(q[1], rg.y[p]), rg.dir_x[d]))


def outside(rg, p, q, m=MARGIN):
  """q lies on the outer side of the edge at p (of both segments meeting there)."""
  a = T.le(m, cross(rg, p, p, q))
  if p == 0:
    return a
  same = T.and_(T.eqv(rg.ids[p], rg.ids[p - 1]), usable(rg, p - 1))
  return T.and_(a, T.implies(same, T.le(m, cross(rg, p, p - 1, q))))


def inside(rg, p, q, m=MARGIN):
  a = T.le(cross(rg, p, p, q), -m)
  if p == 0:
    return a
  same = T.and_(T.eqv(rg.ids[p], rg.ids[p - 1]), usable(rg, p - 1))
  return T.or_(a, T.and_(same, T.le(cross(rg, p, p - 1, q), -m)))


def none_usable(rg):
  return T.and_([T.not_(usable(rg, p)) for p in range(len(rg.x))])


def harnesses(tier):
  hs = []
  p = 3 if tier == 'quick' else 4
  # signed distance of one query point
  for k in range(p):

    def assume(i, k=k):
      q, rg = i
      return [nearest(rg, k, [q[0, a] for a in range(3)])]

    def claims(i, o, k=k):
      q, rg = i
      q = [q[0, a] for a in range(3)]
      d2 = norm2(T.sub(rg.x[k], q[0]), T.sub(rg.y[k], q[1]))
      return [c('positive outside', T.implies(outside(rg, k, q), T.lt(0, o[0]))),
              c('negative inside', T.implies(inside(rg, k, q), T.lt(o[0], 0))),
              c('magnitude is the planar distance', T.implies(
                  T.or_(outside(rg, k, q), inside(rg, k, q)), T.close(T.mul(o[0], o[0]), d2)))]

    hs.append(Harness(f'signed_distance_nearest{k}', R.compute_signed_distance_to_nearest_road_edge_point,
                      (V((1, 3), 'f', -50, 50), wm.roadgraph(p, 50)), claims, assume=assume, prune=True,
                      functions=['compute_signed_distance_to_nearest_road_edge_point', 'is_road_edge'],
                      bounds=f'1 query point, {p} roadgraph points, point {k} the nearest usable one', samples=1))
  hs.append(Harness('signed_distance_no_edge', R.compute_signed_distance_to_nearest_road_edge_point,
                    (V((1, 3), 'f', -50, 50), wm.roadgraph(p, 50)),
                    lambda i, o: [c('nothing usable, nothing outside', T.implies(none_usable(i[1]), T.le(o[0], 0)))],
                    functions=['compute_signed_distance_to_nearest_road_edge_point', 'is_road_edge'],
                    bounds=f'1 query point, {p} roadgraph points'))

  # the metric on boxes with a fixed heading
  def run(st):
    m = metrics.OffroadMetric().compute(st)
    return m.value, m.valid

  def state(n, t, k, p, yaw):
    st = wm.state(n, t, p=p, timestep=k, lim=20, dims=(F(1, 2), 8), with_paths=False)
    y = jnp.asarray(np.full((n, t), yaw, np.float32) + np.arange(n, dtype=np.float32)[:, None])
    return st.replace(sim_trajectory=st.sim_trajectory.replace(yaw=y))

  # the metric looks at the four corners, at the height of the object, at the current step
  def related(st, k, n):
    m = metrics.OffroadMetric().compute(st)
    tr = st.sim_trajectory
    q = jnp.stack([jnp.concatenate([tr.bbox_corners[j, k], jnp.broadcast_to(tr.z[j, k], (4, 1))], axis=-1)
                   for j in range(n)]).reshape((-1, 3))
    d = R.compute_signed_distance_to_nearest_road_edge_point(q, st.roadgraph_points)
    return m.value, d

  for n, t, k, p_ in ((1, 2, 1, 2), (1, 2, 0, 2), (2, 1, 0, 1)) + (((2, 2, 1, 2), (1, 3, 1, 3)) if tier != 'quick' else ()):

    def rclaims(i, o, n=n):
      v, d = o
      return [c('one exactly when a corner is outside', T.and_([
          T.iff(T.eqv(v[j], F(1)), T.or_([T.lt(0, d[4 * j + a]) for a in range(4)])) for j in range(n)])),
              c('indicator', T.and_([T.or_(T.eqv(v[j], F(0)), T.eqv(v[j], F(1))) for j in range(n)]))]

    hs.append(Harness(f'metric_n{n}_t{t}_at{k}_p{p_}', lambda st, k=k, n=n: related(st, k, n), (state(n, t, k, p_, 0.5),),
                      rclaims, functions=['OffroadMetric.compute', 'is_offroad'],
                      bounds=f'{n} objects, {t} steps, timestep {k}, {p_} roadgraph points, fixed headings', samples=1))

  # overpasses: fixed boxes and road edges at two levels, any heights
  def levels(base, z, rz):
    n, t = 2, 2
    one = np.ones((n, t), np.float32)
    tr = datatypes.Trajectory(x=jnp.asarray(one * [[0], [30]], jnp.float32), y=jnp.zeros((n, t)), z=z, vel_x=jnp.zeros((n, t)),
                              vel_y=jnp.zeros((n, t)), yaw=jnp.zeros((n, t)), valid=jnp.ones((n, t), bool),
                              timestamp_micros=jnp.zeros((n, t), jnp.int32), length=jnp.asarray(4 * one),
                              width=jnp.asarray(2 * one), height=jnp.asarray(one))
    # per object an edge to its left (inside) and one running the other way at the same place (outside)
    rg = datatypes.RoadgraphPoints(
        x=jnp.asarray([0., 0., 30., 30.]), y=jnp.asarray([3., 3., 3., 3.]), z=rz, dir_x=jnp.asarray([-1., 1., -1., 1.]),
        dir_y=jnp.zeros(4), dir_z=jnp.zeros(4), types=jnp.full(4, 15, jnp.int32), ids=jnp.arange(4, dtype=jnp.int32),
        valid=jnp.ones(4, bool))
    st = base.replace(sim_trajectory=tr, log_trajectory=tr, roadgraph_points=rg)
    return metrics.OffroadMetric().compute(st).value

  def lclaims(i, o):
    z, rz = i[1], i[2]
    out = []
    for j in range(2):
      a, b = T.sub(z[j, 1], rz[2 * j]), T.sub(z[j, 1], rz[2 * j + 1])
      a, b = T.mul(a, a), T.mul(b, b)
      out += [c(f'object {j} on the level it is inside of', T.implies(T.lt(T.add(a, MARGIN), b), T.eqv(o[j], F(0)))),
              c(f'object {j} on the level it is outside of', T.implies(T.lt(T.add(b, MARGIN), a), T.eqv(o[j], F(1))))]
    return out

  hs.append(Harness('levels', levels, (wm.state(2, 2, p=1, timestep=1, with_paths=False), V((2, 2), 'f', -3, 3), V((4,), 'f', -3, 3)),
                    lclaims, functions=['OffroadMetric.compute', 'is_offroad'],
                    bounds='2 objects and 4 road edges at fixed places, any heights'))

  # and against geometry directly: one road-edge point
  def mclaims(i, o, k=0):
    st = i[0]
    tr, rg = st.sim_trajectory, st.roadgraph_points
    cs = [(x, y, tr.z[0, k]) for x, y in corners([getattr(tr, f)[0, k] for f in ('x', 'y', 'length', 'width', 'yaw')])]
    return [c(f'corner {a} outside', T.implies(T.and_(usable(rg, 0), outside(rg, 0, q)), T.eqv(o[0][0], F(1))))
            for a, q in enumerate(cs)] + [
                c('all corners inside', T.implies(T.and_([inside(rg, 0, q) for q in cs]), T.eqv(o[0][0], F(0)))),
                c('no usable road edge', T.implies(T.not_(usable(rg, 0)), T.eqv(o[0][0], F(0))))]

  for nm, yaw, k in (('axis', 0.0, 1), ('oblique', 0.5, 0)):
    hs.append(Harness(f'geometry_{nm}', run, (state(1, 2, k, 1, yaw),), lambda i, o, k=k: mclaims(i, o, k),
                      functions=['OffroadMetric.compute', 'is_offroad', 'Trajectory.bbox_corners'],
                      bounds=f'1 object, 2 steps, timestep {k}, 1 roadgraph point, heading {yaw}'))

  # points that are not usable road edges never matter
  def indep(q, rg, alt):
    use = rg.valid & ((rg.types == 15) | (rg.types == 16))
    other = rg.replace(
        **{f: jnp.where(use, getattr(rg, f), getattr(alt, f)) for f in ('x', 'y', 'z', 'dir_x', 'dir_y', 'dir_z', 'ids')})
    f = R.compute_signed_distance_to_nearest_road_edge_point
    return f(q, rg), f(q, other)

  n_ = 2 if tier == 'quick' else 3
  hs.append(Harness('unusable_points', indep, (V((1, 3), 'f', -50, 50), wm.roadgraph(n_, 20), wm.roadgraph(n_, 20)),
                    lambda i, o: [c('unusable points never influence the answer', T.iff(T.lt(0, o[0][0]), T.lt(0, o[1][0])))],
                    functions=['compute_signed_distance_to_nearest_road_edge_point'], bounds=f'{n_} roadgraph points',
                    samples=1, timeout=100, optional=tier != 'quick'))
  return hs
