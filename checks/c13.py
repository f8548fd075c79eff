"""C13: overlap metric."""
from checks.c12 import box, boxes, clear, deep, stack
from checks.common import *
from waymax.utils import geometry as G

HEADINGS = (0.0, 0.5, -0.7, 1.2)
BOX = ('x', 'y', 'length', 'width', 'yaw')


def fixed_heading_state(n, t, timestep=None, yaws=HEADINGS):
  """State whose current boxes have given headings, anything else free."""
  st = wm.state(n, t, timestep=timestep, lim=20, dims=(F(1, 2), 10), with_paths=False)
  yaw = np.asarray([[yaws[(j + k) % len(yaws)] for k in range(t)] for j in range(n)], np.float32)
  return st.replace(sim_trajectory=st.sim_trajectory.replace(yaw=jnp.asarray(yaw)))


def harnesses(tier):
  hs = []
  met = metrics.OverlapMetric

  def run(st):
    m = met().compute(st)
    tr = st.sim_trajectory
    n = tr.num_objects
    s = jnp.stack([getattr(tr, f) for f in BOX], axis=-1)  # (n, t, 5)
    pair = jnp.stack([G.has_overlap(jnp.repeat(s[:, None, k], n, 1), jnp.repeat(s[None, :, k], n, 0))
                      for k in range(tr.num_timesteps)])
    return m.value, m.valid, pair

  # against the real box test, any heading at the other steps
  for n, t in ((3, 2),) + (((4, 3),) if tier != 'quick' else ()):
    for k in range(t):

      def claims(i, o, n=n, k=k):
        tr = i[0].sim_trajectory
        v, ok, pair = o
        one, zero, val = [], [], []
        for j in range(n):
          hit = [T.and_(tr.valid[a, k], pair[k, a, j]) for a in range(n) if a != j]
          one.append(T.implies(T.or_(hit), T.eqv(v[j], F(1))))
          zero.append(T.implies(T.not_(T.or_(hit)), T.eqv(v[j], F(0))))
          val.append(T.iff(ok[j], tr.valid[j, k]))
        return [c('one when a valid object overlaps', T.and_(one)), c('zero when no valid object overlaps', T.and_(zero)),
                c('flagged valid exactly for valid objects', T.and_(val))]

      hs.append(Harness(f'metric_n{n}_t{k}', run, (fixed_heading_state(n, t, k),), claims,
                        functions=['OverlapMetric.compute', 'compute_pairwise_overlaps'],
                        bounds=f'{n} objects, {t} steps, timestep {k}, fixed headings, any position, size and validity'))

  # against rectangle geometry
  def geo(i, o):
    tr = i[0].sim_trajectory
    v, ok = o
    b = [[getattr(tr, f)[j, 1] for f in BOX] for j in range(2)]
    return [c('overlap with a valid object is one', T.and_([
        T.implies(T.and_(tr.valid[1 - j, 1], deep(b[0], b[1])), T.eqv(v[j], F(1))) for j in range(2)])),
            c('invalid objects never collide', T.and_([
                T.implies(T.not_(tr.valid[1 - j, 1]), T.eqv(v[j], F(0))) for j in range(2)])),
            c('separated objects do not collide', T.and_([
                T.implies(clear(b[0], b[1]), T.eqv(v[j], F(0))) for j in range(2)]))]

  def plain(st):
    m = met().compute(st)
    return m.value, m.valid

  for nm, yaws in (('oblique', (0.0, 0.5, -0.7, 1.2)), ('crossed', (0.0, np.pi / 2, 0.0))) + (
      (('aligned', (0.25,)), ('opposite', (np.pi, 0.3, -2.0))) if tier != 'quick' else ()):
    hs.append(Harness(f'geometry_{nm}', plain, (fixed_heading_state(2, 2, 1, yaws),), geo,
                      functions=['OverlapMetric.compute', 'has_overlap'],
                      bounds='2 objects, 2 steps, timestep 1, fixed headings, any position and size'))

  # the timestep decides which boxes count
  def slice_(st):
    m = met().compute(st)
    cur = jax.tree_util.tree_map(lambda x: jnp.take(x, st.timestep[None], axis=-1), st.sim_trajectory)
    one = met().compute(st.replace(sim_trajectory=cur, timestep=jnp.int32(0)))
    return m.value, m.valid, one.value, one.valid

  hs.append(Harness('current_step_only', slice_, (fixed_heading_state(2, 3, None, (0.0, np.pi / 2)),),
                    lambda i, o: [c('depends on the current step only', T.and_(
                        [T.and_(T.eqv(o[0][j], o[2][j]), T.iff(o[1][j], o[3][j])) for j in range(2)]))],
                    functions=['OverlapMetric.compute'], bounds='2 objects, 3 steps, any timestep', samples=1))
  return hs
