"""C15: kinematic infeasibility."""
from checks.c08 import LOW, spec_inverse
from checks.common import *
from waymax.metrics import comfort

E1 = F(1, 1000)


def harnesses(tier):
  hs = []
  cfgs = {'default': {}, 'tight': dict(dt=0.2, max_acc=3.0, max_steering=0.1)}
  if tier != 'quick':
    cfgs['wide'] = dict(dt=0.1, max_acc=6.0, max_steering=1.0)
  n, t = (1, 3) if tier == 'quick' else (2, 4)
  for nm, kw in cfgs.items():
    dt, ma, ms = num(kw.get('dt', 0.1)), num(kw.get('max_acc', 10.4)), num(kw.get('max_steering', 0.3))
    for k in range(1, t):

      def run(st, kw=kw):
        m = comfort.KinematicsInfeasibilityMetric(**kw).compute(st)
        return m.value, m.valid

      def claims(i, o, k=k, dt=dt, ma=ma, ms=ms):
        tr = i[0].sim_trajectory
        acc, cur, fine, val, ind = [], [], [], [], []
        for j in range(len(tr.x)):
          v0, v1, a, dyaw, dist, ok = spec_inverse(tr, j, k - 1, dt)
          dy = T.absv(wrap(dyaw))
          one = T.eqv(o[0][j], F(1))
          fast = T.and_(T.lt(LOW + E1, v0), T.lt(LOW + E1, v1))
          low = T.or_(T.lt(v0, LOW - E1), T.lt(v1, LOW - E1))
          acc.append(T.implies(T.and_(ok, T.le(ma + 2 * E1, T.absv(a))), one))
          cur.append(T.implies(T.and_(ok, fast, T.le(T.mul(ms + 2 * E1, dist), dy)), one))
          fine.append(T.implies(T.and_(T.le(T.absv(a), ma), T.or_(low, T.and_(fast, T.le(dy, T.mul(ms, dist))))),
                                T.eqv(o[0][j], F(0))))
          val.append(T.iff(o[1][j], ok))
          ind.append(T.or_(one, T.eqv(o[0][j], F(0))))
        return [c('excessive acceleration is flagged', T.and_(acc)), c('excessive curvature is flagged', T.and_(cur)),
                c('feasible motion is not', T.and_(fine)), c('valid exactly when both ends are', T.and_(val)),
                c('indicator', T.and_(ind))]

      st = wm.state(n, t, timestep=k, with_paths=False)
      hs.append(Harness(f'metric_{nm}_t{k}', run, (st,), claims,
                        functions=['KinematicsInfeasibilityMetric.compute', 'bicycle_model.compute_inverse'],
                        bounds=f'{n} objects, {t} steps, timestep {k}, |v|<=30, {kw or "default limits"}', samples=1))

  # the timestep selects the last step made
  def step(st):
    m = comfort.KinematicsInfeasibilityMetric().compute(st)
    idx = jnp.stack([st.timestep - 1, st.timestep])
    two = jax.tree_util.tree_map(lambda x: jnp.take(x, idx, axis=-1), st.sim_trajectory)
    r = comfort.KinematicsInfeasibilityMetric().compute(st.replace(sim_trajectory=two, timestep=jnp.int32(1)))
    return m.value, m.valid, r.value, r.valid

  for k in (1, 2) if tier == 'quick' else (1, 2, 3):
    st = wm.state(2, 3 if tier == 'quick' else 4, timestep=k, with_paths=False)
    hs.append(Harness(f'last_step_only_t{k}', step, (st,),
                      lambda i, o: [c('the last two steps decide', T.and_([T.and_(T.eqv(o[0][j], o[2][j]), T.iff(o[1][j], o[3][j])) for j in range(2)]))],
                      functions=['KinematicsInfeasibilityMetric.compute'], bounds=f'2 objects, 3 steps, timestep {k}', samples=1))
  return hs
