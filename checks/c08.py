"""C08: inverse bicycle model."""
from checks.common import *
from waymax.dynamics import bicycle_model

from checks.c07 import CONFIGS, params

LOW = F(6, 10)


def spec_inverse(tr, j, k, dt, est=True, moved=None):
  """(accel, curvature, valid) explaining the motion of object j over steps k, k+1."""
  v0 = T.sqrt(norm2(tr.vel_x[j, k], tr.vel_y[j, k]))
  v1 = T.sqrt(norm2(tr.vel_x[j, k + 1], tr.vel_y[j, k + 1]))
  a = T.div(T.sub(v1, v0), dt)
  y0, y1 = wrap(tr.yaw[j, k]), wrap(tr.yaw[j, k + 1])
  h = T.atan2(tr.vel_y[j, k + 1], tr.vel_x[j, k + 1]) if est else y1
  h = T.ite(T.le(v1, LOW), y1, h)
  dist = T.add(T.mul(v0, dt), T.mul(F(1, 2) * dt * dt, a))
  return v0, v1, a, T.sub(h, y0), dist, T.and_(tr.valid[j, k], tr.valid[j, k + 1])


def harnesses(tier):
  n, t = (1, 3) if tier == 'quick' else (2, 4)
  hs = []
  for est in (True, False):
    for k in range(t - 1):
      for dt in ((F(1, 10),) if tier == 'quick' else (F(1, 10), F(1, 2))):

        def claims(i, o, est=est, k=k, dt=dt):
          tr = i[0]
          ac, st, low, zr, vl = [], [], [], [], []
          for j in range(len(tr.x)):
            v0, v1, a, dyaw, dist, ok = spec_inverse(tr, j, k, dt, est)
            ac.append(T.implies(ok, T.close(o.data[j, 0], a)))
            fast = T.and_(T.lt(LOW + F(1, 1000), v0), T.lt(LOW + F(1, 1000), v1))
            # steering is the heading change per distance travelled
            st.append(T.implies(T.and_(ok, fast), T.close(T.mul(o.data[j, 1], dist), wrap(dyaw))))
            low.append(T.implies(T.or_(T.lt(v0, LOW - F(1, 1000)), T.lt(v1, LOW - F(1, 1000))),
                                 T.same(o.data[j, 1], F(0))))
            zr.append(T.implies(T.not_(ok), T.and_(T.same(o.data[j, 0], F(0)), T.same(o.data[j, 1], F(0)))))
            vl.append(T.iff(o.valid[j, 0], ok))
          return [c('acceleration', T.and_(ac)), c('curvature', T.and_(st)), c('no curvature at low speed', T.and_(low)),
                  c('zero when invalid', T.and_(zr)), c('valid iff both ends valid', T.and_(vl))]

        hs.append(Harness(
            f'compute_inverse_t{k}_{"vel" if est else "yaw"}_dt{float(dt)}',
            lambda tr, est=est, k=k, dt=dt: bicycle_model.compute_inverse(
                tr, k, dt=float(dt), estimate_yaw_with_velocity=est),
            (wm.traj(n, t),), claims, functions=['bicycle_model.compute_inverse'],
            bounds=f'{n} objects, {t} steps, timestep {k}, |v|<=30'))
  # the model's own inverse: normalised and clipped
  for name in CONFIGS:
    dyn = dynamics.InvertibleBicycleModel(**CONFIGS[name])
    dt, ma, ms, nrm = params(name)

    def iclaims(i, o, dt=dt, ma=ma, ms=ms, nrm=nrm):
      tr, _ = i
      a_, raw = o
      out, bd, vl = [], [], []
      lo = (1, 1) if nrm else (ma, ms)
      for j in range(len(tr.x)):
        for k, m in ((0, ma), (1, ms)):
          w = T.div(raw.data[j, k], m) if nrm else raw.data[j, k]
          out.append(T.close(a_.data[j, k], clip(w, -lo[k], lo[k])))
          bd.append(within(a_.data[j, k], -lo[k] - F(1, 10**5), lo[k] + F(1, 10**5)))
        vl.append(T.iff(a_.valid[j, 0], T.and_(tr.valid[j, 1], tr.valid[j, 2])))
      return [c('clipped (and normalised) raw inverse', T.and_(out)), c('within the bounds', T.and_(bd)),
              c('valid iff both ends valid', T.and_(vl))]

    def inv(tr, md, d=dyn, dt=dt):
      return d.inverse(tr, md, 1), bicycle_model.compute_inverse(tr, 1, float(dt))

    hs.append(Harness(
        f'inverse_{name}', inv, (wm.traj(n, 3), wm.metadata(n)), iclaims,
        functions=['InvertibleBicycleModel.inverse'], bounds=f'{n} objects, {CONFIGS[name]}'))

    # a motion produced by the model gives back its action
    def forth_back(a, tr, md, d=dyn):
      u = d.compute_update(a, tr)
      nxt = tr.replace(x=u.x, y=u.y, yaw=u.yaw, vel_x=u.vel_x, vel_y=u.vel_y, valid=u.valid)
      both = jax.tree_util.tree_map(lambda p, q: jnp.concatenate([p, q], axis=-1), tr, nxt)
      return d.inverse(both, md, 0)

    def assume(i, dt=dt, ma=ma, ms=ms, nrm=nrm):
      a, tr, _ = i
      lo = (1, 1) if nrm else (ma, ms)
      out = []
      for j in range(len(tr.x)):
        sp2 = norm2(tr.vel_x[j, 0], tr.vel_y[j, 0])
        # both speeds at least 1 m/s, turning less than half a turn
        out += [within(a.data[j, 0], -lo[0], lo[0]), within(a.data[j, 1], -lo[1], lo[1]),
                tr.valid[j, 0], a.valid[j, 0], T.le((1 + dt * ma)**2, sp2), T.le(sp2, 400)]
        acc = T.mul(a.data[j, 0], ma) if nrm else a.data[j, 0]
        cur = T.mul(a.data[j, 1], ms) if nrm else a.data[j, 1]
        dist = T.add(T.mul(T.sqrt(sp2), dt), T.mul(F(1, 2) * dt * dt, acc))
        out += [T.le(1 + dt * ma, T.sqrt(sp2)), T.le(F(1), T.add(T.sqrt(sp2), T.mul(acc, dt))),
                T.lt(0, dist), within(T.mul(cur, dist), -3, 3)]
      return out

    def bclaims(i, o):
      a = i[0]
      return [c('acceleration recovered', T.and_([T.close(o.data[j, 0], a.data[j, 0]) for j in range(len(a.data))])),
              c('curvature recovered', T.and_([T.close(o.data[j, 1], a.data[j, 1]) for j in range(len(a.data))])),
              c('recovered action is valid', T.and_([o.valid[j, 0] for j in range(len(a.data))]))]

    hs.append(Harness(
        f'forward_then_inverse_{name}', forth_back,
        (action(1, 2, lim=10), wm.traj(1, 1, vel=20), wm.metadata(1)), bclaims, assume=assume, prune=True,
        functions=['InvertibleBicycleModel.compute_update', 'InvertibleBicycleModel.inverse'],
        bounds=f'one object, speed 1+dt*max_accel .. 20 m/s, actions within bounds, {CONFIGS[name]}', samples=1))
  return hs
