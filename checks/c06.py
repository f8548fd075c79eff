"""C06: delta dynamics, global and local, forward and inverse."""
from checks.common import *

CONFIGS = {'default': dict(), 'custom': dict(dt=0.5, max_dx=2.0, max_dy=3.0, max_dyaw=1.0)}


def cfg_of(name):
  k = dict(dt=0.1, max_dx=6.0, max_dy=6.0)
  k.update(CONFIGS[name])
  return num(k['dt']), num(k['max_dx']), num(k['max_dy']), num(k['max_dyaw']) if 'max_dyaw' in k else PI


def moved(i, local, dt):
  """Expected (x, y, yaw, vx, vy) rows of the commanded motion."""
  act, tr = i
  rows = []
  for j in range(len(act.data)):
    dx, dy, dyaw = act.data[j]
    yaw = tr.yaw[j, 0]
    if local:
      dx, dy = rot(T.cos(yaw), T.sin(yaw), dx, dy)
    rows.append((T.add(tr.x[j, 0], dx), T.add(tr.y[j, 0], dy), T.add(yaw, dyaw),
                 T.div(dx, dt), T.div(dy, dt)))
  return rows


def harnesses(tier):
  n, t = (2, 3) if tier == 'quick' else (3, 5)
  hs = []
  for cname in CONFIGS:
    dt, mx, my, mw = cfg_of(cname)
    for local in (False, True):
      cls = dynamics.DeltaLocal if local else dynamics.DeltaGlobal
      dyn = cls(**CONFIGS[cname])
      tag = f'{"local" if local else "global"}_{cname}'
      fn_names = [f'{cls.__name__}.compute_update']

      def fclaims(i, o, local=local, dt=dt):
        exp = moved(i, local, dt)
        got = [(o.x, o.y, o.yaw, o.vel_x, o.vel_y)[k] for k in range(5)]
        out = []
        for k, f in enumerate(FIELD_OF):
          p = T.and_([(ang_or_close if f == 'yaw' else T.close)(got[k][j, 0], exp[j][k])
                      for j in range(len(exp))])
          out.append(c(f'{f} after the move', p))
        out.append(c('valid iff object and action valid', T.and_([T.iff(
            o.valid[j, 0], T.and_(i[1].valid[j, 0], i[0].valid[j, 0])) for j in range(len(exp))])))
        return out

      hs.append(Harness(
          f'forward_{tag}', lambda a, tr, d=dyn: d.compute_update(a, tr),
          (action(n, 3, lim=8), wm.traj(n, 1)), fclaims, functions=fn_names,
          bounds=f'{n} objects, any pose, commanded offsets within +-8'))

      def iclaims(i, o, local=local, mx=mx, my=my, mw=mw):
        tr, _, ts = i
        ts = scal(ts)
        xs, ys, aw, vs, zero = [], [], [], [], []
        for j in range(len(tr.x)):
          nx = T.add(ts, 1)
          ok = T.and_(at(tr.valid[j], ts), at(tr.valid[j], nx))
          dx = T.sub(at(tr.x[j], nx), at(tr.x[j], ts))
          dy = T.sub(at(tr.y[j], nx), at(tr.y[j], ts))
          dyaw = T.sub(at(tr.yaw[j], nx), at(tr.yaw[j], ts))
          if local:
            y0 = at(tr.yaw[j], ts)
            dx, dy = rot(T.cos(y0), T.neg(T.sin(y0)), dx, dy)
          dx, dy = clip(dx, -mx, mx), clip(dy, -my, my)
          xs.append(T.implies(ok, T.close(o.data[j, 0], dx)))
          ys.append(T.implies(ok, T.close(o.data[j, 1], dy)))
          aw.append(T.implies(ok, limited(o.data[j, 2], dyaw, mw)))
          vs.append(T.iff(o.valid[j, 0], ok))
          zero.append(T.implies(T.not_(ok), T.and_([T.same(o.data[j, k], F(0)) for k in range(3)])))
        e = F(1, 10**6)
        inb = T.and_([T.and_(within(o.data[j, 0], -mx, mx), within(o.data[j, 1], -my, my), within(o.data[j, 2], -mw - e, mw + e))
                      for j in range(len(tr.x))])
        return [c('x offset', T.and_(xs)), c('y offset', T.and_(ys)), c('heading change wrapped and limited', T.and_(aw)),
                c('valid iff both ends valid', T.and_(vs)), c('zero when invalid', T.and_(zero)),
                c('offsets within the bounds', inb)]

      ts_specs = [('', V((), 'i', 0, t - 2))] if not local else [
          (f'_t{k}', jnp.int32(k)) for k in range(t - 1)]
      for sfx, tv in ts_specs:
        hs.append(Harness(
            f'inverse_{tag}{sfx}', lambda tr, md, ts, d=dyn: d.inverse(tr, md, ts),
            (wm.traj(n, t), wm.metadata(n), tv), iclaims, functions=[f'{cls.__name__}.inverse'],
            bounds=f'{n} objects, {t} steps, any positions within +-100'))

      # forward dynamics maps the inverse of an observed motion back onto it
      def round_trip(tr, md, d=dyn):
        a = d.inverse(tr, md, 0)
        return a, d.compute_update(a, datatypes.dynamic_slice(tr, 0, 1, axis=-1))

      def in_bounds(i, local=local, mx=mx, my=my, mw=mw):
        tr = i[0]
        out = []
        for j in range(len(tr.x)):
          dx, dy = T.sub(tr.x[j, 1], tr.x[j, 0]), T.sub(tr.y[j, 1], tr.y[j, 0])
          if local:
            dx, dy = rot(T.cos(tr.yaw[j, 0]), T.neg(T.sin(tr.yaw[j, 0])), dx, dy)
          out += [tr.valid[j, 0], tr.valid[j, 1], within(dx, -mx, mx), within(dy, -my, my)]
          if mw != PI:
            out.append(within(wrap(T.sub(tr.yaw[j, 1], tr.yaw[j, 0])), -mw, mw))
        return out

      def rclaims(i, o):
        tr, _ = i
        a, u = o
        rows = range(len(tr.x))
        return [c('forward of inverse reaches x', T.and_([T.close(u.x[j, 0], tr.x[j, 1]) for j in rows])),
                c('forward of inverse reaches y', T.and_([T.close(u.y[j, 0], tr.y[j, 1]) for j in rows])),
                c('forward of inverse reaches the heading',
                  T.and_([same_angle(u.yaw[j, 0], tr.yaw[j, 1]) for j in rows])),
                c('round trip is valid', T.and_([u.valid[j, 0] for j in rows]))]

      m_ = 1 if local else n
      hs.append(Harness(
          f'roundtrip_{tag}', round_trip, (wm.traj(m_, 2, lim=10), wm.metadata(m_)), rclaims, assume=in_bounds, prune=True,
          sample=lambda rng, m_=m_: sample_motion(rng, m_), functions=[f'{cls.__name__}.inverse', f'{cls.__name__}.compute_update'],
          bounds=f'{m_} objects, one step, positions within +-10'))
  # through the environment-facing forward(): only the next slice is written
  for local in (False, True):
    dyn = (dynamics.DeltaLocal if local else dynamics.DeltaGlobal)()

    def sclaims(i, o, local=local):
      act, sim, log, ctrl, ts = i
      ts = scal(ts)
      out = []
      for f, k in (('x', 0), ('y', 1)):
        ps = []
        for j in range(len(sim.x)):
          cur = at(sim.yaw[j], ts)
          d = [act.data[j, 0], act.data[j, 1]]
          if local:
            d = rot(T.cos(cur), T.sin(cur), *d)
          ps.append(T.implies(ctrl[j], T.close(at(getattr(o, f)[j], T.add(ts, 1)),
                                               T.add(at(getattr(sim, f)[j], ts), d[k]))))
        out.append(c(f'controlled object moves in {f}', T.and_(ps)))
      return out

    hs.append(Harness(
        f'forward_in_place_{"local" if local else "global"}',
        lambda a, s, l, m, ts, d=dyn: d.forward(a, s, l, m, ts),
        (action(n, 3, lim=8), wm.traj(n, t), wm.traj(n, t), V((n,), 'b'),
         V((), 'i', 0, t - 2) if not local else jnp.int32(1)), sclaims,
        functions=['DynamicsModel.forward'], bounds=f'{n} objects, {t} steps'))
  return hs


def ang_or_close(w, a):
  """The heading is the commanded one, recorded with or without wrapping."""
  r = T.close(w, a)
  return True if r is True else T.or_(r, ang(w, a))


def limited(w, a, m):
  """w is the angle a wrapped and limited to +-m (either sign where a turns around)."""
  if m == PI:
    return ang(w, a)
  t = wrap(a)
  return T.or_(T.close(w, clip(t, -m, m)), T.and_(T.le(PI - F(1, 1000), T.absv(t)), T.close(T.absv(w), m)))


def sample_motion(rng, m):
  """A concrete in-bounds motion (encoder validation)."""
  tr = wm.traj(m, 2)
  kw = {}
  for f in wm.TRAJ_FIELDS:
    if f == 'valid':
      kw[f] = jnp.ones((m, 2), bool)
    elif f == 'timestamp_micros':
      kw[f] = jnp.zeros((m, 2), jnp.int32)
    else:
      kw[f] = jnp.asarray([[rng.uniform(-1, 1) for _ in range(2)] for _ in range(m)], jnp.float32)
  md = wm.metadata(m)
  md = jax.tree_util.tree_map(lambda l: jnp.zeros(l.shape, l.dtype), md, is_leaf=lambda x: isinstance(x, V))
  return datatypes.Trajectory(**kw), md
