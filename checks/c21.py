"""C21: route-following agents."""
import itertools
import math

from checks.common import *
from svx import jx
from svx.harness import build_concrete
from waymax.agents import constant_speed, sim_agent, waypoint_following_agent as W
from waymax.utils import geometry

M = F(1, 100)
DT = F(1, 10)


class GivenSpeed(agents.WaypointFollowingPolicy):
  """Route follower whose speed decision is an arbitrary value."""

  def __init__(self, speed, valid, end):
    super().__init__(invalidate_on_end=end)
    self.s, self.v = speed, valid

  def update_speed(self, state, dt=0.1):
    return self.s, self.v


def fields(u):
  return [getattr(u, f)[..., 0] for f in FIELD_OF] + [u.valid[..., 0]]


def speed_of(tr, j, k):
  return T.sqrt(norm2(tr.vel_x[j, k], tr.vel_y[j, k]))


def projection(hs, n, t, k):
  """Where a follower ends up, for an arbitrary speed decision."""
  for end in (False, True):
    def upd(st, s, v, end=end):
      return fields(GivenSpeed(s, v, end).update_trajectory(st))

    args = (wm.state(n, t, timestep=k, p=1, lim=30), V((n,), 'f', 0, 40), V((n,), 'b'))
    bd = f'{n} objects, log of {t} points, speeds up to 40'
    fn = ['WaypointFollowingPolicy.update_trajectory', '_get_next_trajectory_by_projection', '_project_to_a_trajectory']
    j = n - 1

    def moved(st, s):
      sim = st.sim_trajectory
      d = T.mul(T.mul(T.add(s[j], speed_of(sim, j, k)), F(1, 2)), DT)
      y = sim.yaw[j, k]
      return T.add(sim.x[j, k], T.mul(d, T.cos(y))), T.add(sim.y[j, k], T.mul(d, T.sin(y)))

    # invalid ones
    def iassume(i):
      st, s, v = i
      return [T.not_(T.and_(v[j], st.sim_trajectory.valid[j, k]))]

    hs.append(Harness(f'invalid_agents_end{end:d}', upd, args,
                      lambda i, o: [c('no valid update', T.not_(o[5][j])), c('placeholder', T.and_([T.eqv(o[q][j], F(-1)) for q in range(5)]))],
                      assume=iassume, prune=True, functions=fn, bounds=bd, samples=1))
    for b in range(t):
      for last in range(b, t):
        for phase in (('going', 'done', 'far') if b != last else ('last',)):
          def parts(i, b=b, last=last):
            st, s, v = i
            lg, sim = st.log_trajectory, st.sim_trajectory
            p = moved(st, s)
            dx, dy = T.sub(p[0], lg.x[j, b]), T.sub(p[1], lg.y[j, b])
            gap = norm2(T.sub(lg.x[j, last], lg.x[j, b]), T.sub(lg.y[j, last], lg.y[j, b]))
            return lg, sim, s, p, dx, dy, gap

          def assume(i, b=b, last=last, phase=phase, parts=parts):
            lg, sim, s, p, dx, dy, gap = parts(i)
            d = lambda e: norm2(T.sub(lg.x[j, e], p[0]), T.sub(lg.y[j, e], p[1]))
            near = T.lt(norm2(dx, dy), F(499, 100)**2)
            out = [i[2][j], sim.valid[j, k], lg.valid[j, b], lg.valid[j, last]] + [
                T.not_(lg.valid[j, e]) for e in range(last + 1, t)] + [
                    T.implies(lg.valid[j, e], T.lt(T.add(d(b), M), d(e))) for e in range(t) if e != b]
            if phase == 'going':
              out += [T.lt(F(51, 1000)**2, gap), near]
            elif phase == 'done':
              out += [T.lt(gap, F(49, 1000)**2), near]
            elif phase == 'far':
              out += [T.lt(F(51, 1000)**2, gap), T.lt(F(501, 100)**2, norm2(dx, dy))]
            return out

          def claims(i, o, b=b, last=last, end=end, phase=phase, parts=parts):
            lg, sim, s, p, dx, dy, gap = parts(i)
            h, y = lg.yaw[j, b], sim.yaw[j, k]
            cs, sn = T.cos(h), T.sin(h)
            along = T.add(T.mul(cs, dx), T.mul(sn, dy))
            on = T.and_(T.close(o[0][j], T.add(lg.x[j, b], T.mul(cs, along))), T.close(o[1][j], T.add(lg.y[j, b], T.mul(sn, along))))
            stop = T.and_(T.close(o[0][j], lg.x[j, b]), T.close(o[1][j], lg.y[j, b]))
            head = T.same(o[2][j], h)
            if phase == 'going':
              return [c('on the path', on), c('heading of the path', head), c('valid on the way', o[5][j]),
                      c('velocity', T.and_(T.close(o[3][j], T.mul(s[j], T.cos(y))), T.close(o[4][j], T.mul(s[j], T.sin(y)))))]
            if end:
              return [c('stops at the end', T.implies(o[5][j], T.and_(stop, head, T.eqv(o[3][j], F(0)), T.eqv(o[4][j], F(0))))),
                      c('moving agents end', T.implies(T.lt(1 + M, s[j]), T.not_(o[5][j]))),
                      c('parked agents stay', T.implies(T.lt(s[j], 1 - M), o[5][j]))]
            return [c('continues past the end', on), c('still valid', o[5][j]), c('heading of the path', head),
                    c('velocity frozen at the end', T.and_(T.close(o[3][j], sim.vel_x[j, k]), T.close(o[4][j], sim.vel_y[j, k])))]

          hs.append(Harness(f'projection_end{end:d}_nearest{b}_last{last}_{phase}', upd, args, claims, assume=assume, prune=True,
                            functions=fn, bounds=bd, samples=1, sample=near_path(args, j, k, b, last, phase)))


def near_path(args, j, k, b, last, phase):
  """Random inputs on which point b is the nearest one."""
  def gen(rng):
    st, s, v = build_concrete(args, random_value(rng))
    lg, sim = st.log_trajectory, st.sim_trajectory
    x, y = float(sim.x[j, k]) / 2, float(sim.y[j, k]) / 2
    off = 8 if phase == 'far' else rng.uniform(-1, 1)
    sim = sim.replace(x=sim.x.at[j, k].set(x), y=sim.y.at[j, k].set(y), vel_x=sim.vel_x / 10, vel_y=sim.vel_y / 10,
                      valid=sim.valid.at[j, k].set(True))
    lx = lg.x.at[j].set(-29.0 if x > 0 else 29.0).at[j, b].set(x + off)
    ly = lg.y.at[j].set(-29.0 if y > 0 else 29.0).at[j, b].set(y - off)
    val = lg.valid.at[j, b].set(True).at[j, last].set(True).at[j, last + 1:].set(False)
    if phase == 'done':
      lx, ly = lx.at[j, last].set(x + off + 1/64 if off > 0 else x + off - 1/64), ly.at[j, last].set(y - off - 1/64 if off > 0 else y - off + 1/64)
      val = val.at[j].set(False).at[j, b].set(True).at[j, last].set(True)
    return (st.replace(log_trajectory=lg.replace(x=lx, y=ly, valid=val), sim_trajectory=sim), s * 0.1, v.at[j].set(True))
  return gen


def random_value(rng, small=None):
  def val(l, nm):
    if l.kind == 'b':
      return rng.random() < .8
    if l.kind == 'i':
      return l.lo or 0
    if small is not None and float(l.hi) == 30:
      return round(rng.uniform(-small, small), 2)
    return round(rng.uniform(float(l.lo), float(l.hi)), 2)
  return val


KW = dict(desired_vel=20.0, min_spacing=2.0, safe_time_headway=1.5, max_accel=2.0, max_decel=2.0, delta=4.0,
          additional_lookahead_points=2, additional_lookahead_distance=4.0)


_OVER = {}


def overlaps(a, b):
  """The real has_overlap on two boxes of elements (decided for all boxes by C12)."""
  if 'f' not in _OVER:
    _OVER['f'] = jx.Traced(geometry.has_overlap, jnp.zeros(5), jnp.zeros(5))
  arr = lambda v: np.array([F(x) if isinstance(x, float) else x for x in v], dtype=object)
  return scal(_OVER['f'](arr(a), arr(b)))


def idm(hs, n, t, k, kw, tag, east=False):
  """The intelligent-driver rule against overlaps of the real geometry."""
  def face(st):
    if not east:
      return st
    sim = st.sim_trajectory
    if isinstance(sim.yaw, np.ndarray) and sim.yaw.dtype == object:
      return st.replace(sim_trajectory=sim.replace(yaw=np.full(sim.yaw.shape, F(0), dtype=object)))
    return st.replace(sim_trajectory=sim.replace(yaw=jnp.zeros_like(sim.yaw)))

  pts = kw.get('additional_lookahead_points', 10)
  dist = kw.get('additional_lookahead_distance', 10.0)
  g = lambda nm, d: F(str(kw.get(nm, d)))
  v0, s0, hw, am, bm = (g('desired_vel', 30.0), g('min_spacing', 2.0), g('safe_time_headway', 2.0),
                        g('max_accel', 2.0), g('max_decel', 4.0))
  root = F(str(np.float32(np.sqrt(float(am * bm)))))
  j = 0
  others = [e for e in range(n) if e != j]
  gap = lambda p: F(str(dist)) * p / pts if p else F(0)

  def run(st):
    return agents.IDMRoutePolicy(**kw).update_speed(face(st))

  def hit(st, p, e):
    st = face(st)
    tr = st.sim_trajectory
    y = tr.yaw[j, k]
    mine = [T.add(tr.x[j, k], T.mul(gap(p), T.cos(y))), T.add(tr.y[j, k], T.mul(gap(p), T.sin(y))),
            tr.length[j, k], tr.width[j, k], y]
    return overlaps(mine, [getattr(tr, f)[e, k] for f in ('x', 'y', 'length', 'width', 'yaw')])

  st = wm.state(n, t, timestep=k, p=1, lim=30, dims=(F(1, 2), 10), vel=20)
  fn = ['IDMRoutePolicy.update_speed', '_get_accel', '_compute_lead_velocity', '_compute_lead_distance']
  bd = f'{n} objects, {pts + 1} path points over {dist} m, all headings, sizes and speeds'
  if east:
    bd = bd.replace('all headings', 'all facing east')
  cases = [None] + [(p, s) for p in range(pts + 1) for r in range(1, n) for s in itertools.combinations(others, r)]
  for case in cases:
    def assume(i, case=case):
      st = i[0]
      val = st.sim_trajectory.valid
      out = [val[j, k]]
      for p in range(pts + 1 if case is None else case[0] + 1):
        for e in others:
          h = T.and_(val[e, k], hit(st, p, e))
          out.append(h if case and p == case[0] and e in case[1] else T.not_(h))
      return out

    def claims(i, o, case=case):
      tr = i[0].sim_trajectory
      sp, ok = o
      v = speed_of(tr, j, k)
      free = T.sub(F(1), pw(T.mul(v, F(1) / v0)))
      step = lambda a: T.maxv(T.add(v, T.mul(DT, T.mul(am, a))), F(0))
      out = [c('never backwards', T.le(0, sp[j])), c('always decided', ok[j]),
             c('acceleration limit', T.le(sp[j], T.add(v, DT * am)))]
      if case is None:
        return out + [c('free road', T.close(sp[j], step(free))),
                      c('no speeding up at the desired speed', T.implies(T.le(v0, v), T.le(sp[j], v)))]
      p, lead = case
      d = gap(p) if p else F(1, 10)
      ve = speed_of(tr, lead[0], k)
      for e in lead[1:]:
        ve = T.minv(ve, speed_of(tr, e, k))
      s = T.add(s0, T.maxv(F(0), T.add(T.mul(v, hw), T.mul(T.mul(v, T.sub(v, ve)), F(1) / (2 * root)))))
      r = T.mul(s, F(1) / d)
      later = [hit(i[0], x, e) for x in range(p + 1, pts + 1) for e in others]
      return out + [c('brakes for the closest leader', T.close(sp[j], step(T.sub(free, T.mul(r, r)))), abstract=() if east else later)]

    nm = 'free' if case is None else f'leader{"".join(map(str, case[1]))}_at{case[0]}'
    hs.append(Harness(f'idm_{tag}_{nm}', run, (st,), claims, assume=assume, prune='linear' if east else 'select', functions=fn, bounds=bd, linear_timeout=1,
                      optional=n > 2 and not east, samples=1, sample=crowded((st,), k, case, gap)))


def pw(x):
  y = T.mul(x, x)
  return T.mul(y, y)


def crowded(args, k, case, gap):
  """Random states of small boxes whose leaders are met exactly at the case's point."""
  def gen(rng):
    st, = build_concrete(args, random_value(rng, 4))
    sim = st.sim_trajectory
    n = sim.x.shape[0]
    h = float(sim.yaw[0, k])
    for e in range(1, n):
      lead = case is not None and e in case[1]
      d = (float(gap(case[0])) + rng.uniform(-.1, .1)) if lead else -15 * e
      sim = sim.replace(x=sim.x.at[e, k].set(sim.x[0, k] + d * math.cos(h)), y=sim.y.at[e, k].set(sim.y[0, k] + d * math.sin(h)))
      if lead:
        sim = sim.replace(valid=sim.valid.at[e, k].set(True))
    sim = sim.replace(valid=sim.valid.at[0, k].set(True), length=sim.length * 0 + .5, width=sim.width * 0 + .5)
    return (st.replace(sim_trajectory=sim),)
  return gen


def sum_(xs):
  r = F(0)
  for x in xs:
    r = T.add(r, x)
  return r


def on_log(args, b, case, path):
  def gen(rng):
    st, = build_concrete(args, random_value(rng, 10))
    lg, sim = st.log_trajectory, st.sim_trajectory
    lg = lg.replace(valid=lg.valid.at[0].set(True), length=lg.length * 0 + .5, width=lg.width * 0 + .5)
    sim = sim.replace(valid=sim.valid.at[:, 0].set(True), length=sim.length * 0 + .5, width=sim.width * 0 + .5)
    for f in 'xyz':
      sim = sim.replace(**{f: getattr(sim, f).at[0, 0].set(getattr(lg, f)[0, b] + 0.3)})
    d = [0, 0, 4][case] if case is not None else 60
    q = path[min(case or 0, 1)]
    h = float(lg.yaw[0, q])
    sim = sim.replace(x=sim.x.at[1, 0].set(lg.x[0, q] + d * math.cos(h)), y=sim.y.at[1, 0].set(lg.y[0, q] + d * math.sin(h)))
    return (st.replace(log_trajectory=lg, sim_trajectory=sim),)
  return gen


def harnesses(tier):
  hs = []
  projection(hs, 2, 2 if tier == 'quick' else 3, 1)
  idm(hs, 2, 2, 1, KW, 'n2')
  idm(hs, 3, 2, 0, dict(KW, additional_lookahead_points=1), 'n3')
  if tier != 'quick':
    idm(hs, 2, 2, 1, {}, 'n2_default')
    idm(hs, 3, 2, 0, KW, 'n3_points3')

  # composition: IDM drives by projection with its own speed
  def whole(st):
    a = agents.IDMRoutePolicy(**KW)
    s, v = a.update_speed(st)
    return fields(a.update_trajectory(st)), fields(GivenSpeed(s, v, False).update_trajectory(st))

  st = wm.state(2, 2, timestep=1, p=1, lim=30, dims=(F(1, 2), 10), vel=20)
  hs.append(Harness('idm_moves_by_projection', whole, (st,), lambda i, o: [c('same motion', tree_same(o[0], o[1]))],
                    functions=['IDMRoutePolicy.update_trajectory'], bounds='2 objects, 2 log points', samples=1))

  # constant speed: as a route follower
  def const(st):
    n = 2
    return (fields(constant_speed.ConstantSpeedPolicy(7.5).update_trajectory(st)),
            fields(GivenSpeed(jnp.full((n,), 7.5), jnp.ones((n,), bool), True).update_trajectory(st)))

  hs.append(Harness('constant_speed_policy', const, (st,), lambda i, o: [c('same motion', tree_same(o[0], o[1]))],
                    functions=['ConstantSpeedPolicy.update_trajectory'], bounds='2 objects, 2 log points', samples=1))

  # an invalid object never leads anyone
  def inv(st, alt):
    sim = st.sim_trajectory
    sub = jax.tree_util.tree_map(lambda a, b: a.at[1].set(b[1]), sim, alt).replace(valid=sim.valid)
    f = lambda s: agents.IDMRoutePolicy(**KW).update_speed(st.replace(sim_trajectory=s))
    return f(sim)[0], f(sub)[0]

  hs.append(Harness('invalid_leaders', inv, (wm.state(2, 1, timestep=0, p=1, lim=30, dims=(F(1, 2), 10), vel=20),
                                              wm.traj(2, 1, lim=30, dims=(F(1, 2), 10), vel=20)),
                    lambda i, o: [c('no influence', T.same(o[0][0], o[1][0]))],
                    assume=lambda i: [i[0].sim_trajectory.valid[0, 0], T.not_(i[0].sim_trajectory.valid[1, 0])], prune='prop',
                    functions=['IDMRoutePolicy.update_speed'], bounds='2 objects, 3 path points', samples=1))

  # looking ahead along the logged path: two logged points (from the nearest on) and one further
  t = 3
  kw = dict(KW, lookahead_from_current_position=False, max_lookahead=2, additional_lookahead_points=1)
  st = wm.state(2, t, timestep=0, p=1, lim=30, dims=(F(1, 2), 10), vel=20)
  BOX = ('x', 'y', 'length', 'width', 'yaw')
  for b in range(t):
    path = [min(b, t - 2), min(b, t - 2) + 1]

    def box(lg, q, d):
      y = lg.yaw[0, q]
      return [T.add(lg.x[0, q], T.mul(d, T.cos(y))), T.add(lg.y[0, q], T.mul(d, T.sin(y))), lg.length[0, q], lg.width[0, q], y]

    for case in (None, 0, 1, 2):
      def assume(i, b=b, case=case, path=path):
        lg, sim = i[0].log_trajectory, i[0].sim_trajectory
        sq = lambda x: T.mul(x, x)
        d = lambda e: sum_(sq(T.sub(getattr(lg, f)[0, e], getattr(sim, f)[0, 0])) for f in 'xyz')
        out = [lg.valid[0, b], sim.valid[0, 0], sim.valid[1, 0]] + [
            T.implies(lg.valid[0, e], T.lt(T.add(d(b), M), d(e))) for e in range(t) if e != b]
        for p in range(3 if case is None else case + 1):
          q = path[min(p, 1)]
          h = T.and_(lg.valid[0, q], overlaps(box(lg, q, F(4) if p == 2 else F(0)), [getattr(sim, f)[1, 0] for f in BOX]))
          out.append(h if p == case else T.not_(h))
        return out

      def claims(i, o, case=case, path=path):
        lg, sim = i[0].log_trajectory, i[0].sim_trajectory
        v = speed_of(sim, 0, 0)
        sp = o[0][0]
        free = T.sub(F(1), pw(T.mul(v, F(1, 20))))
        step = lambda a: T.maxv(T.add(v, T.mul(DT, T.mul(2, a))), F(0))
        out = [c('never backwards', T.le(0, sp)), c('acceleration limit', T.le(sp, T.add(v, DT * 2)))]
        if case is None:
          out.append(c('free road', T.close(sp, step(free))))
        else:
          out.append(c('never faster than the free road', T.le(sp, T.add(step(free), F(1, 1000)))))
        return out

      hs.append(Harness(f'idm_log_path_nearest{b}_{"free" if case is None else "leader%d" % case}', lambda st, kw=kw: agents.IDMRoutePolicy(**kw).update_speed(st),
                        (st,), claims, assume=assume, prune='prop', functions=['IDMRoutePolicy.update_speed', '_find_reference_traj_from_log_traj'],
                        bounds=f'2 objects, log of {t} points, 2 logged and 1 extrapolated path point', samples=1,
                        sample=on_log((st,), b, case, path), linear_timeout=1))

  # control and interface of simulated agents
  def sel(st):
    out = []
    for a in (agents.FrozenSimPolicy(), agents.FrozenSimPolicy(lambda s: s.object_metadata.is_modeled)):
      r = a.select_action(None, st, None, None)
      out.append((r.action, r.is_controlled))
    for kind in (config.ObjectType.SDC, config.ObjectType.NON_SDC):
      a = agents.create_sim_agents_from_config(config.SimAgentConfig(agent_type=config.SimAgentType.IDM, controlled_objects=kind))
      out.append(a.is_controlled_func(st))
    return out

  def sclaims(i, o):
    st = i[0]
    sim, md = st.sim_trajectory, st.object_metadata
    out = []
    for q, mask in ((0, [T.not_(x) for x in md.is_sdc]), (1, list(md.is_modeled))):
      a, m = o[q]
      out += [c(f'controls as asked {q}', T.and_([T.iff(m[j], mask[j]) for j in range(2)])),
              c(f'frozen where it is {q}', T.and_([T.same(a.data[j, f], at(getattr(sim, FIELD_OF[f])[j], scal(st.timestep)))
                                                  for f in range(5) for j in range(2)] +
                                                  [T.iff(a.valid[j, 0], at(sim.valid[j], scal(st.timestep))) for j in range(2)]))]
    out += [c('configured for the car', T.and_([T.iff(o[2][j], md.is_sdc[j]) for j in range(2)])),
            c('configured for the others', T.and_([T.iff(o[3][j], T.not_(md.is_sdc[j])) for j in range(2)]))]
    return out

  hs.append(Harness('interface', sel, (wm.state(2, 3),), sclaims, functions=['FrozenSimPolicy.update_trajectory',
                    'SimAgentActor.select_action', 'create_sim_agents_from_config'], bounds='2 objects, 3 steps, any timestep'))

  # constant speed actors on a dynamics model
  for nm, dyn, sp in (('own', dynamics.StateDynamics(), None), ('set', dynamics.StateDynamics(), 7.5)):
    def act(st, dyn=dyn, sp=sp):
      a = constant_speed.create_constant_speed_actor(dyn, lambda s: s.object_metadata.is_modeled, sp)
      r = a.select_action(None, st, None, None)
      return r.action, r.is_controlled

    def aclaims(i, o, sp=sp):
      st = i[0]
      sim, md, ts = st.sim_trajectory, st.object_metadata, scal(st.timestep)
      a, m = o
      g = lambda f, j: at(getattr(sim, f)[j], ts)
      out = []
      for j in range(2):
        if sp is None:
          vx, vy = g('vel_x', j), g('vel_y', j)
        else:
          vx, vy = T.mul(F(15, 2), T.cos(g('yaw', j))), T.mul(F(15, 2), T.sin(g('yaw', j)))
        want = [T.add(g('x', j), T.mul(vx, DT)), T.add(g('y', j), T.mul(vy, DT)), g('yaw', j), vx, vy]
        out.append(T.and_([T.close(a.data[j, q], want[q]) for q in range(5)] + [
            T.iff(a.valid[j, 0], T.and_(md.is_modeled[j], g('valid', j))), T.iff(m[j], md.is_modeled[j])]))
      return [c('keeps going straight', T.and_(out))]

    hs.append(Harness(f'constant_speed_actor_{nm}', act, (wm.state(2, 3, timestep=1),), aclaims,
                      functions=['create_constant_speed_actor'], bounds='2 objects, timestep 1'))
  return hs
