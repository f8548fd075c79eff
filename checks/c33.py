"""C33: drawings show exactly the valid things, where they are."""
import importlib

from checks.common import *
from svx.paths import Forked, concrete_int, concrete_masks
from jax._src import core as jcore

viz = importlib.import_module('waymax.visualization.viz')
utils = importlib.import_module('waymax.visualization.utils')
color = importlib.import_module('waymax.visualization.color')


# --------------------------------------------------------------- array stand-in
def raw(x):
  if isinstance(x, Arr):
    return x.a
  if isinstance(x, (tuple, list)):
    return type(x)(raw(v) for v in x)
  return x


class Arr:
  """A traced array with numpy's in-place updates."""

  def __init__(self, a):
    self.a = a

  def __jax_array__(self):
    return self.a

  def __getitem__(self, i):
    return self.a[concrete_masks(raw(i))]

  def __setitem__(self, i, v):
    self.a = self.a.at[concrete_masks(raw(i))].set(raw(v))

  def __getattr__(self, k):
    return getattr(self.a, k)

  def __iter__(self):
    return iter(self.a)

  def __len__(self):
    return len(self.a)


  def nonzero(self):
    return np.nonzero(concrete_masks(self.a))


for _op in ('add', 'sub', 'mul', 'truediv', 'and', 'or', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'radd', 'rsub', 'rmul', 'rand', 'ror', 'rtruediv', 'neg', 'invert'):
  def _f(self, *o, _op=_op):
    return getattr(self.a, f'__{_op}__')(*map(raw, o))
  setattr(Arr, f'__{_op}__', _f)


def traced(x):
  return any(isinstance(l, (jcore.Tracer, Arr)) for l in jax.tree_util.tree_leaves(x, is_leaf=lambda v: isinstance(v, Arr)))


class Numpy:
  """numpy for concrete arguments, its jax counterpart for traced ones."""

  def __getattr__(self, k):
    f = getattr(np, k)
    if not callable(f) or isinstance(f, type):
      return f

    def call(*a, **kw):
      if not traced((a, kw)):
        return f(*a, **kw)
      a = raw(a)
      if k in ('array', 'asarray'):
        kw.pop('copy', None)
        return Arr(jnp.asarray(a[0], *a[1:], **kw))
      if k in ('flatnonzero', 'nonzero', 'argwhere', 'compress', 'extract') or (k == 'where' and len(a) + len(kw) == 1):
        # sizes depend on values: decide the mask
        m = concrete_masks(jnp.asarray(a[0]) != 0 if jnp.asarray(a[0]).dtype != bool else jnp.asarray(a[0]))
        return f(m, *a[1:], **kw) if k not in ('compress', 'extract') else jnp.asarray(a[1])[m]
      if k == 'unique':
        v = jnp.ravel(a[0])
        return np.unique(np.array([concrete_int(v[j]) for j in range(v.shape[0])], int))
      return getattr(jnp, k)(*a, **kw)
    return call


class Axes:
  """Records what is drawn: coloured strokes, texts and the view."""

  def __init__(self, log):
    self.log, self.out = log, []

  def plot(self, x, y, *fmt, **kw):
    if isinstance(x, list):
      x, y = jnp.stack([jnp.asarray(v) for v in x]), jnp.stack([jnp.asarray(v) for v in y])
    x, y = jnp.asarray(x), jnp.asarray(y)
    col = kw.get('color')
    fm = fmt[0] if fmt else ''
    mark = kw.get('marker', '') or ''.join(ch for ch in fm if ch in 'o.')
    col = tuple(round(float(v), 4) for v in col) if col is not None else ''.join(ch for ch in fm if ch in 'cgrbkmyw')
    # matplotlib draws one stroke per column; a marker-only format draws loose points
    loose = bool(mark)
    if loose:
      x, y = jnp.reshape(x, (1, -1)), jnp.reshape(y, (1, -1))
    elif x.ndim == 1:
      x, y = x[:, None], y[:, None]
    self.log.append(('points' if loose else 'strokes', col, tuple(int(v) for v in x.shape)))
    self.out.append(jnp.stack([x, y], axis=-1))   # (points along the stroke, strokes, 2)

  def text(self, x, y, s, **kw):
    self.log.append(('text', s))
    self.out.append(jnp.stack([jnp.asarray(x), jnp.asarray(y)]))

  def axis(self, box):
    self.log.append(('view',))
    self.out.append(jnp.stack([jnp.asarray(v, jnp.float32) for v in box]))


class Patched:
  """Runs the drawing code with recorded axes (and traced arrays, when tracing)."""

  def __init__(self, ax):
    self.ax = ax

  def __enter__(self):
    self.old = viz.np, utils.np, utils.init_fig_ax, utils.img_from_fig, jax.jit
    viz.np = utils.np = Numpy()
    utils.init_fig_ax = lambda cfg=None: (None, self.ax)
    utils.img_from_fig = lambda fig: np.zeros((1, 1, 3), np.uint8)
    jax.jit = lambda f, **kw: f
    return self.ax

  def __exit__(self, *_):
    viz.np, utils.np, utils.init_fig_ax, utils.img_from_fig, jax.jit = self.old


def drawing(f):
  def fn(log, *args):
    ax = Axes(log)
    with Patched(ax):
      f(ax, *args)
    return ax.out
  return fn


def col(name):
  return tuple(round(float(v), 4) for v in color.COLOR_DICT[name])


# --------------------------------------------------------------- oracle
def gather(o, log):
  """Drawn things: {(kind, colour): [stroke, ...]}, a stroke being a list of points."""
  d = {}
  for ev, a in zip(log, o):
    if ev[0] == 'strokes':
      d.setdefault(ev[:2], []).extend([[tuple(p) for p in a[:, k]] for k in range(a.shape[1])])
    elif ev[0] == 'points':
      d.setdefault(ev[:2], []).extend([[tuple(a[0, k])] for k in range(a.shape[1])])
  return d


def near(p, q):
  return T.and_(T.close(p[0], q[0]), T.close(p[1], q[1]))


def same_stroke(s, t):
  return len(s) == len(t) and T.and_([near(p, q) for p, q in zip(s, t)])


def box_strokes(cx, cy, l, w, a):
  """Outline and heading arrow of a box."""
  ca, sa = T.cos(a), T.sin(a)

  def at_(u, v):
    dx, dy = rot(ca, sa, T.mul(l, F(u)), T.mul(w, F(v)))
    return T.add(cx, dx), T.add(cy, dy)
  h = F(1, 2)
  corners = [at_(h, h), at_(h, -h), at_(-h, -h), at_(-h, h)]
  return corners, [at_(0, h), at_(0, -h), at_(h, 0)]


def closed(s, pts):
  """The stroke s is the closed polygon pts, from any corner, in either direction."""
  k = len(pts)
  if len(s) != k + 1:
    return False
  opts = []
  for r in range(k):
    for step in (1, -1):
      opts.append(T.and_([near(s[q], pts[(r + step * q) % k]) for q in range(k + 1)]))
  return T.or_(opts)


def matching(drawn, wanted, same):
  """Every wanted thing (condition, thing) is drawn, and nothing else.

  -> (all wanted drawn, only wanted drawn, same number)
  """
  shown = T.and_([T.implies(cnd, T.or_([same(s, w) for s in drawn])) for cnd, w in wanted])
  only = T.and_([T.or_([T.and_(cnd, same(s, w)) for cnd, w in wanted]) for s in drawn])
  total = 0
  for cnd, _ in wanted:
    total = T.add(total, T.ite(cnd, 1, 0))
  return shown, only, T.eqv(total, len(drawn))


def traj_claims(tr, ctl, ti, d, overlap=True):
  n, t = len(tr.x), len(tr.x[0])
  cs = []
  for name, pick in (('controlled', lambda j, k: T.and_(k >= ti, ctl[j])), ('context', lambda j, k: T.and_(k >= ti, T.not_(ctl[j])))):
    drawn = d.get(('strokes', col(name)), [])
    outlines, arrows = [s for s in drawn if len(s) == 5], [s for s in drawn if len(s) == 4]
    cs.append(c(f'{name}: only outlines and arrows', len(outlines) + len(arrows) == len(drawn)))
    wo, wa = [], []
    for j in range(n):
      for k in range(t):
        cnd = T.and_(pick(j, k), tr.valid[j, k])
        shrink = F(1) if k == ti else F(1, 10)
        o, a = box_strokes(tr.x[j, k], tr.y[j, k], T.mul(tr.length[j, k], shrink), T.mul(tr.width[j, k], shrink), tr.yaw[j, k])
        if cnd is not False:
          wo.append((cnd, o))
          wa.append((cnd, a))
    for what, dr, w in (('boxes', outlines, wo), ('headings', arrows, wa)):
      for nm, p in zip(('every valid one', 'nothing else', 'each once'), matching(dr, w, closed)):
        cs.append(c(f'{name} {what}: {nm}', p))
  hist = d.get(('points', col('history')), [])
  w = [(tr.valid[j, k], [(tr.x[j, k], tr.y[j, k])]) for j in range(n) for k in range(ti)]
  for nm, p in zip(('every valid one', 'nothing else', 'each once'), matching(hist, w, same_stroke)):
    cs.append(c(f'history: {nm}', p))
  return cs


def harnesses(tier):
  hs = []
  big = tier == 'thorough'

  def fixed(tr, yaws):
    n, t = tr.x.shape
    y = np.broadcast_to(np.asarray(yaws, np.float32)[:n, None], (n, t))
    return tr.replace(yaw=jnp.asarray(y))

  # a trajectory
  for n, t, ti in [(1, 3, 0), (1, 3, 1), (1, 3, 2), (2, 1, 0), (2, 2, 1)] + ([(2, 2, 0), (3, 1, 0)] if big else []):
    tr = fixed(wm.traj(n, t, lim=20, dims=(F(1, 2), 10)), (0.0, 0.0, 0.0) if n > 1 else (0.5,))

    def f(ax, tr, ctl, ti=ti):
      viz.plot_trajectory(ax, tr, ctl, time_idx=ti)

    def claims(i, o, log, ti=ti, n=n):
      tr, ctl = i
      d = gather(o, log)
      cs = traj_claims(tr, ctl, ti, d)
      hit = [s for s in d.get(('strokes', col('overlap')), []) if len(s) == 5]
      want = []
      for j in range(n):
        touch = []
        for k in range(n):
          if k != j:
            gx = T.absv(T.sub(tr.x[j, ti], tr.x[k, ti]))
            gy = T.absv(T.sub(tr.y[j, ti], tr.y[k, ti]))
            touch.append(T.and_(tr.valid[k, ti], T.lt(gx, T.div(T.add(tr.length[j, ti], tr.length[k, ti]), F(2))),
                                T.lt(gy, T.div(T.add(tr.width[j, ti], tr.width[k, ti]), F(2)))))
        cnd = T.and_(tr.valid[j, ti], T.or_(touch)) if touch else False
        want.append((cnd, box_strokes(tr.x[j, ti], tr.y[j, ti], tr.length[j, ti], tr.width[j, ti], tr.yaw[j, ti])[0]))
      for nm, p in zip(('every overlapping one', 'nothing else', 'each once'), matching(hit, want, closed)):
        cs.append(c(f'overlap: {nm}', p))
      return cs

    hs.append(Forked(f'trajectory_{n}x{t}_at{ti}', drawing(f), (tr, V((n,), 'b')), claims, early=True, samples=1,
                     functions=['plot_trajectory', '_plot_bounding_boxes', 'plot_numpy_bounding_boxes'],
                     bounds=f'{n} objects, {t} steps, highlighted step {ti}, fixed headings, any position, size, validity and control'))

  # labels
  def lab(ax, tr, ctl):
    viz.plot_trajectory(ax, tr, ctl, time_idx=1, indices=np.array([7, 9]))

  def lclaims(i, o, log):
    tr = i[0]
    texts = [(ev[1], tuple(a)) for ev, a in zip(log, o) if ev[0] == 'text']
    cs = []
    for j, s in enumerate(('7', '9')):
      got = [p for q, p in texts if q == s]
      cs.append(c(f'label {s} iff valid', T.iff(tr.valid[j, 1], len(got) == 1) if len(got) < 2 else False))
      for p in got:
        cs.append(c(f'label {s} next to its object', near(p, (T.sub(tr.x[j, 1], F(2)), T.add(tr.y[j, 1], F(2))))))
    return cs

  ltr = fixed(wm.traj(2, 2, lim=20, dims=(F(1, 2), 2)), (0.0, 0.0))
  hs.append(Forked('labels', drawing(lab), (ltr, V((2,), 'b')), lclaims, early=True, samples=1,
                   assume=lambda i: [T.not_(i[0].valid[j, 0]) for j in range(2)] + [i[1][0], i[1][1], T.le(T.add(i[0].x[0, 1], F(5)), i[0].x[1, 1])],
                   functions=['plot_trajectory'], bounds='2 objects, 2 steps'))

  # the map
  shown = (1, 2, 3, 15, 16, 17, 18, 19)
  for types in [(0, 9), (10, 20)]:
    def rg(ax, r):
      viz.plot_roadgraph_points(ax, r)

    def rclaims(i, o, log, types=types):
      r = i[0]
      d = gather(o, log)
      cs, known = [], set()
      for ty in range(types[0], types[1] + 1):
        if ty not in shown:
          continue
        cl = tuple(round(float(v), 4) for v in color.ROAD_GRAPH_COLORS[ty])
        known.add(cl)
      for cl in sorted(known):
        of = [ty for ty in shown if tuple(round(float(v), 4) for v in color.ROAD_GRAPH_COLORS[ty]) == cl]
        want = [(T.and_(r.valid[q], T.or_([T.eqv(r.types[q], ty) for ty in of])), [(r.x[q], r.y[q])]) for q in range(len(r.x))]
        for nm, p in zip(('every valid point', 'nothing else', 'each once'), matching(d.get(('points', cl), []), want, same_stroke)):
          cs.append(c(f'map colour {cl}: {nm}', p))
      cs.append(c('no other colours', all(k[1] in known for k in d)))
      return cs

    hs.append(Forked(f'map_{types[0]}_{types[1]}', drawing(rg), (wm.roadgraph(2, 20, types=types),), rclaims, early=True, samples=1,
                     functions=['plot_roadgraph_points'], bounds=f'2 map points, any type {types[0]}..{types[1]}'))

  # traffic lights
  for ts in (0, 1):
    def tl(ax, l, ts=ts):
      viz.plot_traffic_light_signals_as_points(ax, l, ts)

    def tclaims(i, o, log, ts=ts):
      l = i[0]
      d = gather(o, log)
      cs = []
      table = {}
      for s, v in color.TRAFFIC_LIGHT_COLORS.items():
        table.setdefault(tuple(round(float(x), 4) for x in v), []).append(s)
      for cl, of in sorted(table.items()):
        want = [(T.and_(l.valid[q, ts], T.or_([T.eqv(l.state[q, ts], s) for s in of])), [(l.x[q, ts], l.y[q, ts])]) for q in range(len(l.x))]
        for nm, p in zip(('every valid one', 'nothing else', 'each once'), matching(d.get(('points', cl), []), want, same_stroke)):
          cs.append(c(f'lights of colour {cl}: {nm}', p))
      return cs

    hs.append(Forked(f'lights_at{ts}', drawing(tl), (wm.tls(2, 2, 20),), tclaims, early=True, samples=1,
                     functions=['plot_traffic_light_signals_as_points'], bounds='2 lights, 2 steps'))

  # routes
  def pth(ax, p):
    viz._plot_path_points(ax, p)

  def pclaims(i, o, log):
    p = i[0]
    d = gather(o, log)
    cs = []
    for cl, on in (('c', True), ('g', False)):
      want = []
      for k in range(len(p.x)):
        side = p.on_route[k, 0] if on else T.not_(p.on_route[k, 0])
        want += [(T.and_(side, p.valid[k, 0], p.valid[k, q]), [(p.x[k, q], p.y[k, q])]) for q in range(len(p.x[k]))]
      for nm, q in zip(('every valid point', 'nothing else', 'each once'), matching(d.get(('points', cl), []), want, same_stroke)):
        cs.append(c(f'{"on" if on else "off"} route: {nm}', q))
    return cs

  for np_, nq in ((2, 2), (1, 3)) + (((1, 4), (2, 3)) if tier == 'thorough' else ()):
    hs.append(Forked(f'routes_{np_}x{nq}', drawing(pth), (wm.paths(np_, nq, 20),), pclaims, early=True, samples=1,
                     functions=['_plot_path_points'], bounds=f'{np_} paths of {nq} points'))

  # whole scenarios: which trajectory, which step, and the view
  def fix_state(st):
    flat = lambda tr: tr.replace(yaw=jnp.zeros(tr.yaw.shape, jnp.float32))
    return st.replace(sim_trajectory=flat(st.sim_trajectory), log_trajectory=flat(st.log_trajectory))

  def scene_claims(o, log, tr, md, ctl, r, l, ts, vc, p=None, metrics=None):
    n = len(tr.x)
    d = gather(o, log)
    cs = traj_claims(tr, ctl, ts, d)
    b = dict(front_x=75.0, back_x=75.0, front_y=75.0, back_y=75.0)
    b.update({k: x for k, x in (vc or {}).items() if k in b})
    row = (lambda f: getattr(tr, f)[vc['center_agent_idx'], ts]) if vc and 'center_agent_idx' in vc else (
        lambda f: sdc_pick(md, [getattr(tr, f)[j, ts] for j in range(n)]))
    want = (T.sub(row('x'), num(b['back_x'])), T.add(row('x'), num(b['front_x'])),
            T.sub(row('y'), num(b['back_y'])), T.add(row('y'), num(b['front_y'])))
    v = [a for ev, a in zip(log, o) if ev[0] == 'view']
    cs.append(c('one view', len(v) == 1))
    cs += [c('view around the chosen agent', T.and_([T.close(x, y) for x, y in zip(v[-1], want)]))] if v else []
    pts = [x for k, xs in d.items() if k[0] == 'points' and k[1] not in (col('history'), 'c', 'g') for x in xs]
    things = [(T.and_(r.valid[q], T.or_([T.eqv(r.types[q], ty) for ty in shown])), [(r.x[q], r.y[q])]) for q in range(len(r.x))]
    things += [(l.valid[q, ts], [(l.x[q, ts], l.y[q, ts])]) for q in range(len(l.x))]
    for nm, q in zip(('all', 'nothing else', 'each once'), matching(pts, things, same_stroke)):
      cs.append(c(f'map and lights of this step: {nm}', q))
    route = [x for cl in 'cg' for x in d.get(('points', cl), [])]
    want = [] if p is None else [(T.and_(p.valid[k, 0], p.valid[k, q]), [(p.x[k, q], p.y[k, q])]) for k in range(len(p.x)) for q in range(len(p.x[k]))]
    for nm, q in zip(('all', 'nothing else', 'each once'), matching(route, want, same_stroke)):
      cs.append(c(f'routes: {nm}', q))
    texts = [ev[1] for ev in log if ev[0] == 'text']
    if vc is None or vc.get('show_agent_id', True):
      cs.append(c('labels of the valid objects', T.and_([T.iff(tr.valid[j, ts], str(j) in texts) for j in range(n)])))
    else:
      cs.append(c('no labels', not [t for t in texts if isinstance(t, str) and t.isdigit()]))
    for name, value, ok in metrics or []:
      cs.append(c(f'metric {name} shown iff valid', T.iff(ok, any(name in str(t) and value in str(t) for t in texts))))
      cs.append(c(f'metric {name} hidden iff invalid', T.iff(T.not_(ok), not any(name in str(t) for t in texts))))
    return cs

  def few(md, r, l, ts):
    """Few map and light variants: how each type is drawn is decided above."""
    return [one_sdc(md)] + [T.or_(T.eqv(r.types[q], 15), T.eqv(r.types[q], 4)) for q in range(len(r.x))] + [
        T.or_(T.eqv(l.state[q, ts], 1), T.eqv(l.state[q, ts], 3)) for q in range(len(l.x))]

  def only(trs):
    return [T.not_(tr.valid[0, k]) for tr in trs for k in range(2)] if len(trs[0].x) > 1 else []

  cfgs = {'default': None, 'narrow': dict(front_x=10.0, back_x=20.0, front_y=30.0, back_y=40.0, show_agent_id=False),
          'agent1': dict(center_agent_idx=1, show_agent_id=False)}
  for name, vc in cfgs.items():
    for log_traj in (True, False):
      if name != 'default' and log_traj:
        continue
      for ts in (0, 1):
        n = 2 if name == 'agent1' else 1
        st = fix_state(wm.state(n, 2, p=1, timestep=ts, lim=20, dims=(F(1, 2), 2)))

        def whole(ax, s, vc=vc, log_traj=log_traj, ts=ts):
          viz.plot_simulator_state(s.replace(timestep=np.int32(ts)), use_log_traj=log_traj, viz_config=vc)

        def wclaims(i, o, log, vc=vc, log_traj=log_traj, ts=ts):
          s = i[0]
          tr = s.log_trajectory if log_traj else s.sim_trajectory
          return scene_claims(o, log, tr, s.object_metadata, s.object_metadata.is_sdc, s.roadgraph_points, s.log_traffic_light, ts, vc)

        hs.append(Forked(f'scenario_{name}_{"log" if log_traj else "sim"}_at{ts}', drawing(whole), (st,), wclaims, early=True, samples=1,
                         assume=lambda i, ts=ts: few(i[0].object_metadata, i[0].roadgraph_points, i[0].log_traffic_light, ts) + only([i[0].sim_trajectory, i[0].log_trajectory]),
                         functions=['plot_simulator_state'], bounds=f'{n} objects, 2 steps, timestep {ts}, 1 map point, 1 light'))

  def one(tree, *k):
    return jax.tree_util.tree_map(lambda x: np.asarray(x, dtype=object)[k], tree)

  # one scenario of a batch; other highlighted objects
  kinds = [('sdc', obj('SDC'), lambda md: md.is_sdc), ('modeled', obj('MODELED'), lambda md: md.is_modeled),
           ('valid', obj('VALID'), lambda md: md.is_valid)]
  for kind, ot, mask in kinds:
    bst = fix_state(wm.state(1, 2, p=1, batch=(2,), timestep=1, lim=20, dims=(F(1, 2), 2)))

    def batched(ax, s, ot=ot):
      viz.plot_simulator_state(s.replace(timestep=np.array([0, 1], np.int32)), use_log_traj=False, batch_idx=1,
                               viz_config=dict(show_agent_id=False), highlight_obj=ot)

    def bclaims(i, o, log, mask=mask):
      s = i[0]
      md, r, l = one(s.object_metadata, 1), one(s.roadgraph_points, 1), one(s.log_traffic_light, 1)
      return scene_claims(o, log, one(s.sim_trajectory, 1), md, mask(md), r, l, 1, dict(show_agent_id=False))

    hs.append(Forked(f'scenario_batched_{kind}', drawing(batched), (bst,), bclaims, early=True, samples=1,
                     assume=lambda i: few(one(i[0].object_metadata, 1), one(i[0].roadgraph_points, 1), one(i[0].log_traffic_light, 1), 1),
                     functions=['plot_simulator_state', 'get_control_mask'], bounds=f'batch of 2, 1 object, 2 steps, highlighting {kind}'))

  # what one object observes: the last step is the current one
  from waymax import datatypes as D
  for name, batch, n, vc in [('plain', (), 1, dict(show_agent_id=False)), ('batched', (2,), 1, dict(show_agent_id=False, back_x=30.0)),
                             ('agent1', (), 2, dict(center_agent_idx=1, show_agent_id=False))]:
    pre = batch + (2,)
    tr = wm.traj(n, 2, lim=20, dims=(F(1, 2), 2), batch=pre)
    obs = D.Observation(
        trajectory=tr.replace(yaw=jnp.zeros(tr.yaw.shape, jnp.float32)), is_ego=V(pre + (n,), 'b'),
        pose2d=D.ObjectPose2D.from_center_and_yaw(jnp.zeros(pre + (2,)), jnp.zeros(pre), jnp.ones(pre, bool)),
        metadata=wm.metadata(n, batch=pre), roadgraph_static_points=wm.roadgraph(1, 20, batch=pre),
        traffic_lights=wm.tls(1, 2, 20, batch=pre), sdc_paths=None)
    at_ = (1,) * len(batch) + (1,)

    def ob(ax, x, vc=vc, batch=batch):
      viz.plot_observation(x, 1, viz_config=vc, batch_idx=1 if batch else -1)

    def oclaims(i, o, log, vc=vc, at_=at_):
      x = i[0]
      md = one(x.metadata, *at_)
      return scene_claims(o, log, one(x.trajectory, *at_), md, md.is_sdc, one(x.roadgraph_static_points, *at_), one(x.traffic_lights, *at_), 1, vc)

    hs.append(Forked(f'observation_{name}', drawing(ob), (obs,), oclaims, early=True, samples=1,
                     assume=lambda i, at_=at_: few(one(i[0].metadata, *at_), one(i[0].roadgraph_static_points, *at_), one(i[0].traffic_lights, *at_), 1) + only([one(i[0].trajectory, *at_)]),
                     functions=['plot_observation'], bounds=f'2 observers, {n} objects, 2 steps, batch {batch}'))

  # a Brax timestep adds the routes and the valid metrics
  bw = importlib.import_module('waymax.env.wrappers.brax_wrapper')
  metric = importlib.import_module('waymax.metrics.abstract_metric')
  for batch in ((), (2,)):
    bvc = dict(show_agent_id=False)
    tst = fix_state(wm.state(1, 2, p=1, batch=batch, timestep=None if batch else 1, lim=20, dims=(F(1, 2), 2)))

    def bp(ax, s, ok, batch=batch, bvc=bvc):
      s = s.replace(timestep=np.array([0, 1], np.int32) if batch else np.int32(1))
      val = lambda v: np.array([9.75, v], np.float32) if batch else np.float32(v)
      ms = {'overlap': metric.MetricResult(value=val(1.25), valid=ok[..., 0]), 'offroad': metric.MetricResult(value=val(2.5), valid=ok[..., 1])}
      ts = bw.TimeStep(state=s, observation=None, reward=np.zeros(batch), done=np.zeros(batch, bool), discount=np.ones(batch), metrics=ms)
      viz.plot_single_agent_brax_timestep(ts, viz_config=bvc, batch_idx=1 if batch else -1)

    def bpclaims(i, o, log, batch=batch, bvc=bvc):
      s, ok = i
      if batch:
        s, ok = s.replace(**{k: one(getattr(s, k), 1) for k in ('sim_trajectory', 'object_metadata', 'roadgraph_points', 'log_traffic_light', 'sdc_paths')}), ok[1]
      return scene_claims(o, log, s.sim_trajectory, s.object_metadata, s.object_metadata.is_sdc, s.roadgraph_points, s.log_traffic_light, 1, bvc,
                          p=s.sdc_paths, metrics=[('overlap', '1.25', ok[0]), ('offroad', '2.50', ok[1])])

    def bpassume(i, batch=batch):
      g = (lambda x: one(x, 1)) if batch else (lambda x: x)
      s = i[0]
      # at most the metrics and the routes vary at once with the rest
      return few(g(s.object_metadata), g(s.roadgraph_points), g(s.log_traffic_light), 1) + [T.not_(g(s.roadgraph_points).valid[0]), T.not_(g(s.sim_trajectory).valid[0, 0])]

    hs.append(Forked(f'brax{"_batched" if batch else ""}', drawing(bp), (tst, V(batch + (2,), 'b')), bpclaims, early=True, samples=1, assume=bpassume,
                     functions=['plot_single_agent_brax_timestep'], bounds=f'batch {batch}, 1 object, 2 steps, 1 path of 2 points, 2 metrics'))
  return hs
