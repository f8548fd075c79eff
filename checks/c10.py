"""C10: discrete action encoding."""
import itertools
import math

from checks.common import *
from waymax.dynamics import discretizer

# (mins, maxs, bins)
CASES = {
    '1d': ([-1.0], [3.0], [4]),
    '2d': ([-6.0, -0.25], [6.0, 0.25], [3, 5]),
    '3d': ([-6.0, 0.0, -1.0], [2.0, 1.0, 1.0], [2, 3, 4]),
    'odd_even': ([0.5, -4.0], [2.0, 8.0], [1, 6]),
}
MORE = {
    'large': ([-6.0, -6.0, -3.0], [6.0, 6.0, 3.0], [7, 5, 6]),
    'acc_steer': ([-6.0, -0.3], [6.0, 0.3], [12, 12]),
    '4d': ([0.0, 0.0, 0.0, 0.0], [1.0, 2.0, 3.0, 4.0], [1, 2, 3, 4]),
}

ROT = {F(0): (1, 0), PI: (-1, 0), -PI: (-1, 0), PI / 2: (0, 1), -PI / 2: (0, -1)}


def harnesses(tier):
  cases = dict(CASES)
  if tier != 'quick':
    cases.update(MORE)
  hs = []
  for name, (lo, hi, bins) in cases.items():
    num_ = int(np.prod([b + 1 for b in bins]))
    d = len(bins)
    dz = discretizer.Discretizer(jnp.asarray(lo), jnp.asarray(hi), jnp.asarray(bins))
    lo_, hi_ = [num(v) for v in lo], [num(v) for v in hi]
    step = [(h - l) / b for l, h, b in zip(lo_, hi_, bins)]

    def decode(idx, bins=bins):
      """Mixed radix digits of an index (last dimension fastest)."""
      ds = []
      rem = idx
      for b in reversed(bins):
        ds.append(T.irem(rem, b + 1))
        rem = T.idiv(rem, b + 1)
      return list(reversed(ds))

    def to_idx(ix, dz=dz):
      v = dz.make_continuous(ix)
      return v, dz.discretize(v)

    def c1(i, o, d=d, lo_=lo_, step=step, bins=bins, hi_=hi_, decode=decode):
      v, back = o
      digits = [decode(i[0][r, 0]) for r in range(2)]
      return [c('index -> value -> index', T.and_([T.same(back[r, 0], i[0][r, 0]) for r in range(2)])),
              c('values lie on the grid', T.and_([T.close(
                  v[r, k], T.add(lo_[k], T.mul(step[k], digits[r][k])), margin=F(1, 1000)) for r in range(2) for k in range(d)])),
              c('values within the bounds', T.and_([within(v[r, k], lo_[k] - F(1, 1000), hi_[k] + F(1, 1000))
                                                    for r in range(2) for k in range(d)])),
              c('distinct indices give distinct values', T.implies(
                  T.not_(T.eqv(i[0][0, 0], i[0][1, 0])),
                  T.or_([T.not_(T.close(v[0, k], v[1, k], margin=step[k] / 4, tol=float(step[k]) / 4)) for k in range(d)])))]

    hs.append(Harness(f'index_roundtrip_{name}', to_idx, (V((2, 1), 'i', 0, num_ - 1),), c1,
                      functions=['Discretizer.make_continuous', 'Discretizer.discretize'],
                      bounds=f'all {num_} indices of bins {bins} over {lo}..{hi}'))

    def to_val(v, dz=dz):
      ix = dz.discretize(v)
      return ix, dz.make_continuous(ix)

    def c2(i, o, d=d, lo_=lo_, hi_=hi_, step=step, num_=num_):
      v = i[0]
      ix, back = o
      e = F(1, 1000)
      near = []
      for k in range(d):
        cl = clip(v[0, k], lo_[k], hi_[k])
        dv = T.sub(back[0, k], cl)
        near.append(within(dv, -step[k] / 2 - e, step[k] / 2 + e))
      return [c('value -> index -> value moves at most half a bin', T.and_(near)),
              c('index in range', within(ix[0, 0], 0, num_ - 1)),
              c('result within the bounds', T.and_([within(back[0, k], lo_[k] - e, hi_[k] + e) for k in range(d)]))]

    lim = max(max(abs(x) for x in lo), max(abs(x) for x in hi)) * 2 + 1
    hs.append(Harness(f'value_roundtrip_{name}', to_val, (V((1, d), 'f', -lim, lim),), c2,
                      functions=['Discretizer.discretize', 'Discretizer.make_continuous'],
                      bounds=f'all values within +-{lim}, bins {bins} over {lo}..{hi}'))

  # wrapped dynamics = the dynamics under the decoded action
  for mname, mk, bins in (('delta', dynamics.DeltaGlobal, [3, 4, 2]), ('bicycle', dynamics.InvertibleBicycleModel, [4, 3])):
    base = mk()
    w = dynamics.DiscreteActionSpaceWrapper(base, jnp.asarray(bins))
    nn = int(np.prod([b + 1 for b in bins]))
    dz = discretizer.Discretizer(jnp.asarray(base.action_spec().minimum), jnp.asarray(base.action_spec().maximum),
                                 jnp.asarray(bins))

    def both(a, tr, w=w, base=base, dz=dz):
      cont = datatypes.Action(data=dz.make_continuous(a.data), valid=a.valid)
      return w.compute_update(a, tr), base.compute_update(cont, tr)

    dact = datatypes.Action(data=V((1, 1), 'i', 0, nn - 1), valid=V((1, 1), 'b'))
    hs.append(Harness(
        f'wrapped_{mname}', both, (dact, wm.traj(1, 1)),
        lambda i, o: [c(f'{f} as under the decoded action', all_close(getattr(o[0], f), getattr(o[1], f)))
                      for f in FIELD_OF] + [c('valid as under the decoded action', all_same(o[0].valid, o[1].valid))],
        functions=['DiscreteActionSpaceWrapper.compute_update'], bounds=f'one object, all {nn} actions'))

    def inv(tr, md, w=w, base=base, dz=dz):
      cont = base.inverse(tr, md, 0)
      a = w.inverse(tr, md, 0)
      return a, dz.discretize(cont.data), cont

    hs.append(Harness(
        f'wrapped_inverse_{mname}', inv, (wm.traj(1, 2), wm.metadata(1)),
        lambda i, o, nn=nn: [c('binned continuous inverse', all_same(o[0].data, o[1])),
                             c('valid as the continuous inverse', all_same(o[0].valid, o[2].valid)),
                             c('index in range', T.and_([within(v, 0, nn - 1) for v in o[0].data.reshape(-1)]))],
        functions=['DiscreteActionSpaceWrapper.inverse'], bounds='one object, one step'))
    spec = w.action_spec()
    assert spec.shape == (1,)
  # the searching inverse picks the best fitting action of the self-driving car
  def search(x, y, valid, turned, w):
    z = jnp.zeros((1, 2))
    yaw = jnp.stack([z[:, 0], jnp.where(turned, jnp.float32(math.pi / 2), jnp.float32(0))], axis=-1)
    tr = datatypes.Trajectory(x=x, y=y, z=z, vel_x=z, vel_y=z, yaw=yaw, valid=valid,
                              timestamp_micros=jnp.zeros((1, 2), jnp.int32),
                              length=z + 4, width=z + 2, height=z)
    md = datatypes.ObjectMetadata(ids=jnp.zeros(1, jnp.int32), object_types=jnp.ones(1, jnp.int32),
                                  is_sdc=jnp.ones(1, bool), is_modeled=jnp.ones(1, bool), is_valid=jnp.ones(1, bool),
                                  objects_of_interest=jnp.ones(1, bool), is_controlled=jnp.ones(1, bool))
    a = w.inverse(tr, md, 0)
    return a.data, a.valid

  def rot(g, x, y):
    cw, sw = ROT[g]
    return cw * x - sw * y, sw * x + cw * y

  def sclaims(i, o, grid, zero_ix):
    x, y, v, turned = i
    dx, dy = T.sub(x[0, 1], x[0, 0]), T.sub(y[0, 1], y[0, 0])
    cost = []
    for gx, gy, gw in grid:
      # squared corner distance between a 4 x 2 box (heading 0) moved by (gx, gy), turned by gw, and the logged box
      tot = F(0)
      for sx, sy in ((2, 1), (2, -1), (-2, 1), (-2, -1)):
        ax, ay = rot(gw, sx, sy)
        qx, qy = rot(PI / 2, sx, sy)
        ex = T.sub(T.sub(gx + ax, T.ite(turned[0], qx, F(sx))), dx)
        ey = T.sub(T.sub(gy + ay, T.ite(turned[0], qy, F(sy))), dy)
        tot = T.add(tot, norm2(ex, ey))
      cost.append(tot)
    best = T.pick(cost, o[0][0, 0])
    ok = T.and_(v[0, 0], v[0, 1])
    return [c('valid iff both ends valid', T.iff(o[1][0, 0], ok)),
            c('index in range', within(o[0][0, 0], 0, len(grid) - 1)),
            c('an unusable action is the zero action', T.implies(T.not_(ok), T.same(o[0][0, 0], zero_ix)))] + [
                c(f'no better action than the chosen one ({k})', T.implies(ok, T.le(best, T.add(cost[k], F(1, 100)))))
                for k in range(len(grid))]

  for nm, bins in (('xy', [2, 1, 1]), ('turn', [1, 1, 4])) + ((('all', [2, 2, 2]),) if tier != 'quick' else ()):
    base = dynamics.DeltaGlobal()
    w = dynamics.DiscreteActionSpaceWrapper(base, jnp.asarray(bins), bin_inverse=False)
    zero_ix = int(discretizer.Discretizer(jnp.asarray(base.action_spec().minimum), jnp.asarray(base.action_spec().maximum),
                                          jnp.asarray(bins)).discretize(jnp.zeros(3))[..., 0])
    grid = list(itertools.product(*[[-m + 2 * m * F(k, b) for k in range(b + 1)] for m, b in zip((6, 6, PI), bins)]))
    hs.append(Harness(f'inverse_by_search_{nm}', lambda *a, w=w: search(*a, w=w),
                      (V((1, 2), 'f', -5, 5), V((1, 2), 'f', -5, 5), V((1, 2), 'b'), V((1,), 'b')),
                      lambda i, o, grid=grid, zero_ix=zero_ix: sclaims(i, o, grid, zero_ix),
                      functions=['inverse_action_by_search', 'DiscreteActionSpaceWrapper.inverse'],
                      bounds=f'self-driving car, fixed heading, any displacement, straight or quarter turn, {len(grid)} actions',
                      samples=1))
  return hs
