"""C07: forward bicycle kinematics."""
from checks.common import *

CONFIGS = {
    'default': dict(),
    'normalized': dict(normalize_actions=True),
    'custom': dict(dt=0.2, max_accel=3.0, max_steering=0.1),
    'custom_normalized': dict(dt=0.5, max_accel=2.0, max_steering=0.2, normalize_actions=True),
}


def params(name):
  k = dict(dt=0.1, max_accel=6.0, max_steering=0.3, normalize_actions=False)
  k.update(CONFIGS[name])
  return num(k['dt']), num(k['max_accel']), num(k['max_steering']), k['normalize_actions']


def harnesses(tier):
  n = 1 if tier == 'quick' else 2
  hs = []
  for name in CONFIGS:
    dyn = dynamics.InvertibleBicycleModel(**CONFIGS[name])
    t, ma, ms, nrm = params(name)

    def claims(i, o, t=t, ma=ma, ms=ms, nrm=nrm):
      act, tr = i
      xs, ys, hd, vx, vy, vl, rng = [], [], [], [], [], [], []
      for j in range(len(tr.x)):
        if nrm:
          a = T.mul(clip(act.data[j, 0], -1, 1), ma)
          k = T.mul(clip(act.data[j, 1], -1, 1), ms)
        else:
          a, k = clip(act.data[j, 0], -ma, ma), clip(act.data[j, 1], -ms, ms)
        x, y, yaw, u, v = (getattr(tr, f)[j, 0] for f in FIELD_OF)
        sp = T.sqrt(norm2(u, v))
        half = T.mul(F(1, 2) * t * t, a)
        xs.append(T.close(o.x[j, 0], T.sum_([x, T.mul(u, t), T.mul(half, T.cos(yaw))])))
        ys.append(T.close(o.y[j, 0], T.sum_([y, T.mul(v, t), T.mul(half, T.sin(yaw))])))
        dist = T.add(T.mul(sp, t), half)
        hd.append(ang(o.yaw[j, 0], T.add(yaw, T.mul(k, dist))))
        ns = T.add(sp, T.mul(a, t))
        w = o.yaw[j, 0]
        vx.append(T.close(o.vel_x[j, 0], T.mul(ns, T.cos(w))))
        vy.append(T.close(o.vel_y[j, 0], T.mul(ns, T.sin(w))))
        vl.append(T.iff(o.valid[j, 0], T.and_(tr.valid[j, 0], act.valid[j, 0])))
        rng.append(within(w, -PI - F(1, 1000), PI + F(1, 1000)))
      return [c('x', T.and_(xs)), c('y', T.and_(ys)), c('heading', T.and_(hd)), c('vel_x', T.and_(vx)),
              c('vel_y', T.and_(vy)), c('valid', T.and_(vl)), c('heading wrapped', T.and_(rng))]

    hs.append(Harness(
        f'forward_{name}', lambda a, tr, d=dyn: d.compute_update(a, tr),
        (action(n, 2, lim=10), wm.traj(n, 1)), claims,
        functions=['InvertibleBicycleModel.compute_update', 'InvertibleBicycleModel.action_spec', 'wrap_yaws'],
        bounds=f'{n} objects, any state (|v|<=30, |pos|<=100, |heading|<=4), actions within +-10, {CONFIGS[name]}'))

  # inside the environment step: the state written is that of the model
  dyn = dynamics.InvertibleBicycleModel()

  def fclaims(i, o):
    act, sim, log, ctrl, ts = i
    ts = scal(ts)
    t, ma, ms, _ = params('default')
    a = clip(act.data[0, 0], -ma, ma)
    x, yaw, u = (at(getattr(sim, f)[0], ts) for f in ('x', 'yaw', 'vel_x'))
    nx = T.sum_([x, T.mul(u, t), T.mul(T.mul(F(1, 2) * t * t, a), T.cos(yaw))])
    return [c('controlled object moves from the current state', T.implies(
        ctrl[0], T.close(at(o.x[0], T.add(ts, 1)), nx)))]

  for k in range(2 if tier == 'quick' else 4):
    hs.append(Harness(
        f'forward_in_place_t{k}', lambda a, s, l, m, ts: dyn.forward(a, s, l, m, ts),
        (action(1, 2, lim=10), wm.traj(1, 4 if tier == 'quick' else 6), wm.traj(1, 4 if tier == 'quick' else 6), V((1,), 'b'), jnp.int32(k)),
        fclaims, functions=['DynamicsModel.forward'], bounds=f'one object, timestep {k}'))
  hs.append(Harness(
      'wrap_yaws', lambda a: __import__('waymax.utils.geometry', fromlist=['x']).wrap_yaws(a),
      (V((2,), 'f', -30, 30),),
      lambda i, o: [c('equivalent angle in range', T.and_([
          T.and_(ang(o[k], i[0][k]), within(o[k], -PI - F(1, 1000), PI + F(1, 1000))) for k in range(2)]))],
      functions=['wrap_yaws'], bounds='angles within +-30 rad'))
  return hs
