"""C05: horizon arithmetic."""
from checks.common import *


def harnesses(tier):
  n = 2
  hs = []
  for t in ((3, 5) if tier == 'quick' else (2, 3, 5, 9)):
    for which in ('base', 'planning'):
      kind = 'SDC' if which == 'planning' else 'VALID'
      cls = env.PlanningAgentEnvironment if which == 'planning' else env.BaseEnvironment
      e = cls(ArbitraryDynamics(), env_cfg(n, controlled_object=obj(kind)))

      def fn(s, e=e):
        return dict(done=s.is_done, rem=s.remaining_timesteps, trunc=e.truncation(s), term=e.termination(s))

      def claims(i, o, t=t):
        ts = scal(i[0].timestep)
        last = T.le(t - 1, ts)
        return [
            c('done exactly at the last timestep', T.iff(scal(o['done']), last), reach=last),
            c('remaining timesteps', T.eqv(scal(o['rem']), T.sub(t - 1, ts))),
            c('truncates exactly when nothing remains', T.iff(scal(o['trunc']), last)),
            c('never terminates', T.not_(scal(o['term']))),
            c('shapes', o['trunc'].shape == () and o['term'].shape == ()),
        ]

      hs.append(Harness(f'{which}_flags_T{t}', fn, (wm.state(n, t, tmin=-1),), claims,
                        functions=['SimulatorState.is_done', 'SimulatorState.remaining_timesteps',
                                   'AbstractEnvironment.truncation', 'AbstractEnvironment.termination'],
                        bounds=f'trajectory length {t}, timestep -1..{t-1}', samples=1))
      for init in range(1, t):
        e2 = cls(ArbitraryDynamics(), env_cfg(n, init_steps=init, controlled_object=obj(kind)))
        steps = t - init

        def ep(s, acts, e2=e2):
          s = e2.reset(s)
          out = [(s.is_done, s.remaining_timesteps, e2.truncation(s), e2.termination(s))]
          for a in acts:
            s = e2.step(s, a)
            out.append((s.is_done, s.remaining_timesteps, e2.truncation(s), e2.termination(s)))
          return out

        def ec(i, o, steps=steps):
          out = []
          for k, (d, r, tr, te) in enumerate(o):
            out.append(c(f'after {k} of {steps} steps', T.and_(
                T.iff(scal(d), k == steps), T.eqv(scal(r), steps - k), T.iff(scal(tr), k == steps),
                T.not_(scal(te)))))
          return out

        act = (lambda: datatypes.Action(data=V((5,)), valid=V((1,), 'b'))) if which == 'planning' else (
            lambda: action(n, 5))
        hs.append(Harness(f'{which}_episode_T{t}_init{init}', ep,
                          (wm.state(n, t, tmin=-1), [act() for _ in range(steps)]), ec,
                          functions=['reset', 'step', 'is_done', 'truncation', 'termination'],
                          bounds=f'every episode of length {steps}', samples=1))
  # batched states
  e = env.BaseEnvironment(ArbitraryDynamics(), env_cfg(n))
  t = 4

  def fb(s):
    return dict(done=s.is_done, rem=s.remaining_timesteps, trunc=e.truncation(s), term=e.termination(s))

  def cb(i, o):
    ts = i[0].timestep
    return [c('batched flags', T.and_([T.and_(
        T.iff(o['done'][b], T.le(t - 1, ts[b])), T.eqv(o['rem'][b], T.sub(t - 1, ts[b])),
        T.iff(o['trunc'][b], T.le(t - 1, ts[b])), T.not_(o['term'][b])) for b in range(2)]))]

  hs.append(Harness('batched_flags', fb, (wm.state(n, t, tmin=-1, batch=(2,)),), cb,
                    functions=['is_done', 'remaining_timesteps', 'truncation', 'termination'],
                    bounds='batch 2', samples=1))
  return hs
