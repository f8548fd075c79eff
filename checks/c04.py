"""C04: reset and log playback."""
from checks.common import *
from svx.stubs import ArbitraryActor

PARTS = ('log_trajectory', 'log_traffic_light', 'object_metadata', 'sdc_paths', 'roadgraph_points')


def reset_claims(st, o, init, n, t, extra=()):
  out = [c('positioned at the last warm-up step', T.eqv(scal(o.timestep), init - 1))]
  for f in TF:
    s, l = getattr(o.sim_trajectory, f), getattr(st.log_trajectory, f)
    out.append(c(f'{f}: warm-up equals the log', all_same(s[:, :init], l[:, :init])))
    inv = False if f == 'valid' else (-1 if f == 'timestamp_micros' else F(-1))
    out.append(c(f'{f}: placeholders after warm-up', T.and_([T.same(v, inv) for v in s[:, init:].ravel()])
                 if init < t else True))
  for part in PARTS:
    out.append(c(f'{part} unchanged', tree_same(getattr(st, part), getattr(o, part))))
  return out


def harnesses(tier):
  n, t = (2, 4) if tier == 'quick' else (3, 7)
  hs = []
  for init in range(1, t):
    for kind in (('VALID',) if tier == 'quick' and init != 2 else CONTROL_KINDS):
      e = env.BaseEnvironment(ArbitraryDynamics(), env_cfg(n, init_steps=init, controlled_object=obj(kind)))
      hs.append(Harness(
          f'base_reset_{kind}_init{init}', lambda s, e=e: e.reset(s), (wm.state(n, t, tmin=-1),),
          lambda i, o, init=init: reset_claims(i[0], o, init, n, t),
          functions=['BaseEnvironment.reset', 'update_state_by_log', 'fill_invalid_trajectory',
                     'update_by_slice_in_dim'],
          bounds=f'{n} objects, {t} steps, warm-up {init}, arbitrary earlier simulation', samples=1))
    for m in (0, 1):
      pe = env.PlanningAgentEnvironment(ArbitraryDynamics(), env_cfg(
          n, init_steps=init, controlled_object=obj('SDC')), [ArbitraryActor()] * m, [{}] * m)
      hs.append(Harness(
          f'planning_reset_init{init}_{m}agents', lambda s, pe=pe: pe.reset(s), (wm.state(n, t, tmin=-1),),
          lambda i, o, init=init, m=m: reset_claims(i[0], o, init, n, t) + [
              c('one actor state per simulated agent', len(o.sim_agent_actor_states) == m)],
          functions=['PlanningAgentEnvironment.reset', 'update_state_by_log'],
          bounds=f'{n} objects, {t} steps, warm-up {init}, {m} simulated agents', samples=1))
  for k in range(1, t):
    def claims(i, o, k=k):
      st, ts = i[0], scal(i[0].timestep)
      out = [c('timestep advances by the number of steps', T.eqv(scal(o.timestep), T.add(ts, k)))]
      for f in TF:
        s, l, z = getattr(o.sim_trajectory, f), getattr(st.log_trajectory, f), getattr(st.sim_trajectory, f)
        conds = []
        for j in range(n):
          for q in range(t):
            inside = T.and_(T.lt(ts, q), T.le(q, T.add(ts, k)))
            conds.append(T.same(s[j, q], T.ite(inside, l[j, q], z[j, q])))
        out.append(c(f'{f}: exactly the next {k} logged steps', T.and_(conds)))
      for part in PARTS:
        out.append(c(f'{part} unchanged', tree_same(getattr(st, part), getattr(o, part))))
      return out

    hs.append(Harness(
        f'by_log_{k}', lambda s, k=k: datatypes.update_state_by_log(s, k), (wm.state(n, t, tmin=-1, tmax=t - 1 - k),),
        claims, functions=['update_state_by_log', 'update_by_slice_in_dim'],
        bounds=f'{n} objects, {t} steps, any timestep with {k} steps left', samples=1))
  return hs
