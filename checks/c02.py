"""C02: log replay for uncontrolled objects, dynamics result for controlled ones."""
from checks.common import *


def harnesses(tier):
  n, t = (2, 4) if tier == 'quick' else (3, 7)
  hs = []
  for kind in CONTROL_KINDS:
    for allow in (False, True):
      for init in ((2,) if tier == 'quick' else (1, 2, 3)):
        e = env.BaseEnvironment(ArbitraryDynamics(), env_cfg(
            n, init_steps=init, controlled_object=obj(kind), allow_new_objects_after_warmup=allow))

        def claims(i, nx, kind=kind, allow=allow, init=init):
          st, act = i
          ts = scal(st.timestep)
          ctrl = control_mask(st, kind, allow, init)
          out = []
          for k, f in enumerate(FIELD_OF):
            a, log = getattr(nx.sim_trajectory, f), getattr(st.log_trajectory, f)
            un, co = [], []
            for j in range(n):
              new, ref = at(a[j], T.add(ts, 1)), at(log[j], T.add(ts, 1))
              un.append(T.implies(T.not_(ctrl[j]), T.same(new, ref)))
              co.append(T.implies(ctrl[j], T.same(new, act.data[j, k])))
            out.append(c(f'uncontrolled {f} is the logged one', T.and_(un), reach=T.not_(ctrl[0])))
            out.append(c(f'controlled {f} is the dynamics result', T.and_(co), reach=ctrl[0]))
          out.append(c('timestamp of the log', T.and_([T.same(
              at(nx.sim_trajectory.timestamp_micros[j], T.add(ts, 1)),
              at(st.log_trajectory.timestamp_micros[j], T.add(ts, 1))) for j in range(n)])))
          for f in ('z', 'length', 'width', 'height'):
            out.append(c(f'{f} carried over', T.and_([T.same(
                at(getattr(nx.sim_trajectory, f)[j], T.add(ts, 1)),
                at(getattr(st.sim_trajectory, f)[j], ts)) for j in range(n)])))
          return out

        hs.append(Harness(
            f'step_{kind}_{"inject" if allow else "noinject"}_init{init}', lambda s, a, e=e: e.step(s, a),
            (wm.state(n, t, tmax=t - 2), action(n, 5)), claims,
            functions=['BaseEnvironment.step', 'DynamicsModel.forward',
                       'apply_trajectory_update_to_state', 'get_control_mask'],
            bounds=f'{n} objects, {t} steps, warm-up {init}, any timestep 0..{t-2}, any dynamics result',
            samples=1))
  hs.append(Harness(
      'control_mask', lambda md: {k: datatypes.get_control_mask(md, obj(k)) for k in CONTROL_KINDS},
      (wm.metadata(n),),
      lambda i, o: [c(k, all_same(o[k], {'VALID': i[0].is_valid, 'SDC': i[0].is_sdc,
                                         'MODELED': i[0].is_modeled}[k])) for k in CONTROL_KINDS],
      functions=['get_control_mask'], bounds=f'{n} objects', samples=1))
  return hs
