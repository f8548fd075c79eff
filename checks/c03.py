"""C03: validity transitions."""
from checks.common import *


def harnesses(tier):
  n, t = (2, 4) if tier == 'quick' else (3, 7)
  hs = []
  for kind in CONTROL_KINDS:
    for allow in (False, True):
      for init in ((2,) if tier == 'quick' else (1, 2, 3)):
        e = env.BaseEnvironment(ArbitraryDynamics(), env_cfg(
            n, init_steps=init, controlled_object=obj(kind), allow_new_objects_after_warmup=allow))

        def claims(i, nx, kind=kind, allow=allow, init=init):
          st, act = i
          ts = scal(st.timestep)
          ctrl = control_mask(st, kind, allow, init)
          keep, gate = [], []
          for j in range(n):
            cur = at(st.sim_trajectory.valid[j], ts)
            log = at(st.log_trajectory.valid[j], T.add(ts, 1))
            new = at(nx.sim_trajectory.valid[j], T.add(ts, 1))
            ec = T.and_(ctrl[j], cur)
            keep.append(T.implies(ec, new))
            want = log if allow else T.and_(cur, log)
            gate.append(T.implies(T.not_(ec), T.iff(new, want)))
          return [c('controlled valid objects stay valid', T.and_(keep),
                    reach=T.and_(ctrl[0], at(st.sim_trajectory.valid[0], ts))),
                  c('other objects follow the log validity', T.and_(gate), reach=T.not_(ctrl[0]))]

        hs.append(Harness(
            f'step_{kind}_{"inject" if allow else "noinject"}_init{init}', lambda s, a, e=e: e.step(s, a),
            (wm.state(n, t, tmax=t - 2), action(n, 5)), claims,
            functions=['BaseEnvironment.step', 'DynamicsModel.forward', 'apply_trajectory_update_to_state'],
            bounds=f'{n} objects, {t} steps, warm-up {init}, any timestep 0..{t-2}', samples=1))

  # several steps in a row: no flicker without injection
  steps = 2 if tier == 'quick' else 4
  t2 = steps + 2
  e = env.BaseEnvironment(ArbitraryDynamics(), env_cfg(
      n, controlled_object=obj('VALID'), allow_new_objects_after_warmup=False))

  def multi(s, acts):
    for a in acts:
      s = e.step(s, a)
    return s

  def mclaims(i, o):
    st = i[0]
    v = o.sim_trajectory.valid
    ctrl = control_mask(st, 'VALID', False, 2)
    return [c('controlled objects valid throughout', T.and_([
        T.implies(T.and_(ctrl[j]), T.and_([v[j, k] for k in range(1, steps + 2)])) for j in range(n)])),
            c('no object appears', T.and_([
                T.implies(T.not_(v[j, k]), T.not_(v[j, k + 1])) for j in range(n) for k in range(1, steps + 1)]))]

  hs.append(Harness(
      'history_noinject', multi,
      (wm.state(n, t2, timestep=1), [action(n, 5) for _ in range(steps)]), mclaims,
      functions=['BaseEnvironment.step (iterated)'], bounds=f'{n} objects, {steps} consecutive steps', samples=1))

  # the planning environment (no simulated agents)
  for allow in (False, True):
    cfg = env_cfg(n, controlled_object=obj('SDC'), allow_new_objects_after_warmup=allow)
    pe = env.PlanningAgentEnvironment(ArbitraryDynamics(), cfg)

    def pclaims(i, nx, allow=allow):
      st = i[0]
      ts = scal(st.timestep)
      keep, gate = [], []
      for j in range(n):
        cur = at(st.sim_trajectory.valid[j], ts)
        log = at(st.log_trajectory.valid[j], T.add(ts, 1))
        new = at(nx.sim_trajectory.valid[j], T.add(ts, 1))
        ec = T.and_(st.object_metadata.is_sdc[j], cur)
        keep.append(T.implies(ec, new))
        gate.append(T.implies(T.not_(ec), T.iff(new, log if allow else T.and_(cur, log))))
      return [c('planner stays valid', T.and_(keep)), c('others follow the log validity', T.and_(gate))]

    hs.append(Harness(
        f'planning_{"inject" if allow else "noinject"}', lambda s, a, pe=pe: pe.step(s, a),
        (planning_state(wm.state(n, t, tmax=t - 2)), datatypes.Action(data=V((5,)), valid=V((1,), 'b'))),
        pclaims, functions=['PlanningAgentEnvironment.step'], bounds=f'{n} objects, {t} steps', samples=1))
  return hs
