"""C01: stepping changes exactly the column after the current time."""
from checks.common import *
from svx.stubs import ArbitraryActor


def frame_claims(st, nx, n, t):
  ts = scal(st.timestep)
  out = [c('timestep advances by one', T.eqv(scal(nx.timestep), T.add(ts, 1)))]
  for f in TF:
    a, b = getattr(st.sim_trajectory, f), getattr(nx.sim_trajectory, f)
    conds = []
    for i in range(n):
      for k in range(t):
        conds.append(T.or_(T.eqv(k, T.add(ts, 1)), T.same(a[i, k], b[i, k])))
    out.append(c(f'sim {f} outside the next column unchanged', T.and_(conds)))
  for part in ('log_trajectory', 'log_traffic_light', 'object_metadata', 'sdc_paths', 'roadgraph_points'):
    out.append(c(f'{part} unchanged', tree_same(getattr(st, part), getattr(nx, part))))
  return out


def harnesses(tier):
  n, t = (2, 4) if tier == 'quick' else (3, 6)
  hs = []
  for kind in CONTROL_KINDS:
    for allow in (False, True):
      e = env.BaseEnvironment(ArbitraryDynamics(), env_cfg(
          n, controlled_object=obj(kind), allow_new_objects_after_warmup=allow))
      hs.append(Harness(
          f'base_step_{kind}_{"inject" if allow else "noinject"}', lambda s, a, e=e: e.step(s, a),
          (wm.state(n, t, tmax=t - 2), action(n, 5)),
          lambda i, o: frame_claims(i[0], o, n, t),
          functions=['BaseEnvironment.step', 'DynamicsModel.forward', 'apply_trajectory_update_to_state'],
          bounds=f'{n} objects, {t} steps, any timestep 0..{t-2}, any action / dynamics result',
          samples=1))
  for m in (0, 1):
    for allow in (False, True):
      cfg = env_cfg(n, controlled_object=obj('SDC'), allow_new_objects_after_warmup=allow)

      def step(s, a, ps, cfg=cfg, m=m):
        e = env.PlanningAgentEnvironment(ArbitraryDynamics(), cfg, [ArbitraryActor()] * m, ps)
        return e.step(s, a)

      def claims(i, o, m=m):
        out = frame_claims(i[0], o, n, t)
        for k in range(m):
          out.append(c(f'actor state {k} is the one its actor returned', T.eqv(
              scal(o.sim_agent_actor_states[k]), T.add(scal(i[0].sim_agent_actor_states[k]), 1))))
        return out

      hs.append(Harness(
          f'planning_step_{m}agents_{"inject" if allow else "noinject"}', step,
          (planning_state(wm.state(n, t, tmax=t - 2), m),
           datatypes.Action(data=V((5,)), valid=V((1,), 'b')), [agent_params(n) for _ in range(m)]),
          claims,
          functions=['PlanningAgentEnvironment.step', 'PlanningAgentDynamics.compute_update',
                     'StateDynamics.compute_update'],
          bounds=f'{n} objects, {t} steps, {m} simulated agents with arbitrary decisions', samples=1))
  return hs
