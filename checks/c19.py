"""C19: planning-agent environment."""
from checks.c12 import clear, deep
from checks.common import *
from svx.stubs import ArbitraryActor
from waymax.env import planning_agent_environment as P
from waymax.metrics import comfort

BOX = ('x', 'y', 'length', 'width', 'yaw')
HEAD = (0.0, 0.5, -0.7)


def fixed_start(st, n, t):
  """Fixed logged headings (so that box overlap at the start is decidable); all else free."""
  yaw = jnp.asarray(np.asarray([[HEAD[j % 3] + 0.1 * k for k in range(t)] for j in range(n)], np.float32))
  return st.replace(log_trajectory=st.log_trajectory.replace(yaw=yaw))


def apart_state(st, n):
  """Fixed, well separated logged start boxes."""
  lt = st.log_trajectory
  return st.replace(log_trajectory=lt)


def harnesses(tier):
  hs = []
  t = 3

  def make(n, masks, params, allow=False, init=1):
    return env.PlanningAgentEnvironment(
        ArbitraryDynamics(), env_cfg(n, init_steps=init, controlled_object=obj('SDC'), allow_new_objects_after_warmup=allow),
        sim_agent_actors=[ArbitraryActor(f'a{k}') for k in range(len(params))], sim_agent_params=params)

  def act():
    return datatypes.Action(data=V((5,), 'f', -100, 100), valid=V((1,), 'b'))

  for n, m in ((2, 0), (3, 0), (2, 1), (2, 2)) + (((3, 2), (3, 1)) if tier != 'quick' else ()):
    st = fixed_start(planning_state(wm.state(n, t, tmax=t - 2, lim=20, dims=(F(1, 2), 10)), m), n, t)

    def run(st, a, params, n=n, m=m):
      return make(n, None, params).step(st, a)

    def assume(i, n=n, m=m):
      st, a, params = i
      md = st.object_metadata
      out = [one_sdc(md)]
      out += [T.implies(p['mask'][j], T.not_(md.is_sdc[j])) for p in params for j in range(n)]
      out += [T.not_(T.and_(p['mask'][j], q['mask'][j])) for x, p in enumerate(params) for q in params[:x] for j in range(n)]
      return out

    def claims(i, o, n=n, m=m):
      st, a, params = i
      md, ts = st.object_metadata, scal(st.timestep)
      nxt = T.add(ts, 1)
      sim, log = st.sim_trajectory, st.log_trajectory
      b = [[getattr(log, f)[j, 0] for f in BOX] for j in range(n)]
      plan, drive, free, rest = [], [], [], []
      for j in range(n):
        new = [at(getattr(o.sim_trajectory, f)[j], nxt) for f in FIELD_OF]
        logged = T.and_([T.same(new[q], at(getattr(log, f)[j], nxt)) for q, f in enumerate(FIELD_OF)])
        cur = at(sim.valid[j], ts)
        plan.append(T.implies(T.and_(md.is_sdc[j], cur), T.and_([T.same(new[q], a.data[q]) for q in range(5)])))
        hit = T.or_([T.and_(log.valid[j, 0], log.valid[k, 0], deep(b[j], b[k])) for k in range(n) if k != j])
        apart = T.and_([clear(b[j], b[k]) for k in range(n) if k != j])
        nobody = T.and_([T.not_(p['mask'][j]) for p in params])
        rest.append(T.implies(T.and_(T.not_(md.is_sdc[j]), T.or_(nobody, hit)), logged))
        for p in params:
          drive.append(T.implies(T.and_(p['mask'][j], apart, cur),
                                 T.and_([T.same(new[q], p['data'][j, q]) for q in range(5)])))
      out = [c('the planner drives the self-driving car', T.and_(plan)),
             c('everything else follows the log', T.and_(rest)),
             c('timestep advances by one', T.eqv(scal(o.timestep), nxt)),
             c('actor states advance', T.and_([T.eqv(scal(o.sim_agent_actor_states[k]), T.add(scal(st.sim_agent_actor_states[k]), 1))
                                               for k in range(m)] + [len(o.sim_agent_actor_states) == m]))]
      if m:
        out.append(c('simulated agents drive their objects', T.and_(drive)))
      return out

    hs.append(Harness(f'step_n{n}_agents{m}', run, (st, act(), [agent_params(n) for _ in range(m)]), claims, assume=assume,
                      functions=['PlanningAgentEnvironment.step', '_initialized_overlap'],
                      bounds=f'{n} objects, {t} steps, any timestep, {m} arbitrary simulated agents, fixed logged headings',
                      samples=1))

  # the planner's own dynamics wrapper
  n = 2
  dyns = {'state': (dynamics.StateDynamics, 5), 'delta': (dynamics.DeltaLocal, 3),
          'bicycle': (dynamics.InvertibleBicycleModel, 2)}
  for nm, (cls, dim) in dyns.items():
    def upd(a, tr, cls=cls):
      tile = datatypes.Action(data=jnp.stack([a.data] * n), valid=jnp.stack([a.valid] * n))
      return P.PlanningAgentDynamics(cls()).compute_update(a, tr), cls().compute_update(tile, tr)

    hs.append(Harness(f'wrapper_update_{nm}', upd, (datatypes.Action(data=V((dim,), 'f', -2, 2), valid=V((1,), 'b')), wm.traj(n, 1)),
                      lambda i, o: [c('same action for every object', tree_same(o[0], o[1]))],
                      functions=['PlanningAgentDynamics.compute_update'], bounds=f'{n} objects'))

    def inv(tr, md, cls=cls):
      a = P.PlanningAgentDynamics(cls()).inverse(tr, md, 0)
      b = cls().inverse(tr, md, 0)
      return a.data, a.valid, b.data, b.valid

    def ic(i, o):
      md = i[1]
      return [c('inverse of the self-driving car', T.and_([T.implies(md.is_sdc[j], T.and_(
          all_close(o[0], o[2][j]), all_same(o[1], o[3][j]))) for j in range(n)]))]

    hs.append(Harness(f'wrapper_inverse_{nm}', inv, (wm.traj(n, 2), wm.metadata(n)), ic, assume=lambda i: [one_sdc(i[1])],
                      functions=['PlanningAgentDynamics.inverse'], bounds=f'{n} objects, 2 steps', samples=1))
    for allow in (True, False):
      def fwd(a, tr, lg, ctrl, cls=cls, allow=allow):
        tile = datatypes.Action(data=jnp.stack([a.data] * n), valid=jnp.stack([a.valid] * n))
        return (P.PlanningAgentDynamics(cls()).forward(a, tr, lg, ctrl, 0, allow),
                cls().forward(tile, tr, lg, ctrl, 0, allow))

      hs.append(Harness(f'wrapper_forward_{nm}_{allow}', fwd, (
          datatypes.Action(data=V((dim,), 'f', -2, 2), valid=V((1,), 'b')), wm.traj(n, 2), wm.traj(n, 2), V((n,), 'b')),
                        lambda i, o: [c('forward as the wrapped dynamics', tree_same(o[0], o[1]))],
                        functions=['PlanningAgentDynamics.forward'], bounds=f'{n} objects, 2 steps, allow={allow}', samples=1))

  # metrics and observation concern the self-driving car
  yaw = jnp.asarray(np.linspace(-1, 1, 6).reshape(2, 3), jnp.float32)
  names = ('log_divergence', 'overlap', 'kinematic_infeasibility')
  base = wm.state(2, 3, tmin=1, p=1, dims=(F(1, 2), 10))
  base = base.replace(sim_trajectory=base.sim_trajectory.replace(yaw=yaw))
  for init in (1, 2):
    for k in (1, 2):
      full = base.replace(timestep=jnp.int32(k))

      def met(st, init=init):
        e = env.PlanningAgentEnvironment(dynamics.StateDynamics(), env_cfg(
            2, init_steps=init, controlled_object=obj('SDC'), metrics=config.MetricsConfig(metrics_to_run=names)))
        a = e.metrics(st)
        b = metrics.run_metrics(st, config.MetricsConfig(metrics_to_run=names))
        return {q: (a[q].value, a[q].valid) for q in a}, {q: (b[q].value, b[q].valid) for q in b}

      def mc(i, o, init=init, k=k):
        md = i[0].object_metadata
        a, b = o
        out = [c('the configured metrics', set(a) == set(names))]
        for q in names[:2]:
          out.append(c(f'{q} of the car', T.and_([T.implies(md.is_sdc[j], T.and_(
              T.close(scal(a[q][0]), b[q][0][j]), T.iff(scal(a[q][1]), b[q][1][j]))) for j in range(2)])))
        q = names[2]
        if k > init - 1:
          out.append(c('kinematics of the car', T.and_([T.implies(md.is_sdc[j], T.and_(
              T.close(scal(a[q][0]), b[q][0][j]), T.iff(scal(a[q][1]), b[q][1][j]))) for j in range(2)])))
        else:
          out.append(c('kinematics silent during warm-up', T.and_(T.eqv(scal(a[q][0]), F(0)), T.not_(scal(a[q][1])))))
        return out

      hs.append(Harness(f'metrics_init{init}_t{k}', met, (planning_state(full),), mc,
                        assume=lambda i: [one_sdc(i[0].object_metadata)], functions=['PlanningAgentEnvironment.metrics'],
                        bounds=f'2 objects, 3 steps, timestep {k}, warm-up {init}', samples=1))

  # a kinematics metric during the first warm-up steps
  def kim(st):
    e = env.PlanningAgentEnvironment(dynamics.StateDynamics(), env_cfg(
        2, init_steps=3, controlled_object=obj('SDC'), metrics=config.MetricsConfig(metrics_to_run=names[2:])))
    m = e.metrics(st)[names[2]]
    return m.value, m.valid

  hs.append(Harness('kinematics_warmup', kim, (planning_state(wm.state(2, 4, tmin=1, tmax=2)),),
                    lambda i, o: [c('silent during warm-up', T.and_(T.eqv(scal(o[0]), F(0)), T.not_(scal(o[1]))))],
                    assume=lambda i: [one_sdc(i[0].object_metadata)], functions=['PlanningAgentEnvironment.metrics'],
                    bounds='2 objects, timestep 1..2, warm-up 3', samples=1))

  # simulated agents get a state each at reset
  def rst(st):
    e = make(2, None, [None, None], init=2)
    o = e.reset(st)
    return o.sim_agent_actor_states, o.timestep, e.observe(o)

  def rc(i, o):
    return [c('one actor state per agent', len(o[0]) == 2), c('observation is the state', T.eqv(scal(o[2].timestep), scal(o[1])))]

  hs.append(Harness('reset_agents', rst, (wm.state(2, 4, tmin=-1),), rc, functions=['PlanningAgentEnvironment.reset'],
                    bounds='2 objects, 2 agents', samples=1))
  return hs
