"""C30: a batch of scenarios behaves like the scenarios one by one."""
from checks.common import *
from waymax.agents import constant_speed, expert
from waymax.datatypes import observation as O
from waymax.datatypes import roadgraph as RG
from waymax import rewards as RW
from waymax.metrics import metric_factory

B = 2


def entry(x, b):
  """Entry b of a batched structure."""
  return jax.tree_util.tree_map(lambda v: v[b] if v.ndim else v, x)   # a common timestep has no batch axis


def same_entry(whole, one, b):
  ls, ts = jax.tree_util.tree_flatten(whole)
  l1, t1 = jax.tree_util.tree_flatten(one)
  if ts != t1:
    return False
  r = []
  for x, y in zip(ls, l1):
    x, y = np.asarray(x, dtype=object), np.asarray(y, dtype=object)
    # a value common to all entries may be kept once
    x = np.asarray(x[b], dtype=object) if x.ndim == y.ndim + (len(b) if isinstance(b, tuple) else 1) else x
    if x.shape != y.shape:
      return False
    r += [T.same(p, q) for p, q in zip(x.reshape(-1), y.reshape(-1))]
  return T.and_(r)


def pairwise(name, f, args, functions, bounds, prep=None, lead=(B,), **kw):
  """f on the batch against f on every entry."""
  at = [ix if len(lead) > 1 else ix[0] for ix in np.ndindex(*lead)]

  def fn(*a):
    return f(*a), [f(*[entry(x, b) for x in a]) for b in at]

  def claims(i, o):
    return [c(f'entry {b}', same_entry(o[0], o[1][k], b)) for k, b in enumerate(at)]

  kw.setdefault('samples', 1)
  return Harness(name, fn, args, claims, functions=functions, bounds=f'batch of {"x".join(map(str, lead))}, {bounds}', **kw)


METRICS = ('log_divergence', 'overlap', 'offroad', 'sdc_wrongway', 'sdc_off_route', 'sdc_progression', 'kinematic_infeasibility')


def harnesses(tier):
  hs = collect('', (B,), tier)
  hs += collect('nested_', (1, 2), tier)
  if tier == 'thorough':
    hs += collect('nested2_', (2, 2), tier) + collect('nested3_', (2, 1, 1), tier)
  return hs


def collect(prefix, lead, tier):
  hs = []
  def pairwise_(name, *a, **kw):
    return pairwise(prefix + name, *a, lead=lead, **kw)
  st = lambda n=2, t=3, **kw: wm.state(n, t, p=3, tl=1, k=1, pl=3, batch=lead, tmin=1, **kw)
  sdc = lambda i: [one_sdc(jax.tree_util.tree_map(lambda v: v[b], i[0].object_metadata)) for b in np.ndindex(*lead)]

  common = lambda s, hi: s.replace(timestep=V((), 'i', 1 if hi > 1 else 0, hi))
  for m in METRICS:
    def metric(s, m=m):
      return metric_factory.run_metrics(s, config.MetricsConfig(metrics_to_run=(m,)))
    hs.append(pairwise_(f'metric_{m}', metric, (st() if m != 'kinematic_infeasibility' else common(st(), 2),), ['run_metrics', m], '2 objects, 3 steps, any time', assume=sdc, prune=False))

  def reward(s, a):
    cfg = config.LinearCombinationRewardConfig(rewards={'log_divergence': -1.0, 'overlap': -2.0})
    return RW.LinearCombinationReward(cfg).compute(s, a, s.object_metadata.is_valid)
  hs.append(pairwise_('reward', reward, (st(), action(2, 5, batch=lead)), ['LinearCombinationReward.compute'], '2 objects', assume=sdc))

  from checks.common import dynamics as D
  models = {'delta_local': (D.DeltaLocal(), 3), 'delta_global': (D.DeltaGlobal(), 3), 'state': (D.StateDynamics(), 5),
            'bicycle': (D.InvertibleBicycleModel(), 2), 'bicycle_norm': (D.InvertibleBicycleModel(normalize_actions=True), 2)}
  for nm, (dm, dim) in models.items():
    def fwd(a, s, dm=dm):
      return dm.forward(a, s.sim_trajectory, s.log_trajectory, s.object_metadata.is_controlled, s.timestep)
    hs.append(pairwise_(f'forward_{nm}', fwd, (action(2, dim, lim=1 if nm.startswith('bicycle_n') else 5, batch=lead), wm.state(2, 4, p=1, batch=lead, tmax=2)),
                       [f'{type(dm).__name__}.forward'], '2 objects, 4 steps, any time'))
    def inv(s, dm=dm):
      return dm.inverse(s.log_trajectory, s.object_metadata, s.timestep)
    hs.append(pairwise_(f'inverse_{nm}', inv, (common(wm.state(2, 3, p=1, batch=lead), 1),), [f'{type(dm).__name__}.inverse'],
                       '2 objects, 3 steps, any common time'))

  hs.append(pairwise_('update_by_log', lambda s: datatypes.update_state_by_log(s, 2), (wm.state(2, 4, p=1, batch=lead, tmax=1),), ['update_state_by_log'], '2 objects, 4 steps'))
  hs.append(pairwise_('current', lambda s: (s.current_sim_trajectory, s.current_log_trajectory, s.is_done, s.remaining_timesteps), (st(),),
                     ['SimulatorState.current_sim_trajectory', 'SimulatorState.is_done'], '2 objects, 3 steps'))

  for nm, fr in (('object', config.CoordinateFrame.OBJECT), ('sdc', config.CoordinateFrame.SDC), ('global', config.CoordinateFrame.GLOBAL)):
    hs.append(pairwise_(f'observe_{nm}', lambda s, fr=fr: O.observation_from_state(s, obs_num_steps=2, roadgraph_top_k=3, coordinate_frame=fr),
                       (st(),), ['observation_from_state'], '2 objects, 3 steps', assume=sdc))
  hs.append(pairwise_('observe_car', lambda s: O.sdc_observation_from_state(s, obs_num_steps=2, roadgraph_top_k=3), (st(),), ['sdc_observation_from_state'],
                     '2 objects, 3 steps', assume=sdc))
  hs.append(pairwise_('nearest_points', lambda rg, p: RG.filter_topk_roadgraph_points(rg, p, 1), (wm.roadgraph(2, batch=lead), V(lead + (2,), 'f', -100, 100)),
                     ['filter_topk_roadgraph_points'], '2 map points'))

  # environments: a step from any time, and the warm-up
  def base(n, kind):
    cfg = env_cfg(n, init_steps=2, controlled_object=kind, metrics=config.MetricsConfig(metrics_to_run=('log_divergence',)),
                  rewards=config.LinearCombinationRewardConfig(rewards={'log_divergence': -1.0}))
    return env.BaseEnvironment(ArbitraryDynamics(), cfg)
  for kind in ('SDC', 'VALID', 'MODELED'):
    def step(s, a, kind=kind):
      e = base(2, obj(kind))
      return e.step(s, a), e.reward(s, a), e.metrics(s), e.termination(s), e.truncation(s)
    hs.append(pairwise_(f'step_{kind.lower()}', step, (wm.state(2, 4, p=1, batch=lead, tmax=2), action(2, 5, batch=lead)),
                       ['BaseEnvironment.step', 'BaseEnvironment.reward', 'BaseEnvironment.metrics'], '2 objects, 4 steps, any time', assume=sdc))
    hs.append(pairwise_(f'reset_{kind.lower()}', lambda s, kind=kind: base(2, obj(kind)).reset(s), (wm.state(2, 4, p=1, batch=lead),),
                       ['BaseEnvironment.reset'], '2 objects, 4 steps', assume=sdc))

  def plan(s, a):
    cfg = env_cfg(2, init_steps=2, controlled_object=config.ObjectType.SDC, metrics=config.MetricsConfig(metrics_to_run=('log_divergence',)),
                  rewards=config.LinearCombinationRewardConfig(rewards={'log_divergence': -1.0}))
    e = env.PlanningAgentEnvironment(ArbitraryDynamics(), cfg)
    r = e.reset(s)
    nxt = e.step(r, a)
    return r, nxt, e.reward(r, a), e.metrics(r), e.observe(nxt)
  hs.append(pairwise_('planning', plan, (wm.state(2, 4, p=1, batch=lead), datatypes.Action(data=V(lead + (5,), 'f', -50, 50), valid=V(lead + (1,), 'b'))),
                     ['PlanningAgentEnvironment.reset', 'PlanningAgentEnvironment.step', 'PlanningAgentEnvironment.reward'], '2 objects, 4 steps', assume=sdc))

  # agents
  def const(s):
    a = constant_speed.create_constant_speed_actor(dynamics.StateDynamics(), lambda x: x.object_metadata.is_modeled, speed=3.0)
    o = a.select_action({}, s, None, None)
    return o.action, o.is_controlled
  hs.append(pairwise_('agent_constant_speed', const, (wm.state(2, 3, p=1, batch=lead, tmax=1),), ['create_constant_speed_actor'], '2 objects, 3 steps'))

  def idm(s):
    a = agents.IDMRoutePolicy(is_controlled_func=lambda x: ~x.object_metadata.is_sdc)
    o = a.select_action({}, s, None, None)
    return o.action, o.is_controlled
  hs.append(pairwise_('agent_idm', idm, (common(wm.state(2, 3, p=1, batch=lead), 1),), ['IDMRoutePolicy.select_action'], '2 objects, 3 steps, any common time', optional=True))

  def exp(s):
    a = expert.create_expert_actor(dynamics.StateDynamics(), lambda x: x.object_metadata.is_sdc)
    o = a.select_action({}, s, None, None)
    return o.action, o.is_controlled
  hs.append(pairwise_('agent_expert', exp, (wm.state(2, 3, p=1, batch=lead, tmax=1),), ['create_expert_actor'], '2 objects, 3 steps'))
  return hs
