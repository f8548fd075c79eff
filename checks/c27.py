"""C27: environment wrappers report the same episode as the wrapped environment."""
import dm_env

from checks.c26 import p1, p2, tables
from checks.common import *
from svx import stubs
from svx.paths import Forked
from waymax.env.wrappers import brax_wrapper, dm_env_wrapper


class Feed:
  """Scenario source that remembers which scenario it handed out last."""

  def __init__(self, scenarios):
    self.all, self.at = list(scenarios), -1

  def __iter__(self):
    return self

  def __next__(self):
    self.at += 1
    if self.at >= len(self.all):
      raise StopIteration
    return self.all[self.at]


def spec_step(s):
  """Drives a wrapper through operations, logging what it answered."""


def drive(log, dm, feed, ops, acts, see=lambda o: o):
  outs = []
  for k in range(len(ops)):
    if ops[k]:
      try:
        ts = dm.reset()
        log.append(('R', int(ts.step_type), feed.at, ts.reward is None, ts.discount is None))
        outs.append({'obs': see(ts.observation), 'sim': see(dm.simulation_state)})
      except RuntimeError as e:
        log.append(('R', type(e).__name__, feed.at))
        outs.append({})
    else:
      try:
        ts = dm.step(acts[k])
        log.append(('S', int(ts.step_type), feed.at))
        outs.append({'obs': see(ts.observation), 'reward': jnp.asarray(ts.reward), 'discount': jnp.asarray(ts.discount, jnp.float32),
                     'sim': see(dm.simulation_state)})
      except RuntimeError as e:
        log.append(('S', type(e).__name__, feed.at))
        outs.append({})
  return outs


FIRST, MID, LAST = int(dm_env.StepType.FIRST), int(dm_env.StepType.MID), int(dm_env.StepType.LAST)


def harnesses(tier):
  hs = []
  big = tier == 'thorough'

  # any history of resets and steps on any finite environment
  for S, A, K in [(2, 2, 3), (3, 2, 4)] + ([(3, 2, 5)] if big else []):
    for squeeze in (True, False):
      if not squeeze and K > 3:
        continue
      def fn(log, tab, scen, ops, acts, squeeze=squeeze, K=K):
        feed = Feed([stubs.TableState(s=scen[k], hops=scen[k] + 3) for k in range(K + 2)])
        dm = dm_env_wrapper.DMEnvWrapper(feed, stubs.TableEnv(tab), squeeze)
        return drive(log, dm, feed, [bool(ops[k]) for k in range(K)], [acts[k] if squeeze else acts[k][None] for k in range(K)])

      def claims(i, o, log):
        tab, scen, ops, acts = i
        cs, s, hops, done, last = [], None, 0, False, -1
        hist = ''
        for k, ev in enumerate(log):
          hist += ev[0]
          cl = lambda nm, p: cs.append(c(f'{hist}: {nm}', p))
          if ev[0] == 'R':
            if ev[1] != FIRST:
              cl('reset starts an episode', False)
              break
            cl('a fresh scenario', ev[2] > last)
            last = ev[2]
            s, hops, done = p1(tab['reset'], scen[ev[2]]), 0, False
            cl('no reward or discount on the first step', ev[3] and ev[4])
          elif s is None:
            cl('stepping before a reset is refused', ev[1] == 'SimulationNotInitializedError')
            continue
          elif done:
            cl('stepping after the end is refused', ev[1] == 'EpisodeAlreadyFinishedError')
            continue
          else:
            if ev[1] not in (MID, LAST):
              cl('a step is accepted', False)
              break
            a = scal(acts[k])
            rew = p2(tab['reward'], s, a)
            s, hops = p2(tab['step'], s, a), hops + 1
            term, trunc = p1(tab['term'], s), p1(tab['trunc'], s)
            cl('last exactly at the end', T.iff(T.or_(term, trunc), ev[1] == LAST))
            cl('reward', T.same(scal(o[k]['reward']), rew))
            cl('discount', T.eqv(scal(o[k]['discount']), T.ite(term, F(0), F(1))))
            done = ev[1] == LAST
          cl('observation', T.and_(T.same(scal(o[k]['obs'].o), p1(tab['obs'], s)), T.eqv(scal(o[k]['obs'].h), hops)))
          cl('state', T.and_(T.eqv(scal(o[k]['sim'].s), s), T.eqv(scal(o[k]['sim'].hops), hops)))
        return cs

      hs.append(Forked(f'dm_{S}s{A}a_{K}{"" if squeeze else "_raw"}', fn,
                       (tables(S, A), V((K + 2,), 'i', 0, S - 1), V((K,), 'b'), V((K,), 'i', 0, A - 1)), claims, samples=1,
                       functions=['DMEnvWrapper.reset', 'DMEnvWrapper.step', 'DMEnvWrapper.simulation_state'],
                       bounds=f'every environment with {S} states and {A} actions, every history of {K} resets and steps'))

  # the single-agent simulator behind the dm_env interface
  def real(log, s0, s1, ops, acts):
    feed = Feed([s0, s0, s1, s1])
    cfg = env_cfg(2, init_steps=1, controlled_object=config.ObjectType.SDC, metrics=config.MetricsConfig(metrics_to_run=('log_divergence',)),
                  rewards=config.LinearCombinationRewardConfig(rewards={'log_divergence': -1.0}))
    e = env.PlanningAgentEnvironment(ArbitraryDynamics(), cfg)
    dm = dm_env_wrapper.DMEnvWrapper(feed, e)
    outs = drive(log, dm, feed, [bool(ops[k]) for k in range(2)], [acts[k] for k in range(2)])
    # the same history on the wrapped environment
    want, st = [], None
    for k, ev in enumerate(log):
      if ev[0] == 'R':
        st = e.reset(feed.all[ev[2]])
        want.append({'obs': e.observe(st), 'sim': st})
      elif ev[1] in (MID, LAST):
        a = datatypes.Action(data=acts[k], valid=jnp.ones((1,), bool))
        r = e.reward(st, a)
        st = e.step(st, a)
        want.append({'obs': e.observe(st), 'sim': st, 'reward': r, 'term': e.termination(st), 'trunc': e.truncation(st)})
      else:
        want.append({})
    return outs, want

  def rclaims(i, o, log):
    outs, want = o
    cs, hist, begun, over = [], '', False, False
    for k, ev in enumerate(log):
      hist += ev[0]
      a, b = outs[k], want[k]
      if ev[0] == 'S' and (not begun or over):
        cs.append(c(f'{hist}: refused', ev[1] == ('EpisodeAlreadyFinishedError' if begun else 'SimulationNotInitializedError')))
        continue
      if not a:
        cs.append(c(f'{hist}: accepted', False))
        break
      cs.append(c(f'{hist}: observation', tree_same(a['obs'], b['obs'])))
      cs.append(c(f'{hist}: state', tree_same(a['sim'], b['sim'])))
      if ev[0] == 'R':
        begun, over = True, False
      else:
        over = ev[1] == LAST
        cs.append(c(f'{hist}: reward', T.same(scal(a['reward']), scal(b['reward']))))
        cs.append(c(f'{hist}: last exactly at the end', T.iff(T.or_(scal(b['term']), scal(b['trunc'])), over)))
        cs.append(c(f'{hist}: discount', T.eqv(scal(a['discount']), T.ite(scal(b['term']), F(0), F(1)))))
    return cs

  hs.append(Forked('dm_planning', real, (wm.state(2, 3, p=1, timestep=0), wm.state(2, 3, p=1, timestep=0), V((2,), 'b'), V((2, 5), 'f', -50, 50)),
                   rclaims, assume=lambda i: [one_sdc(i[0].object_metadata), one_sdc(i[1].object_metadata)], samples=1,
                   functions=['DMEnvWrapper.step', 'PlanningAgentEnvironment.step', 'PlanningAgentEnvironment.reset'],
                   bounds='2 objects, 3 recorded steps, every history of 2 resets and steps'))

  # the ready-made single-agent environment drives the configured simulated agents as well
  for kind in (None, 'idm'):
    def made(log, s, a, kind=kind):
      agents_cfg = None if kind is None else [config.SimAgentConfig(agent_type=config.SimAgentType.IDM, controlled_objects=config.ObjectType.NON_SDC)]
      cfg = env_cfg(2, init_steps=1, controlled_object=config.ObjectType.SDC, sim_agents=agents_cfg,
                    metrics=config.MetricsConfig(metrics_to_run=('log_divergence',)),
                    rewards=config.LinearCombinationRewardConfig(rewards={'log_divergence': -1.0}))
      old = dm_env_wrapper.dataloader.simulator_state_generator
      dm_env_wrapper.dataloader.simulator_state_generator = lambda config: iter([s, s])
      try:
        dm = dm_env_wrapper.make_sdc_dm_environment(ArbitraryDynamics(), config.DatasetConfig(path='unused'), cfg)
      finally:
        dm_env_wrapper.dataloader.simulator_state_generator = old
      actors = [agents.IDMRoutePolicy(lambda st: ~st.object_metadata.is_sdc) for _ in agents_cfg or []]
      e = env.PlanningAgentEnvironment(ArbitraryDynamics(), cfg, sim_agent_actors=actors, sim_agent_params=[{} for _ in actors])
      try:
        dm.reset()
      except RuntimeError as x:
        log.append(type(x).__name__)
        return ()
      st = e.reset(s)
      w = dm.stateless_env.step(dm.simulation_state, datatypes.Action(data=a, valid=jnp.ones((1,), bool)))
      return (dm.simulation_state, w), (st, e.step(st, datatypes.Action(data=a, valid=jnp.ones((1,), bool))))

    def mclaims(i, o):
      return [c(nm, tree_same(a, b)) for nm, a, b in zip(('reset', 'step'), *o)]

    hs.append(Forked(f'make_sdc_{kind or "alone"}', made, (wm.state(2, 3, p=1, timestep=0), V((5,), 'f', -50, 50)), lambda i, o, log: mclaims(i, o) if not log else [c('reset accepted', False)],
                     assume=lambda i: [one_sdc(i[0].object_metadata)], samples=1, validate=kind is None,
                     functions=['make_sdc_dm_environment'], bounds='2 objects, 3 recorded steps'))

  # simulated agents built from a configuration control the configured objects
  for nm in ('SDC', 'NON_SDC'):
    def built(s, nm=nm):
      mk = lambda f: agents.IDMRoutePolicy(f).select_action({}, s, None, None)
      cfg = config.SimAgentConfig(agent_type=config.SimAgentType.IDM, controlled_objects=getattr(config.ObjectType, nm))
      return (agents.create_sim_agents_from_config(cfg).select_action({}, s, None, None),
              mk(lambda st: st.object_metadata.is_sdc if nm == 'SDC' else jnp.logical_not(st.object_metadata.is_sdc)))

    hs.append(Harness(f'configured_agent_{nm}', built, (wm.state(2, 3, p=1, timestep=0),),
                      lambda i, o, nm=nm: [c('controls the configured objects', T.and_([T.iff(a, b if nm == 'SDC' else T.not_(b)) for a, b in zip(o[0].is_controlled, i[0].object_metadata.is_sdc)])),
                                           c('acts like the policy', tree_same(o[0].action, o[1].action))],
                      validate=False, functions=['create_sim_agents_from_config'], bounds='2 objects, 3 recorded steps'))

  # Brax interface
  for S, A, K, b in [(2, 2, 1, ()), (3, 2, 3, ()), (2, 2, 1, (2,))] + ([(3, 3, 4, ())] if big else []):
    def brax(tab, s0, acts, K=K):
      w = brax_wrapper.BraxWrapper(stubs.TableEnv(tab), None, None)
      ts = w.reset(stubs.TableState(s=s0, hops=s0 + 2))
      out = [ts]
      for k in range(K):
        ts = w.step(ts, datatypes.Action(data=acts[k], valid=jnp.ones_like(acts[k], dtype=bool)))
        out.append(ts)
      return [dict(state=t.state, obs=t.observation, reward=t.reward, done=t.done, discount=t.discount, metric=t.metrics['m']) for t in out]

    def bclaims(i, o, K=K, b=b):
      tab, s0, acts = i
      cs = []
      for ix in np.ndindex(*b):
        g = lambda x: np.asarray(x, dtype=object)[ix]
        nm = f'entry {ix[0]} ' if b else ''
        s = p1(tab['reset'], g(s0))
        for k in range(K + 1):
          t = o[k]
          if k:
            a = g(np.asarray(acts, dtype=object)[k - 1])[0]
            cs.append(c(f'{nm}step {k} reward', T.same(g(t['reward']), p2(tab['reward'], s, a))))
            cs.append(c(f'{nm}step {k} metrics', T.same(g(t['metric']), p1(tab['metric'], s))))
            s = p2(tab['step'], s, a)
            term, trunc = p1(tab['term'], s), p1(tab['trunc'], s)
            cs.append(c(f'{nm}step {k} end', T.and_(T.iff(g(t['done']), T.or_(term, trunc)), T.eqv(g(t['discount']), T.ite(term, F(0), F(1))))))
          else:
            cs.append(c(f'{nm}reset', T.and_(T.eqv(g(t['reward']), F(0)), T.eqv(g(t['discount']), F(1)),
                                              T.same(g(t['metric']), p1(tab['metric'], s)))))
          cs.append(c(f'{nm}step {k} state', T.and_(T.eqv(g(t['state'].s), s), T.eqv(g(t['state'].hops), k),
                                                    T.same(g(t['obs'].o), p1(tab['obs'], s)), T.eqv(g(t['obs'].h), k))))
      return cs

    hs.append(Harness(f'brax_{S}s{A}a_{K}{"_batch" if b else ""}', brax, (tables(S, A), V(b, 'i', 0, S - 1), V((K,) + b + (1,), 'i', 0, A - 1)), bclaims,
                      functions=['BraxWrapper.reset', 'BraxWrapper.step', 'BraxWrapper.observe', 'BraxWrapper.reward', 'BraxWrapper.termination',
                                 'BraxWrapper.truncation', 'BraxWrapper.metrics'],
                      bounds=f'every environment with {S} states and {A} actions, {K} steps'))

  # Brax interface over the simulator itself
  def braxreal(s, a):
    cfg = env_cfg(2, init_steps=1, metrics=config.MetricsConfig(metrics_to_run=('log_divergence',)),
                  rewards=config.LinearCombinationRewardConfig(rewards={'log_divergence': -1.0}))
    e = env.BaseEnvironment(ArbitraryDynamics(), cfg)
    w = brax_wrapper.BraxWrapper(e, ArbitraryDynamics(), cfg)
    t0 = w.reset(s)
    t1 = w.step(t0, a)
    st0 = e.reset(s)
    st1 = e.step(st0, a)
    return (t0.state, t1.state, t1.observation, t1.reward, t1.metrics, t1.done, t1.discount), (
        st0, st1, e.observe(st1), e.reward(st0, a), e.metrics(st0), jnp.logical_or(e.termination(st1), e.truncation(st1)),
        1.0 - e.termination(st1).astype(jnp.float32))

  hs.append(Harness('brax_real', braxreal, (wm.state(2, 3, p=1, timestep=0), action(2, 5)), lambda i, o: [
      c(nm, tree_same(a, b)) for nm, a, b in zip(('reset', 'state', 'observation', 'reward', 'metrics', 'end', 'discount'), *o)],
      assume=lambda i: [one_sdc(i[0].object_metadata)], functions=['BraxWrapper.step', 'BaseEnvironment.step'], bounds='2 objects, 3 recorded steps'))
  return hs
