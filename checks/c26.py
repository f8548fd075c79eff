"""C26: a rollout is the iterated environment step."""
from checks.common import *
from svx import stubs
from waymax.agents import actor_core, expert
import importlib

R = importlib.import_module('waymax.env.rollout')


def tables(s, a):
  return {'reset': V((s,), 'i', 0, s - 1), 'step': V((s, a), 'i', 0, s - 1), 'obs': V((s,), 'f', -10, 10),
          'reward': V((s, a), 'f', -10, 10), 'metric': V((s,), 'f', -10, 10), 'term': V((s,), 'b'), 'trunc': V((s,), 'b')}


def actor_tables(s, m, a):
  return {'act': V((s, m), 'i', 0, a - 1), 'mem': V((s, m), 'i', 0, m - 1)}


def p2(tab, i, j):
  return T.pick([T.pick(list(r), j) for r in tab], i)


def p1(tab, i):
  return T.pick(list(tab), i)


def machine(i, steps):
  """The prescribed episode: states, actions, actor memories."""
  tab, act, first, s0 = i
  s = p1(tab['reset'], scal(s0))
  m = p1(first, s)
  out = []
  for _ in range(steps):
    a = p2(act['act'], s, m)
    out.append((s, a, m))
    s, m = p2(tab['step'], s, a), p2(act['mem'], s, m)
  out.append((s, 0, m))
  return out


def harnesses(tier):
  hs = []
  big = tier == 'thorough'
  for s, a, m, steps in [(2, 2, 2, 1), (2, 2, 2, 2), (3, 2, 2, 3), (2, 1, 1, 5)] + ([(3, 3, 2, 4), (2, 2, 2, 6)] if big else []):
    def fn(tab, act, first, s0, steps=steps):
      return R.rollout(stubs.TableState(s=s0, hops=s0 + 5), stubs.TableActor(first), stubs.TableEnv(tab), jax.random.PRNGKey(3),
                       rollout_num_steps=steps, actor_params=act)

    def claims(i, o, steps=steps):
      tab = i[0]
      spec = machine(i, steps)
      n = steps + 1
      if o.state.s.shape != (n,) or o.action.data.shape != (n, 1) or o.reward.shape != (n,):
        return [c('number of steps', False)]
      cs = [c('number of steps', T.and_([o.metrics['m'].shape == (n,), o.observation.o.shape == (n,)])),
            c('states', T.and_([T.and_(T.eqv(o.state.s[k], spec[k][0]), T.eqv(o.state.hops[k], k)) for k in range(n)])),
            c('actions', T.and_([T.and_(T.eqv(o.action.data[k, 0], spec[k][1]), o.action.valid[k, 0]) for k in range(steps)])),
            c('no final action', T.and_(T.eqv(o.action.data[steps, 0], 0), T.not_(o.action.valid[steps, 0]))),
            c('observations', T.and_([T.and_(T.same(o.observation.o[k], p1(tab['obs'], spec[k][0])), T.eqv(o.observation.h[k], k)) for k in range(n)])),
            c('metrics', T.and_([T.same(o.metrics['m'][k], p1(tab['metric'], spec[k][0])) for k in range(n)])),
            c('rewards', T.and_([T.same(o.reward[k], p2(tab['reward'], spec[k][0], spec[k][1])) for k in range(n)]))]
      return cs

    hs.append(Harness(f'machine_{s}s{a}a{m}m_{steps}', fn, (tables(s, a), actor_tables(s, m, a), V((s,), 'i', 0, m - 1), V((), 'i', 0, s - 1)), claims,
                      functions=['rollout'], bounds=f'every environment with {s} states and {a} actions, every actor with {m} memories, {steps} steps'))

  # random keys: the actor draws a number at every call
  class Drawing(stubs.TableActor):
    def init(self, rng, state):
      return jax.random.randint(rng, (), 0, 2**30)

    def select_action(self, params, state, actor_state, rng):
      d = jnp.stack([jax.random.randint(rng, (), 0, 2**30), actor_state])
      return actor_core.WaymaxActorOutput(actor_state=actor_state, action=datatypes.Action(data=d, valid=jnp.ones((1,), bool)), is_controlled=None)

  class Ignoring(stubs.TableEnv):
    def _a(self, action):
      return jnp.zeros((), jnp.int32)

  for seed in (0, 3, 11):
    def draws(tab, s0, seed=seed):
      return R.rollout(stubs.TableState(s=s0, hops=s0), Drawing(None), Ignoring(tab, (2,)), jax.random.PRNGKey(seed), rollout_num_steps=4, actor_params=None).action.data

    def dclaims(i, o):
      keys = [o[0, 1]] + [o[k, 0] for k in range(4)]
      return [c('a different key for every call of the actor', T.and_([T.not_(T.eqv(a, b)) for n, a in enumerate(keys) for b in keys[:n]]))]
    hs.append(Harness(f'fresh_keys_{seed}', draws, (tables(2, 1), V((), 'i', 0, 1)), dclaims, functions=['rollout'],
                      bounds='every environment with 2 states, 4 steps, a fixed seed', samples=1))

  # the real environments
  def manual(e, actor, st, params, steps):
    st = e.reset(st)
    mem = actor.init(None, st)
    states, acts, rews, mets = [], [], [], []
    for k in range(steps + 1):
      states.append(st)
      mets.append(e.metrics(st))
      if k == steps:
        a = jax.tree_util.tree_map(jnp.zeros_like, acts[-1])
      else:
        out = actor.select_action(params, st, mem, None)
        a, mem = out.action, out.actor_state
      acts.append(a)
      rews.append(e.reward(st, a))
      if k < steps:
        st = e.step(st, a)
    stack = lambda xs: jax.tree_util.tree_map(lambda *v: jnp.stack(v), *xs)
    return stack(states), stack(acts), jnp.stack(rews), stack(mets)

  MET = config.MetricsConfig(metrics_to_run=('log_divergence',))
  REW = config.LinearCombinationRewardConfig(rewards={'log_divergence': -1.0})

  def real(kind, steps, n):
    cfg = env_cfg(n, init_steps=1, metrics=MET, rewards=REW, controlled_object=config.ObjectType.SDC if kind != 'multi' else config.ObjectType.VALID)
    def fn(s, d=None):
      if kind == 'multi':
        e, actor, params = env.BaseEnvironment(ArbitraryDynamics(), cfg), stubs.ArbitraryActor(), d
      elif kind == 'expert':
        dyn = dynamics.StateDynamics()
        e, actor, params = env.BaseEnvironment(dyn, cfg), expert.create_expert_actor(dyn), None
      out = (R.rollout_log_by_expert_sdc(s, e, dyn, steps) if kind == 'expert' else
             R.rollout(s, actor, e, jax.random.PRNGKey(0), steps, params))
      return (out.state, out.action, out.reward, out.metrics), manual(e, actor, s, params, steps)

    def claims(i, o):
      a, b = o
      return [c(nm, tree_same(x, y)) for nm, x, y in zip(('states', 'actions', 'rewards', 'metrics'), a, b)]

    args = (wm.state(n, steps + 2, p=1, timestep=0),) + (() if kind == 'expert' else (agent_params(n),))
    return Harness(f'real_{kind}_{steps}', fn, args, claims, assume=lambda i: [one_sdc(i[0].object_metadata)],
                   functions=['rollout', 'rollout_log_by_expert_sdc' if kind == 'expert' else 'BaseEnvironment.step', 'BaseEnvironment.reset'],
                   bounds=f'{n} objects, {steps + 2} steps recorded, {steps} simulated')

  for kind in ('multi', 'expert'):
    for steps in ((1, 2, 3) if big else (1, 2)):
      hs.append(real(kind, steps, 2))
  return hs
