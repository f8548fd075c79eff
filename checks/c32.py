"""C32: declared specs describe what environments accept and return."""
from checks.common import *
from svx.paths import Forked
from waymax.agents import expert
from waymax.env.wrappers import brax_wrapper, dm_env_wrapper

METRICS = ('log_divergence', 'overlap', 'offroad')


def models(n=1):
  return {
      'state': dynamics.StateDynamics(),
      'delta_global': dynamics.DeltaGlobal(),
      'delta_local': dynamics.DeltaLocal(max_dx=2.0, max_dy=1.0, max_dyaw=0.5),
      'bicycle': dynamics.InvertibleBicycleModel(),
      'bicycle_normalized': dynamics.InvertibleBicycleModel(normalize_actions=True),
      'discrete': dynamics.DiscreteActionSpaceWrapper(dynamics.DeltaGlobal(), jnp.asarray([2, 3, 1])),
  }


WIDTH = {'state': 5, 'delta_global': 3, 'delta_local': 3, 'bicycle': 2, 'bicycle_normalized': 2, 'discrete': 1}
PI_ = float(np.pi)
LIMITS = {'state': None, 'delta_global': [6.0, 6.0, PI_], 'delta_local': [2.0, 1.0, 0.5], 'bicycle': [6.0, 0.3],
          'bicycle_normalized': [1.0, 1.0], 'discrete': None}


def cfg_for(kind, n=2, **kw):
  return env_cfg(n, init_steps=1, controlled_object=obj('SDC' if kind == 'planning' else 'VALID'),
                 metrics=config.MetricsConfig(metrics_to_run=METRICS),
                 rewards=config.LinearCombinationRewardConfig(rewards={'overlap': -1.0, 'log_divergence': 0.5}), **kw)


def make_env(kind, model, **kw):
  cls = env.PlanningAgentEnvironment if kind == 'planning' else env.MultiAgentEnvironment
  return cls(model, cfg_for(kind, **kw))


def example_action(spec):
  """Any action with the declared shape."""
  return datatypes.Action(data=jnp.zeros(spec.data.shape, spec.data.dtype), valid=jnp.zeros(spec.valid.shape, spec.valid.dtype))


def alike(a, b):
  la, ta = jax.tree_util.tree_flatten(a)
  lb, tb = jax.tree_util.tree_flatten(b)
  return ta == tb and all(x.shape == y.shape and x.dtype == y.dtype for x, y in zip(la, lb))


def fits(spec, x):
  return tuple(spec.shape) == tuple(jnp.shape(x)) and (isinstance(x, float) or np.dtype(spec.dtype) == np.dtype(x.dtype))


def bounds_ok(spec, limits, rows):
  """The spec's bounds are the configured limits (for each object)."""
  lo, hi = np.broadcast_to(np.asarray(spec.minimum), spec.shape), np.broadcast_to(np.asarray(spec.maximum), spec.shape)
  want = np.asarray(limits, np.float32)
  full = np.broadcast_to(want, tuple(rows) + want.shape)
  return lo.shape == full.shape and bool(np.allclose(hi, full) and np.allclose(lo, -full))


def harnesses(tier):
  hs = []
  n = 2
  built = models()

  # environments: declared shapes and types are those of what is accepted and returned
  for kind in ('multi', 'planning'):
    for name in WIDTH:
      def run(st, kind=kind, name=name):
        with jax.ensure_compile_time_eval():
          e = make_env(kind, built[name])
          spec = e.action_spec()
        first = e.reset(st)
        act = example_action(spec)
        act.validate()
        shapes = lambda f, *a: jax.eval_shape(f, *a)
        nxt = shapes(e.step, first, act)
        rew = shapes(e.reward, first, act)
        met = shapes(e.metrics, first)
        obs = shapes(e.observe, first)
        disc = shapes(lambda s: jnp.logical_not(e.termination(s)).astype(jnp.float32), first)
        rows = () if kind == 'planning' else (n,)
        facts = [
            spec.data.shape == rows + (WIDTH[name],) and spec.valid.shape == rows + (1,) and spec.valid.dtype == np.bool_,
            LIMITS[name] is None or bounds_ok(spec.data, LIMITS[name], rows),
            name != 'discrete' or (np.all(np.asarray(spec.data.minimum) == 0) and np.all(np.asarray(spec.data.maximum) == 23)),
            alike(nxt, jax.eval_shape(lambda s: s, first)),
            fits(e.reward_spec(), rew),
            fits(e.discount_spec(), disc) and float(e.discount_spec().minimum) == 0 and float(e.discount_spec().maximum) == 1,
            sorted(met) == sorted(METRICS) and all(m.value.shape == rows and m.valid.shape == rows for m in met.values()),
            alike(obs, jax.eval_shape(lambda s: s, first)),
        ]
        again = first
        for part in ('sim_trajectory', 'log_trajectory', 'log_traffic_light', 'object_metadata', 'roadgraph_points', 'sdc_paths'):
          getattr(again, part).validate()
        return first.timestep, jnp.asarray(np.array([bool(f) for f in facts]))

      names = ['action shapes', 'action bounds are the configured limits', 'discrete actions cover all bins', 'step keeps structure, shapes and types', 'reward spec',
               'discount spec', 'metrics as configured, per object', 'observation of the same form']
      hs.append(Harness(
          f'specs_{kind}_{name}', run, (planning_state(wm.state(n, 3, p=2, timestep=0)) if kind == 'planning' else wm.state(n, 3, p=2, timestep=0),),
          lambda i, o, names=names: [c(nm, T.eqv(f, True) if not isinstance(f, bool) else f) for nm, f in zip(names, o[1])] +
          [c('reset position', T.eqv(scal(o[0]), 0))],
          functions=['action_spec', 'reward_spec', 'discount_spec', 'step', 'reset', 'reward', 'metrics', 'observe'],
          bounds=f'{n} objects, 3 steps'))

  # inverse dynamics stays within the declared bounds
  for name, lim in LIMITS.items():
    if lim is None:
      continue
    def inv(tr, md, name=name):
      m = built[name]
      return m.inverse(tr, md, 0).data, jnp.asarray(m.action_spec().minimum, jnp.float32), jnp.asarray(m.action_spec().maximum, jnp.float32)

    def iclaims(i, o, lim=lim):
      e = F(1, 1000)
      return [c(f'{s}: within the spec', T.and_([within(v, T.sub(lo, e), T.add(hi, e)) for v, lo, hi in zip(o[0][j], o[1], o[2])]))
              for j, s in enumerate(['object'])]

    hs.append(Harness(f'inverse_{name}', inv, (wm.traj(1, 2), wm.metadata(1)), iclaims,
                      functions=[f'{name}.inverse', f'{name}.action_spec'], bounds='1 object, any two steps'))

  # every declared discrete action is an action of the wrapped model
  def disc(a, tr):
    w, base = built['discrete'], dynamics.DeltaGlobal()
    u = w.compute_update(a, tr)
    return u, jnp.asarray(base.action_spec().minimum, jnp.float32), jnp.asarray(base.action_spec().maximum, jnp.float32)

  hs.append(Harness('discrete_within', disc, (datatypes.Action(data=V((1, 1), 'i', 0, 23), valid=V((1, 1), 'b')), wm.traj(1, 1)),
                    lambda i, o: [c('moves within the bounds of the wrapped model', T.and_([
                        within(T.sub(getattr(o[0], f)[0, 0], getattr(i[1], f)[0, 0]), T.sub(o[1][k], F(1, 1000)), T.add(o[2][k], F(1, 1000)))
                        for k, f in enumerate(('x', 'y', 'yaw'))]))],
                    functions=['DiscreteActionSpaceWrapper.action_spec', 'DiscreteActionSpaceWrapper.compute_update'], bounds='one object, all 24 actions'))

  # wrappers
  for kind in ('multi', 'planning'):
    for name in ('state', 'discrete', 'bicycle'):
      def dm(log, st, a, kind=kind, name=name):
        with jax.ensure_compile_time_eval():
          e = make_env(kind, built[name])
          declared = e.action_spec()
        e.action_spec = lambda: declared
        w = dm_env_wrapper.DMEnvWrapper(iter([st] * 4), e)
        try:
          t0 = w.reset()
          spec = w.action_spec()
          ts = w.step(a.astype(spec.dtype))
        except RuntimeError:
          return ()
        obs = w.observation_spec()
        first = jax.tree_util.tree_leaves(ts.observation)
        log += [tuple(spec.shape) == tuple(a.shape), fits(w.reward_spec(), ts.reward), fits(w.discount_spec(), ts.discount),
                all(fits(s, x) for s, x in zip(jax.tree_util.tree_leaves(obs), first)) and len(first) == len(jax.tree_util.tree_leaves(obs)),
                alike(t0.observation, ts.observation)]
        full = datatypes.Action(data=jnp.reshape(a.astype(spec.dtype), declared.data.shape), valid=jnp.ones(declared.valid.shape, bool))
        return w.simulation_state, e.step(e.reset(st), full)

      def dmc(i, o, log):
        if not log:
          return [c('reset and step accepted', False)]
        return [c(nm, bool(f)) for nm, f in zip(('accepts its action spec', 'reward spec', 'discount spec', 'observation spec', 'observations alike'), log)] + [
            c('the action as given', tree_same(*o))]

      sq = kind == 'planning' and name == 'discrete'
      sh = (() if sq else (WIDTH[name],)) if kind == 'planning' else (n, WIDTH[name])
      hs.append(Forked(f'dm_{kind}_{name}', dm, (wm.state(n, 3, p=2, timestep=0), V(sh, 'i', 0, 23) if name == 'discrete' else V(sh, 'f', -5, 5)), dmc,
                       assume=lambda i: [one_sdc(i[0].object_metadata)], samples=1,
                       functions=['DMEnvWrapper.action_spec', 'DMEnvWrapper.observation_spec', 'DMEnvWrapper.reward_spec', 'DMEnvWrapper.discount_spec', 'DMEnvWrapper.step'],
                       bounds=f'{n} objects, 3 steps'))

  for b in ((2,), (2, 2)):
    def dmb(log, st, b=b):
      with jax.ensure_compile_time_eval():
        e = make_env('multi', built['state'])
      w = dm_env_wrapper.DMEnvWrapper(iter([st] * 2), e)
      try:
        seen = jax.tree_util.tree_leaves(w.reset().observation)
      except RuntimeError:
        return ()
      spec = jax.tree_util.tree_leaves(w.observation_spec())
      log += [len(seen) == len(spec) and all(tuple(sp.shape) == tuple(x.shape[len(b):]) and sp.dtype == x.dtype for sp, x in zip(spec, seen))]
      return seen

    hs.append(Forked(f'dm_batched_{"x".join(map(str, b))}', dmb, (wm.state(n, 3, p=2, timestep=0, batch=b),),
                     lambda i, o, log: [c('observation spec without the batch', bool(log) and log[0])], samples=1,
                     functions=['DMEnvWrapper.observation_spec', 'DMEnvWrapper.reset'], bounds=f'{n} objects, 3 steps, batch {b}'))

  def brax(st):
    with jax.ensure_compile_time_eval():
      e = make_env('multi', built['bicycle'])
      w = brax_wrapper.BraxWrapper(e, built['bicycle'], cfg_for('multi'))
      mine, base = w.action_spec(), e.action_spec()
    ts = jax.eval_shape(w.reset, st)
    nx = jax.eval_shape(w.step, ts, example_action(mine))
    same = lambda a, b: tuple(a.shape) == tuple(b.shape) and np.dtype(a.dtype) == np.dtype(b.dtype)
    facts = [fits(w.reward_spec(), nx.reward) and fits(w.reward_spec(), ts.reward), fits(w.discount_spec(), nx.discount) and fits(w.discount_spec(), ts.discount),
             alike(ts, nx), same(mine.data, base.data) and same(mine.valid, base.valid)]
    return jnp.asarray(np.array(facts)), st.timestep

  hs.append(Harness('brax', brax, (wm.state(n, 3, p=2, timestep=0),),
                    lambda i, o: [c(nm, T.eqv(f, True) if not isinstance(f, bool) else f) for nm, f in zip(('reward spec', 'discount spec', 'reset and step alike', 'action spec'), o[0])],
                    functions=['BraxWrapper.action_spec', 'BraxWrapper.reward_spec', 'BraxWrapper.discount_spec', 'BraxWrapper.reset', 'BraxWrapper.step'],
                    bounds=f'{n} objects, 3 steps'))
  return hs
