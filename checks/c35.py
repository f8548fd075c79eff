"""C35: inconsistent configurations are rejected, consistent ones accepted."""
import dataclasses
import importlib
import time
from unittest import mock

from svx import pystr as S
from svx.z3load import z3
from waymax import config
from waymax import env as wenv
from waymax import rewards
from waymax.agents import agent_builder

MF = importlib.import_module('waymax.metrics.metric_factory')
LR = importlib.import_module('waymax.rewards.linear_combination_reward')
ASSUMPTIONS = ['the real constructors run on symbolic numbers, flags and sets of names (every membership test is decided by the solver, both outcomes followed where '
               'feasible); a counterexample is reported only after it reproduces with ordinary values']
NAMES = ('log_divergence', 'overlap', 'offroad', 'kinematic_infeasibility', 'sdc_wrongway', 'sdc_progression', 'sdc_off_route')
ROUTE = NAMES[4:]


class Names:
  """A collection in which each of the given names may or may not be."""

  def __init__(self, has):
    self.has = has          # name -> SymBool or bool
    self.added = {}

  def __contains__(self, x):
    if x in self.added:
      return True
    return bool(self.has[x]) if x in self.has else False

  def __iter__(self):
    return iter([k for k in self.has if k in self] + [k for k in self.added if k not in self.has])

  def __len__(self):
    return len(list(iter(self)))

  def __bool__(self):
    return len(self) > 0

  def __hash__(self):
    return id(self)

  def intersection(self, other):
    return {k for k in self if k in other}

  def __and__(self, other):
    return {k for k in other if k in self}

  __rand__ = __and__


class Registry(Names):
  """A registry of metrics."""

  def __getitem__(self, k):
    if k in self.added:
      return self.added[k]
    if k not in self:
      raise KeyError(k)
    return Metric(k)

  def get(self, k, default=None):
    return self[k] if k in self else default

  def __setitem__(self, k, v):
    self.added[k] = v

  def keys(self):
    return self

  def items(self):
    return [(k, self[k]) for k in self]

  def setdefault(self, k, v):
    if k not in self:
      self[k] = v
    return self[k]

  def update(self, d):
    for k, v in dict(d).items():
      self[k] = v


class Metric:
  def __init__(self, name):
    self.name = name

  def compute(self, state):
    return ('value of', self.name)


class Rejects:
  """run(values) must raise one of errors exactly when not accept(symbols)."""

  def __init__(self, name, symbols, run, accept, functions, bounds, errors=(ValueError,), assume=(), result=None):
    self.__dict__.update(name=name, symbols=symbols, run=run, accept=accept, functions=functions, bounds=bounds, errors=errors, assume=list(assume),
                         result=result, args=(), optional=False)

  def sym(self):
    return {k: (S.SymInt(e) if e.sort() == z3.IntSort() else S.SymBool(e)) for k, e in self.symbols.items()}

  def outcome(self, v):
    try:
      return 'accepted', self.run(v)
    except self.errors as e:
      return 'rejected', e

  def good(self, vals):
    """The real code on concrete values."""
    S._cur[0], keep = None, S._cur[0]
    try:
      s = [(e, (z3.IntVal if e.sort() == z3.IntSort() else z3.BoolVal)(vals[k])) for k, e in self.symbols.items()]
      want = z3.is_true(z3.simplify(z3.substitute(self.accept(self.symbols), *s)))
      try:
        how, r = self.outcome(dict(vals))
      except Exception:
        return False
      if (how == 'accepted') != want:
        return False
      return how != 'accepted' or self.result is None or z3.is_true(z3.simplify(z3.substitute(z3.BoolVal(True) if self.result(vals, r) is True else z3.BoolVal(False), *s)))
    finally:
      S._cur[0] = keep

  def replay(self, d):
    ok = self.good(d['inputs'])
    print('holds on the real code' if ok else f'violated: {self.name} {d["inputs"]}')
    return 0 if ok else 1

  def execute(self, runner):
    t0, sv = time.time(), runner.solving
    q0, s0 = sv.queries, sv.time
    row = {'harness': self.name, 'functions': self.functions, 'bounds': self.bounds, 'claims': [], 'equations': 0}
    runner.rows.append(row)
    runner.functions += [f for f in self.functions if f not in runner.functions]

    def stats(s):
      a = time.time()
      r = s.check()
      sv.queries += 1
      sv.unsat += r == z3.unsat
      sv.time += time.time() - a
      return r
    seen = set()
    try:
      for c, kind, val in S.explore(lambda c: [self.outcome(self.sym())], self.assume, False, stats):
        row['equations'] += 1
        S._cur[0] = c
        try:
          acc = self.accept(self.symbols)
          if kind == 'return':
            how, r = val[0]
            seen.add(how)
            ok = acc if how == 'accepted' else z3.Not(acc)
            if how == 'accepted' and self.result is not None:
              ok = z3.And(ok, z3.BoolVal(self.result(self.sym(), r) is True))
          else:
            how, r, ok = 'raises', val, z3.BoolVal(False)
          claim = f'{how} on path {row["equations"]}'
          a = time.time()
          m = c.sat(z3.Not(ok))
          if m is None:
            row['claims'].append({'claim': claim, 'verdict': 'holds', 's': round(time.time() - a, 3)})
            runner.reached += 1
            continue
          vals = {k: (m.eval(e, model_completion=True).as_long() if e.sort() == z3.IntSort() else z3.is_true(m.eval(e, model_completion=True))) for k, e in self.symbols.items()}
          runner.replays += 1
          if self.good(vals):
            raise S.Unsupported(f'{claim}: {r!r}: counterexample {vals} does not reproduce on the real code')
          key = f'{self.name}/{how}'
          for k in runner.known_list:
            if k['where'] == key:
              runner.known.append((key, k.get('what', '')))
              break
          else:
            from svx.harness import Violation
            runner.violations.append(Violation(self, how, vals, f'{vals}: {how} {r!r}'[:300]))
          row['claims'].append({'claim': claim, 'verdict': 'violated', 's': 0})
          return
        finally:
          S._cur[0] = None
      if not {'accepted', 'rejected'} <= seen:
        raise S.Unsupported(f'only {sorted(seen)} reached')
      for flip in (False, True):
        s = z3.Solver()
        s.add(self.assume)
        s.add(z3.Not(self.accept(self.symbols)) if flip else self.accept(self.symbols))
        s.check()
        m = s.model()
        vals = {k: (m.eval(e, model_completion=True).as_long() if e.sort() == z3.IntSort() else z3.is_true(m.eval(e, model_completion=True))) for k, e in self.symbols.items()}
        if not self.good(vals):
          raise S.Unsupported(f'encoder disagrees with the real code on {vals}')
        runner.validated += 1
    except (S.Unsupported, S.TooManyBranches, S.Suspect) as e:
      runner.errors.append(f'{self.name}: {type(e).__name__} {e}')
    except Exception as e:
      runner.errors.append(f'{self.name}: {type(e).__name__}: {e}')
    finally:
      row.update(queries=sv.queries - q0, solver_s=round(sv.time - s0, 3), wall_s=round(time.time() - t0, 3))


class Sized:
  """A sequence of which only the length matters."""

  def __init__(self, n):
    self.n = n

  def __len__(self):
    return int(S.ctx().concrete(self.n.e)) if isinstance(self.n, S.SymInt) else int(self.n)

  def __iter__(self):
    return iter([None] * len(self))


def harnesses(tier):
  I, B = z3.Int, z3.Bool
  hs = []

  def env_cfg(v):
    return config.EnvironmentConfig(init_steps=v['init_steps'], observation=config.ObservationConfig(num_steps=v['num_steps']))
  ns, it = I('num_steps'), I('init_steps')
  hs.append(Rejects('history_within_warmup', {'num_steps': ns, 'init_steps': it}, env_cfg, lambda s: ns <= it, ['EnvironmentConfig'],
                    'all step counts from 0 to 10^6', assume=[ns >= 0, it >= 0, ns <= 10 ** 6, it <= 10 ** 6],
                    result=lambda v, r: r.init_steps is v['init_steps'] or bool(r.init_steps == v['init_steps'])))

  has = {n: B(f'runs_{n}') for n in NAMES}
  inc = B('include_sdc_paths')

  def top(v):
    ms = Names({n: v[n] for n in NAMES})
    if all(isinstance(x, bool) for x in v.values()):
      ms = tuple(n for n in NAMES if v[n])
    data = config.DatasetConfig(path='p', data_format=config.DataFormat.TFRECORD, include_sdc_paths=v['inc'])
    return config.WaymaxConfig(data_config=data, env_config=config.EnvironmentConfig(metrics=config.MetricsConfig(metrics_to_run=ms)))
  hs.append(Rejects('route_metrics_need_routes', dict(has, inc=inc), top, lambda s: z3.Or(inc, z3.Not(z3.Or([has[n] for n in ROUTE]))),
                    ['WaymaxConfig'], 'all subsets of the built-in metrics, with and without routes'))

  # registered metrics
  known = {n: B(f'registered_{n}') for n in ('a', 'b', 'c')}

  def registered(v, f):
    reg = Registry(v)
    if all(isinstance(x, bool) for x in v.values()):
      reg = {k: Metric(k) for k in v if v[k]}
    with mock.patch.object(MF, '_METRICS_REGISTRY', reg):
      return f(reg)
  for k in range(1, 4):
    want = ('a', 'b', 'c')[:k]
    hs.append(Rejects(f'reward_names_{k}', known, lambda v, want=want: registered(v, lambda reg: rewards.LinearCombinationReward(
        config.LinearCombinationRewardConfig(rewards={n: 1.0 for n in want}))), lambda s, want=want: z3.And([known[n] for n in want]),
        ['LinearCombinationReward', 'get_metric_names'], f'{k} configured names, any registry'))
    hs.append(Rejects(f'run_metrics_{k}', known, lambda v, want=want: registered(v, lambda reg: MF.run_metrics(None, config.MetricsConfig(metrics_to_run=want))),
                      lambda s, want=want: z3.And([known[n] for n in want]), ['run_metrics'], f'{k} requested names, any registry',
                      result=lambda v, r, want=want: r == {n: ('value of', n) for n in want}))

  def reg(v):
    m = Metric('new')

    def f(r):
      MF.register_metric('a', m)
      return m, r['a'], [n for n in ('b', 'c') if n in r and isinstance(r, Registry) and n in r.added]
    return registered(v, f)
  hs.append(Rejects('register_metric', known, reg, lambda s: z3.Not(known['a']), ['register_metric'], 'any registry', result=lambda v, r: r[0] is r[1] and not r[2]))

  def twice(v):
    first, second = Metric('first'), Metric('second')

    def f(r):
      MF.register_metric('a', first)
      try:
        MF.register_metric('a', second)
      except ValueError:
        return r['a'] is first
      return False
    return registered(v, f)
  hs.append(Rejects('register_twice', known, twice, lambda s: z3.Not(known['a']), ['register_metric'], 'any registry', result=lambda v, r: r is True))

  # planning environment
  na, np_ = I('actors'), I('params')
  types = list(config.ObjectType)

  def planning(v):
    from waymax import dynamics
    t = v['type']
    t = types[t if isinstance(t, int) else S.ctx().concrete(t.e)]
    return wenv.PlanningAgentEnvironment(dynamics.StateDynamics(), config.EnvironmentConfig(controlled_object=t), Sized(v['actors']), Sized(v['params']))
  ty = I('type')
  hs.append(Rejects('planning_environment', {'type': ty, 'actors': na, 'params': np_}, planning,
                    lambda s: z3.And(ty == types.index(config.ObjectType.SDC), na == np_), ['PlanningAgentEnvironment'],
                    'every controlled object type, up to 3 simulated agents and parameters',
                    assume=[ty >= 0, ty < len(types), na >= 0, na <= 3, np_ >= 0, np_ <= 3]))

  def agent(v):
    t = v['type']
    t = types[t if isinstance(t, int) else S.ctx().concrete(t.e)]
    return agent_builder.create_sim_agents_from_config(config.SimAgentConfig(config.SimAgentType.IDM, t))
  hs.append(Rejects('sim_agent_objects', {'type': ty}, agent, lambda s: z3.Or([ty == types.index(t) for t in (config.ObjectType.SDC, config.ObjectType.NON_SDC)]),
                    ['create_sim_agents_from_config'], 'every object type', errors=(NotImplementedError,), assume=[ty >= 0, ty < len(types)]))
  return hs
