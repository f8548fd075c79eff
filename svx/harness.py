"""Harness: trace real code, run it symbolically, decide claims, replay, report."""
import json
import math
import os
import random
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np

from svx import jx
from svx import terms as T
from svx.z3load import z3

REPO = os.environ.get('SVX_REPO', '/repo').rstrip('/') + '/'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')


class Inconclusive(Exception):
  pass


class OutOfTime(BaseException):
  """The time budget of the whole run is used up."""


# ------------------------------------------------------------------- inputs
class V:
  """Symbolic input leaf: shape, dtype kind and range."""

  def __init__(self, shape=(), kind='f', lo=None, hi=None):
    self.shape, self.kind = tuple(shape), kind
    if kind == 'f':
      self.lo = -100 if lo is None else lo
      self.hi = 100 if hi is None else hi
    else:
      self.lo, self.hi = lo, hi

  @property
  def dtype(self):
    return {'f': np.float32, 'i': np.int32, 'b': np.bool_}[self.kind]


def _is_leaf(x):
  return isinstance(x, V)


def _name(path):
  return re.sub(r'[^A-Za-z0-9_.]+', '', jax.tree_util.keystr(path)).strip('.') or 'x'


def example_of(args):
  def ex(l):
    if isinstance(l, V):
      if l.kind == 'f':
        return jnp.zeros(l.shape, jnp.float32)
      if l.kind == 'i':
        return jnp.zeros(l.shape, jnp.int32) + (l.lo or 0)
      return jnp.zeros(l.shape, bool)
    return l
  return jax.tree_util.tree_map(ex, args, is_leaf=_is_leaf)


def symbolic_of(args, ctx):
  leaves, tree = jax.tree_util.tree_flatten_with_path(args, is_leaf=_is_leaf)
  out, inputs = [], []
  used = {}
  for path, l in leaves:
    if not isinstance(l, V):
      if hasattr(l, 'dtype') and jax.dtypes.issubdtype(l.dtype, jax.dtypes.prng_key):
        out.append(l)
      else:
        out.append(jx.lift(l))
      continue
    base = _name(path)
    k = used.get(base, 0)
    used[base] = k + 1
    if k:
      base = f'{base}__{k}'
    arr = np.empty(l.shape, object)
    for ix in np.ndindex(*l.shape):
      nm = base + ('[' + ','.join(map(str, ix)) + ']' if ix else '')
      v = {'f': z3.Real, 'i': z3.Int, 'b': z3.Bool}[l.kind](nm)
      arr[ix] = v
      if l.kind == 'f':
        ctx.assume(z3.And(v >= T.q(Fraction(l.lo)), v <= T.q(Fraction(l.hi))))
      elif l.kind == 'i':
        if l.lo is not None:
          ctx.assume(v >= l.lo)
        if l.hi is not None:
          ctx.assume(v <= l.hi)
        if l.lo is not None and l.hi is not None and l.hi - l.lo < 40:
          ctx.fdvars[v.get_id()] = (v, l.lo, l.hi)
      inputs.append((nm, l, v))
    out.append(arr)
  return jax.tree_util.tree_unflatten(tree, out), inputs


def build_concrete(args, valuation):
  """valuation: callable (leaf V, name) -> python value."""
  leaves, tree = jax.tree_util.tree_flatten_with_path(args, is_leaf=_is_leaf)
  out = []
  used = {}
  for path, l in leaves:
    if not isinstance(l, V):
      out.append(l)
      continue
    base = _name(path)
    k = used.get(base, 0)
    used[base] = k + 1
    if k:
      base = f'{base}__{k}'
    a = np.zeros(l.shape, l.dtype)
    for ix in np.ndindex(*l.shape):
      nm = base + ('[' + ','.join(map(str, ix)) + ']' if ix else '')
      a[ix] = valuation(l, nm)
    out.append(jnp.asarray(a))
  return jax.tree_util.tree_unflatten(tree, out)


def to_py(tree):
  """Arrays -> object arrays of python bool/int/float (replay mode)."""
  def cv(l):
    if hasattr(l, 'dtype') and jax.dtypes.issubdtype(l.dtype, jax.dtypes.prng_key):
      return l
    a = np.asarray(l)
    if a.dtype == object:
      return a
    o = np.empty(a.shape, object)
    f = o.reshape(-1)
    k = a.dtype.kind
    for i, v in enumerate(a.reshape(-1)):
      f[i] = bool(v) if k == 'b' else (int(v) if k in 'iu' else float(v))
    return o
  return jax.tree_util.tree_map(cv, tree)


def to_exact(tree):
  """Arrays -> object arrays of exact elements (encoder validation)."""
  def cv(l):
    if hasattr(l, 'dtype') and jax.dtypes.issubdtype(l.dtype, jax.dtypes.prng_key):
      return l
    return jx.lift(l)
  return jax.tree_util.tree_map(cv, tree)


class Claim:
  """abstract: terms whose comparisons may take any truth value in a first attempt
  (the abstracted claim is stronger, so showing it is enough)."""

  def __init__(self, name, prop, reach=True, abstract=()):
    self.name, self.prop, self.reach, self.abstract = name, prop, reach, abstract


def abstracted(e, terms):
  """e with every comparison occurring in terms replaced by a free boolean."""
  sub, seen, stack = [], set(), [t for t in terms if T.is_z(t)]
  while stack:
    x = stack.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    ch = x.children()
    if z3.is_bool(x) and ch and not z3.is_bool(ch[0]):
      sub.append((x, z3.Bool(f'abs!{len(sub)}')))
    elif z3.is_bool(x):
      stack.extend(ch)
  return z3.substitute(e, *sub) if sub else e


# ------------------------------------------------------------------ solving
class Solving:
  def __init__(self):
    self.queries = 0
    self.time = 0.0
    self.unsat = 0
    self.sat = 0
    self.by_simplify = 0
    self.engines = {}
    self.linear_timeout = 4
    self.t_end = math.inf

  def check(self, cons, timeout=60, want_model=True, seed=0):
    """-> ('sat', model) | ('unsat', None) | ('unknown', None)."""
    self.queries += 1
    t0 = time.time()
    timeout = max(1, min(timeout, self.t_end - t0))
    try:
      r = self._check(cons, timeout, seed)
    finally:
      self.time += time.time() - t0
    if r[0] == 'unsat':
      self.unsat += 1
    elif r[0] == 'sat':
      self.sat += 1
    return r

  def _mark(self, e):
    self.engines[e] = self.engines.get(e, 0) + 1

  def _check(self, cons, timeout, seed):
    """The last constraint is the goal; constraints sharing no variable with its
    cone are left out (they are satisfiable on their own: see complete())."""
    cons = [T.zb(c) for c in cons]
    goal, base = cons[-1], cons[:-1]
    core, rest, seen = cone(goal, base)
    r, m = self._check_core(core + [goal], timeout, seed)
    if r == 'sat':
      return r, Model(m, seen, rest)
    return r, m

  def _check_core(self, cons, timeout, seed):
    s = z3.Solver()
    s.set('smt.arith.nl', False)
    s.set('timeout', int(self.linear_timeout * 1000))
    s.add(*([T.norm_bool(x) for x in cons] if T._ctx[0] is not None else cons))
    if s.check() == z3.unsat:
      self._mark('z3-linear')
      return 'unsat', None
    cv = Cvc5(cons, timeout)
    t_end = time.time() + timeout
    stages = [('smt', 3), ('nlsat', 5), ('smt', 12), ('nlsat', 20), ('smt', 40), ('nlsat', 60), ('smt', 120)]
    try:
      for k, (eng, to) in enumerate(stages):
        left = t_end - time.time()
        if left <= 0:
          break
        to = min(to, left)
        try:
          if eng == 'smt':
            s = z3.Solver()
            s.set('random_seed', seed + 17 * k)
          else:
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-term-ite',
                        'tseitin-cnf', 'qfnra-nlsat').solver()
          s.set('timeout', int(to * 1000))
          s.add(*cons)
          r = s.check()
        except z3.Z3Exception:
          r = z3.unknown
        if r == z3.sat:
          self._mark('z3' if eng == 'smt' else 'z3-nlsat')
          return 'sat', s.model()
        if r == z3.unsat:
          self._mark('z3' if eng == 'smt' else 'z3-nlsat')
          return 'unsat', None
        if cv.poll() == 'unsat':
          self._mark('cvc5')
          return 'unsat', None
      if cv.wait(max(0, t_end - time.time())) == 'unsat':
        self._mark('cvc5')
        return 'unsat', None
    finally:
      cv.close()
    self._mark('unknown')
    return 'unknown', None


class Cvc5:
  """cvc5 on the same query, in the background."""

  def __init__(self, cons, to):
    self.p = self.path = None
    self.res = None
    s = z3.Solver()
    s.add(*cons)
    try:
      txt = s.to_smt2()
    except z3.Z3Exception:
      return
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
      f.write('(set-logic ALL)\n' + txt)
      self.path = f.name
    try:
      self.p = subprocess.Popen(['cvc5', '--tlimit', str(int(to * 1000)), '-q', self.path],
                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except OSError:
      self.p = None

  def poll(self):
    if self.p is None:
      return 'unknown'
    if self.res is None and self.p.poll() is not None:
      o = self.p.stdout.read()
      self.res = 'unknown' if '(error' in o else (o.strip().split('\n')[0] or 'unknown')
    return self.res

  def wait(self, to):
    if self.p is not None:
      try:
        self.p.wait(to)
      except subprocess.TimeoutExpired:
        pass
    return self.poll()

  def close(self):
    if self.p is not None and self.p.poll() is None:
      self.p.kill()
      self.p.wait()
    if self.p is not None:
      self.p.stdout.close()
    if self.path:
      os.unlink(self.path)


_VARS = {}


def vars_of(t):
  """Frozenset of the free constants / uninterpreted functions of a term."""
  i = t.get_id()
  if i in _VARS:
    return _VARS[i][1]
  stack, seen, out = [t], set(), set()
  while stack:
    x = stack.pop()
    j = x.get_id()
    if j in seen:
      continue
    seen.add(j)
    if j in _VARS:
      out |= _VARS[j][1]
      continue
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
      out.add(x.decl().name())
    stack.extend(x.children())
  r = frozenset(out)
  _VARS[i] = (t, r)
  return r


def cone(goal, base):
  """Constraints transitively sharing variables with the goal."""
  seen = set(vars_of(goal))
  todo = [(c, vars_of(c)) for c in base]
  core = []
  changed = True
  while changed:
    changed = False
    left = []
    for c, vs in todo:
      if vs & seen:
        core.append(c)
        if not vs <= seen:
          seen |= vs
          changed = True
      elif not vs:
        core.append(c)
      else:
        left.append((c, vs))
    todo = left
  return core, [c for c, _ in todo], seen


class Model:
  """Model of the cone, completed lazily for the remaining variables."""

  def __init__(self, m, seen, rest):
    self.m, self.seen, self.rest, self.m2 = m, seen, rest, None

  def eval(self, t, model_completion=True):
    if vars_of(t) <= self.seen:
      return self.m.eval(t, model_completion=True)
    if self.m2 is None:
      s = z3.Solver()
      s.set('timeout', 20000)
      s.add(*[c for c in self.rest if not any('!' in v for v in vars_of(c))])
      if s.check() != z3.sat:
        raise Inconclusive('cannot complete a model')
      self.m2 = s.model()
    return self.m2.eval(t, model_completion=True)


def model_value(m, v):
  r = m.eval(v, model_completion=True)
  if z3.is_algebraic_value(r):
    r = r.approx(30)
  if z3.is_true(r):
    return True
  if z3.is_false(r):
    return False
  if z3.is_int_value(r):
    return r.as_long()
  if z3.is_rational_value(r):
    return Fraction(r.numerator_as_long(), r.denominator_as_long())
  return None


# ------------------------------------------------------------------- harness
class Harness:
  """One symbolic harness.

  fn(*args) -> outputs: calls the real code.  args: pytrees whose leaves are V
  (symbolic) or concrete arrays.  assume(args) -> list of booleans.
  claims(args, outs) -> list of Claim.  Both are evaluated on symbolic elements
  and, for replays and validation, on concrete values.
  """

  def __init__(self, name, fn, args, claims, assume=None, functions=(), bounds='',
               samples=2, timeout=120, trace=True, jit=True, sample=None, vtol=5e-3,
               validate=True, prune=False, linear_timeout=4,
               optional=False):
    self.name, self.fn, self.args = name, fn, args
    self.claims_fn, self.assume_fn = claims, assume
    self.functions, self.bounds = list(functions), bounds
    self.samples, self.timeout = samples, timeout
    self.jit = jit
    self.sample_fn = sample
    self.vtol = vtol
    self.validate = validate
    self.prune = prune
    self.optional = optional
    self.linear_timeout = linear_timeout
    self._jf = None

  # -- real execution
  def real(self, cargs):
    if self._jf is None:
      self._jf = jax.jit(self.fn) if self.jit else self.fn
    return jax.tree_util.tree_map(np.asarray, self._jf(*cargs))

  def assume(self, a):
    return list(self.assume_fn(a)) if self.assume_fn else []

  def eval_claims(self, cargs):
    """Claims on the real code for concrete inputs -> (ok_assume, failed names)."""
    pa = to_py(cargs)
    saved = T._ctx[0]
    T.set_ctx(T.Ctx())
    try:
      if not all(bool(c) for c in self.assume(pa)):
        return False, [], None
      outs = self.real(cargs)
      po = to_py(outs)
      failed = [c.name for c in self.claims_fn(pa, po) if not bool(c.prop)]
      return True, failed, outs
    finally:
      T.set_ctx(saved)


class Violation:
  def __init__(self, harness, claim, cargs, note):
    self.harness, self.claim, self.cargs, self.note = harness, claim, cargs, note


class Runner:
  def __init__(self, pid, tier, seed):
    self.pid, self.tier, self.seed = pid, tier, seed
    self.rng = random.Random(seed)
    self.solving = Solving()
    self.rows = []
    self.violations = []
    self.saved = []       # violations written to replay files
    self.slot = 0
    self.known = []
    self.errors = []
    self.undecided = []   # of optional (deeper) harnesses
    self.validated = 0
    self.replays = 0
    self.reached = 0
    self.t0 = time.time()
    self.functions = []
    self.known_list = load_known(pid)
    self.verbose = bool(os.environ.get('SVX_VERBOSE'))

  def log(self, *a):
    if self.verbose:
      print(*a, file=sys.stderr, flush=True)

  # -- all harnesses, within a time budget
  def run_all(self, hs, budget):
    self.t_end = self.t0 + budget

    def ring(*_):
      raise OutOfTime()
    signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, budget + 20)
    self.solving.t_end = self.t_end
    try:
      for k, h in enumerate(hs):
        spent = time.time() - self.t0
        if self.violations and spent > 90:
          self.log(f'stopping after a violation, {len(hs) - k} harnesses left')
          break
        if spent > budget:
          raise OutOfTime()
        h.execute(self) if hasattr(h, 'execute') else self.run(h)
    except OutOfTime:
      left = [x for x in hs[hs.index(h):] if not getattr(x, 'optional', False)]
      (self.errors if left else self.undecided).append(
          f'time budget of {budget:.0f}s used up, harnesses from {h.name} on undecided')
    finally:
      signal.setitimer(signal.ITIMER_REAL, 0)

  # -- one harness
  def run(self, h):
    t0 = time.time()
    self.rng = random.Random(f'{self.seed}:{h.name}')
    q0, s0 = self.solving.queries, self.solving.time
    row = {'harness': h.name, 'functions': h.functions, 'bounds': h.bounds,
           'claims': [], 'equations': 0}
    self.rows.append(row)
    for f in h.functions:
      if f not in self.functions:
        self.functions.append(f)
    e0 = jx.Stats.eqns
    try:
      self._run(h, row)
    except Inconclusive as e:
      (self.undecided if h.optional else self.errors).append(f'{h.name}: {e}')
    except Exception as e:
      self.errors.append(f'{h.name}: {type(e).__name__}: {e}\n{traceback.format_exc() if self.verbose else ''}')
    row['equations'] = jx.Stats.eqns - e0
    row['queries'] = self.solving.queries - q0
    row['solver_s'] = round(self.solving.time - s0, 3)
    row['wall_s'] = round(time.time() - t0, 3)
    self.log(f'[{self.pid}] {h.name}: {row["equations"]} eqns, {row["queries"]} queries, '
             f'{row["solver_s"]}s solver, {row["wall_s"]}s')

  def _run(self, h, row):
    ctx = T.Ctx()
    T.set_ctx(ctx)
    example = example_of(h.args)
    path = getattr(h, 'path', None)
    try:
      traced = path[0] if path else h.tracer(*example) if hasattr(h, 'tracer') else jx.Traced(h.fn, *example)
    except Exception as e:
      self._trace_failure(h, row, e)
      return
    sargs, inputs = symbolic_of(h.args, ctx)
    for c in h.assume(sargs):
      if c is False:
        raise Inconclusive('assumption is constantly false')
      if c is not True:
        ctx.assume(c)
    ctx.prune = h.prune
    self.solving.linear_timeout = h.linear_timeout
    outs = traced(*sargs)
    if path:
      outs, conds = outs
      row['path'] = ''.join('FT'[d] for d in path[1])
      way = []
      for v, d in zip(conds, path[1]):
        v = np.asarray(v, dtype=object).reshape(-1)[0]
        way.append(T.zb(v if d else T.not_(v)))
      way = z3.And(way + [z3.BoolVal(True)])
      r, _ = self.solving.check(ctx.constraints() + [way], h.timeout)
      ctx.assumptions.append(way)
      if r == 'unsat':
        row['path'] += ' infeasible'
        return
      if r != 'sat':
        raise Inconclusive('feasibility of a path unknown')
      h.events = path[2]
    claims = h.claims_fn(sargs, outs)
    # encoder validation + non-vacuity of the assumptions
    if h.validate:
      self._validate(h, traced, ctx, inputs)
    base = ctx.constraints()
    for u in ctx.unwind:
      r, _ = self.solving.check(base + [u], h.timeout)
      if r != 'unsat':
        raise Inconclusive('loop unwinding bound not sufficient')
    if all(c.prop is True and c.reach is True for c in claims):
      # decided by normal forms alone: let the solver confirm that the case is not empty
      r, _ = self.solving.check([z3.And(ctx.assumptions + [z3.BoolVal(True)])], 20)
      if r == 'unsat':
        raise Inconclusive('assumptions unsatisfiable (vacuous harness)')
    for c in claims:
      t1 = time.time()
      verdict = self._decide(h, ctx, inputs, c)
      row['claims'].append({'claim': c.name, 'verdict': verdict,
                            's': round(time.time() - t1, 3)})
      if time.time() - t1 > 1 or not verdict.startswith('holds'):
        self.log(f'   {h.name}/{c.name}: {verdict} {time.time() - t1:.2f}s')

  def _trace_failure(self, h, row, e):
    """The real code raised while being traced: confirm on concrete inputs."""
    import traceback as tb
    frames = tb.extract_tb(e.__traceback__)
    in_repo = any(REPO in f.filename or 'waymax/' in f.filename for f in frames)
    if isinstance(e, (AttributeError, ImportError, NameError)) and not in_repo:
      raise e
    cargs = build_concrete(h.args, lambda l, nm: _default(l))
    try:
      h.real(cargs)
    except Exception as e2:
      fr2 = tb.extract_tb(e2.__traceback__)
      if any(REPO in f.filename for f in fr2) and type(e2) is type(e):
        self._report(h, 'call_succeeds', cargs,
                     f'the real code raises {type(e2).__name__}: {str(e2)[:300]}')
        row['claims'].append({'claim': 'call_succeeds', 'verdict': 'violated'})
        return
    raise e

  def _random_inputs(self, h):
    if h.sample_fn is not None:
      return h.sample_fn(self.rng)
    def val(l, nm):
      if l.kind == 'b':
        return self.rng.random() < 0.6
      if l.kind == 'i':
        lo = l.lo if l.lo is not None else -5
        hi = l.hi if l.hi is not None else lo + 10
        return self.rng.randint(lo, min(hi, lo + 2**20))
      n = 64
      lo, hi = Fraction(l.lo), Fraction(l.hi)
      for _ in range(10):
        v = Fraction(math.floor((lo + (hi - lo) * Fraction(self.rng.random())) * n), n)
        if lo <= v <= hi:
          return float(v)
      return float(lo)
    return build_concrete(h.args, val)

  def _validate(self, h, traced, ctx, inputs):
    got = 0
    tries = 0
    while got < h.samples and tries < 60:
      tries += 1
      if tries <= 40:
        cargs = self._random_inputs(h)
      else:
        r, m = self.solving.check([z3.And(ctx.assumptions + [z3.BoolVal(True)])], 20, seed=tries)
        if r == 'unsat':
          raise Inconclusive('assumptions unsatisfiable (vacuous harness)')
        if r != 'sat':
          continue
        vals = {nm: model_value(m, v) for nm, _, v in inputs}
        cargs = build_concrete(h.args, lambda l, nm: _conv(l, vals[nm]))
      saved = T._ctx[0]
      T.set_ctx(T.Ctx())
      try:
        if not all(bool(c) for c in h.assume(to_py(cargs))):
          continue
        enc = traced(*to_exact(cargs))
      finally:
        T.set_ctx(saved)
      if getattr(h, 'path', None):
        enc, conds = enc
        if any(bool(np.asarray(v, dtype=object).reshape(-1)[0]) != d for v, d in zip(conds, h.path[1])):
          continue
      real = h.real(cargs)
      bad = _mismatch(enc, real, h.vtol)
      if bad:
        # a value next to a discontinuity may legitimately differ; try another
        self.log('   validation mismatch', bad)
        h.vfail = getattr(h, 'vfail', 0) + 1
        if h.vfail > 6:
          raise Inconclusive(f'encoder disagrees with the real code: {bad}')
        continue
      got += 1
      self.validated += 1
      h._witness = cargs
    if got == 0:
      raise Inconclusive('no concrete witness satisfies the assumptions')
    self.reached += 1

  # -- claims
  def _decide(self, h, ctx, inputs, c):
    base = ctx.constraints()
    reach = c.reach
    if reach is False:
      raise Inconclusive(f'claim {c.name} is vacuous')
    if reach is not True:
      r, _ = self.solving.check(base + [reach], 20)
      if r == 'unsat':
        raise Inconclusive(f'claim {c.name} is vacuous')
      if r == 'sat':
        self.reached += 1
    p = c.prop
    if p is True:
      self.solving.by_simplify += 1
      return 'holds (normal form)'
    neg = T.zb(T.not_(p))
    if c.abstract:
      r, _ = self.solving.check(base + [abstracted(T.norm_bool(neg), [T.norm_bool(t) for t in c.abstract if T.is_z(t)])], min(20, h.timeout))
      if r == 'unsat':
        return 'holds (comparisons abstracted)'
    r, m = self.solving.check(base + [neg], h.timeout)
    if r == 'unsat':
      return 'holds'
    if r == 'unknown':
      # try to find a pinned counterexample before giving up
      ok = self._pinned(h, ctx, inputs, c, neg, None)
      if ok:
        return ok
      raise Inconclusive(f'solver returned unknown for {c.name}')
    ok = self._replay(h, inputs, c, m)
    if not ok:
      ok = self._nice(h, ctx, inputs, c, neg)
    if not ok:
      ok = self._pinned(h, ctx, inputs, c, neg, m)
    if ok:
      return ok
    raise Inconclusive(f'counterexample of {c.name} does not reproduce on the real code')

  def _replay(self, h, inputs, c, m, override=None):
    vals = {nm: model_value(m, v) for nm, _, v in inputs}
    if override:
      vals.update(override)
    try:
      cargs = build_concrete(h.args, lambda l, nm: _conv(l, vals[nm]))
    except (OverflowError, ValueError):
      return None
    return self._try(h, c, cargs)

  def _try(self, h, c, cargs):
    self.replays += 1
    try:
      ok, failed, outs = h.eval_claims(cargs)
    except Exception as e:
      frames = traceback.extract_tb(e.__traceback__)
      if any(REPO in f.filename for f in frames):
        self._report(h, c.name, cargs, f'real code raises {type(e).__name__}: {str(e)[:200]}')
        return 'violated (raises)'
      raise
    self.log('     replay', c.name, 'assume ok' if ok else 'assume FAILS', 'failed:', failed)
    if ok and failed:
      name = c.name if c.name in failed else failed[0]
      return self._report(h, name, cargs, '')
    return None

  def _report(self, h, claim, cargs, note):
    key = f'{h.name}/{claim}'
    for k in self.known_list:
      if k['where'] == key:
        self.known.append((key, k.get('what', '')))
        return 'known finding'
    self.violations.append(Violation(h, claim, cargs, note))
    return 'violated'

  def _nice(self, h, ctx, inputs, c, neg):
    """Models whose real inputs are small dyadic rationals (exact in float32)."""
    for step in (1, 4, 64):
      cons = []
      for nm, l, v in inputs:
        if l.kind == 'f':
          k = z3.Int('dy!' + nm)
          cons.append(v * step == z3.ToReal(k))
      m = self._quick(ctx, neg, cons)
      if m is not None:
        ok = self._replay(h, inputs, c, m)
        if ok:
          return ok
    return None

  def _quick(self, ctx, neg, extra, timeout=8, seed=0):
    """One bounded z3 call on the cone of neg plus extra pins."""
    core, rest, seen = cone(neg, [T.zb(x) for x in ctx.constraints()])
    s = z3.Solver()
    s.set('timeout', timeout * 1000)
    s.set('random_seed', seed)
    s.add(*core, neg)
    s.add(*[e for e in extra if vars_of(e) & seen])
    self.solving.queries += 1
    t0 = time.time()
    r = s.check()
    self.solving.time += time.time() - t0
    return Model(s.model(), seen, rest) if r == z3.sat else None

  def _pinned(self, h, ctx, inputs, c, neg, m, tries=40):
    """Fix trig atoms at consistent values and re-solve; replays each model."""
    atoms = [(t, cc, ss) for (t, cc, ss, k) in ctx.trig.values() if not k]
    t_end = min(time.time() + 150, self.solving.t_end)
    if not atoms:
      for seed in range(6):
        if time.time() > t_end:
          return None
        extra = []
        for nm, l, v in inputs:
          if l.kind == 'f':
            lo, hi = Fraction(l.lo), Fraction(l.hi)
            if self.rng.random() < 0.5:
              mid = lo + (hi - lo) * Fraction(self.rng.randint(1, 7), 8)
              extra.append(v <= T.q(mid) if self.rng.random() < 0.5 else v >= T.q(mid))
        mm = self._quick(ctx, neg, extra, seed=seed)
        if mm is not None:
          ok = self._replay(h, inputs, c, mm)
          if ok:
            return ok
      return None
    for k in range(tries):
      if time.time() > t_end:
        return None
      pins = []
      for (t, cc, ss) in atoms:
        if k % 4 == 3 and self.rng.random() < 0.5:
          continue  # leave some free
        if k == 0 and m is not None:
          th = model_value(m, t)
          th = float(th) if th is not None else 0.0
        elif k == 1 and m is not None:
          cv, sv = model_value(m, cc), model_value(m, ss)
          th = math.atan2(float(sv or 0), float(cv if cv is not None else 1))
        else:
          th = self.rng.choice([0.0, self.rng.uniform(-3.1, 3.1), math.pi / 2, 0.5, -2.0, 3.0,
                                self.rng.uniform(-0.5, 0.5)])
        half = math.tan(th / 2)
        tt = Fraction(half).limit_denominator(64) if abs(half) < 1e3 else None
        if tt is None:
          cv, sv, tv = Fraction(-1), Fraction(0), Fraction(math.pi)
        else:
          cv = (1 - tt * tt) / (1 + tt * tt)
          sv = 2 * tt / (1 + tt * tt)
          tv = Fraction(2 * math.atan(float(tt)))
          turns = round((th - float(tv)) / (2 * math.pi))
          tv += turns * 2 * T.PI
        pins += [t == T.q(tv), cc == T.q(cv), ss == T.q(sv)]
      mm = self._quick(ctx, neg, pins, timeout=5)
      if mm is not None:
        ok = self._replay(h, inputs, c, mm)
        if ok:
          return ok
    return None

  # -- reporting
  def save(self, v):
    """Writes the replay file of a violation."""
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{self.pid}_{self.slot}_{self.violations.index(v)}.json')
    write_replay(p, self.pid, v)
    return f'{v.harness.name}/{v.claim} {v.note}', p

  def finish(self, level='model_checking', assumptions=()):
    n_claims = sum(len(r['claims']) for r in self.rows)
    holds = sum(1 for r in self.rows for c in r['claims'] if c['verdict'].startswith('holds'))
    samples = []
    for r in self.rows:
      for c in r['claims'][:4]:
        samples.append(f"{r['harness']}: {c['claim']} -> {c['verdict']} ({c['s'] if 's' in c else 0}s)")
    os.makedirs(EVID, exist_ok=True)
    ev = {
        'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level,
        'coverage': {
            'states': len(self.rows),
            'transitions': sum(r['equations'] for r in self.rows),
            'traces_validated_against_impl': self.validated,
            'samples': samples[:40] or ['none'],
            'counts_mean': 'states = symbolic harnesses (each one symbolic pre-state covering '
                           'every input within its bounds); transitions = primitive operations '
                           'of the real code executed symbolically; traces_validated = concrete '
                           'inputs on which encoding and real code were compared',
            'functions_encoded': self.functions,
            'claims': n_claims,
            'claims_shown': holds,
            'queries_discharged': self.solving.unsat,
            'queries': self.solving.queries,
            'closed_by_normal_form': self.solving.by_simplify,
            'reachability_witnesses': self.reached,
            'replays_on_real_code': self.replays,
            'solver_s': round(self.solving.time, 3),
            'solver_engines': self.solving.engines,
            'harnesses': _grouped(self.rows),
            'inconclusive': [e.split('\n')[0][:300] for e in self.errors + self.undecided],
        },
        'assumptions': list(assumptions) or DEFAULT_ASSUMPTIONS,
        'wall_s': round(time.time() - self.t0, 3),
        'violations': len(self.violations) + len(self.saved),
    }
    with open(os.path.join(EVID, f'{self.pid}.json'), 'w') as f:
      json.dump(ev, f, indent=1, default=str)
    for key, what in sorted(set(self.known)):
      print(f'KNOWN-FINDING: property={self.pid} {key}: {what}')
    self.saved += [self.save(v) for v in self.violations]
    for what, p in self.saved[:5]:
      print(f'  violated: {what}')
      print(f'VIOLATION property={self.pid} replay={p}')
    if self.saved:
      return 1
    if self.errors:
      for e in self.errors:
        print('INCONCLUSIVE', e, file=sys.stderr)
      return 2
    print(f'OK property={self.pid} harnesses={len(self.rows)} claims={n_claims} '
          f'queries={self.solving.queries} solver_s={self.solving.time:.2f} '
          f'wall_s={time.time() - self.t0:.1f}')
    return 0


def _grouped(rows, limit=36_000):
  """The harnesses of a run, those with the same bounds and functions as one entry."""
  groups = {}
  for r in rows:
    groups.setdefault((r['bounds'], tuple(r['functions'])), []).append(r)
  out = []
  for (bounds, functions), g in groups.items():
    claims = {}
    for r in g:
      for c in r['claims']:
        k = f"{c['claim']}: {c['verdict']}"
        claims[k] = claims.get(k, 0) + 1
    out.append({'name': g[0]['harness'], 'of_this_kind': len(g), 'bounds': bounds,
                'functions': list(functions),
                'equations': sum(r['equations'] for r in g),
                'queries': sum(r.get('queries') or 0 for r in g),
                'solver_s': round(sum(r.get('solver_s') or 0 for r in g), 3),
                'claims': [k if n == 1 else f'{k} (x{n})' for k, n in claims.items()]})
  # the file stays small: verdicts are left out, last groups first, once it would not
  size = 0
  for e in out:
    size += len(json.dumps(e))
    if size > limit:
      size -= len(json.dumps(e['claims']))
      e['claims'] = [f"{len(e['claims'])} kinds of claim"]
  return out


DEFAULT_ASSUMPTIONS = [
    'float32 arithmetic is idealised as exact real arithmetic (+-inf and nan tracked '
    'explicitly); literals are read as the shortest decimal / exact multiple of pi they print',
    'array sizes, value ranges and step counts are bounded as listed per harness',
    'XLA executes the traced program as its primitive semantics say',
    'a counterexample is reported only after it reproduces on the real code',
]


def _default(l):
  if l.kind == 'b':
    return True
  if l.kind == 'i':
    return l.lo if l.lo is not None else 0
  lo, hi = float(l.lo), float(l.hi)
  return min(max(0.0, lo), hi)


def _conv(l, v):
  if v is None:
    return _default(l)
  if l.kind == 'f':
    return float(v)
  if l.kind == 'i':
    return int(v)
  return bool(v)


def _mismatch(enc, real, tol):
  el = jax.tree_util.tree_leaves(enc)
  rl = jax.tree_util.tree_leaves(real)
  if len(el) != len(rl):
    return 'structure'
  for e, r in zip(el, rl):
    if not (isinstance(e, np.ndarray) and e.dtype == object):
      continue
    ra = np.asarray(r)
    for x, y in zip(e.reshape(-1), ra.reshape(-1)):
      if T.is_sym(x):
        return f'symbolic residue {x}'
      if ra.dtype.kind == 'b':
        if bool(x) != bool(y):
          return f'{x} vs {y}'
      elif ra.dtype.kind in 'iu':
        if int(x) != int(y):
          return f'{x} vs {y}'
      else:
        x, y = float(x), float(y)
        if x != x or y != y:
          if not (x != x and y != y):
            return f'{x} vs {y}'
        elif x != y and not abs(x - y) <= tol + 1e-3 * max(abs(x), abs(y)):
          return f'{x} vs {y}'
  return None


def write_replay(p, pid, v):
  leaves = jax.tree_util.tree_flatten_with_path(v.cargs)[0]
  data = {}
  used = {}
  for path, l in leaves:
    b = _name(path)
    k = used.get(b, 0)
    used[b] = k + 1
    try:
      data[b if not k else f'{b}__{k}'] = np.asarray(l).tolist()
    except Exception:
      data[b] = str(l)
  with open(p, 'w') as f:
    json.dump({'property': pid, 'harness': v.harness.name, 'claim': v.claim, 'note': v.note,
               'inputs': data,
               'how_to_replay': f'python /verif/run.py {pid} --replay {p}'}, f, indent=1)


def load_known(pid):
  p = os.path.join(VERIF, 'known_findings.json')
  if not os.path.exists(p):
    return []
  with open(p) as f:
    return [k for k in json.load(f)['known'] if k['property'] == pid]


def c(name, prop, reach=True, abstract=()):
  return Claim(name, prop, reach, abstract)


def all_same(a, b):
  """Conjunction of data identity over two arrays (shape must match)."""
  a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
  if a.shape != b.shape:
    return False
  return T.and_([T.same(x, y) for x, y in zip(a.reshape(-1), b.reshape(-1))])


def all_close(a, b, margin=Fraction(1, 100), tol=None):
  a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
  if a.shape != b.shape:
    return False
  return T.and_([T.close(x, y, margin, tol) for x, y in zip(a.reshape(-1), b.reshape(-1))])


def tree_same(a, b):
  la, ta = jax.tree_util.tree_flatten(a)
  lb, tb = jax.tree_util.tree_flatten(b)
  if len(la) != len(lb):
    return False
  return T.and_([all_same(x, y) for x, y in zip(la, lb)])
