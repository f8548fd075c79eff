"""C34: the data loader delivers every record once, in batches of the configured shape."""
import os
import tempfile
import time
from unittest import mock

import jax
import numpy as np

from svx import pystr as S
from svx.z3load import z3
from waymax import config
from waymax.dataloader import dataloader_utils as DU

MODEL = ('tf.data is replaced by its documented meaning: shard(n, i) keeps the positions congruent to i, interleave merges its sources in any order that '
         'keeps each source in order, batch groups consecutive elements, shuffle is an arbitrary permutation, map/unbatch/repeat/range/from_tensor_slices as '
         'documented; records are opaque')
ASSUMPTIONS = [MODEL, 'the current source of dataloader_utils runs on symbolic counts; a counterexample is reported only after it reproduces with TensorFlow on real record files']
GUARD = []    # conditions under which the current source of an interleave exists
OBJ = 2       # objects per scenario when scenarios are split
CAP = 4


def dm(x, n, mod=False):
  """x div n (or x mod n) for x >= 0, n >= 1."""
  n = z3.simplify(n)
  f = (lambda v: x % v) if mod else (lambda v: x / v)
  if z3.is_int_value(n):
    return f(n)
  e = f(n)
  for k in range(CAP, 0, -1):
    e = z3.If(n == k, f(z3.IntVal(k)), e)
  return e


class At:
  """One record (or object) with the condition under which it is present, and its coordinates."""

  def __init__(self, g, c, v):
    self.g, self.c, self.v = g, list(c), v


class Data:
  """Meaning of a tf.data.Dataset."""

  def __init__(self, atoms, n, inf=False, depth=0):
    self.atoms, self.n, self.inf, self.depth = atoms, n, inf, depth

  def flat(self, what):
    if self.depth:
      raise S.Unsupported(f'{what} on batches')

  def shard(self, num_shards=None, index=None, name=None):
    self.flat('shard')
    n, i = S.zi(num_shards), S.zi(index)
    if S.SymBool(z3.And(*GUARD, z3.Or(n < 1, i < 0, i >= n))):
      raise ValueError('shard index outside its range')
    at = [At(z3.And(a.g, dm(a.c[0], n, True) == i), [dm(a.c[0], n)], a.v) for a in self.atoms]
    return Data(at, z3.If(self.n > i, dm(self.n - i - 1, n) + 1, z3.IntVal(0)), self.inf)

  def interleave(self, map_func, cycle_length=None, block_length=None, num_parallel_calls=None, deterministic=None, name=None):
    self.flat('interleave')
    src = []
    for a in self.atoms:
      if not z3.is_true(z3.simplify(a.g)) and S.ctx().sat(*GUARD, a.g) is None:
        continue
      GUARD.append(a.g)
      try:
        src.append((a, map_func(a.v)))
      finally:
        GUARD.pop()
    depth = {d.depth for _, d in src} or {0}
    if len(depth) != 1:
      raise S.Unsupported('sources of different depth')
    total = z3.simplify(sum((z3.If(a.g, d.n, 0) for a, d in src), z3.IntVal(0)))
    inf = any(d.inf for _, d in src)
    if len(src) == 1:
      a, d = src[0]
      return Data([At(z3.And(a.g, x.g), x.c, x.v) for x in d.atoms], total, inf, d.depth)
    out, ctx = [], S.ctx()
    for a, d in src:
      part = []
      for x in d.atoms:
        p = ctx.var('pos')
        g = z3.And(a.g, x.g)
        ctx.pc.append(z3.Implies(g, z3.And(p >= 0, z3.BoolVal(True) if inf else p < total)))
        for q, y in part:
          ctx.pc.append(z3.Implies(z3.And(g, y.g), z3.And((x.c[0] < y.c0) == (p < q), (x.c[0] == y.c0) == (p == q))))
        for q, y in out:
          ctx.pc.append(z3.Implies(z3.And(g, y.g), p != q))
        y = At(g, [p] + x.c[1:], x.v)
        y.c0 = x.c[0]
        part.append((p, y))
      out += part
    return Data([y for _, y in out], total, inf, depth.pop())

  def flat_map(self, map_func, name=None):
    return self.interleave(map_func)

  def repeat(self, count=None, name=None):
    self.flat('repeat')
    if count is None or isinstance(count, int) and count < 0:
      return Data(self.atoms, self.n, True)
    k = count if isinstance(count, int) else S.ctx().concrete(S.zi(count))
    return Data([At(a.g, [a.c[0] + j * self.n], a.v) for j in range(k) for a in self.atoms], self.n * k, self.inf)

  def shuffle(self, buffer_size, seed=None, reshuffle_each_iteration=None, name=None):
    ctx, out = S.ctx(), []
    self.flat('shuffle')
    for a in self.atoms:
      p = ctx.var('shuffled')
      ctx.pc.append(z3.Implies(a.g, z3.And(p >= 0, z3.BoolVal(True) if self.inf else p < self.n)))
      for b in out:
        ctx.pc.append(z3.Implies(z3.And(a.g, b.g), p != b.c[0]))
      out.append(At(a.g, [p], a.v))
    return Data(out, self.n, self.inf)

  def map(self, map_func, num_parallel_calls=None, deterministic=None, name=None):
    if self.depth:
      return Data([At(a.g, a.c, ('after batching', map_func(a.v))) for a in self.atoms], self.n, self.inf, self.depth)
    return Data([At(a.g, a.c, map_func(a.v)) for a in self.atoms], self.n, self.inf)

  def unbatch(self, name=None):
    if self.depth:
      raise S.Unsupported('unbatch of batches')
    return Data([At(a.g, [a.c[0] * OBJ + o], ('object', o, a.v)) for a in self.atoms for o in range(OBJ)], self.n * OBJ, self.inf)

  def batch(self, batch_size, drop_remainder=False, num_parallel_calls=None, deterministic=None, name=None):
    b = S.zi(batch_size)
    if not isinstance(drop_remainder, bool):
      drop_remainder = bool(drop_remainder)
    n = dm(self.n, b) if drop_remainder else dm(self.n + b - 1, b)
    keep = z3.BoolVal(True)
    at = []
    for a in self.atoms:
      q = dm(a.c[0], b)
      at.append(At(z3.And(a.g, keep if self.inf else q < n), [q, dm(a.c[0], b, True)] + a.c[1:], a.v))
    return Data(at, n, self.inf, self.depth + 1)

  def prefetch(self, *a, **k):
    return self

  cache = with_options = prefetch

  def take(self, *a, **k):
    raise S.Unsupported('take')

  def as_numpy_iterator(self):
    return [('element of', self)]

  def __iter__(self):
    return iter(self.as_numpy_iterator())


class DatasetApi(Data):
  @staticmethod
  def from_tensor_slices(xs, name=None):
    xs = list(xs)
    return Data([At(z3.BoolVal(True), [z3.IntVal(i)], x) for i, x in enumerate(xs)], z3.IntVal(len(xs)))

  @staticmethod
  def range(*a, **k):
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a + (1,))[:3]
    n = S.zi(hi)
    if S.symbolic(lo) or lo != 0 or S.symbolic(st) or st != 1:
      raise S.Unsupported('range of this form')
    top = n.as_long() if z3.is_int_value(n) else CAP
    return Data([At(z3.IntVal(i) < n, [z3.IntVal(i)], i) for i in range(top)], n)

  from_tensors = list_files = None


class Opaque:
  def __getitem__(self, i):
    return self

  def __int__(self):
    return 0


class Mod:
  """A library of which only the given names may be used."""

  def __init__(self, what, **kw):
    self.__dict__.update(kw, _what=what)

  def __getattr__(self, k):
    raise S.Unsupported(f'{self._what}.{k}')


class Loading:
  """One family of configurations."""

  def __init__(self, name, files=1, recs=1, procs=1, workers=1, dims=0, repeat=1, drop=True, seed=None, by_scenario=True, entry='examples', distributed=False, order=False):
    self.__dict__.update(name=name, files=files, recs=recs, procs=procs, workers=workers, dims=dims, repeat=repeat, drop=drop, seed=seed, by_scenario=by_scenario,
                         entry=entry, distributed=distributed, order=order, args=(), optional=False)
    self.functions = ['dataloader_utils.tf_examples_dataset'] + (['dataloader_utils.get_data_generator'] if entry != 'examples' else [])
    self.bounds = (f'{files} file{"s" * (files > 1)} of 0..{recs} records, 1..{procs} processes, 1..{workers} workers, {dims} batch dimension{"s" * (dims != 1)} of 1..3'
                   + (', 1..3 devices' if distributed else '') + f', repeat {repeat}, seed {seed}, drop {drop}' + ('' if by_scenario else ', split by object'))
    I = z3.Int
    self.P, self.S, self.D = I('processes'), I('workers'), I('devices')
    self.B = [I(f'batch{k}') for k in range(dims)]
    self.R = [I(f'records{k}') for k in range(files)]
    # known number of records of single files starting at 0 but empty datasets are trivial
    self.assume = [self.P >= 1, self.P <= procs, self.S >= 1, self.S <= workers, self.D >= 1, self.D <= 3]
    self.assume += [z3.And(b >= 1, b <= 3) for b in self.B] + [z3.And(r >= 0, r <= recs) for r in self.R]
    self.path = '/data/set' if files == 1 else f'/data/set@{files}'
    self.names = ['/data/set'] if files == 1 else DU_names(files)

  def settings(self, v):
    """Keyword arguments shared by the symbolic and the real call; v maps a symbol to a value."""
    return dict(path=self.path, data_format=config.DataFormat.TFRECORD, shuffle_seed=self.seed, repeat=self.repeat, batch_dims=tuple(v(b) for b in self.B),
                num_shards=v(self.S), drop_remainder=self.drop, batch_by_scenario=self.by_scenario)

  # ------------------------------------------------ symbolic
  def call(self, c):
    ns = S.load(DU)
    outs, q = [], 0
    sym = lambda e: S.SymInt(e)
    while q == 0 or S.SymBool(z3.IntVal(q) < self.P):
      calls = []

      def records(name, *a, **k):
        i = self.names.index(name)
        return Data([At(z3.IntVal(r) < self.R[i], [z3.IntVal(r)], ('record', i, r)) for r in range(self.recs)], self.R[i])

      def wrapped(kind):
        def f(fn, *a, **k):
          return lambda x: (kind, fn(x))
        return f
      rnd = Mod('jax.random', PRNGKey=lambda s: Opaque(), key=lambda s: Opaque(), fold_in=lambda k, d: Opaque(), split=lambda *a: Opaque())
      ns['jax'] = Mod('jax', process_count=lambda: sym(self.P), process_index=lambda q=q: q, local_device_count=lambda: sym(self.D),
                      device_count=lambda: sym(self.D * self.P), random=rnd, pmap=wrapped('pmap'), jit=wrapped('jit'))
      ns['tf'] = Mod('tf', data=Mod('tf.data', Dataset=DatasetApi, TFRecordDataset=records, AUTOTUNE=-1, experimental=Mod('tf.data.experimental')), Tensor=object)
      pre = lambda x: ('preprocessed', x)
      kw = self.settings(sym)
      if self.entry == 'examples':
        outs.append(('data', ns['tf_examples_dataset'](preprocess_fn=pre, **kw)))
      else:
        cfg = Mod('config', max_num_rg_points=4, shuffle_buffer_size=7, deterministic=True, tf_data_service_address=None, distributed=self.distributed, **kw)
        post = None if self.entry == 'raw' else (lambda x: ('post', x))
        got = list(ns['get_data_generator'](cfg, pre, post))
        outs.append(('generator', got))
      q += 1
    return [tuple(outs)]

  def shape(self):
    return ([self.D] if self.distributed else []) + self.B

  def claims(self, c, kind, val):
    if kind != 'return':
      return [('loads', None, repr(val))]
    cs, datas = [], []
    for how, o in val[0]:
      if how == 'generator':
        d = o[0] if len(o) == 1 else None
        if self.entry != 'raw' and d is not None:
          want = 'pmap' if self.distributed else 'jit'
          d = d[1] if d[0] == want else None
          d = d[1] if d is not None and d[0] == 'post' else None
        ok = d is not None and d[0] == 'element of'
        cs.append(('each element is converted once', z3.BoolVal(ok), repr(o)[:200]))
        if not ok:
          return cs
        o = d[1]
      datas.append(o)
    dims = self.shape()
    atoms = [a for d in datas for a in d.atoms]
    cs.append(('batch dimensions', z3.BoolVal(all(d.depth == len(dims) for d in datas)), ''))
    if any(d.depth != len(dims) for d in datas):
      return cs
    cs.append(('repeats as often as configured', z3.BoolVal(all(d.inf == (self.repeat is None) for d in datas)), ''))
    keys = {}
    good = True
    for a in atoms:
      v, o = a.v, 0
      if not self.by_scenario:
        good, (o, v) = good and v[0] == 'object', (v[1], v[2]) if v[0] == 'object' else (0, v)
      if v[0] == 'preprocessed' and v[1][0] == 'record':
        keys.setdefault((v[1][1], v[1][2], o), []).append(a)
      else:
        good = False
    cs.append(('each record is preprocessed once, before batching', z3.BoolVal(good), ''))
    if not good:
      return cs
    times = 1 if self.repeat is None else self.repeat
    one = lambda g: z3.If(g, z3.IntVal(1), z3.IntVal(0))
    size = z3.IntVal(1)
    for b in dims:
      size = size * b
    if not dims or not self.drop:
      ok = []
      for i in range(self.files):
        for r in range(self.recs):
          for o in range(1 if self.by_scenario else OBJ):
            ok.append(z3.If(r < self.R[i], z3.Sum([one(a.g) for a in keys.get((i, r, o), [])] + [z3.IntVal(0)]) == times, z3.Not(z3.Or([a.g for a in keys.get((i, r, o), [])]))))
      cs.append(('every record exactly once per repetition, over all processes and workers', z3.And(ok), ''))
    else:
      cs.append(('no record more often than repeated', z3.And([z3.Sum([one(a.g) for a in k] + [z3.IntVal(0)]) <= times for k in keys.values()]), ''))
    if dims:
      cs.append(('places inside the batch shape', z3.And([z3.Implies(a.g, z3.And([z3.And(a.c[j + 1] >= 0, a.c[j + 1] < b) for j, b in enumerate(dims)])) for a in atoms]), ''))
      pairs = [(a, b) for d in datas for x, a in enumerate(d.atoms) for b in d.atoms[:x]]
      cs.append(('one element per place', z3.And([z3.Implies(z3.And(a.g, b.g), z3.Or([p != q for p, q in zip(a.c, b.c)])) for a, b in pairs] + [z3.BoolVal(True)]), ''))
      if self.drop and self.repeat is not None:
        cs.append(('only full batches', z3.And([z3.Implies(a.g, z3.Sum([one(z3.And(b.g, b.c[0] == a.c[0])) for b in d.atoms]) == size) for d in datas for a in d.atoms]), ''))
    if self.order:
      total = self.R[0] * times * (1 if self.by_scenario else OBJ)
      keep = dm_mul(total, dims) if dims and self.drop else total
      ok = []
      for (i, r, o), ats in keys.items():
        lex = []
        for a in ats:
          e = a.c[0]
          for j, b in enumerate(dims):
            e = e * b + a.c[j + 1]
          lex.append(e)
        for t in range(times):
          at = (self.R[0] * t + r) * (1 if self.by_scenario else OBJ) + o
          here = z3.Or([z3.And(a.g, e == at) for a, e in zip(ats, lex)])
          ok.append(here == z3.And(r < self.R[0], z3.BoolVal(True) if self.repeat is None else at < keep))
      cs.append(('in the stored order, first batch dimension outermost, dropping only what does not fill a batch', z3.And(ok), ''))
    return cs

  # ------------------------------------------------ the real code
  def real(self, v, keep=None):
    """Runs TensorFlow on real files; True if the property holds."""
    with tempfile.TemporaryDirectory() as tmp:
      import tensorflow as tf
      base = os.path.join(tmp, 'set')
      names = [base] if self.files == 1 else [base + n[len('/data/set'):] for n in self.names]
      recs = [v(r) for r in self.R]
      for i, n in enumerate(names):
        with tf.io.TFRecordWriter(n) as w:
          for r in range(recs[i]):
            w.write(np.array([100 * i + r], np.int32).tobytes())
      done = []

      def pre(s):
        x = tf.io.decode_raw(s, tf.int32)[0]
        return {'v': x if self.by_scenario else tf.stack([x * 10 + o for o in range(OBJ)])}
      kw = dict(self.settings(v), path=base if self.files == 1 else f'{base}@{self.files}')
      post = None if self.entry in ('raw', 'examples') else (lambda x: {'v': x['v'] + 100000})
      times = 1 if self.repeat is None else self.repeat
      want = sorted([(100 * i + r) if self.by_scenario else (100 * i + r) * 10 + o for i in range(self.files) for r in range(recs[i]) for o in range(1 if self.by_scenario else OBJ)] * times)
      dims = [v(b) for b in self.shape()]
      size = int(np.prod(dims)) if dims else 1
      outs = []
      for q in range(v(self.P)):
        real_pc, real_pi, real_dc = jax.process_count, jax.process_index, jax.local_device_count
        with mock.patch.object(jax, 'process_count', lambda *a: v(self.P)), mock.patch.object(jax, 'process_index', lambda *a, q=q: q), \
             mock.patch.object(jax, 'local_device_count', lambda *a: v(self.D)), mock.patch.object(jax, 'pmap', lambda f, **k: (lambda x: f(x))), \
             mock.patch.object(jax, 'jit', lambda f, **k: (lambda x: f(x))):
          if self.entry == 'examples':
            it = iter(DU.tf_examples_dataset(preprocess_fn=pre, **kw).as_numpy_iterator())
          else:
            cfg = Mod('config', max_num_rg_points=4, shuffle_buffer_size=7, deterministic=True, tf_data_service_address=None, distributed=self.distributed, **kw)
            it = iter(DU.get_data_generator(cfg, pre, post))
          el = []
          for x in it:
            el.append(np.asarray(x['v']) - (100000 if post else 0))
            if self.repeat is None and len(el) * size >= 3 * max(len(want), 1):
              break
            if len(el) > 500:
              return False
          outs.append(el)
      if not all(x.ndim == len(dims) and (list(x.shape) == dims if self.drop or not dims else list(x.shape)[1:] == dims[1:] or len(dims) > 1 or x.size <= size)
                 for el in outs for x in el):
        return False
      flat = [int(y) for el in outs for x in el for y in x.reshape(-1)]
      if self.repeat is None:
        if not want:
          return True
        if self.order and flat[:len(want)] != want[:len(flat)]:
          return False
        return set(flat) <= set(want) and len(flat) >= 3 * len(want) - size + 1
      if not dims or not self.drop:
        if sorted(flat) != want:
          return False
      else:
        if any(flat.count(x) > want.count(x) for x in flat):
          return False
      if self.order:
        w = sorted(set(want)) * times
        n = len(w) // size * size if dims and self.drop else len(w)
        return flat == w[:n]
      return True

  def replay(self, d):
    i = d['inputs']
    ok = self.real(lambda e: i.get(str(e), 1))
    print('holds on the real code' if ok else f'violated: {self.name} {i}')
    return 0 if ok else 1

  def execute(self, runner):
    t0 = time.time()
    sv = runner.solving
    q0, s0 = sv.queries, sv.time
    row = {'harness': self.name, 'functions': self.functions, 'bounds': self.bounds, 'claims': [], 'equations': 0}
    runner.rows.append(row)
    for f in self.functions:
      if f not in runner.functions:
        runner.functions.append(f)

    def stats(s):
      a = time.time()
      s.set('timeout', 200000)
      r = s.check()
      sv.queries += 1
      sv.unsat += r == z3.unsat
      sv.time += time.time() - a
      return r
    names = [self.P, self.S, self.D] + self.B + self.R
    try:
      for c, kind, val in S.explore(self.call, self.assume, False, stats):
        row['equations'] += 1
        S._cur[0] = c
        try:
          if c.sat() is None:
            raise S.Unsupported('the model of tf.data is contradictory on this path')
          for claim, cond, why in self.claims(c, kind, val):
            a = time.time()
            bad = c.sat(z3.Not(cond)) if cond is not None else c.sat()
            if bad is None:
              row['claims'].append({'claim': claim, 'verdict': 'holds', 's': round(time.time() - a, 3)})
              runner.reached += 1
              continue
            v = self.confirm(runner, c, claim, cond, bad, names, why)
            row['claims'].append({'claim': claim, 'verdict': v, 's': round(time.time() - a, 3)})
            if v.startswith('not reproduced'):
              raise S.Unsupported(f'{claim}: {why}: counterexample does not reproduce on the real code')
            return
        finally:
          S._cur[0] = None
      for pick in (1, 2):
        s = z3.Solver()
        s.add(self.assume)
        s.push()
        s.add([r == self.recs - pick + 1 for r in self.R] + [x == min(pick, h) for x, h in ((self.P, self.procs), (self.S, self.workers))] + [b == pick for b in self.B] + [self.D == pick])
        if s.check() != z3.sat:
          continue
        m = s.model()
        if not self.real(lambda e: m.eval(e, model_completion=True).as_long()):
          raise S.Unsupported(f'encoder disagrees with the real code on {m}')
        runner.validated += 1
    except (S.Unsupported, S.TooManyBranches, S.Suspect) as e:
      runner.errors.append(f'{self.name}: {type(e).__name__} {e}')
    except Exception as e:
      runner.errors.append(f'{self.name}: {type(e).__name__}: {e}')
    finally:
      row.update(queries=sv.queries - q0, solver_s=round(sv.time - s0, 3), wall_s=round(time.time() - t0, 3))

  def confirm(self, runner, c, claim, cond, m, names, why):
    from svx.harness import Violation
    extra = [] if cond is None else [z3.Not(cond)]
    for _ in range(4):
      vals = {str(e): m.eval(e, model_completion=True).as_long() for e in names}
      runner.replays += 1
      try:
        ok = self.real(lambda e: vals[str(e)])
      except Exception as e:
        ok, why = False, f'{why} {type(e).__name__}: {e}'
      if not ok:
        key = f'{self.name}/{claim}'
        for k in runner.known_list:
          if k['where'] == key:
            runner.known.append((key, k.get('what', '')))
            return 'known finding'
        runner.violations.append(Violation(self, claim, vals, f'{vals}: {why[:200]}'))
        return 'violated'
      extra.append(z3.Or([e != vals[str(e)] for e in names]))
      m = c.sat(*extra)
      if m is None:
        break
    return 'not reproduced'


def dm_mul(total, dims):
  """The largest multiple of the batch size that is at most total (batches nest, so floor by floor)."""
  n, size = total, z3.IntVal(1)
  for b in reversed(dims):
    n, size = dm(n, b), size * b
  return n * size


def DU_names(k):
  return [f'/data/set-{i:05d}-of-{k:05d}' for i in range(k)]


def harnesses(tier):
  deep = tier == 'thorough'
  L = Loading
  hs = [
      L('files_5', files=5, recs=1, procs=3, workers=3),
      L('files_4_repeated', files=4, recs=2, procs=2, workers=2, repeat=2),
      L('files_3_forever', files=3, recs=1, procs=2, workers=2, repeat=None),
      L('files_4_shuffled', files=4, recs=1, procs=3, workers=2, seed=7),
      L('files_3_objects', files=3, recs=1, procs=2, workers=2, by_scenario=False),
      L('order', recs=4, order=True, repeat=2),
      L('order_forever', recs=3, order=True, repeat=None, dims=1),
      L('batches', recs=7, dims=1, order=True),
      L('batches_keep', recs=7, dims=1, order=True, drop=False),
      L('batches_twice', recs=4, dims=1, order=True, repeat=2),
      L('batches_nested', recs=7, dims=2, order=True),
      L('batches_objects', recs=3, dims=1, order=True, by_scenario=False),
      L('batches_workers', files=3, recs=2, workers=2, dims=1),
      L('batches_workers_keep', files=2, recs=2, procs=2, workers=2, dims=1, drop=False),
      L('batches_shuffled', recs=4, dims=1, seed=3),
      L('generator', files=3, recs=1, procs=2, workers=2, entry='generator'),
      L('generator_batches', recs=5, dims=1, order=True, entry='generator'),
      L('generator_keep', recs=4, dims=1, order=True, entry='raw', drop=False),
      L('generator_forever', recs=3, order=True, entry='generator', repeat=None),
      L('generator_devices', recs=6, dims=1, order=True, entry='generator', distributed=True),
      L('generator_devices_only', recs=4, order=True, entry='generator', distributed=True),
      L('generator_objects', recs=3, dims=1, order=True, entry='generator', by_scenario=False),
      L('generator_raw', recs=3, order=True, entry='raw', repeat=2),
  ]
  if deep:
    hs += [
        L('files_8', files=8, recs=1, procs=4, workers=4),
        L('files_5_repeated', files=5, recs=2, procs=3, workers=3, repeat=2),
        L('batches_nested_long', recs=12, dims=2, order=True),
        L('batches_nested_twice', recs=6, dims=2, order=True, repeat=2),
        L('batches_3', recs=9, dims=3, order=True),
        L('batches_workers_nested', files=3, recs=2, workers=2, dims=2),
        L('generator_devices_nested', recs=9, dims=2, order=True, entry='generator', distributed=True),
    ]
  return hs
