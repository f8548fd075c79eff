"""C29: sharded patterns expand to every shard exactly once."""
import time

from svx import pystr as S
from svx.z3load import z3
from waymax import config
from waymax.dataloader import dataloader_utils as DU

BIG = 10 ** 7
MODEL = ('strings are sequences of literals, opaque names and padded decimals; math.log10 of an integer lies between the '
         'exponents of the surrounding powers of ten')
ASSUMPTIONS = [MODEL, 'a loop over a symbolic range is decided for one arbitrary index (iterations independent of each other) and unrolled in full for small counts',
               'a counterexample is reported only after it reproduces on the real code']
# Texts tried when the behaviour depends on what an opaque name contains.
TRICKY = ('a%b', 'a%d', '100%', 'a%%b', '%s', 'a{b', 'a{}b', '{0}', 'a-b', 'a-00000-of-00001', 'a.b', 'dir/a', ' a ', 'a0', '0', '-', 'A', 'a/b/c', 'of', '00000', 'gs://b/c', '/a', '_', 'a_b', 'a:b', '~/a', '$a', '*', '?')


def oracle(base, n):
  width = max(5, len(str(n)))
  return [base + '-' + str(i).rjust(width, '0') + '-of-' + str(n).rjust(5, '0') for i in range(n)]


def expected(base, i, n):
  w = z3.If(S.digits(n) > 5, S.digits(n), z3.IntVal(5))
  return S.SymStr([base, '-', S.Dec(i, w), '-of-', S.Dec(n, z3.IntVal(5))])


class Rec:
  """Stand-in for tensorflow: records the files of the dataset."""

  def __init__(self, files=None):
    self.files = [] if files is None else files

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    if name == 'from_tensor_slices':
      return lambda fs: self.files.append(fs) or Rec(self.files)
    return Rec(self.files)

  def __call__(self, *a, **k):
    return Rec(self.files)


class Expansion:
  """One family of paths through the real code."""

  def __init__(self, name, pieces, want, entry='generate', lo=1, hi=BIG, generic=True, optional=False, bounds=''):
    self.name, self.pieces, self.want, self.entry, self.optional = name, pieces, want, entry, optional
    self.lo, self.hi, self.generic = lo, hi, generic
    self.functions = ['dataloader_utils.generate_sharded_filenames'] + (['dataloader_utils.tf_examples_dataset'] if entry != 'generate' else [])
    self.bounds = bounds or f'shard counts {lo}..{hi}, {"one arbitrary shard" if generic else "all shards unrolled"}'
    self.args = ()

  # -- the real code on a concrete path
  def concrete(self, path):
    if self.entry == 'generate':
      return list(DU.generate_sharded_filenames(path))
    tf, rec = DU.tf, Rec()
    DU.tf = rec
    try:
      DU.tf_examples_dataset(path, config.DataFormat.TFRECORD, None)
    finally:
      DU.tf = tf
    (files,) = rec.files
    return list(files)

  def good(self, path, base, n):
    """Whether the real code does the right thing."""
    try:
      got = self.concrete(path)
    except Exception:
      return self.want in ('reject', 'nothing')
    if self.want == 'expand':
      return got == oracle(base, n)
    return got == [path] if self.want == 'plain' else (self.want == 'nothing' and got == [])

  def replay(self, d):
    i = d['inputs']
    ok = self.good(i['path'], i['base'], i['n'])
    print('holds on the real code' if ok else f'violated: {self.name} {i["path"]!r}')
    return 0 if ok else 1

  # -- the real code on a symbolic path
  def call(self, path):
    ns = S.load(DU)
    if self.entry == 'generate':
      return ns['generate_sharded_filenames'](path)
    rec = Rec()
    ns['tf'] = rec
    ns['tf_examples_dataset'](path, config.DataFormat.TFRECORD, None)
    (files,) = rec.files
    return files

  def execute(self, runner):
    t0 = time.time()
    sv = runner.solving
    q0, s0 = sv.queries, sv.time
    row = {'harness': self.name, 'functions': self.functions, 'bounds': self.bounds, 'claims': [], 'equations': 0}
    runner.rows.append(row)
    for f in self.functions:
      if f not in runner.functions:
        runner.functions.append(f)

    def stats(s):
      a = time.time()
      r = s.check()
      sv.queries += 1
      sv.unsat += r == z3.unsat
      sv.time += time.time() - a
      return r
    n = z3.Int('n')
    assume = [n >= self.lo, n <= self.hi]
    self.n = n
    path = S.SymStr(self.pieces(n))
    try:
      for c, kind, val in S.explore(lambda c: self.call(path), assume, self.generic, stats):
        row['equations'] += 1
        S._cur[0] = c
        try:
          for claim, cond, why in self.claims(c, kind, val, path):
            a = time.time()
            bad = c.sat(z3.Not(cond)) if cond is not None else c.sat()
            if bad is None:
              row['claims'].append({'claim': claim, 'verdict': 'holds', 's': round(time.time() - a, 3)})
              runner.reached += 1
              continue
            v = self.confirm(runner, c, claim, cond, why)
            row['claims'].append({'claim': claim, 'verdict': v, 's': round(time.time() - a, 3)})
            if v.startswith('not reproduced'):
              raise S.Unsupported(f'{claim}: {why}: counterexample does not reproduce on the real code')
            return
        finally:
          S._cur[0] = None
      self.validate(runner)
    except (S.Unsupported, S.TooManyBranches, S.Suspect) as e:
      hard = self.generic and isinstance(e, S.TooManyBranches)
      (runner.undecided if self.optional or hard else runner.errors).append(f'{self.name}: {type(e).__name__} {e}')
    except Exception as e:
      runner.errors.append(f'{self.name}: {type(e).__name__}: {e}')
    finally:
      row.update(queries=sv.queries - q0, solver_s=round(sv.time - s0, 3), wall_s=round(time.time() - t0, 3))

  def claims(self, c, kind, val, path):
    if kind == 'suspect':
      return [('content of the name', None, str(val))]
    if self.want == 'reject':
      return [('rejected', z3.BoolVal(kind == 'raise'), repr(val))]
    if self.want == 'nothing':
      none = kind == 'raise' or (isinstance(val, list) and val == [])
      return [('no file name', z3.BoolVal(none), repr(val))]
    if kind == 'raise' or not isinstance(val, list):
      return [('expands', None, repr(val))]
    if self.want == 'plain':
      e = S.same(val[0], path) if len(val) == 1 else None
      return [('single file', e, repr(val))]
    base, n = path.pieces[0], self.n
    base = S.SymStr(path.pieces[:[k for k, p in enumerate(path.pieces) if isinstance(p, str) and p.endswith('@')][0] + 1])
    base = S.SymStr(base.pieces[:-1] + [base.pieces[-1][:-1]])
    if not self.generic:
      k = len(val)
      cs = [('one name per shard', n == k, f'{k} names')]
      return cs + [(f'name {i}', S.same(S.resolve(x, c), S.resolve(expected(base, z3.IntVal(i), n), c)) if S.is_str(x) else None, repr(x)) for i, x in enumerate(val)]
    if len(c.loops) != 1 or len(val) != 1:
      if not c.loops:     # the names do not come from a loop over the shards
        return [('one name per shard', z3.And(n == len(val)), f'{len(val)} names')] + [
            (f'name {i}', S.same(S.resolve(x, c), S.resolve(expected(base, z3.IntVal(i), n), c)) if S.is_str(x) else None, repr(x)) for i, x in enumerate(val)]
      raise S.Unsupported(f'{len(c.loops)} loops, {len(val)} names')
    i, lo, hi = c.loops[0]
    x = val[0]
    return [('one name per shard', hi - lo == n, f'range {lo}..{hi}'),
            ('name of any shard', S.same(x, expected(base, i - lo, n)) if S.is_str(x) else None, repr(x))]

  def confirm(self, runner, c, claim, cond, why):
    """Replays concrete instances of the failing path on the real code."""
    m, extra = None, [] if cond is None else [z3.Not(cond)]
    for cap in (9, 2000, 200000, BIG):
      m = c.sat(*extra, self.n <= cap)
      if m is not None:
        break
    nv = m.eval(self.n, model_completion=True).as_long()
    texts = list(TRICKY)
    has = [lit for (nm, k, lit), b in c.preds.items() if z3.is_true(m.eval(b, model_completion=True))]
    texts = ['a' + lit + 'b' for lit in has] + [lit + 'a' for lit in has] + [lit for lit in has] + ['data'] + texts
    for t in texts:
      path, base = self.render(m, t)
      if path is None:
        continue
      runner.replays += 1
      if not self.good(path, base, nv):
        from svx.harness import Violation
        key = f'{self.name}/{claim}'
        for k in runner.known_list:
          if k['where'] == key:
            runner.known.append((key, k.get('what', '')))
            return 'known finding'
        runner.violations.append(Violation(self, claim, {'path': path, 'base': base, 'n': nv}, f'{path!r}: {why[:200]}'))
        return 'violated'
    return 'not reproduced'

  def render(self, m, t):
    out, base = '', None
    for p in self.pieces(self.n):
      if isinstance(p, S.Name):
        v = {False: 'x1y'}.get(p.number, t)
        if p.number is False and t in ('', ' a '):
          v = '1.5'
        if any(ch in v for ch in p.without):
          return None, None
        out += v
      elif isinstance(p, S.Dec):
        out += str(m.eval(p.v, model_completion=True).as_long()).rjust(m.eval(p.w, model_completion=True).as_long(), p.fill)
      else:
        out += p
    k = out.rfind('@')
    return out, out[:k] if k >= 0 else out

  def validate(self, runner):
    """The encoding against the real code on instances of the family."""
    for nv, t in ((max(self.lo, 1), 'data'), (min(self.hi, 12), 'dir/a%b')):
      if not self.lo <= nv <= self.hi:
        nv = self.lo
      s = z3.Solver()
      s.add(self.n == nv)
      assert s.check() == z3.sat
      path, base = self.render(s.model(), t)
      if path is None:
        continue
      if not self.good(path, base, nv):
        raise S.Unsupported(f'encoder disagrees with the real code on {path!r}')
      runner.validated += 1


def harnesses(tier):
  deep = tier == 'thorough'
  name = lambda s, wo='@', **k: S.Name(s, wo, **k)
  dec = lambda n, w=0: S.Dec(n, z3.IntVal(w))
  E = Expansion
  hs = []
  for w in (0, 5, 8) if not deep else range(0, 11):
    hs.append(E(f'expand w{w}', lambda n, w=w: [name('base'), '@', dec(n, w)], 'expand'))
  for k in (4,) if not deep else (4, 12, 40):
    hs.append(E(f'expand all {k}', lambda n: [name('base'), '@', dec(n)], 'expand', hi=k, generic=False))
  R = dict(bounds='every text of the shape')
  hs += [
      E('no separator', lambda n: [name('base')], 'reject', **R),
      E('two separators', lambda n: [name('base'), '@', name('more'), '@', dec(n)], 'reject', **R),
      E('two separators at the end', lambda n: [name('base'), '@@', dec(n)], 'reject', **R),
      E('two separators with counts', lambda n: [name('base'), '@', dec(n), '@', dec(n)], 'reject', **R),
      E('count no number', lambda n: [name('base'), '@', name('count', '@', number=False)], 'reject', **R),
      E('count missing', lambda n: [name('base'), '@'], 'reject', **R),
      E('count zero', lambda n: [name('base'), '@', dec(n)], 'nothing', lo=0, hi=0),
      E('count negative', lambda n: [name('base'), '@-', dec(n)], 'nothing'),
      E('dataset of shards', lambda n: [name('dir', '@'), '/', name('base', '@/'), '@', dec(n)], 'expand', entry='dataset'),
      E('dataset of a file', lambda n: [name('dir', '@'), '/', name('base', '@/')], 'plain', entry='dataset', **R),
      E('dataset of a file below @', lambda n: [name('dir', '@'), '@', name('more', '@/'), '/', name('base', '@/')], 'plain', entry='dataset', **R),
      E('dataset of shards here', lambda n: [name('base', '@/'), '@', dec(n)], 'expand', entry='dataset'),
  ]
  return hs
