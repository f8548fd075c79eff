"""Scalar element algebra: concrete values, z3 terms and extended reals.

An element is one of
  bool / int                  concrete boolean / integer
  Fraction                    concrete finite real (exact, symbolic mode)
  float                       concrete float (replay mode; also +-inf and nan)
  z3 BoolRef / Int / Real     symbolic, always finite
  X(val, pinf, ninf, nan)     symbolic extended real; the flags are booleans
                              (python bool or BoolRef), mutually exclusive.

The same functions are used by the jaxpr interpreter, by the oracles on symbolic
values, and by the oracles on concrete values when a counterexample is replayed.
"""
import functools
import math
from fractions import Fraction

import numpy as np

from svx.z3load import z3

PI = Fraction(31415926535897932384626433832795, 10**31)
INF = float('inf')
NAN = float('nan')


# ----------------------------------------------------------------- context
class Ctx:
  """Per-harness symbolic context: assumptions, axioms, trig atoms, stats."""

  def __init__(self):
    self.assumptions = []
    self.axioms = []
    self.n = 0
    self.trig = {}        # key -> (term, c, s)
    self.trig_memo = {}
    self.sqrt_memo = {}
    self.sq = {}          # ast id of var r -> polynomial of r^2   (reduction)
    self.circle = {}      # ast id of s -> c term  (s^2 -> 1-c^2)
    self.keep = []
    self.unwind = []      # unwinding obligations: must be provably False
    self.inputs = {}
    self._solver = None
    self._nsolv = 0
    self.prove_memo = {}
    self.poly_memo = {}
    self.ops = 0
    self.mod_memo = {}
    self.fn_apps = {}
    self.fdvars = {}      # ast id -> (var, lo, hi) of small-domain integer inputs
    self.fd_memo = {}
    self.fv_memo = {}
    self.trig_ids = set()
    self.radii = {}
    self.roots = {}       # ast id of a square root atom -> polynomial under the root
    self.norm_memo = {}
    self.skel_memo = {}
    self.skel_poly = {}
    self._prop = None
    self.prune = False    # let ite() drop branches the assumptions exclude

  def fresh(self, sort, hint='v'):
    self.n += 1
    name = f'{hint}!{self.n}'
    return {'f': z3.Real, 'i': z3.Int, 'b': z3.Bool}[sort](name)

  def assume(self, c):
    c = zb(c)
    self.assumptions.append(c)

  def axiom(self, c):
    self.axioms.append(zb(c))

  def constraints(self):
    return self.assumptions + self.axioms

  def provable(self, c, timeout=400):
    """True iff the solver shows c under the assumptions (quick, else False)."""
    if isinstance(c, bool):
      return c
    k = c.get_id()
    if k in self.prove_memo:
      return self.prove_memo[k][1]
    if self.prune in ('prop', 'select'):
      n = len(self.assumptions) + len(self.axioms)
      if self._prop is None:
        self._prop, self._nprop = z3.Solver(), 0
      cs = self.constraints()
      if self._nprop != n:
        self._prop.reset()
        self._prop.add(*[self.skeleton(y) for y in cs])
        self._nprop = n
      r = self._prop.check(z3.Not(self.skeleton(c))) == z3.unsat
      self.prove_memo[k] = (c, r)
      return r
    if self._solver is None or self._nsolv != len(self.assumptions) + len(self.axioms):
      self._solver = z3.Solver()
      self._solver.set('timeout', timeout)
      self._solver.add(*self.constraints())
      self._linear = z3.Solver()
      self._linear.set('smt.arith.nl', False)
      self._linear.set('timeout', timeout)
      self._linear.add(*[norm_bool(x) for x in self.constraints()])
      self._nsolv = len(self.assumptions) + len(self.axioms)
    r = False
    for s in (self._linear,) if self.prune == 'linear' else (self._linear, self._solver):
      s.push()
      s.add(z3.Not(norm_bool(c) if s is self._linear else c))
      v = s.check()
      s.pop()
      if v == z3.unsat:
        r = True
      if v == z3.unsat or (v == z3.sat and s is self._solver):
        break
    self.prove_memo[k] = (c, r)
    return r


  def skeleton(self, e):
    """Propositional skeleton over canonical comparisons."""
    e = norm_bool(e)
    return self._skel(e)

  def _skel_cmp(self, e, ch):
    """A comparison, with its polynomial (without constant) as one free real."""
    k = e.decl().kind()
    if z3.is_real(ch[0]) and k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_EQ):
      try:
        p = dict(poly(ch[0] - ch[1]))
        const = p.pop((), Fraction(0))
        if p:
          key = pkey(p)
          if key not in self.skel_poly:
            self.skel_poly[key] = z3.Real(f'poly!{len(self.skel_poly)}')
          v = self.skel_poly[key]
          b = q(-const)
          return v <= b if k == z3.Z3_OP_LE else (v < b if k == z3.Z3_OP_LT else v == b)
      except OverflowError:
        pass
    if z3.is_int(ch[0]) and not any(z3.is_app_of(x, z3.Z3_OP_ITE) for x in ch):
      return e
    return z3.Bool(f'skel!{len(self.skel_memo)}')

  def _skel(self, e):
    i = e.get_id()
    if i in self.skel_memo:
      return self.skel_memo[i][1]
    ch = e.children()
    if ch and not all(z3.is_bool(x) for x in ch):
      r = self._skel_cmp(e, ch)
    elif ch:
      r = z3.substitute(e, *[(x, self._skel(x)) for x in ch if x.children()])
    else:
      r = e
    self.skel_memo[i] = (e, r)
    return r


_ctx = [None]


def ctx():
  if _ctx[0] is None:
    _ctx[0] = Ctx()
  return _ctx[0]


def set_ctx(c):
  _ctx[0] = c


# ------------------------------------------------------------------ helpers
def is_z(a):
  return isinstance(a, z3.ExprRef)


def is_sym(a):
  return isinstance(a, (z3.ExprRef, X))


def is_nonfinite(a):
  return isinstance(a, float) and not math.isfinite(a)


class X:
  __slots__ = ('val', 'pinf', 'ninf', 'nan')

  def __init__(self, val, pinf=False, ninf=False, nan=False):
    self.val, self.pinf, self.ninf, self.nan = val, pinf, ninf, nan

  def __repr__(self):
    return f'X({self.val},+{self.pinf},-{self.ninf},n{self.nan})'


def mkx(val, pinf, ninf, nan):
  if pinf is False and ninf is False and nan is False:
    return val
  if pinf is True:
    return INF
  if ninf is True:
    return -INF
  if nan is True:
    return NAN
  return X(val, pinf, ninf, nan)


def parts(a):
  """(val, pinf, ninf, nan)."""
  if isinstance(a, X):
    return a.val, a.pinf, a.ninf, a.nan
  if isinstance(a, float):
    if a == INF:
      return Fraction(0), True, False, False
    if a == -INF:
      return Fraction(0), False, True, False
    if a != a:
      return Fraction(0), False, False, True
    return a, False, False, False
  return a, False, False, False


def fnum(c):
  """A float literal of the program as an exact rational (idealised).

  Literals are snapped to the shortest decimal that prints the float32, and to
  exact multiples of pi, so that algebraically equal programs stay equal.
  """
  c = float(c)
  if not math.isfinite(c):
    return c
  if c == int(c) and abs(c) < 2**53:
    return Fraction(int(c))
  r = c / math.pi
  for d in (1, 2, 3, 4, 6, 8, 180):
    n = round(r * d)
    if n != 0 and abs(n) <= 16 and abs(r * d - n) < 3e-7 * abs(n):
      return Fraction(n, d) * PI
  r = c * math.pi
  for n in (1, 2, 4, 90, 180, 360):
    if abs(r - n) < 3e-7 * n:
      return Fraction(n) / PI
  return Fraction(str(np.float32(c)))


def q(v):
  return z3.RealVal(str(Fraction(v)))


def zr(a):
  """z3 Real term of a finite element."""
  if isinstance(a, z3.ExprRef):
    if z3.is_int(a):
      return z3.ToReal(a)
    return a
  if isinstance(a, bool):
    return q(int(a))
  if isinstance(a, (int, Fraction, float)):
    return q(Fraction(a))
  raise TypeError(f'zr {a!r}')


def zi(a):
  if isinstance(a, z3.ExprRef):
    return a
  return z3.IntVal(int(a))


def zb(a):
  if isinstance(a, z3.ExprRef):
    return a
  return z3.BoolVal(bool(a))


def same_term(a, b):
  if a is b:
    return True
  if is_z(a) and is_z(b):
    return a.eq(b)
  if not is_sym(a) and not is_sym(b):
    if isinstance(a, bool) != isinstance(b, bool):
      return False
    return a == b or (a != a and b != b)
  if isinstance(a, X) and isinstance(b, X):
    return (same_term(a.val, b.val) and same_term(a.pinf, b.pinf) and
            same_term(a.ninf, b.ninf) and same_term(a.nan, b.nan))
  return False


# ------------------------------------------------------------------ booleans
def and_(*xs):
  out = []
  seen = set()
  for x in _flat(xs):
    if is_z(x):
      i = x.get_id()
      if i not in seen:
        seen.add(i)
        out.append(x)
    elif not x:
      return False
  if not out:
    return True
  if len(out) == 1:
    return out[0]
  for x in out:
    if z3.is_not(x) and x.arg(0).get_id() in seen:
      return False
  return z3.And(*out)


def or_(*xs):
  out = []
  seen = set()
  for x in _flat(xs):
    if is_z(x):
      i = x.get_id()
      if i not in seen:
        seen.add(i)
        out.append(x)
    elif x:
      return True
  if not out:
    return False
  if len(out) == 1:
    return out[0]
  for x in out:
    if z3.is_not(x) and x.arg(0).get_id() in seen:
      return True
  return z3.Or(*out)


def _flat(xs):
  for x in xs:
    if isinstance(x, (list, tuple)):
      yield from _flat(x)
    elif isinstance(x, np.ndarray):
      yield from x.ravel().tolist()
    elif isinstance(x, np.bool_):
      yield bool(x)
    else:
      yield x


def not_(a):
  if is_z(a):
    if z3.is_not(a):
      return a.arg(0)
    if z3.is_true(a):
      return False
    if z3.is_false(a):
      return True
    return z3.Not(a)
  return not bool(a)


def implies(a, b):
  return or_(not_(a), b)


def iff(a, b):
  if not is_z(a) and not is_z(b):
    return bool(a) == bool(b)
  if not is_z(a):
    return b if a else not_(b)
  if not is_z(b):
    return a if b else not_(a)
  if a.eq(b):
    return True
  return a == b


def xor(a, b):
  return not_(iff(a, b))


def ite(c, a, b):
  if not is_z(c):
    return a if c else b
  if z3.is_true(c):
    return a
  if z3.is_false(c):
    return b
  if same_term(a, b):
    return a
  if z3.is_not(c):
    return ite(c.arg(0), b, a)
  C = _ctx[0]
  if C is not None and C.prune:
    if C.provable(c):
      return a
    if C.provable(z3.Not(c)):
      return b
  ab = isinstance(a, bool) or (is_z(a) and z3.is_bool(a))
  if ab:
    if a is True:
      return or_(c, b)
    if a is False:
      return and_(not_(c), b)
    if b is True:
      return or_(not_(c), a)
    if b is False:
      return and_(c, a)
    return z3.If(c, a, zb(b))
  # collapse nested ites with the same condition
  if is_z(a) and z3.is_app_of(a, z3.Z3_OP_ITE) and a.arg(0).eq(c):
    a = a.arg(1)
  if is_z(b) and z3.is_app_of(b, z3.Z3_OP_ITE) and b.arg(0).eq(c):
    b = b.arg(2)
  if same_term(a, b):
    return a
  if isinstance(a, X) or isinstance(b, X) or is_nonfinite(a) or is_nonfinite(b):
    av, ap, an, aq = parts(a)
    bv, bp, bn, bq = parts(b)
    if is_nonfinite(a):
      v = bv
    elif is_nonfinite(b):
      v = av
    else:
      v = ite(c, av, bv)
    return mkx(v, ite(c, ap, bp), ite(c, an, bn), ite(c, aq, bq))
  ai = is_z(a) and z3.is_int(a) or (isinstance(a, int))
  bi = is_z(b) and z3.is_int(b) or (isinstance(b, int))
  if ai and bi:
    return z3.If(c, zi(a), zi(b))
  return z3.If(c, zr(a), zr(b))


# ---------------------------------------------------------------- arithmetic
def _isint(a):
  return isinstance(a, int) or (is_z(a) and z3.is_int(a))


def _z2(a, b):
  if _isint(a) and _isint(b):
    return zi(a), zi(b)
  return zr(a), zr(b)


def unconst(t):
  """z3 numeral -> python value."""
  if is_z(t):
    if z3.is_int_value(t):
      return t.as_long()
    if z3.is_rational_value(t):
      return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_true(t):
      return True
    if z3.is_false(t):
      return False
  return t


def _simple_lin(t):
  """t == atom + const, as (atom or None, const)."""
  if not is_z(t):
    return None, t
  if z3.is_app_of(t, z3.Z3_OP_ADD) and t.num_args() == 2:
    u = unconst(t.arg(1))
    if not is_z(u):
      return t.arg(0), u
  return t, 0


def add(a, b):
  if not is_sym(a) and not is_sym(b):
    return a + b
  if isinstance(a, X) or isinstance(b, X) or is_nonfinite(a) or is_nonfinite(b):
    av, ap, an, aq = parts(a)
    bv, bp, bn, bq = parts(b)
    nan = or_(aq, bq, and_(ap, bn), and_(an, bp))
    pi = and_(or_(ap, bp), not_(nan))
    ni = and_(or_(an, bn), not_(nan))
    return mkx(add(av, bv), pi, ni, nan)
  if not is_z(a) and a == 0:
    return b
  if not is_z(b) and b == 0:
    return a
  # keep atom+const form
  if not is_z(a):
    a, b = b, a
  if not is_z(b):
    at, c = _simple_lin(a)
    if c != 0:
      c = c + b
      if c == 0:
        return at
      x, y = _z2(at, c)
      return x + y
  x, y = _z2(a, b)
  return x + y


def neg(a):
  if not is_sym(a):
    return -a
  if isinstance(a, X):
    return X(neg(a.val), a.ninf, a.pinf, a.nan)
  if z3.is_app_of(a, z3.Z3_OP_UMINUS):
    return a.arg(0)
  return -a


def sub(a, b):
  if not is_sym(a) and not is_sym(b):
    return a - b
  if same_term(a, b) and is_z(a):
    return 0 if z3.is_int(a) else Fraction(0)
  if isinstance(a, X) or isinstance(b, X) or is_nonfinite(a) or is_nonfinite(b):
    return add(a, neg(b))
  if not is_z(b):
    return add(a, -b)
  if not is_z(a) and a == 0:
    return neg(b)
  x, y = _z2(a, b)
  return x - y


def sgnpos(a):
  return lt(0, a)


def mul(a, b):
  if not is_sym(a) and not is_sym(b):
    return a * b
  if isinstance(a, X) or isinstance(b, X) or is_nonfinite(a) or is_nonfinite(b):
    av, ap, an, aq = parts(a)
    bv, bp, bn, bq = parts(b)
    ai, bi = or_(ap, an), or_(bp, bn)
    a0 = and_(not_(ai), not_(aq), eqv(av, 0))
    b0 = and_(not_(bi), not_(bq), eqv(bv, 0))
    nan = or_(aq, bq, and_(ai, b0), and_(bi, a0))
    apos = or_(ap, and_(not_(ai), lt(0, av)))
    bpos = or_(bp, and_(not_(bi), lt(0, bv)))
    inf = and_(or_(ai, bi), not_(nan))
    same = iff(apos, bpos)
    return mkx(mul(av, bv), and_(inf, same), and_(inf, not_(same)), nan)
  for u, v in ((a, b), (b, a)):
    if not is_z(u):
      if u == 0:
        return 0 if (_isint(u) and _isint(v)) else Fraction(0)
      if u == 1:
        return v if _isint(v) == _isint(u) or not _isint(v) else zr(v)
      if u == -1:
        return neg(v)
      if z3.is_app_of(v, z3.Z3_OP_ITE):
        # constant folding into 0/1-style selections
        t, e = unconst(v.arg(1)), unconst(v.arg(2))
        if not is_z(t) and not is_z(e):
          return ite(v.arg(0), u * t, u * e)
  if not _isint(a) or not _isint(b):
    # indicator products: ite(c,x,0) * y -> ite(c, x*y, 0)
    for u, v in ((a, b), (b, a)):
      if is_z(u) and z3.is_app_of(u, z3.Z3_OP_ITE):
        t, e = unconst(u.arg(1)), unconst(u.arg(2))
        if not is_z(t) and t in (0, 1) and not is_z(e) and e in (0, 1):
          return ite(u.arg(0), mul(t, v), mul(e, v))
  x, y = _z2(a, b)
  C = _ctx[0]
  if C is not None and C.trig_ids:
    for u, v in ((x, y), (y, x)):
      if u.get_id() in C.trig_ids and len(C.radii) < 40:
        try:
          r = poly(v)
          C.radii[pkey(r)] = r
        except OverflowError:
          pass
  return x * y


def div(a, b):
  """Float division."""
  if not is_sym(b):
    if isinstance(a, float) or isinstance(b, float) or (not is_sym(a) and b == 0):
      if not is_sym(a):
        with np.errstate(all='ignore'):
          return float(np.float64(float(a)) / np.float64(float(b)))
      if is_nonfinite(b):
        if isinstance(a, X):
          raise NotImplementedError('X / inf')
        return NAN if b != b else Fraction(0)
      b = Fraction(b)
    if b == 0:
      v, p, n, k = parts(a)
      return mkx(Fraction(0), or_(p, and_(not_(or_(p, n, k)), lt(0, v))),
                 or_(n, and_(not_(or_(p, n, k)), lt(v, 0))),
                 or_(k, and_(not_(or_(p, n, k)), eqv(v, 0))))
    if not is_sym(a):
      return Fraction(a) / Fraction(b)
    return mul(a, Fraction(1) / Fraction(b))
  if isinstance(b, X):
    bv, bp, bn, bq = parts(b)
    inv = X(ite(or_(bp, bn), Fraction(0), bv), False, False, bq)
    r = div(a, bv)
    # a / +-inf = 0 for finite a
    rv, rp, rn, rk = parts(r)
    av, ap, an, aq = parts(a)
    binf = or_(bp, bn)
    nan = or_(bq, aq, and_(binf, or_(ap, an)), and_(not_(binf), rk))
    return mkx(ite(binf, Fraction(0), rv), and_(not_(binf), not_(nan), rp),
               and_(not_(binf), not_(nan), rn), nan)
  if isinstance(a, X) or is_nonfinite(a):
    av, ap, an, aq = parts(a)
    fin = not_(or_(ap, an, aq))
    r = div(av, b)
    rv, rp, rn, rk = parts(r)
    pos = le(0, b)
    return mkx(rv, or_(and_(fin, rp), and_(ap, pos), and_(an, not_(pos))),
               or_(and_(fin, rn), and_(an, pos), and_(ap, not_(pos))),
               or_(aq, and_(fin, rk)))
  c = ctx()
  zero = eqv(b, 0)
  if zero is False or c.provable(not_(zero)):
    if not is_sym(a) and a == 0:
      return Fraction(0)
    u = _cancel(a, b)
    return zr(a) / zr(b) if u is None else u
  qv = zr(a) / zr(b)
  return mkx(qv, and_(zero, lt(0, a)), and_(zero, lt(a, 0)),
             and_(zero, eqv(a, 0)))


def _cancel(a, b):
  """k*u when a is k*u*b for a constant k and an atom u (or none), else None."""
  if not is_sym(a):
    return None
  try:
    p, d = poly(a), poly(b)
  except OverflowError:
    return None
  if not p or not d or len(p) > 60:
    return None
  common = None
  for m in p:
    s = {x for x, _ in m}
    common = s if common is None else common & s
  for u in [None] + sorted(common):
    if u is None:
      r = p
    else:
      r = {tuple((x, e) if x != u else (x, e - 1) for x, e in m if x != u or e > 1): v
           for m, v in p.items()}
    if set(r) != set(d):
      continue
    ks = {r[m] / d[m] for m in d}
    if len(ks) == 1:
      k = ks.pop()
      return k if u is None else from_poly({((u, 1),): k})
  return None


def idiv(a, b):
  """Integer division truncating toward zero (lax.div on ints)."""
  if not is_sym(a) and not is_sym(b):
    if b == 0:
      return -1
    r = abs(a) // abs(b)
    return r if (a >= 0) == (b >= 0) else -r
  a, b = zi(a), zi(b)
  ab = z3.If(b >= 0, b, -b)
  r = z3.If(a >= 0, a / ab, -((-a) / ab))
  return z3.If(b >= 0, r, -r)


def irem(a, b):
  if not is_sym(a) and not is_sym(b):
    return a - b * idiv(a, b)
  return zi(a) - zi(b) * idiv(a, b)


def floor_mod_real(a, b):
  """a - b*floor(a/b) for concrete b > 0."""
  if not is_sym(a):
    if isinstance(a, float):
      return math.fmod(a, float(b)) % float(b)
    return a - b * math.floor(a / Fraction(b))
  if isinstance(a, X):
    v = floor_mod_real(a.val, b)
    return mkx(v, False, False, or_(a.pinf, a.ninf, a.nan))
  c = ctx()
  b = Fraction(b)
  # a multiple of b times an integer does not matter
  try:
    p = dict(poly(a))
    for m in list(p):
      if (p[m] / b).denominator == 1 and (m == () or (
          len(m) == 1 and m[0][1] == 1 and z3.is_int(c.atoms[m[0][0]]))):
        del p[m]
    if () in p:
      p[()] -= b * math.floor(p[()] / b)
      if p[()] == 0:
        del p[()]
    if set(p) <= {()}:
      return p.get((), Fraction(0))
    a = from_poly(p)
  except OverflowError:
    pass
  key = (canon(a), b)
  if key in c.mod_memo:
    return c.mod_memo[key]
  if c.prune:
    for k in (0, 1, -1):
      t = add(a, k * b)
      if c.provable(and_(le(0, t), lt(t, b))):
        c.mod_memo[key] = t
        return t
  k = c.fresh('i', 'k')
  r = c.fresh('f', 'm')
  # r is a definition: r = a - b k
  t = zr(a) - q(b) * z3.ToReal(k)
  c.axiom(z3.And(t >= 0, t < q(b)))
  c.mod_memo[key] = t
  return t


def rem_real(a, b):
  """lax.rem for reals: sign of the dividend."""
  if not is_sym(a) and not is_sym(b):
    if isinstance(a, float) or isinstance(b, float):
      return math.fmod(a, b) if math.isfinite(a) and b else NAN
    if b == 0:
      return NAN
    return a - b * int(Fraction(a) / Fraction(b))
  if is_sym(b):
    raise NotImplementedError('rem by a symbolic real')
  b = abs(Fraction(b))
  m = floor_mod_real(a, b)
  # trunc remainder from the floor remainder
  mv, mp, mn, mk = parts(m)
  r = ite(and_(lt(a, 0), not_(eqv(mv, 0))), sub(mv, b), mv)
  return mkx(r, False, False, mk)


# --------------------------------------------------------------- comparisons
def _cmp_x(a, b, op):
  av, ap, an, aq = parts(a)
  bv, bp, bn, bq = parts(b)
  ok = not_(or_(aq, bq))
  fin = and_(not_(or_(ap, an)), not_(or_(bp, bn)))
  if op == 'lt':
    core = or_(and_(an, not_(bn)), and_(bp, not_(ap)), and_(fin, lt(av, bv)))
  elif op == 'le':
    core = or_(an, bp, and_(fin, le(av, bv)))
  else:
    core = or_(and_(ap, bp), and_(an, bn), and_(fin, eqv(av, bv)))
  return and_(ok, core)


def _fv(t):
  """Id of the only (small-domain) variable of t, 0 if none, -1 otherwise."""
  C = ctx()
  i = t.get_id()
  r = C.fv_memo.get(i)
  if r is not None:
    return r[1]
  if t.num_args() == 0:
    if i in C.fdvars:
      v = i
    elif is_z(unconst(t)):
      v = -1
    else:
      v = 0
  else:
    v = 0
    for a in t.children():
      u = _fv(a)
      if u == 0:
        continue
      if u == -1 or (v and v != u):
        v = -1
        break
      v = u
  C.fv_memo[i] = (t, v)
  return v


def _fd_table(t):
  C = ctx()
  i = t.get_id()
  if i in C.fd_memo:
    return C.fd_memo[i][1]
  v, lo, hi = C.fdvars[_fv(t)]
  tab = [unconst(z3.simplify(z3.substitute(t, (v, z3.IntVal(k))))) for k in range(lo, hi + 1)]
  if any(is_z(x) for x in tab):
    tab = None
  C.fd_memo[i] = (t, tab)
  return tab


def _fd_cmp(a, b, f):
  """Comparison of integer terms over one small-domain variable, canonicalised."""
  C = ctx()
  if not C.fdvars or not (_isint(a) and _isint(b)):
    return None
  fa = _fv(a) if is_z(a) else 0
  fb = _fv(b) if is_z(b) else 0
  if fa == -1 or fb == -1 or (fa and fb and fa != fb) or not (fa or fb):
    return None
  v, lo, hi = C.fdvars[fa or fb]
  n = hi - lo + 1
  ta = _fd_table(a) if is_z(a) and fa else [unconst(z3.simplify(a)) if is_z(a) else a] * n
  tb = _fd_table(b) if is_z(b) and fb else [unconst(z3.simplify(b)) if is_z(b) else b] * n
  if ta is None or tb is None:
    return None
  sat = [k + lo for k in range(n) if f(ta[k], tb[k])]
  if len(sat) == n:
    return True
  if not sat:
    return False
  if len(sat) == 1:
    return v == sat[0]
  if len(sat) == n - 1:
    miss = next(k for k in range(lo, hi + 1) if k not in sat)
    return z3.Not(v == miss)
  if 2 * len(sat) <= n:
    return z3.Or(*[v == k for k in sat])
  return z3.Not(z3.Or(*[v == k for k in range(lo, hi + 1) if k not in sat]))


def lt(a, b):
  if not is_sym(a) and not is_sym(b):
    return bool(a < b)
  if isinstance(a, X) or isinstance(b, X) or is_nonfinite(a) or is_nonfinite(b):
    return _cmp_x(a, b, 'lt')
  if same_term(a, b):
    return False
  f = _fd_cmp(a, b, lambda x, y: x < y)
  if f is not None:
    return f
  f = _fold_ite_cmp(a, b, lt)
  if f is not None:
    return f
  f = _sqrt_cmp(a, b, lt)
  if f is not None:
    return f
  x, y = _z2(a, b)
  return x < y


def le(a, b):
  if not is_sym(a) and not is_sym(b):
    return bool(a <= b)
  if isinstance(a, X) or isinstance(b, X) or is_nonfinite(a) or is_nonfinite(b):
    return _cmp_x(a, b, 'le')
  if same_term(a, b):
    return True
  f = _fd_cmp(a, b, lambda x, y: x <= y)
  if f is not None:
    return f
  f = _fold_ite_cmp(a, b, le)
  if f is not None:
    return f
  f = _sqrt_cmp(a, b, le)
  if f is not None:
    return f
  x, y = _z2(a, b)
  return x <= y


def _is_root(a):
  return is_z(a) and a.get_id() in ctx().roots


def _sqrt_cmp(a, b, f):
  """Comparisons of square roots compare the arguments instead."""
  c = ctx()
  if not c.roots or not (_is_root(a) or _is_root(b)):
    return None
  if _is_root(a) and _is_root(b):
    return f(from_poly(preduce(padd(c.roots[a.get_id()], c.roots[b.get_id()], -1))), Fraction(0))
  if _is_root(a) and not is_z(b):
    if b < 0:
      return False
    return f(from_poly(c.roots[a.get_id()]), Fraction(b) * Fraction(b))
  if _is_root(b) and not is_z(a):
    if a < 0:
      return f is not eqv
    return f(Fraction(a) * Fraction(a), from_poly(c.roots[b.get_id()]))
  return None


def gt(a, b):
  return lt(b, a)


def ge(a, b):
  return le(b, a)


def _fold_ite_cmp(a, b, f):
  """Comparisons of ite(c, const, const)-trees with constants fold to booleans."""
  if is_z(a) and not is_z(b) and z3.is_app_of(a, z3.Z3_OP_ITE) and _const_tree(a):
    return ite(a.arg(0), f(_unz(a.arg(1)), b), f(_unz(a.arg(2)), b))
  if is_z(b) and not is_z(a) and z3.is_app_of(b, z3.Z3_OP_ITE) and _const_tree(b):
    return ite(b.arg(0), f(a, _unz(b.arg(1))), f(a, _unz(b.arg(2))))
  return None


def _unz(t):
  return unconst(t)


_ct = {}


def _const_tree(t, depth=6):
  if not is_z(unconst(t)):
    return True
  if depth == 0 or not z3.is_app_of(t, z3.Z3_OP_ITE):
    return False
  return _const_tree(t.arg(1), depth - 1) and _const_tree(t.arg(2), depth - 1)


def eqv(a, b):
  """Exact equality (IEEE: nan != nan)."""
  if isinstance(a, bool) or isinstance(b, bool) or (is_z(a) and z3.is_bool(a)):
    return iff(a, b)
  if not is_sym(a) and not is_sym(b):
    return bool(a == b)
  if isinstance(a, X) or isinstance(b, X) or is_nonfinite(a) or is_nonfinite(b):
    return _cmp_x(a, b, 'eq')
  if same_term(a, b):
    return True
  f = _fd_cmp(a, b, lambda x, y: x == y)
  if f is not None:
    return f
  f = _fold_ite_cmp(a, b, eqv)
  if f is not None:
    return f
  f = _sqrt_cmp(a, b, eqv)
  if f is not None:
    return f
  x, y = _z2(a, b)
  if _isint(a) and _isint(b):
    xa, xc = _simple_lin(a if is_z(a) else b)
    if not is_z(a) or not is_z(b):
      cst = b if is_z(a) else a
      if xa is not None and xc:
        return zi(xa) == zi(cst - xc)
  return x == y


def isnan(a):
  if isinstance(a, X):
    return a.nan
  if isinstance(a, float):
    return a != a
  return False


def isfinite(a):
  if isinstance(a, X):
    return not_(or_(a.pinf, a.ninf, a.nan))
  if isinstance(a, float):
    return math.isfinite(a)
  return True


def maxv(a, b):
  if not is_sym(a) and not is_sym(b):
    if a != a or b != b:
      return NAN
    return a if a >= b else b
  if same_term(a, b):
    return a
  r = _pick(le(b, a), a, b)
  return _nanprop(r, a, b)


def _pick(c, a, b):
  """Choice of an extremum, which the 'select' mode leaves as it is."""
  C = _ctx[0]
  if C is None or C.prune != 'select':
    return ite(c, a, b)
  C.prune = False
  try:
    return ite(c, a, b)
  finally:
    C.prune = 'select'


def minv(a, b):
  if not is_sym(a) and not is_sym(b):
    if a != a or b != b:
      return NAN
    return a if a <= b else b
  if same_term(a, b):
    return a
  r = _pick(le(a, b), a, b)
  return _nanprop(r, a, b)


def _nanprop(r, a, b):
  n = or_(isnan(a), isnan(b))
  if n is False:
    return r
  v, p, m, k = parts(r)
  return mkx(v, and_(p, not_(n)), and_(m, not_(n)), n)


def absv(a):
  if not is_sym(a):
    return abs(a)
  if isinstance(a, X):
    return X(absv(a.val), or_(a.pinf, a.ninf), False, a.nan)
  return ite(le(0, a), a, neg(a))


def sign(a):
  if not is_sym(a):
    if isinstance(a, float) and a != a:
      return NAN
    z = 1 if a > 0 else (-1 if a < 0 else 0)
    return z if isinstance(a, int) else Fraction(z)
  one, zero = (1, 0) if _isint(a) else (Fraction(1), Fraction(0))
  r = ite(lt(0, a), one, ite(lt(a, 0), -one, zero))
  n = isnan(a)
  return r if n is False else mkx(r, False, False, n)


def floor(a):
  """Real -> real floor."""
  if not is_sym(a):
    if is_nonfinite(a):
      return a
    return Fraction(math.floor(a))
  v, p, n, k = parts(a)
  return mkx(z3.ToReal(z3.ToInt(zr(v))) if is_z(v) else Fraction(math.floor(v)), p, n, k)


def round_even(a):
  if not is_sym(a):
    if is_nonfinite(a):
      return a
    return Fraction(round(Fraction(a)))
  v, p, n, k = parts(a)
  z = zr(v)
  f = z3.ToInt(z + q(Fraction(1, 2)))
  tie = z3.ToReal(f) == z + q(Fraction(1, 2))
  r = z3.If(z3.And(tie, f % 2 != 0), f - 1, f)
  return mkx(z3.ToReal(r), p, n, k)


def trunc_int(a):
  """float -> int conversion."""
  if not is_sym(a):
    if is_nonfinite(a):
      return 0 if a != a else (2**31 - 1 if a > 0 else -2**31)
    return int(a)
  v, p, n, k = parts(a)
  if not is_z(v):
    r = int(v)
  elif z3.is_app_of(v, z3.Z3_OP_TO_REAL):
    r = v.arg(0)
  elif z3.is_app_of(v, z3.Z3_OP_ITE):
    r = ite(v.arg(0), trunc_int(unconst(v.arg(1))), trunc_int(unconst(v.arg(2))))
  else:
    r = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
  if p is False and n is False and k is False:
    return r
  return ite(k, 0, ite(p, 2**31 - 1, ite(n, -2**31, r)))


def int_to_f32(a, bits=24):
  """int -> float32 with the rounding of large magnitudes modelled."""
  if not is_sym(a):
    return Fraction(float(np.float32(a))) if bits == 24 else Fraction(int(a))
  c = ctx()
  lim = 2**bits
  if c.provable(z3.And(a <= lim, a >= -lim)):
    return z3.ToReal(a)
  m = z3.If(a >= 0, a, -a)

  def rne(k):
    s = 2**k
    f = (m + s // 2) / s
    tie = f * s == m + s // 2
    return z3.If(z3.And(tie, f % 2 == 1), f - 1, f) * s

  r = rne(7)
  for k in range(6, 0, -1):
    r = z3.If(m <= 2**(bits + k), rne(k), r)
  r = z3.If(m <= lim, m, r)
  return z3.ToReal(z3.If(a >= 0, r, -r))


def bool_to_int(a):
  if not is_z(a):
    return int(bool(a))
  return z3.If(a, z3.IntVal(1), z3.IntVal(0))


def bool_to_real(a):
  if not is_z(a):
    return Fraction(int(bool(a)))
  return z3.If(a, z3.RealVal(1), z3.RealVal(0))


def powi(a, n):
  if n < 0:
    return div(Fraction(1), powi(a, -n))
  if not is_sym(a):
    return a**n
  r = None
  for _ in range(n):
    r = a if r is None else mul(r, a)
  return Fraction(1) if r is None else r


# --------------------------------------------------------- polynomials (canon)
# polynomial: dict  monomial(tuple of sorted (atom_id, exp)) -> Fraction
MAXTERMS = 4000


def _atom(t):
  c = ctx()
  c.keep.append(t)
  i = t.get_id()
  c.atoms = getattr(c, 'atoms', {})
  c.atoms[i] = t
  return {((i, 1),): Fraction(1)}


def padd(p, r, k=1):
  out = dict(p)
  for m, v in r.items():
    nv = out.get(m, 0) + k * v
    if nv == 0:
      out.pop(m, None)
    else:
      out[m] = nv
  return out


def _mmul(m, n):
  d = dict(m)
  for a, e in n:
    d[a] = d.get(a, 0) + e
  return tuple(sorted(d.items()))


def pmul(p, r):
  out = {}
  if len(p) * len(r) > MAXTERMS * 4:
    raise OverflowError
  for m, v in p.items():
    for n, w in r.items():
      k = _mmul(m, n)
      nv = out.get(k, 0) + v * w
      if nv == 0:
        out.pop(k, None)
      else:
        out[k] = nv
  return preduce(out)


def preduce(p):
  """s^2 -> 1 - c^2 for circle pairs and r^2 -> arg for square roots."""
  c = ctx()
  if not c.sq:
    return p
  changed = True
  while changed:
    changed = False
    for m in list(p):
      for a, e in m:
        if e >= 2 and a in c.sq:
          v = p.pop(m)
          rest = tuple((x, f) if x != a else (x, f - 2) for x, f in m)
          rest = tuple((x, f) for x, f in rest if f)
          p = padd(p, pmul({rest: v}, c.sq[a]))
          changed = True
          break
      if changed:
        break
  return p


def poly(t):
  """Polynomial of a real/int element; ites and opaque terms are atoms."""
  if not is_z(t):
    v = Fraction(t)
    return {(): v} if v else {}
  c = ctx()
  i = t.get_id()
  if i in c.poly_memo:
    return c.poly_memo[i][1]
  u = unconst(t)
  if not is_z(u):
    r = {(): Fraction(u)} if u else {}
  else:
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
      r = {}
      for a in t.children():
        r = padd(r, poly(a))
    elif k == z3.Z3_OP_SUB:
      ch = t.children()
      r = poly(ch[0])
      for a in ch[1:]:
        r = padd(r, poly(a), -1)
    elif k == z3.Z3_OP_UMINUS:
      r = padd({}, poly(t.arg(0)), -1)
    elif k == z3.Z3_OP_MUL:
      r = {(): Fraction(1)}
      try:
        for a in t.children():
          r = pmul(r, poly(a))
      except OverflowError:
        r = _atom(t)
    elif k == z3.Z3_OP_DIV:
      p, d = poly(t.arg(0)), poly(t.arg(1))
      if len(d) == 1 and () in d:
        r = {m: v / d[()] for m, v in p.items()}
      else:
        inv = _inv_atom(d, t.arg(1))
        try:
          r = pmul(p, inv)
        except OverflowError:
          r = _atom(t)
    elif k == z3.Z3_OP_TO_REAL:
      r = poly(t.arg(0))
    else:
      r = _atom(t)
    if len(r) > MAXTERMS:
      r = _atom(t)
  c.poly_memo[i] = (t, r)
  return r


def _inv_atom(d, term):
  """Atom standing for 1/d, shared between equal denominators (up to scale)."""
  c = ctx()
  c.inv = getattr(c, 'inv', {})
  key0 = sorted(d.items(), key=lambda kv: kv[0])
  if not key0:
    return _atom(q(1) / zr(term))
  lead = key0[0][1]
  key = tuple((m, v / lead) for m, v in key0)
  if key not in c.inv:
    dd = from_poly({m: v / lead for m, v in d.items()})
    c.inv[key] = q(1) / dd
  a = _atom(c.inv[key])
  return {m: v / lead for m, v in a.items()}


def pkey(p):
  return tuple(sorted(p.items()))


def canon(t):
  """Hashable canonical key of a finite element."""
  try:
    return pkey(poly(t))
  except OverflowError:
    return ('raw', t.get_id())


def from_poly(p):
  c = ctx()
  terms = []
  for m, v in sorted(p.items()):
    fs = []
    for a, e in m:
      fs += [zr(c.atoms[a])] * e
    t = None
    for f in fs:
      t = f if t is None else t * f
    if t is None:
      t = q(v)
    elif v != 1:
      t = q(v) * t
    terms.append(t)
  if not terms:
    return q(0)
  if len(terms) == 1:
    return terms[0]
  return z3.Sum(*terms)


def normal(t):
  """Polynomial-normalised version of a finite element (python const if const)."""
  if not is_z(t):
    return t
  p = poly(t)
  if not p:
    return Fraction(0)
  if len(p) == 1 and () in p:
    return p[()]
  return from_poly(p)


_BOOL_OP = {z3.Z3_OP_AND: lambda a: z3.And(*a), z3.Z3_OP_OR: lambda a: z3.Or(*a), z3.Z3_OP_NOT: lambda a: z3.Not(*a),
            z3.Z3_OP_IMPLIES: lambda a: z3.Implies(*a), z3.Z3_OP_ITE: lambda a: z3.If(*a),
            z3.Z3_OP_IFF: lambda a: a[0] == a[1], z3.Z3_OP_XOR: lambda a: z3.Xor(*a)}
_FLIP = {z3.Z3_OP_LE: (False, False), z3.Z3_OP_LT: (True, False), z3.Z3_OP_GE: (False, True), z3.Z3_OP_GT: (True, True)}


def norm_bool(e):
  """The same formula with every real comparison as canonical polynomial against zero."""
  return _norm(e)


def _norm(e):
  c = ctx()
  i = e.get_id()
  if i in c.norm_memo:
    return c.norm_memo[i][1]
  r = e
  if z3.is_app(e) and e.num_args():
    k = e.decl().kind()
    if z3.is_bool(e):
      ch = e.children()
      if z3.is_bool(ch[0]):
        if k in _BOOL_OP or (k == z3.Z3_OP_EQ):
          n = [_norm(x) for x in ch]
          if any(not x.eq(y) for x, y in zip(n, ch)):
            r = n[0] == n[1] if k == z3.Z3_OP_EQ else _BOOL_OP[k](n)
      elif z3.is_real(ch[0]) and (k in _FLIP or k == z3.Z3_OP_EQ):
        r = _norm_cmp(e, k, ch)
    elif z3.is_real(e):
      r = _norm_real(e, k)
  c.norm_memo[i] = (e, r)
  return r


def _norm_real(e, k):
  if k == z3.Z3_OP_ITE:
    n = [_norm(x) for x in e.children()]
    if n[1].eq(n[2]):
      return n[1]
    return z3.If(*n)
  if k not in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV):
    return e
  try:
    p = poly(_norm_atoms(e))
    if len(p) > 150:
      return e
    return from_poly(p)
  except OverflowError:
    return e


def _norm_atoms(e):
  """e with its maximal non-polynomial subterms normalised."""
  if not z3.is_app(e) or not e.num_args():
    return e
  k = e.decl().kind()
  if k == z3.Z3_OP_ITE:
    return _norm(e)
  if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV):
    ch = e.children()
    n = [_norm_atoms(x) for x in ch]
    if any(not x.eq(y) for x, y in zip(n, ch)):
      return {z3.Z3_OP_ADD: lambda a: z3.Sum(*a), z3.Z3_OP_MUL: lambda a: z3.Product(*a),
              z3.Z3_OP_UMINUS: lambda a: -a[0], z3.Z3_OP_DIV: lambda a: a[0] / a[1],
              z3.Z3_OP_SUB: lambda a: functools.reduce(lambda x, y: x - y, a)}[k](n)
  return e


def _norm_cmp(e, k, ch):
  try:
    p = poly(_norm_atoms(ch[0] - ch[1]))
  except OverflowError:
    return e
  if not p or len(p) > 200 or all(m == () for m in p):
    return e
  lead = sorted(p.items())[-1][1]
  if k == z3.Z3_OP_EQ:
    return from_poly({m: v / lead for m, v in p.items()}) == 0
  strict, flip = _FLIP[k]
  t = from_poly({m: v / abs(lead) for m, v in p.items()})
  if flip:
    # p >= 0
    return (z3.Not(t < 0) if not strict else z3.Not(t <= 0)) if lead > 0 else (
        from_poly({m: -v / abs(lead) for m, v in p.items()}) <= 0 if not strict else
        from_poly({m: -v / abs(lead) for m, v in p.items()}) < 0)
  if lead > 0:
    return t < 0 if strict else t <= 0
  n = from_poly({m: -v / abs(lead) for m, v in p.items()})
  return z3.Not(n <= 0) if strict else z3.Not(n < 0)


# ---------------------------------------------------------------- sqrt & trig
def sqrt(a):
  if not is_sym(a):
    if isinstance(a, float) and is_nonfinite(a):
      return a if a > 0 else NAN
    if a < 0:
      return NAN
    if isinstance(a, float):
      return math.sqrt(a)
    a = Fraction(a)
    n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
    if n * n == a.numerator and d * d == a.denominator:
      return Fraction(n, d)
    return Fraction(math.sqrt(a)).limit_denominator(10**12)
  if isinstance(a, X):
    v, p, n, k = parts(a)
    r = sqrt(ite(or_(p, n, k), Fraction(0), v))
    rv, rp, rn, rk = parts(r)
    return mkx(rv, p, False, or_(k, n, rk))
  if z3.is_app_of(a, z3.Z3_OP_ITE):
    return ite(a.arg(0), sqrt(unconst(a.arg(1))), sqrt(unconst(a.arg(2))))
  c = ctx()
  p = poly(a)
  if len(p) == 1 and () in p:
    return sqrt(p[()])
  if not p:
    return Fraction(0)
  key = pkey(p)
  if key in c.sqrt_memo:
    return c.sqrt_memo[key]
  # perfect square of a single monomial?
  if len(p) == 1:
    (m, v), = p.items()
    sv = sqrt(v) if v > 0 else None
    if sv is not None and isinstance(sv, Fraction) and sv * sv == v and all(e % 2 == 0 for _, e in m):
      h = from_poly({tuple((x, e // 2) for x, e in m): sv})
      r = absv(h)
      c.sqrt_memo[key] = r
      return r
  for rad in getattr(c, 'radii', {}).values():
    if len(rad) <= 40 and len(rad)**2 >= len(p) and preduce(pmul(rad, rad)) == p:
      r = from_poly(rad)
      if c.provable(le(0, r)):
        r = r
      elif c.provable(le(r, 0)):
        r = neg(r)
      else:
        r = absv(r)
      c.sqrt_memo[key] = r
      return r
  r = c.fresh('f', 'sqrt')
  az = from_poly(p)
  nonneg = _obviously_nonneg(a) or c.provable(az >= 0)
  if nonneg:
    c.axiom(z3.And(r >= 0, r * r == az))
    out = r
    c.keep.append(r)
    c.roots[r.get_id()] = p
    _atom(r)
    c.sq[r.get_id()] = p
  else:
    c.axiom(z3.And(r >= 0, z3.Implies(az >= 0, r * r == az)))
    out = mkx(r, False, False, az < 0)
  # linear bounds help nlsat-free reasoning
  c.sqrt_memo[key] = out
  c.sqrts = getattr(c, 'sqrts', [])
  c.sqrts.append((r, az))
  return out


def _obviously_nonneg(t):
  if not is_z(t):
    return t >= 0
  k = t.decl().kind()
  if k == z3.Z3_OP_ADD:
    return all(_obviously_nonneg(unconst(a)) for a in t.children())
  if k == z3.Z3_OP_MUL and t.num_args() == 2:
    if t.arg(0).eq(t.arg(1)):
      return True
    return all(_obviously_nonneg(unconst(a)) for a in t.children())
  if k == z3.Z3_OP_ITE:
    return all(_obviously_nonneg(unconst(a)) for a in t.children()[1:])
  u = unconst(t)
  if not is_z(u):
    return u >= 0
  return False


def _lin(t):
  """(dict monomial->coef, const) of a real term."""
  p = dict(poly(t))
  cst = p.pop((), Fraction(0))
  return p, cst


def cos_sin(t):
  """(cos t, sin t)."""
  if not is_sym(t):
    if isinstance(t, float):
      if not math.isfinite(t):
        return NAN, NAN
      return math.cos(t), math.sin(t)
    t = Fraction(t)
    k = t / (PI / 2)
    if k.denominator == 1:
      return ((1, 0), (0, 1), (-1, 0), (0, -1))[int(k) % 4][0] + Fraction(0), (
          (1, 0), (0, 1), (-1, 0), (0, -1))[int(k) % 4][1] + Fraction(0)
    return Fraction(math.cos(t)), Fraction(math.sin(t))
  if isinstance(t, X):
    v, p, n, k = parts(t)
    bad = or_(p, n, k)
    c, s = cos_sin(v)
    return mkx(c, False, False, bad), mkx(s, False, False, bad)
  C = ctx()
  i = t.get_id()
  if i in C.trig_memo:
    return C.trig_memo[i][1]
  r = _cos_sin_sym(t)
  C.trig_memo[i] = (t, r)
  return r


def _cos_sin_sym(t):
  C = ctx()
  if z3.is_app_of(t, z3.Z3_OP_ITE):
    a, b = unconst(t.arg(1)), unconst(t.arg(2))
    if _mult_2pi(padd(poly(a), poly(b), -1)):
      return cos_sin(b)
    ca, sa = cos_sin(a)
    cb, sb = cos_sin(b)
    return ite(t.arg(0), ca, cb), ite(t.arg(0), sa, sb)
  lin, cst = _lin(t)
  # drop multiples of 2*pi carried by integer atoms
  keep = {}
  for m, v in lin.items():
    if len(m) == 1 and m[0][1] == 1:
      at = C.atoms[m[0][0]]
      if z3.is_int(at) and (v / (2 * PI)).denominator == 1:
        continue
      if z3.is_app_of(at, z3.Z3_OP_ITE) and v.denominator == 1:
        a, b = unconst(at.arg(1)), unconst(at.arg(2))
        d = padd(poly(a), poly(b), -1)
        if _mult_2pi(d):
          sub_p = padd({}, poly(b), v)
          for mm, vv in sub_p.items():
            if mm == ():
              cst += vv
            else:
              keep[mm] = keep.get(mm, 0) + vv
          continue
    keep[m] = keep.get(m, 0) + v
  lin = {m: v for m, v in keep.items() if v}
  lin = {m: v for m, v in lin.items() if not (
      len(m) == 1 and m[0][1] == 1 and z3.is_int(C.atoms[m[0][0]]) and
      (v / (2 * PI)).denominator == 1)}
  # single ite atom: push inside
  if len(lin) == 1:
    (m, v), = lin.items()
    if len(m) == 1 and m[0][1] == 1:
      at = C.atoms[m[0][0]]
      if z3.is_app_of(at, z3.Z3_OP_ITE):
        a, b = unconst(at.arg(1)), unconst(at.arg(2))
        ca, sa = cos_sin(add(mul(v, a), cst))
        cb, sb = cos_sin(add(mul(v, b), cst))
        return ite(at.arg(0), ca, cb), ite(at.arg(0), sa, sb)
  cc, ss = _const_cs(cst)
  items = sorted(lin.items())
  if len(items) <= 4 and all(v.denominator == 1 and abs(v) <= 3 for _, v in items):
    for m, v in items:
      ca, sa = _base_cs({m: Fraction(1)})
      if v < 0:
        sa = neg(sa)
      for _ in range(abs(int(v))):
        cc, ss = (sub(mul(cc, ca), mul(ss, sa)), add(mul(ss, ca), mul(cc, sa)))
    return cc, ss
  # opaque angle; normalise the sign
  lead = items[0][1]
  sg = 1 if lead > 0 else -1
  ca, sa = _base_cs({m: v * sg for m, v in lin.items()})
  if sg < 0:
    sa = neg(sa)
  return (sub(mul(cc, ca), mul(ss, sa)), add(mul(ss, ca), mul(cc, sa)))


def _mult_2pi(p):
  C = ctx()
  for m, v in p.items():
    if (v / (2 * PI)).denominator != 1:
      return False
    if m == ():
      continue
    if not (len(m) == 1 and m[0][1] == 1 and z3.is_int(C.atoms[m[0][0]])):
      return False
  return True


def _const_cs(cst):
  k = cst / (PI / 2)
  if k.denominator == 1:
    return cos_sin(cst)
  return _base_cs({(): cst})


def _base_cs(p):
  C = ctx()
  key = pkey(p)
  if key in C.trig:
    return C.trig[key][1:3]
  term = from_poly(p)
  c, s = C.fresh('f', 'cos'), C.fresh('f', 'sin')
  C.axiom(z3.And(c * c + s * s == 1, c <= 1, c >= -1, s <= 1, s >= -1))
  _atom(c)
  _atom(s)
  C.trig_ids |= {c.get_id(), s.get_id()}
  C.sq[s.get_id()] = {(): Fraction(1), ((c.get_id(), 2),): Fraction(-1)}
  if set(p) == {()}:
    v = p[()]
    e = Fraction(1, 10**9)
    C.axiom(z3.And(c <= q(Fraction(math.cos(v)) + e), c >= q(Fraction(math.cos(v)) - e),
                   s <= q(Fraction(math.sin(v)) + e), s >= q(Fraction(math.sin(v)) - e)))
  else:
    C.axiom(z3.Implies(term == 0, z3.And(c == 1, s == 0)))
    others = [v for v in C.trig.values() if not v[3]]
    if len(others) <= 12:
      for (ot, oc, os_, _) in others:
        C.axiom(z3.Implies(term == ot, z3.And(c == oc, s == os_)))
  C.trig[key] = (term, c, s, set(p) == {()})
  return c, s


def cos(t):
  return cos_sin(t)[0]


def sin(t):
  return cos_sin(t)[1]


def atan2(y, x):
  if not is_sym(y) and not is_sym(x):
    v = math.atan2(y, x)
    if isinstance(y, float) or isinstance(x, float):
      return v
    if y == 0 or x == 0 or abs(y) == abs(x):
      return fnum(v)
    return Fraction(v)
  if isinstance(x, X) or isinstance(y, X):
    yv, yp, yn, yk = parts(y)
    xv, xp, xn, xk = parts(x)
    bad = or_(yp, yn, yk, xp, xn, xk)
    return mkx(atan2(yv, xv), False, False, bad)
  # push through ites with a shared condition
  for t in (y, x):
    if is_z(t) and z3.is_app_of(t, z3.Z3_OP_ITE):
      cnd = t.arg(0)
      ya, yb = _branch(y, cnd)
      xa, xb = _branch(x, cnd)
      return ite(cnd, atan2(ya, xa), atan2(yb, xb))
  C = ctx()
  key = ('atan2', canon(y), canon(x))
  if key in C.fn_apps:
    return C.fn_apps[key]
  th = C.fresh('f', 'atan2')
  py, px = poly(y), poly(x)
  for rad in list(getattr(C, 'radii', {}).values()):
    if len(rad) > 40:
      continue
    for (term, tc, ts_, const) in list(C.trig.values()):
      if const or len(py) < len(rad) / 2:
        continue
      if pmul(rad, poly(tc)) == px and pmul(rad, poly(ts_)) == py:
        if C.provable(lt(0, from_poly(rad))):
          # atan2(r sin a, r cos a) = a up to full turns
          k = C.fresh('i', 'turn')
          th = zr(term) - q(2 * PI) * z3.ToReal(k)
          C.axiom(z3.And(th > q(-PI), th <= q(PI)))
          C.fn_apps[key] = th
          return th
  y_, x_ = zr(normal(y)), zr(normal(x))
  r = sqrt(add(mul(x, x), mul(y, y)))
  c, s = _base_cs(poly(th))
  C.axiom(z3.And(th > q(-PI), th <= q(PI),
                 c * zr(r) == x_, s * zr(r) == y_,
                 z3.Implies(z3.And(x_ == 0, y_ == 0), th == 0),
                 z3.Implies(y_ > 0, th > 0), z3.Implies(y_ < 0, th < 0),
                 z3.Implies(z3.And(y_ == 0, x_ > 0), th == 0),
                 z3.Implies(z3.And(y_ == 0, x_ < 0), th == q(PI)),
                 z3.Implies(x_ > 0, z3.And(th < q(PI / 2), th > q(-PI / 2))),
                 z3.Implies(z3.And(x_ == 0, y_ > 0), th == q(PI / 2)),
                 z3.Implies(z3.And(x_ == 0, y_ < 0), th == q(-PI / 2)),
                 z3.Implies(x_ < 0, z3.Or(th > q(PI / 2), th < q(-PI / 2)))))
  for k2, o in list(C.fn_apps.items()):
    if k2[0] == 'atan2':
      oy, ox = C.fn_args[k2]
      C.axiom(z3.Implies(z3.And(oy == y_, ox == x_), o == th))
  C.fn_args = getattr(C, 'fn_args', {})
  C.fn_args[key] = (y_, x_)
  C.fn_apps[key] = th
  return th


def _branch(t, cnd):
  if is_z(t) and z3.is_app_of(t, z3.Z3_OP_ITE) and t.arg(0).eq(cnd):
    return unconst(t.arg(1)), unconst(t.arg(2))
  return t, t


def uf(name, a, lo=None, hi=None, pyfn=None):
  """Uninterpreted unary real function with congruence (exp, log, tanh, ...)."""
  if not is_sym(a):
    if is_nonfinite(a):
      with np.errstate(all='ignore'):
        return float(getattr(np, name)(a))
    v = pyfn(float(a))
    return v if isinstance(a, float) else Fraction(v)
  if isinstance(a, X):
    raise NotImplementedError(f'{name} of extended real')
  C = ctx()
  f = z3.Function(name + '_uf', z3.RealSort(), z3.RealSort())
  t = f(zr(normal(a)))
  if lo is not None:
    C.axiom(t > q(lo))
  if hi is not None:
    C.axiom(t < q(hi))
  return t


def pow_real(a, b):
  """a ** b for real exponents."""
  if not is_sym(b):
    if isinstance(b, (int, Fraction)) and Fraction(b).denominator == 1:
      return powi(a, int(b))
    if Fraction(b) == Fraction(1, 2):
      return sqrt(a)
    if Fraction(b) == Fraction(3, 2):
      return mul(a, sqrt(a))
  if not is_sym(a) and not is_sym(b):
    return Fraction(float(a)**float(b)) if a > 0 else NAN
  raise NotImplementedError('symbolic pow')


# ------------------------------------------------------------ claim predicates
TOL = {'abs': 5e-3, 'rel': 2e-4}


def same(a, b):
  """Data identity (values copied, never recomputed); nan is the same as nan."""
  if isinstance(a, bool) or isinstance(b, bool) or (is_z(a) and z3.is_bool(a)) or (
      is_z(b) and z3.is_bool(b)):
    return iff(a, b)
  if not is_sym(a) and not is_sym(b):
    if a != a or b != b:
      return bool(a != a and b != b)
    if isinstance(a, float) or isinstance(b, float):
      return bool(np.float32(float(a)) == np.float32(float(b)))
    return bool(a == b)
  if isinstance(a, X) or isinstance(b, X) or is_nonfinite(a) or is_nonfinite(b):
    return or_(_cmp_x(a, b, 'eq'), and_(isnan(a), isnan(b)))
  return eqv(a, b)


def close(a, b, margin=Fraction(1, 100), tol=None):
  """|a-b| <= margin (symbolic) / within float tolerance (replay)."""
  if isinstance(a, bool) or isinstance(b, bool) or (is_z(a) and z3.is_bool(a)) or (
      is_z(b) and z3.is_bool(b)):
    return iff(a, b)
  if not is_sym(a) and not is_sym(b):
    if a != a or b != b:
      return bool(a != a and b != b)
    if is_nonfinite(a) or is_nonfinite(b):
      return bool(a == b)
    t = float(margin) / 2 if tol is None else tol
    return bool(abs(float(a) - float(b)) <= t + TOL['rel'] * max(abs(float(a)), abs(float(b))))
  if isinstance(a, X) or isinstance(b, X) or is_nonfinite(a) or is_nonfinite(b):
    av, ap, an, aq = parts(a)
    bv, bp, bn, bq = parts(b)
    flags = and_(iff(ap, bp), iff(an, bn), iff(aq, bq))
    fin = not_(or_(ap, an, aq))
    if is_nonfinite(a) or is_nonfinite(b):
      return flags
    return and_(flags, implies(fin, close(av, bv, margin)))
  return _close_tree(a, b, Fraction(margin), {})


def _close_tree(a, b, m, memo, depth=0):
  if same_term(a, b):
    return True
  if not is_z(a) and not is_z(b):
    return abs(a - b) <= m
  key = (a.get_id() if is_z(a) else a, b.get_id() if is_z(b) else b)
  if key in memo:
    return memo[key]
  r = None
  if depth < 40:
    for t in (a, b):
      if is_z(t) and z3.is_app_of(t, z3.Z3_OP_ITE):
        c = t.arg(0)
        a1, a2 = _branch(a, c)
        b1, b2 = _branch(b, c)
        r = ite(c, _close_tree(a1, b1, m, memo, depth + 1),
                _close_tree(a2, b2, m, memo, depth + 1))
        break
  if r is None:
    try:
      d = padd(poly(a), poly(b), -1)
      d = preduce(d)
      if not d:
        r = True
      elif len(d) == 1 and () in d:
        r = abs(d[()]) <= m
      else:
        t = from_poly(d)
        r = z3.And(t <= q(m), t >= q(-m))
    except OverflowError:
      t = zr(a) - zr(b)
      r = z3.And(t <= q(m), t >= q(-m))
  memo[key] = r
  return r


def sum_(xs):
  r = Fraction(0)
  first = True
  for x in xs:
    r = x if first else add(r, x)
    first = False
  return r


def pick(xs, i):
  """xs[i] for a possibly symbolic index within range."""
  xs = list(xs)
  if not is_sym(i):
    return xs[int(i)]
  r = xs[-1]
  for k in range(len(xs) - 2, -1, -1):
    r = ite(eqv(i, k), xs[k], r)
  return r
