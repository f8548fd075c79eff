"""Symbolic execution of plain Python code over integers and strings.

The module's current source is rewritten (format expressions, method calls and
builtins go through this file) and executed on symbolic values: integers are z3
terms, strings are sequences of literals, opaque names and padded decimals.
Every branch on a symbolic value forks the run; the solver prunes infeasible
branches.  A loop over a symbolic range is executed for a generic index, or
unrolled for small bounds.
"""
import ast
import builtins
import inspect
import math
import os
import re
import string
import types

from svx.z3load import z3

MAXDIG = 12


class Unsupported(BaseException):
  pass


class Suspect(BaseException):
  """Behaviour depends on the content of an opaque name; candidates are replayed."""


class TooManyBranches(BaseException):
  pass


_cur = [None]


def ctx():
  return _cur[0]


class Ctx:
  """One run along a decision prefix."""

  def __init__(self, prefix, base, generic, stats, limit=400):
    self.prefix, self.taken, self.pc, self.loops = tuple(prefix), (), list(base), []
    self.generic, self.stats, self.limit, self.fresh, self.logs, self.preds = generic, stats, limit, 0, {}, {}
    self.todo = []

  def sat(self, *extra):
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(*self.pc, *extra)
    r = self.stats(s)
    if r == z3.unknown:
      raise Unsupported('solver undecided on a branch')
    return s.model() if r == z3.sat else None

  def branch(self, cond):
    cond = z3.simplify(cond)
    if z3.is_true(cond) or z3.is_false(cond):
      return z3.is_true(cond)
    k = len(self.taken)
    if k >= self.limit:
      raise TooManyBranches()
    if k < len(self.prefix):
      d = self.prefix[k]
    else:
      t, f = self.sat(cond) is not None, self.sat(z3.Not(cond)) is not None
      if not (t and f):
        self.pc.append(cond if t else z3.Not(cond))
        self.taken += (t,)
        self.prefix = self.taken
        return t
      d = True
      self.todo.append(self.taken + (False,))
    self.taken += (d,)
    self.pc.append(cond if d else z3.Not(cond))
    return d

  def concrete(self, e, limit=64):
    """Forks on the value of e."""
    e = z3.simplify(e)
    if z3.is_int_value(e):
      return e.as_long()
    for _ in range(limit):
      k = len(self.taken)
      if k < len(self.prefix) and isinstance(self.prefix[k], tuple):
        v, eq = self.prefix[k]
        self.taken += ((v, eq),)
        self.pc.append(e == v if eq else e != v)
        if eq:
          return v
        continue
      m = self.sat()
      v = m.eval(e, model_completion=True).as_long()
      if self.sat(e != v) is not None:
        self.todo.append(self.taken + ((v, False),))
      self.taken += ((v, True),)
      self.pc.append(e == v)
      return v
    raise TooManyBranches()

  def valid(self, cond):
    cond = z3.simplify(cond)
    if z3.is_true(cond):
      return True
    return self.sat(z3.Not(cond)) is None

  def var(self, name):
    self.fresh += 1
    return z3.Int(f'{name}!{self.fresh}')

  def pred(self, name, kind, lit):
    """An arbitrary fact about an opaque name."""
    b = self.preds.setdefault((name, kind, lit), z3.Bool(f'{name}.{kind}.{lit}'))
    return b


# ---------------------------------------------------------------- values

def zi(x):
  if isinstance(x, SymInt):
    return x.e
  if isinstance(x, bool):
    return z3.IntVal(int(x))
  if isinstance(x, int):
    return z3.IntVal(x)
  raise Unsupported(f'integer expected, got {type(x).__name__}')


def zr(x):
  if isinstance(x, SymReal):
    return x.e
  if isinstance(x, float):
    if not math.isfinite(x):
      raise Unsupported('non-finite float')
    return z3.RealVal(repr(x))
  return z3.ToReal(zi(x))


class SymBool:
  def __init__(self, e):
    self.e = e

  def __bool__(self):
    return ctx().branch(self.e)

  def __eq__(self, o):
    return bool(self) == o

  def __hash__(self):
    return id(self)

  def __and__(self, o):
    return SymBool(z3.And(self.e, o.e)) if isinstance(o, SymBool) else bool(self) & o

  __rand__ = __and__

  def __or__(self, o):
    return SymBool(z3.Or(self.e, o.e)) if isinstance(o, SymBool) else bool(self) | o

  __ror__ = __or__

  def __invert__(self):
    raise Unsupported('~ on a truth value')


class Num:
  def _bin(self, o, fi, fr):
    if not isinstance(o, (int, float, SymInt, SymReal)):
      return NotImplemented
    if isinstance(self, SymReal) or isinstance(o, (SymReal, float)):
      if fr is None:
        raise Unsupported('float operation')
      return fr(zr(self), zr(o))
    return fi(zi(self), zi(o))

  def __add__(self, o):
    return self._bin(o, lambda a, b: SymInt(a + b), lambda a, b: SymReal(a + b))

  __radd__ = __add__

  def __sub__(self, o):
    return self._bin(o, lambda a, b: SymInt(a - b), lambda a, b: SymReal(a - b))

  def __rsub__(self, o):
    return self._bin(o, lambda a, b: SymInt(b - a), lambda a, b: SymReal(b - a))

  def __mul__(self, o):
    return self._bin(o, lambda a, b: SymInt(a * b), lambda a, b: SymReal(a * b))

  __rmul__ = __mul__

  def __neg__(self):
    return type(self)(-self.e)

  def __pos__(self):
    return self

  def __truediv__(self, o):
    if not isinstance(o, (int, float, SymInt, SymReal)):
      return NotImplemented
    if SymBool(zr(o) == 0):
      raise ZeroDivisionError('division by zero')
    return SymReal(zr(self) / zr(o))

  def __lt__(self, o):
    return self._bin(o, lambda a, b: SymBool(a < b), lambda a, b: SymBool(a < b))

  def __le__(self, o):
    return self._bin(o, lambda a, b: SymBool(a <= b), lambda a, b: SymBool(a <= b))

  def __gt__(self, o):
    return self._bin(o, lambda a, b: SymBool(a > b), lambda a, b: SymBool(a > b))

  def __ge__(self, o):
    return self._bin(o, lambda a, b: SymBool(a >= b), lambda a, b: SymBool(a >= b))

  def __eq__(self, o):
    return self._bin(o, lambda a, b: SymBool(a == b), lambda a, b: SymBool(a == b))

  def __ne__(self, o):
    return self._bin(o, lambda a, b: SymBool(a != b), lambda a, b: SymBool(a != b))

  def __bool__(self):
    return ctx().branch(self.e != 0)

  def __hash__(self):
    return id(self)


def pydiv(a, b):
  """Floor division (z3 rounds towards -oo only for positive divisors)."""
  return z3.If(b > 0, a / b, (-a) / (-b))


class SymInt(Num):
  def __init__(self, e):
    self.e = z3.simplify(e) if isinstance(e, z3.ExprRef) else z3.IntVal(e)

  def __floordiv__(self, o):
    return floordiv(self, o)

  def __rfloordiv__(self, o):
    return floordiv(o, self)

  def __mod__(self, o):
    return self - floordiv(self, o) * o

  def __rmod__(self, o):
    return o - floordiv(o, self) * self

  def __divmod__(self, o):
    return floordiv(self, o), self % o

  def __rtruediv__(self, o):
    return SymReal(zr(o)) / self

  def __rpow__(self, o):
    return o ** ctx().concrete(self.e)

  def __index__(self):
    return ctx().concrete(self.e)

  def __abs__(self):
    return SymInt(z3.If(self.e < 0, -self.e, self.e))

  def __str__(self):
    raise Unsupported('str of a symbolic integer')

  __repr__ = object.__repr__

  def __format__(self, spec):
    raise Unsupported('format of a symbolic integer')


def floordiv(a, b):
  if SymBool(zi(b) == 0):
    raise ZeroDivisionError('integer division by zero')
  return SymInt(pydiv(zi(a), zi(b)))


class SymReal(Num):
  def __init__(self, e):
    self.e = z3.simplify(e)

  def __floor__(self):
    return SymInt(z3.ToInt(self.e))

  def __ceil__(self):
    return SymInt(-z3.ToInt(-self.e))

  def __floordiv__(self, o):
    return SymReal(z3.ToReal(z3.ToInt(zr(self) / zr(o))))

  def __trunc__(self):
    return SymInt(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))


def digits(v):
  """Number of decimal digits of v >= 0."""
  e = z3.IntVal(MAXDIG + 1)
  for k in range(MAXDIG, 0, -1):
    e = z3.If(v < 10 ** k, z3.IntVal(k), e)
  return e


class Dec:
  """Decimal digits of v >= 0, padded on the left to width w."""

  def __init__(self, v, w=None, fill='0'):
    self.v, self.w, self.fill = z3.simplify(v), (z3.IntVal(0) if w is None else z3.simplify(w)), fill

  def width(self):
    d = digits(self.v)
    return z3.If(self.w > d, self.w, d)


class Name:
  """An opaque string: contains none of the characters in without, at least one character."""

  def __init__(self, name, without='', number=None):
    self.name, self.without, self.number = name, without, number

  def length(self):
    return z3.Int(f'{self.name}.len')


def is_str(x):
  return isinstance(x, (str, SymStr))


class SymStr:
  def __init__(self, pieces):
    out = []
    for p in pieces:
      if isinstance(p, SymStr):
        ps = p.pieces
      else:
        ps = [p]
      for q in ps:
        if isinstance(q, Dec) and z3.is_int_value(q.v) and z3.is_int_value(q.w):
          q = str(q.v.as_long()).rjust(q.w.as_long(), q.fill)
        if isinstance(q, str):
          if not q:
            continue
          if out and isinstance(out[-1], str):
            out[-1] += q
            continue
        out.append(q)
    self.pieces = out

  @property
  def lit(self):
    return ''.join(self.pieces) if all(isinstance(p, str) for p in self.pieces) else None

  def __hash__(self):
    return id(self)

  def __str__(self):
    raise Unsupported('conversion of a symbolic string')

  def __repr__(self):
    return '<' + '+'.join(p if isinstance(p, str) else p.name if isinstance(p, Name) else f'dec({p.v},{p.w})' for p in self.pieces) + '>'

  def __add__(self, o):
    return norm(SymStr([self, o])) if is_str(o) else NotImplemented

  def __radd__(self, o):
    return norm(SymStr([o, self])) if is_str(o) else NotImplemented

  def __mul__(self, n):
    return norm(SymStr([self] * ctx().concrete(zi(n))))

  __rmul__ = __mul__

  def __mod__(self, args):
    return percent(self, args)

  def __bool__(self):
    return any(True for p in self.pieces)     # no piece is empty

  def __len__(self):
    raise Unsupported('len of a symbolic string')

  def __contains__(self, x):
    x = plain(x)
    if not isinstance(x, str):
      raise Unsupported('containment of a symbolic string')
    if x == '':
      return True
    return bool(self.occurrences(x, first=True))

  def occurrences(self, x, first=False, last=False):
    """Positions of the literal x: (piece, offset); only the first or the last one on request."""
    if len(x) != 1:
      if any(isinstance(p, str) and x in p for p in self.pieces):
        return [(k, p.index(x)) for k, p in enumerate(self.pieces) if isinstance(p, str) and x in p]
      if all(isinstance(p, str) or (isinstance(p, Name) and any(ch in p.without for ch in x)) or
             (isinstance(p, Dec) and not all(ch.isdigit() or ch == p.fill for ch in x)) for p in self.pieces) and len(self.pieces) < 2:
        return []
      raise Unsupported(f'search for {x!r}')
    out = []
    for k, p in list(enumerate(self.pieces))[::-1 if last else 1]:
      if out and (first or last):
        break
      if isinstance(p, str):
        out += [(k, j) for j, ch in enumerate(p) if ch == x]
      elif isinstance(p, Dec):
        if x.isdigit() or x == p.fill:
          raise Unsupported('search for a digit')
      elif x not in p.without:
        if ctx().branch(ctx().pred(p.name, 'has', x)):
          raise Suspect(f'{p.name} contains {x!r}')
    return out

  def cut(self, pos, n):
    """The pieces before and after n characters at position pos."""
    k, j = pos
    p = self.pieces[k]
    return norm(SymStr(self.pieces[:k] + [p[:j]])), norm(SymStr([p[j + n:]] + self.pieces[k + 1:]))

  def __eq__(self, o):
    if not is_str(o):
      return False
    o = SymStr([o])
    if self.lit is not None and o.lit is not None:
      return self.lit == o.lit
    e = same(self, o)
    if e is not None:
      return SymBool(e)
    raise Unsupported('comparison of symbolic strings')

  def __ne__(self, o):
    r = self.__eq__(o)
    return SymBool(z3.Not(r.e)) if isinstance(r, SymBool) else not r

  def __getitem__(self, key):
    if isinstance(key, slice):
      if key.step is not None and key.step != 1:
        raise Unsupported('string slice with a step')
      a = (0, 0) if key.start is None else self.where(key.start)
      b = (len(self.pieces), 0) if key.stop is None else self.where(key.stop)
      out = []
      for k, p in enumerate(self.pieces):
        if k < a[0] or k > b[0] or (k == b[0] and b[1] == 0):
          continue
        if isinstance(p, str):
          p = p[a[1] if k == a[0] else 0:b[1] if k == b[0] else None]
        out.append(p)
      return norm(SymStr(out))
    raise Unsupported('character of a symbolic string')

  def where(self, i):
    """Piece and offset of the character position i."""
    pos, i = z3.IntVal(0), zi(i)
    total = self.length()
    if ctx().branch(i < 0):
      i = i + total
    for k, p in enumerate(self.pieces):
      if isinstance(p, str):
        for j in range(len(p)):
          if ctx().valid(i == pos + j):
            return k, j
      elif ctx().valid(i == pos):
        return k, 0
      pos = pos + plen(p)
    if ctx().valid(i >= pos):
      return len(self.pieces), 0
    raise Unsupported('position inside an opaque name')

  def length(self):
    return z3.simplify(z3.Sum([z3.IntVal(0)] + [plen(p) for p in self.pieces]))

  def offset(self, pos):
    k, j = pos
    return SymInt(z3.Sum([z3.IntVal(j)] + [plen(p) for p in self.pieces[:k]]))

  # -- methods of str
  def m_split(self, sep=None, maxsplit=-1):
    return self._split(sep, maxsplit, False)

  def m_rsplit(self, sep=None, maxsplit=-1):
    return self._split(sep, maxsplit, True)

  def _split(self, sep, maxsplit, right):
    if sep is None:
      raise Unsupported('split on whitespace')
    out, rest, n = [], self, maxsplit
    while n != 0 and isinstance(rest, SymStr):
      occ = rest.occurrences(sep, first=not right, last=right)
      if not occ:
        break
      a, b = rest.cut(occ[-1 if right else 0], len(sep))
      if right:
        out.insert(0, b)
        rest = a
      else:
        out.append(a)
        rest = b
      n -= 1
    else:
      if n != 0 and isinstance(rest, str):
        more = rest.rsplit(sep, n) if right else rest.split(sep, n)
        return more + out if right else out + more
    return [rest] + out if right else out + [rest]

  def m_partition(self, sep):
    occ = self.occurrences(sep, first=True)
    if not occ:
      return self, '', ''
    a, b = self.cut(occ[0], len(sep))
    return a, sep, b

  def m_rpartition(self, sep):
    occ = self.occurrences(sep, last=True)
    if not occ:
      return '', '', self
    a, b = self.cut(occ[-1], len(sep))
    return a, sep, b

  def m_count(self, sep):
    if len(sep) != 1:
      raise Unsupported('count of a word')
    return len(self.occurrences(sep))

  def m_find(self, sep):
    occ = self.occurrences(sep, first=True)
    return self.offset(occ[0]) if occ else -1

  def m_rfind(self, sep):
    occ = self.occurrences(sep, last=True)
    return self.offset(occ[-1]) if occ else -1

  def m_index(self, sep):
    occ = self.occurrences(sep, first=True)
    if not occ:
      raise ValueError('substring not found')
    return self.offset(occ[0])

  def m_rindex(self, sep):
    occ = self.occurrences(sep, last=True)
    if not occ:
      raise ValueError('substring not found')
    return self.offset(occ[-1])

  def m_join(self, items):
    out = []
    for k, x in enumerate(items):
      if not is_str(x):
        raise TypeError('sequence item: expected str instance')
      out += ([self] if k else []) + [x]
    return norm(SymStr(out))

  def m_replace(self, a, b, n=-1):
    rest, out = self, []
    parts = self._split(a, n, False)
    for k, x in enumerate(parts):
      out += ([b] if k else []) + [x]
    return norm(SymStr(out))

  def m_format(self, *args, **kw):
    return braces(self, args, kw)

  def m_startswith(self, x):
    return self._edge(x, 0)

  def m_endswith(self, x):
    return self._edge(x, -1)

  def _edge(self, x, k):
    x = plain(x)
    if not isinstance(x, str):
      raise Unsupported('prefix test')
    if not self.pieces:
      return x == ''
    p = self.pieces[k]
    if isinstance(p, str) and len(p) >= len(x):
      return p.endswith(x) if k else p.startswith(x)
    if isinstance(p, Name):
      if any(ch in p.without for ch in (x[-1:] if k else x[:1])):
        return False
      return SymBool(ctx().pred(p.name, 'ends' if k else 'starts', x))
    raise Unsupported('prefix test')

  def m_zfill(self, w):
    if len(self.pieces) == 1 and isinstance(self.pieces[0], Dec) and self.pieces[0].fill == '0':
      d = self.pieces[0]
      return norm(SymStr([Dec(d.v, z3.If(zi(w) > d.w, zi(w), d.w))]))
    raise Unsupported('zfill')

  def m_rjust(self, w, fill=' '):
    if len(self.pieces) == 1 and isinstance(self.pieces[0], Dec):
      d = self.pieces[0]
      if z3.is_int_value(d.w) and d.w.as_long() <= 1:
        return norm(SymStr([Dec(d.v, zi(w), fill)]))
      if d.fill == fill:
        return norm(SymStr([Dec(d.v, z3.If(zi(w) > d.w, zi(w), d.w), fill)]))
    raise Unsupported('rjust')

  def _digits(self):
    if len(self.pieces) == 1 and isinstance(self.pieces[0], Dec) and self.pieces[0].fill == '0':
      return True
    for p in self.pieces:
      if isinstance(p, str) and not p.isdigit():
        return False
      if isinstance(p, Name):
        if p.number is False:
          return False
        raise Unsupported('isdigit of an opaque name')
    return all(isinstance(p, Dec) and p.fill == '0' or isinstance(p, str) for p in self.pieces)

  m_isdigit = m_isdecimal = m_isnumeric = _digits

  def m_strip(self, *a):
    return self._strip(a, 'strip')

  def m_lstrip(self, *a):
    return self._strip(a, 'lstrip')

  def m_rstrip(self, *a):
    return self._strip(a, 'rstrip')

  def _strip(self, a, how):
    chars = a[0] if a else ' \t\n\r\x0b\x0c'
    ps = list(self.pieces)
    if chars is None or not isinstance(chars, str):
      raise Unsupported('strip')
    for side in ('l', 'r'):
      if how not in ('strip', side + 'strip'):
        continue
      while ps:
        p = ps[0 if side == 'l' else -1]
        if isinstance(p, str):
          q = p.lstrip(chars) if side == 'l' else p.rstrip(chars)
          ps[0 if side == 'l' else -1] = q
          if q:
            break
          ps.pop(0 if side == 'l' else -1)
          continue
        if isinstance(p, Dec):
          if any(ch.isdigit() or ch == p.fill for ch in chars):
            raise Suspect('digits stripped')
          break
        if any(ch not in p.without for ch in chars):
          if ctx().branch(ctx().pred(p.name, 'edge', chars)):
            raise Suspect(f'{p.name} loses characters')
        break
    return norm(SymStr(ps))


def plen(p):
  if isinstance(p, str):
    return z3.IntVal(len(p))
  if isinstance(p, Name):
    ctx().pc.append(p.length() >= 1)
    return p.length()
  return p.width()


def norm(s):
  return s.lit if s.lit is not None else s


def plain(x):
  return norm(x) if isinstance(x, SymStr) else x


def same(a, b):
  """Equality as a formula, when both have the same structure."""
  a, b = SymStr([a]), SymStr([b])
  if len(a.pieces) != len(b.pieces):
    return None
  es = []
  for p, q in zip(a.pieces, b.pieces):
    if isinstance(p, Dec) and isinstance(q, str):
      p, q = q, p
    if isinstance(p, str) and isinstance(q, Dec):
      if p.isdigit():
        es.append(z3.And(q.v == int(p), q.width() == len(p)))
        continue
      return None
    if type(p) is not type(q):
      return None
    if isinstance(p, str):
      es.append(z3.BoolVal(p == q))
    elif isinstance(p, Name):
      if p.name != q.name:
        return None
    else:
      w = p.width() == q.width()
      if p.fill != q.fill:
        w = z3.And(w, p.width() == digits(p.v))
      es.append(z3.And(p.v == q.v, w))
  return z3.And(es) if es else z3.BoolVal(True)


def resolve(s, c):
  """Decimals with only one possible text become literals."""
  out = []
  for p in SymStr([s]).pieces:
    if isinstance(p, Dec):
      m = c.sat()
      v, w = (m.eval(e, model_completion=True) for e in (p.v, p.width()))
      if c.valid(z3.And(p.v == v, p.width() == w)):
        p = str(v.as_long()).rjust(w.as_long(), p.fill)
    out.append(p)
  return SymStr(out)


# ---------------------------------------------------------------- formatting

def text(x):
  """str(x)."""
  if isinstance(x, SymInt):
    if ctx().branch(x.e < 0):
      return SymStr(['-', Dec(-x.e)])
    return norm(SymStr([Dec(x.e)]))
  if is_str(x):
    return x
  if isinstance(x, (SymReal, SymBool)):
    raise Unsupported('text of a symbolic value')
  return builtins.str(x)


def pad(x, width, fill, left):
  """Pads the text x."""
  if isinstance(x, str) and isinstance(width, int):
    return x.ljust(width, fill) if left else x.rjust(width, fill)
  if isinstance(width, int) and width <= 1:
    return x
  if left:
    raise Unsupported('left-aligned padding')
  return SymStr([x]).m_rjust(width, fill)


def number(x, width, fill):
  if isinstance(x, SymInt):
    if ctx().branch(x.e < 0):
      raise Unsupported('padding of a negative number')
    return norm(SymStr([Dec(x.e, zi(width), fill)]))
  if isinstance(x, SymReal):
    x = x.__trunc__()
    return number(x, width, fill)
  if not isinstance(x, (int, float)):
    raise TypeError('%d format: a real number is required')
  return ('%' + ('0' if fill == '0' else '') + str(ctx().concrete(zi(width))) + 'd') % x


PERCENT = re.compile(r'%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(?:\.(\*|\d+))?([hlL]?)([a-zA-Z%])', re.S)


def percent(tmpl, args):
  """tmpl % args."""
  flat = []          # characters or opaque pieces
  pieces = SymStr([tmpl]).pieces
  for p in pieces:
    if isinstance(p, str):
      flat += list(p)
    elif isinstance(p, Name):
      if '%' not in p.without and ctx().branch(ctx().pred(p.name, 'has', '%')):
        raise Suspect(f'{p.name} is used as a format')
      flat.append(p)
    else:
      flat.append(p)
  if isinstance(args, dict):
    named, pos = args, []
  else:
    named, pos = None, list(args) if isinstance(args, tuple) else [args]
  out, k = [], 0
  while k < len(flat):
    if flat[k] != '%':
      out.append(flat[k])
      k += 1
      continue
    # a specifier: padded decimals inside it become literal
    j = k + 1
    spec = '%'
    while j < len(flat) and not PERCENT.fullmatch(spec):
      ch = flat[j]
      if isinstance(ch, Dec):
        ch = str(ctx().concrete(ch.v)).rjust(ctx().concrete(ch.w), ch.fill)
        flat[j:j + 1] = list(ch)
        continue
      if isinstance(ch, Name):
        raise Suspect(f'{ch.name} is part of a format specifier')
      spec += ch
      j += 1
    m = PERCENT.fullmatch(spec)
    if not m:
      raise ValueError('incomplete format')
    k = j
    key, flags, width, prec, _, conv = m.groups()
    if conv == '%':
      out.append('%')
      continue

    def take():
      if not pos:
        raise TypeError('not enough arguments for format string')
      return pos.pop(0)
    w = take() if width == '*' else int(width or 0)
    if prec is not None:
      raise Unsupported('precision in a format')
    v = named[key] if key is not None else take()
    left = '-' in flags
    if '+' in flags or ' ' in flags or '#' in flags:
      raise Unsupported('sign flags')
    if conv in 'di':
      if is_str(v):
        raise TypeError('%d format: a real number is required, not str')
      out.append(pad(number(v, 0, '0'), w, ' ', True) if left else number(v, w, '0' if '0' in flags else ' '))
    elif conv == 's':
      out.append(pad(text(v), w, ' ', left))
    else:
      raise Unsupported('%' + conv)
  if pos and named is None:
    raise TypeError('not all arguments converted during string formatting')
  return norm(SymStr(out))


SPEC = re.compile(r'(?:(.)?([<>=^]))?([-+ ])?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?', re.S)


def literal(x):
  """A concrete string equal to x (forks on embedded numbers)."""
  x = SymStr([x])
  out = ''
  for p in x.pieces:
    if isinstance(p, Dec):
      p = str(ctx().concrete(p.v)).rjust(ctx().concrete(p.w), p.fill)
    if isinstance(p, Name):
      raise Suspect(f'{p.name} is part of a format specifier')
    out += p
  return out


def fmt(x, spec='', conv=None):
  """format(x, spec)."""
  spec = literal(spec)
  if conv == 's' or conv == 115:
    x = text(x)
  elif conv not in (None, -1):
    raise Unsupported('!r in a format')
  if not isinstance(x, (SymInt, SymReal, SymStr, SymBool)):
    return builtins.format(x, spec)
  if spec == '':
    return text(x)
  m = SPEC.fullmatch(spec)
  if not m:
    raise ValueError('Invalid format specifier')
  fill, align, sign, alt, zero, width, comma, prec, typ = m.groups()
  w = int(width or 0)
  if isinstance(x, SymStr):
    if typ not in (None, 's'):
      raise ValueError('Unknown format code for str')
    if prec or sign or comma or alt:
      raise Unsupported('format specifier')
    if zero and not align:
      fill, align = '0', '<'
    if align == '^':
      raise Unsupported('centering')
    return pad(x, w, fill or ' ', align in (None, '<'))
  if prec or sign or comma or alt or typ not in (None, 'd', 'n') or isinstance(x, (SymReal, SymBool)):
    raise Unsupported('format specifier')
  if zero and not align:
    fill, align = '0', '='
  if align in (None, '>', '='):
    return number(x, w, fill or ' ')
  return pad(text(x), w, fill or ' ', True) if align == '<' else (_ for _ in ()).throw(Unsupported('centering'))


def braces(tmpl, args, kw):
  """tmpl.format(*args, **kw)."""
  marks, s = [], ''
  for p in SymStr([tmpl]).pieces:
    if isinstance(p, str):
      s += p
      continue
    if isinstance(p, Name):
      for ch in '{}':
        if ch not in p.without and ctx().branch(ctx().pred(p.name, 'has', ch)):
          raise Suspect(f'{p.name} is used as a format')
    s += chr(0xe000 + len(marks))
    marks.append(p)

  def back(t):
    out = []
    for ch in t:
      k = ord(ch) - 0xe000
      out.append(marks[k] if 0 <= k < len(marks) else ch)
    return SymStr(out)
  auto = [0]

  def value(field):
    field = literal(back(field))
    m = re.fullmatch(r'(\w*)', field)
    if not m:
      raise Unsupported('attribute in a format')
    if field == '':
      auto[0] += 1
      return args[auto[0] - 1]
    return args[int(field)] if field.isdigit() else kw[field]

  def run(t):
    out = []
    for lit, field, spec, conv in string.Formatter().parse(t):
      out.append(back(lit))
      if field is not None:
        out.append(fmt(value(field), run(spec or ''), conv))
    return norm(SymStr(out))
  return run(s)


# ---------------------------------------------------------------- replacements of builtins and modules

class SymRange:
  def __init__(self, *a):
    if len(a) == 1:
      self.lo, self.hi, self.step = 0, a[0], 1
    else:
      self.lo, self.hi, self.step = a[0], a[1], (a[2] if len(a) > 2 else 1)

  def count(self):
    if not (isinstance(self.step, int) and self.step == 1):
      raise Unsupported('range with a step')
    d = zi(self.hi) - zi(self.lo)
    return z3.If(d > 0, d, 0)

  def __iter__(self):
    c = ctx()
    if not (isinstance(self.step, int) and self.step == 1):
      raise Unsupported('range with a step')
    if c.generic:
      if c.branch(zi(self.hi) <= zi(self.lo)):
        return
      i = c.var('i')
      c.pc += [i >= zi(self.lo), i < zi(self.hi)]
      c.loops.append((i, zi(self.lo), zi(self.hi)))
      yield SymInt(i)
      return
    k = zi(self.lo)
    while c.branch(k < zi(self.hi)):
      yield SymInt(k)
      k = k + 1


def s_range(*a):
  if any(isinstance(x, (SymReal, float)) or is_str(x) for x in a):
    raise TypeError('range expects integers')
  return SymRange(*a) if any(isinstance(x, SymInt) for x in a) else range(*a)


def s_len(x):
  if isinstance(x, SymStr):
    return SymInt(x.length())
  if isinstance(x, SymRange):
    return SymInt(x.count())
  if isinstance(x, list) and ctx().generic and ctx().loops:
    raise Unsupported('length of a list built by a loop')
  return len(x)


class IntMeta(type):
  def __instancecheck__(cls, x):
    return isinstance(x, (int, SymInt))

  def __call__(cls, x=0, base=10):
    if isinstance(x, SymInt):
      return x
    if isinstance(x, SymBool):
      return SymInt(z3.If(x.e, 1, 0))
    if isinstance(x, SymReal):
      return x.__trunc__()
    if isinstance(x, SymStr):
      if base != 10:
        raise Unsupported('int with a base')
      ps = list(x.pieces)
      neg = False
      if len(ps) > 1 and ps[0] in ('-', '+'):
        neg = ps.pop(0) == '-'
      if len(ps) == 1 and isinstance(ps[0], Dec) and ps[0].fill in '0 ':
        return SymInt(-ps[0].v if neg else ps[0].v)
      if any(isinstance(p, Name) and p.number is False for p in ps) or any(
          isinstance(p, str) and any(ch.isascii() and not (ch.isdigit() or ch in '_+- \t\n') for ch in p) for p in ps):
        raise ValueError('invalid literal for int()')
      raise Unsupported('int of an opaque name')
    return int(x) if not isinstance(x, str) else int(x, base)


class SInt(metaclass=IntMeta):
  pass


class StrMeta(type):
  def __instancecheck__(cls, x):
    return is_str(x)

  def __call__(cls, x=''):
    return text(x)

  def __getattr__(cls, name):
    return lambda x, *a, **k: meth(x, name)(*a, **k)


class SStr(metaclass=StrMeta):
  pass


def zmax(xs):
  r = xs[0]
  for x in xs[1:]:
    r = SymInt(z3.If(zi(x) > zi(r), zi(x), zi(r)))
  return r


def zmin(xs):
  r = xs[0]
  for x in xs[1:]:
    r = SymInt(z3.If(zi(x) < zi(r), zi(x), zi(r)))
  return r


def extremum(f, real):
  def g(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if any(isinstance(x, SymInt) for x in xs) and not k:
      if any(isinstance(x, (SymReal, float)) for x in xs):
        raise Unsupported('max of mixed numbers')
      return f(xs)
    return real(*a, **k)
  return g


def log10(x, base10=True):
  if not isinstance(x, (SymInt, SymReal)):
    return math.log10(x)
  if isinstance(x, SymReal):
    raise Unsupported('log10 of a real')
  c = ctx()
  if c.branch(x.e <= 0):
    raise ValueError('math domain error')
  key = (x.e.sexpr(), base10)
  if key not in c.logs:
    c.fresh += 1
    l = z3.Real(f'log!{c.fresh}')
    eps = z3.RealVal('0') if base10 else z3.RealVal('0.000000000000001')
    for k in range(MAXDIG + 1):
      c.pc += [z3.Implies(x.e == 10 ** k, z3.And(l >= k - eps, l <= k)),
               z3.Implies(z3.And(x.e > 10 ** k, x.e < 10 ** (k + 1)), z3.And(l > k, l < k + 1))]
    c.logs[key] = l
  return SymReal(c.logs[key])


class MathProxy:
  def __getattr__(self, n):
    return getattr(math, n)

  log10 = staticmethod(log10)

  @staticmethod
  def log(x, *b):
    if isinstance(x, SymInt) and b == (10,):
      return log10(x, False)
    if isinstance(x, (SymInt, SymReal)):
      raise Unsupported('logarithm')
    return math.log(x, *b)

  @staticmethod
  def floor(x):
    return x.__floor__() if isinstance(x, SymReal) else x if isinstance(x, SymInt) else math.floor(x)

  @staticmethod
  def ceil(x):
    return x.__ceil__() if isinstance(x, SymReal) else x if isinstance(x, SymInt) else math.ceil(x)

  @staticmethod
  def trunc(x):
    return x.__trunc__() if isinstance(x, SymReal) else x if isinstance(x, SymInt) else math.trunc(x)


class PathProxy:
  def __getattr__(self, n):
    return getattr(os.path, n)

  @staticmethod
  def split(p):
    if not isinstance(p, SymStr):
      return os.path.split(p)
    occ = p.occurrences('/', last=True)
    if not occ:
      return '', p
    a, b = p.cut(occ[-1], 1)
    return a, b

  @classmethod
  def basename(cls, p):
    return cls.split(p)[1]

  @classmethod
  def dirname(cls, p):
    return cls.split(p)[0]

  @staticmethod
  def join(a, *b):
    if not any(isinstance(x, SymStr) for x in (a,) + b):
      return os.path.join(a, *b)
    out = SymStr([a])
    for x in b:
      if x == '' or plain(x) == '':
        raise Unsupported('join with an empty part')
      if bool(SymStr([x]).m_startswith('/')):
        out = SymStr([x])
      elif not out.pieces or bool(out.m_endswith('/')):
        out = SymStr([out, x])
      else:
        out = SymStr([out, '/', x])
    return norm(out)


class OsProxy:
  path = PathProxy()
  fspath = staticmethod(lambda p: p if isinstance(p, SymStr) else os.fspath(p))

  def __getattr__(self, n):
    return getattr(os, n)


def symbolic(x):
  return isinstance(x, (SymStr, SymInt, SymReal, SymBool))


def meth(x, name):
  """x.name for a call."""
  if isinstance(x, SymStr):
    if not hasattr(SymStr, 'm_' + name):
      raise Unsupported(f'str.{name}')
    return getattr(x, 'm_' + name)
  if isinstance(x, str):
    def call(*a, **k):
      flat = list(a) + list(k.values())
      if name == 'join' and len(a) == 1:
        items = list(a[0])
        if any(symbolic(i) for i in items):
          return SymStr([x]).m_join(items)
        return x.join(items)
      if any(symbolic(i) for i in flat):
        if name in ('zfill', 'rjust', 'ljust', 'center'):
          return getattr(x, name)(*[ctx().concrete(i.e) if isinstance(i, SymInt) else i for i in a], **k)
        s = SymStr([x])
        if not hasattr(s, 'm_' + name):
          raise Unsupported(f'str.{name}')
        return getattr(s, 'm_' + name)(*a, **k)
      return getattr(x, name)(*a, **k)
    return call
  return getattr(x, name)


def mod(a, b):
  if isinstance(a, str):
    flat = b if isinstance(b, tuple) else b.values() if isinstance(b, dict) else (b,)
    if any(symbolic(i) for i in flat):
      return percent(a, b)
  return a % b


def concat(*parts):
  return norm(SymStr(list(parts)))


class Rewrite(ast.NodeTransformer):
  def visit_BinOp(self, n):
    self.generic_visit(n)
    if isinstance(n.op, ast.Mod):
      return ast.copy_location(_call('__sx_mod', [n.left, n.right]), n)
    return n

  def visit_AugAssign(self, n):
    self.generic_visit(n)
    if isinstance(n.op, ast.Mod) and isinstance(n.target, ast.Name):
      return ast.copy_location(ast.Assign([n.target], _call('__sx_mod', [ast.Name(n.target.id, ast.Load()), n.value])), n)
    return n

  def visit_Call(self, n):
    self.generic_visit(n)
    if isinstance(n.func, ast.Attribute) and not (isinstance(n.func.value, ast.Call) and getattr(n.func.value.func, 'id', '') == 'super'):
      n.func = ast.copy_location(_call('__sx_meth', [n.func.value, ast.Constant(n.func.attr)]), n.func)
    return n

  def visit_JoinedStr(self, n):
    parts = []
    for v in n.values:
      if isinstance(v, ast.Constant):
        parts.append(v)
      else:
        val = self.visit(v.value)
        spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
        parts.append(_call('__sx_fmt', [val, spec, ast.Constant(v.conversion)]))
    return ast.copy_location(_call('__sx_concat', parts), n)


def _call(f, args):
  return ast.Call(ast.Name(f, ast.Load()), args, [])


BUILTINS = {'int': SInt, 'str': SStr, 'len': s_len, 'range': s_range, 'max': extremum(zmax, max), 'min': extremum(zmin, min),
            'format': fmt, 'math': MathProxy(), 'os': OsProxy(),
            '__sx_mod': mod, '__sx_meth': meth, '__sx_fmt': fmt, '__sx_concat': concat}


def load(module):
  """The namespace of the module's current source, rewritten for symbolic execution."""
  tree = ast.fix_missing_locations(Rewrite().visit(ast.parse(inspect.getsource(module))))
  ns = {'__name__': module.__name__ + '__sx', '__builtins__': builtins, '__sx_mod': mod, '__sx_meth': lambda x, n: getattr(x, n),
        '__sx_fmt': fmt, '__sx_concat': concat}
  exec(compile(tree, module.__file__, 'exec'), ns)
  for k, v in BUILTINS.items():
    ns[k] = v
  return ns


def explore(fn, assumptions, generic, stats, max_paths=600):
  """Runs fn(ctx) on every feasible path; yields (ctx, kind, value)."""
  todo, n = [()], 0
  while todo:
    pre = todo.pop()
    n += 1
    if n > max_paths:
      raise TooManyBranches()
    c = Ctx(pre, assumptions, generic, stats)
    _cur[0] = c
    try:
      try:
        v = fn(c)
        if isinstance(v, (types.GeneratorType, tuple, map, filter)) or hasattr(v, '__next__'):
          v = list(v)
        out = (c, 'return', v)
      except (Unsupported, TooManyBranches):
        raise
      except Suspect as e:
        out = (c, 'suspect', e)
      except Exception as e:
        out = (c, 'raise', e)
      yield out
    finally:
      _cur[0] = None
    todo += c.todo
