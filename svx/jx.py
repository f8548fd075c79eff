"""Symbolic interpreter for jaxprs over object arrays of elements (terms.py)."""
import itertools
import math
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np
from jax.extend import core as jcore

from svx import terms as T
from svx.z3load import z3


class Unsupported(Exception):
  pass


class Stats:
  eqns = 0
  prims = {}


def kind(aval):
  try:
    k = np.dtype(aval.dtype).kind
  except TypeError:
    return 'k'  # extended (prng key)
  return {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f', 'V': 'f'}.get(k, k)


def to_elem(v, k):
  if k == 'b':
    return bool(v)
  if k == 'i':
    return int(v)
  return T.fnum(v)


def lift(arr, k=None):
  """numpy/jax array -> object array of concrete elements."""
  a = np.asarray(arr)
  if a.dtype == object:
    return a
  if a.dtype.name == 'bfloat16':
    a = a.astype(np.float32)
  if k is None:
    k = {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f'}[a.dtype.kind]
  out = np.empty(a.shape, object)
  f = out.reshape(-1)
  for i, v in enumerate(a.reshape(-1)):
    f[i] = to_elem(v, k)
  return out


def is_conc(a):
  return not any(T.is_sym(v) for v in a.reshape(-1))


def lower(a, dtype):
  """object array of concrete elements -> numpy array of dtype."""
  out = np.empty(a.shape, dtype)
  f = out.reshape(-1)
  for i, v in enumerate(a.reshape(-1)):
    f[i] = float(v) if isinstance(v, Fraction) else v
  return out


def vmap(f, *arrs):
  arrs = np.broadcast_arrays(*arrs) if len({x.shape for x in arrs}) > 1 else arrs
  out = np.empty(arrs[0].shape, object)
  o = out.reshape(-1)
  flats = [x.reshape(-1) for x in arrs]
  for i in range(o.shape[0]):
    o[i] = f(*[x[i] for x in flats])
  return out


def full(shape, v):
  out = np.empty(shape, object)
  out.reshape(-1)[:] = [v] * out.size
  return out


RULES = {}


def rule(*names):
  def deco(f):
    for n in names:
      RULES[n] = f
    return f
  return deco


def elementwise(name, f_i=None, f_f=None, f_b=None):
  def r(eqn, *xs):
    k = kind(eqn.invars[0].aval)
    f = {'i': f_i, 'f': f_f, 'b': f_b}[k]
    if f is None:
      raise Unsupported(f'{name} on {k}')
    return [vmap(f, *xs)]
  RULES[name] = r


_W = {}


def _wrap_int(f):
  return f


elementwise('add', T.add, T.add, T.or_)
elementwise('add_any', T.add, T.add)
elementwise('sub', T.sub, T.sub)
elementwise('mul', T.mul, T.mul, T.and_)
elementwise('neg', T.neg, T.neg)
elementwise('div', T.idiv, T.div)
elementwise('abs', T.absv, T.absv)
elementwise('sign', T.sign, T.sign)
elementwise('max', T.maxv, T.maxv, T.or_)
elementwise('min', T.minv, T.minv, T.and_)
elementwise('lt', T.lt, T.lt, lambda a, b: T.and_(T.not_(a), b))
elementwise('le', T.le, T.le, lambda a, b: T.or_(T.not_(a), b))
elementwise('gt', T.gt, T.gt, lambda a, b: T.and_(a, T.not_(b)))
elementwise('ge', T.ge, T.ge, lambda a, b: T.or_(a, T.not_(b)))
elementwise('eq', T.eqv, T.eqv, T.iff)
elementwise('ne', lambda a, b: T.not_(T.eqv(a, b)), lambda a, b: T.not_(T.eqv(a, b)), T.xor)
elementwise('sqrt', None, T.sqrt)
elementwise('rsqrt', None, lambda a: T.div(Fraction(1), T.sqrt(a)))
elementwise('cos', None, T.cos)
elementwise('sin', None, T.sin)
elementwise('tan', None, lambda a: T.div(T.sin(a), T.cos(a)))
elementwise('atan2', None, T.atan2)
elementwise('floor', None, T.floor)
elementwise('ceil', None, lambda a: T.neg(T.floor(T.neg(a))))
elementwise('is_finite', None, T.isfinite)
elementwise('square', lambda a: T.mul(a, a), lambda a: T.mul(a, a))
elementwise('exp', None, lambda a: T.uf('exp', a, lo=0, pyfn=math.exp))
elementwise('log', None, lambda a: T.uf('log', a, pyfn=lambda v: math.log(v) if v > 0 else T.NAN))
elementwise('tanh', None, lambda a: T.uf('tanh', a, lo=-1, hi=1, pyfn=math.tanh))
elementwise('atan', None, lambda a: T.atan2(a, Fraction(1)))
elementwise('acos', None, lambda a: T.atan2(T.sqrt(T.sub(Fraction(1), T.mul(a, a))), a))
elementwise('asin', None, lambda a: T.atan2(a, T.sqrt(T.sub(Fraction(1), T.mul(a, a)))))
elementwise('pow', None, T.pow_real)
elementwise('nextafter', None, lambda a, b: a)


for _a, _b in (('eq_to', 'eq'), ('le_to', 'le'), ('lt_to', 'lt')):
  RULES[_a] = RULES[_b]


@rule('rem')
def _rem(eqn, a, b):
  if kind(eqn.invars[0].aval) == 'i':
    return [vmap(T.irem, a, b)]
  return [vmap(T.rem_real, a, b)]


@rule('round')
def _round(eqn, a):
  if int(eqn.params['rounding_method']) == 1:
    return [vmap(T.round_even, a)]
  return [vmap(lambda v: T.mul(T.sign(v), T.floor(T.add(T.absv(v), Fraction(1, 2)))), a)]


@rule('and')
def _and(eqn, a, b):
  if kind(eqn.invars[0].aval) != 'b':
    raise Unsupported('bitwise and')
  return [vmap(T.and_, a, b)]


@rule('or')
def _or(eqn, a, b):
  if kind(eqn.invars[0].aval) != 'b':
    raise Unsupported('bitwise or')
  return [vmap(T.or_, a, b)]


@rule('xor')
def _xor(eqn, a, b):
  if kind(eqn.invars[0].aval) != 'b':
    raise Unsupported('bitwise xor')
  return [vmap(T.xor, a, b)]


@rule('not')
def _not(eqn, a):
  if kind(eqn.invars[0].aval) != 'b':
    return [vmap(lambda v: T.sub(T.neg(v), 1), a)]
  return [vmap(T.not_, a)]


@rule('integer_pow')
def _ipow(eqn, a):
  n = eqn.params['y']
  return [vmap(lambda v: T.powi(v, n), a)]


@rule('select_n')
def _select(eqn, c, *cases):
  k = kind(eqn.invars[0].aval)
  c = np.broadcast_to(c, cases[0].shape)
  if k == 'b':
    return [vmap(lambda p, a, b: T.ite(p, b, a), c, *cases)]
  def sel(i, *xs):
    return T.pick(xs, i)
  return [vmap(sel, c, *cases)]


@rule('clamp')
def _clamp(eqn, lo, x, hi):
  lo = np.broadcast_to(lo, x.shape)
  hi = np.broadcast_to(hi, x.shape)
  return [vmap(lambda l, v, h: T.minv(T.maxv(v, l), h), lo, x, hi)]


@rule('convert_element_type')
def _convert(eqn, a):
  src, dst = kind(eqn.invars[0].aval), kind(eqn.outvars[0].aval)
  if src == dst:
    if src == 'i':
      nd = np.dtype(eqn.outvars[0].aval.dtype)
      if nd.itemsize < 4 or nd.kind == 'u':
        lo, hi = np.iinfo(nd).min, np.iinfo(nd).max
        m = hi - lo + 1
        def wrap(v):
          if not T.is_sym(v):
            return (v - lo) % m + lo
          if T.ctx().provable(z3.And(v >= lo, v <= hi)):
            return v
          return (v - lo) % m + lo
        return [vmap(wrap, a)]
    if src == 'f':
      nd = eqn.outvars[0].aval.dtype
      if np.dtype(nd).itemsize < 4:
        raise Unsupported('half precision')
    return [a]
  f = {('b', 'i'): T.bool_to_int, ('b', 'f'): T.bool_to_real,
       ('i', 'f'): T.int_to_f32, ('f', 'i'): T.trunc_int,
       ('i', 'b'): lambda v: T.not_(T.eqv(v, 0)),
       ('f', 'b'): lambda v: T.not_(T.eqv(v, 0))}[(src, dst)]
  return [vmap(f, a)]


@rule('stop_gradient', 'copy', 'copy_p', 'reduce_precision', 'optimization_barrier',
      'sharding_constraint', 'device_put', 'pvary', 'tie')
def _ident(eqn, *a):
  return list(a)


@rule('broadcast_in_dim')
def _bid(eqn, a, *dyn):
  shape = eqn.params['shape']
  bd = eqn.params['broadcast_dimensions']
  s = [1] * len(shape)
  for i, d in enumerate(bd):
    s[d] = a.shape[i]
  return [np.broadcast_to(a.reshape(s), shape)]


@rule('reshape')
def _reshape(eqn, a, *dyn):
  return [a.reshape(eqn.params['new_sizes'])]


@rule('tile')
def _tile(eqn, a):
  return [np.tile(a, eqn.params['reps'])]


@rule('squeeze')
def _squeeze(eqn, a):
  return [np.squeeze(a, tuple(eqn.params['dimensions']))]


@rule('expand_dims')
def _expand(eqn, a):
  return [np.expand_dims(a, tuple(eqn.params['dimensions']))]


@rule('transpose')
def _transpose(eqn, a):
  return [np.transpose(a, eqn.params['permutation'])]


@rule('concatenate')
def _concat(eqn, *xs):
  return [np.concatenate(xs, axis=eqn.params['dimension'])]


@rule('stack')
def _stack(eqn, *xs):
  return [np.stack(xs, axis=eqn.params.get('axis', eqn.params.get('dimension', 0)))]


@rule('unstack')
def _unstack(eqn, x):
  ax = eqn.params.get('axis', 0)
  return [np.take(x, i, axis=ax) for i in range(x.shape[ax])]


@rule('split')
def _split(eqn, x):
  ax = eqn.params['axis']
  out, p = [], 0
  for n in eqn.params['sizes']:
    sl = [slice(None)] * x.ndim
    sl[ax] = slice(p, p + n)
    out.append(x[tuple(sl)])
    p += n
  return out


@rule('slice')
def _slice(eqn, a):
  st = eqn.params['strides'] or [1] * a.ndim
  return [a[tuple(slice(s, l, d) for s, l, d in zip(
      eqn.params['start_indices'], eqn.params['limit_indices'], st))]]


@rule('rev')
def _rev(eqn, a):
  return [np.flip(a, eqn.params['dimensions'])]


@rule('iota')
def _iota(eqn, *dyn):
  shape, d = eqn.params['shape'], eqn.params['dimension']
  k = kind(eqn.outvars[0].aval)
  out = np.empty(shape, object)
  for ix in np.ndindex(*shape):
    out[ix] = Fraction(ix[d]) if k == 'f' else int(ix[d])
  return [out]


@rule('pad')
def _pad(eqn, a, pv):
  cfg = eqn.params['padding_config']
  v = pv.reshape(-1)[0]
  out_shape = [l + h + n + max(n - 1, 0) * i for n, (l, h, i) in zip(a.shape, cfg)]
  out = full(out_shape, v)
  for ix in np.ndindex(*a.shape):
    o = tuple(l + p * (i + 1) for p, (l, h, i) in zip(ix, cfg))
    if all(0 <= q < n for q, n in zip(o, out_shape)):
      out[o] = a[ix]
  return [out]


def _clampi(i, hi):
  return T.minv(T.maxv(i, 0), hi)


def dyn_slice_axis(a, ax, start, size):
  """Slice of length size along ax from a clamped element start."""
  n = a.shape[ax]
  start = _clampi(start, n - size)
  if not T.is_sym(start):
    sl = [slice(None)] * a.ndim
    sl[ax] = slice(int(start), int(start) + size)
    return a[tuple(sl)]
  options = []
  for s in range(n - size + 1):
    sl = [slice(None)] * a.ndim
    sl[ax] = slice(s, s + size)
    options.append(a[tuple(sl)])
  conds = [T.eqv(start, s) for s in range(n - size + 1)]
  out = options[-1]
  for s in range(n - size - 1, -1, -1):
    c = conds[s]
    out = vmap(lambda x, y, c=c: T.ite(c, x, y), options[s], out)
  return out


@rule('dynamic_slice')
def _dslice(eqn, a, *st):
  sizes = eqn.params['slice_sizes']
  for ax, (s, n) in enumerate(zip(st, sizes)):
    if n != a.shape[ax]:
      a = dyn_slice_axis(a, ax, s.reshape(-1)[0], n)
  return [a]


def _all_starts(starts, dims, sizes):
  """List of (condition, concrete start tuple)."""
  opts = []
  per = []
  for s, d, n in zip(starts, dims, sizes):
    s = _clampi(s, d - n)
    if T.is_sym(s):
      per.append([(T.eqv(s, k), k) for k in range(d - n + 1)])
    else:
      per.append([(True, int(s))])
  for combo in itertools.product(*per):
    opts.append((T.and_([c for c, _ in combo]), tuple(k for _, k in combo)))
  return opts


@rule('dynamic_update_slice')
def _dus(eqn, a, upd, *st):
  out = np.array(a, dtype=object, copy=True)
  starts = [s.reshape(-1)[0] for s in st]
  for c, k in _all_starts(starts, a.shape, upd.shape):
    if c is False:
      continue
    for ix in np.ndindex(*upd.shape):
      o = tuple(p + q for p, q in zip(k, ix))
      out[o] = T.ite(c, upd[ix], out[o])
  return [out]


def _read(a, pos):
  """a[pos] for a possibly symbolic in-range position vector."""
  for ax, p in enumerate(pos):
    if T.is_sym(p):
      n = a.shape[ax]
      def rd(k):
        return _read(a, pos[:ax] + (k,) + pos[ax + 1:])
      vals = [rd(k) for k in range(n)]
      return T.pick(vals, p)
  return a[tuple(int(p) for p in pos)]


def _mode(m):
  s = str(m)
  if 'CLIP' in s.upper() or s == '0':
    return 'clip'
  if 'FILL' in s.upper() or 'DROP' in s.upper():
    return 'fill'
  return 'promise'


@rule('gather')
def _gather(eqn, a, idx):
  dn = eqn.params['dimension_numbers']
  sizes = eqn.params['slice_sizes']
  mode = _mode(eqn.params['mode'])
  fv = eqn.params.get('fill_value')
  out_aval = eqn.outvars[0].aval
  k = kind(out_aval)
  if fv is None:
    if k == 'b':
      fv = True
    elif k == 'f':
      fv = T.NAN
    else:
      dt = np.dtype(out_aval.dtype)
      fv = int(np.iinfo(dt).min) if dt.kind == 'i' else int(np.iinfo(dt).max)
  obd = tuple(getattr(dn, 'operand_batching_dims', ()) or ())
  sbd = tuple(getattr(dn, 'start_indices_batching_dims', ()) or ())
  off_operand = [d for d in range(a.ndim) if d not in dn.collapsed_slice_dims and d not in obd]
  out = np.empty(out_aval.shape, object)
  batch_out = [d for d in range(len(out_aval.shape)) if d not in dn.offset_dims]
  for ix in np.ndindex(*out_aval.shape):
    b = tuple(ix[d] for d in batch_out)
    start = [0] * a.ndim
    vec = idx[b]
    for j, d in enumerate(dn.start_index_map):
      start[d] = vec[j]
    ok = True
    for d in range(a.ndim):
      hi = a.shape[d] - sizes[d]
      if d in obd:
        continue
      if mode == 'clip':
        start[d] = _clampi(start[d], hi)
      elif mode == 'fill':
        if T.is_sym(start[d]) or not 0 <= start[d] <= hi:
          ok = T.and_(ok, T.le(0, start[d]), T.le(start[d], hi))
          start[d] = _clampi(start[d], hi)
      else:
        start[d] = _clampi(start[d], hi)
    for j, d in enumerate(obd):
      # batch position in the indices array
      start[d] = b[sbd[j]]
    for j, d in enumerate(dn.offset_dims):
      start[off_operand[j]] = T.add(start[off_operand[j]], ix[d])
    v = _read(a, tuple(start))
    out[ix] = T.ite(ok, v, fv) if ok is not True else v
  return [out]


@rule('scatter', 'scatter-add', 'scatter_add', 'scatter-mul', 'scatter_mul',
      'scatter-min', 'scatter_min', 'scatter-max', 'scatter_max')
def _scatter(eqn, a, idx, upd):
  dn = eqn.params['dimension_numbers']
  name = eqn.primitive.name.replace('_', '-')
  comb = {'scatter': lambda o, u: u, 'scatter-add': T.add, 'scatter-mul': T.mul,
          'scatter-min': T.minv, 'scatter-max': T.maxv}[name]
  if kind(eqn.invars[0].aval) == 'b':
    comb = {'scatter': lambda o, u: u, 'scatter-add': T.or_, 'scatter-mul': T.and_,
            'scatter-min': T.and_, 'scatter-max': T.or_}[name]
  mode = _mode(eqn.params['mode'])
  out = np.array(a, dtype=object, copy=True)
  obd = tuple(getattr(dn, 'operand_batching_dims', ()) or ())
  sbd = tuple(getattr(dn, 'scatter_indices_batching_dims', ()) or ())
  win_operand = [d for d in range(a.ndim) if d not in dn.inserted_window_dims and d not in obd]
  scat_dims = [d for d in range(upd.ndim) if d not in dn.update_window_dims]
  win_size = {win_operand[j]: upd.shape[d] for j, d in enumerate(dn.update_window_dims)}
  for ix in np.ndindex(*upd.shape):
    b = tuple(ix[d] for d in scat_dims)
    vec = idx[b]
    start = [0] * a.ndim
    ok = True
    for j, d in enumerate(dn.scatter_dims_to_operand_dims):
      start[d] = vec[j]
    for d in range(a.ndim):
      hi = a.shape[d] - win_size.get(d, 1)
      if d in obd:
        continue
      if mode == 'clip':
        start[d] = _clampi(start[d], hi)
      else:
        ok = T.and_(ok, T.le(0, start[d]), T.le(start[d], hi))
    for j, d in enumerate(obd):
      start[d] = b[sbd[j]]
    for j, d in enumerate(dn.update_window_dims):
      start[win_operand[j]] = T.add(start[win_operand[j]], ix[d])
    if ok is False:
      continue
    per = []
    for d in range(a.ndim):
      if T.is_sym(start[d]):
        per.append([(T.eqv(start[d], k), k) for k in range(a.shape[d])])
      else:
        per.append([(True, int(start[d]))])
    for combo in itertools.product(*per):
      c = T.and_(ok, [x for x, _ in combo])
      if c is False:
        continue
      o = tuple(k for _, k in combo)
      out[o] = T.ite(c, comb(out[o], upd[ix]), out[o])
  return [out]


def _reduce(a, axes, f, init=None):
  axes = tuple(sorted(axes))
  keep = [d for d in range(a.ndim) if d not in axes]
  m = np.transpose(a, keep + list(axes)).reshape(
      [a.shape[d] for d in keep] + [-1])
  out = np.empty(m.shape[:-1], object)
  for ix in np.ndindex(*out.shape):
    r = init
    for v in m[ix]:
      r = v if r is None else f(r, v)
    out[ix] = r
  return out


@rule('reduce_sum')
def _rsum(eqn, a):
  z = Fraction(0) if kind(eqn.invars[0].aval) == 'f' else 0
  return [_reduce(a, eqn.params['axes'], T.add, z)]


@rule('reduce_prod')
def _rprod(eqn, a):
  z = Fraction(1) if kind(eqn.invars[0].aval) == 'f' else 1
  return [_reduce(a, eqn.params['axes'], T.mul, z)]


@rule('reduce_max')
def _rmax(eqn, a):
  if kind(eqn.invars[0].aval) == 'b':
    return [_reduce(a, eqn.params['axes'], T.or_, False)]
  z = -T.INF if kind(eqn.invars[0].aval) == 'f' else None
  return [_reduce(a, eqn.params['axes'], T.maxv, None if a.size else z)]


@rule('reduce_min')
def _rmin(eqn, a):
  if kind(eqn.invars[0].aval) == 'b':
    return [_reduce(a, eqn.params['axes'], T.and_, True)]
  z = T.INF if kind(eqn.invars[0].aval) == 'f' else None
  return [_reduce(a, eqn.params['axes'], T.minv, None if a.size else z)]


@rule('reduce_and')
def _rand(eqn, a):
  return [_reduce(a, eqn.params['axes'], T.and_, True)]


@rule('reduce_or')
def _ror(eqn, a):
  return [_reduce(a, eqn.params['axes'], T.or_, False)]


@rule('reduce_xor')
def _rxor(eqn, a):
  return [_reduce(a, eqn.params['axes'], T.xor, False)]


def _argm(a, ax, better):
  m = np.moveaxis(a, ax, -1)
  out = np.empty(m.shape[:-1], object)
  for ix in np.ndindex(*out.shape):
    row = m[ix]
    if row.shape[0] <= 40 and all(T.isnan(v) is False for v in row):
      # first element no other one beats (pairwise, so that each test stays simple)
      n = row.shape[0]
      bi = n - 1
      for k in range(n - 2, -1, -1):
        first = T.and_([T.not_(better(row[j], row[k])) for j in range(n) if j != k])
        bi = T.ite(first, k, bi)
      out[ix] = bi
      continue
    best, bi = m[ix][0], 0
    for j in range(1, m.shape[-1]):
      v = m[ix][j]
      c = T.or_(better(v, best), T.and_(T.isnan(v), T.not_(T.isnan(best))))
      c = T.and_(c, T.not_(T.isnan(best)))
      best = T.ite(c, v, best)
      bi = T.ite(c, j, bi)
    out[ix] = bi
  return out


def _b2i(a, eqn):
  if kind(eqn.invars[0].aval) == 'b':
    return vmap(T.bool_to_int, a)
  return a


@rule('argmin')
def _argmin(eqn, a):
  return [_argm(_b2i(a, eqn), eqn.params['axes'][0], T.lt)]


@rule('argmax')
def _argmax(eqn, a):
  return [_argm(_b2i(a, eqn), eqn.params['axes'][0], T.gt)]


def _cum(f):
  def r(eqn, a):
    ax = eqn.params['axis']
    rev = eqn.params.get('reverse', False)
    m = np.moveaxis(np.array(a, dtype=object, copy=True), ax, 0)
    if rev:
      m = m[::-1]
    out = np.empty(m.shape, object)
    acc = None
    for i in range(m.shape[0]):
      acc = m[i] if acc is None else vmap(f, acc, m[i])
      out[i] = acc
    if rev:
      out = out[::-1]
    return [np.moveaxis(out, 0, ax)]
  return r


RULES['cumsum'] = _cum(T.add)
RULES['cumprod'] = _cum(T.mul)
RULES['cummax'] = _cum(T.maxv)
RULES['cummin'] = _cum(T.minv)


def _ranks(keys, descending=False):
  """keys: list of tuples of elements -> stable rank of each element."""
  n = len(keys)
  isb = lambda x: isinstance(x, bool) or (T.is_z(x) and z3.is_bool(x))
  keys = [tuple(T.ite(x, 1, 0) if isb(x) else x for x in k) for k in keys]
  def less(a, b):
    r = False
    for x, y in reversed(list(zip(a, b))):
      l = T.gt(x, y) if descending else T.lt(x, y)
      r = T.or_(l, T.and_(T.eqv(x, y), r))
    return r
  def eq(a, b):
    return T.and_([T.eqv(x, y) for x, y in zip(a, b)])
  ranks = [0] * n
  for i in range(n):
    for j in range(i):
      # j before i ?
      c = T.or_(less(keys[j], keys[i]), eq(keys[j], keys[i]))
      ranks[i] = T.add(ranks[i], T.bool_to_int(c))
      ranks[j] = T.add(ranks[j], T.bool_to_int(T.not_(c)))
  return ranks


@rule('sort')
def _sort(eqn, *ops):
  ax, nk = eqn.params['dimension'], eqn.params['num_keys']
  ms = [np.moveaxis(o, ax, -1) for o in ops]
  outs = [np.empty(m.shape, object) for m in ms]
  for ix in np.ndindex(*ms[0].shape[:-1]):
    rows = [m[ix] for m in ms]
    krows = [[T.bool_to_int(v) if isinstance(v, bool) or (T.is_z(v) and z3.is_bool(v)) else v
              for v in r] for r in rows[:nk]]
    ranks = _ranks(list(zip(*krows)))
    n = len(ranks)
    for p in range(n):
      for o, r in zip(outs, rows):
        v = r[n - 1]
        for j in range(n - 2, -1, -1):
          v = T.ite(T.eqv(ranks[j], p), r[j], v)
        o[ix][p] = v
  return [np.moveaxis(o, -1, ax) for o in outs]


@rule('top_k')
def _topk(eqn, a):
  k = eqn.params['k']
  n = a.shape[-1]
  ov = np.empty(a.shape[:-1] + (k,), object)
  oi = np.empty(a.shape[:-1] + (k,), object)
  for ix in np.ndindex(*a.shape[:-1]):
    row = a[ix]
    ranks = _ranks([(v,) for v in row], descending=True)
    for p in range(k):
      v, i = row[n - 1], n - 1
      for j in range(n - 2, -1, -1):
        c = T.eqv(ranks[j], p)
        v, i = T.ite(c, row[j], v), T.ite(c, j, i)
      ov[ix][p], oi[ix][p] = v, i
  return [ov, oi]


@rule('dot_general')
def _dot(eqn, a, b):
  (ca, cb), (ba, bb) = eqn.params['dimension_numbers']
  fa = [d for d in range(a.ndim) if d not in ca and d not in ba]
  fb = [d for d in range(b.ndim) if d not in cb and d not in bb]
  ma = np.transpose(a, list(ba) + fa + list(ca))
  mb = np.transpose(b, list(bb) + fb + list(cb))
  bs = [a.shape[d] for d in ba]
  sa, sb = [a.shape[d] for d in fa], [b.shape[d] for d in fb]
  c = int(np.prod([a.shape[d] for d in ca], dtype=int))
  ma = ma.reshape(bs + [int(np.prod(sa, dtype=int)), c])
  mb = mb.reshape(bs + [int(np.prod(sb, dtype=int)), c])
  out = np.empty(bs + [ma.shape[-2], mb.shape[-2]], object)
  isf = kind(eqn.outvars[0].aval) == 'f'
  for bx in np.ndindex(*bs):
    for i in range(ma.shape[-2]):
      for j in range(mb.shape[-2]):
        r = Fraction(0) if isf else 0
        for k in range(c):
          r = T.add(r, T.mul(ma[bx][i][k], mb[bx][j][k]))
        out[bx][i][j] = r
  return [out.reshape(bs + sa + sb)]


# ------------------------------------------------------------- higher order
def inv_matrix(m):
  """Exact inverse of n x n (n<=3) symbolic matrices, batched."""
  n = m.shape[-1]
  out = np.empty(m.shape, object)
  for bx in np.ndindex(*m.shape[:-2]):
    A = m[bx]
    def minor(i, j):
      r = [k for k in range(n) if k != i]
      c = [k for k in range(n) if k != j]
      return det(A[np.ix_(r, c)])
    def det(B):
      if B.shape[0] == 0:
        return Fraction(1)
      if B.shape[0] == 1:
        return B[0, 0]
      s = Fraction(0)
      for j in range(B.shape[0]):
        cols = [k for k in range(B.shape[0]) if k != j]
        t = T.mul(B[0, j], det(B[np.ix_(range(1, B.shape[0]), cols)]))
        s = T.add(s, t) if j % 2 == 0 else T.sub(s, t)
      return s
    d = det(A)
    d = T.normal(d) if T.is_z(d) else d
    for i in range(n):
      for j in range(n):
        v = minor(j, i)
        if (i + j) % 2:
          v = T.neg(v)
        out[bx][i, j] = T.div(v, d)
  return out


MAX_WHILE = 24


def _closed(p):
  return p


def _sub_jaxpr(eqn):
  for k in ('jaxpr', 'call_jaxpr', 'fun_jaxpr', 'body_jaxpr'):
    if k in eqn.params:
      return eqn.params[k]
  raise Unsupported(f'no sub jaxpr in {eqn.primitive}')


def _is_library(j, fn, eqn):
  """The sub program is the one JAX itself emits for `fn` (not something of the same name)."""
  ref = jax.make_jaxpr(fn)(*[jax.ShapeDtypeStruct(v.aval.shape, v.aval.dtype) for v in eqn.invars])
  return len(ref.eqns) == 1 and str(_sub_jaxpr(ref.eqns[0])) == str(j)


def _call(eqn, *args):
  name = eqn.params.get('name', '')
  if name in ('inv', '_inv') and len(args) == 1 and args[0].ndim >= 2 and args[0].shape[-1] <= 3 \
      and args[0].shape[-1] == args[0].shape[-2]:
    return [inv_matrix(args[0])]
  if name == 'remainder' and len(args) == 2 and kind(eqn.invars[0].aval) == 'f':
    b = args[1].reshape(-1)
    if b.size and all(not T.is_sym(v) and v > 0 for v in b):
      return [vmap(T.floor_mod_real, *np.broadcast_arrays(args[0], args[1]))]
  j = _sub_jaxpr(eqn)
  if name == 'hypot' and len(args) == 2 and _is_library(j, jnp.hypot, eqn):
    # library code: max * sqrt(1 + (min / max)^2), over the reals the root of the sum of squares
    return [vmap(lambda a, b: T.sqrt(T.add(T.mul(a, a), T.mul(b, b))), *np.broadcast_arrays(*args))]
  if hasattr(j, 'jaxpr'):
    return eval_jaxpr(j.jaxpr, j.consts, args)
  return eval_jaxpr(j, [], args)


for _n in ('jit', 'pjit', 'closed_call', 'core_call', 'remat', 'remat2', 'checkpoint',
           'custom_jvp_call', 'custom_vjp_call', 'custom_vjp_call_jaxpr', 'core_closed_call',
           'custom_lin', 'xla_call', 'named_call', 'composite'):
  RULES[_n] = _call


@rule('scan')
def _scan(eqn, *args):
  p = eqn.params
  nc, ncar, L = p['num_consts'], p['num_carry'], p['length']
  consts, carry, xs = args[:nc], list(args[nc:nc + ncar]), args[nc + ncar:]
  j = p['jaxpr']
  ys = None
  order = range(L - 1, -1, -1) if p['reverse'] else range(L)
  rows = {}
  for i in order:
    outs = eval_jaxpr(j.jaxpr, j.consts, list(consts) + carry + [_row(x, i) for x in xs])
    outs = [o if isinstance(o, np.ndarray) else o for o in outs]
    carry = outs[:ncar]
    rows[i] = outs[ncar:]
  ny = len(j.jaxpr.outvars) - ncar
  ys = []
  for k in range(ny):
    av = eqn.outvars[ncar + k].aval
    if kind(av) == 'k' or (L and not _isobj(rows[0][k])):
      ys.append(jnp.stack([rows[i][k] for i in range(L)]))
      continue
    o = np.empty(av.shape, object)
    for i in range(L):
      r = rows[i][k]
      o[i] = r.reshape(-1)[0] if o.ndim == 1 and _isobj(r) else r
    ys.append(o)
  return carry + ys


def _row(x, i):
  r = x[i]
  if _isobj(x) and x.ndim == 1:
    w = np.empty((), object)
    w[()] = r
    return w
  return r


def _isobj(v):
  return isinstance(v, np.ndarray) and v.dtype == object


@rule('while')
def _while(eqn, *args):
  p = eqn.params
  cn, bn = p['cond_nconsts'], p['body_nconsts']
  cc, bc, st = args[:cn], args[cn:cn + bn], list(args[cn + bn:])
  cj, bj = p['cond_jaxpr'], p['body_jaxpr']
  guard = True
  for it in range(MAX_WHILE * 50):
    c = eval_jaxpr(cj.jaxpr, cj.consts, list(cc) + st)[0].reshape(-1)[0]
    g = T.and_(guard, c)
    if g is False:
      return st
    if T.is_z(g):
      if T.ctx().provable(T.not_(g)):
        return st
      if it >= MAX_WHILE:
        T.ctx().unwind.append(g)
        return st
    new = eval_jaxpr(bj.jaxpr, bj.consts, list(bc) + st)
    if g is True:
      st = list(new)
    else:
      st = [vmap(lambda x, y: T.ite(g, x, y), n, o) if _isobj(o) else n
            for n, o in zip(new, st)]
    guard = g
  raise Unsupported('while loop bound')


@rule('cond')
def _cond(eqn, i, *args):
  br = eqn.params['branches']
  iv = i.reshape(-1)[0]
  if isinstance(iv, bool):
    iv = int(iv)
  if T.is_z(iv) and z3.is_bool(iv):
    iv = T.bool_to_int(iv)
  if not T.is_sym(iv):
    j = br[max(0, min(len(br) - 1, iv))]
    return eval_jaxpr(j.jaxpr, j.consts, args)
  outs = [eval_jaxpr(j.jaxpr, j.consts, args) for j in br]
  iv = _clampi(iv, len(br) - 1)
  res = []
  for vals in zip(*outs):
    res.append(vmap(lambda *xs: T.pick(xs, iv), *vals) if _isobj(vals[0]) else vals[0])
  return res


def _fallback(eqn, args):
  """All-concrete primitive without a rule: run the real primitive."""
  conc = []
  for v, a in zip(eqn.invars, args):
    if _isobj(a):
      if not is_conc(a):
        raise Unsupported(f'primitive {eqn.primitive.name} on symbolic input')
      conc.append(jnp.asarray(lower(a, np.dtype(v.aval.dtype))))
    else:
      conc.append(a)
  out = eqn.primitive.bind(*conc, **eqn.params)
  outs = out if eqn.primitive.multiple_results else [out]
  res = []
  for v, o in zip(eqn.outvars, outs):
    res.append(o if kind(v.aval) == 'k' else lift(np.asarray(o), kind(v.aval)))
  return res


_RAW = ('random_bits', 'random_split', 'random_wrap', 'random_unwrap', 'random_seed',
        'random_fold_in', 'threefry2x32', 'shift_right_logical', 'shift_left', 'bitcast_convert_type',
        'random_gamma', 'erf_inv', 'shift_right_arithmetic', 'population_count')


def eval_jaxpr(jaxpr, consts, args):
  env = {}

  def read(v):
    if isinstance(v, jcore.Literal):
      return lift(np.asarray(v.val), kind(v.aval))
    return env[v]

  for v, c in zip(jaxpr.constvars, consts):
    env[v] = c if _isobj(c) or kind(v.aval) == 'k' else lift(np.asarray(c), kind(v.aval))
  for v, a in zip(jaxpr.invars, args):
    env[v] = a
  # random key plumbing evaluated concretely
  for eqn in jaxpr.eqns:
    name = eqn.primitive.name
    Stats.eqns += 1
    Stats.prims[name] = Stats.prims.get(name, 0) + 1
    xs = [read(v) for v in eqn.invars]
    if any(not _isobj(x) for x in xs) and name not in RULES:
      outs = _fallback(eqn, xs)
    elif name in RULES:
      try:
        if any(not _isobj(x) for x in xs) and name not in (
            'jit', 'pjit', 'scan', 'while', 'cond', 'closed_call'):
          outs = _fallback(eqn, xs)
        else:
          outs = RULES[name](eqn, *xs)
      except Unsupported:
        outs = _fallback(eqn, xs)
    else:
      outs = _fallback(eqn, xs)
    for v, o in zip(eqn.outvars, outs):
      if _isobj(o) and tuple(o.shape) != tuple(v.aval.shape):
        raise AssertionError(f'{name}: shape {o.shape} != {v.aval.shape}')
      env[v] = o
  return [read(v) for v in jaxpr.outvars]


class Traced:
  """The jaxpr of a real function, re-traced from the current source."""

  def __init__(self, fn, *example):
    self.fn = fn
    self.in_leaves, self.in_tree = jax.tree_util.tree_flatten(example)
    self.closed, out_shape = jax.make_jaxpr(fn, return_shape=True)(*example)
    self.out_leaves, self.out_tree = jax.tree_util.tree_flatten(out_shape)
    self.jaxpr = self.closed.jaxpr
    try:
      from jax.interpreters import partial_eval as pe
      self.jaxpr, _ = pe.dce_jaxpr(self.closed.jaxpr, [True] * len(self.closed.jaxpr.outvars),
                                   instantiate=True)
    except Exception:  # dead code is only an efficiency matter
      pass

  def __call__(self, *args):
    leaves, tree = jax.tree_util.tree_flatten(args)
    if len(leaves) != len(self.in_leaves):
      raise AssertionError('argument structure')
    ls = []
    for l, ex in zip(leaves, self.in_leaves):
      if hasattr(ex, 'dtype') and jax.dtypes.issubdtype(ex.dtype, jax.dtypes.prng_key):
        ls.append(l)
      else:
        ls.append(lift(l))
    outs = eval_jaxpr(self.jaxpr, self.closed.consts, ls)
    return jax.tree_util.tree_unflatten(self.out_tree, outs)
