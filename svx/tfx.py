"""Symbolic interpretation of TensorFlow graphs.

The real function is traced by tf.function from the current source into a
graph of primitive operations, which is then evaluated over symbolic elements.
"""
import jax
import numpy as np
import tensorflow as tf

from svx import jx
from svx import terms as T


class Unsupported(Exception):
  pass


RULES = {}


def rule(*names):
  def deco(f):
    for n in names:
      RULES[n] = f
    return f
  return deco


def sym(a):
  return isinstance(a, np.ndarray) and a.dtype == object


def obj(a):
  return a if sym(a) else jx.lift(np.asarray(a))


def ints(a):
  return [int(x) for x in np.asarray(a).reshape(-1)]


def ew(f):
  def g(op, *xs):
    ys = np.broadcast_arrays(*[obj(x) for x in xs])
    return [jx.vmap(f, *ys)]
  return g


for _n, _f in {'AddV2': T.add, 'Add': T.add, 'Sub': T.sub, 'Mul': T.mul, 'Neg': T.neg, 'Minimum': T.minv, 'Maximum': T.maxv, 'Abs': T.absv,
               'Less': T.lt, 'LessEqual': T.le, 'Greater': T.gt, 'GreaterEqual': T.ge, 'Equal': T.eqv, 'LogicalAnd': lambda a, b: T.and_(a, b),
               'LogicalOr': lambda a, b: T.or_(a, b), 'LogicalNot': T.not_, 'NotEqual': lambda a, b: T.not_(T.eqv(a, b)), 'SelectV2': T.ite,
               'Select': T.ite, 'Cos': T.cos, 'Sin': T.sin, 'Atan2': T.atan2, 'Square': lambda a: T.mul(a, a), 'Floor': T.floor,
               'RealDiv': T.div, 'Round': T.round_even, 'Sqrt': T.sqrt, 'OnesLike': None, 'ZerosLike': None}.items():
  if _f is not None:
    RULES[_n] = ew(_f)


@rule('FloorMod')
def _fm(op, a, b):
  if op.inputs[0].dtype.is_floating:
    return ew(T.floor_mod_real)(op, a, b)
  return ew(lambda x, y: T.irem(T.add(T.irem(x, y), y), y))(op, a, b)


@rule('Mod', 'TruncateMod')
def _tm(op, a, b):
  return ew(T.rem_real if op.inputs[0].dtype.is_floating else T.irem)(op, a, b)


@rule('FloorDiv')
def _fd(op, a, b):
  if not op.inputs[0].dtype.is_floating:
    raise Unsupported('integer FloorDiv')
  return ew(lambda x, y: T.floor(T.div(x, y)))(op, a, b)


@rule('Identity', 'Snapshot', 'StopGradient', 'PreventGradient', 'EnsureShape')
def _id(op, a):
  return [a]


@rule('IdentityN')
def _idn(op, *a):
  return list(a)


@rule('ConcatV2')
def _concat(op, *xs):
  return [np.concatenate([obj(x) for x in xs[:-1]], axis=int(np.asarray(xs[-1])))]


@rule('Pack')
def _pack(op, *xs):
  return [np.stack([obj(x) for x in xs], axis=op.get_attr('axis'))]


@rule('Unpack')
def _unpack(op, a):
  ax = op.get_attr('axis')
  return [np.asarray(x, dtype=object) for x in np.moveaxis(a, ax, 0)]


@rule('Split')
def _split(op, ax, a):
  return np.split(a, op.get_attr('num_split'), axis=int(np.asarray(ax)))


@rule('StridedSlice')
def _ss(op, a, begin, end, strides):
  b, e, s = ints(begin), ints(end), ints(strides)
  m = {k: op.get_attr(k) for k in ('begin_mask', 'end_mask', 'ellipsis_mask', 'new_axis_mask', 'shrink_axis_mask')}
  ix = []
  for k in range(len(b)):
    bit = 1 << k
    if m['ellipsis_mask'] & bit:
      ix.append(Ellipsis)
    elif m['new_axis_mask'] & bit:
      ix.append(np.newaxis)
    elif m['shrink_axis_mask'] & bit:
      ix.append(b[k])
    else:
      ix.append(slice(None if m['begin_mask'] & bit else b[k], None if m['end_mask'] & bit else e[k], s[k]))
  r = a[tuple(ix)]
  return [r if isinstance(r, np.ndarray) else np.array(r, dtype=object).reshape(())]


@rule('Slice')
def _slice(op, a, begin, size):
  b, z = ints(begin), ints(size)
  return [a[tuple(slice(p, None if q < 0 else p + q) for p, q in zip(b, z))]]


@rule('Reshape')
def _reshape(op, a, s):
  return [a.reshape(ints(s))]


@rule('Transpose')
def _tr(op, a, p):
  return [np.transpose(a, ints(p))]


@rule('ExpandDims')
def _ed(op, a, ax):
  return [np.expand_dims(a, int(np.asarray(ax)))]


@rule('Squeeze')
def _sq(op, a):
  d = op.get_attr('squeeze_dims')
  return [np.squeeze(a, axis=tuple(d) or None)]


@rule('ReverseV2')
def _rev(op, a, ax):
  return [np.flip(a, tuple(ints(ax)))]


@rule('Tile')
def _tile(op, a, m):
  return [np.tile(a, ints(m))]


@rule('GatherV2')
def _gather(op, a, i, ax):
  ax = int(np.asarray(ax))
  if any(T.is_sym(v) for v in obj(i).reshape(-1)):
    if op.get_attr('batch_dims'):
      raise Unsupported('symbolic batched gather')
    ax %= a.ndim
    m = np.moveaxis(a, ax, 0)
    out = np.empty(i.shape + m.shape[1:], object)
    for k in np.ndindex(*i.shape):
      for r in np.ndindex(*m.shape[1:]):
        out[k + r] = T.pick([m[(j,) + r] for j in range(m.shape[0])], i[k])
    n, rest = i.ndim, m.ndim - 1
    # result axes: before the axis, those of the indices, after it
    return [np.transpose(out, list(range(n, n + ax)) + list(range(n)) + list(range(n + ax, n + rest)))]
  return [np.take(a, np.asarray(ints(i)).reshape(np.shape(i)), axis=ax)]


def red(f, init):
  def g(op, a, ax):
    axes = sorted({k % max(a.ndim, 1) for k in ints(ax)}) if np.asarray(ax).size else []
    keep = op.get_attr('keep_dims')
    rest = [k for k in range(a.ndim) if k not in axes]
    m = np.transpose(a, rest + axes).reshape([a.shape[k] for k in rest] + [-1])
    out = np.empty(m.shape[:-1], object)
    for ix in np.ndindex(*out.shape):
      row = list(m[ix])
      out[ix] = f(row) if row else init
    return [out.reshape([1 if k in axes else a.shape[k] for k in range(a.ndim)]) if keep else out]
  return g


def fold(f):
  def g(row):
    r = row[0]
    for v in row[1:]:
      r = f(r, v)
    return r
  return g


RULES['Any'] = red(T.or_, False)
RULES['All'] = red(T.and_, True)
RULES['Sum'] = red(fold(T.add), 0)
RULES['Max'] = red(fold(T.maxv), None)
RULES['Min'] = red(fold(T.minv), None)
RULES['Prod'] = red(fold(T.mul), 1)
RULES['Mean'] = red(lambda row: T.div(fold(T.add)(row), len(row)), None)


@rule('ClipByValue')
def _clip(op, a, lo, hi):
  return ew(lambda x, l, h: T.maxv(l, T.minv(x, h)))(op, a, lo, hi)


@rule('TopKV2', 'TopK')
def _topk(op, a, k=None):
  k = int(np.asarray(k)) if k is not None else op.get_attr('k')

  class E:
    params = {'k': k}
  return jx._topk(E, a)


@rule('ArgMax', 'ArgMin')
def _arg(op, a, ax):
  return [jx._argm(a, int(np.asarray(ax)) % a.ndim, T.gt if op.type == 'ArgMax' else T.lt)]


@rule('Cumsum')
def _cumsum(op, a, ax):
  if op.get_attr('exclusive') or op.get_attr('reverse'):
    raise Unsupported('exclusive or reverse Cumsum')
  ax = int(np.asarray(ax))
  m = np.moveaxis(np.array(a, dtype=object, copy=True), ax, 0)
  for j in range(1, m.shape[0]):
    m[j] = jx.vmap(T.add, m[j - 1], m[j])
  return [np.moveaxis(m, 0, ax)]


@rule('Pad', 'PadV2')
def _pad(op, a, w, v=None):
  w = np.asarray(ints(w)).reshape(-1, 2)
  fill = obj(v).reshape(-1)[0] if v is not None else jx.lift(np.zeros((), op.inputs[0].dtype.as_numpy_dtype)).reshape(-1)[0]
  out = np.empty([n + l + h for n, (l, h) in zip(a.shape, w)], object)
  out[...] = fill
  out[tuple(slice(l, l + n) for n, (l, _) in zip(a.shape, w))] = a
  return [out]


@rule('BroadcastTo')
def _bc(op, a, s):
  return [np.broadcast_to(a, ints(s))]


@rule('Range')
def _range(op, a, b, d):
  f = (lambda x: obj(x).reshape(-1)[0])
  return [obj(np.arange(int(f(a)), int(f(b)), int(f(d))))] if not op.outputs[0].dtype.is_floating else [obj(np.arange(float(f(a)), float(f(b)), float(f(d))))]


@rule('Shape')
def _shape(op, a):
  return [np.array(a.shape)]


@rule('Rank')
def _rank(op, a):
  return [np.array(a.ndim)]


@rule('OnesLike')
def _ol(op, a):
  return [np.ones(a.shape)]


@rule('ZerosLike')
def _zl(op, a):
  return [np.zeros(a.shape)]


@rule('Fill')
def _fill(op, d, v):
  out = np.empty(ints(d), object)
  out[...] = obj(v).reshape(-1)[0]
  return [out]


def _k(d):
  return 'f' if d.is_floating else 'b' if d == tf.bool else 'i'


@rule('Cast')
def _cast(op, a):
  s, d = _k(op.inputs[0].dtype), _k(op.outputs[0].dtype)
  if s == d:
    return [a]
  f = {('b', 'i'): T.bool_to_int, ('b', 'f'): T.bool_to_real, ('i', 'f'): T.int_to_f32, ('f', 'i'): T.trunc_int,
       ('i', 'b'): lambda v: T.not_(T.eqv(v, 0)), ('f', 'b'): lambda v: T.not_(T.eqv(v, 0))}[s, d]
  return [jx.vmap(f, a)]


class TFTraced:
  """The graph of a real function of a dictionary of tensors."""

  def __init__(self, fn, example):
    self.keys = sorted(example)
    spec = {k: tf.TensorSpec(np.shape(example[k]), np.asarray(example[k]).dtype, name=f'in_{j}') for j, k in enumerate(self.keys)}

    @tf.function(autograph=False)
    def g(d):
      return fn(d)
    cf = g.get_concrete_function(spec)
    self.graph = cf.graph
    self.out = cf.structured_outputs
    # placeholders come in the order of the flattened dictionary
    self.places = [t.op.name for t in cf.inputs][:len(self.keys)]
    self.flat = tf.nest.flatten(spec)
    self.order = [self.keys[int(s.name[3:])] for s in self.flat]

  def __call__(self, ex):
    env = {}
    byname = dict(zip(self.places, self.order))
    for op in self.graph.get_operations():
      if op.type == 'Placeholder':
        if op.name not in byname:
          raise Unsupported('captured input')
        vals = [jx.lift(ex[byname[op.name]])]
      elif op.type == 'Const':
        vals = [tf.make_ndarray(op.get_attr('value'))]
      elif op.type == 'NoOp':
        continue
      else:
        ins = [env[t.ref()] for t in op.inputs]
        if op.type not in RULES:
          raise Unsupported(f'TensorFlow operation {op.type}')
        if op.type in ('Shape', 'Rank'):
          vals = RULES[op.type](op, *ins)
        else:
          shapes = ('ConcatV2', 'StridedSlice', 'Slice', 'Reshape', 'Transpose', 'ExpandDims', 'ReverseV2', 'Tile', 'GatherV2', 'Fill', 'Split', 'Any', 'All', 'Sum', 'Max', 'Min', 'Prod',
                    'Mean', 'TopKV2', 'TopK', 'ArgMax', 'ArgMin', 'Cumsum', 'Pad', 'PadV2', 'BroadcastTo', 'Range')
          if op.type in shapes:
            vals = RULES[op.type](op, *[x if j else (x if op.type in ('Fill', 'Split') else obj(x)) for j, x in enumerate(ins)])
          else:
            vals = RULES[op.type](op, *[obj(x) for x in ins])
        jx.Stats.eqns += 1
      for t, v in zip(op.outputs, vals):
        v = np.asarray(v)
        if t.shape.rank is not None and tuple(v.shape) != tuple(t.shape):
          raise AssertionError(f'{op.type}: shape {v.shape} != {t.shape}')
        env[t.ref()] = v
    return {k: obj(env[t.ref()]) for k, t in self.out.items()}


def real(fn):
  """fn on numpy dictionaries."""
  def g(d):
    o = fn({k: tf.constant(np.asarray(v)) for k, v in d.items()})
    return {k: np.asarray(v) for k, v in o.items()}
  return g


class Chain:
  """A TensorFlow function followed by a JAX function."""

  def __init__(self, tf_fn, jax_fn, example):
    self.a = TFTraced(tf_fn, example)
    mid = {k: jax.ShapeDtypeStruct(tuple(t.shape), jax.dtypes.canonicalize_dtype(t.dtype.as_numpy_dtype)) for k, t in self.a.out.items()}
    self.b = jx.Traced(jax_fn, mid)

  def __call__(self, ex):
    return self.b(self.a(ex))
