"""C24: structured slicing, updating and masking act on every leaf alike."""
from checks.common import *
from waymax.datatypes import array as A
from waymax.datatypes import operations as ops


def tree(*shape):
  """Arrays of every kind, in a nested structure."""
  return {'f': V(shape, 'f', -100, 100), 'n': {'i': V(shape, 'i', -2**20, 2**20)}, 'b': [V(shape, 'b')]}


def leaves(t):
  return [t['f'], t['n']['i'], t['b'][0]]


def take(row, s, k):
  """row[s + k] for a symbolic start s."""
  return T.pick([row[min(p + k, len(row) - 1)] for p in range(len(row))], s)


def lines(a, axis):
  """The one-dimensional rows of a along an axis, in order."""
  m = np.moveaxis(a, axis, -1)
  return m.reshape(-1, m.shape[-1])


def sliced(inp, out, s, size, axis):
  """out is inp[s:s+size] along axis, leaf by leaf."""
  r = []
  for x, y in zip(leaves(inp), leaves(out)):
    y = np.asarray(y, dtype=object)
    if y.shape[axis] != size:
      return False
    for a, b in zip(lines(x, axis), lines(y, axis)):
      r += [T.same(b[k], take(a, s, k)) for k in range(size)]
  return T.and_(r)


def written(inp, upd, out, s, us, size, axis):
  """out is inp with [s:s+size] replaced by upd[us:us+size], leaf by leaf."""
  r = []
  for x, u, y in zip(leaves(inp), leaves(upd), leaves(out)):
    if x.shape != y.shape:
      return False
    for a, w, b in zip(lines(x, axis), lines(u, axis), lines(y, axis)):
      for p in range(len(a)):
        # w[us + p - s] when s <= p < s + size
        want = a[p]
        for k in range(size):
          want = T.ite(T.eqv(T.add(s, k), p), take(w, us, k) if us is not None else w[k], want)
        r.append(T.same(b[p], want))
  return T.and_(r)


def sub(t, v):
  return jax.tree_util.tree_map(lambda x: x[v], t)


def harnesses(tier):
  hs = []
  big = tier == 'thorough'
  L = 6 if big else 4
  # slicing
  for axis, shape in ((0, (L, 2)), (1, (2, L)), (-1, (2, L)), (-2, (L, 2)), (1, (2, L, 2))):
    for size in ((1, 2, 3, L) if big else (1, 2, L)):
      hs.append(Harness(f'slice_ax{axis}_{len(shape)}d_{size}', lambda t, s, axis=axis, size=size: ops.dynamic_slice(t, s, size, axis),
                        (tree(*shape), V((), 'i', 0, L - size)),
                        lambda i, o, axis=axis, size=size: [c('addressed range', sliced(i[0], o, scal(i[1]), size, axis))],
                        functions=['dynamic_slice'], bounds=f'{shape} arrays, any start', samples=1))
    for keep in (True, False):
      def idx(i, o, axis=axis, keep=keep):
        if keep:
          return [c('addressed entry', sliced(i[0], o, scal(i[1]), 1, axis))]
        ax = axis % leaves(i[0])[0].ndim
        if leaves(o)[0].ndim != leaves(i[0])[0].ndim - 1:
          return [c('addressed entry', False)]
        w = jax.tree_util.tree_map(lambda y: np.expand_dims(np.asarray(y, dtype=object), ax), o)
        return [c('addressed entry', sliced(i[0], w, scal(i[1]), 1, axis))]
      hs.append(Harness(f'index_ax{axis}_{len(shape)}d_{"keep" if keep else "drop"}',
                        lambda t, s, axis=axis, keep=keep: ops.dynamic_index(t, s, axis, keep),
                        (tree(*shape), V((), 'i', 0, L - 1)), idx, functions=['dynamic_index'], bounds=f'{shape} arrays, any index', samples=1))

  # a start per batch entry
  for name, batch, start in (('one', (2,), (2,)), ('two', (2, 2), (2, 2))):
    shape = batch + (2, 3)
    def per(check, batch=batch):
      return T.and_([check(ix) for ix in np.ndindex(*batch)])
    hs.append(Harness(f'slice_batch_{name}', lambda t, s: ops.dynamic_slice(t, s, 2, -1), (tree(*shape), V(start, 'i', 0, 1)),
                      lambda i, o, per=per: [c('each entry its own range', per(lambda ix: sliced(sub(i[0], ix), sub(o, ix), i[1][ix], 2, -1)))],
                      functions=['dynamic_slice'], bounds=f'batch {batch}', samples=1))
    hs.append(Harness(f'index_batch_{name}', lambda t, s: ops.dynamic_index(t, s, 1, True), (tree(*shape), V(start, 'i', 0, 2)),
                      lambda i, o, per=per: [c('each entry its own index', per(lambda ix: sliced(sub(i[0], ix), sub(o, ix), i[1][ix], 1, 1)))],
                      functions=['dynamic_index'], bounds=f'batch {batch}', samples=1))
    for us in (None, 'common', 'own'):
      args = (tree(*shape), tree(*shape), V(start, 'i', 0, 1)) + ((V((), 'i', 0, 1),) if us == 'common' else (V(start, 'i', 0, 1),) if us == 'own' else ())
      def upd(t, u, s, *a):
        return ops.update_by_slice_in_dim(t, u, s, *a, slice_size=2, axis=-1)
      def uclaim(i, o, per=per, us=us):
        w = lambda ix: i[2][ix] if us is None else scal(i[3]) if us == 'common' else i[3][ix]
        return [c('each entry its own range', per(lambda ix: written(sub(i[0], ix), sub(i[1], ix), sub(o, ix), i[2][ix], w(ix), 2, -1)))]
      hs.append(Harness(f'update_batch_{name}_{us or "same"}', upd, args, uclaim, functions=['update_by_slice_in_dim'], bounds=f'batch {batch}', samples=1))

  # updating
  for axis, shape in ((0, (L, 2)), (1, (2, L)), (-1, (2, L)), (1, (2, L, 2))):
    ax = axis % len(shape)
    for size in (1, 2):
      ushape = shape[:ax] + (size,) + shape[ax + 1:]
      def whole(t, u, s, axis=axis, size=size):
        o = ops.dynamic_update_slice_in_dim(t, u, s, axis)
        return o, ops.dynamic_slice(o, s, size, axis)
      hs.append(Harness(f'update_ax{axis}_{len(shape)}d_{size}', whole, (tree(*shape), tree(*ushape), V((), 'i', 0, L - size)),
                        lambda i, o, axis=axis, size=size: [
                            c('only the addressed range', written(i[0], i[1], o[0], scal(i[2]), None, size, axis)),
                            c('reads back', T.and_([all_same(a, b) for a, b in zip(leaves(i[1]), leaves(o[1]))]))],
                        functions=['dynamic_update_slice_in_dim', 'update_by_slice_in_dim'], bounds=f'{shape} arrays, any start', samples=1))
      for own in (False, True):
        def part(t, u, s, *a, axis=axis, size=size):
          return ops.update_by_slice_in_dim(t, u, s, *a, slice_size=size, axis=axis)
        hs.append(Harness(f'part_ax{axis}_{len(shape)}d_{size}_{"own" if own else "same"}', part,
                          (tree(*shape), tree(*shape), V((), 'i', 0, L - size)) + ((V((), 'i', 0, L - size),) if own else ()),
                          lambda i, o, axis=axis, size=size, own=own: [
                              c('only the addressed range', written(i[0], i[1], o, scal(i[2]), scal(i[3]) if own else scal(i[2]), size, axis))],
                          functions=['update_by_slice_in_dim'], bounds=f'{shape} arrays, any starts', samples=1))

  # plain Python starts
  for axis, shape in ((0, (L, 2)), (1, (2, L)), (-1, (2, L))):
    n_ = L - 1
    pairs = [(a, b) for a in range(n_) for b in (None, *range(n_))]

    def plain(t, u, axis=axis, n_=n_, pairs=pairs):
      return ([ops.dynamic_slice(t, k, 2, axis) for k in range(n_)], [ops.dynamic_index(t, k, axis, True) for k in range(n_)],
              [ops.update_by_slice_in_dim(t, u, a, b, 2, axis) for a, b in pairs])

    def plaim(i, o, axis=axis, n_=n_, pairs=pairs):
      return ([c(f'range from {k}', sliced(i[0], o[0][k], k, 2, axis)) for k in range(n_)]
              + [c(f'entry {k}', sliced(i[0], o[1][k], k, 1, axis)) for k in range(n_)]
              + [c(f'written at {a} from {b}', written(i[0], i[1], o[2][q], a, a if b is None else b, 2, axis)) for q, (a, b) in enumerate(pairs)])
    hs.append(Harness(f'plain_ax{axis}_{len(shape)}d', plain, (tree(*shape), tree(*shape)), plaim,
                      functions=['dynamic_slice', 'dynamic_index', 'update_by_slice_in_dim'], bounds=f'{shape} arrays, every Python start', samples=1))

  # masks
  def mclaim(i, o):
    a, b, m = i
    return [c('touches masked entries only', T.and_([
        T.same(z[ix], T.ite(m[ix[:m.ndim]] if m.shape[-1] > 1 or m.ndim == 1 else m[ix[0], 0], y[ix], x[ix]))
        for x, y, z in zip(leaves(a), leaves(b), leaves(o)) for ix in np.ndindex(*x.shape)]))]
  for ms in ((2, 3), (2, 1)):
    hs.append(Harness(f'mask_{ms[1]}', lambda a, b, m: ops.update_by_mask(a, b, m), (tree(2, 3), tree(2, 3), V(ms, 'b')), mclaim,
                      functions=['update_by_mask'], bounds='2x3 arrays', samples=1))

  # one-hot selection
  for n in (1, 2, 3):
    for keep in (False, True):
      for lead in ((), (2,), (2, 2)):
        for tail in ((), (2,)):
          shape = lead + (n,) + tail
          def sel(t, m, keep=keep):
            return ops.select_by_onehot(t, m, keepdims=keep)
          def sclaim(i, o, lead=lead, n=n, keep=keep):
            r = []
            for x, y in zip(leaves(i[0]), leaves(o)):
              y = np.asarray(y, dtype=object)
              for l in np.ndindex(*lead):
                m = [i[1][l + (k,)] for k in range(n)]
                got = y[l][0] if keep else y[l]
                flat = np.asarray(got, dtype=object).reshape(-1)
                rows = [np.asarray(x[l + (k,)], dtype=object).reshape(-1) for k in range(n)]
                if flat.shape != rows[0].shape:
                  return [c('the flagged entry', False)]
                for e in range(len(flat)):
                  r += [T.implies(m[k], T.same(flat[e], rows[k][e])) for k in range(n)]
            return [c('the flagged entry', T.and_(r))]
          def hot(i, lead=lead, n=n):
            return [T.or_([T.and_([i[1][l + (j,)] if j == k else T.not_(i[1][l + (j,)]) for j in range(n)]) for k in range(n)])
                    for l in np.ndindex(*lead)]
          hs.append(Harness(f'onehot_{"x".join(map(str, shape))}{"_keep" if keep else ""}_{len(tail)}', sel, (tree(*shape), V(lead + (n,), 'b')),
                            sclaim, assume=hot, functions=['select_by_onehot'], bounds=f'{shape} arrays, any flagged entry', samples=1))

  # averages over the valid entries of the last axis
  for shape in ((3,), (2, 3)):
    def avg(x, v):
      return ops.masked_mean(x, v, axis=-1), ops.masked_mean(x, v, axis=-1, invalid_value=-7.0)
    def aclaim(i, o, shape=shape):
      r = []
      for out, bad in zip(o, (-1, -7)):
        for l in np.ndindex(*shape[:-1]):
          n, s = F(0), F(0)
          for k in range(shape[-1]):
            n = T.add(n, T.ite(i[1][l + (k,)], F(1), F(0)))
            s = T.add(s, T.ite(i[1][l + (k,)], i[0][l + (k,)], F(0)))
          for k in range(shape[-1]):
            v = out[l + (k,)]
            r.append(T.and_(T.implies(T.eqv(n, F(0)), T.eqv(v, F(bad))),
                            T.and_([T.implies(T.eqv(n, F(q)), T.close(v, T.div(s, F(q)))) for q in range(1, shape[-1] + 1)])))
      return [c('mean of the valid entries', T.and_(r))]
    hs.append(Harness(f'mean_{len(shape)}d', avg, (V(shape, 'f', -100, 100), V(shape, 'b')), aclaim, functions=['masked_mean'],
                      bounds=f'{shape} array', samples=1))

  # placeholders
  def placeholder(t):
    return jax.tree_util.tree_map(ops.make_invalid_data, t), A.MaskedArray(value=t['f'], valid=t['b'][0]).masked_value(), A.MaskedArray(
        value=t['n']['i'], valid=t['b'][0]).masked_value(5)

  def pl(i, o):
    f, n, b = leaves(i[0])
    pf, pi, pb = leaves(o[0])
    return [c('placeholder values', T.and_([T.eqv(x, F(-1)) for x in pf.reshape(-1)] + [T.eqv(x, -1) for x in pi.reshape(-1)]
                                           + [T.not_(x) for x in pb.reshape(-1)])),
            c('masked arrays', T.and_([T.and_(T.same(o[1][ix], T.ite(b[ix], f[ix], F(0))), T.same(o[2][ix], T.ite(b[ix], n[ix], 5)))
                                       for ix in np.ndindex(*f.shape)]))]
  for ps in ((3,), (2, 2), (2, 1, 2), (1, 2, 1, 2)):
    hs.append(Harness(f'placeholders_{len(ps)}d', placeholder, (tree(*ps),), pl, functions=['make_invalid_data', 'MaskedArray.masked_value'], bounds=f'{ps} arrays', samples=1))
  return hs
