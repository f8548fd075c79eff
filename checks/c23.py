"""C23: roadgraph filtering keeps the nearest valid points intact."""
import itertools

from checks.common import *

RF = ('x', 'y', 'z', 'dir_x', 'dir_y', 'dir_z', 'types', 'ids', 'valid')
TOL = F(1, 1000)


def points(n, batch=(), lim=1000):
  rg = wm.roadgraph(n, lim, batch=batch)
  big = lambda: V(batch + (n,), 'i', -2**31 + 1, 2**31 - 1)
  return rg.replace(ids=big(), types=big())


def chosen(rg, ref, out, n, k):
  """Some choice of k distinct points explains the whole output."""
  d = [norm2(T.sub(rg.x[q], ref[0]), T.sub(rg.y[q], ref[1])) for q in range(n)]
  eq = [[T.and_([T.same(getattr(out, f)[i], getattr(rg, f)[q]) for f in RF]) for q in range(n)] for i in range(k)]
  ok = {}
  for s in itertools.combinations(range(n), k):
    c_ = []
    for a in s:
      for b in range(n):
        if b in s:
          continue
        # a kept, b left out
        c_.append(T.implies(rg.valid[b], T.and_(rg.valid[a], T.le(d[a], T.add(d[b], TOL)))))
    ok[s] = T.and_(c_)
  return T.or_([T.and_([ok[tuple(sorted(p))]] + [eq[i][p[i]] for i in range(k)]) for p in itertools.permutations(range(n), k)])


def harnesses(tier):
  hs = []
  sizes = [(2, 1), (3, 1), (3, 2), (2, 2), (3, 3)] + ([(4, 1), (4, 2), (4, 3)] if tier == 'thorough' else [])
  for n, k in sizes:
    def fn(rg, ref, k=k):
      return datatypes.filter_topk_roadgraph_points(rg, ref, k)

    def claims(i, o, n=n, k=k):
      rg, ref = i
      return [c('as many as asked for', all(getattr(o, f).shape == (k,) for f in RF)),
              c('nearest valid points, whole', chosen(rg, ref, o, n, k))]

    hs.append(Harness(f'{k}_of_{n}', fn, (points(n), V((2,), 'f', -1000, 1000)), claims,
                      functions=['filter_topk_roadgraph_points'], timeout=300,
                      bounds=f'{n} points anywhere within 1 km, any 32-bit ids and types, k={k}'))

  for n, k, b in [(2, 1, 2), (3, 2, 2)]:
    def fnb(rg, ref, k=k):
      return datatypes.filter_topk_roadgraph_points(rg, ref, k)

    def bclaims(i, o, n=n, k=k, b=b):
      rg, ref = i
      row = lambda x, v: datatypes.RoadgraphPoints(**{f: getattr(x, f)[v] for f in RF})
      return [c(f'entry {v}', chosen(row(rg, v), ref[v], row(o, v), n, k)) for v in range(b)]

    hs.append(Harness(f'batched_{k}_of_{n}', fnb, (points(n, (b,)), V((b, 2), 'f', -1000, 1000)), bclaims,
                      functions=['filter_topk_roadgraph_points'], timeout=300, bounds=f'batch of {b}, {n} points, k={k}'))
  return hs
