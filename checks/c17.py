"""C17: route metrics."""
from checks.common import *

M = F(1, 100)


def sdc_xy(st, tr, k):
  md = st.object_metadata
  return tuple(sdc_pick(md, [getattr(tr, f)[j, k] for j in range(len(tr.x))]) for f in ('x', 'y'))


def d2(pa, r, p, q):
  return norm2(T.sub(pa.x[r, p], q[0]), T.sub(pa.y[r, p], q[1]))


def on(pa, r, p):
  return T.and_(pa.valid[r, p], pa.on_route[r, 0])


def off(pa, r, p):
  return T.and_(pa.valid[r, p], T.not_(pa.on_route[r, 0]))


def distance_metrics(hs, kk, pp, n, t, k):
  st = wm.state(n, t, timestep=k, k=kk, pl=pp, lim=20)
  bd = f'{n} objects, {t} steps, timestep {k}, {kk} paths of {pp} points, |xy|<=20'

  # wrong way
  def ww(st):
    m = metrics.WrongWayMetric().compute(st)
    return m.value, m.valid

  sdc = lambda i: [one_sdc(i[0].object_metadata)]
  pts = [(r, p) for r in range(kk) for p in range(pp)]

  def car(st, k=k):
    return (sdc_xy(st, st.sim_trajectory, k),
            sdc_pick(st.object_metadata, [st.sim_trajectory.valid[j, k] for j in range(len(st.sim_trajectory.x))]))

  def clearly(pa, use, b, q):
    return T.and_([use(pa, *b)] + [T.implies(use(pa, *e), T.lt(T.add(d2(pa, *b, q), M), d2(pa, *e, q)))
                                   for e in pts if e != b])

  def nothing(pa, use):
    return T.and_([T.not_(use(pa, *b)) for b in pts])

  any_ = lambda pa, r, p: pa.valid[r, p]
  for b in pts:
    def wclaims(i, o, b=b):
      q, _ = car(i[0])
      v, d = scal(o[0]), d2(i[0].sdc_paths, *b, q)
      return [c('distance to the nearest valid point when far', T.implies(
          T.lt((F(7, 2) + M)**2, d), T.and_(T.le(0, v), T.close(T.mul(v, v), d)))),
              c('zero when near', T.implies(T.lt(d, (F(7, 2) - M)**2), T.eqv(v, F(0)))),
              c('valid', scal(o[1]))]

    hs.append(Harness(f'wrong_way_{kk}x{pp}_n{n}_t{t}_nearest{b[0]}{b[1]}', ww, (st,), wclaims, prune=True,
                      assume=lambda i, b=b: sdc(i) + [clearly(i[0].sdc_paths, any_, b, car(i[0])[0])],
                      functions=['WrongWayMetric.compute'], bounds=bd, samples=1))
  hs.append(Harness(f'wrong_way_{kk}x{pp}_n{n}_t{t}_nothing', ww, (st,),
                    lambda i, o: [c('zero and invalid', T.and_(T.eqv(scal(o[0]), F(0)), T.not_(scal(o[1]))))],
                    assume=lambda i: sdc(i) + [nothing(i[0].sdc_paths, any_)], prune=True,
                    functions=['WrongWayMetric.compute'], bounds=bd, samples=1))

  # off route
  def offr(st):
    m = metrics.OffRouteMetric().compute(st)
    return m.value, m.valid

  for b in pts:
    for e in [x for x in pts if x[0] != b[0]] + [None]:
      def oclaims(i, o, b=b, e=e):
        pa, (q, _) = i[0].sdc_paths, car(i[0])
        v, ok, a = scal(o[0]), scal(o[1]), d2(i[0].sdc_paths, *b, q)
        ra = T.sqrt(a)
        isoff, ison = T.lt((5 + M)**2, a), T.lt(a, (5 - M)**2)
        if e is not None:
          rb = T.sqrt(d2(pa, *e, q))
          isoff = T.or_(isoff, T.lt(T.add(rb, 2 + M), ra))
          ison = T.and_(ison, T.lt(ra, T.add(rb, 2 - M)))
        return [c('distance to the route when off it', T.implies(isoff, T.and_(T.le(0, v), T.close(T.mul(v, v), a)))),
                c('zero when on the route', T.implies(ison, T.eqv(v, F(0)))), c('valid', ok)]

      def oassume(i, b=b, e=e):
        pa, (q, sv) = i[0].sdc_paths, car(i[0])
        return sdc(i) + [sv, clearly(pa, on, b, q), nothing(pa, off) if e is None else clearly(pa, off, e, q)]

      hs.append(Harness(f'off_route_{kk}x{pp}_n{n}_t{t}_on{b[0]}{b[1]}_{"off%d%d" % e if e else "only"}', offr, (st,),
                        oclaims, assume=oassume, prune=True, functions=['OffRouteMetric.compute'], bounds=bd, samples=1))
  for why in ('no_route', 'invalid_car'):
    hs.append(Harness(f'off_route_{kk}x{pp}_n{n}_t{t}_{why}', offr, (st,),
                      lambda i, o: [c('zero', T.eqv(scal(o[0]), F(0)))], prune=True,
                      assume=lambda i, why=why: sdc(i) + [
                          nothing(i[0].sdc_paths, on) if why == 'no_route' else T.not_(car(i[0])[1])],
                      functions=['OffRouteMetric.compute'], bounds=bd, samples=1))


def harnesses(tier):
  hs = []
  shapes = ((1, 2), (2, 1)) + (((2, 2), (3, 1)) if tier != 'quick' else ())
  for kk, pp in shapes:
    for n, t, k in ((2, 2, 1),) + (((2, 3, 0),) if tier != 'quick' else ()):
      distance_metrics(hs, kk, pp, n, t, k)

  # progression
  def prog(st):
    m = metrics.ProgressionMetric().compute(st)
    return m.value, m.valid

  def nearest_arc(pa, r, q, p):
    """point p is the (clearly) nearest valid point of path r."""
    P_ = pa.x.shape[1]
    return T.and_([pa.valid[r, p]] + [T.implies(pa.valid[r, s], T.lt(T.add(d2(pa, r, p, q), M), d2(pa, r, s, q)))
                                      for s in range(P_) if s != p])

  def path_best(pa, r, q):
    """path r has a used point clearly nearer than any used point of another path."""
    R_, P_ = pa.x.shape
    return T.or_([T.and_([on(pa, r, p)] + [
        T.implies(on(pa, a, s), T.lt(T.add(d2(pa, r, p, q), M), d2(pa, a, s, q)))
        for a in range(R_) if a != r for s in range(P_)]) for p in range(P_)])

  for kk, pp, k in ((1, 3, 1), (2, 1, 1)) + (((1, 2, 1), (2, 2, 1)) if tier != 'quick' else ()):
    n = 1 if pp > 2 else 2
    st = wm.state(n, 3, timestep=k, k=kk, pl=pp, lim=20)
    def legs(st, r, k=k):
      """Car now, logged start and logged end."""
      return (sdc_xy(st, st.sim_trajectory, k), sdc_xy(st, st.log_trajectory, 0), sdc_xy(st, st.log_trajectory, -1))

    for r in range(kk):
      for a, b, e in np.ndindex(pp, pp, pp):
        def pclaims(i, o, r=r, a=a, b=b, e=e):
          pa, v = i[0].sdc_paths, scal(o[0])
          L = lambda p: pa.arc_length[r, p]
          den, numr = T.sub(L(b), L(a)), T.sub(L(e), L(a))
          if a == b:
            return [c('complete', T.eqv(v, F(1)))]
          return [c('fraction of the logged progress', T.implies(T.lt(M, T.absv(den)), T.close(T.mul(v, den), numr))),
                  c('complete without logged progress', T.implies(T.eqv(L(a), L(b)), T.eqv(v, F(1))))]

        def passume(i, r=r, k=k, a=a, b=b, e=e):
          st = i[0]
          pa = st.sdc_paths
          cur, s0, s1 = legs(st, r)
          sv = sdc_pick(st.object_metadata, [st.sim_trajectory.valid[j, k] for j in range(len(st.sim_trajectory.x))])
          return [one_sdc(st.object_metadata), sv, path_best(pa, r, cur), nearest_arc(pa, r, cur, e), nearest_arc(pa, r, s0, a), nearest_arc(pa, r, s1, b)]

        hs.append(Harness(f'progression_{kk}x{pp}_path{r}_from{a}_to{b}_now{e}', prog, (st,), pclaims, assume=passume, prune=True,
                          functions=['ProgressionMetric.compute'],
                          bounds=f'{n} objects, 3 steps, timestep {k}, {kk} paths of {pp} points, path {r} the nearest', samples=1))

    def nclaims(i, o, k=k):
      st = i[0]
      pa = st.sdc_paths
      sv = sdc_pick(st.object_metadata, [st.sim_trajectory.valid[j, k] for j in range(len(st.sim_trajectory.x))])
      use = T.and_(sv, T.or_([on(pa, a, b) for a in range(pa.x.shape[0]) for b in range(pa.x.shape[1])]))
      v, ok = scal(o[0]), scal(o[1])
      return [c('valid exactly with a valid car and route', T.iff(ok, use)),
              c('zero otherwise', T.implies(T.not_(use), T.eqv(v, F(0))))]

    hs.append(Harness(f'progression_valid_{kk}x{pp}', prog, (st,), nclaims, assume=lambda i: [one_sdc(i[0].object_metadata)],
                      functions=['ProgressionMetric.compute'], bounds=f'{kk} paths of {pp} points'))
  return hs
