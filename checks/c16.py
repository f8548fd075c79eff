"""C16: log divergence."""
from checks.common import *


def harnesses(tier):
  hs = []

  def run(st):
    m = metrics.LogDivergenceMetric().compute(st)
    return m.value, m.valid, m.masked_value()

  def claims(i, o):
    st = i[0]
    s, l, k = st.sim_trajectory, st.log_trajectory, scal(st.timestep)
    n = len(s.x)
    dist, val, zero, far, mk = [], [], [], [], []
    for j in range(n):
      dx = T.sub(at(s.x[j], k), at(l.x[j], k))
      dy = T.sub(at(s.y[j], k), at(l.y[j], k))
      dist.append(T.and_(T.le(0, o[0][j]), T.close(o[0][j], T.sqrt(norm2(dx, dy)))))
      zero.append(T.implies(T.and_(T.eqv(dx, F(0)), T.eqv(dy, F(0))), T.eqv(o[0][j], F(0))))
      far.append(T.and_(T.le(T.sub(T.maxv(T.absv(dx), T.absv(dy)), F(1, 100)), o[0][j]),
                        T.le(o[0][j], T.add(F(1, 100), T.add(T.absv(dx), T.absv(dy))))))
      ok = T.and_(at(s.valid[j], k), at(l.valid[j], k))
      val.append(T.iff(o[1][j], ok))
      mk.append(T.same(o[2][j], T.ite(ok, o[0][j], F(0))))
    return [c('planar distance to the logged position', T.and_(dist)), c('zero when they coincide', T.and_(zero)),
            c('between the larger coordinate gap and their sum', T.and_(far)),
            c('valid exactly when both positions are', T.and_(val)), c('masked value', T.and_(mk))]

  for n, t in ((2, 2), (1, 3)) + (((3, 4),) if tier != 'quick' else ()):
    hs.append(Harness(f'metric_n{n}_t{t}', run, (wm.state(n, t, with_paths=False),), claims,
                      functions=['LogDivergenceMetric.compute', 'MetricResult.masked_value'],
                      bounds=f'{n} objects, {t} steps, any timestep, |xy|<=100'))
    for k in range(t):
      hs.append(Harness(f'metric_n{n}_t{t}_at{k}', run, (wm.state(n, t, with_paths=False, timestep=k),), claims,
                        functions=['LogDivergenceMetric.compute'], bounds=f'{n} objects, {t} steps, timestep {k}'))
  return hs
