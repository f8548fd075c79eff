"""C28: preprocessing joins time and wraps headings without reordering."""
from checks.c25 import DIMS, STATE_F, TL_F, state_claims
from checks.common import *
from svx import tfx
from waymax.dataloader import womd_dataloader as WD
from waymax.dataloader import womd_factories as WF
from waymax.dataloader import womd_utils as WU

EXTRA = ('vel_yaw', 'speed')


def example(n, times, p=1, l=1, paths=None):
  """A decoded scenario split in past, current and future, with arbitrary contents."""
  f = lambda *s, lo=-100, hi=100: V(s, 'f', lo, hi)
  i = lambda *s, lo=0, hi=1000: V(s, 'i', lo, hi)
  e = {'roadgraph_samples/xyz': f(p, 3), 'roadgraph_samples/dir': f(p, 3), 'roadgraph_samples/type': i(p, 1),
       'roadgraph_samples/id': i(p, 1), 'roadgraph_samples/valid': i(p, 1, hi=1),
       'state/tracks_to_predict': i(n, lo=-1, hi=1), 'state/is_sdc': i(n, lo=-1, hi=1), 'state/objects_of_interest': i(n, lo=-1, hi=1),
       'state/id': i(n), 'state/type': i(n, hi=5)}
  for k, t in zip(('past', 'current', 'future'), times):
    for x in tuple(STATE_F) + DIMS + EXTRA:
      e[f'state/{k}/{x}'] = (i(n, t, hi=1) if x == 'valid' else i(n, t, hi=2**30) if x == 'timestamp_micros' else
                             f(n, t, lo=-20, hi=20) if x in ('bbox_yaw', 'vel_yaw') else f(n, t, lo=0))
    for x in TL_F:
      e[f'traffic_light_state/{k}/{x}'] = i(t, l, hi=1) if x == 'valid' else i(t, l) if x in ('state', 'id') else f(t, l)
    e[f'traffic_light_state/{k}/timestamp_micros'] = i(t, hi=2**30)
  if paths:
    a, b = paths
    e.update({'path_samples/xyz': f(a, b, 3), 'path_samples/id': i(a, b), 'path_samples/valid': i(a, b, hi=1),
              'path_samples/arc_length': f(a, b), 'path_samples/on_route': i(a, 1, hi=1)})
  return e


def keys(e):
  """All timed features, by group."""
  out = {}
  for k in e:
    g, *rest = k.split('/')
    if len(rest) == 2 and rest[0] in ('past', 'current', 'future'):
      out.setdefault((g, rest[1]), []).append(k)
  return out


def joined(e, g, x):
  """(values in time order, time axis)."""
  ax = 1 if g == 'state' else 0
  return np.concatenate([np.asarray(e[f'{g}/{k}/{x}'], dtype=object) for k in ('past', 'current', 'future')], axis=ax)


def pre_claims(e, d, times, agg, limit):
  keep = lambda k, v: v[:limit] if limit is not None and k.startswith('state/') else v
  same = lambda a, b: np.shape(a) == np.shape(b) and T.and_([T.same(x, y) for x, y in zip(np.asarray(a, dtype=object).reshape(-1), b.reshape(-1))])
  cs, timed = [], keys(e)
  if not agg:
    cs.append(c('nothing added or lost', set(d) == set(e)))
    for k in e:
      cs.append(c(k, k in d and same(d[k], keep(k, e[k]))))
    return cs
  flat = {k for ks in timed.values() for k in ks}
  want = {f'{g}/all/{x}' for g, x in timed} | {'state/which_time'} | (set(e) - flat)
  cs.append(c('features', set(d) == want))
  if set(d) != want:
    return cs
  for g, x in timed:
    k = f'{g}/all/{x}'
    v = keep(k, joined(e, g, x))
    if x != 'bbox_yaw':
      cs.append(c(k, same(d[k], v)))
      continue
    if np.shape(d[k]) != v.shape:
      cs.append(c(k, False))
      continue
    cs.append(c('heading stays the same direction', T.and_([same_angle(b, a) for a, b in zip(np.asarray(d[k], dtype=object).reshape(-1), v.reshape(-1))])))
    eps = F(1, 1000)
    cs.append(c('heading within a turn', T.and_([T.and_(T.le(-PI - eps, a), T.lt(a, PI + eps)) for a in np.asarray(d[k], dtype=object).reshape(-1)])))
  for k in set(e) - flat:
    cs.append(c(k, same(d[k], keep(k, e[k]))))
  a, b, f_ = times
  w = np.array([F(-1)] * a + [F(0)] * b + [F(1)] * f_, dtype=object)
  cs.append(c('which time', same(d['state/which_time'], w)))
  return cs


def harness(name, fn, args, claims, tracer=None, **kw):
  h = Harness(name, tfx.real(fn) if tracer is None else kw.pop('real'), (args,), claims, jit=False, samples=1, **kw)
  h.tracer = tracer or (lambda ex: tfx.TFTraced(fn, ex))
  return h


def harnesses(tier):
  hs = []
  big = tier == 'thorough'
  for n, times in [(1, (1, 1, 1)), (2, (2, 1, 3)), (3, (1, 1, 2))] + ([(3, (4, 1, 5))] if big else []):
    for agg in (True, False):
      for limit in (None, 1, 2, 5):
        if limit is not None and n == 1 and limit != 1:
          continue
        def pre(d, agg=agg, limit=limit):
          return WD.preprocess_womd_example(dict(d), agg, limit)
        hs.append(harness(f'preprocess_{n}x{"".join(map(str, times))}_{"all" if agg else "split"}_{limit}', pre, example(n, times, paths=(1, 2)),
                          lambda i, o, a=(times, agg, limit): pre_claims(i[0], o, *a),
                          functions=['preprocess_womd_example', 'aggregate_time_tensors'],
                          bounds=f'{n} objects, {times} past/current/future steps, at most {limit} objects kept, headings within 20 rad'))

  hs.append(harness('aggregate', lambda d: WU.aggregate_time_tensors(dict(d)), example(2, (2, 1, 2), l=2),
                    lambda i, o: [x for x in pre_claims(i[0], {**o, 'state/all/bbox_yaw': o['state/all/bbox_yaw']}, (2, 1, 2), True, None) if x.name != 'heading within a turn'],
                    functions=['aggregate_time_tensors'], bounds='2 objects, 2+1+2 steps'))

  # from a decoded example to the simulator
  times = (1, 1, 1)
  def pre(d):
    return WD.preprocess_womd_example(dict(d), True, 2)
  def post(d):
    return WF.simulator_state_from_womd_dict(d, include_sdc_paths=True)
  def cclaims(i, o):
    e = {k: v for k, v in i[0].items()}
    full = dict(e)
    for g, x in keys(e):
      full[f'{g}/all/{x}'] = joined(e, g, x)
    full = {k: v[:2] if k.startswith('state/') else v for k, v in full.items()}
    yaw = full['state/all/bbox_yaw']
    full['state/all/bbox_yaw'] = o.log_trajectory.yaw
    return state_claims(full, o, 'all', paths=True) + [
        c('headings', T.and_([same_angle(b, a) for a, b in zip(np.asarray(o.log_trajectory.yaw, dtype=object).reshape(-1), yaw.reshape(-1))]))]
  ex = example(3, times, paths=(1, 2))
  hs.append(harness('to_simulator', pre, ex, cclaims, tracer=lambda e: tfx.Chain(pre, post, e), real=lambda d: post(tfx.real(pre)(d)),
                    functions=['preprocess_womd_example', 'simulator_state_from_womd_dict'], bounds='3 objects of which 2 kept, 1+1+1 steps'))
  return hs
