"""C25: dataset scenarios and simulator states convert without loss."""
import tensorflow as tf

from checks.common import *
from waymax.dataloader import womd_factories as WF
from waymax.dataloader import womd_utils as WU

STATE_F = {'x': 'x', 'y': 'y', 'z': 'z', 'velocity_x': 'vel_x', 'velocity_y': 'vel_y', 'bbox_yaw': 'yaw',
           'timestamp_micros': 'timestamp_micros', 'valid': 'valid'}
DIMS = ('length', 'width', 'height')
TL_F = {'x': 'x', 'y': 'y', 'z': 'z', 'state': 'state', 'id': 'lane_ids', 'valid': 'valid'}


def example(n, t, p, l, paths=None, batch=(), keys=('all',)):
  """A decoded scenario with arbitrary contents."""
  f = lambda *s, lo=-100, hi=100: V(batch + s, 'f', lo, hi)
  i = lambda *s, lo=0, hi=1000: V(batch + s, 'i', lo, hi)      # the format stores object ids as float32, other ids as integers
  e = {'roadgraph_samples/xyz': f(p, 3), 'roadgraph_samples/dir': f(p, 3), 'roadgraph_samples/type': i(p, 1),
       'roadgraph_samples/id': i(p, 1, hi=2**31 - 1), 'roadgraph_samples/valid': i(p, 1, hi=1),
       'state/tracks_to_predict': i(n, lo=-1, hi=1), 'state/is_sdc': i(n, lo=-1, hi=1), 'state/objects_of_interest': i(n, lo=-1, hi=1),
       'state/id': i(n, hi=2**24), 'state/type': i(n, hi=5)}
  for k in keys:
    for x in STATE_F:
      e[f'state/{k}/{x}'] = i(n, t, hi=1) if x == 'valid' else i(n, t, hi=2**30) if x == 'timestamp_micros' else f(n, t)
    for x in DIMS:
      e[f'state/{k}/{x}'] = f(n, t, lo=0, hi=20)
    for x in TL_F:
      e[f'traffic_light_state/{k}/{x}'] = i(t, l, hi=1) if x == 'valid' else i(t, l, hi=2**31 - 1) if x == 'id' else i(t, l) if x == 'state' else f(t, l)
  if paths:
    a, b = paths
    e.update({'path_samples/xyz': f(a, b, 3), 'path_samples/id': i(a, b, hi=2**31 - 1), 'path_samples/valid': i(a, b, hi=1),
              'path_samples/arc_length': f(a, b), 'path_samples/on_route': i(a, 1, hi=1)})
  return e


def is1(v):
  return T.eqv(v, 1)


def means(vals, flags):
  """(number of valid steps, their mean times the number)."""
  n, s = F(0), F(0)
  for v, b in zip(vals, flags):
    n, s = T.add(n, T.ite(b, F(1), F(0))), T.add(s, T.ite(b, v, F(0)))
  return n, s


def mean_is(out, vals, flags):
  n, s = means(vals, flags)
  return T.and_([T.implies(T.eqv(n, F(0)), T.eqv(out, F(-1)))] +
                [T.implies(T.eqv(n, F(k)), T.close(out, T.div(s, F(k)))) for k in range(1, len(vals) + 1)])


def state_claims(e, st, key, ix=(), paths=False):
  lt, sim, md, rg, tl = st.log_trajectory, st.sim_trajectory, st.object_metadata, st.roadgraph_points, st.log_traffic_light
  g = lambda k: e[k][ix]
  n, t = g(f'state/{key}/x').shape
  same = lambda a, b: all_same(a[ix], b)
  feats, dims, start = [], [], []
  for k, f in STATE_F.items():
    a = getattr(lt, f)[ix]
    for j in np.ndindex(n, t):
      v = g(f'state/{key}/{k}')[j]
      feats.append(T.iff(a[j], is1(v)) if k == 'valid' else T.same(a[j], v))
  for f in DIMS:
    a = getattr(lt, f)[ix]
    for j in range(n):
      flags = [is1(v) for v in g(f'state/{key}/valid')[j]]
      dims += [mean_is(a[j, s], list(g(f'state/{key}/{f}')[j]), flags) for s in range(t)]
  for f in TF:
    a, b = getattr(lt, f)[ix], getattr(sim, f)[ix]
    start += [T.same(a[j, 0], b[j, 0]) for j in range(n)]
    start += [T.not_(b[j, s]) if f == 'valid' else T.eqv(b[j, s], 0) for j in range(n) for s in range(1, t)]
  lights = []
  for k, f in TL_F.items():
    v, a = g(f'traffic_light_state/{key}/{k}'), getattr(tl, f)[ix]
    if a.shape != v.T.shape:
      lights.append(False)
      continue
    lights += [T.iff(a[j], is1(v.T[j])) if k == 'valid' else T.same(a[j], v.T[j]) for j in np.ndindex(*a.shape)]
  meta = []
  for j in range(n):
    meta += [T.iff(md.is_valid[ix][j], T.not_(T.eqv(g('state/tracks_to_predict')[j], -1))),
             T.iff(md.is_modeled[ix][j], is1(g('state/tracks_to_predict')[j])),
             T.iff(md.is_sdc[ix][j], is1(g('state/is_sdc')[j])),
             T.iff(md.objects_of_interest[ix][j], is1(g('state/objects_of_interest')[j])),
             T.same(md.ids[ix][j], g('state/id')[j]), T.same(md.object_types[ix][j], g('state/type')[j]),
             T.not_(md.is_controlled[ix][j])]
  road = []
  for q in range(rg.x[ix].shape[0]):
    for k, name in enumerate('xyz'):
      road += [T.same(getattr(rg, name)[ix][q], g('roadgraph_samples/xyz')[q, k]),
               T.same(getattr(rg, 'dir_' + name)[ix][q], g('roadgraph_samples/dir')[q, k])]
    road += [T.same(rg.types[ix][q], g('roadgraph_samples/type')[q, 0]), T.same(rg.ids[ix][q], g('roadgraph_samples/id')[q, 0]),
             T.iff(rg.valid[ix][q], is1(g('roadgraph_samples/valid')[q, 0]))]
  cs = [c('objects', T.and_(feats)), c('dimensions', T.and_(dims)), c('starts from the first step', T.and_(start + [T.eqv(np.asarray(st.timestep, dtype=object)[ix], 0)])),
        c('traffic lights', T.and_(lights)), c('metadata', T.and_(meta)), c('map', T.and_(road))]
  if paths:
    sp, r = st.sdc_paths, []
    for q in np.ndindex(*sp.x[ix].shape):
      for k, name in enumerate('xyz'):
        r.append(T.same(getattr(sp, name)[ix][q], g('path_samples/xyz')[q + (k,)]))
      r += [T.same(sp.ids[ix][q], g('path_samples/id')[q]), T.same(sp.arc_length[ix][q], g('path_samples/arc_length')[q]),
            T.iff(sp.valid[ix][q], is1(g('path_samples/valid')[q]))]
    r += [T.iff(sp.on_route[ix][q, 0], is1(g('path_samples/on_route')[q, 0])) for q in range(sp.on_route[ix].shape[0])]
    cs.append(c('paths', T.and_(r)))
  else:
    cs.append(c('no paths', st.sdc_paths is None))
  return cs


def description(n, p, l, past, future):
  """The real feature description with shorter histories."""
  d = WU.get_features_description(max_num_objects=n, max_num_rg_points=p, num_tls=l)
  out = {}
  for k, s in d.items():
    shape = list(s.shape)
    if k.startswith('state/') and '/past/' in k or k.startswith('state/') and '/future/' in k:
      shape[1] = past if '/past/' in k else future
    elif k.startswith('traffic_light_state/') and ('/past/' in k or '/future/' in k):
      shape[0] = past if '/past/' in k else future
    out[k] = tf.io.FixedLenFeature(shape, s.dtype)
  return out


def back_claims(st, d, past, future, ts):
  """The dictionary of a state whose current step is ts (a python int)."""
  sim, md, rg, tl = st.sim_trajectory, st.object_metadata, st.roadgraph_points, st.log_traffic_light
  n = sim.x.shape[0]
  cs = []
  asint = lambda b: T.ite(b, 1, 0)
  for key, times in (('past', range(ts - past, ts)), ('current', [ts])):
    r = []
    for k, f in list(STATE_F.items()) + [(x, x) for x in DIMS]:
      for j in range(n):
        for s, t in enumerate(times):
          v = getattr(sim, f)[j, t]
          r.append(T.same(d[f'state/{key}/{k}'][j, s], asint(v) if f == 'valid' else v))
    cs.append(c(f'objects {key}', T.and_(r)))
    r = []
    for k, f in TL_F.items():
      for s, t in enumerate(times):
        for q in range(tl.x.shape[0]):
          v = getattr(tl, f)[q, t]
          r.append(T.same(d[f'traffic_light_state/{key}/{k}'][s, q], asint(v) if f == 'valid' else v))
    cs.append(c(f'traffic lights {key}', T.and_(r)))
    cs.append(c(f'light times {key}', T.and_([T.same(d[f'traffic_light_state/{key}/timestamp_micros'][s], sim.timestamp_micros[0, t])
                                            for s, t in enumerate(times)])))
  meta = []
  for j in range(n):
    for k, v in (('type', md.object_types[j]), ('id', md.ids[j]), ('objects_of_interest', asint(md.objects_of_interest[j])),
                 ('is_sdc', asint(md.is_sdc[j])), ('tracks_to_predict', asint(md.is_modeled[j]))):
      meta.append(T.eqv(d[f'state/{k}'][j], T.ite(md.is_valid[j], v, -1)))
  cs.append(c('metadata', T.and_(meta)))
  road = []
  for q in range(rg.x.shape[0]):
    for k, name in enumerate('xyz'):
      road += [T.same(d['roadgraph_samples/xyz'][q, k], getattr(rg, name)[q]), T.same(d['roadgraph_samples/dir'][q, k], getattr(rg, 'dir_' + name)[q])]
    road += [T.same(d['roadgraph_samples/type'][q, 0], rg.types[q]), T.same(d['roadgraph_samples/id'][q, 0], rg.ids[q]),
             T.same(d['roadgraph_samples/valid'][q, 0], asint(rg.valid[q]))]
  cs.append(c('map', T.and_(road)))
  fut = [T.eqv(v, -1) for k in d if '/future/' in k for v in np.asarray(d[k], dtype=object).reshape(-1)]
  cs.append(c('unknown future', T.and_(fut)))
  return cs


def harnesses(tier):
  hs = []
  big = tier == 'thorough'
  for n, t in ((1, 1), (2, 3)) + (((3, 4),) if big else ()):
    for key in ('all', 'past', 'current', 'future'):
      if key != 'all' and (n, t) != (2, 3):
        continue
      hs.append(Harness(f'from_{key}_{n}x{t}', lambda e, key=key: WF.simulator_state_from_womd_dict(e, time_key=key),
                        (example(n, t, 2, 2, keys=(key,)),), lambda i, o, key=key: state_claims(i[0], o, key), functions=[
                            'simulator_state_from_womd_dict', 'trajectory_from_womd_dict', 'object_metadata_from_womd_dict',
                            'roadgraph_from_womd_dict', 'traffic_lights_from_womd_dict', 'masked_mean'],
                        bounds=f'{n} objects, {t} steps, 2 map points, 2 lights, any recorded values'))
  # the feature sets of the other times must not leak in
  hs.append(Harness('from_all_of_four', lambda e: WF.simulator_state_from_womd_dict(e), (example(1, 2, 1, 1, keys=('all', 'past', 'current', 'future')),),
                    lambda i, o: state_claims(i[0], o, 'all'), functions=['simulator_state_from_womd_dict'], bounds='1 object, 2 steps of each time key'))
  hs.append(Harness('from_paths', lambda e: WF.simulator_state_from_womd_dict(e, include_sdc_paths=True), (example(2, 2, 2, 1, paths=(2, 3)),),
                    lambda i, o: state_claims(i[0], o, 'all', paths=True), functions=['paths_from_womd_dict'], bounds='2 paths of 3 points'))
  hs.append(Harness('from_batch', lambda e: WF.simulator_state_from_womd_dict(e, include_sdc_paths=True),
                    (example(2, 3, 2, 2, paths=(1, 2), batch=(2,)),),
                    lambda i, o: sum([[c(f'{x.name} of entry {b}', x.prop) for x in state_claims(i[0], o, 'all', ix=(b,), paths=True)] for b in range(2)], []),
                    functions=['simulator_state_from_womd_dict'], bounds='batch of 2, 2 objects, 3 steps'))

  for n, past, future, t in ((1, 1, 1, 3), (2, 2, 2, 5)):
    desc = description(n, 2, 2, past, future)
    for ts in range(past, t):
      hs.append(Harness(f'to_{n}x{past}_at{ts}', lambda s, desc=desc: WU.simulator_state_to_womd_dict(s, desc),
                        (wm.state(n, t, p=2, tl=2, timestep=ts),), lambda i, o, a=(past, future, ts): back_claims(i[0], o, *a),
                        functions=['simulator_state_to_womd_dict', '_trajectory_to_dict', '_traffic_light_to_dict', '_object_metadata_to_dict',
                                   '_roadgraph_to_dict', '_get_invalid_future_trajectory', '_get_invalid_future_traffic_light'],
                        bounds=f'{n} objects, {t} steps, history of {past}, step {ts}'))
  # symbolic current step
  desc1 = description(2, 1, 1, 2, 1)
  def anytime(s):
    return WU.simulator_state_to_womd_dict(s, desc1)
  def anyclaims(i, o):
    r = []
    for ts in range(2, 5):
      r.append(T.implies(T.eqv(scal(i[0].timestep), ts), T.and_([x.prop for x in back_claims(i[0], o, 2, 1, ts)])))
    return [c('split at the current step', T.and_(r))]
  hs.append(Harness('to_anytime', anytime, (wm.state(2, 5, p=1, tl=1, tmin=2),), anyclaims, functions=['simulator_state_to_womd_dict'],
                    bounds='2 objects, 5 steps, any step with a full history'))

  # validation of the history
  def validated(s):
    from jax.experimental import checkify
    err, _ = checkify.checkify(lambda s: WU.simulator_state_to_womd_dict(s, desc1, validate=True))(s)
    return jnp.any(jnp.stack([jnp.any(x) for x in err._pred.values()])) if err._pred else jnp.zeros((), bool)
  hs.append(Harness('to_validated', validated, (wm.state(2, 5, p=1, tl=1, tmin=0),), lambda i, o: [
      c('an incomplete history is reported, a complete one is not', T.iff(scal(o), T.not_(T.eqv(scal(i[0].timestep), 2))))],
                    functions=['simulator_state_to_womd_dict'], bounds='2 objects, 5 steps, history of 2, any step'))

  # round trips: scenario -> state -> log playback to the current step -> scenario
  for n, past in ((2, 2),):
    desc = description(n, 2, 1, past, 1)
    def trip(e, desc=desc, past=past):
      st = WF.simulator_state_from_womd_dict(e)
      st = datatypes.update_state_by_log(st, past)
      return WU.simulator_state_to_womd_dict(st, desc)

    def tclaims(i, o, past=past, n=n):
      e, d = i[0], o
      r, dm = [], []
      for key, times in (('past', range(past)), ('current', [past])):
        for k in STATE_F:
          r += [T.same(d[f'state/{key}/{k}'][j, s], e[f'state/all/{k}'][j, t]) for j in range(n) for s, t in enumerate(times)]
        for k in TL_F:
          r += [T.same(d[f'traffic_light_state/{key}/{k}'][s, 0], e[f'traffic_light_state/all/{k}'][t, 0]) for s, t in enumerate(times)]
        for k in DIMS:
          dm += [mean_is(d[f'state/{key}/{k}'][j, s], list(e[f'state/all/{k}'][j]), [is1(v) for v in e['state/all/valid'][j]])
                 for j in range(n) for s in range(len(times))]
      road = [T.and_([T.same(a, b) for a, b in zip(e[k].reshape(-1), d[k].reshape(-1))]) for k in e if k.startswith('roadgraph_samples/')]
      meta = []
      for j in range(n):
        known = T.not_(T.eqv(e['state/tracks_to_predict'][j], -1))
        for k in ('id', 'type', 'tracks_to_predict'):
          meta.append(T.implies(known, T.eqv(d[f'state/{k}'][j], e[f'state/{k}'][j])))
        for k in ('is_sdc', 'objects_of_interest'):
          meta.append(T.implies(known, T.iff(is1(d[f'state/{k}'][j]), is1(e[f'state/{k}'][j]))))
        meta.append(T.implies(T.not_(known), T.eqv(d['state/tracks_to_predict'][j], -1)))
      return [c('features', T.and_(r)), c('dimensions', T.and_(dm)), c('map', T.and_(road)), c('metadata', T.and_(meta))]

    hs.append(Harness(f'roundtrip_{n}x{past}', trip, (example(n, past + 2, 2, 1),), tclaims,
                      functions=['simulator_state_from_womd_dict', 'update_state_by_log', 'simulator_state_to_womd_dict'],
                      bounds=f'{n} objects, {past + 2} steps'))

  # state -> scenario -> trajectory
  def again(s):
    d = WU.simulator_state_to_womd_dict(s, desc1)
    return WF.trajectory_from_womd_dict(d, 'past'), WF.trajectory_from_womd_dict(d, 'current'), WF.traffic_lights_from_womd_dict(d, 'past'), WF.roadgraph_from_womd_dict(d)

  def gclaims(i, o):
    st = i[0]
    sim, tl, rg = st.sim_trajectory, st.log_traffic_light, st.roadgraph_points
    r = []
    for f in STATE_F.values():
      r += [T.same(getattr(o[0], f)[j, s], getattr(sim, f)[j, s + 1]) for j in range(2) for s in range(2)]
      r += [T.same(getattr(o[1], f)[j, 0], getattr(sim, f)[j, 3]) for j in range(2)]
    l = [T.same(getattr(o[2], f)[0, s], getattr(tl, f)[0, s + 1]) for f in TL_F.values() for s in range(2)]
    return [c('trajectories', T.and_(r)), c('lights', T.and_(l)), c('map', tree_same(o[3], rg))]

  hs.append(Harness('roundtrip_state', again, (wm.state(2, 5, p=1, tl=1, timestep=3),), gclaims,
                    functions=['simulator_state_to_womd_dict', 'trajectory_from_womd_dict'], bounds='2 objects, 5 steps'))
  return hs
