"""C22: observations show the right objects, times and frames."""
from checks.common import *
from svx.harness import build_concrete
from waymax.datatypes import observation as O

FR = config.CoordinateFrame
FLOATS = ('x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'length', 'width', 'height')


def dist2(rg, q, x, y):
  dx, dy = T.sub(rg.x[q], x), T.sub(rg.y[q], y)
  return norm2(dx, dy)


def frame_pose(st, frame, viewer, k):
  """(x, y, yaw, valid) of the frame of a viewer, None for the global frame."""
  sim = st.sim_trajectory
  if frame == FR.GLOBAL:
    return None
  if frame == FR.OBJECT:
    return sim.x[viewer, k], sim.y[viewer, k], sim.yaw[viewer, k], sim.valid[viewer, k]
  return tuple(sdc_pick(st.object_metadata, [getattr(sim, f)[j, k] for j in range(len(sim.x))]) for f in ('x', 'y', 'yaw', 'valid'))


def moved(pose, x, y):
  if pose is None:
    return x, y
  c_, s_ = T.cos(pose[2]), T.sin(pose[2])
  return rot(c_, T.neg(s_), T.sub(x, pose[0]), T.sub(y, pose[1]))


def turned(pose, x, y):
  if pose is None:
    return x, y
  return rot(T.cos(pose[2]), T.neg(T.sin(pose[2])), x, y)


def near(a, b, frame):
  return T.same(a, b) if frame == FR.GLOBAL else T.close(a, b)


def claims_of(i, o, frame, k, h, viewers, sdc_only=False):
  """The whole observation against the state it was taken from."""
  st = i[0]
  sim, tl, md, rg = st.sim_trajectory, st.log_traffic_light, st.object_metadata, st.roadgraph_points
  n = sim.x.shape[0]
  tr, times = [], range(k - h + 1, k + 1)
  lights, meta, ego, road, pose_ok, shape = [], [], [], [], [], []
  for v in range(len(viewers)):
    p = frame_pose(st, frame, viewers[v], k)
    pv = True if p is None else p[3]
    for j in range(n):
      for s, t in enumerate(times):
        x, y = moved(p, sim.x[j, t], sim.y[j, t])
        vx, vy = turned(p, sim.vel_x[j, t], sim.vel_y[j, t])
        ot = o.trajectory
        tr.append(T.and_(near(ot.x[v, j, s], x, frame), near(ot.y[v, j, s], y, frame), near(ot.vel_x[v, j, s], vx, frame),
                         near(ot.vel_y[v, j, s], vy, frame),
                         near(ot.yaw[v, j, s], sim.yaw[j, t] if p is None else T.sub(sim.yaw[j, t], p[2]), frame),
                         T.iff(ot.valid[v, j, s], T.and_(pv, sim.valid[j, t])),
                         T.eqv(ot.timestamp_micros[v, j, s], sim.timestamp_micros[j, t]),
                         *[T.same(getattr(ot, f)[v, j, s], getattr(sim, f)[j, t]) for f in ('z', 'length', 'width', 'height')]))
      meta.append(T.and_([T.same(getattr(o.metadata, f)[v, j], getattr(md, f)[j]) for f in
                          ('ids', 'object_types', 'is_sdc', 'is_modeled', 'is_valid', 'objects_of_interest', 'is_controlled')]))
      ego.append(T.iff(o.is_ego[v, j], md.is_sdc[j] if sdc_only else j == viewers[v]))
    for q in range(tl.x.shape[0]):
      for s, t in enumerate(times):
        x, y = moved(p, tl.x[q, t], tl.y[q, t])
        ol = o.traffic_lights
        lights.append(T.and_(near(ol.x[v, q, s], x, frame), near(ol.y[v, q, s], y, frame), T.same(ol.z[v, q, s], tl.z[q, t]),
                             T.eqv(ol.state[v, q, s], tl.state[q, t]), T.eqv(ol.lane_ids[v, q, s], tl.lane_ids[q, t]),
                             T.iff(ol.valid[v, q, s], T.and_(pv, tl.valid[q, t]))))
    og = o.roadgraph_static_points
    for q in range(og.x.shape[1]):
      road.append(T.or_([T.and_(
          *[near(a, b, frame) for a, b in zip((og.x[v, q], og.y[v, q]), moved(p, rg.x[e], rg.y[e]))],
          *[near(a, b, frame) for a, b in zip((og.dir_x[v, q], og.dir_y[v, q]), turned(p, rg.dir_x[e], rg.dir_y[e]))],
          T.same(og.z[v, q], rg.z[e]), T.same(og.dir_z[v, q], rg.dir_z[e]), T.eqv(og.types[v, q], rg.types[e]),
          T.eqv(og.ids[v, q], rg.ids[e]), T.iff(og.valid[v, q], T.and_(pv, rg.valid[e]))) for e in ([q] if og.x.shape[1] == len(rg.x) else range(len(rg.x)))]))
    if p is not None:
      pose_ok.append(T.and_(T.same(o.pose2d.original_xy[v, 0], p[0]), T.same(o.pose2d.original_xy[v, 1], p[1]),
                            T.same(o.pose2d.original_yaw[v], p[2]), T.iff(o.pose2d.valid[v], p[3]),
                            T.close(o.pose2d.delta_yaw[v], T.neg(p[2]))))
    else:
      pose_ok.append(T.and_(T.eqv(o.pose2d.original_xy[v, 0], F(0)), T.eqv(o.pose2d.original_yaw[v], F(0)), o.pose2d.valid[v]))
  out = [c('objects over the window', T.and_(tr)), c('traffic lights over the window', T.and_(lights)), c('metadata', T.and_(meta)),
         c('own ego', T.and_(ego)), c('map points', T.and_(road)), c('frame reported', T.and_(pose_ok)),
         c('window length', o.trajectory.x.shape[-1] == h and o.traffic_lights.x.shape[-1] == h and o.trajectory.x.shape[0] == len(viewers))]
  if frame == FR.OBJECT and not sdc_only:
    ok = []
    for v in range(len(viewers)):
      ok.append(T.and_(*[T.close(getattr(o.trajectory, f)[v, viewers[v], h - 1], F(0)) for f in ('x', 'y', 'yaw')]))
    out.append(c('sees itself at the origin', T.and_(ok)))
  return out


def harnesses(tier):
  hs = []
  deep = tier != 'quick'
  n, t = 2, 3
  for frame in (FR.GLOBAL, FR.OBJECT, FR.SDC):
    for k, h in ((2, 1), (2, 2), (1, 2), (2, 3)) + (((0, 1), (1, 1)) if deep else ()):
      st = wm.state(n, t, p=2, timestep=k, tl=2)
      nm = f'{frame.name.lower()}_t{k}_h{h}'
      hs.append(Harness(
          f'all_{nm}', lambda s, h=h, frame=frame: O.observation_from_state(s, obs_num_steps=h, roadgraph_top_k=2, coordinate_frame=frame),
          (st,), lambda i, o, frame=frame, k=k, h=h: claims_of(i, o, frame, k, h, range(n)), assume=lambda i: [one_sdc(i[0].object_metadata)],
          functions=['observation_from_state', 'global_observation_from_state', 'transform_observation', 'transform_trajectory',
                     'transform_roadgraph_points', 'transform_traffic_lights', 'combine_two_object_pose_2d', 'ObjectPose2D.from_center_and_yaw'],
          bounds=f'{n} objects, {t} steps, 2 map points, 2 traffic lights, timestep {k}, window {h}'))
      hs.append(Harness(
          f'sdc_{nm}', lambda s, h=h, frame=frame: O.sdc_observation_from_state(s, obs_num_steps=h, roadgraph_top_k=2, coordinate_frame=frame),
          (st,), lambda i, o, frame=frame, k=k, h=h: claims_of(i, o, FR.SDC if frame == FR.OBJECT else frame, k, h, [None], True) + [
              c('routes of the car', T.and_([all_same(getattr(o.sdc_paths, f)[0], getattr(i[0].sdc_paths, f)) for f in
                                            ('x', 'y', 'z', 'ids', 'valid', 'arc_length', 'on_route')]))],
          assume=lambda i: [one_sdc(i[0].object_metadata)], functions=['sdc_observation_from_state'],
          bounds=f'{n} objects, {t} steps, 2 map points, 2 traffic lights, timestep {k}, window {h}'))

  # any timestep: the window ends at the current one (global frame)
  for h, t in ((1, 4), (2, 4)) + (((3, 5), (4, 6)) if deep else ()):
    def gclaims(i, o, h=h):
      st = i[0]
      ts = scal(st.timestep)
      ok = []
      for f in TF:
        src, got = getattr(st.sim_trajectory, f), getattr(o.trajectory, f)
        for v in range(got.shape[0]):
          for j in range(2):
            for s in range(h):
              ok.append(T.eqv(got[v, j, s], at(src[j], T.sub(ts, h - 1 - s))))
      tl = []
      for f in ('x', 'y', 'z', 'state', 'lane_ids', 'valid'):
        for s in range(h):
          tl.append(T.eqv(getattr(o.traffic_lights, f)[0, 0, s], at(getattr(st.log_traffic_light, f)[0], T.sub(ts, h - 1 - s))))
      return [c('simulated objects up to now', T.and_(ok)), c('logged lights up to now', T.and_(tl))]

    for nm, fn in (('all', lambda s, h=h: O.observation_from_state(s, obs_num_steps=h, roadgraph_top_k=2)),
                   ('global', lambda s, h=h: O.global_observation_from_state(s, obs_num_steps=h, num_obj=1))):
      hs.append(Harness(f'{nm}_anytime_h{h}', fn, (wm.state(2, t, p=2, tmin=h - 1),), gclaims, functions=['global_observation_from_state'],
                        bounds=f'2 objects, {t} steps, window {h}, any timestep with that much history'))

  # each viewer's own nearest map points
  def road(s):
    o = O.observation_from_state(s, roadgraph_top_k=2)
    d = O.sdc_observation_from_state(s, roadgraph_top_k=2, coordinate_frame=FR.GLOBAL)
    n = s.sim_trajectory.num_objects
    rg = s.roadgraph_points
    xy = s.sim_trajectory.xy[:, 1, :]
    each = [datatypes.filter_topk_roadgraph_points(rg, xy[j], 2) for j in range(n)]
    one = datatypes.filter_topk_roadgraph_points(rg, jnp.where(s.object_metadata.is_sdc[0], xy[0], xy[1]), 2)
    return o.roadgraph_static_points, each, d.roadgraph_static_points, one

  RF = ('x', 'y', 'z', 'dir_x', 'dir_y', 'dir_z', 'types', 'ids', 'valid')
  hs.append(Harness('nearest_map_points', road, (wm.state(2, 2, p=3, timestep=1),), lambda i, o: [
      c('of each viewer', T.and_([all_same(getattr(o[0], f)[v], getattr(o[1][v], f)) for v in range(2) for f in RF])),
      c('of the car', T.and_([all_same(getattr(o[2], f)[0], getattr(o[3], f)) for f in RF]))],
      assume=lambda i: [one_sdc(i[0].object_metadata)], functions=['observation_from_state', 'sdc_observation_from_state'],
      bounds='2 objects, 2 of 3 map points'))

  # one viewer alone
  for m in (2, 3):
    for v in range(m):
      def view(s, v=v):
        o = O.observation_from_state(s, obs_num_steps=2, roadgraph_top_k=2)
        return o, o.for_obj(v)

      def vclaims(i, o, v=v):
        a, b = [jax.tree_util.tree_leaves(x) for x in o]
        return [c('that viewer alone', T.and_([x[v:v + 1].shape == y.shape and all_same(x[v:v + 1], y) for x, y in zip(a, b)]))]

      hs.append(Harness(f'for_obj{v}_of{m}', view, (wm.state(m, 3, p=2, timestep=2, tl=1),), vclaims,
                        functions=['Observation.for_obj'], bounds=f'{m} objects, 3 steps, window 2', samples=1))

  for batch in ((2,), (1, 2)):
    for v in range(2):
      def bview(s, v=v):
        o = O.observation_from_state(s, obs_num_steps=1, roadgraph_top_k=2, coordinate_frame=FR.GLOBAL)
        return o, o.for_obj(v)

      def bvclaims(i, o, v=v, k=len(batch)):
        a, b = [jax.tree_util.tree_leaves(x) for x in o]
        pick = (slice(None),) * k + (slice(v, v + 1),)
        return [c('that viewer alone, in every scenario', T.and_([x[pick].shape == y.shape and all_same(x[pick], y) for x, y in zip(a, b)]))]

      hs.append(Harness(f'for_obj{v}_batch{len(batch)}', bview, (wm.state(2, 2, p=2, timestep=1, tl=1, batch=batch),), bvclaims,
                        functions=['Observation.for_obj'], bounds=f'batch {batch}, 2 objects, 2 steps', samples=1))

  # moving an observation to another frame is the same as observing in that frame
  for src, dst in ((FR.GLOBAL, FR.OBJECT), (FR.OBJECT, FR.SDC), (FR.SDC, FR.OBJECT)):
    def chain(s, src=src, dst=dst):
      f = lambda fr: O.observation_from_state(s, obs_num_steps=1, roadgraph_top_k=2, coordinate_frame=fr)
      b = f(dst)
      return O.transform_observation(f(src), b.pose2d), b

    def cclaims(i, o):
      a, b = o
      near_ = lambda x, y: T.and_([T.close(p, q) for p, q in zip(x.reshape(-1), y.reshape(-1))])
      return [c('objects', T.and_([near_(getattr(a.trajectory, f), getattr(b.trajectory, f)) for f in FLOATS])),
              c('map', T.and_([near_(getattr(a.roadgraph_static_points, f), getattr(b.roadgraph_static_points, f)) for f in ('x', 'y', 'dir_x', 'dir_y')])),
              c('lights', T.and_([near_(getattr(a.traffic_lights, f), getattr(b.traffic_lights, f)) for f in 'xy'])),
              c('frame', tree_same(a.pose2d, b.pose2d))]

    hs.append(Harness(f'reframe_{src.name.lower()}_{dst.name.lower()}', chain, (wm.state(2, 2, p=2, timestep=1),), cclaims,
                      assume=lambda i: [one_sdc(i[0].object_metadata)], functions=['transform_observation', 'combine_two_object_pose_2d'],
                      bounds='2 objects, 2 map points, 1 light', optional=src != FR.GLOBAL))

  # a pose moves its own centre to the origin and keeps distances; poses of matrices agree with poses of centres
  def pose(xy, yaw, pt):
    a = O.ObjectPose2D.from_center_and_yaw(xy, yaw)
    b = O.ObjectPose2D.from_transformation(a.matrix, a.delta_yaw)
    from waymax.utils import geometry
    return (geometry.transform_points(a.matrix, xy), geometry.transform_points(a.matrix, pt), geometry.transform_direction(a.matrix, pt),
            a, b)

  def pclaims(i, o):
    xy, yaw, pt = i
    dx, dy = T.sub(pt[0, 0], xy[0, 0]), T.sub(pt[0, 1], xy[0, 1])
    cs, sn = T.cos(yaw[0]), T.sin(yaw[0])
    ux, uy = rot(cs, T.neg(sn), dx, dy)
    wx, wy = rot(cs, T.neg(sn), pt[0, 0], pt[0, 1])
    a, b = o[3], o[4]
    return [c('centre to the origin', T.and_(T.close(o[0][0, 0], F(0)), T.close(o[0][0, 1], F(0)))),
            c('points', T.and_(T.close(o[1][0, 0], ux), T.close(o[1][0, 1], uy))),
            c('directions', T.and_(T.close(o[2][0, 0], wx), T.close(o[2][0, 1], wy))),
            c('from the matrix', T.and_(T.close(b.original_xy[0, 0], xy[0, 0]), T.close(b.original_xy[0, 1], xy[0, 1]),
                                       T.close(b.original_yaw[0], yaw[0]))),
            c('turn', T.eqv(a.delta_yaw[0], T.neg(yaw[0])))]

  hs.append(Harness('poses', pose, (V((1, 2), 'f', -50, 50), V((1,), 'f', -4, 4), V((1, 2), 'f', -50, 50)), pclaims,
                    functions=['ObjectPose2D.from_center_and_yaw', 'ObjectPose2D.from_transformation', 'transform_points', 'transform_direction'],
                    bounds='one pose, one point'))
  return hs
