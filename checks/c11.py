"""C11: rigid frame changes."""
from checks.common import *
from waymax.datatypes import observation as ob
from waymax.utils import geometry as G


def into(xy, yaw, p):
  """Point p seen from the pose (xy, yaw)."""
  return rot(T.cos(yaw), T.neg(T.sin(yaw)), T.sub(p[0], xy[0]), T.sub(p[1], xy[1]))


def turn(yaw, v):
  return rot(T.cos(yaw), T.neg(T.sin(yaw)), v[0], v[1])


def pair_close(a, b):
  return T.and_(T.close(a[0], b[0]), T.close(a[1], b[1]))


def harnesses(tier):
  n, k = (2, 2) if tier == 'quick' else (3, 4)
  xy = lambda *s: V(s + (2,), 'f', -100, 100)
  ang_ = lambda *s: V(s, 'f', -7, 7)
  hs = []
  rows = range(n)

  hs.append(Harness('rotation_matrix', lambda a: (G.rotation_matrix_2d(a), G.rotate_points(
      G.rotation_matrix_2d(a), jnp.ones((n, 2)))), (ang_(n),),
      lambda i, o: [c('counter-clockwise rotation', T.and_([T.and_(
          T.close(o[0][j, 0, 0], T.cos(i[0][j])), T.close(o[0][j, 0, 1], T.neg(T.sin(i[0][j]))),
          T.close(o[0][j, 1, 0], T.sin(i[0][j])), T.close(o[0][j, 1, 1], T.cos(i[0][j]))) for j in rows]))],
      functions=['rotation_matrix_2d'], bounds=f'{n} angles within +-7'))

  hs.append(Harness('rotate_points', lambda a, p: G.rotate_points(G.rotation_matrix_2d(a), p),
                    (ang_(n), xy(n, k)),
                    lambda i, o: [c('points turn counter-clockwise about the origin', T.and_([
                        pair_close(o[j, m], rot(T.cos(i[0][j]), T.sin(i[0][j]), *i[1][j, m]))
                        for j in rows for m in range(k)]))],
                    functions=['rotate_points'], bounds=f'{n} matrices x {k} points'))

  def pose(p, yaw, q):
    m, d = G.pose_from_xy_yaw(p, yaw)
    out = G.transform_points(m, q)
    self_ = G.transform_points(m, p[:, None, :])
    back = G.transform_points(jnp.linalg.inv(m), out)
    return out, self_, G.transform_yaw(d, yaw), d, back, G.transform_direction(m, q)

  def pclaims(i, o):
    p, yaw, q = i
    out, self_, syaw, d, back, dr = o
    dist = []
    for j in rows:
      for a in range(k):
        for b in range(a):
          dist.append(T.close(norm2(T.sub(out[j, a, 0], out[j, b, 0]), T.sub(out[j, a, 1], out[j, b, 1])),
                              norm2(T.sub(q[j, a, 0], q[j, b, 0]), T.sub(q[j, a, 1], q[j, b, 1])), tol=1.0))
    return [
        c('points move into the frame', T.and_([pair_close(out[j, m], into(p[j], yaw[j], q[j, m]))
                                                for j in rows for m in range(k)])),
        c('the pose itself maps to the origin', T.and_([pair_close(self_[j, 0], (F(0), F(0))) for j in rows])),
        c('its heading maps to zero', T.and_([T.close(syaw[j], F(0)) for j in rows])),
        c('heading offset is minus the heading', T.and_([T.close(d[j], T.neg(yaw[j])) for j in rows])),
        c('the inverse transform undoes it', T.and_([pair_close(back[j, m], q[j, m]) for j in rows for m in range(k)])),
        c('directions only turn', T.and_([pair_close(dr[j, m], turn(yaw[j], q[j, m])) for j in rows for m in range(k)])),
        c('distances are preserved', T.and_(dist))]

  hs.append(Harness('pose_transform', pose, (xy(n), ang_(n), xy(n, k)), pclaims,
                    functions=['pose_from_xy_yaw', 'transform_points', 'transform_yaw', 'transform_direction'],
                    bounds=f'{n} poses x {k} points within +-100 m', vtol=2e-2))

  # box and box+velocity trajectories
  for dof in (5, 7):
    def tr(p, yaw, q):
      m, d = G.pose_from_xy_yaw(p, yaw)
      return G.transform_trajectories(q, m, d)

    def tclaims(i, o, dof=dof):
      p, yaw, q = i
      out = [c('centres move into the frame', T.and_([pair_close(o[j, m][:2], into(p[j], yaw[j], q[j, m][:2]))
                                                      for j in rows for m in range(k)])),
             c('sizes unchanged', T.and_([T.same(o[j, m, e], q[j, m, e]) for j in rows for m in range(k) for e in (2, 3)])),
             c('headings turn', T.and_([T.close(o[j, m, 4], T.sub(q[j, m, 4], yaw[j])) for j in rows for m in range(k)]))]
      if dof == 7:
        out.append(c('velocities turn', T.and_([pair_close(o[j, m][5:], turn(yaw[j], q[j, m][5:]))
                                                for j in rows for m in range(k)])))
      return out

    hs.append(Harness(f'trajectories_dof{dof}', tr, (xy(n), ang_(n), V((n, k, dof), 'f', -50, 50)), tclaims,
                      functions=['transform_trajectories'], bounds=f'{n} poses x {k} boxes', vtol=2e-2))

  # pose objects
  def po(p, yaw, v):
    a = ob.ObjectPose2D.from_center_and_yaw(p, yaw, v)
    b = ob.ObjectPose2D.from_transformation(a.matrix, a.delta_yaw, v)
    d = ob.ObjectPose2D.from_center_and_yaw(p, yaw)
    return a, b, d, a.rotation_matrix, a.translation_vector

  def poclaims(i, o):
    p, yaw, v = i
    a, b, d, rm, tv = o
    return [
        c('centre kept', all_close(a.original_xy, p)), c('heading kept', all_close(a.original_yaw, yaw)),
        c('validity kept', all_same(a.valid, v)), c('validity of the transformation kept', all_same(b.valid, v)),
        c('valid by default', T.and_([d.valid[j] for j in rows])),
        c('heading offset', T.and_([T.close(a.delta_yaw[j], T.neg(yaw[j])) for j in rows])),
        c('centre recovered from the transformation', all_close(b.original_xy, p)),
        c('heading recovered from the transformation', all_close(b.original_yaw, yaw)),
        c('rotation and translation parts', T.and_([T.and_(
            all_same(rm[j], a.matrix[j, :2, :2]), all_same(tv[j], a.matrix[j, :2, 2])) for j in rows]))]

  hs.append(Harness('object_pose', po, (xy(n), ang_(n), V((n,), 'b')), poclaims,
                    functions=['ObjectPose2D.from_center_and_yaw', 'ObjectPose2D.from_transformation'],
                    bounds=f'{n} poses', vtol=2e-2))

  def comb(p1, y1, v1, p2, y2, v2, q):
    s = ob.ObjectPose2D.from_center_and_yaw(p1, y1, v1)
    d = ob.ObjectPose2D.from_center_and_yaw(p2, y2, v2)
    cb = ob.combine_two_object_pose_2d(s, d)
    # q is given in the source frame
    one = G.transform_points(cb.matrix, q)
    two = G.transform_points(d.matrix, G.transform_points(jnp.linalg.inv(s.matrix), q))
    glob = G.transform_points(cb.matrix, G.transform_points(s.matrix, q))
    return cb, one, two, glob

  def cclaims(i, o):
    p1, y1, v1, p2, y2, v2, q = i
    cb, one, two, glob = o
    return [c('same as undoing the source, then the destination', T.and_([
        pair_close(one[j, m], two[j, m]) for j in range(len(p1)) for m in range(q.shape[1])])),
            c('source frame to destination frame', T.and_([
                pair_close(glob[j, m], into(p2[j], y2[j], q[j, m])) for j in range(len(p1)) for m in range(q.shape[1])])),
            c('headings combine', T.and_([T.close(cb.delta_yaw[j], T.sub(y1[j], y2[j])) for j in range(len(p1))])),
            c('valid iff both are', T.and_([T.iff(cb.valid[j], T.and_(v1[j], v2[j])) for j in range(len(p1))]))]

  m_ = 1 if tier == 'quick' else 2
  hs.append(Harness('combine', comb, (xy(m_), ang_(m_), V((m_,), 'b'), xy(m_), ang_(m_), V((m_,), 'b'), xy(m_, 1)),
                    cclaims, functions=['combine_two_object_pose_2d'], bounds=f'{m_} pose pairs', vtol=5e-2))

  # structured data
  def tt(tr_, p, yaw, v):
    ps = ob.ObjectPose2D.from_center_and_yaw(p, yaw, v)
    return ob.transform_trajectory(tr_, ps)

  def ttclaims(i, o):
    t, p, yaw, v = i
    J = [(j, a, b) for j in range(len(p)) for a in range(t.x.shape[1]) for b in range(t.x.shape[2])]
    return [c('positions', T.and_([pair_close((o.x[e], o.y[e]), into(p[e[0]], yaw[e[0]], (t.x[e], t.y[e]))) for e in J])),
            c('velocities', T.and_([pair_close((o.vel_x[e], o.vel_y[e]), turn(yaw[e[0]], (t.vel_x[e], t.vel_y[e]))) for e in J])),
            c('headings', T.and_([T.close(o.yaw[e], T.sub(t.yaw[e], yaw[e[0]])) for e in J])),
            c('valid iff object and frame valid', T.and_([T.iff(o.valid[e], T.and_(t.valid[e], v[e[0]])) for e in J])),
            c('other fields untouched', T.and_([all_same(getattr(o, f), getattr(t, f)) for f in (
                'z', 'length', 'width', 'height', 'timestamp_micros')]))]

  hs.append(Harness('transform_trajectory', tt, (wm.traj(2, 2, batch=(n,)), xy(n), ang_(n), V((n,), 'b')), ttclaims,
                    functions=['transform_trajectory'], bounds=f'{n} frames, 2 objects, 2 steps', vtol=2e-2))

  def tr2(rg, p, yaw, v):
    return ob.transform_roadgraph_points(rg, ob.ObjectPose2D.from_center_and_yaw(p, yaw, v))

  def rgclaims(i, o):
    r, p, yaw, v = i
    J = [(j, a) for j in range(len(p)) for a in range(r.x.shape[1])]
    return [c('points', T.and_([pair_close((o.x[e], o.y[e]), into(p[e[0]], yaw[e[0]], (r.x[e], r.y[e]))) for e in J])),
            c('directions', T.and_([pair_close((o.dir_x[e], o.dir_y[e]), turn(yaw[e[0]], (r.dir_x[e], r.dir_y[e]))) for e in J])),
            c('valid iff point and frame valid', T.and_([T.iff(o.valid[e], T.and_(r.valid[e], v[e[0]])) for e in J])),
            c('other fields untouched', T.and_([all_same(getattr(o, f), getattr(r, f)) for f in ('z', 'dir_z', 'types', 'ids')]))]

  hs.append(Harness('transform_roadgraph', tr2, (wm.roadgraph(2, batch=(n,)), xy(n), ang_(n), V((n,), 'b')), rgclaims,
                    functions=['transform_roadgraph_points'], bounds=f'{n} frames, 2 points', vtol=2e-2))

  def tr3(t, p, yaw, v):
    return ob.transform_traffic_lights(t, ob.ObjectPose2D.from_center_and_yaw(p, yaw, v))

  def tlclaims(i, o):
    t, p, yaw, v = i
    J = [(j, a, b) for j in range(len(p)) for a in range(t.x.shape[1]) for b in range(t.x.shape[2])]
    return [c('positions', T.and_([pair_close((o.x[e], o.y[e]), into(p[e[0]], yaw[e[0]], (t.x[e], t.y[e]))) for e in J])),
            c('valid iff light and frame valid', T.and_([T.iff(o.valid[e], T.and_(t.valid[e], v[e[0]])) for e in J])),
            c('other fields untouched', T.and_([all_same(getattr(o, f), getattr(t, f)) for f in ('z', 'state', 'lane_ids')]))]

  hs.append(Harness('transform_traffic_lights', tr3, (wm.tls(1, 2, batch=(n,)), xy(n), ang_(n), V((n,), 'b')), tlclaims,
                    functions=['transform_traffic_lights'], bounds=f'{n} frames, 1 light, 2 steps', vtol=2e-2))

  hs.append(Harness(
      'wrap_yaws', G.wrap_yaws, (V((2,), 'f', -30, 30),),
      lambda i, o: [c('equivalent angle in [-pi, pi)', T.and_([T.and_(
          ang(o[j], i[0][j]), T.le(-PI - F(1, 10**5), o[j]), T.lt(o[j], PI + F(1, 10**5))) for j in range(2)]))],
      functions=['wrap_yaws'], bounds='angles within +-30 rad'))
  return hs
