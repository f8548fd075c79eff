"""C12: box corners and overlap."""
from checks.common import *
from waymax.utils import geometry as G


def corners(b):
  x, y, l, w, a = b
  ca, sa = T.cos(a), T.sin(a)
  out = []
  for sl, sw in ((1, -1), (1, 1), (-1, 1), (-1, -1)):
    dx, dy = rot(ca, sa, T.mul(l, F(sl, 2)), T.mul(w, F(sw, 2)))
    out.append((T.add(x, dx), T.add(y, dy)))
  return out


def gaps(a, b):
  """Per side axis of a: separation minus half extents (overlap iff all < 0)."""
  xa, ya, la, wa, ta = a
  xb, yb, lb, wb, tb = b
  ca, sa, cb, sb = T.cos(ta), T.sin(ta), T.cos(tb), T.sin(tb)
  cd = T.normal(T.add(T.mul(ca, cb), T.mul(sa, sb)))
  sd = T.normal(T.sub(T.mul(ca, sb), T.mul(sa, cb)))
  dx, dy = T.sub(xb, xa), T.sub(yb, ya)
  out = []
  for u, v, h, pl, pw in ((ca, sa, la, cd, sd), (T.neg(sa), ca, wa, sd, cd)):
    sep = T.absv(T.normal(T.add(T.mul(dx, u), T.mul(dy, v))))
    ext = T.add(T.absv(T.normal(T.mul(pl, T.mul(lb, F(1, 2))))), T.absv(T.normal(T.mul(pw, T.mul(wb, F(1, 2))))))
    out.append(T.sub(sep, T.add(T.mul(h, F(1, 2)), ext)))
  return out


def overlap(a, b):
  return T.and_([T.lt(g, 0) for g in gaps(a, b) + gaps(b, a)])


def clear(a, b, m=F(1, 100)):
  """Definitely apart."""
  return T.or_([T.le(m, g) for g in gaps(a, b) + gaps(b, a)])


def deep(a, b, m=F(1, 100)):
  return T.and_([T.le(g, -m) for g in gaps(a, b) + gaps(b, a)])


def boxes(n, yaw=None, lim=20):
  return (V((n,), 'f', -lim, lim), V((n,), 'f', -lim, lim), V((n,), 'f', F(1, 2), 10), V((n,), 'f', F(1, 2), 4),
          V((n,), 'f', -4, 4) if yaw is None else jnp.asarray(yaw, jnp.float32))


def stack(*f):
  return jnp.stack(f, axis=-1)


def box(i, j):
  return [i[k][j] for k in range(5)]


def harnesses(tier):
  hs = []
  hs.append(Harness(
      'corners', lambda *b: (G.corners_from_bboxes(stack(*b)), G.corners_from_bbox(stack(*b)[0])), boxes(2),
      lambda i, o: [c(f'corner {k}', T.and_([T.and_(
          T.close(o[0][j, k, 0], corners(box(i, j))[k][0]), T.close(o[0][j, k, 1], corners(box(i, j))[k][1]))
                                             for j in range(2)])) for k in range(4)] +
      [c('single box', T.and_([T.and_(T.close(o[1][k, 0], corners(box(i, 0))[k][0]),
                                      T.close(o[1][k, 1], corners(box(i, 0))[k][1])) for k in range(4)]))],
      functions=['corners_from_bbox', 'corners_from_bboxes'], bounds='2 boxes, any pose and size'))

  traj_corners = lambda t: t.bbox_corners
  hs.append(Harness(
      'trajectory_corners', traj_corners, (wm.traj(1, 2),),
      lambda i, o: [c('trajectory boxes', T.and_([T.and_(
          T.close(o[0, t, k, 0], corners([getattr(i[0], f)[0, t] for f in ('x', 'y', 'length', 'width', 'yaw')])[k][0]),
          T.close(o[0, t, k, 1], corners([getattr(i[0], f)[0, t] for f in ('x', 'y', 'length', 'width', 'yaw')])[k][1]))
                                                  for t in range(2) for k in range(4)]))],
      functions=['Trajectory.bbox_corners'], bounds='1 object, 2 steps'))

  # overlap decided by separating axes
  angles = {'aligned': (0.0, 0.0), 'crossed': (0.0, np.pi / 2), 'opposite': (np.pi / 2, -np.pi / 2), 'oblique': (0.5, -0.7)}
  if tier != 'quick':
    angles.update({'steep': (2.0, 0.3), 'reverse': (np.pi, 0.25), 'near': (0.1, 0.15)})

  def has(*b):
    s = stack(*b)
    return G.has_overlap(s[:1], s[1:]), G.has_overlap(s[1:], s[:1])

  def oclaims(i, o):
    a, b = box(i, 0), box(i, 1)
    return [c('overlapping boxes are reported', T.implies(deep(a, b), o[0][0])),
            c('separated boxes are not', T.implies(clear(a, b), T.not_(o[0][0]))),
            c('symmetric', T.implies(T.or_(deep(a, b), clear(a, b)), T.iff(o[0][0], o[1][0])))]

  for nm, ya in angles.items():
    hs.append(Harness(f'overlap_{nm}', has, boxes(2, yaw=ya), oclaims, functions=['has_overlap'],
                      bounds=f'2 boxes, any position and size, headings {ya}'))
  def touch(*b):
    return has(*b)

  def tclaims(i, o):
    a, b = box(i, 0), box(i, 1)
    g = T.sub(T.sub(b[0], a[0]), T.mul(F(1, 2), T.add(a[2], b[2])))
    return [c('touching boxes do not overlap', T.implies(T.eqv(g, F(0)), T.not_(o[0][0])))]

  hs.append(Harness('touching', touch, boxes(2, yaw=(0.0, 0.0)), tclaims, functions=['has_overlap'],
                    bounds='2 aligned boxes, any sizes and lateral offsets'))

  def general(*b):
    return G.has_overlap(stack(*b)[:1], stack(*b)[1:])

  def gclaims(i, o):
    a, b = box(i, 0), box(i, 1)
    return [c('overlapping boxes are reported', T.implies(deep(a, b), o[0])),
            c('separated boxes are not', T.implies(clear(a, b), T.not_(o[0])))]

  hs.append(Harness('overlap_any_heading', general, boxes(2), gclaims, functions=['has_overlap'],
                    bounds='2 boxes, any pose and size', timeout=240, optional=True))

  # pairwise matrix
  for n, lead, yaw in ((3, False, None), (2, True, None), (2, False, (0.5, 0.5)), (2, True, (0.5, 0.5, 0.0, 0.0))):
    def pw(*b, lead=lead, n=n):
      s = stack(*b)
      return G.compute_pairwise_overlaps(s.reshape((2, n, 5)) if lead else s), (
          G.has_overlap(jnp.repeat(s[:, None], s.shape[0], 1), jnp.repeat(s[None], s.shape[0], 0)))

    def pclaims(i, o, n=n, lead=lead):
      m, h = o
      if not lead:
        return [c('no object overlaps itself', T.and_([T.not_(m[j, j]) for j in range(n)]))] + [
            c('entries test the two boxes', T.and_([T.iff(m[a, b], h[a, b]) for a in range(n) for b in range(n) if a != b]))]
      return [c('no object overlaps itself', T.and_([T.not_(m[s, j, j]) for j in range(n) for s in range(2)])),
              c('entries test the two boxes of the same scene', T.and_([
                  T.iff(m[s, a, b], h[s * n + a, s * n + b]) for s in range(2) for a in range(n) for b in range(n) if a != b]))]

    nb = n * (2 if lead else 1)
    hs.append(Harness(f'pairwise_{"batched" if lead else "single"}{"" if yaw is None else "_same_heading"}', pw, boxes(nb, yaw=yaw or [0.0, 0.5, -0.5, 1.0][:nb]),
                      pclaims, functions=['compute_pairwise_overlaps'], bounds=f'{n} boxes', samples=1))
  return hs
