"""C20: merging actor outputs."""
import itertools

from checks.common import *
from waymax.agents import actor_core


def out_of(p):
  return actor_core.WaymaxActorOutput(actor_state=None, action=datatypes.Action(data=p['data'], valid=p['valid']),
                                      is_controlled=p['mask'])


def harnesses(tier):
  hs = []
  sizes = ((1, 2, ()), (2, 3, ()), (3, 2, ()), (2, 2, (2,))) + (((4, 3, ()), (3, 3, (2,))) if tier != 'quick' else ())
  for m, n, batch in sizes:
    ps = [{'data': V(batch + (n, 2)), 'valid': V(batch + (n, 1), 'b'), 'mask': V(batch + (n,), 'b')} for _ in range(m)]
    idx = list(np.ndindex(*(batch + (n,))))

    def disjoint(i, idx=idx):
      ps = i[0]
      return [T.not_(T.and_(p['mask'][x], q['mask'][x])) for k, p in enumerate(ps) for q in ps[:k] for x in idx]

    def claims(i, o, idx=idx):
      out = []
      for k, p in enumerate(i[0]):
        out.append(c(f'objects of actor {k} get its action', T.and_([T.implies(p['mask'][x], T.and_(
            T.same(o.data[x + (0,)], p['data'][x + (0,)]), T.same(o.data[x + (1,)], p['data'][x + (1,)]),
            T.iff(o.valid[x + (0,)], p['valid'][x + (0,)]))) for x in idx])))
      out.append(c('shape', o.data.shape == i[0][0]['data'].shape and o.valid.shape == i[0][0]['valid'].shape))
      return out

    hs.append(Harness(f'merge_{m}x{n}{"_batched" if batch else ""}', lambda ps: agents.merge_actions([out_of(p) for p in ps]),
                      (ps,), claims, assume=disjoint, functions=['merge_actions'],
                      bounds=f'{m} actors, {n} objects, disjoint control masks'))

    # the order of the actors does not matter for controlled objects
    if m > 1:
      def perm(ps):
        return [agents.merge_actions([out_of(ps[k]) for k in o]) for o in itertools.permutations(range(len(ps)))]

      def pcl(i, o, idx=idx):
        ok = []
        for x in idx:
          some = T.or_([p['mask'][x] for p in i[0]])
          ok += [T.implies(some, T.and_(T.same(r.data[x + (0,)], o[0].data[x + (0,)]), T.same(r.data[x + (1,)], o[0].data[x + (1,)]),
                                        T.iff(r.valid[x + (0,)], o[0].valid[x + (0,)]))) for r in o[1:]]
        return [c('order is irrelevant', T.and_(ok))]

      hs.append(Harness(f'order_{m}x{n}{"_batched" if batch else ""}', perm, (ps,), pcl, assume=disjoint,
                        functions=['merge_actions'], bounds=f'{m} actors, every order'))

  # foreign outputs never influence a controlled object
  def foreign(ps, alt):
    other = [dict(p, data=jnp.where(p['mask'][:, None], p['data'], a['data']), valid=jnp.where(p['mask'][:, None], p['valid'], a['valid']))
             for p, a in zip(ps, alt)]
    return agents.merge_actions([out_of(p) for p in ps]), agents.merge_actions([out_of(p) for p in other])

  n, m = 2, 3
  mk = lambda: [{'data': V((n, 2)), 'valid': V((n, 1), 'b'), 'mask': V((n,), 'b')} for _ in range(m)]

  def fcl(i, o):
    return [c('foreign outputs ignored', T.and_([T.implies(T.or_([p['mask'][j] for p in i[0]]), T.and_(
        all_same(o[0].data[j], o[1].data[j]), all_same(o[0].valid[j], o[1].valid[j]))) for j in range(n)]))]

  hs.append(Harness('foreign', foreign, (mk(), mk()), fcl, functions=['merge_actions'], bounds='3 actors, 2 objects'))

  # actors wrapped from plain functions behave like them
  def wrapped(p, st):
    a = actor_core.actor_core_factory(init=lambda rng, s: s.timestep, select_action=lambda params, s, a_, rng: out_of(params))
    r = a.select_action(p, st, None, None)
    return a.init(None, st), r.action, r.is_controlled

  def wcl(i, o):
    return [c('init', T.eqv(scal(o[0]), scal(i[1].timestep))), c('action', T.and_(
        all_same(o[1].data, i[0]['data']), all_same(o[1].valid, i[0]['valid']), all_same(o[2], i[0]['mask'])))]

  hs.append(Harness('factory', wrapped, (mk()[0], wm.state(2, 2)), wcl, functions=['actor_core_factory'], bounds='2 objects'))
  return hs
