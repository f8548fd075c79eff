"""C09: expert actions replay the log."""
from checks.common import *
from waymax.agents import actor_core, expert

SD = dynamics.StateDynamics


def log_at(st, f, j, k):
  return at(getattr(st.log_trajectory, f)[j], k)


def harnesses(tier):
  n, t = (2, 4) if tier == 'quick' else (3, 6)
  hs = []

  def iclaims(i, o):
    tr, _, ts = i
    nx = T.add(scal(ts), 1)
    out = [c(f'{f} of the next step', T.and_([T.same(o.data[j, k], at(getattr(tr, f)[j], nx))
                                              for j in range(n)])) for k, f in enumerate(FIELD_OF)]
    return out + [c('valid as logged', T.and_([T.iff(o.valid[j, 0], at(tr.valid[j], nx)) for j in range(n)]))]

  hs.append(Harness('state_dynamics_inverse', lambda tr, md, ts: SD().inverse(tr, md, ts),
                    (wm.traj(n, t), wm.metadata(n), V((), 'i', 0, t - 2)), iclaims,
                    functions=['StateDynamics.inverse'], bounds=f'{n} objects, {t} steps'))

  def uclaims(i, o):
    act, _ = i
    return [c(f'{f} set to the action', T.and_([T.same(getattr(o, f)[j, 0], act.data[j, k]) for j in range(n)]))
            for k, f in enumerate(FIELD_OF)] + [
                c('valid as the action', T.and_([T.iff(o.valid[j, 0], act.valid[j, 0]) for j in range(n)]))]

  hs.append(Harness('state_dynamics_update', lambda a, tr: SD().compute_update(a, tr),
                    (action(n, 5), wm.traj(n, 1)), uclaims, functions=['StateDynamics.compute_update'],
                    bounds=f'{n} objects'))

  # the expert action goes from the simulated now to the logged next
  def eclaims(i, o):
    st = i[0]
    nx = T.add(scal(st.timestep), 1)
    out = []
    for k, f in enumerate(FIELD_OF):
      out.append(c(f'expert {f}', T.and_([T.same(o.data[j, k], log_at(st, f, j, nx)) for j in range(n)])))
    return out

  hs.append(Harness('expert_state_action', lambda st: expert.infer_expert_action(st, SD()),
                    (wm.state(n, t, tmax=t - 2),), eclaims, functions=['infer_expert_action'],
                    bounds=f'{n} objects, {t} steps, any timestep'))

  def dclaims(i, o):
    st = i[0]
    ts = scal(st.timestep)
    nx = T.add(ts, 1)
    xs, ys, hd, vl = [], [], [], []
    for j in range(n):
      ok = T.and_(at(st.sim_trajectory.valid[j], ts), log_at(st, 'valid', j, nx))
      for f, k, acc in (('x', 0, xs), ('y', 1, ys)):
        d = T.sub(log_at(st, f, j, nx), at(getattr(st.sim_trajectory, f)[j], ts))
        acc.append(T.implies(T.and_(ok, within(d, -6, 6)), T.close(o.data[j, k], d)))
      hd.append(T.implies(ok, ang(o.data[j, 2], T.sub(log_at(st, 'yaw', j, nx), at(st.sim_trajectory.yaw[j], ts)))))
      vl.append(T.iff(o.valid[j, 0], ok))
    return [c('x offset to the log', T.and_(xs)), c('y offset to the log', T.and_(ys)),
            c('turn to the log', T.and_(hd)), c('valid iff valid now and logged next', T.and_(vl))]

  hs.append(Harness('expert_delta_action', lambda st: expert.infer_expert_action(st, dynamics.DeltaGlobal()),
                    (wm.state(n, t, tmax=t - 2),), dclaims, functions=['infer_expert_action', 'DeltaGlobal.inverse'],
                    bounds=f'{n} objects, {t} steps, any timestep'))

  # the bicycle expert: validity and acceleration
  def bclaims(i, o):
    st = i[0]
    ts = int(T.fnum(1.0))
    nx = ts + 1
    ac, vl = [], []
    for j in range(n):
      ok = T.and_(st.sim_trajectory.valid[j, ts], st.log_trajectory.valid[j, nx])
      v0 = T.sqrt(norm2(st.sim_trajectory.vel_x[j, ts], st.sim_trajectory.vel_y[j, ts]))
      v1 = T.sqrt(norm2(st.log_trajectory.vel_x[j, nx], st.log_trajectory.vel_y[j, nx]))
      ac.append(T.implies(ok, T.close(o.data[j, 0], clip(T.mul(10, T.sub(v1, v0)), -6, 6))))
      vl.append(T.iff(o.valid[j, 0], ok))
    return [c('speed change to the log', T.and_(ac)), c('valid iff valid now and logged next', T.and_(vl))]

  hs.append(Harness('expert_bicycle_action',
                    lambda st: expert.infer_expert_action(st, dynamics.InvertibleBicycleModel()),
                    (wm.state(n, t, timestep=1),), bclaims,
                    functions=['infer_expert_action', 'InvertibleBicycleModel.inverse'],
                    bounds=f'{n} objects, {t} steps, timestep 1'))

  # actor
  for name, fn, spec in (
      ('sdc', None, lambda st: st.object_metadata.is_sdc),
      ('modeled', lambda st: st.object_metadata.is_modeled, lambda st: st.object_metadata.is_modeled)):
    actor = expert.create_expert_actor(SD(), **({} if fn is None else dict(is_controlled_func=fn)))

    def act(st, actor=actor):
      o = actor.select_action({}, st, None, None)
      return o.action.data, o.action.valid, o.is_controlled, expert.infer_expert_action(st, SD())

    def aclaims(i, o, spec=spec):
      return [c('actor action is the expert action', T.and_(all_same(o[0], o[3].data), all_same(o[1], o[3].valid))),
              c('controls the requested objects', all_same(o[2], spec(i[0])))]

    hs.append(Harness(f'actor_{name}', act, (wm.state(n, t, tmax=t - 2),), aclaims,
                      functions=['create_expert_actor'], bounds=f'{n} objects', samples=1))

  # replaying the whole log
  steps = t - 2
  for kind in CONTROL_KINDS:
    e = env.BaseEnvironment(SD(), env_cfg(n, controlled_object=obj(kind)))
    actor = expert.create_expert_actor(SD(), is_controlled_func=lambda st: st.object_metadata.is_valid)

    def replay(st, e=e, actor=actor):
      s = e.reset(st)
      for _ in range(steps):
        s = e.step(s, actor.select_action({}, s, None, None).action)
      return s

    def rclaims(i, o):
      st = i[0]
      return [c(f'{f} replays the log', T.and_([
          T.same(getattr(o.sim_trajectory, f)[j, k], getattr(st.log_trajectory, f)[j, k])
          for j in range(n) for k in range(steps + 2)])) for f in FIELD_OF] + [
              c('ends at the horizon', T.same(scal(o.timestep), steps + 1))]

    hs.append(Harness(f'replay_{kind}', replay, (wm.state(n, t, timestep=0),), rclaims,
                      functions=['BaseEnvironment.reset', 'BaseEnvironment.step', 'create_expert_actor'],
                      bounds=f'{n} objects, whole episode of {t} steps', samples=1))

  # delta dynamics: positions replay while motions stay in bounds
  e = env.BaseEnvironment(dynamics.DeltaGlobal(), env_cfg(1, controlled_object=obj('SDC')))
  actor = expert.create_expert_actor(dynamics.DeltaGlobal())

  def dreplay(st):
    s = e.reset(st)
    for _ in range(2):
      s = e.step(s, actor.select_action({}, s, None, None).action)
    return s

  def in_bounds(i):
    lg = i[0].log_trajectory
    return ([lg.valid[0, k] for k in range(4)] +
            [within(T.sub(getattr(lg, f)[0, k + 1], getattr(lg, f)[0, k]), -6, 6) for f in 'xy' for k in (1, 2)])

  hs.append(Harness('replay_delta', dreplay, (wm.state(1, 4, timestep=0),),
                    lambda i, o: [c(f'{f} replays the log', T.and_([T.close(
                        getattr(o.sim_trajectory, f)[0, k], getattr(i[0].log_trajectory, f)[0, k])
                                                                    for k in range(4)])) for f in 'xy'],
                    assume=in_bounds, prune=True, functions=['BaseEnvironment.step', 'DeltaGlobal', 'create_expert_actor'],
                    bounds='one object, two steps, motions within the bounds', samples=1))
  return hs
