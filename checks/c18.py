"""C18: rewards and metric dispatch."""
import itertools

from checks.common import *
from waymax import rewards

NAMES = ('log_divergence', 'overlap', 'offroad', 'kinematic_infeasibility')
SDC_NAMES = ('sdc_wrongway', 'sdc_progression', 'sdc_off_route')


class Arbitrary(metrics.AbstractMetric):
  """Metric whose result is an arbitrary value stored in the state."""

  def __init__(self, get):
    self.get = get

  def compute(self, st):
    return self.get(st)


_reg = []


def arb(k):
  """Registers arbitrary metrics reading log height / sim height fields."""
  if not _reg:
    for j in range(3):
      metrics.register_metric(f'arb{j}', Arbitrary(lambda st, j=j: metrics.MetricResult(
          value=st.log_trajectory.height[:, j], valid=st.log_trajectory.valid[:, j])))
    _reg.append(1)
  return [f'arb{j}' for j in range(k)]


def harnesses(tier):
  hs = []
  names = arb(3)
  n = 2 if tier == 'quick' else 3
  st = wm.state(n, 3, with_paths=False)
  wsets = [(1.0,), (-1.0, 0.5), (2.0, 0.0, -3.25)]
  for ws in wsets:
    for order in ([0, 1, 2], [2, 0, 1]):
      use = [names[order[j]] for j in range(len(ws))]
      idx = order[:len(ws)]

      def run(st, mask, act, ws=ws, use=use):
        r = rewards.LinearCombinationReward(config.LinearCombinationRewardConfig(rewards=dict(zip(use, ws))))
        return r.compute(st, act, mask)

      def claims(i, o, ws=ws, idx=idx):
        st, mask, _ = i
        val, zero = [], []
        for j in range(n):
          tot = F(0)
          for w, m in zip(ws, idx):
            tot = T.add(tot, T.ite(st.log_trajectory.valid[j, m], T.mul(num(w), st.log_trajectory.height[j, m]), F(0)))
          val.append(T.implies(mask[j], T.close(o[j], tot)))
          zero.append(T.implies(T.not_(mask[j]), T.eqv(o[j], F(0))))
        return [c('weighted sum of the valid metrics', T.and_(val)), c('zero for objects that do not act', T.and_(zero))]

      hs.append(Harness(f'linear_{"_".join(map(str, idx))}', run, (st, V((n,), 'b'), action(n, 2)), claims,
                        functions=['LinearCombinationReward.compute', 'run_metrics', 'MetricResult.masked_value'],
                        bounds=f'{n} objects, weights {ws}, arbitrary metric values and validity'))

  # environment reward uses the control mask, and is zero when disabled
  for kind in CONTROL_KINDS:
    for on in (True, False):
      def run(st, act, kind=kind, on=on):
        e = env.BaseEnvironment(dynamics.StateDynamics(), env_cfg(n, controlled_object=obj(kind), compute_reward=on,
                                init_steps=1, rewards=config.LinearCombinationRewardConfig(rewards={names[0]: -2.0})))
        return e.reward(st, act)

      def claims(i, o, kind=kind, on=on):
        st = i[0]
        mask = {'VALID': st.object_metadata.is_valid, 'SDC': st.object_metadata.is_sdc,
                'MODELED': st.object_metadata.is_modeled}[kind]
        if not on:
          return [c('zeros of the specified shape', T.and_([T.eqv(o[j], F(0)) for j in range(n)] + [o.shape == (n,)]))]
        return [c('reward of the acting objects', T.and_([T.close(o[j], T.ite(T.and_(
            mask[j], st.log_trajectory.valid[j, 0]), T.mul(-2, st.log_trajectory.height[j, 0]), F(0))) for j in range(n)]))]

      hs.append(Harness(f'env_reward_{kind}_{"on" if on else "off"}', run, (st, action(n, 5)), claims,
                        functions=['BaseEnvironment.reward', 'get_control_mask'], bounds=f'{n} objects, {kind}'))

  def preward(st, act, on=True):
    e = env.PlanningAgentEnvironment(dynamics.StateDynamics(), env_cfg(
        n, controlled_object=obj('SDC'), compute_reward=on, init_steps=1,
        rewards=config.LinearCombinationRewardConfig(rewards={names[0]: -2.0})))
    return e.reward(st, act)

  for on in (True, False):
    def claims(i, o, on=on):
      st = i[0]
      v = sdc_pick(st.object_metadata, [T.ite(st.log_trajectory.valid[j, 0], T.mul(-2, st.log_trajectory.height[j, 0]), F(0))
                                        for j in range(n)])
      return [c('reward of the self-driving car', T.close(scal(o), v if on else F(0)))]
    hs.append(Harness(f'planning_reward_{"on" if on else "off"}', lambda s, a, on=on: preward(s, a, on),
                      (planning_state(st), action(1, 5)), claims, assume=lambda i: [one_sdc(i[0].object_metadata)],
                      functions=['PlanningAgentEnvironment.reward'], bounds=f'{n} objects'))

  # exactly the requested metrics, each the same as alone
  single = {'log_divergence': metrics.LogDivergenceMetric, 'overlap': metrics.OverlapMetric, 'offroad': metrics.OffroadMetric,
            'sdc_wrongway': metrics.WrongWayMetric, 'sdc_progression': metrics.ProgressionMetric,
            'sdc_off_route': metrics.OffRouteMetric}
  from waymax.metrics import comfort
  single['kinematic_infeasibility'] = comfort.KinematicsInfeasibilityMetric
  yaw = jnp.asarray(np.linspace(-1, 1, 4).reshape(2, 2), jnp.float32)
  full = wm.state(2, 2, timestep=1, p=1, k=1, pl=2)
  full = full.replace(sim_trajectory=full.sim_trajectory.replace(yaw=yaw))
  sets = [('overlap', 'log_divergence'), ('sdc_progression', 'sdc_wrongway', 'sdc_off_route'),
          ('kinematic_infeasibility', 'offroad')]
  if tier != 'quick':
    sets += [tuple(single)]
  for ms in sets:
    def run(st, ms=ms):
      a = metrics.run_metrics(st, config.MetricsConfig(metrics_to_run=ms))
      b = {m: single[m]().compute(st) for m in ms}
      return {m: (a[m].value, a[m].valid) for m in a}, {m: (b[m].value, b[m].valid) for m in b}

    def claims(i, o, ms=ms):
      a, b = o
      return [c('exactly the requested metrics', set(a) == set(ms))] + [
          c(f'{m} as computed alone', T.and_(all_same(a[m][0], b[m][0]), all_same(a[m][1], b[m][1]))) for m in ms if m in a]

    hs.append(Harness('run_' + '_'.join(m[:7] for m in ms), run, (full,), claims, functions=['run_metrics'],
                      bounds='2 objects, 2 steps, 1 map point, 1 route', samples=1))
  return hs
