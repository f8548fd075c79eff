"""Environment stubs: arbitrary dynamics and actors (values are symbolic inputs)."""
import jax.numpy as jnp
import numpy as np
from dm_env import specs

from waymax import datatypes as D
from waymax import dynamics


class ArbitraryDynamics(dynamics.DynamicsModel):
  """Dynamics whose result is an arbitrary function value: the action itself.

  action.data = (x, y, yaw, vel_x, vel_y) of the next step, action.valid its validity.
  """

  def action_spec(self):
    return specs.BoundedArray((5,), jnp.float32, minimum=-np.ones(5) * 1e6, maximum=np.ones(5) * 1e6)

  def compute_update(self, action, trajectory):
    d = action.data
    return D.TrajectoryUpdate(
        x=d[..., 0:1], y=d[..., 1:2], yaw=d[..., 2:3], vel_x=d[..., 3:4], vel_y=d[..., 4:5],
        valid=action.valid)

  def inverse(self, trajectory, metadata, timestep):
    nxt = D.dynamic_slice(trajectory, timestep + 1, 1, axis=-1)
    data = jnp.concatenate([nxt.x, nxt.y, nxt.yaw, nxt.vel_x, nxt.vel_y], axis=-1)
    cur = D.dynamic_slice(trajectory, timestep, 1, axis=-1)
    return D.Action(data=data, valid=nxt.valid & cur.valid)


FIELD_OF = ('x', 'y', 'yaw', 'vel_x', 'vel_y')


from waymax.agents import actor_core  # noqa: E402


class ArbitraryActor(actor_core.WaymaxActorCore):
  """Actor whose decision is an arbitrary value: its parameters."""

  def __init__(self, name='stub'):
    self._name = name

  def init(self, rng, state):
    return jnp.zeros(())

  def select_action(self, params, state, actor_state, rng):
    return actor_core.WaymaxActorOutput(
        actor_state=actor_state + 1 if actor_state is not None else None,
        action=D.Action(data=params['data'], valid=params['valid']),
        is_controlled=params['mask'])

  @property
  def name(self):
    return self._name


import chex  # noqa: E402
import jax  # noqa: E402
from waymax.env import abstract_environment  # noqa: E402


@chex.dataclass
class TableState:
  """State of a finite machine: an index and the number of transitions taken."""
  s: jax.Array
  hops: jax.Array

  @property
  def shape(self):
    return self.s.shape

  @property
  def is_done(self):
    return self.s < 0

  def replace(self, **kw):
    return TableState(**{**{'s': self.s, 'hops': self.hops}, **kw})


def look(table, ix):
  i, rest = jnp.asarray(ix[0]), ix[1:]
  vals = [(look(table[p], rest) if rest else table[p]) for p in range(table.shape[0])]
  out = vals[-1]
  for p in range(table.shape[0] - 2, -1, -1):
    out = jnp.where(i == p, vals[p], out)
  return jnp.broadcast_to(out, jnp.broadcast_shapes(jnp.shape(out), i.shape))


@chex.dataclass
class TableObs:
  o: jax.Array
  h: jax.Array

  @property
  def shape(self):
    return self.o.shape

  @property
  def batch_dims(self):
    return self.o.shape


class TableEnv(abstract_environment.AbstractEnvironment):
  """An arbitrary environment with finitely many states and actions.

  Every function is a table of arbitrary values: reset[s], step[s][a], obs[s],
  reward[s][a], metric[s], term[s], trunc[s].
  """

  def __init__(self, tab, action_shape=(1,)):
    self.tab = tab
    self._action_shape = action_shape

  def _a(self, action):
    d = action.data if hasattr(action, 'data') else action
    d = jnp.asarray(d)
    return d.reshape(d.shape[:d.ndim - len(self._action_shape)]) if self._action_shape else d

  def reset(self, scenario, rng=None):
    return TableState(s=look(self.tab['reset'], (scenario.s,)), hops=scenario.hops * 0)

  def step(self, state, actions, rng=None):
    return TableState(s=look(self.tab['step'], (state.s, self._a(actions))), hops=state.hops + 1)

  def observe(self, state):
    return TableObs(o=look(self.tab['obs'], (state.s,)), h=state.hops)

  def reward(self, state, action):
    return look(self.tab['reward'], (state.s, self._a(action)))

  def metrics(self, state):
    return {'m': look(self.tab['metric'], (state.s,))}

  def termination(self, state):
    return look(self.tab['term'], (state.s,))

  def truncation(self, state):
    return look(self.tab['trunc'], (state.s,))

  def action_spec(self):
    s = self._action_shape or (1,)
    return D.Action(data=specs.BoundedArray(s, jnp.int32, minimum=np.zeros(s), maximum=np.ones(s)),
                    valid=specs.Array((1,), bool))

  def reward_spec(self):
    return specs.Array((), jnp.float32)

  def discount_spec(self):
    return specs.BoundedArray((), jnp.float32, minimum=0.0, maximum=1.0)

  def observation_spec(self):
    raise NotImplementedError()


class TableActor(actor_core.WaymaxActorCore):
  """An arbitrary deterministic actor: act[s][m] and the next memory mem[s][m]."""

  def init(self, rng, state):
    return look(self.first, (state.s,))

  def __init__(self, first):
    self.first = first

  def select_action(self, params, state, actor_state, rng):
    return actor_core.WaymaxActorOutput(
        actor_state=look(params['mem'], (state.s, actor_state)),
        action=D.Action(data=look(params['act'], (state.s, actor_state))[..., None], valid=jnp.ones_like(state.s, dtype=bool)[..., None]),
        is_controlled=None)

  @property
  def name(self):
    return 'table'
