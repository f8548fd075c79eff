"""Shared harness pieces."""
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np

from svx import terms as T
from svx import wm
from svx.harness import (Harness, V, all_close, all_same, c, tree_same)
from svx.stubs import FIELD_OF, ArbitraryDynamics
from waymax import agents, config, datatypes, dynamics, env, metrics

F = Fraction
TF = wm.TRAJ_FIELDS


def action(n, dim, lim=100, batch=()):
  return datatypes.Action(data=V(batch + (n, dim), 'f', -lim, lim), valid=V(batch + (n, 1), 'b'))


def env_cfg(n, **kw):
  kw.setdefault('init_steps', 2)
  return config.EnvironmentConfig(max_num_objects=n, **kw)


def scal(a):
  return np.asarray(a, dtype=object).reshape(-1)[0]


def at(row, t):
  """row[t] for a symbolic (in range) t."""
  return T.pick(list(row), t)


def control_mask(st, kind, allow_new, init_steps):
  """Spec of which objects the environment lets the action control."""
  md = st.object_metadata
  if kind == 'VALID' and not allow_new:
    return [r[init_steps - 1] for r in st.sim_trajectory.valid]
  return list({'VALID': md.is_valid, 'SDC': md.is_sdc, 'MODELED': md.is_modeled}[kind])


CONTROL_KINDS = ('VALID', 'SDC', 'MODELED')


def obj(kind):
  return getattr(config.ObjectType, kind)


def planning_state(st, n_agents=0):
  return env.PlanningAgentSimulatorState(
      **{k: getattr(st, k) for k in ('sim_trajectory', 'log_trajectory', 'log_traffic_light',
                                     'object_metadata', 'timestep', 'sdc_paths', 'roadgraph_points')},
      sim_agent_actor_states=[V((), 'i', 0, 5) for _ in range(n_agents)])


def agent_params(n, dim=5, lim=100):
  return {'data': V((n, dim), 'f', -lim, lim), 'valid': V((n, 1), 'b'), 'mask': V((n,), 'b')}


def one_sdc(md):
  """Exactly one self-driving car."""
  n = len(md.is_sdc)
  ones = [T.and_([md.is_sdc[j] if j == i else T.not_(md.is_sdc[j]) for j in range(n)]) for i in range(n)]
  return T.or_(ones)


def sdc_pick(md, row):
  """row[index of the self-driving car] (exactly one assumed)."""
  r = row[-1]
  for i in range(len(row) - 2, -1, -1):
    r = T.ite(md.is_sdc[i], row[i], r)
  return r


PI = T.PI


def wrap(a):
  """Equivalent angle in [-pi, pi)."""
  return T.sub(T.floor_mod_real(T.add(a, PI), 2 * PI), PI)


def ang(w, a):
  """w is the wrapped version of angle a (either end of the cut tolerated)."""
  t = wrap(a)
  r = T.close(w, t)
  if r is True:
    return True
  return T.or_(r, T.close(w, T.add(t, 2 * PI)), T.close(w, T.sub(t, 2 * PI)))


def same_angle(a, b):
  """a and b point in the same direction (equal modulo full turns)."""
  return ang(wrap(a), b)


def clip(v, lo, hi):
  return T.minv(T.maxv(v, lo), hi)


def num(v):
  """Exact reading of a configured float."""
  return F(str(v)) if isinstance(v, float) else F(v)


def within(v, lo, hi):
  return T.and_(T.le(lo, v), T.le(v, hi))


def norm2(x, y):
  return T.add(T.mul(x, x), T.mul(y, y))


def rot(c_, s_, x, y):
  """(x, y) turned by the angle with cosine c_ and sine s_."""
  return T.sub(T.mul(c_, x), T.mul(s_, y)), T.add(T.mul(s_, x), T.mul(c_, y))


def one_step_traj(n, **kw):
  return wm.traj(n, 1, **kw)
