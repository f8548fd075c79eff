"""Small random states for the demonstrations."""
import os
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
import sys
sys.path.insert(0, os.getcwd())
import jax
import jax.numpy as jnp
import numpy as np
from waymax import config, datatypes


def traj(rng, n, t, **kw):
  f = lambda lo=-20, hi=20: jnp.asarray(rng.uniform(lo, hi, (n, t)).astype(np.float32))
  d = dict(x=f(), y=f(), z=f(-1, 1), vel_x=f(-9, 9), vel_y=f(-9, 9), yaw=f(-3, 3),
           valid=jnp.asarray(rng.random((n, t)) < .8), timestamp_micros=jnp.tile(jnp.arange(t, dtype=jnp.int32) * 100000, (n, 1)),
           length=f(3, 5), width=f(1.5, 2.5), height=f(1, 2))
  d.update(kw)
  return datatypes.Trajectory(**d)


def state(rng, n=3, t=8, timestep=2, p=4, **kw):
  f = lambda *s: jnp.asarray(rng.uniform(-20, 20, s).astype(np.float32))
  sdc = np.zeros(n, bool)
  sdc[0] = True
  b = lambda: jnp.asarray(rng.random(n) < .5)
  md = datatypes.ObjectMetadata(ids=jnp.arange(n), object_types=jnp.ones(n, jnp.int32), is_sdc=jnp.asarray(sdc),
                                is_modeled=b(), is_valid=jnp.ones(n, bool), objects_of_interest=b(), is_controlled=b())
  rg = datatypes.RoadgraphPoints(x=f(p), y=f(p), z=f(p) * 0, dir_x=f(p) / 20, dir_y=f(p) / 20, dir_z=f(p) * 0,
                                 types=jnp.full(p, 15, jnp.int32), ids=jnp.ones(p, jnp.int32), valid=jnp.ones(p, bool))
  tl = datatypes.TrafficLights(x=f(1, t), y=f(1, t), z=f(1, t), state=jnp.ones((1, t), jnp.int32),
                               lane_ids=jnp.ones((1, t), jnp.int32), valid=jnp.ones((1, t), bool))
  pts = 5
  xy = f(2, pts)
  paths = datatypes.Paths(x=xy, y=f(2, pts), z=xy * 0, ids=jnp.ones((2, pts), jnp.int32), valid=jnp.ones((2, pts), bool),
                          arc_length=jnp.tile(jnp.arange(pts, dtype=jnp.float32), (2, 1)),
                          on_route=jnp.asarray([[True], [False]]))
  d = dict(sim_trajectory=traj(rng, n, t), log_trajectory=traj(rng, n, t), log_traffic_light=tl, object_metadata=md,
           timestep=jnp.asarray(timestep, jnp.int32), sdc_paths=paths, roadgraph_points=rg)
  d.update(kw)
  return datatypes.SimulatorState(**d)


def fail(msg):
  print('FAIL', msg)
  os._exit(1)


def check(ok, msg):
  if not bool(ok):
    fail(msg)
