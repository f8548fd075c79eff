"""Symbolic waymax inputs."""
import jax.numpy as jnp
import numpy as np

from svx.harness import V
from waymax import datatypes as D

B = 100  # default coordinate bound (m)


def traj(n, t, lim=B, ts=True, dims=(0, 10), vel=30, yaw=4, batch=()):
  f = lambda lo, hi: V(batch + (n, t), 'f', lo, hi)
  return D.Trajectory(
      x=f(-lim, lim), y=f(-lim, lim), z=f(-lim, lim), vel_x=f(-vel, vel), vel_y=f(-vel, vel),
      yaw=f(-yaw, yaw), valid=V(batch + (n, t), 'b'),
      timestamp_micros=V(batch + (n, t), 'i', 0, 2**20),
      length=f(*dims), width=f(*dims), height=f(*dims))


def metadata(n, batch=()):
  b = lambda: V(batch + (n,), 'b')
  return D.ObjectMetadata(
      ids=V(batch + (n,), 'i', 0, 1000), object_types=V(batch + (n,), 'i', 0, 4), is_sdc=b(),
      is_modeled=b(), is_valid=b(), objects_of_interest=b(), is_controlled=b())


def roadgraph(p, lim=B, batch=(), types=(0, 20)):
  f = lambda lo, hi: V(batch + (p,), 'f', lo, hi)
  return D.RoadgraphPoints(
      x=f(-lim, lim), y=f(-lim, lim), z=f(-lim, lim), dir_x=f(-1, 1), dir_y=f(-1, 1), dir_z=f(-1, 1),
      types=V(batch + (p,), 'i', *types), ids=V(batch + (p,), 'i', 0, 1000), valid=V(batch + (p,), 'b'))


def tls(n, t, lim=B, batch=()):
  f = lambda: V(batch + (n, t), 'f', -lim, lim)
  return D.TrafficLights(x=f(), y=f(), z=f(), state=V(batch + (n, t), 'i', 0, 8),
                         lane_ids=V(batch + (n, t), 'i', 0, 1000), valid=V(batch + (n, t), 'b'))


def paths(k, p, lim=B, batch=()):
  f = lambda lo, hi: V(batch + (k, p), 'f', lo, hi)
  return D.Paths(x=f(-lim, lim), y=f(-lim, lim), z=f(-lim, lim), ids=V(batch + (k, p), 'i', 0, 1000),
                 valid=V(batch + (k, p), 'b'), arc_length=f(0, 1000),
                 on_route=V(batch + (k, 1), 'b'))


def state(n=2, t=4, p=3, tl=1, k=1, pl=2, tmin=0, tmax=None, lim=B, timestep=None, batch=(),
          with_paths=True, **kw):
  return D.SimulatorState(
      sim_trajectory=traj(n, t, lim, batch=batch, **kw), log_trajectory=traj(n, t, lim, batch=batch, **kw),
      log_traffic_light=tls(tl, t, lim, batch=batch), object_metadata=metadata(n, batch=batch),
      timestep=V(batch, 'i', tmin, t - 1 if tmax is None else tmax) if timestep is None else jnp.int32(timestep),
      sdc_paths=paths(k, pl, lim, batch=batch) if with_paths else None,
      roadgraph_points=roadgraph(p, lim, batch=batch))


TRAJ_FIELDS = ('x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'valid', 'timestamp_micros', 'length', 'width', 'height')
