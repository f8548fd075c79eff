S = []


def s(id, property, edits, needs, breaks, demo):
  S.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


s('c03_reappear', 'C03', [('dynamics/abstract_dynamics.py', """  exist_and_controlled = is_controlled & current_traj.valid
""", """  exist_and_controlled = is_controlled & (
      current_traj.valid | default_next_traj.valid
  )
""")], 'a controlled object absent at the current step but present in the log at the next step, injection allowed',
  'With injection allowed a controlled object absent now is meant to enter with the log; it is kept out instead.', """
from waymax.dynamics import StateDynamics
rng = np.random.default_rng(0)
t = traj(rng, 2, 3, valid=jnp.zeros((2, 3), bool))
log = traj(rng, 2, 3, valid=jnp.ones((2, 3), bool))
a = datatypes.Action(data=jnp.ones((2, 5)), valid=jnp.ones((2, 1), bool))
o = StateDynamics().forward(a, t, log, jnp.array([True, False]), 0, allow_object_injection=True)
check(o.valid[1, 1], 'uncontrolled not injected')
check(o.valid[0, 1], 'controlled object does not enter')
""")

s('c02_mask_valid', 'C02', [('env/base_environment.py', """        index=config.init_steps - 1,
""", """        index=state.timestep,
""")], 'objects that become invalid after the warm-up while control is given to all valid objects',
  'The set of controlled objects follows current validity instead of validity at the end of warm-up.', """
from waymax import dynamics, env
rng = np.random.default_rng(1)
v = np.ones((3, 8), bool)
v[1, 3] = False
st = state(rng, 3, 8, timestep=3)
st = st.replace(sim_trajectory=st.sim_trajectory.replace(valid=jnp.asarray(v)), log_trajectory=st.log_trajectory.replace(valid=jnp.ones((3, 8), bool)))
e = env.BaseEnvironment(dynamics.StateDynamics(), config.EnvironmentConfig(max_num_objects=3, init_steps=3, allow_new_objects_after_warmup=False, controlled_object=config.ObjectType.VALID))
a = datatypes.Action(data=jnp.full((3, 5), 7.0), valid=jnp.ones((3, 1), bool))
o = e.step(st, a)
check(np.allclose(o.sim_trajectory.x[:, 4], 7.0), 'object controlled since warm-up is no longer controlled')
""")

s('c07_halfaccel', 'C07', [('dynamics/bicycle_model.py', """    delta_yaw = steering * (speed * t + 0.5 * accel * t**2)
""", """    distance = speed * t + 0.5 * accel * t**2
    delta_yaw = steering * jnp.maximum(distance, 0.0)
""")], 'hard braking at very low speed so that the vehicle rolls backwards within a step while steering',
  'Heading change uses the distance travelled clipped at zero.', """
from waymax.dynamics import InvertibleBicycleModel
one = jnp.ones((1, 1))
t = datatypes.Trajectory(x=one, y=one, z=one, vel_x=one * 0.1, vel_y=one * 0, yaw=one * 0, valid=one > 0, timestamp_micros=jnp.zeros((1, 1), jnp.int32), length=one, width=one, height=one)
u = InvertibleBicycleModel().compute_update(datatypes.Action(data=jnp.array([[-6.0, 0.3]]), valid=jnp.ones((1, 1), bool)), t)
check(abs(float(u.yaw[0, 0]) - 0.3 * (0.01 - 0.03)) < 1e-5, 'yaw %s' % u.yaw)
""")

s('c08_wrapyaw', 'C08', [('dynamics/bicycle_model.py', """  delta_yaw = geometry.wrap_yaws(real_new_yaw - yaw)
""", """  delta_yaw = real_new_yaw - yaw
""")], 'a heading change that crosses the +-pi cut',
  'The inverse steering is computed from an unwrapped heading difference.', """
from waymax.dynamics import InvertibleBicycleModel
m = InvertibleBicycleModel()
for yaw in (3.13, -3.13, 0.4):
  for steer in (0.05, -0.05):
    z = jnp.zeros((1, 2))
    f = lambda v: jnp.full((1, 2), v, jnp.float32)
    t = datatypes.Trajectory(x=z, y=z, z=z, vel_x=f(8 * np.cos(yaw)), vel_y=f(8 * np.sin(yaw)), yaw=f(yaw), valid=f(1) > 0, timestamp_micros=jnp.zeros((1, 2), jnp.int32), length=f(1), width=f(1), height=f(1))
    o = m.forward(datatypes.Action(data=jnp.array([[1.0, steer]]), valid=jnp.ones((1, 1), bool)), t, t, jnp.array([True]), 0)
    a = m.inverse(o, None, 0)
    check(np.allclose(a.data[0], [1.0, steer], atol=2e-2), 'inverse %s' % a.data)
""")

s('c06_clipyaw', 'C06', [('dynamics/delta.py', """        self.action_spec().minimum[1],
        self.action_spec().maximum[1],
    )
    yaw = geometry.wrap_yaws(action[..., 2])
    return jnp.stack([x, y, yaw], axis=-1)

  def inverse(
      self,
      trajectory: datatypes.Trajectory,
      metadata: datatypes.ObjectMetadata,
      timestep: int,
  ) -> datatypes.Action:
    \"\"\"Runs inverse dynamics""", """        self.action_spec().minimum[0],
        self.action_spec().maximum[1],
    )
    yaw = geometry.wrap_yaws(action[..., 2])
    return jnp.stack([x, y, yaw], axis=-1)

  def inverse(
      self,
      trajectory: datatypes.Trajectory,
      metadata: datatypes.ObjectMetadata,
      timestep: int,
  ) -> datatypes.Action:
    \"\"\"Runs inverse dynamics""")], '', '', '')

s('c04_reset_planning', 'C04', [('env/planning_agent_environment.py', """    state = datatypes.update_state_by_log(
        state_uninitialized, self.config.init_steps
    )
    state = PlanningAgentSimulatorState(**state)
""", """    state = datatypes.update_state_by_log(
        state_uninitialized, max(self.config.init_steps, 2)
    )
    state = PlanningAgentSimulatorState(**state)
""")], 'a warm-up of a single step', 'With init_steps=1 the planning environment starts one step late.', """
from waymax import dynamics, env
rng = np.random.default_rng(1)
for k in (1, 2, 5):
  e = env.PlanningAgentEnvironment(dynamics.DeltaLocal(), config.EnvironmentConfig(max_num_objects=3, init_steps=k, controlled_object=config.ObjectType.SDC))
  o = e.reset(state(rng, 3, 8, timestep=4))
  check(int(o.timestep) == k - 1, 'reset timestep %s for %d' % (o.timestep, k))
""")

s('c19_kim_mask', 'C19', [('env/planning_agent_environment.py', """      controlled_by_sim = agent_output.is_controlled & is_controllable
""", """      controlled_by_sim = (
          agent_output.is_controlled & is_controllable & ~merged_controlled
      )
""")], 'two simulated agents claiming the same object', 'A later simulated agent no longer overrides an earlier one.', """
from waymax import dynamics, env, agents
rng = np.random.default_rng(1)
st = state(rng, 3, 8)
far = jnp.asarray([[0.0], [100.0], [200.0]]) + jnp.zeros((3, 8))
st = st.replace(log_trajectory=st.log_trajectory.replace(x=far, valid=far > -1), sim_trajectory=st.sim_trajectory.replace(valid=far > -1))
m = lambda v: agents.create_constant_speed_actor(dynamics.StateDynamics(), lambda s: ~s.object_metadata.is_sdc, speed=v)
e = env.PlanningAgentEnvironment(dynamics.DeltaLocal(), config.EnvironmentConfig(max_num_objects=3, init_steps=2, controlled_object=config.ObjectType.SDC), [m(1.0), m(5.0)], [{}, {}])
s0 = e.reset(st)
o = e.step(s0, datatypes.Action(data=jnp.zeros(3), valid=jnp.ones(1, bool)))
k = int(o.timestep)
v = np.hypot(o.sim_trajectory.vel_x[1:, k], o.sim_trajectory.vel_y[1:, k])
check(np.allclose(v, 5.0, atol=1e-3), 'speeds %s' % v)
""")

s('c21_leader', 'C21', [('agents/waypoint_following_agent.py', """    s_star = self.min_spacing_s0 + jnp.maximum(
        0,
        cur_speed * self.safe_time_headway
        + cur_speed
        * (cur_speed - lead_vel)
        / (2 * jnp.sqrt(self.max_accel * self.max_decel)),
    )
""", """    s_star = self.min_spacing_s0 + jnp.maximum(
        0,
        cur_speed * self.safe_time_headway
        + cur_speed
        * jnp.maximum(0, cur_speed - lead_vel)
        / (2 * jnp.sqrt(self.max_accel * self.max_decel)),
    )
""")], 'a leader that drives away faster than the follower', 'The gap term ignores that the leader is faster.', """
from waymax import agents
f = lambda *v: jnp.asarray(v, jnp.float32)[:, None] + jnp.zeros((len(v), 2))
z = f(0, 0)
t = datatypes.Trajectory(x=f(0, 5.0), y=z, z=z, vel_x=f(10, 14), vel_y=z, yaw=z, valid=z > -1, timestamp_micros=jnp.zeros((2, 2), jnp.int32), length=f(1, 1), width=f(1, 1), height=f(1, 1))
st = state(np.random.default_rng(0), 2, 2, timestep=0).replace(sim_trajectory=t, log_trajectory=t)
p = agents.IDMRoutePolicy()
s, _ = p.update_speed(st)
sstar = 2 + max(0, 10 * 2 + 10 * (10 - 14) / (2 * np.sqrt(8)))
# the boxes touch from the path point at 5 m (or 4 m) on
want = [10 + 0.1 * 2 * (1 - (10 / 30) ** 4 - (sstar / d) ** 2) for d in (4.0, 5.0)]
check(any(abs(float(s[0]) - max(0, w)) < 1e-2 for w in want), 'speed %s, expected one of %s' % (s[0], want))
""")

s('c17_progress', 'C17', [('datatypes/route.py', '', '')], '', '', '')
S = [x for x in S if x['demo']]
