"""Writes properties.jsonl (one place to edit the property texts)."""
import json
import os

P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None):
  d = dict(id=id, title=title, statement=statement,
           quantifier=dict(over=over, text=qtext), why_tests_cant=why,
           anchors=dict(files=['waymax/' + f for f in files],
                        mechanism=[dict(name=n, where=w) for n, w in mech]))
  P.append(d)


p('C01', 'Stepping writes only the next time slice of the simulation',
  'Stepping an environment advances the current timestep by exactly one and may change the simulated trajectory only at the timestep that follows the current one. Every other simulated timestep, the logged trajectory, traffic lights, roadgraph, routes and object metadata are returned exactly as they were given. This holds for the multi-agent and the planning-agent environment, for every controlled-object setting, action and current timestep.',
  ['inputs', 'configurations', 'histories'], 'all states, timesteps, actions, dynamics results, control settings, both environments',
  'A stray write into history, the log or another field is a silent corruption that shows only for particular timesteps and settings; the environment tests need data files that are absent, so nothing exercises it.',
  ['env/base_environment.py', 'env/planning_agent_environment.py', 'dynamics/abstract_dynamics.py', 'datatypes/operations.py'],
  [('step', 'env/base_environment.py: BaseEnvironment.step'), ('write-back of one slice', 'dynamics/abstract_dynamics.py: apply_trajectory_update_to_state')])

p('C02', 'Uncontrolled objects replay the log; controlled ones take the dynamics result',
  'After a step, every object the environment does not control has at the new timestep exactly the position, heading and velocity recorded in the log for that timestep, whatever action was supplied for it, while every controlled object has exactly the values produced by the dynamics model. All objects carry the logged timestamp of the new timestep, and height coordinate and box dimensions stay those of the current timestep. Which objects are controlled is fixed by the controlled-object setting: the self-driving car, the modeled objects, or the valid objects (those simulated as valid at the last warm-up step unless new objects may appear).',
  ['inputs', 'configurations'], 'all states, actions, control masks, settings and timesteps',
  'The choice is made per object and per field behind a mask; the few sampled rollouts with data cannot run here and would not cover mixed masks.',
  ['dynamics/abstract_dynamics.py', 'env/base_environment.py', 'datatypes/operations.py', 'datatypes/object_state.py'],
  [('field replacement', 'dynamics/abstract_dynamics.py: apply_trajectory_update_to_state'), ('control mask', 'env/base_environment.py: _get_control_mask'), ('mask by object type', 'datatypes/object_state.py: get_control_mask')])

p('C03', 'Objects neither vanish under control nor appear unless injection is allowed',
  'A controlled object that is valid at the current timestep is still valid after a step. Any other object is valid after the step only if the log has it valid at the new timestep and, unless the configuration allows new objects after warm-up, only if it was already valid. With injection allowed, such an object is valid after the step exactly when the log says so.',
  ['inputs', 'configurations', 'histories'], 'all validity histories, control masks, both injection settings',
  'Validity is a boolean function of four independent masks per object; tests fix one pattern.',
  ['dynamics/abstract_dynamics.py', 'env/base_environment.py'],
  [('next validity', 'dynamics/abstract_dynamics.py: apply_trajectory_update_to_state')])

p('C04', 'Reset starts from the log and forgets everything else',
  'Resetting an environment returns a state positioned at the last warm-up step whose simulated trajectory equals the log for all warm-up steps and is marked invalid with placeholder values from then on. The result does not depend on the simulated trajectory or timestep of the state passed in, and leaves the log, map, routes and metadata unchanged. Advancing a state by log copies exactly the requested number of next logged timesteps into the simulation and moves the timestep by that number.',
  ['inputs', 'configurations'], 'all states, all warm-up lengths within the bound, any earlier simulation content',
  'Reset is only tested with data files that are missing; the off-by-one choices (timestep, first invalid column) differ for each warm-up length.',
  ['env/base_environment.py', 'env/planning_agent_environment.py', 'datatypes/simulator_state.py', 'datatypes/object_state.py'],
  [('reset', 'env/base_environment.py: BaseEnvironment.reset'), ('log update', 'datatypes/simulator_state.py: update_state_by_log'), ('invalid fill', 'datatypes/object_state.py: fill_invalid_trajectory')])

p('C05', 'Episode end, remaining steps and discount agree',
  'A state is done exactly when its timestep is the last one of the trajectory, and the number of remaining timesteps counts down to zero there, so a freshly reset episode ends after exactly that many steps. The environments truncate exactly when no timestep remains, never terminate before that, and the discount offered to the learner is zero exactly on termination and one otherwise.',
  ['histories', 'inputs', 'configurations'], 'all timesteps and trajectory lengths within the bound, all reset/step sequences up to the horizon',
  'Off-by-one errors at the horizon appear only at the final step of a full episode, which no runnable test reaches.',
  ['datatypes/simulator_state.py', 'env/base_environment.py', 'env/abstract_environment.py', 'env/planning_agent_environment.py'],
  [('horizon', 'datatypes/simulator_state.py: is_done, remaining_timesteps'), ('truncation / termination', 'env/abstract_environment.py')])

p('C06', 'Delta dynamics move by the commanded offset and invert exactly',
  'With delta dynamics an object moves by exactly the commanded offset in the global frame, or the offset rotated by its current heading in the local variant, its heading changes by the commanded angle, and its velocity is the displacement per time step. The inverse of an observed motion lies within the action bounds, forward dynamics maps it back onto that motion whenever the motion is within the bounds, and it is valid exactly when both end points are valid.',
  ['inputs'], 'all poses, actions in and out of bounds, validity patterns',
  'Frame mistakes (sign or direction of rotation) cancel for axis-aligned samples; no delta dynamics test is runnable.',
  ['dynamics/delta.py'],
  [('forward', 'dynamics/delta.py: DeltaGlobal.compute_update, DeltaLocal.compute_update'), ('inverse', 'dynamics/delta.py: inverse')])

p('C07', 'Bicycle model integrates acceleration and steering as specified',
  'The bicycle model advances position by current velocity times the step plus half the acceleration along the current heading, changes heading by steering curvature times distance travelled (wrapped into [-pi, pi)), and sets the new velocity to the new speed along the new heading. Acceleration and steering are clipped to the action bounds first, normalized actions are scaled by the configured maxima, and the result is valid exactly when both the object and the action are valid.',
  ['inputs', 'configurations'], 'all object states, actions in and out of range, normalized or not, all configured maxima and step lengths within bounds',
  'The kinematics is a continuous map; tests sample one state and cannot separate compensating errors in heading, clipping and scaling.',
  ['dynamics/bicycle_model.py', 'utils/geometry.py'],
  [('kinematics', 'dynamics/bicycle_model.py: InvertibleBicycleModel.compute_update'), ('angle wrap', 'utils/geometry.py: wrap_yaws')])

p('C08', 'Bicycle inverse recovers the action that produced a motion',
  'The inverse bicycle model returns the acceleration (speed change per step) and the curvature (heading change per distance travelled) of a logged motion, so that a motion produced by the forward model from speeds above the low-speed threshold yields back its own action. At low speed the curvature is zero, for steps whose end points are not both valid the action is flagged invalid and zero, and the result always lies within the action bounds.',
  ['inputs', 'configurations'], 'all pairs of consecutive object states, including low speeds, heading wrap and invalid steps',
  'Round trips must hold for every state; the tests use a handful of logged motions and no data is present.',
  ['dynamics/bicycle_model.py'],
  [('inverse', 'dynamics/bicycle_model.py: compute_inverse, InvertibleBicycleModel.inverse')])

p('C09', 'Expert actions replay the log',
  'Acting with the expert on state dynamics from a state that agrees with the log reproduces the logged position, heading and velocity at the next timestep for every object the actor controls and that stays valid, and repeating it replays the whole log. With delta dynamics the expert reproduces the logged position whenever the motion is within bounds, and an inferred action is valid only when the log is valid at the next timestep (and, for displacement-based dynamics, the object is also valid now).',
  ['inputs', 'histories'], 'all logs, validity patterns, timesteps, and action sequences of several steps',
  'A replay needs every object and every step; the tests use one recorded scenario that is missing here.',
  ['agents/expert.py', 'dynamics/state_dynamics.py', 'agents/actor_core.py'],
  [('expert', 'agents/expert.py: infer_expert_action, create_expert_actor'), ('state dynamics', 'dynamics/state_dynamics.py')])

p('C10', 'Discrete actions and continuous values convert without drift',
  'Converting a discrete index to a continuous action and back returns the same index for every bin, distinct indices give distinct values, and every produced value lies within the bounds. Converting a continuous value to an index and back changes it by at most half a bin per dimension when it is within the bounds, and values outside are treated as the nearest bound. Encoding and decoding give the same results inside compiled programs as eagerly. Dynamics wrapped with a discrete action space behave exactly like the wrapped dynamics given the decoded action.',
  ['inputs', 'configurations'], 'all indices, all continuous values, bin counts and bounds within the bound',
  'Index arithmetic over mixed radices fails only at particular bins; no discretizer test can run.',
  ['dynamics/discretizer.py'],
  [('encoding', 'dynamics/discretizer.py: Discretizer.discretize, make_continuous'), ('wrapper', 'dynamics/discretizer.py: DiscreteActionSpaceWrapper')])

p('C11', 'Frame changes are rigid, centred and invertible',
  'Transforming points into the frame of a pose preserves pairwise distances, sends the pose itself to the origin with zero heading, and is undone by the inverse transform; headings, directions and velocities turn by the same rotation. Composing two poses is the same as applying their transforms one after the other. Wrapping an angle returns the equivalent angle in [-pi, pi).',
  ['inputs'], 'all poses, points, headings and velocities within the coordinate bound',
  'Rigid-motion identities hold for all angles; samples at a few angles miss sign and order errors that cancel.',
  ['utils/geometry.py', 'datatypes/observation.py'],
  [('transforms', 'utils/geometry.py: transform_points, rotate_points, transform_yaw, transform_direction'), ('poses', 'datatypes/observation.py: ObjectPose2D, combine_two_object_pose_2d')])

p('C12', 'Box overlap agrees with rectangle geometry',
  'The corners of a box are its centre plus or minus half its length and half its width along its heading, and two boxes are reported as overlapping exactly when no separating axis exists among their sides, so the answer is symmetric, unchanged by moving both boxes rigidly, and boxes that merely touch do not overlap. The pairwise overlap matrix applies this test to each pair of distinct objects and never reports an object as overlapping itself.',
  ['inputs'], 'all pairs of boxes with positive sizes within the coordinate bound',
  'Overlap is decided by inequalities over trigonometric corner positions; tests try a few placements.',
  ['utils/geometry.py'],
  [('corners', 'utils/geometry.py: corners_from_bbox'), ('separating axis test', 'utils/geometry.py: has_overlap'), ('pairwise', 'utils/geometry.py: compute_pairwise_overlaps')])

p('C13', 'The collision metric flags exactly the overlaps with valid objects',
  'For each object the overlap metric at the current timestep is one when the box of some other valid object overlaps its own, and zero otherwise. Objects that are invalid at the current timestep never contribute a collision to any other object, and the value is flagged valid exactly for valid objects.',
  ['inputs'], 'all states, validity patterns and timesteps',
  'A collision with an invalid placeholder box, or a missed one, needs a particular mix of validity and geometry.',
  ['metrics/overlap.py', 'utils/geometry.py'],
  [('overlap metric', 'metrics/overlap.py: OverlapMetric')])

p('C14', 'Offroad is the signed distance of box corners to the nearest road edge',
  'An object is offroad at the current timestep exactly when one of its box corners lies on the outer side of the nearest valid road-edge point. Points that are not road edges or are invalid never influence the answer, and the side is decided by the direction of the road edge. When no usable road edge exists nothing is offroad.',
  ['inputs'], 'all boxes, roadgraphs within the bound, point types, validity patterns and timesteps',
  'The nearest-point choice, the prior-segment handling and masking interact; tests use a few straight edges.',
  ['metrics/roadgraph.py'],
  [('metric', 'metrics/roadgraph.py: OffroadMetric, is_offroad'), ('signed distance', 'metrics/roadgraph.py: compute_signed_distance_to_nearest_road_edge_point')])

p('C15', 'Kinematic infeasibility flags exactly the motions outside the limits',
  'The kinematic infeasibility metric is one exactly when the acceleration or the curvature needed to explain the last simulated step of an object exceeds the configured maximum, and zero otherwise. It is flagged valid exactly when the object was valid at both ends of that step.',
  ['inputs', 'configurations'], 'all consecutive object states, validity patterns and timesteps',
  'Threshold behaviour on derived quantities; no test of this metric is runnable.',
  ['metrics/comfort.py', 'dynamics/bicycle_model.py'],
  [('metric', 'metrics/comfort.py: KinematicsInfeasibilityMetric')])

p('C16', 'Log divergence is the distance to the logged position right now',
  'The log divergence of an object is the planar distance between its simulated and logged positions at the current timestep, hence zero exactly when they coincide and independent of every other timestep and object. It is flagged valid exactly when both positions are valid.',
  ['inputs'], 'all states and timesteps', 'Independence from all other data cannot be shown by sampling.',
  ['metrics/imitation.py'], [('metric', 'metrics/imitation.py: LogDivergenceMetric')])

p('C17', 'Route metrics measure the distance of the self-driving car to its routes',
  'Off-route is zero while the self-driving car is within the allowed distance of a route point and not much farther from on-route than from other paths, and its distance otherwise; wrong-way is the distance to the nearest valid path point when it exceeds the threshold and zero otherwise. Route progression is the travelled fraction of the arc length between the logged start and end on the best matching path. Invalid points and paths never influence these values.',
  ['inputs'], 'all route sets, positions, validity and on-route patterns within the bound',
  'Nearest-path selection under masks has many degenerate cases; tests cover three hand-made routes.',
  ['metrics/route.py'],
  [('metrics', 'metrics/route.py: WrongWayMetric, OffRouteMetric, ProgressionMetric')])

p('C18', 'Reward is the configured weighted sum of metrics for the acting agents',
  'The reward of an object is the sum over the configured terms of the weight times the metric value, counted only where the metric is valid, and it is zero for every object that is not an acting agent. Computing metrics returns exactly the requested ones, each equal to computing that metric alone, and disabling rewards yields zeros of the specified shape.',
  ['inputs', 'configurations'], 'all states, weights, metric sets and control masks',
  'Weights and masks are combined per object; tests fix a single combination.',
  ['rewards/linear_combination_reward.py', 'metrics/metric_factory.py', 'env/base_environment.py'],
  [('linear combination', 'rewards/linear_combination_reward.py'), ('metric dispatch', 'metrics/metric_factory.py: run_metrics')])

p('C19', 'In the planning environment only the planner drives the self-driving car',
  'In the planning-agent environment the self-driving car moves by the planner action and by nothing else (simulated agents do not claim it), and every other object moves as its simulated agent decides or, without one, follows the log. Simulated agents that started out overlapping another object are not driven, and reward, metrics and observation concern the self-driving car only. The kinematics metric reports nothing until the simulation has left the warm-up phase.',
  ['inputs', 'configurations'], 'all states, planner actions, simulated-agent actions and control masks',
  'Which action reaches which object depends on masks and on the position of the self-driving car; no planning-environment test is runnable.',
  ['env/planning_agent_environment.py'],
  [('step', 'env/planning_agent_environment.py: PlanningAgentEnvironment.step'), ('dynamics wrapper', 'env/planning_agent_environment.py: PlanningAgentDynamics'), ('metrics / reward', 'env/planning_agent_environment.py')])

p('C20', 'Merged actions give each object the action of its controlling actor',
  'Merging the outputs of several actors gives every object the action and validity chosen by the actor that controls it. What other actors output for that object never influences the result, in any order and for any number of actors with disjoint control.',
  ['inputs', 'configurations'], 'all control masks, actions and validity patterns for several actors',
  'Overlapping and empty control masks are combinatorial.',
  ['agents/actor_core.py', 'agents/agent_builder.py'],
  [('merge', 'agents/actor_core.py: merge_actions')])

p('C21', 'Route-following agents stay on their path and never reverse',
  'A route-following agent computes a non-negative next speed by the intelligent-driver rule: its acceleration never exceeds the configured maximum, it does not speed up at or above the desired speed, and it brakes for the closest leading object. Leaders are the valid other objects whose box its own box would overlap first on its path; invalid objects and objects off the path have no influence. Its next position lies on its logged path at the distance travelled. Invalid agents, and with invalidation on, moving agents that reached the end of their path or strayed from it, become invalid and get placeholder values.',
  ['inputs', 'configurations'], 'all trajectories, leaders, speeds and parameters within the bounds',
  'Car-following depends on nonlinear speed and gap arithmetic with masks; the only tests need data files.',
  ['agents/waypoint_following_agent.py', 'agents/sim_agent.py'],
  [('speed rule', 'agents/waypoint_following_agent.py: IDMRoutePolicy'), ('projection', 'agents/waypoint_following_agent.py: WaypointFollowingPolicy')])

p('C22', 'Observations show the right objects, times and frames',
  'Once enough history exists, an observation contains exactly the requested window of past timesteps ending at the current one, copied from the simulated trajectory, with the logged traffic lights of the same window, the object metadata, and the requested number of map points nearest to the viewer. In an agent-centred observation each viewer sees itself at the origin facing zero heading and everything else moved by the same rigid transform, and each viewer is marked as its own ego and nobody else is. Selecting one viewer returns that viewer alone.',
  ['inputs', 'configurations'], 'all states, viewers, history lengths and timesteps within the bound',
  'Observation building composes slicing, transforms and masks; none of its tests is runnable.',
  ['datatypes/observation.py'],
  [('global observation', 'datatypes/observation.py: global_observation_from_state'), ('per-agent', 'datatypes/observation.py: observation_from_state, transform_observation, sdc_observation_from_state')])

p('C23', 'Roadgraph filtering keeps the nearest valid points intact',
  'Selecting the k nearest roadgraph points returns k points of the input, each with all of its own attributes unchanged, such that no valid point left out is closer to the reference position than a valid point kept, and invalid points are kept only when fewer than k valid ones exist.',
  ['inputs'], 'all roadgraphs, reference points and k within the bound, including large identifiers',
  'Attribute mix-ups and precision loss need particular orders or large values.',
  ['datatypes/roadgraph.py'], [('filter', 'datatypes/roadgraph.py: filter_topk_roadgraph_points')])

p('C24', 'Structured slicing, updating and masking act on every leaf alike',
  'Indexing, slicing and slice-updating a structure of arrays act on every array exactly like the corresponding index operation along the requested axis, leave everything outside the addressed range unchanged, and a slice written can be read back. Selecting by a one-hot mask returns the flagged entry of every array, masked updates touch only masked entries, and masked averages over the last axis are the averages of the valid entries.',
  ['inputs'], 'all array contents, in-range starts, sizes, axes and masks within the bound',
  'Axis and offset handling has many combinations; the tests fix a few.',
  ['datatypes/operations.py', 'datatypes/array.py'],
  [('tree operations', 'datatypes/operations.py')])

p('C25', 'Dataset scenarios and simulator states convert without loss',
  'Converting a dataset scenario to a simulator state places every past, current and future feature at its own object and timestep with its validity, gives objects constant dimensions averaged over their valid steps, marks the self-driving car, modeled and valid objects as recorded, and starts the simulation from the first logged step. Converting a state back yields the same features split at the current timestep, with the future filled by the invalid value -1, and the metadata of objects that are not valid set to it as well; with validation requested, it reports an error exactly when the requested history does not end at the current timestep.',
  ['inputs', 'configurations'], 'all scenario contents and sizes within the bound',
  'Index and layout errors corrupt particular objects or steps; round trips in the tests need data files.',
  ['dataloader/womd_factories.py', 'dataloader/womd_utils.py', 'dataloader/womd_dataloader.py'],
  [('to state', 'dataloader/womd_factories.py: simulator_state_from_womd_dict'), ('back', 'dataloader/womd_utils.py: simulator_state_to_womd_dict')])

p('C26', 'A rollout is the iterated environment step',
  'A rollout of n steps records n+1 states where each is the environment step of the previous one under the action its actor selected for that previous state, together with the reward, metrics and observation of the recorded state. The number of recorded steps equals the number requested, the final entry carries no action, and the actor is given a different random key at every call.',
  ['inputs', 'histories', 'configurations'], 'all initial states and actor decisions, rollout lengths within the bound',
  'Misalignment by one step between states, actions and rewards is invisible in shape checks.',
  ['env/rollout.py'], [('rollout', 'env/rollout.py: rollout')])

p('C27', 'Environment wrappers report the same episode as the wrapped environment',
  'The Brax-style wrapper returns for each step the next state of the wrapped environment, the reward and metrics of the state the action was taken in, and the observation, end flag and discount of the next state. The dm_env wrapper produces the same observations, rewards and discounts as a first/mid/last step sequence with the last step exactly when the episode is done, and refuses to step before a reset or after the last step. The ready-made self-driving-car environment runs exactly the simulated agents its configuration lists.',
  ['histories', 'inputs', 'configurations'], 'all call sequences up to the bound, all states and actions',
  'Wrapper protocol errors depend on call history; none of their tests is runnable.',
  ['env/wrappers/brax_wrapper.py', 'env/wrappers/dm_env_wrapper.py'],
  [('brax', 'env/wrappers/brax_wrapper.py: BraxWrapper'), ('dm_env', 'env/wrappers/dm_env_wrapper.py: DMEnvWrapper')])

p('C28', 'Data preprocessing aggregates time and wraps headings without reordering',
  'Preprocessing a decoded example joins past, current and future features in time order, keeps the first objects up to the requested maximum, and wraps headings into [-pi, pi), while leaving everything else unchanged; steps are labelled past, current or future. Without aggregation nothing but the object limit is applied.',
  ['inputs', 'configurations'], 'all feature contents, sizes within the bound, with and without time aggregation',
  'Concatenation order and truncation mistakes are invisible in shape checks and the tests need data files.',
  ['dataloader/womd_dataloader.py', 'dataloader/dataloader_utils.py', 'dataloader/womd_utils.py'],
  [('preprocess', 'dataloader/womd_dataloader.py: preprocess_womd_example'), ('aggregation', 'dataloader/womd_utils.py: aggregate_time_tensors')])

p('C29', 'Sharded file patterns expand to every shard exactly once',
  'A sharded path pattern with n shards expands to exactly n distinct file names, numbered from zero to n-1 in order with the same zero-padded width and shard count, and keeps the rest of the path, whatever characters it contains. Patterns without exactly one separator or without an integer count are rejected, a count below one never yields a file name, and a dataset path whose file name has no separator denotes that single file.',
  ['inputs'], 'all base names within the length bound and shard counts within the bound',
  'A missing or duplicated shard silently drops or repeats data for particular counts.',
  ['dataloader/dataloader_utils.py'], [('expansion', 'dataloader/dataloader_utils.py: generate_sharded_filenames')])

p('C30', 'A batch of scenarios behaves like the scenarios one by one',
  'Applying metrics, rewards, forward dynamics, environment steps, log updates, agents and observation building to a batched state, with a different timestep in each entry, gives for each batch entry exactly the result of applying them to that entry alone; inverse dynamics and the kinematics metric do so for a common timestep.',
  ['inputs'], 'all batched states within the bound',
  'Cross-talk between batch entries needs different data in different entries; tests broadcast one example.',
  ['metrics/abstract_metric.py', 'datatypes/operations.py', 'dynamics/abstract_dynamics.py', 'utils/geometry.py'],
  [('vectorised operations', 'datatypes/operations.py'), ('metrics', 'metrics/')])

p('C31', 'Derived views read exactly the fields they name',
  'Positions, velocities, directions and named fields of trajectories, maps, routes and traffic lights are returned stacked in the order requested. The speed of an object is the length of its velocity and its direction of motion the angle of its velocity, both replaced by -1 where it is invalid. The current slice of a scenario is the one at its timestep, for each batch entry its own. A trajectory update becomes an action with the fields in the order the state dynamics expects. Empty and invalid trajectories hold zeros respectively -1 and are invalid throughout, masked values replace exactly the invalid entries, only boundary and median points are road edges, and two structures are equal exactly when all their elements are.',
  ['inputs'], 'all contents, validity patterns and timesteps within the bound',
  'A swapped field or a wrong slice shows only for data in which the fields differ; the views are used everywhere and tested on constants.',
  ['datatypes/object_state.py', 'datatypes/simulator_state.py', 'datatypes/roadgraph.py', 'datatypes/route.py', 'datatypes/traffic_lights.py', 'datatypes/action.py', 'datatypes/array.py', 'datatypes/operations.py'],
  [('views', 'datatypes/object_state.py: Trajectory'), ('current slices', 'datatypes/simulator_state.py: SimulatorState'), ('equality', 'datatypes/operations.py: compare_all_leaf_nodes')])

p('C32', 'Declared specs match what environments accept and return',
  'The action specification of an environment gives, per controlled object (or for the planner alone), the shape, type and limits configured for the dynamics model, and the environment steps on any action within it. Reset and step return states of the same structure, shapes and types; rewards, discounts, observations and metrics have the declared shapes and types, with one entry per object for multi-agent environments and a single one for planning environments, and wrappers declare and return the same. Inverse dynamics yields actions within the specification, and every declared discrete action moves an object within the limits of the wrapped model.',
  ['inputs', 'configurations'], 'all dynamics models, environments, wrappers and states within the bound',
  'Agents are sized and bounded by the declared specifications; tests look at a few shapes of a few configurations.',
  ['env/base_environment.py', 'env/planning_agent_environment.py', 'env/abstract_environment.py', 'env/wrappers/', 'dynamics/'],
  [('environment specs', 'env/base_environment.py: action_spec, reward_spec, discount_spec, observation_spec'), ('dynamics specs', 'dynamics/: action_spec'), ('wrapper specs', 'env/wrappers/')])

p('C33', 'Drawings show exactly the valid things where they are',
  'Drawing a trajectory at a step outlines every object valid at that step or later at its position, size and heading, each once, in the colour of controlled or other objects and at a tenth of the size for later steps, marks its valid earlier positions as history, highlights exactly the objects that overlap another valid object at that step, and labels only objects valid at that step. Map points, traffic lights and routes are drawn exactly where valid and of a drawn kind, in the colour of their type or state at that step. Scenario, observation and Brax plots draw the requested trajectory (logged or simulated), batch entry and observer, at its own current step, with the view spanning the configured margins around the self-driving car or the configured object.',
  ['inputs', 'configurations'], 'all contents, validity patterns and steps within the bound',
  'A picture of the wrong step, trajectory or object looks plausible; the tests compare image sizes only.',
  ['visualization/viz.py', 'visualization/utils.py', 'visualization/color.py'],
  [('trajectories', 'visualization/viz.py: plot_trajectory'), ('scenarios', 'visualization/viz.py: plot_simulator_state, plot_observation, plot_single_agent_brax_timestep')])

p('C34', 'The data loader delivers every record once, in batches of the configured shape',
  'For any number of files, processes and workers, loading a dataset delivers each record of each file exactly once per configured repetition (endlessly when repetition is not limited), to exactly one process and worker, also when shuffled, and split into its objects when configured to batch by object. A single worker reading one file without a shuffle seed delivers in stored order. Every record is preprocessed exactly once before batching. Elements have the configured batch dimensions, the first one outermost, preceded by one for the local devices in distributed loading; consecutive records fill them innermost first, and only records that do not fill a batch are dropped, and only if dropping the remainder is configured. The generator post-processes each delivered element exactly once.',
  ['inputs', 'configurations'], 'all file, record, process, worker, device and batch counts within the bound',
  'Lost or repeated records need particular counts of files, processes and workers; the tests load one file with one worker.',
  ['dataloader/dataloader_utils.py'], [('dataset', 'dataloader/dataloader_utils.py: tf_examples_dataset'), ('generator', 'dataloader/dataloader_utils.py: get_data_generator')])

p('C35', 'Inconsistent configurations are rejected and consistent ones accepted',
  'An environment configuration is rejected exactly when its observation asks for more steps of history than the environment warms up with, and a top-level configuration exactly when a route-based metric (wrong way, progression, off route) is requested from a dataset loaded without routes. Rewards and metric runs are rejected exactly when they name a metric that is not registered, and registering a name that is already taken is rejected and leaves the registered metric in place. A planning environment is accepted exactly when it controls the self-driving car and has one parameter set per simulated agent, and simulated agents are built only for the self-driving car or for all other objects.',
  ['configurations'], 'all step counts, sets of metrics, registries, object types and numbers of agents within the bound',
  'A boundary that is off by one or a forgotten metric name accepts a configuration that fails later or computes nonsense; the tests build a few valid ones.',
  ['config.py', 'metrics/metric_factory.py', 'rewards/linear_combination_reward.py', 'env/planning_agent_environment.py', 'agents/agent_builder.py'],
  [('configurations', 'config.py: EnvironmentConfig, WaymaxConfig'), ('registry', 'metrics/metric_factory.py: register_metric, run_metrics')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
  for d in P:
    f.write(json.dumps(d) + '\n')
print(len(P))
