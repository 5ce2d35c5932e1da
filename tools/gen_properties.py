"""Source of properties.jsonl: python3 tools/gen_properties.py > properties.jsonl"""
import json
H = "highway_env/"
def P(id, title, st, over, text, why, files, mech, state=(), obs=(), hook=None):
    assert len(title) <= 80, title
    print(json.dumps(dict(id=id, title=title, statement=st,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[H + f for f in files],
                     state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                     mechanism=[dict(name=n, where=H + w) for n, w in mech],
                     observe_at=list(obs), hook_needed=hook))))

P("C01", "A seed fully determines every episode",
  "After an environment is seeded and reset, the observations, rewards, termination flags, infos and the trajectory of every vehicle are a function of that seed, the configuration and the actions alone. Nothing else may influence them: not the process-wide random state, operating-system entropy, the string-hash seed, the clock, rendering, what ran earlier in the process, or what the same environment did before being re-seeded.",
  ["histories", "configurations", "inputs", "fault_sequences"],
  "Every environment id, observation/action/vehicle type, seed and action sequence, under every ambient perturbation of the process.",
  "The tests never run the same seed twice; a sample cannot show that no ambient source of nondeterminism leaks in.",
  ["envs/common/abstract.py", "road/road.py", "vehicle/behavior.py", "envs/highway_env.py", "envs/intersection_env.py", "envs/roundabout_env.py", "envs/parking_env.py", "envs/summon_env.py", "envs/lane_keeping_env.py", "envs/two_way_env.py"],
  [("one random generator per environment, handed to the road", "envs/common/abstract.py"), ("draws go through the road's generator", "road/road.py")],
  [("np_random", "the environment's only random source", "AbstractEnv")], ["step/reset return values", "vehicle states"])

P("C02", "Environments in one process do not influence each other",
  "Stepping, resetting, rendering, configuring or copying one environment, in any interleaving with others including from several threads and in the middle of another's step, leaves the trace of every other environment exactly as if it had run alone.",
  ["schedules", "histories", "configurations"],
  "Every set of environments of the same or different kinds and every interleaving of their operations, at operation and at sub-step granularity.",
  "The tests run one environment at a time; isolation is a statement about all interleavings.",
  ["envs/common/abstract.py", "vehicle/controller.py", "vehicle/behavior.py", "envs/roundabout_env.py", "envs/intersection_env.py", "road/road.py"],
  [("per-instance configuration, random source and road", "envs/common/abstract.py"), ("class attributes are constants", "vehicle/behavior.py")],
  [], ["per-environment traces"])

P("C03", "Copies made for planning are faithful and leave the original untouched",
  "A deep copy of an environment taken at any point behaves exactly like the original given the same actions, and nothing done to a copy changes the original's future. The derived copies (simplified scene, other behaviour for the traffic, preferred (existing) lane, forced route, changed field, called method, randomised behaviour) and the trajectory and time-to-collision predictions also leave the original untouched; the derived copies keep the ego vehicle and the dynamical state of the traffic and change only what they announce.",
  ["histories", "crash_points", "configurations"],
  "Every point of every episode at which a snapshot can be taken, including in the middle of a step, and every later divergence of copy and original.",
  "The only test chains the helpers once on a fresh environment and compares nothing.",
  ["envs/common/abstract.py", "vehicle/controller.py", "envs/common/finite_mdp.py"],
  [("deep copy without the viewer", "envs/common/abstract.py"), ("helpers work on a deep copy", "envs/common/abstract.py")],
  [], ["traces of the original and of the copy"])

P("C04", "Environment interface contract holds along every episode",
  "Every registered environment, with every documented observation and action type that it supports, can be created, reset and stepped until and beyond the end of the episode without error. Each observation belongs to the declared observation space and is finite, each action of the declared action space is accepted, the reward is a finite number, the termination flag is a boolean, and the info reports the ego vehicle's speed and crash state and the action performed (except in the lane-keeping environment, which reports none).",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "Every environment id, observation/action configuration, action sequence from the space and injected traffic fault.",
  "The tests take three steps of eight ids with default configurations and check only the last observation.",
  ["envs/common/abstract.py", "envs/common/observation.py", "envs/common/action.py", "envs/common/finite_mdp.py", "envs/intersection_env.py", "envs/lane_keeping_env.py"],
  [("spaces defined twice at reset", "envs/common/abstract.py"), ("normalisation, clipping and padding", "envs/common/observation.py")],
  [], ["reset/step return values", "declared spaces"])

P("C05", "One decision advances simulated time by exactly one policy period",
  "A step of an environment applies its action exactly once, before the physics, and then advances the world by simulation-frequency over policy-frequency ticks of equal duration, every tick letting every vehicle decide before any moves. It stops early only at the first tick that ends the episode, and under manual control the given actions are ignored but time still passes.",
  ["configurations", "histories", "inputs", "fault_sequences"],
  "Every frequency pair, episode, action sequence and point at which the episode ends inside a step.",
  "No test changes the frequencies or looks inside a step.",
  ["envs/common/abstract.py", "road/road.py", "envs/lane_keeping_env.py", "road/regulation.py"],
  [("tick loop", "envs/common/abstract.py"), ("act for all vehicles, then step for all", "road/road.py")],
  [("time", "ticks since reset", "AbstractEnv"), ("steps", "decisions since reset", "AbstractEnv")], ["world state at every tick"])

P("C06", "Every tick moves every vehicle by the documented vehicle model",
  "At each tick the position, heading and speed of each vehicle follow from its previous state and its commanded steering and acceleration by the documented modified bicycle model, or by the documented dynamical model with tyre slip for dynamical vehicles. A crashed vehicle ignores its commands: it steers straight and brakes proportionally to its speed until it stands still.",
  ["histories", "inputs", "fault_sequences"],
  "Every history of commands, control dropouts, crashes, timestep changes and traffic.",
  "The tests check straight motion and one constant action from a single state.",
  ["vehicle/kinematics.py", "vehicle/dynamics.py", "road/road.py"],
  [("explicit Euler integration", "vehicle/kinematics.py"), ("actions overridden when crashed", "vehicle/kinematics.py"), ("lateral dynamics", "vehicle/dynamics.py")],
  [], ["vehicle states before and after each tick"])

P("C07", "Collisions are detected exactly, mutually and for good",
  "At the end of each tick two collidable vehicles whose footprints overlap are both crashed, and a vehicle is only ever newly crashed when its footprint overlaps that of another vehicle or obstacle, whatever the order of the vehicles. Colliding vehicles leave with the smaller of their speeds in magnitude, an obstacle stops the vehicle and is marked as hit, a landmark is only marked as hit, and a crashed vehicle stays crashed and never gains speed.",
  ["histories", "inputs", "schedules", "fault_sequences"],
  "Every history of relative positions, headings and speeds, every order of the vehicles, and injected crashes, teleports and obstacles.",
  "The test uses three axis-aligned pairs; misses for other headings and orders went unnoticed (see the fix commits).",
  ["vehicle/kinematics.py", "road/road.py", "utils.py", "road/objects.py"],
  [("pairwise check after all vehicles moved", "road/road.py"), ("rectangle intersection", "utils.py"), ("collision consequences", "vehicle/kinematics.py")],
  [("crashed", "collided since creation", "Vehicle"), ("hit", "object was touched", "RoadObject")], ["crashed, hit and speed after each tick"])

P("C08", "Commands and speeds stay within physical bounds",
  "Whatever happens, autonomous vehicles never command more than their maximum steering angle or acceleration, continuous actions are confined to the configured ranges, and the discrete ego vehicle only targets speeds of its allowed set. A vehicle beyond the maximum speed in either direction never gains speed, and none exceeds the maximum by more than one tick of its commanded acceleration; a dynamical vehicle never turns faster than its maximum angular speed.",
  ["histories", "inputs", "fault_sequences"],
  "Every episode, out-of-range action, and injected disturbance of position, heading, speed and traffic.",
  "Bounds are invariants over all reachable states; tests touch none of the limits.",
  ["vehicle/kinematics.py", "vehicle/controller.py", "vehicle/behavior.py", "vehicle/dynamics.py", "envs/common/action.py"],
  [("clipping of actions", "vehicle/kinematics.py"), ("clipping of IDM commands", "vehicle/behavior.py"), ("clipping and mapping of continuous actions", "envs/common/action.py")],
  [], ["commanded action and speed at each tick"])

P("C09", "Traffic follows its leader safely and at the intended acceleration",
  "At each tick an autonomous vehicle commands the acceleration prescribed by its documented car-following model (intelligent driver, or linear) for its speed, target speed and the nearest vehicle or obstacle ahead in its lane. Starting from a safe state, such a vehicle with regular or defensive parameters never rear-ends a leader that brakes, stalls or disappears within physical limits, stops short of a standing obstacle, and regains its target speed in bounded time once the road ahead is clear.",
  ["histories", "fault_sequences", "schedules"],
  "Every leader behaviour with bounded braking, including stalls, disappearance and sudden obstacles at a stoppable distance, and every timestep used by the environments.",
  "One test stops behind one fixed obstacle from one state.",
  ["vehicle/behavior.py", "road/road.py"],
  [("intelligent driver model", "vehicle/behavior.py"), ("linear model", "vehicle/behavior.py"), ("nearest neighbours in lane", "road/road.py")],
  [], ["commanded accelerations", "gaps and collisions over the run"])

P("C10", "Traffic changes lane only when it is allowed, safe and useful",
  "A traffic vehicle starts a lane change only towards an adjacent, reachable and permitted lane of its road, at most once per decision period, when the braking imposed on the new follower stays within the limit and the change brings the required acceleration gain or serves its planned lane; whenever these conditions hold at a decision instant it does change. A change in progress is aborted exactly when another vehicle heading for the same lane is too close ahead, and crashed vehicles or vehicles with lane changes disabled never start one.",
  ["histories", "schedules", "fault_sequences"],
  "Every traffic situation and history on multi-lane roads, including vehicles appearing, stalling, crashing and competing for one lane.",
  "No test covers the lane-change policy.",
  ["vehicle/behavior.py", "road/road.py"],
  [("lane change policy and abort rule", "vehicle/behavior.py"), ("MOBIL criterion", "vehicle/behavior.py"), ("adjacent lanes", "road/road.py")],
  [("timer", "time since the last decision", "IDMVehicle"), ("target_lane_index", "lane being followed", "ControlledVehicle")], ["target lanes at each tick"])

P("C11", "Agent actions have exactly their documented effect",
  "A discrete action changes only the ego vehicle's set-points: one allowed speed up or down from the one closest to its speed, or one lane left or right of its target lane if that lane exists and is reachable; the list of available actions is exact, and an unavailable action on a settled vehicle is equivalent to idling. A continuous action maps each component linearly from [-1, 1] to its configured range, clipped, with a disabled component commanded to zero.",
  ["inputs", "histories", "configurations"],
  "Every action sequence, reachable ego state, lane layout, speed set and action configuration.",
  "The tests check one lane change and one speed change of a vehicle, never through an environment's action space.",
  ["envs/common/action.py", "vehicle/controller.py", "envs/common/abstract.py"],
  [("meta-actions", "envs/common/action.py"), ("speed set", "vehicle/controller.py"), ("available actions", "envs/common/abstract.py")],
  [("target_lane_index, speed_index, target_speed", "set-points", "MDPVehicle")], ["set-points after each decision", "available actions"])

P("C12", "Controlled vehicles converge to their lane and speed once disturbances stop",
  "After any bounded sequence of disturbances (pushes, lost or repeated control updates, timestep jitter, changed set-points) on a drivable lane, a controlled vehicle returns to its target lane (its centre when the lane is straight, within the controller's tracking error when it curves) and to its target speed within a bounded time, and stays there. Idle ticks keep its set-points unchanged.",
  ["fault_sequences", "histories", "schedules"],
  "Every bounded disturbance sequence on straight, sinusoidal and circular lanes at normal driving speeds.",
  "The tests start from perfect states and apply one set-point change.",
  ["vehicle/controller.py", "vehicle/kinematics.py", "road/lane.py"],
  [("cascaded lateral controller", "vehicle/controller.py"), ("proportional speed controller", "vehicle/controller.py")],
  [], ["lane offset, heading and speed errors over time"])

P("C13", "Planned routes are shortest and vehicles follow them to the end",
  "A planned route starts with the vehicle's current lane and continues along connected roads to the destination with the fewest roads possible, or is just the current lane when the destination is unreachable. At the end of each lane a vehicle moves on to the next road of its route (to some successor road if it has none, and nowhere at a dead end), keeping its lane number when lane counts agree and taking the closest lane otherwise, and so reaches its destination in bounded time.",
  ["configurations", "histories", "fault_sequences", "schedules"],
  "Every road network, destination, lane layout and history, including re-planning, forced routes at intersections, and disturbances at lane ends.",
  "One test counts lane switches on one four-node network; planning is not tested.",
  ["road/road.py", "vehicle/controller.py"],
  [("breadth-first search", "road/road.py"), ("next lane selection", "road/road.py"), ("route planning and following", "vehicle/controller.py")],
  [("route", "remaining roads", "ControlledVehicle")], ["route and target lane at each tick"])

P("C14", "Right of way at intersections is enforced and released",
  "At each regulation instant exactly the autonomous traffic vehicles that lose a predicted conflict (the one on the lane of lower priority, or the one behind when priorities are equal) are held to a target speed of zero. Controlled ego vehicles are never held, and a held vehicle gets back its lane's speed limit at the first regulation instant at which it no longer loses a conflict (and has waited for the yield duration, if one is configured).",
  ["histories", "schedules", "fault_sequences", "configurations"],
  "Every traffic history at regulated roads, every simulation frequency, and vehicles that stall, appear, vanish or crash inside the conflict zone.",
  "No test covers regulation beyond stepping the intersection three times.",
  ["road/regulation.py", "envs/intersection_env.py"],
  [("periodic enforcement", "road/regulation.py"), ("conflict prediction at constant speed along routes", "road/regulation.py"), ("priority rule", "road/regulation.py")],
  [("is_yielding, target_speed", "held vehicles", "traffic vehicle")], ["held vehicles after each tick"])

P("C15", "Scenes are populated safely and as configured",
  "Every reset builds the configured controlled and traffic vehicles on their lanes, with no two vehicles overlapping wherever the scene places them with a guaranteed spacing, and at intersections and in the busy parking lot no traffic within 20 metres of the ego vehicle; linear traffic of intersections and roundabouts has random parameters of its own, within the documented ranges. At intersections each step then removes exactly the traffic that is leaving or has no route, never a controlled vehicle, and adds at most one vehicle, on an incoming road and at least 15 metres from any other.",
  ["histories", "configurations", "inputs"],
  "Every seed, traffic size, density, lane count, number of agents, and history of spawning and leaving.",
  "Tests reset a handful of unseeded scenes and inspect none.",
  ["envs/intersection_env.py", "envs/summon_env.py", "envs/highway_env.py", "vehicle/kinematics.py", "envs/parking_env.py"],
  [("spawning with spacing", "vehicle/kinematics.py"), ("early collision prevention", "envs/intersection_env.py"), ("clearing and spawning at each step", "envs/intersection_env.py")],
  [("road.vehicles", "vehicles in the scene", "Road")], ["scene after reset and after each step"])

P("C16", "Reset recovers a clean episode from any history",
  "After any history (episodes, crashes, exceptions raised in user callbacks in the middle of a step, closing the viewer, nested or repeated resets, temporary reconfiguration), seeding and resetting an environment yields exactly the episode that a new environment with the same configuration and seed yields.",
  ["histories", "crash_points", "fault_sequences"],
  "Every sequence of operations and every point of a step at which it is aborted, followed by seed and reset.",
  "No test resets an environment twice.",
  ["envs/common/abstract.py", "envs/lane_keeping_env.py", "envs/roundabout_env.py", "envs/intersection_env.py"],
  [("reset rebuilds spaces, road and vehicles", "envs/common/abstract.py")],
  [("time, steps, done, viewer flags", "episode bookkeeping", "AbstractEnv")], ["trace after reset"])

P("C17", "Data handed to the agent is a stable snapshot",
  "Observations and infos returned by an environment never change afterwards, whatever the environment does next. Overwriting a returned observation, or an action array after it was passed in, has no effect on the environment.",
  ["histories", "schedules", "configurations"],
  "Every observation type and history; every later operation and every in-place modification by the agent at any point.",
  "Tests never keep an observation across steps.",
  ["envs/common/observation.py", "envs/common/action.py", "envs/common/abstract.py"],
  [("observations are built anew or copied", "envs/common/observation.py")], [], ["retained observations and infos"])

P("C18", "Rendering observes the simulation without disturbing it",
  "Rendering, on or off screen, at any instant and rate, zooming, panning and recording trajectories change nothing in the simulation's trace, and closing the window, which ends the episode, changes nothing in the episodes that follow. Images have the configured size, depend only on the scene, and rendering twice without advancing gives the same image.",
  ["schedules", "histories", "fault_sequences"],
  "Every placement of render calls, intermediate-frame callbacks, viewer keys, window closing and viewer restarts in an episode.",
  "Tests render one frame of two environments.",
  ["envs/common/abstract.py", "envs/common/graphics.py", "road/graphics.py", "vehicle/graphics.py"],
  [("viewer reads the scene only", "envs/common/graphics.py"), ("automatic rendering of intermediate frames", "envs/common/abstract.py")],
  [("viewer", "pygame window", "AbstractEnv")], ["traces with and without rendering", "images"])

P("C19", "Keyboard control maps key events to decisions exactly",
  "Each arrow key event handled while driving manually has exactly its documented effect on the ego vehicle: right/left speed up or down and up/down change lane for discrete control, and hold or release fixed throttle or steering for continuous control. Keys for disabled directions and all other keys and events have no effect on the vehicle, in any order, number or delay of deliveries.",
  ["fault_sequences", "schedules", "configurations"],
  "Every sequence of key events, with bursts, duplicates, losses and delays, delivered at any tick, for every action configuration.",
  "The tests never send an event.",
  ["envs/common/graphics.py", "envs/common/abstract.py", "envs/common/action.py"],
  [("event handler", "envs/common/graphics.py")], [("last_action", "held continuous action", "ContinuousAction")], ["ego set-points and commands after each event"])

P("C20", "Configuration is respected and never altered behind the user's back",
  "Each documented configuration entry takes effect at the latest at the next reset (for those of the viewer: with the next viewer), entries not given keep the documented defaults, and a configuration dictionary passed by the user, the defaults of other environments and the configuration of the environment itself are never modified by simulating, resetting, copying or rendering.",
  ["configurations", "histories"],
  "Every subset of configuration entries and values, given at construction or later, and every subsequent history.",
  "Tests pass configurations in two places and look at one image size.",
  ["envs/common/abstract.py", "envs/highway_env.py", "envs/intersection_env.py", "envs/common/graphics.py"],
  [("defaults updated with the user's entries", "envs/common/abstract.py")], [("config", "current configuration", "AbstractEnv")], ["configuration contents", "scene after reset"])

P("C21", "Observations are the documented view of the current scene",
  "At every step the kinematic, occupancy-grid, goal, time-to-collision and image observations equal the documented function of the scene at that instant (the newest stacked image is the weighted picture of the scene, behind the images returned before it in the episode): observer first, then the nearest vehicles in perception range in order, relative or absolute, scaled and clipped as configured, absent vehicles as zero rows, and cells or predicted collisions exactly where vehicles are. No vehicle that left, appeared, crashed or moved is seen late, twice or not at all.",
  ["histories", "configurations", "fault_sequences"],
  "Every traffic history with vehicles appearing, vanishing, jumping and crashing, and every observation configuration.",
  "Tests check only that some observations belong to the space.",
  ["envs/common/observation.py", "road/road.py", "vehicle/kinematics.py", "envs/common/finite_mdp.py"],
  [("nearest vehicles", "road/road.py"), ("features", "vehicle/kinematics.py"), ("observation types", "envs/common/observation.py")], [], ["returned observations against the scene"])

P("C22", "Each agent controls and observes exactly its own vehicle",
  "In multi-agent environments the i-th action acts on the i-th controlled vehicle only, and the i-th observation, reward and termination flag are those of that vehicle, whatever the other agents do and whether or not they crash. The joint reward and termination combine the agents' as documented, and the tuple variant returns the per-agent values.",
  ["histories", "schedules", "inputs", "fault_sequences"],
  "Every number of agents, joint action sequence, and agent crash, stall or arrival.",
  "No test creates a multi-agent environment.",
  ["envs/common/action.py", "envs/common/observation.py", "envs/intersection_env.py", "envs/common/abstract.py"],
  [("per-agent action and observation types", "envs/common/action.py"), ("per-agent rewards", "envs/intersection_env.py")],
  [("controlled_vehicles", "one vehicle per agent", "AbstractEnv")], ["per-agent set-points, observations, rewards"])

P("C23", "Interval predictions contain every admissible behaviour",
  "For every parameter in the uncertainty set and every disturbance sequence within its bounds, the state of a linear parameter-varying system simulated with the predictor's time step stays inside the predicted interval at every time, whatever its dynamics, centre, feedback, initial box and control sequence, and interval arithmetic contains every result for operands in the intervals. The interval observed or predicted for a vehicle driving alone on the centre of a straight lane of any direction contains that vehicle, for every behaviour parameter in the parameter box (the default boundary-only observer is an approximation: over its first instants).",
  ["fault_sequences", "histories", "configurations"],
  "Every disturbance and parameter schedule within bounds for systems within the predictor's design class.",
  "Two tests follow the nominal vehicle alone for two seconds on one straight road.",
  ["interval.py", "vehicle/uncertainty/prediction.py"],
  [("interval predictor", "interval.py"), ("partial observer", "vehicle/uncertainty/prediction.py")], [], ["true state against interval at each step"])

P("C24", "Episodes end exactly at the documented conditions",
  "An episode is reported as ended at a step if and only if the documented condition of that environment holds at its end: the ego vehicle (or, as documented, an agent) crashed, the configured duration elapsed, the goal or exit was reached, or the road was left where that is terminal; ids registered with a time limit also end when it is reached. It is reported at that very step, whatever caused the condition.",
  ["histories", "configurations", "fault_sequences"],
  "Every episode, duration, frequency and injected crash, arrival or road departure at any tick.",
  "Tests stop after three steps and ignore the flag.",
  ["envs/highway_env.py", "envs/merge_env.py", "envs/roundabout_env.py", "envs/intersection_env.py", "envs/two_way_env.py", "envs/parking_env.py", "envs/common/abstract.py"],
  [("termination predicates", "envs/highway_env.py")], [("steps", "decisions since reset", "AbstractEnv")], ["termination flag against the scene"])

P("C25", "Rewards and costs are the documented function and stay in range",
  "At every step the reward equals the documented weighted combination of the environment's terms (collision, speed, lane, lane change, merging traffic, distance to the goal) evaluated on the scene at the end of that step, and the rewards of the highway, the roundabout and, when normalised, the intersection lie in [0, 1]. Where a cost is defined it signals exactly the documented constraint violations.",
  ["histories", "configurations", "inputs", "fault_sequences"],
  "Every reachable scene, action and reward configuration, with injected crashes and road departures.",
  "Tests check one reward range after three steps.",
  ["envs/highway_env.py", "envs/merge_env.py", "envs/roundabout_env.py", "envs/intersection_env.py", "envs/two_way_env.py", "envs/parking_env.py", "envs/summon_env.py", "envs/lane_keeping_env.py"],
  [("reward functions", "envs/highway_env.py")], [], ["reward and cost against the scene"])

P("C26", "Vehicles always know their true lane and neighbours",
  "After every tick the current lane of each vehicle is the lane of the network closest to its position and heading. The preceding and following vehicles reported for any vehicle and lane are the nearest vehicle or obstacle ahead of and behind it on that lane, landmarks excluded, and the vehicles reported as close are exactly those within the distance, nearest first.",
  ["histories", "configurations", "fault_sequences", "schedules"],
  "Every network, traffic history and order of vehicles, with vehicles that jump, appear or vanish.",
  "One test checks the lane of one standing vehicle.",
  ["road/road.py", "vehicle/kinematics.py", "road/lane.py"],
  [("closest lane", "road/road.py"), ("neighbour search", "road/road.py"), ("lane updated after each move", "vehicle/kinematics.py")],
  [("lane_index", "current lane", "Vehicle")], ["lane and neighbours after each tick"])

P("C27", "The exported planning model is that of the current scene",
  "The finite decision process exported from an environment describes the current scene: its grid is the predicted time to collision with the other vehicles per speed, lane and time, its current state is that of the agent, each action leads to the state the documented meta-action leads to, rewards are the configured weights, and a state is terminal exactly after a collision or at the end of the horizon. Exporting it changes nothing: the scene and everything that follows are what they would have been without.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "Every scene, speed grid, time resolution, horizon and reward configuration, exported at any step of any episode.",
  "One test exports one model and checks nothing about its content.",
  ["envs/common/finite_mdp.py", "envs/common/abstract.py", "vehicle/controller.py"],
  [("time-to-collision grid", "envs/common/finite_mdp.py"), ("transition model", "envs/common/finite_mdp.py"), ("export", "envs/common/abstract.py")],
  [("grid", "predicted cost by speed, lane and time", "finite_mdp")], ["exported model against the scene", "scene before and after"])

P("C28", "Predicted trajectories are what the vehicle would do left alone",
  "The trajectory predicted for a decision-making vehicle under a sequence of actions is, sample by sample, the one it follows when it drives alone on its road under those actions at the same time step, from any state and at any frequency. The position and heading predicted at constant speed lie on the centre line of the vehicle's lane and planned route at the distance travelled. Predicting changes neither the vehicle nor the scene.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "Every vehicle state, route, action sequence, decision duration, sampling time and time step.",
  "No test looks at a predicted trajectory.",
  ["vehicle/controller.py", "road/road.py", "vehicle/kinematics.py"],
  [("trajectory prediction", "vehicle/controller.py"), ("constant-speed prediction", "vehicle/controller.py"), ("position along a route", "road/road.py")],
  [], ["predicted against simulated states"])

P("C29", "Recordings and estimators only observe, and record what happened",
  "Vehicles that record their trajectory, collect regression data, or carry estimators (route hypotheses, parameter sets, state intervals) drive exactly as plain vehicles of the same model would, and so does everything around them; queries by a planner, such as driving a copy that follows a hypothesis, change nothing in the scene nor in the estimates. Recorded trajectories hold the state after each tick, newest first, for the last thirty; the lane-keeping task records the state before every decision; regression samples hold the features and outputs of the controller at each decision. A record once made never changes.",
  ["histories", "configurations", "fault_sequences", "inputs"],
  "Every scene, fault and history, for every kind of recording or estimating vehicle, and every query.",
  "No test uses an estimator or looks at a recording.",
  ["vehicle/kinematics.py", "vehicle/behavior.py", "vehicle/controller.py", "vehicle/uncertainty/estimation.py", "vehicle/uncertainty/prediction.py", "envs/lane_keeping_env.py"],
  [("recorded trajectories", "vehicle/kinematics.py"), ("regression data", "vehicle/behavior.py"), ("route hypotheses", "vehicle/uncertainty/estimation.py"), ("recorded intervals", "vehicle/uncertainty/prediction.py")],
  [("history", "recent states", "Vehicle"), ("data", "regression samples", "LinearVehicle")], ["twin with plain vehicles", "records against the simulation"])

P("C30", "Lane coordinates and world positions are inverse to each other",
  "For every lane geometry, converting local coordinates to a world position and back gives the same coordinates.",
  ["inputs"], "Every lane geometry and coordinate.", "A property of all inputs of two pure functions.",
  ["road/lane.py"], [("coordinate conversions", "road/lane.py")])
P("C31", "The linear models of dynamical vehicles are first-order models of their dynamics",
  "At any forward speed from 1 m/s on, the linear lateral model of a dynamical vehicle (its dynamics, the effect of its steering, and its linear derivative) is the first-order expansion of the vehicle's own dynamics around straight driving at its present speed, and its parameter-varying form gives, for any friction coefficients, the model of a vehicle with these coefficients. Evaluating these models does not change the vehicle's motion. The tube that the lane-keeping task records with a predictor built from the model (one tick per decision) contains the recorded states of the vehicle at every decision, for any friction within the bounds, any controls and any bounded disturbance, and recording it does not change the episode.",
  ["histories", "inputs", "fault_sequences", "configurations"],
  "Every speed, friction, state, control sequence and history of pushes and collisions.",
  "One test drives a dynamical vehicle straight on.",
  ["vehicle/dynamics.py", "interval.py", "envs/lane_keeping_env.py"],
  [("linear lateral model", "vehicle/dynamics.py"), ("predictor of the lane-keeping task", "envs/lane_keeping_env.py"), ("interval predictor", "interval.py")],
  [("interval_trajectory", "recorded tube", "LaneKeepingEnv")], ["linear models against finite differences", "recorded tube against recorded states"])
P("C32", "Parameter estimates contain the behaviour they were learnt from",
  "The parameter set estimated from the decisions a vehicle recorded contains the parameters it drives by, whatever they are in the prior box, whatever happened to the vehicle meanwhile and whichever of its samples were kept, repeated or reordered. It stays within the prior box, and the dynamics built from it contain those of the vehicle. Samples produced by one and the same behaviour are never called inconsistent.",
  ["histories", "fault_sequences", "inputs"],
  "Every behaviour in the prior box and every history of recorded decisions.",
  "No test makes an estimate.",
  ["utils.py", "vehicle/uncertainty/estimation.py"],
  [("confidence regions", "utils.py"), ("consistency of data", "utils.py"), ("regression vehicles", "vehicle/uncertainty/estimation.py")],
  [("data", "regression samples", "LinearVehicle")], ["estimated set against the true parameters"])
