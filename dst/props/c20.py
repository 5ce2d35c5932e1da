"""C20 Configuration is respected and never altered behind the user's back."""
import copy
import os

import numpy as np

from .. import core, envref, world
from ..core import InjectedCrash, Violation, pin
from . import c15, c18, c21, c24, c25, common, stage, traces

ID = "C20"
QUICK_RUNS, THOROUGH_RUNS = 1620, 30000
RULE = "one case = one history of configurations given to an environment (at its creation, by configure, entry by entry, in the middle of steps or episodes); either every dictionary involved is compared after every operation with what it was, or the episode that follows is compared with that of a new environment or with the documented functions of the configuration, or the images with the viewer's configuration."
REAL = ["environments", "default configurations", "action and observation types", "EnvViewer", "gym registration"]
STUB = ["SDL's dummy video driver", "the pygame event queue", "pygame's clock", "the viewer in the middle of steps"]
ASSUMPTIONS = ["Entries that describe the viewer take effect with the next viewer.",
               "A dictionary that the user changes after handing it over is the user's business."]
SHRINK = ["ops", "acts", "events", "configs"]

ABSTRACT = dict(observation={"type": "TimeToCollision"}, action={"type": "DiscreteMetaAction"}, simulation_frequency=15,
                policy_frequency=1, other_vehicles_type="highway_env.vehicle.behavior.IDMVehicle", screen_width=600,
                screen_height=150, centering_position=[0.3, 0.5], scaling=5.5, show_trajectories=False, render_agent=True,
                offscreen_rendering=False, manual_control=False, real_time_rendering=False)
INTER = dict(observation={"type": "Kinematics", "vehicles_count": 15,
                          "features": ["presence", "x", "y", "vx", "vy", "cos_h", "sin_h"],
                          "features_range": {"x": [-100, 100], "y": [-100, 100], "vx": [-20, 20], "vy": [-20, 20]},
                          "absolute": True, "flatten": False, "observe_intentions": False},
             action={"type": "DiscreteMetaAction", "longitudinal": True, "lateral": False}, duration=13, destination="o1",
             controlled_vehicles=1, initial_vehicle_count=10, spawn_probability=0.6, screen_width=600, screen_height=600,
             centering_position=[0.5, 0.6], scaling=5.5 * 1.3, collision_reward=-5, normalize_reward=False)
MULTI = dict(INTER, action={"type": "MultiAgentAction", "action_config": {"type": "DiscreteMetaAction", "lateral": False, "longitudinal": True}},
             observation={"type": "MultiAgentObservation", "observation_config": {"type": "Kinematics"}}, controlled_vehicles=2)
PARK = dict(observation={"type": "KinematicsGoal", "features": ['x', 'y', 'vx', 'vy', 'cos_h', 'sin_h'],
                         "scales": [100, 100, 5, 5, 1, 1], "normalize": False},
            action={"type": "ContinuousAction"}, simulation_frequency=15, policy_frequency=5, duration=100, screen_width=600,
            screen_height=300, centering_position=[0.5, 0.5], scaling=7, controlled_vehicles=1)
DEFAULTS = {  # the documented defaults
    "highway": dict(observation={"type": "Kinematics"}, action={"type": "DiscreteMetaAction"}, lanes_count=4, vehicles_count=50,
                    controlled_vehicles=1, initial_lane_id=None, duration=40, ego_spacing=2, vehicles_density=1,
                    collision_reward=-1, reward_speed_range=[20, 30], offroad_terminal=False),
    "merge": {}, "two-way": dict(observation={"type": "TimeToCollision", "horizon": 5}, action={"type": "DiscreteMetaAction"}),
    "roundabout": dict(observation={"type": "Kinematics", "absolute": True, "features_range": {"x": [-100, 100], "y": [-100, 100], "vx": [-15, 15], "vy": [-15, 15]}},
                       action={"type": "DiscreteMetaAction"}, incoming_vehicle_destination=None, screen_width=600, screen_height=600,
                       centering_position=[0.5, 0.6], duration=11),
    "parking": PARK, "summon": dict(PARK, vehicles_count=10), "intersection": INTER, "multi-intersection": MULTI, "tuple-intersection": MULTI,
    "lane-keeping": dict(observation={"type": "AttributesObservation", "attributes": ["state", "derivative", "reference_state"]},
                         action={"type": "ContinuousAction", "steering_range": [-np.pi / 3, np.pi / 3], "longitudinal": False, "lateral": True, "dynamical": True},
                         simulation_frequency=10, policy_frequency=10, state_noise=0.05, derivative_noise=0.05, screen_width=600,
                         screen_height=250, scaling=7, centering_position=[0.4, 0.5]),
    "parking-repeat": dict(PARK, policy_frequency=1, duration=20),
    "summon-repeat": dict(PARK, vehicles_count=10, policy_frequency=1),
}
IDS = {i: n for i, n in traces.IDS.items()}


def same(a, b):
    """Equal as configurations: the values, not the kind of sequences or numbers."""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
        return not isinstance(a, str) and not isinstance(b, str) and hasattr(a, "__len__") and hasattr(b, "__len__") \
            and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def documented(name):
    return dict(ABSTRACT, **DEFAULTS[name])


def exact(x):
    """A configuration as it is, to the type."""
    return repr(sorted(x.items(), key=lambda kv: kv[0])) if isinstance(x, dict) else repr(x)


def check_defaults(env, name, given, what):
    cfg = world.base(env).config
    want = documented(name)
    for k, v in want.items():
        if k not in given and not same(cfg.get(k, "absent"), v):
            raise Violation("default", "%s: %s: the entry %r is %r, it was not given and its documented default is %r" % (
                what, name, k, cfg.get(k, "absent"), v))


def defaults_of(cls):
    """The defaults that a class documents, without building an environment."""
    return cls.__new__(cls).default_config()


def classes():
    return [world.env_class(n) for n in DEFAULTS if n not in ("tuple-intersection",) + world.NO_CONFIG]


# ------------------------------------------------------------------------------------------------ immutability
OPS = ["step", "step", "step", "reset", "seed", "copy", "derive", "render", "keys", "close", "other", "other", "raise", "configure",
       "entry", "nested", "make", "observe"]


def gen_config(rng, name):
    """Some valid entries for an environment."""
    cfg = world.gen_env(rng, [name])["cfg"]
    if name == "highway":
        cfg["vehicles_count"] = rng.choice([1, 3, 5])
    if name == "lane-keeping":
        return cfg
    if rng.random() < 0.3 and name not in ("merge", "two-way"):
        cfg["duration"] = rng.choice([2, 5, 9])
    if rng.random() < 0.3:
        cfg["show_trajectories"] = rng.random() < 0.5
    if rng.random() < 0.15:
        cfg["manual_control"] = True
    return cfg


NAMES = ["highway", "merge", "parking", "summon", "roundabout", "two-way", "intersection", "multi-intersection", "tuple-intersection", "lane-keeping"]


def gen_immutable(rng, tier):
    name = rng.choice(NAMES)
    cfg = gen_config(rng, name)
    onscreen = rng.random() < 0.5
    for k in ("screen_width", "screen_height"):
        cfg[k] = rng.choice([48, 60])
    cfg["offscreen_rendering"] = not onscreen
    if rng.random() < 0.5:
        cfg["centering_position"] = [0.4, 0.6]
    if rng.random() < 0.3:
        cfg["scaling"] = rng.choice([2.0, 4.5])
    ops = []
    for _ in range(rng.choice([3, 6, 10])):
        o = rng.choice(OPS)
        op = dict(op=o, a=rng.getrandbits(24))
        if o in ("configure", "other", "entry"):
            op["env"] = name if rng.random() < 0.5 else rng.choice(NAMES)
            op["cfg"] = gen_config(rng, name if o != "other" else op["env"])
            if o != "other":
                for k in ("observation", "action"):
                    op["cfg"].pop(k, None)
                for k in ("screen_width", "offscreen_rendering"):
                    op["cfg"].pop(k, None)
                op["cfg"].pop("manual_control", None)
                if "lanes_count" in op["cfg"]:
                    op["cfg"]["initial_lane_id"] = None
        ops.append(op)
    return dict(name=name, cfg=cfg, onscreen=onscreen, how=rng.choice(["constructor", "configure"]), ops=ops, seedling=rng.getrandbits(20))


class Watch:
    """Dictionaries and what they must be equal to."""

    def __init__(self, ctx):
        self.ctx, self.dicts = ctx, []
        self.pristine = [(c, exact(defaults_of(c))) for c in classes()]

    def add(self, what, d):
        self.dicts.append([what, d, exact(d)])

    def check(self, when):
        for what, d, want in self.dicts:
            self.ctx.probe("dictionaries compared")
            if exact(d) != want:
                raise Violation("altered", "%s: %s was altered: %s instead of %s" % (when, what, exact(d), want))
        for c, want in self.pristine:
            if exact(defaults_of(c)) != want:
                raise Violation("defaults", "%s: the defaults of %s have changed: %s instead of %s" % (when, c.__name__, exact(defaults_of(c)), want))


def run_immutable(plan, ctx):
    world.graphics()
    q = c18.Queue(ctx)
    w = Watch(ctx)
    name = plan["name"]
    user = world.tuples(world.clone(plan["cfg"]))
    w.add("the dictionary given by the user", user)
    cls = world.env_class(name)
    if plan["how"] == "constructor":
        env = cls(user)
    else:
        env = cls()
        world.base(env).configure(user)
    b = world.base(env)
    env.seed(plan["seedling"])
    env.reset()
    given = set(user)
    check_defaults(env, name, given, "after the creation")
    for k, v in user.items():
        if exact(b.config[k]) != exact(v):
            raise Violation("given", "the entry %r is %r, the user gave %r" % (k, b.config[k], v))
    w.add("the configuration of the environment", b.config)
    mine = w.dicts[-1]
    others = []
    for i, op in enumerate(plan["ops"]):
        o = op["op"]
        when = "%s, operation %d (%s)" % (name, i, o)
        if o == "step":
            out = env.step(world.decode(env.action_space, op["a"]))
            ctx.tick(1 / b.config["policy_frequency"])
            ctx.event(world.step_sig(env, out))
        elif o == "observe":
            b.observation_type.observe()
            if b.config["action"]["type"] == "DiscreteMetaAction":
                b.get_available_actions()
            b.define_spaces()
        elif o == "reset":
            env.reset()
        elif o == "seed":
            env.seed(op["a"])
        elif o == "copy":
            c = copy.deepcopy(b)
            if exact(c.config) != mine[2]:
                raise Violation("copy", "%s: a copy has the configuration %s instead of %s" % (when, exact(c.config), mine[2]))
            c.config["policy_frequency"] = 1
            for v in c.config.values():  # the copy is its owner's
                if isinstance(v, dict) and op["a"] % 2:
                    v["type"] = "nothing"
                if isinstance(v, list):
                    v[:] = [0] * len(v)
        elif o == "derive":
            k = op["a"] % 4
            c = b.simplify() if k == 0 else b.change_vehicles(world.vehicle_path("LinearVehicle")) if k == 1 else \
                b.randomize_behaviour() if k == 2 else b.set_vehicle_field(("target_speed", 10))
            if exact(c.config) != mine[2]:
                raise Violation("copy", "%s: a derived copy has the configuration %s instead of %s" % (when, exact(c.config), mine[2]))
        elif o in ("render", "keys"):
            q.batches = [[q.event(e) for e in c18.VIEW_KEYS + ["down-m", "mouse", "up-a"]]] if o == "keys" else []
            env.render("rgb_array" if op["a"] % 2 else "human")
            ctx.fault("viewer keys" if o == "keys" else "rendered")
        elif o == "close":
            env.close()
            for e in others:
                world.base(e).viewer = None
            b.done = False
        elif o == "other":
            d = world.tuples(world.clone(op["cfg"]))
            if op["a"] % 3 == 0:
                d.update(offscreen_rendering=True, screen_width=40, screen_height=40)
            w.add("the dictionary given to another environment", d)
            e = world.env_class(op["env"])(d)
            check_defaults(e, op["env"], set(d), when)
            e.step(world.decode(e.action_space, op["a"]))
            if op["a"] % 3 == 0:
                e.render("rgb_array")
            w.add("the configuration of another environment", world.base(e).config)
            others.append(e)
            ctx.fault("another environment")
        elif o == "raise":
            left = [op["a"] % 5 + 1]

            def cb():
                left[0] -= 1
                if left[0] == 0:
                    raise InjectedCrash("callback")
            v = b.viewer
            world.midstep(env, cb)
            world.arm(env)
            try:
                env.step(world.decode(env.action_space, op["a"]))
            except InjectedCrash:
                ctx.fault("exception in the middle of a step")
            finally:
                world.unarm(env)
                b.viewer = v
        elif o == "configure":
            d = world.tuples(world.clone(op["cfg"]))
            w.add("a dictionary given to configure", d)
            want = dict(b.config, **d)
            b.configure(d)
            if not same(want, b.config):
                raise Violation("configure", "%s: configuring %s makes %s instead of %s" % (when, d, b.config, want))
            mine[2] = exact(b.config)
            given |= set(d)
            env.reset()
        elif o == "entry":
            for k, v in op["cfg"].items():
                b.config[k] = v
            given |= set(op["cfg"])
            mine[2] = exact(b.config)
            env.reset()
        elif o == "nested":  # the user changes nested defaults of one environment only
            e = world.env_class(name)()
            for k, v in world.base(e).config.items():
                if isinstance(v, dict):
                    v["vehicles_count"] = 3
                if isinstance(v, list) and v and not isinstance(v[0], str):
                    v[0] = 0.25
            ctx.fault("nested defaults changed by the user")
        elif o == "make":
            import gym
            ids = sorted(IDS)
            i = ids[op["a"] % len(ids)]
            e = gym.make(i)
            check_defaults(e, IDS[i], set(), when + ", " + i)
            others.append(e)
        w.check(when)
        check_defaults(env, name, given, when)
    ctx.state(world.abstract_state(env))


# --------------------------------------------------------------------------------------- late configuration
def gen_late(rng, tier):
    while True:
        name = rng.choice(NAMES)
        final = gen_config(rng, name)
        base_ = gen_config(rng, name)
        configs = [gen_config(rng, name) for _ in range(rng.choice([0, 1, 2]))]
        n = rng.choice([2, 4])
        p = dict(name=name, start=base_, configs=[dict(cfg=c, how=rng.choice(HOW), a=rng.getrandbits(24), steps=rng.choice([0, 1, 2]), reset=rng.random() < 0.7)
                                                  for c in configs],
                 final=final, how=rng.choice(HOW), steps=rng.choice([0, 1, 2]), acts=world.gen_acts(rng, n, 0.3), seed2=rng.getrandbits(30))
        return p


HOW = ["configure", "entries", "mid-step", "one-by-one"]


def apply(env, cfg, defaults, how, a, ctx):
    """Make cfg the complete configuration: entries not in it go back to the defaults."""
    b = world.base(env)
    for k in set(b.config) - set(defaults):
        del b.config[k]
    full = dict(copy.deepcopy(defaults), **world.tuples(world.clone(cfg)))
    if how == "configure":
        b.configure(full)
    elif how == "entries":
        for k, v in full.items():
            b.config[k] = v
    elif how == "one-by-one":
        for k, v in full.items():
            b.configure({k: v})
    else:  # by a callback in the middle of a step: what that step does is not judged
        left = [a % 4 + 1]

        def cb():
            left[0] -= 1
            if left[0] == 0:
                b.configure(full)
        world.midstep(env, cb)
        world.arm(env)
        try:
            env.step(world.decode(env.action_space, a))
        except Exception:  # noqa
            ctx.probe("steps interrupted by their own reconfiguration")
        finally:
            world.unarm(env)
        b.configure(full)
    ctx.fault("configured: " + how)


def fresh(plan):
    spec = dict(env=plan["name"], cfg=plan["final"], seed=0)
    world.warm(spec)
    env = world.make_env(spec)
    return [spaces(env)] + traces.episode(env, plan["seed2"], plan["acts"]) + [spaces(env)]


def spaces(env):
    return world.h8((repr(env.observation_space), repr(env.action_space)))


def run_late(plan, ctx):
    want = core.in_child(lambda: fresh(plan), 100)
    if not isinstance(want, list):
        raise RuntimeError("new environment: %s" % want)
    specs = [dict(env=plan["name"], cfg=c) for c in [plan["final"]]]
    world.warm(*specs)
    env = world.make_env(dict(env=plan["name"], cfg=plan["start"]))
    defaults = copy.deepcopy(defaults_of(type(world.base(env))))
    env.seed(plan["seed2"] + 1)
    env.reset()
    for c in plan["configs"]:
        for i in range(c["steps"]):
            env.step(world.decode(env.action_space, c["a"] + i))
        apply(env, c["cfg"], defaults, c["how"], c["a"], ctx)
        env.reset()
    for i in range(plan["steps"]):
        env.step(world.decode(env.action_space, plan["seed2"] + i))
    apply(env, plan["final"], defaults, plan["how"], plan["seed2"], ctx)
    b = world.base(env)
    env.seed(plan["seed2"])
    env.reset()
    got = [spaces(env)] + traces.episode(env, plan["seed2"], plan["acts"]) + [spaces(env)]
    ctx.probe("late configurations compared with new environments")
    ctx.tick(1 / b.config["policy_frequency"], len(plan["acts"]))
    ctx.event(want)
    ctx.state(world.abstract_state(env))
    world.compare("late", want, traces.cut(got), "%s configured late (%s) instead of at its creation" % (plan["name"], plan["how"]))


# --------------------------------------------------------------------------- documented effect of the entries
def run_documented(plan, ctx):
    env = world.make_env(dict(env=plan["name"], cfg=plan["start"]))
    defaults = copy.deepcopy(defaults_of(type(world.base(env))))
    b = world.base(env)
    env.seed(plan["seed2"])
    env.reset()
    for i in range(plan["steps"]):
        env.step(world.decode(env.action_space, plan["seed2"] + i))
    apply(env, plan["final"], defaults, plan["how"], plan["seed2"], ctx)
    env.seed(plan["seed2"])
    obs = env.reset()
    want = dict(defaults, **world.tuples(world.clone(plan["final"])))
    if not same(want, b.config):
        raise Violation("configure", "the configuration is %s instead of %s" % (b.config, want))
    name = envref.kind(env)
    scenes = c15.Scenes(ctx, env)
    scenes.reset()
    views = c21.Views(ctx, env) if b.config["observation"]["type"] not in ("AttributesObservation",) else None
    box = {}
    ticks = []

    def after(road, dt):
        box["last"] = list(road.vehicles)
        ticks.append(float(dt))
    def before_act(road):
        if name == "lane-keeping" and "state" not in box:
            box["state"], box["derivative"] = np.array(b.vehicle.state), np.array(b.vehicle.derivative)
    world.attach(env, ctx, before_act=before_act, after=after)
    if views:
        views.check(obs, b.road.vehicles, "%s, reset" % name)
    ends, rewards = c24.Ends(ctx), c25.Rewards(ctx)
    period = int(b.config["simulation_frequency"] // b.config["policy_frequency"])
    for k, a in enumerate(plan["acts"]):
        box.pop("state", None)
        action = world.decode(env.action_space, a)
        ticks[:] = []
        commands, speed = dict(b.vehicle.action), abs(b.vehicle.speed)
        out = env.step(action)
        obs = out[0]
        if name == "lane-keeping":
            noise(env, obs, box, ctx)
        over = any(out[2]) if isinstance(out[2], tuple) else bool(out[2])
        if any(abs(t - 1 / b.config["simulation_frequency"]) > 1e-12 for t in ticks) or len(ticks) > period or (len(ticks) < period and not over):
            raise Violation("frequency", "%s: a decision took %d ticks of %s s with %s and %s Hz" % (
                name, len(ticks), ticks[:1], b.config["simulation_frequency"], b.config["policy_frequency"]))
        if views:
            views.check(obs, box["last"] if name == "intersection" else b.road.vehicles, "%s, decision %d" % (name, k))
        if b.config["manual_control"] and "Continuous" in str(b.config["action"]) and name != "lane-keeping":
            now = {c: float(b.vehicle.action[c]) for c in ("acceleration", "steering")}
            slow = max(abs(b.vehicle.speed), speed) < 0.9 * b.vehicle.MAX_SPEED
            if not b.vehicle.crashed and slow and any(now[c] != float(commands[c]) for c in now):
                raise Violation("manual", "%s: the agent's action is applied under manual control" % name)
        if not b.config["manual_control"]:
            rewards.step(env, action, out)
        ends.step(env, action, out)
        ctx.event(world.step_sig(env, out))
        ctx.probe("decisions judged against the configuration")
        if over:
            break
    ctx.state(world.abstract_state(env))


def noise(env, obs, box, ctx):
    """The noises of the lane-keeping measurements, made before the physics, are bounded as configured."""
    b = world.base(env)
    ctx.probe("noise bounds")
    for key in ("state", "derivative"):
        bound = b.config[key + "_noise"]
        d = np.abs(np.asarray(obs[key]).ravel() - box[key][[1, 2, 4, 5]].ravel())
        if (d > bound + 1e-9).any():
            raise Violation("noise", "the measured %s is off by %s, the configured noise is %s" % (key, d, bound))
        if bound and (d == 0).all():
            raise Violation("noise", "the measured %s has no noise, %s is configured" % (key, bound))


def gen_documented(rng, tier):
    p = gen_late(rng, tier)
    p["configs"] = []
    p["acts"] = world.gen_acts(rng, rng.choice([2, 5, 9]), 0.3)
    return p


# Entries one at a time, everything else at its default, with their extreme values.
P = world.vehicle_path
SINGLE = dict(
    highway=dict(lanes_count=[1, 2, 3, 6], vehicles_count=[0, 1, 7], initial_lane_id=[0, 0, 1, 2, 3], duration=[0, 1, 2, 3],
                 ego_spacing=[0.5, 1, 4], vehicles_density=[0.5, 1, 2.5], collision_reward=[0, -1, -3], reward_speed_range=[[20, 30], [0, 30], [24, 26], [30, 40]],
                 offroad_terminal=[True, False], policy_frequency=[1, 2, 3, 5, 15], simulation_frequency=[1, 2, 7, 15, 30],
                 other_vehicles_type=[P(x) for x in world.TRAFFIC]),
    merge=dict(policy_frequency=[1, 3, 5], simulation_frequency=[5, 7], other_vehicles_type=[P(x) for x in world.TRAFFIC]),
    roundabout=dict(incoming_vehicle_destination=[None, 0, 1, 2], duration=[0, 1, 2, 3], policy_frequency=[1, 3, 5], simulation_frequency=[5, 7],
                    other_vehicles_type=[P(x) for x in world.TRAFFIC]),
    intersection=dict(initial_vehicle_count=[0, 1, 2, 15], spawn_probability=[0, 1], destination=[None, "o1", "o2", "o3"], duration=[0, 1, 2],
                      normalize_reward=[True, False], collision_reward=[0, -2, -5], policy_frequency=[1, 3], simulation_frequency=[5, 7],
                      other_vehicles_type=[P(x) for x in world.TRAFFIC]),
    parking=dict(duration=[0, 1, 3], policy_frequency=[1, 3, 5], simulation_frequency=[5, 7]),
    summon=dict(vehicles_count=[0, 1, 14], duration=[0, 1, 3], policy_frequency=[1, 3, 5], simulation_frequency=[5, 7],
                other_vehicles_type=[P(x) for x in world.TRAFFIC]),
)
SINGLE["two-way"] = SINGLE["merge"]
SINGLE["multi-intersection"] = dict(SINGLE["intersection"], controlled_vehicles=[1, 3, 4])
SINGLE["lane-keeping"] = dict(state_noise=[0, 0.2], derivative_noise=[0, 0.2])


def gen_single(rng, tier):
    name = rng.choice(["highway", "highway", "highway", "intersection", "intersection"] + sorted(SINGLE))
    k = rng.choice(sorted(SINGLE[name]))
    final = {k: rng.choice(SINGLE[name][k])}
    if name == "highway" and k != "vehicles_count":
        final["vehicles_count"] = 40 if k == "initial_lane_id" else 6
    if k == "policy_frequency" and name != "lane-keeping":
        final["simulation_frequency"] = final[k] * rng.choice([1, 2, 3, 4])
    if rng.random() < 0.3:
        k2 = rng.choice([x for x in sorted(SINGLE[name]) if x not in ("policy_frequency", "simulation_frequency", "lanes_count")])
        final.setdefault(k2, rng.choice(SINGLE[name][k2]))
    if final.get("initial_lane_id") is not None and "lanes_count" in final:
        final["initial_lane_id"] %= final["lanes_count"]
    return dict(name=name, start={} if rng.random() < 0.5 else {"vehicles_count": 2} if name == "highway" else {}, configs=[], final=final, how=rng.choice(HOW),
                steps=rng.choice([0, 0, 1]), acts=world.gen_acts(rng, rng.choice([1, 3, 5]), 0.3), seed2=rng.getrandbits(30))


# ----------------------------------------------------------------------------------------------------- viewer
class Display:
    """Records what is asked of the display and of the clock."""

    def __init__(self, ctx):
        import pygame
        self.modes, self.rates = [], []
        if getattr(pygame.display, "dst_set_mode", None) is None:
            pygame.display.dst_set_mode = pygame.display.set_mode
        pygame.display.set_mode = self.set_mode
        self.set = pygame.display.dst_set_mode
        pygame.time.Clock = lambda: self

    def set_mode(self, size, *a, **k):
        self.modes.append(tuple(int(x) for x in size))
        return self.set(size, *a, **k)

    def tick(self, rate=0):
        self.rates.append(rate)
        return 0


def gen_viewer(rng, tier):
    w, h = rng.choice([(120, 60), (200, 60), (80, 80), (60, 120)])
    final = dict(screen_width=w, screen_height=h, scaling=rng.choice([2.0, 4.0, 5.5, 7.15]),
                 centering_position=rng.choice([[0.5, 0.5], [0.3, 0.5], [0.5, 0.6], [0.7, 0.3]]),
                 show_trajectories=rng.random() < 0.4, render_agent=rng.random() < 0.5, offscreen_rendering=rng.random() < 0.5,
                 real_time_rendering=rng.random() < 0.5, vehicles_count=0, simulation_frequency=rng.choice([5, 15, 20]),
                 lanes_count=rng.choice([1, 3]))
    drop = [k for k in ("show_trajectories", "render_agent", "real_time_rendering", "centering_position", "scaling") if rng.random() < 0.3]
    for k in drop:
        final.pop(k)
    return dict(final=final, how=rng.choice(["constructor", "configure", "entries", "one-by-one"]), viewed=rng.random() < 0.3,
                steps=rng.choice([1, 2]), seed2=rng.getrandbits(30), environ=rng.random() < 0.15)


def run_viewer(plan, ctx):
    world.graphics()
    c18.Queue(ctx)
    d = Display(ctx)
    cfg = world.clone(plan["final"])
    cls = world.env_class("highway")
    if plan["environ"]:
        cfg.pop("offscreen_rendering")
        os.environ["OFFSCREEN_RENDERING"] = "1"
    try:
        env = cls(cfg) if plan["how"] == "constructor" else cls(dict(vehicles_count=0))
        if plan["environ"] and env.config["offscreen_rendering"] is not True:
            raise Violation("environ", "offscreen rendering is %r with OFFSCREEN_RENDERING=1" % env.config["offscreen_rendering"])
    finally:
        os.environ.pop("OFFSCREEN_RENDERING", None)
    want = dict(documented("highway"), **cfg)
    want["offscreen_rendering"] = plan["final"]["offscreen_rendering"] if not plan["environ"] else True
    env.seed(plan["seed2"])
    if plan["viewed"]:  # an earlier viewer
        env.render("rgb_array")
        env.close()
        ctx.fault("viewer closed")
    if plan["how"] != "constructor":
        apply(env, cfg, dict(defaults_of(cls), offscreen_rendering=want["offscreen_rendering"]), plan["how"], 0, ctx)
    d.modes[:], d.rates[:] = [], []
    env.seed(plan["seed2"])
    env.reset()
    for _ in range(plan["steps"]):
        env.step(1)
    img = env.render("rgb_array")
    w, h, s = want["screen_width"], want["screen_height"], want["scaling"]
    if want["offscreen_rendering"] != (not d.modes):
        raise Violation("offscreen", "offscreen_rendering=%s and the display is set to %s" % (want["offscreen_rendering"], d.modes))
    if d.modes and d.modes[-1] != (w, h):
        raise Violation("screen", "the window is %s, configured %s" % (d.modes[-1], (w, h)))
    if img.shape != (h, w, 3):
        raise Violation("size", "image of shape %s, configured %d x %d" % (img.shape, w, h))
    rates = [want["simulation_frequency"]] if want["real_time_rendering"] and not want["offscreen_rendering"] else []
    if sorted(set(d.rates)) != rates:
        raise Violation("real-time", "the clock is asked for %s Hz with %s" % (d.rates, {k: want[k] for k in ("real_time_rendering", "offscreen_rendering", "simulation_frequency")}))
    geometry(env, img, want, ctx)
    # the trajectories
    c = copy.deepcopy(env)
    c.config["offscreen_rendering"] = True
    e = copy.deepcopy(env)
    e.config["offscreen_rendering"] = True
    e.vehicle.history.clear()
    a, b = c.render("rgb_array"), e.render("rgb_array")
    trails = not np.array_equal(a, b)
    inside = want["centering_position"][0] * w - 6 * s > 3  # where the vehicle was a third of a second ago
    if (trails or inside) and trails != bool(want["show_trajectories"]):
        raise Violation("trajectories", "show_trajectories=%s and the past positions are %s" % (want["show_trajectories"], "shown" if trails else "not shown"))
    ctx.probe("viewers judged")
    # the display of the agent
    env.viewer.set_agent_display(lambda agent, sim: agent.fill((1, 2, 3)))
    env.step(1)
    img = env.render("rgb_array")
    size = (h, w, 3)
    if want["render_agent"] and not want["offscreen_rendering"]:
        size = (2 * h, w, 3) if w > h else (h, 2 * w, 3)
    if img.shape != size:
        raise Violation("render-agent", "image of shape %s instead of %s with %s" % (img.shape, size, {k: want[k] for k in ("render_agent", "offscreen_rendering")}))
    ctx.event(world.h8(world.canon(img)))
    ctx.tick(plan["steps"] + 1)
    ctx.state((w, h, s, bool(want["show_trajectories"])))


def geometry(env, img, want, ctx):
    """The ego vehicle is drawn where and as large as configured."""
    if want["show_trajectories"]:
        return
    w, h, s = want["screen_width"], want["screen_height"], want["scaling"]
    cx, cy = want["centering_position"][0] * w, want["centering_position"][1] * h
    green = (img == np.array([50, 200, 0])).all(axis=-1)
    ys, xs = np.nonzero(green)
    length, width = 5 * s, 2 * s
    if abs(env.vehicle.heading) > 0.02 or cx - length / 2 < 2 or cx + length / 2 > w - 2 or cy - width / 2 < 2 or cy + width / 2 > h - 2:
        return
    ctx.probe("vehicles located in the image")
    if not len(xs):
        raise Violation("geometry", "the ego vehicle is not in the image with %s" % {k: want[k] for k in ("scaling", "centering_position")})
    box = (xs.min(), xs.max(), ys.min(), ys.max())
    exp = (cx - length / 2, cx + length / 2, cy - width / 2, cy + width / 2)
    if any(abs(p - q) > 4 for p, q in zip(box, exp)):
        raise Violation("geometry", "the ego vehicle spans the pixels %s instead of %s with %s in %d x %d" % (
            box, exp, {k: want[k] for k in ("scaling", "centering_position")}, w, h))


FAMILIES = {"immutable": (4, gen_immutable, run_immutable), "late": (3, gen_late, run_late),
            "documented": (3, gen_documented, run_documented),
            "single": (4, gen_single, run_documented), "viewer": (2, gen_viewer, run_viewer)}
