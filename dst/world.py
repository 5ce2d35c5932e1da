"""Simulated worlds: environments and custom roads, the faults injected in them, and what is observed."""
import hashlib
import math
import random

import numpy as np

from . import ref
from .core import Violation

# ------------------------------------------------------------------------------------------ environments
# key: (class name, agents, default observation, supports continuous actions, cost of one step in s, obs types)
ENVS = {
    "highway": "HighwayEnv", "merge": "MergeEnv", "parking": "ParkingEnv", "summon": "SummonEnv",
    "roundabout": "RoundaboutEnv", "two-way": "TwoWayEnv", "intersection": "IntersectionEnv",
    "multi-intersection": "MultiAgentIntersectionEnv", "tuple-intersection": "TupleMultiAgentIntersectionEnv",
    "lane-keeping": "LaneKeepingEnv", "parking-repeat": "ParkingEnvActionRepeat",
    "summon-repeat": "SummonEnvActionRepeat", "custom": None,
}
TRAFFIC = ["IDMVehicle", "LinearVehicle", "AggressiveVehicle", "DefensiveVehicle"]
ESTIMATORS = ["MultipleModelVehicle", "RegressionVehicle", "IntervalVehicle"]
NO_CONFIG = ("parking-repeat", "summon-repeat")
CONTINUOUS = {"type": "ContinuousAction"}


def vehicle_path(name):
    return "highway_env.vehicle.behavior." + name


def gen_env(rng, envs=None, obs=None, actions=True, freqs=True, traffic=True, small=True):
    """A random environment specification (swarm: every knob is set or left alone at random)."""
    name = rng.choice(envs or ["highway", "merge", "parking", "summon", "roundabout", "two-way", "intersection",
                               "multi-intersection", "lane-keeping"])
    cfg = {}
    if name in NO_CONFIG:
        return dict(env=name, cfg={}, seed=rng.getrandbits(30))
    multi = False
    if name == "custom":
        from . import customenv
        customenv.gen(rng, cfg)
        multi = "action" in cfg
    if name == "highway":
        cfg["vehicles_count"] = rng.choice([3, 5, 8, 12]) if small else rng.choice([5, 12, 20, 30])
        cfg["vehicles_density"] = rng.choice([0.7, 1, 1.5, 2, 3])
        cfg["lanes_count"] = rng.choice([1, 2, 3, 3, 4, 5])
        if rng.random() < 0.3:
            cfg["initial_lane_id"] = rng.randrange(cfg["lanes_count"])
        if rng.random() < 0.3:
            cfg["ego_spacing"] = rng.choice([0.5, 1, 2, 3])
        if rng.random() < 0.3:
            cfg["duration"] = rng.choice([3, 8, 20])
        if rng.random() < 0.3:
            cfg["offroad_terminal"] = True
        if rng.random() < 0.2:
            cfg["reward_speed_range"] = rng.choice([[20, 30], [10, 25], [0, 40]])
        if rng.random() < 0.2:
            cfg["collision_reward"] = rng.choice([-1, -0.5, -5])
    elif name in ("intersection", "multi-intersection", "tuple-intersection"):
        if rng.random() < 0.5:
            cfg["initial_vehicle_count"] = rng.choice([1, 3, 6, 10])
        if rng.random() < 0.4:
            cfg["spawn_probability"] = rng.choice([0, 0.3, 0.6, 1])
        if rng.random() < 0.4:
            cfg["destination"] = rng.choice([None, "o1", "o2", "o3"])
        if rng.random() < 0.3:
            cfg["duration"] = rng.choice([2, 5, 13])
        if rng.random() < 0.3:
            cfg["normalize_reward"] = True
        if name != "intersection":
            if rng.random() < 0.5:
                cfg["controlled_vehicles"] = rng.choice([1, 2, 3, 4])
    elif name == "roundabout":
        if rng.random() < 0.4:
            cfg["incoming_vehicle_destination"] = rng.choice([0, 1, 2])
        if rng.random() < 0.3:
            cfg["duration"] = rng.choice([3, 11])
    elif name == "summon":
        if rng.random() < 0.5:
            cfg["vehicles_count"] = rng.choice([0, 3, 10, 15])
    elif name == "parking":
        if rng.random() < 0.3:
            cfg["duration"] = rng.choice([5, 20, 100])
    if name == "lane-keeping":
        if rng.random() < 0.5:
            cfg["state_noise"] = rng.choice([0, 0.05, 0.3])
            cfg["derivative_noise"] = rng.choice([0, 0.05, 0.3])
        return dict(env=name, cfg=cfg, seed=rng.getrandbits(30))
    if traffic and name != "parking" and rng.random() < 0.5:
        cfg["other_vehicles_type"] = vehicle_path(rng.choice(TRAFFIC))
    if freqs and rng.random() < 0.6:
        cfg["simulation_frequency"] = rng.choice([5, 10, 15, 20])
        cfg["policy_frequency"] = rng.choice([1, 1, 2, 5])
    if multi:
        return dict(env=name, cfg=cfg, seed=rng.getrandbits(30))
    if actions and rng.random() < 0.4:
        a = gen_action(rng, name)
        if a:
            cfg["action"] = a
    if name == "custom" and continuous(cfg):
        cfg["scene"]["regulated"] = False
    if obs is None:
        obs = rng.random() < 0.5
    if obs:
        o = gen_obs(rng, name, cfg)
        if o:
            cfg["observation"] = o
    return dict(env=name, cfg=cfg, seed=rng.getrandbits(30))


def continuous(cfg):
    return cfg.get("action", {}).get("type") == "ContinuousAction"


def gen_action(rng, name):
    if name in ("parking", "summon"):
        a = dict(CONTINUOUS)
        if rng.random() < 0.4:
            a["acceleration_range"] = rng.choice([[-3, 3], [-5, 2], [0, 5]])
        if rng.random() < 0.4:
            a["steering_range"] = rng.choice([[-0.3, 0.3], [-0.5, 0.2]])
        return a
    if name == "highway":
        if rng.random() < 0.5:
            a = dict(CONTINUOUS)
            k = rng.randrange(4)
            if k == 0:
                a["lateral"] = False
            elif k == 1:
                a["longitudinal"] = False
            if rng.random() < 0.3:
                a["acceleration_range"] = rng.choice([[-3, 3], [-5, 2]])
            if rng.random() < 0.3:
                a["dynamical"] = True
            return a
        return {"type": "DiscreteMetaAction", "longitudinal": True, "lateral": rng.random() < 0.5} \
            if rng.random() < 0.5 else {"type": "DiscreteMetaAction", "longitudinal": False, "lateral": True}
    if name in ("roundabout", "merge", "two-way", "custom"):
        k = rng.randrange(4 if name in ("roundabout", "custom") else 3)
        return [None, {"type": "DiscreteMetaAction", "longitudinal": True, "lateral": False},
                {"type": "DiscreteMetaAction", "longitudinal": False, "lateral": True}, dict(CONTINUOUS)][k]
    return None


FEATURES = ["presence", "x", "y", "vx", "vy", "cos_h", "sin_h", "cos_d", "sin_d"]


def gen_obs(rng, name, cfg):
    if name in ("parking", "summon", "multi-intersection", "tuple-intersection"):
        if name in ("multi-intersection", "tuple-intersection") and rng.random() < 0.6:
            return {"type": "MultiAgentObservation", "observation_config": gen_kinematics(rng)}
        return None
    kinds = ["Kinematics", "Kinematics", "OccupancyGrid"]
    if not continuous(cfg):
        kinds.append("TimeToCollision")
    k = rng.choice(kinds)
    if k == "Kinematics":
        return gen_kinematics(rng)
    if k == "OccupancyGrid":
        o = {"type": "OccupancyGrid"}
        if rng.random() < 0.5:
            o["features"] = rng.choice([["presence", "vx", "vy"], ["presence"], ["vx", "cos_h", "presence"]])
        if rng.random() < 0.4:
            o["grid_size"] = rng.choice([[[-20, 20], [-20, 20]], [[-30, 30], [-30, 30]]])
            o["grid_step"] = rng.choice([[5, 5], [4, 4]])
        if rng.random() < 0.4:  # narrow: many values fall outside and are clipped
            o["features_range"] = rng.choice([{"vx": [-20, 20], "vy": [-20, 20]}, {"vx": [-5, 5], "vy": [-2, 2]},
                                              {"vx": [0, 10], "vy": [-1, 3]}, {"vx": [-60, -20], "vy": [5, 20]}])
            if rng.random() < 0.4:
                o["features_range"] = dict(o["features_range"], **rng.choice([{"x": [-50, 50], "y": [-20, 20]}, {"x": [-10, 30]}, {"y": [-4, 4]}]))
                if rng.random() < 0.5:
                    o["features"] = ["presence", "x", "y"]
        return o
    return {"type": "TimeToCollision", "horizon": rng.choice([5, 8, 10])}


def gen_kinematics(rng):
    o = {"type": "Kinematics"}
    if rng.random() < 0.5:
        o["vehicles_count"] = rng.choice([1, 2, 3, 5, 8, 15])
    if rng.random() < 0.5:
        o["features"] = ["presence"] + rng.sample(FEATURES[1:], rng.randint(2, 8))
    if rng.random() < 0.4:
        o["absolute"] = True
        o["features_range"] = {"x": [-400, 400], "y": [-200, 200], "vx": [-40, 40], "vy": [-40, 40]}
    elif rng.random() < 0.3:
        o["features_range"] = {"x": [-100, 100], "y": [-50, 50], "vx": [-20, 20], "vy": [-20, 20]}
    for k in ("see_behind", "observe_intentions"):
        if rng.random() < 0.4:
            o[k] = rng.random() < 0.7
    if rng.random() < 0.25:
        o["order"] = "shuffled"
    return o


def tuples(cfg):
    """JSON has no tuples: restore them where the environment documents one."""
    cfg = dict(cfg)
    o = cfg.get("observation")
    if isinstance(o, dict) and "observation_shape" in o:
        cfg["observation"] = dict(o, observation_shape=tuple(o["observation_shape"]))
    return cfg


def clone(x):
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    if isinstance(x, list):
        return [clone(v) for v in x]
    return x


def env_class(name):
    if name == "custom":
        from . import customenv
        return customenv.custom_class()
    import highway_env.envs as E
    if hasattr(E, ENVS[name]):
        return getattr(E, ENVS[name])
    import importlib
    for mod in ("intersection_env", "parking_env", "summon_env"):
        m = importlib.import_module("highway_env.envs." + mod)
        if hasattr(m, ENVS[name]):
            return getattr(m, ENVS[name])
    raise KeyError(name)


def make_env(spec):
    """Create the environment; it is not seeded yet."""
    if "id" in spec:
        import gym
        return gym.make(spec["id"])
    cls = env_class(spec["env"])
    cfg = tuples(clone(spec.get("cfg") or {}))
    return cls() if spec["env"] in NO_CONFIG else cls(cfg)


def build_env(spec):
    """Create, seed and reset. Returns (env, first observation)."""
    env = make_env(spec)
    env.seed(spec["seed"])
    return env, env.reset()


def base(env):
    return env.unwrapped


def warm(*specs):
    """Neutralise finding F2 (known_findings.jsonl): creating an intersection changes the driver parameters of its
    traffic class for the whole process. Both sides of a comparison are warmed up the same way."""
    import importlib
    for s in specs:
        if "intersection" in s["env"]:
            module, name = (s.get("cfg") or {}).get("other_vehicles_type", vehicle_path("IDMVehicle")).rsplit(".", 1)
            cls = getattr(importlib.import_module(module), name)
            cls.DISTANCE_WANTED, cls.COMFORT_ACC_MAX, cls.COMFORT_ACC_MIN = 7, 6, -3


class FakeViewer:
    """Stands for an open viewer: enables the callback the environment makes after every simulation tick."""
    offscreen, enabled = True, False

    def display(self):
        pass

    def handle_events(self):
        pass

    def get_image(self):
        return np.zeros((1, 1, 3), dtype=np.uint8)

    def close(self):
        pass


def midstep(env, fn):
    """Have fn() called after every simulation tick, in the middle of env.step. Call arm(env) before each step."""
    b = base(env)
    b.viewer, b.automatic_rendering_callback = FakeViewer(), fn


def arm(env):
    base(env).enable_auto_render = True


def unarm(env):
    b = base(env)
    b.viewer = b.automatic_rendering_callback = None


def graphics():
    """Make pygame usable without a screen: SDL's dummy driver is selected while pygame initialises, whoever does it."""
    import os
    import pygame
    if getattr(pygame, "dst_init", None) is None:
        pygame.dst_init = pygame.init

        def init():
            os.environ["SDL_VIDEODRIVER"] = "dummy"
            try:
                return pygame.dst_init()
            finally:
                os.environ.pop("SDL_VIDEODRIVER", None)
        pygame.init = init


# ------------------------------------------------------------------------------------------------ actions
def decode(space, a):
    """One integer -> one action of the space (with the extremes over-represented)."""
    if hasattr(space, "spaces"):
        return tuple(decode(s, (a * 7919 + 31 * i) % (1 << 30)) for i, s in enumerate(space.spaces))
    if hasattr(space, "n"):
        return int(a % space.n)
    r = random.Random(a)
    k = r.randrange(6)
    if k == 0:
        v = [r.choice([-1.0, 1.0]) for _ in range(space.shape[0])]
    elif k == 1:
        v = [0.0] * space.shape[0]
    else:
        v = [r.uniform(-1, 1) for _ in range(space.shape[0])]
    return np.array(v, dtype=np.float32)


def gen_acts(rng, n, sticky=0.3):
    acts, last = [], rng.getrandbits(24)
    for _ in range(n):
        if rng.random() >= sticky:
            last = rng.getrandbits(24)
        acts.append(last)
    return acts


# ------------------------------------------------------------------------------------------------ digests
def canon(x):
    """Exact, order-preserving, hashable description of any returned value."""
    if isinstance(x, np.ndarray):
        return ("A", x.shape, np.ascontiguousarray(x, dtype=float).tobytes() if x.dtype != object
                else tuple(canon(v) for v in x.ravel()))
    if isinstance(x, dict):
        return ("D",) + tuple((str(k), canon(x[k])) for k in sorted(x, key=str))
    if isinstance(x, (list, tuple)):
        return ("T",) + tuple(canon(v) for v in x)
    if isinstance(x, (bool, np.bool_)):
        return ("B", bool(x))
    if isinstance(x, (int, float, np.integer, np.floating)):
        return ("F", float(x).hex())
    if x is None or isinstance(x, str):
        return ("S", x)
    return ("R", repr(type(x)))


def h8(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


def index3(i):
    return tuple(i) if isinstance(i, (tuple, list)) else None


def vehicle_sig(v, cls=True):
    return ((type(v).__name__ if cls else None), float(v.position[0]).hex(), float(v.position[1]).hex(),
            float(v.heading).hex(), float(v.speed).hex(), bool(v.crashed), str(index3(v.lane_index)),
            str(index3(getattr(v, "target_lane_index", None))),
            float(getattr(v, "target_speed", 0.0) or 0.0).hex())


def scene_sig(env, cls=True):
    road = base(env).road
    return tuple(vehicle_sig(v, cls) for v in road.vehicles) + \
        tuple((type(o).__name__, float(o.position[0]).hex(), float(o.position[1]).hex(), bool(o.hit))
              for o in road.objects)


def step_sig(env, out):
    """Digest of everything a step returned and of the scene it led to."""
    obs, reward, done, info = out
    return [h8(canon(obs)), h8(canon(reward)), h8(canon(done)), h8(canon(info)), h8(scene_sig(env))]


PARTS = ["observation", "reward", "termination", "info", "trajectory of the vehicles"]


def compare(kind, a, b, what):
    """Raise if two traces (lists of step digests) differ; name the first step and part that differ."""
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            part = "trace"
            if isinstance(x, list) and isinstance(y, list) and len(x) == len(y) == 5:
                part = PARTS[[p != q for p, q in zip(x, y)].index(True)]
            raise Violation(kind, "%s: %s differs at entry %d" % (what, part, i))
    if len(a) != len(b):
        raise Violation(kind, "%s: %d entries instead of %d" % (what, len(b), len(a)))


def rollout(env, acts, stop_at_done=False, on_step=None):
    trace = []
    for a in acts:
        out = env.step(decode(env.action_space, a))
        trace.append(step_sig(env, out))
        if on_step:
            on_step(env, out)
        if stop_at_done and (out[2] if not isinstance(out[2], tuple) else any(out[2])):
            break
    return trace


def finite_mdp():
    """A stand-in for the finite_mdp package, which is not installed: it only keeps the model it is given."""
    import sys
    import types
    mod = types.ModuleType("finite_mdp.mdp")

    class DeterministicMDP:
        def __init__(self, transition, reward, terminal=None, state=0):
            self.transition, self.reward, self.terminal, self.state = transition, reward, terminal, state
    mod.DeterministicMDP = DeterministicMDP
    sys.modules["finite_mdp"], sys.modules["finite_mdp.mdp"] = types.ModuleType("finite_mdp"), mod


def abstract_state(env):
    """Coarse signature of a scene, for the distinct-states measure."""
    b = base(env)
    return tuple(sorted((type(v).__name__[:2], str(index3(v.lane_index)), int(v.speed // 5), bool(v.crashed),
                         int(v.position[0] // 10), int(v.position[1] // 10)) for v in b.road.vehicles))


# -------------------------------------------------------------------------------------------- custom roads
def lane_from(spec):
    from highway_env.road.lane import StraightLane, SineLane, CircularLane
    t = spec["t"]
    kw = dict(width=spec.get("width", 4), forbidden=spec.get("forbidden", False),
              speed_limit=spec.get("limit", 20), priority=spec.get("priority", 0))
    if t == "straight":
        return StraightLane(spec["start"], spec["end"], **kw)
    if t == "sine":
        return SineLane(spec["start"], spec["end"], spec["amp"], spec["puls"], spec["phase"], **kw)
    return CircularLane(spec["center"], spec["radius"], spec["p0"], spec["p1"], clockwise=spec["cw"], **kw)


def parallel(lanes, length, angle=0.0, origin=(0, 0), limit=20, width=4, forbidden=(), priority=0):
    """Lane specifications of a straight road."""
    out = []
    for i in range(lanes):
        n = (-math.sin(angle) * i * width, math.cos(angle) * i * width)
        s = [origin[0] + n[0], origin[1] + n[1]]
        e = [s[0] + length * math.cos(angle), s[1] + length * math.sin(angle)]
        out.append(dict(t="straight", start=s, end=e, width=width, limit=limit, forbidden=i in forbidden,
                        priority=priority))
    return out


def gen_road(rng, kinds=("straight", "straight", "chain", "sine", "ring", "fork")):
    """A road network specification: list of edges {from, to, lanes}."""
    kind = rng.choice(list(kinds))
    limit = rng.choice([10, 20, 25, 30])
    if kind == "straight":
        n = rng.choice([1, 2, 2, 3, 4])
        fb = [rng.randrange(n)] if n > 1 and rng.random() < 0.2 else []
        return dict(kind=kind, edges=[dict(f="a", t="b", lanes=parallel(n, 2000, rng.choice([0, 0, 0.7, 2.5, -1.2]),
                                                                      limit=limit, forbidden=fb))])
    if kind == "chain":  # consecutive roads, with the same or different lane counts
        ang = rng.choice([0, 0.4, 3.0])
        edges, x, y = [], 0.0, 0.0
        n = rng.choice([1, 2, 3])
        for k in range(rng.randint(2, 5)):
            length = rng.choice([40, 80, 150])
            edges.append(dict(f="n%d" % k, t="n%d" % (k + 1), lanes=parallel(n, length, ang, (x, y), limit)))
            x, y = x + length * math.cos(ang), y + length * math.sin(ang)
            if rng.random() < 0.5:
                n = rng.choice([1, 2, 3])
        return dict(kind=kind, edges=edges)
    if kind == "sine":
        n = rng.choice([1, 2])
        amp, per = rng.choice([2, 4, 5]), rng.choice([80, 120, 200])
        return dict(kind=kind, edges=[dict(f="a", t="b", lanes=[
            dict(t="sine", start=[0, 5.0 * i], end=[1500, 5.0 * i], amp=amp, puls=2 * math.pi / per, phase=0.3,
                 width=5, limit=limit) for i in range(n)])])
    if kind == "ring":
        r = rng.choice([30, 50, 80])
        cw = rng.random() < 0.5
        k = rng.choice([3, 4, 6])
        n = rng.choice([1, 2])
        edges = []
        for j in range(k):
            p0, p1 = 2 * math.pi * j / k, 2 * math.pi * (j + 1) / k
            if not cw:
                p0, p1 = -p0, -p1
            edges.append(dict(f="r%d" % j, t="r%d" % ((j + 1) % k), lanes=[
                dict(t="circular", center=[0, 0], radius=r + (4 * i if not cw else -4 * i), p0=p0, p1=p1, cw=cw, limit=min(limit, 15))
                for i in range(n)]))
        return dict(kind=kind, edges=edges)
    if kind == "web":  # several choices at every node
        k, n = rng.choice([2, 3, 4]), rng.choice([1, 2])
        edges, layer, x = [], [("w0_0", 0.0)], 0.0
        for d in range(1, rng.choice([3, 4])):
            nxt = [("w%d_%d" % (d, j), 30.0 * (j - (k - 1) / 2)) for j in range(k)]
            for name, y in layer:
                for name2, y2 in nxt:
                    if len(layer) == 1 or rng.random() < 0.7:
                        ang = math.atan2(y2 - y, 50)
                        edges.append(dict(f=name, t=name2, lanes=parallel(rng.choice([1, n]), math.hypot(50, y2 - y), ang, (x, y), limit)))
            layer, x = nxt, x + 50
        return dict(kind=kind, edges=edges)
    # fork: one road leading to several
    n = rng.choice([1, 2])
    edges = [dict(f="a", t="b", lanes=parallel(n, 100, 0, (0, 0), limit))]
    for j, ang in enumerate(rng.sample([-0.35, 0.0, 0.35], rng.choice([2, 3]))):
        edges.append(dict(f="b", t="c%d" % j, lanes=parallel(rng.choice([1, n]), 150, ang, (100, 0), limit)))
    return dict(kind=kind, edges=edges)


def make_network(spec):
    from highway_env.road.road import RoadNetwork
    net = RoadNetwork()
    for e in spec["edges"]:
        for lane in e["lanes"]:
            net.add_lane(e["f"], e["t"], lane_from(lane))
    return net


def edge_indices(road):
    return [(e["f"], e["t"], i) for e in road["edges"] for i in range(len(e["lanes"]))]


def vclass(name):
    import highway_env.vehicle.behavior as B
    import highway_env.vehicle.controller as C
    import highway_env.vehicle.kinematics as K
    import highway_env.vehicle.dynamics as D
    import highway_env.vehicle.uncertainty.estimation as E
    for m in (B, C, K, D, E):
        if hasattr(m, name):
            return getattr(m, name)
    raise KeyError(name)


def make_vehicle(road, v):
    """A vehicle from its specification: lane (index), s, lat, dh, v, and optional set-points."""
    cls = vclass(v["cls"])
    lane = road.network.get_lane(tuple(v["lane"]))
    pos = lane.position(v["s"], v.get("lat", 0.0))
    heading = lane.heading_at(v["s"]) + v.get("dh", 0.0)
    kw = {}
    if v["cls"] not in ("Vehicle", "BicycleVehicle"):
        if v.get("target"):
            kw["target_lane_index"] = tuple(v["target"])
        if v.get("tspeed") is not None:
            kw["target_speed"] = v["tspeed"]
    if v["cls"] in TRAFFIC + ESTIMATORS:
        if "elc" in v:
            kw["enable_lane_change"] = v["elc"]
        if v.get("timer"):
            kw["timer"] = v["timer"]
    veh = cls(road, pos, heading, v["v"], **kw)
    if v.get("dest"):
        veh.plan_route_to(v["dest"])
    if v.get("route"):
        veh.route = [tuple(r) for r in v["route"]]
    if v.get("cmd"):
        veh.action = dict(v["cmd"])
    if v.get("nocoll"):
        veh.COLLISIONS_ENABLED = False
    if v.get("p"):  # a driver of its own kind
        for k, x in v["p"].items():
            setattr(veh, k, x)
        veh.driver_parameters = dict(v["p"])
    if v["cls"] == "BicycleVehicle":
        veh.lateral_speed, veh.yaw_rate = float(v.get("slip", 0.0)), float(v.get("yaw", 0.0))
    veh.sid = v.get("id")
    return veh


def make_object(road, o):
    from highway_env.road.objects import Obstacle, Landmark
    cls = dict(Obstacle=Obstacle, Landmark=Landmark)[o["cls"]]
    lane = road.network.get_lane(tuple(o["lane"]))
    return cls(road, lane.position(o["s"], o.get("lat", 0.0)), heading=lane.heading_at(o["s"]) + o.get("dh", 0.0))


def make_road(spec):
    from highway_env.road.road import Road
    from highway_env.road.regulation import RegulatedRoad
    cls = RegulatedRoad if spec.get("regulated") else Road
    net = make_network(spec["road"])
    road = cls(network=net, np_random=np.random.RandomState(spec.get("seed", 0)),
               record_history=bool(spec.get("record")))
    if spec.get("yield"):
        road.YIELD_DURATION = spec["yield"]
    for v in spec.get("vehicles", []):
        road.vehicles.append(make_vehicle(road, v))
    for o in spec.get("objects", []):
        road.objects.append(make_object(road, o))
    return road


def gen_vehicles(rng, road, n, classes, speed=(0, 30), spread=200, gap=None, offsets=False, targets=True, start=0):
    """Vehicles on the lanes of a road specification. `gap`: minimal spacing on a lane."""
    out = []
    idx = edge_indices(road)
    net = {}
    for e in road["edges"]:
        for i, lane in enumerate(e["lanes"]):
            net[(e["f"], e["t"], i)] = lane
    used = {}
    for k in range(n):
        for _ in range(20):
            li = rng.choice(idx)
            length = lane_length(net[li])
            s = rng.uniform(0, min(length, spread))
            if gap is None or all(abs(s - o) >= gap for o in used.get(li, [])):
                break
        else:
            continue
        used.setdefault(li, []).append(s)
        v = dict(cls=rng.choice(classes), lane=list(li), s=round(s, 3), v=round(rng.uniform(*speed), 3), id=start + k)
        if offsets:
            v["lat"] = round(rng.uniform(-1.5, 1.5), 3)
            v["dh"] = round(rng.uniform(-0.3, 0.3), 3)
        if targets and v["cls"] not in ("Vehicle", "BicycleVehicle"):
            if rng.random() < 0.6:
                v["tspeed"] = round(rng.uniform(max(speed[0], 2), max(speed[1], 5)), 3)
        if v["cls"] in TRAFFIC:
            if rng.random() < 0.15:
                v["elc"] = False
            v["timer"] = round(rng.uniform(0.01, 0.99), 3)
        if v["cls"] in ("Vehicle", "BicycleVehicle"):
            v["cmd"] = dict(steering=round(rng.uniform(-0.1, 0.1), 3) if rng.random() < 0.4 else 0,
                            acceleration=round(rng.uniform(-3, 3), 3) if rng.random() < 0.6 else 0)
        out.append(v)
    return out


DRIVERS = dict(COMFORT_ACC_MAX=[1.5, 5.0], COMFORT_ACC_MIN=[-8.0, -2.5], DISTANCE_WANTED=[6.0, 15.0], TIME_WANTED=[0.8, 3.0],
               DELTA=[2.0, 8.0], ACC_MAX=[4.0, 9.0], POLITENESS=[0.25, 1.0], LANE_CHANGE_MIN_ACC_GAIN=[0.0, 0.6, 1.5],
               LANE_CHANGE_MAX_BRAKING_IMPOSED=[0.5, 4.0], LANE_CHANGE_DELAY=[0.5, 2.0])


def gen_drivers(rng, vs, chance=0.3):
    """Some of the traffic drives by parameters of its own."""
    if rng.random() < chance:
        for v in vs:
            if v["cls"] in TRAFFIC and rng.random() < 0.7:
                v["p"] = {k: rng.choice(DRIVERS[k]) for k in rng.sample(sorted(DRIVERS), rng.randint(1, 4))}
                if rng.random() < 0.5:
                    v["p"]["POLITENESS"] = rng.choice(DRIVERS["POLITENESS"])
    return vs


def lane_length(spec):
    if spec["t"] == "circular":
        return abs(spec["radius"] * (spec["p1"] - spec["p0"]))
    return math.hypot(spec["end"][0] - spec["start"][0], spec["end"][1] - spec["start"][1])


# ------------------------------------------------------------------------------------------------- faults
class World:
    """A custom road and the driver that injects its events and lets observers look at every tick."""

    def __init__(self, spec, ctx):
        self.spec, self.ctx = spec, ctx
        self.road = make_road(spec)
        self.net = ref.Net(self.road.network)
        self.t = 0
        self.time = 0.0
        self.muted = {}    # vehicle -> tick until which its control updates are lost
        self.events = {}
        for e in spec.get("events", []):
            self.events.setdefault(e["t"], []).append(e)

    def vehicle(self, k):
        return self.road.vehicles[k % len(self.road.vehicles)] if self.road.vehicles else None

    def inject(self, e):
        """Apply one event. Returns the fault kind if it took effect."""
        road, kind = self.road, e["what"]
        v = self.vehicle(e.get("i", 0))
        if kind == "spawn":
            road.vehicles.append(make_vehicle(road, e["vehicle"]))
        elif kind == "object":
            road.objects.append(make_object(road, e["object"]))
        elif kind == "unobject":
            if not road.objects:
                return None
            road.objects.pop(e.get("i", 0) % len(road.objects))
        elif v is None:
            return None
        elif kind == "remove":
            road.vehicles.remove(v)
        elif kind == "push":
            v.position = v.position + np.array([e.get("dx", 0.0), e.get("dy", 0.0)])
            v.heading += e.get("dh", 0.0)
            v.speed += e.get("dv", 0.0)
            v.on_state_update()
        elif kind == "crash":
            v.crashed = True
        elif kind == "stall":
            v.speed = 0.0
        elif kind == "tspeed":
            if not hasattr(v, "target_speed"):
                return None
            v.target_speed = e["v"]
        elif kind == "command":
            v.action = dict(steering=e["steering"], acceleration=e["acceleration"])
        elif kind == "mute":
            self.muted[id(v)] = (v, self.t + e["n"])
        elif kind == "twice":
            v.act()
        elif kind == "act":
            if not hasattr(v, "target_speed"):
                return None
            v.act(e["a"])
        elif kind == "shuffle":
            random.Random(e["k"]).shuffle(road.vehicles)
        elif kind == "retarget":
            if not hasattr(v, "target_lane_index"):
                return None
            f, t, i = v.target_lane_index
            n = len(road.network.graph[f][t])
            if n < 2:
                return None
            v.target_lane_index = (f, t, (i + 1) % n)
        else:
            raise KeyError(kind)
        return kind

    def run(self, ticks, dt, before_act=None, before_step=None, after=None):
        ctx = self.ctx
        for _ in range(ticks):
            d = dt
            for e in self.events.get(self.t, []):
                if e["what"] == "dt":
                    d = e["dt"]
                    ctx.fault("timestep-jitter")
                else:
                    k = self.inject(e)
                    if k:
                        ctx.fault(k)
            self.dt = d
            if before_act:
                before_act(self)
            if self.muted:
                self._act_with_losses()
            else:
                self.road.act()
            if before_step:
                before_step(self)
            self.road.step(d)
            self.time += d
            ctx.tick(d)
            if after:
                after(self)
            self.t += 1
        ctx.event(self.t, [vehicle_sig(v) for v in self.road.vehicles])

    def _act_with_losses(self):
        """Control updates of muted vehicles are lost; the others act in order."""
        lost = {k for k, (v, until) in self.muted.items() if self.t < until and v in self.road.vehicles}
        self.muted = {k: e for k, e in self.muted.items() if self.t < e[1]}
        for v in self.road.vehicles:
            if id(v) in lost:
                v.act = lambda action=None: None
        try:
            self.road.act()
        finally:
            for v in self.road.vehicles:
                v.__dict__.pop("act", None)
        if lost:
            self.ctx.fault("lost-control-update", len(lost))

    def abstract(self):
        return tuple(sorted((type(v).__name__[:2], str(index3(v.lane_index)), int(v.speed // 5), bool(v.crashed),
                             int(v.position[0] // 10), int(v.position[1] // 10)) for v in self.road.vehicles))


def attach(env, ctx, before_act=None, before_step=None, after=None):
    """Observe every tick of the road of an environment (after a reset)."""
    road = base(env).road
    act, step = road.act, road.step

    def act_(*a, **k):
        if before_act:
            before_act(road)
        r = act(*a, **k)
        return r

    def step_(dt, **_):
        if before_step:
            before_step(road, dt)
        r = step(dt)
        ctx.tick(dt)
        if after:
            after(road, dt)
        return r
    road.act, road.step = act_, step_


def gen_events(rng, ticks, kinds, n, nveh=6, road=None, classes=None):
    out = []
    for _ in range(n):
        k = rng.choice(kinds)
        e = dict(t=rng.randrange(1, max(2, ticks)), what=k, i=rng.randrange(max(1, nveh)))
        if k == "push":
            e.update(dx=round(rng.uniform(-3, 3), 3), dy=round(rng.uniform(-2, 2), 3),
                     dh=round(rng.uniform(-0.3, 0.3), 3), dv=round(rng.uniform(-5, 5), 3))
        elif k == "tspeed":
            e["v"] = round(rng.uniform(0, 35), 3)
        elif k == "command":
            e.update(steering=round(rng.uniform(-0.5, 0.5), 3), acceleration=round(rng.uniform(-6, 6), 3))
        elif k == "mute":
            e["n"] = rng.randint(1, 10)
        elif k == "dt":
            e["dt"] = rng.choice([0.01, 0.03, 0.1, 0.15])
        elif k == "spawn":
            e["vehicle"] = gen_vehicles(rng, road, 1, classes, start=1000 + len(out))[0]
        elif k == "object":
            li = rng.choice(edge_indices(road))
            e["object"] = dict(cls=rng.choice(["Obstacle", "Obstacle", "Landmark"]), lane=list(li),
                               s=round(rng.uniform(0, 150), 3), lat=round(rng.uniform(-1, 1), 3),
                               dh=round(rng.uniform(-1, 1), 3))
        elif k == "shuffle":
            e["k"] = rng.getrandbits(16)
        elif k == "act":
            e["a"] = rng.choice(["FASTER", "SLOWER", "LANE_LEFT", "LANE_RIGHT"])
        out.append(e)
    out.sort(key=lambda e: e["t"])
    return out
