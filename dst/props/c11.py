"""C11 Agent actions have exactly their documented effect."""
import copy

import numpy as np

from .. import envref, ref, world
from ..core import Violation
from . import common, stage

ID = "C11"
QUICK_RUNS, THOROUGH_RUNS = 1890, 40000
RULE = "one case = one episode; the scene is compared before a decision and at the first instant of its physics with the documented effect of the action on the set-points, the available actions are compared with the reference, and unavailable actions are compared with idling on deep copies."
REAL = ["action types", "environments", "controlled vehicles", "Road"]
STUB = []
ASSUMPTIONS = ["Speeds in the middle of two allowed speeds, and random choices of the next road, are not judged."]

DEFAULT_RANGE = dict(acceleration_range=(-5, 5), steering_range=(-np.pi / 4, np.pi / 4))


def followed(net, v):
    """Lanes the vehicle may target after following the road from where it stands."""
    t = tuple(v.target_lane_index)
    lane = net[t]
    if lane.kind == "circular" and lane.seam(v.position) < 1e-6:
        return None
    end = lane.after_end(v.position)
    if end is None:
        return None
    if not end:
        return [t]
    return ref.next_lanes(net, t, getattr(v, "route", None), v.position)[0]


def norm(i):
    return i[0], i[1], int(i[2])


def expected_lanes(net, v, label):
    start = followed(net, v)
    if start is None:
        return None
    out = []
    for t in start:
        t = norm(t)
        d = {"LANE_LEFT": -1, "LANE_RIGHT": 1}.get(label, 0)
        n = (t[0], t[1], t[2] + d)
        if d and 0 <= n[2] < net.n(n):
            r = net[n].reachable(v.position)
            out += [t, n] if r is None else [n] if r else [t]
        else:
            out.append(t)
    return out


def expected_speeds(v, label, speeds):
    """Acceptable target speeds after a label, for a vehicle with these allowed speeds (None: any cruise speed)."""
    d = {"FASTER": 1, "SLOWER": -1}.get(label, 0)
    if d == 0:
        return [v.target_speed]
    if speeds is None:
        return [v.target_speed + 5 * d]
    ds = sorted((abs(s - v.speed), i) for i, s in enumerate(speeds))
    cand = [i for x, i in ds if x - ds[0][0] < 1e-6]
    return [speeds[min(max(i + d, 0), len(speeds) - 1)] for i in cand]


def config_of(b):
    a = b.config["action"]
    return a["action_config"] if a["type"] == "MultiAgentAction" else a


def names_of(b):
    return dict(enumerate(envref.labels(b.config["action"])))


def over(out):
    """The episode has ended: what happens afterwards is not judged."""
    return any(out[2]) if isinstance(out[2], tuple) else bool(out[2])


def mapped(cfg, action):
    """Commands a continuous action stands for."""
    a = [float(x) for x in np.asarray(action, dtype=float).ravel()]
    if cfg.get("clip", True):
        a = [min(max(x, -1), 1) for x in a]
    lon, lat = cfg.get("longitudinal", True), cfg.get("lateral", True)
    ra = cfg.get("acceleration_range") or DEFAULT_RANGE["acceleration_range"]
    rs = cfg.get("steering_range") or DEFAULT_RANGE["steering_range"]

    def lin(x, r):
        return r[0] + (x + 1) / 2 * (r[1] - r[0])
    acc = lin(a[0], ra) if lon else 0.0
    steer = lin(a[1 if lon else 0], rs) if lat else 0.0
    return dict(acceleration=acc, steering=steer)


class Effects:
    def __init__(self, ctx, env):
        self.ctx = ctx
        self.before = None
        self.env = env
        self.first = False
        self.hook(env)

    def hook(self, env):
        b = world.base(env)
        road = b.road
        act = road.act

        def act_(*a, **k):
            if self.first:
                self.first = False
                self.judge(env)
            return act(*a, **k)
        road.act = act_

    def snapshot(self, env):
        b = world.base(env)
        return {id(v): (v, world.vehicle_sig(v)[1:7], str(world.index3(getattr(v, "target_lane_index", None))),
                        getattr(v, "target_speed", None), dict(v.action)) for v in b.road.vehicles}

    def labels(self, b):
        return names_of(b)

    def before_step(self, env, action):
        b = world.base(env)
        ctx = self.ctx
        net = self.net = ref.Net(b.road.network)
        cfg = config_of(b)
        multi = b.config["action"]["type"] == "MultiAgentAction"
        acts = list(action) if multi else [action]
        self.want = []
        for v, a in zip(b.controlled_vehicles, acts):
            if cfg["type"] == "DiscreteMetaAction":
                label = self.labels(b)[int(a)]
                self.want.append((v, label, expected_lanes(net, v, label), expected_speeds(v, label, envref.speeds(env))))
            else:
                self.want.append((v, None, mapped(cfg, a), None))
        if cfg["type"] == "DiscreteMetaAction" and not multi:
            self.available(env, b, cfg)
        self.snap = self.snapshot(env)
        self.first = True

    def available(self, env, b, cfg):
        """The list of available actions is exact."""
        net, v = self.net, b.vehicle
        labels = {l: i for i, l in self.labels(b).items()}
        want = {labels["IDLE"]}
        here = norm(v.lane_index)
        doubt = False
        if cfg.get("lateral", True):
            for d, l in ((-1, "LANE_LEFT"), (1, "LANE_RIGHT")):
                n = (here[0], here[1], here[2] + d)
                if 0 <= n[2] < net.n(n):
                    r = net[n].reachable(v.position)
                    if r is None:
                        doubt = True
                    elif r:
                        want.add(labels[l])
        if cfg.get("longitudinal", True):
            sp = envref.speeds(env)
            if abs(v.target_speed - sp[-1]) > 1e-9:
                want.add(labels["FASTER"])
            if abs(v.target_speed - sp[0]) > 1e-9:
                want.add(labels["SLOWER"])
        got = b.get_available_actions()
        if doubt:
            return
        self.ctx.probe("lists of available actions")
        if sorted(int(g) for g in got) != sorted(want):
            raise Violation("available", "on lane %s of %d, target %.3f m/s, the available actions are %s instead of %s" % (
                here, net.n(here), v.target_speed, sorted(got), sorted(want)))

    def judge(self, env):
        """First instant of the physics: only the set-points of the agents have changed, as documented."""
        ctx, b = self.ctx, world.base(env)
        now = self.snapshot(env)
        if set(now) != set(self.snap):
            raise Violation("side-effect", "the action changes the population of the road")
        egos = {id(w[0]): w for w in self.want}
        for k, (v, sig, lane, speed, cmd) in self.snap.items():
            v2, sig2, lane2, speed2, cmd2 = now[k]
            who = "the ego vehicle" if k in egos else "another vehicle"
            if sig != sig2:
                raise Violation("side-effect", "the action changes the state of %s: %s to %s" % (who, sig, sig2))
            if k not in egos and (lane != lane2 or speed != speed2 or cmd != cmd2):
                raise Violation("side-effect", "the action changes the set-points of another vehicle")
        for v, label, lanes, speeds in self.want:
            if label is None:
                ctx.probe("continuous actions")
                for c in ("acceleration", "steering"):
                    if not abs(float(v.action[c]) - lanes[c]) < 1e-5:
                        raise Violation("mapping", "the %s command is %r instead of %r (%s)" % (c, v.action[c], lanes[c], config_of(b)))
                continue
            if lanes is None:
                continue
            was = self.snap[id(v)][2]
            ctx.probe(label)
            got = norm(v.target_lane_index)
            if got not in lanes:
                raise Violation("lane", "%s at %s (lane %s, target lane %s) leads to the target lane %s instead of %s" % (
                    label, ref.xy(v.position), v.lane_index, was, got, lanes))
            if not any(abs(v.target_speed - s) < 1e-9 for s in speeds):
                raise Violation("speed", "%s at %.3f m/s with target %.3f leads to target %.3f instead of %s" % (
                    label, v.speed, self.snap[id(v)][3], v.target_speed, speeds))
            if str(got) != was:
                ctx.probe("%s with a new lane" % label)
            if v.target_speed != self.snap[id(v)][3]:
                ctx.probe("%s with a new speed" % label)


def run_env(plan, ctx):
    env, _ = world.build_env(plan["spec"])
    b = world.base(env)
    c = Effects(ctx, env)
    for k, a in enumerate(plan["acts"]):
        for e in plan["events"]:
            if e["t"] == k:
                stage.stage(b, e, ctx)
        action = world.decode(env.action_space, a)
        if plan.get("wild") and hasattr(env.action_space, "shape") and env.action_space.shape:
            action = wild(action, a + plan["wild"])
        c.before_step(env, action)
        out = env.step(action)
        if c.first:
            raise Violation("no-tick", "a decision did not run any physics")
        ctx.tick(1 / b.config["policy_frequency"])
        ctx.event(world.step_sig(env, out))
        ctx.state(world.abstract_state(env))
        if over(out):
            break


def wild(action, k):
    """Actions beyond the declared range, of other types."""
    x = np.asarray(action, dtype=float)
    if k % 3 == 0:
        x = x * 2.5
    if k % 4 == 1:
        return [float(v) for v in x]
    return x if k % 2 else x.astype(np.float32)


def tweak(rng, spec):
    cfg = spec["cfg"]
    if spec["env"] == "highway" and rng.random() < 0.3:
        cfg["action"] = world.gen_action(rng, "highway")
    if spec["env"] in ("parking", "summon", "highway") and (cfg.get("action") or {}).get("type") == "ContinuousAction":
        if rng.random() < 0.15:
            cfg["action"]["clip"] = False


def gen_env(rng, tier):
    p = stage.gen(["highway", "highway", "merge", "parking", "summon", "roundabout", "two-way", "intersection", "multi-intersection"],
                  kinds=["speed", "push", "place", "off-road", "block", "faster", "crash-other", "remove"], tweak=tweak)(rng, tier)
    for e in p["events"]:
        e["tick"] = None
    if rng.random() < 0.5:
        p["wild"] = rng.randrange(1, 100)
    return p


# --------------------------------------------------------------------------------------- unavailable actions
def run_unavailable(plan, ctx):
    """An unavailable action of a settled vehicle is equivalent to idling, on deep copies of the same instant."""
    env, _ = world.build_env(plan["spec"])
    b = world.base(env)
    names = names_of(b)
    idle = [i for i, l in names.items() if l == "IDLE"][0]
    for k, a in enumerate(plan["acts"]):
        for e in plan["events"]:
            if e["t"] == k:
                stage.stage(b, e, ctx)
        v = b.vehicle
        net = ref.Net(b.road.network)
        here = norm(v.lane_index)
        settled = norm(v.target_lane_index) == here and envref.speed_index(env, v.speed) == envref.target_index(env, v) \
            and net[here].after_end(v.position) is False and not v.crashed
        if settled:
            av = set(b.get_available_actions())
            twin = None
            for i in range(env.action_space.n):
                if i in av:
                    continue
                if twin is None:
                    twin = copy.deepcopy(env)
                    ref_out = twin.step(idle)
                other = copy.deepcopy(env)
                out = other.step(i)
                ctx.probe("unavailable actions compared with idling")
                if world.scene_sig(other) != world.scene_sig(twin) or bool(out[2]) != bool(ref_out[2]) or \
                        world.canon(out[0]) != world.canon(ref_out[0]):
                    raise Violation("unavailable", "%s is not available on lane %s at %.2f m/s (target %.2f), yet it differs from idling" % (
                        names[i], here, v.speed, v.target_speed))
        out = env.step(world.decode(env.action_space, a))
        ctx.tick(1 / b.config["policy_frequency"])
        ctx.event(world.step_sig(env, out))
        ctx.state(world.abstract_state(env))
        if over(out):
            break


def gen_unavailable(rng, tier):
    while True:
        p = stage.gen(["highway", "highway", "merge", "roundabout", "two-way", "intersection"], steps=(3, 6),
                      kinds=["speed", "push", "place", "block", "remove"])(rng, tier)
        if not world.continuous(p["spec"]["cfg"]):
            break
    for e in p["events"]:
        e["tick"] = None
    return p


# ------------------------------------------------------------------------------------------ custom roads
def run_roads(plan, ctx):
    """Labels given to controlled vehicles on roads of all shapes."""
    w = world.World(plan["world"], ctx)
    labels = {}
    for l in plan["acts"]:
        labels.setdefault(l["t"], []).append(l)

    def before_act(w):
        for l in labels.get(w.t, []):
            v = w.vehicle(l["i"])
            if v is None or not hasattr(v, "target_speed") or ref.model_of(v):
                continue
            speeds = None
            if type(v).__name__ == "MDPVehicle":
                speeds = [20.0, 25.0, 30.0]
            lanes, sp = expected_lanes(w.net, v, l["a"]), expected_speeds(v, l["a"], speeds)
            was = (norm(v.target_lane_index), v.target_speed)
            sig = world.vehicle_sig(v)[1:7]
            v.act(l["a"])
            if world.vehicle_sig(v)[1:7] != sig:
                raise Violation("side-effect", "%s changes the state of the vehicle" % l["a"])
            if lanes is None:
                continue
            ctx.probe(l["a"])
            if norm(v.target_lane_index) not in lanes:
                raise Violation("lane", "%s from target lane %s at %s leads to %s instead of %s" % (
                    l["a"], was[0], ref.xy(v.position), v.target_lane_index, lanes))
            if not any(abs(v.target_speed - s) < 1e-9 for s in sp):
                raise Violation("speed", "%s at %.3f m/s with target %.3f leads to target %.3f instead of %s" % (
                    l["a"], v.speed, was[1], v.target_speed, sp))
            if norm(v.target_lane_index) != was[0]:
                ctx.probe("%s with a new lane" % l["a"])

    w.run(plan["ticks"], plan["dt"], before_act=before_act)
    ctx.state(w.abstract())


def gen_roads(rng, tier):
    road = world.gen_road(rng)
    if rng.random() < 0.3:
        n = rng.choice([2, 3, 4])
        road = dict(kind="straight", edges=[dict(f="a", t="b", lanes=world.parallel(n, 2000, 0.3, limit=30, forbidden=[rng.randrange(n)]))])
    n = rng.choice([1, 3])
    vs = world.gen_vehicles(rng, road, n, ["ControlledVehicle", "MDPVehicle"], speed=(0, 35), spread=150, offsets=rng.random() < 0.5)
    ticks = 60
    acts = [dict(t=rng.randrange(ticks), i=rng.randrange(n), a=rng.choice(["FASTER", "SLOWER", "LANE_LEFT", "LANE_RIGHT", "IDLE"]))
            for _ in range(rng.randint(4, 30))]
    return dict(world=dict(road=road, vehicles=vs, objects=[], seed=rng.getrandbits(20),
                           events=world.gen_events(rng, ticks, ["push", "mute", "dt", "stall", "command", "crash"], rng.randrange(5), n, road)),
                ticks=ticks, dt=rng.choice([1 / 15, 0.1, 0.2]), acts=sorted(acts, key=lambda a: a["t"]))


FAMILIES = {"env": (4, gen_env, run_env), "unavailable": (2, gen_unavailable, run_unavailable), "roads": (2, gen_roads, run_roads)}
