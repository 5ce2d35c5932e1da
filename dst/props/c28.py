"""C28 Predicted trajectories are what the vehicle would do left alone."""
import copy
import math

import numpy as np

from .. import ref, world
from ..core import Violation
from . import common, stage
from .c14 import norm

ID = "C28"
QUICK_RUNS, THOROUGH_RUNS = 900, 30000
RULE = "one case = one episode or custom world under faults, at planned instants of which (also between two ticks) trajectories are predicted; each is compared with the same vehicle driven by the same actions on the real road without anybody else, or with the centre line of its route, and the scene must be left as it was."
REAL = ["controlled vehicles and their predictions", "Road", "RoadNetwork", "environments"]
STUB = ["the viewer in the middle of steps"]
ASSUMPTIONS = ["Constant-speed predictions within 1e-6 m of the end of a lane or of the seam of a circular lane are not judged."]
LABELS = ["LANE_LEFT", "IDLE", "LANE_RIGHT", "FASTER", "SLOWER"]


def state(v):
    return (float(v.position[0]), float(v.position[1]), float(v.heading), float(v.speed), float(v.target_speed),
            tuple(v.lane_index), tuple(v.target_lane_index), [tuple(r) for r in v.route] if v.route else None)


def far(a, b):
    return any(abs(x - y) > 1e-7 * (1 + abs(y)) for x, y in zip(a[:5], b[:5])) or a[5:] != b[5:]


def alone(v, actions, ticks, every, dt):
    """The vehicle driven by these actions on its road when nobody else is there."""
    w = copy.deepcopy(v)
    road = w.road
    for n in ("act", "step"):
        road.__dict__.pop(n, None)
        for o in road.vehicles:
            o.__dict__.pop(n, None)
    road.vehicles, road.objects = [w], []
    out, t = [], 0
    for a in actions:
        w.act(a)
        for _ in range(ticks):
            road.act()
            road.step(dt)
            t += 1
            if t % every == 0:
                out.append(state(w))
    return out


def sampled(v, actions, ticks, every, freq, ctx, when):
    """A predicted trajectory against the real one."""
    dt = 1 / freq
    got = [state(s) for s in v.predict_trajectory(list(actions), ticks / freq, every / freq, dt)]
    want = alone(v, actions, ticks, every, dt)
    ctx.probe("trajectories predicted")
    if len(got) != len(want):
        raise Violation("samples", "%s: %d samples instead of %d for %d actions of %d ticks, one sample every %d ticks, at %s Hz" % (
            when, len(got), len(want), len(actions), ticks, every, freq))
    for k, (g, w) in enumerate(zip(got, want)):
        if far(g, w):
            raise Violation("trajectory", "%s: sample %d of the prediction for %s is %s, the vehicle alone reaches %s" % (when, k, actions, g, w))
    if want and want[-1][5][:2] != tuple(v.lane_index)[:2]:
        ctx.probe("predictions across roads")
    if want and want[-1][5][2] != tuple(v.lane_index)[2]:
        ctx.probe("predictions across lanes")


def constant(v, net, times, ctx, when):
    """A constant-speed prediction against the centre line of the route."""
    if len(times) == 0:
        return
    got = v.predict_trajectory_constant_speed(np.array(times))
    if len(got[0]) != len(times) or len(got[1]) != len(times):
        raise Violation("samples", "%s: %d positions and %d headings for %d instants" % (when, len(got[0]), len(got[1]), len(times)))
    route = [tuple(r) for r in v.route] if v.route else [tuple(v.lane_index)]
    for index in (v.lane_index, v.target_lane_index):
        if tuple(index[:2]) == route[0][:2]:
            route[0] = tuple(index)
            break
    else:
        ctx.probe("vehicles off their route, not judged")
        return
    lanes = [net[norm(r)] for r in route]
    if lanes[0].seam(v.position) < 1e-6:
        return
    s0 = lanes[0].local(v.position)[0]
    ctx.probe("constant-speed predictions")
    for t, p, h in zip(times, *got):
        s, k, tie = s0 + v.speed * t, 0, False
        while k < len(lanes) - 1:
            tie |= abs(s - lanes[k].length) < 1e-6
            if s <= lanes[k].length:
                break
            s -= lanes[k].length
            k += 1
        if tie:
            continue
        if k:
            ctx.probe("constant-speed predictions across roads")
        x, y = lanes[k].position(s, 0)
        if math.hypot(x - p[0], y - p[1]) > 1e-6 * (1 + abs(s)):
            raise Violation("constant-speed", "%s: after %.2f s at %.2f m/s the vehicle is predicted at %s, %.2f m along lane %s of its route is %s" % (
                when, t, v.speed, tuple(p), s, route[k], (x, y)))
        if abs(ref.wrap(float(h) - lanes[k].heading(s))) > 1e-6:
            raise Violation("constant-speed", "%s: the predicted heading is %r instead of %r" % (when, h, lanes[k].heading(s)))


FREQS = [(1, 1), (3, 1), (5, 1), (5, 2), (15, 5), (15, 15), (15, 3), (10, 4), (11, 3), (7, 7), (12, 4)]


def gen_query(rng):
    ticks, every = rng.choice(FREQS)
    return dict(i=rng.randrange(12), acts=[rng.randrange(5) for _ in range(rng.choice([0, 1, 2, 3, 6]))], ticks=ticks, every=every,
                freq=rng.choice([5, 10, 15, 15, 20, 33, 45]),
                times=[round(rng.uniform(0, 12), 3) for _ in range(rng.choice([0, 1, 4]))])


def ask(road, q, net, ctx, when):
    vs = [v for v in road.vehicles if hasattr(v, "predict_trajectory_constant_speed")]
    if not vs:
        return
    v = vs[q["i"] % len(vs)]
    when = "%s, %s" % (when, type(v).__name__)
    before = digest(road)
    constant(v, net, q["times"], ctx, when)
    planners = [v for v in vs if hasattr(v, "predict_trajectory")]
    if planners:
        v = planners[q["i"] % len(planners)]
        sampled(v, [LABELS[a] for a in q["acts"]], q["ticks"], q["every"], q["freq"], ctx, when)
    if digest(road) != before:
        raise Violation("disturbed", "%s: predicting changed the scene" % when)


def digest(road):
    return world.h8(repr(([(world.vehicle_sig(v), sorted(v.action.items()), getattr(v, "route", None), getattr(v, "speed_index", None))
                           for v in road.vehicles], road.np_random.get_state())))


# ------------------------------------------------------------------------------------------------ environments
def gen_env(rng, tier):
    p = GEN(rng, tier)
    n = len(p["acts"])
    p["asks"] = [[rng.randrange(n), rng.choice([None, None, 0, 1, 2, 5]), gen_query(rng)] for _ in range(rng.choice([2, 4, 6]))]
    return p


def tweak(rng, spec):
    cfg = spec["cfg"]
    cfg.pop("action", None)
    if spec["env"] == "custom":
        cfg["scene"]["egos"] = cfg["scene"]["egos"][:1]
        cfg.pop("observation", None)
    if rng.random() < 0.15:  # frequencies whose ratio is not exact in floating point
        cfg.update(rng.choice([dict(simulation_frequency=33, policy_frequency=3), dict(simulation_frequency=45, policy_frequency=9),
                               dict(simulation_frequency=45, policy_frequency=3)]))


KINDS = ["crash", "speed", "push", "place", "place", "place", "block", "spawn", "faster", "off-road", "crash-ego"]
GEN = stage.gen(["highway", "merge", "roundabout", "roundabout", "two-way", "intersection", "intersection", "custom", "custom"], steps=(3, 6, 10),
                kinds=KINDS, tweak=tweak, actions=False)


def run_env(plan, ctx):
    spec = plan["spec"]
    box = {}

    def on_reset(env, obs):
        box["net"] = ref.Net(world.base(env).road.network)
        box["k"] = 0
        world.attach(env, ctx, after=lambda road, dt: inside(env))

    def before(env, action):
        box["tick"] = 0
        for k, tick, q in plan["asks"]:
            if k == box["k"] and tick is None:
                ask(world.base(env).road, q, box["net"], ctx, "%s, before decision %d" % (spec["env"], k))
                display(env, q)

    def display(env, q):
        """As the viewer shows the plans of an agent."""
        b = world.base(env)
        p, s = b.config["policy_frequency"], b.config["simulation_frequency"]
        if not hasattr(b.vehicle, "predict_trajectory") or s % p:
            return
        acts = [LABELS[a] for a in q["acts"]]
        got = b.vehicle.predict_trajectory(acts, 1 / p, 1 / 3 / p, 1 / s)
        want = alone(b.vehicle, acts, s // p, max(s // (3 * p), 1), 1 / s)
        if len(got) != len(want):
            raise Violation("samples", "%s at %d/%d Hz: %d samples instead of %d" % (spec["env"], s, p, len(got), len(want)))
        if want and far(state(got[-1]), want[-1]):
            raise Violation("trajectory", "%s: the prediction for %s ends at %s instead of %s" % (spec["env"], acts, state(got[-1]), want[-1]))

    def inside(env):
        for k, tick, q in plan["asks"]:
            if k == box["k"] and tick == box["tick"]:
                ctx.fault("prediction in the middle of a step")
                ask(world.base(env).road, q, box["net"], ctx, "%s, decision %d, tick %d" % (spec["env"], k, tick))
        box["tick"] += 1

    def on_step(env, action, out):
        box["k"] += 1
    stage.drive(plan, ctx, on_step, on_reset, before)


# ------------------------------------------------------------------------------------------------------ worlds
MIXES = [["MDPVehicle"], ["MDPVehicle", "IDMVehicle"], ["MDPVehicle", "ControlledVehicle", "LinearVehicle"]]


def gen_world(rng, tier):
    ticks = rng.choice([20, 40])
    p = common.gen_mixed(rng, tier, ticks=ticks, mixes=MIXES, n=rng.choice([1, 2, 4]))
    if rng.random() < 0.6:
        p["world"]["road"] = road = world.gen_road(rng, ("web", "fork", "ring", "chain"))
        p["world"]["vehicles"] = world.gen_vehicles(rng, road, rng.choice([1, 2, 4]), rng.choice(MIXES), spread=150, offsets=rng.random() < 0.5)
        p["world"]["events"] = [e for e in p["world"]["events"] if e["what"] not in ("spawn", "object", "unobject")]
    ends = sorted({i[1] for i in world.edge_indices(p["world"]["road"])})
    for v in p["world"]["vehicles"]:
        if rng.random() < 0.6:
            v["dest"] = rng.choice(ends)
    p["asks"] = [[rng.randrange(ticks), gen_query(rng)] for _ in range(rng.choice([2, 4, 6]))]
    return p


def run_world(plan, ctx):
    w = world.World(plan["world"], ctx)
    net = ref.Net(w.road.network)

    def after(w):
        for t, q in plan["asks"]:
            if t == w.t:
                ask(w.road, q, net, ctx, "tick %d" % w.t)
        if w.t % 10 == 0:
            ctx.state(w.abstract())
    w.run(plan["ticks"], plan["dt"], after=after)


SHRINK = ["acts", "events", "asks"]
FAMILIES = {"episodes": (1, gen_env, run_env), "worlds": (1, gen_world, run_world)}
