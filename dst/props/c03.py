"""C03 Copies made for planning are faithful and leave the original untouched."""
import copy
import random

import numpy as np

from .. import envref, ref, world
from ..core import Violation
from . import common, traces

ID = "C03"
QUICK_RUNS, THOROUGH_RUNS = 1130, 20000
RULE = "one case = one episode in which copies and derived copies are taken at seeded points (between decisions or in the middle of one) and both sides are driven on; the original is compared bit by bit with a twin of which no copy was ever taken, and the copies with the original or with what they announce."
REAL = ["all of highway_env"]
STUB = ["finite_mdp (a stand-in recording the model it is given)", "the viewer in the middle of steps"]
SHRINK = ["acts", "points", "abuse", "events"]
TINY = 1e-9


def full_sig(env):
    """Everything observable about the scene, including what the drivers will do next."""
    b = world.base(env)
    out = [world.scene_sig(env), b.time, b.steps, b.done, [b.road.vehicles.index(c) if c in b.road.vehicles else -1
                                                          for c in b.controlled_vehicles]]
    for v in b.road.vehicles:
        out.append((float(v.action["steering"]).hex(), float(v.action["acceleration"]).hex(),
                    str([world.index3(r) for r in (getattr(v, "route", None) or [])]), repr(getattr(v, "timer", None)),
                    repr(getattr(v, "speed_index", None)), repr(getattr(v, "enable_lane_change", None)),
                    repr([float(x) for x in getattr(v, "ACCELERATION_PARAMETERS", [])]),
                    repr(getattr(v, "LANE_CHANGE_MAX_BRAKING_IMPOSED", None)), bool(v.COLLISIONS_ENABLED)))
    out.append(world.canon(b.config))
    st = b.np_random.get_state()
    out.append((st[1].tobytes(), st[2]))
    out.append(sorted((str(f), str(t), len(ls)) for f, tos in b.road.network.graph.items() for t, ls in tos.items()))
    return world.h8(out)


def abuse(c, ops, ctx):
    """Whatever a planner may do to a copy."""
    for o in ops:
        r = random.Random(o["k"])
        k = o["op"]
        vs = c.road.vehicles
        if k == "steps":
            for _ in range(r.randint(1, 3)):
                c.step(world.decode(c.action_space, r.getrandbits(24)))
        elif k == "reset":
            c.reset()
        elif k == "seed":
            c.seed(r.getrandbits(20))
        elif k == "clear":
            c.road.vehicles.clear()
            c.road.vehicles.append(c.vehicle)
        elif k == "configure":
            c.configure({"simulation_frequency": 7, "collision_reward": -9, "duration": 1})
            if isinstance(c.config.get("observation"), dict):
                c.config["observation"]["type"] = c.config["observation"]["type"]
                c.config["observation"]["junk"] = 1
        elif k == "vandal":
            for v in vs:
                v.position[:] = v.position + 50
                v.speed = 3.0
                v.crashed = True
                if getattr(v, "route", None):
                    v.route.pop()
        elif k == "lanes":
            for tos in c.road.network.graph.values():
                for ls in tos.values():
                    for l in ls:
                        l.speed_limit = 1
                        l.width = 1
        elif k == "random":
            c.road.np_random.rand(5)
            c.np_random.rand(3)
        elif k == "objects":
            for o_ in c.road.objects:
                o_.hit = True
            c.road.objects.clear()
        elif k == "data":
            for v in vs:
                if hasattr(v, "data"):
                    v.data.clear()
                v.action["acceleration"] = 77
        elif k == "close":
            c.close()
        elif k == "copy":
            abuse(copy.deepcopy(c), [dict(op="vandal", k=1)], ctx)
        ctx.fault("copy:" + k)


ABUSE = ["steps", "steps", "reset", "seed", "clear", "configure", "vandal", "lanes", "random", "objects", "data", "close", "copy"]


# ------------------------------------------------------------------------------------------ derived copies
def vstate(v, cls=True):
    return world.vehicle_sig(v, cls=cls)


def dyn(v):
    return tuple(float(x).hex() for x in (v.position[0], v.position[1], v.heading, v.speed))


def bad(what, msg):
    raise Violation("helper:" + what, msg)


def same_rest(what, a, b, skip=()):
    """Vehicles of the copy b equal those of a, except for the named attributes."""
    if len(a.road.vehicles) != len(b.road.vehicles):
        bad(what, "%d vehicles instead of %d" % (len(b.road.vehicles), len(a.road.vehicles)))
    for i, (v, w) in enumerate(zip(a.road.vehicles, b.road.vehicles)):
        if dyn(v) != dyn(w):
            bad(what, "vehicle %d: dynamical state changed" % i)


def ego_kept(what, a, b):
    if vstate(a.vehicle) != vstate(b.vehicle):
        bad(what, "the ego vehicle changed")
    if not any(v is b.vehicle for v in b.road.vehicles):
        bad(what, "the ego vehicle of the copy is not on its road")
    if type(a.vehicle) is not type(b.vehicle):
        bad(what, "the ego vehicle became a %s" % type(b.vehicle).__name__)


def is_traffic(v):
    return any(c.__name__ == "IDMVehicle" for c in type(v).__mro__)


def simplify(b, o, ctx):
    c = b.simplify()
    ego_kept("simplify", b, c)
    limit = 180.0
    want = []
    for v in b.road.vehicles:
        d = float(np.hypot(*(v.position - b.vehicle.position)))
        if v is b.vehicle:
            continue
        if abs(d - limit) < 1e-6:
            return c
        if d < limit:
            want.append(dyn(v))
    got = [dyn(v) for v in c.road.vehicles if v is not c.vehicle]
    if sorted(want) != sorted(got):
        bad("simplify", "%d vehicles kept, %d are within %s m" % (len(got), len(want), limit))
    ctx.probe("scenes with distant vehicles", int(len(want) + 1 < len(b.road.vehicles)))
    return c


def change(b, o, ctx):
    cls = o["cls"]
    c = b.change_vehicles(world.vehicle_path(cls))
    ego_kept("change_vehicles", b, c)
    same_rest("change_vehicles", b, c)
    for v, w in zip(b.road.vehicles, c.road.vehicles):
        if v is b.vehicle:
            continue
        if type(w).__name__ != cls:
            bad("change_vehicles", "a vehicle became a %s instead of a %s" % (type(w).__name__, cls))
        if w.road is not c.road:
            bad("change_vehicles", "a new vehicle refers to the road of the original")
        if hasattr(v, "target_speed"):
            if tuple(v.target_lane_index) != tuple(w.target_lane_index) or \
                    (v.target_speed and abs(v.target_speed - w.target_speed) > TINY):
                bad("change_vehicles", "targets %s at %s instead of %s at %s" % (w.target_lane_index, w.target_speed, v.target_lane_index, v.target_speed))
            if [world.index3(r) for r in v.route or []] != [world.index3(r) for r in w.route or []]:
                bad("change_vehicles", "the route changed from %s to %s" % (v.route, w.route))
        if getattr(v, "timer", None) and abs(v.timer - w.timer) > TINY:
            bad("change_vehicles", "the decision timer changed from %s to %s" % (v.timer, w.timer))
    return c


def preferred(b, o, ctx):
    lane = o["lane"]
    if lane is not None:  # a lane that exists on every road
        lane %= min(len(ls) for tos in b.road.network.graph.values() for ls in tos.values())
    c = b.set_preferred_lane(lane)
    same_rest("set_preferred_lane", b, c)
    ego_kept("set_preferred_lane", b, c)
    for v, w in zip(b.road.vehicles, c.road.vehicles):
        if is_traffic(v) and lane is not None:
            want = [(r[0], r[1], lane) for r in (v.route or [v.lane_index])]
            if [tuple(r) for r in w.route] != want:
                bad("set_preferred_lane", "route %s instead of %s" % (w.route, want))
        elif [world.index3(r) for r in getattr(v, "route", None) or []] != [world.index3(r) for r in getattr(w, "route", None) or []]:
            bad("set_preferred_lane", "the route of a %s changed" % type(v).__name__)
    return c


def forced(b, o, ctx):
    to = o["to"]
    c = b.set_route_at_intersection(to)
    same_rest("set_route_at_intersection", b, c)
    ego_kept("set_route_at_intersection", b, c)
    graph = b.road.network.graph
    for v, w in zip(b.road.vehicles, c.road.vehicles):
        old = [tuple(r) for r in getattr(v, "route", None) or []]
        new = [tuple(r) for r in getattr(w, "route", None) or []]
        if not is_traffic(v) or not old:
            if old != new:
                bad("set_route_at_intersection", "the route of a vehicle without one changed")
            continue
        # the first junction among the next three roads of the route
        want = None
        for i, r in enumerate(old[:3]):
            if len(graph.get(r[1], {})) >= 2:
                want = [old[:i + 1] + [(r[1], d, r[2] if r[2] is None or r[2] < len(ls) else None)]
                        for d, ls in graph[r[1]].items()]
                break
        if want is None:
            want = [old]
        if to == "random":
            if new not in want:
                bad("set_route_at_intersection", "route %s is none of %s" % (new, want))
        elif new != want[to % len(want)]:
            bad("set_route_at_intersection", "route %s instead of %s" % (new, want[to % len(want)]))
        ctx.probe("forced routes", int(len(want) > 1))
    return c


def field(b, o, ctx):
    name, value = o["field"]
    c = b.set_vehicle_field((name, value))
    if len(c.road.vehicles) != len(b.road.vehicles):
        bad("set_vehicle_field", "vehicles were lost")
    if full_ego(b) != full_ego(c):
        bad("set_vehicle_field", "the ego vehicle changed")
    for v, w in zip(b.road.vehicles, c.road.vehicles):
        if v is b.vehicle:
            continue
        if getattr(w, name) != value:
            bad("set_vehicle_field", "%s is %r instead of %r" % (name, getattr(w, name), value))
        if name not in ("speed", "heading") and dyn(v) != dyn(w):
            bad("set_vehicle_field", "the dynamical state changed")
    return c


def full_ego(b):
    v = b.vehicle
    return vstate(v), [world.index3(r) for r in getattr(v, "route", None) or []], getattr(v, "timer", None)


def method(b, o, ctx):
    nodes = sorted(b.road.network.graph)
    dest = nodes[o["k"] % len(nodes)]
    c = b.call_vehicle_method(("plan_route_to", (dest,)))
    same_rest("call_vehicle_method", b, c)
    for v, w in zip(b.road.vehicles, c.road.vehicles):
        if type(v) is not type(w):
            bad("call_vehicle_method", "a %s became a %s" % (type(v).__name__, type(w).__name__))
        if hasattr(v, "plan_route_to"):
            t = copy.deepcopy(v)
            t.plan_route_to(dest)
            if [world.index3(r) for r in t.route] != [world.index3(r) for r in w.route]:
                bad("call_vehicle_method", "the method was not called as announced: %s instead of %s" % (w.route, t.route))
    return c


def randomize(b, o, ctx):
    c = b.randomize_behaviour()
    same_rest("randomize_behaviour", b, c)
    ego_kept("randomize_behaviour", b, c)
    seen = set()
    for v, w in zip(b.road.vehicles, c.road.vehicles):
        if not hasattr(w, "ACCELERATION_PARAMETERS"):
            continue
        th = [float(x) for x in w.ACCELERATION_PARAMETERS]
        lo, hi = ref.THETA_RANGE
        if any(not l - TINY <= x <= h + TINY for l, x, h in zip(lo, th, hi)):
            bad("randomize_behaviour", "parameters %s outside of %s" % (th, ref.THETA_RANGE))
        if tuple(th) in seen:
            bad("randomize_behaviour", "two vehicles got the same random parameters")
        seen.add(tuple(th))
        ctx.probe("randomised vehicles")
    return c


def predict(b, o, ctx):
    """The predicted trajectory is what a copy of the vehicle does, and leaves the vehicle alone."""
    v = b.vehicle
    if not hasattr(v, "predict_trajectory"):
        return None
    acts = [["IDLE", "FASTER", "SLOWER", "LANE_LEFT", "LANE_RIGHT"][(o["k"] >> (3 * i)) % 5] for i in range(3)]
    dt, dur, save = 0.1, o["dur"], o["save"]
    before = b.road.np_random.get_state()[1].tobytes()
    states = v.predict_trajectory(acts, dur, save, dt)
    if b.road.np_random.get_state()[1].tobytes() != before:
        bad("predict_trajectory", "the prediction drew from the random generator of the road")
    w = copy.deepcopy(v)
    want, t = [], 0
    for a in acts:
        w.act(a)
        for _ in range(int(round(dur / dt, 6))):
            t += 1
            w.act()
            w.step(dt)
            if t % int(round(save / dt, 6)) == 0:
                want.append(dyn(w))
    if [dyn(s) for s in states] != want:
        bad("predict_trajectory", "%d predicted states differ from driving a copy of the vehicle (%d states)" % (len(states), len(want)))
    return None


def constant_speed(b, o, ctx):
    for v in b.road.vehicles[:5]:
        if hasattr(v, "predict_trajectory_constant_speed"):
            pos, head = v.predict_trajectory_constant_speed(np.array([0.0, 0.5, 1.0, 2.0]))
            ctx.probe("constant speed predictions")
    return None


def mdp(b, o, ctx):
    """Conversion to a finite decision process."""
    if not hasattr(b.vehicle, "speed_index") or not hasattr(b.action_type, "actions"):
        return None
    if envref.kind(b) not in ("highway", "merge", "roundabout") or len(b.action_type.actions) != 5:
        from highway_env.envs.common.finite_mdp import compute_ttc_grid
        compute_ttc_grid(b, 1.0, 5.0)
        return None
    world.finite_mdp()
    if not hasattr(b, "LANE_CHANGE_REWARD"):
        return None
    m = b.to_finite_mdp()
    n = int(np.prod(m.original_shape))
    if m.transition.shape != (n, 5) or m.terminal.shape != (n,) or m.reward.shape[0] != n:
        bad("to_finite_mdp", "inconsistent shapes %s %s %s" % (m.transition.shape, m.reward.shape, m.terminal.shape))
    if not 0 <= m.state < n or m.transition.min() < 0 or m.transition.max() >= n:
        bad("to_finite_mdp", "a state is out of range")
    h, i, j = np.unravel_index(m.state, m.original_shape)
    if (h, i, j) != (b.vehicle.speed_index, b.vehicle.lane_index[2], 0):
        bad("to_finite_mdp", "the current state is %s" % ((h, i, j),))
    return None


HELPERS = dict(simplify=simplify, change=change, preferred=preferred, forced=forced, field=field, method=method,
               randomize=randomize, predict=predict, constant=constant_speed, mdp=mdp)


def gen_point(rng, env, n):
    k = rng.choice(["copy"] * 6 + list(HELPERS))
    p = dict(t=rng.randrange(n), what=k, k=rng.getrandbits(24))
    if rng.random() < 0.35:
        p["tick"] = rng.randrange(6)
    if k == "change":
        p["cls"] = rng.choice(world.TRAFFIC)
    elif k == "preferred":
        p["lane"] = rng.choice([0, 0, 1, 2, None])
    elif k == "forced":
        p["to"] = rng.choice([0, 1, 2, 5, "random"])
    elif k == "field":
        p["field"] = rng.choice([["crashed", True], ["speed", 3.5], ["target_speed", 7.0], ["enable_lane_change", False],
                                 ["LANE_CHANGE_MAX_BRAKING_IMPOSED", 9], ["heading", 0.3]])
    elif k == "predict":
        p["dur"], p["save"] = rng.choice([(1.0, 0.5), (0.5, 0.1), (1.0, 0.3)])
    p["abuse"] = [dict(op=rng.choice(ABUSE), k=rng.getrandbits(24)) for _ in range(rng.choice([0, 1, 2, 4]))]
    return p


def run(plan, ctx):
    """The original (of which copies are taken) against a twin built from the same seed."""
    spec, acts = plan["spec"], plan["acts"]
    twin, _ = world.build_env(spec)
    env, _ = world.build_env(spec)
    points, events = {}, {e["t"]: e for e in plan["events"]}
    for p in plan["points"]:
        points.setdefault(p["t"], []).append(p)
    pending = []  # (copy, the index of the decision at which it was taken)

    def take(p, where):
        before = full_sig(env)
        b = world.base(env)
        st = b.np_random.get_state()[1].tobytes()
        if p["what"] == "copy":
            c = copy.deepcopy(env)  # with its wrapper, if it has one
            if full_sig(c) != before:
                raise Violation("copy-differs", "the copy of %s taken %s is not equal to the original" % (spec["env"], where))
            ctx.fault("deep copy " + ("in the middle of a step" if "tick" in p else "between steps"))
            if "tick" not in p and p["k"] % 2 == 0:
                pending.append((c, p["t"]))
                c2 = copy.deepcopy(c)
                abuse(world.base(c2), p["abuse"], ctx)
                if full_sig(c) != before:
                    raise Violation("copy-shares", "abusing a copy of a copy changed the copy")
            else:
                if "tick" in p:
                    for _ in range(2):  # a copy taken in the middle of a step can be driven on
                        world.base(c).road.act()
                        world.base(c).road.step(1 / 15)
                abuse(world.base(c), p["abuse"], ctx)
        else:
            c = HELPERS[p["what"]](b, p, ctx)
            ctx.probe("helper:" + p["what"])
            if c is not None:
                if c.road is b.road or c.vehicle is b.vehicle:
                    bad(p["what"], "the derived copy shares its road or vehicle with the original")
                abuse(c, p["abuse"], ctx)
        if full_sig(env) != before:
            raise Violation("original-changed", "%s and then %s on the result changed the original (%s, %s)"
                            % (p["what"], [a["op"] for a in p["abuse"]], spec["env"], where))
        if b.np_random.get_state()[1].tobytes() != st:
            raise Violation("original-changed", "%s advanced the random generator of the original" % p["what"])

    got, want, outs = [], [], []
    for k, a in enumerate(acts):
        if k in events:
            common.disturb(world.base(env), events[k], ctx)
            common.disturb(world.base(twin), events[k], core_null())
        mids = []
        for p in points.get(k, []):
            if "tick" in p:
                mids.append(p)
            else:
                take(p, "before decision %d" % k)
        n = [0]

        def cb():
            for p in mids:
                if p["tick"] == n[0]:
                    take(p, "at tick %d of decision %d" % (n[0], k))
            n[0] += 1
        if mids:
            world.midstep(env, cb)
            world.arm(env)
        try:
            out = env.step(world.decode(env.action_space, a))
        finally:
            if mids:
                world.unarm(env)
        got.append(world.step_sig(env, out))
        want.append(world.step_sig(twin, twin.step(world.decode(twin.action_space, a))))
        ctx.tick(1 / spec["cfg"].get("policy_frequency", 1))
    ctx.event(want)
    world.compare("original-future", want, got, "%s after copies were taken and used" % spec["env"])
    ctx.probe("steps of the original compared", len(acts))
    for c, t in pending:
        trace = []
        for k in range(t, len(acts)):
            if k in events and k > t:
                common.disturb(world.base(c), events[k], core_null())
            trace.append(world.step_sig(c, c.step(world.decode(c.action_space, acts[k]))))
        world.compare("copy-future", want[t:], trace, "the copy of %s taken before decision %d" % (spec["env"], t))
        ctx.probe("steps of copies compared", len(acts) - t)
    ctx.state(world.abstract_state(env))


class core_null:
    def fault(self, *a):
        pass


ENVS = ["highway", "highway", "merge", "parking", "summon", "roundabout", "two-way", "intersection", "multi-intersection",
        "lane-keeping", "tuple-intersection", "custom", "custom"]


def gen(rng, tier):
    spec = traces.gen_spec(rng, ENVS)
    n = rng.choice([1, 3, 5, 8])
    if spec["env"] == "highway" and rng.random() < 0.3:
        spec["cfg"].update(vehicles_count=rng.choice([10, 20]), vehicles_density=rng.choice([0.5, 1]))
        n = min(n, 3)
    points = [gen_point(rng, spec["env"], n) for _ in range(rng.randint(1, 4))]
    events = []
    if rng.random() < 0.4:
        events = [dict(t=rng.randrange(n), what=rng.choice(["crash", "speed", "push"]), i=rng.randrange(6),
                       v=round(rng.uniform(0.5, 35), 2), d=round(rng.uniform(-3, 3), 2))]
    return dict(spec=spec, acts=world.gen_acts(rng, n, 0.3), points=points, events=events)


FAMILIES = {"copies": (1, gen, run)}
