"""C14 Right of way at intersections is enforced and released."""
import math

from .. import envref, ref, world
from ..core import Violation
from . import common, stage

ID = "C14"
QUICK_RUNS, THOROUGH_RUNS = 1500, 25000
RULE = "one case = one run on a regulated road; at every tick the target speeds of all vehicles are compared with a reference that predicts the conflicts and assigns the right of way independently."
REAL = ["RegulatedRoad", "vehicles", "RoadNetwork", "the intersection environments"]
STUB = []
ASSUMPTIONS = ["Conflicts within 1e-6 m of touching are not judged, nor is what depends on them."]
TIMES = [0.25 * k for k in range(1, 12)]


def norm(i):
    return i[0], i[1], 0 if i[2] is None else int(i[2])


def prediction(net, v):
    """Documented prediction: constant speed on the centre of the lanes of the route."""
    route = [tuple(r) for r in v.route] if getattr(v, "route", None) else [tuple(v.lane_index)]
    for index in (v.lane_index, v.target_lane_index):
        if tuple(index[:2]) == tuple(route[0][:2]):
            route[0] = tuple(index)
            break
    lanes = [net[norm(r)] for r in route]
    s0 = lanes[0].local(v.position)[0]
    out, doubt = [], lanes[0].seam(v.position) < 1e-6
    for t in TIMES:
        s, k = s0 + v.speed * t, 0
        while k < len(lanes) - 1 and s > lanes[k].length:
            s -= lanes[k].length
            k += 1
        x, y = lanes[k].position(s, 0)
        out.append((x, y, lanes[k].heading(s)))
    return out, doubt


def conflict(p1, p2, v1, v2):
    """True, False, or None when too close to call."""
    doubt = False
    for (x1, y1, h1), (x2, y2, h2) in zip(p1, p2):
        d = math.hypot(x2 - x1, y2 - y1)
        if d > v1.LENGTH + 1e-6:
            continue
        o = ref.overlap((x1, y1, 1.5 * v1.LENGTH, 0.9 * v1.WIDTH, h1), (x2, y2, 1.5 * v2.LENGTH, 0.9 * v2.WIDTH, h2))
        if o < -1e-6:
            continue
        if o > 1e-6 and d < v1.LENGTH - 1e-6:
            return True
        doubt = True
    return None if doubt else False


class Regulation:
    def __init__(self, ctx, road, steps, wait=0.0):
        self.ctx, self.road = ctx, road
        self.net = ref.Net(road.network)
        self.steps = steps
        self.wait = wait * 2  # regulation instants
        self.held = {id(v): (0, 0) for v in road.vehicles if self.holdable(v) and v.target_speed == 0 and steps}

    @staticmethod
    def holdable(v):
        names = [c.__name__ for c in type(v).__mro__]
        return "ControlledVehicle" in names and "MDPVehicle" not in names

    def before_step(self, road, dt):
        """Predict what the regulation does in this tick."""
        ctx, net = self.ctx, self.net
        self.steps += 1
        vs = list(road.vehicles)
        self.was = {id(v): (v, getattr(v, "target_speed", None)) for v in vs}
        self.want = None
        if self.steps % max(int(1 / dt / 2), 1):
            return
        ctx.probe("regulation instants")
        preds = [prediction(net, v) for v in vs]
        must, may = {}, {}
        for i in range(len(vs)):
            for j in range(i + 1, len(vs)):
                a, b = vs[i], vs[j]
                (p1, d1), (p2, d2) = preds[i], preds[j]
                c = conflict(p1, p2, a, b)
                if d1 or d2:
                    c = None
                if c is False:
                    continue
                pa, pb = net[norm(a.lane_index)].priority, net[norm(b.lane_index)].priority
                if pa != pb:
                    losers = [b if pa > pb else a]
                    ctx.probe("conflicts between priorities")
                else:
                    fa = math.cos(a.heading) * (b.position[0] - a.position[0]) + math.sin(a.heading) * (b.position[1] - a.position[1])
                    fb = math.cos(b.heading) * (a.position[0] - b.position[0]) + math.sin(b.heading) * (a.position[1] - b.position[1])
                    losers = [a, b] if abs(fa - fb) < 1e-6 else [a if fa > fb else b]
                    ctx.probe("conflicts between equals")
                for l in losers:
                    (must if c and len(losers) == 1 else may)[id(l)] = l
        self.want = must, may
        self.limits = {id(v): net[norm(v.lane_index)].speed_limit for v in vs}

    def after(self, road, dt):
        ctx = self.ctx
        if self.want is None:
            for v, ts in self.was.values():
                if ts is not None and v.target_speed != ts:
                    raise Violation("between", "the target speed of a vehicle goes from %r to %r between two regulation instants" % (ts, v.target_speed))
            return
        must, may = self.want
        held = {}
        for k, (v, ts) in self.was.items():
            if ts is None:
                continue
            got = v.target_speed
            name = "%s on %s at %s" % (type(v).__name__, v.lane_index, ref.xy(v.position))
            if not self.holdable(v):
                if got != ts:
                    raise Violation("ego-held", "%s: target speed %r set to %r by the regulation" % (name, ts, got))
                if k in must:
                    ctx.probe("controlled vehicles that lose a conflict")
                continue
            if k in must:
                ctx.probe("vehicles held")
                if got != 0:
                    raise Violation("not-held", "%s loses a conflict, its target speed is %r" % (name, got))
                held[k] = 0, 0
                continue
            free = self.limits[k] if k in self.held else ts
            if k in may:
                if got != 0 and got != free and not (self.wait and k in self.held and got == ts):
                    raise Violation("not-held", "%s: target speed %r" % (name, got))
                if got == 0 and ts != 0 or got == 0 and k in self.held or self.wait and k in self.held and got != free:
                    held[k] = 0, self.held[k][1] + 1 if k in self.held else 0
                continue
            if k in self.held:
                least, most = self.held[k][0] + 1, self.held[k][1] + 1  # regulation instants since the conflict
                if most < self.wait:
                    ctx.probe("vehicles that wait")
                    if got != ts:
                        raise Violation("early", "%s lost a conflict %d regulation instants ago and is released before its yield duration of %r s" % (name, most, self.wait / 2))
                    held[k] = least, most
                    continue
                if least - 1 < self.wait and got == ts and self.wait:
                    held[k] = least, most
                    continue
                ctx.probe("vehicles released")
                if got != free:
                    raise Violation("release", "%s no longer loses a conflict, its target speed is %r instead of %r" % (name, got, free))
            elif got != ts:
                raise Violation("held", "%s loses no conflict, its target speed goes from %r to %r" % (name, ts, got))
        self.held = held


def run_env(plan, ctx):
    env, _ = world.build_env(plan["spec"])
    b = world.base(env)
    steps = getattr(b.road, "steps", None)
    if steps is None:
        return
    c = Regulation(ctx, b.road, steps)
    world.attach(env, ctx, before_step=c.before_step, after=c.after)
    for k, a in enumerate(plan["acts"]):
        for e in plan["events"]:
            if e["t"] == k:
                stage.stage(b, e, ctx)
        out = env.step(world.decode(env.action_space, a))
        ctx.event(world.step_sig(env, out))
        ctx.state(world.abstract_state(env))


def gen_env(rng, tier):
    p = stage.gen(["intersection", "intersection", "multi-intersection"], steps=(4, 8, 13),
                  kinds=["speed", "push", "crash-other", "remove", "block", "spawn", "place"])(rng, tier)
    for e in p["events"]:
        e["tick"] = None
    return p


# ------------------------------------------------------------------------------------------- custom roads
def crossing(rng):
    """Two or three roads through one point, with priorities; or a fork, or consecutive roads."""
    k = rng.randrange(4)
    if k == 0:
        return world.gen_road(rng, ["fork"])
    if k == 1:
        return world.gen_road(rng, ["ring"])
    edges = []
    base = rng.uniform(0, 3)
    for j in range(rng.choice([2, 3])):
        ang = base + j * rng.choice([0.6, 1.2, math.pi / 2])
        n, length = rng.choice([1, 2]), 160
        o = (-80 * math.cos(ang), -80 * math.sin(ang))
        pr = rng.choice([0, 0, 1, 2, 3])
        if rng.random() < 0.5:
            edges.append(dict(f="a%d" % j, t="b%d" % j, lanes=world.parallel(n, length, ang, o, rng.choice([10, 15, 20]), priority=pr)))
        else:  # in two consecutive roads, of different priorities and speed limits
            edges.append(dict(f="a%d" % j, t="m%d" % j, lanes=world.parallel(n, 80, ang, o, rng.choice([10, 15, 20]), priority=pr)))
            edges.append(dict(f="m%d" % j, t="b%d" % j, lanes=world.parallel(rng.choice([n, 1]), 80, ang, (0, 0), rng.choice([5, 10, 25]),
                                                                            priority=rng.choice([pr, 0, 3]))))
    return dict(kind="crossing", edges=edges)


def gen_roads(rng, tier):
    road = crossing(rng)
    n = rng.choice([2, 3, 5, 8])
    classes = rng.choice([["IDMVehicle"], ["IDMVehicle", "ControlledVehicle", "MDPVehicle"], ["LinearVehicle", "IDMVehicle"], ["ControlledVehicle"]])
    vs = world.gen_vehicles(rng, road, n, classes, speed=rng.choice([(0, 15), (5, 20)]), gap=rng.choice([6, 10, None]), offsets=rng.random() < 0.4)
    nodes = sorted(set(e["t"] for e in road["edges"]))
    for v in vs:
        v["elc"] = rng.random() < 0.3
        if rng.random() < 0.6:
            v["dest"] = rng.choice(nodes)
        v["nocoll"] = rng.random() < 0.3
    ticks = rng.choice([40, 90])
    kinds = rng.sample(["push", "mute", "dt", "crash", "remove", "tspeed", "stall", "shuffle", "retarget", "spawn"], rng.randint(1, 5))
    ev = world.gen_events(rng, ticks, kinds, rng.randrange(10), n, road, classes)
    return dict(world=dict(road=road, vehicles=vs, objects=[], seed=rng.getrandbits(20), regulated=True, events=ev, **({"yield": rng.choice([0.5, 1, 2, 3])} if rng.random() < 0.3 else {})),
                ticks=ticks, dt=rng.choice([1 / 15, 0.05, 0.1, 0.2, 0.07]))


def run_roads(plan, ctx):
    w = world.World(plan["world"], ctx)
    c = Regulation(ctx, w.road, 0, plan["world"].get("yield", 0.0))
    w.run(plan["ticks"], plan["dt"], before_step=lambda w: c.before_step(w.road, w.dt),
          after=lambda w: (c.after(w.road, w.dt), ctx.state(w.abstract()) if w.t % 10 == 0 else None))


FAMILIES = {"env": (2, gen_env, run_env), "roads": (3, gen_roads, run_roads)}
