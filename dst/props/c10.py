"""C10 Traffic changes lane only when it is allowed, safe and useful."""
import math

from .. import envref, ref, world
from ..core import Violation
from . import common

ID = "C10"
QUICK_RUNS, THOROUGH_RUNS = 5000, 60000
RULE = "one case = one simulated run in which every decision of every traffic vehicle is compared with a reference lane-change policy, evaluated between the decisions of two vehicles."
REAL = ["driver models", "Road", "RoadNetwork", "vehicles", "environments"]
STUB = ["the loop that asks every vehicle for its decision (same order), so that each decision can be judged on the scene it saw"]
ASSUMPTIONS = ["Decisions within 1e-6 of a threshold, or that follow a random choice of the next road, are not judged."]


def same(a, b):
    return a is not None and b is not None and tuple(a[:2]) == tuple(b[:2]) and int(a[2]) == int(b[2])


def lane_of(v):
    return v.lane_index[0], v.lane_index[1], int(v.lane_index[2])


class Policy:
    """The documented lane-change policy, with a clock of its own per vehicle."""

    def __init__(self, ctx, w):
        self.ctx = ctx
        self.w = w if isinstance(w, world.World) else None
        self.over = ref.INTERSECTION if self.w is None and envref.kind(w) == "intersection" else None
        self.clock = {}   # id -> [vehicle, time since the last decision or None]
        self.net = None
        self.watch(self.w.road if self.w else world.base(w).road)

    def watch(self, road):
        self.road, self.net = road, ref.Net(road.network)

        def act():
            for v in road.vehicles:
                self.decide(v)
        road.act = act

    def before_step(self, road, dt):
        for v in road.vehicles:
            if id(v) in self.clock and self.clock[id(v)][0] is v and self.clock[id(v)][1] is not None:
                self.clock[id(v)][1] += dt

    def after(self, road, dt):
        pass

    def decide(self, v):
        m = ref.model_of(v, self.over)
        if m is None:
            return v.act()
        if "LANE_CHANGE_MAX_BRAKING_IMPOSED" in vars(v):
            m["braking"] = v.LANE_CHANGE_MAX_BRAKING_IMPOSED
        if id(v) not in self.clock or self.clock[id(v)][0] is not v:
            self.clock[id(v)] = [v, getattr(v, "timer", None)]
        clock = self.clock[id(v)]
        before = tuple(v.target_lane_index)
        lost = "act" in vars(v)
        here = lane_of(v)
        ended = None if self.net[before].kind == "circular" and self.net[before].seam(v.position) < 1e-6 else self.net[before].after_end(v.position)
        route = list(v.route) if v.route else None
        # The reference decides on the scene as it is before the vehicle does, except for the route, which is
        # consumed at the end of a lane
        want = None
        if not lost and not v.crashed and ended is False:
            want = self.policy(v, m, before, here, route, clock)
        v.act()
        got = v.target_lane_index
        ctx = self.ctx
        if lost or v.crashed:
            ctx.probe("vehicles out of order")
            if not same(got, before):
                raise Violation("crashed", "a crashed vehicle changes its target lane from %s to %s" % (before, got))
            return
        if ended is not False:
            self.after_follow(v, before, here, got, clock)
            return
        if want is None:
            return
        self.judge(v, m, before, here, got, want, clock)

    def policy(self, v, m, target, here, route, clock):
        """Set of acceptable target lanes, the reason, and whether the clock is restarted (None: in doubt)."""
        if not getattr(v, "enable_lane_change", True):
            return [target], "disabled", False
        if here != (target[0], target[1], int(target[2])):
            out, doubt = target, False
            if here[:2] == tuple(target[:2]):
                for o in self.road.vehicles:
                    if o is v or not hasattr(o, "target_lane_index") or ref.is_object(o):
                        continue
                    if same(o.lane_index, target) or not same(o.target_lane_index, target):
                        continue
                    d, gap = ref.lane_gap(self.net, v, o), ref.desired_gap(m, v, o)
                    close = [ref._lt(0, d), ref._lt(d, gap)]
                    if any(c is False for c in close):
                        continue
                    if any(c is None for c in close):
                        doubt = True
                        continue
                    out = here
            if out is here:
                return [here], "abort", False
            return [target] + ([here] if doubt else []), "ongoing", False
        if clock[1] is None:
            due = None
        else:
            due = None if abs(clock[1] - m["delay"]) < 1e-9 else bool(clock[1] > m["delay"])
        if due is False:
            return [target], "not yet", False
        sides = []
        for j in (here[2] - 1, here[2] + 1):
            index = (here[0], here[1], j)
            if not 0 <= j < self.net.n(here):
                continue
            reach = self.net[index].reachable(v.position)
            go = False if reach is False else self.mobil(v, m, index)
            go = False if go is False else None if go is None or reach is None else True
            sides.append((index, go))
        accept = [target]
        for index, go in sides:
            if go is True:
                accept = [index]
            elif go is None:
                accept = accept + [index]
        if due is None:
            return (accept if hasattr(v, "timer") else accept + [target]), "maybe", None
        return accept, "decision", True

    def mobil(self, v, m, index):
        return ref.mobil(self.net, self.road, v, m, index)

    def judge(self, v, m, before, here, got, want, clock):
        ctx = self.ctx
        accept, why, restart = want
        if why == "maybe" and hasattr(v, "timer"):  # the clock is on the edge of a period: ask the vehicle whether it decided
            accept, why, restart = (accept, "decision", True) if v.timer == 0 else ([before], "not yet", False)
        changed = not same(got, before)
        if why == "decision":
            ctx.probe("decisions to change" if len(accept) == 1 and not same(accept[0], before) else
                      "decisions in doubt" if len(accept) > 1 else "decisions to stay")
        else:
            ctx.probe("lane changes " + why if why in ("abort", "ongoing", "disabled") else why)
        if not any(same(got, a) for a in accept):
            kind = {"decision": "change" if changed else "no-change", "not yet": "frequency", "abort": "no-abort",
                    "ongoing": "abort", "disabled": "disabled", "maybe": "change"}[why]
            raise Violation(kind, "%s on lane %s targets %s instead of %s (%s, %.3f s after the last decision)" % (
                type(v).__name__, here, got, accept, why, -1 if clock[1] is None else clock[1]))
        if restart is True:
            clock[1] = 0.0
        elif restart is None:
            clock[1] = getattr(v, "timer", None)

    def after_follow(self, v, before, here, got, clock):
        """The vehicle moved on to the next road: only the clock is followed, when the outcome is unambiguous."""
        self.ctx.probe("ends of lanes")
        if same(here, got) or here[:2] == tuple(got[:2]) or clock[1] is None or clock[1] > (ref.model_of(v, self.over) or {}).get("delay", 1) - 1e-3:
            clock[1] = getattr(v, "timer", None)


# ------------------------------------------------------------------------------------------------ worlds
KINDS = ["push", "spawn", "crash", "dt", "object", "unobject", "remove", "stall", "tspeed", "mute", "retarget", "shuffle"]


def gen_dense(rng, tier):
    kind = rng.choice(["straight", "straight", "straight", "chain", "sine", "forbidden"])
    if kind == "chain":
        road = world.gen_road(rng, ["chain"])
    elif kind == "sine":
        road = world.gen_road(rng, ["sine"])
    else:
        n = rng.choice([2, 3, 4])
        road = dict(kind=kind, edges=[dict(f="a", t="b", lanes=world.parallel(
            n, 3000, rng.choice([0, 0.7, 2.5]), limit=30, forbidden=[rng.randrange(n)] if kind == "forbidden" else ()))])
    classes = rng.choice([["IDMVehicle"], ["IDMVehicle", "LinearVehicle"], ["AggressiveVehicle", "DefensiveVehicle"],
                          ["IDMVehicle", "MDPVehicle", "ControlledVehicle"], ["LinearVehicle", "Vehicle"]])
    n = rng.choice([2, 4, 6, 9])
    vs = world.gen_vehicles(rng, road, n, classes, speed=rng.choice([(5, 15), (10, 30), (0, 5)]), spread=rng.choice([60, 120, 200]),
                            gap=rng.choice([6, 12, None]), offsets=rng.random() < 0.4)
    for v in vs:
        if v["cls"] in world.TRAFFIC:
            v["tspeed"] = round(rng.uniform(1, 35), 3)
            lanes = [e for e in road["edges"] if e["f"] == v["lane"][0] and e["t"] == v["lane"][1]][0]["lanes"]
            if rng.random() < 0.25:  # a planned lane
                v["route"] = [[v["lane"][0], v["lane"][1], rng.randrange(len(lanes))]]
            if rng.random() < 0.2 and len(lanes) > 1:
                v["target"] = [v["lane"][0], v["lane"][1], rng.randrange(len(lanes))]
    world.gen_drivers(rng, vs)
    ticks = rng.choice([20, 45, 80])
    swarm = rng.sample(KINDS, rng.randint(1, 5))
    return dict(world=dict(road=road, vehicles=vs, objects=[], seed=rng.getrandbits(20),
                           events=world.gen_events(rng, ticks, swarm, rng.randrange(0, 10), len(vs), road, classes)),
                ticks=ticks, dt=rng.choice([1 / 15, 0.05, 0.1, 0.2, 0.07, 0.13]))


def gen_conflict(rng, tier):
    """Vehicles of the outer lanes head for the lane between them, at close range."""
    n = rng.choice([3, 3, 4])
    mid = rng.randrange(1, n - 1)
    road = dict(kind="straight", edges=[dict(f="a", t="b", lanes=world.parallel(n, 3000, rng.choice([0, 0.7, 2.5]), limit=30))])
    classes = rng.choice([["IDMVehicle"], ["IDMVehicle", "LinearVehicle"], ["IDMVehicle", "MDPVehicle", "ControlledVehicle"]])
    vs, s = [], 50.0
    for k in range(rng.choice([2, 3, 4, 6])):
        cls = rng.choice(classes)
        v = dict(cls=cls, lane=["a", "b", rng.choice([mid - 1, mid, mid + 1])], s=round(s, 3), v=round(rng.uniform(5, 30), 3), id=k,
                 tspeed=round(rng.uniform(5, 35), 3))
        if rng.random() < 0.7:
            v["target"] = ["a", "b", mid]
        if cls in world.TRAFFIC:
            v["timer"] = round(rng.uniform(0.01, 0.99), 3)
            if rng.random() < 0.2:
                v["route"] = [["a", "b", rng.randrange(n)]]
        vs.append(v)
        s += rng.uniform(0, 30)
    world.gen_drivers(rng, vs)
    ticks = rng.choice([20, 45])
    swarm = rng.sample(["push", "crash", "dt", "remove", "tspeed", "mute", "retarget", "shuffle"], rng.randint(1, 4))
    return dict(world=dict(road=road, vehicles=vs, objects=[], seed=rng.getrandbits(20),
                           events=world.gen_events(rng, ticks, swarm, rng.randrange(0, 6), len(vs), road, classes)),
                ticks=ticks, dt=rng.choice([1 / 15, 0.05, 0.1, 0.2, 0.07, 0.13]))


FAMILIES = {"conflict": (2, gen_conflict, common.run_world(Policy)), "dense": (4, gen_dense, common.run_world(Policy)),
            "env": (1, common.gen_env(["highway", "merge", "two-way", "roundabout", "intersection", "summon"]), None)}


def run_env(plan, ctx):
    env, _ = world.build_env(plan["spec"])
    b = world.base(env)
    c = Policy(ctx, env)
    world.attach(env, ctx, before_step=c.before_step)
    events = {e["t"]: e for e in plan.get("events", [])}
    for k, a in enumerate(plan["acts"]):
        if k in events:
            common.disturb(b, events[k], ctx)
        out = env.step(world.decode(env.action_space, a))
        ctx.event(world.step_sig(env, out))
        ctx.state(world.abstract_state(env))


FAMILIES["env"] = FAMILIES["env"][:2] + (run_env,)
