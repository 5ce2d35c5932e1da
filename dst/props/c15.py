"""C15 Scenes are populated safely and as configured."""
import math

import numpy as np

from .. import envref, ref, world
from ..core import Violation
from . import stage

ID = "C15"
QUICK_RUNS, THOROUGH_RUNS = 1140, 40000
RULE = "one case = one environment configuration, reset several times after histories with staged faults; every reset scene, and at intersections the vehicles removed and added by every step, are judged against the documented population rules."
REAL = ["environments", "Road", "vehicles"]
STUB = ["the viewer (a stand-in that enables the callback after every tick)"]
ASSUMPTIONS = ["Overlaps are not judged where the scene has no guaranteed spacing: highways configured with less than 5 m, the unspaced traffic of the two-way road and the moving cars of the busy parking lot. The moving cars of a busy parking lot with more than 11 vehicles may start beyond the end of their lane."]
TOL = 1e-6


def xy(v):
    return float(v.position[0]), float(v.position[1])


def dist(v, w):
    return math.hypot(v.position[0] - w.position[0], v.position[1] - w.position[1])


def fail(kind, msg):
    raise Violation(kind, msg)


class Scenes:
    def __init__(self, ctx, env):
        self.ctx, self.env, self.b = ctx, env, world.base(env)
        self.k = envref.kind(env)
        self.old = set()
        self.last = None

    # ------------------------------------------------------------------------------------------ after a reset
    def reset(self):
        b, ctx = self.b, self.ctx
        cfg = b.config
        ctx.probe("reset scenes")
        egos, vs = list(b.controlled_vehicles), list(b.road.vehicles)
        others = [v for v in vs if not any(v is e for e in egos)]
        net = ref.Net(b.road.network)
        if any(id(v) in self.old for v in vs):
            fail("leftover", "%s: a vehicle of the previous episode is still there" % self.k)
        n = cfg.get("controlled_vehicles", 1)
        if len(egos) != n or any(not any(v is e for v in vs) for e in egos) or len(set(map(id, vs))) != len(vs):
            fail("agents", "%s: %d agents configured, %d controlled vehicles, %d of them on the road, %d vehicles of which %d distinct" % (
                self.k, n, len(egos), sum(any(v is e for v in vs) for e in egos), len(vs), len(set(map(id, vs)))))
        a = cfg["action"]
        a = a.get("action_config", a)
        want = world.vclass("MDPVehicle" if a["type"] == "DiscreteMetaAction" else "BicycleVehicle" if a.get("dynamical") else "Vehicle")
        for e in egos:
            if type(e) is not want:
                fail("agent-class", "%s: the agent drives a %s instead of a %s" % (self.k, type(e).__name__, want.__name__))
        for v in vs:
            if v.road is not b.road:
                fail("road", "%s: a vehicle refers to another road" % self.k)
            if not np.all(np.isfinite(v.position)) or abs(v.speed) > 41:
                fail("state", "%s: position %s speed %s" % (self.k, v.position, v.speed))
        traffic = world.vclass(cfg["other_vehicles_type"].split(".")[-1]) if others else None
        plain = world.vclass("Vehicle")
        for v in others:
            if type(v) is not traffic and not (self.k == "summon" and type(v) is plain):
                fail("traffic-class", "%s: %s instead of %s" % (self.k, type(v).__name__, traffic.__name__))
        for v in vs:
            v_on = any(l.on(xy(v), 1e-6) for l in net.lanes.values())
            if not v_on and not (self.k == "parking" and any(v is e for e in egos)) and not (
                    self.k == "summon" and any(abs(l.local(xy(v))[1]) < 1e-6 for i, l in net.lanes.items() if i[0] == "d")):
                fail("off-road", "%s: %s at %s is on no lane" % (self.k, type(v).__name__, xy(v)))
        getattr(self, self.k.replace("-", "_"))(egos, others, net)
        self.overlaps(vs, others)
        self.old = set(map(id, vs))
        self.hold = vs

    def overlaps(self, vs, others):
        b, k = self.b, self.k
        if k == "two-way":
            return
        if k == "highway" and self.spacing() < 5.2:
            return
        self.ctx.probe("overlap checks")
        for i, v in enumerate(vs):
            if v.crashed and k != "intersection":
                fail("crashed", "%s: a vehicle is crashed at the reset" % k)
            for w in vs[:i]:
                if v.crashed or w.crashed:
                    continue
                if k == "summon" and all(any(x is o for o in others) and x.speed != 0 for x in (v, w)):
                    continue
                r = ref.overlap(ref.footprint(v, 1.0 if k != "intersection" else 0.9), ref.footprint(w, 1.0 if k != "intersection" else 0.9))
                if r > 1e-6:
                    fail("overlap", "%s: vehicles at %s and %s overlap by %.3f m at the reset" % (k, xy(v), xy(w), r))

    def spacing(self):
        """Smallest spacing that the highway's configuration guarantees."""
        c = self.b.config
        return min(c["ego_spacing"] * 25, 1 / c["vehicles_density"] * 23) * 1.5 * math.exp(-c["lanes_count"] / 6) * 0.9

    def straight(self, v, net, index, what):
        s, r = net[index].local(xy(v))
        if abs(r) > 1e-6 or abs(ref.wrap(v.heading - net[index].heading(s))) > 1e-6:
            fail("placement", "%s: %s is %.3f m off the centre of its lane, heading error %.3f" % (
                self.k, what, r, ref.wrap(v.heading - net[index].heading(s))))
        return s

    def highway(self, egos, others, net):
        c = self.b.config
        if len(others) != c["vehicles_count"]:
            fail("count", "highway: %d traffic vehicles instead of %d" % (len(others), c["vehicles_count"]))
        if len(net.lanes) != c["lanes_count"]:
            fail("lanes", "highway: %d lanes instead of %d" % (len(net.lanes), c["lanes_count"]))
        if c["lanes_count"] > 1 and len(others) > 35 and len({v.lane_index[2] for v in others}) == 1:
            fail("spread", "highway: all %d traffic vehicles start on lane %s" % (len(others), others[0].lane_index[2]))
        order = egos + others
        last = None
        for v in order:
            s = self.straight(v, net, tuple(v.lane_index), "a vehicle")
            ego = any(v is e for e in egos)
            if ego and c["initial_lane_id"] is not None and v.lane_index[2] != c["initial_lane_id"]:
                fail("initial-lane", "highway: the ego vehicle starts on lane %d instead of %d" % (v.lane_index[2], c["initial_lane_id"]))
            if ego and v.speed != 25:
                fail("ego-speed", "highway: the ego vehicle starts at %s m/s" % v.speed)
            if not ego and not 23 - TOL <= v.speed <= 25 + TOL:
                fail("traffic-speed", "highway: a vehicle starts at %s m/s" % v.speed)
            gap = (c["ego_spacing"] if ego else 1 / c["vehicles_density"]) * 1.5 * v.speed * math.exp(-c["lanes_count"] / 6)
            d = s - last if last is not None else s - 3 * gap
            if not 0.9 * gap - TOL <= d <= 1.1 * gap + TOL:
                fail("spacing", "highway: a vehicle is %.3f m ahead of the previous one; the configured spacing is %.3f m" % (d, gap))
            last = s

    def merge(self, egos, others, net):
        self.count(others, 4)
        want = sorted([(("a", "b", 0), 90.0, 29.0), (("a", "b", 1), 70.0, 31.0), (("a", "b", 0), 5.0, 31.5), (("j", "k", 0), 110.0, 20.0)])
        self.placed([(("a", "b", 1), 30.0, 30.0)], egos, net)
        self.placed(want, others, net)
        obs = [o for o in self.b.road.objects if type(o).__name__ == "Obstacle"]
        end = net[("b", "c", 2)]
        if len(obs) != 1 or math.hypot(*(np.array(obs[0].position) - np.array(end.position(end.length, 0)))) > 1e-6:
            fail("obstacle", "merge: no obstacle at the end of the merging lane")

    def placed(self, want, vs, net, tol=1e-6):
        got = sorted((tuple(v.lane_index), self.straight(v, net, tuple(v.lane_index), "a vehicle"), float(v.speed)) for v in vs)
        for w, g in zip(sorted(want), got):
            if w[0] != g[0] or abs(w[1] - g[1]) > tol or abs(w[2] - g[2]) > tol:
                fail("placement", "%s: a vehicle starts on %s at %.2f m with %.2f m/s instead of %s" % (self.k, g[0], g[1], g[2], w))

    def count(self, others, n):
        if len(others) != n:
            fail("count", "%s: %d traffic vehicles instead of %d" % (self.k, len(others), n))

    def two_way(self, egos, others, net):
        self.count(others, 5)
        self.placed([(("a", "b", 1), 30.0, 30.0)], egos, net)
        lanes = [tuple(v.lane_index) for v in others]
        if lanes.count(("a", "b", 1)) != 3 or lanes.count(("b", "a", 0)) != 2:
            fail("placement", "two-way: traffic on %s" % lanes)
        for v in others:
            self.straight(v, net, tuple(v.lane_index), "a vehicle")
            if tuple(v.target_lane_index) != tuple(v.lane_index):
                fail("target-lane", "two-way: a vehicle on %s heads for %s" % (v.lane_index, v.target_lane_index))

    def roundabout(self, egos, others, net):
        self.count(others, 4)
        e = egos[0]
        s, r = net[("ser", "ses", 0)].local(xy(e))
        if abs(s - 125) > 1e-6 or abs(r) > 1e-6 or e.speed != 8:
            fail("placement", "roundabout: the ego vehicle starts at %.2f, %.2f with %.2f m/s" % (s, r, e.speed))
        lanes = sorted((v.lane_index[0], v.lane_index[1]) for v in others)
        for v in others:
            self.routed(v)
        self.behaviours(others)
        k = self.b.config["incoming_vehicle_destination"]
        if k is not None:
            want = ["exr", "sxr", "nxr"][k]
            if others[0].route[-1][1] != want:
                fail("destination", "roundabout: the incoming vehicle is going to %s instead of %s" % (others[0].route[-1][1], want))
        for v in others:
            if v.route[-1][1] not in ("exr", "sxr", "nxr"):
                fail("destination", "roundabout: a vehicle is going to %s" % v.route[-1][1])
        self.ctx.event(lanes)

    def routed(self, v):
        if not v.route:
            fail("route", "%s: a traffic vehicle has no route" % self.k)

    def parking(self, egos, others, net):
        self.count(others, 0)
        for i, v in enumerate(egos):
            if abs(v.position[0] - 20 * i) > 1e-9 or abs(v.position[1]) > 1e-9 or v.speed != 0:
                fail("placement", "parking: agent %d starts at %s with %s m/s" % (i, xy(v), v.speed))
        g = self.b.goal
        at = [k for k, l in net.lanes.items() if math.hypot(*(np.array(l.position(l.length / 2, 0)) - np.array(g.position))) < 1e-6
              and abs(ref.wrap(l.heading(0) - g.heading)) < 1e-6]
        if len(at) != 1 or not any(o is g for o in self.b.road.objects) or len(self.b.road.objects) != 1 or g.hit:
            fail("goal", "parking: the goal is not on a free spot")

    def summon(self, egos, others, net):
        n = self.b.config["vehicles_count"]
        ego = egos[0]
        if len(others) > n:
            fail("count", "summon: %d traffic vehicles instead of at most %d" % (len(others), n))
        for v in others:
            if dist(v, ego) < 20 - TOL:
                fail("near", "summon: a vehicle starts %.2f m from the ego vehicle" % dist(v, ego))
        xs = 0
        lot = {k: l for k, l in net.lanes.items() if k[0] != "d"}
        xr = 32.0
        for i in range(n):  # vehicle i may only be left out if one of its possible places is near the ego vehicle
            places = [lot[("a", "b", i)].position(4, 0), lot[("b", "c", i)].position(4, 0)]
            for k, l in net.lanes.items():
                if k[0] == "d":
                    places += [l.position(5 * i + xr / 8, 0), l.position(5 * i, 0)]
            xs += all(math.hypot(p[0] - ego.position[0], p[1] - ego.position[1]) > 20 + TOL for p in places)
        if len(others) < xs:
            fail("count", "summon: %d traffic vehicles, at least %d of the %d are far enough from the ego vehicle" % (len(others), xs, n))
        for v in others:
            k = tuple(v.lane_index)
            if v.speed == 0:
                spot = [l for l in lot.values() if math.hypot(*(np.array(l.position(4, 0)) - v.position)) < 1e-6]
                if not spot:
                    fail("placement", "summon: a parked vehicle at %s is on no spot" % (xy(v),))
            elif k[0] != "d" or abs(v.speed - 2) > TOL:
                fail("placement", "summon: a moving vehicle at %s with %.2f m/s" % (xy(v), v.speed))
        g = self.b.goal
        if abs(abs(g.position[0]) - 40) > 1e-9 or abs(g.position[1]) > 1e-9 or g.heading != 0:
            fail("goal", "summon: the goal is at %s" % (tuple(g.position),))

    def lane_keeping(self, egos, others, net):
        self.count(others, 0)

    def intersection(self, egos, others, net):
        c = self.b.config
        for i, e in enumerate(egos):
            index = ("o%d" % (i % 4), "ir%d" % (i % 4), 0)
            s, r = net[index].local(xy(e))
            if abs(r) > 1e-6 or abs(s - 60) > 40 or abs(ref.wrap(e.heading - net[index].heading(s))) > 1e-6:
                fail("placement", "intersection: agent %d starts at %.2f, %.2f of its road" % (i, s, r))
            self.routed(e)
            d = c["destination"]
            if d is not None and e.route[-1][1] != d and d != index[0]:
                fail("destination", "intersection: agent %d is going to %s instead of %s" % (i, e.route[-1][1], d))
            for v in others:
                if dist(v, e) < 20 - TOL:
                    fail("near", "intersection: a vehicle starts %.2f m from agent %d" % (dist(v, e), i))
        if len(others) > max(c["initial_vehicle_count"], 1):
            fail("count", "intersection: %d traffic vehicles instead of at most %d" % (len(others), c["initial_vehicle_count"]))
        for v in others:
            self.routed(v)
        self.behaviours(others)

    def behaviours(self, new, there=()):
        """Traffic of a class with random behaviours: each vehicle has parameters of its own, within the documented ranges."""
        seen = {tuple(map(float, v.ACCELERATION_PARAMETERS)) for v in there if hasattr(v, "ACCELERATION_PARAMETERS")}
        lo, hi = ref.THETA_RANGE
        for v in new:
            if not hasattr(v, "ACCELERATION_PARAMETERS"):
                continue
            th = tuple(map(float, v.ACCELERATION_PARAMETERS))
            self.ctx.probe("random behaviours")
            if any(not l - TOL <= x <= h + TOL for l, x, h in zip(lo, th, hi)):
                fail("behaviour", "%s: a %s with parameters %s outside of %s" % (self.k, type(v).__name__, th, ref.THETA_RANGE))
            if th in seen or th == tuple(map(float, type(v).ACCELERATION_PARAMETERS)):
                fail("behaviour", "%s: a %s has the parameters %s of another one or of its class" % (self.k, type(v).__name__, th))
            seen.add(th)

    # -------------------------------------------------------------------------------- the steps of an intersection
    def watch(self):
        road = self.b.road

        def after(road_, dt):
            self.last = list(road.vehicles)
        world.attach(self.env, self.ctx, after=after)

    def step(self):
        b, ctx = self.b, self.ctx
        egos = list(b.controlled_vehicles)
        net = ref.Net(b.road.network)
        now, old = list(b.road.vehicles), self.last
        if len(set(map(id, now))) != len(now):
            fail("twice", "a vehicle is listed twice")
        added = [v for v in now if not any(v is o for o in old)]
        for v in old:
            stays = any(v is o for o in now)
            if any(v is e for e in egos):
                if not stays:
                    fail("removed-agent", "a controlled vehicle was removed")
                continue
            index = tuple(v.lane_index)
            s, _ = net[index].local(xy(v))
            left = s - (net[index].length - 20)
            exit_road = index[0].startswith("il") and index[1].startswith("o")
            if v.route is None or exit_road and left > TOL:
                ctx.probe("leaving vehicles")
                if stays:
                    fail("not-removed", "a vehicle %s is still there" % ("without route" if v.route is None else
                                                                          "%.1f m from the end of its exit" % (20 - left)))
            elif not stays and not (exit_road and abs(left) <= TOL):
                fail("removed", "a vehicle on %s at %.1f m (route %s) was removed" % (index, s, v.route))
        if len(added) > 1:
            fail("added", "%d vehicles were added by one step" % len(added))
        self.behaviours(added, [v for v in now if not any(v is a for a in added)])
        for v in added:
            ctx.probe("spawned vehicles")
            index = tuple(v.lane_index)
            if not (index[0].startswith("o") and index[1].startswith("ir")):
                fail("spawn-place", "a vehicle was added on %s" % (index,))
            s, r = net[index].local(xy(v))
            if abs(r) > 1e-6 or not -5 < s < 15 or abs(ref.wrap(v.heading - net[index].heading(s))) > 1e-6:
                fail("spawn-place", "a vehicle was added at %.2f, %.2f of %s" % (s, r, index))
            if type(v) is not world.vclass(b.config["other_vehicles_type"].split(".")[-1]):
                fail("spawn-class", "a %s was added" % type(v).__name__)
            if v.crashed or not 0 < v.speed < 17:
                fail("spawn-state", "a vehicle was added with speed %.2f, crashed=%s" % (v.speed, v.crashed))
            if not v.route or not str(v.route[-1][1]).startswith("o") or v.route[-1][1] == index[0]:
                fail("spawn-route", "a vehicle was added on %s with the route %s" % (index, v.route))
            for w in now:
                if w is not v and dist(v, w) < 15 - TOL:
                    fail("spawn-near", "a vehicle was added %.2f m from another" % dist(v, w))
        p = b.config["spawn_probability"]
        if p == 0 and added:
            fail("spawn-rate", "a vehicle was added although the spawn probability is zero")
        if p == 1 and not added:
            free = True
            for c in range(4):
                l = net[("o%d" % c, "ir%d" % c, 0)]
                free = free and all(math.hypot(*(np.array(l.position(5, 0)) - v.position)) > 22 for v in now)
            if free:
                fail("spawn-rate", "no vehicle was added although all entrances are free and the spawn probability is one")


def tweak(rng, spec):
    cfg = spec["cfg"]
    if spec["env"] == "highway":
        cfg["vehicles_count"] = rng.choice([0, 1, 3, 8, 20, 40])
        cfg["vehicles_density"] = rng.choice([0.5, 1, 1.5, 2, 3])
        if rng.random() < 0.3:
            n = rng.choice([2, 3])
            cfg["controlled_vehicles"] = n
            cfg["action"] = {"type": "MultiAgentAction", "action_config": {"type": "DiscreteMetaAction"}}
            cfg["observation"] = {"type": "MultiAgentObservation", "observation_config": {"type": "Kinematics"}}


def gen_reset(rng, tier):
    spec = world.gen_env(rng, ["highway", "highway", "merge", "parking", "summon", "summon", "roundabout", "two-way", "intersection",
                               "multi-intersection", "lane-keeping"], obs=False)
    tweak(rng, spec)
    if spec["env"] == "parking" and rng.random() < 0.4:
        stage.multi_parking(spec["cfg"], rng.choice([1, 2, 3]))
    if spec["env"] == "summon":
        spec["cfg"]["vehicles_count"] = rng.choice([0, 1, 5, 10, 15])
    eps = []
    for _ in range(rng.choice([2, 4])):
        n = rng.choice([0, 0, 1, 2]) if spec["env"] != "highway" else 0
        eps.append(dict(acts=world.gen_acts(rng, n), events=stage.gen_stage(rng, max(n, 1), ["crash", "remove", "push", "crash-ego", "place"]),
                        seed=rng.choice([None, rng.getrandbits(20)])))
    return dict(spec=spec, episodes=eps)


def run_reset(plan, ctx):
    env = world.make_env(plan["spec"])
    env.seed(plan["spec"]["seed"])
    s = Scenes(ctx, env)
    b = world.base(env)
    for e in plan["episodes"]:
        if e["seed"] is not None:
            env.seed(e["seed"])
        env.reset()
        s.reset()
        ctx.state(world.abstract_state(env))
        ctx.event(world.h8(world.scene_sig(env)))
        for k, a in enumerate(e["acts"]):
            for ev in e["events"]:
                if ev["t"] == k and s.k != "lane-keeping":
                    stage.stage(b, ev, ctx)
            out = env.step(world.decode(env.action_space, a))
            ctx.event(world.step_sig(env, out))
            ctx.tick(1 / b.config["policy_frequency"])


KINDS = ["crash", "speed", "remove", "push", "crash-ego", "crash-other", "place", "off-road", "block", "faster", "spawn", "spawn", "exit",
         "exit", "entrance", "swap"]


def apply(b, e, ctx):
    """Situations around the exits and entrances."""
    others = [v for v in b.road.vehicles if not any(v is c for c in b.controlled_vehicles)]
    if e["what"] == "exit":  # vehicles near the end of an exit, agents too
        v = (others + list(b.controlled_vehicles))
        v = v[e["i"] % len(v)]
        stage.put(b, v, stage.exits(b)[e["i"] % 4], 74 + 12 * e["f"])
    elif e["what"] == "entrance":
        v = (others + list(b.controlled_vehicles))
        v = v[e["i"] % len(v)]
        c = e["i"] % 4
        stage.put(b, v, ("o%d" % c, "ir%d" % c, 0), 40 * e["f"])
    else:
        stage.stage(b, e, ctx)
        return
    ctx.fault(e["what"])


def gen_flow(rng, tier):
    spec = world.gen_env(rng, ["intersection", "multi-intersection", "multi-intersection"], obs=False)
    cfg = spec["cfg"]
    cfg["spawn_probability"] = rng.choice([0, 0.6, 1, 1, 1])
    cfg["initial_vehicle_count"] = rng.choice([1, 2, 5, 10])
    n = rng.choice([4, 10, 16])
    ev = stage.gen_stage(rng, n, KINDS, count=rng.choice([2, 5, 8]))
    return dict(spec=spec, acts=world.gen_acts(rng, n, 0.4), events=ev)


def run_flow(plan, ctx):
    env, _ = world.build_env(plan["spec"])
    s = Scenes(ctx, env)
    s.reset()
    s.watch()
    b = world.base(env)
    for k, a in enumerate(plan["acts"]):
        mid = []
        for e in plan["events"]:
            if e["t"] == k:
                if e["tick"] is None:
                    apply(b, e, ctx)
                else:
                    mid.append(e)
        n = [0]

        def cb():
            for e in mid:
                if e["tick"] == n[0]:
                    apply(b, e, ctx)
            n[0] += 1
            s.last = list(b.road.vehicles)
        world.midstep(env, cb)
        world.arm(env)
        try:
            out = env.step(world.decode(env.action_space, a))
        finally:
            world.unarm(env)
        s.step()
        ctx.event(world.step_sig(env, out))
        ctx.state(world.abstract_state(env))


SHRINK = ["acts", "events", "episodes"]
FAMILIES = {"reset": (2, gen_reset, run_reset), "flow": (3, gen_flow, run_flow)}
