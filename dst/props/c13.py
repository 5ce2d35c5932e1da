"""C13 Planned routes are shortest and vehicles follow them to the end."""
import math

import numpy as np

from .. import envref, ref, world
from ..core import Violation
from . import common, stage

ID = "C13"
QUICK_RUNS, THOROUGH_RUNS = 2350, 40000
RULE = "one case = one run on a random or documented road network: every planned route is compared with an independent shortest-path search, every move to the next road with the documented rule, and vehicles must reach their destination in bounded time despite faults."
REAL = ["RoadNetwork", "controlled and traffic vehicles", "Road", "environments"]
STUB = []
ASSUMPTIONS = ["Arrival is claimed for single vehicles at 4 to 9 m/s from a lane they are settled on, with pushes of up to 1 m and lost control updates, within 1.6 times the travel time plus 20 s.",
               "Choices between lanes at the same distance, within 1e-6 m, are not judged."]


def norm(i):
    return i[0], i[1], None if i[2] is None else int(i[2])


def check_route(net, v, dest, ctx):
    """The planned route starts here and is a shortest one."""
    here = norm(v.lane_index)
    route = [norm(r) for r in v.route]
    ctx.probe("planned routes")
    if route[0] != here:
        raise Violation("route-start", "the route to %s planned on lane %s starts with %s" % (dest, here, route[0]))
    n = ref.shortest(net, here[1], dest) if here[1] != dest else 0
    if n == 0:
        ctx.probe("unreachable destinations" if here[1] != dest else "destinations at the end of the lane")
        if len(route) != 1:
            raise Violation("route-unreachable", "the destination %s cannot be reached from %s, the route is %s" % (dest, here, route))
        return
    for a, b in zip(route, route[1:]):
        if a[1] != b[0] or (b[0], b[1]) not in net.roads:
            raise Violation("route-broken", "the route %s is not connected" % route)
    if route[-1][1] != dest:
        raise Violation("route-end", "the route %s does not lead to %s" % (route, dest))
    if len(route) != n + 1:
        raise Violation("route-length", "the route %s has %d roads after the current one instead of %d" % (route, len(route) - 1, n))
    ctx.probe("reachable destinations")


class Following:
    """Every move to a next road."""

    def __init__(self, ctx, net):
        self.ctx, self.net = ctx, net
        self.was = {}

    def before(self, road):
        self.was = {}
        for v in road.vehicles:
            if hasattr(v, "target_lane_index") and "act" not in vars(v):
                r = getattr(v, "route", None)
                self.was[id(v)] = (v, norm(v.target_lane_index), [norm(x) for x in r] if r else None, tuple(v.position), bool(v.crashed))

    def check(self, road):
        for v, lane, route, pos, crashed in self.was.values():
            if not any(v is o for o in road.vehicles) or (crashed and ref.model_of(v)):
                continue
            l = self.net[lane]
            if l.kind == "circular" and l.seam(pos) < 1e-6:
                continue
            end = l.after_end(pos)
            got = norm(v.target_lane_index)
            if end is None:
                continue
            if not end:
                if got[:2] != lane[:2]:
                    raise Violation("early", "a vehicle at %s leaves its lane %s for %s before the end" % (pos, lane, got))
                continue
            want, rest = ref.next_lanes(self.net, lane, route, pos)
            self.ctx.probe("moves to the next road" if got != lane else "dead ends")
            if getattr(v, "enable_lane_change", False):  # may already have changed lane again
                ok = any(w[:2] == got[:2] for w in want)
            else:
                ok = got in want
            if not ok:
                raise Violation("next", "at the end of lane %s (%d lanes) with the route %s a vehicle at %s moves on to %s instead of %s" % (
                    lane, self.net.n(lane), route, pos, got, want))
            if route:
                self.ctx.probe("moves along a route")
                now = [norm(x) for x in v.route] if v.route else []
                if now != [norm(x) for x in rest]:
                    raise Violation("route-use", "after the lane %s the route %s becomes %s instead of %s" % (lane, route, now, rest))


def forced_routes(net, v, ctx):
    """Routes offered at the next intersection."""
    if not v.route:
        if v.get_routes_at_intersection():
            raise Violation("forks", "a vehicle without a route is offered some")
        return
    route = [norm(r) for r in v.route]
    at = next((k for k in range(min(3, len(route))) if len(net.successors(route[k][1])) >= 2), None)
    offers = [[norm(r) for r in o] for o in v.get_routes_at_intersection()]
    if [norm(r) for r in v.route] != route:
        raise Violation("forks", "asking for the routes at the next intersection changes the route")
    ctx.probe("routes at an intersection" if at is not None else "routes without an intersection")
    if at is None:
        if offers != [route]:
            raise Violation("forks", "no intersection ahead on %s, the routes offered are %s" % (route, offers))
        return
    want = sorted(net.successors(route[at][1]))
    if sorted(o[-1][1] for o in offers) != want:
        raise Violation("forks", "the roads after %s lead to %s, the routes offered are %s" % (route[at], want, offers))
    for o in offers:
        if o[:-1] != route[:at + 1] or o[-1][0] != route[at][1]:
            raise Violation("forks", "the route %s offered at the intersection does not continue %s" % (o, route[:at + 1]))
        if o[-1][2] is not None and not 0 <= o[-1][2] < net.n(o[-1]):
            raise Violation("forks", "the route %s offered at the intersection uses a lane that does not exist" % o)


# ---------------------------------------------------------------------------------------------- networks
def grid(rng):
    """Random network on a grid of nodes."""
    w, h = rng.choice([(2, 2), (3, 2), (3, 3)])
    d = rng.choice([70, 100])
    nodes = {(i, j): "n%d%d" % (i, j) for i in range(w) for j in range(h)}
    edges = []
    for (i, j), a in nodes.items():
        for di, dj in ((1, 0), (0, 1)):
            if (i + di, j + dj) in nodes and rng.random() < 0.85:
                p, q = (i, j), (i + di, j + dj)
                if rng.random() < 0.5:
                    p, q = q, p
                ang = math.atan2(q[1] - p[1], q[0] - p[0])
                edges.append(dict(f=nodes[p], t=nodes[q], lanes=world.parallel(rng.choice([1, 1, 2, 3]), d, ang, (p[0] * d, p[1] * d), 10)))
    rng.shuffle(edges)
    return dict(kind="grid", edges=edges or [dict(f="n00", t="n10", lanes=world.parallel(1, d))])


ENV_NETS = ["roundabout", "intersection", "two-way", "merge"]


def make_road(plan, ctx):
    if "env" in plan:
        env, _ = world.build_env(dict(env=plan["env"], cfg={}, seed=1))
        from highway_env.road.road import Road
        road = Road(network=world.base(env).road.network, np_random=np.random.RandomState(plan["rs"]))
        return road
    return world.make_road(dict(road=plan["road"], seed=plan["rs"]))


def run_plan(plan, ctx):
    """Planning from every lane to every node, and the routes forced at intersections."""
    road = make_road(plan, ctx)
    net = ref.Net(road.network)
    lanes = stage.lanes_of(road.network)
    nodes = sorted(set(k[0] for k in lanes) | set(k[1] for k in lanes)) + ["nowhere"]
    cls = world.vclass(plan["cls"])
    for a in plan["acts"]:
        index = lanes[a["lane"] % len(lanes)]
        v = cls.make_on_lane(road, index, a["f"] * net[index].length, 5.0)
        dest = nodes[a["dest"] % len(nodes)]
        r = v.plan_route_to(dest)
        if r is not v:
            raise Violation("chain", "plan_route_to does not return the vehicle")
        check_route(net, v, dest, ctx)
        forced_routes(net, v, ctx)
        for k in (a["k"], "random"):
            routes = [[norm(x) for x in o] for o in v.get_routes_at_intersection()]
            v.set_route_at_intersection(k)
            now = [norm(x) for x in v.route]
            if now not in routes or (k != "random" and now != routes[k % len(routes)]):
                raise Violation("forced", "the route forced at the intersection (%s) is %s, those offered were %s" % (k, now, routes))
            ctx.probe("forced routes")
        ctx.event(v.route)
    ctx.state((plan["cls"], len(lanes), len(nodes)))


def gen_plan(rng, tier):
    p = dict(rs=rng.getrandbits(20), cls=rng.choice(["ControlledVehicle", "IDMVehicle", "MDPVehicle"]),
             acts=[dict(lane=rng.randrange(64), f=round(rng.random(), 3), dest=rng.randrange(64), k=rng.randrange(5)) for _ in range(24)])
    if rng.random() < 0.4:
        p["env"] = rng.choice(ENV_NETS)
    else:
        p["road"] = rng.choice([grid, grid, lambda r: world.gen_road(r, ["chain", "ring", "fork"])])(rng)
    return p


def run_arrive(plan, ctx):
    """A vehicle on its own reaches its destination."""
    road = make_road(plan, ctx)
    net = ref.Net(road.network)
    lanes = stage.lanes_of(road.network)
    index = lanes[plan["lane"] % len(lanes)]
    cls = world.vclass(plan["cls"])
    v = cls.make_on_lane(road, index, plan["f"] * net[index].length, plan["speed"])
    if norm(v.lane_index) != index:
        return
    v.target_speed = plan["speed"]
    v.enable_lane_change = False
    road.vehicles.append(v)
    nodes = [n for n in sorted(set(k[1] for k in lanes)) if n == index[1] or ref.shortest(net, index[1], n)]
    dest = nodes[plan["dest"] % len(nodes)]
    v.plan_route_to(dest)
    check_route(net, v, dest, ctx)
    route = [norm(r) for r in v.route]
    if len(route) < 2:
        return
    length = sum(net[(f, t, i)].length for f, t, i in route)
    dt = plan["dt"]
    bound = 1.6 * length / plan["speed"] + 20
    follow = Following(ctx, net)
    last = route[-1]
    mute = 0
    faults = {e["t"]: e for e in plan["events"]}
    k = 0
    while k * dt < bound:
        e = faults.get(k)
        if e is not None:
            ctx.fault(e["what"])
            if e["what"] == "push":
                v.position = v.position + np.array([e["dx"], e["dy"]])
                v.heading += e["dh"]
                v.on_state_update()
            else:
                mute = e["n"]
        follow.before(road)
        if mute:
            mute -= 1
            ctx.fault("lost-control-update")
        else:
            road.act()
            follow.check(road)
        road.step(dt)
        ctx.tick(dt)
        if k % 30 == 0:
            ctx.state((index, last, norm(v.target_lane_index), int(v.position[0] // 10), int(v.position[1] // 10)))
        t = norm(v.target_lane_index)
        if t[:2] == last[:2]:
            lane = net[t]
            s, r = lane.local(v.position)
            if s > lane.length - 5 and abs(r) < 2:
                ctx.probe("destinations reached")
                ctx.event(k)
                return
        k += 1
    raise Violation("arrival", "a %s starting on %s with the route %s is at %s after %.1f s (target lane %s)" % (
        plan["cls"], index, route, ref.xy(v.position), k * dt, v.target_lane_index))


def gen_arrive(rng, tier):
    p = dict(rs=rng.getrandbits(20), cls=rng.choice(["ControlledVehicle", "ControlledVehicle", "IDMVehicle"]),
             lane=rng.randrange(64), f=round(rng.uniform(0.05, 0.6), 3), dest=rng.randrange(64), speed=round(rng.uniform(4, 9), 2),
             dt=rng.choice([1 / 15, 0.05, 0.1]))
    p["events"] = [dict(t=rng.randrange(300), what=rng.choice(["push", "mute"]), dx=round(rng.uniform(-1, 1), 2), dy=round(rng.uniform(-1, 1), 2),
                        dh=round(rng.uniform(-0.2, 0.2), 2), n=rng.randint(1, 4)) for _ in range(rng.randrange(0, 6))]
    if rng.random() < 0.5:
        p["env"] = rng.choice(["roundabout", "intersection", "merge", "roundabout", "intersection"])
    else:
        p["road"] = rng.choice([grid, grid, lambda r: world.gen_road(r, ["chain", "ring", "fork"])])(rng)
    return p


# ------------------------------------------------------------------------------------ traffic and environments
def run_traffic(plan, ctx):
    w = world.World(plan["world"], ctx)
    f = Following(ctx, w.net)
    for v in w.road.vehicles:
        if getattr(v, "route", None) and v.sid is not None and plan["dests"][v.sid]:
            check_route(w.net, v, plan["dests"][v.sid], ctx)
    w.run(plan["ticks"], plan["dt"], before_act=lambda w: f.before(w.road), before_step=lambda w: f.check_muted(w))
    ctx.state(w.abstract())


def check_muted(self, w):
    for i in [i for i, (v, until) in w.muted.items() if w.t < until]:
        self.was.pop(i, None)
    self.check(w.road)


Following.check_muted = check_muted


def gen_traffic(rng, tier):
    road = rng.choice([grid, lambda r: world.gen_road(r, ["chain", "ring", "fork"])])(rng)
    n = rng.choice([2, 5, 8])
    classes = rng.choice([["IDMVehicle"], ["ControlledVehicle", "MDPVehicle"], ["LinearVehicle", "ControlledVehicle"]])
    vs = world.gen_vehicles(rng, road, n, classes, speed=(0, 20), offsets=rng.random() < 0.3)
    nodes = sorted(set(e["t"] for e in road["edges"]) | set(e["f"] for e in road["edges"]))
    dests = []
    for v in vs:
        v["nocoll"] = rng.random() < 0.7
        v["elc"] = rng.random() < 0.3
        d = rng.choice(nodes + [None, None])
        if d:
            v["dest"] = d
        dests.append(d)
    ticks = 150
    return dict(world=dict(road=road, vehicles=vs, objects=[], seed=rng.getrandbits(20),
                           events=world.gen_events(rng, ticks, ["push", "mute", "dt", "crash", "remove", "tspeed", "stall"], rng.randrange(8), n, road)),
                ticks=ticks, dt=rng.choice([1 / 15, 0.1, 0.2]), dests=dests)


def run_env(plan, ctx):
    env, _ = world.build_env(plan["spec"])
    b = world.base(env)
    f = Following(ctx, ref.Net(b.road.network))
    for v in b.road.vehicles:
        r = getattr(v, "route", None)
        if r and len(r) > 1 and norm(r[0]) == norm(v.lane_index):
            check_route(f.net, v, r[-1][1], ctx)
    # the action of an agent makes it follow the road once more, on the same scene: same road, or the next
    world.attach(env, ctx, before_act=f.before, before_step=lambda road, dt: f.check(road))
    events = {e["t"]: e for e in plan.get("events", [])}
    for k, a in enumerate(plan["acts"]):
        if k in events:
            common.disturb(b, events[k], ctx)
        out = env.step(world.decode(env.action_space, a))
        ctx.event(world.step_sig(env, out))
        ctx.state(world.abstract_state(env))


FAMILIES = {"plan": (2, gen_plan, run_plan), "arrive": (3, gen_arrive, run_arrive), "traffic": (3, gen_traffic, run_traffic),
            "env": (2, common.gen_env(["roundabout", "intersection", "multi-intersection", "merge", "two-way", "highway"], steps=(8, 14)), run_env)}
