"""C12 Controlled vehicles converge to their lane and speed once disturbances stop."""
import math

from .. import envref, ref, world
from ..core import Violation

ID = "C12"
QUICK_RUNS, THOROUGH_RUNS = 2800, 30000
RULE = "one case = one run in which controlled vehicles are disturbed for a while, then left alone: from a bounded time on they must stay on the centre of their target lane and at their target speed; their set-points are compared before and after every idle tick."
REAL = ["controlled, discrete and traffic vehicles", "Road", "lanes", "the highway environment"]
STUB = []
ASSUMPTIONS = ["Straight lanes: within 5 cm and 0.05 m/s. Curved lanes: within the tracking error expected of the documented controller, v^2*curvature*(0.08+0.8*dt)+0.1 m.",
               "Target speeds of at least 5 m/s (a standing vehicle cannot steer), timesteps up to 0.2 s (0.1 s for the linear model, whose gains grow as the speed decreases), curvatures with a bound below 2 m.",
               "Bounded time: 10 s for the controlled vehicles, 30 s for the traffic models, whose accelerations are limited."]


def curvature(road):
    l = road["edges"][0]["lanes"][0]
    if l["t"] == "sine":
        return l["amp"] * l["puls"] ** 2
    if l["t"] == "circular":
        return 1 / min(x["radius"] for x in road["edges"][0]["lanes"])
    return 0.0


class Idle:
    """Set-points do not move on their own."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.was = {}

    def before(self, w):
        self.was = {id(v): (v, tuple(v.target_lane_index), v.target_speed, w.net[v.target_lane_index].after_end(v.position))
                    for v in w.road.vehicles if hasattr(v, "target_lane_index")}

    def check(self, w):
        for v, lane, speed, end in self.was.values():
            if v.target_speed != speed:
                raise Violation("set-point", "the target speed of a %s goes from %r to %r without a decision" % (type(v).__name__, speed, v.target_speed))
            if end is False and tuple(v.target_lane_index) != lane and not getattr(v, "enable_lane_change", False):
                raise Violation("set-point", "the target lane of a %s goes from %r to %r without a decision" % (type(v).__name__, lane, v.target_lane_index))
            self.ctx.probe("idle ticks")


def run(plan, ctx):
    w = world.World(plan["world"], ctx)
    idle = Idle(ctx)
    kappa = curvature(plan["world"]["road"])
    w.run(plan["ticks"], plan["dt"], before_act=idle.before, before_step=idle.check)
    w.events, w.muted = {}, {}
    # faults stop; last set-points
    for v, s in zip(w.road.vehicles, plan["final"]):
        v.target_speed = s["speed"]
        f, t, _ = v.target_lane_index
        v.target_lane_index = (f, t, s["lane"] % w.net.roads[(f, t)])
    dt = plan["dt"]
    slow = any(ref.model_of(v) for v in w.road.vehicles)
    settle = 30.0 if slow else 10.0
    w.run(int(settle / dt), dt, before_act=idle.before, before_step=idle.check)

    def after(w):
        for v in w.road.vehicles:
            lat = w.net[v.target_lane_index].local(v.position)[1]
            bound = 0.05 if not kappa else v.target_speed ** 2 * kappa * (0.08 + 0.8 * dt) + 0.1
            ctx.probe("positions after the bounded time")
            if not abs(lat) <= bound:
                raise Violation("lane", "%s, %.1f s after the last disturbance, is %.3f m off the centre of its target lane %s at %.2f m/s (bound %.3f)" % (
                    type(v).__name__, w.time - plan["ticks"] * dt, lat, v.target_lane_index, v.speed, bound))
            if not abs(v.speed - v.target_speed) <= 0.05:
                raise Violation("speed", "%s, %.1f s after the last disturbance, drives at %.3f m/s instead of %.3f" % (
                    type(v).__name__, w.time - plan["ticks"] * dt, v.speed, v.target_speed))
    w.run(int(4 / dt), dt, before_act=idle.before, before_step=idle.check, after=after)
    ctx.state(w.abstract())


def gen(rng, tier):
    kind = rng.choice(["straight", "straight", "sine", "ring"])
    road = world.gen_road(rng, [kind])
    if kind == "straight":
        road = dict(kind="straight", edges=[dict(f="a", t="b", lanes=world.parallel(
            rng.choice([1, 2, 4]), 4000, rng.choice([0, 0.7, 2.5, -1.2]), limit=30))])
    if kind == "sine":
        for l in road["edges"][0]["lanes"]:
            l["end"][0] = 5000
    dt = rng.choice([1 / 15, 0.05, 0.1, 0.2])
    top = 30.0
    if kind != "straight":
        top = min(18.0, math.sqrt(1.9 / curvature(road) / (0.08 + 0.8 * dt)))
    classes = rng.choice([["ControlledVehicle"], ["MDPVehicle", "ControlledVehicle"], ["IDMVehicle"], ["LinearVehicle"]])
    if kind != "straight" and classes[0] == "MDPVehicle":
        classes = ["ControlledVehicle"]
    if classes == ["LinearVehicle"]:
        dt = min(dt, 0.1)  # its gains grow with 1/v^2: it may not settle at low speed with long ticks
    n = rng.choice([1, 2, 4]) if classes[-1] == "ControlledVehicle" else 1
    vs = world.gen_vehicles(rng, road, n, classes, speed=(0, top), spread=100, offsets=True)
    for v in vs:
        v["nocoll"], v["elc"] = True, False
        v["tspeed"] = round(rng.uniform(5, top), 3)
    kinds = rng.sample(["push", "mute", "dt", "tspeed", "retarget", "stall", "act", "twice", "command"], rng.randint(1, 6))
    ev = world.gen_events(rng, 40, kinds, rng.randrange(0, 10), n, road)
    for e in ev:
        if e["what"] == "tspeed":
            e["v"] = round(rng.uniform(0, top), 3)
        if e["what"] == "push":
            e["dv"] = max(-3, min(3, e["dv"]))
        if e["what"] == "act" and kind != "straight" and e["a"] in ("FASTER", "SLOWER"):
            e["a"] = "LANE_LEFT"
    final = []
    for v in vs:
        s = rng.choice([20.0, 25.0, 30.0]) if v["cls"] == "MDPVehicle" else round(rng.uniform(5, top), 3)
        final.append(dict(speed=s, lane=rng.randrange(4)))
    return dict(world=dict(road=road, vehicles=vs, objects=[], seed=1, events=ev), ticks=40, dt=dt, final=final)


# -------------------------------------------------------------------------------------------- environment
def run_env(plan, ctx):
    env, _ = world.build_env(plan["spec"])
    b = world.base(env)
    net = ref.Net(b.road.network)
    idle = [i for i, l in enumerate(envref.labels(b.config["action"])) if l == "IDLE"][0]
    v = b.vehicle
    if plan["speed"] is not None:
        v.speed = plan["speed"]
        ctx.fault("speed")
    for a in plan["acts"]:
        out = env.step(world.decode(env.action_space, a))
        ctx.event(world.step_sig(env, out))
        if v.crashed:
            return
    lane, speed = tuple(v.target_lane_index), v.target_speed
    pol = b.config["policy_frequency"]
    for k in range(12 * pol):
        out = env.step(idle)
        ctx.tick(1 / pol)
        ctx.event(world.step_sig(env, out))
        if v.crashed:
            return
        ctx.probe("idle decisions")
        if tuple(v.target_lane_index) != lane or v.target_speed != speed:
            raise Violation("set-point", "idling moves the set-points from %s, %s to %s, %s" % (lane, speed, v.target_lane_index, v.target_speed))
        if k >= 10 * pol:
            lat = net[lane].local(v.position)[1]
            ctx.probe("positions after the bounded time")
            if not abs(lat) <= 0.05 or not abs(v.speed - speed) <= 0.05:
                raise Violation("env", "%d decisions after the last command the ego vehicle is %.3f m off its target lane at %.3f m/s instead of %.3f" % (
                    k + 1, lat, v.speed, speed))
    ctx.state(world.abstract_state(env))


def gen_env(rng, tier):
    cfg = dict(vehicles_count=rng.choice([0, 1]), lanes_count=rng.choice([1, 2, 4]), duration=1000,
               simulation_frequency=rng.choice([5, 10, 15, 20]), policy_frequency=rng.choice([1, 2, 5]))
    if rng.random() < 0.3:
        cfg["action"] = rng.choice([{"type": "DiscreteMetaAction", "longitudinal": True, "lateral": False},
                                    {"type": "DiscreteMetaAction", "longitudinal": False, "lateral": True}])
    return dict(spec=dict(env="highway", cfg=cfg, seed=rng.getrandbits(30)), acts=world.gen_acts(rng, rng.choice([2, 5, 12]), 0.3),
                speed=rng.choice([None, None, round(rng.uniform(0, 40), 2)]))


FAMILIES = {"roads": (6, gen, run), "env": (1, gen_env, run_env)}
