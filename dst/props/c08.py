"""C08 Commands and speeds stay within physical bounds."""
import math

from .. import envref, ref, world
from ..core import Violation
from . import common

ID = "C08"
QUICK_RUNS, THOROUGH_RUNS = 1680, 20000
RULE = "one case = one simulated run: the commands and speeds of every vehicle are checked at every tick."
REAL = ["driver models and controllers", "Vehicle, BicycleVehicle", "action types", "environments"]
STUB = []
EPS = 1e-9
STEER, ACC, SPIN = math.pi / 3, 6.0, 2 * math.pi


class Bounds:
    def __init__(self, ctx, w):
        self.ctx = ctx
        self.w = w if isinstance(w, world.World) else None
        self.env = None if self.w else w

    def before_step(self, road, dt):
        ctx = self.ctx
        self.pre, self.headings = [], []
        muted = self.w.muted if self.w else {}
        for v in road.vehicles:
            st, ac = float(v.action["steering"]), float(v.action["acceleration"])
            traffic = type(v).__name__ in world.TRAFFIC
            auto = traffic or type(v).__name__ in ("ControlledVehicle", "MDPVehicle")
            if auto and not v.crashed and id(v) not in muted:
                ctx.probe("commands of autonomous vehicles")
                if not (math.isfinite(st) and math.isfinite(ac)):
                    raise Violation("not-finite", "%s commands steering %r and acceleration %r" % (type(v).__name__, st, ac))
                if abs(st) > STEER + EPS:
                    raise Violation("steering", "%s commands a steering angle of %r rad" % (type(v).__name__, st))
                if traffic and abs(ac) > ACC + EPS:
                    raise Violation("acceleration", "%s commands %r m/s2" % (type(v).__name__, ac))
                if abs(st) > STEER - 1e-6 or (traffic and abs(ac) > ACC - 1e-6):
                    ctx.probe("commands at the limit")
            self.pre.append((v, float(v.speed), st, ac))
            self.headings.append(float(v.heading))

    def after(self, road, dt):
        ctx = self.ctx
        for (v, speed, _, ac), heading in zip(self.pre, self.headings):
            top = float(v.MAX_SPEED)
            if hasattr(v, "yaw_rate"):
                ctx.probe("ticks of dynamical vehicles")
                if abs(v.heading - heading) > SPIN * dt + 1e-6:
                    raise Violation("spin", "%s turns by %r rad in a tick of %r s" % (type(v).__name__, v.heading - heading, dt))
                if abs(v.heading - heading) > SPIN * dt - 1e-6:
                    ctx.probe("ticks at the maximum angular speed")
            if v.crashed and abs(speed) <= top:
                continue  # brakes; see C06 and C07
            if speed > top:
                ctx.probe("ticks above the maximum speed")
                if v.speed > speed + EPS:
                    raise Violation("gains-speed", "%s at %r m/s, beyond the maximum of %r, reaches %r" % (type(v).__name__, speed, top, v.speed))
            elif speed < -top:
                ctx.probe("ticks beyond the maximum speed in reverse")
                if v.speed < speed - EPS:
                    raise Violation("gains-speed", "%s at %r m/s, beyond the maximum of %r in reverse, reaches %r" % (type(v).__name__, speed, top, v.speed))
            elif abs(v.speed) > top + abs(ac) * dt + EPS:
                raise Violation("too-fast", "%s at %r m/s accelerating by %r m/s2 reaches %r" % (type(v).__name__, speed, ac, v.speed))

    # decisions of environments
    def before_env_step(self, env, action):
        pass

    def after_env_step(self, env, action, out):
        b = world.base(env)
        ctx = self.ctx
        for c in b.controlled_vehicles:
            if type(c).__name__ == "MDPVehicle":
                ctx.probe("target speeds of discrete agents")
                if min(abs(c.target_speed - s) for s in envref.speeds(env)) > 1e-9:
                    raise Violation("target-speed", "the agent targets %r m/s, not one of %s" % (c.target_speed, envref.speeds(env)))
            elif world.continuous(b.config) and not c.crashed and abs(c.speed) < c.MAX_SPEED - 3:
                a = b.config["action"]
                lo, hi = a.get("acceleration_range") or (-5, 5)
                sl, sh = a.get("steering_range") or (-math.pi / 4, math.pi / 4)
                acc, st = float(c.action["acceleration"]), float(c.action["steering"])
                ctx.probe("continuous commands")
                if not (a.get("longitudinal", True)):
                    lo = hi = 0
                if not (a.get("lateral", True)):
                    sl = sh = 0
                if not lo - 1e-6 <= acc <= hi + 1e-6 or not sl - 1e-6 <= st <= sh + 1e-6:
                    raise Violation("range", "action %s commands acceleration %r and steering %r outside [%s, %s] and [%s, %s]"
                                    % (list(action), acc, st, lo, hi, sl, sh))


def wild(plan_gen):
    """Actions outside the declared space as well."""
    def gen(rng, tier):
        p = plan_gen(rng, tier)
        p["scale"] = rng.choice([1, 1, 3, 1000])
        return p
    return gen


def run_env(plan, ctx):
    scale = plan.get("scale", 1)
    spec = plan["spec"]
    env, _ = world.build_env(spec)
    c = Bounds(ctx, env)
    world.attach(env, ctx, before_step=c.before_step, after=c.after)
    events = {e["t"]: e for e in plan["events"]}
    for k, a in enumerate(plan["acts"]):
        if k in events:
            common.disturb(world.base(env), events[k], ctx)
        action = world.decode(env.action_space, a)
        if hasattr(action, "dtype") and scale != 1:
            action = action * scale
            ctx.fault("action-out-of-range")
        out = env.step(action)
        c.after_env_step(env, action, out)
        ctx.event(world.step_sig(env, out))
        ctx.state(world.abstract_state(env))


def gen_fast(rng, tier):
    p = common.gen_mixed(rng, tier, kinds=["push", "command", "tspeed", "dt", "twice", "act", "mute", "stall", "object", "retarget"],
                         speed=(-45, 50))
    for v in p["world"]["vehicles"]:
        if v["cls"] == "BicycleVehicle" and rng.random() < 0.5:
            v["yaw"] = round(rng.uniform(-15, 15), 2)
            v["slip"] = round(rng.uniform(-5, 5), 2)
    for e in p["world"]["events"]:
        if e["what"] == "tspeed":
            e["v"] = rng.choice([0, 1, 20, 60, 100])
        if e["what"] == "push":
            e["dv"] *= rng.choice([1, 4])
            e["dh"] *= rng.choice([1, 10])
    return p


FAMILIES = {"fast": (3, gen_fast, common.run_world(Bounds)), "mixed": (1, common.gen_mixed, common.run_world(Bounds)),
            "env": (3, wild(common.gen_env(common.ALL_ENVS)), run_env)}
