"""C06 Every tick moves every vehicle by the documented vehicle model."""
import math

from .. import ref, world
from ..core import Violation
from . import common

ID = "C06"
QUICK_RUNS, THOROUGH_RUNS = 1920, 20000
RULE = "one case = one simulated run: every vehicle is compared with the reference vehicle model at every tick."
REAL = ["Vehicle, BicycleVehicle and the driver models", "Road.step", "environments"]
STUB = []


class Motion:
    def __init__(self, ctx, w):
        self.ctx = ctx

    def before_step(self, road, dt):
        self.pre = [(v, ref.state(v)) for v in road.vehicles]

    def after(self, road, dt):
        ctx = self.ctx
        for v, st in self.pre:
            want = ref.advance(st, dt)
            name = "%s at %.3f m/s (crashed=%s, steering %.4f, acceleration %.4f)" % (
                type(v).__name__, st["speed"], st["crashed"], st["steer"], st["acc"])
            x, y = ref.xy(v.position)
            tol = 1e-7 * (1 + abs(st["x"]) * 1e-3 + abs(st["speed"]))
            if not (abs(x - want["x"]) < tol and abs(y - want["y"]) < tol):
                raise Violation("position", "%s moved to (%r, %r) instead of (%r, %r)" % (name, x, y, want["x"], want["y"]))
            if not abs(v.heading - want["h"]) < 1e-7 * (1 + abs(st["h"])):
                raise Violation("heading", "%s turned to %r instead of %r" % (name, v.heading, want["h"]))
            if "yaw" in want:
                ctx.probe("dynamical ticks")
                if not (abs(v.lateral_speed - want["lat"]) < 1e-6 * (1 + abs(want["lat"]))
                        and abs(v.yaw_rate - want["yaw"]) < 1e-6 * (1 + abs(want["yaw"]))):
                    raise Violation("slip", "%s: lateral speed %r and yaw rate %r instead of %r and %r"
                                    % (name, v.lateral_speed, v.yaw_rate, want["lat"], want["yaw"]))
            if self.free(road, v):
                if not abs(v.speed - want["speed"]) < 1e-7 * (1 + abs(st["speed"])):
                    raise Violation("speed", "%s reached %r m/s instead of %r" % (name, v.speed, want["speed"]))
                if st["crashed"]:
                    ctx.probe("ticks of crashed vehicles")
                    if abs(v.speed) > abs(st["speed"]) + 1e-12:
                        raise Violation("crashed", "%s gains speed: %r" % (name, v.speed))
            ctx.probe("vehicle ticks")
            if abs(st["speed"]) > st["max"]:
                ctx.probe("ticks above the maximum speed")

    def free(self, road, v):
        """Not touching anything: the speed then follows from the model alone."""
        for o in list(road.vehicles) + list(road.objects):
            if o is not v and math.hypot(o.position[0] - v.position[0], o.position[1] - v.position[1]) < 5.6 \
                    and ref.overlap(ref.footprint(v), ref.footprint(o)) > -1e-6:
                return False
        return True


def gen_free(rng, tier):
    """Lone vehicles with arbitrary states and commands."""
    road = dict(kind="straight", edges=[dict(f="a", t="b", lanes=world.parallel(2, 400))])
    n = rng.choice([1, 2, 4])
    vs = world.gen_vehicles(rng, road, n, ["Vehicle", "BicycleVehicle", "ControlledVehicle"], speed=(-45, 45), spread=400,
                            gap=30)
    for v in vs:
        v["dh"] = round(rng.uniform(-4, 4), 3)
        v["cmd"] = dict(steering=round(rng.uniform(-1.2, 1.2), 3), acceleration=round(rng.uniform(-12, 12), 3)) \
            if v["cls"] != "ControlledVehicle" else None
        if v["cls"] == "BicycleVehicle" and rng.random() < 0.3:
            v["yaw"] = round(rng.uniform(-15, 15), 2)
            v["slip"] = round(rng.uniform(-5, 5), 2)
    ticks = 40
    return dict(world=dict(road=road, vehicles=vs, objects=[], seed=rng.getrandbits(20),
                           events=world.gen_events(rng, ticks, ["command", "push", "crash", "dt", "stall", "mute"],
                                                   rng.randrange(0, 10), n, road, ["Vehicle"])),
                ticks=ticks, dt=rng.choice([1 / 15, 0.02, 0.1, 0.25]))


FAMILIES = {"free": (2, gen_free, common.run_world(Motion)), "mixed": (3, common.gen_mixed, common.run_world(Motion)),
            "env": (2, common.gen_env(common.ALL_ENVS), common.run_env(Motion))}
