"""C31 The linear models of dynamical vehicles are first-order models of their dynamics."""
import copy
import math

from .. import world
from ..core import Violation
from . import common, stage

ID = "C31"
QUICK_RUNS, THOROUGH_RUNS = 1500, 40000
RULE = ("one case = one simulated run: the linear models of every dynamical vehicle are compared with finite differences of its own "
        "dynamics at every tick, or the recorded tube with the recorded states at every decision.")
REAL = ["BicycleVehicle", "LPV", "LaneKeepingEnv", "Road.step"]
STUB = []
ASSUMPTIONS = ["tubes: time steps within the predictor's own scheme (1 + dt a_ii >= 0), small slip and heading angles", "forward speed of at least 1 m/s (the linear model is that of a rolling vehicle)", "one tick per decision in the lane-keeping task",
               "central finite differences of step 1e-5"]


def friction(v, front, rear):
    """The same vehicle with other friction coefficients."""
    v.__class__ = type(type(v).__name__, (type(v),), dict(FRICTION_FRONT=front, FRICTION_REAR=rear))
    return v


def rate(v, x, delta):
    """Derivative of (y, heading, lateral speed, yaw rate) in state x, for a steering angle, at zero acceleration."""
    import numpy as np
    o = copy.copy(v)
    o.position = np.array([0.0, float(x[0])])
    o.heading, o.lateral_speed, o.yaw_rate = float(x[1]), float(x[2]), float(x[3])
    o.action = dict(steering=float(delta), acceleration=0.0)
    return np.array([float(np.ravel(q)[0]) for q in o.derivative])[[1, 2, 4, 5]]


def jacobian(v, h=1e-5):
    import numpy as np
    a = np.zeros((4, 4))
    for j in range(4):
        e = np.zeros(4)
        e[j] = h
        a[:, j] = (rate(v, e, 0.0) - rate(v, -e, 0.0)) / (2 * h)
    b = (rate(v, np.zeros(4), h) - rate(v, np.zeros(4), -h)) / (2 * h)
    return a, b


def close(a, b):
    import numpy as np
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-4 * (1 + np.abs(b).max())))


def show(m):
    import numpy as np
    return np.round(np.asarray(m, float), 4).tolist()


def private(v):
    """What a query must not change."""
    return world.canon([v.position, v.heading, v.speed, v.lateral_speed, v.yaw_rate, v.action, v.crashed])


def judge(v, others, ctx):
    import numpy as np
    if not hasattr(v, "lateral_speed") or not v.speed >= 1 + 1e-6:
        return
    ctx.probe("linear models")
    name = "%s at %.3f m/s with frictions %s, %s" % (type(v).__name__, v.speed, v.FRICTION_FRONT, v.FRICTION_REAR)
    before = private(v)
    a, b = jacobian(v)
    fa, fb = v.full_lateral_lpv_dynamics()
    if not close(fa, a):
        raise Violation("full-model", "%s: dynamics of (y, heading, lateral speed, yaw rate) %s instead of %s" % (name, show(fa), show(a)))
    if not close(np.ravel(fb), b):
        raise Violation("full-control", "%s: effect of the steering %s instead of %s" % (name, show(np.ravel(fb)), show(b)))
    la, lb = v.lateral_lpv_dynamics()
    if not close(la, a[2:, 2:]) or not close(np.ravel(lb), b[2:]):
        raise Violation("lateral-model", "%s: lateral dynamics %s, %s instead of %s, %s" % (name, show(la), show(np.ravel(lb)), show(a[2:, 2:]), show(b[2:])))
    for theta in others:
        o = friction(copy.copy(v), *theta)
        oa, _ = jacobian(o)
        for full, (a0, phi, b0) in ((True, v.full_lateral_lpv_structure()), (False, v.lateral_lpv_structure())):
            got = np.asarray(a0) + sum(t * np.asarray(p) for t, p in zip(theta, phi))
            want = oa if full else oa[2:, 2:]
            if not close(got, want):
                raise Violation("structure", "%s: for frictions %s the %s model gives %s instead of %s" % (
                    name, theta, "full" if full else "lateral", show(got), show(want)))
            if not close(np.ravel(b0), b if full else b[2:]):
                raise Violation("structure-control", "%s: effect of the steering %s instead of %s" % (name, show(np.ravel(b0)), show(b if full else b[2:])))
        ctx.probe("models at other frictions")
    # the linear derivative in the vehicle's actual state
    got = [float(np.ravel(q)[0]) for q in v.derivative_linear]
    d, r, u = float(np.ravel(v.lateral_speed)[0]), float(np.ravel(v.yaw_rate)[0]), float(np.ravel(v.action["steering"])[0])
    c, s = math.cos(v.heading), math.sin(v.heading)
    lin = a[2:, 2:] @ np.array([d, r]) + b[2:] * u
    want = [c * v.speed - s * d, s * v.speed + c * d, r, float(np.ravel(v.action["acceleration"])[0]), lin[0], lin[1]]
    if not all(abs(x - y) <= 1e-4 * (1 + abs(y) + 30 * (abs(d) + abs(r) + abs(u))) for x, y in zip(got, want)):
        raise Violation("derivative", "%s, lateral speed %.4f, yaw rate %.4f, steering %.4f: linear derivative %s instead of %s" % (name, d, r, u, show(got), show(want)))
    if private(v) != before:
        raise Violation("changed", "%s: evaluating its linear model changed the vehicle" % name)


class Models:
    thetas = []

    def __init__(self, ctx, w):
        self.ctx, self.n = ctx, 0

    def before_step(self, road, dt):
        pass

    def after(self, road, dt):
        self.n += 1
        if self.n % 3 == 0:
            for v in list(road.vehicles):
                judge(v, self.thetas, self.ctx)


def gen_world(rng, tier):
    plan = common.gen_mixed(rng, tier, ticks=30, mixes=[["BicycleVehicle"], ["Vehicle", "BicycleVehicle"]], speed=(0, 15), n=rng.choice([1, 2, 4]))
    for v in plan["world"]["vehicles"]:
        if v["cls"] == "BicycleVehicle":
            v["cmd"] = dict(steering=round(rng.uniform(-0.4, 0.4), 3), acceleration=round(rng.uniform(-2, 4), 3))
    plan["frictions"] = [[round(rng.uniform(2, 30), 2), round(rng.uniform(2, 30), 2)] for _ in plan["world"]["vehicles"]]
    plan["thetas"] = [[round(rng.uniform(0, 40), 2), round(rng.uniform(0, 40), 2)] for _ in range(2)]
    return plan


def run_world(plan, ctx):
    def make(ctx, w):
        if True:
            for v, f in zip(list(w.road.vehicles), plan["frictions"]):
                if hasattr(v, "lateral_speed"):
                    friction(v, *f)
        m = Models(ctx, w)
        m.thetas = plan["thetas"]
        return m
    common.run_world(make)(plan, ctx)


def gen_env(rng, tier):
    name = rng.choice(["lane-keeping", "highway", "parking", "lane-keeping"])
    spec = world.gen_env(rng, [name], obs=False, freqs=rng.random() < 0.5)
    if name != "lane-keeping":
        spec["cfg"]["action"] = dict(type="ContinuousAction", dynamical=True, steering_range=[-0.6, 0.6])
        spec["cfg"].pop("controlled_vehicles", None)
    n = rng.choice([4, 12])
    return dict(spec=spec, acts=world.gen_acts(rng, n, 0.4), thetas=[[round(rng.uniform(0, 40), 2), round(rng.uniform(0, 40), 2)]],
                events=[dict(t=rng.randrange(n), what=rng.choice(["speed", "push"]), i=0, v=round(rng.uniform(1, 14), 2), d=round(rng.uniform(-3, 3), 2))])


def run_env(plan, ctx):
    def make(ctx, env):
        m = Models(ctx, env)
        m.thetas = plan["thetas"]
        return m
    common.run_env(make)(plan, ctx)


# ------------------------------------------------------------------------------------------------ the recorded tube
def gen_tube(rng, tier):
    n = rng.choice([6, 15, 30])
    f = rng.choice([10, 15, 20, 30])
    amp = rng.choice([0.05, 0.3, 1.0])
    truth = [round(rng.uniform(6, 25), 2), round(rng.uniform(6, 25), 2)]
    wide = rng.choice([0.0, 0.02, 0.15])
    lam = [rng.random(), rng.random()]
    return dict(seed=rng.getrandbits(20), n=n, freq=f, range=rng.choice([0.1, 0.3]), speed=rng.choice([None, round(rng.uniform(2, 14), 2)]),
                acts=[round(rng.uniform(-amp, amp), 3) for _ in range(n)], starts=sorted(set([0] + [rng.randrange(n) for _ in range(rng.choice([0, 1]))])),
                truth=truth, box=[[t - wide * t * l, t + wide * t * (1 - l)] for t, l in zip(truth, lam)],
                init=[round(rng.uniform(0, 0.1), 3) for _ in range(4)] if rng.random() < 0.5 else [0, 0, 0, 0],
                k=[round(rng.uniform(-0.05, 0.05), 4) for _ in range(4)] if rng.random() < 0.4 else None,
                copies=[rng.randrange(n)] if rng.random() < 0.3 else [], resets=[rng.randrange(1, n)] if rng.random() < 0.2 else [],
                noise=rng.choice([0, 0.05]))


def run_tube(plan, ctx):
    import contextlib
    import io
    import numpy as np
    from highway_env.interval import LPV
    spec = dict(env="lane-keeping", cfg=dict(simulation_frequency=plan["freq"], policy_frequency=plan["freq"], state_noise=plan["noise"], derivative_noise=plan["noise"],
                                             action=dict(type="ContinuousAction", steering_range=[-plan["range"], plan["range"]], longitudinal=False, lateral=True, dynamical=True)), seed=plan["seed"])

    def lateral(v):
        return np.array([float(np.ravel(x)[0]) for x in v.state])[[1, 2, 4, 5]]

    def episode(bounds):
        env, _ = world.build_env(spec)
        b = world.base(env)

        def begin():
            friction(b.vehicle, *plan["truth"])
            if plan["speed"]:
                b.vehicle.speed = plan["speed"]
        begin()
        path, tubes, last = [], [], None
        for t, a in enumerate(plan["acts"]):
            b = world.base(env)
            if t in plan["resets"]:
                b.lpv = None
                env.reset()
                b = world.base(env)
                begin()
                last = None
            v = b.vehicle
            if bounds is not None and t in plan["starts"]:
                a0, phi, bb = v.full_lateral_lpv_structure()
                a0 = a0 + sum(lo * p for (lo, hi), p in zip(plan["box"], phi))
                da = [(hi - lo) * p for (lo, hi), p in zip(plan["box"], phi)]
                x = lateral(v)
                i = np.array(plan["init"])
                # the model's control is the agent's action in [-1, 1]
                b.lpv = LPV(x, a0, da, b=bb * plan["range"], d=np.array([[1, 0, 0], [0, 0, 0], [0, 1, 0], [0, 0, 1.0]]),
                            omega_i=np.array([[-q for q in bounds], bounds]), x_i=np.array([x - i, x + i * 0.5]),
                            k=np.array([plan["k"]]) if plan["k"] else None)
                last = t
                if (1 + np.diag(np.asarray(b.lpv.a0)) / plan["freq"]).min() < 0:
                    b.lpv, last = None, None  # a time step too long for the predictor's own scheme
                    ctx.probe("tubes not judged")
            if t in plan["copies"]:
                env = copy.deepcopy(env)
                b = world.base(env)
            before = lateral(b.vehicle)
            n = len(b.interval_trajectory)
            path.append((before.tolist(), float(b.vehicle.speed)))
            out = env.step(np.array([a]))
            ctx.event(world.step_sig(env, out))
            ctx.tick(1 / plan["freq"])
            b = world.base(env)
            if last is not None:
                if len(b.interval_trajectory) != n + 1:
                    raise Violation("records", "decision %d: %d intervals recorded" % (t, len(b.interval_trajectory) - n))
                lo, hi = (np.ravel(np.asarray(x, float))[[1, 2, 4, 5]] for x in b.interval_trajectory[-1])
                tol = 1e-6 * (1 + np.abs(lo).max() + np.abs(hi).max())
                ctx.probe("recorded intervals")
                tubes.append((t, before, lo, hi))
                if not (np.all(lo - tol <= before) and np.all(before <= hi + tol)):
                    raise Violation("tube", "decision %d (tube since %d): (y, heading, lateral speed, yaw rate) = %s is outside of the recorded interval %s, %s" % (
                        t, last, show(before), show(lo), show(hi)))
                if np.abs(hi - lo).max() > 1e4:
                    world.base(env).lpv, last = None, None
                    break
                if np.abs(hi - lo).max() < 0.5:
                    ctx.probe("tight recorded intervals")
        return path, float(b.vehicle.FRICTION_FRONT), float(b.vehicle.FRICTION_REAR), b.vehicle
    path, ff, fr, v = episode(None)
    # bounds of the linearisation error along this very path
    e = [0.0, 0.0, 0.0]
    for (y, psi, lat, yaw), speed in path:
        zf, zr = abs((lat + v.LENGTH_A * yaw) / speed), abs((lat - v.LENGTH_B * yaw) / speed)
        gf, gr = 2 * ff * zf ** 3 / 3, 2 * fr * zr ** 3 / 3
        e = [max(e[0], speed * abs(psi) ** 3 / 6 + abs(lat) * psi ** 2 / 2), max(e[1], (gf + gr) / v.MASS),
             max(e[2], (v.LENGTH_A * gf + v.LENGTH_B * gr) / v.INERTIA_Z)]
        if abs(yaw) > 5 or speed < 1.001:
            ctx.probe("paths not judged")
            return
    with contextlib.redirect_stdout(io.StringIO()):
        again = episode([x * (1 + 1e-9) + 1e-9 for x in e])
    if again[0] != path[:len(again[0])]:
        raise Violation("tube-disturbs", "the vehicle drives differently when the task records a tube")


SHRINK = ["acts", "events", "starts", "copies", "resets", "thetas"]
FAMILIES = {"worlds": (4, gen_world, run_world), "environments": (2, gen_env, run_env), "tube": (3, gen_tube, run_tube)}
