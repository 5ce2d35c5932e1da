"""C23 Interval predictions contain every admissible behaviour."""
import contextlib
import copy
import io
import math

import numpy as np

from ..core import Violation

ID = "C23"
QUICK_RUNS, THOROUGH_RUNS = 12860, 200000
RULE = "one case = one uncertain system (random dynamics, polytope, feedback, centre, initial box) or one interval vehicle on a road of any direction, simulated against a seeded adversary that chooses the parameters and disturbances at every step; the true state is compared with the predicted interval after each step, in the original coordinates and in those of the predictor."
REAL = ["interval.py", "vehicle/uncertainty/prediction.py", "vehicle/uncertainty/estimation.py", "LinearVehicle"]
STUB = ["the plant driven by the adversary is the Euler scheme of the documented dynamics"]
ASSUMPTIONS = ["The time step respects the predictor's own scheme (1 + dt a_ii >= 0 in its coordinates).",
               "With a feedback gain the centre is the origin, as documented (u - kx).",
               "Interval vehicles: alone, on the centre of a straight lane; the boundary (partial) observer is approximate: its first 0.8 s along the x axis, 0.3 s in other directions."]


def rmat(rng, n, m, s):
    return [[round(rng.uniform(-s, s), 3) for _ in range(m)] for _ in range(n)]


def gen_lpv(rng, tier):
    n = rng.choice([2, 2, 3, 4])
    m, q = rng.choice([1, 2]), rng.choice([1, 2])
    return dict(n=n, m=m, q=q, kind=rng.choice(["metzler", "metzler", "real", "real", "complex", "defective"]), mseed=rng.getrandbits(30),
                da=rng.choice([1, 2, 3]), da_scale=rng.choice([0, 0.1, 0.5]), poly=rng.random() < 0.4,
                b=rng.random() < 0.7, d=rng.random() < 0.75, center=rng.random() < 0.5, box=rng.random() < 0.5,
                k=rng.random() < 0.25, ints=rng.random() < 0.1, steps=rng.choice([3, 10, 40]), dt=rng.choice([0.5, 0.9, 0.2]),
                adv=rng.choice(["greedy", "greedy", "vertices", "random"]), aseed=rng.getrandbits(30),
                control=rng.choice([0, 0.3, 1]), copy=rng.random() < 0.2, jitter=rng.random() < 0.3)


def make_lpv(plan, ctx):
    import highway_env.interval as I
    r = np.random.RandomState(plan["mseed"] % (2 ** 31))
    n, m, q = plan["n"], plan["m"], plan["q"]
    b = np.round(r.uniform(-1, 1, (n, m)), 3) if plan["b"] else None
    k = np.round(r.uniform(-0.5, 0.5, (m, n)), 3) if plan["k"] and b is not None else None
    diag = -np.round(r.uniform(0.2, 3, n), 3)
    if plan["kind"] == "metzler":
        a = np.round(r.uniform(0, 1, (n, n)), 3)
        a[r.rand(n, n) < 0.4] = 0
        np.fill_diagonal(a, diag)
    elif plan["kind"] == "real":
        while True:
            t = r.uniform(-1, 1, (n, n))
            if np.linalg.cond(t) < 20:
                break
        diag = -np.sort(r.uniform(0.3, 1, n) + np.arange(n))
        a = t @ np.diag(diag) @ np.linalg.inv(t)
    elif plan["kind"] == "defective":  # a chain of equal eigenvalues, as that of a position and its speed
        a = np.diag(np.full(n, float(r.choice([0, -1, -0.7])))) + np.diag(np.round(r.uniform(-2, -0.5, n - 1), 3), 1)
        t = np.eye(n) + np.tril(r.randint(-1, 2, (n, n)), -1)
        if r.rand() < 0.5:
            a = t @ a @ np.linalg.inv(t)
        diag = np.diag(a).copy()
    else:
        a = np.diag(diag)
        w = 0.5 + r.rand()
        a[:2, :2] = [[-0.5, w], [-w, -0.5]]
        a[2:, :2] = r.uniform(-1, 1, (n - 2, 2))
    # a0 + b k is the closed loop with the documented structure
    a0 = a - b @ k if k is not None else a
    shape = [np.round(r.uniform(-1, 1, (n, n)), 3) for _ in range(plan["da"])]
    box = None
    if plan["poly"]:
        w = plan["da_scale"] * r.rand(plan["da"])
        mid = np.zeros(plan["da"])
        box = np.array([mid - w, mid + w])

        def f(params):
            return a0 + sum(p * s for p, s in zip(params, shape))
        pa, da = I.polytope(f, box)
        if np.abs(pa - a0).max() > 1e-9:
            raise Violation("polytope", "the centre of the polytope is %s instead of %s" % (pa.tolist(), a0.tolist()))
    else:
        da = [plan["da_scale"] * s for s in shape]
    d = np.round(r.uniform(-1, 1, (n, q)), 3) if plan["d"] else None
    omega = np.sort(np.round(r.uniform(-1, 1, (2, q)), 3), axis=0) if plan["d"] else None
    center = np.round(r.uniform(-5, 5, n), 3) if plan["center"] and k is None else None
    x0 = np.round(r.uniform(-5, 5, n), 3)
    if plan["ints"]:
        x0 = np.round(x0)
    u = np.round(r.uniform(-1, 1, (m, 1)), 3) if b is not None and r.rand() < 0.7 else None
    x_i = None
    if plan["box"]:
        h = np.round(r.uniform(0, 2, (2, n)), 3)
        if plan["ints"]:
            h = np.round(h)
        x_i = np.array([x0 - h[0], x0 + h[1]])
    kw = dict(b=b, d=d, omega_i=omega, u=u, k=k, center=center, x_i=x_i)
    kw = {key: (v.astype(int) if plan["ints"] and key in ("x_i",) and v is not None else v) for key, v in kw.items()}
    kept = copy.deepcopy(kw)
    with contextlib.redirect_stdout(io.StringIO()):
        lpv = I.LPV(x0, a0.copy(), [x.copy() for x in da], **{key: v for key, v in kw.items() if v is not None})
    for key, v in kw.items():
        if v is not None and not np.array_equal(v, kept[key]):
            raise Violation("inputs", "building the system changes its argument %s from %s to %s" % (key, kept[key].tolist(), v.tolist()))
    return lpv, dict(a0=a0, a=a, da=da, shape=shape, params=box, b=b, d=d, omega=omega, u=u, k=k,
                     c=center if center is not None else np.zeros(n), x0=x0, x_i=x_i, diag=diag)


def inside(box, x, tol):
    return bool(np.all(box[0] - tol <= x) and np.all(x <= box[1] + tol))


def adversary(plan, s, r, x, goal):
    """Parameters and disturbance of one step; goal is the direction a greedy adversary pushes to."""
    y = x - s["c"]
    mats = []
    if s["params"] is not None:
        lo, hi = s["params"]
        if plan["adv"] == "greedy":
            p = np.array([hi[i] if goal @ (m @ y) > 0 else lo[i] for i, m in enumerate(s["shape"])])
        elif plan["adv"] == "vertices":
            p = np.where(r.rand(len(lo)) < 0.5, lo, hi)
        else:
            p = lo + r.rand(len(lo)) * (hi - lo)
        delta = sum(v * m for v, m in zip(p, s["shape"]))
    else:
        n = len(s["da"])
        if plan["adv"] == "greedy":
            gains = [goal @ (m @ y) for m in s["da"]]
            w = np.zeros(n)
            if max(gains) > 0:
                w[int(np.argmax(gains))] = 1
        elif plan["adv"] == "vertices":
            w = np.eye(n + 1)[r.randint(n + 1)][:n]
        else:
            w = r.dirichlet(np.ones(n + 1))[:n]
        delta = sum(v * m for v, m in zip(w, s["da"]))
    om = np.zeros(0)
    if s["d"] is not None:
        lo, hi = s["omega"]
        if plan["adv"] == "greedy":
            om = np.where(goal @ s["d"] > 0, hi, lo)
        elif plan["adv"] == "vertices":
            om = np.where(r.rand(len(lo)) < 0.5, lo, hi)
        else:
            om = lo + r.rand(len(lo)) * (hi - lo)
    return delta, om


def run_lpv(plan, ctx):
    lpv, s = make_lpv(plan, ctx)
    n = plan["n"]
    r = np.random.RandomState(plan["aseed"] % (2 ** 31))
    limit = 1 / max(np.abs(np.linalg.eigvals(s["a"])).max(), np.abs(np.diag(s["a"])).max(), 0.2)
    x_i = s["x_i"] if s["x_i"] is not None else np.array([s["x0"], s["x0"]])
    xs = [np.where(r.rand(n) < 0.5, x_i[0], x_i[1]).astype(float) for _ in range(3)] + [(x_i[0] + r.rand(n) * (x_i[1] - x_i[0])).astype(float)]
    u = s["u"]
    goals = [np.eye(n)[r.randint(n)] * r.choice([-1, 1]) for _ in xs]
    coords = np.eye(n)
    if s["x_i"] is None and plan["k"] and s["k"] is not None:
        xs = xs[:1]

    def check(t):
        back = np.asarray(lpv.change_coordinates(np.array(lpv.x_i_t), back=True, interval=True))
        scale = 1e-7 * (1 + np.abs(back).max() + np.abs(lpv.x_i_t).max())
        for x in xs:
            if not inside(back, x, scale):
                raise Violation("state", "step %d: the state %s is outside of the interval %s" % (t, x.tolist(), back.tolist()))
            z = np.asarray(lpv.change_coordinates(np.array(x)))
            if not inside(np.asarray(lpv.x_i_t), z, scale):
                raise Violation("coordinates", "step %d: the state %s, %s in the coordinates of the predictor, is outside of its interval %s" % (
                    t, x.tolist(), z.tolist(), np.asarray(lpv.x_i_t).tolist()))
            ctx.probe("states inside")
        calm = s["omega"] is None or (np.all(s["omega"][0] <= 0) and np.all(s["omega"][1] >= 0))
        if calm and not inside(np.asarray(lpv.x_i_t), np.asarray(lpv.x_t), scale):
            raise Violation("nominal", "step %d: the nominal state %s is outside of the interval %s" % (
                t, np.asarray(lpv.x_t).tolist(), np.asarray(lpv.x_i_t).tolist()))
        if s["k"] is None and not np.all(np.isfinite(back)):
            raise Violation("finite", "step %d: the interval is %s" % (t, back.tolist()))
        ctx.state(("lpv", plan["kind"], t, round(math.log10(1e-9 + float(np.max(back[1] - back[0]))), 1)))
        ctx.event([float(v).hex() for v in back.ravel()])

    check(-1)
    for t in range(plan["steps"]):
        dt = plan["dt"] * limit * (0.5 + 0.5 * r.rand() if plan["jitter"] else 1)
        if s["b"] is not None and r.rand() < plan["control"] and (s["k"] is None or len(xs) == 1):
            raw = np.round(r.uniform(-1, 1, (plan["m"], 1)), 3)
            if s["k"] is not None:
                lpv.set_control(raw.copy(), state=xs[0][:, None].copy())
                u = raw - s["k"] @ xs[0][:, None]
            else:
                lpv.set_control(raw.copy())
                u = raw
            ctx.fault("control")
        if plan["copy"] and r.rand() < 0.3:
            lpv = copy.deepcopy(lpv)
            ctx.fault("copied")
        moves = [adversary(plan, s, r, x, g) for x, g in zip(xs, goals)]
        lpv.step(dt)
        new = []
        for x, (delta, om) in zip(xs, moves):
            dx = (s["a"] + delta) @ (x - s["c"])
            if s["b"] is not None and u is not None:
                dx = dx + (s["b"] @ u)[:, 0]
            if s["d"] is not None:
                dx = dx + s["d"] @ om
            new.append(x + dt * dx)
        xs = new
        ctx.fault("parameters and disturbances " + plan["adv"])
        ctx.tick(dt)
        check(t)
        if np.abs(np.asarray(lpv.x_i_t)).max() > 1e6:
            break


# ------------------------------------------------------------------------------------------- interval arithmetic
def gen_algebra(rng, tier):
    return dict(aseed=rng.getrandbits(30), n=rng.choice([1, 2, 3]), reps=20)


def box(r, *shape):
    a, b = r.uniform(-5, 5, shape), r.uniform(-5, 5, shape)
    k = r.randint(6)
    if k == 0:
        b = a.copy()
    elif k == 1:
        a, b = np.abs(a), np.abs(b)
    elif k == 2:
        a, b = -np.abs(a), -np.abs(b)
    elif k == 3:
        a = np.zeros(shape)
    return np.array([np.minimum(a, b), np.maximum(a, b)])


def pick(r, b):
    k = r.randint(3)
    if k == 0:
        return np.where(r.rand(*b[0].shape) < 0.5, b[0], b[1])
    return b[0] + r.rand(*b[0].shape) * (b[1] - b[0])


def run_algebra(plan, ctx):
    import highway_env.interval as I
    r = np.random.RandomState(plan["aseed"] % (2 ** 31))
    n = plan["n"]

    def has(what, got, x, *why):
        got = np.asarray(got)
        if not inside(got, x, 1e-9 * (1 + np.abs(got).max())):
            raise Violation(what, "%s misses %s: %s" % (got.tolist(), np.asarray(x).tolist(), [np.asarray(w).tolist() for w in why]))
        ctx.probe(what)

    def tight(what, got, lo, hi, *why):
        got = np.asarray(got)
        if np.abs(got - np.array([lo, hi])).max() > 1e-9 * (1 + np.abs(got).max()):
            raise Violation(what, "%s instead of %s: %s" % (got.tolist(), [np.asarray(lo).tolist(), np.asarray(hi).tolist()], [np.asarray(w).tolist() for w in why]))
        ctx.probe(what)
    from highway_env.road import lane as lane_mod
    for _ in range(plan["reps"]):
        a, b, v = box(r, n, n), box(r, n), box(r, n)
        has("matrix product", I.intervals_product(a, b), pick(r, a) @ pick(r, b), a, b)
        w = box(r, n)
        has("dot product", I.intervals_product(v, w), pick(r, v) @ pick(r, w), v, w)
        p, q = box(r), box(r)
        c = [p[i] * q[j] for i in (0, 1) for j in (0, 1)]
        has("scalar product", I.intervals_product(p, q), np.array(c[r.randint(4)]), p, q)
        if p[0] * p[1] > 0 or q[0] * q[1] > 0:
            tight("product of a signed interval", I.intervals_product(p, q), min(c), max(c), p, q)
        m = r.uniform(-2, 2, (n, n))
        has("scaling", I.intervals_scaling(m, b), m @ pick(r, b), m, b)
        tight("difference", I.intervals_diff(b, w), b[0] - w[1], b[1] - w[0], b, w)
        tight("negative part", I.interval_negative_part(b), np.minimum(b[0], 0), np.minimum(b[1], 0), b)
        # the differential of an integrator keeps the interval around every solution
        x, g, dt = box(r), np.sort(r.uniform(0.1, 3, 2)), 0.05
        s = pick(r, x)
        for _ in range(20):
            x = x + dt * np.asarray(I.integrator_interval(x, g))
            s = s - dt * (g[r.randint(2)] if r.rand() < 0.5 else r.uniform(*g)) * s
            has("integrator", x, s, g)
        pos = box(r, 2)
        th = r.uniform(-math.pi, math.pi)
        u = np.array([math.cos(th), math.sin(th)])
        has("section", I.vector_interval_section(pos, u), u @ pick(r, pos), pos, u)
        start = r.uniform(-50, 50, 2)
        lane = lane_mod.StraightLane(start, start + u * r.uniform(5, 100), 4)
        longi, lat = I.interval_absolute_to_local(pos, lane)
        z = pick(r, pos)
        has("to the lane", np.array([[longi[0], lat[0]], [longi[1], lat[1]]]), np.array(lane.local_coordinates(z)), pos, u)
        back = I.interval_local_to_absolute(longi, lat, lane)
        has("from the lane", back, lane.position(*[pick(r, np.asarray(i)) for i in (longi, lat)]), longi, lat)
        has("round trip", back, z, pos, u)
    ctx.tick(0.05, plan["reps"])
    ctx.event(plan["aseed"])


# ---------------------------------------------------------------------------------------------- interval vehicles
def gen_vehicle(rng, tier):
    mode = rng.choice(["observer", "observer", "predictor", "predictor", "partial"])
    return dict(mode=mode, regress=rng.choice([None, 0, 3, 15, 40]) if mode == "predictor" else None, heading=rng.choice([0, 0, round(rng.uniform(-3.14159, 3.14159), 4), 3.1415, -1.5708]),
                x0=[round(rng.uniform(-100, 100), 2) for _ in range(2)], lanes=rng.choice([1, 2, 4]), lane=rng.randrange(4), s=round(rng.uniform(0, 50), 2),
                speed=round(rng.uniform(5, 30), 2), target=rng.choice([None, round(rng.uniform(8, 30), 2)]),
                random=rng.random() < 0.5, rseed=rng.getrandbits(20), dt=rng.choice([1 / 15, 0.05, 0.1, 0.2]),
                time=None if mode == "partial" else rng.choice([2, 6]), crash=rng.choice([None, None, None, rng.randrange(30)]),
                box=rng.choice([None, None, "wide"]), act=rng.random() < 0.8, road=rng.random() < 0.5,
                front=mode == "observer" and rng.random() < 0.5 and dict(cls=rng.choice(["Vehicle", "LinearVehicle", "IDMVehicle", "IntervalVehicle"]),
                                                                         gap=round(rng.uniform(10, 80), 2), speed=round(rng.uniform(10, 30), 2)))


def run_vehicle(plan, ctx):
    from highway_env.road.road import Road, RoadNetwork
    from highway_env.road.lane import StraightLane
    from highway_env.vehicle.uncertainty.prediction import IntervalVehicle
    from highway_env.vehicle.uncertainty.estimation import RegressionVehicle
    from highway_env.vehicle.behavior import IDMVehicle, LinearVehicle
    from highway_env.vehicle.kinematics import Vehicle
    th = plan["heading"]
    u, w = np.array([math.cos(th), math.sin(th)]), np.array([-math.sin(th), math.cos(th)])
    net = RoadNetwork()
    for i in range(plan["lanes"]):
        start = np.array(plan["x0"]) + 4.0 * i * w
        net.add_lane("a", "b", StraightLane(start, start + 2000 * u, width=4))
    road = Road(net, np_random=np.random.RandomState(plan["rseed"]))
    k = plan["lane"] % plan["lanes"]
    lane = net.get_lane(("a", "b", k))
    kw = {}
    if plan["box"]:
        kw = dict(theta_a_i=LinearVehicle.ACCELERATION_RANGE * np.array([[0.8], [1.2]]), theta_b_i=np.array(LinearVehicle.STEERING_RANGE))

    class Observed(IntervalVehicle if plan.get("regress") is None else RegressionVehicle):
        """The vehicle with its full observer, as its documentation describes it."""
        def step(self, dt, mode="partial"):
            if mode == "observer":
                self.store_trajectories()
                if self.crashed:
                    self.interval = type(self.interval)(self)
                else:
                    self.observer_step(dt)
                LinearVehicle.step(self, dt)
            else:
                super().step(dt, mode=mode)
    v = Observed(road, lane.position(plan["s"], 0), heading=lane.heading_at(plan["s"]), speed=plan["speed"],
                 target_speed=plan["target"], enable_lane_change=False, **kw)
    if plan["random"]:
        v.randomize_behavior()
    road.vehicles.append(v)
    front = None
    if plan["front"]:
        f = plan["front"]
        cls = dict(Vehicle=Vehicle, LinearVehicle=LinearVehicle, IDMVehicle=IDMVehicle, IntervalVehicle=IntervalVehicle)[f["cls"]]
        front = cls(road, lane.position(plan["s"] + f["gap"], 0), heading=lane.heading_at(0), speed=f["speed"])
        road.vehicles.append(front)
    dt = plan["dt"]
    if plan.get("regress"):  # data of the first instants, before the prediction starts
        for _ in range(plan["regress"]):
            v.act()
            LinearVehicle.step(v, dt)
        v.interval = type(v.interval)(v)
        ctx.probe("predictions from regression data")
    time = plan["time"] or (0.8 if th == 0 else 0.3)
    for t in range(int(time / dt + 1e-9)):
        if plan["crash"] == t:
            v.crashed = True
            ctx.fault("crash")
        with contextlib.redirect_stdout(io.StringIO()):
            if plan["act"] or v.target_speed != plan["speed"] or plan["random"] or front:
                road.act() if plan["road"] or front else v.act()
            v.step(dt, mode=plan["mode"])
            if front:
                front.step(dt)
        i = v.interval
        e = 1e-6
        if not v.crashed:
            for what, lo, hi, x in (("x", i.position[0, 0], i.position[1, 0], v.position[0]), ("y", i.position[0, 1], i.position[1, 1], v.position[1]),
                                    ("heading", i.heading[0], i.heading[1], v.heading), ("speed", i.speed[0], i.speed[1], v.speed)):
                if not lo - e <= x <= hi + e:
                    raise Violation("vehicle", "%s, %.2f s: the %s %r of the vehicle is outside of its interval [%r, %r]" % (
                        plan["mode"], (t + 1) * dt, what, float(x), float(lo), float(hi)))
            ctx.probe("vehicles inside, " + plan["mode"])
        if len(v.trajectory) != t + 1 or len(v.interval_trajectory) != t + 1:
            raise Violation("trajectory", "%d states and %d intervals are stored after %d steps" % (len(v.trajectory), len(v.interval_trajectory), t + 1))
        ctx.tick(dt)
        ctx.state(("v", plan["mode"], t, round(float(i.position[1, 0] - i.position[0, 0]), 1)))
        ctx.event([float(x).hex() for x in i.position.ravel()])


FAMILIES = {"systems": (5, gen_lpv, run_lpv), "algebra": (1, gen_algebra, run_algebra), "vehicles": (3, gen_vehicle, run_vehicle)}
