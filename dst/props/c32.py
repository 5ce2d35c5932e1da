"""C32 Parameter estimates contain the behaviour they were learnt from."""
import copy
import warnings

import numpy as np

from .. import world
from ..core import Violation
from . import common, stage

ID = "C32"
QUICK_RUNS, THOROUGH_RUNS = 1100, 30000
RULE = "one case = one world or episode under faults with linear vehicles of random behaviour; at planned instants, the estimates made from their recorded decisions (all of them, or what is left after samples were lost, repeated or reordered) must contain the parameters they drive by, stay in the prior box and never be called inconsistent."
REAL = ["confidence regions and consistency tests (utils.py)", "regression vehicles", "linear vehicles", "Road", "environments"]
STUB = []
ASSUMPTIONS = ["Decisions are recorded without noise: the statement holds for every history, not with a probability."]


def outside(x, vertices):
    """How far (relative to the prior box) a point is from the convex hull of vertices."""
    v = np.asarray(vertices, dtype=float)
    lo, hi = v.min(axis=0), v.max(axis=0)
    scale = np.maximum(np.abs(x), 1e-3)
    d = float(np.max(np.maximum(lo - x, x - hi) / scale))
    if d > 1e-6:
        return d
    try:
        from scipy.optimize import linprog
    except ImportError:
        return 0.0
    n, m = v.shape
    a = (v / scale).T
    c = np.zeros(n + 1)
    c[-1] = 1
    one = np.ones((m, 1))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = linprog(c, A_ub=np.vstack([np.hstack([a, -one]), np.hstack([-a, -one])]), b_ub=np.concatenate([x / scale, -x / scale]),
                    A_eq=[[1.0] * n + [0.0]], b_eq=[1.0], bounds=[(0, None)] * (n + 1), method="highs")
    return float(r.x[-1]) if r.status == 0 else 0.0


def damaged(data, how, k):
    """Samples that were lost, repeated or reordered."""
    import random
    f, y = list(data["features"]), list(data["outputs"])
    idx = list(range(len(f)))
    rng = random.Random(k)
    if how == "first":
        idx = idx[:1 + k % 3]
    elif how == "last":
        idx = idx[-(1 + k % 5):]
    elif how == "lost":
        idx = [i for i in idx if rng.random() < 0.5] or idx[-1:]
    elif how == "repeated":
        idx = sorted(idx + [rng.choice(idx) for _ in range(5)])
    elif how == "reordered":
        rng.shuffle(idx)
    elif how == "frozen":
        idx = [idx[-1]] * (1 + k % 20)
    return dict(features=[f[i] for i in idx], outputs=[y[i] for i in idx])


HOW = ["all", "all", "first", "last", "lost", "repeated", "reordered", "frozen"]


def check(v, q, ctx, when):
    from highway_env import utils
    from highway_env.vehicle.behavior import LinearVehicle
    from highway_env.vehicle.uncertainty.estimation import RegressionVehicle
    if not isinstance(getattr(v, "data", None), dict) or not v.data:
        return
    for kind, theta, box in (("longitudinal", v.ACCELERATION_PARAMETERS, LinearVehicle.ACCELERATION_RANGE),
                             ("lateral", v.STEERING_PARAMETERS, LinearVehicle.STEERING_RANGE)):
        theta = np.array([float(x) for x in theta])
        box = np.array(box, dtype=float)
        if np.any(theta < box[0] - 1e-9) or np.any(theta > box[1] + 1e-9):
            continue  # not in the prior box: nothing is promised
        data = v.data[kind]
        if q["how"] != "all":
            data = damaged(data, q["how"], q["k"])
            ctx.fault("samples " + q["how"])
        before = copy.deepcopy(data)
        try:
            center, d, _, _ = utils.confidence_polytope(data, parameter_box=box)
            ok = bool(utils.is_consistent_dataset(data, parameter_box=box))
        except Exception as e:
            raise Violation("failure", "%s: estimating the %s behaviour from %d samples failed: %r" % (when, kind, len(data["outputs"]), e))
        if repr(before) != repr(data):
            raise Violation("data", "%s: estimating changed the data" % when)
        vertices = np.asarray(center) + np.asarray(d)
        ctx.probe("estimates of the %s behaviour" % kind)
        width = box[1] - box[0]
        if np.any(vertices < box[0] - 1e-9 * width) or np.any(vertices > box[1] + 1e-9 * width):
            raise Violation("prior", "%s: the %s estimate %s is not within the prior box %s" % (when, kind, vertices.tolist(), box.tolist()))
        e = outside(theta, vertices)
        if e > 1e-5:
            raise Violation("polytope", "%s: the %s parameters %s are outside (by %.2g) of the polytope estimated from %d samples (%s): centre %s, vertices %s" % (
                when, kind, theta.tolist(), e, len(data["outputs"]), q["how"], np.asarray(center).tolist(), vertices.tolist()))
        if np.any(np.ptp(vertices, axis=0) < 0.5 * width):
            ctx.probe("estimates narrower than the prior")
        if not ok:
            raise Violation("consistency", "%s: %d samples (%s) of the %s behaviour, all produced by the same parameters, are called inconsistent" % (
                when, len(data["outputs"]), q["how"], kind))
        # the dynamics of a regression vehicle
        w = RegressionVehicle.create_from(v)
        w.data = {kind: data} if q["k"] % 2 else dict(v.data, **{kind: data})
        a, phi = w.longitudinal_structure() if kind == "longitudinal" else w.lateral_structure()
        true = a + sum(t * p for t, p in zip(theta, phi))
        a0, da = w.longitudinal_matrix_polytope() if kind == "longitudinal" else w.lateral_matrix_polytope()
        e = outside(np.ravel(true), [np.ravel(np.asarray(a0) + np.asarray(x)) for x in da])
        ctx.probe("dynamics of regression vehicles")
        if e > 1e-5:
            raise Violation("dynamics", "%s: the %s dynamics of the vehicle are outside (by %.2g) of those estimated for it from %d samples" % (
                when, kind, e, len(data["outputs"])))


def behave(v, q):
    """Behaviour parameters anywhere in the prior box."""
    import random
    rng = random.Random(q)
    if rng.random() < 0.3:
        return
    if rng.random() < 0.3:
        v.randomize_behavior()
        return
    for name, box in (("ACCELERATION_PARAMETERS", v.ACCELERATION_RANGE), ("STEERING_PARAMETERS", v.STEERING_RANGE)):
        x = [rng.choice([0, 1, rng.random(), rng.random()]) for _ in box[0]]
        setattr(v, name, np.array([a + (b - a) * y for a, b, y in zip(box[0], box[1], x)]))


def ask(road, asks, ctx, when):
    vs = [v for v in road.vehicles if isinstance(getattr(v, "data", None), dict)]
    for q in asks:
        if vs:
            check(vs[q["i"] % len(vs)], q, ctx, when)


def gen_query(rng):
    return dict(i=rng.randrange(12), how=rng.choice(HOW), k=rng.getrandbits(12))


def gen_world(rng, tier):
    ticks = rng.choice([10, 30, 60, 120])
    mix = rng.choice([["LinearVehicle"], ["LinearVehicle"], ["LinearVehicle", "IDMVehicle"], ["RegressionVehicle"]])
    base = ["LinearVehicle" if c == "RegressionVehicle" else c for c in mix]
    p = common.gen_mixed(rng, tier, ticks=ticks, mixes=[base], n=rng.choice([1, 2, 5]))
    for v in p["world"]["vehicles"]:
        if mix == ["RegressionVehicle"] and ticks < 40:
            v["cls"] = "RegressionVehicle"
    p["behave"] = rng.getrandbits(20)
    p["asks"] = [[rng.choice([1, 2, rng.randrange(ticks)]) % ticks, gen_query(rng)] for _ in range(rng.choice([3, 6, 12]))]
    return p


def run_world(plan, ctx):
    w = world.World(plan["world"], ctx)
    for k, v in enumerate(w.road.vehicles):
        if hasattr(v, "ACCELERATION_RANGE"):
            behave(v, "%s/%s" % (plan["behave"], k))

    def after(w):
        ask(w.road, [q for t, q in plan["asks"] if t == w.t], ctx, "tick %d" % w.t)
        if w.t % 10 == 0:
            ctx.state(w.abstract())
    w.run(plan["ticks"], plan["dt"], after=after)


def gen_env(rng, tier):
    p = GEN(rng, tier)
    n = len(p["acts"])
    p["behave"] = rng.getrandbits(20)
    p["asks"] = [[rng.randrange(n), gen_query(rng)] for _ in range(rng.choice([3, 6]))]
    return p


def tweak(rng, spec):
    spec["cfg"]["other_vehicles_type"] = world.vehicle_path("LinearVehicle")
    if spec["env"] == "highway":
        spec["cfg"]["vehicles_count"] = rng.choice([3, 5])


GEN = stage.gen(["highway", "merge", "roundabout", "intersection"], steps=(3, 6, 10), tweak=tweak)


def run_env(plan, ctx):
    k = [0]

    def on_reset(env, obs):
        for i, v in enumerate(world.base(env).road.vehicles):
            if hasattr(v, "ACCELERATION_RANGE") and not v.data:
                behave(v, "%s/%s" % (plan["behave"], i))

    def on_step(env, action, out):
        ask(world.base(env).road, [q for t, q in plan["asks"] if t == k[0]], ctx, "%s, decision %d" % (plan["spec"]["env"], k[0]))
        k[0] += 1
    stage.drive(plan, ctx, on_step, on_reset)


SHRINK = ["acts", "events", "asks"]
FAMILIES = {"worlds": (3, gen_world, run_world), "episodes": (1, gen_env, run_env)}
