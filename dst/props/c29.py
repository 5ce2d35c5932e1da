"""C29 Recordings and estimators only observe, and record what happened."""
import copy
import math

import numpy as np

from .. import envref, ref, world
from ..core import Violation
from . import common, stage
from .c14 import norm

ID = "C29"
QUICK_RUNS, THOROUGH_RUNS = 700, 24000
RULE = "one case = one world or episode under faults whose vehicles record their trajectories and regression data or carry estimators (hypotheses on routes, parameters, intervals); its twin has plain vehicles that record nothing and must drive identically, and every record is compared with the states and decisions the simulation went through, when made and later on."
REAL = ["recording of trajectories and regression data", "estimators and interval observers", "vehicles", "Road", "environments"]
STUB = ["the viewer in the middle of steps"]
ASSUMPTIONS = ["Interval vehicles are documented to collide earlier with the vehicles of a planner: not in one scene.",
               "Features within a tie of the neighbour search or of the seam of a lane are not judged."]
ESTIMATORS = ["MultipleModelVehicle", "MultipleModelVehicle", "RegressionVehicle", "IntervalVehicle", "LinearVehicle"]
KP_HEADING, KP_LATERAL, PURSUIT, STEER = 1 / 0.2, 1 / 0.6, 0.1, math.pi / 3
MEMORY = 30


def sig(v):
    return world.vehicle_sig(v, False) + (tuple(sorted((k, float(x).hex()) for k, x in v.action.items())),
                                          tuple(norm(r) for r in v.route) if getattr(v, "route", None) else None,
                                          float(v.timer).hex() if hasattr(v, "timer") else None)


def unhex(x):
    if isinstance(x, str) and "0x" in x:
        return float.fromhex(x)
    return tuple(unhex(y) for y in x) if isinstance(x, (list, tuple)) else x


def rows(data, kind):
    d = data.get(kind) or {"features": [], "outputs": []}
    return [(tuple(float(x) for x in f), float(y)) for f, y in zip(d["features"], d["outputs"])]


def datasets(v):
    """The regression data of a vehicle: [(route of the hypothesis or None, data)]."""
    return [(None, v.data)] if isinstance(v.data, dict) else [(r, d) for r, d in v.data]


def close(a, b):
    return abs(a - b) <= 1e-6 * (1 + abs(b))


class Records:
    """What the vehicles record, against what happens to them."""

    def __init__(self, ctx, record, model=None):
        self.ctx, self.record, self.over = ctx, record, model
        self.road = self.net = None
        self.past = {}     # id -> (vehicle, history as it was)
        self.data = {}     # id of a dataset -> (dataset, rows as they were)
        self.watch = {}    # id -> (vehicle, trajectory as it was) of interval vehicles

    def enter(self, road):
        if road is not self.road:
            self.road, self.net = road, ref.Net(road.network)

    # ---------------------------------------------------------------- regression data
    def features(self, v, index):
        """Expected features of the two controllers, or None when in doubt."""
        lane = self.net[norm(index)]
        if lane.seam(v.position) < 1e-6:
            return None
        s, lat = lane.local(v.position)
        return (ref.wrap(lane.heading(s + v.speed * PURSUIT) - v.heading) * v.LENGTH / ref.nz(v.speed),
                -lat * v.LENGTH / ref.nz(v.speed) ** 2)

    def longitudinal(self, v, m):
        front, _, doubt = ref.neighbours(self.net, self.road, v)
        if doubt:
            return None
        dv = dp = 0.0
        if front is not None:
            dv = min(front.speed - v.speed, 0)
            dp = min(ref.lane_gap(self.net, v, front) - (m["d0"] + max(v.speed, 0) * m["T"]), 0)
        return v.target_speed - v.speed, dv, dp

    def before_act(self, road, silent=()):
        self.enter(road)
        self.todo = []
        for v in road.vehicles:
            if not getattr(v, "collecting_data", False) or not hasattr(v, "data") or id(v) in silent:
                continue
            m = ref.model_of(v, self.over)
            lengths = {id(d): len(rows(d, "lateral")) for _, d in datasets(v)}
            self.todo.append((v, m, self.longitudinal(v, m), norm(v.target_lane_index),
                              self.features(v, v.target_lane_index), lengths, bool(v.crashed)))

    def after_act(self, road):
        ctx = self.ctx
        for v, m, lon, target, lat, lengths, crashed in self.todo:
            name = type(v).__name__
            theta_b = [float(x) for x in vars(v).get("STEERING_PARAMETERS", (KP_HEADING, KP_HEADING * KP_LATERAL))]
            for route, d in datasets(v):
                n = lengths.get(id(d), 0)
                a, b = rows(d, "longitudinal"), rows(d, "lateral")
                if len(b) != n + 1 or len(a) != n + 1:
                    raise Violation("count", "%s recorded %d and %d samples in one decision that follows %d" % (name, len(a) - n, len(b) - n, n))
                ctx.probe("samples of regression data")
                if lon is not None:
                    f, y = a[-1]
                    want = sum(t * x for t, x in zip(m["theta"], lon))
                    if not all(close(x, z) for x, z in zip(f, lon)) or not close(y, want):
                        raise Violation("longitudinal", "%s recorded the features %s and the output %r instead of %s and %r" % (name, f, y, lon, want))
                feat = self.features(v, route[0]) if route else lat
                if feat is not None and lat is not None:
                    f, y = b[-1]
                    want = sum(t * x for t, x in zip(theta_b, lat))
                    if not all(close(x, z) for x, z in zip(f, feat)) or not close(y, want):
                        raise Violation("lateral", "%s on %s to %s%s recorded the features %s and the output %r instead of %s and %r" % (
                            name, v.lane_index, target, " under the hypothesis %s" % route if route else "", f, y, feat, want))
                    if route is None and not crashed and norm(v.target_lane_index) == target:
                        got = float(v.action["steering"])
                        if not close(got, ref.clip(y, -STEER, STEER)):
                            raise Violation("command", "%s steers by %r rad and recorded %r" % (name, got, y))
                if route:
                    ctx.probe("hypotheses on the route")

    # ---------------------------------------------------------------- trajectories
    def after(self, road, extra):
        """After a tick; `extra`: vehicles may have been displaced since the last one."""
        self.enter(road)
        self.intervals(road)
        ctx, keep = self.ctx, {}
        for v in road.vehicles:
            now = [(float(h.position[0]), float(h.position[1]), float(h.heading), float(h.speed)) for h in v.history]
            if not self.record:
                self.past = {}
                if now:
                    raise Violation("history", "%s records its trajectory although that is disabled" % type(v).__name__)
                continue
            ctx.probe("recorded trajectories")
            me = (float(v.position[0]), float(v.position[1]), float(v.heading), float(v.speed))
            n = 3 if v.crashed else 4
            if not now or now[0][:n] != me[:n]:
                raise Violation("history", "%s is at %s after the tick and recorded %s" % (type(v).__name__, me, now[:1]))
            old = self.past.get(id(v), (v, []))[1]
            for k in range(1, 8 if extra else 2):
                if id(v) not in self.past or now[k:] == old[:len(now) - k] and len(now) == min(len(old) + k, MEMORY):
                    break
            else:
                raise Violation("history", "the recorded trajectory of %s was %s before the tick and is %s after" % (type(v).__name__, old[:5], now[:5]))
            if len(now) == MEMORY:
                ctx.probe("full memories")
            keep[id(v)] = (v, now)
        self.past = keep

    def before_step(self, road):
        self.enter(road)
        self.states = {id(v): (float(v.position[0]), float(v.position[1]), float(v.heading), float(v.speed))
                       for v in road.vehicles if hasattr(v, "interval_trajectory")}

    def intervals(self, road):
        for v in road.vehicles:
            if not hasattr(v, "interval_trajectory"):
                continue
            if len(v.trajectory) != len(v.interval_trajectory):
                raise Violation("trajectory", "%d states and %d intervals recorded" % (len(v.trajectory), len(v.interval_trajectory)))
            got = [(float(h.position[0]), float(h.position[1]), float(h.heading), float(h.speed)) for h in v.trajectory[-3:]]
            box = [tuple(float(x) for y in (i.position, i.speed, i.heading) for x in np.ravel(y)) for i in v.interval_trajectory[-3:]]
            n, told, bold = self.watch.get(id(v), (v, len(v.trajectory) - 1, got[:-1], box[:-1]))[1:]
            if len(v.trajectory) != n + 1:
                raise Violation("trajectory", "%d states recorded in one tick" % (len(v.trajectory) - n))
            if got[-1] != self.states[id(v)]:
                raise Violation("trajectory", "the state %s was recorded before a tick that started from %s" % (got[-1], self.states[id(v)]))
            if got[:-1] != told[-2:] or box[:-1] != bold[-2:]:
                raise Violation("trajectory", "recorded states or intervals changed: %s, %s to %s, %s" % (told, bold, got, box))
            self.watch[id(v)] = (v, n + 1, got, box)
            self.ctx.probe("recorded intervals")

    def frozen(self, road):
        """Samples already recorded never change."""
        keep = {}
        for v in road.vehicles:
            if not hasattr(v, "data"):
                continue
            for _, d in datasets(v):
                for kind in ("longitudinal", "lateral"):
                    now = rows(d, kind)
                    old = self.data.get((id(d), kind), (d, []))[1]
                    if now[:len(old)] != old:
                        raise Violation("changed", "%s samples recorded by %s changed afterwards" % (kind, type(v).__name__))
                    keep[id(d), kind] = (d, now)
        self.data = keep


def query(road, q, ctx):
    """What a planner does with the estimators: it drives copies that follow a hypothesis, and looks at estimates."""
    vs = [v for v in road.vehicles if hasattr(v, "data")]
    if not vs:
        return
    v = vs[q["i"] % len(vs)]
    if hasattr(v, "assume_model_is_valid"):
        if v.data:
            route, data = v.data[min(q["k"], len(v.data) - 1)]
            route, n = [norm(r) for r in route], len(rows(data, "lateral"))
        w = v.assume_model_is_valid(q["k"])
        if w is v:
            raise Violation("copy", "assume_model_is_valid returned the vehicle itself")
        if sig(w)[1:5] != sig(v)[1:5]:
            raise Violation("copy", "the copy that follows a hypothesis starts from %s instead of %s" % (sig(w)[1:5], sig(v)[1:5]))
        if v.data and (norm(w.target_lane_index) != route[0] or [norm(r) for r in w.route] != route or len(rows(w.data, "lateral")) != n):
            raise Violation("copy", "the copy is to follow %s from lane %s with %d samples instead of %s with %d" % (
                w.route, w.target_lane_index, len(rows(w.data, "lateral")), route, n))
        ctx.probe("hypotheses followed")
    else:
        w = type(v).create_from(v)
        if getattr(w, "data", None) is v.data:
            w.data = copy.deepcopy(v.data)
    state = road.np_random.get_state()
    for _ in range(q["n"]):
        w.act()
        if q["mode"] and hasattr(w, "predictor_step"):
            w.step(q["dt"], mode=q["mode"])
        else:
            w.step(q["dt"])
    road.np_random.set_state(state)  # the copy may draw its next road at random
    v.longitudinal_structure()
    v.lateral_structure()
    ctx.fault("planner queries")


def gen_query(rng):
    return dict(i=rng.randrange(12), k=rng.choice([0, 0, 1, 2, 9]), n=rng.choice([0, 1, 5, 20]), dt=rng.choice([1 / 15, 0.1, 0.3]),
                mode=rng.choice([None, "partial", "predictor"]))


# ------------------------------------------------------------------------------------------------------ worlds
def gen_world(rng, tier):
    ticks = rng.choice([20, 40, 60])
    mix = rng.choice([["MultipleModelVehicle"], ["MultipleModelVehicle", "ControlledVehicle"], ["RegressionVehicle", "LinearVehicle"],
                      ["LinearVehicle"], ["MultipleModelVehicle", "RegressionVehicle", "IDMVehicle"]])
    if rng.random() < 0.25:
        mix = rng.choice([["IntervalVehicle"], ["IntervalVehicle", "LinearVehicle", "Vehicle"]])
        ticks = rng.choice([10, 20])
    base = [c if c in world.TRAFFIC + ["ControlledVehicle", "Vehicle"] else "LinearVehicle" for c in mix]
    p = common.gen_mixed(rng, tier, ticks=ticks, mixes=[base], n=rng.choice([1, 2, 5]))
    if rng.random() < 0.7:
        p["world"]["road"] = road = world.gen_road(rng, ("web", "fork", "ring", "chain"))
        p["world"]["vehicles"] = world.gen_vehicles(rng, road, rng.choice([1, 2, 4]), base, spread=150, offsets=rng.random() < 0.5)
        p["world"]["events"] = [e for e in p["world"]["events"] if e["what"] not in ("spawn", "object", "unobject")]
    ends = sorted({i[1] for i in world.edge_indices(p["world"]["road"])})
    for v in p["world"]["vehicles"]:
        if v["cls"] == "LinearVehicle":
            v["est"] = rng.choice([c for c in mix if c in ESTIMATORS])
        if v["cls"] != "Vehicle" and rng.random() < 0.7:
            v["dest"] = rng.choice(ends)
    p["record"] = rng.random() < 0.6
    p["asks"] = [[rng.randrange(ticks), gen_query(rng)] for _ in range(rng.choice([0, 0, 2, 5]))]
    return p


def run_world(plan, ctx):
    def clothe(spec, on):
        spec = copy.deepcopy(spec)
        for v in spec["vehicles"] + [e["vehicle"] for e in spec.get("events", []) if "vehicle" in e]:
            est = v.pop("est", None)
            if on and est:
                v["cls"] = est
        spec["record"] = on and plan["record"]
        return spec
    trace = []
    w = world.World(clothe(plan["world"], True), ctx)
    rec = Records(ctx, plan["record"])
    asks = {}
    for t, q in plan["asks"]:
        asks.setdefault(t, []).append(q)
    extra = {e["t"] for e in plan["world"].get("events", []) if e["what"] == "push"}

    def before_act(w):
        silent = {k for k, (v, until) in w.muted.items() if w.t < until}
        rec.before_act(w.road, silent)

    def before_step(w):
        rec.after_act(w.road)
        rec.before_step(w.road)

    def after(w):
        rec.after(w.road, w.t in extra)
        trace.append([sig(v) for v in w.road.vehicles])
        for q in asks.get(w.t, ()):
            query(w.road, q, ctx)
            if [sig(v) for v in w.road.vehicles] != trace[-1]:
                raise Violation("disturbed", "tick %d: driving a copy moved the vehicles of the scene" % w.t)
        if w.t % 5 == 0 or w.t in asks:
            rec.frozen(w.road)
        if w.t % 10 == 0:
            ctx.state(w.abstract())
    w.run(plan["ticks"], plan["dt"], before_act=before_act, before_step=before_step, after=after)

    from ..core import Ctx
    quiet = Ctx()
    twin = world.World(clothe(plan["world"], False), quiet)

    def mute(w):
        for v in w.road.vehicles:
            if hasattr(v, "collecting_data"):
                v.collecting_data = False

    def same(w):
        got = [sig(v) for v in w.road.vehicles]
        ctx.probe("ticks compared with plain vehicles")
        if got != trace[w.t]:
            k = [i for i, (a, b) in enumerate(zip(got, trace[w.t])) if a != b]
            k = k[0] if k else 0
            raise Violation("behaviour", "tick %d: a vehicle that records or estimates is at %s, it would be at %s" % (
                w.t, unhex(trace[w.t][k:k + 1]), unhex(got[k:k + 1])))
    twin.run(plan["ticks"], plan["dt"], before_act=mute, after=same)


# ------------------------------------------------------------------------------------------------ environments
def gen_env(rng, tier):
    p = GEN(rng, tier)
    n = len(p["acts"])
    p["record"] = rng.random() < 0.7
    action = p["spec"]["cfg"].get("action") or {}
    p["est"] = rng.choice(["RegressionVehicle", "IntervalVehicle"] if action.get("type") == "ContinuousAction" and rng.random() < 0.5
                          else ["MultipleModelVehicle", "MultipleModelVehicle", "LinearVehicle"])
    if p["spec"]["env"] in ("two-way", "parking", "summon", "lane-keeping", "custom"):
        p["est"], p["record"] = None, True
    p["asks"] = [[rng.randrange(n), gen_query(rng)] for _ in range(rng.choice([0, 0, 1, 3]))]
    return p


def tweak(rng, spec):
    cfg = spec["cfg"]
    cfg.pop("other_vehicles_type", None)
    if spec["env"] == "highway":
        cfg["vehicles_count"] = rng.choice([1, 3, 5])


GEN = stage.gen(["highway", "merge", "roundabout", "roundabout", "intersection", "intersection", "two-way", "parking", "summon", "custom"],
                steps=(3, 6, 10), tweak=tweak)
PATHS = dict(MultipleModelVehicle="highway_env.vehicle.uncertainty.estimation.MultipleModelVehicle",
             RegressionVehicle="highway_env.vehicle.uncertainty.estimation.RegressionVehicle",
             IntervalVehicle="highway_env.vehicle.uncertainty.prediction.IntervalVehicle",
             LinearVehicle="highway_env.vehicle.behavior.LinearVehicle")


def run_env(plan, ctx):
    from .. import core
    from ..core import Ctx
    trace = []

    def spec(on):
        s = copy.deepcopy(plan["spec"])
        s["cfg"]["show_trajectories"] = bool(on and plan["record"])
        if plan["est"]:
            s["cfg"]["other_vehicles_type"] = PATHS[plan["est"] if on else "LinearVehicle"]
        return s
    over = ref.INTERSECTION if plan["spec"]["env"] == "intersection" else None
    rec = Records(ctx, plan["record"], over)
    box = dict(k=0, tick=0)

    def on_reset(env, obs):
        world.attach(env, ctx, before_act=lambda road: rec.before_act(road), before_step=lambda road, dt: (rec.after_act(road), rec.before_step(road)),
                     after=lambda road, dt: tick(env, road))

    def tick(env, road):
        rec.after(road, bool(plan["events"]) or box["tick"] == 0)
        box["tick"] += 1

    def before(env, action):
        box["tick"] = 0
        for k, q in plan["asks"]:
            if k == box["k"]:
                query(world.base(env).road, q, ctx)

    def on_step(env, action, out):
        road = world.base(env).road
        rec.frozen(road)
        trace.append(([sig(v) for v in road.vehicles], world.canon(out[0]), float(out[1]), bool(out[2])))
        box["k"] += 1
    core.pin(plan["seed"])
    world.warm(spec(True), spec(False))
    stage.drive(dict(plan, spec=spec(True)), ctx, on_step, on_reset, before)

    core.pin(plan["seed"])
    at = [0]

    def same(env, action, out):
        k = at[0]
        got = [sig(v) for v in world.base(env).road.vehicles]
        ctx.probe("decisions compared with plain vehicles")
        if got != trace[k][0]:
            raise Violation("behaviour", "%s, decision %d: the vehicles drive differently because of what is recorded or estimated (%s)" % (
                plan["spec"]["env"], k, plan["est"] or "trajectories"))
        if (world.canon(out[0]), float(out[1]), bool(out[2])) != trace[k][1:]:
            raise Violation("behaviour", "%s, decision %d: the observation, reward or end differ because of what is recorded (%s)" % (
                plan["spec"]["env"], k, plan["est"] or "trajectories"))
        at[0] += 1

    def mute(env, action=None):
        for v in world.base(env).road.vehicles:
            if hasattr(v, "collecting_data"):
                v.collecting_data = False
    stage.drive(dict(plan, spec=spec(False)), Ctx(), same, None, mute)


# ------------------------------------------------------------------------------------------------ lane keeping
def gen_lane(rng, tier):
    spec = world.gen_env(rng, ["lane-keeping"], obs=False)
    n = rng.choice([5, 20, 60])
    return dict(spec=spec, acts=world.gen_acts(rng, n, 0.4), events=stage.gen_stage(rng, n, ["off-road", "faster"]),
                lpv=rng.random() < 0.4, resets=[rng.randrange(n)] if rng.random() < 0.3 else [])


def run_lane(plan, ctx):
    states = []

    def before(env, action):
        b = world.base(env)
        states.append([float(x) for x in np.ravel(b.vehicle.state)])

    def on_step(env, action, out):
        b = world.base(env)
        got = [[float(x) for x in np.ravel(s)] for s in b.trajectory]
        ctx.probe("recorded states of the lane-keeping task")
        if got != states:
            k = next((i for i, (a, c) in enumerate(zip(got, states)) if a != c), min(len(got), len(states)))
            raise Violation("trajectory", "lane-keeping: %d states recorded over %d decisions, the first difference is at decision %d: %s instead of %s" % (
                len(got), len(states), k, got[k:k + 1], states[k:k + 1]))
        if b.interval_trajectory:
            raise Violation("trajectory", "lane-keeping: intervals recorded without a predictor")
    stage.drive(plan, ctx, on_step, None, before)


SHRINK = ["acts", "events", "asks"]
FAMILIES = {"worlds": (6, gen_world, run_world), "episodes": (4, gen_env, run_env), "lane-keeping": (1, gen_lane, run_lane)}
