"""C21 Observations are the documented view of the current scene."""
import copy

import numpy as np

from .. import envref, ref, world
from ..core import Violation
from . import stage

ID = "C21"
QUICK_RUNS, THOROUGH_RUNS = 1780, 40000
RULE = "one case = one episode with staged situations (vehicles that appear, vanish, crash, move or are listed in another order between decisions and in the middle of them); every returned observation is recomputed from the scene by an independent reference."
REAL = ["observation types", "environments", "Road", "vehicles"]
STUB = ["the viewer (a stand-in that enables the callback after every tick)"]
ASSUMPTIONS = ["Orders and cells within 1e-6 of a tie are not judged; the feature range captured by default at the reset is that of the road of the observer at the reset."]


class Scene:
    """The vehicles of a road at some instant."""

    def __init__(self, vehicles):
        self.vehicles = list(vehicles)


class Views:
    def __init__(self, ctx, env):
        self.ctx, self.env = ctx, env
        b = world.base(env)
        cfg = b.config["observation"]
        self.multi = cfg["type"] == "MultiAgentObservation"
        self.cfg = cfg["observation_config"] if self.multi else cfg
        self.net = ref.Net(b.road.network)
        self.ranges = {}

    def check(self, obs, vehicles, when):
        b = world.base(self.env)
        scene = Scene(vehicles)
        if self.multi:
            if not isinstance(obs, tuple) or len(obs) != len(b.controlled_vehicles):
                raise Violation("agents", "%s: %d observations for %d agents" % (when, len(obs), len(b.controlled_vehicles)))
            for i, (o, v) in enumerate(zip(obs, b.controlled_vehicles)):
                self.one(o, v, scene, "%s, agent %d" % (when, i))
        else:
            self.one(obs, b.vehicle, scene, when)

    def one(self, obs, v, scene, when):
        t = self.cfg["type"]
        getattr(self, dict(Kinematics="kinematics", OccupancyGrid="occupancy", KinematicsGoal="goal", TimeToCollision="ttc")[t])(obs, v, scene, when)

    def kinematics(self, obs, v, scene, when):
        cfg = self.cfg
        frange = cfg.get("features_range")
        if not frange:
            frange = self.ranges.setdefault(id(v), envref.default_range(self.net, v))
        first, groups, doubt = envref.kinematics(self.net, scene, v, cfg, frange)
        count = cfg.get("vehicles_count", 5)
        if obs.shape != (count, len(first)):
            raise Violation("kinematics", "%s: shape %s instead of %s" % (when, obs.shape, (count, len(first))))
        self.row("kinematics", obs[0], first, when + ", observer")
        if doubt:
            self.ctx.probe("not judged")
            return
        self.ctx.probe("kinematic observations")
        n = min(count - 1, sum(len(g) for g in groups))
        self.ctx.probe("observed vehicles", n)
        if cfg.get("order") == "shuffled":
            self.anyorder(obs[1:], groups, count - 1, when)
            return
        at = 1
        for g in groups:  # vehicles equally near may come in any order
            left = list(g)
            for r in obs[at:at + len(g)]:
                hit = [i for i, w in enumerate(left) if np.allclose(r, w, atol=1e-6, rtol=1e-6)]
                if not hit:
                    self.row("kinematics", r, left[0], "%s, row %d" % (when, at))
                left.pop(hit[0])
            at += len(g)
        for i in range(at, count):
            self.row("kinematics", obs[i], np.zeros(len(first)), "%s, row %d" % (when, i))

    def anyorder(self, rows, groups, n, when):
        sure, maybe = [], []
        for g in groups:
            if len(sure) + len(g) <= n:
                sure += g
            else:
                maybe = g
                break
        if len(sure) < n and not maybe:
            sure += [np.zeros(rows.shape[1])] * (n - len(sure))
        rest = list(rows)
        for w in sure:
            hit = [i for i, r in enumerate(rest) if np.allclose(r, w, atol=1e-6)]
            if not hit:
                raise Violation("kinematics", "%s: no row %s among the shuffled %s" % (when, np.round(w, 5).tolist(), np.round(rows, 5).tolist()))
            rest.pop(hit[0])
        for r in rest:
            if not any(np.allclose(r, w, atol=1e-6) for w in maybe):
                raise Violation("kinematics", "%s: shuffled row %s is that of no near vehicle" % (when, np.round(r, 5).tolist()))

    def row(self, kind, got, want, when):
        if not np.allclose(got, want, atol=1e-6, rtol=1e-6):
            raise Violation(kind, "%s: %s instead of %s" % (when, np.round(got, 5).tolist(), np.round(want, 5).tolist()))

    def occupancy(self, obs, v, scene, when):
        cells, shape, doubt = envref.occupancy(self.net, scene, v, self.cfg)
        if obs.shape != shape:
            raise Violation("grid", "%s: shape %s instead of %s" % (when, obs.shape, shape))
        self.ctx.probe("occupancy grids")
        self.ctx.probe("occupied cells", len(cells))
        empty = np.ones(shape[1:], dtype=bool)
        for (j, i), vecs in cells.items():
            empty[j, i] = False
            if (j, i) in doubt:
                continue
            if not any(np.allclose(obs[:, j, i], w, atol=1e-6) for w in vecs):
                raise Violation("grid", "%s: cell row %d column %d holds %s instead of %s" % (
                    when, j, i, np.round(obs[:, j, i], 5).tolist(), np.round(vecs, 5).tolist()))
        for j, i in doubt:
            if 0 <= j < shape[1] and 0 <= i < shape[2]:
                empty[j, i] = False
        if np.abs(obs[:, empty]).sum() > 0:
            raise Violation("grid", "%s: an empty cell is shown as occupied" % when)

    def goal(self, obs, v, scene, when):
        b = world.base(self.env)
        names, scales = self.cfg["features"], self.cfg["scales"]

        def vec(o):
            f = dict(zip(["x", "y", "vx", "vy", "cos_h", "sin_h"], self.raw(o)))
            return np.array([f[n] / s for n, s in zip(names, scales)])
        self.ctx.probe("goal observations")
        for key, w in (("observation", vec(v)), ("achieved_goal", vec(v)), ("desired_goal", vec(b.goal))):
            self.row("goal", obs[key], w, "%s, %s" % (when, key))

    @staticmethod
    def raw(o):
        import math
        s, h = float(o.speed), float(o.heading)
        return [float(o.position[0]), float(o.position[1]), s * math.cos(h), s * math.sin(h), math.cos(h), math.sin(h)]

    def ttc(self, obs, v, scene, when):
        want, mask = envref.ttc(self.env, self.net, scene, v, self.cfg.get("horizon", 10))
        if obs.shape != want.shape:
            raise Violation("ttc", "%s: shape %s instead of %s" % (when, obs.shape, want.shape))
        self.ctx.probe("time-to-collision observations")
        self.ctx.probe("predicted collisions", int(((want > 0) & (want < 1)).sum()))
        bad = (np.abs(obs - want) > 1e-9) & ~mask
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            raise Violation("ttc", "%s: entry (speed, lane, time) %s is %s instead of %s" % (when, i, obs[i], want[i]))


def run(plan, ctx):
    box = {}
    spec = plan["spec"]

    def on_reset(env, obs):
        b = world.base(env)
        box["v"] = Views(ctx, env)
        box["v"].check(obs, b.road.vehicles, "%s, reset" % spec["env"])
        world.attach(env, ctx, after=lambda road, dt: box.update(last=list(road.vehicles)))

    def before(env, action):
        b = world.base(env)
        if plan["peek"]:
            box["v"].check(b.observation_type.observe(), b.road.vehicles, "%s, between decisions" % spec["env"])
        box["last"] = None

    def on_step(env, action, out):
        b = world.base(env)
        vehicles = b.road.vehicles
        if envref.kind(env) == "intersection":  # observed before the traffic leaves and enters
            vehicles = box["last"]
        box["v"].check(out[0], vehicles, "%s, decision %d" % (spec["env"], b.steps))
    if plan["again"] is not None:  # the second episode of the same environment
        env, obs = world.build_env(spec)
        env.step(world.decode(env.action_space, plan["again"]))
        env.seed(spec["seed"])
        on_reset(env, env.reset())
    stage.drive(plan, ctx, on_step, on_reset, before, lambda env: box.update(last=list(world.base(env).road.vehicles)))


def gen(rng, tier):
    p = GEN(rng, tier)
    cfg = p["spec"]["cfg"]
    if p["spec"]["env"] not in ("parking", "summon") and "observation" not in cfg:
        o = world.gen_obs(rng, p["spec"]["env"], cfg)
        if o:
            cfg["observation"] = o
    p["peek"] = rng.random() < 0.4
    p["again"] = rng.getrandbits(24) if rng.random() < 0.2 else None
    return p


STAGES = [k for k in stage.STAGES] + ["spawn", "spawn", "swap", "remove", "block"]
ENVS = ["highway", "highway", "highway", "merge", "parking", "summon", "roundabout", "two-way", "intersection", "intersection",
        "multi-intersection", "tuple-intersection", "custom", "custom"]
GEN = stage.gen(ENVS, kinds=STAGES, steps=(2, 5, 8), obs=None)


# ------------------------------------------------------------------------------------------------ stacked images
def gen_image(rng, tier):
    name = rng.choice(["highway", "highway", "merge", "roundabout", "two-way", "custom"])
    spec = world.gen_env(rng, [name], obs=False)
    cfg = spec["cfg"]
    if name == "highway":
        cfg["vehicles_count"] = rng.choice([1, 3, 5])
    w, h = rng.choice([(60, 60), (48, 30), (30, 48), (90, 24)])
    cfg.update(offscreen_rendering=True, screen_width=w, screen_height=h, scaling=rng.choice([1.5, 3.0]),
               observation={"type": "GrayscaleObservation", "weights": rng.choice([[0.2989, 0.5870, 0.1140], [1 / 3, 1 / 3, 1 / 3], [0, 0.25, 0.75], [1, 0, 0]]),
                            "stack_size": rng.choice([1, 2, 3, 4, 4]), "observation_shape": rng.choice([[w, h], [w, h], [h, w]])})
    ops = []
    for _ in range(rng.choice([3, 6, 9])):
        o = rng.choice(["step"] * 6 + ["stage", "stage", "render", "human", "close", "reset", "copy"])
        op = dict(op=o, a=rng.getrandbits(24))
        if o == "stage":
            op["event"] = stage.gen_stage(rng, 1, ["crash", "speed", "remove", "push", "crash-ego", "place", "spawn", "block", "swap"], count=1)[0]
        ops.append(op)
    ops.append(dict(op="step", a=rng.getrandbits(24)))
    return dict(spec=spec, ops=ops)


def run_image(plan, ctx):
    """Each image is the newest of the stack, behind those that were returned before it in the episode."""
    world.graphics()
    env, obs = world.build_env(plan["spec"])
    b = world.base(env)
    cfg = plan["spec"]["cfg"]
    o = cfg["observation"]
    w, h = cfg["screen_width"], cfg["screen_height"]
    shape, depth = tuple(o["observation_shape"]), o["stack_size"]

    def judge(obs, before, when):
        if obs.shape != shape + (depth,):
            raise Violation("image", "%s: shape %s instead of %s" % (when, obs.shape, shape + (depth,)))
        rgb = copy.deepcopy(b).render("rgb_array").astype(float)
        frame = sum(c * rgb[:, :, i] for i, c in enumerate(o["weights"]))  # a row for each row of pixels
        if frame.shape != shape:
            frame = frame.T                                              # declared as width, height
        if np.abs(obs[..., -1] - frame).max() > 1e-6:
            raise Violation("image", "%s: the newest of the stacked images, declared as %s of a screen of %d x %d, is not that of the scene (%d pixels differ)" % (
                when, shape, w, h, int((np.abs(obs[..., -1] - frame) > 1e-6).sum())))
        past = before[..., 1:] if before is not None else np.zeros(shape + (depth - 1,))
        if not np.array_equal(obs[..., :-1], past):
            raise Violation("stack", "%s: the older images of the stack of %d are not those returned before" % (when, depth))
        ctx.probe("stacked images")
        if before is not None and not np.array_equal(obs[..., -1], before[..., -1]):
            ctx.probe("images that changed")
        return obs.copy()
    last = judge(obs, None, "reset")
    for k, op in enumerate(plan["ops"]):
        when = "%s, operation %d" % (plan["spec"]["env"], k)
        if op["op"] == "step":
            out = env.step(world.decode(env.action_space, op["a"]))
            last = judge(out[0], last, when)
            ctx.event(world.step_sig(env, out))
            ctx.tick(1 / b.config["policy_frequency"])
        elif op["op"] == "reset":
            last = judge(env.reset(), None, when)
        elif op["op"] == "stage":
            stage.stage(b, op["event"], ctx)
        elif op["op"] == "copy":  # a planner tries something else
            c = copy.deepcopy(b)
            c.step(world.decode(env.action_space, op["a"]))
        elif op["op"] == "close":
            env.close()
            b.done = False
            ctx.fault("viewer closed")
        else:
            env.render("human" if op["op"] == "human" else "rgb_array")
            ctx.fault("rendered between decisions")
    ctx.state(world.abstract_state(env))


FAMILIES = {"episodes": (8, gen, run), "image": (1, gen_image, run_image)}
SHRINK = ["acts", "events", "ops"]
