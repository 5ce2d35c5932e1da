"""C19 Keyboard control maps key events to decisions exactly."""
import numpy as np

from .. import envref, ref, world
from ..core import Violation, pin
from . import c11, c18, stage, traces

ID = "C19"
QUICK_RUNS, THOROUGH_RUNS = 1320, 40000
RULE = "one case = one environment driven under planned window events delivered at arbitrary ticks; the state of every vehicle is compared before and after each delivered batch with the documented effect of its events in order; or two deliveries that must be equivalent (with and without irrelevant events, in one batch or one by one) are driven and compared bit by bit."
REAL = ["environments", "EnvViewer and its event handling", "action types", "controlled vehicles", "Road"]
STUB = ["SDL's dummy video driver", "the pygame event queue (planned events)", "pygame's clock"]
ASSUMPTIONS = ["Releasing a key that is not held may or may not renew the (centred) command.",
               "Keys are documented for a single discrete or continuous action; multi-agent environments are not judged."]

ARROWS = ["RIGHT", "LEFT", "UP", "DOWN"]
LABEL = dict(RIGHT=("FASTER", "longitudinal"), LEFT=("SLOWER", "longitudinal"), DOWN=("LANE_RIGHT", "lateral"), UP=("LANE_LEFT", "lateral"))
HOLD = dict(RIGHT=("lateral", 0.7), LEFT=("lateral", -0.7), UP=("longitudinal", 0.7), DOWN=("longitudinal", -0.7))
OTHER = ["down-l", "down-o", "down-m", "down-k", "up-l", "down-a", "down-SPACE", "up-RETURN", "down-w", "down-KP8", "down-TAB", "mouse", "button"]


def full(cfg):
    """Enabled axes of an action configuration."""
    return dict(longitudinal=cfg.get("longitudinal", True), lateral=cfg.get("lateral", True))


def relevant(cfg, name):
    """(label) or (axis, value) of an event that has an effect, or None."""
    if "-" not in name:
        return None
    kind, key = name.split("-")
    if key not in ARROWS:
        return None
    if cfg["type"] == "DiscreteMetaAction":
        label, axis = LABEL[key]
        return label if kind == "down" and full(cfg)[axis] else None
    axis, value = HOLD[key]
    return (axis, value if kind == "down" else 0.0) if full(cfg)[axis] else None


class Proxy:
    pass


class Judge:
    """Compares the scene before and after every delivered batch of events."""

    def __init__(self, env, ctx, queue, batches):
        self.env, self.b, self.ctx, self.queue = env, world.base(env), ctx, queue
        self.batches = batches
        self.calls = 0
        self.before = None
        self.cfg = c11.config_of(self.b)
        self.held = None
        queue.get = self.get

    def get(self):
        self.verify()
        names = self.batches.get(str(self.calls), [])
        self.calls += 1
        if names:
            self.ctx.fault("batch of window events")
            for n in names:
                self.ctx.fault("event " + n.split("-")[0], 1)
        self.names = names
        self.before = self.snapshot()
        self.vehicle = self.b.vehicle
        return [self.queue.event(n) for n in names]

    def snapshot(self):
        return {id(v): (v, world.vehicle_sig(v)[1:7], world.index3(getattr(v, "target_lane_index", None)),
                        getattr(v, "target_speed", None), tuple(sorted((k, float(x)) for k, x in v.action.items())),
                        repr(getattr(v, "route", None))) for v in self.b.road.vehicles}

    def reset(self):
        self.before = None
        self.held = None

    def acted(self, action):
        """The environment has applied an action."""
        if self.cfg["type"] == "ContinuousAction":
            a = [float(x) for x in np.asarray(action, dtype=float).ravel()]
            self.held = [min(max(x, -1), 1) for x in a] if self.cfg.get("clip", True) else a

    def verify(self, population=True):
        """Before anything else happens to the scene: is it what the last batch makes of it?"""
        if self.before is None:
            return
        before, self.before = self.before, None
        now = self.snapshot()
        what = "after the events %s" % (self.names,)
        if population and list(now) != list(before):
            raise Violation("side-effect", "%s the population of the road has changed" % what)
        for k, old in before.items():
            if k not in now:
                continue  # cleared at the end of the decision
            new = now[k]
            if old[1] != new[1]:
                raise Violation("side-effect", "%s the state of a vehicle jumped from %s to %s" % (what, old[1], new[1]))
            if old[0] is not self.vehicle and old[2:] != new[2:]:
                raise Violation("side-effect", "%s the set-points of another vehicle changed" % what)
        v = self.vehicle
        old, new = before[id(v)], now[id(v)]
        effects = [e for e in (relevant(self.cfg, n) for n in self.names) if e is not None]
        if self.names:
            self.ctx.probe("batches judged")
        if not effects:
            if self.names:
                self.ctx.probe("batches without effect judged")
            if old[2:] != new[2:]:
                raise Violation("irrelevant", "%s, none of which has a documented effect (%s), the ego vehicle's set-points or commands went from %s to %s" % (
                    what, self.cfg, old[2:], new[2:]))
            return
        if self.cfg["type"] == "DiscreteMetaAction":
            self.discrete(v, effects, old, what)
        else:
            self.continuous(v, effects, old, what)

    def discrete(self, v, effects, old, what):
        net = ref.Net(self.b.road.network)
        speeds = envref.speeds(self.env)
        cands, lanes_known = {(old[2], old[3])}, True
        for label in effects:
            nxt = set()
            for lane, speed in cands:
                p = Proxy()
                p.position, p.speed, p.target_lane_index, p.target_speed = v.position, v.speed, lane, speed
                p.route = getattr(v, "route", None)
                lanes = c11.expected_lanes(net, p, label)
                if lanes is None:
                    lanes_known, lanes = False, [lane]
                for l in lanes:
                    for s in c11.expected_speeds(p, label, speeds):
                        nxt.add((l, s))
            cands = nxt
            self.ctx.probe("key " + label)
        got = (c11.norm(v.target_lane_index), v.target_speed)
        if not any((not lanes_known or c11.norm(c[0]) == got[0]) and abs(c[1] - got[1]) < 1e-9 for c in cands):
            raise Violation("discrete", "%s at %.3f m/s with target lane %s and speed %.3f, the set-points are %s instead of %s" % (
                what, v.speed, old[2], old[3], got, sorted(cands, key=str)))
        if got[0] != c11.norm(old[2]):
            self.ctx.probe("lane changed by keys")
        if got[1] != old[3]:
            self.ctx.probe("speed changed by keys")

    def continuous(self, v, effects, old, what):
        axes = full(self.cfg)
        names = [a for a in ("longitudinal", "lateral") if axes[a]]
        known = self.held is not None
        start = list(self.held) if known else [0.0] * len(names)
        a = list(start)
        for axis, value in effects:
            a[names.index(axis)] = value
            self.ctx.probe("key %s %g" % (axis, value))
        want = c11.mapped(self.cfg, a)
        cmd = dict(old[4])
        got = {c: float(v.action[c]) for c in ("acceleration", "steering")}
        same = all(abs(x - y) < 1e-6 for x, y in zip(a, start))  # float32 actions
        axis_of = dict(acceleration="longitudinal", steering="lateral")
        touched = {x for x, _ in effects}

        def fine(c):
            if abs(got[c] - want[c]) < 1e-5:
                return True
            if same and got[c] == cmd.get(c):
                return True  # nothing new was pressed
            return not known and axis_of[c] not in touched and got[c] == cmd.get(c)
        for c in got:
            if not fine(c):
                raise Violation("continuous", "%s with the controls at %s, the %s command is %r instead of %r (%s)" % (
                    what, start, c, got[c], want[c], self.cfg))
        if known or not same:
            self.held = a
        self.ctx.probe("commands judged")


def gen_spec(rng, names=("highway", "highway", "merge", "roundabout", "two-way", "intersection", "parking", "summon", "lane-keeping")):
    name = rng.choice(list(names))
    spec = world.gen_env(rng, [name], obs=False)
    cfg = spec["cfg"]
    if name == "highway":
        cfg["vehicles_count"] = rng.choice([1, 3, 5])
        if rng.random() < 0.5:
            cfg["action"] = world.gen_action(rng, "highway")
    if name == "lane-keeping":
        cfg.clear()
    elif (cfg.get("action") or {}).get("type") == "ContinuousAction" and rng.random() < 0.15:
        cfg["action"]["clip"] = False
    cfg.update(screen_width=60, screen_height=40, scaling=1.0, offscreen_rendering=False)
    if name != "lane-keeping" and rng.random() < 0.65:
        cfg["manual_control"] = True
    return spec


def gen_name(rng, bias):
    r = rng.random()
    if r < bias:
        return rng.choice(["down", "down", "up"]) + "-" + rng.choice(ARROWS)
    return rng.choice(OTHER)


def gen_batches(rng, n, bias=None):
    bias = rng.choice([0.5, 0.8, 1.0]) if bias is None else bias
    out = {}
    for _ in range(rng.choice([1, 3, 8, 20])):
        out.setdefault(str(rng.randrange(n)), []).extend(gen_name(rng, bias) for _ in range(rng.choice([1, 1, 1, 2, 5])))
    return out


def gen_judge(rng, tier):
    spec = gen_spec(rng)
    n = rng.choice([2, 5, 9])
    p = dict(spec=spec, acts=world.gen_acts(rng, n, 0.4), batches=gen_batches(rng, n * rng.choice([1, 4, 12]) + 1), events=[],
             how=rng.choice(["auto", "auto", "callback", "direct", "late"]), k=rng.getrandbits(16),
             resets=[rng.randrange(n)] if rng.random() < 0.3 else [], quit=rng.random() < 0.1,
             form=rng.choice(["", "", "double", "integer", "reused"]))
    if spec["env"] != "lane-keeping" and rng.random() < 0.4:
        p["events"] = stage.gen_stage(rng, n, ["speed", "push", "place", "crash-ego", "off-road", "remove", "faster"], count=rng.choice([1, 2]))
        for e in p["events"]:
            e["tick"] = None
    return p


def run_judge(plan, ctx):
    world.graphics()
    q = c18.Queue(ctx)
    env, _ = world.build_env(plan["spec"])
    b = world.base(env)
    j = Judge(env, ctx, q, plan["batches"])
    manual = b.config["manual_control"] and plan["spec"]["env"] != "lane-keeping"
    fresh = []

    def before_act(road):
        j.verify()
        if fresh:  # the agent's action was applied just now
            j.acted(fresh.pop())
        command = b.vehicle.action if j.cfg["type"] == "ContinuousAction" else None
        if manual and command is not None:
            hold(j, b, ctx)

    def watch():
        world.attach(env, ctx, before_act=before_act)
    watch()
    for k, a in enumerate(plan["acts"]):
        if k in plan["resets"]:
            env.reset()
            j.reset()
            watch()
        for e in plan["events"]:
            if e["t"] == k:
                stage.stage(b, e, ctx)
        if plan["how"] == "callback":
            n = [0]

            def cb():
                n[0] += 1
                if (plan["k"] >> (n[0] % 16)) & 1:
                    env.render("human")
                    j.verify()
            b.automatic_rendering_callback = cb
        if plan["how"] != "late" or k % 3 == 0:
            env.render("human")
            j.verify()
        if plan["how"] == "direct":
            env.render("rgb_array")
            j.verify()
            b.automatic_rendering_callback = lambda: None
        action = world.decode(env.action_space, a)
        form = plan.get("form") if isinstance(action, np.ndarray) else ""
        if form == "integer":  # the agents may pass any array of numbers
            action = np.rint(action).astype(int)
        elif form == "double":
            action = action.astype(float)
        fresh[:] = [] if manual else [np.array(action)]
        out = env.step(action)
        j.verify(population=False)
        if form == "reused":
            action.fill(0.5)
            ctx.fault("array of the agent overwritten")
        ctx.event(world.step_sig(env, out))
        ctx.state(world.abstract_state(env))
        if c11.over(out):
            break
    if plan["quit"]:
        j.batches = {str(j.calls): ["mouse", "quit", "down-RIGHT" if k % 2 else "up-l"]}
        env.render("human")
        j.verify()
        ctx.fault("window closed by the user")


def hold(j, b, ctx):
    """Between two batches the commands stay as they were set, unless the vehicle crashed or is beyond its speed range."""
    if j.held is None:
        return
    v = b.vehicle
    if v.crashed or abs(v.speed) > 0.9 * v.MAX_SPEED:
        j.held_off = v
        return
    if getattr(j, "held_off", None) is v:
        return
    want = c11.mapped(j.cfg, j.held)
    ctx.probe("held commands judged")
    for c in want:
        if not abs(float(v.action[c]) - want[c]) < 1e-5:
            raise Violation("hold", "with the controls held at %s the %s command became %r instead of staying %r" % (
                j.held, c, float(v.action[c]), want[c]))


# ------------------------------------------------------------------------------------------ equivalent deliveries
def gen_twin(rng, tier):
    spec = gen_spec(rng)
    n = rng.choice([2, 4, 7])
    calls = n * rng.choice([1, 4, 12]) + 1
    kind = rng.choice(["noise", "noise", "split"])
    p = dict(spec=spec, kind=kind, acts=world.gen_acts(rng, n, 0.4))
    if kind == "split":
        p["bursts"] = [[gen_name(rng, 0.8) for _ in range(rng.choice([0, 1, 2, 5]))] for _ in range(n)]
    else:
        p["batches"] = gen_batches(rng, calls, 1.0)
        noise = gen_batches(rng, calls, 0.5)
        p["noise"] = {k: [[n, rng.randrange(6)] for n in v] for k, v in noise.items()}
    return p


def drive(plan, ctx, variant):
    spec = plan["spec"]
    env = world.make_env(world.clone(spec))
    env.seed(spec["seed"])
    q = c18.Queue(ctx)
    trace = [traces.first(env, env.reset())]
    b = world.base(env)
    cfg = c11.config_of(b)
    calls = [0]

    def get():
        k = str(calls[0])
        calls[0] += 1
        if plan["kind"] == "split":
            return [q.event(n) for n in (feed.pop(0) if feed else [])]
        names = list(plan["batches"].get(k, []))
        if variant:
            for n, at in plan["noise"].get(k, []):
                if relevant(cfg, n) is None:
                    names.insert(min(at, len(names)), n)
                    ctx.fault("irrelevant event")
        return [q.event(n) for n in names]
    feed = []
    q.get = get
    for i, a in enumerate(plan["acts"]):
        if plan["kind"] == "split":
            burst = plan["bursts"][i % len(plan["bursts"])] if plan["bursts"] else []
            if variant:  # one by one, with frames in between
                feed[:] = [[n] for n in burst]
                for n in burst:
                    ctx.fault("event delivered alone")
                    env.render("human")
            else:
                feed[:] = [burst]
                env.render("human")
        else:
            env.render("human")
        out = env.step(world.decode(env.action_space, a))
        trace.append(world.step_sig(env, out))
        ctx.tick(1 / b.config["policy_frequency"])
        if c11.over(out):
            break
    return trace, env


def run_twin(plan, ctx):
    world.graphics()
    world.warm(plan["spec"])
    pin(plan["seed"])
    one, env = drive(plan, ctx, False)
    pin(plan["seed"])
    two, env = drive(plan, ctx, True)
    ctx.event(one)
    ctx.probe("pairs of deliveries: " + plan["kind"])
    ctx.state(world.abstract_state(env))
    world.compare("delivery", one, two, "irrelevant events added" if plan["kind"] == "noise" else "events delivered one by one")


SHRINK = ["acts", "events", "bursts"]
SHRINK_DICTS = ["cfg", "batches", "noise"]
FAMILIES = {"judge": (3, gen_judge, run_judge), "twin": (1, gen_twin, run_twin)}
