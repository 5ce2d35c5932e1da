"""C05 One decision advances simulated time by exactly one policy period."""
import copy

from .. import envref, world
from ..core import Violation

ID = "C05"
QUICK_RUNS, THOROUGH_RUNS = 1680, 20000
RULE = "one case = one simulated episode: every call of act and step of every vehicle is recorded, and every tick is compared with an independently driven copy of the world."
REAL = ["environments", "Road", "vehicles", "action types"]
STUB = ["the viewer (a stand-in that enables the callback after every tick)"]


class Spy:
    """Records the order in which the entities of a road act and step."""

    def __init__(self, env):
        self.env = env
        self.log = []
        self.vs = list(world.base(env).road.vehicles)
        for i, v in enumerate(self.vs):
            v.act, v.step = self.act(i, v.act), self.step(i, v.step)

    def act(self, i, f):
        def act(action=None):
            self.log.append(("act", i) if action is None else ("do", i))
            return f(action)
        return act

    def step(self, i, f):
        def step(dt):
            self.log.append(("step", i, float(dt)))
            return f(dt)
        return step

    def remove(self):
        for v in self.vs:
            v.__dict__.pop("act", None)
            v.__dict__.pop("step", None)


def decisions_of(env, action, label="do"):
    """Which vehicles one joint decision concerns."""
    b = world.base(env)
    return [i for i, v in enumerate(b.road.vehicles) for c in b.controlled_vehicles if c is v]


def run(plan, ctx):
    env, _ = world.build_env(plan["spec"])
    b = world.base(env)
    sim, pol = b.config["simulation_frequency"], b.config["policy_frequency"]
    manual = plan["spec"]["cfg"].get("manual_control", False)
    ticks = []
    events = {e["t"]: e for e in plan.get("events", [])}
    period = int(sim // pol)
    total = 0
    for k, a in enumerate(plan["acts"]):
        action = world.decode(env.action_space, a)
        if k in events:
            inject(b, events[k], ctx)
        twin = copy.deepcopy(b)
        spy = Spy(env)
        ticks = []
        world.midstep(env, lambda: ticks.append(world.scene_sig(env)))
        world.arm(env)
        before = b.time, b.steps
        try:
            out = env.step(action)
        finally:
            spy.remove()
            world.unarm(env)
        n = len(ticks)
        total += n
        # 1. order, number and durations of the calls
        do = sorted(decisions_of_log(spy.log))
        want = [] if manual else sorted(decisions_of(twin, action))
        if do != want:
            raise Violation("action-count", "one decision was applied to the vehicles %s instead of %s" % (do, want))
        log = [e for e in spy.log]
        head = len([e for e in log if e[0] == "do"])
        if any(e[0] != "do" for e in log[:head]):
            raise Violation("action-late", "the action is applied after the physics started: %s" % log[:head + 2])
        log = log[head:]
        nv = len(twin.road.vehicles)
        for t in range(n):
            part = log[t * 2 * nv:(t + 1) * 2 * nv]
            acts, steps = part[:nv], part[nv:]
            if sorted(e[1] for e in acts) != list(range(nv)) or any(e[0] != "act" for e in acts):
                raise Violation("order", "tick %d: not every vehicle decides once before any moves: %s" % (t, part))
            if sorted(e[1] for e in steps) != list(range(nv)) or any(e[0] != "step" for e in steps):
                raise Violation("order", "tick %d: not every vehicle moves once: %s" % (t, part))
            if any(abs(e[2] - 1 / sim) > 1e-12 for e in steps):
                raise Violation("duration", "tick %d lasts %r s instead of 1/%s s" % (t, steps[0][2], sim))
        if len(log) != n * 2 * nv:
            raise Violation("order", "%d calls instead of %d" % (len(log), n * 2 * nv))
        # 2. the same decision on an independently driven copy, with the documented end of the episode
        if not manual:
            twin.action_type.act(action)
        decisions = before[1] + 1
        for t in range(n):
            twin.road.act()
            twin.road.step(1 / sim)
            ctx.tick(1 / sim)
            ctx.probe("ticks compared with the driven copy")
            if world.scene_sig(twin) != ticks[t]:
                raise Violation("tick-differs", "tick %d of decision %d does not follow from acting once and then moving" % (t, k))
            end = envref.terminal(twin, decisions)
            if end and t < n - 1:
                raise Violation("late-stop", "the episode ended at tick %d of decision %d, the simulation went on for %d ticks" % (t, k, n - 1 - t))
            if t == n - 1 and n < period:
                if end is False:
                    raise Violation("early-stop", "decision %d stopped after %d of %d ticks without an end" % (k, n, period))
                ctx.probe("early stops at the end of an episode")
        if n > period or n == 0:
            raise Violation("ticks", "decision %d: %d ticks instead of %d" % (k, n, period))
        if b.time - before[0] != n:
            raise Violation("clock", "env.time advanced by %r in %d ticks" % (b.time - before[0], n))
        if envref.kind(env) != "lane-keeping" and b.steps != decisions:
            raise Violation("clock", "env.steps went from %r to %r" % (before[1], b.steps))
        ctx.event(world.step_sig(env, out))
        ctx.state(world.abstract_state(env))
        ctx.probe("decisions")
        if n < period or envref.terminal(env, decisions) is not False:
            break
    if manual:
        ctx.probe("decisions ignored under manual control", len(plan["acts"]))


def decisions_of_log(log):
    return [e[1] for e in log if e[0] == "do"]


def inject(b, e, ctx):
    """A fault between two decisions."""
    vs = b.road.vehicles
    if e["what"] == "crash":
        vs[e["i"] % len(vs)].crashed = True
    elif e["what"] == "speed":
        vs[e["i"] % len(vs)].speed = e["v"]
    elif e["what"] == "remove":
        others = [v for v in vs if not any(v is c for c in b.controlled_vehicles)]
        if not others:
            return
        b.road.vehicles.remove(others[e["i"] % len(others)])
    elif e["what"] == "push":
        v = vs[e["i"] % len(vs)]
        v.position = v.position + e["d"]
        v.on_state_update()
    ctx.fault(e["what"])


FREQS = [(15, 1), (15, 5), (5, 1), (10, 2), (20, 5), (7, 2), (10, 3), (15, 4), (5, 5), (20, 1), (9, 2), (10, 10)]


def gen(rng, tier):
    spec = world.gen_env(rng, ["highway", "merge", "parking", "summon", "roundabout", "two-way", "intersection",
                               "multi-intersection", "lane-keeping", "custom"], obs=False, freqs=False)
    if spec["env"] != "lane-keeping" or rng.random() < 0.5:
        spec["cfg"]["simulation_frequency"], spec["cfg"]["policy_frequency"] = rng.choice(FREQS)
    if spec["env"] == "highway":
        spec["cfg"]["vehicles_density"] = rng.choice([1, 2, 4])
    if rng.random() < 0.12 and spec["env"] != "lane-keeping":  # which has its own step, without manual control
        spec["cfg"]["manual_control"] = True
    if "duration" not in spec["cfg"] and rng.random() < 0.3:
        spec["cfg"]["duration"] = rng.choice([1, 2, 4])
    n = rng.choice([2, 4, 8])
    events = []
    if rng.random() < 0.5:
        k = rng.choice(["crash", "speed", "remove", "push"])
        events.append(dict(t=rng.randrange(1, n), what=k, i=rng.choice([0, 1, 2]), v=rng.choice([0.5, 5, 20, 35]),
                           d=round(rng.uniform(-4, 4), 2)))
    return dict(spec=spec, acts=world.gen_acts(rng, n, 0.4), events=events)


FAMILIES = {"env": (1, gen, run)}
