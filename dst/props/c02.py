"""C02 Environments in one process do not influence each other."""
import random
import sys
import threading

from .. import boot, core, world
from ..core import Violation
from . import traces

ID = "C02"
QUICK_RUNS, THOROUGH_RUNS = 480, 20000
RULE = "one case = one interleaving of the operations of several environments (between operations, in the middle of steps, or between threads at function calls or between lines); each trace is compared with that of the same operations executed alone in another process."
REAL = ["all of highway_env", "threads (released one at a time by the simulator)"]
STUB = ["the viewer in the middle of steps"]
SHRINK = ["ops", "programs", "order", "nested"]


def warmed(plan):
    if plan.get("warm", True):
        specs = [p["spec"] for p in plan["programs"]]
        # programs may configure LinearVehicle traffic later on
        world.warm(*specs, *[dict(s, cfg=dict(other_vehicles_type=world.vehicle_path("LinearVehicle"))) for s in specs])


def alone(plan, i):
    """The trace of the i-th program alone in this process."""
    warmed(plan)
    p = plan["programs"][i]
    prog = traces.Program(p["spec"])
    for op in p["ops"]:
        prog.do(op)
    return prog.trace


def expected(plan):
    want = []
    for i in range(len(plan["programs"])):
        t = core.in_child(lambda: alone(plan, i), 120)
        if not isinstance(t, list):
            raise RuntimeError("program %d alone: %s" % (i, t))
        want.append(t)
    return want


def judge(plan, ctx, want, progs, how):
    for i, p in enumerate(progs):
        ctx.probe("traces compared")
        ctx.event(want[i])
        world.compare("interference", want[i], traces.cut(p.trace), "%s (environment %d) %s" % (p.spec["env"], i, how))
        ctx.tick(1.0, len(p.trace))
        if p.env is not None:
            ctx.state(world.abstract_state(p.env))


def interleaved(plan, ctx):
    """Operations in a seeded order; some in the middle of a step of another environment."""
    want = expected(plan)
    warmed(plan)
    progs = [traces.Program(p["spec"]) for p in plan["programs"]]
    left = [list(p["ops"]) for p in plan["programs"]]
    busy = set()
    nested = {(n["step"], n["tick"]): n["i"] for n in plan["nested"]}
    nsteps = [0]

    def advance(i, depth=0):
        if not left[i] or i in busy:
            return
        op = left[i].pop(0)
        busy.add(i)
        mid = None
        if op["op"] == "step":
            k, tick = nsteps[0], [0]
            nsteps[0] += 1
            if any(s == k for s, _ in nested):
                def mid():
                    j = nested.get((k, tick[0]))
                    tick[0] += 1
                    if j is not None and depth < 3:
                        j %= len(progs)
                        if j not in busy and left[j]:
                            ctx.fault("operation in the middle of another's step")
                            advance(j, depth + 1)
        try:
            progs[i].do(op, mid)
        finally:
            busy.discard(i)

    last = None
    for i in plan["order"]:
        i %= len(progs)
        if left[i]:
            if last is not None and last != i:
                ctx.fault("switch between operations")
            last = i
        advance(i)
    for i in range(len(progs)):
        while left[i]:
            advance(i)
    judge(plan, ctx, want, progs, "interleaved with others")


class Baton:
    """Runs threads one at a time; at calls of functions of highway_env it may hand over to another."""

    def __init__(self, n, seed, rate, ctx, lines=None):
        self.rng = random.Random(seed)
        self.lines = lines
        self.rate, self.ctx = rate, ctx
        self.locks = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.home = boot.REPO
        self.switches = 0
        self.finished = threading.Semaphore(0)
        self.errors = []

    def hand_over(self, me):
        others = sorted(self.alive - {me})
        if not others:
            return
        nxt = self.rng.choice(others)
        self.switches += 1
        self.locks[nxt].release()
        self.locks[me].acquire()

    def body(self, me, fn):
        self.locks[me].acquire()
        try:
            def trace(frame, event, arg):
                if not frame.f_code.co_filename.startswith(self.home):
                    return None
                if self.rng.random() < (self.rate if event == "call" else self.lines or 0):
                    self.hand_over(me)
                return trace if self.lines else None
            sys.settrace(trace)
            try:
                fn()
            finally:
                sys.settrace(None)
        except BaseException as e:  # noqa
            self.errors.append(e)
        self.alive.discard(me)
        if self.alive:
            self.locks[self.rng.choice(sorted(self.alive))].release()
        else:
            self.finished.release()

    def run(self, fns):
        ts = [threading.Thread(target=self.body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in ts:
            t.start()
        self.locks[self.rng.randrange(len(ts))].release()
        self.finished.acquire()
        for t in ts:
            t.join()
        self.ctx.fault("switch between threads", self.switches)
        if self.errors:
            raise self.errors[0]


def threaded(plan, ctx):
    want = expected(plan)
    warmed(plan)
    progs = [traces.Program(p["spec"]) for p in plan["programs"]]

    def body(i):
        def go():
            for op in plan["programs"][i]["ops"]:
                progs[i].do(op)
        return go
    Baton(len(progs), plan["sched"], plan["rate"], ctx, plan.get("lines")).run([body(i) for i in range(len(progs))])
    judge(plan, ctx, want, progs, "in one of %d threads" % len(progs))


CONTINUOUS = dict(action=world.CONTINUOUS)
ENVS = ["highway", "merge", "parking", "roundabout", "two-way", "intersection", "multi-intersection", "lane-keeping", "summon", "custom"]


def specs(rng, n, envs=ENVS):
    out = [traces.gen_spec(rng, envs) for _ in range(n)]
    if rng.random() < 0.35:  # the same kind of environment, configured differently
        for s in out[1:]:
            s.update(traces.gen_spec(rng, [out[0]["env"]]))
    if rng.random() < 0.3:  # the same observation everywhere
        o = world.gen_obs(rng, "highway", CONTINUOUS)
        for s in out:
            if s["env"] not in ("parking", "summon", "lane-keeping", "multi-intersection") and "Multi" not in str(s["cfg"]):
                s["cfg"]["observation"] = world.clone(o)
    return out


def gen_interleaved(rng, tier):
    n = rng.choice([2, 2, 3])
    programs = [dict(spec=s, ops=traces.gen_program(rng, s, rng.choice([3, 6, 10]))) for s in specs(rng, n)]
    total = sum(len(p["ops"]) for p in programs)
    sticky, order, cur = rng.choice([0.2, 0.6]), [], rng.randrange(n)
    for _ in range(total * 2):
        if rng.random() > sticky:
            cur = rng.randrange(n)
        order.append(cur)
    nested = [dict(step=rng.randrange(12), tick=rng.randrange(5), i=rng.randrange(n)) for _ in range(rng.choice([0, 2, 6]))]
    return dict(programs=programs, order=order, nested=nested)


def gen_threads(rng, tier):
    n = rng.choice([2, 2, 3])
    envs = rng.sample(["merge", "parking", "roundabout", "two-way", "lane-keeping", "intersection", "highway", "custom"], 3)
    ss = specs(rng, n, envs)
    for s in ss:
        if s["env"] == "highway":
            s["cfg"]["vehicles_count"] = 2
        if s["env"] == "intersection":
            s["cfg"]["initial_vehicle_count"] = 1
    return dict(programs=[dict(spec=s, ops=traces.gen_program(rng, s, rng.choice([2, 4]), render=False)) for s in ss],
                sched=rng.getrandbits(30), rate=rng.choice([0.001, 0.01, 0.05]), lines=rng.choice([None, 0.0005, 0.003, 0.01]))


def gen_observers(rng, tier):
    """Environments that observe the same way, from several threads."""
    n = rng.choice([2, 2, 3])
    o = world.gen_obs(rng, "highway", CONTINUOUS)
    if o["type"] == "Kinematics":
        o.pop("order", None)
    ps = []
    for s in [traces.gen_spec(rng, ["merge", "roundabout", "two-way", "highway"]) for _ in range(n)]:
        s["cfg"]["observation"] = world.clone(o)
        s["cfg"].pop("action", None)
        ops = [dict(op="make")]
        for _ in range(rng.choice([2, 4])):
            ops.append(dict(op="step", a=rng.getrandbits(24)) if rng.random() < 0.3 else dict(op="observe", n=rng.choice([1, 4])))
        ps.append(dict(spec=s, ops=ops))
    return dict(programs=ps, sched=rng.getrandbits(30), rate=rng.choice([0.001, 0.01, 0.05]), lines=rng.choice([0.003, 0.01, 0.03]))


FAMILIES = {"interleaved": (3, gen_interleaved, interleaved), "threads": (1, gen_threads, threaded),
            "observers": (1, gen_observers, threaded)}
