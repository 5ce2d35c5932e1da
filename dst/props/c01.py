"""C01 A seed fully determines every episode."""
import copy
import json
import subprocess

from .. import boot, core, world
from ..core import Violation
from . import common, traces

ID = "C01"
QUICK_RUNS, THOROUGH_RUNS = 800, 20000
RULE = "one case = one seeded episode executed in two processes, one of them perturbed; all observations, rewards, flags, infos and vehicle states are compared bit by bit."
REAL = ["all of highway_env", "gym spaces and seeding"]
STUB = ["OS entropy, process clocks (under the perturbations)"]
SHRINK = ["acts", "before", "events", "history", "calls"]


def warmed(plan):
    if plan.get("warm", True):
        world.warm(plan["spec"], *plan.get("others", []))


def clean(plan):
    warmed(plan)
    env = world.make_env(plan["spec"])
    return traces.episode(env, plan["spec"]["seed"], plan["acts"])


def run(plan, ctx):
    want = core.in_child(lambda: clean(plan), 100)
    if not isinstance(want, list):
        raise core.Violation("no-progress", "the episode did not finish") if want is None else RuntimeError("clean episode: %s" % want)
    warmed(plan)
    others = [None] * len(plan.get("others", []))
    steps = [0]

    def other(i, k):
        if not others:
            return
        i %= len(others)
        if others[i] is None:
            others[i] = world.build_env(plan["others"][i])[0]
        o = others[i]
        o.step(world.decode(o.action_space, k))
        steps[0] += 1
        if k % 5 == 0:
            o.reset()

    def event(e, env):
        kind = e["what"]
        if kind in traces.AMBIENT:
            traces.ambient(kind, e["k"])
        elif kind == "other":
            other(e["i"], e["k"])
        elif kind == "render":
            world.graphics()
            world.base(env).configure({"offscreen_rendering": True})
            env.render(mode="rgb_array")
        elif kind == "copy":
            c = copy.deepcopy(world.base(env))
            c.step(world.decode(c.action_space, e["k"]))
            if e["k"] % 3 == 0:
                c.reset()
        elif kind == "space":
            env.action_space.sample()
            env.observation_space.sample()
        ctx.fault(kind)

    for e in plan["before"]:
        event(e, None)
    env = world.make_env(plan["spec"])
    if plan["history"]:
        env.reset()
    for h in plan["history"]:  # what this environment did before being seeded again
        if h["what"] == "reset":
            env.reset()
        elif h["what"] == "seed":
            env.seed(h["k"])
        elif h["what"] == "step":
            env.step(world.decode(env.action_space, h["k"]))
        else:
            event(h, env)
        ctx.fault("history:" + h["what"])
    between, mid = {}, {}
    for e in plan["events"]:
        (mid if e.get("tick") is not None else between).setdefault(e["t"], []).append(e)

    def on_between(k):
        for e in between.get(k, []):
            event(e, env)

    def on_mid(k, tick):
        for e in mid.get(k, []):
            if e["tick"] == tick:
                event(e, env)

    got = traces.episode(env, plan["spec"]["seed"], plan["acts"], on_between, on_mid if mid else None)
    judge(plan, ctx, want, got)
    ctx.state(world.abstract_state(env))


def judge(plan, ctx, want, got):
    b = plan["spec"]
    ctx.probe("steps compared", len(plan["acts"]))
    ctx.tick(1 / b["cfg"].get("policy_frequency", 1), len(plan["acts"]))
    ctx.event(want)
    world.compare("not-determined", traces.cut(want), traces.cut(got), "%s with seed %s" % (b["env"], b["seed"]))


def fresh(plan, ctx):
    """The same episode in a new interpreter with another string-hash seed and other process-wide state."""
    want = core.in_child(lambda: clean(plan), 100)
    if not isinstance(want, list):
        raise RuntimeError("clean episode: %s" % want)
    code = ("import json,sys\nfrom dst import boot, core\nboot.load()\nfrom dst.props import c01\n"
            "plan=json.load(sys.stdin)\ncore.pin(plan['k'])\nprint('TRACE'+json.dumps(c01.clean(plan),default=repr))\n")
    p = subprocess.run([boot.PYTHON, "-B", "-c", code], input=json.dumps(plan), env=boot.clean_environ(plan["hashseed"]),
                       cwd=boot.VERIF, capture_output=True, text=True, timeout=140)
    lines = [l for l in p.stdout.splitlines() if l.startswith("TRACE")]
    if not lines:
        raise RuntimeError("the fresh interpreter failed: " + p.stderr[-1500:])
    ctx.fault("other string-hash seed")
    judge(plan, ctx, want, json.loads(lines[0][5:]))


def spec_of(rng):
    if rng.random() < 0.25:
        i = rng.choice([i for i in traces.IDS if i != "highway-v0"])
        return dict(env=traces.IDS[i], id=i, cfg={}, seed=rng.getrandbits(30))
    return traces.gen_spec(rng)


def steps(spec, rng):
    n = rng.choice([1, 3, 6, 10])
    if spec["env"] in ("roundabout", "intersection", "multi-intersection", "tuple-intersection", "summon", "parking"):
        n += rng.choice([0, 4])
    return 2 if "repeat" in spec["env"] else n


def gen(rng, tier):
    spec = spec_of(rng)
    n = steps(spec, rng)
    kinds = rng.sample(traces.AMBIENT + ["other", "render", "copy", "space"], rng.randint(1, 5))
    others = [traces.gen_spec(rng, ["merge", "parking", "roundabout", "two-way", "lane-keeping", "intersection", "highway"])
              for _ in range(rng.choice([1, 1, 2]))] if "other" in kinds else []

    def ev(kinds):
        return dict(what=rng.choice(kinds), k=rng.getrandbits(20), i=rng.randrange(2))
    amb = [k for k in kinds if k in traces.AMBIENT + ["other"]] or ["reseed"]
    before = [ev(amb) for _ in range(rng.randrange(3))]
    history = []
    if rng.random() < 0.5:
        for _ in range(rng.randrange(1, 5)):
            history.append(ev(["reset", "step", "step", "seed"] + [k for k in kinds if k != "other"]))
    events = [dict(ev(kinds), t=rng.randrange(n)) for _ in range(rng.randrange(1, 6))]
    for _ in range(rng.randrange(3)):
        events.append(dict(ev(amb), t=rng.randrange(n), tick=rng.randrange(6)))
    return dict(spec=spec, others=others, acts=world.gen_acts(rng, n, 0.3), before=before, history=history, events=events)


def gen_fresh(rng, tier):
    spec = spec_of(rng)
    return dict(spec=spec, acts=world.gen_acts(rng, steps(spec, rng), 0.3), k=rng.getrandbits(30),
                hashseed=rng.randrange(1, 4000000))


# ------------------------------------------------------------------------------------- roads and vehicles by themselves
def drive_road(plan, ctx=None, perturb=False):
    """A road with its own generator, and library calls that draw from it."""
    from highway_env.vehicle.kinematics import Vehicle
    from highway_env.vehicle.behavior import IDMVehicle, LinearVehicle
    core.pin(plan["pin2"] if perturb else plan["pin1"])
    w = world.World(plan["world"], ctx or core.Ctx())
    rng = w.road.np_random
    trace = []
    events = {}
    for e in plan["calls"]:
        events.setdefault(e["t"], []).append(e)

    def before(w):
        for e in events.get(w.t, []):
            v = w.vehicle(e["i"])
            if e["what"] in traces.AMBIENT:
                if perturb:
                    traces.ambient(e["what"], e["k"])
                    ctx.fault(e["what"])
            elif e["what"] == "create":
                cls = [Vehicle, IDMVehicle, LinearVehicle][e["k"] % 3]
                speed = [None, 10.0][e["k"] % 2]
                if e["k"] % 5 == 0:
                    w.road.vehicles.append(cls.create_random(w.road, speed=speed, lane_id=0, spacing=1.5))
                else:
                    w.road.vehicles.append(cls.create_random(w.road, speed=speed))
            elif v is None:
                continue
            elif e["what"] == "behavior":
                if hasattr(v, "randomize_behavior"):
                    v.randomize_behavior()
            elif e["what"] == "route":
                if hasattr(v, "set_route_at_intersection"):
                    v.set_route_at_intersection(["random", 0, 1][e["k"] % 3])

    def after(w):
        trace.append(world.h8([world.vehicle_sig(v) for v in w.road.vehicles] +
                              [str([world.index3(r) for r in getattr(v, "route", None) or []]) for v in w.road.vehicles]))
    w.run(plan["ticks"], plan["dt"], before_act=before, after=after)
    trace.append(world.h8([rng.get_state()[1].tobytes(), rng.get_state()[2]]))
    return trace, w


def road_run(plan, ctx):
    want, _ = drive_road(plan)
    got, w = drive_road(plan, ctx, perturb=True)
    ctx.probe("ticks compared", len(want))
    ctx.state(w.abstract())
    world.compare("not-determined", want, got, "a %s road with generator seed %s" % (plan["world"]["road"]["kind"], plan["world"]["seed"]))


def gen_road_run(rng, tier):
    ticks = rng.choice([20, 60, 120])
    p = common.gen_mixed(rng, tier, ticks=ticks, kinds=["push", "crash", "tspeed", "spawn", "remove", "mute", "retarget"],
                         mixes=common.MIXES + [["IDMVehicle"], ["LinearVehicle"]])
    if rng.random() < 0.6:  # branching roads: the next one is drawn
        road = world.gen_road(rng, ("fork", "fork", "web"))
        classes = rng.choice([["IDMVehicle"], ["LinearVehicle", "IDMVehicle"], ["ControlledVehicle", "MDPVehicle"]])
        vs = world.gen_vehicles(rng, road, rng.choice([2, 4, 8]), classes, speed=(5, 30), spread=120, gap=8)
        p["world"].update(road=road, vehicles=vs, events=[e for e in p["world"]["events"] if e["what"] != "spawn"])
    calls = []
    for _ in range(rng.choice([0, 2, 5])):
        calls.append(dict(t=rng.randrange(ticks), what=rng.choice(["create", "behavior", "route", "route"] + traces.AMBIENT[:2]),
                          i=rng.randrange(8), k=rng.getrandbits(16)))
    p.update(ticks=ticks, calls=calls, pin1=rng.getrandbits(30), pin2=rng.getrandbits(30))
    return p


FAMILIES = {"roads": (5, gen_road_run, road_run), "ambient": (5, gen, run), "fresh": (1, gen_fresh, fresh)}
