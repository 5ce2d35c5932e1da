"""C22 Each agent controls and observes exactly its own vehicle."""
import copy
import random

import numpy as np

from .. import envref, ref, world
from ..core import Violation, pin
from . import c11, c21, c24, c25, stage, traces

ID = "C22"
QUICK_RUNS, THOROUGH_RUNS = 610, 20000
RULE = "one case = one multi-agent episode with staged faults on some of the agents; every decision is repeated on deep copies of the same instant with the action of one agent changed, and with the agents in another order, and every value returned is judged per agent against the documented view, reward and end of that agent's vehicle."
REAL = ["multi-agent actions and observations", "environments", "MultiAgentWrapper", "vehicles", "Road"]
STUB = []
ASSUMPTIONS = ["Time-to-collision observations are documented for the first controlled vehicle only.",
               "The joint reward and termination of several highway agents are those of the first one."]


def gen_spec(rng):
    name = rng.choice(["multi-intersection", "multi-intersection", "tuple-intersection", "highway", "highway", "parking"])
    n = rng.choice([1, 2, 2, 3, 4])
    spec = world.gen_env(rng, [name], obs=False, actions=False)
    cfg = spec["cfg"]
    cfg["controlled_vehicles"] = n
    if name == "parking":
        stage.multi_parking(cfg, min(n, 3))
        return spec
    if name == "highway":
        cfg["vehicles_count"] = rng.choice([0, 2, 5])
        a = {"type": "DiscreteMetaAction"}
        k = rng.randrange(5)
        if k == 0:
            a = {"type": "ContinuousAction"}
        elif k == 1:
            a = {"type": "ContinuousAction", "acceleration_range": [-4, 2], "lateral": rng.random() < 0.5}
        elif k == 2:
            a["lateral"] = False
        elif k == 3:
            a["longitudinal"] = False
        cfg["action"] = {"type": "MultiAgentAction", "action_config": a}
    o = world.gen_kinematics(rng)
    o.pop("order", None)
    o.setdefault("features_range", {"x": [-100, 100], "y": [-50, 50], "vx": [-20, 20], "vy": [-20, 20]})
    if rng.random() < 0.2:
        o = {"type": "OccupancyGrid", "features": rng.choice([["presence", "vx", "vy"], ["presence"]]), "grid_size": [[-30, 30], [-30, 30]], "grid_step": [5, 5]}
    cfg["observation"] = {"type": "MultiAgentObservation", "observation_config": o}
    return spec


KINDS = ["crash-ego", "crash-ego", "place", "goal", "speed", "push", "hit", "swap", "swap", "faster", "off-road", "remove", "exit", "exit"]


def gen(rng, tier):
    spec = gen_spec(rng)
    n = rng.choice([2, 4, 7])
    ev = stage.gen_stage(rng, n, KINDS)
    for e in ev:
        e["tick"] = None
    return dict(spec=spec, acts=world.gen_acts(rng, n, 0.3), events=ev, perm=rng.getrandbits(16), who=rng.getrandbits(16),
                other=rng.getrandbits(24))


def setpoints(b):
    """State, set-points and commands of every vehicle, in the order of the road."""
    return [(world.vehicle_sig(v), tuple(sorted((k, float(x).hex()) for k, x in v.action.items())), repr(getattr(v, "route", None)))
            for v in b.road.vehicles]


def first_instant(c, ctx):
    """Have the scene recorded at the first instant of the physics of the next decision."""
    box = {}

    def before_act(road):
        if "first" not in box:
            box["first"] = setpoints(world.base(c))

    def after(road, dt):
        box["last"] = list(road.vehicles)
    world.attach(c, ctx, before_act=before_act, after=after)
    return box


def index_of(b, v):
    """The place of an agent's vehicle among those of the road."""
    places = [i for i, w in enumerate(b.road.vehicles) if w is v]
    if len(places) != 1:
        raise Violation("vehicle", "the vehicle of agent %d is %d times on the road: its actions have no effect" % (
            [x is v for x in b.controlled_vehicles].index(True), len(places)))
    return places[0]


def check_spaces(env, ctx):
    b = world.base(env)
    n = len(b.controlled_vehicles)
    for what, s in (("action", env.action_space), ("observation", env.observation_space)):
        if len(s.spaces) != n:
            raise Violation("spaces", "%d agents and an %s space of %d components" % (n, what, len(s.spaces)))


def run(plan, ctx):
    env, obs = world.build_env(plan["spec"])
    b = world.base(env)
    check_spaces(env, ctx)
    if not isinstance(obs, tuple) or len(obs) != len(b.controlled_vehicles):
        raise Violation("agents", "%d observations at the reset for %d agents" % (len(obs), len(b.controlled_vehicles)))
    c21.Views(ctx, env).check(obs, b.road.vehicles, "reset")
    ends, rewards = c24.Ends(ctx), c25.Rewards(ctx)
    for k, a in enumerate(plan["acts"]):
        for e in plan["events"]:
            if e["t"] == k:
                stage.stage(b, e, ctx)
        when = "%s, decision %d" % (plan["spec"]["env"], k)
        action = world.decode(env.action_space, a)
        before = setpoints(b)
        # 1. the same instant with the action of one agent changed
        mine = copy.deepcopy(env) if env is b else rewrap(env)
        one = first_instant(mine, ctx)
        out = mine.step(action)
        routing(env, b, plan, k, action, one["first"], before, when, ctx)
        # 2. what every agent gets
        mb = world.base(mine)
        seen = one["last"] if envref.kind(mine) == "intersection" else mb.road.vehicles
        c21.Views(ctx, mine).check(out[0], seen, when)
        if envref.kind(mine) != "highway":
            rewards.step(mine, action, out)
        ends.n = k
        ends.step(mine, action, out)
        if plan["spec"]["env"] == "tuple-intersection":
            if out[1] != out[3]["agents_rewards"] or out[2] != out[3]["agents_dones"]:
                raise Violation("tuple", "%s: the tuple variant returns %r and %r instead of %r and %r" % (
                    when, out[1], out[2], out[3]["agents_rewards"], out[3]["agents_dones"]))
        # 3. the agents in another order
        permuted(env, b, plan, k, action, out, mine, when, ctx)
        real = env.step(action)
        if world.step_sig(env, real) != world.step_sig(mine, out):
            raise Violation("copy", "%s: the step of a deep copy differs" % when)
        ctx.tick(1 / b.config["policy_frequency"])
        ctx.event(world.step_sig(env, real))
        ctx.state(world.abstract_state(env))
        if c11.over(real):
            break


def rewrap(env):
    """A deep copy of a wrapped environment."""
    new = copy.copy(env)
    new.env = copy.deepcopy(world.base(env))
    return new


def copy_of(env):
    return copy.deepcopy(env) if env is world.base(env) else rewrap(env)


def routing(env, b, plan, k, action, first, before, when, ctx):
    n = len(b.controlled_vehicles)
    places = [index_of(b, v) for v in b.controlled_vehicles]
    if len(set(places)) != n:
        raise Violation("agents", "%s: an agent has no vehicle of its own" % when)
    # only the vehicles of agents change before the physics
    for i, (x, y) in enumerate(zip(before, first)):
        if i not in places and x != y:
            raise Violation("bystander", "%s: the actions change a vehicle that no agent controls: %s to %s" % (when, x, y))
        if x[0][1:7] != y[0][1:7]:
            raise Violation("state", "%s: the actions change the state of a vehicle: %s to %s" % (when, x, y))
    # each as documented for the action of its own agent
    cfg = c11.config_of(b)
    net = ref.Net(b.road.network)
    names = c11.names_of(b) if cfg["type"] == "DiscreteMetaAction" else None
    j = (plan["who"] + k) % n
    other = list(action)
    other[j] = world.decode(env.action_space.spaces[j], plan["other"] + k)
    changed = copy_of(env)
    two = first_instant(changed, ctx)
    changed.step(tuple(other))
    for i, (x, y) in enumerate(zip(first, two["first"])):
        if i != places[j] and x != y:
            raise Violation("routing", "%s: changing the action of agent %d (vehicle %d) from %r to %r changes vehicle %d: %s to %s" % (
                when, j, places[j], action[j], other[j], i, x, y))
    ctx.probe("actions changed")
    if first[places[j]] != two["first"][places[j]]:
        ctx.probe("changed actions with an effect")
    cb = world.base(changed)
    for (c, acts, seen) in ((b, action, first), (cb, tuple(other), two["first"])):
        for i, v in enumerate(b.controlled_vehicles):
            label = names[int(acts[i])] if names else None
            sig, cmd, _ = seen[places[i]]
            if label is None:
                want = c11.mapped(cfg, acts[i])
                got = {x: float.fromhex(y) for x, y in cmd}
                if any(abs(got[x] - want[x]) > 1e-5 for x in want):
                    raise Violation("effect", "%s: the action %r of agent %d gives its vehicle the commands %s instead of %s" % (when, acts[i], i, got, want))
            else:
                lanes, speeds = c11.expected_lanes(net, v, label), c11.expected_speeds(v, label, envref.speeds(env))
                if lanes is not None and sig[7] not in [str(x) for x in lanes]:
                    raise Violation("effect", "%s: %s of agent %d leads its vehicle to %s instead of %s" % (when, label, i, sig[7], lanes))
                if not any(abs(float.fromhex(sig[8]) - s) < 1e-9 for s in speeds):
                    raise Violation("effect", "%s: %s of agent %d leads its vehicle to the target speed %s instead of %s" % (
                        when, label, i, float.fromhex(sig[8]), speeds))
            ctx.probe("agent actions judged")


def permuted(env, b, plan, k, action, out, mine, when, ctx):
    """The same agents listed in another order: the same scene, and every value follows its agent."""
    n = len(b.controlled_vehicles)
    if n < 2:
        return
    order = list(range(n))
    random.Random(plan["perm"] + k).shuffle(order)
    c = copy_of(env)
    cb = world.base(c)
    cb.controlled_vehicles = [cb.controlled_vehicles[i] for i in order]
    cb.define_spaces()
    res = c.step(tuple(action[i] for i in order))
    if envref.kind(env) == "highway" and (out[2] or res[2]):
        return  # the first agent's end cuts the decision short
    if world.scene_sig(c) != world.scene_sig(mine):
        raise Violation("order", "%s: listing the agents as %s changes the scene" % (when, order))
    ctx.probe("agents permuted")

    def same(what, x, y):
        want = tuple(x[i] for i in order)
        if world.canon(want) != world.canon(tuple(y)):
            raise Violation("order", "%s: listing the agents as %s, the %s are %r instead of %r" % (when, order, what, y, want))
    same("observations", out[0], res[0])
    for key in ("agents_rewards", "agents_dones"):
        if key in out[3]:
            same(key, out[3][key], res[3][key])
    if isinstance(out[3].get("is_success"), tuple):
        same("successes", out[3]["is_success"], res[3]["is_success"])
    if envref.kind(env) == "intersection" and not isinstance(out[1], tuple):
        if abs(out[1] - sum(out[3]["agents_rewards"]) / n) > 1e-9:
            raise Violation("joint", "%s: the joint reward is %r, the agents get %r" % (when, out[1], out[3]["agents_rewards"]))
    if envref.kind(env) in ("intersection", "parking") and not isinstance(out[1], tuple):
        if abs(out[1] - res[1]) > 1e-9 or bool(out[2]) != bool(res[2]):
            raise Violation("joint", "%s: listing the agents as %s, the joint reward and termination are %r, %r instead of %r, %r" % (
                when, order, res[1], res[2], out[1], out[2]))


# ------------------------------------------------------------------------------------- tuple and joint variants
def gen_tuple(rng, tier):
    spec = world.gen_env(rng, ["multi-intersection"], obs=False, actions=False)
    spec["cfg"]["controlled_vehicles"] = rng.choice([1, 2, 3, 4])
    n = rng.choice([3, 8])
    ev = stage.gen_stage(rng, n, KINDS)
    for e in ev:
        e["tick"] = None
    return dict(spec=spec, acts=world.gen_acts(rng, n, 0.3), events=ev)


def run_tuple(plan, ctx):
    """The tuple variant lives the same episode and returns the per-agent values."""
    runs = []
    for name in ("multi-intersection", "tuple-intersection"):
        world.warm(plan["spec"])
        pin(plan["seed"])
        env, obs = world.build_env(dict(plan["spec"], env=name))
        outs = [obs]
        for k, a in enumerate(plan["acts"]):
            for e in plan["events"]:
                if e["t"] == k:
                    stage.stage(world.base(env), e, ctx)
            outs.append((env.step(world.decode(env.action_space, a)), world.scene_sig(env)))
        runs.append(outs)
    joint, tup = runs
    if world.canon(joint[0]) != world.canon(tup[0]):
        raise Violation("tuple", "the first observation of the tuple variant differs")
    for k, ((o, s), (p, t)) in enumerate(zip(joint[1:], tup[1:])):
        ctx.probe("steps of both variants compared")
        if s != t or world.canon(o[0]) != world.canon(p[0]) or world.canon(o[3]) != world.canon(p[3]):
            raise Violation("tuple", "decision %d: the tuple variant lives another episode" % k)
        if not isinstance(p[1], tuple) or not isinstance(p[2], tuple) or p[1] != o[3]["agents_rewards"] or p[2] != o[3]["agents_dones"]:
            raise Violation("tuple", "decision %d: the tuple variant returns %r, %r; the agents' values are %r, %r" % (
                k, p[1], p[2], o[3]["agents_rewards"], o[3]["agents_dones"]))
        n = len(p[1])
        if abs(sum(p[1]) / n - o[1]) > 1e-9:
            raise Violation("joint", "decision %d: joint reward %r, agents %r" % (k, o[1], p[1]))
        ctx.event(s)
    ctx.tick(1, len(plan["acts"]))
    ctx.state(s)


FAMILIES = {"agents": (4, gen, run), "variants": (1, gen_tuple, run_tuple)}
