"""C17 Data handed to the agent is a stable snapshot."""
import copy
import random

import numpy as np

from .. import envref, world
from ..core import Violation
from . import stage, traces

ID = "C17"
QUICK_RUNS, THOROUGH_RUNS = 1200, 40000
RULE = "one case = one history; either everything the environment ever returned is kept and must still have its first value after every later operation, or an agent scribbles over what it was given and over the actions it passed, and the episode must equal, bit by bit, that of an agent that does not."
REAL = ["environments", "observation and action types", "Road", "vehicles", "pygame offscreen drawing (image observations)"]
STUB = ["SDL's dummy video driver"]


def scribble(x, r):
    """Overwrite data in place, as an agent may that reuses its buffers."""
    if isinstance(x, dict):
        for v in x.values():
            scribble(v, r)
        if r.random() < 0.3:
            x.clear()
    elif isinstance(x, (tuple, list)):
        for v in x:
            scribble(v, r)
    elif isinstance(x, np.ndarray) and x.size and x.flags.writeable:
        k = r.randrange(4)
        if k == 0:
            x.fill(0)
        elif k == 1:
            x.fill(1e3)
        elif k == 2:
            x *= -1
        else:
            x.flat[r.randrange(x.size)] = float("nan")


class Kept:
    """What was returned, by reference, and the digest it had."""

    def __init__(self, ctx):
        self.ctx, self.items = ctx, []

    def keep(self, what, x):
        self.items.append((what, x, world.canon(x)))

    def check(self, when):
        for what, x, d in self.items:
            self.ctx.probe("retained values compared")
            if world.canon(x) != d:
                raise Violation("changed", "the %s has changed after %s" % (what, when))


def gen_spec(rng):
    name = rng.choice(["highway", "merge", "parking", "summon", "roundabout", "two-way", "intersection", "multi-intersection",
                       "tuple-intersection", "lane-keeping", "parking", "custom"])
    spec = world.gen_env(rng, [name], obs=rng.random() < 0.7)
    cfg = spec["cfg"]
    if name == "highway":
        cfg["vehicles_count"] = rng.choice([1, 3, 5])
        if rng.random() < 0.5:
            cfg["action"] = dict(rng.choice([{"type": "ContinuousAction"}, {"type": "ContinuousAction", "clip": False},
                                             {"type": "ContinuousAction", "longitudinal": False, "clip": False},
                                             {"type": "ContinuousAction", "dynamical": True}]))
            if (cfg.get("observation") or {}).get("type") == "TimeToCollision":
                cfg.pop("observation")
    if name in ("parking", "summon") and rng.random() < 0.3:
        cfg["action"] = {"type": "ContinuousAction", "clip": False}
    if name == "parking" and rng.random() < 0.3:
        stage.multi_parking(cfg, rng.choice([2, 3]))
    if name == "lane-keeping" and rng.random() < 0.5:
        cfg["observation"] = {"type": "AttributesObservation", "attributes": rng.sample(["state", "derivative", "reference_state"], 2)}
    image = False
    if name in ("highway", "merge", "roundabout", "two-way", "intersection", "lane-keeping", "custom") and rng.random() < 0.25:
        image = True
        cfg.update(offscreen_rendering=True, screen_width=40, screen_height=24, scaling=1.5,
                   observation={"type": "GrayscaleObservation", "weights": [0.3, 0.6, 0.1], "stack_size": rng.choice([1, 2, 4]),
                                "observation_shape": [40, 24]})
    return spec, image


OPS = ["step"] * 8 + ["reset", "seed", "copy", "render", "disturb", "disturb", "simplify", "observe-copy", "close"]


def gen_keep(rng, tier):
    spec, image = gen_spec(rng)
    ops = []
    for _ in range(rng.choice([4, 8, 16])):
        o = rng.choice(OPS)
        op = dict(op=o, a=rng.getrandbits(24))
        if o == "disturb":
            if spec["env"] == "lane-keeping":
                continue
            op["event"] = stage.gen_stage(rng, 1, ["crash", "speed", "remove", "push", "crash-ego", "place", "block", "spawn", "swap"], count=1)[0]
        ops.append(op)
    return dict(spec=spec, image=image, ops=ops)


def run_keep(plan, ctx):
    if plan["image"]:
        world.graphics()
    env = world.make_env(plan["spec"])
    env.seed(plan["spec"]["seed"])
    b = world.base(env)
    kept = Kept(ctx)
    kept.keep("first observation", env.reset())
    for i, op in enumerate(plan["ops"]):
        o = op["op"]
        if o == "step":
            action = world.decode(env.action_space, op["a"])
            kept.keep("action passed to step %d" % i, action)
            out = env.step(action)
            for n, x in zip(("observation", "reward", "termination", "info"), out):
                kept.keep("%s of step %d" % (n, i), x)
            ctx.event(world.step_sig(env, out))
            ctx.tick(1 / b.config["policy_frequency"])
        elif o == "reset":
            kept.keep("observation of the reset %d" % i, env.reset())
        elif o == "seed":
            env.seed(op["a"])
        elif o == "copy":
            c = copy.deepcopy(b)
            for n, x in zip(("observation", "reward", "termination", "info"), c.step(world.decode(c.action_space, op["a"]))):
                kept.keep("%s of the copy %d" % (n, i), x)
        elif o == "observe-copy":
            c = copy.deepcopy(b)
            kept.keep("observation of the reset copy %d" % i, c.reset())
        elif o == "simplify":
            b.simplify()
        elif o == "render":
            if plan["image"]:
                kept.keep("image %d" % i, env.render("rgb_array"))
        elif o == "close":
            if plan["image"]:
                env.close()
        else:
            stage.stage(b, op["event"], ctx)
        kept.check("operation %d (%s)" % (i, o))
    ctx.state(world.abstract_state(env))


def gen_scribble(rng, tier):
    spec, image = gen_spec(rng)
    return dict(spec=spec, image=image, acts=[[rng.getrandbits(24), rng.getrandbits(16)] for _ in range(rng.choice([3, 6, 10]))],
                resets=[rng.randrange(10) for _ in range(rng.choice([0, 0, 1]))])


def episode(plan, ctx, vandal):
    env = world.make_env(plan["spec"])
    env.seed(plan["spec"]["seed"])
    obs = env.reset()
    b = world.base(env)
    trace = [traces.first(env, obs)]
    for i, (a, k) in enumerate(plan["acts"]):
        r = random.Random(k)
        if vandal:
            scribble(obs, r)
            ctx.fault("scribble over an observation")
        if i in plan["resets"]:
            obs = env.reset()
            trace.append(traces.first(env, obs))
            if vandal:
                scribble(obs, r)
        action = world.decode(env.action_space, a)
        if vandal and k % 2:  # the array is overwritten while the decision is executed
            n = [0]

            def cb():
                if n[0] == 0:
                    scribble(action, r)
                    if not isinstance(action, int):
                        ctx.fault("scribble over an action in use")
                n[0] += 1
            if not plan["image"] and envref.kind(env) != "lane-keeping":
                world.midstep(env, cb)
                world.arm(env)
            try:
                out = env.step(action)
            finally:
                if not plan["image"]:
                    world.unarm(env)
        else:
            out = env.step(action)
        obs, reward, done, info = out
        info = dict(info)
        info.pop("action", None)  # it is the agent's own array
        trace.append(world.step_sig(env, (obs, reward, done, info)))
        ctx.tick(1 / b.config["policy_frequency"])
        if vandal:
            scribble(action, r)
            scribble(out[3], r)
            if not isinstance(action, int):
                ctx.fault("scribble over an action")
    return trace, env


def run_scribble(plan, ctx):
    if plan["image"]:
        world.graphics()
    world.warm(plan["spec"])
    from ..core import pin
    pin(plan["seed"])
    good, env = episode(plan, ctx, False)
    if plan["image"]:
        world.base(env).close()
    pin(plan["seed"])
    bad, env = episode(plan, ctx, True)
    ctx.probe("episodes compared")
    ctx.event(good)
    ctx.state(world.abstract_state(env))
    world.compare("scribble", good, bad, "episode of an agent that overwrites its data")


SHRINK = ["acts", "ops", "resets"]
FAMILIES = {"keep": (1, gen_keep, run_keep), "scribble": (1, gen_scribble, run_scribble)}
