"""C16 Reset recovers a clean episode from any history."""
import copy
import os
import random
import sys

from .. import boot, core, world
from ..core import InjectedCrash, Violation
from . import traces

ID = "C16"
QUICK_RUNS, THOROUGH_RUNS = 880, 20000
RULE = "one case = one history of an environment (with operations aborted at arbitrary calls, callbacks or vehicle decisions, nested resets, killed viewers, reconfigurations and vandalised scenes), then seed and reset; the episode is compared bit by bit with that of a new environment in another process."
REAL = ["all of highway_env", "pygame surfaces"]
STUB = ["display (SDL dummy driver)"]
SHRINK = ["history", "acts"]


class CrashAt:
    """Raises at the n-th call of a function of highway_env: a crash or an interrupt at an arbitrary point."""

    def __init__(self, n):
        self.n, self.fired = n, False

    def __enter__(self):
        home, left = boot.REPO, [self.n]

        def trace(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(home):
                left[0] -= 1
                if left[0] == 0:
                    self.fired = True
                    raise InjectedCrash("call %d" % self.n)
            return None
        sys.settrace(trace)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
        return exc[0] is InjectedCrash


def vandalise(b, k):
    """The user, or a planner gone wild, damages the scene."""
    r = random.Random(k)
    what = r.choice(["crash", "remove", "speed", "move", "objects", "alone", "heading"])
    vs = b.road.vehicles
    v = r.choice(vs) if vs else None
    if what == "crash":
        for v in vs:
            v.crashed = True
    elif what == "remove" and v is not None:
        vs.remove(v)
    elif what == "speed" and v is not None:
        v.speed = r.uniform(-50, 90)
    elif what == "move" and v is not None:
        v.position = v.position + r.uniform(-200, 200)
    elif what == "objects":
        b.road.objects.clear()
    elif what == "alone":
        b.road.vehicles[:] = [b.vehicle]
    elif what == "heading" and v is not None:
        v.heading += r.uniform(-3, 3)
    return what


def saved(b, keys):
    return {k: copy.deepcopy(b.config[k]) for k in keys if k in b.config}


def do(env, op, ctx, state):
    b = world.base(env)
    k = op["op"]

    def step(a):
        return env.step(world.decode(env.action_space, a))

    if k == "step":
        step(op["a"])
    elif k == "episode":  # up to the end, and a little beyond
        for i in range(op["n"]):
            out = step(op["a"] * (i + 1))
            if all(out[2]) if isinstance(out[2], tuple) else out[2]:
                step(op["a"])
                break
    elif k == "reset":
        env.reset()
    elif k == "seed":
        env.seed(op["a"])
    elif k == "crash-step":
        with CrashAt(op["at"]) as c:
            step(op["a"])
        if not c.fired:
            return
    elif k == "crash-reset":
        with CrashAt(op["at"]) as c:
            env.reset()
        if not c.fired:
            return
    elif k in ("callback-raises", "callback-resets", "callback-steps"):
        left = [op["at"] % 5 + 1]

        def cb():
            left[0] -= 1
            if left[0] == 0:
                if k == "callback-raises":
                    raise InjectedCrash("callback")
                if k == "callback-resets":
                    env.reset()
                else:
                    step(op["a"] + 1)
        world.midstep(env, cb)
        world.arm(env)
        try:
            step(op["a"])
        except InjectedCrash:
            pass
        finally:
            world.unarm(env)
    elif k == "vehicle-raises":
        vs = b.road.vehicles
        v = vs[op["at"] % len(vs)]

        def act(action=None):
            raise InjectedCrash("act")
        v.act = act
        try:
            step(op["a"])
        except InjectedCrash:
            pass
        finally:
            v.__dict__.pop("act", None)
    elif k == "render":
        world.graphics()
        state.setdefault("config", {}).setdefault("offscreen_rendering", b.config["offscreen_rendering"])
        b.configure({"offscreen_rendering": op["at"] % 2 == 0})
        env.render(mode="rgb_array")
    elif k == "close":
        env.close()
    elif k == "kill-viewer":
        import pygame
        pygame.quit()
        env.close()
    elif k == "vandalise":
        ctx.fault("scene-" + vandalise(b, op["at"]))
        state["broken"] = True
        return
    elif k == "configure":
        cfg = world.clone(op["cfg"])
        for key in cfg:
            state.setdefault("config", {}).setdefault(key, copy.deepcopy(b.config.get(key, "absent")))
        b.configure(cfg)
        env.reset()
        for i in range(2):
            step(op["a"] + i)
    elif k == "copy":
        c = copy.deepcopy(b)
        c.step(world.decode(c.action_space, op["a"]))
        c.reset()
    elif k == "settings":  # a user who keeps flags up
        b.enable_auto_render = True
        b.should_update_rendering = False
    else:
        raise KeyError(k)
    ctx.fault(k)


def clean(plan):
    world.warm(plan["spec"])
    env = world.make_env(plan["spec"])
    return traces.episode(env, plan["seed2"], plan["acts"])


def run(plan, ctx):
    want = core.in_child(lambda: clean(plan), 100)
    if not isinstance(want, list):
        raise RuntimeError("clean episode: %s" % want)
    world.warm(plan["spec"])
    env = world.make_env(plan["spec"])
    b = world.base(env)
    env.seed(plan["spec"]["seed"])
    env.reset()
    state = {}
    for op in plan["history"]:
        if state.get("broken") and op["op"] not in ("reset", "seed", "close"):
            # what a vandalised or half-built scene does is not specified, only that a reset recovers from it
            try:
                do(env, op, ctx, state)
            except Exception:  # noqa
                ctx.probe("operations failing on a vandalised scene")
            continue
        do(env, op, ctx, state)
        if op["op"] == "reset":
            state["broken"] = False
        if op["op"].startswith("crash") or op["op"] == "vehicle-raises":
            state["broken"] = True
    # the configuration is put back
    for key, value in state.get("config", {}).items():
        if value == "absent":
            b.config.pop(key, None)
        else:
            b.configure({key: value})
    if plan["closed"]:
        env.close()
    got = traces.episode(env, plan["seed2"], plan["acts"])
    ctx.probe("steps compared", len(plan["acts"]))
    ctx.tick(1 / plan["spec"]["cfg"].get("policy_frequency", 1), len(plan["acts"]))
    ctx.event(want)
    ctx.state(world.abstract_state(env))
    world.compare("reset-differs", traces.cut(want), traces.cut(got), "%s after %s" % (plan["spec"]["env"], [o["op"] for o in plan["history"]]))


OPS = ["step", "episode", "reset", "seed", "crash-step", "crash-step", "crash-reset", "callback-raises", "callback-resets",
       "callback-steps", "vehicle-raises", "render", "close", "kill-viewer", "vandalise", "configure", "copy", "settings"]


def gen_cfg(rng, spec):
    out = rng.choice(traces.CONFIGS + [{"manual_control": True}, {"duration": 1}])
    if rng.random() < 0.4:
        o = world.gen_obs(rng, spec["env"], spec["cfg"])
        if o and spec["env"] not in ("multi-intersection", "tuple-intersection", "lane-keeping"):
            return {"observation": o}
    if rng.random() < 0.3:
        a = world.gen_action(rng, spec["env"])
        if a and not (world.continuous(dict(action=a)) or world.continuous(spec["cfg"])):
            return {"action": a}
    if rng.random() < 0.3 and "multi" in spec["env"]:
        return {"controlled_vehicles": rng.choice([1, 2, 3])}
    return out


def gen(rng, tier):
    spec = traces.gen_spec(rng, traces.LIGHT)
    n = rng.choice([2, 4, 7])
    history = []
    kinds = rng.sample(OPS, rng.randint(2, 6))
    for _ in range(rng.randint(1, 6)):
        op = dict(op=rng.choice(kinds), a=rng.getrandbits(24))
        if op["op"] == "episode":
            op["n"] = rng.choice([5, 15, 30])
        if op["op"] in ("crash-step", "crash-reset"):
            op["at"] = int(10 ** rng.uniform(0, 4.2))
        else:
            op["at"] = rng.getrandbits(16)
        if op["op"] == "configure":
            op["cfg"] = gen_cfg(rng, spec)
        history.append(op)
    return dict(spec=spec, seed2=rng.getrandbits(30), history=history, acts=world.gen_acts(rng, n, 0.3),
                closed=rng.random() < 0.2)


FAMILIES = {"history": (1, gen, run)}
