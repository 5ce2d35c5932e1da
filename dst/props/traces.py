"""Programs of operations on environments, and the traces they leave: shared by the isolation properties."""
import gc
import os
import random
import time

import numpy as np

from .. import world
from ..core import InjectedCrash, pin
from . import common

LIGHT = ["highway", "merge", "parking", "roundabout", "two-way", "intersection", "multi-intersection", "lane-keeping",
         "summon", "tuple-intersection", "custom", "custom"]
IDS = {"highway-v0": "highway", "merge-v0": "merge", "roundabout-v0": "roundabout", "two-way-v0": "two-way",
       "parking-v0": "parking", "summon-v0": "summon", "intersection-v0": "intersection", "lane-keeping-v0": "lane-keeping",
       "intersection-multi-agent-v0": "multi-intersection", "intersection-multi-agent-v1": "tuple-intersection",
       "parking-ActionRepeat-v0": "parking-repeat", "summon-ActionRepeat-v0": "summon-repeat"}


def gen_spec(rng, envs=None, **kw):
    """A small environment: a few vehicles, any observation and action type."""
    spec = world.gen_env(rng, envs or LIGHT, **kw)
    if spec["env"] == "highway":
        spec["cfg"]["vehicles_count"] = rng.choice([2, 3, 5, 8])
    if spec["env"] == "summon":
        spec["cfg"]["vehicles_count"] = rng.choice([0, 2, 5])
    return spec


def first(env, obs):
    return [world.h8(world.canon(obs)), world.h8(world.scene_sig(env))]


def episode(env, seed, acts, between=None, mid=None):
    """Seed, reset and drive. between(k) is called before the k-th decision, mid(k, tick) after every tick of it."""
    seeds = env.seed(seed)
    trace = [[str(seeds)] + first(env, env.reset())]
    for k, a in enumerate(acts):
        if between:
            between(k)
        if mid:
            n = [0]

            def cb(k=k):
                mid(k, n[0])
                n[0] += 1
            world.midstep(env, cb)
            world.arm(env)
        try:
            out = env.step(world.decode(env.action_space, a))
        finally:
            if mid:
                world.unarm(env)
        trace.append(world.step_sig(env, out))
    return trace


def shrink_spec(spec):
    """A spec for a bystander: it only has to exist."""
    return spec


# --------------------------------------------------------------------------------- ambient perturbations
AMBIENT = ["reseed", "draw", "urandom", "clock", "heap", "environ"]


class Clock:
    """Replaces the process clocks by one that jumps."""
    real = time.time, time.perf_counter, time.monotonic

    @classmethod
    def jump(cls, k):
        r = random.Random(k)
        state = [r.uniform(-1e9, 1e9)]

        def now():
            state[0] += r.choice([0, 1e-6, 0.01, 5, -3, 1e5])
            return state[0]
        time.time = time.perf_counter = now

    @classmethod
    def restore(cls):
        time.time, time.perf_counter, time.monotonic = cls.real


JUNK = []


def ambient(kind, k):
    """Change something of the process that no episode may depend on."""
    if kind == "reseed":
        random.seed(k)
        np.random.seed(k % (2 ** 32))
    elif kind == "draw":
        for _ in range(1 + k % 7):
            random.random()
            np.random.rand()
            np.random.randint(5)
    elif kind == "urandom":
        r = random.Random(k)
        os.urandom = lambda n: bytes(r.getrandbits(8) for _ in range(n))
    elif kind == "clock":
        Clock.jump(k)
    elif kind == "heap":  # other addresses for what is allocated next
        r = random.Random(k)
        JUNK.append([object() for _ in range(r.randrange(2000))])
        JUNK.append([dict(a=1) for _ in range(r.randrange(500))])
        if r.random() < 0.5 and len(JUNK) > 2:
            del JUNK[::2]
        gc.collect()
    elif kind == "environ":
        os.environ["DST_JUNK"] = str(k)
    else:
        raise KeyError(kind)


# ------------------------------------------------------------------------------------ programs of operations
class Program:
    """Executes operations on one environment and records what they return."""

    def __init__(self, spec):
        self.spec, self.env, self.trace = spec, None, []

    def do(self, op, mid=None):
        k = op["op"]
        if k == "make":
            self.env = world.make_env(self.spec)
            self.env.seed(self.spec["seed"])
            self.trace.append(first(self.env, self.env.reset()))
            return
        env = self.env
        b = world.base(env)
        if k == "seed":
            env.seed(op["k"])
        elif k == "reset":
            self.trace.append(first(env, env.reset()))
        elif k == "step":
            if mid:
                world.midstep(env, mid)
                world.arm(env)
            try:
                out = env.step(world.decode(env.action_space, op["a"]))
            finally:
                if mid:
                    world.unarm(env)
            self.trace.append(world.step_sig(env, out))
        elif k == "copy":
            import copy
            c = copy.deepcopy(b)
            out = c.step(world.decode(c.action_space, op["a"]))
            self.trace.append(world.step_sig(c, out))
        elif k == "simplify":
            c = b.simplify()
            self.trace.append(world.scene_sig(c))
        elif k == "randomize":
            b.randomize_behaviour()
        elif k == "change":
            if self.spec["env"] not in ("parking", "summon"):
                c = b.change_vehicles(world.vehicle_path(op["cls"]))
                out = c.step(world.decode(c.action_space, op["a"]))
                self.trace.append(world.step_sig(c, out))
        elif k == "configure":
            b.configure(world.clone(op["cfg"]))
        elif k == "render":
            world.graphics()
            b.configure({"offscreen_rendering": True})
            img = env.render(mode="rgb_array")
            self.trace.append(world.h8(world.canon(img)))
        elif k == "available":
            if hasattr(b.action_type, "actions") and hasattr(b.vehicle, "speed_index"):
                self.trace.append(str(sorted(b.get_available_actions())))
        elif k == "sample":
            env.action_space.seed(op["k"])
            self.trace.append(world.canon(env.action_space.sample()))
        elif k == "observe":
            for _ in range(op.get("n", 1)):
                self.trace.append(world.h8(world.canon(b.observation_type.observe())))
        else:
            raise KeyError(k)


CONFIGS = [{"collision_reward": -2}, {"duration": 3}, {"simulation_frequency": 10}, {"vehicles_count": 4},
           {"other_vehicles_type": "highway_env.vehicle.behavior.LinearVehicle"}, {"screen_width": 300},
           {"show_trajectories": True}, {"policy_frequency": 2}, {"scaling": 3.0}]


def gen_program(rng, spec, n, render=True):
    ops = [dict(op="make")]
    weights = [("step", 10), ("reset", 1), ("seed", 1), ("copy", 1), ("simplify", 1), ("randomize", 1), ("change", 1),
               ("configure", 1), ("available", 1), ("sample", 1), ("observe", 1)] + ([("render", 1)] if render else [])
    names = [w for w, k in weights for _ in range(k)]
    for _ in range(n):
        op = dict(op=rng.choice(names))
        if op["op"] in ("step", "copy", "change"):
            op["a"] = rng.getrandbits(24)
        if op["op"] in ("seed", "sample"):
            op["k"] = rng.getrandbits(20)
        if op["op"] == "change":
            op["cls"] = rng.choice(world.TRAFFIC)
        if op["op"] == "configure":
            op["cfg"] = rng.choice(CONFIGS)
        ops.append(op)
    return ops


def cut(trace):
    """JSON round trip, so that traces from a child and from this process compare equal."""
    import json
    return json.loads(json.dumps(trace, default=repr))
