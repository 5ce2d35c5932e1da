"""C04 The environment interface contract holds along every episode."""
import numpy as np

from .. import envref, world
from ..core import Violation
from . import common, stage

ID = "C04"
QUICK_RUNS, THOROUGH_RUNS = 1120, 40000
RULE = "one case = one environment (class or registered id, observation and action configuration) driven through episodes, beyond their ends and through resets, with staged traffic faults; every observation, reward, flag, info and space is judged against the declared contract."
REAL = ["gym registration and wrappers", "environments", "observation and action types", "Road", "vehicles", "pygame offscreen drawing (image observations)"]
STUB = ["the viewer, in runs with faults in the middle of a decision", "SDL's dummy video driver"]
ASSUMPTIONS = ["Observation and action types are combined with the environments that document or can support them: discrete actions need controlled vehicles, goals need a goal, time-to-collision observations need discrete control."]

IDS = ["highway-v0", "merge-v0", "roundabout-v0", "two-way-v0", "parking-v0", "summon-v0", "intersection-v0", "lane-keeping-v0",
       "intersection-multi-agent-v0", "intersection-multi-agent-v1", "parking-ActionRepeat-v0", "summon-ActionRepeat-v0"]
ATTRS = ["state", "derivative", "reference_state"]


def finite(x):
    if isinstance(x, dict):
        return all(finite(v) for v in x.values())
    if isinstance(x, (tuple, list)):
        return all(finite(v) for v in x)
    return bool(np.all(np.isfinite(np.asarray(x, dtype=float))))


def describe(x):
    if isinstance(x, dict):
        return {k: describe(v) for k, v in x.items()}
    if isinstance(x, (tuple, list)):
        return [describe(v) for v in x]
    a = np.asarray(x)
    return "%s in [%s, %s]" % (a.shape, a.min() if a.size else None, a.max() if a.size else None)


def same_space(a, b):
    if type(a) is not type(b):
        return False
    if hasattr(a, "spaces"):
        if isinstance(a.spaces, dict):
            return sorted(a.spaces) == sorted(b.spaces) and all(same_space(a.spaces[k], b.spaces[k]) for k in a.spaces)
        return len(a.spaces) == len(b.spaces) and all(same_space(x, y) for x, y in zip(a.spaces, b.spaces))
    if hasattr(a, "n"):
        return a.n == b.n
    return a.shape == b.shape and np.array_equal(a.low, b.low) and np.array_equal(a.high, b.high)


def boolean(x):
    return isinstance(x, (bool, np.bool_))


def number(x):
    return isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, bool) and bool(np.isfinite(x)) \
        or isinstance(x, np.ndarray) and x.size == 1 and bool(np.isfinite(x).all())


class Contract:
    def __init__(self, ctx, env, kind):
        self.ctx, self.env, self.kind = ctx, env, kind
        self.spaces = (env.observation_space, env.action_space)
        self.tuple = kind == "tuple"

    def observation(self, obs, when):
        self.ctx.probe("observations")
        space = self.env.observation_space
        if not finite(obs):
            raise Violation("not-finite", "%s: observation %s" % (when, describe(obs)))
        for name, s in (("current", space), ("first", self.spaces[0])):
            if not s.contains(obs):
                raise Violation("not-in-space", "%s: the observation %s is not in the %s space %r" % (when, describe(obs), name, s))

    def declared(self, when):
        for what, a, b in (("observation", self.spaces[0], self.env.observation_space),
                           ("action", self.spaces[1], self.env.action_space)):
            if not same_space(a, b):
                raise Violation("space", "%s: the %s space was %r and is %r" % (when, what, a, b))

    def step(self, action, out, when):
        if not isinstance(out, tuple) or len(out) != 4:
            raise Violation("interface", "%s: step returned %r" % (when, type(out)))
        obs, reward, done, info = out
        self.observation(obs, when)
        b = world.base(self.env)
        n = len(b.controlled_vehicles)
        rewards, dones = (reward, done) if self.tuple else ((reward,), (done,))
        if self.tuple and (len(reward) != n or len(done) != n):
            raise Violation("interface", "%s: %d agents, rewards %r, dones %r" % (when, n, reward, done))
        for r in rewards:
            if not number(r):
                raise Violation("reward", "%s: reward %r" % (when, r))
        for d in dones:
            if not boolean(d):
                raise Violation("done", "%s: termination flag %r" % (when, d))
        if not isinstance(info, dict):
            raise Violation("info", "%s: info %r" % (when, info))
        if envref.kind(self.env) == "lane-keeping":
            return
        for k in ("speed", "crashed", "action"):
            if k not in info:
                raise Violation("info", "%s: no %s in the info" % (when, k))
        if not number(info["speed"]) or float(info["speed"]) != float(b.vehicle.speed):
            raise Violation("info-speed", "%s: the info reports the speed %r, the vehicle has %r" % (when, info["speed"], b.vehicle.speed))
        if bool(info["crashed"]) != bool(b.vehicle.crashed):
            raise Violation("info-crashed", "%s: crashed reported as %r, is %r" % (when, info["crashed"], b.vehicle.crashed))
        if world.canon(info["action"]) != world.canon(action):
            raise Violation("info-action", "%s: the info reports the action %r instead of %r" % (when, info["action"], action))
        self.ctx.probe("steps")


def kind_of(spec):
    return "tuple" if spec.get("env") == "tuple-intersection" or spec.get("id") == "intersection-multi-agent-v1" else "one"


def run(plan, ctx):
    spec = plan["spec"]
    env = world.make_env(spec)
    if plan.get("image"):
        world.graphics()
    b = world.base(env)
    c = Contract(ctx, env, kind_of(spec))
    env.seed(spec["seed"])
    episodes = plan["episodes"]
    for ep, e in enumerate(episodes):
        obs = env.reset()
        c.declared("reset %d" % ep)
        c.observation(obs, "reset %d" % ep)
        over = 0
        for k, a in enumerate(e["acts"]):
            mid = []
            for ev in e["events"]:
                if ev["t"] == k:
                    if ev.get("tick") is None or envref.kind(env) == "lane-keeping" or plan.get("image"):
                        stage.stage(b, ev, ctx)
                    else:
                        mid.append(ev)
            if a % 5 == 0:
                env.action_space.seed(a)
                action = env.action_space.sample()
            else:
                action = world.decode(env.action_space, a)
            if not env.action_space.contains(action):
                raise Violation("harness", "action %r" % (action,))
            n = [0]
            if mid:
                def cb():
                    for ev in mid:
                        if ev["tick"] == n[0]:
                            stage.stage(b, ev, ctx)
                    n[0] += 1
                world.midstep(env, cb)
                world.arm(env)
            t0 = b.time
            try:
                out = env.step(action)
            finally:
                if mid:
                    world.unarm(env)
            ctx.tick(1 / b.config["simulation_frequency"], max(0, b.time - t0))
            c.step(action, out, "episode %d, decision %d" % (ep, k))
            c.declared("episode %d, decision %d" % (ep, k))
            ctx.event(world.step_sig(env, out))
            ctx.state(world.abstract_state(env))
            done = any(out[2]) if isinstance(out[2], tuple) else bool(out[2])
            if done or over:
                over += 1
                ctx.probe("steps beyond the end" if over > 1 else "ends")
                if over > e["beyond"]:
                    break
    env.close()




def gen_episodes(rng, n, kinds, length=(2, 6, 12)):
    out = []
    for _ in range(n):
        m = rng.choice(list(length))
        out.append(dict(acts=world.gen_acts(rng, m, 0.4), events=stage.gen_stage(rng, m, kinds), beyond=rng.choice([0, 1, 4])))
    return out


def gen_class(rng, tier):
    spec = world.gen_env(rng, ["highway", "highway", "merge", "parking", "summon", "roundabout", "two-way", "intersection",
                               "multi-intersection", "tuple-intersection", "lane-keeping", "custom"])
    cfg = spec["cfg"]
    if spec["env"] == "highway":
        cfg["vehicles_count"] = rng.choice([0, 1, 3, 5, 8])
    if spec["env"] == "parking" and rng.random() < 0.3:
        stage.multi_parking(cfg, rng.choice([1, 2, 3]))
    if spec["env"] == "lane-keeping" and rng.random() < 0.5:
        cfg["observation"] = {"type": "AttributesObservation", "attributes": rng.sample(ATTRS, rng.randint(1, 3))}
    if spec["env"] in ("multi-intersection", "tuple-intersection") and "observation" not in cfg and rng.random() < 0.5:
        cfg["observation"] = {"type": "MultiAgentObservation", "observation_config": rng.choice(
            [{"type": "OccupancyGrid"}, {"type": "TimeToCollision", "horizon": 5}, {"type": "Kinematics", "vehicles_count": 3}])}
    o = cfg.get("observation") or {}
    if o.get("type") == "OccupancyGrid" and rng.random() < 0.4:
        o["grid_size"] = rng.choice([[[-20, 40], [-10, 10]], [[-15, 15], [-30, 30]], [[0, 30], [-6, 6]]])
        o["grid_step"] = rng.choice([[5, 5], [3, 3], [5, 2]])
    if o.get("type") == "Kinematics" and rng.random() < 0.3:
        o["features_range"] = {"x": [-50, 80], "vx": [-5, 5]} if set(o.get("features", ["presence", "x", "vx"])) <= {
            "presence", "x", "vx", "cos_h", "sin_h", "cos_d", "sin_d"} else {"x": [-30, 30], "y": [-3, 9], "vx": [0, 10], "vy": [-1, 1]}
        if "features" not in o:
            o["features_range"] = {"x": [-30, 30], "y": [-3, 9], "vx": [0, 10], "vy": [-1, 1]}
    if rng.random() < 0.2 and spec["env"] != "lane-keeping":
        cfg["show_trajectories"] = True
    kinds = stage.STAGES if spec["env"] != "lane-keeping" else ["speed", "off-road", "place"]
    return dict(spec=spec, episodes=gen_episodes(rng, rng.choice([1, 2]), kinds))


def gen_id(rng, tier):
    i = rng.choice([x for x in IDS if x != "highway-v0"] * 3 + ["highway-v0"])
    kinds = stage.STAGES if i != "lane-keeping-v0" else ["speed", "off-road", "place"]
    return dict(spec=dict(id=i, seed=rng.getrandbits(30)),
                episodes=gen_episodes(rng, 1 if i == "highway-v0" else 2, kinds, (2,) if i == "highway-v0" else (2, 6)))


def gen_image(rng, tier):
    name = rng.choice(["highway", "merge", "roundabout", "two-way", "intersection", "lane-keeping"])
    spec = world.gen_env(rng, [name], obs=False)
    cfg = spec["cfg"]
    if name == "highway":
        cfg["vehicles_count"] = rng.choice([1, 3, 5])
    w, h = rng.choice([(84, 84), (60, 100), (150, 40), (32, 32)])
    cfg.update(offscreen_rendering=True, screen_width=w, screen_height=h, scaling=rng.choice([1.75, 3, 5.5]),
               observation={"type": "GrayscaleObservation", "weights": rng.choice([[0.2989, 0.5870, 0.1140], [1 / 3, 1 / 3, 1 / 3], [0, 0, 1]]),
                            "stack_size": rng.choice([1, 2, 4]), "observation_shape": [w, h]})
    return dict(spec=spec, image=True, episodes=gen_episodes(rng, rng.choice([1, 2]), ["crash", "speed", "push", "place", "off-road"], (2, 4)))


FAMILIES = {"class": (6, gen_class, run), "id": (2, gen_id, run), "image": (2, gen_image, run)}
