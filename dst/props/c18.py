"""C18 Rendering observes the simulation without disturbing it."""
import copy
import random

import numpy as np

from .. import envref, world
from ..core import Violation, pin
from . import stage, traces

ID = "C18"
QUICK_RUNS, THOROUGH_RUNS = 750, 30000
RULE = "one case = one environment; either the same episodes are driven twice, without any rendering and with rendering, viewer keys, callbacks, displays and closed windows at arbitrary points, and compared bit by bit; or the images of an episode are compared with those of a new viewer on a copy of the scene, in size and content."
REAL = ["environments", "EnvViewer, RoadGraphics, VehicleGraphics on pygame surfaces", "Road", "vehicles"]
STUB = ["SDL's dummy video driver", "the pygame event queue (planned events)", "pygame's clock"]
ASSUMPTIONS = ["Closing the window ends the episode by design; what is judged is that the following episode is the same.",
               "One viewer on the screen at a time: pygame has a single display."]


class Queue:
    """Planned batches of events instead of the event queue of the window system."""

    def __init__(self, ctx):
        import pygame
        self.pygame, self.ctx, self.batches = pygame, ctx, []
        pygame.event.get = lambda *a, **k: self.get()
        pygame.time.Clock = lambda: self

    def get(self):
        return self.batches.pop(0) if self.batches else []

    def tick(self, *a):
        self.ctx.fault("clock tick")
        return 0

    def event(self, name):
        pg = self.pygame
        if name == "mouse":
            return pg.event.Event(pg.MOUSEMOTION, pos=(3, 4), rel=(1, 1), buttons=(0, 0, 0))
        if name == "button":
            return pg.event.Event(pg.MOUSEBUTTONDOWN, pos=(3, 4), button=1)
        if name == "quit":
            return pg.event.Event(pg.QUIT)
        kind, key = name.split("-")
        return pg.event.Event(pg.KEYDOWN if kind == "down" else pg.KEYUP, key=getattr(pg, "K_" + key), mod=0, unicode="")


VIEW_KEYS = ["down-l", "down-o", "down-m", "down-k"]
OTHER = ["up-l", "up-k", "down-a", "down-SPACE", "up-RETURN", "mouse", "button"]


def gen_spec(rng, onscreen, names=None):
    name = rng.choice(names or ["highway", "merge", "parking", "summon", "roundabout", "two-way", "intersection", "multi-intersection",
                       "tuple-intersection", "lane-keeping", "custom"])
    spec = world.gen_env(rng, [name], freqs=rng.random() < 0.5)
    cfg = spec["cfg"]
    if name == "highway":
        cfg["vehicles_count"] = rng.choice([1, 3, 5])
    if name == "parking" and rng.random() < 0.3:
        stage.multi_parking(cfg, rng.choice([2, 3]))
    w, h = rng.choice([(60, 40), (120, 50), (48, 48), (30, 90)])
    cfg.update(screen_width=w, screen_height=h, scaling=rng.choice([1.0, 2.0, 5.5]), offscreen_rendering=not onscreen)
    if rng.random() < 0.3:
        cfg["centering_position"] = rng.choice([[0.5, 0.5], [0.1, 0.9]])
    if rng.random() < 0.2:
        cfg["real_time_rendering"] = True
    if rng.random() < 0.2:
        cfg["show_trajectories"] = True
        if rng.random() < 0.3 and name != "lane-keeping":
            cfg.update(simulation_frequency=rng.choice([1, 2]), policy_frequency=1)
    if rng.random() < 0.2:
        cfg["render_agent"] = False
    return spec


RENDER = ["rgb_array", "rgb_array", "human"]


def gen_view(rng, onscreen, close=True):
    """What the viewer does before one decision and during its ticks."""
    ops = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        o = rng.choice(["render", "render", "render", "callback", "sequence", "agent", "lose", "autorender"])
        ops.append(dict(op=o, mode=rng.choice(RENDER), k=rng.getrandbits(16)))
    ev = []
    if onscreen:
        for _ in range(rng.choice([0, 0, 1, 3])):
            ev.append([rng.choice(VIEW_KEYS + OTHER) for _ in range(rng.choice([1, 1, 2, 6]))])
    return dict(ops=ops, events=ev)


def gen_twin(rng, tier):
    onscreen = rng.random() < 0.6
    spec = gen_spec(rng, onscreen)
    eps = []
    for _ in range(rng.choice([1, 2])):
        n = rng.choice([2, 4, 7])
        eps.append(dict(acts=world.gen_acts(rng, n, 0.4), views=[gen_view(rng, onscreen) for _ in range(n)],
                        end=rng.choice(["", "", "close", "quit", "close-twice"]), seed=rng.getrandbits(20)))
    return dict(spec=spec, onscreen=onscreen, episodes=eps, record=rng.random() < 0.3)


def gen_planned(rng, tier):
    """The trajectories that an agent plans are shown, on roads where the vehicles follow routes."""
    spec = gen_spec(rng, False, ["roundabout", "intersection", "roundabout", "intersection", "custom", "highway", "merge"])
    spec["cfg"].pop("action", None)
    if spec["env"] == "custom":
        spec["cfg"]["action"] = {"type": "DiscreteMetaAction"}
        if len(spec["cfg"]["scene"]["egos"]) > 1:
            spec["cfg"].pop("observation", None)
            spec["cfg"]["scene"]["egos"] = spec["cfg"]["scene"]["egos"][:1]
    n = rng.choice([4, 7, 10])
    views = [dict(ops=[dict(op="sequence", n=rng.choice([4, 9, 14]), k=rng.getrandbits(16), mode="rgb_array")] if rng.random() < 0.5 else [], events=[])
             for _ in range(n)]
    return dict(spec=spec, onscreen=False, record=rng.random() < 0.2,
                episodes=[dict(acts=world.gen_acts(rng, n, 0.6), views=views, end="", seed=rng.getrandbits(20))])


def drive(plan, ctx, look):
    spec = world.clone(plan["spec"])
    if look and plan["record"]:
        spec["cfg"]["show_trajectories"] = True
    env = world.make_env(spec)
    b = world.base(env)
    q = Queue(ctx) if look else None
    trace = []
    for ep in plan["episodes"]:
        env.seed(ep["seed"])
        trace.append(traces.first(env, env.reset()))
        for k, a in enumerate(ep["acts"]):
            if look:
                view(env, b, ep["views"][k % len(ep["views"])], q, ctx)
            out = env.step(world.decode(env.action_space, a))
            trace.append(world.step_sig(env, out))
            ctx.tick(1 / b.config["policy_frequency"])
            if look and b.viewer is not None:
                ctx.probe("steps with a viewer")
        if look and ep["end"]:
            if ep["end"] == "quit" and plan["onscreen"]:
                q.batches = [[q.event("mouse"), q.event("quit"), q.event("down-l")]]
                env.render("human")
                ctx.fault("window closed by the user")
            else:
                env.close()
                ctx.fault("viewer closed")
                if ep["end"] == "close-twice":
                    env.close()
    return trace, env


def view(env, b, v, q, ctx):
    q.batches = [[q.event(e) for e in batch] for batch in v["events"]]
    for batch in v["events"]:
        ctx.fault("viewer events", len(batch))
    for op in v["ops"]:
        o = op["op"]
        if o == "render":
            env.render(mode=op["mode"])
        elif o == "callback":  # intermediate frames rendered by a callback, now and then
            n = [0]

            def cb(n=n, op=op):
                n[0] += 1
                if (op["k"] >> (n[0] % 16)) & 1:
                    env.render(mode=op["mode"])
            env.render(mode=op["mode"])
            b.automatic_rendering_callback = cb
        elif o == "autorender":
            b.automatic_rendering_callback = None
            env.render(mode=op["mode"])
        elif o == "sequence":
            env.render(mode="rgb_array")
            acts = [world.decode(env.action_space, op["k"] + i) for i in range(op["k"] % op.get("n", 4))]
            if hasattr(b.vehicle, "predict_trajectory") and b.viewer is not None and hasattr(env.action_space, "n"):
                b.viewer.set_agent_action_sequence(acts)
                env.render(mode="rgb_array")
        elif o == "agent":
            env.render(mode="rgb_array")
            if b.viewer is not None:
                b.viewer.set_agent_display(lambda agent, sim: agent.fill((op["k"] % 256, 0, 0)))
                env.render(mode=op["mode"])
        elif o == "lose":
            b.viewer = None
        ctx.fault("render:" + o)


def run_twin(plan, ctx):
    world.graphics()
    world.warm(plan["spec"])
    pin(plan["seed"])
    plain, env = drive(plan, ctx, False)
    pin(plan["seed"])
    seen, env = drive(plan, ctx, True)
    ctx.probe("episodes compared", len(plan["episodes"]))
    ctx.event(plain)
    ctx.state(world.abstract_state(env))
    world.compare("disturbed", plain, seen, "episode that is rendered")


# ------------------------------------------------------------------------------------------------- images
def gen_images(rng, tier):
    onscreen = rng.random() < 0.3
    spec = gen_spec(rng, onscreen)
    ops = []
    for _ in range(rng.choice([3, 6, 10])):
        o = rng.choice(["step", "step", "step", "image", "image", "human", "reset", "close", "stage", "lose", "image"])
        op = dict(op=o, a=rng.getrandbits(24))
        if o == "stage":
            if spec["env"] == "lane-keeping":
                continue
            op["event"] = stage.gen_stage(rng, 1, ["crash", "speed", "remove", "push", "crash-ego", "place", "block", "spawn", "swap"], count=1)[0]
        ops.append(op)
    ops.append(dict(op="image", a=rng.getrandbits(24)))
    return dict(spec=spec, onscreen=onscreen, ops=ops)


def run_images(plan, ctx):
    world.graphics()
    q = Queue(ctx)
    env, _ = world.build_env(plan["spec"])
    b = world.base(env)
    cfg = plan["spec"]["cfg"]
    w, h = cfg["screen_width"], cfg["screen_height"]
    staged = False  # a change made behind the environment's back is shown from the next decision on
    for i, op in enumerate(plan["ops"]):
        o = op["op"]
        when = "operation %d" % i
        if o == "step":
            out = env.step(world.decode(env.action_space, op["a"]))
            ctx.event(world.step_sig(env, out))
            ctx.tick(1 / b.config["policy_frequency"])
            staged = False
        elif o == "reset":
            env.reset()
            staged = False
        elif o == "close":
            env.close()
            b.done = False
            ctx.fault("viewer closed")
        elif o == "lose":
            b.viewer = None
            ctx.fault("viewer lost")
        elif o == "stage":
            stage.stage(b, op["event"], ctx)
            staged = True
        elif o == "human":
            env.render("human")
            ctx.fault("render:human")
        else:
            img = env.render("rgb_array")
            ctx.probe("images")
            if not isinstance(img, np.ndarray) or img.shape != (h, w, 3):
                raise Violation("size", "%s: image of shape %s, configured %d x %d" % (when, getattr(img, "shape", None), w, h))
            first = img.copy()
            again = env.render("rgb_array")
            if not np.array_equal(first, again):
                raise Violation("not-idempotent", "%s: rendering twice gives two images (%d pixels differ)" % (
                    when, int((first != again).any(axis=-1).sum())))
            if not np.array_equal(first, img):
                raise Violation("image-changed", "%s: an image changed after it was returned" % when)
            if staged:
                continue
            c = copy.deepcopy(b)
            other = c.render("rgb_array")
            if not np.array_equal(first, other):
                raise Violation("not-scene", "%s: the image is not that of the scene, drawn by a new viewer (%d pixels differ)" % (
                    when, int((first != other).any(axis=-1).sum())))
            ctx.event(world.h8(world.canon(first)))
            if len(np.unique(first.reshape(-1, 3), axis=0)) > 2:
                ctx.probe("images with vehicles or lanes")
            env.render("human")
    ctx.state(world.abstract_state(env))


SHRINK = ["episodes", "acts", "ops", "events"]
FAMILIES = {"twin": (5, gen_twin, run_twin), "planned": (1, gen_planned, run_twin), "images": (3, gen_images, run_images)}
