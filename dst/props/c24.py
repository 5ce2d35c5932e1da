"""C24 Episodes end exactly at the documented conditions."""
from .. import envref, world
from ..core import Violation
from . import stage

ID = "C24"
QUICK_RUNS, THOROUGH_RUNS = 1290, 40000
RULE = "one case = one episode with staged situations (crashes of any agent, goals and exits reached, roads left, between decisions or in the middle of one); the termination flag, the agents' flags and the success flag of every step are compared with the documented conditions evaluated on the scene."
REAL = ["environments", "Road", "vehicles"]
STUB = ["the viewer (a stand-in that enables the callback after every tick)"]


class Ends:
    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0

    def reset(self, env, obs):
        self.n = 0

    def step(self, env, action, out):
        ctx = self.ctx
        self.n += 1
        done, info = out[2], out[3]
        k = envref.kind(env)
        b = world.base(env)
        want = envref.terminal(env, self.n)
        agents = None
        if k == "intersection":
            agents = [envref.agent_terminal(env, c, self.n) for c in b.controlled_vehicles]
            got = info["agents_dones"]
            if len(got) != len(agents):
                raise Violation("agents", "%d agents, %d termination flags" % (len(agents), len(got)))
            for i, (w, g) in enumerate(zip(agents, got)):
                if w is not None and bool(g) != w:
                    raise Violation("agent-end", "agent %d is reported as %s, it is %s (crashed=%s, arrived=%s, decision %d)" % (
                        i, "done" if g else "not done", "done" if w else "not", b.controlled_vehicles[i].crashed,
                        envref.arrived(b.controlled_vehicles[i]), self.n))
        if isinstance(done, tuple):
            for w, g in zip(agents, done):
                if w is not None and bool(g) != w:
                    raise Violation("agent-end", "an agent is reported as %r instead of %r" % (g, w))
        elif want is not None:
            ctx.probe("ends" if want else "continuations")
            if bool(done) != want:
                raise Violation("end", "%s, decision %d: the episode is reported as %s, it is %s (%s)" % (
                    k, self.n, "ended" if done else "continuing", "ended" if want else "not", self.why(env)))
        if k in ("parking", "summon"):
            w = [envref.goal_reached(env, c) for c in b.controlled_vehicles]
            g = info["is_success"]
            g = list(g) if isinstance(g, tuple) else [g]
            for x, y in zip(w, g):
                if x is not None and bool(y) != x:
                    raise Violation("success", "the goal is reported as %s" % ("reached" if y else "not reached"))
                if x:
                    ctx.probe("goals reached")

    def why(self, env):
        b = world.base(env)
        return "crashed=%s, position=%s, on its lane=%s" % ([bool(c.crashed) for c in b.controlled_vehicles],
                                                            [tuple(c.position) for c in b.controlled_vehicles],
                                                            [envref.on_lane(c) for c in b.controlled_vehicles])


def run(plan, ctx):
    o = Ends(ctx)
    stage.drive(plan, ctx, o.step, o.reset)


def tweak(rng, spec):
    cfg = spec["cfg"]
    if spec["env"] != "lane-keeping" and rng.random() < 0.5:
        cfg["duration"] = rng.choice([1, 2, 3, 6, 12])
    if spec["env"] == "highway":
        cfg["offroad_terminal"] = rng.random() < 0.6


# ------------------------------------------------------------------------------- registered time limits
LIMITS = {"two-way-v0": 15, "summon-v0": 100, "summon-ActionRepeat-v0": 20, "parking-ActionRepeat-v0": 20, "lane-keeping-v0": 200}


def gen_limit(rng, tier):
    i = rng.choice(["two-way-v0", "two-way-v0", "parking-ActionRepeat-v0", "summon-ActionRepeat-v0", "lane-keeping-v0"])
    return dict(spec=dict(id=i, seed=rng.getrandbits(30)), a=rng.getrandbits(24))


def run_limit(plan, ctx):
    env, _ = world.build_env(plan["spec"])
    limit = LIMITS[plan["spec"]["id"]]
    b = world.base(env)
    for n in range(1, limit + 1):
        out = env.step(world.decode(env.action_space, plan["a"] + n))
        want = True if n >= limit else envref.terminal(env, n)
        ctx.tick(1 / b.config["policy_frequency"])
        ctx.event(world.step_sig(env, out))
        if want is not None:
            ctx.probe("ends" if want else "continuations")
            if bool(out[2]) != want:
                raise Violation("limit", "%s, decision %d of %d: done=%r" % (plan["spec"]["id"], n, limit, out[2]))
        if want:
            break
    ctx.state(world.abstract_state(env))


ENVS = ["highway", "highway", "merge", "parking", "parking", "summon", "roundabout", "two-way", "intersection", "intersection",
        "multi-intersection", "multi-intersection", "tuple-intersection", "lane-keeping"]
FAMILIES = {"episodes": (12, stage.gen(ENVS, tweak=tweak), run), "limits": (1, gen_limit, run_limit)}
