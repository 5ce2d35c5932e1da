"""C27 The exported planning model is that of the current scene."""
import numpy as np

from .. import envref, ref, world
from ..core import Violation
from . import stage

ID = "C27"
QUICK_RUNS, THOROUGH_RUNS = 900, 30000
RULE = "one case = one episode with staged situations (vehicles that appear, vanish, crash, move or change lane between and within decisions) during which the environment is exported to a finite decision process at planned instants; states, transitions, rewards and terminal states are compared with an independent construction from the scene at that instant."
REAL = ["finite-MDP abstraction", "environments", "Road", "vehicles"]
STUB = ["finite_mdp (a stand-in that keeps the model it is given)", "the viewer (a stand-in that enables the callback after every tick)"]
ASSUMPTIONS = ["The model is documented for one agent with all five meta-actions; speed changes are possible in the first cell of the horizon only.",
               "Cells within 1e-6 of a change of cell are not judged."]
WEIGHTS = dict(highway=(None, 0.1, 0.4, 0), merge=(-1, 0.1, 0.2, -0.05), roundabout=(-1, 0, 0.2, -0.05), custom=(None, 0.1, 0.4, -0.1))
LEFT, IDLE, RIGHT, FASTER, SLOWER = range(5)
HORIZON = 10


class Model:
    def __init__(self, ctx, env):
        self.ctx, self.env = ctx, env
        self.net = ref.Net(world.base(env).road.network)

    def check(self, when):
        b, ctx = world.base(self.env), self.ctx
        v, road, tq = b.vehicle, b.road, 1 / b.config["policy_frequency"]
        before = world.scene_sig(self.env), world.h8(repr(b.road.np_random.get_state()))
        m = b.to_finite_mdp()
        again = b.to_finite_mdp()
        if (world.scene_sig(self.env), world.h8(repr(b.road.np_random.get_state()))) != before:
            raise Violation("disturbed", "%s: exporting the model changed the scene" % when)
        grid, doubt = envref.ttc_grid(self.env, self.net, road, v, tq, HORIZON)
        nh, ni, nj = grid.shape
        n = grid.size
        for name, x in (("transition", m.transition), ("reward", m.reward)):
            if np.shape(x) != (n, 5):
                raise Violation("shape", "%s: the %s table has the shape %s instead of %s (%d speeds, %d lanes, %d instants)" % (
                    when, name, np.shape(x), (n, 5), nh, ni, nj))
        if np.shape(m.terminal) != (n,) or tuple(m.original_shape) != grid.shape:
            raise Violation("shape", "%s: terminal states of shape %s, states of shape %s instead of %s" % (
                when, np.shape(m.terminal), tuple(m.original_shape), grid.shape))
        for x, y in ((m.transition, again.transition), (m.reward, again.reward), (m.terminal, again.terminal), (m.state, again.state)):
            if not np.array_equal(x, y):
                raise Violation("unstable", "%s: exporting twice gives two models" % when)
        ctx.probe("models exported")
        want = (envref.target_index(self.env, v), int(v.lane_index[2]), 0)
        got = tuple(int(x) for x in np.unravel_index(int(m.state), grid.shape))
        if got != want:
            raise Violation("state", "%s: the current state (speed, lane, time) is %s instead of %s" % (when, got, want))
        # transitions
        h, i, j, a = np.meshgrid(np.arange(nh), np.arange(ni), np.arange(nj), np.arange(5), indexing="ij")
        h2 = np.clip(h + ((a == FASTER) & (j == 0)) * 1 - ((a == SLOWER) & (j == 0)) * 1, 0, nh - 1)
        i2 = np.clip(i + (a == RIGHT) * 1 - (a == LEFT) * 1, 0, ni - 1)
        j2 = np.minimum(j + 1, nj - 1)
        t = ((h2 * ni + i2) * nj + j2).reshape(n, 5)
        if not np.array_equal(np.asarray(m.transition), t):
            k = tuple(int(x) for x in np.argwhere(np.asarray(m.transition) != t)[0])
            s = [tuple(int(y) for y in np.unravel_index(int(x), grid.shape)) for x in (k[0], m.transition[k], t[k])]
            raise Violation("transition", "%s: action %d leads from (speed, lane, time) %s to %s instead of %s" % (when, k[1], s[0], s[1], s[2]))
        # rewards
        kind = envref.kind(self.env)
        collision, right, fast, change = WEIGHTS[kind]
        if collision is None:
            collision = b.config["collision_reward"]
        s = collision * grid + right * (np.arange(ni) / max(ni - 1, 1))[None, :, None] + fast * (np.arange(nh) / max(nh - 1, 1))[:, None, None]
        r = s.reshape(n, 1) + np.array([[change, 0, change, 0, 0]])
        sure = ~doubt.reshape(n)
        ctx.probe("cells with a predicted collision", int((grid > 0).sum()))
        bad = (np.abs(np.asarray(m.reward) - r) > 1e-9) & sure[:, None]
        if bad.any():
            k = tuple(int(x) for x in np.argwhere(bad)[0])
            raise Violation("reward", "%s: in (speed, lane, time) %s action %d is worth %r instead of %r (collision cost %s)" % (
                when, tuple(int(x) for x in np.unravel_index(k[0], grid.shape)), k[1], float(m.reward[k]), float(r[k]), grid.reshape(n)[k[0]]))
        # terminal states
        e = (grid == 1) | (np.arange(nj) == nj - 1)[None, None, :]
        bad = (np.asarray(m.terminal, dtype=bool) != e.reshape(n)) & sure
        if bad.any():
            k = int(np.argwhere(bad)[0])
            raise Violation("terminal", "%s: (speed, lane, time) %s is %s" % (
                when, tuple(int(x) for x in np.unravel_index(k, grid.shape)), "terminal" if m.terminal[k] else "not terminal"))


def run(plan, ctx):
    world.finite_mdp()
    spec = plan["spec"]
    box = dict(n=0)

    def on_reset(env, obs):
        box["m"] = Model(ctx, env)
        box["m"].check("%s, reset" % spec["env"])
        world.attach(env, ctx, after=lambda road, dt: after(env))

    def after(env):
        box["n"] += 1
        if (plan["mids"] >> (box["n"] % 24)) & 1:
            ctx.fault("export in the middle of a step")
            box["m"].check("%s, tick %d" % (spec["env"], box["n"]))

    def before(env, action):
        box["m"].check("%s, before a decision" % spec["env"])

    def on_step(env, action, out):
        box["m"].check("%s, decision %d" % (spec["env"], world.base(env).steps))
    stage.drive(plan, ctx, on_step, on_reset, before)


KINDS = ["crash", "speed", "remove", "push", "crash-other", "place", "place", "block", "block", "spawn", "spawn", "swap", "faster", "off-road"]


def tweak(rng, spec):
    cfg = spec["cfg"]
    cfg.pop("action", None)
    if spec["env"] == "custom":
        cfg["scene"]["egos"] = cfg["scene"]["egos"][:1]
        cfg.pop("observation", None)
    if spec["env"] == "highway":
        cfg["vehicles_count"] = rng.choice([1, 3, 5, 8])
        if rng.random() < 0.4:
            cfg["collision_reward"] = rng.choice([-1, -0.5, -5])
    if "simulation_frequency" not in cfg and rng.random() < 0.4:
        cfg.update(policy_frequency=rng.choice([1, 2, 3, 5]), simulation_frequency=15)


GEN = stage.gen(["highway", "highway", "merge", "roundabout", "custom"], steps=(2, 4, 8), kinds=KINDS, tweak=tweak, actions=False)


def gen(rng, tier):
    p = GEN(rng, tier)
    p["mids"] = rng.getrandbits(24) & rng.getrandbits(24) & rng.getrandbits(24)
    return p


SHRINK = ["acts", "events"]
FAMILIES = {"episodes": (1, gen, run)}
