"""C25 Rewards and costs are the documented function and stay in range."""
import math

from .. import envref, world
from ..core import Violation
from . import stage

ID = "C25"
QUICK_RUNS, THOROUGH_RUNS = 1590, 40000
RULE = "one case = one episode with staged situations (crashes, merging traffic, goals, exits, off-road, lane changes); the reward, the agents' rewards and the cost of every step are compared with the documented functions evaluated on the scene."
REAL = ["environments", "Road", "vehicles"]
STUB = ["the viewer (a stand-in that enables the callback after every tick)"]


def near(a, b):
    return abs(float(a) - b) <= 1e-6 * (1 + abs(b))


class Rewards:
    def __init__(self, ctx):
        self.ctx = ctx

    def step(self, env, action, out):
        ctx = self.ctx
        _, reward, _, info = out
        b, k = world.base(env), envref.kind(env)
        crashed = [bool(c.crashed) for c in b.controlled_vehicles]
        if k == "intersection":
            want = [envref.agent_reward(env, c) for c in b.controlled_vehicles]
            got = info["agents_rewards"]
            if len(want) != len(got):
                raise Violation("agents", "%d agents, %d rewards" % (len(want), len(got)))
            for i, (w, g) in enumerate(zip(want, got)):
                if w is not None and not near(g, w):
                    raise Violation("agent-reward", "agent %d (crashed=%s, arrived=%s, target speed %s) gets %r instead of %r"
                                    % (i, crashed[i], envref.arrived(b.controlled_vehicles[i]), b.controlled_vehicles[i].target_speed, g, w))
            if isinstance(reward, tuple):
                if any(w is not None and not near(g, w) for g, w in zip(reward, want)):
                    raise Violation("agent-reward", "rewards %r instead of %r" % (reward, want))
                reward = sum(reward) / len(reward)
        want = envref.reward(env, action)
        if want is not None:
            ctx.probe("rewards after a crash" if any(crashed) else "rewards")
            if not near(reward, want):
                raise Violation("reward", "%s: the reward of action %r is %r instead of %r (crashed=%s, speed %s, lane %s)" % (
                    k, action, reward, want, crashed, b.vehicle.speed, b.vehicle.lane_index))
        if not math.isfinite(float(reward)):
            raise Violation("reward", "%s: reward %r" % (k, reward))
        if (k in ("highway", "roundabout") or (k == "intersection" and b.config["normalize_reward"])):
            ctx.probe("normalised rewards")
            if not -1e-9 <= float(reward) <= 1 + 1e-9:
                raise Violation("range", "%s: the reward %r is not in [0, 1]" % (k, reward))
        cost = envref.cost(env)
        if cost is not None:
            ctx.probe("costs of a violation" if cost else "costs")
            if "cost" not in info or not near(info["cost"], cost):
                raise Violation("cost", "%s: cost %r instead of %r" % (k, info.get("cost"), cost))
        if k in ("parking", "summon"):
            self.goal(env, out[0], want)

    def goal(self, env, obs, want):
        """The reward can be recomputed from the goals (off-policy relabelling)."""
        obs = obs if isinstance(obs, tuple) else (obs,)
        got = sum(world.base(env).compute_reward(o["achieved_goal"], o["desired_goal"], {}) for o in obs)
        self.ctx.probe("rewards recomputed from the goals")
        if not near(got, want):
            raise Violation("goal-reward", "compute_reward gives %r, the reward is %r" % (got, want))


def run(plan, ctx):
    stage.drive(plan, ctx, Rewards(ctx).step)


def tweak(rng, spec):
    cfg = spec["cfg"]
    if spec["env"] == "highway" and rng.random() < 0.4:
        cfg["reward_speed_range"] = rng.choice([[20, 30], [10, 25], [0, 40], [24, 26]])
        cfg["collision_reward"] = rng.choice([-1, -0.5, -5])
    if "intersection" in spec["env"] and rng.random() < 0.6:
        cfg["collision_reward"] = rng.choice([-5, -1, -2])
        cfg["normalize_reward"] = rng.random() < 0.6


ENVS = ["highway", "highway", "merge", "merge", "parking", "parking", "summon", "roundabout", "two-way", "intersection",
        "multi-intersection", "multi-intersection", "tuple-intersection", "lane-keeping"]
FAMILIES = {"episodes": (1, stage.gen(ENVS, tweak=tweak), run)}
