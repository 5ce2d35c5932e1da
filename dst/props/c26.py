"""C26 Vehicles always know their true lane and neighbours."""
import math

from .. import envref, ref, world
from ..core import Violation, derive
from . import common

ID = "C26"
QUICK_RUNS, THOROUGH_RUNS = 1680, 20000
RULE = "one case = one simulated run: at every tick the lane of every vehicle, and at sampled ticks the neighbours on its lane and other lanes and the vehicles in range, are compared with a brute-force reference."
REAL = ["RoadNetwork, lanes, Road.neighbour_vehicles, Road.close_vehicles_to", "vehicles", "environments"]
STUB = []


class Neighbours:
    def __init__(self, ctx, seed):
        self.ctx = ctx
        self.rng = derive("c26", seed)
        self.net, self.road = None, None
        self.t = 0

    def after(self, road, dt):
        ctx = self.ctx
        if self.road is not road:
            self.road, self.net = road, ref.Net(road.network)
        net = self.net
        self.t += 1
        for v in road.vehicles:
            ok = net.closest(v.position, v.heading)
            ctx.probe("lanes")
            li = (v.lane_index[0], v.lane_index[1], int(v.lane_index[2]))
            seam = min(net[k].seam(v.position) for k in ok + [li])
            if li not in ok and seam > 1e-6:
                raise Violation("lane", "a vehicle at %s heading %.3f believes to be on %s, the closest lane is %s"
                                % (ref.xy(v.position), v.heading, v.lane_index, ok[0]))
            if v.lane is not road.network.get_lane(v.lane_index):
                raise Violation("lane", "the lane of a vehicle is not that of its index %s" % (v.lane_index,))
        if self.t % 4:
            return
        lanes = sorted(net.lanes)
        for v in road.vehicles:
            li = tuple(v.lane_index)
            others = [k for k in lanes if k[:2] == li[:2] and k != li]
            asked = [None, li] + others + [self.rng.choice(lanes)]
            target = getattr(v, "target_lane_index", None)
            if target and target[2] is not None:
                asked.append(tuple(target))
            for index in asked:
                front, rear, close = ref.neighbours(net, road, v, index if index is not None else li)
                if close:
                    continue
                got = road.neighbour_vehicles(v) if index is None else road.neighbour_vehicles(v, index)
                ctx.probe("neighbours")
                if front is not None or rear is not None:
                    ctx.probe("neighbours found")
                for name, want, g in (("ahead", front, got[0]), ("behind", rear, got[1])):
                    if want is not g:
                        raise Violation("neighbour", "on lane %s of %s the vehicle %s of %s is reported as %s, not %s"
                                        % (index or li, "its own" if index in (None, li) else "another", name,
                                           ref.xy(v.position), self.name(g), self.name(want)))
            for _ in range(2):
                d = self.rng.choice([20, 50, 180, 7.5])
                count = self.rng.choice([None, None, 0, 1, 2, 4])
                behind = self.rng.random() < 0.6
                want, doubt = envref.close_vehicles(net, road, v, d, behind)
                if doubt:
                    continue
                if count is not None:
                    want = want[:count]
                got = road.close_vehicles_to(v, d, count=count, see_behind=behind)
                ctx.probe("vehicles in range")
                if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
                    raise Violation("close", "vehicles within %s m of %s (count %s, see behind %s): %s instead of %s"
                                    % (d, ref.xy(v.position), count, behind, [self.name(g) for g in got],
                                       [self.name(g) for g in want]))

    @staticmethod
    def name(o):
        return None if o is None else "%s at (%.2f, %.2f)" % (type(o).__name__, o.position[0], o.position[1])


def run_world(plan, ctx):
    w = world.World(plan["world"], ctx)
    c = Neighbours(ctx, plan["seed"])
    w.run(plan["ticks"], plan["dt"], after=lambda w: (c.after(w.road, w.dt), ctx.state(w.abstract()) if w.t % 10 == 0 else None))


def run_env(plan, ctx):
    env, _ = world.build_env(plan["spec"])
    c = Neighbours(ctx, plan["seed"])
    world.attach(env, ctx, after=c.after)
    events = {e["t"]: e for e in plan.get("events", [])}
    for k, a in enumerate(plan["acts"]):
        if k in events:
            common.disturb(world.base(env), events[k], ctx)
        out = env.step(world.decode(env.action_space, a))
        ctx.event(world.step_sig(env, out))
        ctx.state(world.abstract_state(env))


KINDS = [k for k in common.KINDS if k not in ("twice", "command")] + ["object", "spawn", "remove", "push"]


def gen_mixed(rng, tier):
    p = common.gen_mixed(rng, tier, kinds=KINDS, n=rng.choice([4, 8, 14]))
    p["world"]["objects"] = [dict(cls=rng.choice(["Obstacle", "Landmark"]), lane=list(rng.choice(world.edge_indices(p["world"]["road"]))),
                                  s=round(rng.uniform(0, 150), 3), lat=round(rng.uniform(-1.5, 1.5), 3)) for _ in range(rng.randrange(4))]
    return p


FAMILIES = {"mixed": (3, gen_mixed, run_world), "env": (2, common.gen_env(common.ALL_ENVS), run_env)}
