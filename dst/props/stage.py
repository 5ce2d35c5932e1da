"""Faults and situations staged in environments, between two decisions or between two ticks of one."""
import math

import numpy as np

from .. import envref, world
from . import common


def lanes_of(net):
    return sorted((f, t, i) for f, tos in net.graph.items() for t, ls in tos.items() for i in range(len(ls)))


def put(b, v, index, s, lat=0.0, dh=0.0, speed=None):
    """Put a vehicle somewhere on a lane, with set-points that agree."""
    lane = b.road.network.get_lane(index)
    v.position = np.array(lane.position(s, lat), dtype=float)
    v.heading = float(lane.heading_at(s)) + dh
    if speed is not None:
        v.speed = float(speed)
    v.on_state_update()
    if hasattr(v, "target_lane_index"):
        v.target_lane_index = v.lane_index
        if getattr(v, "route", None):
            v.plan_route_to(v.route[-1][1])


def exits(b):
    return [k for k in lanes_of(b.road.network) if k[0].startswith("il") and k[1].startswith("o")]


def stage(b, e, ctx):
    """Apply one event to an environment. Everything it does could be done by a user or by traffic."""
    k = e["what"]
    egos = list(b.controlled_vehicles)
    ego = egos[e["i"] % len(egos)]
    name = envref.kind(b)
    f = e.get("f", 0.5)
    if k in ("crash", "speed", "remove", "push"):
        return common.disturb(b, e, ctx)
    if k == "crash-ego":
        ego.crashed = True
    elif k == "crash-other":
        others = [v for v in b.road.vehicles if not any(v is c for c in egos)]
        if not others:
            return
        others[e["i"] % len(others)].crashed = True
    elif k == "place":  # somewhere on some lane
        ls = lanes_of(b.road.network)
        index = ls[e["i"] % len(ls)]
        put(b, ego, index, f * b.road.network.get_lane(index).length, e.get("lat", 0.0), e.get("dh", 0.0))
    elif k == "off-road":
        lane = ego.lane
        s, _ = lane.local_coordinates(ego.position)
        side = 1 if e["i"] % 2 else -1
        far = [lane.position(s, side * r) for r in (2 * f, 4 * f, 12, 25)]
        ego.position = np.array(far[e["i"] % 4], dtype=float)
        ego.on_state_update()
    elif k == "goal":  # near a documented goal, exit or end
        if name in ("parking", "summon"):
            g = b.goal
            d = 0.01 + 1.2 * f ** 3
            ego.position = np.array(g.position, dtype=float) + d * np.array([math.cos(e["i"]), math.sin(e["i"])])
            ego.heading = float(g.heading) + e.get("dh", 0.0) * f
            ego.speed = e.get("v", 0.0) * (e["i"] % 2)
            ego.on_state_update()
        elif name == "intersection":
            index = exits(b)[e["i"] % 4]
            put(b, ego, index, 22 + 6 * f)
        elif name == "merge":
            x = 366 + 6 * f
            put(b, ego, ("c", "d", e["i"] % 2), x - 310)
        else:
            return
    elif k == "exit":  # near the end of an exit road
        if name != "intersection":
            return
        put(b, ego, exits(b)[e["i"] % 4], 74 + 20 * f)
    elif k == "wall":  # an obstacle appears ahead
        from highway_env.road.objects import Obstacle
        d = 6 + 30 * f
        p = ego.position + d * np.array([math.cos(ego.heading), math.sin(ego.heading)])
        b.road.objects.append(Obstacle(b.road, p, heading=ego.heading))
    elif k == "block":  # a vehicle is put ahead of, behind or beside the ego vehicle
        others = [v for v in b.road.vehicles if not any(v is c for c in egos)]
        if not others:
            return
        o = others[e["i"] % len(others)]
        s, _ = ego.lane.local_coordinates(ego.position)
        put(b, o, tuple(ego.lane_index), s + 40 * (f - 0.3) + (6 if f >= 0.3 else -6), 0.0, 0.0, e.get("v", 0.0))
    elif k == "hit":  # a vehicle is thrown into an agent
        others = [v for v in b.road.vehicles if v is not ego]
        if not others:
            return
        o = others[e["i"] % len(others)]
        o.position = np.array(ego.position, dtype=float) + 6 * (f - 0.5)
        o.on_state_update()
    elif k == "spawn":  # a vehicle appears near the ego vehicle
        from highway_env.vehicle.behavior import IDMVehicle
        from highway_env.vehicle.kinematics import Vehicle
        ls = [i for i in lanes_of(b.road.network) if i[:2] == tuple(ego.lane_index)[:2]]
        index = ls[e["i"] % len(ls)]
        s, _ = ego.lane.local_coordinates(ego.position)
        cls = Vehicle if name == "parking" else IDMVehicle
        b.road.vehicles.append(cls.make_on_lane(b.road, index, s + 80 * (f - 0.4), e.get("v", 0.0)))
    elif k == "swap":  # the vehicles are listed in another order
        import random
        random.Random(e["i"]).shuffle(b.road.vehicles)
    elif k == "faster":
        ego.speed = e.get("v", 0.0)
    else:
        raise KeyError(k)
    ctx.fault(k)


STAGES = ["crash", "speed", "remove", "push", "crash-ego", "crash-other", "place", "off-road", "goal", "wall", "block", "hit", "faster"]


def gen_stage(rng, n, kinds=STAGES, count=None):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3]) if count is None else count):
        out.append(dict(t=rng.randrange(n), what=rng.choice(list(kinds)), i=rng.randrange(12), f=round(rng.random(), 4),
                        v=round(rng.uniform(0, 35), 2), d=round(rng.uniform(-3, 3), 2), lat=round(rng.uniform(-1.5, 1.5), 2),
                        dh=round(rng.uniform(-0.3, 0.3), 2), tick=rng.choice([None, None, 0, 1, 3, 7])))
    return out


def gen(envs, steps=(3, 8, 14), kinds=STAGES, obs=False, tweak=None, **kw):
    def make(rng, tier):
        spec = world.gen_env(rng, list(envs), obs=obs, **kw)
        cfg = spec["cfg"]
        if spec["env"] == "highway":
            cfg["vehicles_count"] = rng.choice([1, 3, 5, 8])
        if spec["env"] == "parking" and rng.random() < 0.3:
            multi_parking(cfg, rng.choice([1, 2, 3]))
        if tweak:
            tweak(rng, spec)
        n = rng.choice(list(steps))
        return dict(spec=spec, acts=world.gen_acts(rng, n, 0.4), events=gen_stage(rng, n, kinds))
    return make


def multi_parking(cfg, n):
    cfg["controlled_vehicles"] = n
    inner = cfg.get("action") if (cfg.get("action") or {}).get("type") == "ContinuousAction" else {"type": "ContinuousAction"}
    cfg["action"] = {"type": "MultiAgentAction", "action_config": inner}
    cfg["observation"] = {"type": "MultiAgentObservation", "observation_config": {
        "type": "KinematicsGoal", "features": ["x", "y", "vx", "vy", "cos_h", "sin_h"], "scales": [100, 100, 5, 5, 1, 1],
        "normalize": False}}


def drive(plan, ctx, on_step, on_reset=None, before=None, after_mid=None):
    """Run an episode with its staged events, those with a tick in the middle of the decision."""
    env, obs = world.build_env(plan["spec"])
    b = world.base(env)
    if on_reset:
        on_reset(env, obs)
    dt = 1 / b.config["simulation_frequency"]
    for k, a in enumerate(plan["acts"]):
        mid = []
        for e in plan.get("events", []):
            if e["t"] != k:
                continue
            if e.get("tick") is None or envref.kind(env) == "lane-keeping":
                stage(b, e, ctx)
            else:
                mid.append(e)
        action = world.decode(env.action_space, a)
        if before:
            before(env, action)
        n = [0]
        if mid:
            def cb():
                for e in mid:
                    if e["tick"] == n[0]:
                        stage(b, e, ctx)
                        if after_mid:
                            after_mid(env)
                n[0] += 1
            world.midstep(env, cb)
            world.arm(env)
        t0 = b.time
        try:
            out = env.step(action)
        finally:
            if mid:
                world.unarm(env)
        ctx.tick(dt, b.time - t0)
        on_step(env, action, out)
        ctx.event(world.step_sig(env, out))
        ctx.state(world.abstract_state(env))
    return env
