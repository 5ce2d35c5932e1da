"""Documented rewards, termination conditions and observations of the environments, as executable reference."""
import math

import numpy as np

from . import ref
from .world import base, clone, continuous

ARRIVAL = 25.0


def kind(env):
    for cls in type(base(env)).__mro__:
        n = cls.__name__
        if n in KIND:
            return KIND[n]
    raise KeyError(type(env))


KIND = dict(HighwayEnv="highway", MergeEnv="merge", RoundaboutEnv="roundabout", TwoWayEnv="two-way",
            IntersectionEnv="intersection", SummonEnv="summon", ParkingEnv="parking", LaneKeepingEnv="lane-keeping", CustomEnv="custom")


def on_lane(v):
    return ref.RefLane(v.lane).on(v.position)


def arrived(v):
    """True, False or None: beyond 25 m on an exit of the intersection."""
    i = v.lane_index
    if not ("il" in i[0] and "o" in i[1]):
        return False
    s = ref.RefLane(v.lane).local(v.position)[0]
    return None if abs(s - ARRIVAL) < ref.TIE else s > ARRIVAL


def any3(xs):
    xs = list(xs)
    return True if any(x is not None and bool(x) for x in xs) else None if any(x is None for x in xs) else False


def all3(xs):
    xs = list(xs)
    return False if any(x is not None and not x for x in xs) else None if any(x is None for x in xs) else True


def not3(x):
    return None if x is None else not x


def speeds(env):
    """Allowed target speeds of the discrete ego vehicle."""
    return dict(roundabout=[0, 8, 16], intersection=[0, 4.5, 9]).get(kind(env), [20, 25, 30])


def speed_index(env, x):
    """Index of the closest allowed speed, or None in the middle of two."""
    sp = speeds(env)
    ds = sorted((abs(s - x), i) for i, s in enumerate(sp))
    if len(ds) > 1 and ds[1][0] - ds[0][0] < 1e-6:
        return None
    return ds[0][1]


def target_index(env, v):
    return min(range(3), key=lambda i: abs(speeds(env)[i] - v.target_speed))


def out_of_time(env, decisions):
    b, k = base(env), kind(env)
    if k in ("highway", "roundabout", "parking", "summon", "custom"):
        return decisions >= b.config["duration"]
    if k == "intersection":
        x = b.config["duration"] * b.config["policy_frequency"]
        return decisions >= x
    return False


def terminal(env, decisions):
    """Documented end of the episode: True, False, or None if too close to call."""
    b, k = base(env), kind(env)
    v = b.vehicle
    if k == "highway":
        off = b.config["offroad_terminal"] and not3(on_lane(v))
        return any3([bool(v.crashed), out_of_time(env, decisions), off])
    if k == "merge":
        x = v.position[0]
        return any3([bool(v.crashed), None if abs(x - 370) < ref.TIE else bool(x > 370)])
    if k in ("roundabout", "custom"):
        return any3([bool(v.crashed), out_of_time(env, decisions)])
    if k == "two-way":
        return bool(v.crashed)
    if k == "intersection":
        return any3([any(c.crashed for c in b.controlled_vehicles), all3(arrived(c) for c in b.controlled_vehicles),
                     out_of_time(env, decisions)])
    if k in ("parking", "summon"):
        return any3([any(c.crashed for c in b.controlled_vehicles), out_of_time(env, decisions),
                     all3(goal_reached(env, c) for c in b.controlled_vehicles)])
    return False


def agent_terminal(env, v, decisions):
    return any3([bool(v.crashed), out_of_time(env, decisions), arrived(v)])


PARKING_W = [1, 0.3, 0, 0, 0.02, 0.02]


def goal_features(o):
    """x, y, vx, vy, cos h, sin h in units of the documented scales."""
    x, y = ref.xy(o.position)
    s = float(o.speed)
    c, d = math.cos(o.heading), math.sin(o.heading)
    return [x / 100, y / 100, s * c / 5, s * d / 5, c, d]


def goal_distance(env, v):
    a, g = goal_features(v), goal_features(base(env).goal)
    return math.sqrt(sum(w * abs(p - q) for w, p, q in zip(PARKING_W, a, g)))


def goal_reward(env, v):
    r = -goal_distance(env, v)
    if kind(env) == "summon":
        r += -5 * bool(base(env).vehicle.crashed)
    return r


def goal_reached(env, v):
    r = goal_reward(env, v)
    return None if abs(r + 0.12) < ref.TIE else r > -0.12


def lmap(v, x, y):
    return y[0] + (v - x[0]) * (y[1] - y[0]) / (x[1] - x[0])


def agent_reward(env, v):
    b = base(env)
    c = b.config["collision_reward"]
    r = c * bool(v.crashed) + 1.0 * (target_index(env, v) == 2)
    a = arrived(v)
    if a is None:
        return None
    if a:
        r = 1.0
    if b.config["normalize_reward"]:
        r = lmap(r, [c, 1.0], [0, 1])
    return r


LABELS = {(True, True): ["LANE_LEFT", "IDLE", "LANE_RIGHT", "FASTER", "SLOWER"],
          (True, False): ["SLOWER", "IDLE", "FASTER"], (False, True): ["LANE_LEFT", "IDLE", "LANE_RIGHT"]}


def labels(cfg):
    """Documented labels of the discrete actions of an action configuration, or None."""
    if cfg.get("type") == "MultiAgentAction":
        cfg = cfg["action_config"]
    if cfg.get("type") != "DiscreteMetaAction":
        return None
    return LABELS[bool(cfg.get("longitudinal", True)), bool(cfg.get("lateral", True))]


def reward(env, action):
    """Documented reward at the end of a step, or None if a condition is too close to call."""
    b, k = base(env), kind(env)
    v = b.vehicle
    names = labels(b.config["action"])
    label = names[int(action)] if names and not isinstance(action, (tuple, list)) else None
    change = label in ("LANE_LEFT", "LANE_RIGHT")
    if k == "highway":
        on = on_lane(v)
        if on is None:
            return None
        if not on:
            return 0.0
        n = len(b.road.network.graph[v.lane_index[0]][v.lane_index[1]])
        lane = (v.target_lane_index if hasattr(v, "target_lane_index") else v.lane_index)[2]
        c = b.config["collision_reward"]
        speed = ref.clip(lmap(v.speed, b.config["reward_speed_range"], [0, 1]), 0, 1)
        return lmap(c * bool(v.crashed) + 0.1 * lane / max(n - 1, 1) + 0.4 * speed, [c, 0.5], [0, 1])
    if k == "merge":
        r = -1.0 * bool(v.crashed) + 0.1 * v.lane_index[2] + 0.2 * target_index(env, v) / 2
        for o in b.road.vehicles:
            if tuple(o.lane_index) == ("b", "c", 2) and hasattr(o, "target_speed"):
                r += -0.5 * (o.target_speed - o.speed) / o.target_speed
        return lmap(r - 0.05 * change, [-1.5, 0.3], [0, 1])
    if k == "roundabout":
        # the documentation of the action space: 0 and 2 are the lane changes of the full discrete actions
        i = target_index(env, v) if hasattr(v, "target_speed") else speed_index(env, v.speed)
        if i is None:
            return None
        r = -1.0 * bool(v.crashed) + 0.2 * i / 2 - 0.05 * change
        return lmap(r, [-1.05, 0.2], [0, 1])
    if k == "two-way":
        n = len(b.road.network.graph[v.lane_index[0]][v.lane_index[1]])
        if n < 2:
            return None
        return 0.8 * target_index(env, v) / 2 + 0.2 * (n - 1 - v.target_lane_index[2]) / (n - 1)
    if k == "intersection":
        rs = [agent_reward(env, c) for c in b.controlled_vehicles]
        return None if None in rs else sum(rs) / len(rs)
    if k in ("parking", "summon"):
        return sum(goal_reward(env, c) for c in b.controlled_vehicles)
    lat = ref.RefLane(b.lane).local(v.position)[1]
    return 1 - (lat / b.lane.width) ** 2


def cost(env):
    k, v = kind(env), base(env).vehicle
    if k in ("highway", "intersection"):
        return float(v.crashed)
    if k == "two-way":
        return float(v.crashed) + (v.lane_index[2] == 0) / 15
    return None


# ------------------------------------------------------------------------------------------- observations
PERCEPTION = 180.0


def direction_to_destination(net, v):
    route = getattr(v, "route", None)
    if not route:
        return 0.0, 0.0
    lane = net[route[-1]]
    x, y = lane.position(lane.length, 0)
    dx, dy = x - v.position[0], y - v.position[1]
    n = math.hypot(dx, dy)
    return (dx / n, dy / n) if n > 0 else (0.0, 0.0)


def features(net, v, origin=None, intentions=True):
    x, y = ref.xy(v.position)
    vx, vy = ref.velocity(v)
    cd, sd = direction_to_destination(net, v) if intentions else (0.0, 0.0)
    d = dict(presence=1.0, x=x, y=y, vx=vx, vy=vy, heading=float(v.heading), cos_h=math.cos(v.heading),
             sin_h=math.sin(v.heading), cos_d=cd, sin_d=sd)
    if origin is not None:
        o = features(net, origin)
        for k in ("x", "y", "vx", "vy"):
            d[k] -= o[k]
    return d


def close_groups(net, road, v, distance, see_behind=True):
    """(groups of vehicles at equal distance along the lane of v, nearest first; doubtful)."""
    lane = net[v.lane_index]
    s0 = lane.local(v.position)[0]
    doubt = lane.seam(v.position) < 1e-6
    found = []
    for o in road.vehicles:
        if o is v:
            continue
        d = math.hypot(o.position[0] - v.position[0], o.position[1] - v.position[1])
        ds = lane.local(o.position)[0] - s0
        if abs(d - distance) < ref.TIE or lane.seam(o.position) < 1e-6:
            doubt = True
        if d >= distance:
            continue
        if not see_behind:
            if abs(ds + 2 * v.LENGTH) < ref.TIE:
                doubt = True
            if ds <= -2 * v.LENGTH:
                continue
        found.append((abs(ds), o))
    found.sort(key=lambda e: e[0])
    groups, last = [], None
    for d, o in found:
        if last is not None and d - last < ref.TIE:
            groups[-1].append(o)
        else:
            groups.append([o])
        last = d
    return groups, doubt


def close_vehicles(net, road, v, distance, see_behind=True):
    """(vehicles sorted by distance along the lane of v, doubtful)."""
    groups, doubt = close_groups(net, road, v, distance, see_behind)
    return [o for g in groups for o in g], doubt or any(len(g) > 1 for g in groups)


def default_range(net, v):
    n = net.n(v.lane_index)
    return dict(x=[-150.0, 150.0], y=[-4.0 * n, 4.0 * n], vx=[-60.0, 60.0], vy=[-60.0, 60.0])


KINEMATICS_FEATURES = ["presence", "x", "y", "vx", "vy"]


def kinematics(net, road, v, cfg, frange):
    """(observer row, groups of rows of vehicles equally near, doubtful).

    frange: the range in effect (captured at the first observation when not configured)."""
    names = cfg.get("features") or KINEMATICS_FEATURES
    groups, doubt = close_groups(net, road, v, PERCEPTION, cfg.get("see_behind", False))
    origin = None if cfg.get("absolute", False) else v

    def row(f):
        out = np.zeros(len(names))
        for j, n in enumerate(names):
            x = f[n]
            if cfg.get("normalize", True) and n in frange:
                x = lmap(x, frange[n], [-1, 1])
                if cfg.get("clip", True):
                    x = ref.clip(x, -1, 1)
            out[j] = x
        return out
    return row(features(net, v)), [[row(features(net, o, origin, cfg.get("observe_intentions", False))) for o in g]
                                   for g in groups], doubt


def occupancy(net, road, v, cfg, frange=None):
    """{cell (row y, column x): [feature vectors of the vehicles in it]}, shape, doubtful cells."""
    names = cfg.get("features") or ["presence", "vx", "vy"]
    size = cfg.get("grid_size") or [[-27.5, 27.5], [-27.5, 27.5]]
    step = cfg.get("grid_step") or [5, 5]
    frange = cfg.get("features_range") or dict(vx=[-60.0, 60.0], vy=[-60.0, 60.0])
    nx, ny = [int(math.floor((size[i][1] - size[i][0]) / step[i] + 1e-9)) for i in (0, 1)]
    cells, doubt = {}, set()
    for o in road.vehicles:
        f = features(net, o, v)
        cx, cy = (f["x"] - size[0][0]) / step[0], (f["y"] - size[1][0]) / step[1]
        if (o is not v or "x" in frange or "y" in frange) and (abs(cx - round(cx)) < 1e-6 or abs(cy - round(cy)) < 1e-6):
            for i in (round(cx) - 1, round(cx), math.floor(cx)):
                for j in (round(cy) - 1, round(cy), math.floor(cy)):
                    doubt.add((j, i))
        i, j = int(math.floor(cx)), int(math.floor(cy))
        if 0 <= i < nx and 0 <= j < ny:
            vec = []
            for name in names:
                x = f[name]
                if name in frange:
                    x = lmap(x, frange[name], [-1, 1])
                vec.append(ref.clip(x, -1, 1))
            cells.setdefault((j, i), []).append(vec)
    return cells, (len(names), ny, nx), doubt


# -------------------------------------------------------------------------------------- time to collision
def connected(net, index, other, route, depth):
    """Do vehicles on lane `other` have to be considered for collisions by one on lane `index` with this route?"""
    if other[:2] == index[:2] or other[1] == index[0]:
        return True
    if depth == 0:
        return False
    route = [tuple(r) for r in route or []]
    if route and route[0][:2] == index[:2]:
        return connected(net, index, other, route[1:], depth)
    if route and route[0][0] == index[1]:
        return connected(net, route[0], other, route[1:], depth - 1)
    return any(connected(net, (index[1], t, index[2]), other, route, depth - 1) for t in net.successors(index[1]))


def ttc_grid(env, net, road, v, tq, horizon):
    """(grid, mask of the doubtful cells) of predicted collisions, with axes speed, lane, time."""
    sp = speeds(env)
    lanes = net.n(v.lane_index)
    times = int(round(horizon / tq, 6))
    grid, doubt = np.zeros((len(sp), lanes, times)), np.zeros((len(sp), lanes, times), dtype=bool)
    lane = net[v.lane_index]
    for i, ego in enumerate(sp):
        for o in road.vehicles:
            if o is v:
                continue
            along = o.speed * math.cos(o.heading - v.heading)
            if not connected(net, tuple(v.lane_index), tuple(o.lane_index), getattr(v, "route", None), 3):
                continue
            cols = [o.lane_index[2]] if net.n(o.lane_index) == lanes else list(range(lanes))
            seam = min(lane.seam(v.position), lane.seam(o.position)) < 1e-6
            for m, cost in ((0.0, 1.0), (-5.0, 0.5), (5.0, 0.5)):
                d = lane.local(o.position)[0] - lane.local(v.position)[0] + m
                dv = ego - along
                if abs(ego - o.speed) < 1e-9 and ego == o.speed:
                    continue
                close = seam or abs(ego - o.speed) < 1e-6 or abs(abs(dv) - 1e-2) < 1e-9 or abs(d) < 1e-6
                t = d / ref.nz(dv)
                if t < 0 and not close:
                    continue
                q = t / tq
                if close:
                    for c in cols:
                        doubt[i, c, :] = True
                    continue
                if abs(q - round(q)) < 1e-6:
                    for x in (round(q) - 1, round(q), round(q) + 1):
                        if 0 <= x < times:
                            doubt[i, cols, x] = True
                    continue
                for x in (int(math.floor(q)), int(math.ceil(q))):
                    if 0 <= x < times:
                        grid[i, cols, x] = np.maximum(grid[i, cols, x], cost)
    return grid, doubt


def ttc(env, net, road, v, horizon):
    """(observation, mask of the doubtful entries) of the time-to-collision observation."""
    grid, doubt = ttc_grid(env, net, road, v, 1 / base(env).config["policy_frequency"], horizon)
    sp, lanes, times = grid.shape
    k, l = target_index(env, v), int(v.lane_index[2])
    out, mask = np.ones((3, 3, times)), np.zeros((3, 3, times), dtype=bool)
    for a in range(3):
        i = min(max(k + a - 1, 0), sp - 1)
        for c in range(3):
            if 0 <= l + c - 1 < lanes:
                out[a, c], mask[a, c] = grid[i, l + c - 1], doubt[i, l + c - 1]
    return out, mask
