"""Independent executable reference of the documented geometry, vehicle models and driver models.

Nothing here calls the code under test, except to read the public attributes of lanes and vehicles. Every
decision that is numerically too close to call is reported as such (None or a `close` flag) instead of judged.
"""
import math

TIE = 1e-6


def wrap(a):
    return (a + math.pi) % (2 * math.pi) - math.pi


def nz(x, eps=1e-2):
    return x if abs(x) > eps else (eps if x > 0 else -eps)


def clip(x, a, b):
    return a if x < a else b if x > b else x


def xy(p):
    return float(p[0]), float(p[1])


# ------------------------------------------------------------------------------------------------- lanes
VLEN = 5.0


class RefLane:
    """The documented geometry of a lane, recomputed from its defining attributes."""

    def __init__(self, lane):
        self.width = float(lane.width)
        self.forbidden = bool(lane.forbidden)
        self.speed_limit = lane.speed_limit
        self.priority = lane.priority
        if hasattr(lane, "radius"):
            self.kind = "circular"
            self.cx, self.cy = xy(lane.center)
            self.radius = float(lane.radius)
            self.p0, self.p1 = float(lane.start_phase), float(lane.end_phase)
            self.cw = 1 if lane.direction > 0 else -1
            self.length = self.radius * (self.p1 - self.p0) * self.cw
        else:
            self.kind = "sine" if hasattr(lane, "amplitude") else "straight"
            self.x0, self.y0 = xy(lane.start)
            self.x1, self.y1 = xy(lane.end)
            self.length = math.hypot(self.x1 - self.x0, self.y1 - self.y0)
            self.ux, self.uy = (self.x1 - self.x0) / self.length, (self.y1 - self.y0) / self.length
            self.th = math.atan2(self.uy, self.ux)
            if self.kind == "sine":
                self.amp, self.puls, self.phase = float(lane.amplitude), float(lane.pulsation), float(lane.phase)

    def local(self, p):
        x, y = xy(p)
        if self.kind == "circular":
            dx, dy = x - self.cx, y - self.cy
            phi = self.p0 + wrap(math.atan2(dy, dx) - self.p0)
            return self.cw * (phi - self.p0) * self.radius, self.cw * (self.radius - math.hypot(dx, dy))
        dx, dy = x - self.x0, y - self.y0
        s, r = dx * self.ux + dy * self.uy, -dx * self.uy + dy * self.ux
        if self.kind == "sine":
            r -= self.amp * math.sin(self.puls * s + self.phase)
        return s, r

    def position(self, s, r):
        if self.kind == "circular":
            phi = self.cw * s / self.radius + self.p0
            rho = self.radius - r * self.cw
            return self.cx + rho * math.cos(phi), self.cy + rho * math.sin(phi)
        if self.kind == "sine":
            r = r + self.amp * math.sin(self.puls * s + self.phase)
        return self.x0 + s * self.ux - r * self.uy, self.y0 + s * self.uy + r * self.ux

    def heading(self, s):
        if self.kind == "circular":
            return self.cw * s / self.radius + self.p0 + math.pi / 2 * self.cw
        if self.kind == "sine":
            return self.th + math.atan(self.amp * self.puls * math.cos(self.puls * s + self.phase))
        return self.th

    def seam(self, p):
        """How close the position is to the cut of the local coordinates of a circular lane [rad]."""
        if self.kind != "circular":
            return math.inf
        x, y = xy(p)
        return math.pi - abs(wrap(math.atan2(y - self.cy, x - self.cx) - self.p0))

    # Each of these returns True, False, or None when too close to call
    def on(self, p, margin=0.0):
        s, r = self.local(p)
        return _all(_le(abs(r), self.width / 2 + margin), _le(-VLEN, s), _lt(s, self.length + VLEN))

    def reachable(self, p):
        if self.forbidden:
            return False
        s, r = self.local(p)
        return _all(_le(abs(r), 2 * self.width), _le(0, s), _lt(s, self.length + VLEN))

    def after_end(self, p):
        return _lt(self.length - VLEN / 2, self.local(p)[0])

    def distance(self, p):
        s, r = self.local(p)
        return abs(r) + max(s - self.length, 0) + max(-s, 0)

    def distance_heading(self, p, h):
        s, r = self.local(p)
        return abs(r) + max(s - self.length, 0) + max(-s, 0) + abs(wrap(h - self.heading(s)))


def _le(a, b):
    return None if abs(a - b) < TIE else bool(a < b)


_lt = _le


def _all(*xs):
    if any(x is not None and not x for x in xs):
        return False
    return None if any(x is None for x in xs) else True


class Net:
    """Reference lanes of a road network, in the order in which they were added."""

    def __init__(self, network):
        self.lanes = {}
        self.roads = {}
        for f, tos in network.graph.items():
            for t, lanes in tos.items():
                self.roads[(f, t)] = len(lanes)
                for i, lane in enumerate(lanes):
                    self.lanes[(f, t, i)] = RefLane(lane)

    def __getitem__(self, index):
        f, t, i = index
        return self.lanes[(f, t, 0 if i is None else int(i))]

    def closest(self, p, h):
        """Indexes of the lanes that may be the closest one to this position and heading, with the margin."""
        ds = sorted((lane.distance_heading(p, h), k) for k, lane in self.lanes.items())
        best = ds[0][0]
        return [k for d, k in ds if d - best < 1e-6]

    def n(self, index):
        return self.roads[(index[0], index[1])]

    def side(self, index):
        f, t, i = index
        return [(f, t, j) for j in (i - 1, i + 1) if 0 <= j < self.n(index)]

    def successors(self, node):
        return [t for (f, t) in self.roads if f == node]


# --------------------------------------------------------------------------------------------- rectangles
def corners(x, y, length, width, h):
    c, s = math.cos(h), math.sin(h)
    return [(x + a * length / 2 * c - b * width / 2 * s, y + a * length / 2 * s + b * width / 2 * c)
            for a, b in ((1, 1), (1, -1), (-1, -1), (-1, 1))]


def overlap(r1, r2):
    """Signed separation-axis overlap of two rectangles (x, y, length, width, heading): positive if they overlap."""
    best = math.inf
    p1, p2 = corners(*r1), corners(*r2)
    for h in (r1[4], r1[4] + math.pi / 2, r2[4], r2[4] + math.pi / 2):
        ax, ay = math.cos(h), math.sin(h)
        a = [x * ax + y * ay for x, y in p1]
        b = [x * ax + y * ay for x, y in p2]
        best = min(best, min(max(a), max(b)) - max(min(a), min(b)))
    return best


def footprint(o, scale=0.9):
    x, y = xy(o.position)
    return x, y, scale * o.LENGTH, scale * o.WIDTH, float(o.heading)


# ----------------------------------------------------------------------------------------- vehicle models
def clipped(v):
    """Steering and acceleration effectively applied by a vehicle (before its step)."""
    steer, acc = float(v["steer"]), float(v["acc"])
    if v["crashed"]:
        steer, acc = 0.0, -v["speed"]
    if v["speed"] > v["max"]:
        acc = min(acc, v["max"] - v["speed"])
    elif v["speed"] < -v["max"]:
        acc = max(acc, -v["max"] - v["speed"])
    return steer, acc


def bicycle(v, dt):
    """Modified bicycle model, with the centre of gravity in the middle of the vehicle."""
    steer, acc = clipped(v)
    beta = math.atan(0.5 * math.tan(steer))
    return dict(x=v["x"] + v["speed"] * math.cos(v["h"] + beta) * dt,
                y=v["y"] + v["speed"] * math.sin(v["h"] + beta) * dt,
                h=v["h"] + v["speed"] * math.sin(beta) / (v["len"] / 2) * dt,
                speed=v["speed"] + acc * dt)


def dynamical(v, dt):
    """Rajamani's dynamical bicycle model with linear tyres (unit mass), damped below 1 m/s."""
    steer, acc = clipped(v)
    steer = clip(steer, -math.pi / 2, math.pi / 2)
    m, a, b = 1.0, 2.5, 2.5
    iz = (5.0 ** 2 + 3 * 2.0 ** 2) / 12
    cf = cr = 15.0
    u, w = v["speed"], v["lat"]
    r = clip(v["yaw"], -2 * math.pi, 2 * math.pi)
    if abs(u) < 1:
        ff = -m * w - iz / a * r
        fr = -m * w + iz / a * r
    else:
        ff = 2 * cf * (steer - math.atan2(w + a * r, u))
        fr = 2 * cr * (0 - math.atan2(w - b * r, u))
    dw = (ff + fr) / m - r * u
    dr = (a * ff - b * fr) / iz
    c, s = math.cos(v["h"]), math.sin(v["h"])
    return dict(x=v["x"] + (c * u - s * w) * dt, y=v["y"] + (s * u + c * w) * dt, h=v["h"] + r * dt,
                speed=u + acc * dt, lat=w + dw * dt, yaw=r + dr * dt)


def state(v):
    """Snapshot of what the vehicle models need."""
    x, y = xy(v.position)
    d = dict(x=x, y=y, h=float(v.heading), speed=float(v.speed), crashed=bool(v.crashed),
             steer=v.action["steering"], acc=v.action["acceleration"], max=float(v.MAX_SPEED), len=float(v.LENGTH))
    if hasattr(v, "yaw_rate"):
        d.update(lat=float(v.lateral_speed), yaw=float(v.yaw_rate))
    return d


def advance(d, dt):
    return dynamical(d, dt) if "yaw" in d else bicycle(d, dt)


# ------------------------------------------------------------------------------------------ driver models
IDM = dict(acc_max=6.0, a=3.0, b=-5.0, d0=10.0, T=1.5, delta=4.0, politeness=0.0, gain=0.2, braking=2.0, delay=1.0)
LINEAR = dict(IDM, T=2.5, theta=[0.3, 0.3, 2.0])
AGGRESSIVE = dict(LINEAR, gain=1.0, theta=[0.8 / (0.25 * 30), 0.8 / (0.75 * 30), 0.5])
DEFENSIVE = dict(LINEAR, gain=1.0, theta=[1.2 / (0.25 * 30), 1.2 / (0.75 * 30), 2.0])
MODELS = dict(IDMVehicle=IDM, LinearVehicle=LINEAR, AggressiveVehicle=AGGRESSIVE, DefensiveVehicle=DEFENSIVE)
INTERSECTION = dict(d0=7.0, a=6.0, b=-3.0)  # what the intersection environment documents for its traffic
PARAMETERS = dict(COMFORT_ACC_MAX="a", COMFORT_ACC_MIN="b", DISTANCE_WANTED="d0", TIME_WANTED="T", DELTA="delta", ACC_MAX="acc_max",
                  POLITENESS="politeness", LANE_CHANGE_MIN_ACC_GAIN="gain", LANE_CHANGE_MAX_BRAKING_IMPOSED="braking", LANE_CHANGE_DELAY="delay")
THETA_RANGE = ([0.15, 0.15, 1.0], [0.45, 0.45, 3.0])


def model_of(v, overrides=None):
    """Documented driver model of a traffic vehicle, or None."""
    for cls in type(v).__mro__:
        if cls.__name__ in MODELS:
            m = dict(MODELS[cls.__name__])
            break
    else:
        return None
    m["linear"] = "theta" in m
    for k, x in getattr(v, "driver_parameters", {}).items():  # chosen for this very vehicle
        m[PARAMETERS[k]] = x
    if overrides:
        m.update(overrides)
    if m["linear"] and "ACCELERATION_PARAMETERS" in vars(v):  # randomised behaviour of this very vehicle
        m["theta"] = [float(x) for x in v.ACCELERATION_PARAMETERS]
    return m


def is_object(o):
    return hasattr(o, "hit") and not hasattr(o, "crashed")


def lane_gap(net, ego, other):
    lane = net[ego.lane_index]
    return lane.local(other.position)[0] - lane.local(ego.position)[0]


def velocity(o):
    return o.speed * math.cos(o.heading), o.speed * math.sin(o.heading)


def desired_gap(m, ego, front):
    vx, vy = velocity(ego)
    fx, fy = velocity(front)
    dv = (vx - fx) * math.cos(ego.heading) + (vy - fy) * math.sin(ego.heading)
    return m["d0"] + ego.speed * m["T"] + ego.speed * dv / (2 * math.sqrt(-m["a"] * m["b"]))


def acceleration(net, m, ego, front):
    """Acceleration (before clipping) the model m prescribes to ego behind front."""
    if m["linear"]:
        vt = dv = dp = 0.0
        if ego is not None and not is_object(ego):
            vt = getattr(ego, "target_speed", ego.speed) - ego.speed
            if front is not None:
                d = lane_gap(net, ego, front)
                dv = min(front.speed - ego.speed, 0)
                dp = min(d - (m["d0"] + max(ego.speed, 0) * m["T"]), 0)
        return m["theta"][0] * vt + m["theta"][1] * dv + m["theta"][2] * dp
    if ego is None or is_object(ego):
        return 0.0
    acc = m["a"] * (1 - (max(ego.speed, 0) / nz(getattr(ego, "target_speed", 0))) ** m["delta"])
    if front is not None:
        acc -= m["a"] * (desired_gap(m, ego, front) / nz(lane_gap(net, ego, front))) ** 2
    return acc


def neighbours(net, road, v, index=None):
    """(front, rear, close): nearest vehicle or obstacle ahead/behind on a lane; close if a tie makes it ambiguous."""
    lane = net[index if index is not None else v.lane_index]
    s = lane.local(v.position)[0]
    close = lane.seam(v.position) < 1e-6
    ahead, behind = [], []
    for o in list(road.vehicles) + list(road.objects):
        if o is v or type(o).__name__ == "Landmark":
            continue
        on = lane.on(o.position, margin=1)
        if on is None or lane.seam(o.position) < 1e-6:
            close = True
        if not on:
            continue
        so = lane.local(o.position)[0]
        if abs(so - s) < TIE:
            close = True
        (ahead if so >= s else behind).append((so, o))
    ahead.sort(key=lambda e: e[0])
    behind.sort(key=lambda e: -e[0])
    for side in (ahead, behind):
        if len(side) > 1 and abs(side[0][0] - side[1][0]) < TIE:
            close = True
    return ahead[0][1] if ahead else None, behind[0][1] if behind else None, close


def mobil(net, road, v, m, index):
    """Should v move to this adjacent lane? True, False, or None when too close to call."""
    new_front, new_rear, c1 = neighbours(net, road, v, index)
    front, rear, c2 = neighbours(net, road, v)
    if c1 or c2:
        return None
    new_rear_after = acceleration(net, m, new_rear, v)
    safe = _le(-m["braking"], new_rear_after)
    me_after = acceleration(net, m, v, new_front)
    route = getattr(v, "route", None)
    if route and route[0][2] is not None:
        want = route[0][2] - v.lane_index[2]
        step = index[2] - v.lane_index[2]
        return _all(safe, (want > 0) == (step > 0) and want != 0, _le(-m["braking"], me_after))
    me_now = acceleration(net, m, v, front)
    rear_now, rear_after = acceleration(net, m, rear, v), acceleration(net, m, rear, front)
    new_rear_now = acceleration(net, m, new_rear, new_front)
    gain = me_after - me_now + m["politeness"] * (new_rear_after - new_rear_now + rear_after - rear_now)
    return _all(safe, _le(m["gain"], gain))


# ------------------------------------------------------------------------------------------------ routes
def next_lanes(net, index, route, position):
    """(acceptable next lanes at the end of this lane, the rest of the route). Several when the choice is random or
    too close to call; the lane itself at a dead end."""
    f, t, i = index[0], index[1], int(index[2])
    route = list(route) if route else []
    nexts = net.successors(t)
    if route and tuple(route[0][:2]) == (f, t):
        route.pop(0)
    if route and route[0][0] == t and (t, route[0][1]) in net.roads:
        nexts = [route[0][1]]
    if not nexts:
        return [(f, t, i)], route
    out = []
    for n in nexts:
        count = net.roads[(t, n)]
        if count == net.roads[(f, t)]:
            out.append((t, n, i))
            continue
        ds = sorted((net[(t, n, j)].distance(position), j) for j in range(count))
        out += [(t, n, j) for d, j in ds if d - ds[0][0] < TIE]
    return out, route


def shortest(net, start, goal):
    """Number of roads of the shortest path from one node to another (0: none, or start is goal)."""
    seen, frontier, n = {start}, [start], 0
    while frontier:
        n += 1
        new = []
        for a in frontier:
            for b in net.successors(a):
                if b == goal and b not in seen:
                    return n
                if b not in seen:
                    seen.add(b)
                    new.append(b)
        frontier = new
    return 0
