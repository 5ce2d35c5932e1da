"""C09 Traffic follows its leader safely and at the intended acceleration."""
import math

from .. import envref, ref, world
from ..core import Violation
from . import common

ID = "C09"
QUICK_RUNS, THOROUGH_RUNS = 1440, 20000
RULE = "one case = one simulated run: the acceleration of every traffic vehicle is compared with the reference car-following model at every tick, or a platoon behind a faulty leader is checked for safety and recovery."
REAL = ["driver models (IDM, linear, aggressive, defensive)", "Road", "vehicles", "environments"]
STUB = []
ASSUMPTIONS = ["Safety is claimed from a gap of at least the model's desired gap, a leader that brakes by at most 6 m/s2, "
               "timesteps up to 0.2 s, target speeds up to 35 m/s (25 m/s for the linear models), and not for the aggressive model."]


class Following:
    def __init__(self, ctx, w):
        self.ctx = ctx
        self.w = w if isinstance(w, world.World) else None
        self.over = None
        if self.w is None and envref.kind(w) == "intersection":
            self.over = ref.INTERSECTION
        self.road = None

    def before_step(self, road, dt):
        ctx = self.ctx
        if road is not self.road:
            self.road, self.net = road, ref.Net(road.network)
        muted = self.w.muted if self.w else {}
        for v in road.vehicles:
            m = ref.model_of(v, self.over)
            if m is None or v.crashed or id(v) in muted:
                continue
            front, _, close = ref.neighbours(self.net, road, v)
            if close:
                continue
            raw = ref.acceleration(self.net, m, v, front)
            want = ref.clip(raw, -m["acc_max"], m["acc_max"])
            got = float(v.action["acceleration"])
            ctx.probe("accelerations with a leader" if front is not None else "accelerations on a free road")
            if front is not None and ref.is_object(front):
                ctx.probe("accelerations behind an obstacle")
            if not abs(got - want) < 1e-6:
                raise Violation("acceleration", "%s at %.3f m/s (target %.3f) behind %s at %s m commands %r instead of %r m/s2" % (
                    type(v).__name__, v.speed, v.target_speed, None if front is None else "%s at %.3f m/s" % (type(front).__name__, front.speed),
                    None if front is None else round(ref.lane_gap(self.net, v, front), 3), got, want))

    def after(self, road, dt):
        pass


KINDS = ["push", "command", "spawn", "crash", "dt", "object", "unobject", "remove", "stall", "tspeed", "mute", "retarget", "shuffle"]


def gen_mixed(rng, tier):
    mixes = [["IDMVehicle"], ["LinearVehicle"], ["AggressiveVehicle", "DefensiveVehicle"], ["IDMVehicle", "LinearVehicle", "Vehicle", "MDPVehicle"]]
    p = common.gen_mixed(rng, tier, ticks=45, kinds=KINDS, mixes=mixes, n=rng.choice([2, 5, 10]))
    world.gen_drivers(rng, p["world"]["vehicles"])
    p["world"]["objects"] = [dict(cls=rng.choice(["Obstacle", "Obstacle", "Landmark"]), lane=list(rng.choice(world.edge_indices(p["world"]["road"]))),
                                  s=round(rng.uniform(60, 250), 3), lat=0.0) for _ in range(rng.randrange(3))]
    return p


# --------------------------------------------------------------------------------------- safety and recovery
def gen_platoon(rng, tier):
    cls = rng.choice(["IDMVehicle", "IDMVehicle", "LinearVehicle", "DefensiveVehicle"])
    m = ref.MODELS[cls]
    n = rng.choice([1, 2, 4])
    lanes = rng.choice([1, 1, 2, 3])
    road = dict(kind="straight", edges=[dict(f="a", t="b", lanes=world.parallel(lanes, 6000, rng.choice([0, 0.7, -2]), limit=30))])
    lane = rng.randrange(lanes)
    s, prev = 1500.0, rng.choice([0.0, round(rng.uniform(0, 30), 2)])
    leader = rng.choice(["vehicle", "vehicle", "vehicle", "obstacle"])
    vehicles, objects = [], []
    if leader == "vehicle":
        vehicles.append(dict(cls="Vehicle", lane=["a", "b", lane], s=s, v=prev, cmd=dict(steering=0, acceleration=0), id=0))
    else:
        prev = 0.0
        objects.append(dict(cls="Obstacle", lane=["a", "b", lane], s=s))
    top = 35 if cls == "IDMVehicle" else 25
    for k in range(n):
        v = round(rng.uniform(0, min(30, top)), 2)
        need = m["d0"] + v * m["T"] + max(0, v * (v - prev) / (2 * math.sqrt(-m["a"] * m["b"])))
        s -= need * rng.choice([1.0, 1.02, 1.3, 2.5])
        vehicles.append(dict(cls=cls, lane=["a", "b", lane], s=round(s, 3), v=v, tspeed=round(rng.uniform(5, top), 2), elc=False, id=k + 1))
        prev = v
    dt = rng.choice([1 / 15, 0.1, 0.2, 0.05])
    phase = [dict(d=rng.choice([1, 2, 3]), a=rng.choice([-6, -6, -5, 0, 3, round(rng.uniform(-6, 3), 2)])) for _ in range(rng.randint(2, 8))]
    ev = [dict(t=rng.randrange(1, 150), what=rng.choice(["mute", "dt"]), i=rng.randint(1, n), n=rng.randint(1, 2),
               dt=rng.choice([0.01, 0.05, 0.15])) for _ in range(rng.randrange(0, 5))] if cls == "IDMVehicle" else []
    return dict(world=dict(road=road, vehicles=vehicles, objects=objects, seed=1, events=ev), phases=phase, dt=dt,
                vanish=rng.choice([None, 60, 120]) if leader == "vehicle" else rng.choice([None, 100]), leader=leader)


def run_platoon(plan, ctx):
    w = world.World(plan["world"], ctx)
    dt = plan["dt"]
    vs = list(w.road.vehicles)
    followers = [v for v in vs if type(v).__name__ != "Vehicle"]
    lead = vs[0] if plan["leader"] == "vehicle" else None
    chain = ([lead] if lead else list(w.road.objects)) + followers
    net = w.net
    lane = net[followers[0].lane_index]
    vanish = plan["vanish"]
    state = dict(t=0, a=0.0)

    def phase(t):
        for p in plan["phases"]:
            if t < p["d"]:
                return p["a"]
            t -= p["d"]
        return 0.0

    def before_step(w):
        if lead is not None and lead in w.road.vehicles:
            a = phase(w.time)
            lead.action = dict(steering=0, acceleration=max(a, -lead.speed / w.dt))
            if a < 0 and lead.speed > 0:
                ctx.fault("leader-brakes")

    def after(w):
        ss = [lane.local(v.position)[0] for v in chain]
        for i in range(1, len(chain)):
            front, back = chain[i - 1], chain[i]
            if i == 1 and gone[0]:
                continue
            ctx.probe("gaps behind a leader")
            gap = ss[i - 1] - ss[i] - (front.LENGTH + back.LENGTH) / 2
            if gap < 0:
                raise Violation("rear-end", "%s runs into its leader (%.2f m overlap) at %.2f m/s, %.1f s after a safe start"
                                % (type(back).__name__, -gap, back.speed, w.time))
        for v in followers:
            if v.crashed:
                raise Violation("rear-end", "%s crashed while following" % type(v).__name__)
        if w.t % 20 == 0:
            ctx.state(w.abstract())

    gone = [False]
    total = int(30 / dt)
    for k in range(total):
        if vanish is not None and w.t == vanish and not gone[0]:
            (w.road.vehicles if lead is not None else w.road.objects).remove(chain[0])
            gone[0] = True
            ctx.fault("leader-disappears")
        w.run(1, dt, before_step=before_step, after=after)
    # Faults stop: the road ahead is clear for the first follower
    if not gone[0]:
        (w.road.vehicles if lead is not None else w.road.objects).remove(chain[0])
        gone[0] = True
        ctx.fault("leader-disappears")
    w.events, w.muted = {}, {}
    first = followers[0]
    w.run(int((45 if plan["world"]["vehicles"][-1]["cls"] == "IDMVehicle" else 40) / dt), dt, after=after)
    ctx.probe("recoveries of the target speed")
    if abs(first.speed - first.target_speed) > 0.3:
        raise Violation("recovery", "%s drives at %.2f m/s 40 s after the road ahead was cleared, its target is %.2f"
                        % (type(first).__name__, first.speed, first.target_speed))


FAMILIES = {"mixed": (3, gen_mixed, common.run_world(Following)),
            "env": (2, common.gen_env(["highway", "merge", "roundabout", "two-way", "intersection", "summon"]), common.run_env(Following)),
            "platoon": (2, gen_platoon, run_platoon)}
