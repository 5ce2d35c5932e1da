"""C07 Collisions are detected exactly, mutually and for good."""
from .. import ref, world
from ..core import Violation

ID = "C07"
QUICK_RUNS, THOROUGH_RUNS = 1520, 20000
RULE = "one case = one simulated run: a world, its faults and its schedule of decisions, checked at every tick."
REAL = ["Road.step", "Vehicle/BicycleVehicle/driver models", "collision detection", "environments"]
STUB = ["pygame display (not used)"]


class Collisions:
    def __init__(self, ctx):
        self.ctx = ctx
        self.before = None

    def before_step(self, road, dt):
        self.before = {id(v): (v, ref.state(v), ref.advance(ref.state(v), dt)["speed"]) for v in road.vehicles}
        self.hit = {id(o): bool(o.hit) for o in road.objects}

    def after(self, road, dt):
        vs = [v for v in road.vehicles if id(v) in self.before]
        ctx = self.ctx
        if len(vs) != len(road.vehicles):
            raise Violation("population", "the physics added or removed a vehicle")
        contacts = {id(v): [] for v in vs}       # certain or possible contacts: (other, sure)
        for i, a in enumerate(vs):
            for b in vs[i + 1:]:
                if abs(a.position[0] - b.position[0]) > 6 or abs(a.position[1] - b.position[1]) > 6:
                    continue
                if not (a.COLLISIONS_ENABLED and b.COLLISIONS_ENABLED):
                    continue
                d = ref.overlap(ref.footprint(a), ref.footprint(b))
                if d > -ref.TIE:
                    contacts[id(a)].append((b, d > ref.TIE))
                    contacts[id(b)].append((a, d > ref.TIE))
                if d > ref.TIE:
                    ctx.probe("overlapping pairs")
                    if not (a.crashed and b.crashed):
                        raise Violation("missed-collision", "two vehicles overlap by %.4f m at %s and %s (headings %.3f, %.3f): "
                                        "crashed=%s,%s" % (d, ref.xy(a.position), ref.xy(b.position), a.heading, b.heading,
                                                           a.crashed, b.crashed))
                elif -0.5 < d:
                    ctx.probe("near misses")
        obst = {id(v): [] for v in vs}
        for o in road.objects:
            for v in vs:
                if type(o).__name__ != "Landmark" and v.COLLISIONS_ENABLED and abs(v.position[0] - o.position[0]) <= 5 \
                        and abs(v.position[1] - o.position[1]) <= 5:
                    d = ref.overlap(ref.footprint(v), ref.footprint(o))
                    if d > -ref.TIE:
                        obst[id(v)].append((o, d > ref.TIE))
        for o in road.objects:
            landmark = type(o).__name__ == "Landmark"
            touching = []
            for v in vs:
                if abs(v.position[0] - o.position[0]) > 5 or abs(v.position[1] - o.position[1]) > 5:
                    continue
                d = ref.overlap(ref.footprint(v), ref.footprint(o))
                if d > -ref.TIE:
                    touching.append((v, d > ref.TIE))
                    if d > ref.TIE:
                        ctx.probe("vehicles on an object")
            if o.hit and not self.hit.get(id(o), False):
                if not any(not self.before[id(v)][1]["crashed"] for v, _ in touching):
                    raise Violation("object-hit", "%s at %s marked as hit without contact" % (type(o).__name__, ref.xy(o.position)))
            if self.hit.get(id(o)) and not o.hit:
                raise Violation("object-hit", "a hit object is no longer marked")
            for v, sure in touching:
                if not sure or self.before[id(v)][1]["crashed"]:
                    continue
                if landmark:
                    if not v.crashed and not o.hit:
                        raise Violation("landmark", "a vehicle reaches a landmark at %s, which is not marked as hit" % (ref.xy(o.position),))
                elif v.COLLISIONS_ENABLED and not contacts[id(v)]:
                    ctx.probe("obstacle collisions")
                    if not v.crashed or not any(x.hit for x, _ in obst[id(v)]):  # the first of several obstacles stops it
                        raise Violation("obstacle", "a vehicle runs into an obstacle at %s: crashed=%s hit=%s"
                                        % (ref.xy(o.position), v.crashed, o.hit))
                    if v.speed != 0:
                        raise Violation("obstacle-speed", "speed %r after running into an obstacle" % v.speed)
        for v in vs:
            _, st, pre = self.before[id(v)]
            cs, os_ = contacts[id(v)], obst[id(v)]
            if st["crashed"]:
                if not v.crashed:
                    raise Violation("uncrashed", "a crashed vehicle is no longer crashed")
                ctx.probe("crashed vehicle ticks")
                if abs(v.speed) > abs(st["speed"]) + 1e-9:
                    raise Violation("crashed-gains-speed", "a crashed vehicle went from %r to %r m/s" % (st["speed"], v.speed))
            elif v.crashed:
                ctx.probe("new crashes")
                if not cs and not os_:
                    raise Violation("phantom-collision", "a vehicle at %s crashed without touching anything" % (ref.xy(v.position),))
                if abs(v.speed) > abs(pre) + 1e-6:
                    raise Violation("collision-speed", "a vehicle gains speed in a collision: %r -> %r" % (pre, v.speed))
                if len(cs) == 1 and not os_ and cs[0][1]:
                    w = cs[0][0]
                    if len(contacts[id(w)]) == 1 and not obst[id(w)]:
                        pw = self.before[id(w)][2]
                        want = min([pre, pw], key=abs)
                        ctx.probe("speeds after an isolated collision")
                        for u in (v, w):
                            if abs(abs(u.speed) - abs(want)) > 1e-6:
                                raise Violation("collision-speed", "vehicles at %r and %r m/s collide and one leaves at %r"
                                                % (pre, pw, u.speed))


KINDS = ["push", "command", "spawn", "crash", "shuffle", "dt", "object", "remove", "stall", "twice"]


def gen_melee(rng, tier):
    road = dict(kind="straight", edges=[dict(f="a", t="b", lanes=world.parallel(4, 400))])
    n = rng.choice([2, 3, 5, 8])
    vs = world.gen_vehicles(rng, road, n, ["Vehicle", "Vehicle", "BicycleVehicle"], speed=(-10, 25), spread=40)
    for v in vs:
        v["lat"] = round(rng.uniform(-4, 4), 3)
        v["dh"] = rng.choice([0, 0, round(rng.uniform(-3.14, 3.14), 3), 1.570796, round(rng.uniform(-0.8, 0.8), 3)])
        v["s"] += 50
        if rng.random() < 0.06:
            v["nocoll"] = True
    objects = [dict(cls=rng.choice(["Obstacle", "Landmark"]), lane=["a", "b", rng.randrange(4)],
                    s=round(rng.uniform(50, 90), 3), lat=round(rng.uniform(-2, 2), 3), dh=round(rng.uniform(-2, 2), 3))
               for _ in range(rng.randrange(4))]
    ticks = 40
    return dict(world=dict(road=road, vehicles=vs, objects=objects, seed=rng.getrandbits(20),
                           events=world.gen_events(rng, ticks, KINDS, rng.randrange(0, 10), n, road, ["Vehicle"])),
                ticks=ticks, dt=rng.choice([1 / 15, 0.05, 0.1, 0.2]))


def gen_traffic(rng, tier):
    road = world.gen_road(rng)
    n = rng.choice([4, 8, 12])
    classes = rng.choice([["IDMVehicle"], ["LinearVehicle", "IDMVehicle"], ["IDMVehicle", "ControlledVehicle", "Vehicle"],
                          ["AggressiveVehicle", "DefensiveVehicle", "MDPVehicle"]])
    vs = world.gen_vehicles(rng, road, n, classes, speed=(0, 30), spread=150, offsets=rng.random() < 0.5)
    ticks = 60
    return dict(world=dict(road=road, vehicles=vs, objects=[], seed=rng.getrandbits(20),
                           events=world.gen_events(rng, ticks, KINDS + ["mute", "tspeed", "retarget"], rng.randrange(2, 14), n,
                                                   road, ["IDMVehicle", "Vehicle"])),
                ticks=ticks, dt=rng.choice([1 / 15, 0.1, 0.2]))


def run_world(plan, ctx):
    w = world.World(plan["world"], ctx)
    c = Collisions(ctx)
    w.run(plan["ticks"], plan["dt"], before_step=lambda w: c.before_step(w.road, w.dt),
          after=lambda w: (c.after(w.road, w.dt), ctx.state(w.abstract()) if w.t % 10 == 0 else None))


def gen_env(rng, tier):
    spec = world.gen_env(rng, ["highway", "intersection", "multi-intersection", "parking", "summon", "merge", "roundabout"], obs=False)
    if spec["env"] == "highway":
        spec["cfg"]["vehicles_density"] = rng.choice([2, 3, 4])
    return dict(spec=spec, acts=world.gen_acts(rng, rng.choice([6, 12]), 0.5))


def run_env(plan, ctx):
    env, _ = world.build_env(plan["spec"])
    c = Collisions(ctx)
    world.attach(env, ctx, before_step=c.before_step, after=c.after)
    for a in plan["acts"]:
        out = env.step(world.decode(env.action_space, a))
        ctx.event(world.step_sig(env, out))
        ctx.state(world.abstract_state(env))


FAMILIES = {"melee": (6, gen_melee, run_world), "traffic": (2, gen_traffic, run_world), "env": (2, gen_env, run_env)}
