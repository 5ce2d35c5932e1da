"""Worlds and drivers shared by the tick-level properties."""
from .. import world

KINDS = ["push", "command", "spawn", "crash", "shuffle", "dt", "object", "unobject", "remove", "stall", "tspeed", "mute",
         "retarget", "twice", "act"]
MIXES = [["IDMVehicle"], ["LinearVehicle", "IDMVehicle"], ["IDMVehicle", "ControlledVehicle", "Vehicle"],
         ["AggressiveVehicle", "DefensiveVehicle", "MDPVehicle"], ["Vehicle", "BicycleVehicle"],
         ["ControlledVehicle", "MDPVehicle"]]


def gen_mixed(rng, tier, ticks=60, kinds=KINDS, mixes=MIXES, speed=(0, 30), n=None):
    road = world.gen_road(rng)
    n = n or rng.choice([3, 6, 10])
    classes = rng.choice(mixes)
    vs = world.gen_vehicles(rng, road, n, classes, speed=speed, spread=150, offsets=rng.random() < 0.5)
    swarm = rng.sample(list(kinds), rng.randint(2, min(6, len(kinds))))
    return dict(world=dict(road=road, vehicles=vs, objects=[], seed=rng.getrandbits(20),
                           events=world.gen_events(rng, ticks, swarm, rng.randrange(2, 16), n, road,
                                                   classes + ["IDMVehicle"])),
                ticks=ticks, dt=rng.choice([1 / 15, 0.05, 0.1, 0.2]))


def run_world(make):
    """exec function of a family: make(ctx) builds the observer, which sees every tick of a custom world."""
    def run(plan, ctx):
        w = world.World(plan["world"], ctx)
        c = make(ctx, w)
        w.run(plan["ticks"], plan["dt"], before_step=lambda w: c.before_step(w.road, w.dt),
              after=lambda w: (c.after(w.road, w.dt), ctx.state(w.abstract()) if w.t % 10 == 0 else None))
        if hasattr(c, "end"):
            c.end(w)
    return run


def gen_env(envs, steps=(4, 10), **kw):
    def gen(rng, tier):
        spec = world.gen_env(rng, envs, obs=False, **kw)
        if spec["env"] == "highway" and rng.random() < 0.5:
            spec["cfg"]["vehicles_density"] = rng.choice([2, 3, 4])
        n = rng.choice(list(steps))
        ev = []
        if rng.random() < 0.4:
            ev = [dict(t=rng.randrange(n), what=rng.choice(["crash", "speed", "remove", "push"]), i=rng.randrange(6),
                       v=round(rng.uniform(0.5, 35), 2), d=round(rng.uniform(-3, 3), 2))]
        return dict(spec=spec, acts=world.gen_acts(rng, n, 0.4), events=ev)
    return gen


def run_env(make):
    def run(plan, ctx):
        env, _ = world.build_env(plan["spec"])
        c = make(ctx, env)
        world.attach(env, ctx, before_step=c.before_step, after=c.after)
        events = {e["t"]: e for e in plan.get("events", [])}
        for k, a in enumerate(plan["acts"]):
            if k in events:
                disturb(world.base(env), events[k], ctx)
            action = world.decode(env.action_space, a)
            if hasattr(c, "before_env_step"):
                c.before_env_step(env, action)
            out = env.step(action)
            if hasattr(c, "after_env_step"):
                c.after_env_step(env, action, out)
            ctx.event(world.step_sig(env, out))
            ctx.state(world.abstract_state(env))
    return run


def disturb(b, e, ctx):
    """A fault between two decisions of an environment."""
    vs = b.road.vehicles
    v = vs[e["i"] % len(vs)]
    if e["what"] == "crash":
        v.crashed = True
    elif e["what"] == "speed":
        v.speed = e["v"]
    elif e["what"] == "remove":
        others = [v for v in vs if not any(v is c for c in b.controlled_vehicles)]
        if not others:
            return
        vs.remove(others[e["i"] % len(others)])
    elif e["what"] == "push":
        v.position = v.position + e["d"]
        v.on_state_update()
    ctx.fault(e["what"])


ALL_ENVS = ["highway", "merge", "parking", "summon", "roundabout", "two-way", "intersection", "multi-intersection",
            "lane-keeping", "custom"]
