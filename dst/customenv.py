"""An environment made as the documentation explains ("Make your own environment"): the registered ones route all their
traffic and use a few fixed scenes; users write others, so here the road, the traffic and the ego vehicles are generated."""
import numpy as np

from . import world

_CLASS = []


def custom_class():
    if _CLASS:
        return _CLASS[0]
    from highway_env import utils
    from highway_env.envs.common.abstract import AbstractEnv
    from highway_env.road.regulation import RegulatedRoad
    from highway_env.road.road import Road

    class CustomEnv(AbstractEnv):
        RIGHT_LANE_REWARD = 0.1  # of the planning model
        HIGH_SPEED_REWARD = 0.4
        LANE_CHANGE_REWARD = -0.1

        @classmethod
        def default_config(cls):
            config = super().default_config()
            config.update({
                "observation": {"type": "Kinematics"},
                "scene": {"road": {"kind": "straight", "edges": [dict(f="a", t="b", lanes=world.parallel(2, 500))]},
                          "egos": [dict(lane=["a", "b", 0], s=10, v=20)], "vehicles": [], "objects": []},
                "collision_reward": -1,
                "speed_reward": 0.5,
                "duration": 30,
                "jitter": 1.0,
            })
            return config

        def _reset(self):
            self._make_road()
            self._make_vehicles()

        def _make_road(self):
            scene = self.config["scene"]
            cls = RegulatedRoad if scene.get("regulated") else Road
            self.road = cls(network=world.make_network(scene["road"]), np_random=self.np_random,
                            record_history=self.config["show_trajectories"])
            for o in scene["objects"]:
                self.road.objects.append(world.make_object(self.road, o))

        def _make_vehicles(self):
            scene, jitter = self.config["scene"], self.config["jitter"]
            self.controlled_vehicles = []
            for e in scene["egos"]:
                lane = self.road.network.get_lane(tuple(e["lane"]))
                s = e["s"] + jitter * self.np_random.randn()
                ego = self.action_type.vehicle_class(self.road, lane.position(s, 0), heading=lane.heading_at(s), speed=e["v"])
                if e.get("dest") and hasattr(ego, "plan_route_to"):
                    ego.plan_route_to(e["dest"])
                self.controlled_vehicles.append(ego)
                self.road.vehicles.append(ego)
            other = utils.class_from_path(self.config["other_vehicles_type"])
            for v in scene["vehicles"]:
                v = dict(v, s=v["s"] + jitter * self.np_random.randn())
                if v.get("random"):  # the documented constructor of traffic
                    vehicle = other.make_on_lane(self.road, tuple(v["lane"]), v["s"], v["v"])
                    vehicle.randomize_behavior()
                else:
                    vehicle = world.make_vehicle(self.road, v)
                self.road.vehicles.append(vehicle)

        def _reward(self, action):
            return self.config["collision_reward"] * self.vehicle.crashed + self.config["speed_reward"] * self.vehicle.speed / 30

        def _is_terminal(self):
            return bool(self.vehicle.crashed or self.steps >= self.config["duration"])

        def _cost(self, action):
            return float(self.vehicle.crashed)

    _CLASS.append(CustomEnv)
    return CustomEnv


def gen(rng, cfg):
    """The scene of one custom environment."""
    road = world.gen_road(rng, ("straight", "chain", "fork", "fork", "fork", "ring", "sine"))
    idx = world.edge_indices(road)
    n = rng.choice([1, 1, 1, 2, 3])
    mixes = [["IDMVehicle"], ["LinearVehicle"], ["IDMVehicle", "LinearVehicle"], ["ControlledVehicle", "IDMVehicle"],
             ["Vehicle", "IDMVehicle"], ["AggressiveVehicle", "DefensiveVehicle"]]
    classes = rng.choice(mixes)
    vs = world.gen_vehicles(rng, road, rng.choice([0, 2, 4, 8]), classes, speed=(5, 25), spread=150, gap=12)
    for v in vs:
        if v["cls"] in world.TRAFFIC and rng.random() < 0.4:
            v["random"] = True
    first = [i for i in idx if i[0] == idx[0][0]]
    egos = []
    for k in range(n):
        e = dict(lane=list(rng.choice(first if rng.random() < 0.7 else idx)), s=round(20.0 * k + rng.uniform(0, 15), 2),
                 v=rng.choice([10, 15, 20, 25]))
        if rng.random() < 0.3:
            e["dest"] = rng.choice(sorted({i[1] for i in idx}))
        egos.append(e)
    objects = []
    if rng.random() < 0.3:
        objects = [dict(cls=rng.choice(["Obstacle", "Landmark"]), lane=list(rng.choice(idx)), s=round(rng.uniform(40, 120), 2))]
    cfg["scene"] = dict(road=road, egos=egos, vehicles=vs, objects=objects, regulated="Vehicle" not in classes and rng.random() < 0.2)
    cfg["jitter"] = rng.choice([0, 1.0, 3.0])
    cfg["duration"] = rng.choice([3, 10, 30])
    if n > 1:
        cfg["action"] = {"type": "MultiAgentAction", "action_config": {"type": "DiscreteMetaAction"}}
        cfg["observation"] = {"type": "MultiAgentObservation", "observation_config": world.gen_kinematics(rng) if rng.random() < 0.7 else
                              {"type": "TimeToCollision", "horizon": rng.choice([3, 5, 10])}}
    return cfg
