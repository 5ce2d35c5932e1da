From 61528e14c541b69659c86f00f10540188d9a2b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 01/60] fix: roundabout must not change the speed range of
 every MDPVehicle

The range was written to the MDPVehicle class, after the ego vehicle had been
built: the first episode of a process differed from all the later ones, and any
other environment of the process got the roundabout speeds.
---
 highway_env/envs/roundabout_env.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/highway_env/envs/roundabout_env.py b/highway_env/envs/roundabout_env.py
index 5c1fa97..4f03229 100644
--- a/highway_env/envs/roundabout_env.py
+++ b/highway_env/envs/roundabout_env.py
@@ -39,8 +39,9 @@ class RoundaboutEnv(AbstractEnv):
 
     def _reward(self, action: int) -> float:
         lane_change = action == 0 or action == 2
+        speed_index = getattr(self.vehicle, "speed_index", MDPVehicle.speed_to_index(self.vehicle, self.vehicle.speed))
         reward = self.COLLISION_REWARD * self.vehicle.crashed \
-                 + self.HIGH_SPEED_REWARD * MDPVehicle.get_speed_index(self.vehicle) / max(MDPVehicle.SPEED_COUNT - 1, 1) \
+                 + self.HIGH_SPEED_REWARD * speed_index / max(self.vehicle.SPEED_COUNT - 1, 1) \
                  + self.LANE_CHANGE_REWARD * lane_change
         return utils.lmap(reward, [self.COLLISION_REWARD + self.LANE_CHANGE_REWARD, self.HIGH_SPEED_REWARD], [0, 1])
 
@@ -138,9 +139,12 @@ class RoundaboutEnv(AbstractEnv):
             ego_vehicle.plan_route_to("nxs")
         except AttributeError:
             pass
-        MDPVehicle.SPEED_MIN = 0
-        MDPVehicle.SPEED_MAX = 16
-        MDPVehicle.SPEED_COUNT = 3
+        ego_vehicle.SPEED_MIN = 0
+        ego_vehicle.SPEED_MAX = 16
+        ego_vehicle.SPEED_COUNT = 3
+        if isinstance(ego_vehicle, MDPVehicle):
+            ego_vehicle.speed_index = ego_vehicle.speed_to_index(ego_vehicle.speed)
+            ego_vehicle.target_speed = ego_vehicle.index_to_speed(ego_vehicle.speed_index)
         self.road.vehicles.append(ego_vehicle)
         self.vehicle = ego_vehicle
 
-- 
2.43.0


From d8919ea8aea543c98b7459146628042594ea7e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 02/60] fix: route planning must not depend on the string hash
 seed

bfs_paths iterated over a set of node names: among routes of equal length, the
chosen one changed with PYTHONHASHSEED, so seeded runs were not reproducible.
---
 highway_env/road/road.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/road.py b/highway_env/road/road.py
index dcc3fbc..f13fefd 100644
--- a/highway_env/road/road.py
+++ b/highway_env/road/road.py
@@ -121,7 +121,7 @@ class RoadNetwork(object):
             (node, path) = queue.pop(0)
             if node not in self.graph:
                 yield []
-            for _next in set(self.graph[node].keys()) - set(path):
+            for _next in [key for key in self.graph[node].keys() if key not in path]:
                 if _next == goal:
                     yield path + [_next]
                 elif _next in self.graph:
-- 
2.43.0


From 0ac097ca97ecc11832c62b5b6e49a6dfd134ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 03/60] fix: reverse speed limit of vehicles

Below -MAX_SPEED the acceleration was raised to MAX_SPEED - speed, i.e. more
than 80 m/s2, instead of the symmetric of the forward limit.
---
 highway_env/vehicle/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/kinematics.py b/highway_env/vehicle/kinematics.py
index 22f81ed..01ebc5d 100644
--- a/highway_env/vehicle/kinematics.py
+++ b/highway_env/vehicle/kinematics.py
@@ -146,7 +146,7 @@ class Vehicle(object):
         if self.speed > self.MAX_SPEED:
             self.action['acceleration'] = min(self.action['acceleration'], 1.0 * (self.MAX_SPEED - self.speed))
         elif self.speed < -self.MAX_SPEED:
-            self.action['acceleration'] = max(self.action['acceleration'], 1.0 * (self.MAX_SPEED - self.speed))
+            self.action['acceleration'] = max(self.action['acceleration'], 1.0 * (-self.MAX_SPEED - self.speed))
 
     def on_state_update(self) -> None:
         if self.road:
-- 
2.43.0


From 50c777a0eef1c8cf6365b02e27cf0f9a023072bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 04/60] fix: do not skip vehicles when clearing the
 surroundings of the ego vehicle

Vehicles were removed from the list being iterated, so the one following each
removed vehicle was not examined and could be left next to the ego vehicle.
---
 highway_env/envs/intersection_env.py | 2 +-
 highway_env/envs/summon_env.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/intersection_env.py b/highway_env/envs/intersection_env.py
index 5e54e2a..832bcb3 100644
--- a/highway_env/envs/intersection_env.py
+++ b/highway_env/envs/intersection_env.py
@@ -194,7 +194,7 @@ class IntersectionEnv(AbstractEnv):
 
             self.road.vehicles.append(ego_vehicle)
             self.controlled_vehicles.append(ego_vehicle)
-            for v in self.road.vehicles:  # Prevent early collisions
+            for v in self.road.vehicles[:]:  # Prevent early collisions
                 if v is not ego_vehicle and np.linalg.norm(v.position - ego_vehicle.position) < 20:
                     self.road.vehicles.remove(v)
 
diff --git a/highway_env/envs/summon_env.py b/highway_env/envs/summon_env.py
index 08afc8e..d17ec1a 100644
--- a/highway_env/envs/summon_env.py
+++ b/highway_env/envs/summon_env.py
@@ -98,7 +98,7 @@ class SummonEnv(ParkingEnv):
                 lane = ("a", "b", i) if self.np_random.rand() >= 0.5 else ("b", "c", i)
                 self.road.vehicles.append(Vehicle.make_on_lane(self.road, lane, 4, speed=0))
 
-        for v in self.road.vehicles:  # Prevent early collisions
+        for v in self.road.vehicles[:]:  # Prevent early collisions
             if v is not self.vehicle and np.linalg.norm(v.position - self.vehicle.position) < 20:
                 self.road.vehicles.remove(v)
 
-- 
2.43.0


From 8db25cb268b56cb97690500155e8878c2aa655c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 05/60] fix: OccupancyGrid observation with the default grid
 step

The grid shape was computed from the None argument instead of the default.
---
 highway_env/envs/common/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index db0571a..b8d6100 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -242,7 +242,7 @@ class OccupancyGridObservation(ObservationType):
         self.features = features if features is not None else self.FEATURES
         self.grid_size = np.array(grid_size) if grid_size is not None else np.array(self.GRID_SIZE)
         self.grid_step = np.array(grid_step) if grid_step is not None else np.array(self.GRID_STEP)
-        grid_shape = np.asarray(np.floor((self.grid_size[:, 1] - self.grid_size[:, 0]) / grid_step), dtype=np.int)
+        grid_shape = np.asarray(np.floor((self.grid_size[:, 1] - self.grid_size[:, 0]) / self.grid_step), dtype=np.int)
         self.grid = np.zeros((len(self.features), *grid_shape))
         self.features_range = features_range
         self.absolute = absolute
-- 
2.43.0


From 7041feacaa578b72c1ddd0354c2314361317fdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 06/60] fix: close_vehicles_to with a count of zero

A Kinematics observation of one vehicle (the ego) asked for 0 other vehicles and
got all of them, so the observation did not fit in its space.
---
 highway_env/road/road.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/road.py b/highway_env/road/road.py
index f13fefd..ee217bf 100644
--- a/highway_env/road/road.py
+++ b/highway_env/road/road.py
@@ -263,7 +263,7 @@ class Road(object):
                     and (see_behind or -2 * vehicle.LENGTH < vehicle.lane_distance_to(v))]
 
         vehicles = sorted(vehicles, key=lambda v: abs(vehicle.lane_distance_to(v)))
-        if count:
+        if count is not None:
             vehicles = vehicles[:count]
         return vehicles
 
-- 
2.43.0


From df7843331f9b11dde9784143c559ef0309db9e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 07/60] fix: up key under manual control without lateral
 actions

It raised a KeyError, as LANE_LEFT is not among the actions.
---
 highway_env/envs/common/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index c64ec74..f391703 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -174,7 +174,7 @@ class EventHandler(object):
                 action_type.act(action_type.actions_indexes["SLOWER"])
             if event.key == pygame.K_DOWN and action_type.lateral:
                 action_type.act(action_type.actions_indexes["LANE_RIGHT"])
-            if event.key == pygame.K_UP:
+            if event.key == pygame.K_UP and action_type.lateral:
                 action_type.act(action_type.actions_indexes["LANE_LEFT"])
 
     @classmethod
-- 
2.43.0


From ca4fc76f37a506eb3eaf614d240ed85059502f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 08/60] fix: intersection-multi-agent-v1 cannot be created

Its entry point was a wrapper instance around the environment class, which is
not callable: gym.make raised a TypeError.
---
 highway_env/envs/intersection_env.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/intersection_env.py b/highway_env/envs/intersection_env.py
index 832bcb3..7167ebd 100644
--- a/highway_env/envs/intersection_env.py
+++ b/highway_env/envs/intersection_env.py
@@ -262,7 +262,9 @@ class MultiAgentIntersectionEnv(IntersectionEnv):
         return config
 
 
-TupleMultiAgentIntersectionEnv = MultiAgentWrapper(MultiAgentIntersectionEnv)
+class TupleMultiAgentIntersectionEnv(MultiAgentWrapper):
+    def __init__(self, config: dict = None) -> None:
+        super().__init__(MultiAgentIntersectionEnv(config))
 
 
 register(
-- 
2.43.0


From 6f15d1d4b81363d64ae2bf6dcba5baf7d077f44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 09/60] fix: closing the window while rendering an rgb_array

The QUIT event closes the viewer, and get_image was then called on None.
---
 highway_env/envs/common/abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index ccbcf9a..a599ff0 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -246,10 +246,10 @@ class AbstractEnv(gym.Env):
         if self.should_update_rendering:
             self.viewer.display()
 
+        image = self.viewer.get_image() if mode == 'rgb_array' else None
         if not self.viewer.offscreen:
-            self.viewer.handle_events()
+            self.viewer.handle_events()  # This may close the viewer
         if mode == 'rgb_array':
-            image = self.viewer.get_image()
             return image
         self.should_update_rendering = False
 
-- 
2.43.0


From d67eb5bedb1c9263ef54cadc649ad555c344c9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 10/60] fix: set_vehicle_field must leave the ego vehicle of
 the copy alone

The vehicles of the copy were compared to the ego vehicle of the original, so
the field was always set on the ego vehicle too.
---
 highway_env/envs/common/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index a599ff0..f90907f 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -360,7 +360,7 @@ class AbstractEnv(gym.Env):
         field, value = args
         env_copy = copy.deepcopy(self)
         for v in env_copy.road.vehicles:
-            if v is not self.vehicle:
+            if v is not env_copy.vehicle:
                 setattr(v, field, value)
         return env_copy
 
-- 
2.43.0


From e9ba93e7a65dcbf6210643dae1fbf056a1494e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 11/60] fix: intersections with a low simulation frequency

A timestep longer than the regulation period raised a ZeroDivisionError.
---
 highway_env/road/regulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/regulation.py b/highway_env/road/regulation.py
index 0681a61..2c90dcd 100644
--- a/highway_env/road/regulation.py
+++ b/highway_env/road/regulation.py
@@ -20,7 +20,7 @@ class RegulatedRoad(Road):
 
     def step(self, dt: float) -> None:
         self.steps += 1
-        if self.steps % int(1 / dt / self.REGULATION_FREQUENCY) == 0:
+        if self.steps % max(int(1 / dt / self.REGULATION_FREQUENCY), 1) == 0:
             self.enforce_road_rules()
         return super().step(dt)
 
-- 
2.43.0


From 94e29d86043752dce7b4a5f8bdff97d82cb7b74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 12/60] fix: keep the lane set when a LaneKeepingEnv is created

The constructor resets the environment and then erased its lane, so that a new
environment could not be stepped.
---
 highway_env/envs/lane_keeping_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/lane_keeping_env.py b/highway_env/envs/lane_keeping_env.py
index 89f8fee..c74cd6e 100644
--- a/highway_env/envs/lane_keeping_env.py
+++ b/highway_env/envs/lane_keeping_env.py
@@ -17,12 +17,12 @@ class LaneKeepingEnv(AbstractEnv):
     """A lane keeping control task."""
 
     def __init__(self, config: dict = None) -> None:
-        super().__init__(config)
         self.lane = None
         self.lanes = []
         self.trajectory = []
         self.interval_trajectory = []
         self.lpv = None
+        super().__init__(config)
 
     @classmethod
     def default_config(cls) -> dict:
-- 
2.43.0


From 29eef7213a648e9871d8d2bd61f1444e3c8c74bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 13/60] fix: range of the grayscale observation space

The pixels are in [0, 255], and were declared in [0, 1].
---
 highway_env/envs/common/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index b8d6100..9135300 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -69,7 +69,7 @@ class GrayscaleObservation(ObservationType):
     def space(self) -> spaces.Space:
         try:
             return spaces.Box(shape=self.shape,
-                              low=0, high=1,
+                              low=0, high=255,
                               dtype=np.float32)
         except AttributeError:
             return spaces.Space()
-- 
2.43.0


From 49eae9aae91cafa060d0203926edf0d2e624c74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 14/60] fix: collisions between vehicles that are not aligned
 with the axes

point_in_rotated_rectangle rotated the point by +angle instead of -angle, so
that it considered the mirror image of the rectangle: vehicles with diagonal
headings collided with vehicles they did not touch, and went through others.
---
 highway_env/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/utils.py b/highway_env/utils.py
index 0ef7112..35d7aff 100644
--- a/highway_env/utils.py
+++ b/highway_env/utils.py
@@ -64,7 +64,7 @@ def point_in_rotated_rectangle(point: np.ndarray, center: np.ndarray, length: fl
     :return: is the point inside the rectangle
     """
     c, s = np.cos(angle), np.sin(angle)
-    r = np.array([[c, -s], [s, c]])
+    r = np.array([[c, s], [-s, c]])  # Rotate the world back by -angle
     ru = r.dot(point - center)
     return point_in_rectangle(ru, (-length/2, -width/2), (length/2, width/2))
 
-- 
2.43.0


From ebadc9725a42715804b8ef02a886bf92cb4ac707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 15/60] fix: collisions of vehicles that form a cross

Two rectangles can overlap without a corner, a side middle or the center of one
being inside the other. Such vehicles went through each other.
---
 highway_env/utils.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/highway_env/utils.py b/highway_env/utils.py
index 35d7aff..69cf9d4 100644
--- a/highway_env/utils.py
+++ b/highway_env/utils.py
@@ -95,7 +95,27 @@ def rotated_rectangles_intersect(rect1: Tuple[Vector, float, float, float],
     :param rect2: (center, length, width, angle)
     :return: do they?
     """
-    return has_corner_inside(rect1, rect2) or has_corner_inside(rect2, rect1)
+    return has_corner_inside(rect1, rect2) or has_corner_inside(rect2, rect1) or have_crossing_sides(rect1, rect2)
+
+
+def have_crossing_sides(rect1: Tuple[Vector, float, float, float],
+                        rect2: Tuple[Vector, float, float, float]) -> bool:
+    """
+    Check if two rectangles overlap, including when they form a cross and none has a corner inside the other
+
+    :param rect1: (center, length, width, angle)
+    :param rect2: (center, length, width, angle)
+    :return: whether no axis separates them
+    """
+    (c1, l1, w1, a1) = rect1
+    (c2, l2, w2, a2) = rect2
+    delta = np.array(c2) - np.array(c1)
+    for angle in [a1, a1 + np.pi/2, a2, a2 + np.pi/2]:
+        extent = sum(abs(size / 2 * np.cos(side - angle))
+                     for size, side in [(l1, a1), (w1, a1 + np.pi/2), (l2, a2), (w2, a2 + np.pi/2)])
+        if abs(delta.dot([np.cos(angle), np.sin(angle)])) > extent:
+            return False
+    return True
 
 
 def has_corner_inside(rect1: Tuple[Vector, float, float, float],
-- 
2.43.0


From 89c62a87c30b41ea23b41f7bb4230e89a7378f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 16/60] fix: linear vehicles next to vehicles without a target
 speed

---
 highway_env/vehicle/behavior.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index 122c82e..41687a0 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -358,8 +358,8 @@ class LinearVehicle(IDMVehicle):
                               front_vehicle: Vehicle = None,
                               rear_vehicle: Vehicle = None) -> np.ndarray:
         vt, dv, dp = 0, 0, 0
-        if ego_vehicle:
-            vt = ego_vehicle.target_speed - ego_vehicle.speed
+        if ego_vehicle and not isinstance(ego_vehicle, RoadObject):
+            vt = getattr(ego_vehicle, "target_speed", ego_vehicle.speed) - ego_vehicle.speed
             d_safe = self.DISTANCE_WANTED + np.maximum(ego_vehicle.speed, 0) * self.TIME_WANTED
             if front_vehicle:
                 d = ego_vehicle.lane_distance_to(front_vehicle)
-- 
2.43.0


From f4752045ed4d8451d8c567c7d27df67eeaa42ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 17/60] fix: display of planned action sequences in every
 environment

---
 highway_env/envs/common/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index f391703..2b9ecd4 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -73,7 +73,7 @@ class EnvViewer(object):
         :param actions: list of action, following the env's action space specification
         """
         if isinstance(self.env.action_space, Discrete):
-            actions = [self.env.ACTIONS[a] for a in actions]
+            actions = [self.env.action_type.actions[a] for a in actions]
         if len(actions) > 1:
             self.vehicle_trajectory = self.env.vehicle.predict_trajectory(actions,
                                                                           1 / self.env.config["policy_frequency"],
-- 
2.43.0


From 947dd30c4596378abf1eaefca179fa4cb6cb4265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 18/60] fix: panning the display must not change the
 configuration

---
 highway_env/envs/common/graphics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index 2b9ecd4..6235d89 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -34,7 +34,8 @@ class EnvViewer(object):
             self.screen = pygame.display.set_mode([self.env.config["screen_width"], self.env.config["screen_height"]])
         self.sim_surface = WorldSurface(panel_size, 0, pygame.Surface(panel_size))
         self.sim_surface.scaling = env.config.get("scaling", self.sim_surface.INITIAL_SCALING)
-        self.sim_surface.centering_position = env.config.get("centering_position", self.sim_surface.INITIAL_CENTERING)
+        self.sim_surface.centering_position = list(env.config.get("centering_position",
+                                                              self.sim_surface.INITIAL_CENTERING))
         self.clock = pygame.time.Clock()
 
         self.enabled = True
-- 
2.43.0


From 65c8f5483879577c5f1553725c2996b92d9bc9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 19/60] fix: grayscale observations must not alias the stacked
 frames

---
 highway_env/envs/common/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index 9135300..41c3271 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -79,7 +79,7 @@ class GrayscaleObservation(ObservationType):
         new_obs = np.reshape(new_obs, self.observation_shape)
         self.state = np.roll(self.state, -1, axis=-1)
         self.state[:, :, -1] = new_obs
-        return self.state
+        return self.state.copy()
 
     def _record_to_grayscale(self) -> np.ndarray:
         #TODO: center rendering on the observer vehicle
-- 
2.43.0


From a0f588c1f2a319efa8e649b2f818e96f82acb774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 20/60] fix: lane changes towards a planned lane of index zero

---
 highway_env/vehicle/behavior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index 41687a0..80dfe8d 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -249,7 +249,7 @@ class IDMVehicle(ControlledVehicle):
         # Do I have a planned route for a specific lane which is safe for me to access?
         old_preceding, old_following = self.road.neighbour_vehicles(self)
         self_pred_a = self.acceleration(ego_vehicle=self, front_vehicle=new_preceding)
-        if self.route and self.route[0][2]:
+        if self.route and self.route[0][2] is not None:
             # Wrong direction
             if np.sign(lane_index[2] - self.target_lane_index[2]) != np.sign(self.route[0][2] - self.target_lane_index[2]):
                 return False
-- 
2.43.0


From 8c96509426d74377ea4f0494e13379724445e8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 21/60] fix: preferred lane of index zero and vehicles without
 a route

---
 highway_env/envs/common/abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index f90907f..edf7b71 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -341,10 +341,10 @@ class AbstractEnv(gym.Env):
 
     def set_preferred_lane(self, preferred_lane: int = None) -> 'AbstractEnv':
         env_copy = copy.deepcopy(self)
-        if preferred_lane:
+        if preferred_lane is not None:
             for v in env_copy.road.vehicles:
                 if isinstance(v, IDMVehicle):
-                    v.route = [(lane[0], lane[1], preferred_lane) for lane in v.route]
+                    v.route = [(lane[0], lane[1], preferred_lane) for lane in v.route or [v.lane_index]]
                     # Vehicle with lane preference are also less cautious
                     v.LANE_CHANGE_MAX_BRAKING_IMPOSED = 1000
         return env_copy
-- 
2.43.0


From 4924fb15d30a3543c61f220940cd1b5dbf3ef47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 22/60] fix: vehicles just outside the occupancy grid must not
 be observed on its border

---
 highway_env/envs/common/observation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index 41c3271..d747a16 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -289,8 +289,8 @@ class OccupancyGridObservation(ObservationType):
                         x = utils.lmap(x, [-1, 1], [self.features_range["x"][0], self.features_range["x"][1]])
                     if "y" in self.features_range:
                         y = utils.lmap(y, [-1, 1], [self.features_range["y"][0], self.features_range["y"][1]])
-                    cell = (int((x - self.grid_size[0, 0]) / self.grid_step[0]),
-                            int((y - self.grid_size[1, 0]) / self.grid_step[1]))
+                    cell = (int(np.floor((x - self.grid_size[0, 0]) / self.grid_step[0])),
+                            int(np.floor((y - self.grid_size[1, 0]) / self.grid_step[1])))
                     if 0 <= cell[1] < self.grid.shape[-2] and 0 <= cell[0] < self.grid.shape[-1]:
                         self.grid[layer, cell[1], cell[0]] = vehicle[feature]
             # Clip
-- 
2.43.0


From 7f114bd97812b5b2632a4c7cbe611649ac1bd328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 23/60] fix: shape of occupancy grids that are not square

---
 highway_env/envs/common/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index d747a16..1dae4d8 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -243,7 +243,7 @@ class OccupancyGridObservation(ObservationType):
         self.grid_size = np.array(grid_size) if grid_size is not None else np.array(self.GRID_SIZE)
         self.grid_step = np.array(grid_step) if grid_step is not None else np.array(self.GRID_STEP)
         grid_shape = np.asarray(np.floor((self.grid_size[:, 1] - self.grid_size[:, 0]) / self.grid_step), dtype=np.int)
-        self.grid = np.zeros((len(self.features), *grid_shape))
+        self.grid = np.zeros((len(self.features), *grid_shape[::-1]))  # Layers of rows (y) of cells (x)
         self.features_range = features_range
         self.absolute = absolute
 
-- 
2.43.0


From 5635a22e0b5d9b9cf55f751307f118fe27deb695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 24/60] fix: lane changes in the roundabout reward, whatever
 the action type

---
 highway_env/envs/roundabout_env.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/roundabout_env.py b/highway_env/envs/roundabout_env.py
index 4f03229..4857af8 100644
--- a/highway_env/envs/roundabout_env.py
+++ b/highway_env/envs/roundabout_env.py
@@ -5,6 +5,7 @@ import numpy as np
 
 from highway_env import utils
 from highway_env.envs.common.abstract import AbstractEnv
+from highway_env.envs.common.action import DiscreteMetaAction
 from highway_env.road.lane import LineType, StraightLane, CircularLane, SineLane
 from highway_env.road.road import Road, RoadNetwork
 from highway_env.vehicle.controller import MDPVehicle
@@ -38,7 +39,8 @@ class RoundaboutEnv(AbstractEnv):
         return config
 
     def _reward(self, action: int) -> float:
-        lane_change = action == 0 or action == 2
+        lane_change = isinstance(self.action_type, DiscreteMetaAction) \
+            and self.action_type.actions[action] in ["LANE_LEFT", "LANE_RIGHT"]
         speed_index = getattr(self.vehicle, "speed_index", MDPVehicle.speed_to_index(self.vehicle, self.vehicle.speed))
         reward = self.COLLISION_REWARD * self.vehicle.crashed \
                  + self.HIGH_SPEED_REWARD * speed_index / max(self.vehicle.SPEED_COUNT - 1, 1) \
-- 
2.43.0


From 1776062102d7a5d726e109583f4a0da6e1db6306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 25/60] fix: lane changes in the merge reward, whatever the
 action type

---
 highway_env/envs/merge_env.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/highway_env/envs/merge_env.py b/highway_env/envs/merge_env.py
index ec637ac..c8a0c69 100644
--- a/highway_env/envs/merge_env.py
+++ b/highway_env/envs/merge_env.py
@@ -34,11 +34,11 @@ class MergeEnv(AbstractEnv):
         :param action: the action performed
         :return: the reward of the state-action transition
         """
-        action_reward = {0: self.LANE_CHANGE_REWARD,
-                         1: 0,
-                         2: self.LANE_CHANGE_REWARD,
-                         3: 0,
-                         4: 0}
+        action_reward = {"LANE_LEFT": self.LANE_CHANGE_REWARD,
+                         "IDLE": 0,
+                         "LANE_RIGHT": self.LANE_CHANGE_REWARD,
+                         "FASTER": 0,
+                         "SLOWER": 0}
         reward = self.COLLISION_REWARD * self.vehicle.crashed \
                  + self.RIGHT_LANE_REWARD * self.vehicle.lane_index[2] / 1 \
                  + self.HIGH_SPEED_REWARD * self.vehicle.speed_index / (self.vehicle.SPEED_COUNT - 1)
@@ -49,7 +49,7 @@ class MergeEnv(AbstractEnv):
                 reward += self.MERGING_SPEED_REWARD * \
                           (vehicle.target_speed - vehicle.speed) / vehicle.target_speed
 
-        return utils.lmap(action_reward[action] + reward,
+        return utils.lmap(action_reward[self.action_type.actions[action]] + reward,
                           [self.COLLISION_REWARD + self.MERGING_SPEED_REWARD,
                             self.HIGH_SPEED_REWARD + self.RIGHT_LANE_REWARD],
                           [0, 1])
-- 
2.43.0


From 6efa6be045f4bdd0eacddebf72e39ea8e62efdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 26/60] fix: never show the frame of an earlier instant

---
 highway_env/envs/common/abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index edf7b71..7511fa0 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -162,6 +162,7 @@ class AbstractEnv(gym.Env):
         self.define_spaces()  # First, to set the controlled vehicle class depending on action space
         self.time = self.steps = 0
         self.done = False
+        self.should_update_rendering = True
         self._reset()
         self.define_spaces()  # Second, to link the obs and actions to the vehicles once the scene is created
         return self.observation_type.observe()
@@ -208,6 +209,7 @@ class AbstractEnv(gym.Env):
 
     def _simulate(self, action: Optional[Action] = None) -> None:
         """Perform several steps of simulation with constant action."""
+        self.should_update_rendering = True
         for _ in range(int(self.config["simulation_frequency"] // self.config["policy_frequency"])):
             # Forward action to the vehicle
             if action is not None \
-- 
2.43.0


From 21f2988b998798db51ad7ab1222fd227d55663e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 27/60] fix: two-way reward divided by zero on the single
 opposite lane

At the end of the road the ego vehicle follows on to the opposite road, which has
one lane.
---
 highway_env/envs/two_way_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/two_way_env.py b/highway_env/envs/two_way_env.py
index 7d05371..ee5f5b2 100644
--- a/highway_env/envs/two_way_env.py
+++ b/highway_env/envs/two_way_env.py
@@ -47,7 +47,7 @@ class TwoWayEnv(AbstractEnv):
         neighbours = self.road.network.all_side_lanes(self.vehicle.lane_index)
 
         reward = self.HIGH_SPEED_REWARD * self.vehicle.speed_index / (self.vehicle.SPEED_COUNT - 1) \
-                 + self.LEFT_LANE_REWARD * (len(neighbours) - 1 - self.vehicle.target_lane_index[2]) / (len(neighbours) - 1)
+                 + self.LEFT_LANE_REWARD * (len(neighbours) - 1 - self.vehicle.target_lane_index[2]) / max(len(neighbours) - 1, 1)
         return reward
 
     def _is_terminal(self) -> bool:
-- 
2.43.0


From 64738a9b2f0d357c292af3ccabb8b50ffd844ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 28/60] fix: routes through roads with several lanes could not
 be predicted or observed

The lane of the roads of a planned route is left open (None), which get_lane
rejected for roads with several lanes: observing a vehicle whose route ends on
one, or predicting its trajectory, raised a TypeError.
---
 highway_env/road/road.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/road.py b/highway_env/road/road.py
index ee217bf..c886839 100644
--- a/highway_env/road/road.py
+++ b/highway_env/road/road.py
@@ -44,7 +44,7 @@ class RoadNetwork(object):
         :return: the corresponding lane geometry.
         """
         _from, _to, _id = index
-        if _id is None and len(self.graph[_from][_to]) == 1:
+        if _id is None:  # Any lane of the road
             _id = 0
         return self.graph[_from][_to][_id]
 
-- 
2.43.0


From be15943ce2d65b639854dad782b9daac35b1e610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 29/60] fix: constant-speed predictions jumped by a whole lane
 at the end of a road

The route drops a road a few metres before the vehicle leaves it, from when on
the position along the old lane was used as a position along the new one.
---
 highway_env/vehicle/controller.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index fdbc86c..6910917 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -191,8 +191,13 @@ class ControlledVehicle(Vehicle):
         :param times: timesteps of prediction
         :return: positions, headings
         """
-        coordinates = self.lane.local_coordinates(self.position)
-        route = self.route or [self.lane_index]
+        route = list(self.route or [self.lane_index])
+        # The vehicle may still be at the end of the previous road, or have changed lane since the route was planned
+        for lane_index in [self.lane_index, self.target_lane_index]:
+            if lane_index[:2] == route[0][:2]:
+                route[0] = lane_index
+                break
+        coordinates = self.road.network.get_lane(route[0]).local_coordinates(self.position)
         return tuple(zip(*[self.road.network.position_heading_along_route(route, coordinates[0] + self.speed * t, 0)
                      for t in times]))
 
-- 
2.43.0


From 433fc05ad911154de4327e50acb91f200c33e597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:15 +0000
Subject: [PATCH 30/60] fix: change_vehicles failed on vehicles without a
 controller

Parked vehicles have no target lane, target speed or route to copy.
---
 highway_env/vehicle/behavior.py   | 5 +++--
 highway_env/vehicle/controller.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index 80dfe8d..933212c 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -71,8 +71,9 @@ class IDMVehicle(ControlledVehicle):
         :return: a new vehicle at the same dynamical state
         """
         v = cls(vehicle.road, vehicle.position, heading=vehicle.heading, speed=vehicle.speed,
-                target_lane_index=vehicle.target_lane_index, target_speed=vehicle.target_speed,
-                route=vehicle.route, timer=getattr(vehicle, 'timer', None))
+                target_lane_index=getattr(vehicle, 'target_lane_index', None),
+                target_speed=getattr(vehicle, 'target_speed', None),
+                route=getattr(vehicle, 'route', None), timer=getattr(vehicle, 'timer', None))
         return v
 
     def act(self, action: Union[dict, str] = None):
diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index 6910917..bd27317 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -52,8 +52,9 @@ class ControlledVehicle(Vehicle):
         :return: a new vehicle at the same dynamical state
         """
         v = cls(vehicle.road, vehicle.position, heading=vehicle.heading, speed=vehicle.speed,
-                target_lane_index=vehicle.target_lane_index, target_speed=vehicle.target_speed,
-                route=vehicle.route)
+                target_lane_index=getattr(vehicle, "target_lane_index", None),
+                target_speed=getattr(vehicle, "target_speed", None),
+                route=getattr(vehicle, "route", None))
         return v
 
     def plan_route_to(self, destination: str) -> "ControlledVehicle":
-- 
2.43.0


From ed5bb7e5ba43ccf22bf001a684d088254c0fd06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:57 +0000
Subject: [PATCH 31/60] fix: forced routes could lead to a lane that does not
 exist

set_route_at_intersection kept the lane number of the current road even if the
next road has fewer lanes, so observing the vehicle raised an IndexError.
---
 highway_env/vehicle/controller.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index bd27317..d136177 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -165,9 +165,10 @@ class ControlledVehicle(Vehicle):
                 break
         else:
             return [self.route]
-        next_destinations_from = list(next_destinations.keys())
-        routes = [self.route[0:index+1] + [(self.route[index][1], destination, self.route[index][2])]
-                  for destination in next_destinations_from]
+        _, _from, _id = self.route[index]
+        # Keep the same lane, if the next road has it
+        routes = [self.route[0:index+1] + [(_from, destination, _id if _id is None or _id < len(lanes) else None)]
+                  for destination, lanes in next_destinations.items()]
         return routes
 
     def set_route_at_intersection(self, _to: int) -> None:
-- 
2.43.0


From 066501b33497c4ce5eb1bb9d5e8689c4a3a4b733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:18 +0000
Subject: [PATCH 32/60] fix: events unrelated to driving must not change the
 command of the vehicle

With an acceleration or steering range that is not symmetric, any event (a mouse
motion, the zoom keys) sent the command of a released key to the vehicle.
---
 highway_env/envs/common/graphics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index 6235d89..febdba2 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -200,4 +200,5 @@ class EventHandler(object):
                 action[0] = 0
             if event.key == pygame.K_UP and action_type.longitudinal:
                 action[0] = 0
-        action_type.act(action)
+        if not np.array_equal(action, action_type.last_action):
+            action_type.act(action)
-- 
2.43.0


From 2416421d9be484fb56434da4edfc40cf5280e303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 33/60] fix: a new viewer must draw the scene even if it did
 not change since the last frame

---
 highway_env/envs/common/abstract.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 7511fa0..29a643e 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -241,6 +241,7 @@ class AbstractEnv(gym.Env):
 
         if self.viewer is None:
             self.viewer = EnvViewer(self)
+            self.should_update_rendering = True  # Nothing has been drawn by this viewer yet
 
         self.enable_auto_render = True
 
-- 
2.43.0


From 5807bba58774ca95624e29edb235ef8e2f0d9bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:42 +0000
Subject: [PATCH 34/60] fix: predicting a trajectory with a sampling period
 shorter than the timestep

---
 highway_env/vehicle/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index d136177..b92e2e3 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -301,6 +301,6 @@ class MDPVehicle(ControlledVehicle):
                 t += 1
                 v.act()  # Low-level control action
                 v.step(dt)
-                if (t % int(trajectory_timestep / dt)) == 0:
+                if (t % max(int(trajectory_timestep / dt), 1)) == 0:
                     states.append(copy.deepcopy(v))
         return states
-- 
2.43.0


From 2b462de93684d361b8f677635c57a653aa788372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:42 +0000
Subject: [PATCH 35/60] fix: showing trajectories with a low simulation
 frequency

---
 highway_env/vehicle/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/graphics.py b/highway_env/vehicle/graphics.py
index 17ced80..82ed57b 100644
--- a/highway_env/vehicle/graphics.py
+++ b/highway_env/vehicle/graphics.py
@@ -136,7 +136,7 @@ class VehicleGraphics(object):
         for v in itertools.islice(vehicle.history,
                                   None,
                                   int(simulation * duration),
-                                  int(simulation / frequency)):
+                                  max(int(simulation / frequency), 1)):
             cls.display(v, surface, transparent=True, offscreen=offscreen)
 
     @classmethod
-- 
2.43.0


From 8e89dbffd91e0f9d6f376d98b0622fa1059c2b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 36/60] fix: intersection frames must show the vehicles that
 just appeared or left

---
 highway_env/envs/intersection_env.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/highway_env/envs/intersection_env.py b/highway_env/envs/intersection_env.py
index 7167ebd..12db031 100644
--- a/highway_env/envs/intersection_env.py
+++ b/highway_env/envs/intersection_env.py
@@ -92,6 +92,7 @@ class IntersectionEnv(AbstractEnv):
         obs, reward, done, info = super().step(action)
         self._clear_vehicles()
         self._spawn_vehicle(spawn_probability=self.config["spawn_probability"])
+        self.should_update_rendering = True  # The last frame does not show the vehicles that just left or appeared
         info["agents_rewards"] = tuple(self._agent_reward(action, vehicle) for vehicle in self.controlled_vehicles)
         info["agents_dones"] = tuple(self._agent_is_terminal(vehicle) for vehicle in self.controlled_vehicles)
         return obs, reward, done, info
-- 
2.43.0


From 4702f5e3ba0559f67155d5aa169a050765391d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:23 +0000
Subject: [PATCH 37/60] fix: the multi-agent wrapper must follow its
 environment's spaces

---
 highway_env/envs/common/abstract.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 29a643e..fa8dd27 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -399,6 +399,13 @@ class AbstractEnv(gym.Env):
 
 
 class MultiAgentWrapper(Wrapper):
+    def reset(self, **kwargs):
+        obs = super().reset(**kwargs)
+        # The spaces may have been changed by a new configuration
+        self.observation_space = self.env.observation_space
+        self.action_space = self.env.action_space
+        return obs
+
     def step(self, action):
         obs, reward, done, info = super().step(action)
         reward = info["agents_rewards"]
-- 
2.43.0


From c2ddfc6f1ed41b7bf127be0ccf934347813d347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:55 +0000
Subject: [PATCH 38/60] fix: interval vehicles could not act without a data set

---
 highway_env/vehicle/uncertainty/prediction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index 79785a7..7b93ee7 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -56,7 +56,7 @@ class IntervalVehicle(LinearVehicle):
                          timer)
         self.theta_a_i = theta_a_i if theta_a_i is not None else LinearVehicle.ACCELERATION_RANGE
         self.theta_b_i = theta_b_i if theta_b_i is not None else LinearVehicle.STEERING_RANGE
-        self.data = data
+        self.data = data if data is not None else {}
         self.interval = VehicleInterval(self)
         self.trajectory = []
         self.interval_trajectory = []
-- 
2.43.0


From b140f2309f58a618179faee882e180cb30ecd1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:55 +0000
Subject: [PATCH 39/60] fix: the uncontrolled linear parameter-varying system
 could not be stepped

---
 highway_env/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index 1f227fe..b76185d 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -180,7 +180,7 @@ class LPV(object):
         self.b = np.array(b) if b is not None else np.zeros((*self.x0.shape, 1))
         self.d = np.array(d) if d is not None else np.zeros((*self.x0.shape, 1))
         self.omega_i = np.array(omega_i) if omega_i is not None else np.zeros((2, 1))
-        self.u = np.array(u) if u is not None else np.zeros((1,))
+        self.u = np.array(u) if u is not None else np.zeros((self.b.shape[1], 1))
         self.k = np.array(k) if k is not None else np.zeros((self.b.shape[1], self.b.shape[0]))
         self.center = np.array(center) if center is not None else np.zeros(self.x0.shape)
 
-- 
2.43.0


From c12950da291ff0593b1a82522f6667a72100ec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:55 +0000
Subject: [PATCH 40/60] fix: changing the coordinates of a vector must not
 modify it

---
 highway_env/interval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index b76185d..415d972 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -263,11 +263,11 @@ class LPV(object):
             if back:
                 value = transformation @ value
                 if offset:
-                    value += self.center
+                    value = value + self.center
                 return value
             else:
                 if offset:
-                    value -= self.center
+                    value = value - self.center
                 return transformation_inv @ value
 
     def step(self, dt: float) -> None:
-- 
2.43.0


From e05668d87c7b4b465464dd1a1660199be658ce23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:55 +0000
Subject: [PATCH 41/60] fix: the initial state interval must be preserved by
 the change of coordinates

---
 highway_env/interval.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index 415d972..514a6fe 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -220,7 +220,7 @@ class LPV(object):
         self.a0 = self.change_coordinates(self.a0, matrix=True)
         self.da = self.change_coordinates(self.da, matrix=True)
         self.b = self.change_coordinates(self.b, offset=False)
-        self.x_i_t = np.array(self.change_coordinates([x for x in self.x_i]))
+        self.x_i_t = self.change_coordinates(self.x_i, interval=True)
 
     def set_control(self, control: np.ndarray, state: np.ndarray = None) -> None:
         if state is not None:
@@ -245,12 +245,12 @@ class LPV(object):
         transformation, transformation_inv = self.coordinates
         if interval:
             if back:
-                value = intervals_scaling(transformation, value[:, :, np.newaxis]).squeeze() + \
+                value = intervals_scaling(transformation, value[:, :, np.newaxis]).squeeze(-1) + \
                         offset * np.array([self.center, self.center])
                 return value
             else:
                 value = value - offset * np.array([self.center, self.center])
-                value = intervals_scaling(transformation_inv, value[:, :, np.newaxis]).squeeze()
+                value = intervals_scaling(transformation_inv, value[:, :, np.newaxis]).squeeze(-1)
                 return value
         elif matrix:  # Matrix
             if back:
-- 
2.43.0


From fb109272b1031d273c672a23e7c0e9015a47671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:55 +0000
Subject: [PATCH 42/60] fix: perturbations must be predicted in the coordinates
 of the system

---
 highway_env/interval.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index 514a6fe..ec69d16 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -220,6 +220,7 @@ class LPV(object):
         self.a0 = self.change_coordinates(self.a0, matrix=True)
         self.da = self.change_coordinates(self.da, matrix=True)
         self.b = self.change_coordinates(self.b, offset=False)
+        self.d = self.change_coordinates(self.d, offset=False)
         self.x_i_t = self.change_coordinates(self.x_i, interval=True)
 
     def set_control(self, control: np.ndarray, state: np.ndarray = None) -> None:
-- 
2.43.0


From d8ca86666710c64e35fd692221853a49b8fb6f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:55 +0000
Subject: [PATCH 43/60] fix: the nominal state must follow the coordinates of
 the system

---
 highway_env/interval.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index ec69d16..99ad906 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -222,6 +222,7 @@ class LPV(object):
         self.b = self.change_coordinates(self.b, offset=False)
         self.d = self.change_coordinates(self.d, offset=False)
         self.x_i_t = self.change_coordinates(self.x_i, interval=True)
+        self.x_t = self.change_coordinates(self.x_t)
 
     def set_control(self, control: np.ndarray, state: np.ndarray = None) -> None:
         if state is not None:
-- 
2.43.0


From a7d963b4691dba111e0d003725575e89314262c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:55 +0000
Subject: [PATCH 44/60] fix: systems that cannot be made Metzler must still be
 centered

---
 highway_env/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index 99ad906..dfaae09 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -213,7 +213,7 @@ class LPV(object):
                     pass
             if not self.coordinates:
                 print("Non Metzler A0 with eigenvalues: ", eig_v)
-        else:
+        if not self.coordinates:  # Centering only
             self.coordinates = (np.eye(a0.shape[0]), np.eye(a0.shape[0]))
 
         # Forward coordinates change of states and models
-- 
2.43.0


From 85e5e0febe58f8659e536f06a10186cd83cc57e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:20 +0000
Subject: [PATCH 45/60] fix: predicted heading intervals must be in the frame
 of the vehicle, not of its lane

---
 highway_env/vehicle/uncertainty/prediction.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index 7b93ee7..e5742c6 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -192,10 +192,8 @@ class IntervalVehicle(LinearVehicle):
         if self.target_lane_index != self.previous_target_lane_index:
             position_i = self.interval.position
             target_lane = self.road.network.get_lane(self.target_lane_index)
-            previous_target_lane = self.road.network.get_lane(self.previous_target_lane_index)
             longi_i, lat_i = interval_absolute_to_local(position_i, target_lane)
-            psi_i = self.interval.heading + \
-                    target_lane.heading_at(longi_i.mean()) - previous_target_lane.heading_at(longi_i.mean())
+            psi_i = self.interval.heading - target_lane.heading_at(longi_i.mean())
             x_i_local_unrotated = np.transpose([lat_i, psi_i])
             new_x_i_t = self.lateral_lpv.change_coordinates(x_i_local_unrotated, back=False, interval=True)
             delta = new_x_i_t.mean(axis=0) - self.lateral_lpv.x_i_t.mean(axis=0)
@@ -223,7 +221,7 @@ class IntervalVehicle(LinearVehicle):
         position_i = interval_local_to_absolute(x_i_long[:, 0], x_i_lat[:, 0], target_lane)
         self.interval.position = position_i
         self.interval.speed = x_i_long[:, 2]
-        self.interval.heading = x_i_lat[:, 1]
+        self.interval.heading = x_i_lat[:, 1] + target_lane.heading_at(x_i_long[:, 0].mean())
 
     def predictor_init(self) -> None:
         """Initialize the LPV models used for interval prediction."""
-- 
2.43.0


From 03c0480b56fc2ce442027208ecb4ac87c8da1902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:20 +0000
Subject: [PATCH 46/60] fix: interval observers of vehicles driving in any
 direction

---
 highway_env/vehicle/uncertainty/prediction.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index e5742c6..85049ae 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -160,10 +160,11 @@ class IntervalVehicle(LinearVehicle):
         d_psi_i += b_i
 
         # Position interval
-        cos_i = [-1 if psi_i[0] <= np.pi <= psi_i[1] else min(map(np.cos, psi_i)),
-                 1 if psi_i[0] <= 0 <= psi_i[1] else max(map(np.cos, psi_i))]
-        sin_i = [-1 if psi_i[0] <= -np.pi/2 <= psi_i[1] else min(map(np.sin, psi_i)),
-                 1 if psi_i[0] <= np.pi/2 <= psi_i[1] else max(map(np.sin, psi_i))]
+        includes = lambda angle: np.floor((psi_i[1] - angle) / (2*np.pi)) >= np.ceil((psi_i[0] - angle) / (2*np.pi))
+        cos_i = [-1 if includes(np.pi) else min(map(np.cos, psi_i)),
+                 1 if includes(0) else max(map(np.cos, psi_i))]
+        sin_i = [-1 if includes(-np.pi/2) else min(map(np.sin, psi_i)),
+                 1 if includes(np.pi/2) else max(map(np.sin, psi_i))]
         dx_i = intervals_product(v_i, cos_i)
         dy_i = intervals_product(v_i, sin_i)
 
-- 
2.43.0


From fc68436d7bb691a5198a7b32692143fd7f756a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:13 +0000
Subject: [PATCH 47/60] fix: merging the boundaries of an interval observer on
 lanes of any direction

---
 highway_env/vehicle/uncertainty/prediction.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index 85049ae..c234667 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -352,8 +352,10 @@ class IntervalVehicle(LinearVehicle):
         v_minus.observer_step(dt)
         v_plus.observer_step(dt)
         # 3. Merge the resulting intervals together to x_i(t+dt).
-        self.interval.position = np.array([v_minus.interval.position[0], v_plus.interval.position[1]])
-        self.interval.speed = np.array([v_minus.interval.speed[0], v_plus.interval.speed[1]])
+        self.interval.position = np.array([np.minimum(v_minus.interval.position[0], v_plus.interval.position[0]),
+                                           np.maximum(v_minus.interval.position[1], v_plus.interval.position[1])])
+        self.interval.speed = np.array([min(v_minus.interval.speed[0], v_plus.interval.speed[0]),
+                                        max(v_minus.interval.speed[1], v_plus.interval.speed[1])])
         self.interval.heading = np.array([min(v_minus.interval.heading[0], v_plus.interval.heading[0]),
                                           max(v_minus.interval.heading[1], v_plus.interval.heading[1])])
 
-- 
2.43.0


From 869d6db20dfbe155124a2fe0c08f05aaca706a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:27 +0000
Subject: [PATCH 48/60] fix: time-to-collision grid of an observer on another
 road than the first agent

---
 highway_env/envs/common/finite_mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/finite_mdp.py b/highway_env/envs/common/finite_mdp.py
index 938e9ac..6c9e273 100644
--- a/highway_env/envs/common/finite_mdp.py
+++ b/highway_env/envs/common/finite_mdp.py
@@ -95,7 +95,7 @@ def compute_ttc_grid(env: 'AbstractEnv',
     :return: the time-co-collision grid, with axes SPEED x LANES x TIME
     """
     vehicle = vehicle or env.vehicle
-    road_lanes = env.road.network.all_side_lanes(env.vehicle.lane_index)
+    road_lanes = env.road.network.all_side_lanes(vehicle.lane_index)
     grid = np.zeros((vehicle.SPEED_COUNT, len(road_lanes), int(horizon / time_quantization)))
     for speed_index in range(grid.shape[0]):
         ego_speed = vehicle.index_to_speed(speed_index)
-- 
2.43.0


From b987ddee2c3bb734c76e7afb57c7c88199e3e964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:27 +0000
Subject: [PATCH 49/60] fix: finite MDP of environments whose collision reward
 is not in their configuration

---
 highway_env/envs/common/finite_mdp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/common/finite_mdp.py b/highway_env/envs/common/finite_mdp.py
index 6c9e273..9ae94f2 100644
--- a/highway_env/envs/common/finite_mdp.py
+++ b/highway_env/envs/common/finite_mdp.py
@@ -55,8 +55,10 @@ def finite_mdp(env: 'AbstractEnv',
     lanes = np.arange(l)/max(l - 1, 1)
     speeds = np.arange(v)/max(v - 1, 1)
     
+    # Not every environment has its collision reward in its configuration
+    collision_reward = env.config["collision_reward"] if "collision_reward" in env.config else env.COLLISION_REWARD
     state_reward = \
-        + env.config["collision_reward"] * grid \
+        + collision_reward * grid \
         + env.RIGHT_LANE_REWARD * np.tile(lanes[np.newaxis, :, np.newaxis], (v, 1, t)) \
         + env.HIGH_SPEED_REWARD * np.tile(speeds[:, np.newaxis, np.newaxis], (1, l, t))
     
-- 
2.43.0


From 3e580ff9469c914f8a2498c380906d324fcce130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:27 +0000
Subject: [PATCH 50/60] fix: the last continuous action must be a copy, of
 floats, of the caller's array

---
 highway_env/envs/common/action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/action.py b/highway_env/envs/common/action.py
index 262842b..469a202 100644
--- a/highway_env/envs/common/action.py
+++ b/highway_env/envs/common/action.py
@@ -131,7 +131,7 @@ class ContinuousAction(ActionType):
                 "acceleration": 0,
                 "steering": utils.lmap(action[0], [-1, 1], self.steering_range)
             })
-        self.last_action = action
+        self.last_action = np.array(action, dtype=float)  # The caller may reuse its array
 
 
 class DiscreteMetaAction(ActionType):
-- 
2.43.0


From c945d31a6bf63603983cd510f71f5f14f348f5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:15 +0000
Subject: [PATCH 51/60] fix: predicted trajectories were a tick short at some
 frequencies

---
 highway_env/vehicle/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index b92e2e3..556889a 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -297,10 +297,10 @@ class MDPVehicle(ControlledVehicle):
         t = 0
         for action in actions:
             v.act(action)  # High-level decision
-            for _ in range(int(action_duration / dt)):
+            for _ in range(int(np.round(action_duration / dt, 6))):  # The ratio may be rounded down
                 t += 1
                 v.act()  # Low-level control action
                 v.step(dt)
-                if (t % max(int(trajectory_timestep / dt), 1)) == 0:
+                if (t % max(int(np.round(trajectory_timestep / dt, 6)), 1)) == 0:
                     states.append(copy.deepcopy(v))
         return states
-- 
2.43.0


From 8f3e652b688c6012808defc7a0fbecd5435fb972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:32 +0000
Subject: [PATCH 52/60] fix: vehicles created from another one shared its
 planned route

---
 highway_env/vehicle/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index 556889a..1616124 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -39,7 +39,7 @@ class ControlledVehicle(Vehicle):
         super().__init__(road, position, heading, speed)
         self.target_lane_index = target_lane_index or self.lane_index
         self.target_speed = target_speed or self.speed
-        self.route = route
+        self.route = list(route) if route is not None else None  # Its own: the roads followed are removed from it
 
     @classmethod
     def create_from(cls, vehicle: "ControlledVehicle") -> "ControlledVehicle":
-- 
2.43.0


From abedb8b020ce01ee29ef5ec77e96117b0a5f8e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:32 +0000
Subject: [PATCH 53/60] fix: enumerating route hypotheses changed the planned
 route of the vehicle

---
 highway_env/vehicle/uncertainty/estimation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index ec6a504..40c0cf5 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -66,9 +66,9 @@ class MultipleModelVehicle(LinearVehicle):
         """
 
         for route in self.get_routes_at_intersection():  # Candidates
-            # Unknown lane -> first lane
-            for i, lane_index in enumerate(route):
-                route[i] = lane_index if lane_index[2] is not None else (lane_index[0], lane_index[1], 0)
+            # Unknown lane -> first lane, in a copy: the candidate may be the planned route itself
+            route = [lane_index if lane_index[2] is not None else (lane_index[0], lane_index[1], 0)
+                     for lane_index in route]
             # Is this route already considered, or a suffix of a route already considered ?
             for known_route, _ in self.data:
                 if known_route == route:
-- 
2.43.0


From 74270aa32801bc6831311be9b6e70f130722fd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:32 +0000
Subject: [PATCH 54/60] fix: route hypotheses were emptied at the end of the
 route

---
 highway_env/vehicle/uncertainty/estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index 40c0cf5..f7d6646 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -81,8 +81,8 @@ class MultipleModelVehicle(LinearVehicle):
 
         # Step the lane being followed in each possible route
         for route, _ in self.data:
-            if self.road.network.get_lane(route[0]).after_end(self.position):
-                route.pop(0)
+            if len(route) > 1 and self.road.network.get_lane(route[0]).after_end(self.position):
+                route.pop(0)  # At the end of a route, its last lane is followed
 
         # Reject inconsistent hypotheses
         for route, data in self.data.copy():
-- 
2.43.0


From 6b448e97660f500505c8f1a21d4cb4c019f64964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:32 +0000
Subject: [PATCH 55/60] fix: following a route hypothesis consumed it and added
 simulated samples to its data

---
 highway_env/vehicle/uncertainty/estimation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index f7d6646..1b615f5 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -1,3 +1,4 @@
+import copy
 from typing import Callable, Union
 
 import numpy as np
@@ -103,6 +104,6 @@ class MultipleModelVehicle(LinearVehicle):
         route, data = self.data[index]
         vehicle = RegressionVehicle.create_from(self)
         vehicle.target_lane_index = route[0]
-        vehicle.route = route
-        vehicle.data = data
+        vehicle.route = route.copy()
+        vehicle.data = copy.deepcopy(data)  # The samples of the copy are not observations of this vehicle
         return vehicle
-- 
2.43.0


From 0b82754c7b9a7c7c8026c1073918f401c2a0ae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:22 +0000
Subject: [PATCH 56/60] fix: the confidence polytope of an estimated parameter
 did not contain it

---
 highway_env/utils.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/highway_env/utils.py b/highway_env/utils.py
index 69cf9d4..cadf40c 100644
--- a/highway_env/utils.py
+++ b/highway_env/utils.py
@@ -162,26 +162,27 @@ def confidence_ellipsoid(data: Dict[str, np.ndarray], lambda_: float = 1e-5, del
     return theta_n_lambda, g_n_lambda, beta_n
 
 
-def confidence_polytope(data: dict, parameter_box: np.ndarray) -> Tuple[np.ndarray, np.ndarray, np.ndarray, float]:
+def confidence_polytope(data: dict, parameter_box: np.ndarray, lambda_: float = 1e-5) \
+        -> Tuple[np.ndarray, np.ndarray, np.ndarray, float]:
     """
     Compute a confidence polytope over the parameter theta, where y = theta^T phi
 
     :param data: a dictionary {"features": [phi_0,...,phi_N], "outputs": [y_0,...,y_N]}
     :param parameter_box: a box [theta_min, theta_max]  containing the parameter theta
+    :param lambda_: l2 regularization parameter
     :return: estimated theta, polytope vertices, Gramian matrix G_N_lambda, radius beta_N
     """
     param_bound = np.amax(np.abs(parameter_box))
-    theta_n_lambda, g_n_lambda, beta_n = confidence_ellipsoid(data, param_bound=param_bound)
+    theta_n_lambda, g_n_lambda, beta_n = confidence_ellipsoid(data, lambda_=lambda_, param_bound=param_bound)
 
-    values, pp = np.linalg.eig(g_n_lambda)
-    radius_matrix = np.sqrt(beta_n) * np.linalg.inv(pp) @ np.diag(np.sqrt(1 / values))
-    h = np.array(list(itertools.product([-1, 1], repeat=theta_n_lambda.shape[0])))
-    d_theta = np.array([radius_matrix @ h_k for h_k in h])
+    # Bounding box of the confidence ellipsoid |theta - theta_n|_G <= beta_n
+    values, pp = np.linalg.eigh(g_n_lambda)
+    width = beta_n * np.sqrt(pp**2 @ (1 / np.maximum(values, lambda_)))
 
     # Clip the parameter and confidence region within the prior parameter box.
+    theta_i = np.clip([theta_n_lambda - width, theta_n_lambda + width], parameter_box[0], parameter_box[1])
     theta_n_lambda = np.clip(theta_n_lambda, parameter_box[0], parameter_box[1])
-    for k, _ in enumerate(d_theta):
-        d_theta[k] = np.clip(d_theta[k], parameter_box[0] - theta_n_lambda, parameter_box[1] - theta_n_lambda)
+    d_theta = np.array(list(itertools.product(*np.transpose(theta_i - theta_n_lambda))))
     return theta_n_lambda, d_theta, g_n_lambda, beta_n
 
 
-- 
2.43.0


From 7d37cd1b98c96a0f6f89e167e9fcdd24b0e1a87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:22 +0000
Subject: [PATCH 57/60] fix: regression vehicles failed to predict before the
 first sample

---
 highway_env/vehicle/uncertainty/estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index 1b615f5..f92a48e 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -15,10 +15,10 @@ class RegressionVehicle(IntervalVehicle):
     """Estimator for the parameter of a LinearVehicle."""
 
     def longitudinal_matrix_polytope(self) -> Polytope:
-        return self.polytope_from_estimation(self.data["longitudinal"], self.theta_a_i, self.longitudinal_structure)
+        return self.polytope_from_estimation(self.data.get("longitudinal"), self.theta_a_i, self.longitudinal_structure)
 
     def lateral_matrix_polytope(self) -> Polytope:
-        return self.polytope_from_estimation(self.data["lateral"], self.theta_b_i, self.lateral_structure)
+        return self.polytope_from_estimation(self.data.get("lateral"), self.theta_b_i, self.lateral_structure)
 
     def polytope_from_estimation(self, data: dict, parameter_box: np.ndarray, structure: Callable[[], Polytope])\
             -> Polytope:
-- 
2.43.0


From 28c32960851273fae26cc755333844c9deaecd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:45 +0000
Subject: [PATCH 58/60] fix: the linear model of dynamical vehicles halves the
 yaw moment of the steering

There are two front tyres, as in the lateral force and in the non-linear dynamics (2.22).
---
 highway_env/vehicle/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/dynamics.py b/highway_env/vehicle/dynamics.py
index 455d096..288153a 100644
--- a/highway_env/vehicle/dynamics.py
+++ b/highway_env/vehicle/dynamics.py
@@ -113,7 +113,7 @@ class BicycleVehicle(Vehicle):
         """
         B = np.array([
             [2*self.FRICTION_FRONT / self.MASS],
-            [self.FRICTION_FRONT * self.LENGTH_A / self.INERTIA_Z]
+            [2*self.FRICTION_FRONT * self.LENGTH_A / self.INERTIA_Z]
         ])
 
         speed_body_x = self.speed
-- 
2.43.0


From 4eb6197ff0b4138bd3405534101bbb410237a449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:45 +0000
Subject: [PATCH 59/60] fix: LPV systems whose dynamics are not diagonalizable
 were transformed by a singular matrix

numpy returns numerically dependent eigenvectors and does not raise: the predicted intervals were nan or unrelated to
the state (e.g. for a position and its speed).
---
 highway_env/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index dfaae09..c4f8229 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -206,7 +206,7 @@ class LPV(object):
         # Rotation
         if not is_metzler(a0):
             eig_v, transformation = np.linalg.eig(a0)
-            if np.isreal(eig_v).all():
+            if np.isreal(eig_v).all() and np.linalg.cond(transformation) < 1e8:  # A0 is diagonalizable
                 try:
                     self.coordinates = (transformation, np.linalg.inv(transformation))
                 except LinAlgError:
-- 
2.43.0


From 3a3dc3e5149fc0cc9a4ed61a9ec393f509ccbd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:28 +0000
Subject: [PATCH 60/60] fix: grayscale images declared as (width, height) are
 transposed instead of scrambled

---
 highway_env/envs/common/observation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index 1dae4d8..5bc13c9 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -76,6 +76,8 @@ class GrayscaleObservation(ObservationType):
 
     def observe(self) -> np.ndarray:
         new_obs = self._record_to_grayscale()
+        if new_obs.shape != self.observation_shape and new_obs.shape == self.observation_shape[::-1]:
+            new_obs = new_obs.T  # The observation is declared as (width, height), while images are rows of pixels
         new_obs = np.reshape(new_obs, self.observation_shape)
         self.state = np.roll(self.state, -1, axis=-1)
         self.state[:, :, -1] = new_obs
-- 
2.43.0

