From 98c2eeb8ad907877ad1458f4d12f0769189b45d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:57 +0000
Subject: [PATCH 01/93] fix: ignore tracking messages that match a body without
 filter

---
 nonlinear_avoidance/multi_body_human.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multi_body_human.py b/nonlinear_avoidance/multi_body_human.py
index 4ab2294..e00e177 100644
--- a/nonlinear_avoidance/multi_body_human.py
+++ b/nonlinear_avoidance/multi_body_human.py
@@ -285,14 +285,14 @@ class MultiBodyObstacle:
             except:
                 pass
             else:
+                if self.position_filters[idx_tree] is None:
+                    continue
+
                 self.position_filters[idx_tree].run_once(new_object_poses[ii].position)
                 self.orientation_filters[idx_tree].run_once(
                     new_object_poses[ii].rotation
                 )
 
-                if self.position_filters[idx_tree] is None:
-                    continue
-
                 if transform_to_robot_frame and self.robot is not None:
                     filtered_poses[idx_tree] = ObjectPose(
                         position=self.robot.pose.transform_position_to_relative(
-- 
2.43.0


From a2b2788ba905dfa26714b02a71556b8363554d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:57 +0000
Subject: [PATCH 02/93] fix: look tracked bodies up under the key they are
 stored with

---
 nonlinear_avoidance/multi_body_human.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_body_human.py b/nonlinear_avoidance/multi_body_human.py
index e00e177..3b33de9 100644
--- a/nonlinear_avoidance/multi_body_human.py
+++ b/nonlinear_avoidance/multi_body_human.py
@@ -136,7 +136,7 @@ class MultiBodyObstacle:
 
     def get_obstacle_id_from_optitrackid(self, opt_id: int) -> int:
         return [
-            x for x, y in self._graph.nodes(data=True) if y["optitrack_id"] == opt_id
+            x for x, y in self._graph.nodes(data=True) if y["update_id"] == opt_id
         ][0]
 
     def get_name(self, idx: int) -> str:
-- 
2.43.0


From 70427b99c5c67076dcc819aac48492c2eae95705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:57 +0000
Subject: [PATCH 03/93] fix: store the measured orientation of the robot in its
 pose

---
 nonlinear_avoidance/multi_body_human.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_body_human.py b/nonlinear_avoidance/multi_body_human.py
index 3b33de9..9794311 100644
--- a/nonlinear_avoidance/multi_body_human.py
+++ b/nonlinear_avoidance/multi_body_human.py
@@ -274,7 +274,7 @@ class MultiBodyObstacle:
                 franka_object = new_object_poses[index_franka_list]
 
                 self.robot.pose.position = franka_object.position
-                self.robot.pose.rotation = franka_object.rotation
+                self.robot.pose.orientation = franka_object.rotation
 
         # Update filters and put to poses
         filtered_poses = [None] * self.n_components
-- 
2.43.0


From 82b439a3a2d9a16af6ee5bf45c0ba1e689dd0269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:57 +0000
Subject: [PATCH 04/93] fix: orient a tracked limb along its measured direction

---
 nonlinear_avoidance/multi_body_human.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multi_body_human.py b/nonlinear_avoidance/multi_body_human.py
index 9794311..afc9e0e 100644
--- a/nonlinear_avoidance/multi_body_human.py
+++ b/nonlinear_avoidance/multi_body_human.py
@@ -429,12 +429,16 @@ class MultiBodyObstacle:
 
         if rotvec_norm := np.linalg.norm(rot_vec):
             rot_vec = rot_vec / rotvec_norm
-            theta = np.arcsin(rotvec_norm)
-            quat = np.hstack((rot_vec * np.cos(theta / 2.0), [np.sin(theta / 2.0)]))
+            theta = np.arctan2(rotvec_norm, axes_direction[2])
+            quat = np.hstack((rot_vec * np.sin(theta / 2.0), [np.cos(theta / 2.0)]))
 
-        else:
+        elif axes_direction[2] > 0:
             quat = np.array([0, 0, 0, 1.0])
 
+        else:
+            # Antiparallel, i.e., half a turn around any perpendicular axis
+            quat = np.array([1.0, 0, 0, 0])
+
         # breakpoint()
 
         self[idx_obs].pose.orientation = Rotation.from_quat(quat)
-- 
2.43.0


From 7060482b73feaf68fe78876d60fa64847330693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:57 +0000
Subject: [PATCH 05/93] fix: keep the orientation of a tracked limb when its
 message is missing

---
 nonlinear_avoidance/multi_body_human.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_body_human.py b/nonlinear_avoidance/multi_body_human.py
index afc9e0e..c7f08dd 100644
--- a/nonlinear_avoidance/multi_body_human.py
+++ b/nonlinear_avoidance/multi_body_human.py
@@ -351,7 +351,14 @@ class MultiBodyObstacle:
             # print("orientation", self[idx_node].orientation)
             it_node += 1  # Iterate
 
-            if filtered_poses[idx_node] is None:
+            if (
+                filtered_poses[idx_node] is None
+                and self.get_update_id(idx_node) is not None
+            ):
+                # Tracked, but no message this time -> keep the last orientation
+                self.align_position_with_parent(idx_node)
+
+            elif filtered_poses[idx_node] is None:
                 # Static opbstacle - no optitrack exists...
                 # We assume orientation was constant?
                 idx_parent = list(self._graph.predecessors(idx_node))[0]
-- 
2.43.0


From 6f35c44fb78b5395fd1a59dd688cdc3f07bac153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:57 +0000
Subject: [PATCH 06/93] fix: reject a body part with unknown parent before
 registering it

---
 nonlinear_avoidance/multi_body_human.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_body_human.py b/nonlinear_avoidance/multi_body_human.py
index c7f08dd..b104bbb 100644
--- a/nonlinear_avoidance/multi_body_human.py
+++ b/nonlinear_avoidance/multi_body_human.py
@@ -221,10 +221,10 @@ class MultiBodyObstacle:
         parent_reference_position: npt.ArrayLike,
         update_id: Optional[int] = None,
     ):
+        parent_ind = self.get_obstacle_id_from_name(parent_name)
         reference_position = np.array(reference_position)
         obstacle.set_reference_point(reference_position, in_global_frame=False)
         self._obstacle_list.append(obstacle)
-        parent_ind = self.get_obstacle_id_from_name(parent_name)
 
         self._graph.add_node(
             self._id_counter,
-- 
2.43.0


From 4125b2015a329094259ca67fbc75467f9f9ae534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 07/93] fix: transform local positions as positions in compound
 obstacles

---
 nonlinear_avoidance/multi_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index 2586075..8f147f4 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -90,7 +90,7 @@ class MultiObstacle:
 
     def get_gamma(self, position, in_global_frame: bool = True) -> float:
         if not in_global_frame:
-            position = self._pose.transform_pose_from_relative(position)
+            position = self._pose.transform_position_from_relative(position)
 
         gammas = [
             obs.get_gamma(position, in_global_frame=True) for obs in self._obstacle_list
@@ -104,7 +104,7 @@ class MultiObstacle:
         in_global_frame: bool = True,
     ) -> float:
         if not in_global_frame:
-            position = self._pose.transform_pose_from_relative(position)
+            position = self._pose.transform_position_from_relative(position)
 
         gammas = []
         for ii, obs in enumerate(self._obstacle_list):
-- 
2.43.0


From cf6880b56455cfa3c2a8ad1130fc6bd512c68ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 08/93] fix: transform local positions as positions in the
 block arch

---
 nonlinear_avoidance/arch_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/arch_obstacle.py b/nonlinear_avoidance/arch_obstacle.py
index 60bb479..46aed7d 100644
--- a/nonlinear_avoidance/arch_obstacle.py
+++ b/nonlinear_avoidance/arch_obstacle.py
@@ -105,7 +105,7 @@ class BlockArchObstacle:
 
     def get_gamma(self, position, in_global_frame: bool = True):
         if not in_global_frame:
-            position = self.pose.transform_pose_from_relative(position)
+            position = self.pose.transform_position_from_relative(position)
 
         gammas = [
             obs.get_gamma(position, in_global_frame=True) for obs in self._obstacle_list
@@ -119,7 +119,7 @@ class BlockArchObstacle:
         in_global_frame: bool = True,
     ) -> float:
         if not in_global_frame:
-            position = self._pose.transform_pose_from_relative(position)
+            position = self.pose.transform_position_from_relative(position)
 
         gammas = []
         for ii, obs in enumerate(self._obstacle_list):
-- 
2.43.0


From d2a67af3eb4498e6c14bc1726e95d9d15a8f7d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 09/93] fix: read the linear velocity of a compound obstacle
 from its twist

---
 nonlinear_avoidance/multi_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index 8f147f4..fef8a15 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -47,7 +47,7 @@ class MultiObstacle:
         if self.twist is None:
             return np.zeros(self.dimension)
         else:
-            return self.twist.linear_velocity
+            return self.twist.linear
 
     @linear_velocity.setter
     def linear_velocity(self, value: npt.ArrayLike) -> None:
-- 
2.43.0


From 8f4f0304048e44bd3299c569e1adfbde9701aa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 10/93] fix: choose the shape of the second intersecting
 obstacle by its own type

---
 nonlinear_avoidance/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/geometry.py b/nonlinear_avoidance/geometry.py
index 6dbafc7..979e2d8 100644
--- a/nonlinear_avoidance/geometry.py
+++ b/nonlinear_avoidance/geometry.py
@@ -58,7 +58,7 @@ def get_intersection_of_obstacles(
         obstacle1.create_shape()
         shape1 = obstacle1.shape
 
-    if isinstance(obstacle1, Ellipse) or isinstance(obstacle1, EllipseWithAxes):
+    if isinstance(obstacle2, Ellipse) or isinstance(obstacle2, EllipseWithAxes):
         shape2 = create_shapely_ellipse(obstacle2)
     else:
         obstacle2.create_shape()
-- 
2.43.0


From 31bc65798a716b62795b940096d628aed867ea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 11/93] fix: search the joint of a new component in the global
 frame

---
 nonlinear_avoidance/multi_obstacle.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index fef8a15..1ac553b 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -150,15 +150,21 @@ class MultiObstacle:
         """Create and add an obstacle container in the local frame of reference.
         Returns component id"""
         if reference_position is None:
-            global_reference = get_intersection_of_obstacles(
-                obstacle, self.get_component(parent_ind)
-            )
-            if global_reference is None:
-                raise ValueError("No intersection found.")
-
-            reference_position = obstacle.pose.transform_position_to_relative(
-                global_reference
-            )
+            # Both shapes need to be in the same (global) frame
+            local_pose = obstacle.pose
+            obstacle.pose = self._pose.transform_pose_from_relative(local_pose)
+            try:
+                global_reference = get_intersection_of_obstacles(
+                    obstacle, self.get_component(parent_ind)
+                )
+                if global_reference is None:
+                    raise ValueError("No intersection found.")
+
+                reference_position = obstacle.pose.transform_position_to_relative(
+                    global_reference
+                )
+            finally:
+                obstacle.pose = local_pose
         else:
             reference_position = np.array(reference_position)
 
-- 
2.43.0


From 02731d0529fc85c9c9ffe079ba9bcaa45f7ebb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 12/93] fix: reject a component with unknown parent before
 registering it

---
 nonlinear_avoidance/multi_obstacle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index 1ac553b..e9e3b34 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -149,6 +149,9 @@ class MultiObstacle:
     ) -> int:
         """Create and add an obstacle container in the local frame of reference.
         Returns component id"""
+        if parent_ind not in self._graph:
+            raise ValueError(f"Parent {parent_ind} does not exist.")
+
         if reference_position is None:
             # Both shapes need to be in the same (global) frame
             local_pose = obstacle.pose
-- 
2.43.0


From 7409f835f23a0c86b7ff46100dc09235acb27e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:37 +0000
Subject: [PATCH 13/93] fix: scale the reference point of a component with its
 deformation

---
 nonlinear_avoidance/multi_obstacle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index e9e3b34..beb8633 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -82,6 +82,10 @@ class MultiObstacle:
         for pose, obs in zip(self._local_poses, self._obstacle_list):
             pose.position = factor * pose.position
             obs.axes_length = factor * obs.axes_length
+            obs.set_reference_point(
+                factor * obs.get_reference_point(in_global_frame=False),
+                in_global_frame=False,
+            )
 
             obs.pose = self._pose.transform_pose_from_relative(pose)
 
-- 
2.43.0


From e40f96625962f5ecb43c61db5c04e7954c9de0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:28 +0000
Subject: [PATCH 14/93] fix: pass reference and convergence direction in the
 declared order when weighting the rotation

---
 nonlinear_avoidance/avoidance/rotational_avoider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index b0af7fb..5880e48 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -1085,7 +1085,7 @@ class RotationalAvoider(BaseAvoider):
         # unitdir_reference = UnitDirection(base).from_vector(reference_vector)
 
         weight = self.get_smooth_continuation_weight(
-            gamma, convergence_vector, reference_vector, base
+            gamma, reference_vector, convergence_vector, base
         )
 
         if weight <= 0:
-- 
2.43.0


From 35ddef130f1ad2d37f45c1ea34942d7e08dcc02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:25 +0000
Subject: [PATCH 15/93] fix: rotate between almost parallel and opposite
 directions the right way

---
 nonlinear_avoidance/vector_rotation.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index b84a461..fafa408 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -120,7 +120,9 @@ class VectorRotationXd:
         if dot_prod <= -1 - 1e-6:
             warnings.warn("(Close to) anti-parallel vectors.")
 
-        if np.allclose(vec_init, vec_rot):
+        vec_perp = vec_rot - vec_init * dot_prod
+        perp_norm = LA.norm(vec_perp)
+        if perp_norm < 1e-8:
             # (Anti-)parallel vectors => calculate random perpendicular vector
             vec_perp = np.zeros(vec_init.shape)
             if not LA.norm(vec_init[:2]):
@@ -130,10 +132,10 @@ class VectorRotationXd:
                 vec_perp[1] = vec_init[0] * (-1)
                 vec_perp[:2] = vec_perp[:2] / LA.norm(vec_perp[:2])
         else:
-            vec_perp = vec_rot - vec_init * dot_prod
-            vec_perp = vec_perp / LA.norm(vec_perp)
+            vec_perp = vec_perp / perp_norm
 
-        angle = np.arccos(min(max(dot_prod, -1), 1))
+        # More precise than the arccos for (almost) parallel vectors
+        angle = math.atan2(perp_norm, dot_prod)
         return cls(base=np.array([vec_init, vec_perp]).T, rotation_angle=angle)
 
     # def __mult__(self, factor) -> VectorRotationXd:
@@ -264,15 +266,10 @@ class VectorRotationSequence:
             raise ValueError("Antiparallel vectors.")
 
         # Evaluate basis and angles
-        ind_nonzero = np.zeros(dot_prod.shape[0], dtype=bool)
-        for ii in range(ind_nonzero.shape[0]):
-            ind_nonzero[ii] = not np.allclose(
-                vectors_array[:, ii], vectors_array[:, ii + 1]
-            )
         vecs_perp = vectors_array[:, 1:] - vectors_array[:, :-1] * dot_prod
-        vecs_perp[:, ind_nonzero] = vecs_perp[:, ind_nonzero] / LA.norm(
-            vecs_perp[:, ind_nonzero], axis=0
-        )
+        perp_norms = LA.norm(vecs_perp, axis=0)
+        ind_nonzero = perp_norms >= 1e-8
+        vecs_perp[:, ind_nonzero] = vecs_perp[:, ind_nonzero] / perp_norms[ind_nonzero]
 
         for ii in np.arange(ind_nonzero.shape[0])[np.logical_not(ind_nonzero)]:
             # (Anti-)parallel vectors => calculate random perpendicular vector
@@ -287,8 +284,7 @@ class VectorRotationSequence:
 
             vecs_perp[:, ii] = vec_perp
 
-        angles = np.zeros(ind_nonzero.shape[0])
-        angles[ind_nonzero] = np.arccos(np.maximum(dot_prod[ind_nonzero], -1.0))
+        angles = np.arctan2(perp_norms, dot_prod)
 
         return cls(np.stack((vectors_array[:, :-1], vecs_perp), axis=2), angles)
 
-- 
2.43.0


From 469dd11b343e7a8c97db06307ad8fed2aa1d0cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:44 +0000
Subject: [PATCH 16/93] fix: account for turning compound obstacles in three
 dimensions

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 1abda8b..c29e8f4 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -128,7 +128,7 @@ def compute_multiobstacle_relative_velocity(
         if hasattr(obs, "twist") and obs.twist is not None:
             relative_velocity = relative_velocity + obs.twist.linear * weights[ii]
 
-            if obs.twist.angular:
+            if np.any(obs.twist.angular):
                 if position.shape[0] == 2:
                     angular_velocity = np.cross(
                         np.array([0, 0, obs.twist.angular]),
@@ -143,7 +143,9 @@ def compute_multiobstacle_relative_velocity(
 
                 relative_velocity = (
                     relative_velocity
-                    + weights[ii] * influence_weight[ii] * angular_velocity[:2]
+                    + weights[ii]
+                    * influence_weight[ii]
+                    * angular_velocity[: position.shape[0]]
                 )
 
         if hasattr(obs, "deformation_rate"):
-- 
2.43.0


From d7643fcb5e8106cc7213d51790a3757444aee230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:28 +0000
Subject: [PATCH 17/93] fix: keep the slow-down finite when heading numerically
 exactly towards a reference point

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index c29e8f4..4bb1f40 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -369,7 +369,9 @@ class MultiObstacleAvoider:
         """Returns scaling factor between [0, 1]"""
         rot_weight = np.array(self._rotation_weights)
         conv_prox = np.array(self._convergence_reference_proximity)
-        ind_pos = np.logical_and(rot_weight > 0.0, 0.0 < conv_prox, conv_prox < 1.0)
+        # The product of unit vectors can numerically exceed one
+        conv_prox = np.minimum(conv_prox, 1.0)
+        ind_pos = np.logical_and(rot_weight > 0.0, 0.0 < conv_prox)
 
         scaling = np.ones_like(rot_weight)
         scaling[ind_pos] = ((1 - conv_prox[ind_pos]) / rot_weight[ind_pos]) ** (
-- 
2.43.0


From d6c740f79109fb234efe4a5aa33c76939eff2121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:28 +0000
Subject: [PATCH 18/93] fix: keep the nominal speed when no rotation is applied
 and stop in front of obstacles

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 4bb1f40..433920b 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -331,7 +331,12 @@ class MultiObstacleAvoider:
         final_velocity = final_sequence.get_end_vector()
 
         if len(self._cluster_weights) <= 0:
-            return final_velocity + relative_velocity
+            # No rotation (e.g., heading exactly towards the reference point), but
+            # the velocity still vanishes when reaching an obstacle
+            averaged_normal, gamma = self.compute_averaged_normal_and_gamma(position)
+            if np.dot(final_velocity, averaged_normal) < 0:
+                initial_magnitude = initial_magnitude * min(max(gamma - 1, 0), 1)
+            return final_velocity * initial_magnitude + relative_velocity
 
         # averaged_normal, gamma = self.compute_averaged_normal_and_gamma(position)
         averaged_normal = np.sum(
-- 
2.43.0


From 20e10e45c7ff3e32f82b5bfd12c045a9536ab2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:12 +0000
Subject: [PATCH 19/93] fix: evaluate motions arbitrarily close to the goal

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index fafa408..4dc1e57 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -256,7 +256,7 @@ class VectorRotationSequence:
     @classmethod
     def create_from_vector_array(cls, vectors_array: np.ndarray) -> Self:
         array_norm = LA.norm(vectors_array, axis=0)
-        if np.any(np.isclose(array_norm, 0)):
+        if np.any(array_norm <= 0):
             raise ValueError("Zero vector in sequence.")
 
         vectors_array = vectors_array / array_norm
-- 
2.43.0


From 87b853ebcccf10b789eb4b7d159d536ec65639e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:33 +0000
Subject: [PATCH 20/93] fix: ignore a component exactly on the other side of
 the goal

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 433920b..7127d56 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -606,7 +606,8 @@ class MultiObstacleAvoider:
                         )
                     )
                     if trafo_comp_to_parent is None:
-                        breakpoint()  # TODO: debugging -> remove
+                        # On opposite sides of the singularity
+                        break
 
                     # TODO: this could be the vector directly...
                     self.conv_tree.add_node_orientation(
@@ -624,6 +625,10 @@ class MultiObstacleAvoider:
                         # Root reached
                         break
 
+                if trafo_comp_to_parent is None:
+                    # No unique way around the singularity -> ignore component
+                    continue
+
                 # Add convergence transformation to branch
                 node_id = (ii_tree, ii_com)
                 try:
-- 
2.43.0


From 529708cb407a46e2f292e1aa373d57d72536eecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:33 +0000
Subject: [PATCH 21/93] fix: treat directions as exactly (anti-)parallel where
 the perpendicular is arbitrary

---
 nonlinear_avoidance/vector_rotation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 4dc1e57..47befa0 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -124,6 +124,7 @@ class VectorRotationXd:
         perp_norm = LA.norm(vec_perp)
         if perp_norm < 1e-8:
             # (Anti-)parallel vectors => calculate random perpendicular vector
+            perp_norm = 0
             vec_perp = np.zeros(vec_init.shape)
             if not LA.norm(vec_init[:2]):
                 vec_perp[0] = 1
@@ -271,6 +272,8 @@ class VectorRotationSequence:
         ind_nonzero = perp_norms >= 1e-8
         vecs_perp[:, ind_nonzero] = vecs_perp[:, ind_nonzero] / perp_norms[ind_nonzero]
 
+        perp_norms[np.logical_not(ind_nonzero)] = 0
+
         for ii in np.arange(ind_nonzero.shape[0])[np.logical_not(ind_nonzero)]:
             # (Anti-)parallel vectors => calculate random perpendicular vector
             vec_init = vectors_array[:, ii]
-- 
2.43.0


From d1640239cb2f12987d180db012db879ae5aea191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:37 +0000
Subject: [PATCH 22/93] fix: keep the rotation plane of almost (anti-)parallel
 directions orthogonal

---
 nonlinear_avoidance/vector_rotation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 47befa0..b0eef7f 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -134,6 +134,8 @@ class VectorRotationXd:
                 vec_perp[:2] = vec_perp[:2] / LA.norm(vec_perp[:2])
         else:
             vec_perp = vec_perp / perp_norm
+            # The difference of almost (anti-)parallel vectors is inexact
+            vec_perp = vec_perp - vec_init * np.dot(vec_init, vec_perp)
 
         # More precise than the arccos for (almost) parallel vectors
         angle = math.atan2(perp_norm, dot_prod)
@@ -272,6 +274,10 @@ class VectorRotationSequence:
         ind_nonzero = perp_norms >= 1e-8
         vecs_perp[:, ind_nonzero] = vecs_perp[:, ind_nonzero] / perp_norms[ind_nonzero]
 
+        # The difference of almost (anti-)parallel vectors is inexact
+        vecs_perp = vecs_perp - vectors_array[:, :-1] * np.sum(
+            vectors_array[:, :-1] * vecs_perp, axis=0
+        )
         perp_norms[np.logical_not(ind_nonzero)] = 0
 
         for ii in np.arange(ind_nonzero.shape[0])[np.logical_not(ind_nonzero)]:
-- 
2.43.0


From bf72870455b4950a96b6fc586a40d6c178d4c24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:30 +0000
Subject: [PATCH 23/93] fix: subtract obstacle motion from the velocity rather
 than from its direction

---
 nonlinear_avoidance/nonlinear_rotation_avoider.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/nonlinear_rotation_avoider.py b/nonlinear_avoidance/nonlinear_rotation_avoider.py
index b0186fa..3a33be2 100644
--- a/nonlinear_avoidance/nonlinear_rotation_avoider.py
+++ b/nonlinear_avoidance/nonlinear_rotation_avoider.py
@@ -209,12 +209,12 @@ class SingularityConvergenceDynamics(BaseAvoider):
 
         rotated_velocity = self._rotation_avoider.avoid(
             position=position,
-            initial_velocity=initial_velocity,
+            initial_velocity=initial_velocity * initial_norm,
             convergence_velocity=convergence_velocity * initial_norm,
             **kwargs,
         )
 
-        return rotated_velocity * initial_norm
+        return rotated_velocity
 
     def evaluate_sequence(self, position: np.ndarray) -> np.ndarray:
         if hasattr(self._rotation_avoider.initial_dynamics, "evaluate_magnitude"):
-- 
2.43.0


From e535dcb77e3008702afe5fca3c36c092d558f79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:16 +0000
Subject: [PATCH 24/93] fix: remove and replace obstacles of a rotation
 container together with their local motion

---
 nonlinear_avoidance/rotation_container.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/rotation_container.py b/nonlinear_avoidance/rotation_container.py
index 716d808..dae395a 100644
--- a/nonlinear_avoidance/rotation_container.py
+++ b/nonlinear_avoidance/rotation_container.py
@@ -32,11 +32,11 @@ class RotationContainer(BaseContainer):
 
     def __delitem__(self, key):
         """Obstacle is not part of the workspace anymore."""
-        super().__delitem__(self._obstacle_list[key])
-        del self._convergence_dynamics
+        super().__delitem__(key)
+        del self._convergence_dynamics[key]
 
     def __setitem__(self, key, value):
-        super().__setitem__(self._obstacle_list[key])
+        super().__setitem__(key, value)
         self._convergence_dynamics[key] = None
 
     def set_convergence_directions(
-- 
2.43.0


From ec79bd9673ae1f9c3c603554e9854f8db1f1add7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:19 +0000
Subject: [PATCH 25/93] fix: evaluate the local convergence of the close
 obstacles rather than of the first ones

---
 nonlinear_avoidance/nonlinear_rotation_avoider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/nonlinear_rotation_avoider.py b/nonlinear_avoidance/nonlinear_rotation_avoider.py
index 3a33be2..cdcb226 100644
--- a/nonlinear_avoidance/nonlinear_rotation_avoider.py
+++ b/nonlinear_avoidance/nonlinear_rotation_avoider.py
@@ -385,7 +385,7 @@ class SingularityConvergenceDynamics(BaseAvoider):
             local_velocities[
                 :, ii
             ] = self.obstacle_convergence.evaluate_convergence_around_obstacle(
-                position, obstacle=self._rotation_avoider.obstacle_environment[ii]
+                position, obstacle=self._rotation_avoider.obstacle_environment[it_obs]
             )
 
             direction_tree.add_node(
-- 
2.43.0


From 5bbaaadceb6eab9e596d44c91b537ff02253b024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:10 +0000
Subject: [PATCH 26/93] fix: slow down for the obstacle that limits most,
 whatever the registration order

---
 nonlinear_avoidance/avoidance/rotational_avoider.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index 5880e48..5aa13a0 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -447,24 +447,21 @@ class RotationalAvoider(BaseAvoider):
     ):
         """Returns scaled velocity such that zero on the surface of an obstacle."""
         # magnitude = np.dot(inv_gamma_weight, weights) * np.linalg.norm(initial_velocity)
-        min_dot_prod = 0
+        # The obstacle which limits the most
+        min_scaling = 0
         it_min = None
         for ii in range(len(gammas)):
             # Under the assumption of normalized input vectors
             dot_prod = np.dot(modulated_velocity, normals[:, ii])
 
-            if dot_prod < min_dot_prod:
-                min_dot_prod = dot_prod
+            if dot_prod / gammas[ii] < min_scaling:
+                min_scaling = dot_prod / gammas[ii]
                 it_min = ii
 
         if it_min is None:
             return modulated_velocity * initial_magintude
 
-        modulated_velocity = (
-            modulated_velocity
-            * initial_magintude
-            * (1 + (1 / gammas[it_min]) * min_dot_prod)
-        )
+        modulated_velocity = modulated_velocity * initial_magintude * (1 + min_scaling)
 
         return modulated_velocity
 
-- 
2.43.0


From 65b0bc562a987e23b6cffee7dc9f567ee3ec6e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:23 +0000
Subject: [PATCH 27/93] fix: evaluate commands with an obstacle placed exactly
 on the goal

---
 nonlinear_avoidance/dynamics/projected_rotation_dynamics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
index ac00a06..8e318af 100644
--- a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
@@ -461,7 +461,8 @@ class ProjectedRotationDynamics:
 
         dir_attr_to_obs = center - end
         if not (obs_norm := LA.norm(dir_attr_to_obs)):
-            raise NotImplementedError("Obstacle is at attractor.")
+            # Obstacle is at attractor -> no unique rotation towards it
+            return None
         dir_attr_to_obs = dir_attr_to_obs / obs_norm
 
         if np.dot(dir_attr_to_pos, dir_attr_to_obs) <= -1:
@@ -486,7 +487,8 @@ class ProjectedRotationDynamics:
 
         dir_attr_to_obs = self.attractor_position - obstacle.global_reference_point
         if not (obs_norm := LA.norm(dir_attr_to_obs)):
-            raise NotImplementedError("Obstacle is at attractor.")
+            # Obstacle is at attractor -> no unique rotation towards it
+            return None
         dir_attr_to_obs = dir_attr_to_obs / obs_norm
 
         if np.dot(dir_attr_to_pos, dir_attr_to_obs) <= -1:
-- 
2.43.0


From f82455e291e0afcdb011167d7c9cb861053d0d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:48 +0000
Subject: [PATCH 28/93] fix: graph elements drop their old parent when they
 move or are expelled

---
 nonlinear_avoidance/graph_handler.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 834dac0..bb098ac 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -13,7 +13,7 @@ GraphType = np.ndarray
 
 
 # @dataclass(slots=True)
-@dataclass
+@dataclass(eq=False)  # Compare by identity: the relations are recursive
 class GraphElement:
     """Hirarchy Element which Tracks the parent and children of current obstacle."""
 
@@ -28,10 +28,18 @@ class GraphElement:
         return len(self.children)
 
     def add_child(self, child):
-        self.children.append(child)
-        child.parent = self
+        child.set_parent(self)
 
     def set_parent(self, parent):
+        ancestor = parent
+        while ancestor is not None:
+            if ancestor is self:
+                raise ValueError("An element cannot be below itself.")
+            ancestor = ancestor.parent
+
+        if self.parent is not None:
+            self.parent.children.remove(self)
+
         self.parent = parent
         parent.children.append(self)
 
@@ -41,9 +49,11 @@ class GraphElement:
         # TODO: this requires updating of 'referenceID' etc.
         for child in self.children:
             child.parent = None
+        self.children = []
 
         if self.parent is not None:
             self.parent.children.remove(self)
+            self.parent = None
 
 
 @dataclass
-- 
2.43.0


From 87c0059d18b284338fe4b42833a73c7c68556a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:48 +0000
Subject: [PATCH 29/93] fix: element graph registers new elements with their
 parent

---
 nonlinear_avoidance/graph_handler.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index bb098ac..5de39e5 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -71,12 +71,20 @@ class BasicGraphHandler:
         self._graph.append(self._root)
 
     def add_element_with_parent(self, child, parent):
-        self._graph.append(GraphElement(value=child, parent=parent))
+        if parent not in self._graph:
+            raise ValueError("Parent is not part of the graph.")
+
+        element = GraphElement(value=child)
+        element.set_parent(parent)
+        self._graph.append(element)
 
     def delete_element(self, element):
         """Value should the reference to the to-be-deleted element."""
-        element.expel()
         self._graph.remove(element)
+        element.expel()
+
+        if element is self._root:
+            self._root = None
 
 
 class GraphHandler:
-- 
2.43.0


From 2ec55b3b9654d97868d80b88e42e5deb06d2f6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:48 +0000
Subject: [PATCH 30/93] fix: value graph stays consistent when elements are
 moved or edits rejected

---
 nonlinear_avoidance/graph_handler.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 5de39e5..e5c98fa 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -93,7 +93,7 @@ class GraphHandler:
     def __init__(self, n_nodes: int = None, node_values: list = None):
         """Input argument has to be the number of nodes 'n_nodes' or the node_values."""
         if node_values is not None:
-            self._node_values = node_values
+            self._node_values = list(node_values)
         elif n_nodes is not None:
             self._node_values = np.arange(n_nodes).tolist()
         else:
@@ -108,12 +108,15 @@ class GraphHandler:
 
     @property
     def roots(self):
-        return [ind_par for ind_par in self._parent_index if ind_par is None]
+        return [self._node_values[ii] for ii in self.get_root_indices()]
 
     def get_root_indices(self):
         return [ii for ii, ind_par in enumerate(self._parent_index) if ind_par is None]
 
     def set_root(self, value):
+        if value in self._node_values:
+            raise ValueError(f"Element {value} already exists.")
+
         self._node_values.append(value)
         self._children_indices.append([])
         self._parent_index.append(None)
@@ -129,11 +132,14 @@ class GraphHandler:
         return [self._node_values[ind] for ind in children_inds]
 
     def add_element_with_parent(self, value, parent_value):
+        if value in self._node_values:
+            raise ValueError(f"Element {value} already exists.")
+        ind_parent = self._node_values.index(parent_value)
+
         self._node_values.append(value)
         self._children_indices.append([])
 
         ind_node = len(self._node_values) - 1
-        ind_parent = self._node_values.index(parent_value)
 
         # Set parent and children
         self._children_indices[ind_parent].append(ind_node)
@@ -143,6 +149,15 @@ class GraphHandler:
         ind_node = self._node_values.index(value)
         ind_parent = self._node_values.index(parent_value)
 
+        ind_ancestor = ind_parent
+        while ind_ancestor is not None:
+            if ind_ancestor == ind_node:
+                raise ValueError("An element cannot be below itself.")
+            ind_ancestor = self._parent_index[ind_ancestor]
+
+        if self._parent_index[ind_node] is not None:
+            self._children_indices[self._parent_index[ind_node]].remove(ind_node)
+
         # Set parent and children
         self._children_indices[ind_parent].append(ind_node)
         self._parent_index[ind_node] = ind_parent
@@ -152,10 +167,10 @@ class GraphHandler:
 
         ii = 0
         while ii < len(node_indices):
-            node_indices += self.children_indices[node_indices[ii]]
+            node_indices += self._children_indices[node_indices[ii]]
             ii += 1
 
-        return self._node_values[node_indices]
+        return [self._node_values[ind] for ind in node_indices]
 
     def delete_element(self, element: GraphType):
         """Value should the reference to the to-be-deleted element."""
-- 
2.43.0


From 9119bccf58858179600ec5fe854392780787ac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 31/93] fix: ellipse compound keeps one root and one parent per
 component, edits are all or nothing

---
 nonlinear_avoidance/multi_ellipse_obstacle.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/multi_ellipse_obstacle.py b/nonlinear_avoidance/multi_ellipse_obstacle.py
index 51df36a..262d9d7 100644
--- a/nonlinear_avoidance/multi_ellipse_obstacle.py
+++ b/nonlinear_avoidance/multi_ellipse_obstacle.py
@@ -97,23 +97,31 @@ class MultiEllipseObstacle(Obstacle):
         return self._obstacle_list[idx_obs]
 
     def set_root(self, obs_id: int):
-        if self._root_idx:
+        if self._root_idx is not None or self._parent_list[obs_id] is not None:
             raise NotImplementedError("Make sure to delete first.")
-        self._root_idx = obs_id
         self._parent_list[obs_id] = -1
+        self._root_idx = obs_id
 
     def set_parent(self, obs_id: int, parent_id: int):
         # This should go automatically at run-time
-        if self._parent_list[obs_id]:
+        if self._parent_list[obs_id] is not None:
             raise NotImplementedError("Make sure to delete first.")
 
-        self._parent_list[obs_id] = parent_id
-        self._children_list[parent_id].append(obs_id)
+        ancestor_id = parent_id
+        while ancestor_id is not None and ancestor_id != -1:
+            if ancestor_id == obs_id:
+                raise ValueError("A component cannot be below itself.")
+            ancestor_id = self._parent_list[ancestor_id]
 
         # Set reference point
         intersection = get_intersection_of_obstacles(
             self._obstacle_list[obs_id], self._obstacle_list[parent_id]
         )
+        if intersection is None:
+            raise ValueError("No intersection found.")
+
+        self._parent_list[obs_id] = parent_id
+        self._children_list[parent_id].append(obs_id)
 
         self._obstacle_list[obs_id].set_reference_point(
             intersection, in_global_frame=True
-- 
2.43.0


From f6eae7b5f5e866caf72f6f7b889a626a83a37e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:33 +0000
Subject: [PATCH 32/93] fix: block arch rejects a component with unknown parent
 before registering it

---
 nonlinear_avoidance/arch_obstacle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/arch_obstacle.py b/nonlinear_avoidance/arch_obstacle.py
index 46aed7d..80b1a27 100644
--- a/nonlinear_avoidance/arch_obstacle.py
+++ b/nonlinear_avoidance/arch_obstacle.py
@@ -157,6 +157,9 @@ class BlockArchObstacle:
         parent_ind: int,
     ) -> None:
         """Create and add an obstacle container in the local frame of reference."""
+        if parent_ind not in self._graph:
+            raise ValueError(f"Parent {parent_ind} does not exist.")
+
         reference_position = np.array(reference_position)
         obstacle.set_reference_point(reference_position, in_global_frame=False)
 
-- 
2.43.0


From 97722ee39baff158b927a6797fcc9338f037410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:05 +0000
Subject: [PATCH 33/93] fix: plan local motions relative to the attractor, not
 to the origin

---
 nonlinear_avoidance/rotation_container.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/rotation_container.py b/nonlinear_avoidance/rotation_container.py
index dae395a..ff0d800 100644
--- a/nonlinear_avoidance/rotation_container.py
+++ b/nonlinear_avoidance/rotation_container.py
@@ -78,8 +78,11 @@ class RotationContainer(BaseContainer):
 
         for it_obs in range(self.n_obstacles):
             position = self[it_obs].center_position
-            pos_norm = LA.norm(position)
-            if not pos_norm:
+            relative_position = position - attractor
+            pos_norm = LA.norm(relative_position)
+            local_velocity = nonlinear_dynamics.evaluate(position)
+            velocity_norm = LA.norm(local_velocity)
+            if not pos_norm or not velocity_norm:
                 # Make it converge to attractor either way, as evaluation might
                 # be numerically bad.
                 self._convergence_dynamics[it_obs] = LinearSystem(
@@ -87,9 +90,8 @@ class RotationContainer(BaseContainer):
                 )
                 continue
 
-            local_velocity = nonlinear_dynamics.evaluate(position)
-            dot_prod = np.dot(position, local_velocity) / (
-                pos_norm * LA.norm(local_velocity)
+            dot_prod = np.dot(relative_position, local_velocity) / (
+                pos_norm * velocity_norm
             )
 
             if dot_prod == (-1):
-- 
2.43.0


From 5fd9abe7f2f226b9c859ad0a5f58c346f8db3dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 34/93] fix: rooms can be removed and the first room is not its
 own child

---
 .../multiboundary_container.py                | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 0e0300b..6ba3d72 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -68,18 +68,33 @@ class MultiBoundaryContainer(RotationContainer):
         if parent is not None:
             # Automatically define graph
             if parent == -1:
-                self.extend_graph(
-                    child=self.n_obstacles - 1, parent=self.n_obstacles - 2
-                )
+                parent = self.n_obstacles - 2
+
+            if parent >= 0:  # The first element has no predecessor
+                self.extend_graph(child=self.n_obstacles - 1, parent=parent)
 
     def __delitem__(self, key):
-        super().append(value)
-        breakpoint()  # Test if it was executed correctly
+        super().__delitem__(key)
+        if key < 0:
+            key = key + len(self._parent_array)
+
         del self._children_list[key]
         self._parent_array = np.delete(self._parent_array, key)
-
         del self._parent_intersection_point[key]
 
+        # Children of the deleted element become roots, later indices move up
+        for ii, parent in enumerate(self._parent_array):
+            if parent == key:
+                self._parent_array[ii] = -1
+                self._parent_intersection_point[ii] = None
+            elif parent > key:
+                self._parent_array[ii] = parent - 1
+
+        self._children_list = [
+            [child - (child > key) for child in children if child != key]
+            for children in self._children_list
+        ]
+
     def is_collision_free(self, position):
         """Check if any of the (boundary)-obstacles is collision free"""
         for obs in self._obstacle_list:
-- 
2.43.0


From 307da877817998e9fcfaa1c5f310cb5d94b7240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 35/93] fix: linking a room again takes it from its old parent,
 a room is never below itself

---
 nonlinear_avoidance/multiboundary_container.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 6ba3d72..a69574f 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -112,6 +112,17 @@ class MultiBoundaryContainer(RotationContainer):
 
     def extend_graph(self, child, parent):
         """Use internal functions to update parents & children."""
+        ancestor = parent
+        while ancestor >= 0:
+            if ancestor == child:
+                raise ValueError("A room cannot be below itself.")
+            ancestor = self._parent_array[ancestor]
+
+        old_parent = self._parent_array[child]
+        if old_parent >= 0:
+            self._children_list[old_parent].remove(child)
+            self._parent_intersection_point[child] = None
+
         self.set_parent(it=child, parent=parent)
         self.add_children(it=parent, children=[child])
 
@@ -177,7 +188,7 @@ class MultiBoundaryContainer(RotationContainer):
     def get_boundary_list(self):
         """Returns obstacle list containing all boundary-elements."""
         # TODO MAYBE: store boundaries in separate list (?)
-        return [self[ii] for ii in range(self.n_obstacles) if self[ii].is_boubndary]
+        return [self[ii] for ii in range(self.n_obstacles) if self[ii].is_boundary]
 
     def get_boundary_ind(self):
         """Returns indeces of the current container which are equivalent to obstacles."""
-- 
2.43.0


From de9c357848d5d4ab4a1e69443df45a1f26513432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 36/93] fix: passage between two rooms is searched where the
 rooms are

---
 nonlinear_avoidance/multiboundary_container.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index a69574f..c624e0b 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -35,6 +35,9 @@ def create_shapely_ellipse(ellipse):
     shapely_ellipse = affinity.rotate(
         shapely_ellipse, ellipse.orientation * 180 / math.pi
     )
+    shapely_ellipse = affinity.translate(
+        shapely_ellipse, ellipse.center_position[0], ellipse.center_position[1]
+    )
 
     return shapely_ellipse
 
-- 
2.43.0


From b97e61fb696dbd45ea5f1993c9bcd50cba0015b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 37/93] fix: relative references at the center and on the wall
 of a room

---
 .../multiboundary_container.py                | 42 +++++++++----------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index c624e0b..755f793 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -234,6 +234,12 @@ class MultiBoundaryContainer(RotationContainer):
         for ii, ii_self in zip(
             range(np.sum(ind_inside)), np.arange(self.n_obstacles)[ind_inside]
         ):
+            dist_point = np.linalg.norm(position - self[ii_self].center_position)
+            if not dist_point:
+                # No direction at the center, the reference point does not move
+                self[ii_self].reset_relative_reference()
+                continue
+
             # Displacement_weight for each obstacle
             # TODO: make sure following function is for obstacles other than ellipses (!)
             boundary_point = self[ii_self]._get_intersection_with_surface(
@@ -246,7 +252,6 @@ class MultiBoundaryContainer(RotationContainer):
             dist_boundary_point = np.linalg.norm(
                 boundary_point - self[ii_self].center_position
             )
-            dist_point = np.linalg.norm(position - self[ii_self].center_position)
 
             for jj, jj_self in zip(
                 range(num_close), np.arange(self.n_obstacles)[ind_close]
@@ -259,7 +264,7 @@ class MultiBoundaryContainer(RotationContainer):
 
                 # Only obstacles are considered which intersect at the
                 # (projected) boundary point
-                if gamma_boundary_point < 1:
+                if gamma_boundary_point <= 1:
                     continue
 
                 # Weight for the distance to the surface
@@ -273,27 +278,17 @@ class MultiBoundaryContainer(RotationContainer):
                     max_power_weight,
                 )
 
-                # Power weights
-                f_gap = dist_boundary_point / (dist_boundary_point - dist_point)
-                f_gamma = dist_boundary_point / (dist_point)
+                # Power weights (inverse, since they vanish at the surface)
+                f_gap = max(dist_boundary_point - dist_point, 0) / dist_boundary_point
+                f_gamma = dist_point / dist_boundary_point
                 ff = f_gap ** (weight_2) * f_gamma
 
-                x_hat_dist = (dist_boundary_point - dist_point * ff) / (1 - ff)
-                weights[jj] = x_hat_dist / dist_point
-
-                # print('weights final', weights[jj])
-                if weights[jj] > 1 or weights[jj] < 0:
-                    # DEBUG
-                    breakpoint()
-                    a = 0  # To not skip to beginning
+                x_hat_dist = (dist_point - dist_boundary_point * ff) / (1 - ff)
+                # Numerical errors could make it slightly leave the range
+                weights[jj] = min(max(x_hat_dist / dist_point, 0), 1)
 
             rel_reference_weight = np.max(weights)
 
-            if rel_reference_weight > 1:
-                # TODO: remove aftr debugging..
-                breakpoint()
-                raise ValueError("Weight greater than 1...")
-
             self[ii_self].global_relative_reference_point = (
                 rel_reference_weight * position
                 + (1 - rel_reference_weight) * self[ii_self].global_reference_point
@@ -303,9 +298,14 @@ class MultiBoundaryContainer(RotationContainer):
                 self[ii_self].global_relative_reference_point
                 - self[ii_self].center_position
             )
-            relative_gamma = (dist_boundary_point - dist_rel_ref) / (
-                dist_point - dist_rel_ref
-            )
+            if dist_point > dist_rel_ref:
+                relative_gamma = max(
+                    (dist_boundary_point - dist_rel_ref) / (dist_point - dist_rel_ref),
+                    1.0,
+                )
+            else:
+                # Position at the relative reference point
+                relative_gamma = np.inf
 
             self[ii_self].set_relative_gamma_at_position(
                 position=position, relative_gamma=relative_gamma
-- 
2.43.0


From 14452455fc05fcb385177e306b62d7f55a760524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 38/93] fix: access root, parent and children of a direction
 tree

---
 nonlinear_avoidance/vector_rotation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index b0eef7f..722c687 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -429,8 +429,8 @@ class VectorRotationTree:
         self.set_root_orientation(root_idx, vector_orientation)
 
     @property
-    def root(self) -> NodeType:
-        return self._graph.nodes(self._root_idx)
+    def root(self) -> dict:
+        return self._graph.nodes[self._root_idx]
 
     @property
     def dimension(self) -> int:
@@ -443,11 +443,11 @@ class VectorRotationTree:
 
     def get_parent(self, node_id: NodeType) -> NodeType:
         """Returns the (unique) parent."""
-        return self._graph.predecessors(node_id)[0]
+        return next(self._graph.predecessors(node_id))
 
     def get_children(self, node_id: NodeType) -> list[NodeType]:
         """Returns all the children of an input node."""
-        return self._graph.successors(node_id)
+        return list(self._graph.successors(node_id))
 
     def add_node_orientation(
         self, node_id: NodeType, orientation: VectorRotationXd, parent_id: NodeType
-- 
2.43.0


From fbcaefce1683e814279bfb77bd421d5b71b53479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 39/93] fix: change the direction of an inner node of a
 direction tree

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 722c687..f2431d4 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -566,7 +566,7 @@ class VectorRotationTree:
         # Do better checks to accelerate
         successors = self.get_all_childs_children(node_id)
         for succ in successors:
-            succ["orientation"] = None
+            self._graph.nodes[succ]["orientation"] = None
 
     def evaluate_all_orientations(
         self, sorted_list: list[NodeType] = None, pi_margin: Optional[float] = None
-- 
2.43.0


From 43c38563017d5b4d94ab4c1341def1ba04587c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 40/93] fix: a rejected node leaves the direction tree as it
 was

---
 nonlinear_avoidance/vector_rotation.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index f2431d4..7b971a6 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -471,16 +471,16 @@ class VectorRotationTree:
         if node_id in self.graph.nodes():
             raise ValueError(f"Node with id: {node_id} already exists.")
 
+        if np.any(np.isnan(direction)):
+            raise ValueError("Faulty input.")
+
         if parent_id is not None:
-            self._graph.add_edge(
-                parent_id,
-                node_id,
-            )
+            if parent_id not in self._graph:
+                raise ValueError(f"Parent with id: {parent_id} does not exist.")
             level = self._graph.nodes[parent_id]["level"] + 1
 
         elif child_id is not None:
-            self._graph.add_edge(node_id, child_id)
-            self.set_direction(direction, node_id)
+            raise NotImplementedError("Nodes can only be added below a parent.")
 
         elif level is None:
             raise ValueError(
@@ -498,8 +498,8 @@ class VectorRotationTree:
             orientation=None,
         )
 
-        if np.any(np.isnan(direction)):
-            raise ValueError("Faulty input.")
+        if parent_id is not None:
+            self._graph.add_edge(parent_id, node_id)
 
         if direction is not None:
             self.set_direction(node_id, direction)
-- 
2.43.0


From 9aac4f2f9222641ade388b30e6fa4401bf29d8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 41/93] fix: a rejected sequence leaves the direction tree as
 it was

---
 nonlinear_avoidance/vector_rotation.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 7b971a6..d6575d3 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -542,6 +542,17 @@ class VectorRotationTree:
         else:
             it_start = 0
 
+        # Check all new nodes before the first one is added
+        new_ids = [(node_id, ii) for ii in range(it_start, sequence.n_rotations)]
+        for new_id in new_ids + [node_id]:
+            if new_id in self._graph:
+                raise ValueError(f"Node with id: {new_id} already exists.")
+        if parent_id not in self._graph:
+            raise ValueError(f"Parent with id: {parent_id} does not exist.")
+        last_level = self._graph.nodes[parent_id]["level"] + len(new_ids) + 1
+        if last_level >= self.maximum_level:
+            raise ValueError(f"Exceeding  maximum level {last_level} of direction-tree.")
+
         for ii in range(it_start, sequence.n_rotations):
             internode_id = (node_id, ii)
             self.add_node(
-- 
2.43.0


From 47cc6eec7003983add3470d8eb827934eb6728a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 42/93] fix: rotate with the weighted mean of a direction tree

---
 nonlinear_avoidance/vector_rotation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index d6575d3..5325c64 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -893,7 +893,7 @@ class VectorRotationTree:
         """Returns the rotated vector based on the mean-direction.
 
         Assumption that the initial"""
-        rotated_dir = self.get_weighted_mean()
+        rotated_dir = self.get_weighted_mean(node_list, weights)
         temp_rotation = VectorRotationXd.from_directions(
             self.root["orientation"].base[:, 0], rotated_dir
         )
@@ -910,7 +910,7 @@ class VectorRotationTree:
         """Returns the rotated vector based on the mean-direction.
 
         Assumption that the initial"""
-        rotated_dir = self.get_weighted_mean()
+        rotated_dir = self.get_weighted_mean(node_list, weights)
         temp_rotation = VectorRotationXd.from_directions(
             rotated_dir, self.root["orientation"].base[:, 0]
         )
-- 
2.43.0


From 7b9a69494d43e7438aa62a4872b2ff196df51daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 43/93] fix: evaluate the orientations of a direction tree from
 the root downwards

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 5325c64..e2e71d5 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -601,7 +601,7 @@ class VectorRotationTree:
             self._graph.nodes[sorted_list[0]]["direction"],
         )
 
-        for n_id in self._graph.nodes:
+        for n_id in sorted_list:
             for c_id in self._graph.successors(n_id):
                 self._graph.nodes[c_id][
                     "orientation"
-- 
2.43.0


From ebf65709978809bd2bf64da97a50f9a42f984b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 44/93] fix: do not repeat the last rotation of a reduced
 direction tree

---
 nonlinear_avoidance/vector_rotation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index e2e71d5..5a35468 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -798,6 +798,7 @@ class VectorRotationTree:
                 "part_orientation"
             ].base[:, 0]
             shared_basis = get_orthogonal_basis(shared_first_basis)
+            is_appended = False
 
             # Get the rotation-vector (second -base vector) of all of the
             # same-level rotation-structs in the local_basis
@@ -870,6 +871,7 @@ class VectorRotationTree:
                 ).reshape(self.dimension, -1, 2)
 
                 vector_sequence.append_from_base_and_angle(new_base, new_angle)
+                is_appended = True
 
             else:
                 # Zero transformation angle, hence just reshape
@@ -878,9 +880,11 @@ class VectorRotationTree:
             for ii, node in enumerate(all_successors):
                 self._graph.nodes[node]["part_orientation"].base = all_basis[:, ii, :]
 
-        vector_sequence.append_from_base_and_angle(
-            np.vstack((shared_first_basis, averaged_direction)).T, new_angle
-        )
+        if not is_appended:
+            # The last rotation has already been stored if it has unweighted children
+            vector_sequence.append_from_base_and_angle(
+                np.vstack((shared_first_basis, averaged_direction)).T, new_angle
+            )
 
         if np.any(np.isnan(vector_sequence.basis_array)):
             breakpoint()  # TODO: remove debug
-- 
2.43.0


From ad569c65c0620dde94d0aaeecc0dd8fb2ddfefee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 45/93] fix: keep the rotation planes of deep direction trees
 orthonormal

---
 nonlinear_avoidance/vector_rotation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 5a35468..92dda8a 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -877,6 +877,13 @@ class VectorRotationTree:
                 # Zero transformation angle, hence just reshape
                 all_basis = all_basis.reshape(self.dimension, -1, 2)
 
+            # Numerical errors would else grow exponentially with the level
+            all_basis[:, :, 0] /= LA.norm(all_basis[:, :, 0], axis=0)
+            all_basis[:, :, 1] -= all_basis[:, :, 0] * np.sum(
+                all_basis[:, :, 0] * all_basis[:, :, 1], axis=0
+            )
+            all_basis[:, :, 1] /= LA.norm(all_basis[:, :, 1], axis=0)
+
             for ii, node in enumerate(all_successors):
                 self._graph.nodes[node]["part_orientation"].base = all_basis[:, ii, :]
 
-- 
2.43.0


From 5bf810935f36e83aebfe35c245781b37bd7a9915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 46/93] fix: make the trajectory evaluations run

---
 nonlinear_avoidance/comparison/evaluation_trajectories.py  | 7 ++++++-
 .../comparison/evaluation_trajectories_with_std.py         | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index 78ee76e..dd7169b 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -5,7 +5,9 @@ Library for the Rotation (Modulation Imitation) of Linear Systems
 # GitHub: hubernikus
 # Created: 2022-01-20
 
+import os
 import json
+import warnings
 from dataclasses import dataclass
 
 import math
@@ -16,6 +18,7 @@ from numpy import linalg as LA
 
 import matplotlib.pyplot as plt
 
+from vartools.states import Pose
 from nonlinear_avoidance.dynamics.circular_dynamics import (
     # CircularRotationDynamics,
     SimpleCircularDynamics,
@@ -130,7 +133,9 @@ class TrajectoryEvaluator:
         delta_time = simulation_parameters["delta_time"]
         it_max = simulation_parameters["it_max"]
 
-        initial_dynamics = SimpleCircularDynamics(dimension=2)
+        initial_dynamics = SimpleCircularDynamics(
+            pose=Pose.create_trivial(dimension=2), radius=2.0
+        )
 
         datafolder_path = os.path.join(self.data_path, self.data_folder)
         files_list = os.listdir(datafolder_path)
diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
index 9ed79a0..58af710 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
@@ -5,7 +5,9 @@ Library for the Rotation (Modulation Imitation) of Linear Systems
 # GitHub: hubernikus
 # Created: 2022-01-20
 
+import os
 import json
+import warnings
 from dataclasses import dataclass
 
 import math
-- 
2.43.0


From 0f07c9216134e6f7e4e155b0da1ec5c347cc7a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 47/93] fix: record where a trajectory stopped, also if it
 never moved

---
 .../comparison/comparison_multiobstacle_vectorfield.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py b/nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py
index 1e62d86..0ffeb05 100644
--- a/nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py
+++ b/nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py
@@ -67,7 +67,7 @@ def integrate_trajectory(
 
         if LA.norm(velocity) < conv_margin:
             print(f"Reached local minima at it={ii}")
-            return positions[:, : (ii - 1)]
+            return positions[:, :ii]
 
         # Normalize to 1 such that the algorithms get comparable
         velocity = velocity / LA.norm(velocity)
-- 
2.43.0


From 8c06ee83de611f3a7bf21888271ef33e398e23aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 48/93] fix: evaluate trajectories with a single position

---
 .../comparison/comparison_multiobstacle_vectorfield.py        | 1 +
 nonlinear_avoidance/comparison/evaluation_trajectories.py     | 4 +---
 .../comparison/evaluation_trajectories_with_std.py            | 4 +---
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py b/nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py
index 0ffeb05..b2a92e8 100644
--- a/nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py
+++ b/nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py
@@ -330,6 +330,7 @@ def evaluate_trajectories(
         delimiter=",",
         dtype=float,
         skiprows=1,
+        ndmin=2,
     )
     start_positions = start_positions.T
 
diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index dd7169b..5b13ec6 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -38,9 +38,6 @@ def normalize_velocities(velocities):
     vel_norm = LA.norm(velocities, axis=0)
 
     ind_nonzero = vel_norm > 0
-    if not any(ind_nonzero):
-        raise ValueError()
-
     velocities = velocities[:, ind_nonzero] / np.tile(
         vel_norm[ind_nonzero], (velocities.shape[0], 1)
     )
@@ -153,6 +150,7 @@ class TrajectoryEvaluator:
                 delimiter=",",
                 dtype=float,
                 skiprows=0,
+                ndmin=2,
             )
 
             if not len(trajectory):
diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
index 58af710..b7af2cf 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
@@ -38,9 +38,6 @@ def normalize_velocities(velocities):
     vel_norm = LA.norm(velocities, axis=0)
 
     ind_nonzero = vel_norm > 0
-    if not any(ind_nonzero):
-        raise ValueError()
-
     velocities = velocities[:, ind_nonzero] / np.tile(
         vel_norm[ind_nonzero], (velocities.shape[0], 1)
     )
@@ -164,6 +161,7 @@ class TrajectoryEvaluator:
                 delimiter=",",
                 dtype=float,
                 skiprows=0,
+                ndmin=2,
             )
 
             if not len(trajectory):
-- 
2.43.0


From 7ee9be5a51b935208f330a6d21967dae851d964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 49/93] fix: evaluating again, or while records are written,
 does not change the averages

---
 .../comparison/evaluation_trajectories.py     | 24 +++++++++++++++----
 .../evaluation_trajectories_with_std.py       | 18 ++++++++++----
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index 5b13ec6..cb737f6 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -121,6 +121,10 @@ class TrajectoryEvaluator:
     n_local_minima: int = 0
     n_converged: int = 0
 
+    def __post_init__(self):
+        # The number of evaluated runs is updated by each evaluation
+        self._n_requested = self.n_runs
+
     def run(self):
         with open(
             os.path.join(self.data_path, "..", "comparison_parameters.json")
@@ -135,15 +139,25 @@ class TrajectoryEvaluator:
         )
 
         datafolder_path = os.path.join(self.data_path, self.data_folder)
-        files_list = os.listdir(datafolder_path)
+        # Partly written and other files are not runs
+        files_list = sorted(
+            name for name in os.listdir(datafolder_path) if name.endswith(".csv")
+        )
 
-        if self.n_runs <= 0:
-            self.n_runs = len(files_list)
-        else:
-            files_list = files_list[: self.n_runs]
+        if self._n_requested > 0:
+            files_list = files_list[: self._n_requested]
+        self.n_runs = len(files_list)
+        self.n_local_minima = 0
+        self.n_converged = 0
 
         print(f"Evaluating #{self.n_runs} runs.")
 
+        self.dist_to_path = 0
+        self.squared_error_velocity = 0
+        self.dotprod_err_velocity = 0
+        self.squared_acceleration = 0
+        self.dotprod_acceleration = 0
+
         for ii, filename in enumerate(files_list):
             trajectory = np.loadtxt(
                 os.path.join(datafolder_path, filename),
diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
index b7af2cf..7b5bb31 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
@@ -125,6 +125,10 @@ class TrajectoryEvaluator:
     n_local_minima: int = 0
     n_converged: int = 0
 
+    def __post_init__(self):
+        # The number of evaluated runs is updated by each evaluation
+        self._n_requested = self.n_runs
+
     def run(self):
         with open(
             os.path.join(self.data_path, "..", "comparison_parameters.json")
@@ -139,12 +143,16 @@ class TrajectoryEvaluator:
         )
 
         datafolder_path = os.path.join(self.data_path, self.data_folder)
-        files_list = os.listdir(datafolder_path)
+        # Partly written and other files are not runs
+        files_list = sorted(
+            name for name in os.listdir(datafolder_path) if name.endswith(".csv")
+        )
 
-        if self.n_runs <= 0:
-            self.n_runs = len(files_list)
-        else:
-            files_list = files_list[: self.n_runs]
+        if self._n_requested > 0:
+            files_list = files_list[: self._n_requested]
+        self.n_runs = len(files_list)
+        self.n_local_minima = 0
+        self.n_converged = 0
 
         print(f"Evaluating #{self.n_runs} runs.")
 
-- 
2.43.0


From 6e6d26de9f66fbf5f57641275423fe51978ff0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 50/93] fix: average over the recorded runs only, however short
 they are

---
 .../comparison/evaluation_trajectories.py     | 49 +++++++++-------
 .../evaluation_trajectories_with_std.py       | 56 ++++++++++---------
 2 files changed, 58 insertions(+), 47 deletions(-)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index cb737f6..061dc0c 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -146,19 +146,11 @@ class TrajectoryEvaluator:
 
         if self._n_requested > 0:
             files_list = files_list[: self._n_requested]
-        self.n_runs = len(files_list)
         self.n_local_minima = 0
         self.n_converged = 0
 
-        print(f"Evaluating #{self.n_runs} runs.")
-
-        self.dist_to_path = 0
-        self.squared_error_velocity = 0
-        self.dotprod_err_velocity = 0
-        self.squared_acceleration = 0
-        self.dotprod_acceleration = 0
-
-        for ii, filename in enumerate(files_list):
+        trajectories = []
+        for filename in files_list:
             trajectory = np.loadtxt(
                 os.path.join(datafolder_path, filename),
                 delimiter=",",
@@ -171,42 +163,57 @@ class TrajectoryEvaluator:
                 warnings.warn("Empty trajectory file.")
                 continue
 
-            trajectory = trajectory.T
+            trajectories.append(trajectory.T)
 
+        # The averages are over the recorded runs only
+        self.n_runs = len(trajectories)
+        print(f"Evaluating #{self.n_runs} runs.")
+
+        dist_to_path_list = []
+        squared_error_velocity_list = []
+        dotprod_err_velocity_list = []
+        squared_acceleration_list = []
+        dotprod_acceleration_list = []
+
+        for trajectory in trajectories:
             if trajectory.shape[1] < it_max:
                 self.n_local_minima += 1
             else:
                 self.n_converged += 1
 
-            self.dist_to_path += (
+            dist_to_path_list.append(
                 mean_squared_error_to_path(
                     trajectory, center_position=np.zeros(2), radius=2.0
                 )
-                / self.n_runs
             )
 
-            self.squared_error_velocity += (
+            squared_error_velocity_list.append(
                 mean_squared_velocity_deviation(
                     trajectory, initial_dynamics.evaluate, delta_time
                 )
-                / self.n_runs
             )
 
-            self.dotprod_err_velocity += (
+            dotprod_err_velocity_list.append(
                 dot_product_velocity_deviation(
                     trajectory, initial_dynamics.evaluate, delta_time
                 )
-                / self.n_runs
             )
 
-            self.squared_acceleration += (
-                mean_squared_acceleration(trajectory, delta_time) / self.n_runs
+            squared_acceleration_list.append(
+                mean_squared_acceleration(trajectory, delta_time)
             )
 
-            self.dotprod_acceleration += (
-                dot_product_acceleration(trajectory, delta_time) / self.n_runs
+            dotprod_acceleration_list.append(
+                dot_product_acceleration(trajectory, delta_time)
             )
 
+        # Runs which are too short for a velocity or an acceleration have none (NaN)
+        self.dist_to_path = np.nanmean(dist_to_path_list)
+        self.squared_error_velocity = np.nanmean(squared_error_velocity_list)
+        self.dotprod_err_velocity = np.nanmean(dotprod_err_velocity_list)
+        self.squared_acceleration = np.nanmean(squared_acceleration_list)
+        self.dotprod_acceleration = np.nanmean(dotprod_acceleration_list)
+
 
 def print_table(evaluation_list):
     value = [ee.data_folder for ee in evaluation_list]
diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
index 7b5bb31..248427b 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
@@ -150,20 +150,11 @@ class TrajectoryEvaluator:
 
         if self._n_requested > 0:
             files_list = files_list[: self._n_requested]
-        self.n_runs = len(files_list)
         self.n_local_minima = 0
         self.n_converged = 0
 
-        print(f"Evaluating #{self.n_runs} runs.")
-
-        self.dist_to_path_list = np.zeros(self.n_runs)
-        self.squared_acceleration_list = np.zeros(self.n_runs)
-        self.squared_error_velocity_list = np.zeros(self.n_runs)
-
-        self.dotprod_err_velocity_list = np.zeros(self.n_runs)
-        self.dotprod_acceleration_list = np.zeros(self.n_runs)
-
-        for ii, filename in enumerate(files_list):
+        trajectories = []
+        for filename in files_list:
             trajectory = np.loadtxt(
                 os.path.join(datafolder_path, filename),
                 delimiter=",",
@@ -176,8 +167,20 @@ class TrajectoryEvaluator:
                 warnings.warn("Empty trajectory file.")
                 continue
 
-            trajectory = trajectory.T
+            trajectories.append(trajectory.T)
+
+        # The averages are over the recorded runs only
+        self.n_runs = len(trajectories)
+        print(f"Evaluating #{self.n_runs} runs.")
+
+        self.dist_to_path_list = np.zeros(self.n_runs)
+        self.squared_acceleration_list = np.zeros(self.n_runs)
+        self.squared_error_velocity_list = np.zeros(self.n_runs)
+
+        self.dotprod_err_velocity_list = np.zeros(self.n_runs)
+        self.dotprod_acceleration_list = np.zeros(self.n_runs)
 
+        for ii, trajectory in enumerate(trajectories):
             if trajectory.shape[1] < it_max:
                 self.n_local_minima += 1
             else:
@@ -203,28 +206,29 @@ class TrajectoryEvaluator:
                 trajectory, delta_time
             )
 
-        self.dist_to_path = np.mean(self.dist_to_path_list)
-        self.dist_to_path_std = np.std(self.dist_to_path_list)
+        # Runs which are too short for a velocity or an acceleration have none (NaN)
+        self.dist_to_path = np.nanmean(self.dist_to_path_list)
+        self.dist_to_path_std = np.nanstd(self.dist_to_path_list)
 
-        self.squared_acceleration = np.mean(self.squared_acceleration_list)
-        self.squared_acceleration_std = np.std(self.squared_acceleration_list)
+        self.squared_acceleration = np.nanmean(self.squared_acceleration_list)
+        self.squared_acceleration_std = np.nanstd(self.squared_acceleration_list)
 
-        self.squared_error_velocity = np.mean(self.squared_error_velocity_list)
-        self.squared_error_velocity_std = np.std(self.squared_error_velocity_list)
+        self.squared_error_velocity = np.nanmean(self.squared_error_velocity_list)
+        self.squared_error_velocity_std = np.nanstd(self.squared_error_velocity_list)
 
-        self.dotprod_err_velocity = np.mean(self.dotprod_err_velocity_list)
-        self.dotprod_err_velocity_std = np.std(self.dotprod_err_velocity_list)
+        self.dotprod_err_velocity = np.nanmean(self.dotprod_err_velocity_list)
+        self.dotprod_err_velocity_std = np.nanstd(self.dotprod_err_velocity_list)
 
         self.nics_err_velocity_list = (1.0 - self.dotprod_err_velocity_list) * 0.5
-        self.nics_err_velocity = np.mean(self.nics_err_velocity_list)
-        self.nics_err_velocity_std = np.std(self.nics_err_velocity_list)
+        self.nics_err_velocity = np.nanmean(self.nics_err_velocity_list)
+        self.nics_err_velocity_std = np.nanstd(self.nics_err_velocity_list)
 
-        self.dotprod_acceleration = np.mean(self.dotprod_acceleration_list)
-        self.dotprod_acceleration_std = np.std(self.dotprod_acceleration_list)
+        self.dotprod_acceleration = np.nanmean(self.dotprod_acceleration_list)
+        self.dotprod_acceleration_std = np.nanstd(self.dotprod_acceleration_list)
 
         self.nics_acceleration_list = (1.0 - self.dotprod_acceleration_list) * 0.5
-        self.nics_acceleration = np.mean(self.nics_acceleration_list)
-        self.nics_acceleration_std = np.std(self.nics_acceleration_list)
+        self.nics_acceleration = np.nanmean(self.nics_acceleration_list)
+        self.nics_acceleration_std = np.nanstd(self.nics_acceleration_list)
 
 
 def print_table(evaluation_list):
-- 
2.43.0


From 63b3bf180a109bd83dc7262716b45d9344915839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 51/93] fix: a killed or failing recording leaves no partial
 records behind

---
 .../comparison_multiobstacle_vectorfield.py   | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py b/nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py
index b2a92e8..7e3b03a 100644
--- a/nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py
+++ b/nonlinear_avoidance/comparison/comparison_multiobstacle_vectorfield.py
@@ -51,6 +51,17 @@ from nonlinear_avoidance.dynamics.projected_rotation_dynamics import (
 from nonlinear_avoidance.multi_obstacle_container import plot_multi_obstacle_container
 
 
+def save_records(filename, rows, **kwargs):
+    """Stores the rows such that the file is either complete or absent (or the old one),
+    also if this gets interrupted."""
+    temporary_name = filename + ".part"
+    with open(temporary_name, "w") as record_file:
+        np.savetxt(record_file, rows, delimiter=",", **kwargs)
+        record_file.flush()
+        os.fsync(record_file.fileno())
+    os.replace(temporary_name, filename)
+
+
 def integrate_trajectory(
     evaluate_function,
     start_position,
@@ -305,11 +316,10 @@ def create_start_positions(
 
     if store_to_file:
         filename = "initial_positions.csv"
-        np.savetxt(
+        save_records(
             os.path.join(datapath, filename),
             positions.T,
             header="x, y",
-            delimiter=",",
         )
 
 
@@ -348,11 +358,10 @@ def evaluate_trajectories(
         )
 
         filename = f"trajectory{pp:03d}.csv"
-        np.savetxt(
+        save_records(
             os.path.join(output_path, filename),
             trajectory.T,
             # header="x, y", # No header - as matlab does not have one
-            delimiter=",",
         )
 
 
@@ -628,11 +637,10 @@ def create_base_circles_to_file(datapath, parameter_file="comparison_parameters.
         collision_functor=lambda x: obstacle_environment.get_minimum_gamma(x) <= 1,
         **simulation_parameters,
     )
-    np.savetxt(
+    save_records(
         os.path.join(datapath, output_folder + "_cycle" + ".csv"),
         trajectory.T,
         # header="x, y", # No header - as matlab does not have one
-        delimiter=",",
     )
 
     # Nonlinear
@@ -654,11 +662,10 @@ def create_base_circles_to_file(datapath, parameter_file="comparison_parameters.
         collision_functor=lambda x: obstacle_environment.get_minimum_gamma(x) <= 1,
     )
 
-    np.savetxt(
+    save_records(
         os.path.join(datapath, output_folder + "_cycle" + ".csv"),
         trajectory.T,
         # header="x, y", # No header - as matlab does not have one
-        delimiter=",",
     )
 
 
-- 
2.43.0


From af4aa4ba54d27b3a4177eb5da60756b9edef4e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 52/93] fix: evaluate path following without preselection

---
 nonlinear_avoidance/comparison/evaluation_path_following.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nonlinear_avoidance/comparison/evaluation_path_following.py b/nonlinear_avoidance/comparison/evaluation_path_following.py
index 2e3f7a7..6583549 100644
--- a/nonlinear_avoidance/comparison/evaluation_path_following.py
+++ b/nonlinear_avoidance/comparison/evaluation_path_following.py
@@ -14,6 +14,7 @@ class TrajectoryEvaluator:
     data_path = Path("nonlinear_avoidance/comparison/data/wavy_path_simulation")
 
     n_runs: int = 0
+    df = None
 
     def get_converged(self):
         self.df = pd.read_csv(self.root_path / self.data_path / self.data_file)
-- 
2.43.0


From 1b4c54c6202cd79f1fea6ea688760b86f4c1c987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 53/93] fix: spread of the occupied fraction is over the runs

---
 nonlinear_avoidance/comparison/evaluation_path_following.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/comparison/evaluation_path_following.py b/nonlinear_avoidance/comparison/evaluation_path_following.py
index 6583549..ee310c9 100644
--- a/nonlinear_avoidance/comparison/evaluation_path_following.py
+++ b/nonlinear_avoidance/comparison/evaluation_path_following.py
@@ -39,7 +39,7 @@ class TrajectoryEvaluator:
 
         occupied = 1 - df[" free_fraction"]
         self.occupied_mean = np.mean(occupied)
-        self.occupied_std = np.std(np.mean(occupied))
+        self.occupied_std = np.std(occupied)
 
         self.gammas_mean = df[" gammas"].mean()
         self.gammas_var = df[" gammas"].var()
-- 
2.43.0


From 9aefb279a0e2284e6ec4367a646885ec96ab3349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 54/93] fix: compare path following of records with different
 numbers of runs

---
 nonlinear_avoidance/comparison/evaluation_path_following.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/comparison/evaluation_path_following.py b/nonlinear_avoidance/comparison/evaluation_path_following.py
index ee310c9..0f23f12 100644
--- a/nonlinear_avoidance/comparison/evaluation_path_following.py
+++ b/nonlinear_avoidance/comparison/evaluation_path_following.py
@@ -50,6 +50,9 @@ def get_converged(evaluator_list):
     for evaluator in evaluator_list:
         converged = converged * evaluator.get_converged()
 
+    # Runs which are missing for one of the evaluators have not converged
+    converged = converged.fillna(False).astype(bool)
+
     return converged
 
 
-- 
2.43.0


From 2a3585c70ee7251cda33e28aedcc4a32ce3ef331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 55/93] fix: keep the levels of a reduced direction tree which
 exactly cancel out

---
 nonlinear_avoidance/vector_rotation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 92dda8a..5925193 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -824,8 +824,8 @@ class VectorRotationTree:
                 # averaged_direction = shared_basis @ (local_mean_basis / new_angle)
                 averaged_direction = local_mean_basis / new_angle
             else:
-                # No rotation, hence it's the first vector
-                averaged_direction = shared_basis[:, 0]
+                # No rotation, hence any plane does
+                averaged_direction = shared_basis[:, 1]
 
             # Rotate all following rotation-levels back
             all_successors = []
@@ -859,8 +859,8 @@ class VectorRotationTree:
                 # Zero list -> check the next level
                 continue
 
-            if new_angle:
-                # Only append if nonzero angle, i.e., actual rotation
+            if np.any(local_basis):
+                # Only append if there are rotations, also if they cancel out
                 new_base = np.vstack((shared_first_basis, averaged_direction)).T
                 # Transform to the new basis-direction
                 all_basis = rotate_array(
-- 
2.43.0


From bfc1b4f9b64ff74dc5d8e9eafe14959e27358ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 56/93] fix: do not stop in the debugger whenever a moving
 frame moves

---
 nonlinear_avoidance/dynamics/circular_dynamics.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index f702481..82930d4 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -78,7 +78,6 @@ class DynamicDynamics:
         self.position = (
             base_velocity * weight * self.time_step_of_base_movement + self.position
         )
-        breakpoint()
 
     def evaluate(self, position: Vector) -> Vector:
         """Updates the main_dynamics pose with as proposed in dynamics_of_base
-- 
2.43.0


From 4b54feaf8a901a9c9e322e065d504e2065530f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 57/93] fix: apply the maximum velocity of a circular motion
 everywhere, not only near its centre

---
 nonlinear_avoidance/dynamics/circular_dynamics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index 82930d4..46f55fa 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -273,13 +273,13 @@ class SimpleCircularDynamics(DynamicalSystem):
         # Slow down towards the directional-singularity
         slow_down_distance = 1 / 3 * self.radius
         if pos_norm < slow_down_distance:
-            normalized_direction = (
-                normalized_direction
-                * (pos_norm / slow_down_distance)
-                * self.maximum_velocity
+            normalized_direction = normalized_direction * (
+                pos_norm / slow_down_distance
             )
 
-        return self.pose.transform_direction_from_relative(normalized_direction)
+        return self.pose.transform_direction_from_relative(
+            normalized_direction * self.maximum_velocity
+        )
 
 
 def test_rotation_circle(visualize=False):
-- 
2.43.0


From 7e877938d9edca206c6ba1d765267217ebc9b5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 58/93] fix: let a rotating motion circle around its own pose
 instead of the origin

---
 nonlinear_avoidance/dynamics/circular_dynamics.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index 46f55fa..6659e03 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -174,10 +174,11 @@ class CircularRotationDynamics(DynamicalSystem):
         return 2 * self.sigmoid(distance_surface)
 
     def evaluate(self, position):
-        if not LA.norm(position):
-            return position
+        relative_position = self.pose.transform_position_to_relative(position)
+        if not LA.norm(relative_position):
+            return np.zeros(self.dimension)
 
-        local_position = self.base_matrix.T @ position
+        local_position = self.base_matrix.T @ relative_position
 
         rot_weight = self.get_rotation_weight(local_position)
         init_direction = self.get_initial_direction(local_position)
@@ -185,7 +186,9 @@ class CircularRotationDynamics(DynamicalSystem):
         rot_dir = self._rotation.rotate(init_direction, rot_factor=rot_weight)
         final_dir = rot_dir * self.constant_velocity
 
-        return self.base_matrix @ final_dir
+        return self.pose.transform_direction_from_relative(
+            self.base_matrix @ final_dir
+        )
 
 
 class SimpleCircularDynamics(DynamicalSystem):
-- 
2.43.0


From e09e2486fe7fa300b0d868e4afe423dfd20e379f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 59/93] fix: return a zero velocity vector, not a number, at
 the end of a way-point path

---
 nonlinear_avoidance/dynamics/segmented_dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/segmented_dynamics.py b/nonlinear_avoidance/dynamics/segmented_dynamics.py
index e985055..18348c9 100644
--- a/nonlinear_avoidance/dynamics/segmented_dynamics.py
+++ b/nonlinear_avoidance/dynamics/segmented_dynamics.py
@@ -179,8 +179,8 @@ class WavyPathFollowing(Dynamics):
 
     def evaluate(self, position: np.ndarray) -> np.ndarray:
         vel_attractor = self.evaluate_magnitude(position)
-        if not np.linalg.norm(vel_attractor):
-            return vel_attractor
+        if not vel_attractor:
+            return np.zeros(self.dimension)
 
         sequence = self.evaluate_dynamics_sequence(position)
         return sequence.get_end_vector() * vel_attractor
-- 
2.43.0


From ff4c45e5f71d94c116ee2777a9dc494c2844f96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 60/93] fix: share the weight between the two segments of a
 way-point which they have in common

---
 nonlinear_avoidance/dynamics/segmented_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/segmented_dynamics.py b/nonlinear_avoidance/dynamics/segmented_dynamics.py
index 18348c9..fe461b9 100644
--- a/nonlinear_avoidance/dynamics/segmented_dynamics.py
+++ b/nonlinear_avoidance/dynamics/segmented_dynamics.py
@@ -116,7 +116,7 @@ class WavyPathFollowing(Dynamics):
 
         zero_dist = distances == 0
         if np.any(zero_dist):
-            weights = 1.0 * zero_dist
+            weights = zero_dist / np.sum(zero_dist)
             return np.append(weights, 0)
 
         weights = (weight_factor / distances) ** weight_power
-- 
2.43.0


From fadee6eef26b1873629eda30a53fa6e57c4e769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 61/93] fix: rotate the velocity of a spiral with its frame
 without adding the position of its centre

---
 nonlinear_avoidance/dynamics/spiral_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/spiral_dynamics.py b/nonlinear_avoidance/dynamics/spiral_dynamics.py
index b81c618..37566b3 100644
--- a/nonlinear_avoidance/dynamics/spiral_dynamics.py
+++ b/nonlinear_avoidance/dynamics/spiral_dynamics.py
@@ -49,7 +49,7 @@ class SpiralingDynamics3D:
         rotating_vel2d = self.circular_dynamics.evaluate(local_position[1:])
 
         rotating_velocity = np.hstack((0.0, rotating_vel2d))
-        rotating_velocity = self.pose.transform_position_from_relative(
+        rotating_velocity = self.pose.transform_direction_from_relative(
             rotating_velocity
         )
 
-- 
2.43.0


From aebbf28e33d0cb6d6ea1f9889bab07a8332050c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 62/93] fix: stand still where the parts of a spiral towards an
 attractor cancel out

---
 nonlinear_avoidance/dynamics/spiral_dynamics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/spiral_dynamics.py b/nonlinear_avoidance/dynamics/spiral_dynamics.py
index 37566b3..016e65c 100644
--- a/nonlinear_avoidance/dynamics/spiral_dynamics.py
+++ b/nonlinear_avoidance/dynamics/spiral_dynamics.py
@@ -121,7 +121,10 @@ class SpiralingAttractorDynamics3D:
             velocity_to_attractor = velocity_to_attractor / base_vel_norm * self.speed
 
         combined_velocity = rotating_velocity + velocity_to_attractor
-        combined_velocity = combined_velocity / np.linalg.norm(combined_velocity)
+        if not (combined_norm := np.linalg.norm(combined_velocity)):
+            return combined_velocity
+
+        combined_velocity = combined_velocity / combined_norm
         combined_velocity = combined_velocity * self.speed
         return combined_velocity
 
-- 
2.43.0


From dc9bcda1977d969c029fc2946bc06b4b510bd190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 63/93] fix: leave a locally rotated motion usable when its
 obstacle is at the attractor

---
 .../dynamics/locally_rotated_linear_dynamics.py      | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
index d196543..7fde15e 100644
--- a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
+++ b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
@@ -59,18 +59,22 @@ class LocallyRotatedFromObtacle(DynamicalSystem):
 
         reference_velocity = reference_velocity / self.maximum_velocity
 
+        self.min_gamma = min_gamma
+        self.max_gamma = max_gamma
+        # Modify if needed
+        self.attractor_influence = 3
+
         attractor_dir = self.attractor_position - obstacle.center_position
         if not (attr_norm := LA.norm(attractor_dir)):
             warnings.warn("Obstacle is at attractor - zero deviation")
+            self.rotation = VectorRotationXd.from_directions(
+                vec_init=reference_velocity, vec_rot=reference_velocity
+            )
             return
 
         self.rotation = VectorRotationXd.from_directions(
             vec_init=attractor_dir / attr_norm, vec_rot=reference_velocity
         )
-        self.min_gamma = min_gamma
-        self.max_gamma = max_gamma
-        # Modify if needed
-        self.attractor_influence = 3
 
         # self.base = get_orthogonal_basis()
         # self.deviation = get_angle_space(reference_velocity, null_matrix=self.base)
-- 
2.43.0


From ddd37d4dee2a527bda56edaf4fb28bf975fab9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 64/93] fix: keep the local rotation beside the obstacle and
 drop it exactly opposite to it

---
 nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
index 7fde15e..965fbdd 100644
--- a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
+++ b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
@@ -219,7 +219,7 @@ class LocallyRotatedFromObtacle(DynamicalSystem):
         attractor_dir = attractor_dir / dist_attractor
         dot_product = np.dot(attractor_dir, self.rotation.base0)
 
-        if not dot_product or not weight:
+        if dot_product <= -1 or not weight:
             return attractor_dir * min(dist_attractor, self.maximum_velocity)
 
         # And attractor
-- 
2.43.0


From f3c865c60930e51f8ab9220481257d1b36fddcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 65/93] fix: store the axes of a deviated motion for every
 dimension

---
 nonlinear_avoidance/dynamics/nonlinear_deviation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/nonlinear_deviation.py b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
index cd99398..6953b3e 100644
--- a/nonlinear_avoidance/dynamics/nonlinear_deviation.py
+++ b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
@@ -244,7 +244,7 @@ class PerpendicularDeviatoinOfLinearDS(DirectionalSystem):
         X_relative = X - np.tile(self.attractor_position, (X.shape[0], 1))
 
         self._null_matrices = np.zeros(
-            (self.dimension, self.dimension, 2, self.dimension)
+            (self.dimension, self.dimension, self.dimension, 2)
         )
 
         for dd in range(self.dimension):
-- 
2.43.0


From 0528c90d92215273a9772d7a0c453cdca6e00369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 66/93] fix: limit the convergence velocity of a deviated
 motion

---
 nonlinear_avoidance/dynamics/nonlinear_deviation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/nonlinear_deviation.py b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
index 6953b3e..da4e98d 100644
--- a/nonlinear_avoidance/dynamics/nonlinear_deviation.py
+++ b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
@@ -321,7 +321,7 @@ class PerpendicularDeviatoinOfLinearDS(DirectionalSystem):
         direction = self.attractor_position - position
 
         if dir_norm := LA.norm(direction):
-            dir_norm = direction / dir_norm * self.get_velocity_factor(dir_norm)
+            direction = direction / dir_norm * self.get_velocity_factor(dir_norm)
 
         return direction
 
-- 
2.43.0


From 50b49526ee411296f7a04f9a496689472ec66e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 67/93] fix: do not change the position that is unfolded

---
 nonlinear_avoidance/dynamics/projected_rotation_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
index 8e318af..df3bea1 100644
--- a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
@@ -288,7 +288,7 @@ class ProjectedRotationDynamics:
         # Rotation is performed with VectorRotationXd
         # vec_attractor_to_position = transformed_position - attractor_position
         if in_obstacle_frame:
-            vec_obstacle_to_position = transformed_position
+            vec_obstacle_to_position = np.copy(transformed_position)
         else:
             vec_obstacle_to_position = (
                 transformed_position - self.obstacle.global_reference_point
-- 
2.43.0


From 6ad718d0d2a5bf348a6c67e1320e0a61149a197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 68/93] fix: build a circular motion without a pose around the
 origin

---
 nonlinear_avoidance/dynamics/circular_dynamics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index 6659e03..dc76dc6 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -215,6 +215,9 @@ class SimpleCircularDynamics(DynamicalSystem):
             else:
                 pose.orientation = Rotation.from_matrix(base_matrix)
 
+        elif pose is None:
+            pose = ObjectPose(np.zeros(kwargs.get("dimension", 2)))
+
         super().__init__(
             pose=pose,
             attractor_position=pose.position,
-- 
2.43.0


From 63553473917cef1c1377c19755170a6a05509b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 69/93] fix: relabel the samples only once all sparse clusters
 are removed

---
 .../kmeans_learner/kmeans_motion_learner.py          | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index 3cd8f88..fdbf044 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -247,15 +247,9 @@ class KMeansMotionLearner:
                 logger.info(f"Removed cluster with label {ii}.")
                 # print(f"Removed cluster with label {ii}.")
 
-                self.kmeans.labels_[ind_label] = self.kmeans.predict(
-                    self.data.position[ind_label, :]
-                )
-
-            elif n_delta_label:
-                # Update labels to have sequence of numbers
-                self.kmeans.labels_[ind_label] = (
-                    self.kmeans.labels_[ind_label] - n_delta_label
-                )
+        if n_delta_label:
+            # Update labels to have sequence of numbers, once all clusters are known
+            self.kmeans.labels_ = self.kmeans.predict(self.data.position)
 
     def _fit_new_clusters_to_missfitting_datapoints(self):
         # TODO:
-- 
2.43.0


From 0ba58aae7f03fe716eee7bdb695586a00bbeb9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 70/93] fix: forget the former clusters when a motion is
 learned again

---
 nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index fdbf044..a617859 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -286,6 +286,9 @@ class KMeansMotionLearner:
         """Evaluates the sequence of each cluster along the trajectory.
         -> this can only be used for demonstration which always take the same path."""
         # TODO generalize for multiple (inconsistent sequences) learning
+        # Start anew - the data or the clusters could have changed
+        self._graph = nx.DiGraph()
+
         average_sequence = np.zeros(self.get_number_of_features())
         self.distances_parent = np.zeros_like(average_sequence)
 
-- 
2.43.0


From b1184497931da0c191dee3223f72001f00f5aec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 71/93] fix: define the motion outside of the regions of a
 learner with given centers

---
 nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index a617859..3b174d2 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -103,6 +103,7 @@ class KMeansMotionLearner:
         new_instance._fit_region_radius()
         new_instance._fit_region_obstacles()
         new_instance._fit_local_dynamics()
+        new_instance._set_outside_dynamics()
 
         return new_instance
 
@@ -165,7 +166,9 @@ class KMeansMotionLearner:
         self._fit_region_radius()
         self._fit_region_obstacles()
         self._fit_local_dynamics()
+        self._set_outside_dynamics()
 
+    def _set_outside_dynamics(self) -> None:
         # Set 'general'/ global velocity (more complex motion could be approximated...)
         self.outside_dynamics = LinearSystem(
             attractor_position=self.data.attractor_position,
-- 
2.43.0


From e152991d2277fff54865af8e6978a228939e4c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 72/93] fix: return a unit normal at the center of a region and
 keep the queried position

---
 nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index eb342c1..287b184 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -377,11 +377,12 @@ class KMeansObstacle(Obstacle):
         relative_position = position - self.center_position
         if not (position_norm := LA.norm(relative_position)):
             # Some direction (normed).
-            position[0] = 1
+            normal = np.zeros_like(relative_position)
+            normal[0] = 1
             if self.is_boundary:
-                position = (-1) * position
+                normal = (-1) * normal
 
-            return position
+            return normal
 
         surf_position = self.get_point_on_surface(position, in_global_frame=True)
         surf_norm = LA.norm(surf_position - self.center_position)
-- 
2.43.0


From 5269d80049ae501f2ef045f89056fff6439f3a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 73/93] fix: keep the queried position when searching the
 surface point of a region

---
 nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index 287b184..574c595 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -551,6 +551,7 @@ class KMeansObstacle(Obstacle):
             direction = direction / dir_norm
         else:
             # Random value
+            direction = np.zeros_like(direction)
             direction[0] = 1
 
         # Default guess: point is on the circle-surface
-- 
2.43.0


From 21f29501c479526fcaa8bd59007bcb6731371167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 74/93] fix: return the normal of the touched surface at its
 surface points

---
 .../kmeans_learner/kmeans_obstacle.py         | 31 +++++--------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index 574c595..80f4634 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -397,32 +397,17 @@ class KMeansObstacle(Obstacle):
 
         elif position_norm == surf_norm:
             # Surface points cannot be disregarded --- we're exactly on it(!)
-            ind_closest = np.argsort(
-                LA.norm(
-                    self.kmeans.cluster_centers_[self.ind_relevant, :]
-                    - np.tile(self.center_position, (len(self.ind_relevant), 1)),
-                    axis=0,
-                )
-            )
-            # breakpoint()
-
-            dist = LA.norm(
-                self.kmeans.cluster_centers_[self.ind_relevant[ind_closest[0]], :]
-                - self.center_position
-            )
+            distances = self._get_normal_distances(position, is_boundary=False)
+            distances[self._index] = position_norm - self.radius
 
-            if dist >= self.radius:
-                normal = relative_position / LA.norm(relative_position)
-                if self.is_boundary:
-                    normal = (-1) * normal
-                return normal
+            ind_surface = self.ind_relevant_and_self
+            ind_closest = ind_surface[np.argmax(distances[ind_surface])]
 
-            normal_plane = (
-                self.kmeans.cluster_centers_[self.ind_relevant[ind_closest[0]], :]
-                - self.kmeans.cluster_centers_[self.ind_relevant[ind_closest[1]], :]
-            )
+            if ind_closest == self._index:
+                normal = relative_position / position_norm
+            else:
+                normal = self.normal_directions[ind_closest, :]
 
-            normal = normal_plane / LA.norm(normal_plane)
             if self.is_boundary:
                 normal = (-1) * normal
             return normal
-- 
2.43.0


From 45c75b963624c68b1ef435ef5b2d1c3504be4523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 75/93] fix: return the position between the requested two
 regions

---
 nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index 80f4634..5ff42f0 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -127,7 +127,7 @@ class KMeansObstacle(Obstacle):
         return inbetween_points
 
     def get_inbetween_position(self, index) -> Vector:
-        return self._inbetween_points[self.ind_relevant, :]
+        return self.inbetween_points[index, :]
 
     @property
     def num_relevant(self) -> int:
-- 
2.43.0


From 0e95bf9931a8fea53ab1dda1396f4614f052d828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 76/93] fix: no passage in the surface of a region queried
 without one

---
 nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index 5ff42f0..5762db3 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -261,7 +261,7 @@ class KMeansObstacle(Obstacle):
 
                 ind_transparent = self.successor_index[0]
 
-            if np.dot(
+            if ind_transparent < 0 or np.dot(
                 surf_position - self.inbetween_points[ind_transparent, :],
                 self.normal_directions[ind_transparent, :],
             ):
-- 
2.43.0


From c54d313d9c9130d7448987f7fb77b4cdbc2d2f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 77/93] fix: recognise the surface of a region despite rounding

---
 .../kmeans_learner/kmeans_obstacle.py             | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index 5762db3..1f3709e 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -243,7 +243,8 @@ class KMeansObstacle(Obstacle):
         surf_position = self.get_point_on_surface(position, in_global_frame=True)
         surf_norm = LA.norm(surf_position - self.center_position)
 
-        if position_norm < surf_norm:
+        on_surface = math.isclose(position_norm, surf_norm)
+        if position_norm < surf_norm and not on_surface:
             # Project towards the outside
             proj_position = relative_position * (surf_norm / position_norm) ** 2
             proj_position_norm = LA.norm(proj_position)
@@ -251,7 +252,7 @@ class KMeansObstacle(Obstacle):
             # Put to global frame
             proj_position = proj_position + self.center_position
 
-        elif position_norm == surf_norm:
+        elif on_surface:
             # Surface points cannot be disregarded yet, since we need to check for
             # transition regions
             if ind_transparent is None:
@@ -261,9 +262,12 @@ class KMeansObstacle(Obstacle):
 
                 ind_transparent = self.successor_index[0]
 
-            if ind_transparent < 0 or np.dot(
+            surface_distance = np.dot(
                 surf_position - self.inbetween_points[ind_transparent, :],
                 self.normal_directions[ind_transparent, :],
+            )
+            if ind_transparent < 0 or not math.isclose(
+                surface_distance, 0, abs_tol=1e-9 * self.radius
             ):
                 # NOT on the transparent surface
                 return 1.0
@@ -387,7 +391,8 @@ class KMeansObstacle(Obstacle):
         surf_position = self.get_point_on_surface(position, in_global_frame=True)
         surf_norm = LA.norm(surf_position - self.center_position)
 
-        if position_norm < surf_norm:
+        on_surface = math.isclose(position_norm, surf_norm)
+        if position_norm < surf_norm and not on_surface:
             # Project towards the outside
             proj_position = relative_position * (surf_norm / position_norm) ** 2
             proj_position_norm = LA.norm(proj_position)
@@ -395,7 +400,7 @@ class KMeansObstacle(Obstacle):
             # Put to global frame
             proj_position = proj_position + self.center_position
 
-        elif position_norm == surf_norm:
+        elif on_surface:
             # Surface points cannot be disregarded --- we're exactly on it(!)
             distances = self._get_normal_distances(position, is_boundary=False)
             distances[self._index] = position_norm - self.radius
-- 
2.43.0


From 6521cfb0e7acedb0254582f13f268316a982069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 78/93] fix: a position next to the center of a region is
 inside

---
 nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index 1f3709e..25fd2d9 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -234,7 +234,8 @@ class KMeansObstacle(Obstacle):
             relative_position = position
             position = position + self.center_position
 
-        if not (position_norm := LA.norm(relative_position)):
+        position_norm = LA.norm(relative_position)
+        if position_norm < 1e-12 * self.radius:
             if self.is_boundary:
                 return sys.float_info.max
             else:
-- 
2.43.0


From f1effcf06e9ea5db65988f15d5a99d62596f0cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 79/93] fix: learn a motion whose last cluster is at the
 attractor

---
 nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index 3b174d2..a06efdc 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -308,13 +308,10 @@ class KMeansMotionLearner:
             self.kmeans.cluster_centers_[sorted_list[0], :] - self.data.attractor
         )
 
+        # The last cluster might be exactly at the attractor -> no (zero) direction
         if dir_norm := LA.norm(direction):
             direction = direction / dir_norm
 
-        else:
-            # What should be done in this case ?! -> go to one level higher?
-            raise NotImplementedError()
-
         # Distance to attractor has to be multiplied by two, to ensure that it's within
         self.distances_parent[0] = dir_norm * 2.0
 
-- 
2.43.0


From 735d0a8622c0ae4b88f9a78a58bcc204190ffb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 80/93] fix: let each obstacle converge along its own local
 motion

---
 nonlinear_avoidance/avoidance/rotational_avoider.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index 5aa13a0..5f2818e 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -364,16 +364,17 @@ class RotationalAvoider(BaseAvoider):
 
             # Convergence direcctions can be local for certain obstacles
             # / convergence environments
-            if convergence_velocity is None:
+            local_convergence = convergence_velocity
+            if local_convergence is None:
                 if self.convergence_dynamics is None:
-                    convergence_velocity = obstacle_list.get_convergence_direction(
+                    local_convergence = obstacle_list.get_convergence_direction(
                         position=position, it_obs=it_obs
                     )
                 else:
-                    convergence_velocity = self.convergence_dynamics.evaluate(position)
+                    local_convergence = self.convergence_dynamics.evaluate(position)
 
             # if not (conv_vel_norm := LA.norm(convergence_velocity)):
-            if not LA.norm(convergence_velocity):
+            if not LA.norm(local_convergence):
                 # Zero value
                 # base = DirectionBase(matrix=null_matrix)
                 base = null_matrix
@@ -390,7 +391,7 @@ class RotationalAvoider(BaseAvoider):
             # Note that the inv_gamma_weight was prepared for the multiboundary
             # environment through the reference point displacement (see 'loca_reference_point')
             rotated_directions[:, it] = self.directional_convergence_summing(
-                convergence_vector=convergence_velocity,
+                convergence_vector=local_convergence,
                 reference_vector=reference_dir,
                 # weight=inv_gamma_weight[it],
                 gamma=gamma_array[it],
-- 
2.43.0


From 441309097c7de6919bb7c65d336b6d697a12ca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 81/93] fix: a convergence radius given to one evaluation only
 counts for that one

---
 .../avoidance/rotational_avoider.py           | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index 5f2818e..3f245f7 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -281,8 +281,6 @@ class RotationalAvoider(BaseAvoider):
 
         if convergence_radius is None:
             convergence_radius = self.convergence_radius
-        else:
-            self.convergence_radius = convergence_radius
 
         if obstacle_list is None:
             if self.obstacle_environment is None:
@@ -978,11 +976,15 @@ class RotationalAvoider(BaseAvoider):
         vector_reference: np.ndarray,
         vector_convergence: np.ndarray,
         base: np.ndarray,
+        convergence_radius: Optional[float] = None,
     ) -> float:
         """
         dir_reference and dir_convergence are expected to be in the the direction-space, with respect
         to the negative of the normal
         """
+        if convergence_radius is None:
+            convergence_radius = self.convergence_radius
+
         dir_reference = UnitDirection(base).from_vector(vector_reference).as_angle()
         dir_convergence = UnitDirection(base).from_vector(vector_convergence).as_angle()
 
@@ -993,11 +995,11 @@ class RotationalAvoider(BaseAvoider):
         if weight >= 1.0:
             return 1.0
 
-        if np.linalg.norm(dir_convergence) >= self.convergence_radius:
+        if np.linalg.norm(dir_convergence) >= convergence_radius:
             return weight
         # MAYBE: incorporate this in the tangent length(?)
         continuation_weight = np.linalg.norm(dir_convergence - dir_reference)
-        radius_factor = self.convergence_radius - np.linalg.norm(dir_reference)
+        radius_factor = convergence_radius - np.linalg.norm(dir_reference)
         radius_factor = min(radius_factor, np.pi * 0.5)
         continuation_weight = continuation_weight / radius_factor
 
@@ -1015,12 +1017,16 @@ class RotationalAvoider(BaseAvoider):
         vector_convergence: np.ndarray,
         vector_reference: np.ndarray,
         base: np.ndarray,
+        convergence_radius: Optional[float] = None,
     ) -> np.ndarray:
         """Input and output are expected in the directional-space with respect to
         the negative normal."""
+        if convergence_radius is None:
+            convergence_radius = self.convergence_radius
+
         dir_convergence = UnitDirection(base).from_vector(vector_convergence)
         if (
-            np.linalg.norm(dir_convergence.as_angle()) >= self.convergence_radius
+            np.linalg.norm(dir_convergence.as_angle()) >= convergence_radius
             and not self.tail_rotation
         ):
             return vector_convergence
@@ -1030,7 +1036,7 @@ class RotationalAvoider(BaseAvoider):
         dir_convergence_tangent = RotationalAvoider.get_tangent_convergence_direction(
             dir_convergence=dir_convergence.as_angle(),
             dir_reference=dir_reference.as_angle(),
-            convergence_radius=self.convergence_radius,
+            convergence_radius=convergence_radius,
         )
         # breakpoint()
         return UnitDirection(base).from_angle(dir_convergence_tangent).as_vector()
@@ -1083,14 +1089,17 @@ class RotationalAvoider(BaseAvoider):
         # unitdir_reference = UnitDirection(base).from_vector(reference_vector)
 
         weight = self.get_smooth_continuation_weight(
-            gamma, reference_vector, convergence_vector, base
+            gamma, reference_vector, convergence_vector, base, convergence_radius
         )
 
         if weight <= 0:
             return nonlinear_velocity
 
         vector_convergence_tangent = self.get_pseudo_tangent(
-            convergence_vector, reference_vector, base=base
+            convergence_vector,
+            reference_vector,
+            base=base,
+            convergence_radius=convergence_radius,
         )
 
         # This is now replacing the 'general_weighted_sum'
-- 
2.43.0


From 718f9ad8fa5d2b44cc061a2a30a1ca80a95695b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 82/93] fix: following a path of way points around obstacles
 aborted at the end of the path

---
 nonlinear_avoidance/dynamics/segmented_dynamics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/segmented_dynamics.py b/nonlinear_avoidance/dynamics/segmented_dynamics.py
index fe461b9..3d4fa32 100644
--- a/nonlinear_avoidance/dynamics/segmented_dynamics.py
+++ b/nonlinear_avoidance/dynamics/segmented_dynamics.py
@@ -1,5 +1,6 @@
 import math
 from dataclasses import dataclass
+from typing import Optional
 
 import numpy as np
 
@@ -135,7 +136,11 @@ class WavyPathFollowing(Dynamics):
 
     def evaluate_dynamics_sequence(
         self, position: np.ndarray
-    ) -> VectorRotationSequence:
+    ) -> Optional[VectorRotationSequence]:
+        if not np.linalg.norm(self.attractor_position - position):
+            # No direction at the attractor
+            return None
+
         weights = self.get_weights(position)
 
         direction_tree = VectorRotationTree()
-- 
2.43.0


From 878e664c0887212ff45b5001582d865782287951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:37 +0000
Subject: [PATCH 83/93] fix: a growing obstacle kept pushing the robot however
 far away it was

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 7127d56..b0ecb9e 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -151,7 +151,10 @@ def compute_multiobstacle_relative_velocity(
         if hasattr(obs, "deformation_rate"):
             relative_velocity = (
                 relative_velocity
-                + weights[ii] * (position - pose.position) * obs.deformation_rate
+                + weights[ii]
+                * influence_weight[ii]
+                * (position - pose.position)
+                * obs.deformation_rate
             )
     return relative_velocity
 
-- 
2.43.0


From 324f839587860de94d3a781dd884e767cb1438f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:40 +0000
Subject: [PATCH 84/93] fix: a caller working in the answer of a constant
 motion changed the motion

---
 nonlinear_avoidance/dynamics/constant_value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/constant_value.py b/nonlinear_avoidance/dynamics/constant_value.py
index 891de6c..9db3807 100644
--- a/nonlinear_avoidance/dynamics/constant_value.py
+++ b/nonlinear_avoidance/dynamics/constant_value.py
@@ -14,7 +14,7 @@ class ConstantValueWithSequence(Dynamics):
 
     def evaluate(self, *args, **kwargs):
         """Random input arguments, but always ouptuts same vector-field"""
-        return self.constant_velocity
+        return np.copy(self.constant_velocity)
 
     def evaluate_dynamics_sequence(self, position: np.ndarray):
         velocity = self.evaluate(position)
-- 
2.43.0


From 9e8d069d92d5f5b7b778e6be89d321e88b1a2326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:08 +0000
Subject: [PATCH 85/93] fix: free-space query of a container of compound
 obstacles called a method they do not have

---
 nonlinear_avoidance/multi_obstacle_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_container.py b/nonlinear_avoidance/multi_obstacle_container.py
index b51de57..4fee60b 100644
--- a/nonlinear_avoidance/multi_obstacle_container.py
+++ b/nonlinear_avoidance/multi_obstacle_container.py
@@ -69,7 +69,7 @@ class MultiObstacleContainer:
         if not in_global_frame:
             raise NotImplementedError()
         for obs in self:
-            if obs.is_in_free_space(position, in_global_frame=True):
+            if obs.is_collision_free(position):
                 continue
             return False
 
-- 
2.43.0


From 17bf1196d45e079fd97a8e8130717746be03ae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:23 +0000
Subject: [PATCH 86/93] fix: turning one rotation by another turned it in its
 own plane

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 5925193..337074b 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -205,7 +205,7 @@ class VectorRotationXd:
         rotation = copy.deepcopy(rotation)
         rotation.base = rotate_array(
             directions=rotation.base,
-            base=rotation.base,
+            base=self.base,
             rotation_angle=rot_factor * self.rotation_angle,
         )
         return rotation
-- 
2.43.0


From bd8905a6d0403d9160128dcf53094e5f32b9f8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:23 +0000
Subject: [PATCH 87/93] fix: a direction appended to a sequence did not start
 where the sequence ends

---
 nonlinear_avoidance/vector_rotation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 337074b..d520cc1 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -309,9 +309,7 @@ class VectorRotationSequence:
         return self.basis_array[:, [0, -1]]
 
     def append_from_direction(self, direction: Vector) -> None:
-        rotation = VectorRotationXd.from_directions(
-            self.basis_array[:, -1, -1], direction
-        )
+        rotation = VectorRotationXd.from_directions(self.get_end_vector(), direction)
         self.append_from_base_and_angle(rotation.base, rotation.rotation_angle)
 
     def append_from_base_and_angle(self, base0: np.ndarray, angle: float) -> None:
-- 
2.43.0


From cb605e650d53d00cffce059702e8e0e6939db238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:23 +0000
Subject: [PATCH 88/93] fix: partly weighted rotation sequences averaged away
 from the directions in 3-D

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index d520cc1..4997480 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -365,7 +365,7 @@ class VectorRotationSequence:
             temp_base[:, (ii + 1) :, :] = rotate_array(
                 directions=temp_base[:, (ii + 1) :, :].reshape(self.dimension, -1),
                 base=temp_base[:, ii, :],
-                rotation_angle=self.rotation_angles[ii] * (1 - cumulated_weights[ii]),
+                rotation_angle=self.rotation_angles[ii] * (cumulated_weights[ii] - 1),
             ).reshape(self.dimension, -1, 2)
 
         # Finally: rotate from bottom-to-top
-- 
2.43.0


From 89da073635217b73e4c3abb3b08456e56ac9e178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:26 +0000
Subject: [PATCH 89/93] fix: BlockArchObstacle.update_obstacles moves the walls
 along with the arch

---
 nonlinear_avoidance/arch_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/arch_obstacle.py b/nonlinear_avoidance/arch_obstacle.py
index 80b1a27..87c1ee5 100644
--- a/nonlinear_avoidance/arch_obstacle.py
+++ b/nonlinear_avoidance/arch_obstacle.py
@@ -184,7 +184,7 @@ class BlockArchObstacle:
     def update_obstacles(self, delta_time):
         # Update all positions of the moved obstacles
         for pose, obs in zip(self._local_poses, self._obstacle_list):
-            obs.shape = self.pose.transform_pose_from_relative(pose)
+            obs.pose = self.pose.transform_pose_from_relative(pose)
 
 
 def create_arch_obstacle(
-- 
2.43.0


From d0dbc5367576af8941932bcab3fd0b42046ac46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:26 +0000
Subject: [PATCH 90/93] fix: BlockArchObstacle.get_pose hands out a copy, as
 MultiObstacle.get_pose does

---
 nonlinear_avoidance/arch_obstacle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/arch_obstacle.py b/nonlinear_avoidance/arch_obstacle.py
index 87c1ee5..0c980d0 100644
--- a/nonlinear_avoidance/arch_obstacle.py
+++ b/nonlinear_avoidance/arch_obstacle.py
@@ -1,6 +1,7 @@
 """
 Create 'Arch'-Obstacle which might be often used
 """
+import copy
 from dataclasses import dataclass, field
 from typing import Optional
 
@@ -74,7 +75,8 @@ class BlockArchObstacle:
         )
 
     def get_pose(self) -> Pose:
-        return self.pose
+        """Returns a (copy) of the pose."""
+        return copy.deepcopy(self.pose)
 
     @property
     def n_components(self) -> int:
-- 
2.43.0


From 0e41a09066daff7ff1fb44279a0731e0d65e321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:25 +0000
Subject: [PATCH 91/93] fix: obstacles given for one evaluation replaced those
 of the avoider

---
 nonlinear_avoidance/avoidance/rotational_avoider.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index 3f245f7..0c3af6a 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -286,8 +286,6 @@ class RotationalAvoider(BaseAvoider):
             if self.obstacle_environment is None:
                 raise ValueError("Need environment information.")
             obstacle_list = self.obstacle_environment
-        else:
-            self.obstacle_environment = obstacle_list
 
         n_obstacles = len(obstacle_list)
         if not n_obstacles:  # No obstacles in the environment
-- 
2.43.0


From 9b30eab0edd489f5fa8b37057c2a2cd79222e48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:15 +0000
Subject: [PATCH 92/93] fix: RotationContainer keeps the convergence radius
 given with an obstacle

---
 nonlinear_avoidance/avoidance/rotational_avoider.py | 10 +++++++---
 nonlinear_avoidance/rotation_container.py           |  6 +++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index 0c3af6a..b82ebc6 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -378,11 +378,15 @@ class RotationalAvoider(BaseAvoider):
                 rotated_directions[:, it] = initial_velocity
                 continue
 
+            # Custom convergence radius per obstacle
+            local_radius = None
             if hasattr(obstacle_list, "convergence_radiuses") and len(
                 obstacle_list.convergence_radiuses
             ):
-                # Custom convergence radius per obstacle
-                convergence_radius = obstacle_list.convergence_radiuses[it_obs]
+                local_radius = obstacle_list.convergence_radiuses[it_obs]
+
+            if local_radius is None:
+                local_radius = convergence_radius
 
             # Note that the inv_gamma_weight was prepared for the multiboundary
             # environment through the reference point displacement (see 'loca_reference_point')
@@ -393,7 +397,7 @@ class RotationalAvoider(BaseAvoider):
                 gamma=gamma_array[it],
                 nonlinear_velocity=initial_velocity,
                 base=null_matrix,
-                convergence_radius=convergence_radius,
+                convergence_radius=local_radius,
             )
 
         base = get_orthogonal_basis(initial_velocity)
diff --git a/nonlinear_avoidance/rotation_container.py b/nonlinear_avoidance/rotation_container.py
index ff0d800..53613b2 100644
--- a/nonlinear_avoidance/rotation_container.py
+++ b/nonlinear_avoidance/rotation_container.py
@@ -24,20 +24,24 @@ class RotationContainer(BaseContainer):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self._convergence_dynamics = [None for ii in range(len(self))]
-        self.convergence_radiuses: list[float] = []
+        # Custom radius of each obstacle (None if it has no own radius)
+        self.convergence_radiuses: list[Optional[float]] = [None] * len(self)
 
     def append(self, value, convergence_radius: Optional[float] = None):
         super().append(value)
         self._convergence_dynamics.append(None)
+        self.convergence_radiuses.append(convergence_radius)
 
     def __delitem__(self, key):
         """Obstacle is not part of the workspace anymore."""
         super().__delitem__(key)
         del self._convergence_dynamics[key]
+        del self.convergence_radiuses[key]
 
     def __setitem__(self, key, value):
         super().__setitem__(key, value)
         self._convergence_dynamics[key] = None
+        self.convergence_radiuses[key] = None
 
     def set_convergence_directions(
         self, nonlinear_dynamics=None, converging_dynamics=None
-- 
2.43.0


From beae7997681d240b0c1674d60d92282a2889efdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:25 +0000
Subject: [PATCH 93/93] fix: several full weights share the total of one

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index b0ecb9e..ad4973a 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -62,10 +62,8 @@ def get_limited_weights_to_max_sum(weights: npt.ArrayLike) -> float | np.ndarray
         return (np.array(weights), weight_sum)
 
     if np.any(ind_max := np.array(weights) >= 1.0):
-        new_weights = np.zeros_like(weights)
-        new_weights[ind_max] = 1
-        # Assign to list
-        return (new_weights, 1.0)
+        # Several full weights share the total of one
+        return (ind_max / np.sum(ind_max), 1.0)
 
     # if zero -> remains zero / otherwise scaling
     new_weights = np.array(weights)
-- 
2.43.0

