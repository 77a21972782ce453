From 441555d387906e011bd65fda51ea4aea2ca1ec20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 01/31] fix: robot6_sphericalwrist_invkin must not modify
 robot.P

The wrist offset correction folded P[:,4] and P[:,5] in place into the
caller's robot.
---
 src/general_robotics_toolbox/general_robotics_toolbox_invkin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 8606696..e4c1590 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -143,7 +143,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
     p0T = desired_pose2.p
     
     H = robot.H
-    P = robot.P
+    P = np.array(robot.P)
     
     theta_v = []
     
-- 
2.43.0


From bb4ae5077f55c6195b4919a8f154a4436b396ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 02/31] fix: return an empty list when last_joints is given and
 there is no solution

np.linalg.norm(..., axis=1) of an empty list raised ValueError.
---
 .../general_robotics_toolbox_invkin.py                      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index e4c1590..2a533ee 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -220,7 +220,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
                 q6 = q6[0]
                 
                 theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))                        
-    if last_joints is not None:
+    if last_joints is not None and len(theta_v) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), axis=1)
         return [theta_v[i] for i in list(np.argsort(theta_dist))]
     else:
@@ -319,7 +319,7 @@ def ur_invkin(robot, desired_pose, last_joints = None):
                 
                 theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))   
 
-    if last_joints is not None:
+    if last_joints is not None and len(theta_v) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), axis=1)
         return [theta_v[i] for i in list(np.argsort(theta_dist))]
     else:
@@ -384,7 +384,7 @@ def equivalent_configurations(robot, theta_v, last_joints = None):
                 continue
         theta_ret.append(eq_theta)
     
-    if last_joints is not None:
+    if last_joints is not None and len(theta_ret) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_ret,last_joints), axis=1)
         return [theta_ret[i] for i in list(np.argsort(theta_dist))]
     else:
-- 
2.43.0


From 9b8af907b63ac4ed59d339d3bd7e0173c701fa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 03/31] fix: Transform must copy the position vector as it does
 the rotation

np.reshape returned a view, so later writes to the caller's array moved the
transform.
---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index bea5303..88795d3 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -479,7 +479,7 @@ class Transform(object):
         assert (np.shape(p) == (3,) or np.shape(p) ==(3,1))
         
         self.R=np.array(R)
-        self.p=np.reshape(p,(3,))
+        self.p=np.array(p).reshape((3,))
         self.parent_frame_id=parent_frame_id
         self.child_frame_id=child_frame_id
         
-- 
2.43.0


From d9f261221dbd21677703cca03c90f3c27d368ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:54 +0000
Subject: [PATCH 04/31] fix: inverse kinematics subproblems at singular
 configurations

With joint 5 at zero the axes of joints 4 and 6 are aligned: subproblem2
called subproblem1 with its arguments in the wrong order, subproblem1 divided
by a zero length projection, the perpendicularity assertion of subproblem0
tripped on rounding, and a discriminant that is negative by rounding only was
reported as no solution.
---
 .../general_robotics_toolbox.py               | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 88795d3..cd5e6cf 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -656,12 +656,13 @@ def subproblem0(p, q, k):
     :return: theta angle as scalar in radians
     """
     
-    eps = np.finfo(np.float64).eps    
-    assert (np.dot(k,p) < eps) and (np.dot(k,q) < eps), \
-           "k must be perpendicular to p and q"
-    
     norm = np.linalg.norm
     
+    # p and q are usually projections, which are perpendicular up to rounding only
+    tol = np.sqrt(np.finfo(np.float64).eps)*10.0
+    assert (np.abs(np.dot(k,p)) < tol*norm(p)) and (np.abs(np.dot(k,q)) < tol*norm(q)), \
+           "k must be perpendicular to p and q"
+    
     ep = p / norm(p)
     eq = q / norm(q)
     
@@ -700,6 +701,10 @@ def subproblem1(p, q, k):
     pp = np.subtract(p,np.dot(p, k)*k)
     qp = np.subtract(q,np.dot(q, k)*k)
     
+    # p or q is parallel to k: every angle is a solution
+    if norm(pp) < np.sqrt(eps)*norm(p) or norm(qp) < np.sqrt(eps)*norm(q):
+        return 0.0
+    
     epp = np.divide(pp, norm(pp))    
     eqp = np.divide(qp, norm(qp))
     
@@ -752,7 +757,7 @@ def subproblem2(p, q, k1, k2):
     a = np.matmul([[k12, -1], [-1, k12]],[pk, qk]) / (k12**2 - 1)
     
     bb = (np.dot(p,p) - np.dot(a,a) - 2*a[0]*a[1]*k12)
-    if (np.abs(bb) < eps): bb=0
+    if (np.abs(bb) < 16*eps*np.dot(p,p)): bb=0
     
     if (bb < 0):
         warnings.warn("No solution - no intersection found between cones")
@@ -762,8 +767,8 @@ def subproblem2(p, q, k1, k2):
     if (np.abs(gamma) < eps):
         cm=np.array([k1, k2, np.cross(k1,k2)]).T
         c1 = np.dot(cm, np.hstack((a, gamma)))
-        theta2 = subproblem1(k2, p, c1)
-        theta1 = -subproblem1(k1, q, c1)
+        theta2 = subproblem1(p, c1, k2)
+        theta1 = -subproblem1(q, c1, k1)
         return [(theta1, theta2)]
     
     cm=np.array([k1, k2, np.cross(k1,k2)]).T
-- 
2.43.0


From bcbfeb3ae44ec214be17c0586f21a7f3efdfe085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:54 +0000
Subject: [PATCH 05/31] fix: subproblem4 has no solution for d < -1

Only d > 1 was checked, so arcsin returned NaN angles.
---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index cd5e6cf..2b657fd 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -852,7 +852,7 @@ def subproblem4(p, q, k, d):
     
     d = c / np.linalg.norm([a,b])
     
-    if d > 1:
+    if not np.abs(d) <= 1:
         return []
     
     psi = np.arcsin(d)
-- 
2.43.0


From 9a5e03fdb889e972eccd4f8c16bdc945e6bc3520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:17 +0000
Subject: [PATCH 06/31] fix: ur_invkin must keep joint 5 within its limits

Joint 5 was the only one neither checked against the limits nor taken to the
turn nearest to last_joints.
---
 .../general_robotics_toolbox_invkin.py                        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 2a533ee..f21f7ae 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -278,6 +278,10 @@ def ur_invkin(robot, desired_pose, last_joints = None):
         Q24_Q5 = rox.subproblem2(p4, v4, H[:,3], H[:,4])
 
         for q24, q5 in Q24_Q5:
+            q5 = normalize(4, [q5])
+            if len(q5) == 0:
+                continue
+            q5 = q5[0]
             R04 = np.matmul(rox.rot(H[:,0],q1),rox.rot(H[:,3],q24))
             
             p23p = p04 - P[:,0] - np.matmul(R01,P[:,1]) - np.matmul(R04,P[:,4])
-- 
2.43.0


From e62b0812afef15bfa3662d2fc79f83e44ebd91e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:17 +0000
Subject: [PATCH 07/31] fix: do not add full turns to prismatic joints

iterative_invkin moved prismatic joints by multiples of 2*pi towards the seed,
and reported convergence for the moved joints.
---
 .../general_robotics_toolbox_invkin.py                     | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index f21f7ae..1e8ea82 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -46,6 +46,7 @@ class normalize_joints(object):
     def __init__(self, robot, last_joints, _ignore_limits = False):
         self._lower_limit = robot.joint_lower_limit
         self._upper_limit = robot.joint_upper_limit
+        self._joint_type = robot.joint_type
         self._check_limits = self._lower_limit is not None \
             and self._upper_limit is not None and not _ignore_limits
                   
@@ -53,6 +54,12 @@ class normalize_joints(object):
         self._use_last_joints = last_joints is not None
             
     def normalize(self, joint, theta):
+        if self._joint_type[joint] in (1, 3):
+            # Full turns only apply to rotary joints
+            if self._check_limits and not (self._lower_limit[joint] < theta and theta < self._upper_limit[joint]):
+                return None
+            return theta
+
         if self._check_limits:
             l = self._lower_limit[joint]
             u = self._upper_limit[joint]
-- 
2.43.0


From a6affee59e3d56178fe396d76ea6b10c1a863df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:17 +0000
Subject: [PATCH 08/31] fix: iterative_invkin on robots with a single joint

np.squeeze made a 0-d array, which cannot be iterated.
---
 src/general_robotics_toolbox/general_robotics_toolbox_invkin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 1e8ea82..7793931 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -502,6 +502,6 @@ def iterative_invkin(robot, desired_pose, q_current, max_steps = 200, Kp = 0.3*n
         itr += 1 # Increase the iteration
 
 
-    q_normed = normalize(np.arange(num_joints), [np.squeeze(q_cur)])
+    q_normed = normalize(np.arange(num_joints), [q_cur.flatten()])
     
     return converged, q_normed
\ No newline at end of file
-- 
2.43.0


From 4e70cd083329c744c1dcbdc92432a8a3672937a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:18 +0000
Subject: [PATCH 09/31] fix: robot info loader must use the joints of the
 selected chain

The limits, types and names of joint_info[0..n-1] were used for every chain.
---
 src/general_robotics_toolbox/robotraconteur.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/robotraconteur.py b/src/general_robotics_toolbox/robotraconteur.py
index 216b01b..7b1f20e 100644
--- a/src/general_robotics_toolbox/robotraconteur.py
+++ b/src/general_robotics_toolbox/robotraconteur.py
@@ -92,8 +92,8 @@ def load_robot_info_yaml_to_robot(robot_info_file, chain_number=0):
 
     chain = robot_yml["chains"][chain_number]
     joint_count = len(chain["joint_numbers"])
-    for i in range(1, joint_count):
-        if chain["joint_numbers"][i-1] >= chain["joint_numbers"][i]:
+    for i in range(joint_count):
+        if i > 0 and chain["joint_numbers"][i-1] >= chain["joint_numbers"][i]:
             raise ValueError(
                 "joint numbers must be increasing in chain number " + str(chain_number))
 
@@ -122,7 +122,7 @@ def load_robot_info_yaml_to_robot(robot_info_file, chain_number=0):
     joint_names = [None]*joint_count
 
     for i in range(joint_count):
-        j = robot_yml["joint_info"][i]
+        j = robot_yml["joint_info"][chain["joint_numbers"][i]]
         if j["joint_type"] == "revolute":
             # Revolute joint
             joint_type[i] = 0
-- 
2.43.0


From 487db90ce1321da44da3145dd95d06478dc2a629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:29 +0000
Subject: [PATCH 10/31] fix: search_libraries order must not depend on the hash
 seed

A list made from a set of strings has a different order in every process.
---
 src/general_robotics_toolbox/tesseract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 6725650..2a1524c 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -547,7 +547,7 @@ def kinematics_plugin_info_dict(robot, robot_name, link_names, joint_names, chai
         else:
             assert False, "Unknown inverse kinematics solver"
 
-    libs = set(fwdkin_libs + invkin_libs)
+    libs = dict.fromkeys(fwdkin_libs + invkin_libs) # unique, in a fixed order
 
     plugin_info_dict = {
         "kinematic_plugins": {
-- 
2.43.0


From b2f37ed771db197798d76b2e6b9d4386d3fb459a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:29 +0000
Subject: [PATCH 11/31] fix: closed-form inverse kinematics lost joint angles
 more than one turn outside the limits

Joint 4 of a UR is the difference of three angles, which may be several turns
away from its limits; only one turn was tried.
---
 .../general_robotics_toolbox_invkin.py              | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 7793931..c5fc5db 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -65,12 +65,13 @@ class normalize_joints(object):
             u = self._upper_limit[joint]
             
             if not (l < theta and theta < u ):
-                a = 2*np.pi*np.array([-1,1])
-                b = a + theta
-                c = np.argwhere(np.logical_and(l < b,  b < u))
-                if len(c) == 0:
-                    return None                
-                theta += (a[c[0]]).item()
+                # sums of angles may be several turns away from the limits
+                if theta <= l:
+                    theta += 2*np.pi*(np.floor_divide(l - theta, 2*np.pi) + 1)
+                else:
+                    theta -= 2*np.pi*(np.floor_divide(theta - u, 2*np.pi) + 1)
+                if not (l < theta and theta < u ):
+                    return None
         
         if self._use_last_joints:
             diff = self._last_joints[joint] - theta                               
-- 
2.43.0


From 04c234895d2a39970c7269efdcd6d298d1860253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:49 +0000
Subject: [PATCH 12/31] fix: apply/unapply_robot_aux_transforms must return a
 new Transform

For a robot without tool, flange and base the argument itself was returned, so
writing into the result moved the caller's pose and the other way round.
---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 2b657fd..415c306 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -872,7 +872,7 @@ def apply_robot_aux_transforms(robot, T):
     :return: Returns transform with applied aux transforms
     """
 
-    T_ret = T
+    T_ret = Transform(T.R, T.p, T.parent_frame_id, T.child_frame_id)
     if robot.T_flange is not None:
         T_ret = T_ret * robot.T_flange
     if robot.R_tool is not None and robot.p_tool is not None:
@@ -894,7 +894,7 @@ def unapply_robot_aux_transforms(robot, T):
     :return: Returns transform with unapplied aux transforms
     """
 
-    T_ret = T
+    T_ret = Transform(T.R, T.p, T.parent_frame_id, T.child_frame_id)
     if robot.R_tool is not None and robot.p_tool is not None:
         T_ret = T_ret * Transform(robot.R_tool, robot.p_tool).inv()
     if robot.T_flange is not None:
-- 
2.43.0


From a886c9b4a2f2b0cc945b726e25a08763da49ff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:10 +0000
Subject: [PATCH 13/31] fix: robot info loader must refuse null numbers instead
 of reading them as NaN

---
 src/general_robotics_toolbox/robotraconteur.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/general_robotics_toolbox/robotraconteur.py b/src/general_robotics_toolbox/robotraconteur.py
index 7b1f20e..4108a53 100644
--- a/src/general_robotics_toolbox/robotraconteur.py
+++ b/src/general_robotics_toolbox/robotraconteur.py
@@ -53,11 +53,11 @@ def _identifier_name(identifier):
 
 
 def _to_vec3(d):
-    return np.array([d["x"], d["y"], d["z"]], dtype=np.float64)
+    return np.array([float(d["x"]), float(d["y"]), float(d["z"])], dtype=np.float64)
 
 
 def _to_qvec(d):
-    return np.array([d["w"], d["x"], d["y"], d["z"]], dtype=np.float64)
+    return np.array([float(d["w"]), float(d["x"]), float(d["y"]), float(d["z"])], dtype=np.float64)
 
 
 def _to_transform(d):
@@ -134,10 +134,10 @@ def load_robot_info_yaml_to_robot(robot_info_file, chain_number=0):
 
         if j["joint_limits"] is None:
             raise ValueError("joint_limits must not be null")
-        joint_lower_limit[i] = j["joint_limits"]["lower"]
-        joint_upper_limit[i] = j["joint_limits"]["upper"]
-        joint_vel_limit[i] = j["joint_limits"]["velocity"]
-        joint_acc_limit[i] = j["joint_limits"]["acceleration"]
+        joint_lower_limit[i] = float(j["joint_limits"]["lower"])
+        joint_upper_limit[i] = float(j["joint_limits"]["upper"])
+        joint_vel_limit[i] = float(j["joint_limits"]["velocity"])
+        joint_acc_limit[i] = float(j["joint_limits"]["acceleration"])
         if j["joint_identifier"] is not None:
             joint_names[i] = _identifier_name(j["joint_identifier"])
         else:
-- 
2.43.0


From ed840e5d14bcc9c3c784ed663531b08e53a99808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:10 +0000
Subject: [PATCH 14/31] fix: robot info loader must refuse negative joint
 numbers

---
 src/general_robotics_toolbox/robotraconteur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/robotraconteur.py b/src/general_robotics_toolbox/robotraconteur.py
index 4108a53..d106686 100644
--- a/src/general_robotics_toolbox/robotraconteur.py
+++ b/src/general_robotics_toolbox/robotraconteur.py
@@ -97,7 +97,7 @@ def load_robot_info_yaml_to_robot(robot_info_file, chain_number=0):
             raise ValueError(
                 "joint numbers must be increasing in chain number " + str(chain_number))
 
-        if chain["joint_numbers"][i] >= len(robot_yml["joint_info"]):
+        if chain["joint_numbers"][i] < 0 or chain["joint_numbers"][i] >= len(robot_yml["joint_info"]):
             raise ValueError(
                 "joint number out of bounds in chain number " + str(chain_number))
 
-- 
2.43.0


From efe4f0b221eb53b963cd08e60b8ae48140de5a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:10 +0000
Subject: [PATCH 15/31] fix: URDF loader must refuse duplicate joint names and
 links with two parents

---
 src/general_robotics_toolbox/urdf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/general_robotics_toolbox/urdf.py b/src/general_robotics_toolbox/urdf.py
index b5fa7b3..c5c4199 100644
--- a/src/general_robotics_toolbox/urdf.py
+++ b/src/general_robotics_toolbox/urdf.py
@@ -82,6 +82,10 @@ def robot_from_xml_string(xml_string, root_link = None, tip_link = None):
     
 def _robot_from_urdf_robot(urdf_robot, root_link = None, tip_link = None):
     
+    # joint_map and parent_map silently keep the last entry of duplicates
+    assert len(set([j.name for j in urdf_robot.joints])) == len(urdf_robot.joints), "Joint names must be unique"
+    assert len(set([j.child for j in urdf_robot.joints])) == len(urdf_robot.joints), "Link with more than one parent joint"
+
     if root_link is not None:
         assert root_link in urdf_robot.link_map, "Invalid root_link specified"
     else: 
-- 
2.43.0


From 6a5380b084dc83927b6a1bd183e6c920941da1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:52 +0000
Subject: [PATCH 16/31] fix: URDF loader must refuse kinematic loops instead of
 never returning

---
 src/general_robotics_toolbox/urdf.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/general_robotics_toolbox/urdf.py b/src/general_robotics_toolbox/urdf.py
index c5c4199..6e69d49 100644
--- a/src/general_robotics_toolbox/urdf.py
+++ b/src/general_robotics_toolbox/urdf.py
@@ -86,6 +86,14 @@ def _robot_from_urdf_robot(urdf_robot, root_link = None, tip_link = None):
     assert len(set([j.name for j in urdf_robot.joints])) == len(urdf_robot.joints), "Joint names must be unique"
     assert len(set([j.child for j in urdf_robot.joints])) == len(urdf_robot.joints), "Link with more than one parent joint"
 
+    # get_chain does not end on kinematic loops
+    for l1 in urdf_robot.parent_map:
+        depth = 0
+        while l1 in urdf_robot.parent_map:
+            l1 = urdf_robot.parent_map[l1][1]
+            depth += 1
+            assert depth <= len(urdf_robot.joints), "Kinematic loops are not supported"
+
     if root_link is not None:
         assert root_link in urdf_robot.link_map, "Invalid root_link specified"
     else: 
-- 
2.43.0


From f5d91c1d4cb2e4501c4419bbfdba921b274b3d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:33 +0000
Subject: [PATCH 17/31] fix: robot info loader must refuse a string of link
 identifiers

---
 src/general_robotics_toolbox/robotraconteur.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/general_robotics_toolbox/robotraconteur.py b/src/general_robotics_toolbox/robotraconteur.py
index d106686..cef18cd 100644
--- a/src/general_robotics_toolbox/robotraconteur.py
+++ b/src/general_robotics_toolbox/robotraconteur.py
@@ -144,6 +144,8 @@ def load_robot_info_yaml_to_robot(robot_info_file, chain_number=0):
             joint_names[i] = ""
 
     root_link_name = None
+    if isinstance(chain.get("link_identifiers"), str):
+        raise ValueError("link_identifiers must be a list")
     if "link_identifiers" in chain and len(chain["link_identifiers"]) > 0 and chain["link_identifiers"][0] is not None:
         root_link_name = _identifier_name(chain["link_identifiers"][0])
 
-- 
2.43.0


From bf4b35c7a3ecdcde2573004ad34baeb82da95690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:41 +0000
Subject: [PATCH 18/31] fix: closed-form inverse kinematics must find a
 reachable pose far from last_joints

---
 .../general_robotics_toolbox_invkin.py            | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index c5fc5db..ee1c1ef 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -227,7 +227,13 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
                     continue
                 q6 = q6[0]
                 
-                theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))                        
+                theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))
+
+    if last_joints is not None and len(theta_v) == 0:
+        # The configurations close to last_joints do not reach the pose, try all of them
+        theta_v = [np.array([normalize.normalize(j, t) for j, t in enumerate(theta)]) \
+                   for theta in robot6_sphericalwrist_invkin(robot, desired_pose)]
+
     if last_joints is not None and len(theta_v) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), axis=1)
         return [theta_v[i] for i in list(np.argsort(theta_dist))]
@@ -329,7 +335,12 @@ def ur_invkin(robot, desired_pose, last_joints = None):
                     continue
                 q6 = q6[0]
                 
-                theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))   
+                theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))
+
+    if last_joints is not None and len(theta_v) == 0:
+        # The configurations close to last_joints do not reach the pose, try all of them
+        theta_v = [np.array([normalize.normalize(j, t) for j, t in enumerate(theta)]) \
+                   for theta in ur_invkin(robot, desired_pose)]
 
     if last_joints is not None and len(theta_v) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), axis=1)
-- 
2.43.0


From 9b3d371dab0b857e3c96df650141bc8d8354bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:47 +0000
Subject: [PATCH 19/31] fix: iterative_invkin must accept lists and tuples as
 documented

---
 src/general_robotics_toolbox/general_robotics_toolbox_invkin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index ee1c1ef..1cd7f2e 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -452,7 +452,7 @@ def iterative_invkin(robot, desired_pose, q_current, max_steps = 200, Kp = 0.3*n
     normalize = normalize_joints(robot, q_current, _ignore_limits = True)
     
     q_cur = d_q # initial guess on the current joint angles
-    q_cur = q_cur.reshape((num_joints,1)) 
+    q_cur = np.reshape(q_cur, (num_joints,1))
     
     # hist_b = []
     
-- 
2.43.0


From 3792c20ab111824f117daa95259d93100c4b7c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:31 +0000
Subject: [PATCH 20/31] fix: R2rot at half turns

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 415c306..ff55d17 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -111,12 +111,12 @@ def R2rot(R):
             return [0,0,1], 0
         else:
             B = (1.0/2.0) *(R + np.eye(3))
-            k = np.sqrt([B[0,0], B[1,1], B[2,2]])
+            k = np.sqrt(np.maximum([B[0,0], B[1,1], B[2,2]], 0.0))
             if np.abs(k[0]) > 1e-6:
                 k[1] = k[1] * np.sign(B[0,1] / k[0])
                 k[2] = k[2] * np.sign(B[0,2] / k[0])
             elif np.abs(k[1]) > 1e-6:
-                k[2] = k[2] * np.sign(B[0,2] / k[1])
+                k[2] = k[2] * np.sign(B[1,2] / k[1])
             return k, np.pi
     
     k = invhat(R1)/(2.0*sin_theta)    
-- 
2.43.0


From 34fd429fd94c5371488047337c6a279a8dfa4897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:22 +0000
Subject: [PATCH 21/31] fix: iterative_invkin must not take small rotation
 errors as zero

---
 .../general_robotics_toolbox_invkin.py                         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 1cd7f2e..5bc3c07 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -484,6 +484,9 @@ def iterative_invkin(robot, desired_pose, q_current, max_steps = 200, Kp = 0.3*n
         # s=2*np.dot(k,np.sin(theta)) #eR1
         # s = np.dot(k,np.sin(theta/2))         #eR2
         s = np.sin(theta/2) * np.array(k)         #eR2
+        if theta == 0:
+            # R2rot takes rotations below 1e-6 as identity, tol may be smaller
+            s = rox.invhat(ER - ER.T)/4.0
         # s=2*theta*k              #eR3
 
         vd = np.matmul(Kp, EP)
-- 
2.43.0


From 91c1a333d3adfa4f342387510b49e3cb3c284a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:30 +0000
Subject: [PATCH 22/31] fix: robot_from_xml_string refuses URDF with joints
 attached to undeclared links

---
 src/general_robotics_toolbox/urdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/general_robotics_toolbox/urdf.py b/src/general_robotics_toolbox/urdf.py
index 6e69d49..3462743 100644
--- a/src/general_robotics_toolbox/urdf.py
+++ b/src/general_robotics_toolbox/urdf.py
@@ -85,6 +85,8 @@ def _robot_from_urdf_robot(urdf_robot, root_link = None, tip_link = None):
     # joint_map and parent_map silently keep the last entry of duplicates
     assert len(set([j.name for j in urdf_robot.joints])) == len(urdf_robot.joints), "Joint names must be unique"
     assert len(set([j.child for j in urdf_robot.joints])) == len(urdf_robot.joints), "Link with more than one parent joint"
+    assert all([j.parent in urdf_robot.link_map and j.child in urdf_robot.link_map for j in urdf_robot.joints]), \
+        "Joint attached to unknown link"
 
     # get_chain does not end on kinematic loops
     for l1 in urdf_robot.parent_map:
-- 
2.43.0


From a2e5a38f4c6dde724e7290992459cf49c6526a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:11 +0000
Subject: [PATCH 23/31] fix: URInvKin plugin must end at the flange, the tool
 is not part of the UR parameters

---
 src/general_robotics_toolbox/tesseract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 2a1524c..79d188d 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -543,7 +543,7 @@ def kinematics_plugin_info_dict(robot, robot_name, link_names, joint_names, chai
         elif invkin_solver == "URInvKin":
             ur_params = robot_to_ur_inv_kin_parameters(robot)
             invkin_plugin_info, invkin_libs = kinematics_plugin_invkin_ur_plugin_info_dict(robot_name, base_link,
-                tip_link, ur_params)
+                robot_name + "_flange", ur_params)
         else:
             assert False, "Unknown inverse kinematics solver"
 
-- 
2.43.0


From 9374126aa1df46dd0c6fe742f5ef37bc8dc6a11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:39 +0000
Subject: [PATCH 24/31] fix: robot_to_ur_inv_kin_parameters includes the offset
 after joint 6 in d6

---
 src/general_robotics_toolbox/tesseract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 79d188d..6d5293d 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -1004,7 +1004,7 @@ def robot_to_ur_inv_kin_parameters(robot):
     d5 = -np.sum(P2[2,4:5]).item()
     assert np.allclose(P2[2,5:], 0.0)
     assert np.allclose(P2[0,5:], 0.0)
-    d6 = -np.sum(P2[1,5:6]).item()
+    d6 = -np.sum(P2[1,5:]).item()
 
     ret = URInvKinParameters(d1,a2,a3,d4,d5,d6)
 
-- 
2.43.0


From 4ecec83e4225498817c57f9857c89f9ff74bb1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:14 +0000
Subject: [PATCH 25/31] fix: robot_to_ur_inv_kin_parameters recognises arms
 along +x instead of accepting reversed axes

---
 src/general_robotics_toolbox/tesseract.py | 26 +++++++++++++++--------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 6d5293d..bf4ee16 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -973,21 +973,29 @@ def robot_to_ur_inv_kin_parameters(robot):
     ey = np.array([0.,1.,0.])
     ez = np.array([0.,0.,1.])
 
+    minus_x = np.allclose(robot.H, np.array([ez,-ey,-ey,-ey,-ez,-ey]).T)
+    plus_x = np.allclose(robot.H, np.array([ez,ey,ey,ey,-ez,ey]).T)
+
+    assert minus_x or plus_x
+
+    # The solver expects the arm along +x in the base frame, and the flange as in the factory definition
+    R_flange = np.array([ex, ez, -ey]).T
+    R_base = rox.rot(ez, np.pi)
+    if plus_x:
+        R_flange = np.matmul(R_base, R_flange)
+        R_base = np.eye(3)
+
     assert robot.T_flange
-    assert np.allclose(robot.T_flange.R, np.array([ex, ez, -ey]).T, atol=1e-6)
+    assert np.allclose(robot.T_flange.R, R_flange, atol=1e-6)
     assert np.allclose(robot.T_flange.p.flatten(), np.array([0.,0.,0.]))
 
-    assert robot.T_base
-    assert np.allclose(robot.T_base.R, rox.rot([0,0,1], np.pi), atol=1e-6)
-    assert np.allclose(robot.T_base.p.flatten(), np.array([0.,0.,0.]))
-
-    minus_x = np.allclose(robot.H, np.array([ez,-ey,-ey,-ey,-ez,-ey]).T)
-    plus_x = np.allclose(robot.H, -np.array([ez,-ey,-ey,-ey,-ez,-ey]).T)
+    assert robot.T_base or plus_x
+    if robot.T_base:
+        assert np.allclose(robot.T_base.R, R_base, atol=1e-6)
+        assert np.allclose(robot.T_base.p.flatten(), np.array([0.,0.,0.]))
 
     P2 = robot.P
 
-    assert minus_x or plus_x
-
     if plus_x:
         R = rox.rot(ez,np.pi)
         P2 = np.matmul(R, P2)
-- 
2.43.0


From 38f36ac8ce8b239a01e963731b828566ec1f8650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:43 +0000
Subject: [PATCH 26/31] fix: robot_to_opw_inv_kin_parameters requires the
 flange along joint six for robots outstretched along Z

---
 src/general_robotics_toolbox/tesseract.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index bf4ee16..62e82f2 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -634,12 +634,16 @@ def robot_to_opw_inv_kin_parameters(robot):
     ey = np.array([0.,1.,0.])
     ez = np.array([0.,0.,1.])
 
+    assert len(robot.joint_type) == 6
+
     assert robot.T_flange
-    assert np.allclose(robot.T_flange.R, rox.rot([0,1,0], np.pi/2.0))
+    if np.allclose(np.abs(robot.H[:,5]), ez):
+        # outstretched along Z, the flange is already along joint six
+        assert np.allclose(robot.T_flange.R, np.eye(3))
+    else:
+        assert np.allclose(robot.T_flange.R, rox.rot([0,1,0], np.pi/2.0))
     assert np.allclose(robot.T_flange.p.flatten(), np.array([0.,0.,0.]))
 
-    assert len(robot.joint_type) == 6
-
     def axis_sign(_h, _e):
         if np.allclose(_h, _e):
             return 1
-- 
2.43.0


From c52d940c73ccde48fa8404c9778975368891aa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:57 +0000
Subject: [PATCH 27/31] fix: TesseractRobot attached to an environment uses the
 end of its chain as tip

---
 src/general_robotics_toolbox/tesseract.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 62e82f2..5be879c 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -846,6 +846,10 @@ class TesseractRobot:
             kin_grp = self.tesseract_env.getKinematicGroup(robot_name)
             self.base_link_name = kin_grp.getBaseLinkName()
             self.tip_link_name = kin_grp.getAllPossibleTipLinkNames()[0]
+            # links attached to the tip are possible tips too, prefer the end of the chain
+            kin_info = self.tesseract_env.getKinematicsInformation()
+            if robot_name in kin_info.chain_groups:
+                self.tip_link_name = kin_info.chain_groups[robot_name][-1][1]
     
     def fwdkin(self, theta, base_link_name = None, tip_link_name = None):
         """
-- 
2.43.0


From 70170d536da6f2cb19ff5ab90e307c19c6cde8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:39 +0000
Subject: [PATCH 28/31] fix: slerp between equal orientations returned NaN

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index ff55d17..f307b9a 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -321,7 +321,8 @@ def slerp(q0, q1, t):
     if (np.dot(q0,q1) < 0):
         q0 = -q0
     
-    theta = np.arccos(np.dot(q0,q1))
+    # the product of equal unit quaternions may exceed 1 by rounding
+    theta = np.arccos(min(np.dot(q0,q1), 1.0))
     
     if (np.abs(theta) < 1e-6):
         return q0
-- 
2.43.0


From 3bed2dec9ebe214747c5828fdedb9ea5266e3635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:56 +0000
Subject: [PATCH 29/31] fix: q2rot returned NaN or axes that are not of unit
 length for quaternions of no turn

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index f307b9a..fce7993 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -207,10 +207,12 @@ def q2rot(q):
     :rtype:  (numpy.array, number)
     :return: the 3x1 rotation vector and theta    
     """
-    theta = 2 * np.arccos(q[0])
-    if np.abs(theta) < 1e-6:
+    # arctan2 is accurate for all angles, and defined if q[0] exceeds 1 by rounding
+    sin_half = np.linalg.norm(q[1:4])
+    theta = 2 * np.arctan2(sin_half, q[0])
+    if 2 * sin_half < 1e-6:
         return np.array([0,0,1]), 0.0
-    k = q[1:4]/np.sin(theta/2.0)
+    k = q[1:4]/sin_half
     return k, theta
 
 def rot2q(k, theta):
-- 
2.43.0


From 8f8b9ec5def203ac1995b70c6ac92ec1b2a4999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:36 +0000
Subject: [PATCH 30/31] fix: R2rot of a half turn took signs from products of
 small components

---
 .../general_robotics_toolbox.py                        | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index fce7993..219f7c1 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -112,11 +112,11 @@ def R2rot(R):
         else:
             B = (1.0/2.0) *(R + np.eye(3))
             k = np.sqrt(np.maximum([B[0,0], B[1,1], B[2,2]], 0.0))
-            if np.abs(k[0]) > 1e-6:
-                k[1] = k[1] * np.sign(B[0,1] / k[0])
-                k[2] = k[2] * np.sign(B[0,2] / k[0])
-            elif np.abs(k[1]) > 1e-6:
-                k[2] = k[2] * np.sign(B[1,2] / k[1])
+            # signs relative to the largest component, products of small ones are not reliable
+            i = np.argmax(k)
+            k = np.where(np.arange(3) == i, k, k * np.sign(B[i,:] + B[:,i]))
+            # the first component that is not zero is positive
+            k = k * np.sign(k[np.argmax(np.abs(k) > 1e-6)])
             return k, np.pi
     
     k = invhat(R1)/(2.0*sin_theta)    
-- 
2.43.0


From 151d4c00c5b2233f55f2a6d2d918965e609a4c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:53 +0000
Subject: [PATCH 31/31] fix: compare N x 1 joint vectors with the limits joint
 by joint, not by broadcasting

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 219f7c1..a747008 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -546,8 +546,8 @@ def fwdkin(robot, theta, _ignore_limits = False):
     if not _ignore_limits:
 
         if (robot.joint_lower_limit is not None and robot.joint_upper_limit is not None):
-            assert np.greater_equal(theta, robot.joint_lower_limit).all(), "Specified joints out of range"
-            assert np.less_equal(theta, robot.joint_upper_limit).all(), "Specified joints out of range"
+            assert np.greater_equal(np.ravel(theta), robot.joint_lower_limit).all(), "Specified joints out of range"
+            assert np.less_equal(np.ravel(theta), robot.joint_upper_limit).all(), "Specified joints out of range"
     
     p = robot.P[:,[0]]
     R = np.identity(3)
@@ -578,8 +578,8 @@ def robotjacobian(robot, theta, _ignore_limits = False):
     
     if not _ignore_limits:
         if (robot.joint_lower_limit is not None and robot.joint_upper_limit is not None):
-            assert np.greater_equal(theta, robot.joint_lower_limit).all(), "Specified joints out of range"
-            assert np.less_equal(theta, robot.joint_upper_limit).all(), "Specified joints out of range"
+            assert np.greater_equal(np.ravel(theta), robot.joint_lower_limit).all(), "Specified joints out of range"
+            assert np.less_equal(np.ravel(theta), robot.joint_upper_limit).all(), "Specified joints out of range"
     
     
     hi = np.zeros(robot.H.shape)
-- 
2.43.0

