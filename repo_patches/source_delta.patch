From 698fadc9cbb62d109a0a2052db66aa444543e521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:39 +0000
Subject: [PATCH 01/34] fix: speed-adjusted times lose 1 ms to float truncation

---
 ama_xiv_combat_sim/simulator/calcs/stat_fns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/calcs/stat_fns.py b/ama_xiv_combat_sim/simulator/calcs/stat_fns.py
index fa12894..4909222 100644
--- a/ama_xiv_combat_sim/simulator/calcs/stat_fns.py
+++ b/ama_xiv_combat_sim/simulator/calcs/stat_fns.py
@@ -12,7 +12,7 @@ class StatFns:
         tmp = np.ceil(speed_const * (level_sub - speed_stat) / level_div)
         tmp2 = t_ms * (1000 + tmp) / 10000
         tmp3 = np.floor(tmp2) / 100
-        return int(1000 * tmp3)
+        return int(round(1000 * tmp3))
 
     @staticmethod
     def get_crit_stats(crit_stat, version, level=90):
-- 
2.43.0


From 74d04a0f11c7dfcafa284606369491f11c0bb43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:47 +0000
Subject: [PATCH 02/34] fix: job resource gained at time 0 never expires

---
 ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py b/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
index a47145d..9ae9a05 100644
--- a/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
+++ b/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
@@ -80,7 +80,7 @@ class JobResourceTracker:
                 total_resource = max(0, total_resource)
 
             if (
-                last_refresh_time
+                last_refresh_time is not None
                 and last_refresh_time + job_resource_config.expiry_from_last_gain
                 < curr_t
             ):
-- 
2.43.0


From 7bab9d595e065410e2f383904fbb7438b04de49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:57 +0000
Subject: [PATCH 03/34] fix: do not overwrite the caller's downtime windows

---
 .../simulator/timeline_builders/rotation_builder.py       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index a5b614d..a517658 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -97,10 +97,10 @@ class RotationBuilder:
                 downtime_windows
             )
         else:
-            for target, downtime_windows_use in downtime_windows.items():
-                downtime_windows[target] = RotationBuilder.__do_init_downtime_windows(
-                    downtime_windows_use
-                )
+            downtime_windows = {
+                target: RotationBuilder.__do_init_downtime_windows(downtime_windows_use)
+                for target, downtime_windows_use in downtime_windows.items()
+            }
         return downtime_windows
 
     def __process_downtime_windows(self):
-- 
2.43.0


From d5506bd0cb5025a0a024ff5cbf01e609da12a3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:07 +0000
Subject: [PATCH 04/34] fix: downtime windows given as a tuple apply to targets
 added after the first timing call

---
 .../timeline_builders/rotation_builder.py         | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index a517658..47fbe80 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -72,6 +72,7 @@ class RotationBuilder:
         self.__downtime_windows = RotationBuilder.__init_downtime_windows(
             downtime_windows
         )
+        self.__downtime_windows_per_target = {}
         self.__default_target = default_target
         self.__all_targets = set()
 
@@ -104,11 +105,13 @@ class RotationBuilder:
         return downtime_windows
 
     def __process_downtime_windows(self):
+        # Recomputed on every call, since targets may have been added since the last one.
         if isinstance(self.__downtime_windows, tuple):
-            res = {}
-            for k in self.__all_targets:
-                res[k] = self.__downtime_windows
-            self.__downtime_windows = res
+            self.__downtime_windows_per_target = {
+                k: self.__downtime_windows for k in self.__all_targets
+            }
+        else:
+            self.__downtime_windows_per_target = self.__downtime_windows
 
     def get_button_press_timing(self):
         res = copy.deepcopy(self.__q_button_press_timing)
@@ -695,7 +698,7 @@ class RotationBuilder:
         return res
 
     def __filter_by_downtime_range_and_damage_class(self, t, target, damage_class):
-        for r in self.__downtime_windows.get(target, tuple()):
+        for r in self.__downtime_windows_per_target.get(target, tuple()):
             # None indicates filtering all damage types
             is_filtered_damage_type = (r[2] is None) or (r[2] == damage_class)
             if (r[0] <= t < r[1]) and is_filtered_damage_type:
@@ -896,7 +899,7 @@ class RotationBuilder:
 
     # This is only called during a downtime window.
     def forward_to_next_non_downtime_time(self, snapshot_time, auto_target):
-        for r in self.__downtime_windows.get(auto_target, tuple()):
+        for r in self.__downtime_windows_per_target.get(auto_target, tuple()):
             if r[0] <= snapshot_time < r[1] and (
                 r[2] is None or r[2] == DamageClass.AUTO
             ):
-- 
2.43.0


From 13a8f0e6f3429436723fffffc4314d29b792d32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:19 +0000
Subject: [PATCH 05/34] fix: ignore_trailing_dots when the last event is at
 time 0

---
 .../simulator/timeline_builders/rotation_builder.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 47fbe80..48a8903 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -393,7 +393,9 @@ class RotationBuilder:
                     for application_time in range(
                         dot_start_time, dot_end_time, GameConsts.DOT_TICK_INTERVAL
                     ):
-                        if (last_event_time) and (application_time > last_event_time):
+                        if (last_event_time is not None) and (
+                            application_time > last_event_time
+                        ):
                             continue
                         priority = Utils.transform_time_to_prio(
                             parent_snapshot_time
-- 
2.43.0


From d1556d3c2bd48f429a033092e481dda323b4a51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:30 +0000
Subject: [PATCH 06/34] fix: dots and auto targets of an earlier timing call
 leak into the next one

---
 .../simulator/timeline_builders/rotation_builder.py             | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 48a8903..db2bfcc 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -767,6 +767,8 @@ class RotationBuilder:
 
         self._q_snapshot_and_applications = SnapshotAndApplicationEvents()
         self.__q_button_press_timing.clear()
+        self._q_dot_skills.clear()
+        self.__timestamps_and_main_target.clear()
         self.__process_q_sequence()
         self.__process_q_timed()
 
-- 
2.43.0


From 9017167d44588b23b54d1353153fb606d00d51a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:39 +0000
Subject: [PATCH 07/34] fix: damage instances at the same time crash on
 comparing status effects

---
 .../simulator/timeline_builders/damage_builder.py           | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index 60fc805..87004e9 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -1,5 +1,4 @@
 import copy
-import heapq
 
 from ama_xiv_combat_sim.simulator.game_data.game_consts import GameConsts
 from ama_xiv_combat_sim.simulator.timeline_builders.snapshot_and_application_events import (
@@ -117,8 +116,7 @@ class DamageBuilder:
                         )
 
                     if skill.get_damage_spec(skill_modifier_to_use) is not None:
-                        heapq.heappush(
-                            q,
+                        q.append(
                             (
                                 application_time,
                                 skill,
@@ -126,7 +124,7 @@ class DamageBuilder:
                                 tuple(snapshot_status_use),
                                 event_id,
                                 target
-                            ),
+                            )
                         )
             else:
                 if snapshot_status[0] is True:
-- 
2.43.0


From 1d6e3ea51df93bc34695a8d330c5f85528b333b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:48 +0000
Subject: [PATCH 08/34] fix: process staggered multi-target applications in
 time order

---
 .../simulator/timeline_builders/damage_builder.py        | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index 87004e9..db8d4f8 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -136,11 +136,6 @@ class DamageBuilder:
                 priority_modifier = (
                     Utils.transform_time_to_prio(event_times.primary) - priority
                 )
-                new_priority = (
-                    Utils.transform_time_to_prio(event_times.secondary)
-                    + priority_modifier
-                )
-
                 job_conditional_was_processed = False
                 if not job_conditional_processed and skill.job_resources_snapshot:
                     job_resource_conditional = (
@@ -193,6 +188,10 @@ class DamageBuilder:
                         skill_modifier_to_use.add_to_condition(
                             skill_modifier_from_debuffs
                         )
+                    new_priority = (
+                        Utils.transform_time_to_prio(application_time)
+                        + priority_modifier
+                    )
                     q_snapshot_and_applications.add(
                         new_priority,
                         application_time,
-- 
2.43.0


From 48f88a0a8d579148f9b3f1cba5e0ab02831cb30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:57 +0000
Subject: [PATCH 09/34] fix: auto delay is computed for the auto, not for the
 last speed skill

---
 .../simulator/timeline_builders/rotation_builder.py         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index db2bfcc..72f6660 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -831,10 +831,10 @@ class RotationBuilder:
             self._skill_library.get_all_resource_settings(self.__stats.job_class)
         )
 
-        for t, skill in applicable_status_effect_events:
+        for t, se_skill in applicable_status_effect_events:
             se_tracker.expire_status_effects(t)
-            se_tracker.add_to_status_effects(t, skill, skill_modifier, targets)
-            job_resource_tracker.add_resource(t, skill, skill_modifier)
+            se_tracker.add_to_status_effects(t, se_skill, skill_modifier, targets)
+            job_resource_tracker.add_resource(t, se_skill, skill_modifier)
 
         se_tracker.expire_status_effects(curr_t)
         curr_buffs_and_skill_modifier = se_tracker.compile_buffs(curr_t, skill)
-- 
2.43.0


From 0bdffd296cb830279d384786bf3b3c6a0b3f2af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:05 +0000
Subject: [PATCH 10/34] fix: auto delay uses the condition each speed effect
 was applied with

---
 .../simulator/timeline_builders/rotation_builder.py       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 72f6660..72e1d6e 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -816,7 +816,7 @@ class RotationBuilder:
                 if event_times.secondary is not None
                 else event_times.primary
             )
-            res.append((application_time, skill))
+            res.append((application_time, skill, skill_modifier))
         res.sort(key=lambda x: x[0])
         return res
 
@@ -831,10 +831,10 @@ class RotationBuilder:
             self._skill_library.get_all_resource_settings(self.__stats.job_class)
         )
 
-        for t, se_skill in applicable_status_effect_events:
+        for t, se_skill, se_modifier in applicable_status_effect_events:
             se_tracker.expire_status_effects(t)
-            se_tracker.add_to_status_effects(t, se_skill, skill_modifier, targets)
-            job_resource_tracker.add_resource(t, se_skill, skill_modifier)
+            se_tracker.add_to_status_effects(t, se_skill, se_modifier, targets)
+            job_resource_tracker.add_resource(t, se_skill, se_modifier)
 
         se_tracker.expire_status_effects(curr_t)
         curr_buffs_and_skill_modifier = se_tracker.compile_buffs(curr_t, skill)
-- 
2.43.0


From dbb20fe1a7526034dc687427b77cd8335a2439b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:18 +0000
Subject: [PATCH 11/34] fix: timed presses are ordered by time and name,
 without comparing specs

---
 .../simulator/timeline_builders/rotation_builder.py       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 72e1d6e..106e51a 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -1,5 +1,4 @@
 import copy
-import heapq
 import math
 
 from ama_xiv_combat_sim.simulator.calcs.damage_class import DamageClass
@@ -484,9 +483,9 @@ class RotationBuilder:
         )
 
         q = copy.deepcopy(self._q_timed)
-        q.sort(key=lambda x: x[0])
+        q.sort(key=lambda x: (x[0], x[1].name))
         while len(q) > 0:
-            (curr_t, skill, skill_modifier, job_class, targets) = heapq.heappop(q)
+            (curr_t, skill, skill_modifier, job_class, targets) = q.pop(0)
             self.__q_button_press_timing.append(
                 [
                     curr_t,
@@ -846,6 +845,7 @@ class RotationBuilder:
 
     def get_no_auto_periods(self):
         q = copy.deepcopy(self._q_timed)
+        q.sort(key=lambda x: (x[0], x[1].name))
         cast_periods = []
         se_tracker = StatusEffectTracker(self.__status_effect_priority)
         c_tracker = ChannelingTracker()
@@ -857,7 +857,7 @@ class RotationBuilder:
         )
 
         while len(q) > 0:
-            (t, skill, skill_modifier, _, _) = heapq.heappop(q)
+            (t, skill, skill_modifier, _, _) = q.pop(0)
             se_tracker.expire_status_effects(t)
             c_tracker.process_channeling(t, skill, skill_modifier)
             curr_buffs_and_skill_modifier = se_tracker.compile_buffs(t, skill)
-- 
2.43.0


From 359d9f419ed293a0e6e5b5b0ca113d0b38ba8937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:27 +0000
Subject: [PATCH 12/34] fix: DamageSimulator with no damage instances crashes

---
 ama_xiv_combat_sim/simulator/damage_simulator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/damage_simulator.py b/ama_xiv_combat_sim/simulator/damage_simulator.py
index b066f37..533153e 100644
--- a/ama_xiv_combat_sim/simulator/damage_simulator.py
+++ b/ama_xiv_combat_sim/simulator/damage_simulator.py
@@ -214,6 +214,9 @@ class DamageSimulator:
             list(get_all_diffs(damage_ranges[i]) for i in range(0, len(damage_ranges)))
         )
         
+        if len(damage_ranges) == 0:
+            return [], []
+
         expected_damage = np.sum(all_probs * all_means, axis=1)
         
         # See: law of total variance, variance of a uniform
-- 
2.43.0


From 58a7fc8edc314472918d53b07b87ac5f8509ecb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:36 +0000
Subject: [PATCH 13/34] fix: autos without any damage crash

---
 .../simulator/timeline_builders/rotation_builder.py           | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 106e51a..2d7a037 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -933,6 +933,10 @@ class RotationBuilder:
                 res.append(seq[i])
             return res
 
+        # autos start with the first damage instance; without one there are none.
+        if self._q_snapshot_and_applications.get_first_damage_time() is None:
+            return
+
         timestamps_and_main_target = copy.deepcopy(self.__timestamps_and_main_target)
         timestamps_and_main_target.sort(key=lambda x: x[0])
         timestamps_and_main_target = shorten_sequence(timestamps_and_main_target)
-- 
2.43.0


From 00d0d429632e7f9bf6ec96a25c591863eb08d205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:48 +0000
Subject: [PATCH 14/34] fix: aoe dropoff misses the tenth target

---
 ama_xiv_combat_sim/simulator/skills/skill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index bd8aa12..9bd31c1 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -58,7 +58,7 @@ class Skill:
             damage_spec = {SimConsts.DEFAULT_CONDITION: damage_spec}
         keys = tuple(damage_spec.keys())
         for key in keys:
-            for target_num in range(2, 10):  # max of 10 targets
+            for target_num in range(2, 11):  # max of 10 targets
                 if len(key) > 0:
                     new_key = f"{key}, Target {target_num}"
                 else:
-- 
2.43.0


From 90f39e83c070a3cc2c77ab6635a447adb40561d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:00 +0000
Subject: [PATCH 15/34] fix: party skills with a modifier are added twice to
 example rotations

---
 ama_xiv_combat_sim/example_rotations/example_rotation_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/example_rotations/example_rotation_utils.py b/ama_xiv_combat_sim/example_rotations/example_rotation_utils.py
index ddc847c..c80cd54 100644
--- a/ama_xiv_combat_sim/example_rotations/example_rotation_utils.py
+++ b/ama_xiv_combat_sim/example_rotations/example_rotation_utils.py
@@ -26,7 +26,8 @@ class ExampleRotationUtils:
                 rb.add(
                     t, skill_name, skill_modifier=skill_modifier, job_class=job_class
                 )
-            rb.add(t, skill_name, job_class=job_class)
+            else:
+                rb.add(t, skill_name, job_class=job_class)
 
         for sk in skills:
             rb.add_next(sk)
-- 
2.43.0


From cabf796fcadbf30f6453a7f018946fa68c366759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:14 +0000
Subject: [PATCH 16/34] fix: effect flags only look at the first follow up

---
 ama_xiv_combat_sim/simulator/skills/skill.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index 9bd31c1..ac379c5 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -106,7 +106,7 @@ class Skill:
                 for follow_up in self.follow_up_skills:
                     if getattr(follow_up.skill, spec_to_use) is not None:
                         res = True
-                    break
+                        break
             elif isinstance(self.follow_up_skills, dict):
                 for _, follow_ups in self.follow_up_skills.items():
                     for follow_up in follow_ups:
@@ -144,7 +144,7 @@ class Skill:
                                 break
                     elif sp is not None and sp.is_party_effect:
                         res = True
-                    break
+                        break
             elif isinstance(self.follow_up_skills, dict):
                 for _, follow_ups in self.follow_up_skills.items():
                     for follow_up in follow_ups:
-- 
2.43.0


From 4073fccd20b4e5230d1872ce88cc6572953affb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:23 +0000
Subject: [PATCH 17/34] fix: LB damage of a multi-condition skill depends on
 set order

---
 ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py b/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py
index acfb42e..9f86863 100644
--- a/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py
+++ b/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py
@@ -14,8 +14,8 @@ class KillTimeEstimator():
 
   @staticmethod
   def get_lb_damage(condition, num_samples):
-    res_mean = re.search(r"^{} (\d+)".format(SimConsts.LB_MEAN_DAMAGE), condition)
-    res_exact = re.search(r"^{} (\d+)".format(SimConsts.LB_EXACT_DAMAGE), condition)
+    res_mean = re.search(r"(?:^|,){} (\d+)".format(SimConsts.LB_MEAN_DAMAGE), condition)
+    res_exact = re.search(r"(?:^|,){} (\d+)".format(SimConsts.LB_EXACT_DAMAGE), condition)
 
     if res_mean is None and res_exact is None:
       raise RuntimeError('LB conditional must be "Mean Damage: number", or "Exact Damage: number". Instead, got: {}'.format(condition))
-- 
2.43.0


From 0e173a3c5f12dce2d72d6f10da3330ce9a884715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:03 +0000
Subject: [PATCH 18/34] fix: press times and weapon delays given in seconds
 lose 1 ms to float truncation

---
 .../simulator/timeline_builders/rotation_builder.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 2d7a037..45d0509 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -177,7 +177,7 @@ class RotationBuilder:
         skill = self._skill_library.get_skill(skill_name, job_class)
         if skill_modifier is None:
             skill_modifier = self.get_default_skill_modifier(skill, job_class)            
-        self._q_timed.append((int(1000 * t), skill, skill_modifier, job_class, targets))
+        self._q_timed.append((int(round(1000 * t)), skill, skill_modifier, job_class, targets))
 
     @staticmethod
     def __follow_up_is_dot(follow_up_skill):
@@ -941,7 +941,7 @@ class RotationBuilder:
         timestamps_and_main_target.sort(key=lambda x: x[0])
         timestamps_and_main_target = shorten_sequence(timestamps_and_main_target)
                 
-        weapon_delay = int(1000 * self.__stats.weapon_delay)  # convert to ms
+        weapon_delay = int(round(1000 * self.__stats.weapon_delay))  # convert to ms
 
         if self._skill_library.has_skill("Shot", self.__stats.job_class):
             auto_skill = self._skill_library.get_skill("Shot", self.__stats.job_class)
-- 
2.43.0


From fd9af98b962318ad3857b7c014a7e9b58d6d4360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:03 +0000
Subject: [PATCH 19/34] fix: float error moves the bounds of downtime windows

---
 .../simulator/timeline_builders/rotation_builder.py          | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 45d0509..76a3782 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -82,8 +82,9 @@ class RotationBuilder:
         # convert to ms
         for i, downtime_window in enumerate(downtime_windows):
             downtime_window = list(downtime_window)
-            downtime_window[0] *= 1000
-            downtime_window[1] *= 1000
+            # rounded, so that floating point error does not move the window's bounds
+            downtime_window[0] = round(1000 * downtime_window[0], 3)
+            downtime_window[1] = round(1000 * downtime_window[1], 3)
             if len(downtime_window) < 3:
                 downtime_window.append(None)
 
-- 
2.43.0


From 815d59db1c4e2e4691ff1797b9233175cd4f965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:17 +0000
Subject: [PATCH 20/34] fix: a job resource change in the future expires the
 current amount

---
 .../simulator/trackers/job_resource_tracker.py               | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py b/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
index 9ae9a05..d11f1a5 100644
--- a/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
+++ b/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
@@ -60,6 +60,9 @@ class JobResourceTracker:
             for start_time, end_time, resource_spec in self.__resources[
                 job_resource_name
             ]:
+                # changes in the future neither count nor refresh nor expire anything yet
+                if start_time > curr_t:
+                    break
 
                 if last_refresh_time is None:
                     last_refresh_time = start_time
@@ -72,7 +75,7 @@ class JobResourceTracker:
                 if resource_spec.refreshes_duration_of_last_gained:
                     last_refresh_time = start_time
 
-                if curr_t < start_time or curr_t > end_time:
+                if curr_t > end_time:
                     continue
 
                 total_resource += resource_spec.change
-- 
2.43.0


From efad9bfa31aaaaa3f56aaec0e061f852267b76eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:41 +0000
Subject: [PATCH 21/34] fix: autos are postponed by downtime relative to the
 fight start

---
 .../simulator/timeline_builders/rotation_builder.py  | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 76a3782..a73cb9f 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -911,8 +911,12 @@ class RotationBuilder:
                 return r[1]
         return snapshot_time
 
-    def __get_next_auto_time(self, t, no_auto_periods, auto_target):        
-        t = self.forward_to_next_non_downtime_time(t, auto_target)
+    def __get_next_auto_time(self, t, no_auto_periods, auto_target, time_shift):
+        # downtime windows are relative to the fight start, which t may not be yet.
+        t = (
+            self.forward_to_next_non_downtime_time(t - time_shift, auto_target)
+            + time_shift
+        )
         intersecting_no_auto_periods = list(
             filter(lambda x: (x[0] <= t) and (x[1] >= t), no_auto_periods)
         )
@@ -959,6 +963,8 @@ class RotationBuilder:
             self._q_snapshot_and_applications.get_first_damage_time()
         )  # autos do not have cast times, so snapshot time should be immediate
         application_time = snapshot_time + auto_skill.timing_spec.application_delay
+        # how much the timeline will be shifted once all events are known
+        time_shift = snapshot_time if self.__fight_start_time is None else 0
 
         auto_target_ind = 0
         while application_time < last_event_time:
@@ -1005,7 +1011,7 @@ class RotationBuilder:
             )
             no_auto_periods = self.get_no_auto_periods()
             snapshot_time = self.__get_next_auto_time(
-                snapshot_time, no_auto_periods, auto_target
+                snapshot_time, no_auto_periods, auto_target, time_shift
             )
             application_time = snapshot_time + auto_skill.timing_spec.application_delay
 
-- 
2.43.0


From 6655daa02dc1ba0f13a420e10cd270f44f2a20d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:36 +0000
Subject: [PATCH 22/34] fix: combos forgotten on death still succeed for follow
 ups of later presses

---
 .../simulator/timeline_builders/rotation_builder.py      | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index a73cb9f..5631ee2 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -243,6 +243,7 @@ class RotationBuilder:
         parent_application_time,
         se_tracker,
         job_resource_tracker,
+        combo_tracker,
         targets,
     ):
         skill = follow_up_skill.skill
@@ -280,6 +281,7 @@ class RotationBuilder:
             application_time, skill, SkillModifier(), targets
         )
         job_resource_tracker.add_resource(application_time, skill, SkillModifier())
+        combo_tracker.compile_and_update_combo(application_time, skill, SkillModifier())
 
     def _process_follow_up_skills(
         self,
@@ -288,6 +290,7 @@ class RotationBuilder:
         parent_application_time,
         se_tracker,
         job_resource_tracker,
+        combo_tracker,
         targets,
     ):
         for i, follow_up_skill in enumerate(follow_up_skills):
@@ -309,6 +312,7 @@ class RotationBuilder:
                     parent_application_time,
                     se_tracker,
                     job_resource_tracker,
+                    combo_tracker,
                     targets,
                 )
 
@@ -422,6 +426,7 @@ class RotationBuilder:
         skill_modifier,
         se_tracker,
         job_resource_tracker,
+        combo_tracker,
         curr_buffs,
         targets,
     ):
@@ -471,6 +476,7 @@ class RotationBuilder:
                 application_time,
                 se_tracker,
                 job_resource_tracker,
+                combo_tracker,
                 targets,
             )
 
@@ -535,6 +541,7 @@ class RotationBuilder:
                 skill_modifier,
                 se_tracker,
                 job_resource_tracker,
+                combo_tracker,
                 curr_buffs,
                 targets,
             )
@@ -608,6 +615,7 @@ class RotationBuilder:
                     skill_modifier,
                     se_tracker,
                     job_resource_tracker,
+                    combo_tracker,
                     curr_buffs,
                     targets,
                 )
@@ -654,6 +662,7 @@ class RotationBuilder:
                     skill_modifier,
                     se_tracker,
                     job_resource_tracker,
+                    combo_tracker,
                     curr_buffs,
                     targets,
                 )
-- 
2.43.0


From 557961556bf8107a2c98c897bc734db6ba565459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:21 +0000
Subject: [PATCH 23/34] fix: autos pause for the casts as timed, not for casts
 made instant by follow ups

---
 .../timeline_builders/rotation_builder.py     | 58 +++----------------
 1 file changed, 9 insertions(+), 49 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 5631ee2..d9133e2 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -64,6 +64,7 @@ class RotationBuilder:
             stats.job_class
         )
         self.__timestamps_and_main_target = []
+        self.__timed_cast_periods = []
         assert isinstance(
             default_target, str
         ), "Default target should be a string- did you accidentally make it a tuple?"
@@ -479,6 +480,7 @@ class RotationBuilder:
                 combo_tracker,
                 targets,
             )
+        return cast_time
 
     def __process_q_timed(self):
         se_tracker = StatusEffectTracker(self.__status_effect_priority)
@@ -535,7 +537,7 @@ class RotationBuilder:
                 print(str(v))
 
             self.__timestamps_and_main_target.append((curr_t, targets[0]))
-            self.__process_skill(
+            cast_time = self.__process_skill(
                 curr_t,
                 skill,
                 skill_modifier,
@@ -545,6 +547,8 @@ class RotationBuilder:
                 curr_buffs,
                 targets,
             )
+            if cast_time > 0:
+                self.__timed_cast_periods.append((curr_t, curr_t + cast_time))
 
     def __process_q_sequence(self):
         se_tracker = StatusEffectTracker(self.__status_effect_priority)
@@ -778,6 +782,7 @@ class RotationBuilder:
         self.__q_button_press_timing.clear()
         self._q_dot_skills.clear()
         self.__timestamps_and_main_target.clear()
+        self.__timed_cast_periods.clear()
         self.__process_q_sequence()
         self.__process_q_timed()
 
@@ -856,58 +861,13 @@ class RotationBuilder:
     def get_no_auto_periods(self):
         q = copy.deepcopy(self._q_timed)
         q.sort(key=lambda x: (x[0], x[1].name))
-        cast_periods = []
-        se_tracker = StatusEffectTracker(self.__status_effect_priority)
         c_tracker = ChannelingTracker()
-        job_resource_tracker = JobResourceTracker(
-            self._skill_library.get_all_resource_settings(self.__stats.job_class)
-        )
-        combo_tracker = ComboTracker(
-            self._skill_library.get_all_combo_breakers(self.__stats.job_class)
-        )
-
-        while len(q) > 0:
-            (t, skill, skill_modifier, _, _) = q.pop(0)
-            se_tracker.expire_status_effects(t)
+        for t, skill, skill_modifier, _, _ in q:
             c_tracker.process_channeling(t, skill, skill_modifier)
-            curr_buffs_and_skill_modifier = se_tracker.compile_buffs(t, skill)
-            curr_debuffs_and_skill_modifier = se_tracker.compile_debuffs(t, skill)
-
-            curr_buffs, skill_modifier_from_buffs = (
-                curr_buffs_and_skill_modifier[0],
-                curr_buffs_and_skill_modifier[1],
-            )
-            _, skill_modifier_from_debuffs = (
-                curr_debuffs_and_skill_modifier[0],
-                curr_debuffs_and_skill_modifier[1],
-            )
-            job_resource_conditional = job_resource_tracker.compile_job_resources(
-                t, skill
-            )
-
-            skill_modifier = copy.deepcopy(skill_modifier)
-            skill_modifier.add_to_condition(skill_modifier_from_buffs)
-            skill_modifier.add_to_condition(skill_modifier_from_debuffs)
-            skill_modifier.add_to_condition(job_resource_conditional)
-
-            combo_conditional = combo_tracker.compile_and_update_combo(
-                t, skill, skill_modifier
-            )
-            skill_modifier.add_to_condition(combo_conditional)
-
-            cast_time = self.__get_cast_time(
-                skill.get_timing_spec(skill_modifier), skill_modifier, curr_buffs
-            )
-            if cast_time > 0:
-                cast_periods.append((t, t + cast_time))
-            # assume target does not affect speed....dangerous....
-            se_tracker.add_to_status_effects(
-                t, skill, skill_modifier, targets=(self.__default_target,)
-            )
-            job_resource_tracker.add_resource(t, skill, skill_modifier)
         c_tracker.finalize()
         non_auto_periods = list(c_tracker.get_channeling_windows())
-        non_auto_periods.extend(cast_periods)
+        # the casts as they were actually timed, with all effects in force at the press
+        non_auto_periods.extend(self.__timed_cast_periods)
         non_auto_periods.sort()
         return non_auto_periods
 
-- 
2.43.0


From 7f63ef84d11c3c8c253fb397c8f6bf903223d8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:23 +0000
Subject: [PATCH 24/34] fix: area drop-off compounds for skills sharing their
 damage variants

---
 ama_xiv_combat_sim/simulator/skills/skill.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index ac379c5..329c9ff 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -190,6 +190,9 @@ class Skill:
         ), "status_effect_denylist must be encoded as a tuple for immutability. Did you encode it as a single string by accident, when it should be a tuple of length 1?"
 
         if self.aoe_dropoff is not None:
+            if isinstance(self.damage_spec, dict):
+                # extend a copy, as the caller may use the same variants for other skills
+                object.__setattr__(self, "damage_spec", dict(self.damage_spec))
             self.__process_aoe_dropoff(self.damage_spec, self.aoe_dropoff)
         if isinstance(self.damage_spec, dict):
             object.__setattr__(
-- 
2.43.0


From 0a8b47e85f98155628298a3e83128e9fb2cbeea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:23 +0000
Subject: [PATCH 25/34] fix: follow ups without any effect under any condition
 count as carrying one

---
 ama_xiv_combat_sim/simulator/skills/skill.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index 329c9ff..1703de0 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -104,14 +104,19 @@ class Skill:
             # check if there is a party effect on any followup
             if isinstance(self.follow_up_skills, tuple):
                 for follow_up in self.follow_up_skills:
-                    if getattr(follow_up.skill, spec_to_use) is not None:
+                    sp = getattr(follow_up.skill, spec_to_use)
+                    if isinstance(sp, dict):
+                        sp = next((se for se in sp.values() if se is not None), None)
+                    if sp is not None:
                         res = True
                         break
             elif isinstance(self.follow_up_skills, dict):
                 for _, follow_ups in self.follow_up_skills.items():
                     for follow_up in follow_ups:
-
-                        if getattr(follow_up.skill, spec_to_use) is not None:
+                        sp = getattr(follow_up.skill, spec_to_use)
+                        if isinstance(sp, dict):
+                            sp = next((se for se in sp.values() if se is not None), None)
+                        if sp is not None:
                             res = True
                             break
             object.__setattr__(self, field_to_use, res)
-- 
2.43.0


From c98ed0101ba7993b91b97e08457e23d72abeaf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:14 +0000
Subject: [PATCH 26/34] fix: ending a named effect later than its own end
 prolongs it

---
 .../simulator/trackers/status_effect_tracker.py  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/trackers/status_effect_tracker.py b/ama_xiv_combat_sim/simulator/trackers/status_effect_tracker.py
index b8738b1..684f317 100644
--- a/ama_xiv_combat_sim/simulator/trackers/status_effect_tracker.py
+++ b/ama_xiv_combat_sim/simulator/trackers/status_effect_tracker.py
@@ -85,22 +85,22 @@ class StatusEffectTracker:
         self, expired_effect_name, t, target=SimConsts.DEFAULT_TARGET
     ):
         if expired_effect_name in self.buffs.keys():
-            start_time, _, prev_num_uses, prev_status_effect_spec = self.buffs[
-                expired_effect_name
-            ]
+            start_time, prev_end_time, prev_num_uses, prev_status_effect_spec = (
+                self.buffs[expired_effect_name]
+            )
             self.buffs[expired_effect_name] = (
                 start_time,
-                t,
+                min(prev_end_time, t),
                 prev_num_uses,
                 prev_status_effect_spec,
             )
         if expired_effect_name in self.__get_debuffs(target):
-            start_time, _, prev_num_uses, prev_status_effect_spec = self.__get_debuffs(
-                target
-            )[expired_effect_name]
+            start_time, prev_end_time, prev_num_uses, prev_status_effect_spec = (
+                self.__get_debuffs(target)[expired_effect_name]
+            )
             self.__get_debuffs(target)[expired_effect_name] = (
                 start_time,
-                t,
+                min(prev_end_time, t),
                 prev_num_uses,
                 prev_status_effect_spec,
             )
-- 
2.43.0


From fd28a6328f7b6da753f8f87fc682a88403ca3bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:37 +0000
Subject: [PATCH 27/34] fix: channeling that varies by condition crashes

---
 ama_xiv_combat_sim/simulator/skills/skill.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index 1703de0..1ae5aa7 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -216,6 +216,10 @@ class Skill:
             object.__setattr__(
                 self, "debuff_spec", self.__canonicalize_dict(self.debuff_spec)
             )
+        if isinstance(self.channeling_spec, dict):
+            object.__setattr__(
+                self, "channeling_spec", self.__canonicalize_dict(self.channeling_spec)
+            )
         if isinstance(self.follow_up_skills, dict):
             object.__setattr__(
                 self,
-- 
2.43.0


From 2f3eeb1e2ebd551c098bfeba4adca78ea16e5a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:08 +0000
Subject: [PATCH 28/34] fix: float error drops snapshots at the queried
 timestamp

---
 .../rotation_analysis/rotation_analysis_utils.py               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py b/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
index 062ab08..040a9f0 100644
--- a/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
+++ b/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
@@ -11,7 +11,8 @@ class RotationAnalysisUtils:
 
     @staticmethod
     def get_all_damage_snapshots_before_timestamp(per_skill_damage, timestamp_in_s):
-        timestamp = 1000 * timestamp_in_s
+        # in ms; rounded so that float error does not drop a snapshot at the timestamp
+        timestamp = round(1000 * timestamp_in_s, 3)
         res = 0
         for sk in per_skill_damage:
             if sk.snapshot_time <= timestamp:
-- 
2.43.0


From 749cd0b0f783bcea612bc50509b55d2dcd916995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:27 +0000
Subject: [PATCH 29/34] fix: float error lowers the auto multiplier of whole
 results by one

---
 ama_xiv_combat_sim/simulator/calcs/stat_fns.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/calcs/stat_fns.py b/ama_xiv_combat_sim/simulator/calcs/stat_fns.py
index 4909222..3da5e0f 100644
--- a/ama_xiv_combat_sim/simulator/calcs/stat_fns.py
+++ b/ama_xiv_combat_sim/simulator/calcs/stat_fns.py
@@ -106,4 +106,9 @@ class StatFns:
     @staticmethod
     def fAuto(wd, weapon_delay, job_mod, version, level=90):
         level_main = GameConsts.get_level_main(version, level)
-        return np.floor(np.floor(level_main * job_mod / 1000 + wd) * (weapon_delay / 3))
+        # the delay in ms, so that float error does not push a whole result below itself
+        return np.floor(
+            np.floor(level_main * job_mod / 1000 + wd)
+            * round(1000 * weapon_delay)
+            / 3000
+        )
-- 
2.43.0


From 3124b20831acddca906452e717252660e42fd74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:08 +0000
Subject: [PATCH 30/34] fix: example rotations use level 90 constants at every
 level

---
 ama_xiv_combat_sim/example_rotations/specific_rotations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ama_xiv_combat_sim/example_rotations/specific_rotations.py b/ama_xiv_combat_sim/example_rotations/specific_rotations.py
index 6de4cf3..01e6894 100644
--- a/ama_xiv_combat_sim/example_rotations/specific_rotations.py
+++ b/ama_xiv_combat_sim/example_rotations/specific_rotations.py
@@ -62,6 +62,7 @@ class SpecificRotations:
             ),
             job_class=job_class,
             version=self.version,
+            level=self.level,
         )
         return stats
 
-- 
2.43.0


From 1603e55e698540768deadba67655bc58966752a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:08 +0000
Subject: [PATCH 31/34] fix: versions between 7.01 and 7.05 have no Viper
 actions

---
 .../simulator/game_data/class_skills/melee/vpr.py      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/game_data/class_skills/melee/vpr.py b/ama_xiv_combat_sim/simulator/game_data/class_skills/melee/vpr.py
index f012067..a2ffa51 100644
--- a/ama_xiv_combat_sim/simulator/game_data/class_skills/melee/vpr.py
+++ b/ama_xiv_combat_sim/simulator/game_data/class_skills/melee/vpr.py
@@ -161,7 +161,7 @@ class VprSkills(GenericJobClass):
         )
 
     def __get_honed_steel_follow_up(self):
-        if self._version <= "7.01":
+        if self._version < "7.05":
             return None
         name = "Honed Steel"
         return FollowUp(
@@ -196,7 +196,7 @@ class VprSkills(GenericJobClass):
 
     @GenericJobClass.is_a_skill
     def reaving_fangs(self):
-        if self._version <= "7.01":
+        if self._version < "7.05":
             return None
         name = "Reaving Fangs"
         return Skill(
@@ -480,7 +480,7 @@ class VprSkills(GenericJobClass):
 
     @GenericJobClass.is_a_skill
     def reaving_maw(self):
-        if self._version <= "7.01":
+        if self._version < "7.05":
             return None
         name = "Reaving Maw"
         return Skill(
@@ -650,7 +650,7 @@ class VprSkills(GenericJobClass):
 
     @GenericJobClass.is_a_skill
     def vicewinder(self):
-        if self._version <= "7.01":
+        if self._version < "7.05":
             return None
         name = "Vicewinder"
         return Skill(
@@ -767,7 +767,7 @@ class VprSkills(GenericJobClass):
 
     @GenericJobClass.is_a_skill
     def vicepit(self):
-        if self._version <= "7.01":
+        if self._version < "7.05":
             return None
         name = "Vicepit"
         return Skill(
-- 
2.43.0


From 36e5e7a36e457ef685ebe527e6be86331b8e6686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:08 +0000
Subject: [PATCH 32/34] fix: Radiant Finale of another job crashes for want of
 its gauge

---
 .../simulator/game_data/class_skills/ranged/brd.py               | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ama_xiv_combat_sim/simulator/game_data/class_skills/ranged/brd.py b/ama_xiv_combat_sim/simulator/game_data/class_skills/ranged/brd.py
index 990b32f..8894a2e 100644
--- a/ama_xiv_combat_sim/simulator/game_data/class_skills/ranged/brd.py
+++ b/ama_xiv_combat_sim/simulator/game_data/class_skills/ranged/brd.py
@@ -1081,6 +1081,7 @@ class BrdSkills(GenericJobClass):
                 "3 Coda, Buff Only": tuple(),
                 "Buff Only": tuple(),
             },
+            off_class_default_condition="Buff Only",
             timing_spec=TimingSpec(
                 base_cast_time=0, animation_lock=650, application_delay=625
             ),
-- 
2.43.0


From 3ba698a13ae8eecc0277cf8d42ba0c3675a3cd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:16 +0000
Subject: [PATCH 33/34] fix: autos postponed by a cast or window into another
 window are lost

---
 .../timeline_builders/rotation_builder.py     | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index d9133e2..f677faa 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -881,19 +881,21 @@ class RotationBuilder:
         return snapshot_time
 
     def __get_next_auto_time(self, t, no_auto_periods, auto_target, time_shift):
-        # downtime windows are relative to the fight start, which t may not be yet.
-        t = (
-            self.forward_to_next_non_downtime_time(t - time_shift, auto_target)
-            + time_shift
-        )
-        intersecting_no_auto_periods = list(
-            filter(lambda x: (x[0] <= t) and (x[1] >= t), no_auto_periods)
-        )
-        return (
-            t
-            if len(intersecting_no_auto_periods) == 0
-            else max(x[1] for x in intersecting_no_auto_periods)            
-        )
+        # the end of one window or period may lie within another one.
+        while True:
+            prev_t = t
+            # downtime windows are relative to the fight start, which t may not be yet.
+            t = (
+                self.forward_to_next_non_downtime_time(t - time_shift, auto_target)
+                + time_shift
+            )
+            intersecting_no_auto_periods = list(
+                filter(lambda x: (x[0] <= t) and (x[1] >= t), no_auto_periods)
+            )
+            if len(intersecting_no_auto_periods) > 0:
+                t = max(x[1] for x in intersecting_no_auto_periods)
+            if t == prev_t:
+                return t
 
     # Autos, if enabled, always start at first event application time.
     def __add_autos(self, last_event_time=None):
-- 
2.43.0


From 30732d79cda2276c20ca6149a8156f2c493c708a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:03 +0000
Subject: [PATCH 34/34] fix: autos ignore that a later effect ended, replaced
 or suppressed an auto-delay effect

---
 .../timeline_builders/rotation_builder.py          | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index f677faa..ff1426c 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -812,17 +812,9 @@ class RotationBuilder:
             buff_spec = skill.get_buff_spec(skill_modifier)
             debuff_spec = skill.get_debuff_spec(skill_modifier)
 
-            buff_spec_has_speed = buff_spec is not None and (
-                buff_spec.auto_attack_delay_reduction > 0
-                or buff_spec.haste_time_reduction > 0
-                or buff_spec.flat_cast_time_reduction > 0
-            )
-            debuff_spec_has_speed = debuff_spec is not None and (
-                debuff_spec.auto_attack_delay_reduction > 0
-                or debuff_spec.haste_time_reduction > 0
-                or debuff_spec.flat_cast_time_reduction > 0
-            )
-            if not buff_spec_has_speed and not debuff_spec_has_speed:
+            # effects without speed count as well, as they may end, replace or suppress
+            # the ones with speed.
+            if buff_spec is None and debuff_spec is None:
                 continue
             event_times = event.event_times
             application_time = (
-- 
2.43.0

