From 70afb64ed5ff9633e83878f901777a3430b33789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:42 +0000
Subject: [PATCH 01/58] fix: no continuous-loop row after a whole number of
 4096 sequencer repeats

---
 malcolm/modules/ADPandABlocks/doublebuffer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/ADPandABlocks/doublebuffer.py b/malcolm/modules/ADPandABlocks/doublebuffer.py
index 55ce577..7edf71e 100644
--- a/malcolm/modules/ADPandABlocks/doublebuffer.py
+++ b/malcolm/modules/ADPandABlocks/doublebuffer.py
@@ -62,9 +62,14 @@ class SequencerRows:
             MAX_REPEATS, trigger, position, half_duration, live, dead, trim
         )
         self._rows.extend([row] * complete_rows)
-        self._rows.append(
-            self._seq_row(remaining, trigger, position, half_duration, live, dead, trim)
-        )
+        # A row with zero repeats is a continuous loop, so don't add one unless we
+        # were asked for it
+        if remaining or not complete_rows:
+            self._rows.append(
+                self._seq_row(
+                    remaining, trigger, position, half_duration, live, dead, trim
+                )
+            )
         self._duration += count * (2 * half_duration - trim)
 
     def split(self, count: int) -> SequencerRows:
-- 
2.43.0


From 19f0a651397e523e70c3015f98059d3e5d80691d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:49 +0000
Subject: [PATCH 02/58] fix: sequencer split must subtract the remainder's
 duration in ticks

---
 malcolm/modules/ADPandABlocks/doublebuffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/ADPandABlocks/doublebuffer.py b/malcolm/modules/ADPandABlocks/doublebuffer.py
index 7edf71e..4464d4a 100644
--- a/malcolm/modules/ADPandABlocks/doublebuffer.py
+++ b/malcolm/modules/ADPandABlocks/doublebuffer.py
@@ -113,7 +113,8 @@ class SequencerRows:
             time2=final_self_row.time2 - SEQ_TABLE_SWITCH_DELAY
         )
         self._duration -= SEQ_TABLE_SWITCH_DELAY
-        self._duration -= remainder.duration
+        # _duration is in ticks, while duration is in seconds
+        self._duration -= remainder._duration
         return remainder
 
     def extend(self, other: SequencerRows) -> None:
-- 
2.43.0


From 39929e821f2a794ef4c34ba338b73bf2af847428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:55 +0000
Subject: [PATCH 03/58] fix: abort during the reset of a configure from
 Finished must stop the configure

---
 .../scanning/controllers/runnablecontroller.py       | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 9ec3086..199c5de 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -461,12 +461,6 @@ class RunnableController(builtin.controllers.ManagerController):
             return params
 
     def do_configure(self, state: str, params: ConfigureParams) -> None:
-        if state == ss.FINISHED:
-            # If we were finished then do a reset before configuring
-            self.run_hooks(
-                builtin.hooks.ResetHook(p, c)
-                for p, c in self.create_part_contexts().items()
-            )
         # Clear out any old part contexts now rather than letting gc do it
         for context in self.part_contexts.values():
             context.unsubscribe_all()
@@ -475,6 +469,12 @@ class RunnableController(builtin.controllers.ManagerController):
         # So add one for ourself too so we can be aborted
         assert self.process, "No attached process"
         self.part_contexts[self] = Context(self.process)
+        if state == ss.FINISHED:
+            # If we were finished then do a reset before configuring
+            self.run_hooks(
+                builtin.hooks.ResetHook(p, c)
+                for p, c in self.create_part_contexts().items()
+            )
         # Store the params for use in seek()
         self.configure_params = params
         # Tell everything to get into the right state to Configure
-- 
2.43.0


From 5af2e7ae033a2f1d373afbaff8184f77375f0328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:58 +0000
Subject: [PATCH 04/58] fix: run() must decide Armed or Finished from the steps
 configured after a pause

---
 .../modules/scanning/controllers/runnablecontroller.py   | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/scanning/controllers/runnablecontroller.py b/malcolm/modules/scanning/controllers/runnablecontroller.py
index 199c5de..b4a63e6 100644
--- a/malcolm/modules/scanning/controllers/runnablecontroller.py
+++ b/malcolm/modules/scanning/controllers/runnablecontroller.py
@@ -526,15 +526,16 @@ class RunnableController(builtin.controllers.ManagerController):
         Disabled state.
         """
 
-        if self.configured_steps.value < self.total_steps.value:
-            next_state = ss.ARMED
-        else:
-            next_state = ss.FINISHED
         try:
             self.transition(ss.RUNNING)
             hook = RunHook
             going = True
             while going:
+                # A pause may have changed how far this run goes
+                if self.configured_steps.value < self.total_steps.value:
+                    next_state = ss.ARMED
+                else:
+                    next_state = ss.FINISHED
                 try:
                     self.do_run(hook)
                     self.abortable_transition(next_state)
-- 
2.43.0


From a424925873c416721a18d605a6490d7d686a4d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:42 +0000
Subject: [PATCH 05/58] fix: subscribers to a table value must see a change of
 some of its columns

---
 malcolm/core/notifier.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/malcolm/core/notifier.py b/malcolm/core/notifier.py
index b3499ff..b412236 100644
--- a/malcolm/core/notifier.py
+++ b/malcolm/core/notifier.py
@@ -139,13 +139,18 @@ class NotifierNode:
         self.parent = parent
         self.data = data
 
-    def notify_changes(self, changes: List[List]) -> "CallbackResponses":
+    def notify_changes(
+        self, changes: List[List], data: Any = None
+    ) -> "CallbackResponses":
         """Set our data and notify anyone listening
 
         Args:
             changes (list): [[path, optional data]] where path is the path to
                 what has changed, and data is the unserialized object that has
                 changed
+            data (object): The data we hold after these changes, if known. It
+                might be a new object although only part of it has changed,
+                like a Table where only one column changed
 
         Returns:
             list: [(callback, Response)] that need to be called
@@ -155,6 +160,8 @@ class NotifierNode:
         for change in changes:
             # Add any changes that our children need to know about
             self._add_child_change(change, child_changes)
+        if data is not None:
+            self.data = data
 
         # If we have update subscribers, freeze at this level
         if self.update_requests:
@@ -171,7 +178,8 @@ class NotifierNode:
 
         # Now notify our children
         for name, changes in child_changes.items():
-            ret += self.children[name].notify_changes(changes)
+            child_data = getattr(self.data, name, None)
+            ret += self.children[name].notify_changes(changes, child_data)
         return ret
 
     def _add_child_change(self, change: List, child_changes: Dict[str, List]) -> None:
-- 
2.43.0


From 8081b24b5b79ed54fb24705c3ce400b8e7033ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:43 +0000
Subject: [PATCH 06/58] fix: subscribing inside a mapping of models must see
 the model

---
 malcolm/core/notifier.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/malcolm/core/notifier.py b/malcolm/core/notifier.py
index b412236..9fcfbea 100644
--- a/malcolm/core/notifier.py
+++ b/malcolm/core/notifier.py
@@ -46,6 +46,15 @@ def freeze(o):
     return o
 
 
+def get_child_data(data: Any, name: str) -> Any:
+    """Get the child of data with the given name, or None if there isn't one"""
+    if isinstance(data, dict):
+        # Mapping of Models, like the elements of a MapMeta
+        return data.get(name, None)
+    else:
+        return getattr(data, name, None)
+
+
 class Notifier(Loggable):
     """Object that can service callbacks on given endpoints"""
 
@@ -178,7 +187,7 @@ class NotifierNode:
 
         # Now notify our children
         for name, changes in child_changes.items():
-            child_data = getattr(self.data, name, None)
+            child_data = get_child_data(self.data, name)
             ret += self.children[name].notify_changes(changes, child_data)
         return ret
 
@@ -216,7 +225,7 @@ class NotifierNode:
         child_change_dict: Dict[str, List] = {}
         # Reflect change of data to children
         for name in self.children:
-            child_data = getattr(data, name, None)
+            child_data = get_child_data(data, name)
             if child_data is None:
                 # Deletion
                 child_change_dict[name] = [[]]
@@ -243,7 +252,9 @@ class NotifierNode:
             # Recurse down
             name = path[0]
             if name not in self.children:
-                self.children[name] = NotifierNode(getattr(self.data, name, None), self)
+                self.children[name] = NotifierNode(
+                    get_child_data(self.data, name), self
+                )
             ret += self.children[name].handle_subscribe(request, path[1:])
         else:
             # This is for us
-- 
2.43.0


From 1d11114400203f6af63b640a1a75c4fe0d4eb854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:20 +0000
Subject: [PATCH 07/58] fix: a PandA table row whose top field ends in bit 0 of
 a word needs that word

---
 malcolm/modules/pandablocks/parts/pandatablepart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/pandablocks/parts/pandatablepart.py b/malcolm/modules/pandablocks/parts/pandatablepart.py
index 9313e6d..d58fc5b 100644
--- a/malcolm/modules/pandablocks/parts/pandatablepart.py
+++ b/malcolm/modules/pandablocks/parts/pandatablepart.py
@@ -89,7 +89,7 @@ class PandATablePart(PandAFieldPart):
         # Work out how many ints per row
         # TODO: this should be in the block data
         max_bits_hi = max(f.bits_hi for f in self.field_data.values())
-        self.ints_per_row = int((max_bits_hi + 31) / 32)
+        self.ints_per_row = max_bits_hi // 32 + 1
         # Superclass will make the attribute for us
         super().__init__(client, meta, block_name, field_name)
 
-- 
2.43.0


From 0a4df749a8e2ce2d04cc3692c8e900011fa0c397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:20 +0000
Subject: [PATCH 08/58] fix: PandA table fields narrower than their position in
 the word were lost

---
 malcolm/modules/pandablocks/parts/pandatablepart.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/malcolm/modules/pandablocks/parts/pandatablepart.py b/malcolm/modules/pandablocks/parts/pandatablepart.py
index d58fc5b..4f5027f 100644
--- a/malcolm/modules/pandablocks/parts/pandatablepart.py
+++ b/malcolm/modules/pandablocks/parts/pandatablepart.py
@@ -116,7 +116,9 @@ class PandATablePart(PandAFieldPart):
                 # Array, unwrap to get the numpy array
                 column_value = column_value.seq
             # Left shift the value so it is aligned with the int columns
+            # Widen it first so no bits are shifted out of a narrow dtype
             _, mask = get_nbits_mask(field_data)
+            column_value = column_value.astype(np.int64)
             shifted_column = (column_value & mask) << field_data.bits_lo % 32
             # Or it with what we currently have
             column_index = get_column_index(field_data)
-- 
2.43.0


From 761515b960ea56336f7cb19f633f81b89ba050df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:20 +0000
Subject: [PATCH 09/58] fix: negative values of PandA table fields were read
 back as positive

---
 malcolm/modules/pandablocks/parts/pandatablepart.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/malcolm/modules/pandablocks/parts/pandatablepart.py b/malcolm/modules/pandablocks/parts/pandatablepart.py
index 4f5027f..dcc4e2a 100644
--- a/malcolm/modules/pandablocks/parts/pandatablepart.py
+++ b/malcolm/modules/pandablocks/parts/pandatablepart.py
@@ -148,6 +148,10 @@ class PandATablePart(PandAFieldPart):
             elif nbits == 1:
                 column_value = shifted_column.astype(bool)
             else:
+                if field_data.signed:
+                    # Extend the sign bit of the field
+                    shifted_column = shifted_column.astype(np.int64)
+                    shifted_column[shifted_column > mask // 2] -= mask + 1
                 # View as the correct type
                 dtype = self.meta.elements[column_name].dtype
                 column_value = shifted_column.astype(dtype)
-- 
2.43.0


From 09837f39db354c0194f3df57b796099ef34875dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:03 +0000
Subject: [PATCH 10/58] fix: PMAC turnarounds must join the exit and entry
 velocities of their rows

profile_between_points took the velocity at the entry of the point before
the gap and at the exit of the point after it, so the turnaround of points
that are not straight lines began and ended at the wrong velocities.
---
 malcolm/modules/pmac/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/pmac/util.py b/malcolm/modules/pmac/util.py
index cb7972b..ccb5a44 100644
--- a/malcolm/modules/pmac/util.py
+++ b/malcolm/modules/pmac/util.py
@@ -253,8 +253,8 @@ def profile_between_points(
     must equal 'distance'. The class VelocityProfile implements the math
     to achieve this.
     """
-    start_velocities = point_velocities(axis_mapping, point)
-    end_velocities = point_velocities(axis_mapping, next_point, entry=False)
+    start_velocities = point_velocities(axis_mapping, point, entry=False)
+    end_velocities = point_velocities(axis_mapping, next_point)
 
     p = None
     new_min_time = 0
-- 
2.43.0


From 9d57dadd59d47393566db73c03611bc69e2fc14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:15 +0000
Subject: [PATCH 11/58] fix: turnaround times of axes that differ by rounding
 are one point

Two axes whose profiles end at times that differ in the last digit gave two
profile points, and an IndexError looking for the axis point after the last.
---
 malcolm/modules/pmac/parts/pmacchildpart.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/malcolm/modules/pmac/parts/pmacchildpart.py b/malcolm/modules/pmac/parts/pmacchildpart.py
index 4a0f803..0b6f3c2 100644
--- a/malcolm/modules/pmac/parts/pmacchildpart.py
+++ b/malcolm/modules/pmac/parts/pmacchildpart.py
@@ -557,6 +557,9 @@ class PmacChildPart(builtin.parts.ChildPart):
             t_list.extend(time_array)
         combined_times = np.array(t_list)
         combined_times = np.unique(combined_times)
+        # times of different axes that only differ by rounding are the same point
+        different = np.diff(combined_times, prepend=-1.0) > 1e-9
+        combined_times = combined_times[different]
         # remove the 0 time initial point
         combined_times = list(np.sort(combined_times))[1:]
         num_intervals = len(combined_times)
-- 
2.43.0


From 80e676dff0882748f1610b3405ef43cedf87cb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:24 +0000
Subject: [PATCH 12/58] fix: axes with different settle times could not be
 given a turnaround

The velocity profiles of the axes then take different times, as each of them
is stretched to min_time without its own settle time, and configure raised an
IndexError. Use the longest settle time for all axes in that case.
---
 malcolm/modules/pmac/infos.py |  9 +++++++--
 malcolm/modules/pmac/util.py  | 10 ++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/pmac/infos.py b/malcolm/modules/pmac/infos.py
index d12e389..32d367a 100644
--- a/malcolm/modules/pmac/infos.py
+++ b/malcolm/modules/pmac/infos.py
@@ -88,7 +88,9 @@ class MotorInfo(Info):
         ramp_distance = (v1 + v2) * ramp_time / 2
         return ramp_distance
 
-    def make_velocity_profile(self, v1, v2, distance, min_time, min_interval=0.002):
+    def make_velocity_profile(
+        self, v1, v2, distance, min_time, min_interval=0.002, settle_time=None
+    ):
         """Calculate PVT points that will perform the move within motor params
 
         Args:
@@ -97,11 +99,14 @@ class MotorInfo(Info):
             distance (float): Relative distance to travel in EGUs
             min_time (float): The minimum time the move should take
             min_interval (float): Minimum time between profile points
+            settle_time (float): Time to stay at v2, default is our velocity_settle
 
         Returns:
             VelocityProfile: defining a list of times and velocities
         """
 
+        if settle_time is None:
+            settle_time = self.velocity_settle
         # Create the time and velocity arrays
         p = vp.VelocityProfile(
             v1,
@@ -110,7 +115,7 @@ class MotorInfo(Info):
             min_time,
             self.acceleration,
             self.max_velocity,
-            self.velocity_settle,
+            settle_time,
             min_interval,
         )
         p.get_profile()
diff --git a/malcolm/modules/pmac/util.py b/malcolm/modules/pmac/util.py
index ccb5a44..1e6f37f 100644
--- a/malcolm/modules/pmac/util.py
+++ b/malcolm/modules/pmac/util.py
@@ -261,6 +261,8 @@ def profile_between_points(
     time_arrays = {}
     velocity_arrays = {}
     profiles = {}
+    # Settle time of all axes, None to use the one of each axis
+    settle_time = None
     # The first iteration reveals the slowest profile. The second generates
     # all profiles with the slowest min_time
     iterations = 2
@@ -276,6 +278,7 @@ def profile_between_points(
                 distance,
                 min_time,
                 min_interval,
+                settle_time,
             )
             # Absolute time values that we are at that velocity
             profiles[axis_name] = p
@@ -291,6 +294,13 @@ def profile_between_points(
                 time_arrays[axis_name], velocity_arrays[axis_name] = profiles[
                     axis_name
                 ].make_arrays()
+            end_times = [times[-1] for times in time_arrays.values()]
+            if settle_time is None and not np.allclose(end_times, end_times[:1]):
+                # Quantized profiles only take the same time if their settle times
+                # are the same, so use the longest for all of them
+                settle_time = max(m.velocity_settle for m in axis_mapping.values())
+                iterations = 2
+                continue
             return time_arrays, velocity_arrays
         else:
             min_time = new_min_time
-- 
2.43.0


From ff0f4b0f550224480aae54aa583a0429f80d03e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:52 +0000
Subject: [PATCH 13/58] fix: sparse trajectories must not skip steps whose
 position is off centre

Steps that all have the same length but whose position is not half way between
the bounds are not linear, so the trajectory has to go through them.
---
 malcolm/modules/pmac/util.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/pmac/util.py b/malcolm/modules/pmac/util.py
index 1e6f37f..54e7c4f 100644
--- a/malcolm/modules/pmac/util.py
+++ b/malcolm/modules/pmac/util.py
@@ -156,9 +156,15 @@ def all_points_same_velocities(points: Points) -> Array[bool]:
         velocities = (
             points.upper[axis_name] - points.lower[axis_name]
         ) / points.duration
+        # Velocity of the first half, which is different if the position is not
+        # half way between the bounds
+        half_velocities = (
+            2 * (points.positions[axis_name] - points.lower[axis_name])
+        ) / points.duration
         v1 = velocities[:-1]
         v2 = velocities[1:]
-        results[axis_name] = np.isclose(v1, v2)
+        constant = np.isclose(velocities, half_velocities)
+        results[axis_name] = np.isclose(v1, v2) & constant[:-1] & constant[1:]
     result = and_all_axes(results)
     # If we have no axes then all velocities are the same
     if result is None:
-- 
2.43.0


From 69753ce578cf02f37ca22f35fc72e8702559af84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:52 +0000
Subject: [PATCH 14/58] fix: PMAC must be sent more points even if many of them
 are waiting to be sent

update_step() compared how far the trajectory has got with all the points that
were calculated. With more than PROFILE_POINTS of them not sent yet it would
not send more until it was too late.
---
 malcolm/modules/pmac/parts/pmacchildpart.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/pmac/parts/pmacchildpart.py b/malcolm/modules/pmac/parts/pmacchildpart.py
index 0b6f3c2..3270c81 100644
--- a/malcolm/modules/pmac/parts/pmacchildpart.py
+++ b/malcolm/modules/pmac/parts/pmacchildpart.py
@@ -446,11 +446,15 @@ class PmacChildPart(builtin.parts.ChildPart):
             if self.output_triggers == scanning.infos.MotionTrigger.EVERY_POINT:
                 completed_steps = self.completed_steps_lookup[scanned - 1]
                 self.registrar.report(scanning.infos.RunProgressInfo(completed_steps))
-            # Keep PROFILE_POINTS trajectory points in front
+            # Keep PROFILE_POINTS trajectory points in front, not counting those in
+            # the profile that we haven't sent yet
+            points_sent = len(self.completed_steps_lookup) - len(
+                self.profile["timeArray"]
+            )
             if (
                 not self.loading
                 and self.end_index < self.steps_up_to
-                and len(self.completed_steps_lookup) - scanned < PROFILE_POINTS
+                and points_sent - scanned < PROFILE_POINTS
             ):
                 self.loading = True
                 self.calculate_generator_profile(self.end_index)
-- 
2.43.0


From 5818a4ef66fc00b2e97a449848ac2857d56e1ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:12 +0000
Subject: [PATCH 15/58] fix: a duration aligned to the servo cycle must be kept
 by aligning it again

At 3.2 kHz a rounding error took a whole number of ticks up to the next one.
---
 malcolm/modules/pmac/parts/pmacchildpart.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/pmac/parts/pmacchildpart.py b/malcolm/modules/pmac/parts/pmacchildpart.py
index 3270c81..f17a11d 100644
--- a/malcolm/modules/pmac/parts/pmacchildpart.py
+++ b/malcolm/modules/pmac/parts/pmacchildpart.py
@@ -195,8 +195,9 @@ class PmacChildPart(builtin.parts.ChildPart):
     def get_aligned_duration_with_servo_frequency(
         frequency: float, duration: float
     ) -> float:
-        # convert half an exposure to multiple of servo ticks, rounding up
-        ticks = np.ceil(frequency * 0.5 * duration)
+        # convert half an exposure to multiple of servo ticks, rounding up unless
+        # it is only the rounding error of the multiplication that is above it
+        ticks = np.ceil(frequency * 0.5 * duration - 1e-6)
         if not np.isclose(frequency, 3200):
             # -0.002 for some observed jitter in the servo frequency if I10
             # isn't a whole number of 1/4 us move timer ticks
-- 
2.43.0


From c104b1a967b915c93f6470417947e5eec16683fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:12 +0000
Subject: [PATCH 16/58] fix: the guessed duration of a scan must not depend on
 its direction

A scan towards negative positions was given a duration of one tick, which is
too fast for any motor.
---
 malcolm/modules/pmac/parts/pmacchildpart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/pmac/parts/pmacchildpart.py b/malcolm/modules/pmac/parts/pmacchildpart.py
index f17a11d..774ccaa 100644
--- a/malcolm/modules/pmac/parts/pmacchildpart.py
+++ b/malcolm/modules/pmac/parts/pmacchildpart.py
@@ -279,7 +279,7 @@ class PmacChildPart(builtin.parts.ChildPart):
         duration = 0.0
         for axis_name, motor_info in axis_mapping.items():
             # Distance between two points
-            distance = (
+            distance = abs(
                 second_point.positions[axis_name] - first_point.positions[axis_name]
             )
             # So calculate time taken between two points based on max velocity
-- 
2.43.0


From 05a2be07eed2882675771fe2103c209ca267a331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:05 +0000
Subject: [PATCH 17/58] fix: seeking must move a detector with many frames per
 step by all of them

---
 malcolm/modules/scanning/parts/detectorchildpart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/scanning/parts/detectorchildpart.py b/malcolm/modules/scanning/parts/detectorchildpart.py
index 3e7bfa6..999d37f 100644
--- a/malcolm/modules/scanning/parts/detectorchildpart.py
+++ b/malcolm/modules/scanning/parts/detectorchildpart.py
@@ -382,7 +382,8 @@ class DetectorChildPart(builtin.parts.ChildPart):
         # Clear out the update_completed_steps and match_future subscriptions
         context.unsubscribe_all()
         child = context.block_view(self.mri)
-        child.pause(lastGoodStep=completed_steps)
+        # Our steps are a number of steps of the child
+        child.pause(lastGoodStep=completed_steps * self.frames_per_step)
 
     @add_call_types
     def on_abort(self, context: AContext) -> None:
-- 
2.43.0


From 8b3f23e1e7cb05cc099668becb676b889c7b7c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:05 +0000
Subject: [PATCH 18/58] fix: breakpoints of a detector must count all of its
 frames per step

---
 malcolm/modules/scanning/parts/detectorchildpart.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/malcolm/modules/scanning/parts/detectorchildpart.py b/malcolm/modules/scanning/parts/detectorchildpart.py
index 999d37f..7eead03 100644
--- a/malcolm/modules/scanning/parts/detectorchildpart.py
+++ b/malcolm/modules/scanning/parts/detectorchildpart.py
@@ -287,6 +287,9 @@ class DetectorChildPart(builtin.parts.ChildPart):
             # Divide it down
             serialized["duration"] = float(serialized["duration"]) / frames
             generator = CompoundGenerator.from_dict(serialized)
+            # And the same number of frames for each of the breakpoints
+            if breakpoints:
+                breakpoints = [steps * frames for steps in breakpoints]
         kwargs = dict(
             generator=generator,
             axesToMove=axes_to_move,
-- 
2.43.0


From 4c766eeb0e0170411327ad126902fc8f935b8a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:14 +0000
Subject: [PATCH 19/58] fix: a duration guessed by a detector with many frames
 per step was refused

---
 malcolm/modules/scanning/parts/detectorchildpart.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/malcolm/modules/scanning/parts/detectorchildpart.py b/malcolm/modules/scanning/parts/detectorchildpart.py
index 7eead03..258ba34 100644
--- a/malcolm/modules/scanning/parts/detectorchildpart.py
+++ b/malcolm/modules/scanning/parts/detectorchildpart.py
@@ -229,6 +229,12 @@ class DetectorChildPart(builtin.parts.ChildPart):
                     if k == "exposure":
                         exposure = v
                         tweak_detectors = True
+                    elif k == "generator":
+                        # The child might have been given a multiplied out one,
+                        # so only take the duration from it
+                        new_generator = CompoundGenerator.from_dict(generator.to_dict())
+                        new_generator.duration = v.duration
+                        ret.append(ParameterTweakInfo(k, new_generator))
                     else:
                         ret.append(ParameterTweakInfo(k, v))
         else:
-- 
2.43.0


From bff3a5b6c9bd55777c1c5a1e1ce533ac1e66f867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:28 +0000
Subject: [PATCH 20/58] fix: the exposure asked for must be used for all the
 runs of a scan

---
 malcolm/modules/ADCore/parts/detectordriverpart.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/ADCore/parts/detectordriverpart.py b/malcolm/modules/ADCore/parts/detectordriverpart.py
index 71d9ffd..ef01fcb 100644
--- a/malcolm/modules/ADCore/parts/detectordriverpart.py
+++ b/malcolm/modules/ADCore/parts/detectordriverpart.py
@@ -242,7 +242,11 @@ class DetectorDriverPart(builtin.parts.ChildPart):
             self.configure_args_with_exposure,
         )
         registrar.hook(scanning.hooks.RunHook, self.on_run)
-        registrar.hook(scanning.hooks.PostRunArmedHook, self.on_post_run_armed)
+        registrar.hook(
+            scanning.hooks.PostRunArmedHook,
+            self.on_post_run_armed,
+            self.post_run_armed_args_with_exposure,
+        )
         registrar.hook(
             (scanning.hooks.PauseHook, scanning.hooks.AbortHook), self.on_abort
         )
@@ -331,6 +335,12 @@ class DetectorDriverPart(builtin.parts.ChildPart):
             need_keys.append("exposure")
         return need_keys
 
+    def post_run_armed_args_with_exposure(self, keys):
+        need_keys = list(self.on_post_run_armed.call_types)
+        if "exposure" in keys:
+            need_keys.append("exposure")
+        return need_keys
+
     # Allow CamelCase as fileDir parameter will be serialized
     # noinspection PyPep8Naming
     @add_call_types
@@ -463,6 +473,7 @@ class DetectorDriverPart(builtin.parts.ChildPart):
         part_info: scanning.hooks.APartInfo,
         generator: scanning.hooks.AGenerator,
         breakpoints: scanning.controllers.ABreakpoints = None,
+        **kwargs: Any,
     ) -> None:
         # We may need to set up the detector again based on two conditions:
         #   - breakpoints can be an uneven number of steps
@@ -477,6 +488,7 @@ class DetectorDriverPart(builtin.parts.ChildPart):
                 generator.duration,
                 part_info,
                 initial_configure=False,
+                **kwargs,
             )
             if self.is_hardware_triggered:
                 # We can now re-arm hardware-triggered detectors
-- 
2.43.0


From d755cda94120369573b0d421f5e7570429bc7906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:06 +0000
Subject: [PATCH 21/58] fix: an Xspress writer of many processes reported the
 frames of all as steps

---
 malcolm/modules/xspress3/parts/xspresswriterpart.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/xspress3/parts/xspresswriterpart.py b/malcolm/modules/xspress3/parts/xspresswriterpart.py
index 8403440..c3d9633 100644
--- a/malcolm/modules/xspress3/parts/xspresswriterpart.py
+++ b/malcolm/modules/xspress3/parts/xspresswriterpart.py
@@ -368,7 +368,7 @@ class XspressWriterPart(builtin.parts.ChildPart):
     ) -> scanning.hooks.UInfos:
         self.exposure_time = generator.duration
         # On initial configure, expect to get the demanded number of frames
-        self.done_when_reaches = completed_steps + self.num_pairs * steps_to_do
+        self.done_when_reaches = self.num_pairs * (completed_steps + steps_to_do)
         self.unique_id_offset = 0
         child = context.block_view(self.mri)
         file_dir = fileDir.rstrip(os.sep)
@@ -447,8 +447,10 @@ class XspressWriterPart(builtin.parts.ChildPart):
     ) -> None:
         # This is rewinding or setting up for another batch, so the detector
         # will skip to a uniqueID that has not been produced yet
-        self.unique_id_offset = completed_steps - self.done_when_reaches
-        self.done_when_reaches += steps_to_do
+        self.unique_id_offset = (
+            self.num_pairs * completed_steps - self.done_when_reaches
+        )
+        self.done_when_reaches += self.num_pairs * steps_to_do
         child = context.block_view(self.mri)
         # Just reset the array counter_block
         child.arrayCounter.put_value(0)
@@ -488,6 +490,7 @@ class XspressWriterPart(builtin.parts.ChildPart):
         child.stop()
 
     def update_completed_steps(self, value: int) -> None:
-        completed_steps = value + self.unique_id_offset
+        # Each of the pairs captures every step
+        completed_steps = (value + self.unique_id_offset) // self.num_pairs
         assert self.registrar, "No registrar"
         self.registrar.report(scanning.infos.RunProgressInfo(completed_steps))
-- 
2.43.0


From 90304a2ea92b988d1b1f46fe4af4bd5e4fc2645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:20 +0000
Subject: [PATCH 22/58] fix: futures concluded by a nested wait must end the
 outer wait, or fail it

---
 malcolm/core/context.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/malcolm/core/context.py b/malcolm/core/context.py
index 8821c77..e893cc9 100644
--- a/malcolm/core/context.py
+++ b/malcolm/core/context.py
@@ -399,9 +399,13 @@ class Context:
             # some futures that aren't known to it. This means that some of
             # our futures list are now concluded, so filter them out. If we
             # didn't do this we would hang forever
-            for future in futures:
-                if future not in self._requests:
-                    futures.remove(future)
+            concluded = [f for f in futures if f not in self._requests]
+            for future in concluded:
+                futures.remove(future)
+            # Any that failed should still be reported to whoever waits on them
+            for future in concluded:
+                if future.done() and future.exception() is not None:
+                    raise future.exception()
         elif isinstance(response, Return):
             future = self._futures.pop(response.id)
             del self._requests[future]
-- 
2.43.0


From 97f57f15c21886af16f8ec10c7a8e57391c11934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:20 +0000
Subject: [PATCH 23/58] fix: waiting for a future listed twice never returned

---
 malcolm/core/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/core/context.py b/malcolm/core/context.py
index e893cc9..995461f 100644
--- a/malcolm/core/context.py
+++ b/malcolm/core/context.py
@@ -304,7 +304,7 @@ class Context:
             if f.done():
                 if f.exception() is not None:
                     raise f.exception()
-            else:
+            elif f not in filtered_futures:
                 filtered_futures.append(f)
 
         until: Union[float, None]
-- 
2.43.0


From af82276c0d31c813b59baad831994004d48bb50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:21 +0000
Subject: [PATCH 24/58] fix: characters of a PandA response split between
 packets stopped its client

---
 malcolm/modules/pandablocks/pandablocksclient.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/malcolm/modules/pandablocks/pandablocksclient.py b/malcolm/modules/pandablocks/pandablocksclient.py
index 14a576a..7b7249d 100644
--- a/malcolm/modules/pandablocks/pandablocksclient.py
+++ b/malcolm/modules/pandablocks/pandablocksclient.py
@@ -131,14 +131,15 @@ class PandABlocksClient:
                 log.exception("Exception sending message %s", message)
 
     def _get_lines(self):
-        buf = ""
+        # Only decode whole lines, a character may be split between two recv()s
+        buf = b""
         while True:
-            lines = buf.split("\n")
+            lines = buf.split(b"\n")
             for line in lines[:-1]:
-                yield line
+                yield line.decode("utf-8")
             buf = lines[-1]
             # Get something new from the socket
-            rx = self._socket.recv(4096).decode("utf-8")
+            rx = self._socket.recv(4096)
             if not rx:
                 break
             buf += rx
-- 
2.43.0


From 332241589e451ab5c15677c4a8655438286e7a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:21 +0000
Subject: [PATCH 25/58] fix: values that PandA could not be sent as one line
 shifted all later responses

---
 malcolm/modules/pandablocks/pandablocksclient.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/pandablocks/pandablocksclient.py b/malcolm/modules/pandablocks/pandablocksclient.py
index 7b7249d..4e6ea67 100644
--- a/malcolm/modules/pandablocks/pandablocksclient.py
+++ b/malcolm/modules/pandablocks/pandablocksclient.py
@@ -124,9 +124,15 @@ class PandABlocksClient:
             message, response_queue = self._send_queue.get()
             if message is self.STOP:
                 break
+            try:
+                data = message.encode("utf-8")
+            except Exception as e:  # pylint:disable=broad-except
+                # It is not sent, so the PandA will not respond to it
+                response_queue.put(e)
+                continue
             try:
                 self._response_queues.put(response_queue)
-                self._socket.sendall(message.encode("utf-8"))
+                self._socket.sendall(data)
             except Exception:  # pylint:disable=broad-except
                 log.exception("Exception sending message %s", message)
 
@@ -354,6 +360,10 @@ class PandABlocksClient:
 
     def set_fields(self, field_values):
         queues = OrderedDict()
+        for field, value in field_values.items():
+            # It would be taken as many requests, with a response to each
+            if "\n" in str(value):
+                raise ValueError(f"Error setting {field} to {value!r}: has many lines")
         for field, value in field_values.items():
             message = f"{field}={value}\n"
             queues[(field, value)] = self.send(message)
-- 
2.43.0


From f8923026f87e5c440cbb3caa3b53ea5b19f27ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:17 +0000
Subject: [PATCH 26/58] fix: values of other types than declared were accepted
 by number metas

Arrays as single numbers, single numbers as arrays of no dimension, and floats
beyond the limits of an integer type as any number
---
 malcolm/core/models.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/malcolm/core/models.py b/malcolm/core/models.py
index 92d2db5..2c576b3 100644
--- a/malcolm/core/models.py
+++ b/malcolm/core/models.py
@@ -683,6 +683,12 @@ class NumberMeta(VMeta):
         if value is None:
             value = 0
         cast = self._np_type(value)
+        if not isinstance(cast, self._np_type):
+            raise ValueError(f"Expected a single {self.dtype}, got {value!r}")
+        if isinstance(value, (float, np.floating)) and isinstance(cast, np.integer):
+            # Integers wrap, but there is no telling what floats would become
+            if int(cast) != int(value):
+                raise ValueError(f"{value!r} is out of range for {self.dtype}")
         return cast
 
     def doc_type_string(self) -> str:
@@ -745,9 +751,14 @@ def to_np_array(dtype, value: Any) -> Any:
         # If Array wraps a numpy array of the correct type we are done
         return value
     else:
-        if isinstance(value, Sequence):
-            # Cast to numpy array
-            value = np.array(value, dtype=dtype)
+        if value is not None and not isinstance(value, np.ndarray):
+            # Cast to numpy array, a scalar is an array of one element
+            given = value
+            value = np.atleast_1d(np.array(given, dtype=dtype))
+            if value.dtype.kind in "iu":
+                check = np.atleast_1d(np.array(given))
+                if check.dtype.kind == "f" and np.any(np.trunc(check) != value):
+                    raise ValueError(f"{given!r} is out of range for {value.dtype}")
         return to_array(Array[dtype], value)
 
 
-- 
2.43.0


From 67656c36123717664972bc55d280d66200738757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:16 +0000
Subject: [PATCH 27/58] fix: fields added to or removed from a remote block
 never reached its proxy

---
 malcolm/modules/web/controllers/websocketclientcomms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index b8a9bd3..abf1e03 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -198,10 +198,10 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
         elif len(path) == 1 and path[0] not in ("health", "meta"):
             if len(change) == 1:
                 # Delete a field
-                block.remove_endpoint(path[1])
+                block.remove_endpoint(path[0])
             else:
                 # Change a single field of the block
-                block.set_endpoint_data(path[1], change[1])
+                block.set_endpoint_data(path[0], change[1])
         else:
             block.apply_change(path, *change[1:])
 
-- 
2.43.0


From a4fac665f9b2634205323292644d50b5013ddced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:16 +0000
Subject: [PATCH 28/58] fix: changes of a table column or an element's meta
 never reached a proxy

---
 malcolm/core/models.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/malcolm/core/models.py b/malcolm/core/models.py
index 2c576b3..2ee2568 100644
--- a/malcolm/core/models.py
+++ b/malcolm/core/models.py
@@ -132,7 +132,11 @@ class Model(Serializable):
         """Take a single change from a Delta and apply it to this model"""
         if len(path) > 1:
             # This is for a child
-            self[path[0]].apply_change(path[1:], *args)
+            child, path = self[path[0]], path[1:]
+            if len(path) > 1 and isinstance(child, Mapping):
+                # This is for a Model in our child mapping
+                child, path = child[path[0]], path[1:]
+            child.apply_change(path, *args)
         else:
             # This is for us
             assert (
@@ -406,6 +410,15 @@ class NTTable(AttributeModel):
             self.timeStamp = ts
             self.notifier.add_squashed_change(self.path + ["timeStamp"], ts)
 
+    def apply_change(self, path, *args: Any) -> None:
+        if len(path) == 2 and path[0] == "value" and args:
+            # A single column changed, the others stay as they are
+            columns = {k: self.value[k] for k in self.value}
+            columns[path[1]] = args[0]
+            self.set_value(columns, set_alarm_ts=False)
+        else:
+            super().apply_change(path, *args)
+
 
 @Serializable.register_subclass("epics:nt/NTScalarArray:1.0")
 class NTScalarArray(AttributeModel):
-- 
2.43.0


From 9ab89ca6bc04c4f51ee5de2fbe25c616eec37fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:26 +0000
Subject: [PATCH 29/58] fix: a request that could not be sent to the server was
 waited for forever

---
 .../modules/web/controllers/websocketclientcomms.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index abf1e03..4ac9f66 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -269,6 +269,13 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
         request.id = self._next_id
         self._next_id += 1
         self._request_lookup[request.id] = request
-        message = json_encode(request)
-        self.log.debug("Sending message %s", message)
-        self._conn.write_message(message)
+        try:
+            assert self._conn, "Not connected to server"
+            message = json_encode(request)
+            self.log.debug("Sending message %s", message)
+            self._conn.write_message(message)
+        except Exception as e:
+            # No response will come, so someone could wait for it forever
+            self.log.exception("Sending %s failed", request)
+            self._request_lookup.pop(request.id, None)
+            cothread.Callback(request.callback, Error(id=request.id, message=e))
-- 
2.43.0


From 25052f5f33d5caa4bf996b4cd2932542f93f0d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:54 +0000
Subject: [PATCH 30/58] fix: the value of a choice without choices must be
 valid itself

---
 malcolm/core/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/malcolm/core/models.py b/malcolm/core/models.py
index 2ee2568..c679bca 100644
--- a/malcolm/core/models.py
+++ b/malcolm/core/models.py
@@ -537,6 +537,7 @@ class ChoiceMeta(VMeta):
         else:
             # There are no choices, so the default value is the empty string
             choices_lookup[None] = ""
+            choices_lookup[""] = ""
         self.choices_lookup = choices_lookup
         if enum_typ is None or Model.matches_type(enum_typ):
             # We are producing strings
-- 
2.43.0


From ed3b7c75a81d536f38048d7998b76d9e7d7993fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:25 +0000
Subject: [PATCH 31/58] fix: tables with different numbers of rows could not be
 compared

---
 malcolm/core/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malcolm/core/table.py b/malcolm/core/table.py
index 102b68a..0bb4bef 100644
--- a/malcolm/core/table.py
+++ b/malcolm/core/table.py
@@ -44,6 +44,7 @@ class Table(Serializable):
         if list(self.call_types) != list(other.call_types):
             return True
         for k in self.call_types:
-            if self[k] != other[k]:
+            # numpy broadcasts or fails if the lengths are different
+            if len(self[k]) != len(other[k]) or self[k] != other[k]:
                 return True
         return False
-- 
2.43.0


From c97dc666dc117e61172d3cd2be17e41bdc2a83c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:25 +0000
Subject: [PATCH 32/58] fix: array and table values of other lengths were not
 restored, or stopped the load

---
 malcolm/modules/builtin/parts/childpart.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/builtin/parts/childpart.py b/malcolm/modules/builtin/parts/childpart.py
index f212570..9c63f11 100644
--- a/malcolm/modules/builtin/parts/childpart.py
+++ b/malcolm/modules/builtin/parts/childpart.py
@@ -12,7 +12,7 @@ from typing import (
     Union,
 )
 
-from annotypes import Anno, add_call_types
+from annotypes import Anno, add_call_types, serialize_object
 
 from malcolm.compat import OrderedDict
 from malcolm.core import (
@@ -77,6 +77,12 @@ APartName = APartName
 ss = StatefulStates
 
 
+def values_differ(value: Any, other: Any) -> bool:
+    """Compare Attribute values, each of which might have been loaded from a
+    file, so be the serialized version"""
+    return bool(serialize_object(value) != serialize_object(other))
+
+
 class ChildPart(Part):
     #: A set containing all the Attribute names of our child Block that we will
     #: put to, so shouldn't be saved. Set this in subclasses using `no_save`
@@ -237,7 +243,7 @@ class ChildPart(Part):
             # ones that need to change
             to_set = {}
             for k, (attr, v) in params.items():
-                if attr.value != v:
+                if values_differ(attr.value, v):
                     to_set[k] = v
             child.put_attribute_values(to_set)
         if init and "design" in child:
@@ -346,7 +352,7 @@ class ChildPart(Part):
         # If we did a save or load then we will have an original value,
         # otherwise it will be None
         original_value = self.saved_structure.get(name, None)
-        if original_value == new_value:
+        if not values_differ(original_value, new_value):
             message = None
         else:
             message = "%s.%s.value = %s not %s" % (
-- 
2.43.0


From 545a76058c1b281b60273e99e77b25f539510ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:11 +0000
Subject: [PATCH 33/58] fix: what was modified before a save or load was
 reported again with later changes

---
 malcolm/modules/builtin/parts/childpart.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/malcolm/modules/builtin/parts/childpart.py b/malcolm/modules/builtin/parts/childpart.py
index 9c63f11..0d50c37 100644
--- a/malcolm/modules/builtin/parts/childpart.py
+++ b/malcolm/modules/builtin/parts/childpart.py
@@ -246,6 +246,7 @@ class ChildPart(Part):
                 if values_differ(attr.value, v):
                     to_set[k] = v
             child.put_attribute_values(to_set)
+        self._update_modified_messages(child)
         if init and "design" in child:
             # We might not have cleared the changes so report here
             self.send_modified_info_if_not_equal("design", child.design.value)
@@ -260,8 +261,20 @@ class ChildPart(Part):
                 if isinstance(attr, Attribute) and get_config_tag(attr.meta.tags):
                     part_structure[k] = attr.value
         self.saved_structure = part_structure
+        self._update_modified_messages(child)
         return part_structure
 
+    def _update_modified_messages(self, child: Any) -> None:
+        """The saved structure has changed, so update what was different to it
+        before"""
+        for name in list(self.modified_messages):
+            if name in child:
+                value = getattr(child, name).value
+            else:
+                # Field has gone, so there is nothing to be modified
+                value = self.saved_structure.get(name, None)
+            self.send_modified_info_if_not_equal(name, value)
+
     @add_call_types
     def reload(self, context: AContext) -> None:
         """If we have done a save or load with the child having a particular
-- 
2.43.0


From 9e622ec3113c040a3de32e3a5cb442e30b7958ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:58 +0000
Subject: [PATCH 34/58] fix: a save that failed while writing destroyed the
 design saved before

---
 malcolm/modules/builtin/controllers/managercontroller.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index 6204648..adfa74d 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -445,8 +445,10 @@ class ManagerController(StatefulController):
         filename = self._validated_config_filename(design)
         if filename.startswith("/tmp"):
             self.log.warning(f"Saving to tmp directory {filename}")
-        with open(filename, "w") as f:
+        # Write it beside the design so that if we fail we still have the old one
+        with open(filename + ".tmp", "w") as f:
             f.write(text)
+        os.rename(filename + ".tmp", filename)
         # Run a sync command to make sure we flush this file to disk
         subprocess.call("sync")
         self._mark_clean(design)
-- 
2.43.0


From f3238fa8b4fe6432726e4fd872c8f75a5cade396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:58 +0000
Subject: [PATCH 35/58] fix: designs could be saved over those of other blocks,
 or anywhere

---
 malcolm/modules/builtin/controllers/managercontroller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index adfa74d..0d2d5e8 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -419,6 +419,7 @@ class ManagerController(StatefulController):
             design = self.design.value
         assert design, "Please specify save design name when saving from new"
         assert not design.startswith("template_"), "Cannot save over a template"
+        assert os.sep not in design, "Design name cannot contain a path"
         structure = OrderedDict()
         attributes = structure.setdefault("attributes", OrderedDict())
         # Add the layout table
-- 
2.43.0


From 0c85c64b80e623e93086aa59a3502691f55786a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:25 +0000
Subject: [PATCH 36/58] fix: a child's field that was removed and added again
 was no longer tracked

---
 malcolm/modules/builtin/parts/childpart.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/malcolm/modules/builtin/parts/childpart.py b/malcolm/modules/builtin/parts/childpart.py
index 0d50c37..b9858be 100644
--- a/malcolm/modules/builtin/parts/childpart.py
+++ b/malcolm/modules/builtin/parts/childpart.py
@@ -301,13 +301,19 @@ class ChildPart(Part):
             return
 
         # Remove any existing subscription that is not in the new fields
-        for subscribe in self.config_subscriptions.values():
+        last_id = max(self.config_subscriptions, default=0)
+        for subscribe in list(self.config_subscriptions.values()):
             attr_name = subscribe.path[-2]
             if attr_name not in new_fields:
+                del self.config_subscriptions[subscribe.id]
                 unsubscribe = Unsubscribe(subscribe.id)
                 unsubscribe.set_callback(subscribe.callback)
                 spawned.append(self.child_controller.handle_request(unsubscribe))
                 self.port_infos.pop(attr_name, None)
+                # Field has gone, so there is nothing to be modified
+                self.send_modified_info_if_not_equal(
+                    attr_name, self.saved_structure.get(attr_name, None)
+                )
 
         # Add a subscription to any new field
         existing_fields = set(s.path[-2] for s in self.config_subscriptions.values())
@@ -337,13 +343,10 @@ class ChildPart(Part):
                 # If we are config tagged then subscribe so we can calculate
                 # if we are modified
                 if self._unmanaged_attr(field) and get_config_tag(tags):
-                    if self.config_subscriptions:
-                        new_id = max(self.config_subscriptions) + 1
-                    else:
-                        new_id = 1
-                    subscribe = Subscribe(id=new_id, path=[self.mri, field, "value"])
+                    last_id += 1
+                    subscribe = Subscribe(id=last_id, path=[self.mri, field, "value"])
                     subscribe.set_callback(self.update_part_modified)
-                    self.config_subscriptions[new_id] = subscribe
+                    self.config_subscriptions[last_id] = subscribe
                     spawned.append(self.child_controller.handle_request(subscribe))
 
         # Wait for the first update to come in for every subscription
@@ -355,7 +358,10 @@ class ChildPart(Part):
 
     def update_part_modified(self, response: Response) -> None:
         if isinstance(response, Update):
-            subscribe = self.config_subscriptions[response.id]
+            subscribe = self.config_subscriptions.get(response.id, None)
+            if subscribe is None:
+                # Field has just been removed
+                return
             name = subscribe.path[-2]
             self.send_modified_info_if_not_equal(name, response.value)
         elif not isinstance(response, Return):
-- 
2.43.0


From 6d393af33dcfd1c924a5ee2559b76b85f893a7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:25 +0000
Subject: [PATCH 37/58] fix: exports of fields that children only have after
 loading stopped the load

---
 .../modules/builtin/controllers/managercontroller.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index 0d2d5e8..1254d56 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -533,12 +533,6 @@ class ManagerController(StatefulController):
             y.append(d["y"])
             visible.append(d["visible"])
         self.set_layout(LayoutTable(name, mri, x, y, visible))
-        # Set the exports table
-        source, export = [], []
-        for source_name, export_name in attributes.get("exports", {}).items():
-            source.append(source_name)
-            export.append(export_name)
-        self.exports.set_value(ExportTable(source, export))
         # Set other attributes
         our_values = {
             k: v for k, v in attributes.items() if k in self.our_config_attributes
@@ -550,6 +544,12 @@ class ManagerController(StatefulController):
             LoadHook(p, c, children.get(p.name, {}), init)
             for p, c in self.create_part_contexts(only_visible=False).items()
         )
+        # Set the exports table, now that the children have the fields to export
+        source, export = [], []
+        for source_name, export_name in attributes.get("exports", {}).items():
+            source.append(source_name)
+            export.append(export_name)
+        self.exports.set_value(ExportTable(source, export))
         self._mark_clean(design, init)
 
     def _mark_clean(self, design, init=False):
-- 
2.43.0


From bc16128f1d830a49d90fd876f6690e805d5a1f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:26 +0000
Subject: [PATCH 38/58] fix: exported methods could not be called with
 arguments and returned nothing

---
 malcolm/modules/builtin/controllers/managercontroller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index 1254d56..837644f 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -368,9 +368,9 @@ class ManagerController(StatefulController):
                     ret["setter"] = setter
                 else:
 
-                    def setter_star_args(*args):
+                    def setter_star_args(**kwargs):
                         context = Context(self.process)
-                        context.post(path, *args)
+                        return context.post(path, kwargs)
 
                     ret["setter"] = setter_star_args
 
-- 
2.43.0


From dcd71ec8a9754def8aab4d50379362897dc4a057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:46 +0000
Subject: [PATCH 39/58] fix: exports of a child's field that was replaced were
 never updated again

---
 .../builtin/controllers/managercontroller.py    | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index 837644f..ae8a5f8 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -345,6 +345,17 @@ class ManagerController(StatefulController):
         label = camel_to_title(export_name)
         ret = {}
 
+        def replace_field(field):
+            export = ret["export"]
+            field.meta.set_label(label)
+            field.meta.set_writeable(export.meta.writeable)
+            if isinstance(field, AttributeModel):
+                field.meta.set_tags(
+                    without_config_tags(without_group_tags(field.meta.tags))
+                )
+            for name in export.call_types:
+                export.set_endpoint_data(name, field[name])
+
         def update_field(response):
             if not isinstance(response, Delta):
                 # Return or Error is the end of our subscription, log and ignore
@@ -381,7 +392,11 @@ class ManagerController(StatefulController):
                 # Subsequent calls, update it
                 with self.changes_squashed:
                     for change in response.changes:
-                        ret["export"].apply_change(*change)
+                        if change[0]:
+                            ret["export"].apply_change(*change)
+                        elif len(change) == 2:
+                            # Field was removed then added again, maybe different
+                            replace_field(deserialize_object(change[1]))
 
         subscription = Subscribe(path=path, delta=True)
         subscription.set_callback(update_field)
-- 
2.43.0


From b6072dd2d257fe5d1c358abdbaf72d2b3a03c061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:46 +0000
Subject: [PATCH 40/58] fix: exports could replace the block's own fields, or
 each other

---
 malcolm/modules/builtin/controllers/managercontroller.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index ae8a5f8..26eb9c4 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -197,6 +197,13 @@ class ManagerController(StatefulController):
             assert CAMEL_RE.match(
                 export_name
             ), f"Field {export_name!r} is not camelCase"
+        # Exported fields can't replace our own fields or each other
+        taken = {"meta"}
+        for fields in self.field_registry.fields.values():
+            taken.update(name for name, _, _, _ in fields)
+        for export_name in value.export:
+            assert export_name not in taken, f"Field {export_name!r} already exists"
+            taken.add(export_name)
         with self.changes_squashed:
             self.exports.set_value(value)
             self.update_modified()
-- 
2.43.0


From c60c03fb4eb6bdd9a73fe56abdd905cda8a68bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:44 +0000
Subject: [PATCH 41/58] fix: a design exporting fields that its children do not
 have yet could not be loaded

---
 malcolm/modules/builtin/controllers/managercontroller.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/builtin/controllers/managercontroller.py b/malcolm/modules/builtin/controllers/managercontroller.py
index 26eb9c4..780887d 100644
--- a/malcolm/modules/builtin/controllers/managercontroller.py
+++ b/malcolm/modules/builtin/controllers/managercontroller.py
@@ -20,6 +20,7 @@ from malcolm.core import (
     StringMeta,
     Subscribe,
     TableMeta,
+    TimeStamp,
     Unsubscribe,
     Widget,
     camel_to_title,
@@ -337,7 +338,7 @@ class ManagerController(StatefulController):
         # Add exported fields from visible parts
         for source, export_name in self.exports.value.rows():
             part_name, attr_name = source.rsplit(".", 1)
-            part = self.parts[part_name]
+            part = self.parts.get(part_name, None)
             # If part is visible, get its mri
             mri = mris.get(part_name, None)
             if mri and attr_name in self.part_exportable.get(part, []):
@@ -571,7 +572,10 @@ class ManagerController(StatefulController):
         for source_name, export_name in attributes.get("exports", {}).items():
             source.append(source_name)
             export.append(export_name)
-        self.exports.set_value(ExportTable(source, export))
+        # They will be shown when the children have them, so don't validate this
+        self.exports.set_value_alarm_ts(
+            ExportTable(source, export), Alarm.ok, TimeStamp()
+        )
         self._mark_clean(design, init)
 
     def _mark_clean(self, design, init=False):
-- 
2.43.0


From 2f13041e41612679d9ce450f731e70a060a68e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:02 +0000
Subject: [PATCH 42/58] fix: hiding a block left what was wired to it since the
 start connected

---
 malcolm/modules/builtin/parts/childpart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/builtin/parts/childpart.py b/malcolm/modules/builtin/parts/childpart.py
index b9858be..55a5cb0 100644
--- a/malcolm/modules/builtin/parts/childpart.py
+++ b/malcolm/modules/builtin/parts/childpart.py
@@ -197,7 +197,8 @@ class ChildPart(Part):
                 self.y = layout.y[i]
                 self.visible = visible
             else:
-                was_visible = self.part_visibility.get(name, False)
+                # It was visible if we have not been told otherwise
+                was_visible = self.part_visibility.get(name, True)
                 if was_visible and not visible:
                     self.sever_sink_ports(context, ports, name)
                 self.part_visibility[name] = visible
-- 
2.43.0


From bf342a5b168bc5745c06ef4b41176354dbb9d777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:28 +0000
Subject: [PATCH 43/58] fix: a table of waveform PVs kept alarms for ever and
 stopped following a PV that disconnected or changed length

---
 malcolm/modules/ca/util.py | 42 +++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/malcolm/modules/ca/util.py b/malcolm/modules/ca/util.py
index b5c0bc8..c78a5de 100644
--- a/malcolm/modules/ca/util.py
+++ b/malcolm/modules/ca/util.py
@@ -1,5 +1,5 @@
 import time
-from typing import Any, Callable, Optional, Sequence, Type, Union
+from typing import Any, Callable, Dict, Optional, Sequence, Type, Union
 
 from annotypes import Anno, Array
 
@@ -156,12 +156,9 @@ class CABase(Loggable):
         now = time.time()
         delta = now - self._update_after
         if value_index is not None and hasattr(self, "name_list"):
-            value_key = self.name_list[value_index]
-            self._local_value[value_key] = value
-            self._local_value.raw_stamp = getattr(value, "raw_stamp", (None, None))
-            self._local_value.ok = self._local_value.ok or value.ok
-            self._local_value.severity = max(self._local_value.severity, value.severity)
-            self._update_value(self._local_value)
+            self._local_value.update_column(self.name_list[value_index], value)
+            if self._local_value.consistent():
+                self._update_value(self._local_value)
         else:
             self._update_value(value)
         # See how long to sleep for to make sure we don't get more than one
@@ -274,10 +271,33 @@ class CAAttribute(CABase):
 
 
 class CATable(dict):
-    ok = True
-    severity = 0
     raw_stamp = (None, None)
 
+    def __init__(self) -> None:
+        super().__init__()
+        # The last thing we were told about each column
+        self._latest: Dict[str, Any] = {}
+
+    def update_column(self, name: str, value: Any) -> None:
+        self._latest[name] = value
+        # A disconnected PV has no data, so leave the last value there
+        if value.ok:
+            self[name] = value
+            self.raw_stamp = getattr(value, "raw_stamp", (None, None))
+
+    @property
+    def ok(self) -> bool:
+        return all(v.ok for v in self._latest.values())
+
+    @property
+    def severity(self) -> int:
+        return max((v.severity for v in self._latest.values() if v.ok), default=0)
+
+    def consistent(self) -> bool:
+        """Whether there is something to publish. While the PVs change length
+        one after the other there is no valid table until the last of them"""
+        return not self.ok or len(set(len(v) for v in self.values())) == 1
+
 
 class WaveformTableAttribute(CABase):
     def __init__(
@@ -347,9 +367,7 @@ class WaveformTableAttribute(CABase):
         for ind, value in enumerate(ca_values):
             if self.on_connect:
                 self.on_connect(value)
-            self._local_value[self.name_list[ind]] = value
-            self._local_value.severity = max(self._local_value.severity, value.severity)
-            self._local_value.ok = self._local_value.ok or value.ok
+            self._local_value.update_column(self.name_list[ind], value)
         self._update_value(self._local_value)
         # now setup monitors for all the things
         self.monitor = catools.camonitor(
-- 
2.43.0


From fe926c12371dbd0f74655712afe7b5f34d8224b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:31 +0000
Subject: [PATCH 44/58] fix: a PV that may be missing could not be, if it had
 display limits to read

---
 malcolm/modules/ca/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/ca/util.py b/malcolm/modules/ca/util.py
index c78a5de..ac471d1 100644
--- a/malcolm/modules/ca/util.py
+++ b/malcolm/modules/ca/util.py
@@ -239,7 +239,7 @@ class CAAttribute(CABase):
             self.throw,
         )
 
-        if self.on_connect:
+        if self.on_connect and ca_values[0].ok:
             self.on_connect(ca_values[0])
         self._update_value(ca_values[0])
         # now setup monitor on rbv
-- 
2.43.0


From d100f1cdbc6343cac58a2d181e6def4cc8e14364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:08 +0000
Subject: [PATCH 45/58] fix: a client that was reset after losing its server
 was ready before it was connected

---
 malcolm/modules/web/controllers/websocketclientcomms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index 4ac9f66..8acbce8 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -69,6 +69,8 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
     def _start_client(self):
         # Called from cothread
         if self._conn is None:
+            # Forget what the last connection told us when it was lost
+            self._connected_queue = Queue()
             IOLoopHelper.call(self.recv_loop)
             self._connected_queue.get(timeout=self.connect_timeout)
             root_subscribe = Subscribe(path=[".", "blocks", "value"])
-- 
2.43.0


From c98d799eb1f5af322d7a08098bef4cc4d5534168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:52 +0000
Subject: [PATCH 46/58] fix: proxies were never brought up to date again after
 their client lost its server

---
 malcolm/modules/web/controllers/websocketclientcomms.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/malcolm/modules/web/controllers/websocketclientcomms.py b/malcolm/modules/web/controllers/websocketclientcomms.py
index 8acbce8..1be391b 100644
--- a/malcolm/modules/web/controllers/websocketclientcomms.py
+++ b/malcolm/modules/web/controllers/websocketclientcomms.py
@@ -55,6 +55,8 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
         # {new_id: request}
         self._request_lookup: Dict[int, Request] = {}
         self._next_id = 1
+        # {mri: block} that we keep in sync
+        self._proxies: Dict[str, BlockModel] = {}
         self._conn: Optional[WebSocketClientConnection] = None
         # Create read-only attribute for the remotely reachable blocks
         self.remote_blocks = TableMeta.from_table(
@@ -76,6 +78,9 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
             root_subscribe = Subscribe(path=[".", "blocks", "value"])
             root_subscribe.set_callback(self._update_remote_blocks)
             IOLoopHelper.call(self._send_request, root_subscribe)
+            # Bring any proxies we had on the last connection up to date
+            for mri, block in self._proxies.items():
+                self._subscribe_proxy(mri, block)
 
     @gen.coroutine
     def recv_loop(self):
@@ -162,6 +167,10 @@ class WebsocketClientComms(builtin.controllers.ClientComms):
             mri (str): The mri for the remote block
             block (BlockModel): The local proxy Block to keep in sync
         """
+        self._proxies[mri] = block
+        self._subscribe_proxy(mri, block)
+
+    def _subscribe_proxy(self, mri: str, block: BlockModel) -> None:
         # Send a root Subscribe to the server
         subscribe = Subscribe(path=[mri], delta=True)
         done_queue = Queue()
-- 
2.43.0


From b78767a48524f2d2bbe49dae50b3cc771ad6c239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:18 +0000
Subject: [PATCH 47/58] fix: a scan whose frames do not fill every Odin
 writer's blocks could not be configured

---
 malcolm/modules/ADOdin/parts/odinwriterpart.py      | 2 +-
 malcolm/modules/xspress3/parts/xspresswriterpart.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/ADOdin/parts/odinwriterpart.py b/malcolm/modules/ADOdin/parts/odinwriterpart.py
index 807c516..b967952 100644
--- a/malcolm/modules/ADOdin/parts/odinwriterpart.py
+++ b/malcolm/modules/ADOdin/parts/odinwriterpart.py
@@ -95,7 +95,7 @@ def create_raw_dataset_infos(
 
 def files_shape(frames, block_size, file_count):
     # all files get at least per_file blocks
-    per_file = int(frames) / int(file_count * block_size)
+    per_file = int(frames) // int(file_count * block_size)
     # this is the remainder once per_file blocks have been distributed
     remainder = int(frames) % int(file_count * block_size)
 
diff --git a/malcolm/modules/xspress3/parts/xspresswriterpart.py b/malcolm/modules/xspress3/parts/xspresswriterpart.py
index c3d9633..b36daca 100644
--- a/malcolm/modules/xspress3/parts/xspresswriterpart.py
+++ b/malcolm/modules/xspress3/parts/xspresswriterpart.py
@@ -109,7 +109,7 @@ def create_raw_dataset_infos(
 
 def files_shape(frames, block_size, file_count):
     # all files get at least per_file blocks
-    per_file = int(frames) / int(file_count * block_size)
+    per_file = int(frames) // int(file_count * block_size)
     # this is the remainder once per_file blocks have been distributed
     remainder = int(frames) % int(file_count * block_size)
 
-- 
2.43.0


From f5dd4cc0a10dd640826273a60a0d0c30ccbbad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:18 +0000
Subject: [PATCH 48/58] fix: the Odin writer reported datasets of a writer that
 does not exist

---
 malcolm/modules/ADOdin/parts/odinwriterpart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/ADOdin/parts/odinwriterpart.py b/malcolm/modules/ADOdin/parts/odinwriterpart.py
index b967952..4bb416e 100644
--- a/malcolm/modules/ADOdin/parts/odinwriterpart.py
+++ b/malcolm/modules/ADOdin/parts/odinwriterpart.py
@@ -73,7 +73,7 @@ def create_dataset_infos(
 def create_raw_dataset_infos(
     name: str, rank: int, filename: str, n_raw: int
 ) -> Iterator[Info]:
-    for i in range(n_raw + 1):
+    for i in range(n_raw):
         yield scanning.infos.DatasetProducedInfo(
             name=f"{name}.raw{i+1}",
             filename=filename,
@@ -82,7 +82,7 @@ def create_raw_dataset_infos(
             path="/raw" + str(i + 1),
             uniqueid="",
         )
-    for i in range(n_raw + 1):
+    for i in range(n_raw):
         yield scanning.infos.DatasetProducedInfo(
             name=f"{name}.uid{i+1}",
             filename=filename,
-- 
2.43.0


From 889d3ba717adb8e3a72c01cb9edb17ab3235bdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:07 +0000
Subject: [PATCH 49/58] fix: PandA was blind for the wrong time after a row
 that spans batches of points

---
 malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
index 285145c..2cff141 100644
--- a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
+++ b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
@@ -244,6 +244,7 @@ class SeqTriggers:
                     # of points finished in the middle of a continuous scan row.
                     # The first point of the current batch is from the previous batch.
                     yield self._create_immediate_rows(points.duration[1:end])
+                    self.last_point = points[end - 1]
 
                 # Remaining scan rows from the current batch of points.
                 for start_i, end_i in zip(start_indices, end_indices):
-- 
2.43.0


From 02560bc29902694da96848b3b227aa713de276cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:09 +0000
Subject: [PATCH 50/58] fix: PandA expected the delay after the wrong point in
 a turnaround

---
 malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
index 2cff141..5918f44 100644
--- a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
+++ b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
@@ -77,7 +77,7 @@ class SeqTriggers:
         """Return the duration that the given axis is moving in the opposite direction
         from that required for `point`, during the prior turnaround."""
         assert self.min_turnaround, f"{self.name}: no MinTurnaround assigned"
-        min_turnaround = max(self.min_turnaround.time, point.delay_after)
+        min_turnaround = max(self.min_turnaround.time, self.last_point.delay_after)
         time_arrays, velocity_arrays = pmac.util.profile_between_points(
             self.axis_mapping,
             self.last_point,
-- 
2.43.0


From 2e4d7a1ba507301c2dfb17077cbd9fc9f6b06252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:23 +0000
Subject: [PATCH 51/58] fix: PandA started a row early if an axis had to go
 back past its start

---
 malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
index 5918f44..c37fe23 100644
--- a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
+++ b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
@@ -103,6 +103,13 @@ class SeqTriggers:
                 ), f"Last point of {velocity_array} is wrong direction"
                 break
         blind = time_array[i]
+
+        # If the axis has still to pass the compare point the wrong way then it
+        # has to stop before we look at it again
+        to_go = np.trapz(velocity_array[i:], time_array[i:])
+        v = velocity_array[i]
+        if to_go * velocity_array[-1] <= 0 and v * velocity_array[-1] < 0:
+            blind += (time_array[i + 1] - blind) * v / (v - velocity_array[i + 1])
         return blind
 
     @staticmethod
-- 
2.43.0


From bfe6ee9578958914a292f9d736ad2d4d080a1ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:21 +0000
Subject: [PATCH 52/58] fix: PandA did not allow for the axes it cannot see in
 a turnaround

---
 malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
index c37fe23..aafe926 100644
--- a/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
+++ b/malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py
@@ -36,11 +36,14 @@ class SeqTriggers:
         axis_mapping: Dict[str, pmac.infos.MotorInfo],
         trigger_enums: Dict[Tuple[str, bool], str],
         min_turnaround: float,
+        moving: Optional[Dict[str, pmac.infos.MotorInfo]] = None,
     ) -> None:
         self.generator: CompoundGenerator = generator
         self.axis_mapping: Dict[str, pmac.infos.MotorInfo] = axis_mapping
         self.trigger_enums: Dict[Tuple[str, bool], str] = trigger_enums
         self.min_turnaround: float = min_turnaround
+        # All the axes that move, whether we can compare on them or not
+        self.moving: Dict[str, pmac.infos.MotorInfo] = moving or axis_mapping
         self.last_point: Point = None
 
     @staticmethod
@@ -79,7 +82,7 @@ class SeqTriggers:
         assert self.min_turnaround, f"{self.name}: no MinTurnaround assigned"
         min_turnaround = max(self.min_turnaround.time, self.last_point.delay_after)
         time_arrays, velocity_arrays = pmac.util.profile_between_points(
-            self.axis_mapping,
+            self.moving,
             self.last_point,
             point,
             min_turnaround,
@@ -462,6 +465,7 @@ class PandASeqTriggerPart(builtin.parts.ChildPart):
         motion_axes = pmac.util.get_motion_axes(generator, axesToMove)
         self.axis_mapping = {}
         self.trigger_enums = {}
+        axis_mapping = {}
 
         if motion_axes:
             # Need to fill in the axis mapping
@@ -490,6 +494,7 @@ class PandASeqTriggerPart(builtin.parts.ChildPart):
             self.axis_mapping,
             self.trigger_enums,
             self.min_turnaround,
+            axis_mapping,
         )
 
         rows_gen = seq_triggers.get_rows(self.loaded_up_to, self.scan_up_to)
-- 
2.43.0


From 297b297b9fce33dcaac87aebdc25618e03ab041d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:39 +0000
Subject: [PATCH 53/58] fix: demand positions of an HDF writer on Windows were
 written to a Windows path

---
 malcolm/modules/ADCore/parts/hdfwriterpart.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/malcolm/modules/ADCore/parts/hdfwriterpart.py b/malcolm/modules/ADCore/parts/hdfwriterpart.py
index 3f6f810..27e9d3e 100644
--- a/malcolm/modules/ADCore/parts/hdfwriterpart.py
+++ b/malcolm/modules/ADCore/parts/hdfwriterpart.py
@@ -592,9 +592,8 @@ class HDFWriterPart(builtin.parts.ChildPart):
         # Check XML
         set_path = "/entry/%s_set"
         if self.remove_demand_positions_from_xml.value is not False:
-            self._hdf = _write_additional_hdf(
-                filename, generator, h5_file_dir, set_path
-            )
+            # We write this one, so it goes to the path as we see it
+            self._hdf = _write_additional_hdf(filename, generator, file_dir, set_path)
         self._check_xml_is_valid(child)
         # Return the dataset information
         dataset_infos = list(
-- 
2.43.0


From 92ced8f93b2652efc75eb57f870ce1e847749405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:39 +0000
Subject: [PATCH 54/58] fix: Windows paths with the prefix in them twice were
 translated wrongly

---
 malcolm/modules/ADCore/infos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/ADCore/infos.py b/malcolm/modules/ADCore/infos.py
index 63a4cb7..44a33c9 100644
--- a/malcolm/modules/ADCore/infos.py
+++ b/malcolm/modules/ADCore/infos.py
@@ -40,10 +40,11 @@ class FilePathTranslatorInfo(Info):
             win_path = filepath.replace(
                 translator.path_prefix,
                 translator.network_prefix + translator.path_prefix,
+                1,
             ).replace("/", "\\")
         else:
             win_path = filepath.replace(
-                translator.path_prefix, translator.windows_drive_letter + ":"
+                translator.path_prefix, translator.windows_drive_letter + ":", 1
             ).replace("/", "\\")
         return win_path
 
-- 
2.43.0


From 7f33d436c57e836d925591225d9a220139f5744b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:06 +0000
Subject: [PATCH 55/58] fix: let a websocket client subscribe again with an
 unsubscribed id

The server kept the id of a subscription when it was unsubscribed, so another
Subscribe with that id was refused as a duplicate although there was none.
---
 malcolm/modules/web/parts/websocketserverpart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/web/parts/websocketserverpart.py b/malcolm/modules/web/parts/websocketserverpart.py
index fcc8914..cba0cf3 100644
--- a/malcolm/modules/web/parts/websocketserverpart.py
+++ b/malcolm/modules/web/parts/websocketserverpart.py
@@ -112,7 +112,8 @@ class MalcWebSocketHandler(WebSocketHandler):
                 )
                 self._id_to_mri[msg_id] = request.path[0]
             if isinstance(request, Unsubscribe):
-                mri = self._id_to_mri[msg_id]
+                # The client can use this ID again after this
+                mri = self._id_to_mri.pop(msg_id)
             else:
                 mri = request.path[0]
             if isinstance(request, (Put, Post)) and not self._writeable:
-- 
2.43.0


From 196f6feff0d81e8b23e547ab66d8cbca215a7ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:06 +0000
Subject: [PATCH 56/58] fix: answer a websocket request whose response cannot
 be encoded

If the response could not be made into JSON (like bytes returned by a Method
that is declared to return a string), then the client never got an answer, and
as the tornado thread did not report that it had handled the response the next
responses of the connection waited for that forever, blocking the Block.
---
 malcolm/modules/web/parts/websocketserverpart.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/malcolm/modules/web/parts/websocketserverpart.py b/malcolm/modules/web/parts/websocketserverpart.py
index cba0cf3..91a9952 100644
--- a/malcolm/modules/web/parts/websocketserverpart.py
+++ b/malcolm/modules/web/parts/websocketserverpart.py
@@ -136,8 +136,13 @@ class MalcWebSocketHandler(WebSocketHandler):
 
     def _on_response(self, response: Response) -> None:
         # called from tornado thread
-        message = json_encode(response)
         try:
+            try:
+                message = json_encode(response)
+            except Exception as e:
+                # Tell the client, as it might wait for a response forever
+                log.exception("Error encoding response %s", response)
+                message = json_encode(Error(response.id, e))
             self.write_message(message)
         except WebSocketError:
             # The websocket is dead. If the response was a Delta or Update, then
-- 
2.43.0


From 7d1acd40b941c3868a809c774348bd571816d176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:04 +0000
Subject: [PATCH 57/58] fix: unpack the result of a method called through a
 pvAccess proxy

A method that returns a bare value has it wrapped in a structure to be sent
by pvAccess. The client passed that structure on as the result.
---
 .../modules/pva/controllers/pvaclientcomms.py | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/malcolm/modules/pva/controllers/pvaclientcomms.py b/malcolm/modules/pva/controllers/pvaclientcomms.py
index bb5a447..f8e9de6 100644
--- a/malcolm/modules/pva/controllers/pvaclientcomms.py
+++ b/malcolm/modules/pva/controllers/pvaclientcomms.py
@@ -5,7 +5,15 @@ from p4p.client.cothread import Context, Subscription
 from p4p.client.raw import Disconnected, RemoteError
 from p4p.nt import NTURI
 
-from malcolm.core import DEFAULT_TIMEOUT, Alarm, BlockMeta, BlockModel, Model, Queue
+from malcolm.core import (
+    DEFAULT_TIMEOUT,
+    Alarm,
+    BlockMeta,
+    BlockModel,
+    Model,
+    Queue,
+    method_return_unpacked,
+)
 from malcolm.modules import builtin
 
 from .pvaconvert import Type, convert_to_type_tuple_value, convert_value_to_dict
@@ -17,11 +25,14 @@ class PvaClientComms(builtin.controllers.ClientComms):
     _monitors = None
     _ctxt = None
     _queues: Dict[str, Queue] = {}
+    # {mri: block} that we keep in sync
+    _proxies: Dict[str, BlockModel] = {}
 
     def do_init(self):
         super().do_init()
         self._ctxt = Context("pva", unwrap=False)
         self._queues: Dict[str, Queue] = {}
+        self._proxies: Dict[str, BlockModel] = {}
         self._monitors: Set[Subscription] = set()
 
     def do_disable(self):
@@ -57,6 +68,7 @@ class PvaClientComms(builtin.controllers.ClientComms):
         """
         done_queue = Queue()
         self._queues[mri] = done_queue
+        self._proxies[mri] = block
         update_fields = set()
 
         def callback(value=None):
@@ -163,4 +175,9 @@ class PvaClientComms(builtin.controllers.ClientComms):
 
         uri = uri.wrap(path=f"{mri}.{method_name}", kws=parameters, scheme="pva")
         value = self._ctxt.rpc(mri, uri, timeout=None)
-        return convert_value_to_dict(value)
+        ret = convert_value_to_dict(value)
+        method = self._proxies[mri][method_name]
+        if method_return_unpacked() in method.meta.tags:
+            # The server had to wrap this in a structure to send it
+            ret = ret["return"]
+        return ret
-- 
2.43.0


From 3da3ce721f9a9b7218783c905d9d89011a1ac592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:54 +0000
Subject: [PATCH 58/58] fix: keep the labels of a pvAccess table in step with
 its columns

The labels of an NTTable were only filled in when a client connected, so they
kept the old label of a column when it changed.
---
 malcolm/modules/pva/controllers/pvaconvert.py | 34 ++++++++++++-------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/malcolm/modules/pva/controllers/pvaconvert.py b/malcolm/modules/pva/controllers/pvaconvert.py
index 74a9587..fbd6282 100644
--- a/malcolm/modules/pva/controllers/pvaconvert.py
+++ b/malcolm/modules/pva/controllers/pvaconvert.py
@@ -34,6 +34,18 @@ specifier_types = {v: k for k, v in type_specifiers.items()}
 type_specifiers.update({bool: "?", int: "l", float: "d"})
 
 
+def table_labels(value: Any) -> List[str]:
+    labels = []
+    elements = value["meta"]["elements"]
+    for column_name in elements:
+        column_meta = elements[column_name]
+        if column_meta["label"]:
+            labels.append(column_meta["label"])
+        else:
+            labels.append(column_name)
+    return labels
+
+
 def convert_to_type_tuple_value(value: Any) -> Tuple[Any, Any]:
     # cheaper than a subclass check
     value_for_set: Any
@@ -67,16 +79,8 @@ def convert_to_type_tuple_value(value: Any) -> Tuple[Any, Any]:
         # Special case NTTable labels
         if typeid == NTTable.typeid:
             # Add labels for compatibility with epics normative types
-            labels = []
-            elements = value["meta"]["elements"]
-            for column_name in elements:
-                column_meta = elements[column_name]
-                if column_meta["label"]:
-                    labels.append(column_meta["label"])
-                else:
-                    labels.append(column_name)
             fields.append(("labels", "as"))
-            value_for_set["labels"] = labels
+            value_for_set["labels"] = table_labels(value)
         for k in value:
             if k != "typeid":
                 t, v_set = convert_to_type_tuple_value(value[k])
@@ -144,7 +148,13 @@ def convert_value_to_dict(v: Value) -> Dict:
 
 
 def update_path(value: Value, path: List[str], update: Any) -> None:
-    for p in path[:-1]:
-        value = value[p]
+    table = None
+    for p in path:
+        if p == "meta" and value.getID() == NTTable.typeid:
+            table = value
+        parent, value = value, value[p]
     _, update = convert_to_type_tuple_value(update)
-    value[path[-1]] = update
+    parent[path[-1]] = update
+    if table is not None:
+        # The labels of the columns might have changed
+        table["labels"] = table_labels(table)
-- 
2.43.0

