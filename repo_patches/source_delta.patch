From 6fc5fc8a938b9280425d1a69275959adffa4fd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:14 +0000
Subject: [PATCH 01/48] fix: iterate over every request of a RequestHandler,
 including the last

---
 celest/schedule/request_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 0c81693..af8a71c 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -46,7 +46,7 @@ class RequestHandler:
     def __next__(self):
         current_index = self.iteration_index
         self.iteration_index += 1
-        if self.iteration_index < self.number_of_requests:
+        if current_index < self.number_of_requests:
             return self.requests[current_index]
         raise StopIteration
 
-- 
2.43.0


From c26aa9aca41c187c4dafe63a6f8a893535430de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:14 +0000
Subject: [PATCH 02/48] fix: let random removal pick the last request too

---
 celest/schedule/removal_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/schedule/removal_operators.py b/celest/schedule/removal_operators.py
index ad22f1c..e3fde32 100644
--- a/celest/schedule/removal_operators.py
+++ b/celest/schedule/removal_operators.py
@@ -21,7 +21,7 @@ def random_removal(request_handler, number_to_remove):
         request_handler.unschedule_all_requests()
         return request_handler
 
-    unchecked_indices = [i for i in range(0, len(request_handler) - 1)]
+    unchecked_indices = [i for i in range(len(request_handler))]
     while number_to_remove > 0:
         request_index = random.choice(unchecked_indices)
         if request_handler.is_request_scheduled(request_index):
-- 
2.43.0


From fb2324a0f313dd61d109628142291dfe6f36a723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:14 +0000
Subject: [PATCH 03/48] fix: count scheduled requests correctly on repeated
 (un)scheduling

---
 celest/schedule/request_handler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index af8a71c..db22a1d 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -67,11 +67,12 @@ class RequestHandler:
         ])
 
     def schedule_request(self, request_index, vtw_index, start, duration):
+        if not self.requests[request_index][RequestIndices.is_scheduled]:
+            self.number_of_scheduled_requests += 1
         self.requests[request_index][RequestIndices.is_scheduled] = True
         self.requests[request_index][RequestIndices.vtw_index] = vtw_index
         self.requests[request_index][RequestIndices.scheduled_start_time] = start
         self.requests[request_index][RequestIndices.scheduled_duration] = duration
-        self.number_of_scheduled_requests += 1
 
     def unschedule_all_requests(self):
         for index in range(self.number_of_requests):
@@ -79,11 +80,12 @@ class RequestHandler:
         self.number_of_scheduled_requests = 0
 
     def unschedule_request(self, request_index):
+        if self.requests[request_index][RequestIndices.is_scheduled]:
+            self.number_of_scheduled_requests -= 1
         self.requests[request_index][RequestIndices.is_scheduled] = False
         self.requests[request_index][RequestIndices.vtw_index] = None
         self.requests[request_index][RequestIndices.scheduled_start_time] = None
         self.requests[request_index][RequestIndices.scheduled_duration] = None
-        self.number_of_scheduled_requests -= 1
 
     def is_request_scheduled(self, request_index):
         return self.requests[request_index][RequestIndices.is_scheduled]
-- 
2.43.0


From a896b86a13f998051af6411f179638410b080ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:53 +0000
Subject: [PATCH 04/48] fix: make iterations over a RequestHandler independent
 of each other

---
 celest/schedule/request_handler.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index db22a1d..11ed610 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -40,15 +40,7 @@ class RequestHandler:
         return self.requests[index]
 
     def __iter__(self):
-        self.iteration_index = 0
-        return self
-
-    def __next__(self):
-        current_index = self.iteration_index
-        self.iteration_index += 1
-        if current_index < self.number_of_requests:
-            return self.requests[current_index]
-        raise StopIteration
+        return iter(self.requests)
 
     def add_request(self, location, deadline, duration, priority, quality, look_ang, vtws):
         self.number_of_requests += 1
-- 
2.43.0


From 5c44994a372f74c34a87085f69913d7d567309fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:53 +0000
Subject: [PATCH 05/48] fix: compute the overlap of two visible time windows
 symmetrically

---
 celest/schedule/request_handler.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 11ed610..371b02a 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -166,14 +166,8 @@ class RequestHandler:
 
         if (e1 < s2) | (e2 < s1):
             return 0
-        elif (s1 < s2) & (e2 < e1):
-            return e2 - s2
-        elif (s2 < s1) & (e1 < e2):
-            return e1 - s1
-        elif s2 < e1:
-            return e1 - s2
-        elif s1 < e2:
-            return e2 - s1
+
+        return min(e1, e2) - max(s1, s2)
 
     def sort_vtws_by_increasing_conflict_degree(self):
         for request_index in range(self.number_of_requests):
-- 
2.43.0


From 5666b55b2d0f908c12fed164552e8218b14cb1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:53 +0000
Subject: [PATCH 06/48] fix: sort by conflict degree with scheduled and
 unscheduled requests

---
 celest/schedule/request_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 371b02a..3f029ec 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -1,5 +1,7 @@
 
 
+from celest.units.quantity import Quantity
+from celest import units as u
 from enum import IntEnum
 
 
@@ -130,7 +132,7 @@ class RequestHandler:
                 vtw = request[RequestIndices.vtw_list][vtw_index]
                 conflict_degree.append(self._conflict_degree(vtw))
             else:
-                conflict_degree.append(0)
+                conflict_degree.append(Quantity(0, u.jd2000))
 
             conflict_degree_index.append(request_index)
 
-- 
2.43.0


From 424fd6e4dd4afbf8286d8488ab886cd3aedfe01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:53 +0000
Subject: [PATCH 07/48] fix: keep scheduled requests on their window when
 windows are sorted

---
 celest/schedule/request_handler.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/celest/schedule/request_handler.py b/celest/schedule/request_handler.py
index 3f029ec..6987e42 100644
--- a/celest/schedule/request_handler.py
+++ b/celest/schedule/request_handler.py
@@ -180,12 +180,21 @@ class RequestHandler:
                 conflict_degree.append(self._conflict_degree(vtw))
                 vtw_indices.append(vtw_index)
 
-            self.requests[request_index][RequestIndices.vtw_list] = \
-                [vtw for _, vtw in sorted(zip(conflict_degree, vtw_list))]
+            vtw_indices.sort(key=lambda index: conflict_degree[index])
+            self._reorder_vtws(self.requests[request_index], vtw_indices)
 
     def sort_vtws_by_increasing_rise_time(self):
         for request in self.requests:
-            request[RequestIndices.vtw_list] = sorted(
-                request[RequestIndices.vtw_list],
-                key=lambda x: x.rise_time.data
+            vtw_list = request[RequestIndices.vtw_list]
+            vtw_indices = sorted(
+                range(len(vtw_list)),
+                key=lambda index: vtw_list[index].rise_time.data
             )
+            self._reorder_vtws(request, vtw_indices)
+
+    def _reorder_vtws(self, request, vtw_indices):
+        vtw_list = request[RequestIndices.vtw_list]
+        request[RequestIndices.vtw_list] = [vtw_list[i] for i in vtw_indices]
+        if request[RequestIndices.is_scheduled]:
+            request[RequestIndices.vtw_index] = vtw_indices.index(
+                request[RequestIndices.vtw_index])
-- 
2.43.0


From 920cebe4deeb2769e9d2f4f74efb24753753d597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:53 +0000
Subject: [PATCH 08/48] fix: pass the requested look angle to the scheduler as
 a quantity

---
 celest/schedule/scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/schedule/scheduler.py b/celest/schedule/scheduler.py
index f2168c7..2d2a385 100644
--- a/celest/schedule/scheduler.py
+++ b/celest/schedule/scheduler.py
@@ -113,7 +113,7 @@ class Scheduler(ALNS):
             Quantity(duration, u.s),
             priority,
             quality,
-            look_ang,
+            Quantity(look_ang, u.deg) if look_ang is not None else None,
             vtws
         )
 
-- 
2.43.0


From 1744f12b79895180a34cc8ff4411a43bc994fb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:53 +0000
Subject: [PATCH 09/48] fix: attach the attitude at the scheduled start to
 observation windows

---
 celest/schedule/scheduler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/celest/schedule/scheduler.py b/celest/schedule/scheduler.py
index 2d2a385..76385f3 100644
--- a/celest/schedule/scheduler.py
+++ b/celest/schedule/scheduler.py
@@ -175,10 +175,10 @@ class Scheduler(ALNS):
 
                 idx = request[RequestIndices.vtw_index]
                 attitude = request[RequestIndices.vtw_list][idx].attitude
-                attitude_idx = np.where(
-                    attitude.time.to(u.jd2000).data ==
-                    request[RequestIndices.scheduled_start_time]
-                )[0]
+                start = request[RequestIndices.scheduled_start_time].to(u.jd2000)
+                attitude_idx = [
+                    np.argmin(np.abs(attitude.time.to(u.jd2000) - start))
+                ]
                 time = attitude.time.data[attitude_idx]
                 roll = attitude.roll.data[attitude_idx]
                 pitch = attitude.pitch.data[attitude_idx]
-- 
2.43.0


From 6aca852e937fbcb707c6743bd1162a6099dab46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:58 +0000
Subject: [PATCH 10/48] fix: accept solutions when the temperature or the cost
 is zero

---
 celest/schedule/alns.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/celest/schedule/alns.py b/celest/schedule/alns.py
index 0a25bfa..33a3d5c 100644
--- a/celest/schedule/alns.py
+++ b/celest/schedule/alns.py
@@ -246,11 +246,13 @@ class ALNS:
         current_cost = self.cost_function(current_solution)
         temporary_cost = self.cost_function(temporary_solution)
 
-        if temporary_cost < current_cost:
+        if temporary_cost <= current_cost:
             return True
+        elif T * current_cost == 0:
+            return False
         else:
-            probability = math.exp(100 * (temporary_cost - current_cost) /
-                                   (T * current_cost))
+            probability = math.exp(-100 * (temporary_cost - current_cost) /
+                                   abs(T * current_cost))
             return False if random.random() > probability else True
 
     def _update_destroy_weights(self, l: float, score: int,
-- 
2.43.0


From d9d3c2fabee6c7937a0bc247ff815a755ff5530f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:58 +0000
Subject: [PATCH 11/48] fix: select operators uniformly when all their weights
 are zero

---
 celest/schedule/alns.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/celest/schedule/alns.py b/celest/schedule/alns.py
index 33a3d5c..bb92fb5 100644
--- a/celest/schedule/alns.py
+++ b/celest/schedule/alns.py
@@ -177,6 +177,9 @@ class ALNS:
             list of probabilities.
         """
 
+        if not sum(weights):
+            return [1 / len(weights)] * len(weights)
+
         return [weight / sum(weights) for weight in weights]
 
     def _get_repair_index(self) -> int:
-- 
2.43.0


From c4d626cd8786b3a78a725739643cd4ce83713860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:58 +0000
Subject: [PATCH 12/48] fix: award the better score to solutions improving on
 the current one

---
 celest/schedule/alns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/schedule/alns.py b/celest/schedule/alns.py
index bb92fb5..0fad178 100644
--- a/celest/schedule/alns.py
+++ b/celest/schedule/alns.py
@@ -130,11 +130,11 @@ class ALNS:
             score = _REJECT_SCORE
 
             if self._accept(temporary_solution, current_solution, temperature):
-                current_solution = copy.deepcopy(temporary_solution)
-                if self.cost_function(temporary_solution) > self.cost_function(current_solution):
+                if self.cost_function(temporary_solution) < self.cost_function(current_solution):
                     score = _BETTER_SCORE
                 else:
                     score = _ACCEPT_SCORE
+                current_solution = copy.deepcopy(temporary_solution)
 
             if self.cost_function(temporary_solution) < self.cost_function(best_solution):
                 best_solution = copy.deepcopy(temporary_solution)
-- 
2.43.0


From c08d63dd5495d682121d8b8e4c45a01f76541b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:58 +0000
Subject: [PATCH 13/48] fix: start a window that is open at the first sample at
 that sample

---
 celest/encounter/window_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/encounter/window_generator.py b/celest/encounter/window_generator.py
index b1d5ae4..af332ae 100644
--- a/celest/encounter/window_generator.py
+++ b/celest/encounter/window_generator.py
@@ -87,7 +87,7 @@ def generate_vtws(satellite: Satellite, location: GroundLocation,
 
     windows = WindowCollection()
     for window_index_set in window_indices:
-        rise_time = julian[window_index_set[0] - 1]
+        rise_time = julian[max(window_index_set[0] - 1, 0)]
         set_time = julian[window_index_set[-1]]
         windows.add_window(VisibleTimeWindow(rise_time, set_time, attitude))
 
-- 
2.43.0


From eb1579c458068ae7028e0f72cfbdb4c51e804b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:58 +0000
Subject: [PATCH 14/48] fix: return no windows when the satellite is never
 visible

---
 celest/encounter/window_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/celest/encounter/window_generator.py b/celest/encounter/window_generator.py
index af332ae..050190a 100644
--- a/celest/encounter/window_generator.py
+++ b/celest/encounter/window_generator.py
@@ -79,6 +79,9 @@ def generate_vtws(satellite: Satellite, location: GroundLocation,
     lighting_indices = _lighting_constraint_indices(julian, location, lighting)
     window_indices = np.intersect1d(window_indices, lighting_indices)
 
+    if not window_indices.size:
+        return WindowCollection()
+
     window_indices = np.split(window_indices,
                               np.where(np.diff(window_indices) != 1)[0] + 1)
     window_indices = np.array(window_indices, dtype=object)
-- 
2.43.0


From a81e3c1c1a4799ca428aaf7e22259d3e062981e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:58 +0000
Subject: [PATCH 15/48] fix: make iterations over a WindowCollection
 independent of each other

---
 celest/encounter/window_handling.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/celest/encounter/window_handling.py b/celest/encounter/window_handling.py
index 06fc51c..2d8f043 100644
--- a/celest/encounter/window_handling.py
+++ b/celest/encounter/window_handling.py
@@ -5,7 +5,7 @@ from celest.coordinates.ground_location import GroundLocation
 from celest.file_save import TextFileWriter
 from celest.units.quantity import Quantity
 from celest import units as u
-from typing import Union
+from typing import Iterator, Union
 import numpy as np
 
 
@@ -150,7 +150,6 @@ class WindowCollection:
 
     def __init__(self) -> None:
         self._window_data = []
-        self._current_window_index = 0
 
     def __str__(self) -> str:
         return str(self._window_data)
@@ -162,16 +161,8 @@ class WindowCollection:
     def __len__(self) -> int:
         return len(self._window_data)
 
-    def __iter__(self) -> Union[VisibleTimeWindow, ObservationWindow]:
-        return self
-
-    def __next__(self) -> Union[VisibleTimeWindow, ObservationWindow]:
-        if self._current_window_index < len(self._window_data):
-            self._current_window_index += 1
-            return self._window_data[self._current_window_index - 1]
-        else:
-            self._current_window_index = 0
-            raise StopIteration
+    def __iter__(self) -> Iterator[Union[VisibleTimeWindow, ObservationWindow]]:
+        return iter(self._window_data)
 
     def __getitem__(self, key) -> Union[list, VisibleTimeWindow,
                                         ObservationWindow]:
-- 
2.43.0


From a0d6aa851da2c3f80f2b535d90ac4f0f075a5d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:43 +0000
Subject: [PATCH 16/48] fix: raise repeated bases of a nested unit to the outer
 power

---
 celest/units/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/units/core.py b/celest/units/core.py
index 586e3f0..205c62d 100644
--- a/celest/units/core.py
+++ b/celest/units/core.py
@@ -278,7 +278,7 @@ class CompoundUnit(BaseUnit):
                         else:
                             handle_repeated_units(b, p * power)
                     else:
-                        handle_repeated_units(b, p)
+                        handle_repeated_units(b, p * power)
             elif base not in bases:
                 bases.append(base)
                 powers.append(power)
-- 
2.43.0


From 8b58499de75bc3f7e121f831812e2901d868c934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:44 +0000
Subject: [PATCH 17/48] fix: give compound units one consistent scale

---
 celest/units/core.py     | 9 +++++++--
 celest/units/quantity.py | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/celest/units/core.py b/celest/units/core.py
index 205c62d..a8c178a 100644
--- a/celest/units/core.py
+++ b/celest/units/core.py
@@ -169,6 +169,9 @@ class Unit(NamedUnit, BaseUnit):
             self._scale = base_units.scale
             self._bases = base_units.bases
             self._powers = base_units.powers
+            if isinstance(base_units, CompoundUnit):
+                for base, power in zip(self._bases, self._powers):
+                    self._scale *= base.scale ** power
         else:
             self._scale = 1.0
             self._bases = [self]
@@ -222,12 +225,12 @@ class CompoundUnit(BaseUnit):
         base = bases[0]
         power = powers[0]
         if not isinstance(base, CompoundUnit) and len(bases) == 1 and power >= 0:
+            self._scale = scale
             if power == 0:
-                self._scale = scale * base.scale
                 self._bases = []
                 self._powers = []
+                self._is_unity = True
             else:
-                self._scale = scale * base.scale ** power
                 self._bases = bases
                 self._powers = powers
         else:
@@ -270,6 +273,8 @@ class CompoundUnit(BaseUnit):
 
         for base, power in zip(self._bases, self._powers):
             if isinstance(base, CompoundUnit):
+                if base.scale != 1:
+                    self._scale *= base.scale ** power
                 for b, p in zip(base.bases, base.powers):
                     if b not in bases:
                         if b not in bases:
diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index 942c33a..27a6407 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -280,7 +280,7 @@ class Quantity:
 
         def _get_unit_scale(unit):
             if isinstance(unit, CompoundUnit):
-                scale = 1.0
+                scale = unit.scale
                 for base, power in zip(unit.bases, unit.powers):
                     scale *= base.scale ** power
                 return scale
-- 
2.43.0


From 80572d2b68d15fc9c9fe171674822b6b516687b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:44 +0000
Subject: [PATCH 18/48] fix: keep the scale of a dimensionless factor in
 products of units

---
 celest/units/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/celest/units/core.py b/celest/units/core.py
index a8c178a..f6badcc 100644
--- a/celest/units/core.py
+++ b/celest/units/core.py
@@ -62,9 +62,9 @@ class BaseUnit:
 
     def __mul__(self, other):
         if isinstance(other, BaseUnit):
-            if other.is_unity():
+            if other.is_unity() and other.scale == 1:
                 return self
-            elif self.is_unity():
+            elif self.is_unity() and self.scale == 1:
                 return other
             return CompoundUnit(1.0, [self, other], [1, 1])
         elif isinstance(other, (float, int)):
@@ -72,9 +72,9 @@ class BaseUnit:
 
     def __rmul__(self, other):
         if isinstance(other, BaseUnit):
-            if other.is_unity():
+            if other.is_unity() and other.scale == 1:
                 return self
-            elif self.is_unity():
+            elif self.is_unity() and self.scale == 1:
                 return other
             return CompoundUnit(1.0, [other, self], [1, 1])
         elif isinstance(other, (float, int)):
-- 
2.43.0


From 8724676755221d2cc2934271debc45535250d878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:44 +0000
Subject: [PATCH 19/48] fix: support units in which a dimension cancels

---
 celest/units/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/units/display.py b/celest/units/display.py
index c08645f..2872a03 100644
--- a/celest/units/display.py
+++ b/celest/units/display.py
@@ -90,7 +90,7 @@ def get_dimensions_from_unit(unit):
             new_power = dimension_powers[dimension_index] + power
             if new_power == 0:
                 dimensions.pop(dimension_index)
-                new_power.pop(dimension_index)
+                dimension_powers.pop(dimension_index)
             else:
                 dimension_powers[dimension_index] = new_power
         else:
-- 
2.43.0


From 5214a0202191c5dd9de734bcbc2c659444d63cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:44 +0000
Subject: [PATCH 20/48] fix: make the dimension of a unit independent of its
 factors' order

---
 celest/units/display.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/celest/units/display.py b/celest/units/display.py
index 2872a03..2b67399 100644
--- a/celest/units/display.py
+++ b/celest/units/display.py
@@ -64,7 +64,7 @@ def get_dimension_string(unit):
     dimensions, powers = get_dimensions_from_unit(unit)
 
     for dimension, power in zip(dimensions, powers):
-        unit_string = dimension + ("" if abs(power) == 1 else str(abs(power)))
+        unit_string = dimension + ("" if abs(power) == 1 else f"{abs(power):g}")
         if power > 0:
             numerator_strings.append(unit_string)
         else:
@@ -97,4 +97,10 @@ def get_dimensions_from_unit(unit):
             dimensions.append(dimension)
             dimension_powers.append(power)
 
+    order = list(UNIT_TO_DIMENSION_DICTIONARY.values())
+    ordered_pairs = sorted(zip(dimensions, dimension_powers),
+                           key=lambda pair: order.index(pair[0]))
+    dimensions = [dimension for dimension, _ in ordered_pairs]
+    dimension_powers = [power for _, power in ordered_pairs]
+
     return dimensions, dimension_powers
-- 
2.43.0


From 1c444560ab0e593213c80cb46aa419e21cd574ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:44 +0000
Subject: [PATCH 21/48] fix: compare quantities elementwise and only with
 quantities

---
 celest/units/quantity.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index 27a6407..227ae75 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -181,7 +181,13 @@ class Quantity:
             return NotImplemented
 
     def __ne__(self, other):
-        return not self.__eq__(other)
+        if isinstance(other, Quantity):
+            if self._unit.dimension != other._unit.dimension:
+                raise ArithmeticError(
+                    "Unit dimensions must match for comparison.")
+            return self._data != other.to(self._unit)
+        else:
+            return NotImplemented
 
     def __lt__(self, other):
         if isinstance(other, Quantity):
@@ -193,7 +199,13 @@ class Quantity:
             return NotImplemented
 
     def __le__(self, other):
-        return self.__eq__(other) or self.__lt__(other)
+        if isinstance(other, Quantity):
+            if self._unit.dimension != other._unit.dimension:
+                raise ArithmeticError(
+                    "Unit dimensions must match for comparison.")
+            return self._data <= other.to(self._unit)
+        else:
+            return NotImplemented
 
     def __gt__(self, other):
         if isinstance(other, Quantity):
@@ -205,7 +217,13 @@ class Quantity:
             return NotImplemented
 
     def __ge__(self, other):
-        return self.__eq__(other) or self.__gt__(other)
+        if isinstance(other, Quantity):
+            if self._unit.dimension != other._unit.dimension:
+                raise ArithmeticError(
+                    "Unit dimensions must match for comparison.")
+            return self._data >= other.to(self._unit)
+        else:
+            return NotImplemented
 
     @property
     def data(self) -> Any:
-- 
2.43.0


From 92f40139dcb1cfaddd8176dccef9c81523105c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:44 +0000
Subject: [PATCH 22/48] fix: convert quantities holding integer arrays

---
 celest/units/quantity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index 227ae75..1461314 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -308,8 +308,8 @@ class Quantity:
         quantity_copy = deepcopy(self)
 
         if repr(quantity_copy._unit) != repr(new_unit):
-            quantity_copy._data *= _get_unit_scale(
-                quantity_copy.unit) / _get_unit_scale(new_unit)
+            quantity_copy._data = quantity_copy._data * (_get_unit_scale(
+                quantity_copy.unit) / _get_unit_scale(new_unit))
             quantity_copy._unit = new_unit
 
         return quantity_copy
-- 
2.43.0


From 3de48a57869cc6f9c2b6621e0bf9d7d47ecc8992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:13 +0000
Subject: [PATCH 23/48] fix: make the zeroth power of a compound unit unity

---
 celest/units/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/celest/units/core.py b/celest/units/core.py
index f6badcc..d3195ea 100644
--- a/celest/units/core.py
+++ b/celest/units/core.py
@@ -272,6 +272,8 @@ class CompoundUnit(BaseUnit):
                 powers[index] = new_power
 
         for base, power in zip(self._bases, self._powers):
+            if power == 0:
+                continue
             if isinstance(base, CompoundUnit):
                 if base.scale != 1:
                     self._scale *= base.scale ** power
-- 
2.43.0


From 175bc95f6b91556201617a038df61a77f2938953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:13 +0000
Subject: [PATCH 24/48] fix: give converted quantities the requested unit
 itself

---
 celest/units/quantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index 1461314..7d47dd8 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -310,6 +310,6 @@ class Quantity:
         if repr(quantity_copy._unit) != repr(new_unit):
             quantity_copy._data = quantity_copy._data * (_get_unit_scale(
                 quantity_copy.unit) / _get_unit_scale(new_unit))
-            quantity_copy._unit = new_unit
+        quantity_copy._unit = new_unit
 
         return quantity_copy
-- 
2.43.0


From ae06588a104f41347d07ea671e53c3bb9d8db5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:13 +0000
Subject: [PATCH 25/48] fix: convert arrays mixing Julian and Gregorian
 calendar dates

---
 celest/coordinates/astronomical_quantities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/coordinates/astronomical_quantities.py b/celest/coordinates/astronomical_quantities.py
index a6ac344..24ccdcc 100644
--- a/celest/coordinates/astronomical_quantities.py
+++ b/celest/coordinates/astronomical_quantities.py
@@ -404,7 +404,7 @@ def from_julian(julian: Quantity) -> Tuple:
 
     ind = np.where(a >= 2291161)[0]
     alpha = ((a[ind] - 1867216.25) / DAYS_IN_JULIAN_CENTURY).astype(int)
-    a[ind] = a + 1 + alpha - (alpha / 4).astype(int)
+    a[ind] = a[ind] + 1 + alpha - (alpha / 4).astype(int)
 
     b = a + 1524
     c = ((b - 122.1) / DAYS_PER_YEAR).astype(int)
-- 
2.43.0


From 9f6831643fa1ab0f0bb450fb22d2ede8f1770b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:32 +0000
Subject: [PATCH 26/48] fix: apply the Gregorian calendar from 15 October 1582
 with its century rule

---
 celest/coordinates/astronomical_quantities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/coordinates/astronomical_quantities.py b/celest/coordinates/astronomical_quantities.py
index 24ccdcc..2161119 100644
--- a/celest/coordinates/astronomical_quantities.py
+++ b/celest/coordinates/astronomical_quantities.py
@@ -402,8 +402,8 @@ def from_julian(julian: Quantity) -> Tuple:
         jd = np.array(julian.to(u.jd2000)) + 0.5
     a, f = jd.astype(int), jd % 1
 
-    ind = np.where(a >= 2291161)[0]
-    alpha = ((a[ind] - 1867216.25) / DAYS_IN_JULIAN_CENTURY).astype(int)
+    ind = np.where(a >= 2299161)[0]
+    alpha = ((a[ind] - 1867216.25) / 36524.25).astype(int)
     a[ind] = a[ind] + 1 + alpha - (alpha / 4).astype(int)
 
     b = a + 1524
-- 
2.43.0


From 280f304609686c9812d0efc51b0a56c54288059b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:32 +0000
Subject: [PATCH 27/48] fix: count days of the year with the Gregorian leap
 year rule

---
 celest/coordinates/astronomical_quantities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/celest/coordinates/astronomical_quantities.py b/celest/coordinates/astronomical_quantities.py
index 2161119..7fa6ef8 100644
--- a/celest/coordinates/astronomical_quantities.py
+++ b/celest/coordinates/astronomical_quantities.py
@@ -461,7 +461,8 @@ def day_of_year(julian: Quantity) -> np.ndarray:
     year, month, day = from_julian(julian)
 
     K = np.full(day.shape, 2)
-    K[np.where(year % 4 == 0)] = 1
+    is_leap = (year % 4 == 0) & ((year < 1582) | (year % 100 != 0) | (year % 400 == 0))
+    K[np.where(is_leap)] = 1
 
     N = (275 * month / 9).astype(int)
     N = N - K * ((month + 9) / 12).astype(int) + day - 30
-- 
2.43.0


From 0aee9a6608ee7ea5e862da61ef5e2fdecf67e299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:20 +0000
Subject: [PATCH 28/48] fix: keep Greenwich Apparent Sidereal Time within a day

---
 celest/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/time.py b/celest/time.py
index 5ebabed..45e58e4 100644
--- a/celest/time.py
+++ b/celest/time.py
@@ -480,7 +480,7 @@ class Time:
         gmst = self.gmst().to(u.hourangle)
         eqn_of_equinoxes = equation_of_equinoxes(self.julian).to(u.deg)
 
-        return Quantity(gmst + eqn_of_equinoxes, u.hourangle)
+        return Quantity((gmst + eqn_of_equinoxes) % 24, u.hourangle)
 
     def last(self, longitude: np.ndarray) -> Quantity:
         """Return Local Apparent Sidereal Time.
-- 
2.43.0


From b608fd1e6de8e891298ce6aeae0b51017073156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:20 +0000
Subject: [PATCH 29/48] fix: base local sidereal times on the mean Sun instead
 of the true Sun

---
 celest/time.py | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/celest/time.py b/celest/time.py
index 45e58e4..ee70cef 100644
--- a/celest/time.py
+++ b/celest/time.py
@@ -8,7 +8,6 @@ from celest.coordinates.astronomical_quantities import (
     equation_of_time,
     from_julian,
     _calculate_raw_elapsed_jd_century_powers,
-    sun_right_ascension,
     equation_of_equinoxes
 )
 from celest.units.quantity import Quantity
@@ -427,11 +426,9 @@ class Time:
         The Local Mean Sidereal Time can be calculated using the following
         formulation:
 
-        .. math:: LMST^h = h^h_{mSun} + \\alpha^h_{mSun}
+        .. math:: LMST^h = GMST^h + \\phi^\circ / 15
 
-        where :math:`h^h_{mSun}` is the mean solar hour angle at the observer's
-        longitude and :math:`\\alpha^h_{mSun}` is the right ascension of the
-        mean Sun position. [SL13e]_
+        where :math:`\\phi` is the observer's longitude. [SL13e]_
 
         References
         ----------
@@ -442,13 +439,12 @@ class Time:
         --------
         >>> julian = [2455368.75, 2459450.85, 2456293.5416666665]
         >>> Time(julian=julian).lmst(longitude=150)
-        Quantity(np.array([9.98419514, 16.62892539, 17.78123885]), Unit("hourangle"))
+        Quantity(np.array([9.955316, 16.589391, 17.723214]), Unit("hourangle"))
         """
 
-        hour_angle = self.mean_hour_angle(longitude).to(u.hourangle)
-        right_ascension = sun_right_ascension(self.julian).to(u.hourangle)
+        gmst = self.gmst().to(u.hourangle)
 
-        return Quantity((hour_angle + right_ascension) % 24, u.hourangle)
+        return Quantity((gmst + np.array(longitude) / 15) % 24, u.hourangle)
 
     def gast(self) -> Quantity:
         """Return Greenwich Apparent Sidereal Time.
@@ -511,16 +507,11 @@ class Time:
         --------
         >>> julian = [2455368.75, 2459450.85, 2456293.5416666665]
         >>> Time(julian=julian).last(longitude=150)
-        np.array([9.98447567,
-                  16.6286799,
-                  17.78148932])
+        np.array([9.955596,
+                  16.589146,
+                  17.723465])
         """
 
-        ut1 = self.ut1().to(u.hourangle)
-        right_ascension_of_sun = sun_right_ascension(self.julian).to(u.hourangle)
-        eqn_of_equinoxes = equation_of_equinoxes(self.julian).to(u.deg)
-
-        last = ut1 - 12 + right_ascension_of_sun + eqn_of_equinoxes +\
-            np.array(longitude) / 15
+        gast = self.gast().to(u.hourangle)
 
-        return Quantity(last % 24, u.hourangle)
+        return Quantity((gast + np.array(longitude) / 15) % 24, u.hourangle)
-- 
2.43.0


From a172ee489179c8f77f57b13483303c0cc8856eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:38 +0000
Subject: [PATCH 30/48] fix: size text file columns by their widest formatted
 entry

---
 celest/file_save.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/celest/file_save.py b/celest/file_save.py
index 3032a6b..e401c1d 100644
--- a/celest/file_save.py
+++ b/celest/file_save.py
@@ -211,15 +211,8 @@ def _get_column_information(label: str, value: Any, value_format:
 
 
 def _get_maximum_value_width(value: Any, value_format: str) -> int:
-    if isinstance(value, Quantity):
-        return len(value_format % np.max(value.data))
-    elif isinstance(value, np.ndarray):
-        if isinstance(value.dtype, (int, float)):
-            return len(value_format % np.max(value))
-        else:
-            return len(max(value.astype(str), key=len))
-    else:
-        return NotImplemented
+    entries = _get_and_reshape_column_data(value)[:, 0]
+    return max(len(_get_data_entry_string(i, 0, value_format)) for i in entries)
 
 
 def _get_and_reshape_column_data(value: Any) -> np.ndarray:
-- 
2.43.0


From 4864abe96e17601057f65dadadd21355f81cc8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:38 +0000
Subject: [PATCH 31/48] fix: apply the data format to every numeric text file
 column

---
 celest/file_save.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/celest/file_save.py b/celest/file_save.py
index e401c1d..1d878aa 100644
--- a/celest/file_save.py
+++ b/celest/file_save.py
@@ -217,9 +217,9 @@ def _get_maximum_value_width(value: Any, value_format: str) -> int:
 
 def _get_and_reshape_column_data(value: Any) -> np.ndarray:
     if isinstance(value, Quantity):
-        return value.data.reshape((-1, 1))
+        return value.data.reshape((-1, 1)).astype(object)
     else:
-        return value.reshape((-1, 1))
+        return value.reshape((-1, 1)).astype(object)
 
 
 def _write_column_data_to_file(file: IO, column_widths: list,
@@ -240,7 +240,7 @@ def _write_column_data_to_file(file: IO, column_widths: list,
 
 
 def _get_data_entry_string(value: Any, width: int, data_format: str) -> str:
-    if isinstance(value, (int, float)):
+    if isinstance(value, (int, float)) and not isinstance(value, bool):
         return (data_format % value).ljust(width)
     else:
         return str(value).ljust(width)
-- 
2.43.0


From 16c6f4fe247c5b27148d070a8cb34704d731a37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:20 +0000
Subject: [PATCH 32/48] fix: carry rounded seconds and minutes in sexagesimal
 strings

---
 celest/angle_strings.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/celest/angle_strings.py b/celest/angle_strings.py
index c0bb645..b31f608 100644
--- a/celest/angle_strings.py
+++ b/celest/angle_strings.py
@@ -55,9 +55,12 @@ def _get_sexagesimal_string(degree_angle: float) -> str:
         Sexagesimal representation string of `degree_angle`.
     """
 
-    degree_string = "%.3s" % str(int(degree_angle)).zfill(2)
-    minute_string = "%.2s" % str(int(degree_angle * 60 % 60)).zfill(2)
-    second_string = str("%.2f" % (degree_angle * 3600 % 60)).zfill(5)
+    minutes, seconds = divmod(round(degree_angle * 3600, 2), 60)
+    degrees, minutes = divmod(int(minutes), 60)
+
+    degree_string = "%.3s" % str(degrees).zfill(2)
+    minute_string = "%.2s" % str(minutes).zfill(2)
+    second_string = str("%.2f" % seconds).zfill(5)
 
     return degree_string + DEGREE_SYMBOL + minute_string + MINUTE_SYMBOL + \
         second_string + SECOND_SYMBOL
-- 
2.43.0


From af4cdfc26a7d7028c9cb7916938cabc5d6a5096f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:20 +0000
Subject: [PATCH 33/48] fix: reject coordinate arrays of different lengths

---
 celest/coordinates/frames/base_positions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/coordinates/frames/base_positions.py b/celest/coordinates/frames/base_positions.py
index 48fb461..e7c8eee 100644
--- a/celest/coordinates/frames/base_positions.py
+++ b/celest/coordinates/frames/base_positions.py
@@ -23,7 +23,7 @@ class Position2d:
 
         if time.ndim != 1 or x.ndim != 1 or y.ndim != 1:
             raise ValueError("Input arrays should be one dimensional.")
-        if time.size != x.size != y.size:
+        if not time.size == x.size == y.size:
             raise ValueError("Input arrays should have the same length.")
 
         self._x = Quantity(x, x_unit)
@@ -79,7 +79,7 @@ class Position3d:
 
         if time.ndim != 1 or x.ndim != 1 or y.ndim != 1 or z.ndim != 1:
             raise ValueError("Input arrays should be one dimensional.")
-        if time.size != x.size != y.size != z.size:
+        if not time.size == x.size == y.size == z.size:
             raise ValueError("Input arrays should have the same length.")
 
         self._x = Quantity(x, x_unit)
-- 
2.43.0


From 0619bb1ec6c635e52dcdbb388c043b4c2658ae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:20 +0000
Subject: [PATCH 34/48] fix: check ground location ranges in degrees

---
 celest/coordinates/ground_location.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/celest/coordinates/ground_location.py b/celest/coordinates/ground_location.py
index afa628c..65856ea 100644
--- a/celest/coordinates/ground_location.py
+++ b/celest/coordinates/ground_location.py
@@ -70,9 +70,12 @@ class GroundLocation:
             Unit of the `height` measure.
         """
 
-        if latitude < -90 or latitude > 90:
+        latitude_degrees = Quantity(latitude, angular_unit).to(u.deg)
+        longitude_degrees = Quantity(longitude, angular_unit).to(u.deg)
+
+        if latitude_degrees < -90 or latitude_degrees > 90:
             raise ValueError("Latitude must be between -90 and 90 degrees.")
-        if longitude < -180 or longitude > 180:
+        if longitude_degrees < -180 or longitude_degrees > 180:
             raise ValueError("Longitude must be between -180 and 180 degrees.")
 
         self._latitude = Quantity(latitude, angular_unit)
-- 
2.43.0


From 952b4445374bf6d89b641263089ede166ba344f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:20 +0000
Subject: [PATCH 35/48] fix: save satellites without velocity data to a text
 file

---
 celest/satellite.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/celest/satellite.py b/celest/satellite.py
index ed273e8..8b63c96 100644
--- a/celest/satellite.py
+++ b/celest/satellite.py
@@ -262,7 +262,6 @@ class Satellite:
         """
 
         gcrs_position = _itrs_to_gcrs(self.position)
-        gcrs_velocity = _itrs_to_gcrs(self.velocity)
 
         header = "Satellite Position and Velocity"
         data = [
@@ -270,16 +269,24 @@ class Satellite:
             ["Itrs X", self.position.x],
             ["Itrs Y", self.position.y],
             ["Itrs Z", self.position.z],
-            ["Itrs VX", self.velocity.x],
-            ["Itrs VY", self.velocity.y],
-            ["Itrs VZ", self.velocity.z],
             ["Gcrs X", gcrs_position.x],
             ["Gcrs Y", gcrs_position.y],
-            ["Gcrs Z", gcrs_position.z],
-            ["Gcrs VX", gcrs_velocity.x],
-            ["Gcrs VY", gcrs_velocity.y],
-            ["Gcrs VZ", gcrs_velocity.z]
+            ["Gcrs Z", gcrs_position.z]
         ]
+
+        if self.velocity is not None:
+            gcrs_velocity = _itrs_to_gcrs(self.velocity)
+            data[4:4] = [
+                ["Itrs VX", self.velocity.x],
+                ["Itrs VY", self.velocity.y],
+                ["Itrs VZ", self.velocity.z]
+            ]
+            data += [
+                ["Gcrs VX", gcrs_velocity.x],
+                ["Gcrs VY", gcrs_velocity.y],
+                ["Gcrs VZ", gcrs_velocity.z]
+            ]
+
         writer = TextFileWriter(file_name, header)
         writer.add_layer(data=data)
         writer.save()
-- 
2.43.0


From a6ed2f52433adb24f7ae3e52882ffdd8a25a5ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:20 +0000
Subject: [PATCH 36/48] fix: return a defined angle between parallel vectors

---
 celest/coordinates/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 0e0f45b..c85221d 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -398,7 +398,7 @@ def _get_ang(u, v) -> np.ndarray:
 
     numerator = np.sum(u * v, axis=(ua or va))
     denominator = np.linalg.norm(u, axis=ua) * np.linalg.norm(v, axis=va)
-    ang = np.degrees(np.arccos(numerator / denominator))
+    ang = np.degrees(np.arccos(np.clip(numerator / denominator, -1, 1)))
 
     return ang
 
-- 
2.43.0


From 424b97d541d9e7bc05d4b31a25c4ae61c001910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:20 +0000
Subject: [PATCH 37/48] fix: measure azimuth from North on both hemispheres and
 the equator

---
 celest/coordinates/transforms.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index c85221d..a0638c7 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -355,13 +355,12 @@ def _azimuth(itrs: ITRS, location: GroundLocation) -> np.ndarray:
         location.itrs_z.to(u.km)
     ])
 
-    latitude = location.latitude.to(u.rad)
-    radius = location.radius.to(u.km)
+    radius = np.linalg.norm(ground_itrs)
 
     ground_to_satellite = sat_itrs - ground_itrs
 
-    z_axis_vector = [0, 0, radius / np.sin(latitude)]
-    surface_tangent = z_axis_vector - ground_itrs
+    z_axis_vector = np.array([0, 0, radius ** 2])
+    surface_tangent = z_axis_vector - ground_itrs[2] * ground_itrs
 
     sat_to_ground_on_normal = np.dot(ground_to_satellite, ground_itrs) / radius ** 2
     sat_to_ground_on_normal = np.array([sat_to_ground_on_normal *
-- 
2.43.0


From 69dd0fca264f98ed1c4d2c08a47442f5b681b875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:37 +0000
Subject: [PATCH 38/48] fix: return geodetic latitude and height for every
 position

---
 celest/coordinates/transforms.py | 35 ++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index a0638c7..b0ea0f6 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -180,11 +180,9 @@ def _itrs_to_wgs84(itrs: ITRS) -> WGS84:
 
     itrs_x = itrs.x.to(u.km)
     itrs_y = itrs.y.to(u.km)
-    itrs_z = itrs.z.to(u.km)
 
-    latitude = np.arctan(itrs_z / np.sqrt(itrs_x ** 2 + itrs_y ** 2))
     longitude = np.arctan2(itrs_y, itrs_x)
-    height = _altitude(itrs)
+    latitude, height = _geodetic_latitude_and_altitude(itrs)
 
     return WGS84(julian, latitude, longitude, height, u.rad, u.km)
 
@@ -221,9 +219,26 @@ def _altitude(itrs: ITRS) -> np.ndarray:
         raise ValueError(f"Input data is in the {itrs.__class__} frame and not"
                          " the ITRS frame.")
 
+    return _geodetic_latitude_and_altitude(itrs)[1]
+
+
+def _geodetic_latitude_and_altitude(itrs: ITRS) -> Tuple[np.ndarray, np.ndarray]:
+    """Return the geodetic latitude in radians and altitude in kilometers.
+
+    Parameters
+    ----------
+    itrs : ITRS
+        Itrs coordinates.
+
+    Returns
+    -------
+    Tuple
+        Tuple containing the geodetic latitude and altitude arrays.
+    """
+
     a, b = WGS84_MAJOR_AXIS_KM, WGS84_MINOR_AXIS_KM
 
-    tol = 10e-10
+    tol = 10e-13
 
     itrs_x = itrs.x.to(u.km)
     itrs_y = itrs.y.to(u.km)
@@ -233,22 +248,24 @@ def _altitude(itrs: ITRS) -> np.ndarray:
     p = np.sqrt(itrs_x ** 2 + itrs_y ** 2)
 
     h = np.sqrt(itrs_x ** 2 + itrs_y ** 2 + itrs_z ** 2) - np.sqrt(a * b)
-    phi = np.arctan((itrs_z / p) * (1 - (e ** 2 * a) / (a + h)) ** -1)
+    phi = np.arctan2(itrs_z, p * (1 - (e ** 2 * a) / (a + h)))
 
     def new_vals(a, b, e, p, phi, z):
         N = a / np.sqrt(np.cos(phi) ** 2 + b ** 2 / a ** 2 * np.sin(phi) ** 2)
-        h = p / np.cos(phi) - N
-        phi = np.arctan((z / p) * (1 - (e ** 2 * N) / (N + h)) ** -1)
+        h = p * np.cos(phi) + z * np.sin(phi) - a ** 2 / N
+        phi = np.arctan2(z, p * (1 - (e ** 2 * N) / (N + h)))
 
         return h, phi
 
     hp, phip = new_vals(a, b, e, p, phi, itrs_z)
 
-    while (np.mean(hp - h) > a * tol) or (np.mean(phip - phi) > tol):
+    for _ in range(50):
+        if np.all(np.abs(hp - h) <= a * tol) and np.all(np.abs(phip - phi) <= tol):
+            break
         h, phi = hp, phip
         hp, phip = new_vals(a, b, e, p, phi, itrs_z)
 
-    return h
+    return phip, hp
 
 
 def _wgs84_to_itrs(wgs84: WGS84) -> ITRS:
-- 
2.43.0


From 2854727baa2a4c362f33b36da428ccf3732ff42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:04 +0000
Subject: [PATCH 39/48] fix: nutate about the ecliptic pole instead of the
 equinox' quadrature axis

---
 .../coordinates/nutation_precession_matrices.py  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/celest/coordinates/nutation_precession_matrices.py b/celest/coordinates/nutation_precession_matrices.py
index b020d0e..49352b2 100644
--- a/celest/coordinates/nutation_precession_matrices.py
+++ b/celest/coordinates/nutation_precession_matrices.py
@@ -143,13 +143,13 @@ def nutation_matrix(julian: Quantity) -> np.ndarray:
 
     matrix = np.zeros((julian.data.size, 3, 3))
     matrix[:, 0, 0] = c2
-    matrix[:, 0, 1] = s1 * s2
-    matrix[:, 0, 2] = - c1 * s2
-    matrix[:, 1, 0] = s2 * s3
-    matrix[:, 1, 1] = c1 * c3 - s1 * c2 * s3
-    matrix[:, 1, 2] = s1 * c3 + c1 * c2 * s3
-    matrix[:, 2, 0] = s2 * c3
-    matrix[:, 2, 1] = - c1 * s3 - s1 * c2 * c3
-    matrix[:, 2, 2] = - s1 * s3 + c1 * c2 * c3
+    matrix[:, 0, 1] = c1 * s2
+    matrix[:, 0, 2] = s1 * s2
+    matrix[:, 1, 0] = - s2 * c3
+    matrix[:, 1, 1] = - s1 * s3 + c1 * c2 * c3
+    matrix[:, 1, 2] = c1 * s3 + s1 * c2 * c3
+    matrix[:, 2, 0] = s2 * s3
+    matrix[:, 2, 1] = - s1 * c3 - c1 * c2 * s3
+    matrix[:, 2, 2] = c1 * c3 - s1 * c2 * s3
 
     return matrix
-- 
2.43.0


From a9d7149f535108f19d178a51ad4d2fbc6fa24239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:04 +0000
Subject: [PATCH 40/48] fix: count the secular change of the obliquity once in
 the nutation matrix

---
 celest/coordinates/nutation_precession_matrices.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/celest/coordinates/nutation_precession_matrices.py b/celest/coordinates/nutation_precession_matrices.py
index 49352b2..1d4ec8e 100644
--- a/celest/coordinates/nutation_precession_matrices.py
+++ b/celest/coordinates/nutation_precession_matrices.py
@@ -1,7 +1,6 @@
 
 
 from celest.coordinates.astronomical_quantities import (
-    _calculate_raw_elapsed_jd_century_powers,
     mean_obliquity,
     nutation_components,
     conventional_precession_angles
@@ -130,8 +129,7 @@ def nutation_matrix(julian: Quantity) -> np.ndarray:
     """
 
     nutation_in_longitude, nutation_in_obliquity = nutation_components(julian)
-    t1, t2, t3 = _calculate_raw_elapsed_jd_century_powers(julian, 3)
-    eps_A = mean_obliquity(julian).to(u.arcsec) - 46.84024 * t1 - 0.00059 * t2 + 0.001813 * t3
+    eps_A = mean_obliquity(julian).to(u.arcsec)
 
     a1 = np.radians(eps_A / 3600)
     a2 = - nutation_in_longitude.to(u.rad)
-- 
2.43.0


From 2610b5d8c9449bbbaba653ab2b2e94f7b6dc6087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:39 +0000
Subject: [PATCH 41/48] fix: precess about the equinox of epoch and measure the
 Earth's rotation from the equinox of date

---
 .../nutation_precession_matrices.py           |  2 +-
 celest/coordinates/transforms.py              | 38 +++++++++++++++++--
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/celest/coordinates/nutation_precession_matrices.py b/celest/coordinates/nutation_precession_matrices.py
index 1d4ec8e..d678264 100644
--- a/celest/coordinates/nutation_precession_matrices.py
+++ b/celest/coordinates/nutation_precession_matrices.py
@@ -81,7 +81,7 @@ def precession_matrix(julian: Quantity) -> np.ndarray:
 
     zeta, theta, z = conventional_precession_angles(julian)
 
-    a1 = zeta.to(u.rad)
+    a1 = - zeta.to(u.rad)
     a2 = theta.to(u.rad)
     a3 = - z.to(u.rad)
 
diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index b0ea0f6..4e34579 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -1,6 +1,10 @@
 
 
-from celest.coordinates.astronomical_quantities import earth_rotation_angle
+from celest.coordinates.astronomical_quantities import (
+    conventional_precession_angles,
+    earth_rotation_angle,
+    equation_of_equinoxes
+)
 from celest.coordinates.frames.azel import AzEl
 from celest.coordinates.frames.gcrs import GCRS
 from celest.coordinates.frames.itrs import ITRS
@@ -17,6 +21,7 @@ from celest.constants import (
     WGS84_MAJOR_AXIS_KM,
     WGS83_FIRST_ECCENTRICITY
 )
+from celest.units.quantity import Quantity
 from celest import units as u
 from copy import deepcopy
 from typing import Tuple
@@ -61,7 +66,7 @@ def _gcrs_to_itrs(gcrs: GCRS) -> ITRS:
     gcrs_z = gcrs.z.data.reshape((-1, 1))
     gcrs = np.concatenate((gcrs_x, gcrs_y, gcrs_z), axis=1)
 
-    era = earth_rotation_angle(julian)
+    era = _apparent_sidereal_angle(julian)
     bias_mtrx = bias_matrix()
     precession_mtrx = precession_matrix(julian)
     nutation_mtrx = nutation_matrix(julian)
@@ -75,6 +80,33 @@ def _gcrs_to_itrs(gcrs: GCRS) -> ITRS:
     return ITRS(julian.data, itrs[:, 0], itrs[:, 1], itrs[:, 2], unit)
 
 
+def _apparent_sidereal_angle(julian: Quantity) -> Quantity:
+    """Return the Earth rotation measured from the true equinox of date.
+
+    The Earth rotation angle is measured from a non-rotating origin whereas the
+    precession and nutation matrices lead to the true equinox of date, so the
+    accumulated precession and the equation of the equinoxes are added.
+
+    Parameters
+    ----------
+    julian : Quantity
+        Quantity object containing date data in the JD2000 epoch.
+
+    Returns
+    -------
+    Quantity
+        Greenwich apparent sidereal angle.
+    """
+
+    zeta, _, z = conventional_precession_angles(julian)
+    nutation_in_right_ascension = Quantity(
+        15 * equation_of_equinoxes(julian).data,
+        u.arcsec
+    )
+
+    return earth_rotation_angle(julian) + zeta + z + nutation_in_right_ascension
+
+
 def _rotate_by_earth_rotation_angle(data, degree_era):
     """Rotate vectors about the z-axis by the Earth rotation angle.
 
@@ -140,7 +172,7 @@ def _itrs_to_gcrs(itrs: ITRS) -> GCRS:
     itrs_z = itrs.z.data.reshape((-1, 1))
     itrs = np.concatenate((itrs_x, itrs_y, itrs_z), axis=1)
 
-    era = earth_rotation_angle(julian)
+    era = _apparent_sidereal_angle(julian)
     bias_mtrx = bias_matrix()
     precession_mtrx = precession_matrix(julian)
     nutation_mtrx = nutation_matrix(julian)
-- 
2.43.0


From afb90c395b22386f2bd2b18012eb57785b2fbbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:18 +0000
Subject: [PATCH 42/48] fix: keep integer terrestrial positions exact when
 rotating to the celestial frame

---
 celest/coordinates/transforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/celest/coordinates/transforms.py b/celest/coordinates/transforms.py
index 4e34579..bce1126 100644
--- a/celest/coordinates/transforms.py
+++ b/celest/coordinates/transforms.py
@@ -125,6 +125,7 @@ def _rotate_by_earth_rotation_angle(data, degree_era):
 
     radian_era = degree_era.to(u.rad).data
     c, s = np.cos(radian_era), np.sin(radian_era)
+    data = data.astype(float)
     c1, c2, c3 = np.copy(data).T
 
     data[:, 0] = c * c1 - s * c2
-- 
2.43.0


From 9ffef26ccbb74cb50f1681c8dfde9b72c6e27065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:20 +0000
Subject: [PATCH 43/48] fix: reject undefined latitudes and longitudes of
 ground locations

---
 celest/coordinates/ground_location.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/celest/coordinates/ground_location.py b/celest/coordinates/ground_location.py
index 65856ea..83181d3 100644
--- a/celest/coordinates/ground_location.py
+++ b/celest/coordinates/ground_location.py
@@ -73,9 +73,9 @@ class GroundLocation:
         latitude_degrees = Quantity(latitude, angular_unit).to(u.deg)
         longitude_degrees = Quantity(longitude, angular_unit).to(u.deg)
 
-        if latitude_degrees < -90 or latitude_degrees > 90:
+        if not -90 <= latitude_degrees <= 90:
             raise ValueError("Latitude must be between -90 and 90 degrees.")
-        if longitude_degrees < -180 or longitude_degrees > 180:
+        if not -180 <= longitude_degrees <= 180:
             raise ValueError("Longitude must be between -180 and 180 degrees.")
 
         self._latitude = Quantity(latitude, angular_unit)
-- 
2.43.0


From ae7044815493914ec380851f882617bdd6dc3176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:20 +0000
Subject: [PATCH 44/48] fix: reject an undefined visibility threshold

---
 celest/encounter/window_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/celest/encounter/window_generator.py b/celest/encounter/window_generator.py
index 050190a..d029aa6 100644
--- a/celest/encounter/window_generator.py
+++ b/celest/encounter/window_generator.py
@@ -68,7 +68,7 @@ def generate_vtws(satellite: Satellite, location: GroundLocation,
     if satellite.velocity is None:
         raise Warning("Attitude data cannot be initialized because satellite "
                       "velocity data is unavailable.")
-    if vis_threshold < 0 or 90 < vis_threshold:
+    if not 0 <= vis_threshold <= 90:
         raise ValueError("vis_threshold must be between 0 and 90 degrees.")
 
     satellite_azel = Coordinate(satellite.position).convert_to(AzEl, location)
-- 
2.43.0


From d28e346a4f8309988d8ca17bde9a47e3d6df17e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:07 +0000
Subject: [PATCH 45/48] fix: refuse conversions to unsupported frames instead
 of returning NotImplemented

---
 celest/coordinates/coordinate.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/celest/coordinates/coordinate.py b/celest/coordinates/coordinate.py
index f7638e6..be67cac 100644
--- a/celest/coordinates/coordinate.py
+++ b/celest/coordinates/coordinate.py
@@ -16,6 +16,7 @@ from typing import Literal
 
 
 MISSING_LOCATION_ERROR_MESSAGE = "The location argument is required to convert to the AzEl frame."
+UNSUPPORTED_FRAME_ERROR_MESSAGE = "Conversion is only supported to the GCRS, ITRS, WGS84, and AzEl frames."
 
 
 class Coordinate:
@@ -87,7 +88,7 @@ class Coordinate:
         elif isinstance(self._base_position, WGS84):
             return self._convert_from_wgs84(frame, location)
         else:
-            return NotImplemented
+            raise ValueError(UNSUPPORTED_FRAME_ERROR_MESSAGE)
 
     def _convert_from_gcrs(self, frame: Literal[ITRS, WGS84, AzEl],
                            location: GroundLocation = None) -> Literal[ITRS, WGS84, AzEl]:
@@ -101,7 +102,7 @@ class Coordinate:
                 raise ValueError(MISSING_LOCATION_ERROR_MESSAGE)
             return _itrs_to_azel(itrs_position, location)
         else:
-            return NotImplemented
+            raise ValueError(UNSUPPORTED_FRAME_ERROR_MESSAGE)
 
     def _convert_from_itrs(self, frame: Literal[GCRS, WGS84, AzEl],
                            location: GroundLocation = None) -> Literal[GCRS, WGS84, AzEl]:
@@ -114,7 +115,7 @@ class Coordinate:
                 raise ValueError(MISSING_LOCATION_ERROR_MESSAGE)
             return _itrs_to_azel(self._base_position, location)
         else:
-            return NotImplemented
+            raise ValueError(UNSUPPORTED_FRAME_ERROR_MESSAGE)
 
     def _convert_from_wgs84(self, frame: Literal[ITRS, GCRS, AzEl],
                             location: GroundLocation = None) -> Literal[ITRS, GCRS, AzEl]:
@@ -128,5 +129,5 @@ class Coordinate:
                 raise ValueError(MISSING_LOCATION_ERROR_MESSAGE)
             return _itrs_to_azel(itrs_position, location)
         else:
-            return NotImplemented
+            raise ValueError(UNSUPPORTED_FRAME_ERROR_MESSAGE)
 
-- 
2.43.0


From 9a346233ea80d6c90c1e8f9c00e1994d07c43e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:17 +0000
Subject: [PATCH 46/48] fix: dimension of compound units with user defined
 factors

---
 celest/units/display.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/celest/units/display.py b/celest/units/display.py
index 2b67399..5bb5461 100644
--- a/celest/units/display.py
+++ b/celest/units/display.py
@@ -83,8 +83,7 @@ def get_dimensions_from_unit(unit):
     dimensions = []
     dimension_powers = []
 
-    for base, power in zip(unit.bases, unit.powers):
-        dimension = UNIT_TO_DIMENSION_DICTIONARY[base.short_name]
+    for dimension, power in _get_dimension_pairs(unit):
         if dimension in dimensions:
             dimension_index = dimensions.index(dimension)
             new_power = dimension_powers[dimension_index] + power
@@ -104,3 +103,16 @@ def get_dimensions_from_unit(unit):
     dimension_powers = [power for _, power in ordered_pairs]
 
     return dimensions, dimension_powers
+
+
+def _get_dimension_pairs(unit):
+    pairs = []
+    for base, power in zip(unit.bases, unit.powers):
+        if base is unit or base.short_name in UNIT_TO_DIMENSION_DICTIONARY:
+            dimension = UNIT_TO_DIMENSION_DICTIONARY[base.short_name]
+            pairs.append((dimension, power))
+        else:
+            # User defined unit: take the dimensions of its own base units.
+            pairs.extend((dimension, base_power * power) for
+                         dimension, base_power in _get_dimension_pairs(base))
+    return pairs
-- 
2.43.0


From 553fae7e6055d59afa42d95c716e054f1a9e201c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:10 +0000
Subject: [PATCH 47/48] fix: multiply units by any number type, refuse other
 factors

---
 celest/units/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/celest/units/core.py b/celest/units/core.py
index d3195ea..c199a21 100644
--- a/celest/units/core.py
+++ b/celest/units/core.py
@@ -69,6 +69,8 @@ class BaseUnit:
             return CompoundUnit(1.0, [self, other], [1, 1])
         elif isinstance(other, (float, int)):
             return CompoundUnit(other, [self], [1])
+        else:
+            return NotImplemented
 
     def __rmul__(self, other):
         if isinstance(other, BaseUnit):
@@ -79,6 +81,8 @@ class BaseUnit:
             return CompoundUnit(1.0, [other, self], [1, 1])
         elif isinstance(other, (float, int)):
             return CompoundUnit(other, [self], [1])
+        else:
+            return NotImplemented
 
     def is_unity(self) -> bool:
         """
-- 
2.43.0


From e50d79c5bd6cceb6c569f692d77a927bfa15b5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:10 +0000
Subject: [PATCH 48/48] fix: convert between different units that share a short
 name

---
 celest/units/quantity.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/celest/units/quantity.py b/celest/units/quantity.py
index 7d47dd8..b2074d3 100644
--- a/celest/units/quantity.py
+++ b/celest/units/quantity.py
@@ -307,9 +307,10 @@ class Quantity:
 
         quantity_copy = deepcopy(self)
 
-        if repr(quantity_copy._unit) != repr(new_unit):
-            quantity_copy._data = quantity_copy._data * (_get_unit_scale(
-                quantity_copy.unit) / _get_unit_scale(new_unit))
+        old_scale = _get_unit_scale(quantity_copy.unit)
+        new_scale = _get_unit_scale(new_unit)
+        if old_scale != new_scale:
+            quantity_copy._data = quantity_copy._data * (old_scale / new_scale)
         quantity_copy._unit = new_unit
 
         return quantity_copy
-- 
2.43.0

