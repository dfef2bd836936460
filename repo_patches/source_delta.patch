From 6dd84e1f288c33c5c53c268c5e9b19cd34860769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 01/37] fix: hash of a chunk resolves a bound variable by its
 whole name

The hash looked up every character of the variable's name, so a pattern with
=xx was taken to be equal to a chunk carrying the value of =x.
---
 pyactr/chunks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 58ea8f2..c207d77 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -186,7 +186,7 @@ class Chunk(Sequence):
                 temp_varval = {"values": set(), "negvalues": set()}
                 for key in ["variables", "negvariables"]:
                     if getattr(varval, key):
-                        for value in getattr(varval, key):
+                        for value in [varval.variables] if key == "variables" else varval.negvariables:
                             try:
                                 temp_varval[re.sub("variables", "values", key)].add(self.boundvars[utilities.ACTRVARIABLE + value]) #add (neg)value based on the (neg)variable
                             except KeyError:
-- 
2.43.0


From 94f48e17ca946d696a5e47930511b2463c7b130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 02/37] fix: a slot missing from a chunk matches like an empty
 slot

A pattern requiring None, or a variable bound to an empty slot, did not match
a chunk whose type lacks the slot, although it matched one with the slot empty.
---
 pyactr/chunks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index c207d77..0a4448b 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -256,7 +256,7 @@ class Chunk(Sequence):
             try:
                 matching_val = getattr(otherchunk.actrchunk, x[0] + "_") #get the value of attr
             except AttributeError:
-                matching_val = None #if it is missing, it must be None
+                matching_val = self.__emptyvalue #if it is missing, it must be None
 
             if isinstance(matching_val, utilities.VarvalClass):
                 matching_val = matching_val.values #the value might be written using _variablesvalues namedtuple; in that case, get it out
-- 
2.43.0


From 303a3d461d24b90619a50e10e0e2343a29d1349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 03/37] fix: resolve relative positions and empty bindings on
 the right-hand side

A slot such as <=x was always refused as carrying two values, a variable bound
to nothing ended in UnboundLocalError, and so did the error for an unbound
negated variable.
---
 pyactr/utilities.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 3381c09..203832c 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -268,6 +268,7 @@ def check_bound_vars(actrvariables, elem, negative_impossible=True):
     neg_result = set()
     varval = splitting(elem)
     for x in varval._fields:
+        temp_result = None
         if x == "variables" and getattr(varval, x):
             var = getattr(varval, x)
             var = "".join([ACTRVARIABLE, var])
@@ -293,22 +294,16 @@ def check_bound_vars(actrvariables, elem, negative_impossible=True):
                     try:
                         neg_result.add(actrvariables[neg_var])
                     except KeyError:
-                        raise ACTRError(f"Object '{var[1:]}' in the value '{elem}' is a variable that is not bound; this is illegal in ACT-R") #is this correct? maybe in some special cases binding only in RHS should be allowed? If so this should be adjusted in productions.py
+                        raise ACTRError(f"Object '{neg_var[1:]}' in the value '{elem}' is a variable that is not bound; this is illegal in ACT-R") #is this correct? maybe in some special cases binding only in RHS should be allowed? If so this should be adjusted in productions.py
+        if temp_result is None: #nothing was added by this field
+            continue
         if result and temp_result in {VISIONGREATER, VISIONSMALLER} or result in {VISIONGREATER, VISIONSMALLER}:
             result = "".join(sorted([temp_result, result], reverse=True))
         elif result and temp_result != result:
             raise ACTRError(f"It looks like in '{elem}', one slot would have to carry two values at the same time; this is illegal in ACT-R")
         else:
-            try:
-                result = temp_result
-            except UnboundLocalError: #temp_result wasn't used
-                pass
-    try:
-        if temp_result:
-            returned_tuple = VarvalClass(variables=None, values=result, negvariables=(), negvalues=tuple(neg_result))
-    except UnboundLocalError: #temp_result was never used, which means that no values were defined
-        returned_tuple = VarvalClass(variables=None, values=None, negvariables=(), negvalues=tuple(neg_result))
-    return returned_tuple
+            result = temp_result
+    return VarvalClass(variables=None, values=result, negvariables=(), negvalues=tuple(neg_result))
 
 def match(dict2, slotvals, name1, name2):
     """
-- 
2.43.0


From 047dd8dc2fa7c435fa134e46f19fa64c6f9bafff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:09 +0000
Subject: [PATCH 04/37] fix: a failed retrieval does not use up the memory of
 recent retrievals

---
 pyactr/declarative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 17c5eea..65bde78 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -252,7 +252,7 @@ class DecMemBuffer(buffers.Buffer):
                 extra_time = utilities.retrieval_latency(model_parameters["retrieval_threshold"], model_parameters["latency_factor"],  model_parameters["latency_exponent"])
             else:
                 extra_time = model_parameters["rule_firing"]
-        if self.__finst:
+        if self.__finst and retrieved is not None:
             self.recent.append(retrieved)
             if self.__finst < len(self.recent):
                 self.recent.popleft()
-- 
2.43.0


From 7092c79387cae61a51f76660057d3b1505931260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 05/37] fix: base-level learning uses the past presentations
 only

---
 pyactr/utilities.py | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 203832c..b61fa55 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -6,7 +6,6 @@ import collections
 import collections.abc
 import re
 import math
-import warnings
 
 import numpy as np
 import pyparsing as pp
@@ -420,25 +419,12 @@ def baselevel_learning(current_time, times, bll, decay, activation=None, optimiz
     Calculate base-level learning: B_i = ln(sum(t_j^{-decay})) for t_j = current_time - t for t in times.
     """
     if bll:
+        times = times[times < current_time] #this removes chunk storages that are stored at current time (blocking simultaneous retrieval)
         if len(times) > 0:
-            with warnings.catch_warnings(record=True):
-                warnings.filterwarnings('error')
-                if not optimized_learning:
-                    try:
-                        B = math.log(np.sum((current_time - times) ** (-decay)))
-                    #this part removes chunk storages that are stored at current time (blocking simultaneous retrieval)
-                    except RuntimeWarning:
-                        temp_times = np.delete(times, times.argmax())
-                        if len(temp_times) > 0:
-                            B = math.log(np.sum((current_time - temp_times) ** (-decay)))
-                else:
-                    try:
-                        B = math.log(len(times)/(1-decay)) - decay*math.log(current_time - np.max(times)) #calculating bll using optimized learning -- much faster since it's a single calculation
-                    #this part removes chunk storages that are stored at current time (blocking simultaneous retrieval)
-                    except RuntimeWarning:
-                        temp_times = np.delete(times, times.argmax())
-                        if len(temp_times) > 0:
-                            B = math.log(len(times)/(1-decay)) - decay*math.log(current_time - np.max(temp_times)) #calculating bll using optimized learning -- much faster since it's a single calculation
+            if not optimized_learning:
+                B = math.log(np.sum((current_time - times) ** (-decay)))
+            else:
+                B = math.log(len(times)/(1-decay)) - decay*math.log(current_time - np.max(times)) #calculating bll using optimized learning -- much faster since it's a single calculation
     else:
         B = 0
 
-- 
2.43.0


From e9c2d84e37213b7f2f7b649beb567e9e07e17cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 06/37] fix: compare the time of a retrieval with rounded times
 of storage

---
 pyactr/declarative.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 65bde78..0b51b00 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -186,6 +186,7 @@ class DecMemBuffer(buffers.Buffer):
         """
         model_parameters = model_parameters.copy()
         model_parameters.update(self.model_parameters)
+        time = utilities.roundtime(time) #times in memory are rounded, too
 
         if actrvariables == None:
             actrvariables = {}
-- 
2.43.0


From 4faf54c7d68899cd2a4c3a726587492cee059988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:01 +0000
Subject: [PATCH 07/37] fix: deleting a chunk from memory updates the fan of
 the values it held

---
 pyactr/declarative.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 0b51b00..06555da 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -31,6 +31,12 @@ class DecMem(collections.abc.MutableMapping):
     
     def __delitem__(self, key):
         del self._data[key]
+        for x in key: #keep the counters used for strength of association in step
+            value = utilities.splitting(x[1]).values
+            if value and value in self.unrestricted_number_chunks:
+                self.unrestricted_number_chunks[value] -= 1
+            if value and (x[0], value) in self.restricted_number_chunks:
+                self.restricted_number_chunks[(x[0], value)] -= 1
 
     def __iter__(self):
         for elem in self._data:
-- 
2.43.0


From 37683c34a161c9f85b741db6bfc752de6281a2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 08/37] fix: conflict resolution orders rules by their current
 utilities

---
 pyactr/productions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 50cd31e..ffecf58 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -497,6 +497,7 @@ class ProductionRules:
         
         self.last_rule_slotvals = self.current_slotvals.copy()
 
+        self.ordered_rulenames = sorted((x for x in self.ordered_rulenames if x in self.rules), key=lambda x: self.rules[x]["utility"], reverse=True) #utilities might have changed and compiled rules might have been added
         for rulename in self.ordered_rulenames:
             self.used_rulename = rulename
             production = self.rules[rulename]["rule"]()
@@ -555,7 +556,7 @@ class ProductionRules:
         """
         if self.model_parameters["production_compilation"] and self.compile:
             compiled_rulename, re_created = self.rules.compile_rules(self.compile[0], self.compile[1], self.compile[2], self.buffers, self.model_parameters)
-            if compiled_rulename:
+            if compiled_rulename and compiled_rulename not in self.ordered_rulenames:
                 self.ordered_rulenames.append(compiled_rulename)
             return compiled_rulename, re_created
         else:
-- 
2.43.0


From d6b86cc9669a1867d2026f0014c24a06f43e0cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:33 +0000
Subject: [PATCH 09/37] fix: overwriting a goal with a delay no longer holds
 back the other actions of the rule

---
 pyactr/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index b61fa55..adfe72b 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -104,7 +104,7 @@ _RHSCONVENTIONS_REVERSED = {v: k for k, v in _RHSCONVENTIONS.items()}
 _LHSCONVENTIONS = {"=": "test", "?": "query"}
 _LHSCONVENTIONS_REVERSED = {v: k for k, v in _LHSCONVENTIONS.items()}
 
-_INTERRUPTIBLE = {"retrieveorset", "modify_request"}
+_INTERRUPTIBLE = {"retrieveorset", "modify_request", "overwrite"}
 
 def roundtime(time):
     """
-- 
2.43.0


From c31edacb6790d60dff854d5fa9944c59cb6a3bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:13 +0000
Subject: [PATCH 10/37] fix: preparation of a key press depends on the keys,
 not on the chunk slots that hold them

---
 pyactr/productions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index ffecf58..1938b79 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -909,8 +909,8 @@ class ProductionRules:
         if newchunk.key == motorbuffer.last_key[0] or self.model_parameters["motor_prepared"]:
             self.model_parameters["motor_prepared"] = False #motor_prepared is only used for the 1st key press
             preparation = 0
-        elif motorbuffer.last_key[0] and (newchunk.key in motorbuffer.PRESSING) == (motorbuffer.last_key[0] in motorbuffer.PRESSING):
-            if (newchunk.key in motorbuffer.LEFT_HAND) == (motorbuffer.last_key[0] in motorbuffer.LEFT_HAND): 
+        elif motorbuffer.last_key[0] and (newchunk.key.values in motorbuffer.PRESSING) == (motorbuffer.last_key[0].values in motorbuffer.PRESSING):
+            if (newchunk.key.values in motorbuffer.LEFT_HAND) == (motorbuffer.last_key[0].values in motorbuffer.LEFT_HAND): 
                 preparation -= 0.1 #the same hand, same mvt cuts down by 100 ms; Lisp ACT-R also has the same finger which cuts down by 150 ms; this is not currently implemented
             else:
                 preparation -= 0.05 #a different hand, same mvt cuts down by 50 ms
-- 
2.43.0


From 15a97305dfc984f986bb6c372c38236ceb23d384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:45 +0000
Subject: [PATCH 11/37] fix: the end of a key press does not hide the one that
 follows

---
 pyactr/productions.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 1938b79..c71f9c6 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -930,7 +930,7 @@ class ProductionRules:
         """
         Carry out the rest of motor action. Motor action is split in two because of ACT-R assumption that the two parts can act independently of each other.
         """
-        if motorbuffer.last_key[1]:
+        if motorbuffer.last_key[1] > time:
             time = motorbuffer.last_key[1] # if something else is being pressed, wait for that to finish before starting initializing etc.
         initiation = time_presses[1]
         execution = time_presses[2]
@@ -942,7 +942,8 @@ class ProductionRules:
         
         time += initiation
         
-        motorbuffer.last_key[1] = time + execution + movement_finish
+        finished = time + execution + movement_finish
+        motorbuffer.last_key[1] = finished
         
         yield Event(roundtime(time), name, 'INITIATION COMPLETE')
         
@@ -960,9 +961,11 @@ class ProductionRules:
         yield Event(roundtime(time), name, 'MOVEMENT FINISHED')
         
         self.env_interaction.discard(otherchunk.key)
-        motorbuffer.state = motorbuffer._FREE
-        motorbuffer.execution = motorbuffer._FREE
-        motorbuffer.last_key[1] = 0
+        if motorbuffer.last_key[1] == finished: #another key press might be waiting for the end of this one
+            motorbuffer.execution = motorbuffer._FREE
+            motorbuffer.last_key[1] = 0
+            if motorbuffer.preparation == motorbuffer._FREE: #another key press might be in preparation
+                motorbuffer.state = motorbuffer._FREE
 
     def LHStest(self, dictionary, actrvariables, update=False):
         """
-- 
2.43.0


From da4e3cb10380f00ed579fec1dea39ab9f084fa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 12/37] fix: a trigger pressed when the environment has ended
 or a screen has just run out does not crash the simulation

---
 pyactr/simulation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 9460268..3c2b593 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -107,7 +107,8 @@ class Simulation:
             yield pro | self.__environment_activate
             if self.__environment_activate.triggered:
                 self.__environment_activate = self.__simulation.event()
-                pro.interrupt()
+                if pro.is_alive: #the screen might have run out at the very same time
+                    pro.interrupt()
             try:
                 event = next(generator)
             except StopIteration:
@@ -201,7 +202,7 @@ class Simulation:
                 self.__printevent__(event)
                 self.__activate__(event)
             try:
-                if self.__env.trigger and self.__pr.env_interaction.intersection(self.__env.trigger):
+                if self.__env.trigger and self.__pr.env_interaction.intersection(self.__env.trigger) and not self.__environment_activate.triggered:
                     self.__environment_activate.succeed(value=(self.__env.trigger, self.__pr.env_interaction))
                 self.__pr.env_interaction = set()
             except AttributeError:
-- 
2.43.0


From 268cc6dcf357e650f88508f60a7892f58fc50d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:34 +0000
Subject: [PATCH 13/37] fix: a visual search remembers the stimulus that it
 found, not the last one that it looked at

---
 pyactr/vision.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index 5e7a2bd..1f675e8 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -194,10 +194,10 @@ class VisualLocation(buffers.Buffer):
             except (TypeError, AttributeError):
                 pass
 
-            found_stim = self.environment.stimulus[each]
-            visible_chunk = chunk_from_stimulus(found_stim, "visual_location", position=False)
+            visible_chunk = chunk_from_stimulus(self.environment.stimulus[each], "visual_location", position=False)
 
             if visible_chunk <= chunk_used_for_search:
+                found_stim = self.environment.stimulus[each]
                 found = chunk_from_stimulus(found_stim, "visual_location", position=True)
                 current_x = position[0]
                 current_y = position[1]
-- 
2.43.0


From 6012dec846f7571c0789a87abbcc163596e212da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:36 +0000
Subject: [PATCH 14/37] fix: the visual location buffer is free after an
 automatic search

---
 pyactr/productions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index c71f9c6..914a532 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -798,6 +798,7 @@ class ProductionRules:
         newchunk = None
         if self.model_parameters["automatic_visual_search"]:
             newchunk, stim = visualbuffer.automatic_search(stim)
+        visualbuffer.state = visualbuffer._FREE
         if newchunk:
             if visualbuffer:
                 visualbuffer.modify(newchunk, stim)
-- 
2.43.0


From 0bfc7331b30eb168795f8fc5d3282b1dc22683f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:22 +0000
Subject: [PATCH 15/37] fix: a visual search for the closest stimulus works
 when only screen_y asks for it

---
 pyactr/vision.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index 1f675e8..12ed921 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -176,7 +176,7 @@ class VisualLocation(buffers.Buffer):
 
             #check on closest
             try: 
-                if (chunk_used_for_search.screen_x.values == utilities.VISIONCLOSEST or chunk_used_for_search.screen_y.values == utilities.VISIONCLOSEST) and utilities.calculate_pythagorean_distance(self.environment.current_focus, position) > closest:
+                if utilities.VISIONCLOSEST in (getattr(chunk_used_for_search.screen_x, "values", None), getattr(chunk_used_for_search.screen_y, "values", None)) and utilities.calculate_pythagorean_distance(self.environment.current_focus, position) > closest:
                     continue
             except (TypeError, AttributeError):
                 pass
-- 
2.43.0


From 6dd8f2c656a1039033ae80c7cab25cba2016f207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 16/37] fix: a shift of attention interrupted by a new screen
 does not leave the visual module busy

---
 pyactr/productions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 914a532..aa601d9 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -814,6 +814,9 @@ class ProductionRules:
         """
         visualbuffer.state = visualbuffer._BUSY
         visualbuffer.autoattending = visualbuffer._BUSY
+        visualbuffer.preparation = visualbuffer._FREE #if a shift was in preparation, it was interrupted
+        if visualbuffer.execution == visualbuffer._FREE:
+            visualbuffer.processor = visualbuffer._FREE
         foveal_distance = utilities.calculate_distance(1, visualbuffer.environment.size, visualbuffer.environment.simulated_screen_size, visualbuffer.environment.viewing_distance)
         cf = tuple(visualbuffer.current_focus)
         newchunk = None
-- 
2.43.0


From 6ece89aa31d0fbe8cff28c7c0ed27e7b99289552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:13 +0000
Subject: [PATCH 17/37] fix: an environment can start later than the simulation
 (start_time gave a negative delay)

---
 pyactr/environment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/environment.py b/pyactr/environment.py
index 44e0ae9..77e8af5 100644
--- a/pyactr/environment.py
+++ b/pyactr/environment.py
@@ -78,8 +78,8 @@ class Environment:
         (Use this key with caution: visual_location searches cannot return an object if it contains
         an externally-visible attribute that is not present in the search)
         """
-        #subtract start_time from initial_time
-        start_time = self.initial_time - start_time
+        #start_time counts from initial_time
+        start_time = self.initial_time + start_time
         #make all arguments iterables if they are not yet
         if isinstance(stimuli, str) or isinstance(stimuli, collections.abc.Mapping) or not isinstance(stimuli, collections.abc.Iterable):
             stimuli = [stimuli]
-- 
2.43.0


From 512dcc879651b63ab54730e736ec3ccdc6fd4182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:13 +0000
Subject: [PATCH 18/37] fix: automatic buffering works for stimuli given as
 strings

---
 pyactr/environment.py | 2 +-
 pyactr/productions.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/environment.py b/pyactr/environment.py
index 77e8af5..d9d3b78 100644
--- a/pyactr/environment.py
+++ b/pyactr/environment.py
@@ -89,7 +89,7 @@ class Environment:
                     if not isinstance(stimuli[idx][each], collections.abc.Mapping): #stimuli[idx][each] encodes position etc.
                         raise utilities.ACTRError("Stimuli must be a list of dictionaries, e.g.,: [{'stimulus1-0time': {'text': 'hi', 'position': (0, 0)}, 'stimulus2-0time': {'text': 'you', 'position': (10, 10)}}, {'stimulus3-latertime': {'text': 'new', 'position': (0, 0)}}] etc. Currently, you have this: '%s'" %stimuli[idx])
             else:
-                stimuli[idx] = {stimuli[idx]: {'position': (320, 180)}} #default position - 320, 180
+                stimuli[idx] = {stimuli[idx]: {'text': stimuli[idx], 'position': (320, 180)}} #default position - 320, 180
         if isinstance(triggers, str) or not isinstance(triggers, collections.abc.Iterable):
             triggers = [triggers]
         if isinstance(times, str) or not isinstance(times, collections.abc.Iterable):
diff --git a/pyactr/productions.py b/pyactr/productions.py
index aa601d9..7d9b440 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -823,7 +823,7 @@ class ProductionRules:
         encoding = 0
         for st in stim:
             if st['position'][0] > cf[0]-foveal_distance and st['position'][0] < cf[0]+foveal_distance and st['position'][1] > cf[1]-foveal_distance and st['position'][1] < cf[1]+foveal_distance:
-                if (not visualbuffer) or list(visualbuffer)[0].value.values != st['text']: #automatic buffer only of there is sth to buffer
+                if (not visualbuffer) or list(visualbuffer)[0].value.values != st.get('text', ''): #automatic buffer only of there is sth to buffer
                     newchunk, encoding = visualbuffer.automatic_buffering(st, self.model_parameters)
         time += encoding
         yield Event(roundtime(time), name, self._UNKNOWN)
-- 
2.43.0


From aa137d0f98a84ab24204c341594c23d8703beaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:13 +0000
Subject: [PATCH 19/37] fix: requests of rules and screen changes at the same
 moment do not crash the simulation or go unnoticed

---
 pyactr/simulation.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 3c2b593..0a96b9e 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -74,7 +74,7 @@ class Simulation:
         
         self.__proc_activate = self.__simulation.event() #special event (lock) for procedural module
         
-        self.__procs_started = [] #list of processes that are started as a result of production rules
+        self.__procs_started = self.__pr.procs #list of processes that are started as a result of production rules (or of a change in the environment)
 
         #activate environment process, if environment present
         if self.__env:
@@ -115,6 +115,8 @@ class Simulation:
                 break
             #this part below ensures automatic buffering which proceeds independently of PROCEDURAL
             for name in self.__buffers:
+                if any(proc[0] == name for proc in self.__procs_started):
+                    continue #a rule requested something from this buffer at the very same moment, that goes first
                 if isinstance(self.__buffers[name], vision.VisualLocation) and self.__buffers[name].environment == self.__env:
                     proc = (name, self.__pr.automatic_search(name, self.__buffers[name], list(self.__env.stimulus.values()), self.__simulation.now))
                     self.__procs_started.append(proc)
@@ -132,7 +134,7 @@ class Simulation:
                     self.__interruptibles[proc[0]] = proc[1] #add new process interruptibles if the process can be interrupted according to ACT-R
                     self.__dict_extra_proc_activate[proc[0]].succeed() #activate modules that are used if not active
                 else:
-                    if proc[1] != self.__interruptibles[proc[0]]:
+                    if proc[0] in self.__interruptibles and proc[1] != self.__interruptibles[proc[0]]:
                         self.__interruptibles[proc[0]] = proc[1]
                         self.__dict_extra_proc[proc[0]].interrupt() #otherwise, interrupt them
 
@@ -159,7 +161,10 @@ class Simulation:
             except StopIteration:
                 if name in self.__interruptibles:
                     self.__interruptibles.pop(name) #remove this process from interruptibles since it's finished
-                yield self.__dict_extra_proc_activate[name]
+                try:
+                    yield self.__dict_extra_proc_activate[name]
+                except simpy.Interrupt:
+                    self.__procs_started.remove(next(filter(lambda x: x[0] == name, self.__procs_started))) #the process was replaced by another one before it could start
                 self.__dict_extra_proc_activate[name] = self.__simulation.event()
             else:
                 self.__procs_started.remove((name, proc))
-- 
2.43.0


From 2c569192e6453e35a29f3c4e85b9b5a75eda31b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:11 +0000
Subject: [PATCH 20/37] fix: production compilation matches variables that are
 tied through several slots

---
 pyactr/utilities.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index adfe72b..0d1c22a 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -313,6 +313,10 @@ def match(dict2, slotvals, name1, name2):
         temp_func gets a set of variables and a value (possibly, None), and it returns two dicts.
         matched stores which variables will be substituted by which variable, valued stores which variables will be substituted by a value (if temp_val not empty).
         """
+        for x in tuple(temp_set): #variables that were matched before belong together
+            temp_set.update(y for y in matched if matched[y] == matched.get(x))
+        for x in temp_set:
+            temp_val = temp_val or valued.get(x)
         if temp_val:
             valued.update({x: temp_val for x in temp_set})
         else:
@@ -356,6 +360,8 @@ def match(dict2, slotvals, name1, name2):
                         temp_val = getattr(chunkdict3[1], elem).values
                     except AttributeError:
                         temp_val = None
+                    if not temp_val:
+                        temp_val = str(EMPTYVALUE) #the retrieved element is empty here
                     temp_set = set()
                     if chunkpart2.variables:
                         temp_set.update(set([chunkpart2.variables]))
-- 
2.43.0


From 42f0e1b52829bb545193d4473996b2b2053cbbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 21/37] fix: a compiled production fires exactly where its two
 productions would and does what they do

---
 pyactr/productions.py | 127 +++++++++++++++++++-----------------------
 pyactr/utilities.py   |  28 ++++++++++
 2 files changed, 86 insertions(+), 69 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 7d9b440..17f70bd 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -118,7 +118,7 @@ class Productions(collections.UserDict):
         else:
             self.rules[key] = Production(rule=value["rule"], utility=self.__DFT_UTILITY, reward=self.__DFT_REWARD)
 
-    def __collapse__(self, rule1, rule2, slotvals, retrieval):
+    def __collapse__(self, rule1, rule2, slotvals, retrieval, retrieved):
         """
         Collapses 2 rules into 1.
         """
@@ -129,85 +129,57 @@ class Productions(collections.UserDict):
             pro1 = next(production1).copy()
             pro2 = next(production2).copy()
 
-            for key in pro1:
-
-                code = key[0]
-                buff = key[1:]
-
-                #querying just kept
-                if utilities._LHSCONVENTIONS[code] == "query":
-                    continue
-
-                #here below -- testing
-                if key not in pro2:
-                    continue
-
-                pro2buff = pro2.pop(key)._asdict()
-                
-                pro1buff = pro1[key]._asdict()
-                
-                mod_attr_val = {}
+            actions = next(production1)
 
-                if buff in slotvals:
-                    for slot in pro2buff:
-                        try:
-                            slotvals_slot = slotvals[buff][slot].removeunused()
-                        except (KeyError, AttributeError, TypeError):
-                            slotvals_slot = None
-                        if not slotvals_slot:
-                            varval = utilities.merge_chunkparts(pro1buff[slot], pro2buff[slot])
-                            mod_attr_val[slot] = varval
-                        else:
-                            mod_attr_val[slot] = pro1buff[slot]
-                elif buff == retrieval:
-                    continue #test on retrieved elem from rule1 in rule2 is removed because no retrieval
-                else:
-                    for slot in pro2buff:
-                        varval = utilities.merge_chunkparts(pro1buff[slot], pro2buff[slot])
-                        mod_attr_val[slot] = varval
+            changed = {} #slots that rule 1 sets
+            for key in actions:
+                if utilities._RHSCONVENTIONS[key[0]] in {"modify", "modify_request"}:
+                    changed.setdefault(key[1:], {}).update(actions[key].removeunused())
+                elif utilities._RHSCONVENTIONS[key[0]] in {"overwrite", "retrieveorset"}:
+                    changed.setdefault(key[1:], {}).update(actions[key]._asdict())
 
-                new_chunk = chunks.Chunk(pro1[key].typename, **mod_attr_val)
-                pro1[key] = new_chunk
+            excluded = [] #what rule 2 excludes in slots that rule 1 sets: (value in the slot, excluded part)
 
-            #test on pro2 here below -- buffers might be in pro2 that are missing in pro1
             for key in pro2:
-                
+
                 code = key[0]
                 buff = key[1:]
 
+                #querying just kept, unless rule 1 works with the buffer
                 if utilities._LHSCONVENTIONS[code] == "query":
-                    temp_production1 = rule1['rule']()
-                    _, temp_testing = next(temp_production1), next(temp_production1)
-                    for temp_key in temp_testing:
+                    for temp_key in actions:
                         if utilities._RHSCONVENTIONS[temp_key[0]] != "modify" and utilities._RHSCONVENTIONS[temp_key[0]] != "extra_test" and temp_key[1:] == buff:
                             break
                     else:
-                        pro1.setdefault(key, {}).update(pro2[key])
+                        pro1[key] = {**pro1.get(key, {}), **pro2[key]}
                     continue
 
-                pro2buff = pro2[key]._asdict()
-                
-                mod_attr_val = {}
-                
-                if buff in slotvals:
-                    for slot in pro2buff:
-                        try:
-                            slotvals_slot = slotvals[buff][slot].removeunused()
-                        except (KeyError, AttributeError, TypeError):
-                            slotvals_slot = None
-                        if not slotvals_slot:
-                            mod_attr_val[slot] = pro2buff[slot]
-                elif buff == retrieval:
+                if buff == retrieval:
+                    for slot, value in retrieved:
+                        excluded.append((value, actions[utilities._RHSCONVENTIONS_REVERSED["retrieveorset"] + buff]._asdict().get(slot)))
+                        excluded.append((value, pro2[key]._asdict().get(slot)))
                     continue #test on retrieved elem from rule1 in rule2 is removed because no retrieval
-                else:
-                    mod_attr_val = pro2buff.copy()
 
-                new_chunk = chunks.Chunk(pro2[key].typename, **mod_attr_val)
-                pro1[key] = new_chunk
+                pro1buff = pro1[key]._asdict() if key in pro1 else {}
+                pro2buff = pro2[key]._asdict()
+
+                mod_attr_val = dict(pro1buff)
+
+                for slot in pro2buff:
+                    if slot in changed.get(buff, {}):
+                        excluded.append((changed[buff][slot], pro2buff[slot]))
+                        mod_attr_val.setdefault(slot, utilities.splitting(utilities.EMPTYVALUE))
+                    else: #rule 2 tests what rule 1 found there
+                        mod_attr_val[slot] = utilities.unite_chunkparts(mod_attr_val.get(slot, chunks.Chunk.EmptyValue()), pro2buff[slot])
+
+                pro1[key] = chunks.Chunk(pro1[key].typename if key in pro1 else pro2[key].typename, **mod_attr_val)
+
+            for value, part in excluded:
+                utilities.exclude_in_rule(pro1, value, part)
 
             yield pro1
 
-            pro1 = next(production1).copy()
+            pro1 = actions.copy()
             pro2 = next(production2).copy()
             
             #anything in pro2 should go into action
@@ -216,7 +188,7 @@ class Productions(collections.UserDict):
                 code = key[0]
                 buff = key[1:]
 
-                if utilities._RHSCONVENTIONS[code] in {"execute", "clear", "extra_test"}:
+                if utilities._RHSCONVENTIONS[code] in {"execute", "clear", "extra_test", "overwrite", "retrieveorset"}:
                     continue
                 
                 if buff not in slotvals:
@@ -230,7 +202,7 @@ class Productions(collections.UserDict):
                 
                 for slot in pro2buff:
                     if pro1buff and slot in pro1buff:
-                        varval = utilities.merge_chunkparts(pro2buff[slot], pro1buff[slot])
+                        varval = utilities.merge_chunkparts(pro2buff[slot], utilities.splitting(pro1buff[slot])._replace(negvariables=(), negvalues=()))
                         mod_attr_val[slot] = varval
                     else:
                         mod_attr_val[slot] = pro2buff[slot]
@@ -245,7 +217,7 @@ class Productions(collections.UserDict):
                 buff = key[1:]
                 
                 for temp_key in pro2:
-                    if temp_key[1:] == buff:
+                    if temp_key[1:] == buff and not (utilities._RHSCONVENTIONS[code] == "modify" and utilities._RHSCONVENTIONS[temp_key[0]] in {"clear", "overwrite", "retrieveorset"}): #a modified chunk that rule 2 clears or replaces is modified first
                         key = None
                         break
 
@@ -276,8 +248,11 @@ class Productions(collections.UserDict):
         """
         Rename production, so that variable names do not clash. name is used to change the variable name to minimize clash. Returns the production with the new name.
         """
+        rule = self[name] #stored now, since the rule might be removed later
+        while any(variable.endswith("__rule__" + name) for variable in variables):
+            name += "_" #rule 1 was itself compiled with this rule
         def func():
-            production = self[name]['rule']()
+            production = rule['rule']()
             for pro in production:
                 for key in pro:
                     code = key[0]
@@ -386,12 +361,26 @@ class Productions(collections.UserDict):
         #we have to get rid of =, ~= sign
         modified_actrvariables = set()
 
+        production1 = self[rule_name1]['rule']()
+        testing1, actions1 = next(production1), next(production1)
+        testing2 = next(self[rule_name2]['rule']())
+        for key in testing1:
+            if utilities._LHSCONVENTIONS[key[0]] == "test":
+                for _, varval in testing1[key]:
+                    varval = utilities.splitting(varval)
+                    modified_actrvariables.update(x for x in (varval.variables, *varval.negvariables) if x)
+                if not slotvals.get(key[1:]) and key[1:] not in {x[1:] for x in actions1}:
+                    slotvals[key[1:]] = testing1[key]._asdict() #rule 1 left this buffer as it found it
+
         #get out variables that should not be clashed
-        retrieval = None
+        retrieval, retrieved = None, None
         for buff in slotvals:
             if slotvals[buff]:
                 if isinstance(slotvals[buff], collections.abc.MutableSequence):
-                    retrieval = buff #store which buffer carries retrieval info that can be discarded later
+                    retrieval, retrieved = buff, slotvals[buff][1] #store which buffer carries retrieval info that can be discarded later
+                    #the retrieved element has to be the one that rule 1 asked for and that rule 2 uses
+                    if utilities._RHSCONVENTIONS_REVERSED["retrieveorset"] + buff not in actions1 or utilities._LHSCONVENTIONS_REVERSED["test"] + buff not in testing2:
+                        return False, False
                     #if the retrieval is not gone at the end of rule_name2 -- do not compile!!! -- this catches one case in which rules should not be combined because they might yield unsafe results
                     if buffers[buff]:
                         return False, False
@@ -422,7 +411,7 @@ class Productions(collections.UserDict):
                     mod_attr_val[elem] = varval
                 slotvals[buff] = mod_attr_val
 
-        new_rule = self.__collapse__(new_1rule, new_2rule, slotvals, retrieval)
+        new_rule = self.__collapse__(new_1rule, new_2rule, slotvals, retrieval, retrieved)
         
         idx = 0
         re_created = "CREATED"
diff --git a/pyactr/utilities.py b/pyactr/utilities.py
index 0d1c22a..e0ac2a1 100644
--- a/pyactr/utilities.py
+++ b/pyactr/utilities.py
@@ -243,6 +243,34 @@ def merge_chunkparts(chunkpart1, chunkpart2):
 
     return new_varval
 
+def unite_chunkparts(chunkpart1, chunkpart2):
+    """
+    Unite two chunk parts that test the same slot, after their variables have been matched. A slot that has to fulfill chunkpart1 and chunkpart2 has to fulfill the result.
+    """
+    varval1 = splitting(chunkpart1)
+    varval2 = splitting(chunkpart2)
+    return VarvalClass(variables=varval1.variables or varval2.variables, values=varval1.values or varval2.values,
+                       negvariables=tuple(dict.fromkeys((*varval1.negvariables, *varval2.negvariables))), negvalues=tuple(dict.fromkeys((*varval1.negvalues, *varval2.negvalues))))
+
+def exclude_in_rule(testing, chunkpart, excluded):
+    """
+    Add tests to the LHS of a rule, so that the value or variable in chunkpart is none of what excluded excludes.
+    """
+    varval = splitting(chunkpart)
+    excluded = splitting(excluded)
+    #each exclusion is tested where its variable is bound
+    tests = [(x, VarvalClass(variables=None, values=None, negvariables=(varval.variables,) if varval.variables else (), negvalues=() if varval.variables else (varval.values or str(EMPTYVALUE),))) for x in excluded.negvariables]
+    if varval.variables:
+        tests.append((varval.variables, excluded._replace(variables=None, values=None)))
+    for key in testing:
+        if _LHSCONVENTIONS[key[0]] == "test":
+            slotvals = testing[key]._asdict()
+            for slot in slotvals:
+                for variable, test in tests:
+                    if splitting(slotvals[slot]).variables == variable:
+                        slotvals[slot] = unite_chunkparts(slotvals[slot], test)
+            testing[key] = type(testing[key])(testing[key].typename, **slotvals)
+
 #############utilities for rules######################################
 
 def getrule():
-- 
2.43.0


From c93605d32491623485bbbefa89185a7f917b25a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:48 +0000
Subject: [PATCH 22/37] fix: similarities of a model are used in that model
 only

---
 pyactr/declarative.py | 2 ++
 pyactr/model.py       | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index 06555da..eb3a853 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -125,6 +125,7 @@ class DecMemBuffer(buffers.Buffer):
         self.recent = collections.deque()
         self.__finst = finst
         self.activation = None #activation of the last retrieved element
+        self.similarities = {} #similarities used in partial matching
 
         #parameters
         self.model_parameters = {}
@@ -201,6 +202,7 @@ class DecMemBuffer(buffers.Buffer):
         except utilities.ACTRError as arg:
             raise utilities.ACTRError(f"Retrieving the chunk '{otherchunk}' is impossible; {arg}")
         chunk_tobe_matched = chunks.Chunk(otherchunk.typename, **mod_attr_val)
+        chunk_tobe_matched._similarities = self.similarities
 
         max_A = float("-inf")
 
diff --git a/pyactr/model.py b/pyactr/model.py
index c2c4197..fa8a941 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -322,6 +322,8 @@ class ACTRModel:
 
         used_productions = productions.ProductionRules(self.productions, self.__buffers, decmem, self.model_parameters)
 
-        chunks.Chunk._similarities = self.__similarities
+        for name in self.__buffers:
+            if isinstance(self.__buffers[name], declarative.DecMemBuffer):
+                self.__buffers[name].similarities = self.__similarities #similarities belong to the model, other models might be running
 
         return simulation.Simulation(self.__env, realtime, trace, gui, self.__buffers, used_productions, initial_time, environment_process, **kwargs)
-- 
2.43.0


From 2fe608335a284017be39ca23ee0578095515e90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:48 +0000
Subject: [PATCH 23/37] fix: buffer_spreading_activation of one model is not
 shared by all models

---
 pyactr/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyactr/model.py b/pyactr/model.py
index fa8a941..aa66475 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -2,6 +2,8 @@
 ACT-R Model.
 """
 
+import copy
+
 import pyparsing
 
 from pyactr import chunks, declarative, goals, motor, productions, simulation, utilities, vision
@@ -97,7 +99,7 @@ class ACTRModel:
         self.productions = productions.Productions()
         self.__similarities = {}
 
-        self.model_parameters = self.MODEL_PARAMETERS.copy()
+        self.model_parameters = copy.deepcopy(self.MODEL_PARAMETERS)
 
         try:
             if not set(model_parameters.keys()).issubset(set(self.MODEL_PARAMETERS.keys())):
-- 
2.43.0


From 1728f71aa91641f53f729a98574ab6014a243ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:33 +0000
Subject: [PATCH 24/37] fix: a production string without a name gets one

---
 pyactr/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/model.py b/pyactr/model.py
index aa66475..7a2d5ed 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -234,7 +234,7 @@ class ACTRModel:
         {'=g': example(value= two)}
         """
         if not name:
-            name = "unnamedrule" + productions.Productions._undefinedrulecounter
+            name = "unnamedrule" + str(productions.Productions._undefinedrulecounter)
             productions.Productions._undefinedrulecounter += 1
         temp_dictRHS = {v: k for k, v in utilities._RHSCONVENTIONS.items()}
         temp_dictLHS = {v: k for k, v in utilities._LHSCONVENTIONS.items()}
-- 
2.43.0


From 3f9a12c13bf0c854bc93a1e5128802a4e7fda9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 25/37] fix: a simulation in real time begins at its initial
 time

---
 pyactr/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/simulation.py b/pyactr/simulation.py
index 0a96b9e..a40ac70 100644
--- a/pyactr/simulation.py
+++ b/pyactr/simulation.py
@@ -51,7 +51,7 @@ class Simulation:
         self.__realtime = realtime
 
         if not self.gui and realtime:
-            self.__simulation = simpy.RealtimeEnvironment()
+            self.__simulation = simpy.RealtimeEnvironment(initial_time=round(initial_time, 4))
 
         self.__trace = trace
 
-- 
2.43.0


From 92f211e224c3adc191c4c5caa94caa32b82022b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:05 +0000
Subject: [PATCH 26/37] fix: eye movements of an earlier simulation do not
 delay those of a new one

---
 pyactr/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyactr/model.py b/pyactr/model.py
index 7a2d5ed..1a14dd7 100644
--- a/pyactr/model.py
+++ b/pyactr/model.py
@@ -325,6 +325,8 @@ class ACTRModel:
         used_productions = productions.ProductionRules(self.productions, self.__buffers, decmem, self.model_parameters)
 
         for name in self.__buffers:
+            if isinstance(self.__buffers[name], vision.Visual):
+                self.__buffers[name].last_mvt = initial_time #eye movements of an earlier simulation are over
             if isinstance(self.__buffers[name], declarative.DecMemBuffer):
                 self.__buffers[name].similarities = self.__similarities #similarities belong to the model, other models might be running
 
-- 
2.43.0


From 71ed925aa68c6623f800c2f4674a840f66010a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:20 +0000
Subject: [PATCH 27/37] fix: a chunk type with a slot called isa is refused

---
 pyactr/chunks.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 0a4448b..a43a845 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -30,7 +30,7 @@ def chunktype(cls_name, field_names, defaults=None, include=None):
         pass  # assume it's already a sequence of identifiers
     field_names = tuple(sorted(name + "_" for name in field_names))
     for each in field_names:
-        if each == "ISA" or each == "isa":
+        if each == "ISA_" or each == "isa_":
             raise ACTRError("You cannot use the slot 'isa' in your chunk. That slot is used to define chunktypes.")
 
     # If an ancestor was specified, union the field names and re-sort
@@ -147,8 +147,7 @@ class Chunk(Sequence):
             chunktype(typename, dictionary.keys())  #If chunktype completely missing, it is created first
             warnings.warn(f"Chunk type {typename} was not defined; added automatically")
 
-        finally:
-            self.actrchunk = self._chunktypes[typename](**kwargs)
+        self.actrchunk = self._chunktypes[typename](**kwargs)
 
         self.__empty = None #this will store what the chunk looks like without empty values (the values will be stored on the first call of the relevant function)
         self.__unused = None #this will store what the chunk looks like without unused values
-- 
2.43.0


From 877909aaa9e3dd35cdf3a7a31fdf7fa33b446cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:22 +0000
Subject: [PATCH 28/37] fix: the type of a chunk given as text may be written
 ISA or Isa

---
 pyactr/chunks.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index a43a845..43ce6da 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -418,12 +418,9 @@ def createchunkdict(chunk):
                 chunk_dict[key][x] = None
         chunk_dict[key] = utilities.VarvalClass(**chunk_dict[key])
     type_chunk = ""
-    try:
-        type_chunk = chunk_dict.pop("isa").values #change this - any combination of capital/small letters
-        type_chunk = chunk_dict.pop("ISA").values
-        type_chunk = chunk_dict.pop("Isa").values
-    except KeyError:
-        pass
+    for isa in ("isa", "ISA", "Isa"): #change this - any combination of capital/small letters
+        if isa in chunk_dict:
+            type_chunk = chunk_dict.pop(isa).values
     return type_chunk, chunk_dict
 
 def makechunk(nameofchunk="", typename="", **dictionary):
-- 
2.43.0


From 6c280fb292461b8d6288aa8ec3114475d07aba36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:12 +0000
Subject: [PATCH 29/37] fix: a visual search can ask for visible features of
 extended types

---
 pyactr/vision.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index 12ed921..6010c7d 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -99,7 +99,9 @@ class VisualLocation(buffers.Buffer):
             mod_attr_val = {x[0]: utilities.check_bound_vars(actrvariables, x[1], negative_impossible=False) for x in otherchunk.removeunused()}
         except utilities.ACTRError as arg:
             raise utilities.ACTRError(f"The chunk '{otherchunk}' is not defined correctly; {arg}")
-        chunk_used_for_search = chunks.Chunk(utilities.VISUALLOCATION, **mod_attr_val)
+        #visible features that a visual location does not have by itself can be asked for only in an extended type
+        typename = utilities.VISUALLOCATION if set(mod_attr_val).issubset(x[0] for x in chunks.Chunk(utilities.VISUALLOCATION)) else otherchunk.typename
+        chunk_used_for_search = chunks.Chunk(typename, **mod_attr_val)
             
         found = None
         found_stim = None
@@ -123,7 +125,7 @@ class VisualLocation(buffers.Buffer):
                 pass
 
             #check value in text; in principle, you can search based on any value, so this is more powerful than actual visual search
-            if chunk_used_for_search.value != chunk_used_for_search.EmptyValue() and chunk_used_for_search.value.values != self.environment.stimulus[each]["text"]:
+            if getattr(chunk_used_for_search, "value", chunk_used_for_search.EmptyValue()) != chunk_used_for_search.EmptyValue() and chunk_used_for_search.value.values != self.environment.stimulus[each]["text"]:
                 continue
 
             position = (int(self.environment.stimulus[each]['position'][0]), int(self.environment.stimulus[each]['position'][1]))
-- 
2.43.0


From 6e5d194372b3b944c06f7387f7e6f795498e2770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:12 +0000
Subject: [PATCH 30/37] fix: a rule can modify the chunk in the visual location
 buffer using its variables

---
 pyactr/productions.py | 2 +-
 pyactr/vision.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 17f70bd..32d495c 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -790,7 +790,7 @@ class ProductionRules:
         visualbuffer.state = visualbuffer._FREE
         if newchunk:
             if visualbuffer:
-                visualbuffer.modify(newchunk, stim)
+                visualbuffer.modify(newchunk, found_stim=stim)
             else:
                 visualbuffer.add(newchunk, stim, time)
             yield Event(roundtime(time), name, f"ENCODED LOCATION: {newchunk}")
diff --git a/pyactr/vision.py b/pyactr/vision.py
index 6010c7d..bee5e46 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -63,7 +63,7 @@ class VisualLocation(buffers.Buffer):
             if self.finst < len(self.recent):
                 self.recent.popleft()
 
-    def modify(self, otherchunk, found_stim, actrvariables=None):
+    def modify(self, otherchunk, actrvariables=None, found_stim=None):
         """
         Modify the chunk in VisualLocation buffer according to otherchunk. found_stim keeps information about the actual stimulus and it is used to update the queue of the recently visited chunks.
         """
-- 
2.43.0


From 09279665b53c57c8e893efbbd91e5b00acff23af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:03 +0000
Subject: [PATCH 31/37] fix: what vision encodes by itself replaces what was in
 the buffer instead of being mixed with it

---
 pyactr/productions.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 32d495c..b2f67f3 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -789,10 +789,9 @@ class ProductionRules:
             newchunk, stim = visualbuffer.automatic_search(stim)
         visualbuffer.state = visualbuffer._FREE
         if newchunk:
-            if visualbuffer:
-                visualbuffer.modify(newchunk, found_stim=stim)
-            else:
-                visualbuffer.add(newchunk, stim, time)
+            for elem in tuple(visualbuffer):
+                visualbuffer.discard(elem) #replaced without being cleared into a memory
+            visualbuffer.add(newchunk, stim, time)
             yield Event(roundtime(time), name, f"ENCODED LOCATION: {newchunk}")
         else:
             yield Event(roundtime(time), name, self._UNKNOWN)
@@ -819,10 +818,9 @@ class ProductionRules:
         visualbuffer.state = visualbuffer._FREE
         visualbuffer.autoattending = visualbuffer._FREE
         if newchunk:
-            if visualbuffer:
-                visualbuffer.modify(newchunk)
-            else:
-                visualbuffer.add(newchunk, time)
+            for elem in tuple(visualbuffer):
+                visualbuffer.discard(elem) #replaced without being cleared into a memory
+            visualbuffer.add(newchunk, time)
             yield Event(roundtime(time), name, f"AUTOMATIC BUFFERING: {str(newchunk)}")
 
     def visualshift(self, name, visualbuffer, otherchunk, temp_actrvariables, time):
-- 
2.43.0


From d57c0dda466f83fe2b8b8672c69cd8943f10c116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:15 +0000
Subject: [PATCH 32/37] fix: vision and the motor module say they are busy as
 long as any of their overlapping requests is going on

---
 pyactr/productions.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index b2f67f3..ee4b165 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -864,7 +864,8 @@ class ProductionRules:
         preparation = extra_time[1]
         execution = extra_time[2]
         
-        visualbuffer.last_mvt = time + execution
+        finished = time + execution
+        visualbuffer.last_mvt = finished
 
         time += execution
 
@@ -874,9 +875,11 @@ class ProductionRules:
         if encoding > preparation+execution:
             newchunk, extra_time, _ = visualbuffer.shift(otherchunk, actrvariables=temp_actrvariables, model_parameters=self.model_parameters)
             yield from self.visualencode(name, visualbuffer, otherchunk, temp_actrvariables, time, (1-((preparation+execution)/encoding))*extra_time[0], landing_site)
-        visualbuffer.processor = visualbuffer._FREE
-        visualbuffer.execution = visualbuffer._FREE
-        visualbuffer.state = visualbuffer._FREE
+        if visualbuffer.last_mvt == finished: #another shift might be waiting for the end of this one
+            visualbuffer.execution = visualbuffer._FREE
+            if visualbuffer.preparation == visualbuffer._FREE: #another shift might be in preparation
+                visualbuffer.processor = visualbuffer._FREE
+                visualbuffer.state = visualbuffer._FREE
         visualbuffer.attend_automatic = True
         #the following lines - if we think that automatic buffering should be repeated after being done with shift
         #if visualbuffer.attend_automatic:
@@ -938,7 +941,8 @@ class ProductionRules:
         
         yield Event(roundtime(time), name, 'INITIATION COMPLETE')
         
-        motorbuffer.processor = motorbuffer._FREE
+        if motorbuffer.last_key[1] == finished and motorbuffer.preparation == motorbuffer._FREE: #another key press might be in preparation or waiting
+            motorbuffer.processor = motorbuffer._FREE
         
         time += execution
         yield Event(roundtime(time), name, self._UNKNOWN)
-- 
2.43.0


From e9c447156969124f7e2c1aa0a5f48a32ede87d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:31 +0000
Subject: [PATCH 33/37] fix: a shift of attention to where nothing is (any
 more) fails instead of stopping the simulation

---
 pyactr/productions.py | 16 ++++++++++++++--
 pyactr/vision.py      |  4 ++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index ee4b165..71e0894 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -829,6 +829,13 @@ class ProductionRules:
         """
         newchunk, extra_time, site = visualbuffer.shift(otherchunk, actrvariables=temp_actrvariables, model_parameters=self.model_parameters)
 
+        if not newchunk: #nothing is at the position (any more)
+            visualbuffer.preparation = visualbuffer._FREE
+            visualbuffer.processor = visualbuffer.execution
+            visualbuffer.state = visualbuffer._ERROR
+            yield Event(roundtime(time), name, f"ENCODED VIS OBJECT:'{str(newchunk)}'")
+            return
+
         encoding = extra_time[0]
         preparation = extra_time[1]
         execution = extra_time[2]
@@ -872,14 +879,19 @@ class ProductionRules:
         yield Event(roundtime(time), name, self._UNKNOWN)
         visualbuffer.move_eye(landing_site)
         yield Event(roundtime(time), name, f"SHIFT COMPLETE TO POSITION: {str(visualbuffer.current_focus)}")
+        state = visualbuffer._FREE
         if encoding > preparation+execution:
             newchunk, extra_time, _ = visualbuffer.shift(otherchunk, actrvariables=temp_actrvariables, model_parameters=self.model_parameters)
-            yield from self.visualencode(name, visualbuffer, otherchunk, temp_actrvariables, time, (1-((preparation+execution)/encoding))*extra_time[0], landing_site)
+            if newchunk:
+                yield from self.visualencode(name, visualbuffer, otherchunk, temp_actrvariables, time, (1-((preparation+execution)/encoding))*extra_time[0], landing_site)
+            else: #it disappeared before it was encoded
+                state = visualbuffer._ERROR
+                yield Event(roundtime(time), name, f"ENCODED VIS OBJECT:'{str(newchunk)}'")
         if visualbuffer.last_mvt == finished: #another shift might be waiting for the end of this one
             visualbuffer.execution = visualbuffer._FREE
             if visualbuffer.preparation == visualbuffer._FREE: #another shift might be in preparation
                 visualbuffer.processor = visualbuffer._FREE
-                visualbuffer.state = visualbuffer._FREE
+                visualbuffer.state = state
         visualbuffer.attend_automatic = True
         #the following lines - if we think that automatic buffering should be repeated after being done with shift
         #if visualbuffer.attend_automatic:
diff --git a/pyactr/vision.py b/pyactr/vision.py
index bee5e46..2705895 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -334,6 +334,7 @@ class Visual(buffers.Buffer):
         except ACTRError as arg:
             raise ACTRError(f"Shifting towards the chunk '{otherchunk}' is impossible; {arg}")
 
+        stim = None
         vis_delay = None
 
         for each in self.environment.stimulus:
@@ -345,6 +346,9 @@ class Visual(buffers.Buffer):
             except (AttributeError, KeyError):
                 raise ACTRError("The chunk in the visual buffer is not defined correctly. It is not possible to move attention.")
 
+        if stim is None: #there is nothing at the position
+            return None, None, None
+
         new_chunk = chunk_from_stimulus(stim, "visual", position=False) #creates new chunk
 
         if model_parameters['emma']:
-- 
2.43.0


From 37aa34008c54005f5ae66ba24a841c7d0000c438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:51 +0000
Subject: [PATCH 34/37] fix: a new screen during a shift of attention does not
 make vision say it is free before it has encoded its object

---
 pyactr/productions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyactr/productions.py b/pyactr/productions.py
index 71e0894..e8759c2 100644
--- a/pyactr/productions.py
+++ b/pyactr/productions.py
@@ -800,6 +800,7 @@ class ProductionRules:
         """
         Automatic buffering of environment stim in the visual buffer. Automatic buffering is never found by production rules. Production rules are bypassed, this is called directly by simulation.
         """
+        attending = visualbuffer.execution == visualbuffer._BUSY and visualbuffer.state == visualbuffer._BUSY #eyes move to an object that is not encoded yet
         visualbuffer.state = visualbuffer._BUSY
         visualbuffer.autoattending = visualbuffer._BUSY
         visualbuffer.preparation = visualbuffer._FREE #if a shift was in preparation, it was interrupted
@@ -815,7 +816,8 @@ class ProductionRules:
                     newchunk, encoding = visualbuffer.automatic_buffering(st, self.model_parameters)
         time += encoding
         yield Event(roundtime(time), name, self._UNKNOWN)
-        visualbuffer.state = visualbuffer._FREE
+        if not attending or visualbuffer.execution == visualbuffer._FREE:
+            visualbuffer.state = visualbuffer._FREE
         visualbuffer.autoattending = visualbuffer._FREE
         if newchunk:
             for elem in tuple(visualbuffer):
-- 
2.43.0


From 98504957c1da143d8804a5db61257ea8898a481c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:05 +0000
Subject: [PATCH 35/37] fix: the hash of a description does not depend on the
 order of what it excludes

---
 pyactr/chunks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyactr/chunks.py b/pyactr/chunks.py
index 43ce6da..5dceeae 100644
--- a/pyactr/chunks.py
+++ b/pyactr/chunks.py
@@ -205,7 +205,7 @@ class Chunk(Sequence):
                             else:
                                 yield tuple([key, hash(value)])
 
-        self.__hash = hash(tuple(hash_func())), self.boundvars.copy() #store the hash along with the vars used to calculate it, so it doesnt need to be recalculated
+        self.__hash = hash(frozenset(hash_func())), self.boundvars.copy() #store the hash along with the vars used to calculate it, so it doesnt need to be recalculated
         return self.__hash[0]
 
     def __iter__(self):
-- 
2.43.0


From 6ba2cfed0006a77de228970f70d09dbd773e6132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:26 +0000
Subject: [PATCH 36/37] fix: a buffer that is given something else than a chunk
 keeps its chunk

---
 pyactr/buffers.py     | 12 ++++++++----
 pyactr/declarative.py |  1 +
 pyactr/vision.py      |  2 ++
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyactr/buffers.py b/pyactr/buffers.py
index 875ada4..ad20baf 100644
--- a/pyactr/buffers.py
+++ b/pyactr/buffers.py
@@ -57,11 +57,15 @@ class Buffer(collections.abc.MutableSet):
 
         elem must be a chunk.
         """
+        self._check_chunk(elem)
         self._data = set()
-        
-        if isinstance(elem, chunks.Chunk):
-            self._data.add(elem)
-        else:
+        self._data.add(elem)
+
+    def _check_chunk(self, elem):
+        """
+        Check that elem is a chunk. Anything else is refused before the buffer is changed.
+        """
+        if not isinstance(elem, chunks.Chunk):
             raise TypeError("Only chunks can be added to Buffer")
 
     def discard(self, elem):
diff --git a/pyactr/declarative.py b/pyactr/declarative.py
index eb3a853..3752a32 100644
--- a/pyactr/declarative.py
+++ b/pyactr/declarative.py
@@ -162,6 +162,7 @@ class DecMemBuffer(buffers.Buffer):
         """
         Clear current buffer and adds a new chunk.
         """
+        self._check_chunk(elem)
         self.clear(time)
         super().add(elem)
 
diff --git a/pyactr/vision.py b/pyactr/vision.py
index 2705895..ccb6354 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -54,6 +54,7 @@ class VisualLocation(buffers.Buffer):
         """
         Clear current buffer (into a memory) and adds a new chunk. Decl. memory is either specified as default_harvest, when Visual is initialized, or it can be specified as the argument of harvest.
         """
+        self._check_chunk(elem)
         self.clear(time, harvest)
 
         super().add(elem)
@@ -278,6 +279,7 @@ class Visual(buffers.Buffer):
         """
         Clear current buffer (into a memory) and adds a new chunk. Decl. memory is either specified as default_harvest, when Visual is initialized, or it can be specified as the argument of harvest.
         """
+        self._check_chunk(elem)
         self.clear(time, harvest)
         super().add(elem)
 
-- 
2.43.0


From 5c16ec8adcc8be06365bb6f4e41c939e352d178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:26 +0000
Subject: [PATCH 37/37] fix: a search for a visual location respects excluded
 values

---
 pyactr/vision.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyactr/vision.py b/pyactr/vision.py
index ccb6354..6c16c51 100644
--- a/pyactr/vision.py
+++ b/pyactr/vision.py
@@ -102,7 +102,8 @@ class VisualLocation(buffers.Buffer):
             raise utilities.ACTRError(f"The chunk '{otherchunk}' is not defined correctly; {arg}")
         #visible features that a visual location does not have by itself can be asked for only in an extended type
         typename = utilities.VISUALLOCATION if set(mod_attr_val).issubset(x[0] for x in chunks.Chunk(utilities.VISUALLOCATION)) else otherchunk.typename
-        chunk_used_for_search = chunks.Chunk(typename, **mod_attr_val)
+        excluded = {slot: mod_attr_val[slot].negvalues for slot in mod_attr_val if mod_attr_val[slot].negvalues} #checked separately
+        chunk_used_for_search = chunks.Chunk(typename, **{slot: mod_attr_val[slot]._replace(negvalues=()) for slot in mod_attr_val if mod_attr_val[slot].values is not None})
             
         found = None
         found_stim = None
@@ -197,7 +198,16 @@ class VisualLocation(buffers.Buffer):
             except (TypeError, AttributeError):
                 pass
 
-            visible_chunk = chunk_from_stimulus(self.environment.stimulus[each], "visual_location", position=False)
+            visible = self.environment.stimulus[each]
+            if excluded:
+                location = {x[0]: utilities.splitting(x[1]).values for x in chunk_from_stimulus(visible, "visual_location")}
+                location["value"] = visible["text"]
+                if any(location.get(slot) in excluded[slot] for slot in excluded):
+                    continue
+                #features that are only excluded do not have to be matched
+                visible = {**visible, "externally_visible": [x for x in visible.get("externally_visible", []) if x not in excluded or mod_attr_val[x].values is not None]}
+
+            visible_chunk = chunk_from_stimulus(visible, "visual_location", position=False)
 
             if visible_chunk <= chunk_used_for_search:
                 found_stim = self.environment.stimulus[each]
-- 
2.43.0

