From 230180daeb3defcf174c74a16d130436e8c9c09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 01/76] fix: keep broadcast reply accumulation per scheduler
 instance

---
 ipyparallel/controller/broadcast_scheduler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/controller/broadcast_scheduler.py b/ipyparallel/controller/broadcast_scheduler.py
index 667b9b1..4b93212 100644
--- a/ipyparallel/controller/broadcast_scheduler.py
+++ b/ipyparallel/controller/broadcast_scheduler.py
@@ -1,7 +1,7 @@
 import logging
 
 import zmq
-from traitlets import Bool, Bytes, Integer, List, Unicode
+from traitlets import Bool, Bytes, Dict, Integer, List, Unicode
 
 from ipyparallel import util
 from ipyparallel.controller.scheduler import (
@@ -13,8 +13,8 @@ from ipyparallel.controller.scheduler import (
 
 class BroadcastScheduler(Scheduler):
     port_name = 'broadcast'
-    accumulated_replies = {}
-    accumulated_targets = {}
+    accumulated_replies = Dict()
+    accumulated_targets = Dict()
     is_leaf = Bool(False)
     connected_sub_scheduler_ids = List(Bytes())
     outgoing_streams = List()
-- 
2.43.0


From 7d63ca0583dc711efce19e8abba5447d6be6fe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 02/76] fix: rejoining round-robin array partitions keeps the
 element type

---
 ipyparallel/client/map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/map.py b/ipyparallel/client/map.py
index 25ed377..1cfebf1 100644
--- a/ipyparallel/client/map.py
+++ b/ipyparallel/client/map.py
@@ -97,7 +97,8 @@ class RoundRobinMap(Map):
         test = listOfPartitions[0]
         shape = list(test.shape)
         shape[0] = sum(p.shape[0] for p in listOfPartitions)
-        A = numpy.ndarray(shape)
+        dtype = numpy.result_type(*[p.dtype for p in listOfPartitions])
+        A = numpy.ndarray(shape, dtype=dtype)
         N = shape[0]
         q = len(listOfPartitions)
         for p, part in enumerate(listOfPartitions):
-- 
2.43.0


From f495d54d3610835b4d633a420de26432329beee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 03/76] fix: return_exceptions on get() of a failed map keeps
 the failures in place

---
 ipyparallel/client/asyncresult.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 3478d34..92bc962 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1087,18 +1087,18 @@ class AsyncMapResult(AsyncResult):
 
     def _reconstruct_result(self, res):
         """Perform the gather on the actual results."""
-        if self._return_exceptions:
-            if any(isinstance(r, Exception) for r in res):
-                # running with _return_exceptions,
-                # cannot reconstruct original
-                # use simple chain iterable
-                flattened = []
-                for r in res:
-                    if isinstance(r, Exception):
-                        flattened.append(r)
-                    else:
-                        flattened.extend(r)
-                return flattened
+        if any(isinstance(r, Exception) for r in res):
+            # running with return_exceptions
+            # (via attribute or `get(return_exceptions=True)`),
+            # cannot reconstruct original
+            # use simple chain iterable
+            flattened = []
+            for r in res:
+                if isinstance(r, Exception):
+                    flattened.append(r)
+                else:
+                    flattened.extend(r)
+            return flattened
         return self._mapObject.joinPartitions(res)
 
     # asynchronous iterator:
-- 
2.43.0


From 02c5df8904491e587c8262f417652bc7ce454521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 04/76] fix: imap reports the input iterator's own error

---
 ipyparallel/client/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index f5ca23b..b086b5a 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1657,7 +1657,7 @@ class LoadBalancedView(View):
                 # exception consuming iterator, propagate
                 ar = concurrent.futures.Future()
                 # mock get so it gets re-raised when awaited
-                ar.get = lambda *args: ar.result()
+                ar.get = lambda *args, **kwargs: ar.result()
                 ar.set_exception(e)
                 with outstanding_lock:
                     add_outstanding(ar)
-- 
2.43.0


From 4d7b3bed87e2ef3ba595d38dd1fda1579a6e91a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 05/76] fix: do not dispatch a task again that already left the
 queue

---
 ipyparallel/controller/task_scheduler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index b354b96..9779f08 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -722,9 +722,10 @@ class TaskScheduler(Scheduler):
         to_restore = []
         while jobs:
             job = jobs.popleft()
-            if job.removed:
-                continue
             msg_id = job.msg_id
+            if job.removed or msg_id not in self.queue_map:
+                # failed, or already submitted when a dependency finished
+                continue
 
             put_it_back = True
 
-- 
2.43.0


From aaf15557f919ef7a94a414b0e9402dff99a637a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 06/76] fix: a task with an impossible dependency is always
 answered

---
 ipyparallel/controller/task_scheduler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index 9779f08..0d652c9 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -463,7 +463,8 @@ class TaskScheduler(Scheduler):
         job.removed = True
         for mid in job.dependents:
             if mid in self.graph:
-                self.graph[mid].remove(msg_id)
+                # may not be there: the job can fail before it was ever queued
+                self.graph[mid].discard(msg_id)
 
         try:
             raise why()
-- 
2.43.0


From 480f50192a72f815bdf6f56a44adc1c893cbb0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 07/76] fix: following a task that never ran on an engine is
 impossible, not a KeyError

---
 ipyparallel/controller/task_scheduler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index 0d652c9..c134697 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -536,8 +536,9 @@ class TaskScheduler(Scheduler):
                     if job.follow.failure:
                         relevant = relevant.union(self.all_failed)
                     for m in job.follow.intersection(relevant):
-                        dests.add(self.destinations[m])
-                    if len(dests) > 1:
+                        # None: failed without ever running on an engine
+                        dests.add(self.destinations.get(m))
+                    if len(dests) > 1 or None in dests:
                         self.queue_map[msg_id] = job
                         self.fail_unreachable(msg_id)
                         return False
-- 
2.43.0


From 13e1893012e3b5ae073178d5b5bfdeb1f1c3e49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 08/76] fix: keep the order of queued tasks that could not run
 yet

---
 ipyparallel/controller/task_scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index c134697..c7e0509 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -763,7 +763,7 @@ class TaskScheduler(Scheduler):
 
         # put back any tasks we popped but didn't run
         if using_queue:
-            self.queue.extendleft(to_restore)
+            self.queue.extendleft(reversed(to_restore))
 
     # ----------------------------------------------------------------------
     # methods to be overridden by subclasses
-- 
2.43.0


From b4f3520f9a46d8258ffe6ab99e7b08ae59ebf188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 09/76] fix: ignore a late reply for a task no longer assigned
 to that engine

---
 ipyparallel/controller/task_scheduler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index c7e0509..5b9d7be 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -624,6 +624,10 @@ class TaskScheduler(Scheduler):
 
         md = msg['metadata']
         parent = msg['parent_header']
+        if parent['msg_id'] not in self.pending.get(engine, {}):
+            # late reply from an engine declared dead: the task has been dealt with
+            self.log.warning("task::Ignoring late result from %r", engine)
+            return
         if md.get('dependencies_met', True):
             success = md['status'] == 'ok'
             msg_id = parent['msg_id']
-- 
2.43.0


From e9622010b0cfe397b1cb83ac6c04a3112d52ddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 10/76] fix: recheck waiting tasks when one fails during a
 queue scan

---
 ipyparallel/controller/task_scheduler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index 5b9d7be..fc799da 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -726,6 +726,7 @@ class TaskScheduler(Scheduler):
             jobs = deque(sorted(self.queue_map[msg_id] for msg_id in msg_ids))
 
         to_restore = []
+        n_done = len(self.all_done)
         while jobs:
             job = jobs.popleft()
             msg_id = job.msg_id
@@ -768,6 +769,10 @@ class TaskScheduler(Scheduler):
         # put back any tasks we popped but didn't run
         if using_queue:
             self.queue.extendleft(reversed(to_restore))
+            if to_restore and len(self.all_done) > n_done:
+                # some jobs failed on the way, where those we are putting back
+                # could not be seen: check again
+                self.update_graph(None)
 
     # ----------------------------------------------------------------------
     # methods to be overridden by subclasses
-- 
2.43.0


From cca76bbdd54e32b85f6bc1b840ce132a0cbe2dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 11/76] fix: serialize dicts whose keys cannot be sorted, keep
 their order

---
 ipyparallel/serialize/serialize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/serialize/serialize.py b/ipyparallel/serialize/serialize.py
index 327339b..51c0ca0 100644
--- a/ipyparallel/serialize/serialize.py
+++ b/ipyparallel/serialize/serialize.py
@@ -102,7 +102,8 @@ def serialize_object(obj, buffer_threshold=MAX_BYTES, item_threshold=MAX_ITEMS):
             buffers.extend(_extract_buffers(c, buffer_threshold))
     elif istype(obj, dict) and len(obj) < item_threshold:
         cobj = {}
-        for k in sorted(obj):
+        # same order on both sides; keys need not be sortable
+        for k in obj:
             c = can(obj[k])
             buffers.extend(_extract_buffers(c, buffer_threshold))
             cobj[k] = c
@@ -135,8 +136,7 @@ def deserialize_object(buffers, g=None):
         newobj = uncan_sequence(canned, g)
     elif istype(canned, dict) and len(canned) < MAX_ITEMS:
         newobj = {}
-        for k in sorted(canned):
-            c = canned[k]
+        for k, c in canned.items():
             _restore_buffers(c, bufs)
             newobj[k] = uncan(c, g)
     else:
-- 
2.43.0


From 936a0bce07c6ff35eb559e6392cb7f5c874b0492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 12/76] fix: uncan containers canned with an item_threshold
 above the default

---
 ipyparallel/serialize/serialize.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/serialize/serialize.py b/ipyparallel/serialize/serialize.py
index 51c0ca0..088685b 100644
--- a/ipyparallel/serialize/serialize.py
+++ b/ipyparallel/serialize/serialize.py
@@ -66,6 +66,14 @@ def _extract_buffers(obj, threshold=MAX_BYTES):
     return buffers
 
 
+def _is_canned(items):
+    """whether the elements of a container have been canned one by one
+
+    The sender's item_threshold may be larger than ours.
+    """
+    return len(items) < MAX_ITEMS or any(isinstance(c, CannedObject) for c in items)
+
+
 def _restore_buffers(obj, buffers):
     """restore buffers extracted by _extract_buffers"""
     if isinstance(obj, CannedObject) and obj.buffers:
@@ -130,11 +138,11 @@ def deserialize_object(buffers, g=None):
     bufs = list(buffers)
     pobj = bufs.pop(0)
     canned = pickle.loads(pobj)
-    if istype(canned, sequence_types) and len(canned) < MAX_ITEMS:
+    if istype(canned, sequence_types) and _is_canned(canned):
         for c in canned:
             _restore_buffers(c, bufs)
         newobj = uncan_sequence(canned, g)
-    elif istype(canned, dict) and len(canned) < MAX_ITEMS:
+    elif istype(canned, dict) and _is_canned(canned.values()):
         newobj = {}
         for k, c in canned.items():
             _restore_buffers(c, bufs)
-- 
2.43.0


From 42279d4ae872006dd4f5a178e95032b617485602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 13/76] fix: arrays in closures, defaults, partials and classes
 can be pickled

---
 ipyparallel/serialize/canning.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ipyparallel/serialize/canning.py b/ipyparallel/serialize/canning.py
index daadc65..14ad4fd 100644
--- a/ipyparallel/serialize/canning.py
+++ b/ipyparallel/serialize/canning.py
@@ -126,6 +126,17 @@ class CannedObject:
 
         self.buffers = []
 
+    def __getstate__(self):
+        # buffers still here when we are pickled (e.g. nested in another
+        # canned object) travel by value: memoryviews cannot be pickled
+        state = self.__dict__.copy()
+        if state.get('buffers'):
+            state['buffers'] = [
+                buf.tobytes() if isinstance(buf, memoryview) else buf
+                for buf in state['buffers']
+            ]
+        return state
+
     def get_object(self, g=None):
         if g is None:
             g = {}
-- 
2.43.0


From 3722c9e0837796990410e6f46a9fc8079f2d27c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 14/76] fix: resolve references in keyword-only defaults like
 other defaults

---
 ipyparallel/serialize/canning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/serialize/canning.py b/ipyparallel/serialize/canning.py
index 14ad4fd..3b31544 100644
--- a/ipyparallel/serialize/canning.py
+++ b/ipyparallel/serialize/canning.py
@@ -230,11 +230,11 @@ class CannedFunction(CannedObject):
             defaults = None
 
         if self.kwdefaults:
-            kwdefaults = uncan_dict(self.kwdefaults)
+            kwdefaults = uncan_dict(self.kwdefaults, g)
         else:
             kwdefaults = None
         if self.annotations:
-            annotations = uncan_dict(self.annotations)
+            annotations = uncan_dict(self.annotations, g)
         else:
             annotations = {}
 
-- 
2.43.0


From eff8961c0822809c477ebc6bf7e2b39200316853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 15/76] fix: arrays of any dtype keep it, also datetimes,
 aligned and nested records

---
 ipyparallel/serialize/canning.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ipyparallel/serialize/canning.py b/ipyparallel/serialize/canning.py
index 3b31544..ca2eb50 100644
--- a/ipyparallel/serialize/canning.py
+++ b/ipyparallel/serialize/canning.py
@@ -332,26 +332,26 @@ class CannedArray(CannedObject):
         from numpy import ascontiguousarray
 
         self.shape = obj.shape
-        self.dtype = obj.dtype.descr if obj.dtype.fields else obj.dtype.str
+        self.dtype = obj.dtype
         self.pickled = False
         if sum(obj.shape) == 0:
             self.pickled = True
-        elif obj.dtype == 'O':
+        elif obj.dtype.hasobject:
             # can't handle object dtype with buffer approach
             self.pickled = True
-        elif obj.dtype.fields and any(
-            dt == 'O' for dt, sz in obj.dtype.fields.values()
-        ):
-            self.pickled = True
+        else:
+            # ensure contiguous
+            contiguous = ascontiguousarray(obj, dtype=None)
+            try:
+                self.buffers = [memoryview(contiguous)]
+            except ValueError:
+                # no buffer interface for this dtype, e.g. datetime64
+                self.pickled = True
         if self.pickled:
             # just pickle it
             from . import serialize
 
             self.buffers = [serialize.pickle.dumps(obj, serialize.PICKLE_PROTOCOL)]
-        else:
-            # ensure contiguous
-            obj = ascontiguousarray(obj, dtype=None)
-            self.buffers = [memoryview(obj)]
 
     def get_object(self, g=None):
         from numpy import frombuffer
-- 
2.43.0


From 3c34c96e5d7fdeffdedd772563990d95ecc4b98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 16/76] fix: an abort request naming no messages is answered

---
 ipyparallel/engine/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/engine/kernel.py b/ipyparallel/engine/kernel.py
index f346371..90426cc 100644
--- a/ipyparallel/engine/kernel.py
+++ b/ipyparallel/engine/kernel.py
@@ -229,7 +229,7 @@ class IPythonParallelKernel(IPythonKernel):
             f = self._abort_queues()
             if inspect.isawaitable(f):
                 asyncio.ensure_future(f)
-        for mid in msg_ids:
+        for mid in msg_ids or []:
             self.aborted.add(str(mid))
 
         content = dict(status='ok')
-- 
2.43.0


From a8ddd2ab5cbdeaf97000df40cd9d10998e66f5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 17/76] fix: push keeps a pushed name equal to its temporary
 one

---
 ipyparallel/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/util.py b/ipyparallel/util.py
index 7a67598..686a7e1 100644
--- a/ipyparallel/util.py
+++ b/ipyparallel/util.py
@@ -308,7 +308,7 @@ def _push(**ns):
     """helper method for implementing `client.push` via `client.apply`"""
     user_ns = get_ipython().user_global_ns
     tmp = '_IP_PUSH_TMP_'
-    while tmp in user_ns:
+    while tmp in user_ns or tmp in ns:
         tmp = tmp + '_'
     try:
         for name, value in ns.items():
-- 
2.43.0


From 950d6346d4c3e0189a9261eab0444493e31ae8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 18/76] fix: $gt queries of the in-memory database mean greater
 than

---
 ipyparallel/controller/dictdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index e9e67e7..619cfc5 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -50,7 +50,7 @@ copy._deepcopy_dispatch[memoryview] = lambda x, memo: memoryview(x)
 
 filters = {
     '$lt': lambda a, b: a < b,
-    '$gt': lambda a, b: b > a,
+    '$gt': lambda a, b: a > b,
     '$eq': lambda a, b: a == b,
     '$ne': lambda a, b: a != b,
     '$lte': lambda a, b: a <= b,
-- 
2.43.0


From 4a6bc07a576ca79946f237678f521dd48c9b8aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 19/76] fix: each equality condition of an in-memory query
 compares with its own value

---
 ipyparallel/controller/dictdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index 619cfc5..202996c 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -158,7 +158,7 @@ class DictDB(BaseDB):
             if isinstance(v, dict):
                 tests[k] = CompositeFilter(v)
             else:
-                tests[k] = lambda o: _add_tz(o) == _add_tz(v)
+                tests[k] = CompositeFilter({'$eq': v})
 
         for rec in self._records.values():
             if self._match_one(rec, tests):
-- 
2.43.0


From f18b91379cde8c953dd7296432514c3e9fecd4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 20/76] fix: comparing an absent value in an in-memory query is
 no match, not an error

---
 ipyparallel/controller/dictdb.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index 202996c..4c23823 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -37,6 +37,7 @@ DictDB supports a subset of mongodb operators::
 # Distributed under the terms of the Modified BSD License.
 import copy
 import fnmatch
+import operator
 from copy import deepcopy
 from datetime import datetime
 
@@ -48,17 +49,23 @@ from ..util import ensure_timezone
 # Python can't copy memoryviews, but creating another memoryview works for us
 copy._deepcopy_dispatch[memoryview] = lambda x, memo: memoryview(x)
 
+
+def _comparison(op):
+    """An ordering test, which absent values (None) never pass"""
+    return lambda a, b: a is not None and b is not None and op(a, b)
+
+
 filters = {
-    '$lt': lambda a, b: a < b,
-    '$gt': lambda a, b: a > b,
+    '$lt': _comparison(operator.lt),
+    '$gt': _comparison(operator.gt),
     '$eq': lambda a, b: a == b,
     '$ne': lambda a, b: a != b,
-    '$lte': lambda a, b: a <= b,
-    '$gte': lambda a, b: a >= b,
+    '$lte': _comparison(operator.le),
+    '$gte': _comparison(operator.ge),
     '$in': lambda a, b: a in b,
     '$nin': lambda a, b: a not in b,
     '$all': lambda a, b: all([a in bb for bb in b]),
-    '$mod': lambda a, b: a % b[0] == b[1],
+    '$mod': lambda a, b: a is not None and a % b[0] == b[1],
     '$exists': lambda a, b: (b and a is not None) or (a is None and not b),
     '$glob': lambda a, b: fnmatch.fnmatch(a, b) if a is not None else False,
 }
-- 
2.43.0


From 35305da568d8c5d24ad46afe6fc2ceddba936769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 21/76] fix: $all queries match fields containing all of the
 values

---
 ipyparallel/controller/dictdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index 4c23823..014abb1 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -64,7 +64,7 @@ filters = {
     '$gte': _comparison(operator.ge),
     '$in': lambda a, b: a in b,
     '$nin': lambda a, b: a not in b,
-    '$all': lambda a, b: all([a in bb for bb in b]),
+    '$all': lambda a, b: a is not None and all([bb in a for bb in b]),
     '$mod': lambda a, b: a is not None and a % b[0] == b[1],
     '$exists': lambda a, b: (b and a is not None) or (a is None and not b),
     '$glob': lambda a, b: fnmatch.fnmatch(a, b) if a is not None else False,
-- 
2.43.0


From 59147b7826ee57493185942380170f4ef5f75b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 22/76] fix: in-memory databases do not share the set of culled
 ids

---
 ipyparallel/controller/dictdb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index 014abb1..ceaa025 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -41,7 +41,7 @@ import operator
 from copy import deepcopy
 from datetime import datetime
 
-from traitlets import Dict, Float, Integer, Unicode
+from traitlets import Dict, Float, Integer, Set, Unicode
 from traitlets.config.configurable import LoggingConfigurable
 
 from ..util import ensure_timezone
@@ -115,7 +115,7 @@ class DictDB(BaseDB):
     """
 
     _records = Dict()
-    _culled_ids = set()  # set of ids which have been culled
+    _culled_ids = Set()  # set of ids which have been culled
     _buffer_bytes = Integer(0)  # running total of the bytes in the DB
 
     size_limit = Integer(
-- 
2.43.0


From 00d2a94609004f4ba9e022c7011e65352b8c7ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 23/76] fix: culling by count gets back to the record limit,
 whatever the fraction

---
 ipyparallel/controller/dictdb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index ceaa025..53ca206 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -204,7 +204,9 @@ class DictDB(BaseDB):
     def _maybe_cull(self):
         # cull by count:
         if len(self._records) > self.record_limit:
-            to_cull = int(self.cull_fraction * self.record_limit)
+            # always get back to the limit, also when the fraction is below one record
+            excess = len(self._records) - self.record_limit
+            to_cull = max(excess, int(self.cull_fraction * self.record_limit))
             self.log.info(
                 "%i records exceeds limit of %i, culling oldest %i",
                 len(self._records),
-- 
2.43.0


From 0c94fa253d8f936a845a319de54578608a8e357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 24/76] fix: culling by size stops when there is nothing left
 to cull

---
 ipyparallel/controller/dictdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index 53ca206..b468f33 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -222,7 +222,7 @@ class DictDB(BaseDB):
             before = self._buffer_bytes
             before_count = len(self._records)
             culled = 0
-            while self._buffer_bytes > limit:
+            while self._buffer_bytes > limit and self.get_history():
                 self._cull_oldest(1)
                 culled += 1
 
-- 
2.43.0


From c64097b7b18906960b8cae045ddc60833f250a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 25/76] fix: a record added again after being culled can be
 read

---
 ipyparallel/controller/dictdb.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index b468f33..d8749a0 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -253,6 +253,7 @@ class DictDB(BaseDB):
             raise KeyError(f"Already have msg_id {msg_id!r}")
         self._check_dates(rec)
         self._records[msg_id] = rec
+        self._culled_ids.discard(msg_id)
         self._add_bytes(rec)
         self._maybe_cull()
 
-- 
2.43.0


From 3a209d6e48294672de187fa9c55dd3b0ce11a861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 26/76] fix: an empty query of the sqlite database matches
 everything

---
 ipyparallel/controller/sqlitedb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index 8eb42ff..94fae34 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -370,7 +370,8 @@ class SQLiteDB(BaseDB):
                     expressions.append(f"{name} = ?")
                     args.append(sub_check)
 
-        expr = " AND ".join(expressions)
+        # no condition matches everything
+        expr = " AND ".join(expressions) or "1"
         return expr, args
 
     def add_record(self, msg_id, rec):
-- 
2.43.0


From ed4a33a5a405d88b4f5c1591756744e492cb43eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 27/76] fix: membership in an empty list is a valid query of
 the sqlite database

---
 ipyparallel/controller/sqlitedb.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index 94fae34..8bd1d0d 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -357,7 +357,11 @@ class SQLiteDB(BaseDB):
                                 raise ValueError(
                                     f"Cannot use {test!r} test with NULL values on SQLite backend"
                                 )
-                            expr = f'( {join.join([expr] * len(value))} )'
+                            if value:
+                                expr = f'( {join.join([expr] * len(value))} )'
+                            else:
+                                # nothing is in an empty list
+                                expr = '0' if test == '$in' else '1'
                             args.extend(value)
                         else:
                             args.append(value)
-- 
2.43.0


From 5498477f4b5eed2f20c75758fb9f5d2ce172aace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 28/76] fix: querying the sqlite database does not alter the
 caller's list of keys

---
 ipyparallel/controller/sqlitedb.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index 8bd1d0d..accc0bc 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -445,9 +445,7 @@ class SQLiteDB(BaseDB):
 
         if keys:
             # ensure msg_id is present and first:
-            if 'msg_id' in keys:
-                keys.remove('msg_id')
-            keys.insert(0, 'msg_id')
+            keys = ['msg_id'] + [key for key in keys if key != 'msg_id']
             req = ', '.join(keys)
         else:
             req = '*'
-- 
2.43.0


From b2f9bf948d20ee643baf7850df39eaa46cb4579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 29/76] fix: absent values are not equal to given ones in
 sqlite queries

---
 ipyparallel/controller/sqlitedb.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index accc0bc..6a8bbfe 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -39,11 +39,11 @@ operators = {
     '$gt': ">",
     # null is handled weird with ==,!=
     '$eq': "=",
-    '$ne': "!=",
+    '$ne': "IS NOT",
     '$lte': "<=",
     '$gte': ">=",
     '$in': ('=', ' OR '),
-    '$nin': ('!=', ' AND '),
+    '$nin': ('IS NOT', ' AND '),
     # '$all': None,
     # '$mod': None,
     # '$exists' : None
@@ -51,7 +51,7 @@ operators = {
 }
 null_operators = {
     '=': "IS NULL",
-    '!=': "IS NOT NULL",
+    'IS NOT': "IS NOT NULL",
 }
 
 
-- 
2.43.0


From c03716665a28ae94a9cd1269ae7dc172b4fd69ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 30/76] fix: the sqlite database orders timestamps of different
 zones by instant

---
 ipyparallel/controller/sqlitedb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index 6a8bbfe..dc16cfb 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -10,7 +10,7 @@ try:
 except ImportError:
     import pickle
 
-from datetime import datetime
+from datetime import datetime, timezone
 
 try:
     import sqlite3
@@ -91,7 +91,8 @@ def _convert_bufs(bs):
 
 def _adapt_timestamp(dt):
     """Adapt datetime to text"""
-    return ensure_timezone(dt).isoformat()
+    # always UTC: timestamps are compared as text
+    return ensure_timezone(dt).astimezone(timezone.utc).isoformat()
 
 
 def _convert_timestamp(s):
-- 
2.43.0


From 9bf9060860b43001abecbeee380004c1029ce61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:57 +0000
Subject: [PATCH 31/76] fix: an empty list of keys asks the sqlite database for
 whole records

---
 ipyparallel/controller/sqlitedb.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index dc16cfb..cb4eeb5 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -449,6 +449,7 @@ class SQLiteDB(BaseDB):
             keys = ['msg_id'] + [key for key in keys if key != 'msg_id']
             req = ', '.join(keys)
         else:
+            keys = None
             req = '*'
         expr, args = self._render_expression(check)
         query = f"""SELECT {req} FROM '{self.table}' WHERE {expr}"""
-- 
2.43.0


From e338948c3f28ad5e6a99c2b44326b3c8f6fe2be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 32/76] fix: a url with an invalid port is refused as such

---
 ipyparallel/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/util.py b/ipyparallel/util.py
index 686a7e1..cc7c2db 100644
--- a/ipyparallel/util.py
+++ b/ipyparallel/util.py
@@ -162,7 +162,7 @@ def validate_url(url):
         try:
             port = int(s_port)
         except ValueError:
-            raise AssertionError(f"Invalid port {port!r} in url: {url!r}")
+            raise AssertionError(f"Invalid port {s_port!r} in url: {url!r}")
 
         assert addr == '*' or pat.match(addr) is not None, f'Invalid url: {url!r}'
 
-- 
2.43.0


From e4e5953b6f4490b99afb6d1639df6469f9d3b530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 33/76] fix: is_ip recognizes ip addresses

---
 ipyparallel/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/util.py b/ipyparallel/util.py
index cc7c2db..4f25495 100644
--- a/ipyparallel/util.py
+++ b/ipyparallel/util.py
@@ -201,7 +201,7 @@ def is_ip(location):
 
     It could be a hostname.
     """
-    return bool(re.match(location, r'(\d+\.){3}\d+'))
+    return bool(re.match(r'(\d+\.){3}\d+$', location))
 
 
 @lru_cache
-- 
2.43.0


From 418570b83c8159e13e13dfcc7c4a233752fc0b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 34/76] fix: replacing a value of a ReverseDict removes the old
 reverse key

---
 ipyparallel/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipyparallel/util.py b/ipyparallel/util.py
index 4f25495..a85f30c 100644
--- a/ipyparallel/util.py
+++ b/ipyparallel/util.py
@@ -74,6 +74,9 @@ class ReverseDict(dict):
     def __setitem__(self, key, value):
         if key in self._reverse:
             raise KeyError(f"Can't have key {key!r} on both sides!")
+        if key in self:
+            # the replaced value is no longer a key of the other side
+            self._reverse.pop(dict.__getitem__(self, key), None)
         dict.__setitem__(self, key, value)
         self._reverse[value] = key
 
-- 
2.43.0


From 7adb83387211d342c1035d4d85ca26ad31302e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 35/76] fix: flatten composite errors among collected results

---
 ipyparallel/error.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/error.py b/ipyparallel/error.py
index d09144e..8a84f2f 100644
--- a/ipyparallel/error.py
+++ b/ipyparallel/error.py
@@ -236,8 +236,8 @@ def collect_exceptions(rdict_or_list, method='unspecified'):
             # the errors out of them and put them in our new list.  This
             # has the effect of flattening lists of CompositeErrors into one
             # CompositeError
-            if en == 'CompositeError':
-                for e in ev.elist:
+            if isinstance(r, CompositeError):
+                for e in r.elist:
                     elist.append(e)
             else:
                 elist.append((en, ev, etb, ei))
-- 
2.43.0


From e806ee9fbf2d557c21153bd698a81db8c644df29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 36/76] fix: aborted tasks count as failures when results are
 collected

---
 ipyparallel/error.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipyparallel/error.py b/ipyparallel/error.py
index 8a84f2f..cd4f9f1 100644
--- a/ipyparallel/error.py
+++ b/ipyparallel/error.py
@@ -241,6 +241,9 @@ def collect_exceptions(rdict_or_list, method='unspecified'):
                     elist.append(e)
             else:
                 elist.append((en, ev, etb, ei))
+        elif isinstance(r, TaskAborted):
+            # never ran, so there is no remote error
+            elist.append((r.__class__.__name__, str(r), None, {}))
     if len(elist) == 0:
         return rdict_or_list
     else:
-- 
2.43.0


From 442e9522cfdee9ab0d871576d7c4ce1f9922a2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 37/76] fix: remote errors can be pickled and copied

---
 ipyparallel/error.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ipyparallel/error.py b/ipyparallel/error.py
index cd4f9f1..9abdc9a 100644
--- a/ipyparallel/error.py
+++ b/ipyparallel/error.py
@@ -83,6 +83,13 @@ class RemoteError(KernelError):
         self.engine_info = engine_info or {}
         self.args = (ename, evalue)
 
+    def __reduce__(self):
+        return (
+            self.__class__,
+            (self.ename, self.evalue, self.traceback, self.engine_info),
+            self.__dict__,
+        )
+
     def __repr__(self):
         engineid = self.engine_info.get('engine_id', ' ')
         return f"<{self.__class__.__name__}[{engineid}]:{self.ename}({self.evalue})>"
@@ -147,6 +154,9 @@ class CompositeError(RemoteError):
         self.elist = elist
         self.args = [e[0] for e in elist]
 
+    def __reduce__(self):
+        return (self.__class__, (self.msg, self.elist), self.__dict__)
+
     def _get_traceback(self, ev):
         try:
             tb = ev._ipython_traceback_text
@@ -207,6 +217,9 @@ class AlreadyDisplayedError(RemoteError):
         self.original_error = original_error
         self.n = len(self.original_error.elist)
 
+    def __reduce__(self):
+        return (self.__class__, (self.original_error,), self.__dict__)
+
     def __repr__(self):
         return f"<{self.__class__.__name__}({self.n} errors)>"
 
-- 
2.43.0


From 9fb1e38e8f3a249583821d7feda8e2a6689029f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 38/76] fix: wrap exceptions whose text cannot be made

---
 ipyparallel/error.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/error.py b/ipyparallel/error.py
index 9abdc9a..aa91dc9 100644
--- a/ipyparallel/error.py
+++ b/ipyparallel/error.py
@@ -268,11 +268,15 @@ def collect_exceptions(rdict_or_list, method='unspecified'):
 def wrap_exception(engine_info={}):
     etype, evalue, tb = sys.exc_info()
     stb = traceback.format_exception(etype, evalue, tb)
+    try:
+        text = str(evalue)
+    except Exception:
+        text = f"<unprintable {etype.__name__} object>"
     exc_content = {
         'status': 'error',
         'traceback': stb,
         'ename': etype.__name__,
-        'evalue': str(evalue),
+        'evalue': text,
         'engine_info': engine_info,
     }
     return exc_content
-- 
2.43.0


From 9542f3d6e15d4088e1ca774286a738ca5da9b007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 39/76] fix: a view call that sends nothing adds nothing to the
 view's history

---
 ipyparallel/client/view.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index b086b5a..0245c63 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -38,8 +38,7 @@ def save_ids(f, self, *args, **kwargs):
     try:
         ret = f(self, *args, **kwargs)
     finally:
-        nmsgs = len(self.client.history) - n_previous
-        msg_ids = self.client.history[-nmsgs:]
+        msg_ids = self.client.history[n_previous:]
         self.history.extend(msg_ids)
         self.outstanding.update(msg_ids)
     return ret
-- 
2.43.0


From 37b0f8f86f97ad23b7ee4719a84c57369badd517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 40/76] fix: client metadata holds only messages' metadata

---
 ipyparallel/client/client.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 0e7fd64..98fab1e 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1285,7 +1285,6 @@ class Client(HasTraits):
                 if ident_str in self._engines.values():
                     # save for later, in case of engine death
                     self._outstanding_dict[ident_str].add(msg_id)
-            self.metadata['submitted'] = util.utcnow()
 
         if expect_reply:
             futures = self.create_message_futures(
-- 
2.43.0


From 56c0fb9190bbadeb76387232b66bee488e4b5cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 41/76] fix: purging the results of chosen engines finds them,
 engine 0 included

---
 ipyparallel/client/client.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 98fab1e..957fda2 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -252,6 +252,11 @@ def _is_future(f):
     return hasattr(f, 'add_done_callback')
 
 
+def _unspecified(arg):
+    """True if a `jobs` or `targets` argument selects nothing (0 is an engine or an index)"""
+    return arg is None or (isinstance(arg, (str, list, tuple, set, range)) and not arg)
+
+
 # carriage return pattern
 _cr_pat = re.compile(r'.*\r(?=[^\n])')
 
@@ -2331,13 +2336,13 @@ class Client(HasTraits):
 
     def _msg_ids_from_target(self, targets=None):
         """Build a list of msg_ids from the list of engine targets"""
-        if not targets:  # needed as _build_targets otherwise uses all engines
+        if _unspecified(targets):  # _build_targets otherwise uses all engines
             return []
-        target_ids = self._build_targets(targets)[0]
+        target_ids = [ident.decode("utf8") for ident in self._build_targets(targets)[0]]
         return [
             md_id
-            for md_id in self.metadata
-            if self.metadata[md_id]["engine_uuid"] in target_ids
+            for md_id, md in list(self.metadata.items())
+            if md["engine_uuid"] in target_ids
         ]
 
     def _msg_ids_from_jobs(self, jobs=None):
@@ -2431,10 +2436,10 @@ class Client(HasTraits):
         RuntimeError : if any of the tasks to be purged are still outstanding.
 
         """
-        if not targets and not jobs:
+        if _unspecified(targets) and _unspecified(jobs):
             raise ValueError("Must specify at least one of `targets` and `jobs`")
 
-        if jobs == 'all':
+        if isinstance(jobs, str) and jobs == 'all':
             if self.outstanding:
                 raise RuntimeError(f"Can't purge outstanding tasks: {self.outstanding}")
             self.results.clear()
@@ -2473,9 +2478,9 @@ class Client(HasTraits):
 
             default : None
         """
-        if not targets and not jobs:
+        if _unspecified(targets) and _unspecified(jobs):
             raise ValueError("Must specify at least one of `targets` and `jobs`")
-        if targets:
+        if not _unspecified(targets):
             targets = self._build_targets(targets)[1]
 
         # construct msg_ids from jobs
-- 
2.43.0


From 3f00ec53a76cbac74099b402cf5a3f78aed16e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 42/76] fix: result_status keeps local and fetched results
 apart, and takes a repeated id

---
 ipyparallel/client/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 957fda2..f60124c 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2238,7 +2238,7 @@ class Client(HasTraits):
             if msg_id in self.results:
                 completed.append(msg_id)
                 local_results[msg_id] = self.results[msg_id]
-                theids.remove(msg_id)
+        theids = [msg_id for msg_id in theids if msg_id not in local_results]
 
         if theids:  # some not locally cached
             content = dict(msg_ids=theids, status_only=status_only)
@@ -2262,7 +2262,7 @@ class Client(HasTraits):
         content.update(local_results)
 
         # update cache with results:
-        for msg_id in sorted(theids):
+        for msg_id in sorted(set(theids)):
             if msg_id in content['completed']:
                 rec = content[msg_id]
                 parent = util.extract_dates(rec['header'])
-- 
2.43.0


From 93a75c7fc7ab0a69b08d62b294ac3168a05bcaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 43/76] fix: a late reply does not disturb a result that is
 already resolved

---
 ipyparallel/client/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index f60124c..35bd65b 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -917,7 +917,9 @@ class Client(HasTraits):
         future = self._futures.get(msg_id, None)
         if msg_id not in self.outstanding:
             if msg_id in self.history:
+                # already resolved, e.g. as lost with its engine
                 print(f"got stale result: {msg_id}")
+                return
             else:
                 print(f"got unknown result: {msg_id}")
         else:
@@ -978,9 +980,9 @@ class Client(HasTraits):
         future = self._futures.get(msg_id, None)
         if msg_id not in self.outstanding:
             if msg_id in self.history:
+                # already resolved, e.g. as lost with its engine
                 print(f"got stale result: {msg_id}")
-                print(self.results[msg_id])
-                print(msg)
+                return
             else:
                 print(f"got unknown result: {msg_id}")
         else:
-- 
2.43.0


From 07b468f28724d668d53be1a6c49dea2892a1aace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 44/76] fix: get_result covers every message it is asked for,
 in order

---
 ipyparallel/client/client.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 35bd65b..9525ae4 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2379,12 +2379,15 @@ class Client(HasTraits):
             single = False
         futures = []
         msg_ids = []
+        remote = False
         for job in jobs:
             if isinstance(job, int):
                 job = self.history[job]
             if isinstance(job, str):
-                if job in self._futures:
-                    futures.append(job)
+                msg_ids.append(job)
+                future = self._futures.get(job)
+                if future is not None:
+                    futures.append(future)
                 elif job in self.results:
                     f = MessageFuture(job)
                     f.set_result(self.results[job])
@@ -2393,15 +2396,19 @@ class Client(HasTraits):
                     f.output.set_result(None)
                     futures.append(f)
                 else:
-                    msg_ids.append(job)
+                    remote = True
             elif isinstance(job, AsyncResult):
+                msg_ids.extend(job.msg_ids)
                 if job._children:
                     futures.extend(job._children)
                 else:
-                    msg_ids.extend(job.msg_ids)
+                    remote = True
+                # a result for several messages stays one
+                single = single and job._single_result
             else:
                 raise TypeError(f"Expected msg_id, int, or AsyncResult, got {job!r}")
-        if msg_ids:
+        if remote:
+            # the Hub has those we no longer have; all of them stay in order
             if single:
                 msg_ids = msg_ids[0]
             return AsyncHubResult(self, msg_ids, owner=owner)
-- 
2.43.0


From 9a07d80fafbefd1f2db181acdb1e98c5c0c7404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 45/76] fix: waiting for results from the Hub does not raise
 their errors, iterating over them waits for all

---
 ipyparallel/client/asyncresult.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 92bc962..11fcdb3 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1161,6 +1161,24 @@ class AsyncHubResult(AsyncResult):
         """disable Future-based resolution of Hub results"""
         pass
 
+    def __iter__(self):
+        # no individual futures to wait for
+        if self._single_result:
+            raise TypeError("AsyncResults with a single result are not iterable.")
+        yield from self.get()
+
+    def _fetch(self, msg_ids):
+        """Fetch what the Hub has of msg_ids, return those still pending"""
+        try:
+            return self._client.result_status(msg_ids, status_only=False)['pending']
+        except (error.RemoteError, error.CompositeError):
+            # failures among the results are raised when they are asked for
+            pending = [m for m in msg_ids if m not in self._client.results]
+            if len(pending) == len(msg_ids):
+                # the request failed
+                raise
+            return pending
+
     def wait(self, timeout=-1, return_when=None):
         """wait for result to complete."""
         start = time.perf_counter()
@@ -1175,13 +1193,11 @@ class AsyncHubResult(AsyncResult):
             if not remote_ids:
                 self._ready = True
             else:
-                rdict = self._client.result_status(remote_ids, status_only=False)
-                pending = rdict['pending']
+                pending = self._fetch(remote_ids)
                 while pending and (
                     timeout is None or time.perf_counter() < start + timeout
                 ):
-                    rdict = self._client.result_status(remote_ids, status_only=False)
-                    pending = rdict['pending']
+                    pending = self._fetch(remote_ids)
                     if pending:
                         time.sleep(0.1)
                 if not pending:
-- 
2.43.0


From 56e62ff3e9658372d2890b097966d166091d3246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 46/76] fix: results from the Hub can be had with their
 exceptions in place

---
 ipyparallel/client/asyncresult.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 11fcdb3..9d135ca 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1206,6 +1206,7 @@ class AsyncHubResult(AsyncResult):
             self._output_ready = True
             try:
                 results = list(map(self._client.results.get, self.msg_ids))
+                self._raw_results = results
                 if self._single_result:
                     r = results[0]
                     if isinstance(r, Exception) and not self._return_exceptions:
-- 
2.43.0


From 34d13498a1f325fa147b44d1d044d1659cd40bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 47/76] fix: the result of an aborted task can be fetched from
 the Hub

---
 ipyparallel/client/asyncresult.py | 2 +-
 ipyparallel/client/client.py      | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 9d135ca..5ebeb4b 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1171,7 +1171,7 @@ class AsyncHubResult(AsyncResult):
         """Fetch what the Hub has of msg_ids, return those still pending"""
         try:
             return self._client.result_status(msg_ids, status_only=False)['pending']
-        except (error.RemoteError, error.CompositeError):
+        except Exception:
             # failures among the results are raised when they are asked for
             pending = [m for m in msg_ids if m not in self._client.results]
             if len(pending) == len(msg_ids):
diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 9525ae4..d2c4ade 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2295,6 +2295,9 @@ class Client(HasTraits):
                         raise KeyError(
                             "unhandled msg type: {!r}".format(header['msg_type'])
                         )
+                elif rcontent['status'] == 'aborted':
+                    res = error.TaskAborted(msg_id)
+                    failures.append(res)
                 else:
                     res = self._unwrap_exception(rcontent)
                     failures.append(res)
-- 
2.43.0


From 2733e6a58fc31946170de80446d7dfabf0c78a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:43 +0000
Subject: [PATCH 48/76] fix: a message appears once in its view's history

---
 ipyparallel/client/view.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 0245c63..85e9415 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -35,11 +35,13 @@ from .remotefunction import ParallelFunction, getname, parallel, remote
 def save_ids(f, self, *args, **kwargs):
     """Keep our history and outstanding attributes up to date after a method call."""
     n_previous = len(self.client.history)
+    n_mine = len(self.history)
     try:
         ret = f(self, *args, **kwargs)
     finally:
         msg_ids = self.client.history[n_previous:]
-        self.history.extend(msg_ids)
+        # calls made by this one have already recorded theirs
+        self.history[n_mine:] = msg_ids
         self.outstanding.update(msg_ids)
     return ret
 
-- 
2.43.0


From 78bbfdb740678f42cd7a7c44945d886071726061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:56 +0000
Subject: [PATCH 49/76] fix: a direct view's map is part of its history and
 outstanding

---
 ipyparallel/client/view.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 85e9415..6869d91 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -615,6 +615,7 @@ class DirectView(View):
         return ar
 
     @sync_results
+    @save_ids
     def map(
         self,
         f,
-- 
2.43.0


From d93053991f891ece249e131d41f6392f70071ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 50/76] fix: coalesced replies name their targets when a single
 scheduler serves all engines

---
 ipyparallel/controller/broadcast_scheduler.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ipyparallel/controller/broadcast_scheduler.py b/ipyparallel/controller/broadcast_scheduler.py
index 4b93212..a950b23 100644
--- a/ipyparallel/controller/broadcast_scheduler.py
+++ b/ipyparallel/controller/broadcast_scheduler.py
@@ -32,13 +32,14 @@ class BroadcastScheduler(Scheduler):
         self.log.info(f"BroadcastScheduler {self.name} started")
 
     def send_to_targets(self, msg, original_msg_id, targets, idents, is_coalescing):
+        # targets are (engine uuid, engine id)
         if is_coalescing:
             self.accumulated_replies[original_msg_id] = {
-                target.encode('utf8'): None for target in targets
+                target.encode('utf8'): None for target, _ in targets
             }
             self.accumulated_targets[original_msg_id] = targets
 
-        for target in targets:
+        for target, _ in targets:
             new_msg = self.append_new_msg_id_to_msg(
                 self.get_new_msg_id(original_msg_id, target), target, idents, msg
             )
@@ -137,10 +138,7 @@ class BroadcastScheduler(Scheduler):
 
         original_msg_id = metadata['original_msg_id']
         if self.is_leaf:
-            target_idents = [t[0] for t in targets]
-            self.send_to_targets(
-                msg, original_msg_id, target_idents, idents, is_coalescing
-            )
+            self.send_to_targets(msg, original_msg_id, targets, idents, is_coalescing)
         else:
             self.send_to_sub_schedulers(
                 msg, original_msg_id, targets, idents, is_coalescing
-- 
2.43.0


From 4bd02f31f5e7e9bd64795d047ce19459f2cf3690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 51/76] fix: a failure among coalesced replies is reported,
 whichever reply comes last

---
 ipyparallel/controller/broadcast_scheduler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/broadcast_scheduler.py b/ipyparallel/controller/broadcast_scheduler.py
index a950b23..699f01b 100644
--- a/ipyparallel/controller/broadcast_scheduler.py
+++ b/ipyparallel/controller/broadcast_scheduler.py
@@ -15,6 +15,7 @@ class BroadcastScheduler(Scheduler):
     port_name = 'broadcast'
     accumulated_replies = Dict()
     accumulated_targets = Dict()
+    accumulated_failures = Dict()
     is_leaf = Bool(False)
     connected_sub_scheduler_ids = List(Bytes())
     outgoing_streams = List()
@@ -89,6 +90,9 @@ class BroadcastScheduler(Scheduler):
     def coalescing_reply(self, raw_msg, msg, original_msg_id, outgoing_id, idents):
         # accumulate buffers
         self.accumulated_replies[original_msg_id][outgoing_id] = msg['buffers']
+        if msg['metadata'].get('status', 'ok') != 'ok':
+            # one failure fails the whole, whichever reply comes last
+            self.accumulated_failures.setdefault(original_msg_id, msg)
         if all(
             msg_buffers is not None
             for msg_buffers in self.accumulated_replies[original_msg_id].values()
@@ -97,7 +101,8 @@ class BroadcastScheduler(Scheduler):
             self.log.debug(f"Coalescing {len(replies)} reply to {original_msg_id}")
             targets = self.accumulated_targets.pop(original_msg_id)
 
-            new_msg = msg.copy()
+            failure = self.accumulated_failures.pop(original_msg_id, None)
+            new_msg = (failure or msg).copy()
             # begin rebuilding message
             # metadata['targets']
             if self.is_leaf:
-- 
2.43.0


From 95cb8f682cd345f8a85a585b2b0be82b6507edbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 52/76] fix: a broadcast is outstanding until its targets have
 answered, under their ids

---
 ipyparallel/client/view.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 6869d91..d42d50c 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -936,20 +936,31 @@ class BroadcastView(DirectView):
         original_msg_id = message_future.msg_id
         if not self.is_coalescing:
             futures = []
+            msg_ids = []
             for ident in s_idents:
                 msg_and_target_id = f'{original_msg_id}_{ident}'
+                msg_ids.append(msg_and_target_id)
                 future = self.client.create_message_futures(
                     msg_and_target_id,
                     message_future.header,
                     async_result=True,
-                    track=True,
+                    label=self.label,
                 )
+                # sent when the one message is
+                future[0].track = message_future.track
+                future[0].tracker = message_future.tracker
                 self.client.outstanding.add(msg_and_target_id)
                 self.client._outstanding_dict[ident].add(msg_and_target_id)
                 self.outstanding.add(msg_and_target_id)
                 futures.append(future[0])
-            if original_msg_id in self.outstanding:
-                self.outstanding.remove(original_msg_id)
+            # the message is answered under its targets' ids, never its own
+            self.client.outstanding.discard(original_msg_id)
+            self.client._futures.pop(original_msg_id, None)
+            self.client._output_futures.pop(original_msg_id, None)
+            self.client.metadata.pop(original_msg_id, None)
+            if original_msg_id in self.client.history:
+                i = self.client.history.index(original_msg_id)
+                self.client.history[i : i + 1] = msg_ids
         else:
             self.client.outstanding.add(original_msg_id)
             for ident in s_idents:
-- 
2.43.0


From 22868e22c42a9c5e3ade7ef787e3acd5d7d2f7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 53/76] fix: broadcasts carry their view's label

---
 ipyparallel/client/view.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index d42d50c..334a35a 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -930,6 +930,7 @@ class BroadcastView(DirectView):
             targets=target_tuples,
             is_broadcast=True,
             is_coalescing=self.is_coalescing,
+            label=self.label,
         )
 
     def _make_async_result(self, message_future, s_idents, **kwargs):
-- 
2.43.0


From 813874b1389b6cde59d0e7b96e58efdaa007c76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 54/76] fix: refused view options change nothing, and temporary
 ones are always undone

---
 ipyparallel/client/view.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 334a35a..3ab3eff 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -153,11 +153,18 @@ class View(HasTraits):
         label : str
             set an optional user-defined task identifier
         """
-        for name, value in kwargs.items():
+        for name in kwargs:
             if name not in self._flag_names:
                 raise KeyError(f"Invalid name: {name!r}")
-            else:
+        # all or nothing
+        previous = {name: getattr(self, name) for name in kwargs}
+        try:
+            for name, value in kwargs.items():
+                setattr(self, name, value)
+        except Exception:
+            for name, value in previous.items():
                 setattr(self, name, value)
+            raise
 
         return self  # returning self would allow direct calling of map/apply in one command (no context manager)
 
@@ -188,7 +195,8 @@ class View(HasTraits):
             yield
         finally:
             # postflight: restore saved flags
-            self.set_flags(**saved_flags)
+            for name, value in saved_flags.items():
+                setattr(self, name, value)
 
     # ----------------------------------------------------------------
     # apply
@@ -1325,13 +1333,11 @@ class LoadBalancedView(View):
             set an optional user-defined task identifier
         """
 
-        super().set_flags(**kwargs)
+        # validate all before changing any
         for name in ('follow', 'after'):
             if name in kwargs:
                 value = kwargs[name]
-                if self._validate_dependency(value):
-                    setattr(self, name, value)
-                else:
+                if not self._validate_dependency(value):
                     raise ValueError(f"Invalid dependency: {value!r}")
         if 'timeout' in kwargs:
             t = kwargs['timeout']
@@ -1341,7 +1347,7 @@ class LoadBalancedView(View):
                 if t < 0:
                     raise ValueError(f"Invalid timeout: {t}")
 
-            self.timeout = t
+        super().set_flags(**kwargs)
 
         return self  # returning self would allow direct calling of map/apply in one command (no context manager)
 
-- 
2.43.0


From 04b4e29a6b9e30f183aa9557ea85390a6dcdf474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 55/76] fix: a view's timeout can be None, as documented

---
 ipyparallel/client/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 3ab3eff..ed8fa1f 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1247,7 +1247,7 @@ class LoadBalancedView(View):
 
     follow = Any()
     after = Any()
-    timeout = CFloat()
+    timeout = CFloat(allow_none=True)
     retries = Integer(0)
     label = Any()
 
-- 
2.43.0


From 818687087ddafe3214cbd22424fca9c4599bea54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 56/76] fix: dependencies given as dictionaries are accepted
 and keep their flags

---
 ipyparallel/client/view.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index ed8fa1f..56f52e6 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1275,9 +1275,9 @@ class LoadBalancedView(View):
         elif isinstance(dep, dict):
             if set(dep.keys()) != set(Dependency().as_dict().keys()):
                 return False
-            if not isinstance(dep['msg_ids'], list):
+            if not isinstance(dep['dependencies'], list):
                 return False
-            for d in dep['msg_ids']:
+            for d in dep['dependencies']:
                 if not isinstance(d, str):
                     return False
         else:
@@ -1293,6 +1293,8 @@ class LoadBalancedView(View):
             return dep.msg_ids
         elif dep is None:
             return []
+        elif isinstance(dep, dict):
+            return Dependency(dep).as_dict()
         else:
             # pass to Dependency constructor
             return list(Dependency(dep))
-- 
2.43.0


From f08aa14c6a83728f9fb9df300e4f5a8d18e23d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 57/76] fix: the queue status of an engine can be asked by
 negative index

---
 ipyparallel/client/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index d2c4ade..22f9af4 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2335,7 +2335,7 @@ class Client(HasTraits):
             raise self._unwrap_exception(content)
         content = util.int_keys(content)
         if isinstance(targets, int):
-            return content[targets]
+            return content[engine_ids[0]]
         else:
             return content
 
-- 
2.43.0


From 334250fad663c83d75567382a90e639764fd8d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 58/76] fix: a load-balanced task for an empty set of targets
 is refused, not run anywhere

---
 ipyparallel/client/view.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 56f52e6..7669c05 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1434,6 +1434,9 @@ class LoadBalancedView(View):
             idents = []
         else:
             idents = self.client._build_targets(targets)[0]
+            if not idents:
+                # to the scheduler, no targets means any engine
+                raise ValueError(f"No engines selected by {targets!r}")
             # ensure *not* bytes
             idents = [ident.decode() for ident in idents]
 
-- 
2.43.0


From 00957fe3f1118149012d64e7e3ca3d9050bbc72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 59/76] fix: a map on a direct view resolves all its targets
 before it sends anything

---
 ipyparallel/client/remotefunction.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ipyparallel/client/remotefunction.py b/ipyparallel/client/remotefunction.py
index 5b7a935..68c9100 100644
--- a/ipyparallel/client/remotefunction.py
+++ b/ipyparallel/client/remotefunction.py
@@ -255,13 +255,8 @@ class ParallelFunction(RemoteFunction):
                     "`chunksize` is ignored unless load balancing", UserWarning
                 )
             # multiplexed:
-            targets = self.view.targets
-            # 'all' is lazily evaluated at execution time, which is now:
-            if targets == 'all':
-                targets = client._build_targets(targets)[1]
-            elif isinstance(targets, int):
-                # single-engine view, targets must be iterable
-                targets = [targets]
+            # targets are lazily evaluated at execution time, which is now:
+            targets = client._build_targets(self.view.targets)[1]
             nparts = len(targets)
 
         futures = []
-- 
2.43.0


From a42d2624c55ceb69c44a8ce0a18985a25bb1af45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 60/76] fix: the length of a view is that of its targets,
 however they are given

---
 ipyparallel/client/view.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 7669c05..79fa0ce 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -129,8 +129,10 @@ class View(HasTraits):
         return f"<{self.__class__.__name__} {strtargets}>"
 
     def __len__(self):
-        if isinstance(self.targets, list):
+        if isinstance(self.targets, (list, tuple, range)):
             return len(self.targets)
+        elif isinstance(self.targets, slice):
+            return len(self.client.ids[self.targets])
         elif isinstance(self.targets, int):
             return 1
         else:
-- 
2.43.0


From 397cfcb8a905225d269a1e2572c7b845c64fb350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:09 +0000
Subject: [PATCH 61/76] fix: an engine that left is not among the controller's
 ids

---
 ipyparallel/controller/hub.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 282ffa1..27081da 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -988,6 +988,7 @@ class Hub(LoggingConfigurable):
         # cleanup mappings
         self.by_ident.pop(ec.ident, None)
         self.engines.pop(eid, None)
+        self.ids.discard(eid)
 
         self._save_engine_state()
 
-- 
2.43.0


From e00a880e4c7ca64756a0c0fac10d56a8d5bfe7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 62/76] fix: a broadcast to an empty set of targets is refused

---
 ipyparallel/client/view.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 79fa0ce..e9440c1 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -936,6 +936,8 @@ class BroadcastView(DirectView):
 
     def _init_metadata(self, target_tuples):
         """initialize request metadata"""
+        if not target_tuples:
+            raise ValueError("No engines selected to broadcast to")
         return dict(
             targets=target_tuples,
             is_broadcast=True,
-- 
2.43.0


From 191965301874e1fea8bb6182bb478050d97d460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 63/76] fix: coalesced replies are labelled in their own order
 at any depth

---
 ipyparallel/controller/broadcast_scheduler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipyparallel/controller/broadcast_scheduler.py b/ipyparallel/controller/broadcast_scheduler.py
index 699f01b..7211e21 100644
--- a/ipyparallel/controller/broadcast_scheduler.py
+++ b/ipyparallel/controller/broadcast_scheduler.py
@@ -90,6 +90,11 @@ class BroadcastScheduler(Scheduler):
     def coalescing_reply(self, raw_msg, msg, original_msg_id, outgoing_id, idents):
         # accumulate buffers
         self.accumulated_replies[original_msg_id][outgoing_id] = msg['buffers']
+        if not self.is_leaf:
+            # targets in the order of their replies' buffers
+            self.accumulated_targets[original_msg_id][outgoing_id] = msg['metadata'][
+                'broadcast_targets'
+            ]
         if msg['metadata'].get('status', 'ok') != 'ok':
             # one failure fails the whole, whichever reply comes last
             self.accumulated_failures.setdefault(original_msg_id, msg)
-- 
2.43.0


From d94a645f99a5530e1e5692d0b667541fc4444c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:27 +0000
Subject: [PATCH 64/76] fix: parallel functions of direct views heed the view's
 label and track, and their own targets

---
 ipyparallel/client/remotefunction.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/remotefunction.py b/ipyparallel/client/remotefunction.py
index 68c9100..169fc0c 100644
--- a/ipyparallel/client/remotefunction.py
+++ b/ipyparallel/client/remotefunction.py
@@ -249,6 +249,7 @@ class ParallelFunction(RemoteFunction):
             else:
                 nparts = maxlen
             targets = [None] * nparts
+            flags = self.flags
         else:
             if self.chunksize:
                 warnings.warn(
@@ -256,7 +257,12 @@ class ParallelFunction(RemoteFunction):
                 )
             # multiplexed:
             # targets are lazily evaluated at execution time, which is now:
-            targets = client._build_targets(self.view.targets)[1]
+            flags = dict(track=self.view.track, label=self.view.label)
+            flags.update(self.flags)
+            targets = flags.pop('targets', None)
+            if targets is None:
+                targets = self.view.targets
+            targets = client._build_targets(targets)[1]
             nparts = len(targets)
 
         futures = []
@@ -287,7 +293,7 @@ class ParallelFunction(RemoteFunction):
                 f = pf
 
             view = self.view if balanced else client[t]
-            with view.temp_flags(block=False, **self.flags):
+            with view.temp_flags(block=False, **flags):
                 ar = view.apply(f, *args)
                 ar.owner = False
 
-- 
2.43.0


From 5853208cb23ada67b331b0308994661b5b8a0239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 65/76] fix: a resumed controller does not forget which ids it
 gave out

---
 ipyparallel/controller/hub.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 27081da..2183e59 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1117,6 +1117,9 @@ class Hub(LoggingConfigurable):
         with open(self.engine_state_file) as f:
             state = json.load(f)
 
+        # finish_registration saves the state again: restore the counter first
+        self._idcounter = state['next_id']
+
         save_notifier = self.notifier
         self.notifier = None
         for eid, uuid in state['engines'].items():
@@ -1129,8 +1132,6 @@ class Hub(LoggingConfigurable):
 
         self.notifier = save_notifier
 
-        self._idcounter = state['next_id']
-
     # -------------------------------------------------------------------------
     # Client Requests
     # -------------------------------------------------------------------------
-- 
2.43.0


From b7ffb9b45c98a2ca3085ca12dad70d4a7267ae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 66/76] fix: messages stranded on an engine that left are its
 own, also when its id was taken again

---
 ipyparallel/controller/hub.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 2183e59..4bda09a 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -980,9 +980,11 @@ class Hub(LoggingConfigurable):
         self.hearts.pop(ec.ident, None)
         self.expect_stopped_hearts.append(ec.ident)
 
+        # the id may belong to another engine by the time this fires
+        outstanding = self.queues[eid]
         self.loop.add_timeout(
             self.loop.time() + self.registration_timeout,
-            lambda: self._handle_stranded_msgs(eid, ec.uuid),
+            lambda: self._handle_stranded_msgs(eid, ec.uuid, outstanding),
         )
 
         # cleanup mappings
@@ -997,7 +999,7 @@ class Hub(LoggingConfigurable):
                 self.notifier, "unregistration_notification", content=content
             )
 
-    def _handle_stranded_msgs(self, eid, uuid):
+    def _handle_stranded_msgs(self, eid, uuid, outstanding=None):
         """Handle messages known to be on an engine when the engine unregisters.
 
         It is possible that this will fire prematurely - that is, an engine will
@@ -1005,10 +1007,11 @@ class Hub(LoggingConfigurable):
         that the result failed and later receive the actual result.
         """
 
-        outstanding = self.queues[eid]
+        if outstanding is None:
+            outstanding = self.queues[eid]
 
         for msg_id in outstanding:
-            self.pending.remove(msg_id)
+            self.pending.discard(msg_id)
             self.all_completed.add(msg_id)
             try:
                 raise error.EngineError(
-- 
2.43.0


From 5442ba3466774c2fb86ade8d9c49db4466ad0c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 67/76] fix: the timeout of a cancelled registration does not
 end a later one

---
 ipyparallel/controller/hub.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 4bda09a..d78ffa0 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -965,6 +965,8 @@ class Hub(LoggingConfigurable):
             if remove_heart_id is not None:
                 self.log.info(f"registration::canceling registration {ec.id}:{ec.uuid}")
                 self.incoming_registrations.pop(remove_heart_id)
+                if ec.stallback is not None:
+                    self.loop.remove_timeout(ec.stallback)
             else:
                 self.log.info(
                     f"registration::unregister_engine({eid}) already unregistered"
-- 
2.43.0


From ca0f71323b4305d0e2e53de5e507593c5b6186ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 68/76] fix: a task that is sent again is listed with its new
 engine only

---
 ipyparallel/controller/hub.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index d78ffa0..9bc4115 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -775,6 +775,10 @@ class Hub(LoggingConfigurable):
         # else:
         #     self.log.debug("task::task %r not listed as MIA?!"%(msg_id))
 
+        # a task sent to another engine is no longer with the previous one
+        for tasks in self.tasks.values():
+            if msg_id in tasks:
+                tasks.remove(msg_id)
         self.tasks[eid].append(msg_id)
         try:
             self.db.update_record(msg_id, dict(engine_uuid=engine_uuid))
-- 
2.43.0


From 3c5c12cdc4d160ca627d9b29cec4783c229a2974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 69/76] fix: the state of a stored result is read from its own
 record

---
 ipyparallel/controller/hub.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 9bc4115..65b29be 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1432,7 +1432,7 @@ class Hub(LoggingConfigurable):
                     content[msg_id] = c
                     buffers.extend(bufs)
             elif msg_id in records:
-                if rec['completed']:
+                if records[msg_id]['completed']:
                     completed.append(msg_id)
                     c, bufs = self._extract_record(records[msg_id])
                     content[msg_id] = c
-- 
2.43.0


From c620db06543dd4b90ba0a1b94c9defe0c5f069c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 70/76] fix: load replies are keyed by engine id

---
 ipyparallel/controller/hub.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 65b29be..b434a29 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1180,7 +1180,7 @@ class Hub(LoggingConfigurable):
         content = dict(status='ok')
         # loads = {}
         for t in targets:
-            content[bytes(t)] = len(self.queues[t]) + len(self.tasks[t])
+            content[str(t)] = len(self.queues[t]) + len(self.tasks[t])
         self.session.send(
             self.query, "load_reply", content=content, ident=client_id, parent=msg
         )
-- 
2.43.0


From 21156f679ba6d44854f3fe9ef08ce026e2904214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 71/76] fix: an invalid broadcast result is dropped

---
 ipyparallel/controller/hub.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index b434a29..fe3fc0b 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -591,6 +591,7 @@ class Hub(LoggingConfigurable):
             self.log.error(
                 f'broadcast::invalid broadcast result message send to {client_id}:'
             )
+            return
 
         # save the result of a completed broadcast
         parent = msg['parent_header']
-- 
2.43.0


From b62c24e05192d429e4dc3f66471fe1ea8bd13812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 72/76] fix: a cluster with launchers that are not entry points
 can be loaded from its file

---
 ipyparallel/cluster/launcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 325858e..42de2d3 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -2527,4 +2527,5 @@ def abbreviate_launcher_class(cls):
         for entrypoint in group:
             if entrypoint.value == cls_key:
                 return entrypoint.name.lower()
-    return cls_key
+    # not registered: the name by which it can be imported
+    return f"{cls.__module__}.{cls.__name__}"
-- 
2.43.0


From 3e7812602f50d760cd8db7ffb785fc01c393aa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:29 +0000
Subject: [PATCH 73/76] fix: a result that cannot be loaded in the client is an
 error, not a call that never ends

---
 ipyparallel/client/client.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 22f9af4..a35e92f 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1007,15 +1007,29 @@ class Client(HasTraits):
 
         # construct result:
         if content['status'] == 'ok':
-            if md.get('is_coalescing', False):
-                deserialized_bufs = []
-                bufs = msg['buffers']
-                while bufs:
-                    deserialized, bufs = serialize.deserialize_object(bufs)
-                    deserialized_bufs.append(deserialized)
-                self.results[msg_id] = deserialized_bufs
-            else:
-                self.results[msg_id] = serialize.deserialize_object(msg['buffers'])[0]
+            try:
+                if md.get('is_coalescing', False):
+                    deserialized_bufs = []
+                    bufs = msg['buffers']
+                    while bufs:
+                        deserialized, bufs = serialize.deserialize_object(bufs)
+                        deserialized_bufs.append(deserialized)
+                    self.results[msg_id] = deserialized_bufs
+                else:
+                    self.results[msg_id] = serialize.deserialize_object(
+                        msg['buffers']
+                    )[0]
+            except Exception:
+                # the result cannot be loaded here: that is the outcome
+                self.results[msg_id] = error.unwrap_exception(
+                    error.wrap_exception(
+                        {
+                            'engine_uuid': md['engine_uuid'],
+                            'engine_id': md['engine_id'],
+                            'method': 'apply',
+                        }
+                    )
+                )
         elif content['status'] == 'aborted':
             self.results[msg_id] = error.TaskAborted(msg_id)
             out_future = self._output_futures.get(msg_id)
-- 
2.43.0


From 572a37c62ffcc53087ae3c9dc5ef114534b76958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:28 +0000
Subject: [PATCH 74/76] fix: AsyncResult.progress of joined results that share
 messages counts each of them

---
 ipyparallel/client/asyncresult.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 5ebeb4b..259cb31 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -795,9 +795,10 @@ class AsyncResult(Future):
         Fractional progress would be given by 1.0 * ar.progress / len(ar)
         """
         self.wait(0)
-        finished_msg_ids = set(self.msg_ids).intersection(self._client.outstanding)
-        finished_count = self._count_chunks(*finished_msg_ids)
-        return len(self) - finished_count
+        # a joined result may cover the same message more than once
+        outstanding = self._client.outstanding
+        unfinished = [msg_id for msg_id in self.msg_ids if msg_id in outstanding]
+        return len(self) - self._count_chunks(*unfinished)
 
     @property
     def elapsed(self):
-- 
2.43.0


From 1996dce40616607f143fa1e7353f43960fcbbefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:31 +0000
Subject: [PATCH 75/76] fix: the reply of an engine that was unregistered and
 came back is recorded

---
 ipyparallel/controller/hub.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index fe3fc0b..7cc7397 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -530,7 +530,10 @@ class Hub(LoggingConfigurable):
         if msg_id in self.pending:
             self.pending.remove(msg_id)
             self.all_completed.add(msg_id)
-            self.queues[eid].remove(msg_id)
+            # the engine may have been unregistered and come back since
+            # the request: then its new queue does not list it
+            if msg_id in self.queues[eid]:
+                self.queues[eid].remove(msg_id)
             self.completed[eid].append(msg_id)
             self.log.info("queue::request %r completed on %s", msg_id, eid)
         elif msg_id not in self.all_completed:
-- 
2.43.0


From 4982675359860fa7c06e048e89a59570a52b0e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:31 +0000
Subject: [PATCH 76/76] fix: the result of an engine that came back is not
 overwritten as lost

---
 ipyparallel/controller/hub.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 7cc7397..2c6011a 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1021,6 +1021,9 @@ class Hub(LoggingConfigurable):
             outstanding = self.queues[eid]
 
         for msg_id in outstanding:
+            if msg_id not in self.pending:
+                # the engine came back and has answered in the meantime
+                continue
             self.pending.discard(msg_id)
             self.all_completed.add(msg_id)
             try:
-- 
2.43.0

