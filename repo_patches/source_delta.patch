From d5d21c88a791c993272e1b4a5cd9b5b3e433129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:14 +0000
Subject: [PATCH 01/31] fix: merge pending changes without losing the lowest
 start position

Changes.add() clobbered the start of the new change before taking the minimum,
so a second change before the first one was not retokenized.
---
 parce/treebuilderutil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parce/treebuilderutil.py b/parce/treebuilderutil.py
index f688bfc..1aed16e 100644
--- a/parce/treebuilderutil.py
+++ b/parce/treebuilderutil.py
@@ -95,9 +95,9 @@ class Changes:
         else:
             offset = 0
         # determine which part of removed falls inside existing changes
-        start = max(start, self.start)
-        end = min(start + removed, self.start + self.added)
-        offset -= max(0, end - start)
+        overlap_start = max(start, self.start)
+        overlap_end = min(start + removed, self.start + self.added)
+        offset -= max(0, overlap_end - overlap_start)
         # set the new values
         self.start = min(self.start, start)
         self.removed += removed + offset
-- 
2.43.0


From 4984a18eca8347d2513dcfe4ae98b73ea53b11a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:08 +0000
Subject: [PATCH 02/31] fix: make Observable.emit robust against callbacks
 changing the connections

Connecting or disconnecting while an event is being emitted (from a callback or
another thread) skipped callbacks, removed the wrong one-shot callback or raised
IndexError; a one-shot callback could be called more than once when emitting
recursively or when a callback raised.
---
 parce/util.py | 78 +++++++++++++++++++++++++++++----------------------
 1 file changed, 45 insertions(+), 33 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index 3c26eca..67120be 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -300,6 +300,7 @@ class Observable:
     """
     def __init__(self):
         self._callbacks = {}
+        self._callbacks_lock = threading.RLock()
 
     def connect(self, event, func, once=False, prepend_self=False, priority=0):
         """Register a function to be called when a certain event occurs.
@@ -315,23 +316,38 @@ class Observable:
 
         """
         observer = _Observer(func, once, prepend_self, priority)
-        slots = self._callbacks.setdefault(event, [])
-        if observer not in slots:
-            bisect.insort_right(slots, observer)
+        with self._callbacks_lock:
+            slots = self._callbacks.setdefault(event, [])
+            if observer not in slots:
+                bisect.insort_right(slots, observer)
 
     def disconnect(self, event, func):
         """Remove a previously registered callback function."""
-        try:
-            slots = self._callbacks[event]
-        except KeyError:
-            return
         observer = _Observer(func)
-        try:
-            slots.remove(observer)
-        except ValueError:
-            return
-        if not slots:
-            del self._callbacks[event]
+        with self._callbacks_lock:
+            try:
+                slots = self._callbacks[event]
+            except KeyError:
+                return
+            try:
+                slots.remove(observer)
+            except ValueError:
+                return
+            if not slots:
+                del self._callbacks[event]
+
+    def _check_observer(self, event, observer):
+        """Return True if the observer is still connected; removes it when once is set."""
+        with self._callbacks_lock:
+            slots = self._callbacks.get(event, ())
+            for i, o in enumerate(slots):
+                if o is observer:
+                    if observer.once:
+                        del slots[i]
+                        if not slots:
+                            del self._callbacks[event]
+                    return True
+        return False
 
     def disconnect_all(self, event=None):
         """Disconnect all functions (from the event).
@@ -339,13 +355,14 @@ class Observable:
         If event is None, disconnects all connected functions from all events.
 
         """
-        if event is None:
-            self._callbacks.clear()
-        else:
-            try:
-                del self._callbacks[event]
-            except KeyError:
-                pass
+        with self._callbacks_lock:
+            if event is None:
+                self._callbacks.clear()
+            else:
+                try:
+                    del self._callbacks[event]
+                except KeyError:
+                    pass
 
     def has_connections(self, event):
         """Return True when there is at least one callback registered for the event.
@@ -374,24 +391,19 @@ class Observable:
 
         """
         s = contextlib.ExitStack()
-        try:
-            slots = self._callbacks[event]
-        except KeyError:
-            return s
-        disconnect = []
-        for i, observer in enumerate(slots):
+        with self._callbacks_lock:
+            # make a copy: a callback may (dis)connect callbacks or emit itself
+            slots = list(self._callbacks.get(event, ()))
+        for observer in slots:
+            if not self._check_observer(event, observer):
+                continue    # disconnected meanwhile
             result = observer.call(self, *args, **kwargs)
             try:
                 s.enter_context(result)
             except Exception:
                 pass
-            if observer.once:
-                disconnect.append(i)
-        if disconnect:
-            for i in reversed(disconnect):
-                del slots[i]
-            if not slots:
-                del self._callbacks[event]
+            if observer.once:   # also True when a weakly referenced method is gone
+                self._check_observer(event, observer)
         return s
 
 
-- 
2.43.0


From d786aaa3ca3c25aff0ff02e094fb4d8dc63ddbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:15 +0000
Subject: [PATCH 03/31] fix: don't fail when a node is invalidated or
 interrupted that was not transformed yet

---
 parce/transform.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parce/transform.py b/parce/transform.py
index 1f4ba34..1843bd7 100644
--- a/parce/transform.py
+++ b/parce/transform.py
@@ -311,7 +311,7 @@ class Transformer(util.Observable):
             add_untransformed = _allow_untransformed(root_meth)
             stack = []
             node, items, i = tree, ItemList(tree.lexicon.arg), 0
-            while not self._interrupt[tree]:
+            while not self._interrupt.get(tree):
                 for i in range(i, len(node)):
                     n = node[i]
                     if n.is_token:
@@ -368,10 +368,10 @@ class Transformer(util.Observable):
         yield "build"
         result = self.transform_tree(tree)
         yield "replace"
-        if not self._interrupt[tree]:
+        if not self._interrupt.get(tree):
             self._cache[tree] = result
             self.emit("updated", tree, result)
-        del self._interrupt[tree]
+        self._interrupt.pop(tree, None)
         yield "done"
         self.emit("finished", tree)
 
@@ -397,7 +397,8 @@ class Transformer(util.Observable):
 
         """
         while node.parent:
-            del self._cache[node]
+            # the node may not have been transformed yet
+            self._cache.pop(node, None)
             node = node.parent
 
     def connect_treebuilder(self, builder):
-- 
2.43.0


From 3b417875a9216bfd391ae85ca19632b36d20fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:06 +0000
Subject: [PATCH 04/31] fix: apply a root lexicon that only differs in its
 argument

Derived lexicons compare equal to their base lexicon, so when switching between
them the new tree was not recognized as a replacement of the whole tree.
---
 parce/treebuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/treebuilder.py b/parce/treebuilder.py
index e7a8c05..974b740 100644
--- a/parce/treebuilder.py
+++ b/parce/treebuilder.py
@@ -387,7 +387,7 @@ class TreeBuilder(util.Observable):
         """
         tree, start, end, offset, lexicons = result
 
-        if not tree.lexicon or tree.lexicon != self.root.lexicon:
+        if not tree.lexicon or tree.lexicon is not self.root.lexicon:
             # whole tree update
             root = self.root
             for n in tree:
-- 
2.43.0


From be3a43186ea55ee99095c971075d012b9000051c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:23 +0000
Subject: [PATCH 05/31] fix: keep the tree builder usable when a build fails

An exception raised while building (e.g. by a dynamic action or an event
handler) left the builder busy forever, and the changes being processed were
lost, so the tree never matched the text again.
---
 parce/treebuilder.py | 69 +++++++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 24 deletions(-)

diff --git a/parce/treebuilder.py b/parce/treebuilder.py
index 974b740..a099498 100644
--- a/parce/treebuilder.py
+++ b/parce/treebuilder.py
@@ -164,6 +164,8 @@ class TreeBuilder(util.Observable):
         self.root = Context(root_lexicon, None)
         self.busy = False
         self.changes = []
+        self._text = ""                 # the text most recently tokenized
+        self._root_lexicon = False      # requested, but not yet in the tree
 
     def tree(self, text):
         """Convenience method to build a tree and return the root node."""
@@ -525,6 +527,10 @@ class TreeBuilder(util.Observable):
         c = Changes()
         while self.changes:
             c.add(*self.changes.pop(0))
+        if c.has_changes():
+            self._text = c.text
+            if c.root_lexicon is not False:
+                self._root_lexicon = c.root_lexicon
         return c
 
     def start_processing(self):
@@ -556,32 +562,47 @@ class TreeBuilder(util.Observable):
         You should exhaust the generator fully.
 
         """
-        self.process_started()
         start = end = -1
         lexicons = False    # no change
-        self._lock.acquire()
-        c = self.get_changes()
-        while c and c.has_changes():
-            self._lock.release()
-            yield "build"
-            result = self.build_new_tree(c.text, c.root_lexicon, c.start, c.removed, c.added)
-            yield "replace"
-            self.emit("replace")
-            r = self.replace_tree(result)
-            start = r.start if start == -1 else min (start, r.start)
-            end = r.end if end == -1 else max(c.new_position(end), r.end)
-            if r.lexicons is not None:
-                lexicons = r.lexicons
-            self._lock.acquire()
-            c = self.get_changes()
-        if start != -1:
-            self.start = start
-        if end != -1:
-            self.end = end
-        if lexicons is not False:
-            self.lexicons = lexicons
-        self.busy = False
-        self._lock.release()
+        finished = pending = False
+        try:
+            self.process_started()
+            while True:
+                with self._lock:
+                    c = self.get_changes()
+                    if not c.has_changes():
+                        if start != -1:
+                            self.start = start
+                        if end != -1:
+                            self.end = end
+                        if lexicons is not False:
+                            self.lexicons = lexicons
+                        self.busy = False
+                        finished = True
+                        break
+                    pending = True
+                yield "build"
+                result = self.build_new_tree(c.text, c.root_lexicon, c.start, c.removed, c.added)
+                yield "replace"
+                self.emit("replace")
+                r = self.replace_tree(result)
+                pending = False
+                self._root_lexicon = False
+                start = r.start if start == -1 else min (start, r.start)
+                end = r.end if end == -1 else max(c.new_position(end), r.end)
+                if r.lexicons is not None:
+                    lexicons = r.lexicons
+        finally:
+            if not finished:
+                # an exception occurred (or the generator was not exhausted),
+                # don't block future builds and don't lose the changes
+                with self._lock:
+                    if pending:
+                        lexicon = self._root_lexicon
+                        if lexicon is False:
+                            lexicon = self.root.lexicon
+                        self.changes.insert(0, (self._text, lexicon, 0, 0, len(self._text)))
+                    self.busy = False
         yield "done"
         self.process_finished()
 
-- 
2.43.0


From b2b95109e1f3d122c8029239b524be3af76c947b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:51 +0000
Subject: [PATCH 06/31] fix: report the full updated range when a build took
 several rounds

The end position of an earlier round was translated with the changes merged
before the build, ignoring changes picked up during the build.
---
 parce/treebuilder.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parce/treebuilder.py b/parce/treebuilder.py
index a099498..2c9dc98 100644
--- a/parce/treebuilder.py
+++ b/parce/treebuilder.py
@@ -562,7 +562,7 @@ class TreeBuilder(util.Observable):
         You should exhaust the generator fully.
 
         """
-        start = end = -1
+        start = tail = -1   # tail: length of the text after the changed range
         lexicons = False    # no change
         finished = pending = False
         try:
@@ -573,8 +573,7 @@ class TreeBuilder(util.Observable):
                     if not c.has_changes():
                         if start != -1:
                             self.start = start
-                        if end != -1:
-                            self.end = end
+                            self.end = len(self._text) - tail
                         if lexicons is not False:
                             self.lexicons = lexicons
                         self.busy = False
@@ -588,8 +587,9 @@ class TreeBuilder(util.Observable):
                 r = self.replace_tree(result)
                 pending = False
                 self._root_lexicon = False
-                start = r.start if start == -1 else min (start, r.start)
-                end = r.end if end == -1 else max(c.new_position(end), r.end)
+                r_tail = len(self._text) - r.end
+                tail = r_tail if start == -1 else min(tail, r_tail)
+                start = r.start if start == -1 else min(start, r.start)
                 if r.lexicons is not None:
                     lexicons = r.lexicons
         finally:
-- 
2.43.0


From f81a598f2619f777cc10fefe2add201bea504e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:01 +0000
Subject: [PATCH 07/31] fix: let only the newest job of a Worker determine its
 state

When the text was changed or another transformer was set while an earlier job
was still transforming or calling back, a second process ran concurrently on
the same tree, the older job marked the result up-to-date while the newer was
still busy, and callbacks were called too early. After a failure the worker
could remain busy forever. The BackgroundWorker now performs its jobs one after
another.
---
 parce/work.py | 175 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 137 insertions(+), 38 deletions(-)

diff --git a/parce/work.py b/parce/work.py
index cb2be97..b5fc804 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -96,9 +96,12 @@ class Worker(util.Observable):
         self._transformer = transformer
 
         self._condition = threading.Condition()
-        self._transform_lock = threading.Lock() # prevent setting Transformer without noticing
         self._tree_state = IDLE
         self._transform_state = IDLE
+        self._job = 0           # the number of the newest job
+        self._active = False    # True until the newest job is done with the Transformer
+        self._tree_callbacks = []
+        self._transform_callbacks = []
 
         treebuilder.connect("invalidate", self.slot_invalidate)
         treebuilder.connect("replace", self.slot_replace)
@@ -118,12 +121,15 @@ class Worker(util.Observable):
 
         """
         if transformer is not self._transformer:
-            with self._transform_lock:
+            with self._condition:
                 self._transformer = transformer
-                with self._condition:
-                    start = self._transform_state & REPLACE == 0
+                self._transform_state = BUILD if transformer else IDLE
+                self._condition.notify_all()
+                start = not self._active
+                if start:
+                    self._new_job()
             if start:
-                self.start()
+                self.run_process()
 
     def transformer(self):
         """Return the current Transformer, if set."""
@@ -140,7 +146,6 @@ class Worker(util.Observable):
         """
         self._builder.add_changes(text, root_lexicon, start, removed, added)
         if not self._builder.busy:
-            self._builder.busy = True
             self.start()
 
     def start(self):
@@ -149,12 +154,35 @@ class Worker(util.Observable):
         Sets the initial state and then calls :meth:`run_process`. This method
         should always be called from the main thread.
 
+        """
+        self._new_job()
+        self.run_process()
+
+    def _new_job(self):
+        """Set the initial state for a new job.
+
+        A new job can be started while an earlier one is not yet finished (e.g.
+        transforming, or calling back); from then on only the new job alters
+        the state.
+
         """
         with self._condition:
+            self._job += 1
+            self._active = True
+            self._builder.busy = True
             self._tree_state = BUILD
-            if self._transformer and self._transform_state == IDLE:
+            if self._transformer:
                 self._transform_state = BUILD
-        self.run_process()
+
+    def _end_job(self, job):
+        """Reset the state when the job quits, if there is no newer job."""
+        with self._condition:
+            if job == self._job:
+                self._active = False
+                self._builder.busy = False
+                self._tree_state = IDLE
+                self._transform_state = IDLE
+                self._condition.notify_all()
 
     def run_process(self):
         """Exhaust the :meth:`process` generator.
@@ -173,6 +201,9 @@ class Worker(util.Observable):
         """Generator performing the actual process, exhausted by :meth:`run_process`."""
         c = self._condition
 
+        with c:
+            job = self._job
+
         try:
             ## run the treebuilder
             self.start_build()
@@ -181,37 +212,52 @@ class Worker(util.Observable):
                 state = _STATES.get(stage)
                 if state:
                     with c:
-                        self._tree_state = state
+                        if job == self._job:
+                            self._tree_state = state
             self.finish_build()
+            self._call_back(job, self._tree_callbacks)
             with c:
-                self._tree_state = IDLE
-                c.notify_all()
+                if job == self._job:
+                    self._tree_state = IDLE
+                    c.notify_all()
 
             ## run the transformer
-            self._transform_lock.acquire()
-            t, old = self._transformer, None
-            if t:
-                while t and t is not old:
-                    self._transform_lock.release()
-                    for stage in t.process(self._builder.root):
-                        yield "transform_" + stage
-                        state = _STATES.get(stage)
-                        if state is not None:
-                            with c:
-                                self._transform_state = state
-                    self._transform_lock.acquire()
+            t = None
+            while True:
+                with c:
+                    if job != self._job:
+                        return  # the newer job will transform
                     # if the transformer was replaced while running, start again
-                    t, old = self._transformer, t
-                self._transform_lock.release()
+                    if t is self._transformer:
+                        self._active = False
+                        break
+                    t = self._transformer
+                    if not t:
+                        self._active = False
+                        break
+                for stage in t.process(self._builder.root):
+                    yield "transform_" + stage
+                    state = _STATES.get(stage)
+                    if state:
+                        with c:
+                            if job == self._job and t is self._transformer:
+                                self._transform_state = state
+                                self._active = state != DONE
+            if t:
                 self.finish_transform()
-            else:
-                self._transform_lock.release()
+                self._call_back(job, self._transform_callbacks)
 
         finally:
-            with c:
-                self._tree_state = IDLE
-                self._transform_state = IDLE
-                c.notify_all()
+            self._end_job(job)
+
+    def _call_back(self, job, callbacks):
+        """Call and remove the callbacks, as long as there is no newer job."""
+        while True:
+            with self._condition:
+                if not callbacks or job != self._job:
+                    return
+                callback = callbacks.pop(0)
+            callback(self)
 
     def wait_build(self):
         """Wait for the build job to be completed.
@@ -255,8 +301,8 @@ class Worker(util.Observable):
         """
         with self._condition:
             if self._tree_state & REPLACE:
-                if callback:
-                    self.connect("tree_finished", callback, True, True)
+                if callback and callback not in self._tree_callbacks:
+                    self._tree_callbacks.append(callback)
                 if not wait:
                     return
                 self.wait_build()
@@ -279,12 +325,13 @@ class Worker(util.Observable):
         if self._transformer:
             with self._condition:
                 if self._transform_state & REPLACE:
-                    if callback:
-                        self.connect("transform_finished", callback, True, True)
+                    if callback and callback not in self._transform_callbacks:
+                        self._transform_callbacks.append(callback)
                     if not wait:
                         return
                     self.wait_transform()
-                return self._transformer.result(self._builder.root)
+                if self._transformer:
+                    return self._transformer.result(self._builder.root)
 
     def slot_invalidate(self, context):
         """Called when TreeBuilder emits ``("invalidate", context)``.
@@ -332,10 +379,62 @@ class Worker(util.Observable):
 
 
 class BackgroundWorker(Worker):
-    """A Worker implementation that does the work in a background thread."""
+    """A Worker implementation that does the work in a background thread.
+
+    There is at most one background thread at a time. When :meth:`wait_build`
+    or :meth:`wait_transform` are called from within that thread (e.g. by an
+    event handler), they return immediately.
+
+    """
+    def __init__(self, treebuilder, transformer=None):
+        super().__init__(treebuilder, transformer)
+        self._thread = None         # the running background thread
+        self._pending = False       # True if a job needs to be run
+
     def run_process(self):
         """Run the update process in a background thread."""
-        threading.Thread(target=super().run_process).start()
+        with self._condition:
+            self._pending = True
+            if self._thread:
+                # will be run by the current thread, no need to finish its transform
+                if self._transformer:
+                    self._transformer.interrupt(self._builder.root)
+                return
+            self._thread = threading.Thread(target=self._run_jobs)
+            try:
+                self._thread.start()
+            except BaseException:
+                self._thread = None
+                self._pending = False
+                self._end_job(self._job)
+                raise
+
+    def _run_jobs(self):
+        """Run the update process as long as there are jobs; called in the thread."""
+        while True:
+            with self._condition:
+                if not self._pending:
+                    self._thread = None
+                    return
+                self._pending = False
+            try:
+                super().run_process()
+            except BaseException:
+                with self._condition:
+                    self._thread = None
+                    if self._pending:
+                        self.run_process()
+                raise
+
+    def wait_build(self):
+        """Wait for the build job to be completed."""
+        if threading.current_thread() is not self._thread:
+            super().wait_build()
+
+    def wait_transform(self):
+        """Wait for the transform job to be completed."""
+        if threading.current_thread() is not self._thread:
+            super().wait_transform()
 
 
 class WorkerDocumentMixin:
-- 
2.43.0


From 85b0ba1267ac605e30af7cad944fbbf9f9c05ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:41 +0000
Subject: [PATCH 08/31] fix: don't drop tokens when a build is restarted in the
 new tree

---
 parce/treebuilder.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parce/treebuilder.py b/parce/treebuilder.py
index 2c9dc98..a422f3e 100644
--- a/parce/treebuilder.py
+++ b/parce/treebuilder.py
@@ -280,11 +280,10 @@ class TreeBuilder(util.Observable):
                 result = get_prepared_lexer(tree, text, start, True)
                 if result:
                     lexer, events, tokens = result
-                    t = tokens[0]
+                    t = tokens[-1]
                     context = t.parent
                     for p, i in ancestors_with_index(t):
                         del p[i+1:]
-                    del context[-1]
                 else:
                     tree = None
             # find insertion spot in old tree
-- 
2.43.0


From 4a7bfa16846f947654ec1e09cacdc7057f12a806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:22 +0000
Subject: [PATCH 09/31] fix: also call the callback of an empty document

---
 parce/work.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/work.py b/parce/work.py
index b5fc804..67aa785 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -595,7 +595,7 @@ class WorkerDocumentMixin:
         selfref = weakref.ref(self)
         def cb(worker):
             self = selfref()
-            if self:
+            if self is not None:    # an empty document evaluates to False
                 callback(self)
         return cb
 
-- 
2.43.0


From ee78c61d63b6cac5fb2454644069ee5be0272e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:23 +0000
Subject: [PATCH 10/31] fix: invalidate the cache of all transformers used on
 the tree

A transformer that was replaced with another and later set again returned
results for contexts that had changed in the meantime.
---
 parce/work.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/parce/work.py b/parce/work.py
index 67aa785..3ea5950 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -94,6 +94,9 @@ class Worker(util.Observable):
         super().__init__()
         self._builder = treebuilder
         self._transformer = transformer
+        self._transformers = weakref.WeakSet()  # all that were used on our tree
+        if transformer:
+            self._transformers.add(transformer)
 
         self._condition = threading.Condition()
         self._tree_state = IDLE
@@ -123,6 +126,8 @@ class Worker(util.Observable):
         if transformer is not self._transformer:
             with self._condition:
                 self._transformer = transformer
+                if transformer:
+                    self._transformers.add(transformer)
                 self._transform_state = BUILD if transformer else IDLE
                 self._condition.notify_all()
                 start = not self._active
@@ -336,11 +341,14 @@ class Worker(util.Observable):
     def slot_invalidate(self, context):
         """Called when TreeBuilder emits ``("invalidate", context)``.
 
-        Clears the node and its parents from the transform cache.
+        Clears the node and its parents from the transform cache. This is also
+        done for transformers that were used earlier, as they can be set again.
 
         """
-        if self._transformer:
-            self._transformer.invalidate_node(context)
+        with self._condition:
+            transformers = list(self._transformers)
+        for t in transformers:
+            t.invalidate_node(context)
 
     def slot_replace(self):
         """Called when TreeBuilder emits ``"replace"``.
-- 
2.43.0


From 80d1e36720c43ae6ffe7dc63dd2907937dbe52fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:08 +0000
Subject: [PATCH 11/31] fix: set the root lexicon when unprocessed changes
 (after a failure) request another

---
 parce/work.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/work.py b/parce/work.py
index 3ea5950..103147c 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -512,7 +512,7 @@ class WorkerDocumentMixin:
         """
         w = self._worker
         with w._condition:
-            idle = w._tree_state == IDLE
+            idle = w._tree_state == IDLE and not w._builder.changes
         if not idle or root_lexicon is not w._builder.root.lexicon:
             self._worker.update(self.text(), root_lexicon)
 
-- 
2.43.0


From 33efd584d3e87ab18cadbfbb698c92c5985d589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:02 +0000
Subject: [PATCH 12/31] fix: keep the lock of an object while other threads are
 waiting for it

object_locker() removed the lock when the first user was ready, so a third
thread could get a new lock while a second one entered with the old lock.
---
 parce/util.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index 67120be..6bbe590 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -507,20 +507,19 @@ def object_locker():
     locker = {}
     locker_lock = threading.Lock()
 
+    @contextlib.contextmanager
     def lock_object(obj):
         with locker_lock:
-            try:
-                return locker[obj]
-            except KeyError:
-                lock = locker[obj] = threading.Lock()
-                @contextlib.contextmanager
-                def cleanup():
-                    try:
-                        with lock:
-                            yield
-                    finally:
-                        del locker[obj]
-                return cleanup()
+            entry = locker.setdefault(obj, [threading.Lock(), 0])
+            entry[1] += 1
+        try:
+            with entry[0]:
+                yield
+        finally:
+            with locker_lock:
+                entry[1] -= 1
+                if not entry[1]:
+                    del locker[obj]
     return lock_object
 
 
-- 
2.43.0


From e98d13536317ca46e10259c71e9f0aa767df8aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:02 +0000
Subject: [PATCH 13/31] fix: don't publish a standard action before it is
 initialized

---
 parce/standardaction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parce/standardaction.py b/parce/standardaction.py
index a9ee5d6..f72a4bf 100644
--- a/parce/standardaction.py
+++ b/parce/standardaction.py
@@ -109,9 +109,10 @@ class StandardAction:
             try:
                 return d[name]
             except KeyError:
-                new = d[name] = object.__new__(cls)
+                new = object.__new__(cls)
                 new._name = name
                 new._parent = parent
+                d[name] = new   # other threads may see it from now on
                 return new
 
     def __getattr__(self, name):
-- 
2.43.0


From 796d3af2c8f388a7695b8dc2db3d4f37cb758bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:02 +0000
Subject: [PATCH 14/31] fix: discard the changes when they can't be applied

After a RuntimeError because of overlapping changes, the changes were kept and
every following modification of the text failed as well.
---
 parce/mutablestring.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/parce/mutablestring.py b/parce/mutablestring.py
index 7e15b6e..ed230a9 100644
--- a/parce/mutablestring.py
+++ b/parce/mutablestring.py
@@ -166,14 +166,16 @@ class AbstractMutableString:
     def _apply_changes(self):
         """(Internal.) Check, sort and apply the changes."""
         if self._changes:
-            changes = list(self._get_changes())
-            head = old = changes[0][0]
-            added = 0
-            for start, end, text in changes:
-                added += start - old + len(text)
-                old = end
-            self._update_text(changes)
-            self._changes.clear()
+            try:
+                changes = list(self._get_changes())
+                head = old = changes[0][0]
+                added = 0
+                for start, end, text in changes:
+                    added += start - old + len(text)
+                    old = end
+                self._update_text(changes)
+            finally:
+                self._changes.clear()
             self.text_changed(head, end - head, added)
 
     def _get_changes(self):
-- 
2.43.0


From d289da94ced1c08717aa37be03c2c9d6e9a64285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:02 +0000
Subject: [PATCH 15/31] fix: update cursors correctly when several changes are
 applied at once

---
 parce/document.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/parce/document.py b/parce/document.py
index cbd36b1..63bc91b 100644
--- a/parce/document.py
+++ b/parce/document.py
@@ -81,12 +81,11 @@ class AbstractDocument(mutablestring.AbstractMutableString):
 
     def _update_cursors(self, changes):
         """Update the positions of the cursors."""
-        i = 0
-        cursors = sorted(self._cursors, key = lambda c: c.pos)
-        for start, end, text in changes:
-            for c in cursors[i:]:
-                ahead = c.pos > start
-                if ahead:
+        cursors = list(self._cursors)
+        # the last change first, so the positions of the earlier remain valid
+        for start, end, text in reversed(changes):
+            for c in cursors:
+                if c.pos > start:
                     if end >= c.pos:
                         c.pos = start
                     else:
@@ -96,8 +95,6 @@ class AbstractDocument(mutablestring.AbstractMutableString):
                         c.end = start + len(text)
                     else:
                         c.end += start + len(text) - end
-                elif not ahead:
-                    i += 1  # don't consider this cursor any more
 
     def _update_text(self, changes):
         """Apply the changes to the text, reimplemented here to also update the Cursor positions."""
-- 
2.43.0


From 3a83be5299bf2e8273a3a1ca4c108729f97e12cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:00 +0000
Subject: [PATCH 16/31] fix: make @import work again when loading a style sheet

An @import without media query raised a NameError, and circular @imports with a
media query recursed forever.
---
 parce/css.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 3d1a061..c8ac717 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -222,7 +222,12 @@ class StyleSheet:
         ``allow_import`` is False, the @import atrule is ignored.
 
         """
-        filenames = {filename}
+        return cls._from_css(css, filename, path, allow_import, {filename})
+
+    @classmethod
+    def _from_css(cls, css, filename, path, allow_import, filenames):
+        """Implementation of from_css(); ``filenames`` is the set of files already loaded."""
+        imported = []
 
         def get_import_rules(values):
             """Yield rules from an @import at-rule.
@@ -242,10 +247,10 @@ class StyleSheet:
                         values = values[n+1:]
                         if values:
                             # there is probably a media query after the filename
-                            s = cls.from_css(icss, fname, path, allow_import)
+                            s = cls._from_css(icss, fname, path, allow_import, filenames)
                             yield Condition("import", values, s)
                         else:
-                            self._imported_filenames.append(fname)
+                            imported.append(fname)
                             yield from get_rules(icss)
                     return
 
@@ -272,7 +277,9 @@ class StyleSheet:
                 rules.append(rule)
             return rules
 
-        return cls(get_rules(css), filename)
+        sheet = cls(get_rules(css), filename)
+        sheet._imported_filenames = imported
+        return sheet
 
     def __add__(self, other):
         """Create a new StyleSheet by appending the other's rules."""
-- 
2.43.0


From d2378c869a3e5e675f9f6084b9a918a07e309958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:27 +0000
Subject: [PATCH 17/31] fix: transform quoted strings in a style sheet

A slice of an ItemList is a plain list, which has no tokens() method.
---
 parce/css.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index c8ac717..8453942 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -1116,13 +1116,13 @@ class CssTransform(Transform):
     def dqstring(self, items):
         """Return the contents of a double-quoted string."""
         if items and items[-1] == '"':
-            items = items[:-1]
+            items.pop()
         return ''.join(self.get_string(items))
 
     def sqstring(self, items):
         """Return the contents of a single-quoted string."""
         if items and items[-1] == "'":
-            items = items[:-1]
+            items.pop()
         return ''.join(self.get_string(items))
 
     ### we don't implement comment, so all comments are ignored
@@ -1206,7 +1206,7 @@ class CssTransform(Transform):
 
         """
         for i in items.tokens():
-            if i.action is String:
+            if i.action is a.String:
                 yield i.text
             elif i.action is a.String.Escape:
                 yield self.get_escape(i.text)
-- 
2.43.0


From 3f7fa57587bcfab518254f13acfce08387a2173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:48 +0000
Subject: [PATCH 18/31] fix: let file_cache() handle files with a modification
 time before 1970

---
 parce/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index 6bbe590..ecbd325 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -629,14 +629,14 @@ def file_cache(func):
                 try:
                     mtime, value = super().__getitem__(key)
                 except KeyError:
-                    mtime = -1
+                    mtime = None
                 try:
                     new_mtime = os.path.getmtime(key)
                 except OSError:
-                    new_mtime = -2
-                if mtime != new_mtime:
+                    new_mtime = None
+                if mtime is None or mtime != new_mtime:
                     value = func(key)
-                    if new_mtime >= 0:
+                    if new_mtime is not None:
                         self[key] = new_mtime, value
                 return value
     return filecache()
-- 
2.43.0


From 4e0e6d93b11e9a15a202f8e2ecce7861832b4105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:57 +0000
Subject: [PATCH 19/31] fix: don't lose the state of a Switch when two
 instances use it first at the same time

---
 parce/util.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index ecbd325..5f34cb3 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -463,13 +463,16 @@ class Switch:
     def __get__(self, instance, owner):
         try:
             return self._value[instance]
-        except TypeError:
-            # value still was 0, replace it with a weakref dict
-            self._value = weakref.WeakKeyDictionary()
-        except KeyError:
+        except (TypeError, KeyError):
             pass
-        s = self._value[instance] = type(self)()
-        return s
+        with _switch_lock:
+            if not isinstance(self._value, weakref.WeakKeyDictionary):
+                # value still was 0, replace it with a weakref dict
+                self._value = weakref.WeakKeyDictionary()
+            return self._value.setdefault(instance, type(self)())
+
+
+_switch_lock = threading.Lock()     # for creating the per-instance Switches
 
 
 def object_locker():
-- 
2.43.0


From 622eaf4b9d8075ae105bcfc4f1c2e67c920486d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:01 +0000
Subject: [PATCH 20/31] fix: also announce that undo (or redo) is not available
 anymore after using it

---
 parce/document.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/parce/document.py b/parce/document.py
index 63bc91b..8e569cb 100644
--- a/parce/document.py
+++ b/parce/document.py
@@ -307,6 +307,7 @@ class Document(AbstractDocument, mutablestring.MutableString, util.Observable):
     """
     _in_undo = util.Switch()
     _in_redo = util.Switch()
+    _in_check_undo_state = util.Switch()
 
     undo_redo_enabled = True
 
@@ -371,23 +372,29 @@ class Document(AbstractDocument, mutablestring.MutableString, util.Observable):
         if self._edit_context > 0:
             raise RuntimeError("can't undo or redo while in edit context")
         if stack:
-            changes, modified = stack.pop()
-            with switch, self:
-                for start, end, text in changes:
-                    self[start:end] = text
+            with self._check_undo_state():
+                changes, modified = stack.pop()
+                with switch, self:
+                    for start, end, text in changes:
+                        self[start:end] = text
             self.modified = modified
 
     @contextlib.contextmanager
     def _check_undo_state(self):
         """Context manager to perform operations that alter the undo / redo stack.
 
-        Emits "undo_available" and "redo_available" when they change.
+        Emits "undo_available" and "redo_available" when they change. When
+        nested, only the outermost context emits the events.
 
         """
+        if self._in_check_undo_state:
+            yield
+            return
         can_undo = self.can_undo()
         can_redo = self.can_redo()
         try:
-            yield
+            with self._in_check_undo_state:
+                yield
         finally:
             new_can_undo = self.can_undo()
             new_can_redo = self.can_redo()
-- 
2.43.0


From 0f6b06e291a1f4f087c1b793c5564ef412ec4d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:59 +0000
Subject: [PATCH 21/31] fix: exit the contexts entered by emit() when a
 callback raises

---
 parce/util.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index 5f34cb3..42fe6b7 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -390,21 +390,22 @@ class Observable:
         exited.
 
         """
-        s = contextlib.ExitStack()
         with self._callbacks_lock:
             # make a copy: a callback may (dis)connect callbacks or emit itself
             slots = list(self._callbacks.get(event, ()))
-        for observer in slots:
-            if not self._check_observer(event, observer):
-                continue    # disconnected meanwhile
-            result = observer.call(self, *args, **kwargs)
-            try:
-                s.enter_context(result)
-            except Exception:
-                pass
-            if observer.once:   # also True when a weakly referenced method is gone
-                self._check_observer(event, observer)
-        return s
+        # if a callback raises, the contexts that already were entered are exited
+        with contextlib.ExitStack() as s:
+            for observer in slots:
+                if not self._check_observer(event, observer):
+                    continue    # disconnected meanwhile
+                result = observer.call(self, *args, **kwargs)
+                try:
+                    s.enter_context(result)
+                except Exception:
+                    pass
+                if observer.once:   # also True when a weakly referenced method is gone
+                    self._check_observer(event, observer)
+            return s.pop_all()
 
 
 class Switch:
-- 
2.43.0


From 42d894c9eb092c2ebed37ee296db731dd7ba06f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:35 +0000
Subject: [PATCH 22/31] fix: don't loop forever when the root lexicon is popped
 without consuming text

---
 parce/lexer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parce/lexer.py b/parce/lexer.py
index 162eb6a..b0ddbb0 100644
--- a/parce/lexer.py
+++ b/parce/lexer.py
@@ -156,6 +156,13 @@ class Lexer:
                     else:
                         if target.pop:
                             del lexicons[target.pop:]
+                        elif not target.push:
+                            # root can't be popped off: nothing would change
+                            if pos >= len(text):
+                                return
+                            pos += 1
+                            circular.clear()
+                            break
                         state = (pos, len(lexicons), len(target.push))
                         if state in circular:
                             if target.push and pos < len(text):
-- 
2.43.0


From c71d19992a7098588fac53362099069c173f5788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:13 +0000
Subject: [PATCH 23/31] fix: format the right tokens when a part is formatted
 with more than one theme

---
 parce/formatter.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parce/formatter.py b/parce/formatter.py
index ddbb4a4..5019d98 100644
--- a/parce/formatter.py
+++ b/parce/formatter.py
@@ -209,7 +209,7 @@ class AbstractFormatter:
                         for i in range(i, len(n)):
                             m = n[i]
                             if m.is_context:
-                                stack.append(i)
+                                stack.append((n, i + 1))
                                 i = 0
                                 n = m
                                 check_lang(n.lexicon.language)
@@ -217,9 +217,8 @@ class AbstractFormatter:
                             yield m
                         else:
                             if stack:
-                                n = n.parent
-                                check_lang(n.lexicon.language)
-                                i = stack.pop() + 1
+                                check_lang(n.parent.lexicon.language)
+                                n, i = stack.pop()
                             else:
                                 break
 
-- 
2.43.0


From 2ca06bb8a72d232d4c1017ea2d8541a0628f816a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:43 +0000
Subject: [PATCH 24/31] fix: don't return tokens outside the requested range of
 a tree

---
 parce/tree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parce/tree.py b/parce/tree.py
index 528e344..d65801f 100644
--- a/parce/tree.py
+++ b/parce/tree.py
@@ -985,7 +985,7 @@ class Range:
         tree). If start is 0 and end is None, the range encompasses the full
         tree.
 
-        Returns None if the tree is empty.
+        Returns None if the tree is empty, or has no tokens in the range.
 
         """
         if not tree:
@@ -1000,10 +1000,12 @@ class Range:
         else:
             end_trail = []
         if start > 0:
-            start_trail = tree.find_token_with_trail(start)[1]
+            token, start_trail = tree.find_token_with_trail(start)
             if not start_trail:
                 return
             if end_trail:
+                if token.pos >= end:
+                    return  # there are no tokens in the range
                 # find the youngest common ancestor
                 for n, (i, j) in enumerate(zip(start_trail, end_trail)):
                     if i != j or context[i].is_token:
-- 
2.43.0


From fdfa2b31ef1e512d9de4e7ac12e951bed214cb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:05 +0000
Subject: [PATCH 25/31] fix: handle contexts without transform method correctly
 in transform_text()

The first tokens of such a context were lost, the method failed when the context
was still open at the end of the text, and when a parent context was left.
---
 parce/transform.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parce/transform.py b/parce/transform.py
index 1843bd7..97d06f0 100644
--- a/parce/transform.py
+++ b/parce/transform.py
@@ -214,7 +214,7 @@ class Transformer(util.Observable):
             if pop or push:
                 return Target(pop, push)
 
-        def build_tree(lexicons, events):
+        def build_tree(lexicons, lexemes, events):
             """Build a tree in case missing lexicons need to be handled.
 
             Returns the tree and the next event (if any), with adapted pop
@@ -225,11 +225,12 @@ class Transformer(util.Observable):
             for lexicon in lexicons[1:]:
                 context = Context(lexicon, context)
                 context.parent.append(context)
+            context.extend(make_tokens(lexemes, context))
             for target, lexemes in events:
                 if target:
                     for pop in range(target.pop, 0):
                         if context is tree:
-                            return tree, Event(make_target(pop, target.push), lexemes)
+                            return tree, Event(make_target(pop + 1, target.push), lexemes)
                         context = context.parent
                     for lexicon in target.push:
                         context = Context(lexicon, context)
@@ -280,7 +281,7 @@ class Transformer(util.Observable):
                             lexicon = l
                         else:
                             if add_untransformed:
-                                context, event = build_tree(target.push[i:], events)
+                                context, event = build_tree(target.push[i:], lexemes, events)
                                 items.append(Item("<untransformed>", context))
                             else:
                                 event = consume_events(target.push[i:], events)
@@ -288,7 +289,8 @@ class Transformer(util.Observable):
                             break
                     else:
                         break
-                items.extend(make_tokens(lexemes))
+                if lexemes:
+                    items.extend(make_tokens(lexemes))
 
             # unwind
             while stack:
-- 
2.43.0


From efa1166882a23e88ac66c0827ef05a28e9353a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:30 +0000
Subject: [PATCH 26/31] fix: don't reuse tokens of a group for tokens that do
 not belong to a group

If a part of a match is skipped, the first token of a group is not at the position
where the match started. The old tokens were reused when a single token with the same
text and action was found there, yielding a wrong tree.
---
 parce/treebuilder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parce/treebuilder.py b/parce/treebuilder.py
index a422f3e..83d1f41 100644
--- a/parce/treebuilder.py
+++ b/parce/treebuilder.py
@@ -321,6 +321,7 @@ class TreeBuilder(util.Observable):
                         else:
                             tail = False
                     if pos == tail_pos and tokens[0].equals(tail_token) and \
+                            tokens[0].group == tail_token.group and \
                             (context or not context.lexicon.consume) :
                         # we can reuse the tail from tail_pos
                         return BuildResult(tree, lowest_start, tail_pos, offset, None)
-- 
2.43.0


From 1d756d7ecf835be3690e7ce442b98c65d4504988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:31 +0000
Subject: [PATCH 27/31] fix: recognize the byte order mark of UTF-32-LE files

---
 parce/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index 42fe6b7..1349403 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -739,10 +739,10 @@ def get_bom_encoding(data):
     """
     for bom, encoding in (
         (codecs.BOM_UTF8, 'utf-8'),
+        (codecs.BOM_UTF32_LE, 'utf_32_le'),     # starts with BOM_UTF16_LE
+        (codecs.BOM_UTF32_BE, 'utf_32_be'),
         (codecs.BOM_UTF16_LE, 'utf_16_le'),
         (codecs.BOM_UTF16_BE, 'utf_16_be'),
-        (codecs.BOM_UTF32_LE, 'utf_32_le'),
-        (codecs.BOM_UTF32_BE, 'utf_32_be'),
             ):
         if data.startswith(bom):
             return encoding, data[len(bom):]
-- 
2.43.0


From 67f2023c9727c51cd9bcd0ec026bc0aeff3f36b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:31 +0000
Subject: [PATCH 28/31] fix: leave the at-rule at the end of a nested at-rule
 block in CSS

---
 parce/lang/css.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parce/lang/css.py b/parce/lang/css.py
index 66708ff..5138ede 100644
--- a/parce/lang/css.py
+++ b/parce/lang/css.py
@@ -228,7 +228,7 @@ class Css(Language):
     @lexicon
     def atrule_nested_block(cls):
         """A ``{`` ``}`` block from @media, @document or @supports."""
-        yield r"\}", Bracket, -2  # immediately leave the atrule_nested context
+        yield r"\}", Bracket, -3  # immediately leave the atrule_nested and atrule contexts
         yield from cls.toplevel()
 
     @classmethod
-- 
2.43.0


From 59ca447058d9cb89d5ec8b6896148c200a9a1dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:23 +0000
Subject: [PATCH 29/31] fix: don't fail when the transformer is unset while the
 tree is replaced

---
 parce/work.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parce/work.py b/parce/work.py
index 103147c..172781c 100644
--- a/parce/work.py
+++ b/parce/work.py
@@ -356,8 +356,9 @@ class Worker(util.Observable):
         Interrupts the transformer.
 
         """
-        if self._transformer:
-            self._transformer.interrupt(self._builder.root)
+        t = self._transformer   # it can be changed by another thread
+        if t:
+            t.interrupt(self._builder.root)
 
     def start_build(self):
         """Called when the build process starts.
-- 
2.43.0


From 3aff68554391e397d119231b634dc0e7886811a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:16 +0000
Subject: [PATCH 30/31] fix: asking whether a function is connected while
 others are disconnected

is_connected() searched the list of callbacks without holding the lock, so it
could return False for a connected function when another thread disconnected
an earlier one at that moment.
---
 parce/util.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/parce/util.py b/parce/util.py
index 1349403..03f3559 100644
--- a/parce/util.py
+++ b/parce/util.py
@@ -375,11 +375,9 @@ class Observable:
 
     def is_connected(self, event, func):
         """Return True if func is connected to event."""
-        try:
-            slots = self._callbacks[event]
-        except KeyError:
-            return False
-        return _Observer(func) in slots
+        observer = _Observer(func)
+        with self._callbacks_lock:
+            return observer in self._callbacks.get(event, ())
 
     def emit(self, event, *args, **kwargs):
         """Call all callbacks for the event.
-- 
2.43.0


From b25409a8f447defae984b6c2cd7528c203982e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:54 +0000
Subject: [PATCH 31/31] fix: resolve @import relative to the importing style
 sheet

An unconditional @import in an imported file was resolved relative to the
directory of the first file, and file names were not normalized, so circular
imports between directories were followed until the file name was too long.
---
 parce/css.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parce/css.py b/parce/css.py
index 8453942..c669435 100644
--- a/parce/css.py
+++ b/parce/css.py
@@ -222,7 +222,7 @@ class StyleSheet:
         ``allow_import`` is False, the @import atrule is ignored.
 
         """
-        return cls._from_css(css, filename, path, allow_import, {filename})
+        return cls._from_css(css, filename, path, allow_import, {os.path.normpath(filename)})
 
     @classmethod
     def _from_css(cls, css, filename, path, allow_import, filenames):
@@ -239,19 +239,20 @@ class StyleSheet:
             for n, v in enumerate(values):
                 if isinstance(v, Value) and v.text or v.url:
                     fname = v.text or v.url
-                    fname = os.path.join(os.path.dirname(filename), fname)
+                    fname = os.path.normpath(os.path.join(os.path.dirname(filename), fname))
                     # avoid circular @import references
                     if fname not in filenames:
                         filenames.add(fname)
                         icss = cls.load_from_file(fname)
+                        s = cls._from_css(icss, fname, path, allow_import, filenames)
                         values = values[n+1:]
                         if values:
                             # there is probably a media query after the filename
-                            s = cls._from_css(icss, fname, path, allow_import, filenames)
                             yield Condition("import", values, s)
                         else:
                             imported.append(fname)
-                            yield from get_rules(icss)
+                            imported.extend(s._imported_filenames)
+                            yield from s.rules
                     return
 
         def get_rules(css):
-- 
2.43.0

