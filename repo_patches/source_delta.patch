From 68ac309a3b0200489670234ed78bc35f3edcfcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:51 +0000
Subject: [PATCH 01/55] fix: Event fires on a snapshot of its listeners

The collector can run a listener's removal callback on the firing thread while
fire iterates the list; the (re-entrant) mutex does not prevent the list from
shifting under the iteration, which skipped the next listener.
---
 nion/utils/Event.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nion/utils/Event.py b/nion/utils/Event.py
index 104f800..2f4d203 100644
--- a/nion/utils/Event.py
+++ b/nion/utils/Event.py
@@ -106,7 +106,7 @@ class Event:
         if self.__weak_listeners:
             try:
                 with self.__weak_listeners_mutex:
-                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]
+                    listeners = [weak_listener() for weak_listener in tuple(self.__weak_listeners)]
                 for listener in listeners:
                     if listener:
                         listener.call(*args, **keywords)
@@ -119,7 +119,7 @@ class Event:
         if self.__weak_listeners:
             try:
                 with self.__weak_listeners_mutex:
-                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]
+                    listeners = [weak_listener() for weak_listener in tuple(self.__weak_listeners)]
                 for listener in listeners:
                     if listener:
                         if listener.call(*args, **keywords):
@@ -134,7 +134,7 @@ class Event:
         if self.__weak_listeners:
             try:
                 with self.__weak_listeners_mutex:
-                    listeners = [weak_listener() for weak_listener in self.__weak_listeners]
+                    listeners = [weak_listener() for weak_listener in tuple(self.__weak_listeners)]
                 for listener in listeners:
                     if listener:
                         if not listener.call(*args, **keywords):
-- 
2.43.0


From bb27a10383ceca5865ba01e1868b3fe40d2d8d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:51 +0000
Subject: [PATCH 02/55] fix: Event.listen keeps listeners of owners that
 evaluate to false

---
 nion/utils/Event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Event.py b/nion/utils/Event.py
index 2f4d203..9414dc9 100644
--- a/nion/utils/Event.py
+++ b/nion/utils/Event.py
@@ -75,7 +75,7 @@ class Event:
         weak_listener = weakref.ref(listener, remove_listener)
         with self.__weak_listeners_mutex:
             self.__weak_listeners.append(weak_listener)
-        if owner:
+        if owner is not None:
             def owner_gone(weak_owner):
                 listener = self.__listeners[id(weak_owner)][0]
                 listener.close()
-- 
2.43.0


From 2e7c69cc88070acf0d4662f0b0e3b7a2f6c04b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:23 +0000
Subject: [PATCH 03/55] fix: Event.fire calls the remaining listeners after one
 raises

fire promises to call listeners unconditionally; the exception handling was
around the whole loop, so one failing listener silenced the ones after it.
---
 nion/utils/Event.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/nion/utils/Event.py b/nion/utils/Event.py
index 9414dc9..2029e0f 100644
--- a/nion/utils/Event.py
+++ b/nion/utils/Event.py
@@ -104,14 +104,14 @@ class Event:
         """Calls listeners (in order added) unconditionally."""
         listener = None
         if self.__weak_listeners:
-            try:
-                with self.__weak_listeners_mutex:
-                    listeners = [weak_listener() for weak_listener in tuple(self.__weak_listeners)]
-                for listener in listeners:
-                    if listener:
+            with self.__weak_listeners_mutex:
+                listeners = [weak_listener() for weak_listener in tuple(self.__weak_listeners)]
+            for listener in listeners:
+                if listener:
+                    try:
                         listener.call(*args, **keywords)
-            except Exception as e:
-                self.__print_event_exception(listener)
+                    except Exception as e:
+                        self.__print_event_exception(listener)
 
     def fire_any(self, *args, **keywords):
         """Calls listeners (in order added) until one returns True or else return False."""
-- 
2.43.0


From dccf2e46733b3a8826f607af6ba528b89692607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:07 +0000
Subject: [PATCH 04/55] fix: Event.fire_all ignores closed listeners and is
 true without listeners

A closed listener whose token is still held answered None, which fire_all took
for a veto, and without any listener fire_all returned None instead of True.
---
 nion/utils/Event.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nion/utils/Event.py b/nion/utils/Event.py
index 2029e0f..1a09a9d 100644
--- a/nion/utils/Event.py
+++ b/nion/utils/Event.py
@@ -16,6 +16,10 @@ import weakref
 # None
 
 
+def void(*args, **kwargs):
+    pass
+
+
 class EventListener:
 
     def __init__(self, listener_fn, trace: bool):
@@ -26,14 +30,10 @@ class EventListener:
         if callable(listener_fn):
             self.call = self.__listener_fn
         else:
-            def void(*args, **kwargs):
-                pass
             self.call = void
 
     def close(self):
         self.__listener_fn = None
-        def void(*args, **kwargs):
-            pass
         self.call = void
 
     def __enter__(self):
@@ -137,8 +137,11 @@ class Event:
                     listeners = [weak_listener() for weak_listener in tuple(self.__weak_listeners)]
                 for listener in listeners:
                     if listener:
-                        if not listener.call(*args, **keywords):
+                        call = listener.call
+                        if call is not void and not call(*args, **keywords):
                             return False
                 return True
             except Exception as e:
                 self.__print_event_exception(listener)
+                return False
+        return True
-- 
2.43.0


From d4603f8c54a2d9d53963593fae4c305059164498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:05 +0000
Subject: [PATCH 05/55] fix: TaskQueue marks a raising task as done so that
 join completes

---
 nion/utils/Process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nion/utils/Process.py b/nion/utils/Process.py
index 590650c..9996527 100644
--- a/nion/utils/Process.py
+++ b/nion/utils/Process.py
@@ -26,8 +26,10 @@ class TaskQueue(queue.Queue):
             except queue.Empty:
                 pass
             else:
-                task()
-                self.task_done()
+                try:
+                    task()
+                finally:
+                    self.task_done()
             qsize -= 1
 
     def clear_tasks(self):
-- 
2.43.0


From dfb0bd75a74276dfe76939ac3a82007ceff155d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:05 +0000
Subject: [PATCH 06/55] fix: TaskSet keeps the tasks of the other keys when a
 task raises

perform_tasks emptied the set before running the tasks, so a raising task lost
the ones behind it. Take each task out just before it is performed.
---
 nion/utils/Process.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nion/utils/Process.py b/nion/utils/Process.py
index 9996527..0571df1 100644
--- a/nion/utils/Process.py
+++ b/nion/utils/Process.py
@@ -62,8 +62,12 @@ class TaskSet(object):
     def perform_tasks(self):
         with self.__task_dict_mutex:
             task_dict = copy.copy(self.__task_dict)
-            self.__task_dict.clear()
-        for task in task_dict.values():
+        for key, task in task_dict.items():
+            with self.__task_dict_mutex:
+                # skip the task if it was replaced, cleared, or performed by another thread in the meantime
+                if self.__task_dict.get(key) is not task:
+                    continue
+                del self.__task_dict[key]
             task()
 
 
-- 
2.43.0


From 936edd71ae5fd4cfab01cd6f81a1f6d89f165aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:05 +0000
Subject: [PATCH 07/55] fix: ThreadPool.run_all and run_one do not wait for
 tasks taken by other threads

Another thread could take the last task between the emptiness check and the
blocking get, leaving the caller waiting forever.
---
 nion/utils/ThreadPool.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/nion/utils/ThreadPool.py b/nion/utils/ThreadPool.py
index afbd87b..7a524f0 100644
--- a/nion/utils/ThreadPool.py
+++ b/nion/utils/ThreadPool.py
@@ -169,8 +169,11 @@ class ThreadPool(object):
                 break
 
     def run_all(self):
-        while not self.__queue.empty():
-            task = self.__queue.get()
+        while True:
+            try:
+                task = self.__queue.get(False)
+            except queue.Empty:
+                break
             if task and not self.__closed:
                 task.execute()
             self.__queue.task_done()
@@ -178,8 +181,10 @@ class ThreadPool(object):
                 break
 
     def run_one(self):
-        if not self.__queue.empty():
-            task = self.__queue.get()
-            if task and not self.__closed:
-                task.execute()
-            self.__queue.task_done()
+        try:
+            task = self.__queue.get(False)
+        except queue.Empty:
+            return
+        if task and not self.__closed:
+            task.execute()
+        self.__queue.task_done()
-- 
2.43.0


From 3508563553401f620d46d5451b451b01bc97d079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:28 +0000
Subject: [PATCH 08/55] fix: ThreadDispatcher measures its minimum interval
 with the monotonic clock

With the wall clock, stepping the system time back stalled the dispatcher for
the size of the step and stepping it forward cut the interval short.
---
 nion/utils/ThreadPool.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nion/utils/ThreadPool.py b/nion/utils/ThreadPool.py
index 7a524f0..bb90cd0 100644
--- a/nion/utils/ThreadPool.py
+++ b/nion/utils/ThreadPool.py
@@ -63,7 +63,7 @@ class ThreadDispatcher(object):
                 break
             thread_event_set = False
             while not self.__thread_break:
-                elapsed = time.time() - self.__last_time
+                elapsed = time.monotonic() - self.__last_time
                 if self.__minimum_interval and elapsed < self.__minimum_interval:
                     if self.__thread_event.wait(self.__minimum_interval - elapsed):
                         thread_event_set = True  # set this so that we know to set it after this loop
@@ -82,7 +82,7 @@ class ThreadDispatcher(object):
                 logging.debug("Processing thread exception %s", e)
                 traceback.print_exc()
                 traceback.print_stack()
-            self.__last_time = time.time()
+            self.__last_time = time.monotonic()
 
 
 class ThreadPoolTask(object):
-- 
2.43.0


From 75d9f4468c15b4b7fca49520bc0c56729d59e190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:14 +0000
Subject: [PATCH 09/55] fix: ThreadDispatcher waiting triggers always return
 and wait for their own invocation

A waiting trigger hung when the function raised or the dispatcher was closed, and
could return because of an invocation that began before it.
---
 nion/utils/ThreadPool.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/nion/utils/ThreadPool.py b/nion/utils/ThreadPool.py
index bb90cd0..81f685d 100644
--- a/nion/utils/ThreadPool.py
+++ b/nion/utils/ThreadPool.py
@@ -27,7 +27,7 @@ class ThreadDispatcher(object):
         self.__fn = fn
         self.__thread_break = False
         self.__thread_event = threading.Event()
-        self.__triggered_event = threading.Event()
+        self.__waiting_events = list()  # one for each waiting trigger, protected by thread lock
         self.__thread_lock = threading.Lock()
         self.__thread = threading.Thread(target=self.__process)
         self.__thread.daemon = True
@@ -47,13 +47,22 @@ class ThreadDispatcher(object):
 
     def trigger(self, wait=False):
         if wait:
+            triggered_event = threading.Event()
             with self.__thread_lock:
-                self.__triggered_event.clear()
+                if self.__thread_break:
+                    return
+                self.__waiting_events.append(triggered_event)
                 self.__thread_event.set()
-            self.__triggered_event.wait()
+            triggered_event.wait()
         else:
             self.__thread_event.set()
 
+    def __take_waiting_events(self):
+        with self.__thread_lock:
+            waiting_events = self.__waiting_events
+            self.__waiting_events = list()
+        return waiting_events
+
     def __process(self):
         while True:
             self.__thread_event.wait()
@@ -74,15 +83,19 @@ class ThreadDispatcher(object):
                 self.__thread_event.set()
             if self.__thread_break:
                 break
+            waiting_events = self.__take_waiting_events()
             try:
                 self.__fn()
-                self.__triggered_event.set()
             except Exception as e:
                 import traceback
                 logging.debug("Processing thread exception %s", e)
                 traceback.print_exc()
                 traceback.print_stack()
+            for triggered_event in waiting_events:
+                triggered_event.set()
             self.__last_time = time.monotonic()
+        for triggered_event in self.__take_waiting_events():
+            triggered_event.set()
 
 
 class ThreadPoolTask(object):
-- 
2.43.0


From 7c17169e34b6c7a37e0a90dd0cac4c4162dd4b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:16 +0000
Subject: [PATCH 10/55] fix: DebounceStream does not lose a change made while
 it emits

---
 nion/utils/Stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nion/utils/Stream.py b/nion/utils/Stream.py
index 1edc69c..54f02ad 100644
--- a/nion/utils/Stream.py
+++ b/nion/utils/Stream.py
@@ -168,9 +168,10 @@ class DebounceStream(AbstractStream):
     async def debounce_delay(self) -> None:
         try:
             await asyncio.sleep(self.__period)
-            self.value_stream.fire(self.__value)
         finally:
+            # clear the task before firing so that a change made by a listener triggers a new task
             self.__debounce_task = None
+        self.value_stream.fire(self.__value)
 
     def __value_changed(self, value):
         self.__value = value
-- 
2.43.0


From 3a49e42121b77bbf57c47a6a81e3299d452f5278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:33 +0000
Subject: [PATCH 11/55] fix: SampleStream emits the input's value and does not
 lose concurrent changes

The first sample emitted None instead of the input's value, and a sample between
setting the dirty flag and storing the pending value emitted the old value and
lost the new one.
---
 nion/utils/Stream.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nion/utils/Stream.py b/nion/utils/Stream.py
index 54f02ad..50d2ea3 100644
--- a/nion/utils/Stream.py
+++ b/nion/utils/Stream.py
@@ -196,10 +196,12 @@ class SampleStream(AbstractStream):
         self.__last_time = 0
         self.__pending_value = None
         self.__value = None
-        self.__listener = input_stream.value_stream.listen(self.__value_changed)
-        self.__value = input_stream.value
         self.__value_dirty = True
         self.__value_dirty_lock = threading.RLock()
+        self.__listener = input_stream.value_stream.listen(self.__value_changed)
+        with self.__value_dirty_lock:
+            self.__value = input_stream.value
+            self.__pending_value = self.__value
         self.__done = False
 
         def next_sample(f):
@@ -224,14 +226,15 @@ class SampleStream(AbstractStream):
         with self.__value_dirty_lock:
             value_dirty = self.__value_dirty
             self.__value_dirty = False
+            pending_value = self.__pending_value
         if value_dirty:
-            self.__value = self.__pending_value
-            self.value_stream.fire(self.__pending_value)
+            self.__value = pending_value
+            self.value_stream.fire(pending_value)
 
     def __value_changed(self, value):
         with self.__value_dirty_lock:
             self.__value_dirty = True
-        self.__pending_value = value
+            self.__pending_value = value
 
     @property
     def value(self):
-- 
2.43.0


From e0e245b969c838f7f9128eb228b885f4d64df81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:52 +0000
Subject: [PATCH 12/55] fix: FuncStreamValueModel never shows a stale value or
 changes after close

Functions evaluate concurrently and may finish in any order; the value of an
older function could replace the value of a newer one, and evaluations finishing
after close still changed the value and notified observers.
---
 nion/utils/Model.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/nion/utils/Model.py b/nion/utils/Model.py
index bd5d120..8c6c059 100644
--- a/nion/utils/Model.py
+++ b/nion/utils/Model.py
@@ -62,17 +62,26 @@ class FuncStreamValueModel(PropertyModel):
         self.__value_func_stream = value_func_stream.add_ref()
         self.__event_loop = event_loop
         self.__count = 0
+        self.__latest_sequence = 0  # the sequence number of the latest function
+        self.__value_sequence = 0  # the sequence number of the function that produced the value
 
         def handle_value_func(value_func):
+            self.__latest_sequence += 1
+            sequence = self.__latest_sequence
             async def update_value():
                 value_ref = [None]
                 def eval(value_ref):
                     value_ref[0] = value_func()
-                await event_loop.run_in_executor(None, eval, value_ref)
-                value = value_ref[0]
-                self.value = value
-                self.notify_property_changed("value")
-                self.__count -= 1
+                try:
+                    await event_loop.run_in_executor(None, eval, value_ref)
+                    # ignore the value if closed or if a newer function has finished first
+                    if self.__value_func_stream and sequence > self.__value_sequence:
+                        self.__value_sequence = sequence
+                        value = value_ref[0]
+                        self.value = value
+                        self.notify_property_changed("value")
+                finally:
+                    self.__count -= 1
             self.__count += 1
             event_loop.create_task(update_value())
 
-- 
2.43.0


From a88b5bc3072c3eb9aa5b939fc31ef3b3df4289fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:00 +0000
Subject: [PATCH 13/55] fix: FilteredListModel notifies the item it removes
 when it rebuilds its list

---
 nion/utils/ListModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 7ad5f4b..b2764dd 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -533,8 +533,8 @@ class FilteredListModel(Observable.Observable):
                     self.__insert_item(item, sort_key)
             else:
                 # requires sorting and not already sorted or not sorted: fall back to full replacement
-                for item in old_items:
-                    # remove all items
+                for item in reversed(old_items):
+                    # remove all items, starting with the last one
                     self.__items.pop()
                     self.notify_remove_item(self.__items_key, item, len(self.__items))
                 for item in items:
-- 
2.43.0


From 8f03cd575121da52a88de10568593ea0fbcb0199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:16 +0000
Subject: [PATCH 14/55] fix: FilteredListModel moves an item whose sort key has
 changed

---
 nion/utils/ListModel.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index b2764dd..2ffa1dd 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -440,16 +440,15 @@ class FilteredListModel(Observable.Observable):
                 if sort_key is not None:
                     # are items sorted?
                     sort_operator = operator.gt if self.sort_reverse else operator.lt
-                    before_index = self.__find_sorted_index_for_item(item, items, sort_key, sort_operator)
+                    # the item itself may be out of order; find its index among the other items
+                    other_items = [item_ for item_ in items if item_ != item]
+                    before_index = self.__find_sorted_index_for_item(item, other_items, sort_key, sort_operator)
                     if item in items:
                         # item already in list?
                         index = items.index(item)
-                        if before_index < index:
+                        if before_index != index:
                             self.__removed_master_item(index, item)
                             self.__inserted_master_item(before_index, item)
-                        elif before_index > index:
-                            self.__removed_master_item(index, item)
-                            self.__inserted_master_item(before_index - 1, item)
                     else:
                         # item is not in list, just insert
                         self.__inserted_master_item(before_index, item)
-- 
2.43.0


From 29f5f60c40c960482a8618582efdc54c94f492c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:32 +0000
Subject: [PATCH 15/55] fix: FilteredListModel reorders items changed or moved
 during grouped changes

---
 nion/utils/ListModel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 2ffa1dd..145b5dc 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -389,6 +389,8 @@ class FilteredListModel(Observable.Observable):
         """
         with self._update_mutex:
             if self.__change_level > 0:
+                if item in self.__items:
+                    self.__items_sorted = False  # the item has been moved and may be out of order now
                 return
             if self.filter.matches(item):
                 self.__insert_item(item, self.sort_key)
@@ -432,6 +434,7 @@ class FilteredListModel(Observable.Observable):
         """
         with self._update_mutex:
             if self.__change_level > 0:
+                self.__items_sorted = False  # the item may be out of order now
                 return
             items = self.__items
             if self.filter.matches(item):
-- 
2.43.0


From 68364f3a8ba3cbbc96a4b99122a258e09f4d1f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:46 +0000
Subject: [PATCH 16/55] fix: FilteredListModel keeps source order when reversed
 without a sort key

---
 nion/utils/ListModel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 145b5dc..97dd657 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -393,12 +393,12 @@ class FilteredListModel(Observable.Observable):
                     self.__items_sorted = False  # the item has been moved and may be out of order now
                 return
             if self.filter.matches(item):
-                self.__insert_item(item, self.sort_key)
+                self.__insert_item(item, self.sort_key, self.sort_reverse)
 
-    def __insert_item(self, item, sort_key) -> None:
+    def __insert_item(self, item, sort_key, sort_reverse) -> None:
         items = self.__items
         if sort_key is not None:
-            sort_operator = operator.gt if self.sort_reverse else operator.lt
+            sort_operator = operator.gt if sort_reverse else operator.lt
             before_index = self.__find_sorted_index_for_item(item, items, sort_key, sort_operator)
         else:
             before_index = self.__find_unsorted_index_for_item(item, self._get_master_items(), self.filter)
@@ -515,9 +515,11 @@ class FilteredListModel(Observable.Observable):
             self.begin_changes_event.fire(self.__items_key)
             if self.__items_sorted:
                 sort_key = self.sort_key
+                sort_reverse = self.sort_reverse
                 if not sort_key:
                     indexes = {item: index for index, item in enumerate(items)}
                     sort_key = lambda x: indexes[x]
+                    sort_reverse = False
                 old_items_set = set(old_items)
                 new_items_set = set(items)
                 insert_items_set = new_items_set - old_items_set
@@ -532,7 +534,7 @@ class FilteredListModel(Observable.Observable):
                         items_removed += 1
                 # insert using sorting
                 for item in insert_items_set:
-                    self.__insert_item(item, sort_key)
+                    self.__insert_item(item, sort_key, sort_reverse)
             else:
                 # requires sorting and not already sorted or not sorted: fall back to full replacement
                 for item in reversed(old_items):
-- 
2.43.0


From 370f308db4ab3a6aff4aee83bf5b1759b540a148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:35 +0000
Subject: [PATCH 17/55] fix: FilteredListModel counts grouped changes of
 several threads correctly

---
 nion/utils/ListModel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 97dd657..a34d2fb 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -273,7 +273,8 @@ class FilteredListModel(Observable.Observable):
 
     def begin_change(self):
         """ Begin a set of changes. Balance with end_changes. """
-        self.__change_level += 1
+        with self._update_mutex:
+            self.__change_level += 1
 
     def end_change(self):
         """ End a set of changes and update items if finished. """
-- 
2.43.0


From 90d1619f23e735ef5fcb8d21cc8752142faa0aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:16 +0000
Subject: [PATCH 18/55] fix: FilteredListModel recovers the order of items
 after a sort or filter function failed

---
 nion/utils/ListModel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index a34d2fb..dc7428f 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -624,7 +624,11 @@ class FilteredListModel(Observable.Observable):
                 def item_content_changed():
                     with self._update_mutex:
                         assert item in self.__master_items
-                        self.__updated_master_item(item)
+                        try:
+                            self.__updated_master_item(item)
+                        except Exception:
+                            self.__items_sorted = False  # the item may be out of order now
+                            raise
 
                 self.__item_changed_event_listeners[id(item)] = item.item_changed_event.listen(item_content_changed) if hasattr(item, "item_changed_event") else None
                 self.__inserted_master_item(before_index, item)
-- 
2.43.0


From 0bcf69fe8e978e8ae530f8548ab8c524fff980e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:41 +0000
Subject: [PATCH 19/55] fix: FilteredListModel inserts at the right index after
 its filter failed for another item

---
 nion/utils/ListModel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index dc7428f..0eb1f88 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -373,12 +373,13 @@ class FilteredListModel(Observable.Observable):
                 high = mid
         return low
 
-    def __find_unsorted_index_for_item(self, item, master_items, filter):
+    def __find_unsorted_index_for_item(self, item, master_items, items):
+        # items are in the order of master items, but do not necessarily include every matching item (yet).
         index = 0
         for item_ in master_items:
             if item_ == item:
                 break
-            if filter.matches(item_):
+            if index < len(items) and items[index] == item_:
                 index += 1
         return index
 
@@ -402,7 +403,7 @@ class FilteredListModel(Observable.Observable):
             sort_operator = operator.gt if sort_reverse else operator.lt
             before_index = self.__find_sorted_index_for_item(item, items, sort_key, sort_operator)
         else:
-            before_index = self.__find_unsorted_index_for_item(item, self._get_master_items(), self.filter)
+            before_index = self.__find_unsorted_index_for_item(item, self._get_master_items(), items)
         self.__items.insert(before_index, item)
         self.begin_changes_event.fire(self.__items_key)
         self.notify_insert_item(self.__items_key, item, before_index)
-- 
2.43.0


From 17b2a8f95810363695a5379466c0f23aa213a5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:59 +0000
Subject: [PATCH 20/55] fix: FilteredListModel changes its filter and sort in
 one step

---
 nion/utils/ListModel.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 0eb1f88..57b58f9 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -315,7 +315,7 @@ class FilteredListModel(Observable.Observable):
             self.__sort_key = value
             self.__items_sorted = False
             self.reset_list_event.fire(self.__items_key)
-        self.__update_items()
+            self.__update_items()
 
     @property
     def sort_reverse(self) -> bool:
@@ -329,7 +329,7 @@ class FilteredListModel(Observable.Observable):
             self.__sort_reverse = value
             self.__items_sorted = False
             self.reset_list_event.fire(self.__items_key)
-        self.__update_items()
+            self.__update_items()
 
     # thread safe.
     @property
@@ -340,10 +340,11 @@ class FilteredListModel(Observable.Observable):
     @filter.setter
     def filter(self, value: Filter) -> None:
         """ Set the filter function. """
-        self.__filter = value
-        self.__items_sorted = False
-        self.reset_list_event.fire(self.__items_key)
-        self.__update_items()
+        with self._update_mutex:
+            self.__filter = value
+            self.__items_sorted = False
+            self.reset_list_event.fire(self.__items_key)
+            self.__update_items()
 
     @property
     def items(self) -> typing.Sequence:
-- 
2.43.0


From 2e0bde20bb4162f1c748dd85b66c570de4eb0703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:44 +0000
Subject: [PATCH 21/55] fix: FilteredListModel does not list an item twice
 after an update failed

---
 nion/utils/ListModel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 57b58f9..75d6189 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -391,9 +391,11 @@ class FilteredListModel(Observable.Observable):
             the master item list has been inserted.
         """
         with self._update_mutex:
+            if item in self.__items:
+                # the item has been moved while updates were deferred or failed; it may be out of order now
+                self.__items_sorted = False
+                return
             if self.__change_level > 0:
-                if item in self.__items:
-                    self.__items_sorted = False  # the item has been moved and may be out of order now
                 return
             if self.filter.matches(item):
                 self.__insert_item(item, self.sort_key, self.sort_reverse)
-- 
2.43.0


From 872c898c7d6de174be8df1c6603ffb4e6a6e706e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:52 +0000
Subject: [PATCH 22/55] fix: FilteredListModel rebuilds its list after an
 update failed

---
 nion/utils/ListModel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 75d6189..6f6a0e6 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -508,6 +508,8 @@ class FilteredListModel(Observable.Observable):
                 return
             # first build the new items list, including items with master item.
             old_items = copy.copy(self.__items)
+            items_sorted = self.__items_sorted
+            self.__items_sorted = False  # until the update is finished; a filter or sort function may raise
             items = self.__build_items()
             # now generate the insert/remove instructions to make the official
             # list match the proposed list.
@@ -518,7 +520,7 @@ class FilteredListModel(Observable.Observable):
             # import time
             # t0 = time.perf_counter()
             self.begin_changes_event.fire(self.__items_key)
-            if self.__items_sorted:
+            if items_sorted:
                 sort_key = self.sort_key
                 sort_reverse = self.sort_reverse
                 if not sort_key:
-- 
2.43.0


From 5b73c83296f23c5ccea15d4db792de8ad53e3bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:37 +0000
Subject: [PATCH 23/55] fix: FlattenedListModel shifts selections at the index
 in the flattened list

---
 nion/utils/ListModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 6f6a0e6..29e471a 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -914,7 +914,7 @@ class FlattenedListModel(Observable.Observable):
             self.__items.insert(master_index, item)
             self.notify_insert_item(self.__items_key, item, master_index)
             for selection in self.__selections:
-                selection.insert_index(before_index)
+                selection.insert_index(master_index)
 
     def __child_item_removed(self, master_item, key, item, index):
         if key == self.__child_items_key:
-- 
2.43.0


From b380b4e762ef16c0f8ed9a5e60610c68f346f923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:46 +0000
Subject: [PATCH 24/55] fix: list models release the given selection, not an
 equal one

---
 nion/utils/ListModel.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 29e471a..d4ff2a1 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -616,7 +616,8 @@ class FilteredListModel(Observable.Observable):
         return selection
 
     def release_selection(self, selection):
-        self.__selections.remove(selection)
+        # selections with the same indexes are equal, but only the given one is to be released
+        self.__selections = [selection_ for selection_ in self.__selections if selection_ is not selection]
 
     # thread safe.
     def __item_inserted(self, key, item, before_index):
@@ -778,7 +779,8 @@ class MappedListModel(Observable.Observable):
         return selection
 
     def release_selection(self, selection):
-        self.__selections.remove(selection)
+        # selections with the same indexes are equal, but only the given one is to be released
+        self.__selections = [selection_ for selection_ in self.__selections if selection_ is not selection]
 
     # thread safe.
     def __master_item_inserted(self, key, item, before_index):
@@ -870,7 +872,8 @@ class FlattenedListModel(Observable.Observable):
         return selection
 
     def release_selection(self, selection):
-        self.__selections.remove(selection)
+        # selections with the same indexes are equal, but only the given one is to be released
+        self.__selections = [selection_ for selection_ in self.__selections if selection_ is not selection]
 
     # almost thread safe. assumes child items will not change duing this call.
     def __master_item_inserted(self, key, item, before_index):
-- 
2.43.0


From 0144e265c7f86a8a0f82d758e6b95b631c78b8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:57 +0000
Subject: [PATCH 25/55] fix: IndexedSelection forgets the anchor when its item
 is removed

---
 nion/utils/Selection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nion/utils/Selection.py b/nion/utils/Selection.py
index 7dc5e85..2119227 100644
--- a/nion/utils/Selection.py
+++ b/nion/utils/Selection.py
@@ -196,10 +196,12 @@ class IndexedSelection:
                     new_indexes.add(index - 1)
                 else:
                     new_indexes.add(index)
+        if self.__indexes != new_indexes:
+            self.__indexes = new_indexes
         if self.__anchor_index is not None:
             if remove_index == self.__anchor_index:
+                # the anchor is gone; use the first of the remaining indexes, if any
+                self.__anchor_index = None
                 self.__update_anchor_index()
             elif remove_index < self.__anchor_index:
                 self.__anchor_index -= 1
-        if self.__indexes != new_indexes:
-            self.__indexes = new_indexes
-- 
2.43.0


From 3609469cbbab2536165dd99a2ceee50e21db29ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:09 +0000
Subject: [PATCH 26/55] fix: IndexedSelection with a single index holds only
 one after clear

---
 nion/utils/Selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Selection.py b/nion/utils/Selection.py
index 2119227..8825347 100644
--- a/nion/utils/Selection.py
+++ b/nion/utils/Selection.py
@@ -77,7 +77,7 @@ class IndexedSelection:
     def clear(self) -> None:
         old_index = copy.copy(self.__indexes)
         if self.selection_style == Style.single:
-            self.__indexes.add(0)
+            self.__indexes = {0}
             self.__anchor_index = 0
         else:
             self.__indexes = set()
-- 
2.43.0


From 8336e27b922ac64819251e00039cf8039d88b6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:05 +0000
Subject: [PATCH 27/55] fix: persistent relationships with a storage key are
 stored under that key

---
 nion/utils/Persistence.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 7f76fe1..fefb7e9 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -433,7 +433,8 @@ class PersistentObject:
             return lambda storage_dict: storage_dict.get(persistent_object_parent.item_name, dict())
         if persistent_object_parent.relationship_name:
             index = getattr(persistent_object_parent.parent, persistent_object_parent.relationship_name).index(self)
-            return lambda storage_dict: storage_dict[persistent_object_parent.relationship_name][index]
+            storage_key = persistent_object_parent.parent.__relationships[persistent_object_parent.relationship_name].storage_key
+            return lambda storage_dict: storage_dict[storage_key][index]
         return None
 
     def define_type(self, type):
@@ -709,7 +710,7 @@ class PersistentObject:
         # the persistent_object_parent and relationship need to be established before
         # calling item_inserted.
         if self.persistent_object_context:
-            self.persistent_object_context.item_inserted(self, name, before_index, item)  # this will also update item's persistent_object_context
+            self.persistent_object_context.item_inserted(self, relationship.storage_key, before_index, item)  # this will also update item's persistent_object_context
         if relationship.insert:
             relationship.insert(name, before_index, item)
 
@@ -727,7 +728,7 @@ class PersistentObject:
             relationship.remove(name, item_index, item)
         item.persistent_object_context = None
         if self.persistent_object_context:
-            self.persistent_object_context.item_removed(self, name, item_index, item)  # this will also update item's persistent_object_context
+            self.persistent_object_context.item_removed(self, relationship.storage_key, item_index, item)  # this will also update item's persistent_object_context
         item.persistent_object_parent = None
 
     def extend_items(self, name, items):
-- 
2.43.0


From c49309aa103cb3257461ffa8681c288f801088d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:15 +0000
Subject: [PATCH 28/55] fix: clearing a persistent property removes it under
 its storage key

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index fefb7e9..03dc40c 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -595,7 +595,7 @@ class PersistentObject:
                 for property_key in properties:
                     self.persistent_object_context.property_changed(self, property_key, properties[property_key])
             else:
-                self.persistent_object_context.clear_property(self, name)
+                self.persistent_object_context.clear_property(self, property.key)
 
     def __update_modified(self, modified):
         self.__modified_count += 1
-- 
2.43.0


From b7ffcd7e64e3451048ad00290d1617559e02d346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:46 +0000
Subject: [PATCH 29/55] fix: a failed storage write leaves persistent items and
 relationships as they are stored

---
 nion/utils/Persistence.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 03dc40c..dc4af7d 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -688,7 +688,14 @@ class PersistentObject:
         # the persistent_object_parent and item need to be established before
         # calling item_changed.
         if self.persistent_object_context:
-            self.persistent_object_context.item_set(self, name, value)  # this will also update item's persistent_object_context
+            try:
+                self.persistent_object_context.item_set(self, name, value)  # this will also update item's persistent_object_context
+            except Exception:
+                # the item is not stored; later writes rely on the item matching the storage
+                item.value = old_value
+                if value:
+                    value.persistent_object_parent = None
+                raise
         if item.item_changed:
             item.item_changed(name, old_value, value)
 
@@ -710,7 +717,13 @@ class PersistentObject:
         # the persistent_object_parent and relationship need to be established before
         # calling item_inserted.
         if self.persistent_object_context:
-            self.persistent_object_context.item_inserted(self, relationship.storage_key, before_index, item)  # this will also update item's persistent_object_context
+            try:
+                self.persistent_object_context.item_inserted(self, relationship.storage_key, before_index, item)  # this will also update item's persistent_object_context
+            except Exception:
+                # the item is not stored; later writes rely on the relationship matching the storage
+                relationship.values.remove(item)
+                item.persistent_object_parent = None
+                raise
         if relationship.insert:
             relationship.insert(name, before_index, item)
 
@@ -724,11 +737,16 @@ class PersistentObject:
         item_index = relationship.values.index(item)
         relationship.values.remove(item)
         self.__update_modified(datetime.datetime.utcnow())
+        if self.persistent_object_context:
+            try:
+                self.persistent_object_context.item_removed(self, relationship.storage_key, item_index, item)  # this will also update item's persistent_object_context
+            except Exception:
+                # the item is still stored; later writes rely on the relationship matching the storage
+                relationship.values.insert(item_index, item)
+                raise
         if relationship.remove:
             relationship.remove(name, item_index, item)
         item.persistent_object_context = None
-        if self.persistent_object_context:
-            self.persistent_object_context.item_removed(self, relationship.storage_key, item_index, item)  # this will also update item's persistent_object_context
         item.persistent_object_parent = None
 
     def extend_items(self, name, items):
-- 
2.43.0


From b2d9980f52d0ed32c91d51b9de35daf9827e5d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:33 +0000
Subject: [PATCH 30/55] fix: a replaced persistent item is detached from its
 former owner

---
 nion/utils/Persistence.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index dc4af7d..d1ac7c3 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -696,6 +696,10 @@ class PersistentObject:
                 if value:
                     value.persistent_object_parent = None
                 raise
+        if old_value and old_value is not value:
+            # the replaced item no longer belongs to this object
+            old_value.persistent_object_context = None
+            old_value.persistent_object_parent = None
         if item.item_changed:
             item.item_changed(name, old_value, value)
 
-- 
2.43.0


From ce7ae2c782367394699f17f8a843c2b2f98383a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:57 +0000
Subject: [PATCH 31/55] fix: subscribing to a registered object without a
 registered function works

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index d1ac7c3..1d18c6a 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -222,7 +222,7 @@ class PersistentObjectContext:
         self.__subscriptions.setdefault(object_uuid, list()).append((registered, unregistered))
         weak_object = self.__objects.get(object_uuid)
         object = weak_object and weak_object()
-        if object is not None:
+        if object is not None and registered:
             registered(object)
 
     def _set_persistent_storage_for_object(self, object, persistent_storage):
-- 
2.43.0


From 7418823229280e7a326edc175ad940a75612c688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:09 +0000
Subject: [PATCH 32/55] fix: subscribers to persistent objects are told once,
 whatever other subscribers do

---
 nion/utils/Persistence.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 1d18c6a..79ff85c 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -184,9 +184,9 @@ class PersistentObjectContext:
         object_uuid = object.uuid
         weak_object = weakref.ref(object)
         self.__objects[object_uuid] = weak_object
-        for registered, unregistered in self.__subscriptions.get(object_uuid, list()):
-            if registered:
-                registered(object)
+        # subscriptions made during the calls are told by subscribe
+        for registered, unregistered in tuple(self.__subscriptions.get(object_uuid, list())):
+            self.__notify(registered, object)
         self.registration_event.fire(object, None)
 
     def unregister(self, object):
@@ -198,12 +198,19 @@ class PersistentObjectContext:
         object_uuid = object.uuid
         weak_object = self.__objects.get(object_uuid)
         object = weak_object() if weak_object else None
-        for registered, unregistered in self.__subscriptions.get(object_uuid, list()):
-            if unregistered:
-                unregistered(object)
-        self.registration_event.fire(None, object)
+        # the object is no longer available; subscriptions made during the calls wait until it becomes available again
         del self.__objects[object_uuid]
-        self.__subscriptions.pop(object_uuid, None)  # delete if it exists
+        for registered, unregistered in self.__subscriptions.pop(object_uuid, list()):
+            self.__notify(unregistered, object)
+        self.registration_event.fire(None, object)
+
+    def __notify(self, fn, object):
+        """ Call the function of a subscription. Like a failing listener, a failing function does not affect others. """
+        if fn:
+            try:
+                fn(object)
+            except Exception:
+                logging.exception("subscription function failed")
 
     def get_registered_object(self, object_uuid):
         weak_object = self.__objects.get(object_uuid)
-- 
2.43.0


From 717776db12e5d6170785ede9507e28d8ee2062cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:54 +0000
Subject: [PATCH 33/55] fix: the component registry is created once when first
 used by several threads

---
 nion/utils/Registry.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nion/utils/Registry.py b/nion/utils/Registry.py
index 79279bf..57e8356 100644
--- a/nion/utils/Registry.py
+++ b/nion/utils/Registry.py
@@ -11,6 +11,7 @@ application can ask for all objects registered of a specific type.
 """
 
 # standard libraries
+import threading
 import typing
 
 # local libraries
@@ -24,10 +25,12 @@ class Singleton(type):
     def __init__(cls, name, bases, dict):
         super(Singleton, cls).__init__(name, bases, dict)
         cls.instance = None
+        cls._instance_lock = threading.RLock()
 
     def __call__(cls, *args, **kw):
-        if cls.instance is None:
-            cls.instance = super(Singleton, cls).__call__(*args, **kw)
+        with cls._instance_lock:
+            if cls.instance is None:
+                cls.instance = super(Singleton, cls).__call__(*args, **kw)
         return cls.instance
 
 
-- 
2.43.0


From 3ae1bf208091dcaae49d13e3a3e206038c9818c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:01 +0000
Subject: [PATCH 34/55] fix: get_component returns the component of highest
 priority

---
 nion/utils/Registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Registry.py b/nion/utils/Registry.py
index 57e8356..08c5fcd 100644
--- a/nion/utils/Registry.py
+++ b/nion/utils/Registry.py
@@ -96,7 +96,7 @@ def get_component(component_type: str) -> typing.Optional[typing.Any]:
     sorted_components = sorted(components, key=attrgetter("priority", 50), reverse=True)
 
     if len(sorted_components) > 0:
-        return tuple(components)[0]
+        return sorted_components[0]
 
     return None
 
-- 
2.43.0


From fe6778faced20db5ae5ad8673454d2f817bb9d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:03 +0000
Subject: [PATCH 35/55] fix: unregistering a component announces the types it
 was registered under

---
 nion/utils/Registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Registry.py b/nion/utils/Registry.py
index 08c5fcd..ac181b4 100644
--- a/nion/utils/Registry.py
+++ b/nion/utils/Registry.py
@@ -63,7 +63,7 @@ class ComponentManager(metaclass=Singleton):
         self.component_registered_event.fire(component, component_types)
 
     def unregister(self, component, component_types: typing.Set[str] = None) -> None:
-        component_types = component_types if component_types is not None else self.__component_types[component]
+        component_types = set(component_types if component_types is not None else self.__component_types[component])
         for component_type in component_types:
             assert component in self.__components_by_type.get(component_type, set())
         for component_type in component_types:
-- 
2.43.0


From 609ac9e09d883594f149e66898435d9909b3ae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:09 +0000
Subject: [PATCH 36/55] fix: looked up components do not change when components
 are registered or unregistered

---
 nion/utils/Registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Registry.py b/nion/utils/Registry.py
index ac181b4..6be47c3 100644
--- a/nion/utils/Registry.py
+++ b/nion/utils/Registry.py
@@ -51,7 +51,7 @@ class ComponentManager(metaclass=Singleton):
         return self.__components_by_type
 
     def get_components_by_type(self, component_type:str) -> typing.Set[typing.Any]:
-        return self.__components_by_type.get(component_type, list())
+        return set(self.__components_by_type.get(component_type, set()))
 
     def register(self, component, component_types: typing.Set[str]) -> None:
         for component_type in component_types:
-- 
2.43.0


From 2a9e124b5d7563dabeade990f14b49e5b78577a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:37 +0000
Subject: [PATCH 37/55] fix: structured models support float fields

---
 nion/utils/StructuredModel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 851f601..90a8a57 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -29,6 +29,8 @@ BOOLEAN = "boolean"
 INT = "int"
 FLOAT = "double"
 
+BASIC_TYPES = (STRING, BOOLEAN, INT, FLOAT, "float")
+
 
 def define_string() -> MDescription:
     return "string"
@@ -62,10 +64,10 @@ def define_array(items: MDescription) -> MDescription:
 
 
 def build_model(schema: MDescription, *, default_value=None, value=None):
-    if schema in ("string", "boolean", "int", "float"):
+    if schema in BASIC_TYPES:
         return FieldPropertyModel(default_value if default_value is not None else value)
     type = typing.cast(dict, schema).get("type")
-    if type in ("string", "boolean", "int", "float"):
+    if type in BASIC_TYPES:
         return FieldPropertyModel(default_value if default_value is not None else value)
     elif type == "record":
         record_values = copy.copy(default_value or dict())
@@ -76,10 +78,10 @@ def build_model(schema: MDescription, *, default_value=None, value=None):
 
 
 def build_value(schema: MDescription, *, value=None):
-    if schema in ("string", "boolean", "int", "float"):
+    if schema in BASIC_TYPES:
         return value
     type = typing.cast(dict, schema).get("type")
-    if type in ("string", "boolean", "int", "float"):
+    if type in BASIC_TYPES:
         return value
     elif type == "record":
         return RecordModel(schema, values=value)
-- 
2.43.0


From 7b9c51e16f52177210f670e307e8534ea5bddba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:43 +0000
Subject: [PATCH 38/55] fix: structured model fields use the given value rather
 than their default

---
 nion/utils/StructuredModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 90a8a57..6b3ac3b 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -65,10 +65,10 @@ def define_array(items: MDescription) -> MDescription:
 
 def build_model(schema: MDescription, *, default_value=None, value=None):
     if schema in BASIC_TYPES:
-        return FieldPropertyModel(default_value if default_value is not None else value)
+        return FieldPropertyModel(value if value is not None else default_value)
     type = typing.cast(dict, schema).get("type")
     if type in BASIC_TYPES:
-        return FieldPropertyModel(default_value if default_value is not None else value)
+        return FieldPropertyModel(value if value is not None else default_value)
     elif type == "record":
         record_values = copy.copy(default_value or dict())
         record_values.update(value or dict())
-- 
2.43.0


From 901c3fef3629a1633741bb3e5eb16515b5ab6df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:53 +0000
Subject: [PATCH 39/55] fix: arrays of basic values are converted to plain data

---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 6b3ac3b..152c1fd 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -286,7 +286,7 @@ class ArrayModel(ListModelModule.ListModel):
     def to_dict_value(self) -> typing.Optional[typing.Any]:
         l = list()
         for item in self.items:
-            l.append(item.to_dict_value())
+            l.append(item.to_dict_value() if isinstance(item, (FieldPropertyModel, RecordModel, ArrayModel)) else item)
         return l
 
     @property
-- 
2.43.0


From cf34b1abc0c91fef633444b4387acc294369b5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:58 +0000
Subject: [PATCH 40/55] fix: loading plain data into an array announces the
 changes and supports basic values

---
 nion/utils/StructuredModel.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 152c1fd..258c0ca 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -275,13 +275,18 @@ class ArrayModel(ListModelModule.ListModel):
         self.from_dict_value(array.to_dict_value())
 
     def from_dict_value(self, values):
-        while len(values) > len(self.items):
-            item_schema = self.schema["items"]
-            self.items.append(build_value(item_schema))
         while len(values) < len(self.items):
-            del self.items[-1]
-        for value, item in zip(values, self.items):
-            item.from_dict_value(value)
+            self.remove_item(len(self.items) - 1)
+        for index, value in enumerate(values):
+            if index < len(self.items):
+                item = self.items[index]
+                if isinstance(item, (FieldPropertyModel, RecordModel, ArrayModel)):
+                    item.from_dict_value(value)
+                elif item != value:
+                    self.remove_item(index)
+                    self.insert_item(index, value)
+            else:
+                self.append_item(build_value(self.schema["items"], value=value))
 
     def to_dict_value(self) -> typing.Optional[typing.Any]:
         l = list()
-- 
2.43.0


From 7863aa90efdaa251a0484dc924010d99a823d0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:07 +0000
Subject: [PATCH 41/55] fix: array models can be closed

---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 258c0ca..ee1a3a8 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -260,7 +260,7 @@ class ArrayModel(ListModelModule.ListModel):
             self.__model_changed_listeners.append(trampoline)
 
     def close(self):
-        for index, item in enumerate(self.items()):
+        for index, item in enumerate(self.items):
             trampoline = self.__model_changed_listeners[index]
             if trampoline:
                 trampoline.close()
-- 
2.43.0


From 86bb7090bc99dab155a61e4e1fdd0a6faed6d436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:11 +0000
Subject: [PATCH 42/55] fix: membership of array fields can be tested

---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index ee1a3a8..cbacbc3 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -228,7 +228,7 @@ class ItemsSequence(collections.abc.MutableSequence):
         self.__list_model.remove_item(key)
 
     def __contains__(self, item):
-        return self.__list_model.items.contains(item)
+        return item in self.__list_model.items
 
     def insert(self, index, value):
         self.__list_model.insert_item(index, value)
-- 
2.43.0


From 1e5d9c50aa856e8352c4994d80476460931567f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:36 +0000
Subject: [PATCH 43/55] fix: array models keep track of which item announces
 changes

---
 nion/utils/StructuredModel.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index cbacbc3..ebdc87d 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -299,18 +299,19 @@ class ArrayModel(ListModelModule.ListModel):
         return ItemsSequence(self)
 
     def notify_insert_item(self, key, value, before_index):
-        super().notify_insert_item(key, value, before_index)
-        self.array_item_inserted_event.fire(key, value, before_index)
+        # keep the listeners in step with the items before anyone is told and may change the items again
         trampoline = None
         if isinstance(value, (RecordModel, ArrayModel)):
             trampoline = value.model_changed_event.listen(self.model_changed_event.fire)
-        self.__model_changed_listeners.append(trampoline)
+        self.__model_changed_listeners.insert(before_index, trampoline)
+        super().notify_insert_item(key, value, before_index)
+        self.array_item_inserted_event.fire(key, value, before_index)
         self.model_changed_event.fire()
 
     def notify_remove_item(self, key, value, index):
-        super().notify_remove_item(key, value, index)
         trampoline = self.__model_changed_listeners.pop(index)
         if trampoline:
             trampoline.close()
+        super().notify_remove_item(key, value, index)
         self.array_item_removed_event.fire(key, value, index)
         self.model_changed_event.fire()
-- 
2.43.0


From bb6c3db936b3ef0720e60bbcfcdbfd1f946c0b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:30 +0000
Subject: [PATCH 44/55] fix: attribute and tuple bindings give their target the
 fallback when the bound part is None

---
 nion/utils/Binding.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nion/utils/Binding.py b/nion/utils/Binding.py
index bb96fe5..718e79a 100644
--- a/nion/utils/Binding.py
+++ b/nion/utils/Binding.py
@@ -282,8 +282,9 @@ class PropertyAttributeBinding(Binding):
             if property_name_ == self.__property_name:
                 # perform on the main thread
                 value = getattr(source, property_name)
-                if value is not None and hasattr(value, self.__attribute_name):
-                    self.update_target(getattr(value, self.__attribute_name))
+                attribute_value = getattr(value, self.__attribute_name, None) if value is not None else None
+                if attribute_value is not None:
+                    self.update_target(attribute_value)
                 else:
                     self.update_target_direct(self.fallback)
 
@@ -338,7 +339,7 @@ class TuplePropertyBinding(Binding):
             if property_name_ == self.__property_name:
                 # perform on the main thread
                 value = getattr(source, property_name)
-                if value is not None and self.__tuple_index < len(value):
+                if value is not None and self.__tuple_index < len(value) and value[self.__tuple_index] is not None:
                     self.update_target(value[self.__tuple_index])
                 else:
                     self.update_target_direct(self.fallback)
-- 
2.43.0


From c8d1185874b57e417e40cfc7f680bd36027d283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:18 +0000
Subject: [PATCH 45/55] fix: explicit runners leave the markers that stop a
 thread pool's threads to the threads

---
 nion/utils/ThreadPool.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nion/utils/ThreadPool.py b/nion/utils/ThreadPool.py
index 81f685d..20cf6bb 100644
--- a/nion/utils/ThreadPool.py
+++ b/nion/utils/ThreadPool.py
@@ -189,6 +189,8 @@ class ThreadPool(object):
                 break
             if task and not self.__closed:
                 task.execute()
+            if not task:
+                self.__queue.put(task)  # it is there to stop a thread; leave it for the thread
             self.__queue.task_done()
             if not task:
                 break
@@ -200,4 +202,6 @@ class ThreadPool(object):
             return
         if task and not self.__closed:
             task.execute()
+        if not task:
+            self.__queue.put(task)  # it is there to stop a thread; leave it for the thread
         self.__queue.task_done()
-- 
2.43.0


From e32eef06766d692e522cf31d3be2e21a859ec69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:36 +0000
Subject: [PATCH 46/55] fix: a deep copy of a text filter kept no text to look
 for

---
 nion/utils/ListModel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index d4ff2a1..41aa62c 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -177,6 +177,7 @@ class TextFilter(Filter):
         result = super().__deepcopy__(memo)
         result.__key = self.__key
         result.__text = self.__text
+        result.__lower_text = self.__lower_text
         return result
 
     def matches(self, d) -> bool:
-- 
2.43.0


From 9ec340e6fe2e7d7c9a490a5180818c2c7c235518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:00 +0000
Subject: [PATCH 47/55] fix: a recorder recursed for ever when items moved, and
 replayed changes at the positions objects had last

---
 nion/utils/Recorder.py | 59 +++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/nion/utils/Recorder.py b/nion/utils/Recorder.py
index 5ece3c7..d605378 100644
--- a/nion/utils/Recorder.py
+++ b/nion/utils/Recorder.py
@@ -1,6 +1,5 @@
 import collections
 import copy
-import functools
 import typing
 
 
@@ -14,6 +13,9 @@ class Recorder:
     def __init__(self, object, accessor_fn: AccessorType=None, logger=None):
         self.__object = object
         self.__accessor_fn = accessor_fn if accessor_fn else lambda x: x  # type: AccessorType
+        self.__parent = None
+        self.__key = None
+        self.__index = None
         self.__logger = logger if logger is not None else list()
         self.__property_changed_event_listener = object.property_changed_event.listen(self.__property_changed)
         self.__item_set_event_listener = object.item_set_event.listen(self.__item_set)
@@ -25,15 +27,11 @@ class Recorder:
         for key in object.item_names:
             item = getattr(object, key)
             if item:
-                def item_accessor(key, x):
-                    return getattr(self.__accessor_fn(x), key)
-                self.__item_recorders[key] = Recorder(item, functools.partial(item_accessor, key), self.__logger)
+                self.__item_recorders[key] = self.__make_recorder(item, key)
         for key in object.relationship_names:
             items = getattr(object, key)
             for index, item in enumerate(items):
-                def item_index_accessor(key: str, index: int, x):
-                    return getattr(self.__accessor_fn(x), key)[index]
-                self.__relationship_recorders[key].append(Recorder(item, functools.partial(item_index_accessor, key, index), self.__logger))
+                self.__relationship_recorders[key].append(self.__make_recorder(item, key, index))
 
     def close(self):
         self.__property_changed_event_listener.close()
@@ -58,18 +56,28 @@ class Recorder:
         for logger_item in self.__logger:
             logger_item(object)
 
+    def __make_recorder(self, item, key: str, index: int=None) -> "Recorder":
+        recorder = Recorder(item, logger=self.__logger)
+        recorder.__parent = self
+        recorder.__key = key
+        recorder.__index = index
+        return recorder
+
     @property
     def _accessor_fn(self) -> AccessorType:
-        return self._accessor_fn
-
-    @_accessor_fn.setter
-    def _accessor_fn(self, value: AccessorType) -> None:
-        self._accessor_fn = value
+        """Return the accessor for the position of the object at this time; later changes may move it."""
+        if self.__parent is None:
+            return self.__accessor_fn
+        parent_accessor_fn, key, index = self.__parent._accessor_fn, self.__key, self.__index
+        if index is None:
+            return lambda x: getattr(parent_accessor_fn(x), key)
+        return lambda x: getattr(parent_accessor_fn(x), key)[index]
 
     def __property_changed(self, key):
         if self.__object._is_persistent_property_recordable(key):
+            accessor_fn = self._accessor_fn
             def property_setter(x):
-                setattr(self.__accessor_fn(x), key, getattr(self.__object, key))
+                setattr(accessor_fn(x), key, getattr(self.__object, key))
             # print("set property {} {}".format(key, value))
             self.__logger.append(property_setter)
 
@@ -79,25 +87,28 @@ class Recorder:
             item_recorder.close()
         item = getattr(self.__accessor_fn(), key)
         if item:
-            self.__item_recorders[key] = Recorder(item, lambda x: getattr(self.__accessor_fn(x), key), self.__logger)
+            self.__item_recorders[key] = self.__make_recorder(item, key)
+        accessor_fn = self._accessor_fn
         # print("set {} {}".format(key, item))
-        self.__logger.append(lambda x: setattr(self.__accessor_fn(x), key, item))
+        self.__logger.append(lambda x: setattr(accessor_fn(x), key, item))
 
     def __item_cleared(self, key):
         self.__item_set(key, None)
 
-    def __item_inserted(self, key, value, before_index):
+    def __update_indexes(self, key: str) -> None:
         for index, relationship_recorder in enumerate(self.__relationship_recorders[key]):
-            if index >= before_index:
-                relationship_recorder._accessor_fn = lambda x: getattr(self.__accessor_fn(x), key)[index + 1]
-        self.__relationship_recorders[key].insert(before_index, Recorder(value, lambda x: getattr(self.__accessor_fn(x), key)[before_index], self.__logger))
+            relationship_recorder.__index = index
+
+    def __item_inserted(self, key, value, before_index):
+        self.__relationship_recorders[key].insert(before_index, self.__make_recorder(value, key))
+        self.__update_indexes(key)
+        accessor_fn = self._accessor_fn
         # print("append {} {} {}".format(key, value, before_index))
-        self.__logger.append(lambda x: self.__accessor_fn(x).insert_item(key, before_index, copy.deepcopy(value)))
+        self.__logger.append(lambda x: accessor_fn(x).insert_item(key, before_index, copy.deepcopy(value)))
 
     def __item_removed(self, key, value, item_index):
-        for index, relationship_recorder in enumerate(self.__relationship_recorders[key]):
-            if index > item_index:
-                relationship_recorder._accessor_fn = lambda x: getattr(self.__accessor_fn(x), key)[index - 1]
         self.__relationship_recorders[key].pop(item_index).close()
+        self.__update_indexes(key)
+        accessor_fn = self._accessor_fn
         # print("remove {} {} {}".format(key, value, item_index))
-        self.__logger.append(lambda x: self.__accessor_fn(x).remove_item(key, getattr(self.__accessor_fn(x), key)[item_index]))
+        self.__logger.append(lambda x: accessor_fn(x).remove_item(key, getattr(accessor_fn(x), key)[item_index]))
-- 
2.43.0


From d6da2e0f4ce8d35c241389db4750bebfbb755d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:00 +0000
Subject: [PATCH 48/55] fix: setting or clearing an item of a recorded object
 failed and was not replayed

---
 nion/utils/Recorder.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nion/utils/Recorder.py b/nion/utils/Recorder.py
index d605378..1eb47d0 100644
--- a/nion/utils/Recorder.py
+++ b/nion/utils/Recorder.py
@@ -82,15 +82,14 @@ class Recorder:
             self.__logger.append(property_setter)
 
     def __item_set(self, key, item):
-        item_recorder = self.__item_recorders.pop(key)
+        item_recorder = self.__item_recorders.pop(key, None)
         if item_recorder:
             item_recorder.close()
-        item = getattr(self.__accessor_fn(), key)
         if item:
             self.__item_recorders[key] = self.__make_recorder(item, key)
         accessor_fn = self._accessor_fn
         # print("set {} {}".format(key, item))
-        self.__logger.append(lambda x: setattr(accessor_fn(x), key, item))
+        self.__logger.append(lambda x: accessor_fn(x).set_item(key, copy.deepcopy(item)))
 
     def __item_cleared(self, key):
         self.__item_set(key, None)
-- 
2.43.0


From 6bcb4a41826197e22c80f0d93fb0631deab6fe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:00 +0000
Subject: [PATCH 49/55] fix: a recorder replayed the values of the time of the
 replay instead of those of the change

---
 nion/utils/Recorder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nion/utils/Recorder.py b/nion/utils/Recorder.py
index 1eb47d0..4ef4c98 100644
--- a/nion/utils/Recorder.py
+++ b/nion/utils/Recorder.py
@@ -76,10 +76,9 @@ class Recorder:
     def __property_changed(self, key):
         if self.__object._is_persistent_property_recordable(key):
             accessor_fn = self._accessor_fn
-            def property_setter(x):
-                setattr(accessor_fn(x), key, getattr(self.__object, key))
+            value = copy.deepcopy(getattr(self.__object, key))
             # print("set property {} {}".format(key, value))
-            self.__logger.append(property_setter)
+            self.__logger.append(lambda x: setattr(accessor_fn(x), key, value))
 
     def __item_set(self, key, item):
         item_recorder = self.__item_recorders.pop(key, None)
@@ -88,6 +87,7 @@ class Recorder:
         if item:
             self.__item_recorders[key] = self.__make_recorder(item, key)
         accessor_fn = self._accessor_fn
+        item = copy.deepcopy(item)
         # print("set {} {}".format(key, item))
         self.__logger.append(lambda x: accessor_fn(x).set_item(key, copy.deepcopy(item)))
 
@@ -102,6 +102,7 @@ class Recorder:
         self.__relationship_recorders[key].insert(before_index, self.__make_recorder(value, key))
         self.__update_indexes(key)
         accessor_fn = self._accessor_fn
+        value = copy.deepcopy(value)
         # print("append {} {} {}".format(key, value, before_index))
         self.__logger.append(lambda x: accessor_fn(x).insert_item(key, before_index, copy.deepcopy(value)))
 
-- 
2.43.0


From a86bc2f8db462ab5ffba3ef6258af2a8c3f89f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:48 +0000
Subject: [PATCH 50/55] fix: a callable that is false in a condition was never
 run by the thread pool

---
 nion/utils/ThreadPool.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nion/utils/ThreadPool.py b/nion/utils/ThreadPool.py
index 20cf6bb..620ec2c 100644
--- a/nion/utils/ThreadPool.py
+++ b/nion/utils/ThreadPool.py
@@ -114,7 +114,7 @@ class ThreadPoolTask(object):
         #logging.debug("Task cancel - %s", self)
         with self.__lock:
             #logging.debug("Task cancel + %s", self)
-            if self.__fn:
+            if self.__fn is not None:
                 self.__fn = None
                 self.__finished_fn(self)
 
@@ -122,7 +122,7 @@ class ThreadPoolTask(object):
         # logging.debug("Task execute - %s %s", self, self.__description)
         with self.__lock:
             # logging.debug("Task execute + %s", self)
-            if self.__fn:
+            if self.__fn is not None:
                 try:
                     self.__fn()
                 except Exception as e:
-- 
2.43.0


From 535a2d70d263e47e6bc33ac0ffa9942cb50d29a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:20 +0000
Subject: [PATCH 51/55] fix: copying an object together with its item made two
 copies of the item

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 79ff85c..e92ec2a 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -400,7 +400,7 @@ class PersistentObject:
             new_value = copy.deepcopy(value)
             self._set_persistent_property_value(key, new_value)
         for key in self.__items.keys():
-            self.set_item(key, copy.deepcopy(getattr(item, key)))
+            self.set_item(key, copy.deepcopy(getattr(item, key), memo))
         for key in self.__relationships.keys():
             for child_item in getattr(item, key):
                 self.append_item(key, copy.deepcopy(child_item, memo))
-- 
2.43.0


From 65dcd1cf4129a558787f359e083e89314d6a9bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:40 +0000
Subject: [PATCH 52/55] fix: an object with a hidden item that is no attribute
 could not be copied

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index e92ec2a..256b6d1 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -400,7 +400,7 @@ class PersistentObject:
             new_value = copy.deepcopy(value)
             self._set_persistent_property_value(key, new_value)
         for key in self.__items.keys():
-            self.set_item(key, copy.deepcopy(getattr(item, key), memo))
+            self.set_item(key, copy.deepcopy(item.get_item(key), memo))
         for key in self.__relationships.keys():
             for child_item in getattr(item, key):
                 self.append_item(key, copy.deepcopy(child_item, memo))
-- 
2.43.0


From 3e5ad34d5a603fca9a393bc358d10690621b068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:43 +0000
Subject: [PATCH 53/55] fix: a flattened list kept the items removed from its
 source

---
 nion/utils/ListModel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 41aa62c..a99cef1 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -902,6 +902,7 @@ class FlattenedListModel(Observable.Observable):
                     self.__child_item_removed(item, self.__child_items_key, child_item, index_)
                 # print(f"{self} removed {item} {index} ({len(getattr(item, self.__child_items_key))})")
                 del self.__master_items[index]
+                self.__children.pop(item, None)
                 del self.__child_item_inserted_event_listener[item]
                 del self.__child_item_removed_event_listener[item]
                 assert not item in self.__master_items, "master item still in " + str(self.__master_items_key) + " (" + str(self.__items_key) + " / " + str(self.__child_items_key) + ")"
-- 
2.43.0


From c418988a83795f99833be5358ba653b38abca8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:44 +0000
Subject: [PATCH 54/55] fix: lists notify the index of an item inserted or
 removed by a negative or too large index

---
 nion/utils/ListModel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index a99cef1..da5b761 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -33,11 +33,15 @@ class ListModel(Observable.Observable, typing.Generic[T]):
             self.remove_item(len(self.__items) - 1)
 
     def insert_item(self, index: int, value: T) -> None:
+        # an index may count from the end or lie outside of the list; observers are told where the item is
+        index = max(index + len(self.__items), 0) if index < 0 else min(index, len(self.__items))
         self.__items.insert(index, value)
         self.notify_insert_item(self.__key if self.__key else "items", value, index)
 
     def remove_item(self, index: int) -> None:
         value = self.__items[index]
+        if index < 0:
+            index += len(self.__items)  # observers are told where the item was
         del self.__items[index]
         self.notify_remove_item(self.__key if self.__key else "items", value, index)
 
-- 
2.43.0


From e5a25eb885df575ed5714978df46d3a84381209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:48 +0000
Subject: [PATCH 55/55] fix: deleting a slice of an array field removes each of
 its items

---
 nion/utils/StructuredModel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index ebdc87d..2214b91 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -225,7 +225,11 @@ class ItemsSequence(collections.abc.MutableSequence):
         raise IndexError()
 
     def __delitem__(self, key):
-        self.__list_model.remove_item(key)
+        if isinstance(key, slice):
+            for index in sorted(range(*key.indices(len(self))), reverse=True):
+                self.__list_model.remove_item(index)
+        else:
+            self.__list_model.remove_item(key)
 
     def __contains__(self, item):
         return item in self.__list_model.items
-- 
2.43.0

