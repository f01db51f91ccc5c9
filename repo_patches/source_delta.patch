From 919c8faaa1eb25f998511144eaef6c9a774fb83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:00 +0000
Subject: [PATCH 01/30] fix: boolean parameters set to a negative string must
 not become True

`put` accepts 'false', 'no' and '0' but normalized them with `bool`, which is
True for any non-empty string.
---
 unidist/config/parameter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unidist/config/parameter.py b/unidist/config/parameter.py
index 271a344..30389f5 100644
--- a/unidist/config/parameter.py
+++ b/unidist/config/parameter.py
@@ -51,7 +51,11 @@ _TYPE_PARAMS = {
     ),
     bool: TypeDescriptor(
         decode=lambda value: value.strip().lower() in {"true", "yes", "1"},
-        normalize=bool,
+        normalize=lambda value: (
+            value.strip().lower() in {"true", "yes", "1"}
+            if isinstance(value, str)
+            else bool(value)
+        ),
         verify=lambda value: isinstance(value, bool)
         or (
             isinstance(value, str)
-- 
2.43.0


From df56415612c05ac15d0f5dd0d83bffad5a00aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:00 +0000
Subject: [PATCH 02/30] fix: do not leave the backend class unbound when Dask
 is initialized off the main thread

---
 unidist/core/base/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unidist/core/base/utils.py b/unidist/core/base/utils.py
index eab9c87..af196cf 100644
--- a/unidist/core/base/utils.py
+++ b/unidist/core/base/utils.py
@@ -30,12 +30,13 @@ def init_backend():
     elif backend_name == BackendName.DASK:
         import threading
 
+        from unidist.core.backends.dask.backend import DaskBackend
+
         if threading.current_thread() is threading.main_thread():
-            from unidist.core.backends.dask.backend import DaskBackend
             from unidist.core.backends.dask.utils import initialize_dask
 
             initialize_dask()
-            backend_cls = DaskBackend()
+        backend_cls = DaskBackend()
     elif backend_name == BackendName.RAY:
         from unidist.core.backends.ray.backend import RayBackend
         from unidist.core.backends.ray.utils import initialize_ray
-- 
2.43.0


From c143ead4483efd28fc4e8be45df01de93fdce717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:00 +0000
Subject: [PATCH 03/30] fix: `put` of a collection with Dask must give a single
 reference

`Client.scatter` returns a collection of futures for dict, tuple, set and list,
so `get` of such a reference failed.
---
 unidist/core/backends/dask/backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/dask/backend.py b/unidist/core/backends/dask/backend.py
index 0685fa2..c8cb0f8 100644
--- a/unidist/core/backends/dask/backend.py
+++ b/unidist/core/backends/dask/backend.py
@@ -95,7 +95,9 @@ class DaskBackend(Backend):
         distributed.client.Future
             Dask Future matching to data.
         """
-        return get_client().scatter(data, hash=False)
+        # Wrap the data into a list since `scatter` returns a collection of futures
+        # rather than a single future when it gets a collection.
+        return get_client().scatter([data], hash=False)[0]
 
     @staticmethod
     def wait(futures, num_returns=1):
-- 
2.43.0


From b0bc1386412de2ce6903503250755d9069987e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:00 +0000
Subject: [PATCH 04/30] fix: deserialization must not consume the cached
 buffers of an object

Reading a serialized object removed the out-of-band buffers from the list that
is kept in the serialization cache, so the object could not be sent afterwards.
---
 unidist/core/backends/mpi/core/serialization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/serialization.py b/unidist/core/backends/mpi/core/serialization.py
index cb6d4d2..b0f145d 100755
--- a/unidist/core/backends/mpi/core/serialization.py
+++ b/unidist/core/backends/mpi/core/serialization.py
@@ -121,7 +121,8 @@ class ComplexDataSerializer:
     PICKLE_THRESHOLD = MpiPickleThreshold.get()
 
     def __init__(self, buffers=None, buffer_count=None):
-        self.buffers = buffers if buffers else []
+        # The buffers get consumed during deserialization, so do not touch the original list
+        self.buffers = list(buffers) if buffers else []
         self.buffer_count = list(buffer_count) if buffer_count else []
         self._callback_counter = 0
 
-- 
2.43.0


From 8285330091919b2856601a319c48f8e997f27793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:00 +0000
Subject: [PATCH 05/30] fix: re-enable the garbage collector if deserialization
 fails

---
 unidist/core/backends/mpi/core/serialization.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/unidist/core/backends/mpi/core/serialization.py b/unidist/core/backends/mpi/core/serialization.py
index b0f145d..9c75ce7 100755
--- a/unidist/core/backends/mpi/core/serialization.py
+++ b/unidist/core/backends/mpi/core/serialization.py
@@ -276,10 +276,12 @@ class ComplexDataSerializer:
         Uses msgpack, cloudpickle and pickle libraries.
         """
         gc.disable()  # Performance optimization for msgpack
-        unpacked_data = msgpack.unpackb(
-            s_data, object_hook=self._decode_custom, strict_map_key=False
-        )
-        gc.enable()
+        try:
+            unpacked_data = msgpack.unpackb(
+                s_data, object_hook=self._decode_custom, strict_map_key=False
+            )
+        finally:
+            gc.enable()
         return unpacked_data
 
 
-- 
2.43.0


From 63e885ba723bea1175bf5b64fee71173810b8407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:00 +0000
Subject: [PATCH 06/30] fix: the sequential backend must report task failures
 at `get`

A failed argument or a result with too few elements was raised by `remote`
itself instead of by getting the result.
---
 unidist/core/backends/pyseq/core/api.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/unidist/core/backends/pyseq/core/api.py b/unidist/core/backends/pyseq/core/api.py
index 84dcfbb..1d2aff9 100644
--- a/unidist/core/backends/pyseq/core/api.py
+++ b/unidist/core/backends/pyseq/core/api.py
@@ -100,16 +100,18 @@ def submit(func, *args, num_returns=1, **kwargs):
     """
     obj_store = ObjectStore.get_instance()
 
-    materialized_args = [
-        obj_store.get(arg) if isinstance(arg, DataID) else arg for arg in args
-    ]
-    materialized_kwargs = {
-        key: obj_store.get(value) if isinstance(value, DataID) else value
-        for key, value in kwargs.items()
-    }
-
     try:
+        materialized_args = [
+            obj_store.get(arg) if isinstance(arg, DataID) else arg for arg in args
+        ]
+        materialized_kwargs = {
+            key: obj_store.get(value) if isinstance(value, DataID) else value
+            for key, value in kwargs.items()
+        }
+
         result = func(*materialized_args, **materialized_kwargs)
+        if num_returns > 1:
+            result = [result[idx] for idx in range(num_returns)]
     except Exception as e:
         result = [e] * num_returns if num_returns > 1 else e
 
-- 
2.43.0


From 2dd2400846d13446a516bcfa3c022c01212e47ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:23 +0000
Subject: [PATCH 07/30] fix: `wait` of the multiprocessing backend must
 partition the references

Removing elements by index from the list that shrinks meanwhile reported
references as ready that were not (or raised IndexError), and waiting for a
failed task raised its exception instead of reporting the task as completed.
---
 .../core/backends/pymp/core/object_store.py   | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/unidist/core/backends/pymp/core/object_store.py b/unidist/core/backends/pymp/core/object_store.py
index 8af83c8..2ec83fb 100644
--- a/unidist/core/backends/pymp/core/object_store.py
+++ b/unidist/core/backends/pymp/core/object_store.py
@@ -129,19 +129,17 @@ class ObjectStore:
             data_ids = [data_ids]
 
         ready = list()
-        not_ready = list()
-
-        for idx, data_id in enumerate(data_ids[:]):
-            if not isinstance(self.store_delayed[data_id], Delayed):
-                ready.append(data_ids.pop(idx))
-
-            if len(ready) == num_returns:
-                break
-
-        not_ready = data_ids
-
-        while len(ready) != num_returns:
-            self.get(not_ready[0])
-            ready.append(not_ready.pop(0))
+        not_ready = list(data_ids)
+
+        while len(ready) < num_returns and not_ready:
+            pending = list()
+            for data_id in not_ready:
+                if len(ready) < num_returns and not isinstance(
+                    self.store_delayed[data_id], Delayed
+                ):
+                    ready.append(data_id)
+                else:
+                    pending.append(data_id)
+            not_ready = pending
 
         return ready, not_ready
-- 
2.43.0


From bdf5fda2f1efba810eef8a22c0a9295da43b9b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:23 +0000
Subject: [PATCH 08/30] fix: bytes stored with the multiprocessing backend must
 not be unpickled

Serialized callables were told from other objects by being bytes, so getting a
user's own bytes failed or returned something else.
---
 .../core/backends/pymp/core/object_store.py   | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/pymp/core/object_store.py b/unidist/core/backends/pymp/core/object_store.py
index 2ec83fb..6184f25 100644
--- a/unidist/core/backends/pymp/core/object_store.py
+++ b/unidist/core/backends/pymp/core/object_store.py
@@ -16,6 +16,20 @@ class Delayed:
     pass
 
 
+class SerializedCallable:
+    """
+    Class-type that used for serialized callable objects in the object store.
+
+    Parameters
+    ----------
+    data : bytes
+        Serialized callable object.
+    """
+
+    def __init__(self, data):
+        self.data = data
+
+
 class ObjectStore:
     """
     Class that stores objects and provides access to these from different processes.
@@ -66,7 +80,9 @@ class ObjectStore:
         """
         data_id = DataID() if data_id is None else data_id
 
-        self.store_delayed[data_id] = pkl.dumps(data) if callable(data) else data
+        self.store_delayed[data_id] = (
+            SerializedCallable(pkl.dumps(data)) if callable(data) else data
+        )
         return data_id
 
     def get(self, data_ids):
@@ -101,7 +117,11 @@ class ObjectStore:
             if isinstance(value, Exception):
                 raise value
 
-            values[idx] = pkl.loads(value) if isinstance(value, bytes) else value
+            values[idx] = (
+                pkl.loads(value.data)
+                if isinstance(value, SerializedCallable)
+                else value
+            )
 
         return values if is_list else values[0]
 
-- 
2.43.0


From e3f79d6184bdde60bf024cfbf6938ffd9f289276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:23 +0000
Subject: [PATCH 09/30] fix: a result that cannot be stored must fail the task,
 not the pymp worker

A result that cannot be pickled ended the worker process, and a result with too
few elements left references that never get ready. Callable results are stored
the same way as callables passed to `put`.
---
 .../backends/pymp/core/process_manager.py     | 43 +++++++++++++------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/unidist/core/backends/pymp/core/process_manager.py b/unidist/core/backends/pymp/core/process_manager.py
index 07037af..5d7567c 100644
--- a/unidist/core/backends/pymp/core/process_manager.py
+++ b/unidist/core/backends/pymp/core/process_manager.py
@@ -41,23 +41,42 @@ class Worker(Process):
             data_ids = task.data_ids
             try:
                 value = task()
-            except Exception as e:
                 if isinstance(data_ids, list) and len(data_ids) > 1:
-                    for i, data_id in enumerate(data_ids):
-                        self._obj_store.store_delayed[data_id] = e
-                else:
-                    self._obj_store.store_delayed[data_ids] = e
-            else:
-                if data_ids is not None:
-                    if isinstance(data_ids, list) and len(data_ids) > 1:
-                        for data_id, val in zip(data_ids, value):
-                            self._obj_store.store_delayed[data_id] = val
-                    else:
-                        self._obj_store.store_delayed[data_ids] = value
+                    values = [val for _, val in zip(data_ids, value)]
+                    if len(values) < len(data_ids):
+                        raise ValueError(
+                            f"The task returned {len(values)} values, but {len(data_ids)} were expected."
+                        )
+                    for data_id, val in zip(data_ids, values):
+                        self._obj_store.put(val, data_id)
+                elif data_ids is not None:
+                    self._obj_store.put(value, data_ids)
+            except Exception as e:
+                self._put_exception(data_ids, e)
             finally:
                 self.task_queue.task_done()
         return
 
+    def _put_exception(self, data_ids, exception):
+        """
+        Store an exception raised by a task as the result of the task.
+
+        Parameters
+        ----------
+        data_ids : unidist.core.backends.common.data_id.DataID, list or None
+            An ID (or IDs) the result of the task is associated with.
+        exception : Exception
+            The exception to store.
+        """
+        if data_ids is None:
+            return
+        for data_id in data_ids if isinstance(data_ids, list) else [data_ids]:
+            try:
+                self._obj_store.put(exception, data_id)
+            except Exception:
+                # The exception itself cannot be stored
+                self._obj_store.put(RuntimeError(repr(exception)), data_id)
+
     def add_task(self, task):
         """
         Add `task` to `self.task_queue`.
-- 
2.43.0


From 6e2f181197163becf4c82eb7f541aafc471e01a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:04 +0000
Subject: [PATCH 10/30] fix: MPI workers must report failed tasks as completed
 and survive bad results

- The references of a failed task were never reported to the monitor, so `wait`
  on them did not return; a failed coroutine did not report its completion at all.
- A failed task without results tried to store its exception under None, and a
  result that cannot be serialized was raised outside of the handler, which ended
  the worker process.
- A result with too few elements left references that never get ready.
---
 .../backends/mpi/core/worker/task_store.py    | 182 +++++++++---------
 1 file changed, 92 insertions(+), 90 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index f9be5c5..c5bffea 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -205,6 +205,90 @@ class TaskStore:
         else:
             return arg, False
 
+    def _put_output_values(self, output_data_ids, output_values):
+        """
+        Store the result of a task.
+
+        Parameters
+        ----------
+        output_data_ids : unidist.core.backends.mpi.core.common.MpiDataID, list or None
+            An ID (or IDs) to store the result under.
+        output_values : object
+            The result of the task.
+
+        Returns
+        -------
+        list
+            List of the IDs the result is stored under.
+
+        Notes
+        -----
+        Nothing is stored if an exception is raised.
+        """
+        if output_data_ids is None:
+            return []
+
+        if isinstance(output_data_ids, (list, tuple)) and len(output_data_ids) > 1:
+            completed_data_ids = list(output_data_ids)
+            values = [value for _, value in zip(completed_data_ids, output_values)]
+            if len(values) < len(completed_data_ids):
+                raise ValueError(
+                    f"The task returned {len(values)} values, but {len(completed_data_ids)} were expected."
+                )
+        else:
+            completed_data_ids = [output_data_ids]
+            values = [output_values]
+
+        local_store = LocalObjectStore.get_instance()
+        shared_store = SharedObjectStore.get_instance()
+        serialized_values = [serialize_complex_data(value) for value in values]
+        for output_id, value, serialized_data in zip(
+            completed_data_ids, values, serialized_values
+        ):
+            local_store.put(output_id, value)
+            if shared_store.is_allocated() and shared_store.should_be_shared(
+                serialized_data
+            ):
+                shared_store.put(output_id, serialized_data)
+            else:
+                local_store.cache_serialized_data(output_id, serialized_data)
+        return completed_data_ids
+
+    def _put_exception(self, output_data_ids, exception):
+        """
+        Store an exception as the result of a task.
+
+        Parameters
+        ----------
+        output_data_ids : unidist.core.backends.mpi.core.common.MpiDataID, list or None
+            An ID (or IDs) to store the exception under.
+        exception : Exception
+            The exception to store.
+
+        Returns
+        -------
+        list
+            List of the IDs the exception is stored under.
+        """
+        if output_data_ids is None:
+            return []
+
+        if isinstance(output_data_ids, (list, tuple)) and len(output_data_ids) > 1:
+            completed_data_ids = list(output_data_ids)
+        else:
+            completed_data_ids = [output_data_ids]
+
+        try:
+            serialize_complex_data(exception)
+        except Exception:
+            # The exception could not be sent to those who request it
+            exception = RuntimeError(repr(exception))
+
+        local_store = LocalObjectStore.get_instance()
+        for output_id in completed_data_ids:
+            local_store.put(output_id, exception)
+        return completed_data_ids
+
     def execute_received_task(self, output_data_ids, task, args, kwargs):
         """
         Execute a task/actor-task and handle results.
@@ -224,9 +308,6 @@ class TaskStore:
         -----
         Exceptions are stored in output data IDs as value.
         """
-        local_store = LocalObjectStore.get_instance()
-        shared_store = SharedObjectStore.get_instance()
-        completed_data_ids = []
         # Note that if a task is coroutine,
         # the local store or the shared store will contain output data
         # only once the task is complete.
@@ -254,52 +335,12 @@ class TaskStore:
                     )
                     w_logger.debug("- End task execution -")
 
+                    completed_data_ids = self._put_output_values(
+                        output_data_ids, output_values
+                    )
                 except Exception as e:
                     w_logger.debug("Exception - {}".format(e))
-
-                    if (
-                        isinstance(output_data_ids, (list, tuple))
-                        and len(output_data_ids) > 1
-                    ):
-                        for output_id in output_data_ids:
-                            local_store.put(output_id, e)
-                    else:
-                        local_store.put(output_data_ids, e)
-                else:
-                    if output_data_ids is not None:
-                        if (
-                            isinstance(output_data_ids, (list, tuple))
-                            and len(output_data_ids) > 1
-                        ):
-                            completed_data_ids = [None] * len(output_data_ids)
-                            for idx, (output_id, value) in enumerate(
-                                zip(output_data_ids, output_values)
-                            ):
-                                serialized_data = serialize_complex_data(value)
-                                local_store.put(output_id, value)
-                                if (
-                                    shared_store.is_allocated()
-                                    and shared_store.should_be_shared(serialized_data)
-                                ):
-                                    shared_store.put(output_id, serialized_data)
-                                else:
-                                    local_store.cache_serialized_data(
-                                        output_id, serialized_data
-                                    )
-                                completed_data_ids[idx] = output_id
-                        else:
-                            serialized_data = serialize_complex_data(output_values)
-                            local_store.put(output_data_ids, output_values)
-                            if (
-                                shared_store.is_allocated()
-                                and shared_store.should_be_shared(serialized_data)
-                            ):
-                                shared_store.put(output_data_ids, serialized_data)
-                            else:
-                                local_store.cache_serialized_data(
-                                    output_data_ids, serialized_data
-                                )
-                            completed_data_ids = [output_data_ids]
+                    completed_data_ids = self._put_exception(output_data_ids, e)
 
                 RequestStore.get_instance().check_pending_get_requests(output_data_ids)
                 # Monitor the task execution
@@ -343,52 +384,13 @@ class TaskStore:
                 )
                 w_logger.debug("- End task execution -")
 
+                completed_data_ids = self._put_output_values(
+                    output_data_ids, output_values
+                )
             except Exception as e:
                 w_logger.debug("Exception - {}".format(e))
+                completed_data_ids = self._put_exception(output_data_ids, e)
 
-                if (
-                    isinstance(output_data_ids, (list, tuple))
-                    and len(output_data_ids) > 1
-                ):
-                    for output_id in output_data_ids:
-                        local_store.put(output_id, e)
-                else:
-                    local_store.put(output_data_ids, e)
-            else:
-                if output_data_ids is not None:
-                    if (
-                        isinstance(output_data_ids, (list, tuple))
-                        and len(output_data_ids) > 1
-                    ):
-                        completed_data_ids = [None] * len(output_data_ids)
-                        for idx, (output_id, value) in enumerate(
-                            zip(output_data_ids, output_values)
-                        ):
-                            serialized_data = serialize_complex_data(value)
-                            local_store.put(output_id, value)
-                            if (
-                                shared_store.is_allocated()
-                                and shared_store.should_be_shared(serialized_data)
-                            ):
-                                shared_store.put(output_id, serialized_data)
-                            else:
-                                local_store.cache_serialized_data(
-                                    output_id, serialized_data
-                                )
-                            completed_data_ids[idx] = output_id
-                    else:
-                        serialized_data = serialize_complex_data(output_values)
-                        local_store.put(output_data_ids, output_values)
-                        if (
-                            shared_store.is_allocated()
-                            and shared_store.should_be_shared(serialized_data)
-                        ):
-                            shared_store.put(output_data_ids, serialized_data)
-                        else:
-                            local_store.cache_serialized_data(
-                                output_data_ids, serialized_data
-                            )
-                        completed_data_ids = [output_data_ids]
             RequestStore.get_instance().check_pending_get_requests(output_data_ids)
             # Monitor the task execution.
             # We use a blocking send here because we have to wait for
-- 
2.43.0


From 6053f18c060b9652c51ba82a1bab734db93e5973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:04 +0000
Subject: [PATCH 11/30] fix: `get` of repeated references with MPI must not
 hang

The owner answers only once per object and process, but the number of answers
that was waited for included the repetitions.
---
 unidist/core/backends/mpi/core/controller/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 2352392..f4316ba 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -415,8 +415,11 @@ def get(data_ids):
     is_list = isinstance(data_ids, list)
     if not is_list:
         data_ids = [data_ids]
+    # Every object is requested (and received) only once even if the same data ID is passed several times
     remote_data_ids = [
-        data_id for data_id in data_ids if not object_store.contains(data_id)
+        data_id
+        for data_id in dict.fromkeys(data_ids)
+        if not object_store.contains(data_id)
     ]
     # Remote data gets available in the local store inside `request_worker_data`
     if remote_data_ids:
-- 
2.43.0


From 3fbb1b3b898a1e423c89fdf33b08ad96be2810a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:04 +0000
Subject: [PATCH 12/30] fix: every `get` of a failed task with MPI must raise

Only the call that received the exception from a worker raised it, the next one
returned the exception object as a value.
---
 unidist/core/backends/mpi/core/controller/api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index f4316ba..64a5852 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -433,6 +433,10 @@ def get(data_ids):
     # if all the tasks were completed
     garbage_collector.regular_cleanup()
 
+    for value in values:
+        if isinstance(value, Exception):
+            raise value
+
     return values if is_list else values[0]
 
 
-- 
2.43.0


From 2f9fd598a5b4e69f52317daa9ef0a96876fbe855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:37 +0000
Subject: [PATCH 13/30] fix: the MPI termination handler must accept the
 arguments of a signal handler

On SIGTERM and SIGINT it failed with TypeError instead of shutting down.
---
 unidist/core/backends/mpi/core/controller/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 64a5852..1be0226 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -592,5 +592,7 @@ def submit(task, *args, num_returns=1, **kwargs):
 # ---------------------------- #
 
 
-def _termination_handler():
+def _termination_handler(signum=None, frame=None):
     shutdown()
+    if signum is not None:
+        sys.exit(128 + signum)
-- 
2.43.0


From 39ed102d3ba02c9d3cf2f406416488946d1be2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:37 +0000
Subject: [PATCH 14/30] fix: wait for the shutdown notification from the
 monitor that sends it

Workers report to the monitor of the root's host, whose global rank is not
necessarily 1 when there are several hosts.
---
 unidist/core/backends/mpi/core/controller/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 1be0226..e63228a 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -328,7 +328,7 @@ def shutdown():
         # Make sure that monitor has sent the shutdown signal to all workers.
         op_type = communication.mpi_recv_object(
             mpi_state.global_comm,
-            communication.MPIRank.MONITOR,
+            mpi_state.get_monitor_by_worker_rank(communication.MPIRank.ROOT),
         )
         if op_type != common.Operation.SHUTDOWN:
             raise ValueError(f"Got wrong operation type {op_type}.")
-- 
2.43.0


From a1bf0d07188974116d3179922fa5883422dc396b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:37 +0000
Subject: [PATCH 15/30] fix: quote the values passed to the spawned MPI
 processes

A quote or a backslash in an environment variable of the runtime environment
broke (or changed) the code the workers start with.
---
 unidist/core/backends/mpi/core/controller/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index e63228a..cce3c72 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -157,7 +157,7 @@ def init():
         if MpiSpawn.get_value_source() != ValueSource.DEFAULT:
             py_str += [f"cfg.MpiSpawn.put({MpiSpawn.get()})"]
         if MpiHosts.get_value_source() != ValueSource.DEFAULT:
-            py_str += [f"cfg.MpiHosts.put('{MpiHosts.get()}')"]
+            py_str += [f"cfg.MpiHosts.put({MpiHosts.get()!r})"]
         if CpuCount.get_value_source() != ValueSource.DEFAULT:
             py_str += [f"cfg.CpuCount.put({CpuCount.get()})"]
         if MpiPickleThreshold.get_value_source() != ValueSource.DEFAULT:
@@ -187,7 +187,7 @@ def init():
                 if option == MpiRuntimeEnv.env_vars:
                     for env_var_name, env_var_value in value.items():
                         env_vars += [
-                            f"os.environ['{env_var_name}'] = '{env_var_value}'"
+                            f"os.environ[{env_var_name!r}] = {str(env_var_value)!r}"
                         ]
             py_str += env_vars
         py_str += ["unidist.init()"]
-- 
2.43.0


From 3d4456185b70f41b8a14b476765b48cad1e62ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:37 +0000
Subject: [PATCH 16/30] fix: count the calls of actor methods as submitted
 tasks

Their completion is counted by the monitor, so after the first call of an actor
method the number of executed tasks did not match the number of submitted ones:
data was either never cleaned up or was cleaned up while tasks were running.
---
 unidist/core/backends/mpi/core/controller/actor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unidist/core/backends/mpi/core/controller/actor.py b/unidist/core/backends/mpi/core/controller/actor.py
index cb994e6..795f7a3 100644
--- a/unidist/core/backends/mpi/core/controller/actor.py
+++ b/unidist/core/backends/mpi/core/controller/actor.py
@@ -61,6 +61,10 @@ class ActorMethod:
             is_serialized=False,
         )
         async_operations.extend(h_list)
+
+        # Track the task execution
+        garbage_collector.increment_task_counter()
+
         return output_id
 
 
-- 
2.43.0


From be7b5fdde4fa2127ae7b034d6ed76333de0329fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:37 +0000
Subject: [PATCH 17/30] fix: always answer a blocking request for data

The requester is blocked until it gets the answer, so the answer cannot be
skipped because the same data has been sent to that process asynchronously.
---
 unidist/core/backends/mpi/core/controller/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/common.py b/unidist/core/backends/mpi/core/controller/common.py
index 6d6f368..4aa74e7 100644
--- a/unidist/core/backends/mpi/core/controller/common.py
+++ b/unidist/core/backends/mpi/core/controller/common.py
@@ -253,7 +253,7 @@ def _push_local_data(dest_rank, data_id, is_blocking_op, is_serialized):
     local_store = LocalObjectStore.get_instance()
 
     # Check if data was already pushed
-    if not local_store.is_already_sent(data_id, dest_rank):
+    if is_blocking_op or not local_store.is_already_sent(data_id, dest_rank):
         logger.debug("PUT LOCAL {} id to {} rank".format(data_id._id, dest_rank))
 
         mpi_state = communication.MPIState.get_instance()
@@ -311,7 +311,7 @@ def _push_shared_data(dest_rank, data_id, is_blocking_op):
     """
     local_store = LocalObjectStore.get_instance()
     # Check if data was already pushed
-    if not local_store.is_already_sent(data_id, dest_rank):
+    if is_blocking_op or not local_store.is_already_sent(data_id, dest_rank):
         mpi_state = communication.MPIState.get_instance()
         shared_store = SharedObjectStore.get_instance()
         mpi_state = communication.MPIState.get_instance()
-- 
2.43.0


From 08ec5f4db7ea3b95532f19acb9f50f669349657e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:44 +0000
Subject: [PATCH 18/30] fix: re-check all the pending tasks of an MPI worker
 once data becomes available

A task that waits for the result of a task executed by the same worker was not
woken up if the result was produced by a coroutine, if one of them is a task and
the other one is an actor task, or if it precedes the other one in the queue.
---
 unidist/core/backends/mpi/core/worker/loop.py | 12 ++++------
 .../backends/mpi/core/worker/task_store.py    | 23 +++++++++++++++++++
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 5515ff5..d213e69 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -119,7 +119,7 @@ async def worker_loop():
                     task_store.put(pending_request)
                 else:
                     # Check pending requests. Maybe some data became available.
-                    task_store.check_pending_tasks()
+                    task_store.check_all_pending_tasks()
 
         elif operation_type == common.Operation.GET:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
@@ -141,9 +141,7 @@ async def worker_loop():
                 request_store.discard_data_request(request["id"])
 
                 # Check pending requests. Maybe some data became available.
-                task_store.check_pending_tasks()
-                # Check pending actor requests also.
-                task_store.check_pending_actor_tasks()
+                task_store.check_all_pending_tasks()
 
         elif operation_type == common.Operation.PUT_OWNER:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
@@ -163,9 +161,7 @@ async def worker_loop():
             request_store.discard_data_request(result["id"])
 
             # Check pending requests. Maybe some data became available.
-            task_store.check_pending_tasks()
-            # Check pending actor requests also.
-            task_store.check_pending_actor_tasks()
+            task_store.check_all_pending_tasks()
 
         elif operation_type == common.Operation.WAIT:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
@@ -198,7 +194,7 @@ async def worker_loop():
                     task_store.put_actor(pending_actor_request)
                 else:
                     # Check pending requests. Maybe some data became available.
-                    task_store.check_pending_actor_tasks()
+                    task_store.check_all_pending_tasks()
 
         elif operation_type == common.Operation.CLEANUP:
             cleanup_list = communication.recv_serialized_data(
diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index c5bffea..975c30e 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -120,6 +120,27 @@ class TaskStore:
                     updated_list.append(pending_request)
             self._pending_actor_tasks_list = updated_list
 
+    def check_all_pending_tasks(self):
+        """
+        Check all the tasks and the actor tasks waiting to be executed.
+
+        Notes
+        -----
+        The checks are repeated as long as some tasks get executed
+        since the rest of the tasks may depend on their results.
+        """
+        is_progress = True
+        while is_progress:
+            pending_count = len(self._pending_tasks_list) + len(
+                self._pending_actor_tasks_list
+            )
+            self.check_pending_tasks()
+            self.check_pending_actor_tasks()
+            is_progress = (
+                len(self._pending_tasks_list) + len(self._pending_actor_tasks_list)
+                < pending_count
+            )
+
     def clear_pending_actor_tasks(self):
         """
         Clear a list of pending actor task execution requests.
@@ -355,6 +376,8 @@ class TaskStore:
                     completed_data_ids,
                     root_monitor,
                 )
+                # Check pending requests. Maybe some data became available.
+                self.check_all_pending_tasks()
 
             async_task = asyncio.create_task(execute())
             # Add task to the set. This creates a strong reference.
-- 
2.43.0


From a7cc4dd96b3d249799024131f5112ce055f2277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:02 +0000
Subject: [PATCH 19/30] fix: execute the calls of an MPI actor made by a
 process in the order of submission

A call waiting for its arguments was overtaken by the calls submitted after it,
so those did not see its effect on the state of the actor.
---
 unidist/core/backends/mpi/core/worker/loop.py |  6 ++++-
 .../backends/mpi/core/worker/task_store.py    | 27 +++++++++++++++++++
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index d213e69..1ef00bb 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -187,9 +187,13 @@ async def worker_loop():
                 handler = request["handler"]
                 actor_method = getattr(actor_map[handler], method_name)
                 request["task"] = actor_method
+                request["source"] = source_rank
 
                 # Execute the actor task if possible
-                pending_actor_request = task_store.process_task_request(request)
+                if task_store.is_actor_blocked(request):
+                    pending_actor_request = request
+                else:
+                    pending_actor_request = task_store.process_task_request(request)
                 if pending_actor_request:
                     task_store.put_actor(pending_actor_request)
                 else:
diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index 975c30e..c30446c 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -80,6 +80,26 @@ class TaskStore:
         """
         self._pending_actor_tasks_list.append(request)
 
+    def is_actor_blocked(self, request):
+        """
+        Check whether there are preceding pending calls of the same actor made by the same process.
+
+        Parameters
+        ----------
+        request : dict
+            Request for an actor task.
+
+        Returns
+        -------
+        bool
+            ``True`` if the request has to wait for the preceding ones, ``False`` otherwise.
+        """
+        return any(
+            pending["handler"] == request["handler"]
+            and pending["source"] == request["source"]
+            for pending in self._pending_actor_tasks_list
+        )
+
     def check_pending_tasks(self):
         """
         Check a list of pending task execution requests and process all ready tasks.
@@ -114,10 +134,17 @@ class TaskStore:
 
         if self._pending_actor_tasks_list:
             updated_list = []
+            blocked = set()
             for request in self._pending_actor_tasks_list:
+                # Keep the order of the calls made by the same process
+                caller = (request["handler"], request["source"])
+                if caller in blocked:
+                    updated_list.append(request)
+                    continue
                 pending_request = self.process_task_request(request)
                 if pending_request:
                     updated_list.append(pending_request)
+                    blocked.add(caller)
             self._pending_actor_tasks_list = updated_list
 
     def check_all_pending_tasks(self):
-- 
2.43.0


From 91a63e1dbb8be57f40a66b3bb0b6bb59045e744f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:15 +0000
Subject: [PATCH 20/30] fix: a failure to create an MPI actor or to find its
 method must not end the worker

The exception is raised to those who get the results of the calls instead.
---
 unidist/core/backends/mpi/core/worker/loop.py | 44 ++++++++++++++++++-
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 1ef00bb..15cfeec 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -44,6 +44,39 @@ actor_map = {}
 # -------------- #
 
 
+class FailedActor:
+    """
+    Stand-in for an actor that could not be created.
+
+    Parameters
+    ----------
+    exception : Exception
+        The exception raised by the constructor of the actor class.
+    """
+
+    def __init__(self, exception):
+        self._exception = exception
+
+    def __getattr__(self, name):
+        raise self._exception
+
+
+def raise_exception(exception, *args, **kwargs):
+    """
+    Raise `exception` when called as an actor task.
+
+    Parameters
+    ----------
+    exception : Exception
+        Exception to raise.
+    *args : iterable
+        Positional arguments of the actor task (ignored).
+    **kwargs : dict
+        Keyword arguments of the actor task (ignored).
+    """
+    raise exception
+
+
 def async_wrap(func):
     """
     Make a decorator that allows to run a regular function asynchronously.
@@ -176,7 +209,11 @@ async def worker_loop():
                 args = request["args"]
                 kwargs = request["kwargs"]
                 handler = request["handler"]
-                actor_map[handler] = cls(*args, **kwargs)
+                try:
+                    actor_map[handler] = cls(*args, **kwargs)
+                except Exception as e:
+                    # The exception is raised by every call of the actor
+                    actor_map[handler] = FailedActor(e)
 
         elif operation_type == common.Operation.ACTOR_EXECUTE:
             request = pull_data(mpi_state.global_comm, source_rank)
@@ -185,7 +222,10 @@ async def worker_loop():
                 # Actor method here is a data id so we have to retrieve it from the storage
                 method_name = object_store.get(request["task"])
                 handler = request["handler"]
-                actor_method = getattr(actor_map[handler], method_name)
+                try:
+                    actor_method = getattr(actor_map[handler], method_name)
+                except Exception as e:
+                    actor_method = partial(raise_exception, e)
                 request["task"] = actor_method
                 request["source"] = source_rank
 
-- 
2.43.0


From 6dae8b489c25c4028e57cbc3b095c38b5aff0986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:15 +0000
Subject: [PATCH 21/30] fix: unwrap references nested in the arguments of MPI
 actor methods

It is done for remote functions already. Otherwise neither the data nor its
owner is known to the worker, so the reference could not be used there.
---
 unidist/core/backends/mpi/actor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/actor.py b/unidist/core/backends/mpi/actor.py
index 90f725b..9210d92 100644
--- a/unidist/core/backends/mpi/actor.py
+++ b/unidist/core/backends/mpi/actor.py
@@ -5,6 +5,7 @@
 """Actor specific functionality using MPI backend."""
 
 import unidist.core.backends.mpi.core as mpi
+from unidist.core.backends.common.utils import unwrap_object_refs
 from unidist.core.base.actor import Actor, ActorMethod
 from unidist.core.base.object_ref import ObjectRef
 
@@ -52,8 +53,13 @@ class MPIActorMethod(ActorMethod):
         if num_returns is None:
             num_returns = self._num_returns
 
+        unwrapped_args = [unwrap_object_refs(arg) for arg in args]
+        unwrapped_kwargs = {k: unwrap_object_refs(v) for k, v in kwargs.items()}
+
         class_method = getattr(self._cls, self._method_name)
-        data_ids = class_method(*args, num_returns=num_returns, **kwargs)
+        data_ids = class_method(
+            *unwrapped_args, num_returns=num_returns, **unwrapped_kwargs
+        )
 
         if num_returns == 1:
             return ObjectRef(data_ids)
-- 
2.43.0


From 7437e2e4bddd864cf8798ade2f22d70a82ebb13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:02 +0000
Subject: [PATCH 22/30] fix: names of internal parameters must not capture
 keyword arguments of tasks

---
 unidist/core/backends/dask/actor.py                |  4 ++--
 unidist/core/backends/dask/remote_function.py      |  4 +++-
 unidist/core/backends/mpi/actor.py                 |  4 ++--
 unidist/core/backends/mpi/core/controller/actor.py |  4 ++--
 unidist/core/backends/mpi/core/controller/api.py   |  2 +-
 unidist/core/backends/mpi/remote_function.py       |  4 +++-
 unidist/core/backends/pymp/actor.py                |  4 ++--
 unidist/core/backends/pymp/core/actor.py           |  4 ++--
 unidist/core/backends/pymp/core/api.py             |  2 +-
 unidist/core/backends/pymp/core/process_manager.py |  2 +-
 unidist/core/backends/pymp/remote_function.py      |  4 +++-
 unidist/core/backends/pyseq/actor.py               |  4 ++--
 unidist/core/backends/pyseq/core/api.py            |  2 +-
 unidist/core/backends/pyseq/remote_function.py     |  4 +++-
 unidist/core/backends/ray/actor.py                 |  4 ++--
 unidist/core/backends/ray/remote_function.py       |  4 +++-
 unidist/core/base/actor.py                         | 10 +++++-----
 unidist/core/base/remote_function.py               |  6 +++---
 18 files changed, 41 insertions(+), 31 deletions(-)

diff --git a/unidist/core/backends/dask/actor.py b/unidist/core/backends/dask/actor.py
index 73d87c7..cc42ce4 100644
--- a/unidist/core/backends/dask/actor.py
+++ b/unidist/core/backends/dask/actor.py
@@ -28,7 +28,7 @@ class DaskActorMethod(ActorMethod):
         self._method_name = method_name
         self._num_returns = 1
 
-    def _remote(self, *args, num_returns=None, **kwargs):
+    def _remote(self, /, *args, num_returns=None, **kwargs):
         """
         Execute `self._method_name` in a worker process.
 
@@ -185,7 +185,7 @@ class DaskActor(Actor):
         """
         return DaskActorMethod(self._actor_handle, name)
 
-    def _remote(self, *args, num_cpus=None, resources=None, **kwargs):
+    def _remote(self, /, *args, num_cpus=None, resources=None, **kwargs):
         """
         Create actor class, specific for Dask backend, from `self._cls`.
 
diff --git a/unidist/core/backends/dask/remote_function.py b/unidist/core/backends/dask/remote_function.py
index 8102948..c0a757c 100644
--- a/unidist/core/backends/dask/remote_function.py
+++ b/unidist/core/backends/dask/remote_function.py
@@ -33,7 +33,9 @@ class DaskRemoteFunction(RemoteFunction):
         self._num_returns = 1 if num_returns is None else num_returns
         self._resources = resources
 
-    def _remote(self, *args, num_cpus=None, num_returns=None, resources=None, **kwargs):
+    def _remote(
+        self, /, *args, num_cpus=None, num_returns=None, resources=None, **kwargs
+    ):
         """
         Execute `self._remote_function` in a worker process.
 
diff --git a/unidist/core/backends/mpi/actor.py b/unidist/core/backends/mpi/actor.py
index 9210d92..bf572cc 100644
--- a/unidist/core/backends/mpi/actor.py
+++ b/unidist/core/backends/mpi/actor.py
@@ -27,7 +27,7 @@ class MPIActorMethod(ActorMethod):
         self._method_name = method_name
         self._num_returns = 1
 
-    def _remote(self, *args, num_returns=None, **kwargs):
+    def _remote(self, /, *args, num_returns=None, **kwargs):
         """
         Execute `self._method_name` in a worker process.
 
@@ -163,7 +163,7 @@ class MPIActor(Actor):
         """
         return MPIActorMethod(self._actor_handle, name)
 
-    def _remote(self, *args, num_cpus=None, resources=None, **kwargs):
+    def _remote(self, /, *args, num_cpus=None, resources=None, **kwargs):
         """
         Create actor class, specific for MPI backend, from `self._cls`.
 
diff --git a/unidist/core/backends/mpi/core/controller/actor.py b/unidist/core/backends/mpi/core/controller/actor.py
index 795f7a3..5180e61 100644
--- a/unidist/core/backends/mpi/core/controller/actor.py
+++ b/unidist/core/backends/mpi/core/controller/actor.py
@@ -33,7 +33,7 @@ class ActorMethod:
         self._actor = actor
         self._method_name = method_name
 
-    def __call__(self, *args, num_returns=1, **kwargs):
+    def __call__(self, /, *args, num_returns=1, **kwargs):
         local_store = LocalObjectStore.get_instance()
         output_id = local_store.generate_output_data_id(
             self._actor._owner_rank, garbage_collector, num_returns
@@ -92,7 +92,7 @@ class Actor:
     Instance of the `cls` will be created on the worker.
     """
 
-    def __init__(self, cls, *args, owner_rank=None, handler_id=None, **kwargs):
+    def __init__(self, cls, /, *args, owner_rank=None, handler_id=None, **kwargs):
         self._cls = cls
         self._args = args
         self._kwargs = kwargs
diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index cce3c72..3a0fe51 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -512,7 +512,7 @@ def wait(data_ids, num_returns=1):
     return ready, not_ready
 
 
-def submit(task, *args, num_returns=1, **kwargs):
+def submit(task, /, *args, num_returns=1, **kwargs):
     """
     Execute function on a worker process.
 
diff --git a/unidist/core/backends/mpi/remote_function.py b/unidist/core/backends/mpi/remote_function.py
index a0b7c30..20da023 100644
--- a/unidist/core/backends/mpi/remote_function.py
+++ b/unidist/core/backends/mpi/remote_function.py
@@ -33,7 +33,9 @@ class MPIRemoteFunction(RemoteFunction):
         self._num_returns = 1 if num_returns is None else num_returns
         self._resources = resources
 
-    def _remote(self, *args, num_cpus=None, num_returns=None, resources=None, **kwargs):
+    def _remote(
+        self, /, *args, num_cpus=None, num_returns=None, resources=None, **kwargs
+    ):
         """
         Execute `self._remote_function` in a worker process.
 
diff --git a/unidist/core/backends/pymp/actor.py b/unidist/core/backends/pymp/actor.py
index fec7aac..68902f8 100644
--- a/unidist/core/backends/pymp/actor.py
+++ b/unidist/core/backends/pymp/actor.py
@@ -26,7 +26,7 @@ class PyMpActorMethod(ActorMethod):
         self._method_name = method_name
         self._num_returns = 1
 
-    def _remote(self, *args, num_returns=None, **kwargs):
+    def _remote(self, /, *args, num_returns=None, **kwargs):
         """
         Execute `self._method_name` in a worker process.
 
@@ -101,7 +101,7 @@ class PyMpActor(Actor):
         """
         return PyMpActorMethod(self._actor_handle, name)
 
-    def _remote(self, *args, num_cpus=None, resources=None, **kwargs):
+    def _remote(self, /, *args, num_cpus=None, resources=None, **kwargs):
         """
         Create actor class, specific for Python Multiprocessing backend, from `self._cls`.
 
diff --git a/unidist/core/backends/pymp/core/actor.py b/unidist/core/backends/pymp/core/actor.py
index 8a5b75e..af25aa1 100644
--- a/unidist/core/backends/pymp/core/actor.py
+++ b/unidist/core/backends/pymp/core/actor.py
@@ -37,7 +37,7 @@ class ActorMethod:
         self._actor = actor
         self._obj_store = obj_store
 
-    def submit(self, *args, num_returns=1, **kwargs):
+    def submit(self, /, *args, num_returns=1, **kwargs):
         """
         Execute `self._method_name` asynchronously in the worker of `self._actor`.
 
@@ -96,7 +96,7 @@ class Actor:
     Methods of `cls` class object are executed in the worker, grabbed from a workers pool.
     """
 
-    def __init__(self, cls, *args, **kwargs):
+    def __init__(self, cls, /, *args, **kwargs):
         self._worker = None
         self._worker_id = None
         self._obj_store = ObjectStore.get_instance()
diff --git a/unidist/core/backends/pymp/core/api.py b/unidist/core/backends/pymp/core/api.py
index 9cc6f21..a126d5d 100644
--- a/unidist/core/backends/pymp/core/api.py
+++ b/unidist/core/backends/pymp/core/api.py
@@ -109,7 +109,7 @@ def wait(data_ids, num_returns=1):
     return ObjectStore.get_instance().wait(data_ids, num_returns=num_returns)
 
 
-def submit(func, *args, num_returns=1, **kwargs):
+def submit(func, /, *args, num_returns=1, **kwargs):
     """
     Execute function in a worker process.
 
diff --git a/unidist/core/backends/pymp/core/process_manager.py b/unidist/core/backends/pymp/core/process_manager.py
index 5d7567c..8c815c6 100644
--- a/unidist/core/backends/pymp/core/process_manager.py
+++ b/unidist/core/backends/pymp/core/process_manager.py
@@ -218,7 +218,7 @@ class Task:
         Keyword arguments to be passed in the `func`.
     """
 
-    def __init__(self, func, data_ids, obj_store, *args, **kwargs):
+    def __init__(self, func, data_ids, obj_store, /, *args, **kwargs):
         self._func = func
         self._args = args
         self._kwargs = kwargs
diff --git a/unidist/core/backends/pymp/remote_function.py b/unidist/core/backends/pymp/remote_function.py
index 27f1d24..6330636 100644
--- a/unidist/core/backends/pymp/remote_function.py
+++ b/unidist/core/backends/pymp/remote_function.py
@@ -31,7 +31,9 @@ class PyMpRemoteFunction(RemoteFunction):
         self._num_returns = 1 if num_returns is None else num_returns
         self._resources = resources
 
-    def _remote(self, *args, num_cpus=None, num_returns=None, resources=None, **kwargs):
+    def _remote(
+        self, /, *args, num_cpus=None, num_returns=None, resources=None, **kwargs
+    ):
         """
         Execute `self._remote_function` in a worker process.
 
diff --git a/unidist/core/backends/pyseq/actor.py b/unidist/core/backends/pyseq/actor.py
index b4a1acf..3a786f3 100644
--- a/unidist/core/backends/pyseq/actor.py
+++ b/unidist/core/backends/pyseq/actor.py
@@ -26,7 +26,7 @@ class PySeqActorMethod(ActorMethod):
         self._method_name = method_name
         self._num_returns = 1
 
-    def _remote(self, *args, num_returns=None, **kwargs):
+    def _remote(self, /, *args, num_returns=None, **kwargs):
         """
         Execute `self._method_name`.
 
@@ -101,7 +101,7 @@ class PySeqActor(Actor):
         """
         return PySeqActorMethod(self._actor_handle, name)
 
-    def _remote(self, *args, num_cpus=None, resources=None, **kwargs):
+    def _remote(self, /, *args, num_cpus=None, resources=None, **kwargs):
         """
         Create actor class, specific for Python Sequential backend, from `self._cls`.
 
diff --git a/unidist/core/backends/pyseq/core/api.py b/unidist/core/backends/pyseq/core/api.py
index 1d2aff9..506719a 100644
--- a/unidist/core/backends/pyseq/core/api.py
+++ b/unidist/core/backends/pyseq/core/api.py
@@ -74,7 +74,7 @@ def get(data_ids):
     return ObjectStore.get_instance().get(data_ids)
 
 
-def submit(func, *args, num_returns=1, **kwargs):
+def submit(func, /, *args, num_returns=1, **kwargs):
     """
     Execute function.
 
diff --git a/unidist/core/backends/pyseq/remote_function.py b/unidist/core/backends/pyseq/remote_function.py
index 99997ee..eb22566 100644
--- a/unidist/core/backends/pyseq/remote_function.py
+++ b/unidist/core/backends/pyseq/remote_function.py
@@ -31,7 +31,9 @@ class PySeqRemoteFunction(RemoteFunction):
         self._num_returns = 1 if num_returns is None else num_returns
         self._resources = resources
 
-    def _remote(self, *args, num_cpus=None, num_returns=None, resources=None, **kwargs):
+    def _remote(
+        self, /, *args, num_cpus=None, num_returns=None, resources=None, **kwargs
+    ):
         """
         Execute `self._remote_function`.
 
diff --git a/unidist/core/backends/ray/actor.py b/unidist/core/backends/ray/actor.py
index 8b70904..d16d83a 100644
--- a/unidist/core/backends/ray/actor.py
+++ b/unidist/core/backends/ray/actor.py
@@ -27,7 +27,7 @@ class RayActorMethod(ActorMethod):
         self._method_name = method_name
         self._num_returns = 1
 
-    def _remote(self, *args, num_returns=None, **kwargs):
+    def _remote(self, /, *args, num_returns=None, **kwargs):
         """
         Execute `self._method_name` in a worker process.
 
@@ -158,7 +158,7 @@ class RayActor(Actor):
         """
         return RayActorMethod(self._actor_handle, name)
 
-    def _remote(self, *args, num_cpus=None, resources=None, **kwargs):
+    def _remote(self, /, *args, num_cpus=None, resources=None, **kwargs):
         """
         Create actor class, specific for Ray backend, from `self._cls`.
 
diff --git a/unidist/core/backends/ray/remote_function.py b/unidist/core/backends/ray/remote_function.py
index 50a2853..312a93e 100644
--- a/unidist/core/backends/ray/remote_function.py
+++ b/unidist/core/backends/ray/remote_function.py
@@ -32,7 +32,9 @@ class RayRemoteFunction(RemoteFunction):
         self._num_returns = 1 if num_returns is None else num_returns
         self._resources = resources
 
-    def _remote(self, *args, num_cpus=None, num_returns=None, resources=None, **kwargs):
+    def _remote(
+        self, /, *args, num_cpus=None, num_returns=None, resources=None, **kwargs
+    ):
         """
         Execute `self._remote_function` in a worker process.
 
diff --git a/unidist/core/base/actor.py b/unidist/core/base/actor.py
index 7763546..58f810f 100644
--- a/unidist/core/base/actor.py
+++ b/unidist/core/base/actor.py
@@ -44,7 +44,7 @@ class ActorMethod:
         actor_method_cls = self._actor_method_cls
 
         class FuncWrapper:
-            def remote(self, *args, **kwargs):
+            def remote(self, /, *args, **kwargs):
                 args, kwargs = filter_arguments(*args, **kwargs)
 
                 return actor_method_cls._remote(
@@ -53,7 +53,7 @@ class ActorMethod:
 
         return FuncWrapper()
 
-    def remote(self, *args, **kwargs):
+    def remote(self, /, *args, **kwargs):
         """
         Call an actor method in a worker process.
 
@@ -174,7 +174,7 @@ class ActorClass:
         self._actor_cls = actor_cls
         self._actor_cls_args = actor_cls_args
 
-    def __call__(self, *args, **kwargs):
+    def __call__(self, /, *args, **kwargs):
         raise TypeError(
             "Actors cannot be instantiated directly. "
             f"Instead of '{self._actor_cls_args[0].__name__}()', "
@@ -205,7 +205,7 @@ class ActorClass:
         actor_cls_args = self._actor_cls_args
 
         class ActorWrapper:
-            def remote(self, *args, **kwargs):
+            def remote(self, /, *args, **kwargs):
                 return Actor(
                     actor_cls(*actor_cls_args)._remote(
                         *args,
@@ -217,7 +217,7 @@ class ActorClass:
 
         return ActorWrapper()
 
-    def remote(self, *args, **kwargs):
+    def remote(self, /, *args, **kwargs):
         """
         Instantiate an actor class.
 
diff --git a/unidist/core/base/remote_function.py b/unidist/core/base/remote_function.py
index ca1468e..14b50af 100644
--- a/unidist/core/base/remote_function.py
+++ b/unidist/core/base/remote_function.py
@@ -37,14 +37,14 @@ class RemoteFunction:
 
         self.remote = _remote_proxy
 
-    def __call__(self, *args, **kwargs):
+    def __call__(self, /, *args, **kwargs):
         raise TypeError(
             "Remote functions cannot be called directly. Instead "
             f"of running '{self._original_function.__name__}()', "
             f"try '{self._original_function.__name__}.remote()'."
         )
 
-    def remote(self, *args, **kwargs):
+    def remote(self, /, *args, **kwargs):
         """
         Call a remote function in a worker process.
 
@@ -86,7 +86,7 @@ class RemoteFunction:
         remote_function_cls = self._remote_function_cls
 
         class FuncWrapper:
-            def remote(self, *args, **kwargs):
+            def remote(self, /, *args, **kwargs):
                 args, kwargs = filter_arguments(*args, **kwargs)
 
                 return remote_function_cls._remote(
-- 
2.43.0


From c6823284ff52d95603c9e44b6f1a126b6206dee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:20 +0000
Subject: [PATCH 23/30] fix: parallel_memcopy must copy buffers that do not
 contain a whole block

---
 unidist/core/backends/mpi/core/memory/memory.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unidist/core/backends/mpi/core/memory/memory.cpp b/unidist/core/backends/mpi/core/memory/memory.cpp
index 5eba543..66173b7 100644
--- a/unidist/core/backends/mpi/core/memory/memory.cpp
+++ b/unidist/core/backends/mpi/core/memory/memory.cpp
@@ -29,6 +29,11 @@ namespace unidist {
     std::vector<std::thread> threadpool(num_threads);
     uint8_t *left = pointer_logical_and(src + block_size - 1, ~(block_size - 1));
     uint8_t *right = pointer_logical_and(src + nbytes, ~(block_size - 1));
+    if (right <= left) {
+      // The buffer does not contain a whole block
+      std::memcpy(dst, src, nbytes);
+      return;
+    }
     int64_t num_blocks = (right - left) / block_size;
 
     // Update right address
-- 
2.43.0


From 6aa7162dee031bfd7500ca8cc830c141bf63f8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:05 +0000
Subject: [PATCH 24/30] fix: a request for data that is not ready yet must not
 be discarded

---
 unidist/core/backends/mpi/core/worker/request_store.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/request_store.py b/unidist/core/backends/mpi/core/worker/request_store.py
index 89703cf..d493151 100644
--- a/unidist/core/backends/mpi/core/worker/request_store.py
+++ b/unidist/core/backends/mpi/core/worker/request_store.py
@@ -146,18 +146,16 @@ class RequestStore:
         def check_request(data_id):
             # Check non-blocking data requests for one of the workers
             if data_id in self._nonblocking_get_requests:
-                ranks_with_get_request = self._nonblocking_get_requests[data_id]
+                ranks_with_get_request = self._nonblocking_get_requests.pop(data_id)
                 for rank_num in ranks_with_get_request:
-                    # Data is already in DataMap, so not problem here
+                    # The request is saved again if data is not in DataMap yet
                     self.process_get_request(rank_num, data_id, is_blocking_op=False)
-                del self._nonblocking_get_requests[data_id]
             # Check blocking data requests for other of the workers
             if data_id in self._blocking_get_requests:
-                ranks_with_get_request = self._blocking_get_requests[data_id]
+                ranks_with_get_request = self._blocking_get_requests.pop(data_id)
                 for rank_num in ranks_with_get_request:
-                    # Data is already in DataMap, so not problem here
+                    # The request is saved again if data is not in DataMap yet
                     self.process_get_request(rank_num, data_id, is_blocking_op=True)
-                del self._blocking_get_requests[data_id]
 
         if isinstance(data_ids, (list, tuple)):
             for data_id in data_ids:
-- 
2.43.0


From 5959a821a479c254dd6be148148eb422a328ac71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:44 +0000
Subject: [PATCH 25/30] fix: a Dask actor method may have arguments named
 method and actor_cls

---
 unidist/core/backends/dask/actor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unidist/core/backends/dask/actor.py b/unidist/core/backends/dask/actor.py
index cc42ce4..28b6acd 100644
--- a/unidist/core/backends/dask/actor.py
+++ b/unidist/core/backends/dask/actor.py
@@ -68,7 +68,7 @@ class DaskActorMethod(ActorMethod):
             unwrapped_kwargs[k] = unwrap_object_refs(v)
 
         future = client.submit(
-            lambda actor_cls, method, *args, **kwargs: getattr(actor_cls, method)(
+            lambda actor_cls, method, /, *args, **kwargs: getattr(actor_cls, method)(
                 *args, **kwargs
             ),
             self._cls,
-- 
2.43.0


From 158b09e3b210785f54381d6ff98e8abe2ceee2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:42 +0000
Subject: [PATCH 26/30] fix: keep calls of an MPI actor that arrive before the
 request to create it

---
 unidist/core/backends/mpi/core/worker/loop.py | 59 +++++++++++++------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 15cfeec..00fca89 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -124,6 +124,38 @@ async def worker_loop():
     request_store = RequestStore.get_instance()
     async_operations = AsyncOperations.get_instance()
 
+    # Calls of actors that have not been created yet, {handler: [request, ...]}
+    early_actor_requests = {}
+
+    def process_actor_request(request):
+        """
+        Execute the actor task if possible, otherwise save it for the delayed execution.
+
+        Parameters
+        ----------
+        request : dict
+            Request with the actor task to execute.
+        """
+        # Prepare the data
+        # Actor method here is a data id so we have to retrieve it from the storage
+        method_name = object_store.get(request["task"])
+        try:
+            actor_method = getattr(actor_map[request["handler"]], method_name)
+        except Exception as e:
+            actor_method = partial(raise_exception, e)
+        request["task"] = actor_method
+
+        # Execute the actor task if possible
+        if task_store.is_actor_blocked(request):
+            pending_actor_request = request
+        else:
+            pending_actor_request = task_store.process_task_request(request)
+        if pending_actor_request:
+            task_store.put_actor(pending_actor_request)
+        else:
+            # Check pending requests. Maybe some data became available.
+            task_store.check_all_pending_tasks()
+
     # Barrier to check if worker process is ready to start the communication loop
     mpi_state.global_comm.Barrier()
     w_logger.debug("Worker loop started")
@@ -214,31 +246,20 @@ async def worker_loop():
                 except Exception as e:
                     # The exception is raised by every call of the actor
                     actor_map[handler] = FailedActor(e)
+                for actor_request in early_actor_requests.pop(handler, []):
+                    process_actor_request(actor_request)
 
         elif operation_type == common.Operation.ACTOR_EXECUTE:
             request = pull_data(mpi_state.global_comm, source_rank)
             if not ready_to_shutdown_posted:
-                # Prepare the data
-                # Actor method here is a data id so we have to retrieve it from the storage
-                method_name = object_store.get(request["task"])
-                handler = request["handler"]
-                try:
-                    actor_method = getattr(actor_map[handler], method_name)
-                except Exception as e:
-                    actor_method = partial(raise_exception, e)
-                request["task"] = actor_method
                 request["source"] = source_rank
-
-                # Execute the actor task if possible
-                if task_store.is_actor_blocked(request):
-                    pending_actor_request = request
-                else:
-                    pending_actor_request = task_store.process_task_request(request)
-                if pending_actor_request:
-                    task_store.put_actor(pending_actor_request)
+                handler = request["handler"]
+                if handler in actor_map:
+                    process_actor_request(request)
                 else:
-                    # Check pending requests. Maybe some data became available.
-                    task_store.check_all_pending_tasks()
+                    # The handle has been sent to another process, whose call
+                    # has arrived before the request to create the actor
+                    early_actor_requests.setdefault(handler, []).append(request)
 
         elif operation_type == common.Operation.CLEANUP:
             cleanup_list = communication.recv_serialized_data(
-- 
2.43.0


From 37ea07fd7eab0e7355c2c65d1bb91e5153aeb29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:24 +0000
Subject: [PATCH 27/30] fix: do not lose data IDs deleted while the cleanup
 request is being sent

---
 .../core/backends/mpi/core/controller/garbage_collector.py   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/garbage_collector.py b/unidist/core/backends/mpi/core/controller/garbage_collector.py
index 58b015b..0936d12 100644
--- a/unidist/core/backends/mpi/core/controller/garbage_collector.py
+++ b/unidist/core/backends/mpi/core/controller/garbage_collector.py
@@ -136,8 +136,9 @@ class GarbageCollector:
                         )
                     )
                     if executed_task_counter == self._task_counter:
-                        self._send_cleanup_request(self._cleanup_list)
-                        self._cleanup_list.clear()
+                        # IDs deleted while the request is being sent go to the new list
+                        cleanup_list, self._cleanup_list = self._cleanup_list, []
+                        self._send_cleanup_request(cleanup_list)
                         self._cleanup_counter += 1
                         self._timestamp = time.perf_counter()
             else:
-- 
2.43.0


From 53fe1c4935f054d67e4d7878260ed2f7a40db7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:32 +0000
Subject: [PATCH 28/30] fix: let a remote function that was called be used in
 another process

---
 unidist/core/backends/mpi/remote_function.py | 23 ++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/unidist/core/backends/mpi/remote_function.py b/unidist/core/backends/mpi/remote_function.py
index 20da023..c2158ca 100644
--- a/unidist/core/backends/mpi/remote_function.py
+++ b/unidist/core/backends/mpi/remote_function.py
@@ -5,7 +5,6 @@
 """An implementation of ``RemoteFunction`` interface using MPI."""
 
 import unidist.core.backends.mpi.core as mpi
-from unidist.core.backends.common.data_id import is_data_id
 from unidist.core.backends.common.utils import unwrap_object_refs
 from unidist.core.base.object_ref import ObjectRef
 from unidist.core.base.remote_function import RemoteFunction
@@ -29,10 +28,26 @@ class MPIRemoteFunction(RemoteFunction):
 
     def __init__(self, function, num_cpus, num_returns, resources):
         self._remote_function = function
+        self._remote_function_id = None
         self._num_cpus = num_cpus
         self._num_returns = 1 if num_returns is None else num_returns
         self._resources = resources
 
+    def __getstate__(self):
+        """
+        Remove the ID of the function for correct `pickle` serialization.
+
+        The ID is only known to the process that put the function into the object storage.
+
+        Returns
+        -------
+        dict
+            State of the object without the ID.
+        """
+        state = self.__dict__.copy()
+        state["_remote_function_id"] = None
+        return state
+
     def _remote(
         self, /, *args, num_cpus=None, num_returns=None, resources=None, **kwargs
     ):
@@ -74,11 +89,11 @@ class MPIRemoteFunction(RemoteFunction):
         unwrapped_args = [unwrap_object_refs(arg) for arg in args]
         unwrapped_kwargs = {k: unwrap_object_refs(v) for k, v in kwargs.items()}
 
-        if not is_data_id(self._remote_function):
-            self._remote_function = mpi.put(self._remote_function)
+        if self._remote_function_id is None:
+            self._remote_function_id = mpi.put(self._remote_function)
 
         data_ids = mpi.submit(
-            self._remote_function,
+            self._remote_function_id,
             *unwrapped_args,
             num_returns=num_returns,
             **unwrapped_kwargs
-- 
2.43.0


From 092bd2be01a4c99d49cf306a2914153c04cc73b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:40 +0000
Subject: [PATCH 29/30] fix: initializing the MPI backend again must not hang

---
 unidist/core/backends/mpi/core/controller/api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 3a0fe51..c432052 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -122,6 +122,10 @@ def init():
     -----
     When initialization collect the MPI cluster topology.
     """
+    # The MPI processes have already been started
+    if is_initialized() and not is_mpi_shutdown:
+        return
+
     is_init = MPI.Is_initialized()
     if is_init:
         thread_level = MPI.Query_thread()
-- 
2.43.0


From 7e460233cb8e26fe9c0629278158b766d3d69a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:57 +0000
Subject: [PATCH 30/30] fix: keep the origin of the MPI pickle threshold set by
 the program

---
 unidist/config/backends/mpi/envvars.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/unidist/config/backends/mpi/envvars.py b/unidist/config/backends/mpi/envvars.py
index 417cfa7..7a9c1e2 100644
--- a/unidist/config/backends/mpi/envvars.py
+++ b/unidist/config/backends/mpi/envvars.py
@@ -56,11 +56,23 @@ class MpiPickleThreshold(EnvironmentVariable, type=int):
         """
         if MpiSharedObjectStore.get():
             mpi_pickle_threshold = MpiSharedObjectStoreThreshold.get()
-            cls.put_value_source(MpiSharedObjectStoreThreshold.get_value_source())
         else:
             mpi_pickle_threshold = super().get()
         return mpi_pickle_threshold
 
+    @classmethod
+    def get_value_source(cls):
+        """
+        Get value source of the threshold that is in effect.
+
+        Returns
+        -------
+        int
+        """
+        if MpiSharedObjectStore.get():
+            return MpiSharedObjectStoreThreshold.get_value_source()
+        return super().get_value_source()
+
 
 class MpiBackoff(EnvironmentVariable, type=float):
     """
-- 
2.43.0

