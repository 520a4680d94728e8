From 158974194188b2d1c247a07c37d1aad4fcd28633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 01/57] fix: cancelling one Context waiter no longer cancels
 all the others

---
 aiomisc/context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiomisc/context.py b/aiomisc/context.py
index cb8de04..c247b4d 100644
--- a/aiomisc/context.py
+++ b/aiomisc/context.py
@@ -33,7 +33,9 @@ class Context:
 
     def __getitem__(self, item: Any) -> Any:
         self._statistic.get += 1
-        return self._storage[item]
+        # A waiter may be cancelled, the other waiters of the same key
+        # must not be affected by this
+        return asyncio.shield(self._storage[item])
 
     def __setitem__(self, item: Any, value: Any) -> None:
         self._statistic.set += 1
-- 
2.43.0


From 0e627c97ecb75efdef91ba6cc0e443ef057a6ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 02/57] fix: pool instance whose check fails or is cancelled is
 recycled, never handed out or lost

---
 aiomisc/pool.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/aiomisc/pool.py b/aiomisc/pool.py
index c09942c..87244c0 100644
--- a/aiomisc/pool.py
+++ b/aiomisc/pool.py
@@ -143,23 +143,26 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         await self._instances.put(instance)
 
     async def __acquire(self) -> T:
-        if not self._semaphore.locked():
-            await self.__create_new_instance()
+        while True:
+            if not self._semaphore.locked():
+                await self.__create_new_instance()
 
-        instance = await self._instances.get()
+            instance = await self._instances.get()
 
-        try:
-            result = await self._check_instance(instance)
-        except Exception:
-            log.exception("Check instance %r failed", instance)
-            self.__recycle_instance(instance)
-        else:
-            if not result:
+            try:
+                result = await self._check_instance(instance)
+            except Exception:
+                log.exception("Check instance %r failed", instance)
+                result = False
+            except BaseException:
                 self.__recycle_instance(instance)
-                return await self.__acquire()
+                raise
+
+            if result:
+                self._used.add(instance)
+                return instance
 
-        self._used.add(instance)
-        return instance
+            self.__recycle_instance(instance)
 
     async def __release(self, instance: Any) -> None:
         self._used.discard(instance)
-- 
2.43.0


From 5ec7098c11c957d9ffbd75892382f144f45b16f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 03/57] fix: closing a pool destroys the instances waiting in
 the recycle bin too

---
 aiomisc/pool.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aiomisc/pool.py b/aiomisc/pool.py
index 87244c0..e04c50b 100644
--- a/aiomisc/pool.py
+++ b/aiomisc/pool.py
@@ -200,6 +200,7 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
                     )
                     for instance in instances
                 ],
+                self._recycle_bin.join(),
                 return_exceptions=True,
             ),
             timeout=timeout,
-- 
2.43.0


From 1bc7e3ea02ef718adb430416eac8dd7e716af713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 04/57] fix: pool capacity is not lost when creation fails and
 waiters see freed capacity

---
 aiomisc/pool.py | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/aiomisc/pool.py b/aiomisc/pool.py
index e04c50b..56f4415 100644
--- a/aiomisc/pool.py
+++ b/aiomisc/pool.py
@@ -56,8 +56,12 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         "_tasks",
         "_len",
         "_used",
+        "_waiters",
     ) + EventLoopMixin.__slots__
 
+    # Wakes up a waiter when there is a room for a new instance
+    _vacancy = object()
+
     _tasks: Set[Any]
     _used: Set[Any]
     _instances: asyncio.Queue
@@ -73,6 +77,7 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
 
         self._semaphore = asyncio.Semaphore(maxsize)
         self._len = 0
+        self._waiters = 0
 
         self._recycle = recycle
 
@@ -119,9 +124,15 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
     def __len__(self) -> int:
         return self._len
 
+    def __release_semaphore(self) -> None:
+        self._semaphore.release()
+
+        if self._waiters > 0:
+            self._instances.put_nowait(self._vacancy)
+
     def __recycle_instance(self, instance: Any) -> None:
         self._len -= 1
-        self._semaphore.release()
+        self.__release_semaphore()
         if instance in self._recycle_times:
             self._recycle_times.pop(instance)
 
@@ -133,7 +144,12 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
     async def __create_new_instance(self) -> None:
         await self._semaphore.acquire()
 
-        instance: Any = await self._create_instance()
+        try:
+            instance: Any = await self._create_instance()
+        except BaseException:
+            self.__release_semaphore()
+            raise
+
         self._len += 1
 
         if self._recycle:
@@ -147,7 +163,14 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
             if not self._semaphore.locked():
                 await self.__create_new_instance()
 
-            instance = await self._instances.get()
+            self._waiters += 1
+            try:
+                instance = await self._instances.get()
+            finally:
+                self._waiters -= 1
+
+            if instance is self._vacancy:
+                continue
 
             try:
                 result = await self._check_instance(instance)
@@ -182,10 +205,13 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
 
         while self._instances.qsize():
             try:
-                instances.append(self._instances.get_nowait())
+                instance = self._instances.get_nowait()
             except asyncio.QueueEmpty:
                 break
 
+            if instance is not self._vacancy:
+                instances.append(instance)
+
         async def log_exception(coro: Awaitable[Any]) -> None:
             try:
                 await coro
-- 
2.43.0


From 838d3d8f406e1cc0b26ed3040a06d7bf28592b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:43 +0000
Subject: [PATCH 05/57] fix: a thread waiting for a coroutine is released when
 the coroutine is cancelled

---
 aiomisc/thread_pool.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index 26919f0..118213e 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -465,7 +465,10 @@ class CoroutineWaiter:
         self.__exception: Optional[BaseException] = None
 
     def _on_result(self, task: asyncio.Future) -> None:
-        self.__exception = task.exception()
+        if task.cancelled():
+            self.__exception = asyncio.CancelledError()
+        else:
+            self.__exception = task.exception()
         if self.__exception is None:
             self.__result = task.result()
         self.__event.set()
-- 
2.43.0


From cb7a9539e7e6fc81c8d980f01d70525335c5a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:43 +0000
Subject: [PATCH 06/57] fix: threaded iterator must not lose the last item or
 the exception of the generator

---
 aiomisc/iterator_wrapper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index e39e9ae..5212711 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -122,11 +122,15 @@ class FromThreadChannel:
 
     def __await__(self) -> Any:
         while True:
+            # Should be checked before reading, the last item might be
+            # placed right before closing
+            closed = self.is_closed
+
             try:
                 res = self.queue.get()
                 return res
             except QueueEmpty:
-                if self.is_closed:
+                if closed:
                     raise ChannelClosed
 
                 sleep_time = self._compute_sleep_time()
-- 
2.43.0


From 4b2177648835543570a7facd41082dedea1ec94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:43 +0000
Subject: [PATCH 07/57] fix: closing of a never iterated threaded iterator must
 not hang

---
 aiomisc/iterator_wrapper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index 5212711..63b6dcb 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -220,6 +220,10 @@ class IteratorWrapper(AsyncIterator, EventLoopMixin):
         return asyncio.ensure_future(self.wait_closed())
 
     async def wait_closed(self) -> None:
+        if self.__gen_task is None and self.closed:
+            # Has never been started
+            return
+
         await self.__close_event.wait()
         if self.__gen_task:
             await asyncio.gather(self.__gen_task, return_exceptions=True)
-- 
2.43.0


From 162bd7522e12dd7006df45e75fd698f766328baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 08/57] fix: StopIteration raised by a threaded function must
 not hang the caller

---
 aiomisc/thread_pool.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index 118213e..b5b61cf 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -73,7 +73,14 @@ def _set_workitem_result(
     if future.done():
         return
 
-    if exception:
+    if isinstance(exception, StopIteration):
+        # StopIteration can not be set to the Future (see PEP 479)
+        cause, exception = exception, RuntimeError(
+            "function raised StopIteration",
+        )
+        exception.__cause__ = cause
+
+    if exception is not None:
         future.set_exception(exception)
     else:
         future.set_result(result)
-- 
2.43.0


From b723374aa0bf3845dee620f90ec98cf52945d852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 09/57] fix: closing a bounded threaded iterator releases the
 blocked generator thread

---
 aiomisc/iterator_wrapper.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index 63b6dcb..cd56a9d 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -1,10 +1,10 @@
 import asyncio
 import inspect
+import threading
 from abc import abstractmethod
 from collections import deque
 from concurrent.futures import Executor
 from queue import Empty as QueueEmpty
-from queue import Queue
 from time import time
 from types import TracebackType
 from typing import (
@@ -36,6 +36,9 @@ class QueueWrapperBase:
     def get(self) -> Any:
         raise NotImplementedError
 
+    def close(self) -> None:
+        pass
+
 
 class DequeWrapper(QueueWrapperBase):
     __slots__ = "queue",
@@ -53,16 +56,33 @@ class DequeWrapper(QueueWrapperBase):
 
 
 class QueueWrapper(QueueWrapperBase):
-    __slots__ = "queue",
+    __slots__ = "queue", "slots", "closed"
 
     def __init__(self, max_size: int) -> None:
-        self.queue: Queue = Queue(maxsize=max_size)
+        self.queue: Deque[Any] = deque()
+        self.slots = threading.Semaphore(max_size)
+        self.closed = False
 
     def put(self, item: Any) -> None:
-        return self.queue.put(item)
+        self.slots.acquire()
+
+        if self.closed:
+            self.slots.release()
+            raise ChannelClosed
+
+        self.queue.append(item)
 
     def get(self) -> Any:
-        return self.queue.get_nowait()
+        if not self.queue:
+            raise QueueEmpty
+        item = self.queue.popleft()
+        self.slots.release()
+        return item
+
+    def close(self) -> None:
+        # Releases a producer which is waiting for the free slot
+        self.closed = True
+        self.slots.release()
 
 
 def make_queue(max_size: int = 0) -> QueueWrapperBase:
@@ -84,6 +104,7 @@ class FromThreadChannel:
 
     def close(self) -> None:
         self.__closed = True
+        self.queue.close()
 
     @property
     def is_closed(self) -> bool:
-- 
2.43.0


From 91b99de31b021a63e9239873274cec507d9e7cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 10/57] fix: leaving the threaded iterator context waits for
 the generator in any case

---
 aiomisc/iterator_wrapper.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index cd56a9d..bf1685f 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -286,9 +286,6 @@ class IteratorWrapper(AsyncIterator, EventLoopMixin):
         self, exc_type: Any, exc_val: Any,
         exc_tb: Any,
     ) -> None:
-        if self.closed:
-            return
-
         await self.close()
 
 
-- 
2.43.0


From 37e5fcc0c7d1e1bc6d02ccff9058170c2bdd1a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 11/57] fix: slow logging target must not block the threads
 which write logs

---
 aiomisc/log.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index 14a1bf6..58ad0ef 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -64,8 +64,8 @@ class ThreadedHandler(logging.Handler):
         queue = self._queue
         while not self._close_event.is_set():
             self._flush_event.wait(self._flush_interval)
+            self._flush_event.clear()
             try:
-                self.acquire()
                 while True:
                     record = queue.get(timeout=self._flush_interval)
                     if record is None:
@@ -74,8 +74,6 @@ class ThreadedHandler(logging.Handler):
                         self._target.handle(record)
             except Empty:
                 pass
-            finally:
-                self.release()
         self._statistic.threads -= 1
 
 
-- 
2.43.0


From 2edeeace280f219627f815ac0959398c4bca8d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 12/57] fix: overflow of the log buffer must not raise from the
 logging call

---
 aiomisc/log.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index 58ad0ef..ba56042 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -4,7 +4,7 @@ import threading
 import traceback
 import warnings
 from contextlib import suppress
-from queue import Empty, Queue
+from queue import Empty, Full, Queue
 from socket import socket
 from typing import (
     Any, Callable, Dict, Iterable, List, Optional, Tuple, Type, Union,
@@ -55,7 +55,12 @@ class ThreadedHandler(logging.Handler):
 
     def emit(self, record: logging.LogRecord) -> None:
         if self._buffered:
-            self._queue.put_nowait(record)
+            try:
+                self._queue.put_nowait(record)
+            except Full:
+                self._statistic.errors += 1
+                self.handleError(record)
+                return
         else:
             self._queue.put(record)
         self._statistic.records += 1
-- 
2.43.0


From 487dae04124515f58626f743cb2acd57a5aa9fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 13/57] fix: records written just before closing of the
 threaded log handler must not be lost

---
 aiomisc/log.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index ba56042..4a020ac 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -43,10 +43,10 @@ class ThreadedHandler(logging.Handler):
         self._thread.start()
 
     def close(self) -> None:
-        self._queue.put(None)
-        del self._queue
-        self.flush()
-        self._close_event.set()
+        if not self._close_event.is_set():
+            self._close_event.set()
+            self._queue.put(None)
+            self.flush()
         super().close()
 
     def flush(self) -> None:
@@ -67,19 +67,20 @@ class ThreadedHandler(logging.Handler):
 
     def _in_thread(self) -> None:
         queue = self._queue
-        while not self._close_event.is_set():
+        # The ``None`` which is put by the ``close()`` is always the last one
+        while True:
             self._flush_event.wait(self._flush_interval)
             self._flush_event.clear()
             try:
                 while True:
                     record = queue.get(timeout=self._flush_interval)
                     if record is None:
+                        self._statistic.threads -= 1
                         return
                     with suppress(Exception):
                         self._target.handle(record)
             except Empty:
                 pass
-        self._statistic.threads -= 1
 
 
 def suppressor(
-- 
2.43.0


From 41c90be0b8b19fab2194aff49a12c99b8227344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 14/57] fix: shutdown started by a signal is performed once and
 not aborted by leaving the entrypoint

---
 aiomisc/entrypoint.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index d8b5cda..9050c2b 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -178,6 +178,8 @@ class Entrypoint:
         self._tasks: MutableSet[asyncio.Task] = WeakSet()
         self._thread_pool: Optional[ExecutorType] = None
         self._closing: Optional[asyncio.Event] = None
+        self._interrupt_task: Optional[asyncio.Task] = None
+        self._exit_task: Optional[asyncio.Task] = None
 
         if catch_signals is None and is_main_thread():
             # Apply default catch signals only if the entrypoint is creating
@@ -270,7 +272,10 @@ class Entrypoint:
                 buffered=False,
             )
 
-        loop.run_until_complete(self.__aexit__(exc_type, exc_val, exc_tb))
+        self._exit_task = loop.create_task(
+            self.__aexit__(exc_type, exc_val, exc_tb),
+        )
+        loop.run_until_complete(self._exit_task)
         if self._loop_owner and self._loop is not None:
             loop.close()
 
@@ -286,6 +291,14 @@ class Entrypoint:
     async def __aexit__(
         self, exc_type: Any, exc_val: Any, exc_tb: Any,
     ) -> None:
+        self._exit_task = self._exit_task or asyncio_current_task()
+
+        if self._interrupt_task is not None:
+            # The shutdown has been already started by the signal handler
+            # and must not be performed twice.
+            await asyncio.wait([self._interrupt_task])
+            return
+
         await self._stop(exc_val)
 
     if sys.version_info < (3, 9):
@@ -387,10 +400,10 @@ class Entrypoint:
             await self.post_stop.call(entrypoint=self, services=svc)
 
     async def _cancel_background_tasks(self) -> None:
-        current_task = asyncio_current_task(self.loop)
+        excluded = (asyncio_current_task(self.loop), self._exit_task)
         await cancel_tasks(
             filter(
-                lambda x: x is not current_task,
+                lambda x: x not in excluded,
                 asyncio_all_tasks(self._loop),
             ),
         )
@@ -412,10 +425,15 @@ class Entrypoint:
         self.loop.call_soon_threadsafe(self._on_interrupt, loop)
 
     def _on_interrupt(self, loop: asyncio.AbstractEventLoop) -> None:
+        if self._interrupt_task is not None or self._exit_task is not None:
+            # Shutdown is already in progress
+            return
+
         log.warning("Interrupt signal received, shutting down...")
         task = loop.create_task(
             self._stop(RuntimeError("Interrupt signal received")),
         )
+        self._interrupt_task = task
         handle = loop.call_later(self.shutdown_timeout, task.cancel)
 
         def on_shutdown_finish(task: asyncio.Future) -> None:
@@ -427,7 +445,9 @@ class Entrypoint:
                     self.shutdown_timeout,
                 )
             handle.cancel()
-            loop.stop()
+
+            if self._exit_task is None:
+                loop.stop()
 
             if task.cancelled():
                 # 70 from sysexits.h means "internal software error"
-- 
2.43.0


From 57ba72917cfb094ce4ab24390e7ad4061e65c40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 15/57] fix: a service failing to stop does not interrupt
 stopping of the other services

---
 aiomisc/entrypoint.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index 9050c2b..6d08f9f 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -390,7 +390,11 @@ class Entrypoint:
                     log.warning("Failed to stop service %r:\n%r", svc, e)
                     log.debug("Service stop failed traceback", exc_info=True)
 
-            await asyncio.gather(*tasks)
+            # A failed service should not prevent the others from stopping
+            results = await asyncio.gather(*tasks, return_exceptions=True)
+            for result in results:
+                if isinstance(result, BaseException):
+                    raise result
         finally:
             await cancel_tasks(tasks)
 
-- 
2.43.0


From a7b5d8a7cad3f62fb9051d142e4dc270d2999bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 16/57] fix: tell() of a file may flush written data and must
 not do it in the event loop thread

---
 aiomisc/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index a95f49b..7e829d5 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -197,7 +197,7 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         return method
 
     async def tell(self) -> int:
-        return self.fp.tell()
+        return await self.__execute_in_thread(self.fp.tell)
 
     async def readable(self) -> bool:
         return self.fp.readable()
-- 
2.43.0


From 3e1b3585e3ba3dea40c5ba719006213d1a2deee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:11 +0000
Subject: [PATCH 17/57] fix: stopping of TCP and TLS servers accepts no more
 clients, closes connections and does not hang

---
 aiomisc/service/base.py |  6 ++++--
 aiomisc/service/tcp.py  | 19 ++++++++++++++++++-
 aiomisc/service/tls.py  | 21 +++++++++++++++++++--
 3 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/aiomisc/service/base.py b/aiomisc/service/base.py
index f342574..26b848f 100644
--- a/aiomisc/service/base.py
+++ b/aiomisc/service/base.py
@@ -135,11 +135,13 @@ class SimpleServer(TaskStoreBase):
         raise NotImplementedError
 
     async def stop(self, exc: Optional[Exception] = None) -> None:
-        await super().stop(exc)
-
+        # Stop to accept the new connections first, otherwise they will be
+        # handled while (and after) the tasks are being cancelled
         if self.server:
             self.server.close()
 
+        await super().stop(exc)
+
 
 class SimpleClient(TaskStoreBase):
     @abstractmethod
diff --git a/aiomisc/service/tcp.py b/aiomisc/service/tcp.py
index 850c92b..905a48d 100644
--- a/aiomisc/service/tcp.py
+++ b/aiomisc/service/tcp.py
@@ -5,6 +5,7 @@ from abc import ABC, abstractmethod
 from functools import partial
 from pathlib import Path
 from typing import Any, Optional, Tuple
+from weakref import WeakSet
 
 from ..utils import OptionsType, TimeoutType, awaitable, bind_socket
 from .base import SimpleClient, SimpleServer
@@ -40,6 +41,7 @@ class TCPServer(SimpleServer):
             self.make_socket = lambda: sock     # type: ignore
 
         self.socket: Optional[socket.socket] = None
+        self.__writers: WeakSet = WeakSet()
 
         super().__init__(**kwargs)
 
@@ -53,12 +55,23 @@ class TCPServer(SimpleServer):
     async def __client_handler(
         self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter,
     ) -> Any:
-        return await awaitable(self.handle_client)(reader, writer)
+        try:
+            return await awaitable(self.handle_client)(reader, writer)
+        except BaseException:
+            # A failed or cancelled handler must not leave the client waiting
+            writer.close()
+            raise
 
     def make_client_handler(
         self, reader: asyncio.StreamReader,
         writer: asyncio.StreamWriter,
     ) -> Any:
+        if self.server is not None and not self.server.is_serving():
+            # accepted when the server was about to stop
+            writer.close()
+            return None
+
+        self.__writers.add(writer)
         return self.create_task(self.__client_handler(reader, writer))
 
     async def start(self) -> None:
@@ -71,6 +84,10 @@ class TCPServer(SimpleServer):
     async def stop(self, exc: Optional[Exception] = None) -> None:
         await super().stop(exc)
 
+        # The server is not closed until all its connections are closed
+        for writer in tuple(self.__writers):
+            writer.close()
+
         if self.server:
             await self.server.wait_closed()
 
diff --git a/aiomisc/service/tls.py b/aiomisc/service/tls.py
index cd1f59c..f476352 100644
--- a/aiomisc/service/tls.py
+++ b/aiomisc/service/tls.py
@@ -7,6 +7,7 @@ from dataclasses import dataclass
 from functools import partial
 from pathlib import Path
 from typing import Any, Optional, Tuple, Union
+from weakref import WeakSet
 
 from ..utils import OptionsType, TimeoutType, awaitable, bind_socket
 from .base import SimpleServer
@@ -146,18 +147,30 @@ class TLSServer(SimpleServer):
             self.make_socket = lambda: sock     # type: ignore
 
         self.socket: Optional[socket.socket] = None
+        self.__writers: WeakSet = WeakSet()
 
         super().__init__(**kwargs)
 
     async def __client_handler(
         self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter,
     ) -> Any:
-        return await awaitable(self.handle_client)(reader, writer)
+        try:
+            return await awaitable(self.handle_client)(reader, writer)
+        except BaseException:
+            # A failed or cancelled handler must not leave the client waiting
+            writer.close()
+            raise
 
     def make_client_handler(
         self, reader: asyncio.StreamReader,
         writer: asyncio.StreamWriter,
-    ) -> asyncio.Task:
+    ) -> Optional[asyncio.Task]:
+        if self.server is not None and not self.server.is_serving():
+            # accepted when the server was about to stop
+            writer.close()
+            return None
+
+        self.__writers.add(writer)
         return self.create_task(self.__client_handler(reader, writer))
 
     @abstractmethod
@@ -183,6 +196,10 @@ class TLSServer(SimpleServer):
     async def stop(self, exc: Optional[Exception] = None) -> None:
         await super().stop(exc)
 
+        # The server is not closed until all its connections are closed
+        for writer in tuple(self.__writers):
+            writer.close()
+
         if self.server:
             await self.server.wait_closed()
 
-- 
2.43.0


From adc08f1bab93db793059a65804a5960c8195f87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:19 +0000
Subject: [PATCH 18/57] fix: robust client reconnects after a failed first
 connect and stops without the reconnect delay

---
 aiomisc/service/tcp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aiomisc/service/tcp.py b/aiomisc/service/tcp.py
index 905a48d..cd99269 100644
--- a/aiomisc/service/tcp.py
+++ b/aiomisc/service/tcp.py
@@ -188,7 +188,7 @@ class RobustTCPClient(TCPClient, ABC):
                     self.start_event.set()
 
                 await self.create_task(self.handle_connection(reader, writer))
-                self.connected.clear()
+                return
             except asyncio.CancelledError:
                 raise
             except Exception:
@@ -198,6 +198,6 @@ class RobustTCPClient(TCPClient, ABC):
                     self.reconnect_timeout,
                 )
             finally:
-                if not self.connected.is_set():
-                    return
-                await asyncio.sleep(self.reconnect_timeout)
+                self.connected.clear()
+
+            await asyncio.sleep(self.reconnect_timeout)
-- 
2.43.0


From d65307e2348acc9a20a9cafb67fa55d9dbe4ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:42 +0000
Subject: [PATCH 19/57] fix: datagrams received while a UDP server stops leave
 no handler running

---
 aiomisc/service/udp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiomisc/service/udp.py b/aiomisc/service/udp.py
index 1fadcb2..7d46918 100644
--- a/aiomisc/service/udp.py
+++ b/aiomisc/service/udp.py
@@ -4,7 +4,7 @@ from abc import abstractmethod
 from functools import partial
 from typing import Any, Awaitable, Callable, Optional, Union
 
-from ..utils import OptionsType, awaitable, bind_socket
+from ..utils import OptionsType, awaitable, bind_socket, cancel_tasks
 from .base import SimpleServer
 
 
@@ -112,3 +112,5 @@ class UDPServer(SimpleServer):
         await super().stop(exc)
         if self._transport:
             self._transport.close()
+        # Datagrams might be received while the tasks were being cancelled
+        await cancel_tasks(self.tasks)
-- 
2.43.0


From 6d899e7040c7b530bcb7347254e2338f01b82a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:38 +0000
Subject: [PATCH 20/57] fix: start() of a service interrupted while starting is
 cancelled before the service is stopped

---
 aiomisc/entrypoint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index 6d08f9f..94135b7 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -344,6 +344,9 @@ class Entrypoint:
 
         self._services.add(svc)
 
+        # These might be left running when the starting is interrupted
+        self._tasks.update((start_task, ev_task))
+
         await asyncio.wait(
             (start_task, ev_task),
             return_when=asyncio.FIRST_COMPLETED,
-- 
2.43.0


From 4210e613d9ddad1f3744c09483debf2f76aaa2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 21/57] fix: DNS query received over TCP by parts is read
 completely

---
 aiomisc/service/dns/service.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aiomisc/service/dns/service.py b/aiomisc/service/dns/service.py
index 28d6895..74cd3f1 100644
--- a/aiomisc/service/dns/service.py
+++ b/aiomisc/service/dns/service.py
@@ -114,10 +114,7 @@ class TCPDNSServer(DNSServer, TCPServer):
                 if not data:
                     break
                 length = TCP_HEADER_STRUCT.unpack(data)[0]
-                packet = await reader.read(length)
-
-                if not data:
-                    break
+                packet = await reader.readexactly(length)
 
                 reply_body, _ = self.handle_request(data=packet, addr=addr)
 
-- 
2.43.0


From bb0a4dfa3217361e58c419589b1e6df8345faa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 22/57] fix: truncated DNS reply is well-formed and replies
 over TCP are not marked as truncated

---
 aiomisc/service/dns/service.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/aiomisc/service/dns/service.py b/aiomisc/service/dns/service.py
index 74cd3f1..39c54d7 100644
--- a/aiomisc/service/dns/service.py
+++ b/aiomisc/service/dns/service.py
@@ -60,12 +60,16 @@ class DNSServer:
 
             reply_body = reply.pack()
 
-            if len(reply_body) > 512:
+            if should_truncate and len(reply_body) > 512:
                 reply.header.tc = 1
                 reply_body = reply.pack()
 
-            if should_truncate:
-                reply_body = reply_body[:edns_max_size]
+            if should_truncate and edns_max_size is not None:
+                # Only whole records might be dropped
+                max_size = max(edns_max_size, 512)
+                while len(reply_body) > max_size and reply.rr:
+                    reply.rr.pop()
+                    reply_body = reply.pack()
         except Exception as e:
             log.exception(
                 "Failed to process %s request from %r: %s",
-- 
2.43.0


From 35e026912a43b75ec17fa5764c1e7d279da41c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 23/57] fix: DNS name is looked up in the closest existing zone

---
 aiomisc/service/dns/tree.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aiomisc/service/dns/tree.py b/aiomisc/service/dns/tree.py
index 1b32eec..433d83d 100644
--- a/aiomisc/service/dns/tree.py
+++ b/aiomisc/service/dns/tree.py
@@ -39,7 +39,8 @@ class RadixTree(Generic[T]):
 
     def find_prefix(self, key: K) -> Optional[Tuple[K, T]]:
         node = self.root
-        longest_prefix: List[str] = []
+        prefix: List[str] = []
+        longest_prefix: K = ()
         value = None
         part: Hashable
         if node.value is not None:
@@ -47,13 +48,14 @@ class RadixTree(Generic[T]):
         for part in key:
             if part in node.children:
                 node = node.children[part]
-                longest_prefix.append(part)
+                prefix.append(part)
                 if node.value is not None:
                     value = node.value
+                    longest_prefix = tuple(prefix)
             else:
                 break
 
         if value is None:
             return None
 
-        return tuple(longest_prefix), value
+        return longest_prefix, value
-- 
2.43.0


From de3b9e20b558fbbfceb260fa73521842cf117539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 24/57] fix: DNS zone accepts only the records of its domain

---
 aiomisc/service/dns/zone.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aiomisc/service/dns/zone.py b/aiomisc/service/dns/zone.py
index 8ed501c..ce5087a 100644
--- a/aiomisc/service/dns/zone.py
+++ b/aiomisc/service/dns/zone.py
@@ -45,7 +45,10 @@ class DNSZone:
         return tuple(self.records.get((name, record_type), ()))
 
     def check_record(self, record: DNSRecord) -> bool:
-        return record.name.endswith(self.name)
+        return (
+            record.name == self.name
+            or record.name.endswith("." + self.name.lstrip("."))
+        )
 
     def replace(self, records: Iterable[DNSRecord]) -> None:
         """
-- 
2.43.0


From ea9779728ce8d218162e7e173c08368ad55e77df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:00 +0000
Subject: [PATCH 25/57] fix: DNS records of any type can be added to a zone

---
 aiomisc/service/dns/records.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/service/dns/records.py b/aiomisc/service/dns/records.py
index 34ddf25..cab1800 100644
--- a/aiomisc/service/dns/records.py
+++ b/aiomisc/service/dns/records.py
@@ -74,7 +74,7 @@ class DNSClass(enum.IntEnum):
 
 class RD(dnslib.RD, Hashable, ABC):
     def __hash__(self) -> int:
-        return hash(self.data)
+        return hash((self.__class__, repr(self)))
 
     @classmethod
     @abstractmethod
-- 
2.43.0


From a3e1534c5543247dfa3200186506207bca1eba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 26/57] fix: DNS query racing with replacement of the zones
 finds the old or the new zone

[C20]
---
 aiomisc/service/dns/store.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/aiomisc/service/dns/store.py b/aiomisc/service/dns/store.py
index bd3d976..67849f5 100644
--- a/aiomisc/service/dns/store.py
+++ b/aiomisc/service/dns/store.py
@@ -35,11 +35,9 @@ class DNSStore:
     def query(self, name: str, record_type: RecordType) -> Sequence[DNSRecord]:
         if not name.endswith("."):
             name += "."
-        zone_tuple = self.get_zone_for_name(name)
-        if not zone_tuple:
-            return ()
-        zone = self.zones.search(zone_tuple)
-        return zone.get_records(name, record_type) if zone is not None else ()
+        # Zones might be replaced from another thread, look them up only once
+        result = self.zones.find_prefix(self.get_reverse_tuple(name))
+        return result[1].get_records(name, record_type) if result else ()
 
     def get_zone_for_name(self, name: str) -> Optional[Tuple[str, ...]]:
         labels = self.get_reverse_tuple(name)
-- 
2.43.0


From df363a3ce27f6e1e5f66fb653bfc96dbc5519f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 27/57] fix: SO_REUSEPORT is not requested for unix sockets,
 where it might be not supported

[C21] WorkerPool could not be created.
---
 aiomisc/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aiomisc/utils.py b/aiomisc/utils.py
index 9613245..57d9975 100644
--- a/aiomisc/utils.py
+++ b/aiomisc/utils.py
@@ -91,7 +91,11 @@ def bind_socket(
     if reuse_addr:
         sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
 
-    if reuse_port:
+    unix_address_family = getattr(socket, "AF_UNIX", None)
+
+    # SO_REUSEPORT makes no sense for unix sockets and
+    # might be not supported for them
+    if reuse_port and sock.family != unix_address_family:
         sock_set_reuseport(sock, True)
 
     sock_set_nodelay(sock)
@@ -99,7 +103,6 @@ def bind_socket(
     for level, option, value in options:
         sock.setsockopt(level, option, value)
 
-    unix_address_family = getattr(socket, "AF_UNIX", None)
     if sock.family == unix_address_family:
         proto_name = proto_name or "unix"
         sock.bind(address)
-- 
2.43.0


From c8e2e479baffffca6acbacd713205e081a6db9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 28/57] fix: the worker sends whole packets even when a signal
 interrupts it

[C21]
---
 aiomisc_worker/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc_worker/protocol.py b/aiomisc_worker/protocol.py
index 4721870..af5999e 100644
--- a/aiomisc_worker/protocol.py
+++ b/aiomisc_worker/protocol.py
@@ -67,7 +67,7 @@ class SocketIOProtocol(Protocol):
             return fp.getvalue()
 
     def _write(self, data: bytes) -> None:
-        self.sock.send(data)
+        self.sock.sendall(data)
 
 
 class AsyncProtocol:
-- 
2.43.0


From 6506d5dba1cd55f4dc8c31f8f35b19bffb4a6bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 29/57] fix: cancelling of a WorkerPool task affects neither
 its worker nor the other tasks

A cancel signal which came when the worker was not executing the function
killed the worker, made it send two responses to one request, or cancelled
the next task.

[C21]
---
 aiomisc/worker_pool.py   | 35 +++++++++++++++++----
 aiomisc_worker/worker.py | 67 ++++++++++++++++++++++++++++++----------
 2 files changed, 79 insertions(+), 23 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index e4280bd..539bbb9 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -4,6 +4,7 @@ import hmac
 import os
 import socket
 import sys
+from contextlib import suppress
 from inspect import Traceback
 from multiprocessing import ProcessError
 from os import chmod, urandom
@@ -128,6 +129,7 @@ class WorkerPool:
         self.__loop: Optional[asyncio.AbstractEventLoop] = None
         self.__futures: Set[asyncio.Future] = set()
         self.__task_store: Set[asyncio.Task] = set()
+        self.__executing: Dict[asyncio.Future, int] = {}
         self.__closing = False
         self.__closing_lock = asyncio.Lock()
         self._statistic = WorkerPoolStatistic(name=statistic_name)
@@ -190,6 +192,8 @@ class WorkerPool:
         self._statistic.processes += 1
         self._statistic.spawning += 1
         self.pids.add(pid)
+        # cancel signals which the worker has not received so far
+        signals = 0
 
         try:
             while not reader.at_eof():
@@ -208,8 +212,20 @@ class WorkerPool:
 
                 try:
                     process_future.set_result(pid)
-                    await proto.send((PacketTypes.REQUEST, func, args, kwargs))
-                    packet_type, payload = await proto.receive()
+                    self.__executing[result_future] = 0
+
+                    try:
+                        await proto.send(
+                            (
+                                PacketTypes.REQUEST, func, args, kwargs,
+                                signals,
+                            ),
+                        )
+                        packet_type, payload, received = await proto.receive()
+                    finally:
+                        signals += self.__executing.pop(result_future)
+
+                    signals = max(signals - received, 0)
 
                     if result_future.done():
                         log.debug(
@@ -325,13 +341,20 @@ class WorkerPool:
             func, args, kwargs, result_future, process_future,
         ))
 
-        pid: int = await process_future
-
         try:
+            await process_future
             return await result_future
         except asyncio.CancelledError:
-            log.debug("Sending %r to worker PID: %d", SIGNAL, pid)
-            os.kill(pid, SIGNAL)
+            result_future.cancel()
+
+            # The worker which has already finished this task might
+            # be executing another one
+            if result_future in self.__executing:
+                pid: int = process_future.result()
+                log.debug("Sending %r to worker PID: %d", SIGNAL, pid)
+                with suppress(ProcessLookupError):
+                    os.kill(pid, SIGNAL)
+                    self.__executing[result_future] += 1
             raise
 
     async def __aenter__(self) -> "WorkerPool":
diff --git a/aiomisc_worker/worker.py b/aiomisc_worker/worker.py
index beeb7ea..2aa03cf 100644
--- a/aiomisc_worker/worker.py
+++ b/aiomisc_worker/worker.py
@@ -7,16 +7,35 @@ import signal
 import socket
 import sys
 from types import TracebackType
-from typing import Any, Optional, Type
+from typing import Any, Optional, Tuple, Type
 
 from . import SIGNAL, AddressType, PacketTypes
 from .protocol import ADDRESS_FAMILY, SocketIOProtocol
 
 
+class CancelState:
+    """
+    Only the function of the request being executed might be cancelled.
+
+    A cancel signal may come when the request has been just finished, or
+    has not been received yet. The pool tells how many of the signals
+    which are not received so far belong to the previous requests.
+    """
+    received: int = 0
+    outdated: int = 0
+    executing: bool = False
+
+    @classmethod
+    def check(cls) -> None:
+        if cls.executing and cls.received > cls.outdated:
+            cls.executing = False
+            raise asyncio.CancelledError
+
+
 def execute(protocol: SocketIOProtocol) -> None:
     pid = os.getpid()
     try:
-        packet_type, func, args, kwargs = protocol.receive()
+        packet_type, func, args, kwargs, outdated = protocol.receive()
         logging.debug(
             "Worker PID: %d got task %r", pid, func, extra={"pid": pid},
         )
@@ -26,34 +45,48 @@ def execute(protocol: SocketIOProtocol) -> None:
     if packet_type != packet_type.REQUEST:
         raise RuntimeError("Unexpected request")
 
+    response: Tuple[PacketTypes, Any]
+
     try:
-        protocol.send((
-            PacketTypes.RESULT,
-            func(*args, **kwargs),
-        ))
+        CancelState.outdated = outdated
+        try:
+            CancelState.executing = True
+            CancelState.check()
+            response = PacketTypes.RESULT, func(*args, **kwargs)
+        finally:
+            CancelState.executing = False
     except asyncio.CancelledError:
         logging.exception(
             "Request cancelled for %r", func, extra={"pid": pid},
         )
-        protocol.send((
-            PacketTypes.CANCELLED,
-            asyncio.CancelledError,
-        ))
-    except (ConnectionError, ConnectionResetError):
+        response = PacketTypes.CANCELLED, asyncio.CancelledError
+    except Exception as e:
+        logging.exception("Exception when processing request")
+        response = PacketTypes.EXCEPTION, e
+
+    received = CancelState.received
+
+    try:
+        try:
+            protocol.send((*response, received))
+        except ConnectionError:
+            raise
+        except Exception as e:
+            logging.exception("Response can not be sent")
+            protocol.send((PacketTypes.EXCEPTION, e, received))
+    except ConnectionError:
         logging.warning(
             "IPC connection error, worker PID: %d exiting.", pid,
             extra={"pid": pid},
         )
         raise
-    except Exception as e:
-        logging.exception("Exception when processing request")
-        protocol.send((
-            PacketTypes.EXCEPTION, e,
-        ))
+
+    CancelState.received -= received
 
 
 def on_cancel_signal(*_: Any) -> None:
-    raise asyncio.CancelledError
+    CancelState.received += 1
+    CancelState.check()
 
 
 signal.signal(SIGNAL, on_cancel_signal)
-- 
2.43.0


From 9aae333f170b8977196a5706ba4fc1e1c3a7e9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 30/57] fix: WorkerPool does not lose the worker when a task
 can not be pickled

[C21]
---
 aiomisc/worker_pool.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index 539bbb9..42a533d 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -248,14 +248,10 @@ class WorkerPool:
                         )
                     break
                 except Exception as e:
+                    # The request can not be pickled or the response can not
+                    # be unpickled, the worker is able to handle next ones
                     if not result_future.done():
                         result_future.set_exception(e)
-
-                    if not writer.is_closing():
-                        if writer.can_write_eof():
-                            writer.write_eof()
-                        writer.close()
-                    raise
         finally:
             self._statistic.processes -= 1
             self.pids.discard(pid)
-- 
2.43.0


From 14c484e4a57c6cf8d925fcd9028550f74b0c46cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 31/57] fix: WorkerPool task is not failed by the worker which
 had died before

[C21]
---
 aiomisc/worker_pool.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index 42a533d..a017e57 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -203,9 +203,14 @@ class WorkerPool:
                 result_future: asyncio.Future
                 process_future: asyncio.Future
 
-                (
-                    func, args, kwargs, result_future, process_future,
-                ) = await self.tasks.get()
+                task = await self.tasks.get()
+
+                if reader.at_eof() or writer.is_closing():
+                    # The worker has gone while idle, let another one do it
+                    await self.tasks.put(task)
+                    break
+
+                func, args, kwargs, result_future, process_future = task
 
                 if process_future.done() or result_future.done():
                     continue
-- 
2.43.0


From 642317c3accec4d14e7e000c11c6132e64960500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 32/57] fix: create_task() of a closed WorkerPool does not hang

[C21]
---
 aiomisc/worker_pool.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index a017e57..0b2d5c3 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -317,6 +317,11 @@ class WorkerPool:
             await cancel_tasks(tuple(self.__task_store))
             await cancel_tasks(tuple(self.__futures))
 
+            # Release create_task() calls which are waiting for a free slot
+            while not self.tasks.empty():
+                self.tasks.get_nowait()
+                await asyncio.sleep(0)
+
     def _kill_supervisor(self) -> None:
         supervisor: Optional[Popen] = getattr(self, "_supervisor", None)
         if supervisor is None or supervisor.poll() is not None:
@@ -335,6 +340,9 @@ class WorkerPool:
         self, func: Callable[..., T],
         *args: Any, **kwargs: Any,
     ) -> T:
+        if self.__closing:
+            raise RuntimeError("Pool closed")
+
         result_future = self.__create_future()
         process_future = self.__create_future()
 
-- 
2.43.0


From 8973773a8e8326ce73551db65a957e8d092f7cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 33/57] fix: worker is respawned after a task which exits with
 the zero status

[C21]
---
 aiomisc_worker/worker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiomisc_worker/worker.py b/aiomisc_worker/worker.py
index 2aa03cf..f566faa 100644
--- a/aiomisc_worker/worker.py
+++ b/aiomisc_worker/worker.py
@@ -60,6 +60,9 @@ def execute(protocol: SocketIOProtocol) -> None:
             "Request cancelled for %r", func, extra={"pid": pid},
         )
         response = PacketTypes.CANCELLED, asyncio.CancelledError
+    except SystemExit as e:
+        # Supervisor does not respawn workers exited with zero status
+        raise SystemExit(e.code or 1)
     except Exception as e:
         logging.exception("Exception when processing request")
         response = PacketTypes.EXCEPTION, e
-- 
2.43.0


From b0f13f096492889f35c3483965ee574ee1b4ac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:13 +0000
Subject: [PATCH 34/57] fix: connections of workers are closed with the pool

---
 aiomisc/worker_pool.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index 0b2d5c3..571ffb8 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -264,7 +264,10 @@ class WorkerPool:
     def __start_handler(
         self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter,
     ) -> asyncio.Task:
-        return self.__task(self.__handle_client(reader, writer))
+        task = self.__task(self.__handle_client(reader, writer))
+        # The worker exits when its connection is closed
+        task.add_done_callback(lambda _: writer.close())
+        return task
 
     def __task_add(self, task: asyncio.Task) -> None:
         self._statistic.task_added += 1
-- 
2.43.0


From 0337b92f260bc9ac39b3b9f447ad11f9bff93ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 35/57] fix: every blocked create_task() is released when
 WorkerPool closes

---
 aiomisc/worker_pool.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index 571ffb8..ddfca37 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -130,6 +130,7 @@ class WorkerPool:
         self.__futures: Set[asyncio.Future] = set()
         self.__task_store: Set[asyncio.Task] = set()
         self.__executing: Dict[asyncio.Future, int] = {}
+        self.__putting = 0
         self.__closing = False
         self.__closing_lock = asyncio.Lock()
         self._statistic = WorkerPoolStatistic(name=statistic_name)
@@ -321,8 +322,9 @@ class WorkerPool:
             await cancel_tasks(tuple(self.__futures))
 
             # Release create_task() calls which are waiting for a free slot
-            while not self.tasks.empty():
-                self.tasks.get_nowait()
+            while self.__putting:
+                if not self.tasks.empty():
+                    self.tasks.get_nowait()
                 await asyncio.sleep(0)
 
     def _kill_supervisor(self) -> None:
@@ -349,9 +351,13 @@ class WorkerPool:
         result_future = self.__create_future()
         process_future = self.__create_future()
 
-        await self.tasks.put((
-            func, args, kwargs, result_future, process_future,
-        ))
+        self.__putting += 1
+        try:
+            await self.tasks.put((
+                func, args, kwargs, result_future, process_future,
+            ))
+        finally:
+            self.__putting -= 1
 
         try:
             await process_future
-- 
2.43.0


From 75687523c8cdc1fc91d7e90a42e02d78fcde81d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 36/57] fix: cancel signals of WorkerPool are not mixed up when
 they are merged or the response is lost

---
 aiomisc/worker_pool.py     | 44 ++++++++++++++++++------------------
 aiomisc_worker/__init__.py |  1 +
 aiomisc_worker/worker.py   | 46 +++++++++++++-------------------------
 3 files changed, 39 insertions(+), 52 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index ddfca37..eb94a60 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -129,7 +129,7 @@ class WorkerPool:
         self.__loop: Optional[asyncio.AbstractEventLoop] = None
         self.__futures: Set[asyncio.Future] = set()
         self.__task_store: Set[asyncio.Task] = set()
-        self.__executing: Dict[asyncio.Future, int] = {}
+        self.__executing: Set[asyncio.Future] = set()
         self.__putting = 0
         self.__closing = False
         self.__closing_lock = asyncio.Lock()
@@ -193,8 +193,6 @@ class WorkerPool:
         self._statistic.processes += 1
         self._statistic.spawning += 1
         self.pids.add(pid)
-        # cancel signals which the worker has not received so far
-        signals = 0
 
         try:
             while not reader.at_eof():
@@ -218,20 +216,21 @@ class WorkerPool:
 
                 try:
                     process_future.set_result(pid)
-                    self.__executing[result_future] = 0
+                    await proto.send((PacketTypes.REQUEST, func, args, kwargs))
+                    packet_type = await proto.receive()
 
+                    if packet_type != PacketTypes.STARTED:
+                        raise RuntimeError("Unexpected response")
+
+                    # Since now and until the response is received the worker
+                    # treats the signal as cancellation of this task
+                    self.__executing.add(result_future)
                     try:
-                        await proto.send(
-                            (
-                                PacketTypes.REQUEST, func, args, kwargs,
-                                signals,
-                            ),
-                        )
-                        packet_type, payload, received = await proto.receive()
+                        if result_future.cancelled():
+                            self.__interrupt(pid)
+                        packet_type, payload = await proto.receive()
                     finally:
-                        signals += self.__executing.pop(result_future)
-
-                    signals = max(signals - received, 0)
+                        self.__executing.discard(result_future)
 
                     if result_future.done():
                         log.debug(
@@ -341,6 +340,12 @@ class WorkerPool:
     def __del__(self) -> None:
         self._kill_supervisor()
 
+    @staticmethod
+    def __interrupt(pid: int) -> None:
+        log.debug("Sending %r to worker PID: %d", SIGNAL, pid)
+        with suppress(ProcessLookupError):
+            os.kill(pid, SIGNAL)
+
     async def create_task(
         self, func: Callable[..., T],
         *args: Any, **kwargs: Any,
@@ -364,15 +369,10 @@ class WorkerPool:
             return await result_future
         except asyncio.CancelledError:
             result_future.cancel()
-
-            # The worker which has already finished this task might
-            # be executing another one
+            # The worker which has not started this task yet, or has already
+            # finished it, might be executing another one
             if result_future in self.__executing:
-                pid: int = process_future.result()
-                log.debug("Sending %r to worker PID: %d", SIGNAL, pid)
-                with suppress(ProcessLookupError):
-                    os.kill(pid, SIGNAL)
-                    self.__executing[result_future] += 1
+                self.__interrupt(process_future.result())
             raise
 
     async def __aenter__(self) -> "WorkerPool":
diff --git a/aiomisc_worker/__init__.py b/aiomisc_worker/__init__.py
index 8a9ade1..745fe5e 100644
--- a/aiomisc_worker/__init__.py
+++ b/aiomisc_worker/__init__.py
@@ -22,6 +22,7 @@ class PacketTypes(IntEnum):
     EXCEPTION = 1
     RESULT = 2
     CANCELLED = 3
+    STARTED = 4
     AUTH = 50
     AUTH_FAIL = 58
     AUTH_OK = 59
diff --git a/aiomisc_worker/worker.py b/aiomisc_worker/worker.py
index f566faa..568b4e0 100644
--- a/aiomisc_worker/worker.py
+++ b/aiomisc_worker/worker.py
@@ -13,29 +13,16 @@ from . import SIGNAL, AddressType, PacketTypes
 from .protocol import ADDRESS_FAMILY, SocketIOProtocol
 
 
-class CancelState:
-    """
-    Only the function of the request being executed might be cancelled.
-
-    A cancel signal may come when the request has been just finished, or
-    has not been received yet. The pool tells how many of the signals
-    which are not received so far belong to the previous requests.
-    """
-    received: int = 0
-    outdated: int = 0
-    executing: bool = False
-
-    @classmethod
-    def check(cls) -> None:
-        if cls.executing and cls.received > cls.outdated:
-            cls.executing = False
-            raise asyncio.CancelledError
+# The cancel signal concerns the executing function only
+EXECUTING = False
 
 
 def execute(protocol: SocketIOProtocol) -> None:
+    global EXECUTING
+
     pid = os.getpid()
     try:
-        packet_type, func, args, kwargs, outdated = protocol.receive()
+        packet_type, func, args, kwargs = protocol.receive()
         logging.debug(
             "Worker PID: %d got task %r", pid, func, extra={"pid": pid},
         )
@@ -48,13 +35,13 @@ def execute(protocol: SocketIOProtocol) -> None:
     response: Tuple[PacketTypes, Any]
 
     try:
-        CancelState.outdated = outdated
         try:
-            CancelState.executing = True
-            CancelState.check()
+            EXECUTING = True
+            # The pool sends the cancel signal after this packet only
+            protocol.send(PacketTypes.STARTED)
             response = PacketTypes.RESULT, func(*args, **kwargs)
         finally:
-            CancelState.executing = False
+            EXECUTING = False
     except asyncio.CancelledError:
         logging.exception(
             "Request cancelled for %r", func, extra={"pid": pid},
@@ -67,16 +54,14 @@ def execute(protocol: SocketIOProtocol) -> None:
         logging.exception("Exception when processing request")
         response = PacketTypes.EXCEPTION, e
 
-    received = CancelState.received
-
     try:
         try:
-            protocol.send((*response, received))
+            protocol.send(response)
         except ConnectionError:
             raise
         except Exception as e:
             logging.exception("Response can not be sent")
-            protocol.send((PacketTypes.EXCEPTION, e, received))
+            protocol.send((PacketTypes.EXCEPTION, e))
     except ConnectionError:
         logging.warning(
             "IPC connection error, worker PID: %d exiting.", pid,
@@ -84,12 +69,13 @@ def execute(protocol: SocketIOProtocol) -> None:
         )
         raise
 
-    CancelState.received -= received
-
 
 def on_cancel_signal(*_: Any) -> None:
-    CancelState.received += 1
-    CancelState.check()
+    global EXECUTING
+
+    if EXECUTING:
+        EXECUTING = False
+        raise asyncio.CancelledError
 
 
 signal.signal(SIGNAL, on_cancel_signal)
-- 
2.43.0


From 51be5318277f0637e3437bb8c80f62a8017e5c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:55 +0000
Subject: [PATCH 37/57] fix: a process service does not hang on a dead process,
 and its process gets signals and never outlives it

---
 aiomisc/service/process.py | 47 +++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/aiomisc/service/process.py b/aiomisc/service/process.py
index 8313aee..1506ebf 100644
--- a/aiomisc/service/process.py
+++ b/aiomisc/service/process.py
@@ -1,7 +1,10 @@
 import logging
+import math
 import os
 import signal
+import time
 from abc import ABC, abstractmethod
+from contextlib import suppress
 from multiprocessing import Event, Process, synchronize
 from threading import Lock
 from typing import Any, Callable, Dict, Optional
@@ -22,6 +25,10 @@ def _process_inner(
     stop_event: synchronize.Event,
     **kwargs: Any,
 ) -> None:
+    # Handlers inherited from the parent know nothing about this process
+    signal.signal(signal.SIGINT, signal.default_int_handler)
+    signal.signal(signal.SIGTERM, signal.SIG_DFL)
+
     basic_config(level=log_level, log_format=log_format)
     start_event.set()
     try:
@@ -30,6 +37,19 @@ def _process_inner(
         stop_event.set()
 
 
+def _wait_event(
+    process: Process, event: synchronize.Event, timeout: float = math.inf,
+) -> bool:
+    # The process might die without setting the event
+    deadline = time.monotonic() + timeout
+    while process.is_alive():
+        if event.wait(max(0., min(0.1, deadline - time.monotonic()))):
+            break
+        if time.monotonic() >= deadline:
+            break
+    return event.is_set()
+
+
 class ProcessService(Service):
     name: Optional[str] = None
     process: Process
@@ -47,9 +67,9 @@ class ProcessService(Service):
         pass
 
     def _is_alive(self) -> bool:
+        if not hasattr(self, "process"):
+            return False
         with self._lock:
-            if not hasattr(self, "process"):
-                return False
             if not self.process.pid:
                 return False
             return self.process.is_alive()
@@ -68,7 +88,7 @@ class ProcessService(Service):
             log_format = (
                 LogFormat.default()
                 if LOG_FORMAT is None
-                else LOG_FORMAT.get().value
+                else LOG_FORMAT.get()
             )
 
             process = Process(
@@ -85,12 +105,12 @@ class ProcessService(Service):
             )
 
             process.start()
-
-            await self.loop.run_in_executor(
-                None, self._process_start_event.wait,
-            )
             self.process = process
 
+        await self.loop.run_in_executor(
+            None, _wait_event, process, self._process_start_event,
+        )
+
     def __repr__(self) -> str:
         pid: Optional[int] = None
         if hasattr(self, "process"):
@@ -110,9 +130,12 @@ class ProcessService(Service):
         if not process.pid:
             return
 
-        os.kill(process.pid, signal.SIGINT)
+        with suppress(ProcessLookupError):
+            os.kill(process.pid, signal.SIGINT)
+
         stop_result: bool = await self.loop.run_in_executor(
-            None, self._process_stop_event.wait, self.process_stop_timeout,
+            None, _wait_event, process, self._process_stop_event,
+            self.process_stop_timeout,
         )
 
         if stop_result:
@@ -120,13 +143,14 @@ class ProcessService(Service):
                 None, process.join, self.process_stop_timeout,
             )
 
-        if not stop_result and process.is_alive():
+        if process.is_alive():
             process.kill()
             log.warning(
                 f"The process {process.pid} didn't stop for "
                 f"{self.process_stop_timeout} seconds "
                 "and had been killed.",
             )
+            await self.loop.run_in_executor(None, process.join)
 
 
 class RespawningProcessService(ProcessService, ABC):
@@ -155,7 +179,8 @@ class RespawningProcessService(ProcessService, ABC):
         )
 
     async def stop(self, exception: Optional[Exception] = None) -> Any:
-        await self._supervisor.stop(return_exceptions=True)
+        if hasattr(self, "_supervisor"):
+            await self._supervisor.stop(return_exceptions=True)
         await super().stop(exception)
 
 
-- 
2.43.0


From 4328218e805d942efc31fc81eed67cd4788ee594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 38/57] fix: notifications of SDWatchdogService do not lose
 each other when the socket is not writable

---
 aiomisc/service/sdwatchdog.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/aiomisc/service/sdwatchdog.py b/aiomisc/service/sdwatchdog.py
index 5e7e533..24f3da7 100644
--- a/aiomisc/service/sdwatchdog.py
+++ b/aiomisc/service/sdwatchdog.py
@@ -1,3 +1,4 @@
+import asyncio
 import logging
 import os
 import socket
@@ -46,6 +47,7 @@ class SDWatchdogService(Service):
     ):
         self.watchdog_interval = watchdog_interval
         self.socket_addr = _get_socket_addr()
+        self._send_lock: Optional[asyncio.Lock] = None
 
         super().__init__(**kwargs)
 
@@ -57,11 +59,17 @@ class SDWatchdogService(Service):
         if not self.is_connected:
             return
 
+        if self._send_lock is None:
+            self._send_lock = asyncio.Lock()
+
         try:
-            await self.loop.sock_sendall(
-                self.socket,
-                payload.encode(),
-            )
+            # Concurrent ``sock_sendall`` calls for the same socket
+            # lose each other when the socket is not writable.
+            async with self._send_lock:
+                await self.loop.sock_sendall(
+                    self.socket,
+                    payload.encode(),
+                )
         except (ConnectionError, OSError) as e:
             log.warning("SystemD notify socket communication problem: %r", e)
 
-- 
2.43.0


From 26986d7138026b93d4673a547c9754f000da9a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:55 +0000
Subject: [PATCH 39/57] fix: transports of RavenSender report the end of every
 event and close completely

---
 aiomisc/service/raven.py | 53 ++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/aiomisc/service/raven.py b/aiomisc/service/raven.py
index 0e59c0e..4d7a1cd 100644
--- a/aiomisc/service/raven.py
+++ b/aiomisc/service/raven.py
@@ -86,6 +86,7 @@ class AioHttpTransportBase(
             self._client_session = self._client_session_factory()
 
         self._closing = False
+        self._closed = False
 
     @property
     def keepalive(self) -> bool:
@@ -134,6 +135,7 @@ class AioHttpTransportBase(
             else:
                 callback()
         except asyncio.CancelledError:
+            errorback(self._closed_error())
             # do not mute asyncio.CancelledError
             raise
         except Exception as exc:
@@ -160,18 +162,34 @@ class AioHttpTransportBase(
         success_cb: Callable[[], Any], failure_cb: Callable[[Any], Any],
     ) -> None:
         if self._closing:
-            failure_cb(RuntimeError(f"{self.__class__.__name__} is closed"))
+            failure_cb(self._closed_error())
             return
 
         self._loop.call_soon_threadsafe(
-            self._async_send, url, data, headers, success_cb, failure_cb,
+            self._accept, url, data, headers, success_cb, failure_cb,
         )
 
+    def _closed_error(self) -> Exception:
+        return RuntimeError(f"{self.__class__.__name__} is closed")
+
+    def _accept(
+        self, url: str, data: Any, headers: Mapping,
+        success_cb: Callable[[], Any], failure_cb: Callable[[Any], Any],
+    ) -> None:
+        # The transport might be closed since the call of async_send()
+        if self._closed:
+            failure_cb(self._closed_error())
+            return
+
+        self._async_send(url, data, headers, success_cb, failure_cb)
+
     async def _close_coro(
         self,
         *,
         timeout: Optional[TimeoutType] = None,
     ) -> None:
+        self._closed = True
+
         try:
             await asyncio.wait_for(
                 self._close(), timeout=timeout,
@@ -217,8 +235,6 @@ class AioHttpTransport(AioHttpTransportBase):
             return_exceptions=True,
         )
 
-        assert len(self._tasks) == 0
-
 
 class QueuedAioHttpTransport(AioHttpTransportBase):
 
@@ -288,17 +304,22 @@ class QueuedAioHttpTransport(AioHttpTransportBase):
 
             self._queue.put_nowait(...)
 
-        await asyncio.gather(
-            *self._workers,
-            return_exceptions=True,
-        )
-
-        assert len(self._workers) == 0
-        assert self._queue.qsize() == 1
         try:
-            assert self._queue.get_nowait() is ...
+            await asyncio.gather(
+                *self._workers,
+                return_exceptions=True,
+            )
         finally:
-            self._queue.task_done()
+            # Some events might be left when closing has been interrupted
+            while not self._queue.empty():
+                data = self._queue.get_nowait()
+                self._queue.task_done()
+
+                if data is ...:
+                    continue
+
+                *_, failure_cb = data
+                failure_cb(self._closed_error())
 
 
 class QueuedKeepaliveAioHttpTransport(QueuedAioHttpTransport):
@@ -343,8 +364,10 @@ class QueuedKeepaliveAioHttpTransport(QueuedAioHttpTransport):
         )
 
     async def _close(self) -> None:
-        await super()._close()
-        await self.connector.close()
+        try:
+            await super()._close()
+        finally:
+            await self.connector.close()
 
 
 class RavenSender(Service):
-- 
2.43.0


From d3b5684a85a8c27cb99f4aedc75cf1bb166d490a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 40/57] fix: UvicornService starts when its server listens, and
 leaves signals to the entrypoint

---
 aiomisc/service/uvicorn.py | 41 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/aiomisc/service/uvicorn.py b/aiomisc/service/uvicorn.py
index 0b5ebc5..a715d1c 100644
--- a/aiomisc/service/uvicorn.py
+++ b/aiomisc/service/uvicorn.py
@@ -4,7 +4,10 @@ import logging
 import os
 import socket
 import ssl
-from typing import Any, Awaitable, Callable, List, Optional, Tuple, Type, Union
+from contextlib import contextmanager
+from typing import (
+    Any, Awaitable, Callable, Generator, List, Optional, Tuple, Type, Union,
+)
 
 from asgiref.typing import ASGIApplication
 from uvicorn.config import (
@@ -21,6 +24,27 @@ log = logging.getLogger(__name__)
 UvicornApplication = Union[ASGIApplication, Callable]
 
 
+class _Server(Server):
+    """Server which reports its start and leaves signals to the entrypoint"""
+
+    def __init__(self, config: Config):
+        super().__init__(config)
+        self.startup_done = asyncio.Event()
+
+    def install_signal_handlers(self) -> None:
+        pass
+
+    @contextmanager
+    def capture_signals(self) -> Generator[None, None, None]:
+        yield
+
+    async def startup(
+        self, sockets: Optional[List[socket.socket]] = None,
+    ) -> None:
+        await super().startup(sockets=sockets)
+        self.startup_done.set()
+
+
 class UvicornService(Service, abc.ABC):
     __async_required__: Tuple[str, ...] = (
         "start",
@@ -115,11 +139,24 @@ class UvicornService(Service, abc.ABC):
         )
         if not self.sock:
             self.sock = config.bind_socket()
-        self.server = Server(config)
+        self.server = _Server(config)
         self.serve_task = asyncio.create_task(
             self.server.serve(sockets=[self.sock]),
         )
 
+        startup = asyncio.create_task(self.server.startup_done.wait())
+        try:
+            await asyncio.wait(
+                [startup, self.serve_task],
+                return_when=asyncio.FIRST_COMPLETED,
+            )
+        finally:
+            startup.cancel()
+
+        if not self.server.started:
+            await self.serve_task
+            raise RuntimeError("Application startup failed")
+
     async def stop(self, exception: Optional[Exception] = None) -> None:
         self.server.should_exit = True
         await self.serve_task
-- 
2.43.0


From 86c8300bbd8d046d67eaf4c8be907056379d34ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:23 +0000
Subject: [PATCH 41/57] fix: get_statistics() works while statistics are
 created, and reports assigned values

---
 aiomisc/counters.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/aiomisc/counters.py b/aiomisc/counters.py
index d191f6a..95669d0 100644
--- a/aiomisc/counters.py
+++ b/aiomisc/counters.py
@@ -1,5 +1,6 @@
 from collections import Counter
 from dataclasses import dataclass
+from threading import RLock
 from typing import (
     Any, Dict, FrozenSet, Generator, Iterator, MutableMapping, MutableSet,
     Optional, Set, Tuple, Type, Union,
@@ -48,6 +49,7 @@ class AbstractStatistic:
 
 
 CLASS_STORE: Set[Type[AbstractStatistic]] = set()
+REGISTRY_LOCK = RLock()
 
 
 class MetaStatistic(type):
@@ -90,7 +92,8 @@ class MetaStatistic(type):
 
         if klass.__metrics__:
             klass.__instances__ = WeakSet()
-            CLASS_STORE.add(klass)
+            with REGISTRY_LOCK:
+                CLASS_STORE.add(klass)
 
         return klass
 
@@ -98,6 +101,12 @@ class MetaStatistic(type):
 class Statistic(AbstractStatistic, metaclass=MetaStatistic):
     __slots__ = ("_counter", "name")
 
+    def __setattr__(self, name: str, value: Any) -> None:
+        if name in self.__metrics__ and not isinstance(value, Metric):
+            self._counter[name] = value
+            return
+        super().__setattr__(name, value)
+
     def __init__(self, name: Optional[str] = None) -> None:
         self._counter = Counter()   # type: ignore
         self.name = name
@@ -105,7 +114,8 @@ class Statistic(AbstractStatistic, metaclass=MetaStatistic):
         for prop in self.__metrics__:
             setattr(self, prop, Metric(prop, self._counter))
 
-        self.__instances__.add(self)
+        with REGISTRY_LOCK:
+            self.__instances__.add(self)
 
 
 @dataclass(frozen=True)
@@ -126,11 +136,19 @@ class StatisticResult:
 def get_statistics(
     *kind: Type[Statistic],
 ) -> Generator[Any, Tuple[Statistic, str, int], None]:
-    for klass in CLASS_STORE:
+    # Instances might be created by the consumer or by another thread
+    # between the iterations
+    with REGISTRY_LOCK:
+        classes = list(CLASS_STORE)
+
+    for klass in classes:
         if kind and not issubclass(klass, kind):
             continue
 
-        for instance in klass.__instances__:
+        with REGISTRY_LOCK:
+            instances = list(klass.__instances__)
+
+        for instance in instances:
             for metric, value in instance._counter.items():
                 yield StatisticResult(
                     kind=klass,
-- 
2.43.0


From 149cfdf7624c550b3d0589767d8a251c688efcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:04 +0000
Subject: [PATCH 42/57] fix: MemoryTracer.stop() stops its reports

---
 aiomisc/service/tracer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aiomisc/service/tracer.py b/aiomisc/service/tracer.py
index 5260ebe..66c103f 100644
--- a/aiomisc/service/tracer.py
+++ b/aiomisc/service/tracer.py
@@ -98,4 +98,7 @@ class MemoryTracer(Service):
         return self.log_diff(differences)
 
     async def stop(self, exception: Optional[Exception] = None) -> None:
-        tracemalloc.stop()
+        try:
+            await self._tracer.stop(return_exceptions=True)
+        finally:
+            tracemalloc.stop()
-- 
2.43.0


From 216c398be5082a09a9177e32c27ba3333d38793d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:07 +0000
Subject: [PATCH 43/57] fix: TLS clients verify the server unless verify is
 False

---
 aiomisc/service/tls.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aiomisc/service/tls.py b/aiomisc/service/tls.py
index f476352..f05c35e 100644
--- a/aiomisc/service/tls.py
+++ b/aiomisc/service/tls.py
@@ -93,8 +93,9 @@ class SSLOptions(SSLOptionsBase):
             context.verify_mode = ssl.VerifyMode.CERT_REQUIRED
             # Post-handshake authentication is required
             context.post_handshake_auth = True
-        else:
-            # Disable server-side cert verification
+        elif self.purpose is not ssl.Purpose.SERVER_AUTH or not self.verify:
+            # A client verifies the server unless it was told not to,
+            # disable server-side cert verification
             context.check_hostname = False
             context.verify_mode = ssl.VerifyMode.CERT_NONE
 
-- 
2.43.0


From c2353f1699498b96cdbde9525c532d0717fac75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:07 +0000
Subject: [PATCH 44/57] fix: require_client_cert is enforced for TLS 1.3
 connections

---
 aiomisc/service/tls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiomisc/service/tls.py b/aiomisc/service/tls.py
index f05c35e..af2c0a2 100644
--- a/aiomisc/service/tls.py
+++ b/aiomisc/service/tls.py
@@ -90,9 +90,9 @@ class SSLOptions(SSLOptionsBase):
 
         if self.require_client_cert:
             log.debug("Set server-side cert verification")
+            # The certificate must be requested during the handshake,
+            # post-handshake authentication would never ask for it
             context.verify_mode = ssl.VerifyMode.CERT_REQUIRED
-            # Post-handshake authentication is required
-            context.post_handshake_auth = True
         elif self.purpose is not ssl.Purpose.SERVER_AUTH or not self.verify:
             # A client verifies the server unless it was told not to,
             # disable server-side cert verification
-- 
2.43.0


From bcae87306036b137a5f872e7e2c2772852d6875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:09 +0000
Subject: [PATCH 45/57] fix: stop of TLSServer does not wait for clients which
 never complete the handshake

---
 aiomisc/service/tls.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/aiomisc/service/tls.py b/aiomisc/service/tls.py
index af2c0a2..b2e2f17 100644
--- a/aiomisc/service/tls.py
+++ b/aiomisc/service/tls.py
@@ -197,12 +197,16 @@ class TLSServer(SimpleServer):
     async def stop(self, exc: Optional[Exception] = None) -> None:
         await super().stop(exc)
 
-        # The server is not closed until all its connections are closed
-        for writer in tuple(self.__writers):
+        writers = tuple(self.__writers)
+        for writer in writers:
             writer.close()
 
-        if self.server:
-            await self.server.wait_closed()
+        # Do not wait for the server itself, it is not closed until clients
+        # which never complete the handshake are gone
+        await asyncio.gather(
+            *[writer.wait_closed() for writer in writers],
+            return_exceptions=True,
+        )
 
     @property
     def __sockname(self) -> Optional[tuple]:
-- 
2.43.0


From f02949cdca28998f80e425a7b8065dd84fad14df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:41 +0000
Subject: [PATCH 46/57] fix: the root DNS zone answers for the names of no
 other zone

---
 aiomisc/service/dns/store.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiomisc/service/dns/store.py b/aiomisc/service/dns/store.py
index 67849f5..5e6c688 100644
--- a/aiomisc/service/dns/store.py
+++ b/aiomisc/service/dns/store.py
@@ -46,7 +46,9 @@ class DNSStore:
 
     @staticmethod
     def get_reverse_tuple(zone_name: str) -> Tuple[str, ...]:
-        return tuple(zone_name.strip(".").split("."))[::-1]
+        zone_name = zone_name.strip(".")
+        # The root zone is a parent of all the others
+        return tuple(zone_name.split("."))[::-1] if zone_name else ()
 
     def replace(
         self, zones_data: Mapping[str, Iterable[DNSRecord]],
-- 
2.43.0


From a4f85651eff7cb3f663fc7da97aefdd9c8bb4800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:18 +0000
Subject: [PATCH 47/57] fix: NAPTR, RRSIG, NSEC, HTTPS and LOC records can be
 added to a zone and served

---
 aiomisc/service/dns/records.py | 64 +++++++++++++++++++++++++++++++---
 1 file changed, 59 insertions(+), 5 deletions(-)

diff --git a/aiomisc/service/dns/records.py b/aiomisc/service/dns/records.py
index cab1800..18a29d8 100644
--- a/aiomisc/service/dns/records.py
+++ b/aiomisc/service/dns/records.py
@@ -1,7 +1,7 @@
 import enum
 from abc import ABC, abstractmethod
 from dataclasses import dataclass, field
-from typing import Any, Hashable, Iterable, List
+from typing import Any, Hashable, Iterable, List, Union
 
 import dnslib  # type: ignore[import-untyped]
 
@@ -82,6 +82,27 @@ class RD(dnslib.RD, Hashable, ABC):
         raise NotImplementedError
 
 
+class RDWire(RD):
+    """
+    Record data whose attributes are kept as they were passed to create(),
+    dnslib is able to dump only the object returned by wire().
+    """
+
+    @abstractmethod
+    def wire(self) -> dnslib.RD:
+        raise NotImplementedError
+
+    def pack(self, buffer: dnslib.DNSBuffer) -> None:
+        self.wire().pack(buffer)
+
+    def __repr__(self) -> str:
+        return repr(self.wire())
+
+
+def to_bytes(value: Union[str, bytes]) -> bytes:
+    return value.encode() if isinstance(value, str) else value
+
+
 @dataclass(frozen=True)
 class DNSRecord:
     name: str
@@ -225,7 +246,13 @@ class CAA(dnslib.CAA, RD):
         )
 
 
-class NAPTR(dnslib.NAPTR, RD):
+class NAPTR(RDWire, dnslib.NAPTR):
+    def wire(self) -> dnslib.RD:
+        return dnslib.NAPTR(
+            self.order, self.preference, to_bytes(self.flags),
+            to_bytes(self.service), to_bytes(self.regexp), self.replacement,
+        )
+
     @classmethod
     def create(
         cls, name: str, order: int, preference: int, flags: str,
@@ -267,7 +294,14 @@ class DNSKEY(dnslib.DNSKEY, RD):
         )
 
 
-class RRSIG(dnslib.RRSIG, RD):
+class RRSIG(RDWire, dnslib.RRSIG):
+    def wire(self) -> dnslib.RD:
+        return dnslib.RRSIG(
+            self.covered, self.algorithm, self.labels, self.orig_ttl,
+            self.sig_exp, self.sig_inc, self.key_tag, self.name,
+            to_bytes(self.sig),
+        )
+
     @classmethod
     def create(
         cls, name: str, type_covered: int, algorithm: int, labels: int,
@@ -285,7 +319,15 @@ class RRSIG(dnslib.RRSIG, RD):
         )
 
 
-class NSEC(dnslib.NSEC, RD):
+class NSEC(RDWire, dnslib.NSEC):
+    def wire(self) -> dnslib.RD:
+        return dnslib.NSEC(
+            self.label, [
+                rrtype if isinstance(rrtype, str) else dnslib.QTYPE[rrtype]
+                for rrtype in self.rrlist
+            ],
+        )
+
     @classmethod
     def create(
         cls, name: str, next_domain: str,
@@ -299,7 +341,17 @@ class NSEC(dnslib.NSEC, RD):
         )
 
 
-class HTTPS(dnslib.HTTPS, RD):
+class HTTPS(RDWire, dnslib.HTTPS):
+    def wire(self) -> dnslib.RD:
+        target, params = self.target, []
+        if isinstance(target, str):
+            target = dnslib.HTTPS.fromZone([self.priority, target]).target
+        for param in self.params:
+            if isinstance(param, str):
+                param, = dnslib.HTTPS.fromZone([0, ".", param]).params
+            params.append(param)
+        return dnslib.HTTPS(self.priority, target, params)
+
     @classmethod
     def create(
         cls, name: str, priority: int, target: str,
@@ -314,6 +366,8 @@ class HTTPS(dnslib.HTTPS, RD):
 
 
 class LOC(dnslib.LOC, RD):
+    attrs = ("lat", "lon", "alt", "siz", "hp", "vp")
+
     @classmethod
     def create(
         cls, name: str, latitude: float, longitude: float,
-- 
2.43.0


From abdf0de7b7e11abb6443c9846cae0165241eb850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:48 +0000
Subject: [PATCH 48/57] fix: a threaded generator failing with a BaseException
 must not look finished

---
 aiomisc/iterator_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index bf1685f..72ca6b4 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -228,7 +228,7 @@ class IteratorWrapper(AsyncIterator, EventLoopMixin):
                     self._statistic.enqueued += 1
             except StopIteration:
                 return
-            except Exception as e:
+            except BaseException as e:
                 if self.closed:
                     return
                 self.__channel.put((e, True))
-- 
2.43.0


From 53069faaa37e9e2467d24ea92b32c9baef62b36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:49 +0000
Subject: [PATCH 49/57] fix: a cancelled destruction of an instance must not
 end the recycling of the pool

---
 aiomisc/pool.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aiomisc/pool.py b/aiomisc/pool.py
index 56f4415..fef4992 100644
--- a/aiomisc/pool.py
+++ b/aiomisc/pool.py
@@ -102,7 +102,14 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
             instance = await self._recycle_bin.get()
 
             try:
-                await self._destroy_instance(instance)
+                result, = await asyncio.gather(
+                    self._destroy_instance(instance), return_exceptions=True,
+                )
+                if isinstance(result, BaseException):
+                    log.error(
+                        "Error when recycle instance %r",
+                        instance, exc_info=result,
+                    )
             except Exception:
                 log.exception("Error when recycle instance %r", instance)
             finally:
-- 
2.43.0


From 3cb24dfe850c5d609c2777933fe4135306b2d7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:42 +0000
Subject: [PATCH 50/57] fix: a failing stop() of a service must not leave tasks
 and an open loop behind

---
 aiomisc/entrypoint.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index 94135b7..99dbd70 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -275,9 +275,11 @@ class Entrypoint:
         self._exit_task = loop.create_task(
             self.__aexit__(exc_type, exc_val, exc_tb),
         )
-        loop.run_until_complete(self._exit_task)
-        if self._loop_owner and self._loop is not None:
-            loop.close()
+        try:
+            loop.run_until_complete(self._exit_task)
+        finally:
+            if self._loop_owner and self._exit_task.done():
+                loop.close()
 
     async def __aenter__(self) -> "Entrypoint":
         if self._loop is None:
@@ -420,13 +422,22 @@ class Entrypoint:
             self._closing.set()
 
         await cancel_tasks(set(self._tasks))
-        await self.stop_services(*self._services, exc=exception)
+        stop_error: Optional[Exception] = None
+
+        try:
+            await self.stop_services(*self._services, exc=exception)
+        except Exception as e:
+            # Should not prevent the rest from being cleaned up
+            stop_error = e
 
         if self._loop_owner:
             await self._cancel_background_tasks()
 
         await self.loop.shutdown_asyncgens()
 
+        if stop_error is not None:
+            raise stop_error
+
     def _on_interrupt_callback(self, _: Any) -> None:
         loop = self.loop
         self.loop.call_soon_threadsafe(self._on_interrupt, loop)
-- 
2.43.0


From d3557030c6ccd222978090e07a7f9947e1eac286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:07 +0000
Subject: [PATCH 51/57] fix: a failing callback of a raven transport must not
 be called twice or end the worker

---
 aiomisc/service/raven.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/aiomisc/service/raven.py b/aiomisc/service/raven.py
index 4d7a1cd..89c8417 100644
--- a/aiomisc/service/raven.py
+++ b/aiomisc/service/raven.py
@@ -129,17 +129,17 @@ class AioHttpTransportBase(
                         retry_after = int(resp.headers.get("retry-after", "0"))
                     except (ValueError, TypeError):
                         retry_after = 0
-                    errorback(RateLimited(msg, retry_after))
+                    self._report(errorback, RateLimited(msg, retry_after))
                 else:
-                    errorback(APIError(msg, code))
+                    self._report(errorback, APIError(msg, code))
             else:
-                callback()
+                self._report(callback)
         except asyncio.CancelledError:
-            errorback(self._closed_error())
+            self._report(errorback, self._closed_error())
             # do not mute asyncio.CancelledError
             raise
         except Exception as exc:
-            errorback(exc)
+            self._report(errorback, exc)
         finally:
             if resp is not None:
                 resp.release()
@@ -169,6 +169,16 @@ class AioHttpTransportBase(
             self._accept, url, data, headers, success_cb, failure_cb,
         )
 
+    def _report(self, callback: Callable[..., Any], *args: Any) -> None:
+        # A failing callback must not affect the other events
+        try:
+            callback(*args)
+        except Exception as exc:
+            self._loop.call_exception_handler({
+                "message": f"Error in the callback {callback!r}",
+                "exception": exc,
+            })
+
     def _closed_error(self) -> Exception:
         return RuntimeError(f"{self.__class__.__name__} is closed")
 
@@ -283,7 +293,8 @@ class QueuedAioHttpTransport(AioHttpTransportBase):
 
             *_, errorback = skipped
 
-            errorback(
+            self._report(
+                errorback,
                 RuntimeError("QueuedAioHttpTransport internal queue is full"),
             )
 
@@ -298,7 +309,8 @@ class QueuedAioHttpTransport(AioHttpTransportBase):
 
             *_, failure_cb = skipped
 
-            failure_cb(
+            self._report(
+                failure_cb,
                 RuntimeError("QueuedAioHttpTransport internal queue was full"),
             )
 
@@ -319,7 +331,7 @@ class QueuedAioHttpTransport(AioHttpTransportBase):
                     continue
 
                 *_, failure_cb = data
-                failure_cb(self._closed_error())
+                self._report(failure_cb, self._closed_error())
 
 
 class QueuedKeepaliveAioHttpTransport(QueuedAioHttpTransport):
-- 
2.43.0


From 49a6736f98d5e1094cd76b7ec791b81da22babf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:21 +0000
Subject: [PATCH 52/57] fix: run partials and callable objects in new threads

---
 aiomisc/thread_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index b5b61cf..bf9c29d 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -388,7 +388,7 @@ def run_in_new_thread(
             future=future,
             statistic=statistic,
         ),
-        name=func.__name__,
+        name=getattr(func, "__name__", type(func).__name__),
         kwargs=dict(no_return=no_return),
         daemon=detach,
     )
-- 
2.43.0


From 5a257efdb8bcbf32ea9e196056cbf89dd3d346e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:58 +0000
Subject: [PATCH 53/57] fix: aggregated callable objects need no __name__

---
 aiomisc/aggregate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiomisc/aggregate.py b/aiomisc/aggregate.py
index 19a2372..e9f790c 100644
--- a/aiomisc/aggregate.py
+++ b/aiomisc/aggregate.py
@@ -169,7 +169,8 @@ class AggregatorAsync(EventLoopMixin, Generic[V, R]):
                 log.debug(
                     "Aggregation timeout of %s for batch started at %.4f "
                     "with %d calls after %.2f ms",
-                    self._func.__name__, first_call_at, len(futures),
+                    getattr(self._func, "__name__", self._func),
+                    first_call_at, len(futures),
                     (self.loop.time() - first_call_at) * 1000,
                 )
 
-- 
2.43.0


From 2ed91db69c4f57c4f5304f7d4a1fd51c8ad81a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:29 +0000
Subject: [PATCH 54/57] fix: only authorized workers may report a failed
 initializer and close the pool

---
 aiomisc/worker_pool.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index eb94a60..a458f51 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -157,16 +157,9 @@ class WorkerPool:
             if self.__closing:
                 proto.close()
 
-        if packet_type == PacketTypes.BAD_INITIALIZER:
-            packet_type, exc = await proto.receive()
-            if packet_type != PacketTypes.EXCEPTION:
-                await proto.send(PacketTypes.BAD_PACKET)
-            else:
-                set_exception(self.__futures, exc)
-            await self.close()
-            return
-
-        if packet_type != PacketTypes.AUTH:
+        if packet_type not in (
+            PacketTypes.AUTH, PacketTypes.BAD_INITIALIZER,
+        ):
             await proto.send(PacketTypes.BAD_PACKET)
             if writer.can_write_eof():
                 writer.write_eof()
@@ -189,6 +182,15 @@ class WorkerPool:
             log.debug("Bad digest %r expected %r", digest, expected_digest)
             return
 
+        if packet_type == PacketTypes.BAD_INITIALIZER:
+            packet_type, exc = await proto.receive()
+            if packet_type != PacketTypes.EXCEPTION:
+                await proto.send(PacketTypes.BAD_PACKET)
+            else:
+                set_exception(self.__futures, exc)
+            await self.close()
+            return
+
         await proto.send(PacketTypes.AUTH_OK)
         self._statistic.processes += 1
         self._statistic.spawning += 1
-- 
2.43.0


From ad33b658baf7469963764cccffcecabc59e8b66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:25 +0000
Subject: [PATCH 55/57] fix: a worker which exits with the zero status without
 being disconnected is replaced

---
 aiomisc_worker/__init__.py |  3 +++
 aiomisc_worker/forking.py  | 13 +++++++++----
 aiomisc_worker/worker.py   |  6 +++---
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/aiomisc_worker/__init__.py b/aiomisc_worker/__init__.py
index 745fe5e..9189083 100644
--- a/aiomisc_worker/__init__.py
+++ b/aiomisc_worker/__init__.py
@@ -16,6 +16,9 @@ SALT_SIZE = 64
 COOKIE_SIZE = 128
 HASHER = hashlib.sha256
 
+# Exit status of the worker whose connection was closed by the pool
+EXIT_DISCONNECTED = 75
+
 
 class PacketTypes(IntEnum):
     REQUEST = 0
diff --git a/aiomisc_worker/forking.py b/aiomisc_worker/forking.py
index 5999d40..3660134 100644
--- a/aiomisc_worker/forking.py
+++ b/aiomisc_worker/forking.py
@@ -9,7 +9,7 @@ from typing import Any, MutableMapping, Optional, Tuple
 
 from aiomisc_log import basic_config
 
-from . import INT_SIGNAL, AddressType, log
+from . import EXIT_DISCONNECTED, INT_SIGNAL, AddressType, log
 from .protocol import FileIOProtocol
 from .worker import bad_initializer, worker
 
@@ -57,7 +57,7 @@ def fork(worker_id: bytes, cookie: bytes, address: AddressType) -> None:
     PROCESSES = {}
     signal.signal(INT_SIGNAL, DEFAULT_SIGNAL_HANDLER)
     worker(address, cookie, worker_id)
-    raise SystemExit(0)
+    raise SystemExit(EXIT_DISCONNECTED)
 
 
 def main() -> int:
@@ -108,10 +108,15 @@ def main() -> int:
         except KeyboardInterrupt:
             return exit(0)
 
-        log_func = log.debug if status == 0 else log.warning
+        # Tasks are able to end the worker with any other status
+        disconnected = (
+            os.WIFEXITED(status)
+            and os.WEXITSTATUS(status) == EXIT_DISCONNECTED
+        )
+        log_func = log.debug if disconnected else log.warning
         log_func("Worker PID: %d exited with status %d", pid, status)
 
-        if status == 0:
+        if disconnected:
             continue
         worker_id = PROCESSES.pop(pid, None)
         if worker_id is None:
diff --git a/aiomisc_worker/worker.py b/aiomisc_worker/worker.py
index 568b4e0..a47e81d 100644
--- a/aiomisc_worker/worker.py
+++ b/aiomisc_worker/worker.py
@@ -9,7 +9,7 @@ import sys
 from types import TracebackType
 from typing import Any, Optional, Tuple, Type
 
-from . import SIGNAL, AddressType, PacketTypes
+from . import EXIT_DISCONNECTED, SIGNAL, AddressType, PacketTypes
 from .protocol import ADDRESS_FAMILY, SocketIOProtocol
 
 
@@ -48,8 +48,8 @@ def execute(protocol: SocketIOProtocol) -> None:
         )
         response = PacketTypes.CANCELLED, asyncio.CancelledError
     except SystemExit as e:
-        # Supervisor does not respawn workers exited with zero status
-        raise SystemExit(e.code or 1)
+        # Supervisor does not respawn disconnected workers
+        raise SystemExit(1 if e.code == EXIT_DISCONNECTED else e.code)
     except Exception as e:
         logging.exception("Exception when processing request")
         response = PacketTypes.EXCEPTION, e
-- 
2.43.0


From 225a8d043ec31345561be79beba775df2af56f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:21 +0000
Subject: [PATCH 56/57] fix: cancelling a job of a ProcessPoolExecutor does not
 fail its statistic callback

---
 aiomisc/process_pool.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aiomisc/process_pool.py b/aiomisc/process_pool.py
index 32b6ca4..1bd6d3a 100644
--- a/aiomisc/process_pool.py
+++ b/aiomisc/process_pool.py
@@ -84,6 +84,10 @@ class ProcessPoolExecutor(ProcessPoolExecutorBase, EventLoopMixin):
         """
         Callback for statistic
         """
+        if future.cancelled():
+            # never run
+            return
+
         if future.exception():
             self._statistic.error += 1
         else:
-- 
2.43.0


From 84a07eccc5c8633a1d17532bca34b7f152c960a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:50 +0000
Subject: [PATCH 57/57] fix: a GRPCService starts when nobody waits for its
 port any more

---
 aiomisc/service/grpc_server.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aiomisc/service/grpc_server.py b/aiomisc/service/grpc_server.py
index 72ebcf2..f30782b 100644
--- a/aiomisc/service/grpc_server.py
+++ b/aiomisc/service/grpc_server.py
@@ -82,12 +82,14 @@ class GRPCService(Service):
 
         for address, future in self._insecure_ports:
             port = self._server.add_insecure_port(address)
-            future.set_result(port)
+            if not future.cancelled():
+                future.set_result(port)
             self._log_port("Listening insecure address", address, port)
 
         for address, credentials, future in self._secure_ports:
             port = self._server.add_secure_port(address, credentials)
-            future.set_result(port)
+            if not future.cancelled():
+                future.set_result(port)
             self._log_port("Listening secure address", address, port)
 
         if self._reflection:
-- 
2.43.0

