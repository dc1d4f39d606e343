From 3be1251f55a313c9cc2e29940c75d3a8b188016d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 01/28] fix: closing a reader that has no onclose callback
 raised AttributeError

---
 stream2py/buffer_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 3da7cff..05b3a3b 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -7,7 +7,7 @@ __all__ = ['BufferReader']
 from contextlib import suppress
 import threading
 import time
-from typing import Callable, Union
+from typing import Callable, Optional, Union
 
 from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
 
@@ -80,8 +80,8 @@ class BufferReader:
     True
     """
 
-    onclose: Callable
-    onopen: Callable
+    onclose: Optional[Callable] = None
+    onopen: Optional[Callable] = None
 
     def __init__(
         self,
-- 
2.43.0


From 74f53259187de0029116490c85b12785a5e47f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 02/28] fix: closing the same reader twice counted as closing
 two readers of its source

---
 stream2py/buffer_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 05b3a3b..bf6b338 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -440,8 +440,9 @@ class BufferReader:
         return self
 
     def close(self):
-        if self.onclose:
-            self.onclose()
+        onclose, self.onclose = self.onclose, None  # a repeated close does nothing
+        if onclose:
+            onclose()
 
     def __enter__(self):
         return self.enter()
-- 
2.43.0


From 9c7fb2aef8817b7f5b364e44d643ec7b0626eb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 03/28] fix: range(only_new_items=True) re-acquired the reader
 lock and deadlocked with a waiting writer

---
 stream2py/buffer_reader.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index bf6b338..6a2bf89 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -260,12 +260,11 @@ class BufferReader:
             ignore_no_item_found = self._read_kwargs.get('ignore_no_item_found', False)
         with self._buffer.reader_lock() as reader:
             if only_new_items and self.last_key is not None:
-                _next = self.read(
-                    n=1, peek=True, ignore_no_item_found=ignore_no_item_found
-                )
+                # search with the lock already held: acquiring it again would deadlock
+                # as soon as a writer is waiting for it
                 try:
-                    _next_key = reader.key(_next)
-                except TypeError as e:  # TypeError: 'NoneType' object is not subscriptable
+                    _next_key = reader.key(reader.find_gt(self.last_key))
+                except ValueError as e:  # ValueError: No item found with key above: self.last_key
                     if ignore_no_item_found:
                         return None
                     raise e
-- 
2.43.0


From 7faa94ae40329337cc7b37a76c2da4aa0cdbfad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 04/28] fix: strict_n rejected a read of exactly the number of
 available items

---
 stream2py/buffer_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 6a2bf89..33ca562 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -405,7 +405,7 @@ class BufferReader:
             if n > 1:
                 i = reader.index(next_item)
                 j = i + n
-                if strict_n and j >= len(reader):
+                if strict_n and j > len(reader):
                     raise ValueError(
                         f'Number of items found is less than n: strict_n={strict_n}, n={n}'
                     )
-- 
2.43.0


From 3d2011ef1ff4b42531f9fde28969f52d9eceee55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 05/28] fix: read ignored the peek default given when the
 reader was made

---
 stream2py/buffer_reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index 33ca562..e3d2e16 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -360,8 +360,13 @@ class BufferReader:
         :param blocking: if True, wait to return next item if not yet available
         :return: next item or list of next items if n > 1
         """
-        n, ignore_no_item_found, strict_n = defaulted_values(
-            dict(n=n, ignore_no_item_found=ignore_no_item_found, strict_n=strict_n,),
+        n, peek, ignore_no_item_found, strict_n = defaulted_values(
+            dict(
+                n=n,
+                peek=peek,
+                ignore_no_item_found=ignore_no_item_found,
+                strict_n=strict_n,
+            ),
             defaults=self._read_kwargs,
         )
         # # Is the following alternative clearer or more efficient?
-- 
2.43.0


From 7a5282cf25403fefa8eac43e2cda6953bb40aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 06/28] fix: iteration and blocking read lost items added just
 before the stream stopped

---
 stream2py/buffer_reader.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stream2py/buffer_reader.py b/stream2py/buffer_reader.py
index e3d2e16..67d6a07 100644
--- a/stream2py/buffer_reader.py
+++ b/stream2py/buffer_reader.py
@@ -150,8 +150,6 @@ class BufferReader:
 
             if _next is not None:
                 yield _next
-            elif self.is_stopped:
-                return
             else:
                 time.sleep(self._sleep_time_on_iter_none_s)
 
@@ -165,10 +163,13 @@ class BufferReader:
         handling the streaming use case where "no data yet" is different from "exhausted".
         """
         # Call read with the args fixed by init
+        # (look at is_stopped before reading: an item may be added, and the stream stopped,
+        # between a read that found nothing and the check)
+        was_stopped = self.is_stopped
         result = self.read(**self._read_kwargs_for_next)
 
         # If no data and stream is stopped, raise StopIteration per iterator protocol
-        if result is None and self.is_stopped:
+        if result is None and was_stopped:
             raise StopIteration
 
         return result
@@ -379,6 +380,7 @@ class BufferReader:
 
         if blocking is True:
             while True:
+                was_stopped = self.is_stopped
                 _read = self.read(
                     n,
                     peek=peek,
@@ -388,7 +390,7 @@ class BufferReader:
                 )
                 if _read is not None:
                     return _read
-                elif self.is_stopped:
+                elif was_stopped:
                     return None
                 else:
                     time.sleep(self._sleep_time_on_iter_none_s)
-- 
2.43.0


From 534658f6fe98eaa391cbda5d7e54900d31a2fbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 07/28] fix: source_reader_info was None while the started
 buffer was still empty

---
 stream2py/stream_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index e25f2a4..9cc5bd7 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -223,7 +223,7 @@ class StreamBuffer:
 
         :return: dict or None
         """
-        if self.source_buffer:
+        if self.source_buffer is not None:  # (a buffer without items yet is falsy)
             return self.source_buffer.source_reader_info
         return None
 
-- 
2.43.0


From 3b183ed3873d4acb023724998596c2475638417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 08/28] fix: next() on a restarted stream kept reading the
 previous run when it had ended by itself

---
 stream2py/stream_buffer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 9cc5bd7..5456670 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -276,6 +276,7 @@ class StreamBuffer:
         if self._stop_event and not self._stop_event.is_set():
             self.stop()
         self.source_buffer = None
+        self._next_reader = None
         self._read_to_buffer_thread = threading.Thread(target=self._run, daemon=True)
         self._stop_event = threading.Event()
 
-- 
2.43.0


From 95f062b4dd018e9136b552978f104265d6abf12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 09/28] fix: an unlimited buffer with auto_drop=False died with
 a TypeError

---
 stream2py/stream_buffer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 5456670..d3e9801 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -253,7 +253,11 @@ class StreamBuffer:
         try:
             while not self._stop_event.is_set():
                 # check if buffer is full and skip read or append
-                if self.auto_drop is True or len(self.source_buffer) < self._maxlen:
+                if (
+                    self.auto_drop is True
+                    or self._maxlen is None
+                    or len(self.source_buffer) < self._maxlen
+                ):
                     data = self.source_reader.read()
                 else:
                     data = None
-- 
2.43.0


From af9fec25b074287b60bb173c3864d807db610c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 10/28] fix: a start that failed left the stream reported as
 running and its source open

---
 stream2py/stream_buffer.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index d3e9801..a3775fc 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -180,8 +180,15 @@ class StreamBuffer:
             if self._stop_event and not self._stop_event.is_set():
                 self.stop()
             self._set_read_to_buffer_thread_and_source_buffer()
-            self._open()
-            self._read_to_buffer_thread.start()
+            try:
+                self._open()
+                self._read_to_buffer_thread.start()
+            except BaseException:
+                self._stop_event.set()  # nothing is reading
+                if self.source_buffer is not None:  # the thread could not be started
+                    self.source_buffer = None
+                    self.source_reader.close()
+                raise
 
     def stop(self):
         """Stop reading and close source_reader"""
@@ -289,15 +296,19 @@ class StreamBuffer:
         Calls source_reader.open() and then sets up source_buffer with latest
         source_reader.info"""
         self.source_reader.open()
-        self.source_buffer = _SourceBuffer(
-            source_reader_info=self.source_reader.info,
-            stop_event=self._stop_event,
-            key=self.source_reader.key,
-            maxlen=self._maxlen,
-            buffer_reader_class=getattr(
-                self.source_reader, 'buffer_reader_class', BufferReader
-            ),
-        )
+        try:
+            self.source_buffer = _SourceBuffer(
+                source_reader_info=self.source_reader.info,
+                stop_event=self._stop_event,
+                key=self.source_reader.key,
+                maxlen=self._maxlen,
+                buffer_reader_class=getattr(
+                    self.source_reader, 'buffer_reader_class', BufferReader
+                ),
+            )
+        except BaseException:
+            self.source_reader.close()
+            raise
 
     # def _mk_contextualized_iterator(self):
     #     """Return next item (entering the context beforehand, if not running).
-- 
2.43.0


From c2ef2da7952d130e4e863fccc54db76c437a291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 11/28] fix: a restart during a slow read left two reading
 loops on the new run

---
 stream2py/stream_buffer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index a3775fc..6ba9b99 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -286,6 +286,11 @@ class StreamBuffer:
         Makes a new run thread, and stop event that is unique to this run session"""
         if self._stop_event and not self._stop_event.is_set():
             self.stop()
+        if self._read_to_buffer_thread is not None and (
+            self._read_to_buffer_thread.is_alive()
+        ):
+            # the previous run must be done with the source before it is opened again
+            self._read_to_buffer_thread.join()
         self.source_buffer = None
         self._next_reader = None
         self._read_to_buffer_thread = threading.Thread(target=self._run, daemon=True)
-- 
2.43.0


From 5c21ff85658ff0ad0d40caba181fdc447b33db76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 12/28] fix: setting the key of a SortedDeque removed its
 maxlen

---
 stream2py/utility/sorted_deque.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stream2py/utility/sorted_deque.py b/stream2py/utility/sorted_deque.py
index 44d7615..e454d70 100644
--- a/stream2py/utility/sorted_deque.py
+++ b/stream2py/utility/sorted_deque.py
@@ -52,6 +52,10 @@ class SortedDeque(SortedCollection):
         if key is not self._key:
             self.__init__(self._items, key=key, maxlen=self._maxlen)
 
+    key = property(
+        SortedCollection._getkey, _setkey, SortedCollection._delkey, 'key function'
+    )
+
     def clear(self):
         self.__init__([], self._key, self._maxlen)
 
-- 
2.43.0


From f0164ca8e5f856614f4ac54c4b5b4c03470d58f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 13/28] fix: iterating a StreamSource raised AttributeError
 when no data was available

---
 stream2py/stream_source.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index 53a3c88..f0c36e7 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -71,8 +71,6 @@ class StreamSource(Source, metaclass=ABCMeta):
             _next = self.read()
             if _next is not None:
                 yield _next
-            elif self.is_stopped:
-                return None
             else:
                 time.sleep(self._sleep_time_on_iter_none_s)
 
-- 
2.43.0


From 5314958542a097aa59cff818073bac0f86f20f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 14/28] fix: StreamSource.get_timestamp raised AttributeError

---
 stream2py/stream_source.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index f0c36e7..b9872b5 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -62,6 +62,9 @@ class StreamSource(Source, metaclass=ABCMeta):
     _reader_cls = BufferReader
     _sleep_time_on_iter_none_s = 0.001
     _stream_buffer: StreamBuffer = None
+    timestamp_seconds_to_unit_conversion: Union[
+        int, float
+    ] = timestamp_seconds_to_unit_conversion
 
     def __init__(self, *, reader_cls=BufferReader):
         self._reader_cls = reader_cls
-- 
2.43.0


From 83b6c2e3f21e60bcb43f81c717b3c20931bfc8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 15/28] fix: a StreamSource whose readers were all closed was
 not reopened by the next reader

---
 stream2py/stream_source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index b9872b5..cd6fc24 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -104,6 +104,7 @@ class StreamSource(Source, metaclass=ABCMeta):
     def _ensure_buffer(self):
         if not self._stream_buffer:
             self._stream_buffer = StreamBuffer(self, **self._buffer_kwargs)
+        if not self._stream_buffer.is_running:
             self._stream_buffer.start()
 
     def _handle_reader_open(self):
-- 
2.43.0


From d71bd0fc36cf0cb4ca8daaf34a7c2d12a8b7fa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 16/28] fix: mk_stream_buffer wrapped None reads into items and
 flooded the buffer with them

---
 stream2py/simply.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stream2py/simply.py b/stream2py/simply.py
index fb48535..a18b455 100644
--- a/stream2py/simply.py
+++ b/stream2py/simply.py
@@ -96,6 +96,8 @@ def mk_stream_buffer(
 
         def read(self):
             read_data = read_stream(self.open_instance)
+            if read_data is None:  # no data: not an item
+                return None
             if enumerate_data:
                 read_data = (self.read_idx, read_data)
             self.read_idx += 1
-- 
2.43.0


From f6b379b5efb8c14b49c9e77cba3ffd7d9cadcf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 17/28] fix: HTTPResponseReader ignored its method and body

---
 stream2py/sources/http.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index baecdc3..f7ecbcb 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -52,6 +52,8 @@ class HTTPResponseReader(SourceReader):
         self.data = None
         if method.upper() == 'GET':
             body = None
+        elif isinstance(body, str):
+            body = body.encode()
 
         self._url = url
         self._n_bytes_read = 0
@@ -98,10 +100,7 @@ class HTTPResponseReader(SourceReader):
         # return self._data[data[0]:data[1]]
 
     def open(self):
-        request = urllib.request.Request(
-            self._url, headers=self._init_kwargs['headers']
-        )
-        self._response = urllib.request.urlopen(request)
+        self._response = urllib.request.urlopen(self._request)
 
     def close(self):
         if self._response:
-- 
2.43.0


From 74e912001c36576cef4396764f0d31617662941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 18/28] fix: HTTPResponseReader delivered endless empty chunks
 and never counted its bytes

---
 stream2py/sources/http.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index f7ecbcb..ed167e9 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -113,6 +113,9 @@ class HTTPResponseReader(SourceReader):
         encoding = self._init_kwargs.get('encoding')
         result = self._response.read(*self.response_read_args)
         timestamp = time.time()
+        if not result:  # end of the response
+            return None
+        self._n_bytes_read += len(result)
         if encoding:
             result = result.decode(encoding)
         return timestamp, result
-- 
2.43.0


From 73755e42acdaab5f7fe066b28ed04e51f35fd2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 19/28] fix: HTTP and helper-made sources reported closed while
 open in a stream

---
 stream2py/simply.py       | 2 ++
 stream2py/sources/http.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/stream2py/simply.py b/stream2py/simply.py
index a18b455..ad4840b 100644
--- a/stream2py/simply.py
+++ b/stream2py/simply.py
@@ -93,6 +93,7 @@ def mk_stream_buffer(
             if open_stream is not None:
                 self.open_instance = open_stream()
             self.open_time = self.get_timestamp()
+            self._closed = False
 
         def read(self):
             read_data = read_stream(self.open_instance)
@@ -107,6 +108,7 @@ def mk_stream_buffer(
         def close(self):
             if close_stream is not None:
                 close_stream(self.open_instance)
+            self._closed = True
 
         @property
         def info(self):
diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index ed167e9..4a34874 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -101,11 +101,13 @@ class HTTPResponseReader(SourceReader):
 
     def open(self):
         self._response = urllib.request.urlopen(self._request)
+        self._closed = False
 
     def close(self):
         if self._response:
             self._response.__exit__()
             self._response = None
+        self._closed = True
 
     def read(self):
         """Returns a chunk of raw binary data.
-- 
2.43.0


From dc47db3390eba6c742b53181c736e85150c1f5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 20/28] fix: ContextualizeCall accepted exit functions that
 cannot take the exit arguments

---
 stream2py/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stream2py/util.py b/stream2py/util.py
index 758a7b9..600067a 100644
--- a/stream2py/util.py
+++ b/stream2py/util.py
@@ -55,7 +55,7 @@ class ExitFunctionValidation(TypeValidationError):
     @staticmethod
     def is_valid(obj):
         return callable(obj) and (
-            _callable_has_a_variadic_pos or _has_min_num_of_arguments(obj, 4)
+            _callable_has_a_variadic_pos(obj) or _has_min_num_of_arguments(obj, 4)
         )
 
 
-- 
2.43.0


From fe4b5f8e2fe50fbd396c99a1474ccc6bba309ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 21/28] fix: a ContextualizeCall of a ContextualizeCall used
 the enter and exit functions of the inner one

---
 stream2py/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stream2py/util.py b/stream2py/util.py
index 600067a..974c532 100644
--- a/stream2py/util.py
+++ b/stream2py/util.py
@@ -125,12 +125,13 @@ class ContextualizeCall:
             f'Not a valid exit function (should be a callable with at least one arg or '
             f'varadic args): {exit_func}',
         )
+        # wrapping self with attributes of func (signature, name, etc.)
+        # (before the assignment: func may itself be a ContextualizeCall, with these attributes)
+        wraps(func)(self)
         # assignment
         self.func = func
         self.enter_func = enter_func
         self.exit_func = exit_func
-        # wrapping self with attributes of func (signature, name, etc.)
-        wraps(func)(self)
 
     def __call__(self, *args, **kwargs):
         return self.func(*args, **kwargs)
-- 
2.43.0


From b5dbe3308211b76b03547348d1424de62293dcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 22/28] fix: an attached reader kept the source info of its
 previous buffer

---
 stream2py/stream_buffer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream2py/stream_buffer.py b/stream2py/stream_buffer.py
index 6ba9b99..890e7a7 100644
--- a/stream2py/stream_buffer.py
+++ b/stream2py/stream_buffer.py
@@ -74,6 +74,7 @@ class _SourceBuffer:
         )
 
     def attach_reader(self, reader):
+        reader._source_reader_info = self._source_reader_info
         reader._buffer = self._buffer
         reader._stop_event = self._stop_event
 
-- 
2.43.0


From 27acced3564a0e197b320a8fe1cbca476397bea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 23/28] fix: read_configs of all sections raised ValueError

---
 pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pack.py b/pack.py
index 9b19fe3..86079a1 100644
--- a/pack.py
+++ b/pack.py
@@ -69,7 +69,7 @@ def read_configs(
     if section is None:
         d = dict(c)
         if postproc:
-            d = {k: dict(postproc(v)) for k, v in c}
+            d = {k: dict(postproc(v)) for k, v in c.items()}
     else:
         d = dict(c[section])
         if postproc:
-- 
2.43.0


From 7469f9e84b629ad1477790708a18be9a8f260e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 24/28] fix: the HTTP demo passed an argument that read does
 not accept

---
 stream2py/sources/http.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stream2py/sources/http.py b/stream2py/sources/http.py
index 4a34874..7146652 100644
--- a/stream2py/sources/http.py
+++ b/stream2py/sources/http.py
@@ -139,11 +139,11 @@ def _test_run_HTTPResponseReader(url, **kwargs):
         pprint(source.info)
         i = 0
         while i < 600:
-            data = source.read(10)
+            data = source.read()
             if not data:
                 break
             i += 1
-            output += data
+            output += data[1]
 
     finally:
         source.close()
-- 
2.43.0


From 83017376960e16eec3ded239f58a81429775afc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 25/28] fix: building or copying a sorted collection compared
 (and reordered) items with equal keys

---
 stream2py/utility/sorted_collection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stream2py/utility/sorted_collection.py b/stream2py/utility/sorted_collection.py
index 4dd2757..91d1ed4 100644
--- a/stream2py/utility/sorted_collection.py
+++ b/stream2py/utility/sorted_collection.py
@@ -79,7 +79,10 @@ class SortedCollection(object):
     def __init__(self, iterable=(), key=None):
         self._given_key = key
         key = (lambda x: x) if key is None else key
-        decorated = sorted((key(item), item) for item in iterable)
+        # (only the keys are compared: equal keys keep the items' given order)
+        decorated = sorted(
+            ((key(item), item) for item in iterable), key=lambda pair: pair[0]
+        )
         self._keys = [k for k, item in decorated]
         self._items = [item for k, item in decorated]
         self._key = key
-- 
2.43.0


From fd3caa52321ebece664fb308bd558c7b7bea4877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:46 +0000
Subject: [PATCH 26/28] fix: ContextualizeCall accepted enter and exit
 functions whose parameters cannot take the arguments positionally

---
 stream2py/util.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/stream2py/util.py b/stream2py/util.py
index 974c532..93b8352 100644
--- a/stream2py/util.py
+++ b/stream2py/util.py
@@ -29,8 +29,13 @@ def null_exit_func(obj, *exception_info):
     return None
 
 
-def _has_min_num_of_arguments(func, mininum_n_args):
-    return len(signature(func).parameters) >= mininum_n_args
+def _can_take_n_arguments(func, n_args):
+    """True if and only if the function can be called with n_args positional arguments"""
+    try:
+        signature(func).bind(*(None,) * n_args)
+    except TypeError:
+        return False
+    return True
 
 
 def _callable_has_a_variadic_pos(func):
@@ -46,7 +51,7 @@ class EnterFunctionValidation(TypeValidationError):
 
     @staticmethod
     def is_valid(obj):
-        return callable(obj) and _has_min_num_of_arguments(obj, 1)
+        return callable(obj) and _can_take_n_arguments(obj, 1)
 
 
 class ExitFunctionValidation(TypeValidationError):
@@ -55,7 +60,7 @@ class ExitFunctionValidation(TypeValidationError):
     @staticmethod
     def is_valid(obj):
         return callable(obj) and (
-            _callable_has_a_variadic_pos(obj) or _has_min_num_of_arguments(obj, 4)
+            _callable_has_a_variadic_pos(obj) or _can_take_n_arguments(obj, 4)
         )
 
 
-- 
2.43.0


From c112034f9aa2aed3dbade58f8aa91c068d5b106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:38 +0000
Subject: [PATCH 27/28] fix: the reader_cls option of StreamSource had no
 effect

---
 stream2py/stream_source.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stream2py/stream_source.py b/stream2py/stream_source.py
index cd6fc24..344cb84 100644
--- a/stream2py/stream_source.py
+++ b/stream2py/stream_source.py
@@ -69,6 +69,11 @@ class StreamSource(Source, metaclass=ABCMeta):
     def __init__(self, *, reader_cls=BufferReader):
         self._reader_cls = reader_cls
 
+    @property
+    def buffer_reader_class(self):
+        """The class of the readers made by open_reader()"""
+        return self._reader_cls
+
     def __iter__(self):
         while True:
             _next = self.read()
-- 
2.43.0


From 62835cd9ee7d8c11ae5fe33c46edba5a1da09e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:26 +0000
Subject: [PATCH 28/28] fix: a collection made without a key could not be
 pickled after copy, clear or re-keying

---
 stream2py/utility/sorted_collection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stream2py/utility/sorted_collection.py b/stream2py/utility/sorted_collection.py
index 91d1ed4..02cfc12 100644
--- a/stream2py/utility/sorted_collection.py
+++ b/stream2py/utility/sorted_collection.py
@@ -7,6 +7,11 @@
 from bisect import bisect_left, bisect_right
 
 
+def _identity(x):
+    """The key function of collections made without one (at module level: can be pickled)"""
+    return x
+
+
 class SortedCollection(object):
     """Sequence sorted by a key function.
 
@@ -78,7 +83,7 @@ class SortedCollection(object):
 
     def __init__(self, iterable=(), key=None):
         self._given_key = key
-        key = (lambda x: x) if key is None else key
+        key = _identity if key is None else key
         # (only the keys are compared: equal keys keep the items' given order)
         decorated = sorted(
             ((key(item), item) for item in iterable), key=lambda pair: pair[0]
-- 
2.43.0

