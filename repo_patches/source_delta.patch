From 16a43fd76886119d0f6df4ec438e915fcff7aff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:52 +0000
Subject: [PATCH 01/25] fix: compare synced lists with plain lists using the
 requested operator

SyncedList.__lt__ evaluated self() > other when the other operand was not a
synced list.
---
 synced_collections/data_types/synced_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index e45eba8..8a365b1 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -246,7 +246,7 @@ class SyncedList(SyncedCollection, MutableSequence):
         if isinstance(other, type(self)):
             return self() < other()
         else:
-            return self() > other
+            return self() < other
 
     def __le__(self, other):
         if isinstance(other, type(self)):
-- 
2.43.0


From e19bea5144350fed3436680175e8ba157c0b3fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:53 +0000
Subject: [PATCH 02/25] fix: make SyncedDict.update accept the same arguments
 as dict.update

Keyword arguments named 'other' or 'self' are keys like any other, and None is
not a valid mapping.
---
 synced_collections/data_types/synced_dict.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index 484c951..9a60f98 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -231,13 +231,10 @@ class SyncedDict(SyncedCollection, MutableMapping):
         with self._thread_lock:
             self._save()
 
-    def update(self, other=None, **kwargs):  # noqa: D102
-        if other is not None:
-            # Convert sequence of key, value pairs to dict before validation
-            if _mapping_resolver.get_type(other) != "MAPPING":
-                other = dict(other)
-        else:
-            other = {}
+    def update(self, other=(), /, **kwargs):  # noqa: D102
+        # Convert sequence of key, value pairs to dict before validation
+        if _mapping_resolver.get_type(other) != "MAPPING":
+            other = dict(other)
 
         with self._load_and_save:
             # The order here is important to ensure that the promised sequence of
-- 
2.43.0


From ee9e4654caaf1ccc438fb7fc5b93c6cfcde5bd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:53 +0000
Subject: [PATCH 03/25] fix: merge null values and type changes into nested
 collections

A nested collection ignored a new value of None, and a value whose type changed
but which still compared equal (1, 1.0 and True) was not replaced. Lists are now
also shortened in place, so that everything referring to the list sees it.
---
 synced_collections/data_types/synced_dict.py | 11 +++++++----
 synced_collections/data_types/synced_list.py | 13 ++++++++-----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index 9a60f98..15b24b5 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -141,14 +141,17 @@ class SyncedDict(SyncedCollection, MutableMapping):
                             self._validate({key: new_value})
                         self._data[key] = self._from_base(new_value, parent=self)
                     else:
-                        if new_value == existing:
+                        if new_value is existing:
                             continue
                         if _sc_resolver.get_type(existing) == "SYNCEDCOLLECTION":
-                            try:
+                            if existing.is_base_type(new_value):
                                 existing._update(new_value)
                                 continue
-                            except ValueError:
-                                pass
+                        # Values of different types may compare equal, e.g. 1 and True.
+                        elif type(new_value) is type(existing) and (
+                            new_value == existing
+                        ):
+                            continue
 
                         # Fall through if the new value is not identical to the
                         # existing value and
diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index 8a365b1..a249ef1 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -143,20 +143,23 @@ class SyncedList(SyncedCollection, MutableSequence):
                 # inserting at the beginning will require reconverting all
                 # elements of the data.
                 for i in range(min(len(self), len(data))):
-                    if data[i] == self._data[i]:
+                    if data[i] is self._data[i]:
                         continue
                     if _sc_resolver.get_type(self._data[i]) == "SYNCEDCOLLECTION":
-                        try:
+                        if self._data[i].is_base_type(data[i]):
                             self._data[i]._update(data[i])
                             continue
-                        except ValueError:
-                            pass
+                    # Values of different types may compare equal, e.g. 1 and True.
+                    elif type(data[i]) is type(self._data[i]) and (
+                        data[i] == self._data[i]
+                    ):
+                        continue
                     if not _validate:
                         self._validate(data[i])
                     self._data[i] = self._from_base(data[i], parent=self)
 
                 if len(self._data) > len(data):
-                    self._data = self._data[: len(data)]
+                    del self._data[len(data) :]
                 else:
                     new_data = data[len(self) :]
                     if not _validate:
-- 
2.43.0


From 03ce89e65020f581d33d8b67687d2449fbe26c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:56 +0000
Subject: [PATCH 04/25] fix: release the locks of an operation whose load fails

Loading the resource before an operation may raise. The locks acquired for the
operation were then never released and every later operation on the resource
from another thread blocked forever. Operations that raise also no longer write
to the resource.
---
 .../buffers/file_buffered_collection.py       | 12 +++++-----
 .../data_types/synced_collection.py           | 22 +++++++++++++++----
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index 415c5da..3af6d30 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -61,15 +61,13 @@ class _BufferedLoadAndSave(_LoadAndSave):
     acquire the buffer lock in addition to the default behavior.
     """
 
-    def __enter__(self):
+    def _acquire(self):
         self._collection._buffer_lock.__enter__()
-        super().__enter__()
+        super()._acquire()
 
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        try:
-            super().__exit__(exc_type, exc_val, exc_tb)
-        finally:
-            self._collection._buffer_lock.__exit__(exc_type, exc_val, exc_tb)
+    def _release(self):
+        super()._release()
+        self._collection._buffer_lock.__exit__(None, None, None)
 
 
 class FileBufferedCollection(BufferedCollection):
diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index 5e074ad..d117896 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -39,15 +39,29 @@ class _LoadAndSave:
     def __init__(self, collection):
         self._collection = collection
 
-    def __enter__(self):
+    def _acquire(self):
+        """Acquire all locks required to operate on the collection."""
         self._collection._thread_lock.__enter__()
-        self._collection._load()
+
+    def _release(self):
+        """Release all locks acquired by :meth:`_acquire`."""
+        self._collection._thread_lock.__exit__(None, None, None)
+
+    def __enter__(self):
+        self._acquire()
+        try:
+            self._collection._load()
+        except BaseException:
+            self._release()
+            raise
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
-            self._collection._save()
+            # An operation that failed has nothing to save.
+            if exc_type is None:
+                self._collection._save()
         finally:
-            self._collection._thread_lock.__exit__(exc_type, exc_val, exc_tb)
+            self._release()
 
 
 class SyncedCollection(Collection):
-- 
2.43.0


From 5976406e35ce6563cdd5ba8498960f2cdadac215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:29 +0000
Subject: [PATCH 05/25] fix: apply clear and reset to the current content under
 the locks

Both methods changed the data in memory before acquiring any lock and without
loading it. On a nested collection they overwrote everything that had changed in
the resource since the last load, on a buffered collection they replaced data
shared with other instances, and their lock order could deadlock with other
buffered operations.
---
 .../buffers/file_buffered_collection.py       |  7 ++++++
 .../data_types/synced_collection.py           | 22 +++++++++++++++++++
 synced_collections/data_types/synced_dict.py  | 10 ++++-----
 synced_collections/data_types/synced_list.py  | 10 ++++-----
 4 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index 3af6d30..a5be1a2 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -260,6 +260,13 @@ class FileBufferedCollection(BufferedCollection):
         # This storage can be safely updated every time on every thread.
         type(self)._buffered_collections[id(self)] = self
 
+    def _overwrite(self):
+        # In buffered mode the data on disk must be known even if it's replaced so
+        # that changes relative to it can be detected when flushing.
+        if self._root is None and self._is_buffered:
+            return self._load_and_save
+        return super()._overwrite()
+
     @abstractmethod
     def _initialize_data_in_buffer(self):
         """Create the initial entry for the data in the cache.
diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index d117896..73ca9fc 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -5,6 +5,7 @@
 from abc import abstractmethod
 from collections import defaultdict
 from collections.abc import Collection
+from contextlib import contextmanager
 from inspect import isabstract
 from threading import RLock
 from typing import Any, DefaultDict, List
@@ -63,6 +64,16 @@ class _LoadAndSave:
         finally:
             self._release()
 
+    @contextmanager
+    def save_only(self):
+        """Lock and save the collection without loading it first."""
+        self._acquire()
+        try:
+            yield
+            self._collection._save()
+        finally:
+            self._release()
+
 
 class SyncedCollection(Collection):
     """An abstract :class:`~collections.abc.Collection` type that is synced with a backend.
@@ -482,6 +493,17 @@ class SyncedCollection(Collection):
         for validator in self._all_validators:
             validator(data)
 
+    def _overwrite(self):
+        """Get the context for operations that replace all data of this collection.
+
+        Replacing all data of a root collection does not depend on the data in
+        the resource. A nested collection contains only a part of that data, so
+        the rest of it must be up-to-date.
+        """
+        if self._root is None:
+            return self._load_and_save.save_only()
+        return self._load_and_save
+
     # The following methods share a common implementation for
     # all data structures and regardless of backend.
 
diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index 15b24b5..88fdfae 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -193,9 +193,8 @@ class SyncedDict(SyncedCollection, MutableMapping):
 
         """
         if _mapping_resolver.get_type(data) == "MAPPING":
-            self._update(data)
-            with self._thread_lock:
-                self._save()
+            with self._overwrite():
+                self._update(data)
         else:
             raise ValueError(
                 "Unsupported type: {}. The data must be a mapping or None.".format(
@@ -230,9 +229,8 @@ class SyncedDict(SyncedCollection, MutableMapping):
         return ret
 
     def clear(self):  # noqa: D102
-        self._data = {}
-        with self._thread_lock:
-            self._save()
+        with self._overwrite():
+            self._data.clear()
 
     def update(self, other=(), /, **kwargs):  # noqa: D102
         # Convert sequence of key, value pairs to dict before validation
diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index a249ef1..6bc4333 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -188,9 +188,8 @@ class SyncedList(SyncedCollection, MutableSequence):
         """
         data = _convert_numpy(data)
         if _sequence_resolver.get_type(data) == "SEQUENCE":
-            self._update(data)
-            with self._thread_lock:
-                self._save()
+            with self._overwrite():
+                self._update(data)
         else:
             raise ValueError(
                 "Unsupported type: {}. The data must be a non-string sequence or None.".format(
@@ -241,9 +240,8 @@ class SyncedList(SyncedCollection, MutableSequence):
             self._data.remove(self._from_base(data=value, parent=self))
 
     def clear(self):  # noqa: D102
-        self._data = []
-        with self._thread_lock:
-            self._save()
+        with self._overwrite():
+            self._data.clear()
 
     def __lt__(self, other):
         if isinstance(other, type(self)):
-- 
2.43.0


From a61eb838c58f124dbc457e705ab09257a2f50d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:19 +0000
Subject: [PATCH 06/25] fix: release the buffer lock if the collection's lock
 cannot be acquired

Acquiring the second lock raises for instance at the recursion limit.
---
 .../buffers/file_buffered_collection.py              | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index a5be1a2..221e169 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -63,11 +63,17 @@ class _BufferedLoadAndSave(_LoadAndSave):
 
     def _acquire(self):
         self._collection._buffer_lock.__enter__()
-        super()._acquire()
+        try:
+            super()._acquire()
+        except BaseException:
+            self._collection._buffer_lock.__exit__(None, None, None)
+            raise
 
     def _release(self):
-        super()._release()
-        self._collection._buffer_lock.__exit__(None, None, None)
+        try:
+            super()._release()
+        finally:
+            self._collection._buffer_lock.__exit__(None, None, None)
 
 
 class FileBufferedCollection(BufferedCollection):
-- 
2.43.0


From 92b6cd414b74cd4918bff6b1e0cafeb41e63a4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:28 +0000
Subject: [PATCH 07/25] fix: serialize reads with all other operations on a
 collection

A read reloads the data in memory that all threads using the object share.
Without the locks it could interleave with a write and undo it, or return a
mixture of old and new data. Iteration and list searches now also see the state
of one moment instead of whatever other threads do in between.
---
 .../data_types/synced_collection.py           | 42 ++++++++++++-------
 synced_collections/data_types/synced_dict.py  | 16 +++----
 synced_collections/data_types/synced_list.py  | 22 +++++++++-
 3 files changed, 55 insertions(+), 25 deletions(-)

diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index 73ca9fc..ad48ec1 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -74,6 +74,20 @@ class _LoadAndSave:
         finally:
             self._release()
 
+    @contextmanager
+    def load_only(self):
+        """Load the collection and keep it locked for a read operation.
+
+        Loading modifies the in-memory data, which is shared by all threads using
+        the collection, so reads must be serialized with all other operations.
+        """
+        self._acquire()
+        try:
+            self._collection._load()
+            yield
+        finally:
+            self._release()
+
 
 class SyncedCollection(Collection):
     """An abstract :class:`~collections.abc.Collection` type that is synced with a backend.
@@ -164,8 +178,8 @@ class SyncedCollection(Collection):
     Whether or not :class:`SyncedCollection` objects are thread-safe depends on the
     implementation of the backend. Thread-safety of SyncedCollection objects
     is predicated on backends providing an atomic write operation. All concrete
-    collection types use mutexes to guard against concurrent write operations,
-    while allowing read operations to happen freely. The validity of this mode
+    collection types use mutexes to guard all operations, including reads since
+    these update the data in memory. The validity of this mode
     of access depends on the write operations of a SyncedCollection being
     atomic, specifically the `:meth:`~._save_to_resource` method. Whether or not
     a particular subclass of :class:`SyncedCollection` is thread-safe should be
@@ -508,20 +522,21 @@ class SyncedCollection(Collection):
     # all data structures and regardless of backend.
 
     def __getitem__(self, key):
-        self._load()
-        return self._data[key]
+        with self._load_and_save.load_only():
+            return self._data[key]
 
     def __delitem__(self, key):
         with self._load_and_save:
             del self._data[key]
 
     def __iter__(self):
-        self._load()
-        return iter(self._data)
+        # Iterate over a copy since any other operation may modify the data.
+        with self._load_and_save.load_only():
+            return iter(list(self._data))
 
     def __len__(self):
-        self._load()
-        return len(self._data)
+        with self._load_and_save.load_only():
+            return len(self._data)
 
     def __call__(self):
         """Get an equivalent but unsynced object of the base data type.
@@ -532,20 +547,17 @@ class SyncedCollection(Collection):
             An equivalent unsynced collection satisfying :meth:`is_base_type`.
 
         """
-        self._load()
-        return self._to_base()
+        with self._load_and_save.load_only():
+            return self._to_base()
 
     def __eq__(self, other):
-        self._load()
         if isinstance(other, type(self)):
             return self() == other()
         else:
             return self() == other
 
     def __repr__(self):
-        self._load()
-        return repr(self._data)
+        return repr(self())
 
     def __str__(self):
-        self._load()
-        return str(self._data)
+        return str(self())
diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index 88fdfae..35b40eb 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -203,20 +203,20 @@ class SyncedDict(SyncedCollection, MutableMapping):
             )
 
     def keys(self):  # noqa: D102
-        self._load()
-        return self._data.keys()
+        with self._load_and_save.load_only():
+            return self._to_base().keys()
 
     def values(self):  # noqa: D102
-        self._load()
-        return self._to_base().values()
+        with self._load_and_save.load_only():
+            return self._to_base().values()
 
     def items(self):  # noqa: D102
-        self._load()
-        return self._to_base().items()
+        with self._load_and_save.load_only():
+            return self._to_base().items()
 
     def get(self, key, default=None):  # noqa: D102
-        self._load()
-        return self._data.get(key, default)
+        with self._load_and_save.load_only():
+            return self._data.get(key, default)
 
     def pop(self, key, default=None):  # noqa: D102
         with self._load_and_save:
diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index 6bc4333..0d6091d 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -203,8 +203,26 @@ class SyncedList(SyncedCollection, MutableSequence):
             self._data[key] = self._from_base(data=value, parent=self)
 
     def __reversed__(self):
-        self._load()
-        return reversed(self._data)
+        with self._load_and_save.load_only():
+            return reversed(list(self._data))
+
+    # The default implementations of the following methods read the elements one
+    # at a time, so another thread could modify the list in between.
+
+    def __contains__(self, value):
+        if _sc_resolver.get_type(value) == "SYNCEDCOLLECTION":
+            value = value()
+        return value in self()
+
+    def index(self, value, *args):  # noqa: D102
+        if _sc_resolver.get_type(value) == "SYNCEDCOLLECTION":
+            value = value()
+        return self().index(value, *args)
+
+    def count(self, value):  # noqa: D102
+        if _sc_resolver.get_type(value) == "SYNCEDCOLLECTION":
+            value = value()
+        return self().count(value)
 
     def __iadd__(self, iterable):
         # Convert input to a list so that iterators work as well as iterables.
-- 
2.43.0


From d980122a97c8e9d1398dc2a129dcb2e07c12d80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:28 +0000
Subject: [PATCH 08/25] fix: make list pop and reverse atomic

The default implementations consist of several independent operations, so two
threads could pop the same element and remove another one unseen.
---
 synced_collections/data_types/synced_list.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index 0d6091d..1d07c79 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -257,6 +257,14 @@ class SyncedList(SyncedCollection, MutableSequence):
         with self._load_and_save, self._suspend_sync:
             self._data.remove(self._from_base(data=value, parent=self))
 
+    def pop(self, index=-1):  # noqa: D102
+        with self._load_and_save:
+            return self._data.pop(index)
+
+    def reverse(self):  # noqa: D102
+        with self._load_and_save:
+            self._data.reverse()
+
     def clear(self):  # noqa: D102
         with self._overwrite():
             self._data.clear()
-- 
2.43.0


From e2b2462091ae7cc96892e6d6b6596d7433cd27a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:43 +0000
Subject: [PATCH 09/25] fix: keep the lock of the old file when changing the
 filename of a collection

Moving the lock to the new filename broke all other objects bound to the old
file and replaced the lock of objects already bound to the new one. Operations
that were waiting for the old lock now continue with the new one.
---
 .../backends/collection_json.py               | 22 +++++++++++--------
 .../data_types/synced_collection.py           |  8 ++++++-
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/synced_collections/backends/collection_json.py b/synced_collections/backends/collection_json.py
index ddb009c..403c234 100644
--- a/synced_collections/backends/collection_json.py
+++ b/synced_collections/backends/collection_json.py
@@ -9,6 +9,7 @@ import os
 import sys
 import uuid
 from collections.abc import Mapping, Sequence
+from threading import RLock
 from typing import Callable, FrozenSet
 from typing import Sequence as Sequence_t
 
@@ -218,15 +219,18 @@ class JSONCollection(SyncedCollection):
 
     @filename.setter
     def filename(self, value):
-        # When setting the filename we must also remap the locks.
-        with self._thread_lock:
-            if type(self)._threading_support_is_active:
-                old_lock_id = self._lock_id
-
-            self._filename = value
-
-            if type(self)._threading_support_is_active:
-                type(self)._locks[self._lock_id] = type(self)._locks.pop(old_lock_id)
+        # Other collections may be bound to either of the files, so the new one
+        # must use its own lock and the lock of the old one must be retained.
+        if type(self)._supports_threading:
+            with self._cls_lock:
+                type(self)._locks.setdefault(value, RLock())
+        while True:
+            lock = self._thread_lock
+            with lock:
+                # The filename may have been changed while waiting for the lock.
+                if lock is self._thread_lock:
+                    self._filename = value
+                    break
 
     @property
     def _lock_id(self):
diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index ad48ec1..4dd0c16 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -42,7 +42,13 @@ class _LoadAndSave:
 
     def _acquire(self):
         """Acquire all locks required to operate on the collection."""
-        self._collection._thread_lock.__enter__()
+        lock = self._collection._thread_lock
+        lock.__enter__()
+        # The collection may have been assigned another lock while waiting.
+        while lock is not self._collection._thread_lock:
+            lock.__exit__(None, None, None)
+            lock = self._collection._thread_lock
+            lock.__enter__()
 
     def _release(self):
         """Release all locks acquired by :meth:`_acquire`."""
-- 
2.43.0


From ec68703a4796c2937438edaf5a13a8fc392e8bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:58 +0000
Subject: [PATCH 10/25] fix: require string keys in mappings nested in
 sequences

The validator looked for a group name that its type resolver does not define, so
it never descended into sequences.
---
 synced_collections/validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/synced_collections/validators.py b/synced_collections/validators.py
index 95e15cc..6f33b02 100644
--- a/synced_collections/validators.py
+++ b/synced_collections/validators.py
@@ -90,7 +90,7 @@ def require_string_key(data):
                     f"Mapping keys must be str, not {type(key).__name__}"
                 )
             require_string_key(value)
-    elif switch_type == "NON_STR_SEQUENCE":
+    elif switch_type == "SEQUENCE":
         for value in data:
             require_string_key(value)
 
-- 
2.43.0


From ef8a5ca8b07b83e8e399554240b666ea0655416c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:12 +0000
Subject: [PATCH 11/25] fix: reject keys with dots in dicts added to attribute
 lists

The dicts nested in these lists are attribute dicts, which forbid such keys.
---
 synced_collections/backends/collection_json.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/synced_collections/backends/collection_json.py b/synced_collections/backends/collection_json.py
index 403c234..b4fffec 100644
--- a/synced_collections/backends/collection_json.py
+++ b/synced_collections/backends/collection_json.py
@@ -599,6 +599,9 @@ class JSONAttrList(JSONList):
     """A :class:`JSONList` whose dict-like children will be of type :class:`JSONAttrDict`."""
 
     _backend = __name__ + ".attr"  # type: ignore
+    # Use the same validators as the dict since these may be nested in the list.
+    _validators = (no_dot_in_key,)
+    _all_validators = (json_attr_dict_validator,)
 
 
 class BufferedJSONAttrDict(BufferedJSONDict, AttrDict):
@@ -615,6 +618,9 @@ class BufferedJSONAttrList(BufferedJSONList):
     """A :class:`BufferedJSONList` whose dict-like children will be of type :class:`BufferedJSONAttrDict`."""  # noqa: E501
 
     _backend = __name__ + ".buffered_attr"  # type: ignore
+    # Use the same validators as the dict since these may be nested in the list.
+    _validators = (no_dot_in_key,)
+    _all_validators = (json_attr_dict_validator,)
 
 
 class MemoryBufferedJSONAttrDict(MemoryBufferedJSONDict, AttrDict):
@@ -631,3 +637,6 @@ class MemoryBufferedJSONAttrList(MemoryBufferedJSONList):
     """A :class:`MemoryBufferedJSONList` whose dict-like children will be of type :class:`MemoryBufferedJSONAttrDict`."""  # noqa: E501
 
     _backend = __name__ + ".memory_buffered_attr"  # type: ignore
+    # Use the same validators as the dict since these may be nested in the list.
+    _validators = (no_dot_in_key,)
+    _all_validators = (json_attr_dict_validator,)
-- 
2.43.0


From ae1a9c351bf5c16e783bdf35050dafc528ddec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:29 +0000
Subject: [PATCH 12/25] fix: validate what numpy scalars and 0d arrays are
 converted to

A 0d object array may contain anything, e.g. a dict, which was neither validated
nor converted to a synced collection. A timedelta64 is converted to a type that
cannot be serialized.
---
 synced_collections/backends/collection_json.py     | 2 ++
 synced_collections/data_types/synced_collection.py | 3 ++-
 synced_collections/validators.py                   | 2 ++
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/synced_collections/backends/collection_json.py b/synced_collections/backends/collection_json.py
index b4fffec..9ac5ebe 100644
--- a/synced_collections/backends/collection_json.py
+++ b/synced_collections/backends/collection_json.py
@@ -106,6 +106,8 @@ def json_attr_dict_validator(data):
             raise TypeError("NumPy extended precision types are not JSON serializable.")
         elif _is_complex(data):
             raise TypeError("Complex numbers are not JSON serializable.")
+        # The converted value may be any type, for instance for object arrays.
+        json_attr_dict_validator(data.item())
     else:
         raise TypeError(
             f"Object of type {type(data).__name__} is not JSON serializable."
diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index 4dd0c16..ae53800 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -380,11 +380,12 @@ class SyncedCollection(Collection):
         implementations.
 
         """
+        data = _convert_numpy(data)
         if _collection_resolver.get_type(data) == "COLLECTION":
             for base_cls in SyncedCollection.registry[cls._backend]:
                 if base_cls.is_base_type(data):
                     return base_cls(data=data, _validate=False, **kwargs)
-        return _convert_numpy(data)
+        return data
 
     @abstractmethod
     def _to_base(self):
diff --git a/synced_collections/validators.py b/synced_collections/validators.py
index 6f33b02..86167c8 100644
--- a/synced_collections/validators.py
+++ b/synced_collections/validators.py
@@ -141,6 +141,8 @@ def json_format_validator(data):
             raise TypeError("NumPy extended precision types are not JSON serializable.")
         elif _is_complex(data):
             raise TypeError("Complex numbers are not JSON serializable.")
+        # The converted value may be any type, for instance for object arrays.
+        json_format_validator(data.item())
     else:
         raise TypeError(
             f"Object of type {type(data).__name__} is not JSON serializable"
-- 
2.43.0


From fc62b24b7a8cb667f350e60cf31587098bc92e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:23 +0000
Subject: [PATCH 13/25] fix: reject data that a Zarr collection cannot store
 before changing anything

The data was only checked while saving it, which left the invalid value in
memory and an array without any valid content in the group.
---
 .../backends/collection_zarr.py               | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/synced_collections/backends/collection_zarr.py b/synced_collections/backends/collection_zarr.py
index 678f2d9..b88bda0 100644
--- a/synced_collections/backends/collection_zarr.py
+++ b/synced_collections/backends/collection_zarr.py
@@ -2,13 +2,16 @@
 # All rights reserved.
 # This software is licensed under the BSD 3-Clause License.
 """Implements a Zarr :class:`~.SyncedCollection` backend."""
+import warnings
 from copy import deepcopy
 
 from .. import SyncedCollection, SyncedDict, SyncedList
+from ..numpy_utils import NumpyConversionWarning
 from ..validators import require_string_key
 
 try:
     import numcodecs
+    import numpy
 
     ZARR = True
 except ImportError:
@@ -44,6 +47,7 @@ class ZarrCollection(SyncedCollection):
     """
 
     _backend = __name__  # type: ignore
+    _validators = (require_string_key,)
 
     def __init__(self, group=None, name=None, codec=None, *args, **kwargs):
         if not ZARR:
@@ -51,10 +55,30 @@ class ZarrCollection(SyncedCollection):
                 "The Zarr package must be installed to use the ZarrCollection."
             )
 
-        super().__init__(**kwargs)
+        # The codec must be defined prior to calling the superclass constructors
+        # because it is required to validate the data.
         self._group = group
         self._name = name
         self._object_codec = numcodecs.JSON() if codec is None else codec
+        super().__init__(**kwargs)
+
+    def _validate(self, data):
+        """Validate the input data.
+
+        The data that can be stored depends on the codec, so in addition to
+        applying all validators this method makes sure that the data can be encoded.
+        """
+        with warnings.catch_warnings():
+            warnings.simplefilter("default", NumpyConversionWarning)
+            data = self._from_base(data, parent=self)
+        if isinstance(data, SyncedCollection):
+            data = data._to_base()
+        super()._validate(data)
+
+        encoded = numpy.empty(1, dtype="object")
+        encoded[0] = data
+        root = self if self._root is None else self._root
+        root._object_codec.encode(encoded)
 
     def _load_from_resource(self):
         """Load the data from the Zarr group.
@@ -162,8 +186,6 @@ class ZarrDict(ZarrCollection, SyncedDict):
 
     """
 
-    _validators = (require_string_key,)
-
     def __init__(self, group=None, name=None, data=None, parent=None, *args, **kwargs):
         super().__init__(
             group=group, name=name, data=data, parent=parent, *args, **kwargs
-- 
2.43.0


From dcf3c97062c832d462757d0833d5077d7b2a3716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:24 +0000
Subject: [PATCH 14/25] fix: convert arguments before acquiring the locks of an
 operation

Arguments may contain other synced collections. Reading these acquires their
locks, so two threads that assign collections to each other could deadlock.
Converting arguments no longer suspends the synchronization of the collection,
which other threads may be using at that time.
---
 .../data_types/synced_collection.py           |  4 ++
 synced_collections/data_types/synced_dict.py  | 29 ++++++++------
 synced_collections/data_types/synced_list.py  | 38 ++++++++++---------
 3 files changed, 41 insertions(+), 30 deletions(-)

diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index ae53800..5e1be93 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -380,6 +380,10 @@ class SyncedCollection(Collection):
         implementations.
 
         """
+        if _sc_resolver.get_type(data) == "SYNCEDCOLLECTION":
+            # Use a copy, which does not require any further access to the other
+            # collection and cannot be modified by other threads.
+            data = data()
         data = _convert_numpy(data)
         if _collection_resolver.get_type(data) == "COLLECTION":
             for base_cls in SyncedCollection.registry[cls._backend]:
diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index 35b40eb..729997d 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -59,11 +59,10 @@ class SyncedDict(SyncedCollection, MutableMapping):
         else:
             if _validate:
                 self._validate(data)
-            with self._suspend_sync:
-                self._data = {
-                    key: self._from_base(data=value, parent=self)
-                    for key, value in data.items()
-                }
+            self._data = {
+                key: self._from_base(data=value, parent=self)
+                for key, value in data.items()
+            }
 
     def _to_base(self):
         """Convert the SyncedDict object to a :class:`dict`.
@@ -175,8 +174,11 @@ class SyncedDict(SyncedCollection, MutableMapping):
 
     def __setitem__(self, key, value):
         self._validate({key: value})
-        with self._load_and_save, self._suspend_sync:
-            self._data[key] = self._from_base(value, parent=self)
+        # Convert the value before acquiring any locks because it could contain
+        # other collections that have to be locked to read them.
+        value = self._from_base(value, parent=self)
+        with self._load_and_save:
+            self._data[key] = value
 
     def reset(self, data):
         """Update the instance with new data.
@@ -193,6 +195,7 @@ class SyncedDict(SyncedCollection, MutableMapping):
 
         """
         if _mapping_resolver.get_type(data) == "MAPPING":
+            data = self._from_base(data, parent=self)._to_base()
             with self._overwrite():
                 self._update(data)
         else:
@@ -237,17 +240,19 @@ class SyncedDict(SyncedCollection, MutableMapping):
         if _mapping_resolver.get_type(other) != "MAPPING":
             other = dict(other)
 
+        # The order here is important to ensure that the promised sequence of
+        # overrides is obeyed: kwargs > other > existing data.
+        data = self._from_base({**other, **kwargs}, parent=self)._to_base()
         with self._load_and_save:
-            # The order here is important to ensure that the promised sequence of
-            # overrides is obeyed: kwargs > other > existing data.
-            self._update({**self._data, **other, **kwargs})
+            self._update({**self._data, **data})
 
     def setdefault(self, key, default=None):  # noqa: D102
+        default = self._from_base(default, parent=self)
         with self._load_and_save:
             if key in self._data:
                 ret = self._data[key]
             else:
-                self._validate({key: default})
                 with self._suspend_sync:
-                    ret = self._data[key] = self._from_base(default, parent=self)
+                    self._validate({key: default})
+                ret = self._data[key] = default
         return ret
diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index 1d07c79..92435b6 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -70,10 +70,7 @@ class SyncedList(SyncedCollection, MutableSequence):
             if _validate:
                 self._validate(data)
             data = _convert_numpy(data)
-            with self._suspend_sync:
-                self._data = [
-                    self._from_base(data=value, parent=self) for value in data
-                ]
+            self._data = [self._from_base(data=value, parent=self) for value in data]
 
     @classmethod
     def is_base_type(cls, data):
@@ -188,6 +185,7 @@ class SyncedList(SyncedCollection, MutableSequence):
         """
         data = _convert_numpy(data)
         if _sequence_resolver.get_type(data) == "SEQUENCE":
+            data = self._from_base(data, parent=self)._to_base()
             with self._overwrite():
                 self._update(data)
         else:
@@ -199,8 +197,11 @@ class SyncedList(SyncedCollection, MutableSequence):
 
     def __setitem__(self, key, value):
         self._validate(value)
+        # Convert the value before acquiring any locks because it could contain
+        # other collections that have to be locked to read them.
+        value = self._from_base(data=value, parent=self)
         with self._load_and_save, self._suspend_sync:
-            self._data[key] = self._from_base(data=value, parent=self)
+            self._data[key] = value
 
     def __reversed__(self):
         with self._load_and_save.load_only():
@@ -228,34 +229,35 @@ class SyncedList(SyncedCollection, MutableSequence):
         # Convert input to a list so that iterators work as well as iterables.
         iterable_data = list(iterable)
         self._validate(iterable_data)
-        with self._load_and_save, self._suspend_sync:
-            self._data += [
-                self._from_base(data=value, parent=self) for value in iterable_data
-            ]
+        new_data = [self._from_base(data=value, parent=self) for value in iterable_data]
+        with self._load_and_save:
+            self._data += new_data
         return self
 
     def insert(self, index, item):  # noqa: D102
         self._validate(item)
-        with self._load_and_save, self._suspend_sync:
-            self._data.insert(index, self._from_base(data=item, parent=self))
+        item = self._from_base(data=item, parent=self)
+        with self._load_and_save:
+            self._data.insert(index, item)
 
     def append(self, item):  # noqa: D102
         self._validate(item)
-        with self._load_and_save, self._suspend_sync:
-            self._data.append(self._from_base(data=item, parent=self))
+        item = self._from_base(data=item, parent=self)
+        with self._load_and_save:
+            self._data.append(item)
 
     def extend(self, iterable):  # noqa: D102
         # Convert iterable to a list to ensure generators are exhausted only once
         iterable_data = list(iterable)
         self._validate(iterable_data)
-        with self._load_and_save, self._suspend_sync:
-            self._data.extend(
-                [self._from_base(data=value, parent=self) for value in iterable_data]
-            )
+        new_data = [self._from_base(data=value, parent=self) for value in iterable_data]
+        with self._load_and_save:
+            self._data.extend(new_data)
 
     def remove(self, value):  # noqa: D102
+        value = self._from_base(data=value, parent=self)
         with self._load_and_save, self._suspend_sync:
-            self._data.remove(self._from_base(data=value, parent=self))
+            self._data.remove(value)
 
     def pop(self, index=-1):  # noqa: D102
         with self._load_and_save:
-- 
2.43.0


From 78ec2d67b17895d533d7d5ba6ad876208245a38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:45 +0000
Subject: [PATCH 15/25] fix: validate all data of update and reset before
 applying any of it

Values preceding an invalid value were already applied when it was rejected.
---
 synced_collections/data_types/synced_dict.py | 7 ++++++-
 synced_collections/data_types/synced_list.py | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index 729997d..1abf41c 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -195,6 +195,8 @@ class SyncedDict(SyncedCollection, MutableMapping):
 
         """
         if _mapping_resolver.get_type(data) == "MAPPING":
+            # Validate all data first so that invalid data is rejected as a whole.
+            self._validate(data)
             data = self._from_base(data, parent=self)._to_base()
             with self._overwrite():
                 self._update(data)
@@ -242,7 +244,10 @@ class SyncedDict(SyncedCollection, MutableMapping):
 
         # The order here is important to ensure that the promised sequence of
         # overrides is obeyed: kwargs > other > existing data.
-        data = self._from_base({**other, **kwargs}, parent=self)._to_base()
+        data = {**other, **kwargs}
+        # Validate all data first so that invalid data is rejected as a whole.
+        self._validate(data)
+        data = self._from_base(data, parent=self)._to_base()
         with self._load_and_save:
             self._update({**self._data, **data})
 
diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index 92435b6..31a37c5 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -185,6 +185,8 @@ class SyncedList(SyncedCollection, MutableSequence):
         """
         data = _convert_numpy(data)
         if _sequence_resolver.get_type(data) == "SEQUENCE":
+            # Validate all data first so that invalid data is rejected as a whole.
+            self._validate(data)
             data = self._from_base(data, parent=self)._to_base()
             with self._overwrite():
                 self._update(data)
-- 
2.43.0


From 9db8c06d986ddcc740b76384887905fe86db2b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:45 +0000
Subject: [PATCH 16/25] fix: accept any iterable in slice assignments to lists

---
 synced_collections/data_types/synced_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index 31a37c5..706cd12 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -198,6 +198,9 @@ class SyncedList(SyncedCollection, MutableSequence):
             )
 
     def __setitem__(self, key, value):
+        if isinstance(key, slice):
+            # Slices may be assigned any iterable, including iterators.
+            value = list(value)
         self._validate(value)
         # Convert the value before acquiring any locks because it could contain
         # other collections that have to be locked to read them.
-- 
2.43.0


From 72f94cb3e3fb420997a32fd0bf7d43c330972266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:57 +0000
Subject: [PATCH 17/25] fix: raise AttributeError when deleting a missing
 attribute of an AttrDict

---
 synced_collections/data_types/attr_dict.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/synced_collections/data_types/attr_dict.py b/synced_collections/data_types/attr_dict.py
index 5e00e2a..8185631 100644
--- a/synced_collections/data_types/attr_dict.py
+++ b/synced_collections/data_types/attr_dict.py
@@ -62,4 +62,7 @@ class AttrDict:
         if key in self._PROTECTED_KEYS or key.startswith("__"):
             super().__delattr__(key)
         else:
-            self.__delitem__(key)
+            try:
+                self.__delitem__(key)
+            except KeyError as e:
+                raise AttributeError(e)
-- 
2.43.0


From 5f7e5bfdd3cd9a53fcbf6d533800a333a4e3ddea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:22 +0000
Subject: [PATCH 18/25] fix: never cache the classification of objects that
 differ within a type

Subclasses of numpy arrays and proxies were classified like the first instance
that happened to be processed.
---
 synced_collections/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/synced_collections/utils.py b/synced_collections/utils.py
index f813570..39a6d96 100644
--- a/synced_collections/utils.py
+++ b/synced_collections/utils.py
@@ -85,14 +85,18 @@ class AbstractTypeResolver:
         """
         obj_type = type(obj)
         enum_type = None
-        try:
+        # The callables may depend on the class that an object claims to have, which
+        # differs from its type for instance if the object is a proxy. Such objects
+        # of the same type may be classified differently, so they're never cached.
+        cacheable = obj.__class__ is obj_type
+        if cacheable and obj_type in self.type_map:
             enum_type = self.type_map[obj_type]
-        except KeyError:
+        else:
             for data_type, id_func in self.abstract_type_identifiers.items():
                 if id_func(obj):
                     enum_type = data_type
                     break
-            if obj_type not in self.cache_blocklist:
+            if cacheable and not issubclass(obj_type, tuple(self.cache_blocklist)):
                 self.type_map[obj_type] = enum_type
 
         return enum_type
-- 
2.43.0


From 548a44ecd29f9e519bebbcf24e9e2d581600238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:22 +0000
Subject: [PATCH 19/25] fix: decide whether to flush a buffered file based on
 the buffered data

The data of the flushed instance was used instead, which is outdated if another
instance modified the buffer. The flush then dropped these modifications.
---
 .../buffers/serialized_file_buffered_collection.py            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/synced_collections/buffers/serialized_file_buffered_collection.py b/synced_collections/buffers/serialized_file_buffered_collection.py
index f818760..ac83557 100644
--- a/synced_collections/buffers/serialized_file_buffered_collection.py
+++ b/synced_collections/buffers/serialized_file_buffered_collection.py
@@ -109,7 +109,9 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
                     # multiple collections pointing to the same file, etc).
                     return
                 else:
-                    blob = self._encode(self._data)
+                    # The buffer may have been modified by another instance, so
+                    # the data in this instance is not necessarily up-to-date.
+                    blob = cached_data["contents"]
 
                     # If the contents have not been changed since the initial read,
                     # we don't need to rewrite it.
-- 
2.43.0


From 938463c824dcc095f34b00829740504f5a890ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:35 +0000
Subject: [PATCH 20/25] fix: restore the buffer capacity even if a flush fails

A flush that raised left the temporary capacity of a context in place. A context
that could not be entered because its capacity forced a failing flush was never
exited.
---
 .../buffers/file_buffered_collection.py       | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index 221e169..0dde741 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -40,18 +40,26 @@ class _FileBufferedContext(_CounterFuncContext):
 
     def __enter__(self):
         super().__enter__()
-        if self._buffer_capacity is not None:
+        buffer_capacity = self._buffer_capacity
+        self._buffer_capacity = None
+        if buffer_capacity is not None:
             self._original_buffer_capacitys.append(self._cls.get_buffer_capacity())
-            self._cls.set_buffer_capacity(self._buffer_capacity)
+            try:
+                self._cls.set_buffer_capacity(buffer_capacity)
+            except BaseException:
+                # The context is not exited if it could not be entered.
+                self.__exit__(None, None, None)
+                raise
         else:
             self._original_buffer_capacitys.append(None)
-        self._buffer_capacity = None
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        super().__exit__(exc_type, exc_val, exc_tb)
-        original_buffer_capacity = self._original_buffer_capacitys.pop()
-        if original_buffer_capacity is not None:
-            self._cls.set_buffer_capacity(original_buffer_capacity)
+        try:
+            super().__exit__(exc_type, exc_val, exc_tb)
+        finally:
+            original_buffer_capacity = self._original_buffer_capacitys.pop()
+            if original_buffer_capacity is not None:
+                self._cls.set_buffer_capacity(original_buffer_capacity)
 
 
 class _BufferedLoadAndSave(_LoadAndSave):
-- 
2.43.0


From b791d4024208c6b854a27e01ddb6009f13eb62d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:50 +0000
Subject: [PATCH 21/25] fix: keep track of collections that are still buffered
 after a failed flush

If any file could not be flushed, all collections that were still buffered were
forgotten and their changes were never written.
---
 synced_collections/buffers/file_buffered_collection.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index 0dde741..08e7278 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -360,9 +360,10 @@ class FileBufferedCollection(BufferedCollection):
                 collection._flush(force=force)
             except (OSError, MetadataError) as err:
                 issues[collection._filename] = err
-        if not issues:
-            cls._buffered_collections = remaining_collections
-        else:
+        # Collections that are still buffered must be flushed later, even if there
+        # were issues with others.
+        cls._buffered_collections.update(remaining_collections)
+        if issues:
             raise BufferedError(issues)
 
     @classmethod
-- 
2.43.0


From 4fc1f7338ff58fd1f9e543ea435223f54f0994d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:51 +0000
Subject: [PATCH 22/25] fix: do not share data between collections buffered in
 memory

Collections pointing to the same file shared one data store while buffered.
Children belonged to whichever collection had created them, handles obtained
before buffering lost their connection to the data, and lists could not be
detached again, so writes were lost. Each collection now keeps its own data,
which is updated from the collection that was last accessed. Conflicting data is
also removed from the buffer when a flush is forced, so that it cannot overwrite
the file later.
---
 .../buffers/memory_buffered_collection.py     | 84 +++++++++----------
 1 file changed, 40 insertions(+), 44 deletions(-)

diff --git a/synced_collections/buffers/memory_buffered_collection.py b/synced_collections/buffers/memory_buffered_collection.py
index 43f33c8..9cd6379 100644
--- a/synced_collections/buffers/memory_buffered_collection.py
+++ b/synced_collections/buffers/memory_buffered_collection.py
@@ -4,12 +4,10 @@
 """A standardized buffering implementation for file-based backends.
 
 The buffering method implemented here involves a single buffer of references to
-in-memory objects containing data. These objects are the base types of a given
-:class:`~.SyncedCollection` type, e.g. a dict for all dict-like collections,
-and are the underlying data stores for those types. This buffering method
-exploits the fact that all mutable collection types in Python are references,
-so modifying one such collection results in modifying all of them, thereby
-removing any need for more complicated synchronization protocols.
+in-memory collections containing data. If multiple collections point to the same
+resource, the buffer refers to the one that was last accessed. The data only needs
+to be transferred when a different collection is accessed, thereby removing any
+need for more complicated synchronization protocols.
 """
 
 from ..errors import MetadataError
@@ -21,11 +19,9 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
 
     This class extends the :class:`~.FileBufferedCollection` and implements a
     concrete storage mechanism in which collections store a reference to their
-    data in a buffer. This method takes advantage of the reference-based semantics
-    of built-in Python mutable data types like dicts and lists. All collections
-    referencing the same file are pointed to the same underlying data store in
-    buffered mode, allowing all changes in one to be transparently reflected in
-    the others. To further improve performance, the buffer size is determined
+    data in a buffer. All collections referencing the same file are updated from
+    the same buffered data when they are accessed, allowing all changes in one to
+    be transparently reflected in the others. To further improve performance, the buffer size is determined
     only based on the number of modified collections stored, not the total number.
     As a result, the maximum capacity is only reached when a large number of
     modified collections are stored, and unmodified collections are only removed
@@ -103,40 +99,38 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
         """
         # Different files in the buffer can be safely flushed simultaneously,
         # but a given file can only be flushed on one thread at once.
-        if not self._is_buffered or force:
-            try:
-                cached_data = type(self)._buffer[self._filename]
-            except KeyError:
-                # If we got to this point, it means that another collection
-                # pointing to the same underlying resource flushed the buffer.
-                # If so, then the data in this instance is still pointing to
-                # that object's data store. If this was a force flush, then
-                # the data store is still the cached data, so we're fine. If
-                # this wasn't a force flush, then we have to reload this
-                # object's data so that it will stop sharing data with the
-                # other instance.
-                if not force:
-                    self._data.clear()
-                    self._update(self._load_from_resource())
-            else:
+        with self._buffer_lock:
+            if not self._is_buffered or force:
+                try:
+                    cached_data = type(self)._buffer[self._filename]
+                except KeyError:
+                    # If we got to this point, it means that another collection
+                    # pointing to the same underlying resource flushed the buffer.
+                    return
+
                 # If the contents have not been changed since the initial read,
                 # we don't need to rewrite it.
+                conflict = False
                 try:
                     # Validate that the file hasn't been changed by
                     # something else.
                     if cached_data["modified"]:
                         if cached_data["metadata"] != self._get_file_metadata():
-                            raise MetadataError(self._filename, cached_data["contents"])
+                            conflict = True
+                            raise MetadataError(
+                                self._filename, cached_data["collection"]._to_base()
+                            )
+                        self._update_from_buffer()
                         self._save_to_resource()
                 finally:
                     # Whether or not an error was raised, the cache must be
                     # cleared to ensure a valid final buffer state, unless
-                    # we're force flushing in which case we never delete, but
-                    # take note that the data is no longer modified relative to
-                    # its representation on disk.
+                    # we're force flushing in which case we never delete valid
+                    # data, but take note that the data is no longer modified
+                    # relative to its representation on disk.
                     if cached_data["modified"]:
                         type(self)._CURRENT_BUFFER_SIZE -= 1
-                    if not force:
+                    if not force or conflict:
                         del type(self)._buffer[self._filename]
                     else:
                         # Have to update the metadata on a force flush because
@@ -146,17 +140,18 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
                         # metadata after the current flush.
                         cached_data["metadata"] = self._get_file_metadata()
                         cached_data["modified"] = False
-        else:
-            # If this object is still buffered _and_ this wasn't a force flush,
-            # that implies a nesting of buffered contexts in which another
-            # collection pointing to the same data flushed the buffer. This
-            # object's data will still be pointing to that one, though, so the
-            # safest choice is to reinitialize its data from scratch.
+
+    def _update_from_buffer(self):
+        """Make this the collection that holds the buffered data.
+
+        Any number of collections may be pointing to the same file. The data of the
+        one that was last accessed is up-to-date.
+        """
+        cached_data = type(self)._buffer[self._filename]
+        if cached_data["collection"] is not self:
             with self._suspend_sync:
-                self._data = {
-                    key: self._from_base(data=value, parent=self)
-                    for key, value in self._to_base().items()
-                }
+                self._update(cached_data["collection"]._to_base())
+            cached_data["collection"] = self
 
     def _load(self):
         """Load data from the backend but buffer if needed.
@@ -226,12 +221,13 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
         super()._load_from_buffer()
 
         # Set local data to the version in the buffer.
-        self._data = type(self)._buffer[self._filename]["contents"]
+        self._update_from_buffer()
 
     def _initialize_data_in_buffer(self, modified=False):
         """Create the initial entry for the data in the cache.
 
         Stores the following information:
+            - The collection, which holds the data.
             - The metadata provided by :meth:`~._get_file_metadata`. Used to
               check if a file has been modified on disk since it was loaded
               into the buffer.
@@ -249,7 +245,7 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
         """
         metadata = self._get_file_metadata()
         type(self)._buffer[self._filename] = {
-            "contents": self._data,
+            "collection": self,
             "metadata": metadata,
             "modified": modified,
         }
-- 
2.43.0


From c2314e070d61e1b32e884090f60bb138d60478e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:00 +0000
Subject: [PATCH 23/25] fix: forget collections that have been flushed
 individually

The next flush of the whole buffer flushed them again, which wrote data to disk
that another collection was still buffering.
---
 synced_collections/buffers/memory_buffered_collection.py      | 4 ++++
 .../buffers/serialized_file_buffered_collection.py            | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/synced_collections/buffers/memory_buffered_collection.py b/synced_collections/buffers/memory_buffered_collection.py
index 9cd6379..949eb2c 100644
--- a/synced_collections/buffers/memory_buffered_collection.py
+++ b/synced_collections/buffers/memory_buffered_collection.py
@@ -101,6 +101,10 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
         # but a given file can only be flushed on one thread at once.
         with self._buffer_lock:
             if not self._is_buffered or force:
+                if not force:
+                    # This object must not be flushed again along with the whole
+                    # buffer unless it's accessed in buffered mode again.
+                    type(self)._buffered_collections.pop(id(self), None)
                 try:
                     cached_data = type(self)._buffer[self._filename]
                 except KeyError:
diff --git a/synced_collections/buffers/serialized_file_buffered_collection.py b/synced_collections/buffers/serialized_file_buffered_collection.py
index ac83557..bcfc956 100644
--- a/synced_collections/buffers/serialized_file_buffered_collection.py
+++ b/synced_collections/buffers/serialized_file_buffered_collection.py
@@ -101,6 +101,10 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
         # but a given file can only be flushed on one thread at once.
         with self._buffer_lock:
             if not self._is_buffered or force:
+                if not force:
+                    # This object must not be flushed again along with the whole
+                    # buffer unless it's accessed in buffered mode again.
+                    type(self)._buffered_collections.pop(id(self), None)
                 try:
                     cached_data = type(self)._buffer[self._filename]
                 except KeyError:
-- 
2.43.0


From 73ccc145f47356fd1f352de9a3e2fef6e5826357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:14 +0000
Subject: [PATCH 24/25] fix: write buffered data of missing files even if it is
 empty

---
 .../buffers/serialized_file_buffered_collection.py            | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/synced_collections/buffers/serialized_file_buffered_collection.py b/synced_collections/buffers/serialized_file_buffered_collection.py
index bcfc956..59b5920 100644
--- a/synced_collections/buffers/serialized_file_buffered_collection.py
+++ b/synced_collections/buffers/serialized_file_buffered_collection.py
@@ -221,6 +221,10 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
                 buffer_size_change = len(blob) - len(cached_data["contents"])
                 type(self)._CURRENT_BUFFER_SIZE += buffer_size_change
                 cached_data["contents"] = blob
+                if cached_data["metadata"] is None:
+                    # The file doesn't exist, so it has to be written no matter
+                    # whether the data equals the initial (empty) data.
+                    cached_data["hash"] = None
             else:
                 # The only methods that could safely call sync without a load are
                 # destructive operations like `reset` or `clear` that completely
-- 
2.43.0


From ee742bc7e8be4a120ae510a517f468f7b65113bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:43 +0000
Subject: [PATCH 25/25] fix: keep the metadata of unmodified files on a forced
 flush

A forced flush of the shared-memory buffer recorded the current metadata of
every file, including those that were only read. If such a file had been
changed on disk in the meantime, the change was no longer detected when the
stale buffered data was modified and flushed later.
---
 synced_collections/buffers/memory_buffered_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/synced_collections/buffers/memory_buffered_collection.py b/synced_collections/buffers/memory_buffered_collection.py
index 949eb2c..36b996f 100644
--- a/synced_collections/buffers/memory_buffered_collection.py
+++ b/synced_collections/buffers/memory_buffered_collection.py
@@ -136,7 +136,7 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
                         type(self)._CURRENT_BUFFER_SIZE -= 1
                     if not force or conflict:
                         del type(self)._buffer[self._filename]
-                    else:
+                    elif cached_data["modified"]:
                         # Have to update the metadata on a force flush because
                         # we could modify this item again later, leading to
                         # another (possibly forced) flush afterwards that will
-- 
2.43.0

