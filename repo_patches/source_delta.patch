From e5f74c6a3fceb100d835c4fad191733e43576739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:33 +0000
Subject: [PATCH 01/27] fix: compare synced lists with plain operands in the
 right direction

SyncedList.__lt__ evaluated 'self() > other' when the right operand was not a
synced list of the same class.
---
 synced_collections/data_types/synced_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index e45eba8..8a365b1 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -246,7 +246,7 @@ class SyncedList(SyncedCollection, MutableSequence):
         if isinstance(other, type(self)):
             return self() < other()
         else:
-            return self() > other
+            return self() < other
 
     def __le__(self, other):
         if isinstance(other, type(self)):
-- 
2.43.0


From b845d4087ff43bcff83c197b1544b6e47a02f25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:33 +0000
Subject: [PATCH 02/27] fix: release the locks when loading before a mutation
 fails

An exception raised by the load in _LoadAndSave.__enter__ (for example because
the file does not contain valid JSON) left the collection lock, and the buffer
lock of buffered collections, held by the calling thread forever.
---
 synced_collections/buffers/file_buffered_collection.py | 6 +++++-
 synced_collections/data_types/synced_collection.py     | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index 415c5da..6be6d71 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -63,7 +63,11 @@ class _BufferedLoadAndSave(_LoadAndSave):
 
     def __enter__(self):
         self._collection._buffer_lock.__enter__()
-        super().__enter__()
+        try:
+            super().__enter__()
+        except BaseException:
+            self._collection._buffer_lock.__exit__(None, None, None)
+            raise
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index 5e074ad..dfa891e 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -41,7 +41,13 @@ class _LoadAndSave:
 
     def __enter__(self):
         self._collection._thread_lock.__enter__()
-        self._collection._load()
+        try:
+            self._collection._load()
+        except BaseException:
+            # The body of the with statement (and hence __exit__) is not going
+            # to be executed.
+            self._collection._thread_lock.__exit__(None, None, None)
+            raise
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
-- 
2.43.0


From f62222a653040f3cec0a4209f8b24264ae75dbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:42 +0000
Subject: [PATCH 03/27] fix: do not save after a mutation that raised

A mutator that fails (deleting a missing key, an index out of range, ...) has
nothing to store, but _LoadAndSave.__exit__ saved regardless. The failed call
thereby rewrote the resource, or created it if it did not exist yet.
---
 synced_collections/data_types/synced_collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index dfa891e..1c1a4f2 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -51,7 +51,9 @@ class _LoadAndSave:
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
-            self._collection._save()
+            # A failed operation has not changed anything.
+            if exc_type is None:
+                self._collection._save()
         finally:
             self._collection._thread_lock.__exit__(exc_type, exc_val, exc_tb)
 
-- 
2.43.0


From 9ae04d8c15cefbcac670b71803b223bf1c16de12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:59 +0000
Subject: [PATCH 04/27] fix: make in-place updates follow the loaded data
 exactly

_update skipped values that compare equal although their type changed (1, 1.0
and True), and left a nested collection in place when its new value is None.
Shrinking a list rebound its storage rather than changing it in place.
---
 synced_collections/data_types/synced_dict.py | 20 +++++++----
 synced_collections/data_types/synced_list.py | 35 ++++++++++++--------
 2 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index 484c951..06d102d 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -141,14 +141,22 @@ class SyncedDict(SyncedCollection, MutableMapping):
                             self._validate({key: new_value})
                         self._data[key] = self._from_base(new_value, parent=self)
                     else:
-                        if new_value == existing:
-                            continue
                         if _sc_resolver.get_type(existing) == "SYNCEDCOLLECTION":
-                            try:
-                                existing._update(new_value)
+                            if new_value is existing:
                                 continue
-                            except ValueError:
-                                pass
+                            # Passing None to _update would be a no-op.
+                            if new_value is not None:
+                                try:
+                                    existing._update(new_value)
+                                    continue
+                                except ValueError:
+                                    pass
+                        elif type(new_value) is type(existing) and (
+                            new_value == existing
+                        ):
+                            # Equality alone is not sufficient since values of
+                            # different types may be equal (e.g. 1 and True).
+                            continue
 
                         # Fall through if the new value is not identical to the
                         # existing value and
diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index 8a365b1..0220e25 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -142,26 +142,35 @@ class SyncedList(SyncedCollection, MutableSequence):
                 # operations for all subsequent items. In the worst case,
                 # inserting at the beginning will require reconverting all
                 # elements of the data.
-                for i in range(min(len(self), len(data))):
-                    if data[i] == self._data[i]:
-                        continue
-                    if _sc_resolver.get_type(self._data[i]) == "SYNCEDCOLLECTION":
-                        try:
-                            self._data[i]._update(data[i])
+                for i in range(min(len(self._data), len(data))):
+                    new_value, existing = data[i], self._data[i]
+                    if _sc_resolver.get_type(existing) == "SYNCEDCOLLECTION":
+                        if new_value is existing:
                             continue
-                        except ValueError:
-                            pass
+                        # Passing None to _update would be a no-op.
+                        if new_value is not None:
+                            try:
+                                existing._update(new_value)
+                                continue
+                            except ValueError:
+                                pass
+                    elif type(new_value) is type(existing) and new_value == existing:
+                        # Equality alone is not sufficient since values of
+                        # different types may be equal (e.g. 1 and True).
+                        continue
                     if not _validate:
-                        self._validate(data[i])
-                    self._data[i] = self._from_base(data[i], parent=self)
+                        self._validate(new_value)
+                    self._data[i] = self._from_base(new_value, parent=self)
 
                 if len(self._data) > len(data):
-                    self._data = self._data[: len(data)]
+                    del self._data[len(data) :]
                 else:
-                    new_data = data[len(self) :]
+                    new_data = data[len(self._data) :]
                     if not _validate:
                         self._validate(new_data)
-                    self.extend(new_data)
+                    self._data.extend(
+                        [self._from_base(data=value, parent=self) for value in new_data]
+                    )
         else:
             raise ValueError(
                 "Unsupported type: {}. The data must be a non-string sequence or None.".format(
-- 
2.43.0


From bb608574cfebfffbd8b287ad8fbe66f548ecf6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:48 +0000
Subject: [PATCH 05/27] fix: perform clear and reset like every other mutation

clear and reset changed the data in memory before taking the lock. They did
not load first, so applying them to a nested collection wrote the possibly
stale content of the enclosing document back. Nested collections also used a
lock of their own instead of the one of their root. reset now validates all of
the data before changing anything.
---
 .../buffers/file_buffered_collection.py             |  6 ++++++
 synced_collections/data_types/synced_collection.py  | 13 ++++++++++---
 synced_collections/data_types/synced_dict.py        | 13 +++++++------
 synced_collections/data_types/synced_list.py        | 13 +++++++------
 4 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index 6be6d71..799e50f 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -61,6 +61,12 @@ class _BufferedLoadAndSave(_LoadAndSave):
     acquire the buffer lock in addition to the default behavior.
     """
 
+    def __call__(self, load=True, save=True):
+        # In buffered mode the load also registers the data with the buffer.
+        return super().__call__(
+            load=load or bool(self._collection._is_buffered), save=save
+        )
+
     def __enter__(self):
         self._collection._buffer_lock.__enter__()
         try:
diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index 1c1a4f2..e021bf9 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -36,13 +36,20 @@ class _LoadAndSave:
     customize the behavior if needed (for instance, to introduce additional locks).
     """
 
-    def __init__(self, collection):
+    def __init__(self, collection, load=True, save=True):
         self._collection = collection
+        self._load = load
+        self._save = save
+
+    def __call__(self, load=True, save=True):
+        """Get a context that only performs the requested synchronization steps."""
+        return type(self)(self._collection, load=load, save=save)
 
     def __enter__(self):
         self._collection._thread_lock.__enter__()
         try:
-            self._collection._load()
+            if self._load:
+                self._collection._load()
         except BaseException:
             # The body of the with statement (and hence __exit__) is not going
             # to be executed.
@@ -52,7 +59,7 @@ class _LoadAndSave:
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
             # A failed operation has not changed anything.
-            if exc_type is None:
+            if self._save and exc_type is None:
                 self._collection._save()
         finally:
             self._collection._thread_lock.__exit__(exc_type, exc_val, exc_tb)
diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index 06d102d..c1bc871 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -198,9 +198,10 @@ class SyncedDict(SyncedCollection, MutableMapping):
 
         """
         if _mapping_resolver.get_type(data) == "MAPPING":
-            self._update(data)
-            with self._thread_lock:
-                self._save()
+            self._validate(data)
+            # The previous content of a root collection is irrelevant here.
+            with self._load_and_save(load=self._root is not None):
+                self._update(data, _validate=True)
         else:
             raise ValueError(
                 "Unsupported type: {}. The data must be a mapping or None.".format(
@@ -235,9 +236,9 @@ class SyncedDict(SyncedCollection, MutableMapping):
         return ret
 
     def clear(self):  # noqa: D102
-        self._data = {}
-        with self._thread_lock:
-            self._save()
+        # The previous content of a root collection is irrelevant here.
+        with self._load_and_save(load=self._root is not None):
+            self._data.clear()
 
     def update(self, other=None, **kwargs):  # noqa: D102
         if other is not None:
diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index 0220e25..f12fc0b 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -194,9 +194,10 @@ class SyncedList(SyncedCollection, MutableSequence):
         """
         data = _convert_numpy(data)
         if _sequence_resolver.get_type(data) == "SEQUENCE":
-            self._update(data)
-            with self._thread_lock:
-                self._save()
+            self._validate(data)
+            # The previous content of a root collection is irrelevant here.
+            with self._load_and_save(load=self._root is not None):
+                self._update(data, _validate=True)
         else:
             raise ValueError(
                 "Unsupported type: {}. The data must be a non-string sequence or None.".format(
@@ -247,9 +248,9 @@ class SyncedList(SyncedCollection, MutableSequence):
             self._data.remove(self._from_base(data=value, parent=self))
 
     def clear(self):  # noqa: D102
-        self._data = []
-        with self._thread_lock:
-            self._save()
+        # The previous content of a root collection is irrelevant here.
+        with self._load_and_save(load=self._root is not None):
+            self._data.clear()
 
     def __lt__(self, other):
         if isinstance(other, type(self)):
-- 
2.43.0


From 0da13efb22796d150bca008edadbf7f08ccfc361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:48 +0000
Subject: [PATCH 06/27] fix: make SyncedList.pop and SyncedList.reverse single
 operations

Both were inherited from MutableSequence, which composes them of separate
reads and writes. A concurrent mutation could slip in between, and an error
half way through left the list partially reversed.
---
 synced_collections/data_types/synced_list.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index f12fc0b..e29d368 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -247,6 +247,15 @@ class SyncedList(SyncedCollection, MutableSequence):
         with self._load_and_save, self._suspend_sync:
             self._data.remove(self._from_base(data=value, parent=self))
 
+    def pop(self, index=-1):  # noqa: D102
+        with self._load_and_save:
+            ret = self._data.pop(index)
+        return ret
+
+    def reverse(self):  # noqa: D102
+        with self._load_and_save:
+            self._data.reverse()
+
     def clear(self):  # noqa: D102
         # The previous content of a root collection is irrelevant here.
         with self._load_and_save(load=self._root is not None):
-- 
2.43.0


From f2de0cbf98a48ff146674bd3fe3f85f7babd3c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:45 +0000
Subject: [PATCH 07/27] fix: evaluate and validate arguments before taking
 locks

Reading a synced collection passed as an argument may take the locks of that
collection, so two threads assigning collections to each other could deadlock.
Arguments are now converted to plain data first. update validates all of the
data before changing anything and accepts a keyword named 'other'.
---
 .../data_types/synced_collection.py              | 16 ++++++++++++++++
 synced_collections/data_types/synced_dict.py     | 15 ++++++++++-----
 synced_collections/data_types/synced_list.py     | 11 ++++++++---
 3 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index e021bf9..13a5e76 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -26,6 +26,22 @@ _collection_resolver = AbstractTypeResolver(
 )
 
 
+def _unsync(data):
+    """Replace all synced collections contained in data by their current content.
+
+    Accessing another synced collection may require acquiring its locks. To avoid
+    doing so while already holding a lock, the arguments of all operations must
+    be converted by this function beforehand.
+    """
+    if _sc_resolver.get_type(data) == "SYNCEDCOLLECTION":
+        return data()
+    elif isinstance(data, dict):
+        return {key: _unsync(value) for key, value in data.items()}
+    elif isinstance(data, (list, tuple)):
+        return [_unsync(value) for value in data]
+    return data
+
+
 class _LoadAndSave:
     """A context manager for :class:`SyncedCollection` to wrap saving and loading.
 
diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index c1bc871..07a1c8e 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -11,7 +11,7 @@ give a dict-like API to a synchronized data structure.
 from collections.abc import Mapping, MutableMapping
 
 from ..utils import AbstractTypeResolver
-from .synced_collection import SyncedCollection, _sc_resolver
+from .synced_collection import SyncedCollection, _sc_resolver, _unsync
 
 # Identifies mappings, which are the base type for this class.
 _mapping_resolver = AbstractTypeResolver(
@@ -179,6 +179,7 @@ class SyncedDict(SyncedCollection, MutableMapping):
             )
 
     def __setitem__(self, key, value):
+        value = _unsync(value)
         self._validate({key: value})
         with self._load_and_save, self._suspend_sync:
             self._data[key] = self._from_base(value, parent=self)
@@ -198,6 +199,7 @@ class SyncedDict(SyncedCollection, MutableMapping):
 
         """
         if _mapping_resolver.get_type(data) == "MAPPING":
+            data = _unsync(data)
             self._validate(data)
             # The previous content of a root collection is irrelevant here.
             with self._load_and_save(load=self._root is not None):
@@ -240,7 +242,7 @@ class SyncedDict(SyncedCollection, MutableMapping):
         with self._load_and_save(load=self._root is not None):
             self._data.clear()
 
-    def update(self, other=None, **kwargs):  # noqa: D102
+    def update(self, other=None, /, **kwargs):  # noqa: D102
         if other is not None:
             # Convert sequence of key, value pairs to dict before validation
             if _mapping_resolver.get_type(other) != "MAPPING":
@@ -248,12 +250,15 @@ class SyncedDict(SyncedCollection, MutableMapping):
         else:
             other = {}
 
+        # The order here is important to ensure that the promised sequence of
+        # overrides is obeyed: kwargs > other > existing data.
+        new_data = _unsync({**_unsync(other), **kwargs})
+        self._validate(new_data)
         with self._load_and_save:
-            # The order here is important to ensure that the promised sequence of
-            # overrides is obeyed: kwargs > other > existing data.
-            self._update({**self._data, **other, **kwargs})
+            self._update({**self._data, **new_data}, _validate=True)
 
     def setdefault(self, key, default=None):  # noqa: D102
+        default = _unsync(default)
         with self._load_and_save:
             if key in self._data:
                 ret = self._data[key]
diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index e29d368..a70193f 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -16,7 +16,7 @@ from ..numpy_utils import (
     _numpy_cache_blocklist,
 )
 from ..utils import AbstractTypeResolver
-from .synced_collection import SyncedCollection, _sc_resolver
+from .synced_collection import SyncedCollection, _sc_resolver, _unsync
 
 # Identifies sequences, which are the base type for this class.
 _sequence_resolver = AbstractTypeResolver(
@@ -194,6 +194,7 @@ class SyncedList(SyncedCollection, MutableSequence):
         """
         data = _convert_numpy(data)
         if _sequence_resolver.get_type(data) == "SEQUENCE":
+            data = _unsync(data)
             self._validate(data)
             # The previous content of a root collection is irrelevant here.
             with self._load_and_save(load=self._root is not None):
@@ -206,6 +207,7 @@ class SyncedList(SyncedCollection, MutableSequence):
             )
 
     def __setitem__(self, key, value):
+        value = _unsync(value)
         self._validate(value)
         with self._load_and_save, self._suspend_sync:
             self._data[key] = self._from_base(data=value, parent=self)
@@ -216,7 +218,7 @@ class SyncedList(SyncedCollection, MutableSequence):
 
     def __iadd__(self, iterable):
         # Convert input to a list so that iterators work as well as iterables.
-        iterable_data = list(iterable)
+        iterable_data = _unsync(list(iterable))
         self._validate(iterable_data)
         with self._load_and_save, self._suspend_sync:
             self._data += [
@@ -225,18 +227,20 @@ class SyncedList(SyncedCollection, MutableSequence):
         return self
 
     def insert(self, index, item):  # noqa: D102
+        item = _unsync(item)
         self._validate(item)
         with self._load_and_save, self._suspend_sync:
             self._data.insert(index, self._from_base(data=item, parent=self))
 
     def append(self, item):  # noqa: D102
+        item = _unsync(item)
         self._validate(item)
         with self._load_and_save, self._suspend_sync:
             self._data.append(self._from_base(data=item, parent=self))
 
     def extend(self, iterable):  # noqa: D102
         # Convert iterable to a list to ensure generators are exhausted only once
-        iterable_data = list(iterable)
+        iterable_data = _unsync(list(iterable))
         self._validate(iterable_data)
         with self._load_and_save, self._suspend_sync:
             self._data.extend(
@@ -244,6 +248,7 @@ class SyncedList(SyncedCollection, MutableSequence):
             )
 
     def remove(self, value):  # noqa: D102
+        value = _unsync(value)
         with self._load_and_save, self._suspend_sync:
             self._data.remove(self._from_base(data=value, parent=self))
 
-- 
2.43.0


From 0f98c01b4952af61fefcb7eff0f1d1e708e4a951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:42 +0000
Subject: [PATCH 08/27] fix: hold the lock while reading

A read merges the loaded data into the data structure in memory and then
returns parts of it. Without the lock, concurrent operations on the same
collection saw half merged data or merged outdated data back. Iterators, repr
and the list searches operate on a copy, since the data may be reloaded while
they are running.
---
 .../data_types/synced_collection.py           | 48 +++++++++----------
 synced_collections/data_types/synced_dict.py  | 14 +++---
 synced_collections/data_types/synced_list.py  | 13 ++++-
 3 files changed, 41 insertions(+), 34 deletions(-)

diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index 13a5e76..bfe2e93 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -46,10 +46,11 @@ class _LoadAndSave:
     """A context manager for :class:`SyncedCollection` to wrap saving and loading.
 
     Any write operation on a synced collection must be preceded by a load and
-    followed by a save. Moreover, additional logic may be required to handle
-    other aspects of the synchronization, particularly the acquisition of thread
-    locks. This class abstracts this concept, making it easy for subclasses to
-    customize the behavior if needed (for instance, to introduce additional locks).
+    followed by a save, while read operations only require the former. Moreover,
+    additional logic may be required to handle other aspects of the
+    synchronization, particularly the acquisition of thread locks. This class
+    abstracts this concept, making it easy for subclasses to customize the
+    behavior if needed (for instance, to introduce additional locks).
     """
 
     def __init__(self, collection, load=True, save=True):
@@ -170,13 +171,13 @@ class SyncedCollection(Collection):
     Whether or not :class:`SyncedCollection` objects are thread-safe depends on the
     implementation of the backend. Thread-safety of SyncedCollection objects
     is predicated on backends providing an atomic write operation. All concrete
-    collection types use mutexes to guard against concurrent write operations,
-    while allowing read operations to happen freely. The validity of this mode
-    of access depends on the write operations of a SyncedCollection being
-    atomic, specifically the `:meth:`~._save_to_resource` method. Whether or not
-    a particular subclass of :class:`SyncedCollection` is thread-safe should be
-    indicated by that subclass setting the ``_supports_threading`` class variable
-    to ``True``. This variable is set to ``False`` by :class:`SyncedCollection`,
+    collection types use mutexes to guard against concurrent operations. Since
+    reading also updates the data in memory, this includes read operations. The
+    validity of this mode of access depends on the write operations of a
+    SyncedCollection being atomic, specifically the
+    `:meth:`~._save_to_resource` method. Whether or not a particular subclass of
+    :class:`SyncedCollection` is thread-safe should be indicated by that subclass
+    setting the ``_supports_threading`` class variable to ``True``. This variable is set to ``False`` by :class:`SyncedCollection`,
     so subclasses must explicitly opt-in to support threading by setting this
     variable to ``True``.
 
@@ -503,20 +504,22 @@ class SyncedCollection(Collection):
     # all data structures and regardless of backend.
 
     def __getitem__(self, key):
-        self._load()
-        return self._data[key]
+        with self._load_and_save(save=False):
+            return self._data[key]
 
     def __delitem__(self, key):
         with self._load_and_save:
             del self._data[key]
 
     def __iter__(self):
-        self._load()
-        return iter(self._data)
+        # The underlying data may be changed by other threads (or reloaded) while
+        # the iterator is being consumed, so it must operate on a copy.
+        with self._load_and_save(save=False):
+            return iter(list(self._data))
 
     def __len__(self):
-        self._load()
-        return len(self._data)
+        with self._load_and_save(save=False):
+            return len(self._data)
 
     def __call__(self):
         """Get an equivalent but unsynced object of the base data type.
@@ -527,20 +530,17 @@ class SyncedCollection(Collection):
             An equivalent unsynced collection satisfying :meth:`is_base_type`.
 
         """
-        self._load()
-        return self._to_base()
+        with self._load_and_save(save=False):
+            return self._to_base()
 
     def __eq__(self, other):
-        self._load()
         if isinstance(other, type(self)):
             return self() == other()
         else:
             return self() == other
 
     def __repr__(self):
-        self._load()
-        return repr(self._data)
+        return repr(self())
 
     def __str__(self):
-        self._load()
-        return str(self._data)
+        return str(self())
diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index 07a1c8e..353f1ce 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -212,20 +212,18 @@ class SyncedDict(SyncedCollection, MutableMapping):
             )
 
     def keys(self):  # noqa: D102
-        self._load()
-        return self._data.keys()
+        with self._load_and_save(save=False):
+            return self._data.keys()
 
     def values(self):  # noqa: D102
-        self._load()
-        return self._to_base().values()
+        return self().values()
 
     def items(self):  # noqa: D102
-        self._load()
-        return self._to_base().items()
+        return self().items()
 
     def get(self, key, default=None):  # noqa: D102
-        self._load()
-        return self._data.get(key, default)
+        with self._load_and_save(save=False):
+            return self._data.get(key, default)
 
     def pop(self, key, default=None):  # noqa: D102
         with self._load_and_save:
diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index a70193f..58ca8c9 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -213,8 +213,17 @@ class SyncedList(SyncedCollection, MutableSequence):
             self._data[key] = self._from_base(data=value, parent=self)
 
     def __reversed__(self):
-        self._load()
-        return reversed(self._data)
+        with self._load_and_save(save=False):
+            return reversed(list(self._data))
+
+    def __contains__(self, value):
+        return value in self()
+
+    def index(self, value, *args):  # noqa: D102
+        return self().index(value, *args)
+
+    def count(self, value):  # noqa: D102
+        return self().count(value)
 
     def __iadd__(self, iterable):
         # Convert input to a list so that iterators work as well as iterables.
-- 
2.43.0


From 9bb6b17d16b735379dee423450970923c37fb5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:58 +0000
Subject: [PATCH 09/27] fix: keep the lock of the old file when a collection is
 bound to a new file

Setting the filename moved the lock to the new name. Other collections bound to
the old file failed with a KeyError from then on, and the lock of an already
used new file was replaced. An operation that waits for the lock while the
filename changes now acquires, and releases, the right one.
---
 synced_collections/backends/collection_json.py     | 14 +++++++-------
 synced_collections/data_types/synced_collection.py | 14 +++++++++++---
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/synced_collections/backends/collection_json.py b/synced_collections/backends/collection_json.py
index ddb009c..2c8a761 100644
--- a/synced_collections/backends/collection_json.py
+++ b/synced_collections/backends/collection_json.py
@@ -9,6 +9,7 @@ import os
 import sys
 import uuid
 from collections.abc import Mapping, Sequence
+from threading import RLock
 from typing import Callable, FrozenSet
 from typing import Sequence as Sequence_t
 
@@ -218,16 +219,15 @@ class JSONCollection(SyncedCollection):
 
     @filename.setter
     def filename(self, value):
-        # When setting the filename we must also remap the locks.
-        with self._thread_lock:
-            if type(self)._threading_support_is_active:
-                old_lock_id = self._lock_id
+        # The new file needs a lock. The lock of the old file must be retained
+        # because there may be other collections bound to that file.
+        if self._supports_threading:
+            with self._cls_lock:
+                type(self)._locks.setdefault(value, RLock())
 
+        with self._thread_lock:
             self._filename = value
 
-            if type(self)._threading_support_is_active:
-                type(self)._locks[self._lock_id] = type(self)._locks.pop(old_lock_id)
-
     @property
     def _lock_id(self):
         return self._filename
diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index bfe2e93..e7c6bbc 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -57,20 +57,28 @@ class _LoadAndSave:
         self._collection = collection
         self._load = load
         self._save = save
+        self._acquired_locks = []
 
     def __call__(self, load=True, save=True):
         """Get a context that only performs the requested synchronization steps."""
         return type(self)(self._collection, load=load, save=save)
 
     def __enter__(self):
-        self._collection._thread_lock.__enter__()
+        lock = self._collection._thread_lock
+        lock.__enter__()
+        while lock is not self._collection._thread_lock:
+            # The collection has been bound to a different resource while waiting.
+            lock.__exit__(None, None, None)
+            lock = self._collection._thread_lock
+            lock.__enter__()
+        self._acquired_locks.append(lock)
         try:
             if self._load:
                 self._collection._load()
         except BaseException:
             # The body of the with statement (and hence __exit__) is not going
             # to be executed.
-            self._collection._thread_lock.__exit__(None, None, None)
+            self._acquired_locks.pop().__exit__(None, None, None)
             raise
 
     def __exit__(self, exc_type, exc_val, exc_tb):
@@ -79,7 +87,7 @@ class _LoadAndSave:
             if self._save and exc_type is None:
                 self._collection._save()
         finally:
-            self._collection._thread_lock.__exit__(exc_type, exc_val, exc_tb)
+            self._acquired_locks.pop().__exit__(exc_type, exc_val, exc_tb)
 
 
 class SyncedCollection(Collection):
-- 
2.43.0


From 9fca1dc44ea32924e1561b3d1f1a3c54c0b176d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:00 +0000
Subject: [PATCH 10/27] fix: restore the buffer capacity when a backend-wide
 context fails

The capacity given to buffer_backend stayed in effect if the flush on exit (or
the one triggered by lowering the capacity on entry) raised a BufferedError. In
the latter case the backend also remained buffered forever.
---
 .../buffers/file_buffered_collection.py       | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index 799e50f..e46700a 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -39,19 +39,26 @@ class _FileBufferedContext(_CounterFuncContext):
         return self
 
     def __enter__(self):
+        buffer_capacity, self._buffer_capacity = self._buffer_capacity, None
+        original_buffer_capacity = None
+        if buffer_capacity is not None:
+            original_buffer_capacity = self._cls.get_buffer_capacity()
+            try:
+                self._cls.set_buffer_capacity(buffer_capacity)
+            except BaseException:
+                # The context is not entered if flushing the buffer fails.
+                self._cls.set_buffer_capacity(original_buffer_capacity)
+                raise
         super().__enter__()
-        if self._buffer_capacity is not None:
-            self._original_buffer_capacitys.append(self._cls.get_buffer_capacity())
-            self._cls.set_buffer_capacity(self._buffer_capacity)
-        else:
-            self._original_buffer_capacitys.append(None)
-        self._buffer_capacity = None
+        self._original_buffer_capacitys.append(original_buffer_capacity)
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        super().__exit__(exc_type, exc_val, exc_tb)
-        original_buffer_capacity = self._original_buffer_capacitys.pop()
-        if original_buffer_capacity is not None:
-            self._cls.set_buffer_capacity(original_buffer_capacity)
+        try:
+            super().__exit__(exc_type, exc_val, exc_tb)
+        finally:
+            original_buffer_capacity = self._original_buffer_capacitys.pop()
+            if original_buffer_capacity is not None:
+                self._cls.set_buffer_capacity(original_buffer_capacity)
 
 
 class _BufferedLoadAndSave(_LoadAndSave):
-- 
2.43.0


From 80308be7ce7b6d907d2763043df18c3b4a134f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:25 +0000
Subject: [PATCH 11/27] fix: hold the buffer lock during the whole flush

Only the bookkeeping was locked, so a flush forced by one thread raced with the
operations of others, and collections registered during the flush were lost
when the registry was replaced afterwards. Collections that are still buffered
were also dropped from the registry if any file could not be flushed.
---
 .../buffers/file_buffered_collection.py       | 80 +++++++++----------
 .../buffers/memory_buffered_collection.py     |  4 +-
 .../serialized_file_buffered_collection.py    |  8 +-
 3 files changed, 43 insertions(+), 49 deletions(-)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index e46700a..fbd2b0a 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -264,6 +264,8 @@ class FileBufferedCollection(BufferedCollection):
 
         """
         with self._buffer_lock:
+            type(self)._buffered_collections[id(self)] = self
+
             if self._filename not in type(self)._buffer:
                 # The first time this method is called, if nothing is in the buffer
                 # for this file then we cannot guarantee that the _data attribute
@@ -276,9 +278,6 @@ class FileBufferedCollection(BufferedCollection):
                     self._update(data)
                 self._initialize_data_in_buffer()
 
-        # This storage can be safely updated every time on every thread.
-        type(self)._buffered_collections[id(self)] = self
-
     @abstractmethod
     def _initialize_data_in_buffer(self):
         """Create the initial entry for the data in the cache.
@@ -320,47 +319,42 @@ class FileBufferedCollection(BufferedCollection):
         """
         issues = {}
 
-        # We need to use the list of buffered objects rather than directly
-        # looping over the local cache so that each collection can
-        # independently decide whether or not to flush based on whether it's
-        # still buffered (if buffered contexts are nested).
-        remaining_collections = {}
-        while True:
-            # This is the only part that needs to be locked; once items are
-            # removed from the buffer they can be safely handled on separate
-            # threads.
-            with cls._BUFFER_LOCK:
-                try:
-                    (
-                        col_id,
-                        collection,
-                    ) = cls._buffered_collections.popitem()
-                except KeyError:
-                    break
-
-            if collection._is_buffered and not force:
-                # If force is false, then the only way for the collection to
-                # still be buffered is if there are nested buffered contexts.
-                # In that case, flush_buffer was called due to the exit of an
-                # inner buffered context, and we shouldn't do anything with
-                # this object, so we just put it back in the list *and* skip
-                # the flush.
-                remaining_collections[col_id] = collection
-                continue
-            elif force and retain_in_force:
-                # If force is true, the collection must still be buffered.
-                # In that case, the retain_in_force parameter controls whether
-                # we we want to put it back in the remaining_collections list
-                # after flushing any writes.
-                remaining_collections[col_id] = collection
-
+        # The whole flush must be locked. Otherwise, other threads could register
+        # collections or modify the buffered data in the meantime.
+        with cls._BUFFER_LOCK:
+            # We need to use the list of buffered objects rather than directly
+            # looping over the local cache so that each collection can
+            # independently decide whether or not to flush based on whether it's
+            # still buffered (if buffered contexts are nested).
+            remaining_collections = {}
             try:
-                collection._flush(force=force)
-            except (OSError, MetadataError) as err:
-                issues[collection._filename] = err
-        if not issues:
-            cls._buffered_collections = remaining_collections
-        else:
+                while cls._buffered_collections:
+                    col_id, collection = cls._buffered_collections.popitem()
+
+                    if collection._is_buffered and not force:
+                        # If force is false, then the only way for the collection
+                        # to still be buffered is if there are nested buffered
+                        # contexts. In that case, flush_buffer was called due to
+                        # the exit of an inner buffered context, and we shouldn't
+                        # do anything with this object, so we just put it back in
+                        # the list *and* skip the flush.
+                        remaining_collections[col_id] = collection
+                        continue
+                    elif force and retain_in_force:
+                        # If force is true, the collection must still be buffered.
+                        # In that case, the retain_in_force parameter controls
+                        # whether we we want to put it back in the
+                        # remaining_collections list after flushing any writes.
+                        remaining_collections[col_id] = collection
+
+                    try:
+                        collection._flush(force=force)
+                    except (OSError, MetadataError) as err:
+                        issues[collection._filename] = err
+            finally:
+                cls._buffered_collections.update(remaining_collections)
+
+        if issues:
             raise BufferedError(issues)
 
     @classmethod
diff --git a/synced_collections/buffers/memory_buffered_collection.py b/synced_collections/buffers/memory_buffered_collection.py
index 43f33c8..c9ed765 100644
--- a/synced_collections/buffers/memory_buffered_collection.py
+++ b/synced_collections/buffers/memory_buffered_collection.py
@@ -181,8 +181,6 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
         See :meth:`~._initialize_data_in_buffer` for details on the data stored
         in the buffer and the integrity checks performed.
         """
-        type(self)._buffered_collections[id(self)] = self
-
         # Since one object could write to the buffer and trigger a flush while
         # another object was found in the buffer and attempts to proceed
         # normally, we have to serialize this whole block. In theory we might
@@ -193,6 +191,8 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
         # dicts are thread-safe because of the GIL. However, it's best not to
         # depend on the thread-safety of built-in containers.
         with self._buffer_lock:
+            type(self)._buffered_collections[id(self)] = self
+
             if self._filename in type(self)._buffer:
                 # Always track all instances pointing to the same data.
 
diff --git a/synced_collections/buffers/serialized_file_buffered_collection.py b/synced_collections/buffers/serialized_file_buffered_collection.py
index f818760..ed53837 100644
--- a/synced_collections/buffers/serialized_file_buffered_collection.py
+++ b/synced_collections/buffers/serialized_file_buffered_collection.py
@@ -196,8 +196,6 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
         See :meth:`~._initialize_data_in_buffer` for details on the data stored
         in the buffer and the integrity checks performed.
         """
-        type(self)._buffered_collections[id(self)] = self
-
         # Since one object could write to the buffer and trigger a flush while
         # another object was found in the buffer and attempts to proceed
         # normally, we have to serialize this whole block. In theory we might
@@ -208,6 +206,8 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
         # dicts are thread-safe because of the GIL. However, it's best not to
         # depend on the thread-safety of built-in containers.
         with self._buffer_lock:
+            type(self)._buffered_collections[id(self)] = self
+
             if self._filename in type(self)._buffer:
                 # Always track all instances pointing to the same data.
                 blob = self._encode(self._data)
@@ -256,8 +256,8 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
             # another thread.
             blob = type(self)._buffer[self._filename]["contents"]
 
-        if type(self)._CURRENT_BUFFER_SIZE > type(self)._BUFFER_CAPACITY:
-            type(self)._flush_buffer(force=True)
+            if type(self)._CURRENT_BUFFER_SIZE > type(self)._BUFFER_CAPACITY:
+                type(self)._flush_buffer(force=True)
         return self._decode(blob)
 
     def _initialize_data_in_buffer(self):
-- 
2.43.0


From e133ca42e7f7475b4560370c108bdbc641b6ec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:25 +0000
Subject: [PATCH 12/27] fix: decide whether to flush from the buffered contents

The serialized buffer compared the data of the collection being flushed with
the stored hash. If that collection had only been read while another one bound
to the same file was modified, the modification was discarded.
---
 .../buffers/serialized_file_buffered_collection.py  | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/synced_collections/buffers/serialized_file_buffered_collection.py b/synced_collections/buffers/serialized_file_buffered_collection.py
index ed53837..a7b06e5 100644
--- a/synced_collections/buffers/serialized_file_buffered_collection.py
+++ b/synced_collections/buffers/serialized_file_buffered_collection.py
@@ -109,7 +109,9 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
                     # multiple collections pointing to the same file, etc).
                     return
                 else:
-                    blob = self._encode(self._data)
+                    # The contents may have been modified via another collection
+                    # pointing to the same file, so our own data is irrelevant.
+                    blob = cached_data["contents"]
 
                     # If the contents have not been changed since the initial read,
                     # we don't need to rewrite it.
@@ -118,17 +120,14 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
                             # Validate that the file hasn't been changed by
                             # something else.
                             if cached_data["metadata"] != self._get_file_metadata():
-                                raise MetadataError(
-                                    self._filename, cached_data["contents"]
-                                )
-                            self._update(self._decode(cached_data["contents"]))
+                                raise MetadataError(self._filename, blob)
+                            self._update(self._decode(blob))
                             self._save_to_resource()
                     finally:
                         # Whether or not an error was raised, the cache must be
                         # cleared to ensure a valid final buffer state.
                         del type(self)._buffer[self._filename]
-                        data_size = len(cached_data["contents"])
-                        type(self)._CURRENT_BUFFER_SIZE -= data_size
+                        type(self)._CURRENT_BUFFER_SIZE -= len(blob)
 
     @staticmethod
     def _hash(blob):
-- 
2.43.0


From 8077e0bf49af54207a0f21610f7d62e5a758aa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:37 +0000
Subject: [PATCH 13/27] fix: do not share the data structure between memory
 buffered collections

Collections on one file were pointed to the same data structure while buffered.
This detached the nested collections obtained before, made nested collections
belong to a foreign root, and could not be undone for lists when contexts are
nested. The buffer now references the collection holding the current content,
from which the others are updated in place. A flush that fails because of a
conflict no longer keeps the rejected content in the buffer, and a forced flush
no longer accepts outside changes to files that were not modified.
---
 .../buffers/memory_buffered_collection.py     | 112 +++++++++---------
 1 file changed, 53 insertions(+), 59 deletions(-)

diff --git a/synced_collections/buffers/memory_buffered_collection.py b/synced_collections/buffers/memory_buffered_collection.py
index c9ed765..f52deee 100644
--- a/synced_collections/buffers/memory_buffered_collection.py
+++ b/synced_collections/buffers/memory_buffered_collection.py
@@ -4,12 +4,10 @@
 """A standardized buffering implementation for file-based backends.
 
 The buffering method implemented here involves a single buffer of references to
-in-memory objects containing data. These objects are the base types of a given
-:class:`~.SyncedCollection` type, e.g. a dict for all dict-like collections,
-and are the underlying data stores for those types. This buffering method
-exploits the fact that all mutable collection types in Python are references,
-so modifying one such collection results in modifying all of them, thereby
-removing any need for more complicated synchronization protocols.
+the :class:`~.SyncedCollection` instances whose in-memory data is the current
+content of a given file. Modifying the collection that is referenced in the
+buffer requires no further action, while all other collections pointing to the
+same file are updated in place from the referenced one whenever necessary.
 """
 
 from ..errors import MetadataError
@@ -20,12 +18,10 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
     """A :class:`~.SyncedCollection` that defers all I/O when buffered.
 
     This class extends the :class:`~.FileBufferedCollection` and implements a
-    concrete storage mechanism in which collections store a reference to their
-    data in a buffer. This method takes advantage of the reference-based semantics
-    of built-in Python mutable data types like dicts and lists. All collections
-    referencing the same file are pointed to the same underlying data store in
-    buffered mode, allowing all changes in one to be transparently reflected in
-    the others. To further improve performance, the buffer size is determined
+    concrete storage mechanism in which collections store a reference to
+    themselves in a buffer. All collections referencing the same file share the
+    data of the collection that modified it last, so all changes in one are
+    transparently reflected in the others. To further improve performance, the buffer size is determined
     only based on the number of modified collections stored, not the total number.
     As a result, the maximum capacity is only reached when a large number of
     modified collections are stored, and unmodified collections are only removed
@@ -101,62 +97,48 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
             originally loaded into the buffer and modified.
 
         """
-        # Different files in the buffer can be safely flushed simultaneously,
-        # but a given file can only be flushed on one thread at once.
-        if not self._is_buffered or force:
+        with self._buffer_lock:
+            if self._is_buffered and not force:
+                return
+
             try:
                 cached_data = type(self)._buffer[self._filename]
             except KeyError:
-                # If we got to this point, it means that another collection
-                # pointing to the same underlying resource flushed the buffer.
-                # If so, then the data in this instance is still pointing to
-                # that object's data store. If this was a force flush, then
-                # the data store is still the cached data, so we're fine. If
-                # this wasn't a force flush, then we have to reload this
-                # object's data so that it will stop sharing data with the
-                # other instance.
-                if not force:
-                    self._data.clear()
-                    self._update(self._load_from_resource())
-            else:
+                # There are valid reasons for nothing to be in the cache, e.g.
+                # another collection pointing to the same file was flushed.
+                return
+
+            retain = False
+            try:
                 # If the contents have not been changed since the initial read,
                 # we don't need to rewrite it.
-                try:
+                if cached_data["modified"]:
                     # Validate that the file hasn't been changed by
                     # something else.
-                    if cached_data["modified"]:
-                        if cached_data["metadata"] != self._get_file_metadata():
-                            raise MetadataError(self._filename, cached_data["contents"])
-                        self._save_to_resource()
-                finally:
-                    # Whether or not an error was raised, the cache must be
-                    # cleared to ensure a valid final buffer state, unless
-                    # we're force flushing in which case we never delete, but
-                    # take note that the data is no longer modified relative to
-                    # its representation on disk.
-                    if cached_data["modified"]:
-                        type(self)._CURRENT_BUFFER_SIZE -= 1
-                    if not force:
-                        del type(self)._buffer[self._filename]
-                    else:
+                    if cached_data["metadata"] != self._get_file_metadata():
+                        raise MetadataError(
+                            self._filename, cached_data["collection"]._to_base()
+                        )
+                    self._update_from_buffer()
+                    self._save_to_resource()
+                    if force:
                         # Have to update the metadata on a force flush because
                         # we could modify this item again later, leading to
                         # another (possibly forced) flush afterwards that will
                         # appear invalid if the metadata isn't updated to the
                         # metadata after the current flush.
                         cached_data["metadata"] = self._get_file_metadata()
-                        cached_data["modified"] = False
-        else:
-            # If this object is still buffered _and_ this wasn't a force flush,
-            # that implies a nesting of buffered contexts in which another
-            # collection pointing to the same data flushed the buffer. This
-            # object's data will still be pointing to that one, though, so the
-            # safest choice is to reinitialize its data from scratch.
-            with self._suspend_sync:
-                self._data = {
-                    key: self._from_base(data=value, parent=self)
-                    for key, value in self._to_base().items()
-                }
+                retain = force
+            finally:
+                # If an error was raised, the cache must be cleared to ensure a
+                # valid final buffer state. Otherwise, the data is retained when
+                # force flushing, but it is no longer modified relative to its
+                # representation on disk.
+                if cached_data["modified"]:
+                    cached_data["modified"] = False
+                    type(self)._CURRENT_BUFFER_SIZE -= 1
+                if not retain:
+                    del type(self)._buffer[self._filename]
 
     def _load(self):
         """Load data from the backend but buffer if needed.
@@ -202,6 +184,7 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
                 if not type(self)._buffer[self._filename]["modified"]:
                     type(self)._buffer[self._filename]["modified"] = True
                     type(self)._CURRENT_BUFFER_SIZE += 1
+                type(self)._buffer[self._filename]["collection"] = self
             else:
                 self._initialize_data_in_buffer(modified=True)
                 type(self)._CURRENT_BUFFER_SIZE += 1
@@ -223,10 +206,19 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
             underlying file.
 
         """
-        super()._load_from_buffer()
+        with self._buffer_lock:
+            super()._load_from_buffer()
+            self._update_from_buffer()
 
-        # Set local data to the version in the buffer.
-        self._data = type(self)._buffer[self._filename]["contents"]
+    def _update_from_buffer(self):
+        """Update the data to match the version in the buffer.
+
+        This is only necessary if the buffered data was last modified via another
+        collection pointing to the same file.
+        """
+        collection = type(self)._buffer[self._filename]["collection"]
+        if collection is not self:
+            self._update(collection._to_base())
 
     def _initialize_data_in_buffer(self, modified=False):
         """Create the initial entry for the data in the cache.
@@ -235,6 +227,8 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
             - The metadata provided by :meth:`~._get_file_metadata`. Used to
               check if a file has been modified on disk since it was loaded
               into the buffer.
+            - The collection whose data is the current content of the buffer, i.e.
+              the one that loaded the file or last modified its data.
             - A flag indicating whether any operation that saves to the buffer
               has occurred, e.g. a ``__setitem__`` call. This flag is used to
               determine what collections need to be saved to disk when
@@ -249,7 +243,7 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
         """
         metadata = self._get_file_metadata()
         type(self)._buffer[self._filename] = {
-            "contents": self._data,
+            "collection": self,
             "metadata": metadata,
             "modified": modified,
         }
-- 
2.43.0


From 68ed4b6ebf9862a29a48f5dcc6fe7873997bf85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:37 +0000
Subject: [PATCH 14/27] fix: detect changes of a file that is just being
 buffered

The metadata used to detect outside changes was obtained after reading the
file, so a change made in between was silently overwritten by the flush.
---
 synced_collections/buffers/file_buffered_collection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index fbd2b0a..3a250c7 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -273,10 +273,14 @@ class FileBufferedCollection(BufferedCollection):
                 # between when _data was last updated and when this load is being
                 # called. As a result, we have to load from the resource here to be
                 # safe.
+                # The metadata must be obtained first so that changes made to
+                # the resource after it has been read are detected.
+                metadata = self._get_file_metadata()
                 data = self._load_from_resource()
                 with self._thread_lock, self._suspend_sync:
                     self._update(data)
                 self._initialize_data_in_buffer()
+                type(self)._buffer[self._filename]["metadata"] = metadata
 
     @abstractmethod
     def _initialize_data_in_buffer(self):
-- 
2.43.0


From cf099f315ef7df27b96c91689865367621362383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:37 +0000
Subject: [PATCH 15/27] fix: reject keys with dots in lists of the attribute
 access families

Mappings added through a list bypassed the validation, since only the dict
classes of these families declared the validators.
---
 synced_collections/backends/collection_json.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/synced_collections/backends/collection_json.py b/synced_collections/backends/collection_json.py
index 2c8a761..360322e 100644
--- a/synced_collections/backends/collection_json.py
+++ b/synced_collections/backends/collection_json.py
@@ -595,6 +595,10 @@ class JSONAttrList(JSONList):
     """A :class:`JSONList` whose dict-like children will be of type :class:`JSONAttrDict`."""
 
     _backend = __name__ + ".attr"  # type: ignore
+    # Define the validators in case subclasses want to inherit the correct
+    # behavior, but define _all_validators for performance of this class.
+    _validators = (no_dot_in_key,)
+    _all_validators = (json_attr_dict_validator,)
 
 
 class BufferedJSONAttrDict(BufferedJSONDict, AttrDict):
@@ -611,6 +615,10 @@ class BufferedJSONAttrList(BufferedJSONList):
     """A :class:`BufferedJSONList` whose dict-like children will be of type :class:`BufferedJSONAttrDict`."""  # noqa: E501
 
     _backend = __name__ + ".buffered_attr"  # type: ignore
+    # Define the validators in case subclasses want to inherit the correct
+    # behavior, but define _all_validators for performance of this class.
+    _validators = (no_dot_in_key,)
+    _all_validators = (json_attr_dict_validator,)
 
 
 class MemoryBufferedJSONAttrDict(MemoryBufferedJSONDict, AttrDict):
@@ -627,3 +635,7 @@ class MemoryBufferedJSONAttrList(MemoryBufferedJSONList):
     """A :class:`MemoryBufferedJSONList` whose dict-like children will be of type :class:`MemoryBufferedJSONAttrDict`."""  # noqa: E501
 
     _backend = __name__ + ".memory_buffered_attr"  # type: ignore
+    # Define the validators in case subclasses want to inherit the correct
+    # behavior, but define _all_validators for performance of this class.
+    _validators = (no_dot_in_key,)
+    _all_validators = (json_attr_dict_validator,)
-- 
2.43.0


From 3355b65b1decccbf2209850ae88ff6475f96f16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:37 +0000
Subject: [PATCH 16/27] fix: make require_string_key check mappings inside of
 sequences

The type resolver never returns NON_STR_SEQUENCE, so sequences were skipped.
---
 synced_collections/validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/synced_collections/validators.py b/synced_collections/validators.py
index 95e15cc..6f33b02 100644
--- a/synced_collections/validators.py
+++ b/synced_collections/validators.py
@@ -90,7 +90,7 @@ def require_string_key(data):
                     f"Mapping keys must be str, not {type(key).__name__}"
                 )
             require_string_key(value)
-    elif switch_type == "NON_STR_SEQUENCE":
+    elif switch_type == "SEQUENCE":
         for value in data:
             require_string_key(value)
 
-- 
2.43.0


From b043a25d6e5e3a8714697550b49038727a23800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:37 +0000
Subject: [PATCH 17/27] fix: raise AttributeError when deleting a missing
 attribute

Reading a missing key as attribute raises AttributeError already.
---
 synced_collections/data_types/attr_dict.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/synced_collections/data_types/attr_dict.py b/synced_collections/data_types/attr_dict.py
index 5e00e2a..8185631 100644
--- a/synced_collections/data_types/attr_dict.py
+++ b/synced_collections/data_types/attr_dict.py
@@ -62,4 +62,7 @@ class AttrDict:
         if key in self._PROTECTED_KEYS or key.startswith("__"):
             super().__delattr__(key)
         else:
-            self.__delitem__(key)
+            try:
+                self.__delitem__(key)
+            except KeyError as e:
+                raise AttributeError(e)
-- 
2.43.0


From 88ca5c9c164e7127bf7c1fa640d218283741f306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:37 +0000
Subject: [PATCH 18/27] fix: drop obsolete names from the protected keys

_name, _suspend_sync_ and _sync are not attributes of JSON collections. Setting
them as attributes stored the value on the object and lost it, while reading
them returned the value stored under that key.
---
 synced_collections/backends/collection_json.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/synced_collections/backends/collection_json.py b/synced_collections/backends/collection_json.py
index 360322e..8c4db92 100644
--- a/synced_collections/backends/collection_json.py
+++ b/synced_collections/backends/collection_json.py
@@ -238,10 +238,7 @@ _JSONDICT_PROTECTED_KEYS = frozenset(
     (
         # These are all protected keys that are inherited from data type classes.
         "_data",
-        "_name",
-        "_suspend_sync_",
         "_load",
-        "_sync",
         "_root",
         "_validators",
         "_all_validators",
-- 
2.43.0


From 7ec1e126a2291beb8f9f29cffe30358a0df8a849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:37 +0000
Subject: [PATCH 19/27] fix: do not cache classifications that depend on the
 value

The classification of subclasses of blocklisted types (e.g. numpy.matrix, or a
0-dimensional numpy.ma.MaskedArray) was cached although it depends on the
value. The same applies to objects whose __class__ differs from their type.
---
 synced_collections/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/synced_collections/utils.py b/synced_collections/utils.py
index f813570..78539dc 100644
--- a/synced_collections/utils.py
+++ b/synced_collections/utils.py
@@ -92,7 +92,12 @@ class AbstractTypeResolver:
                 if id_func(obj):
                     enum_type = data_type
                     break
-            if obj_type not in self.cache_blocklist:
+            # Some objects (e.g. mocks and proxies) report a class that differs
+            # from their type, in which case the type is not conclusive.
+            if (
+                not issubclass(obj_type, tuple(self.cache_blocklist))
+                and obj.__class__ is obj_type
+            ):
                 self.type_map[obj_type] = enum_type
 
         return enum_type
-- 
2.43.0


From 45e86428ea8bbf5959b53218529511b4deede9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:09 +0000
Subject: [PATCH 20/27] fix: validate the data stored in Zarr collections

Nothing verified that the data can be encoded, and lists did not even check for
string keys. Since an existing array is replaced before the data is encoded,
adding a value that is not JSON serializable destroyed the stored content.
Data is now validated up front unless a codec other than JSON is used.
---
 .../backends/collection_zarr.py               | 36 ++++++++++++++++---
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/synced_collections/backends/collection_zarr.py b/synced_collections/backends/collection_zarr.py
index 678f2d9..bfaa40a 100644
--- a/synced_collections/backends/collection_zarr.py
+++ b/synced_collections/backends/collection_zarr.py
@@ -2,10 +2,12 @@
 # All rights reserved.
 # This software is licensed under the BSD 3-Clause License.
 """Implements a Zarr :class:`~.SyncedCollection` backend."""
+from collections.abc import Mapping, Sequence
 from copy import deepcopy
 
 from .. import SyncedCollection, SyncedDict, SyncedList
-from ..validators import require_string_key
+from ..numpy_utils import _convert_numpy
+from ..validators import json_format_validator, require_string_key
 
 try:
     import numcodecs
@@ -15,6 +17,16 @@ except ImportError:
     ZARR = False
 
 
+def _convert_nested_numpy(data):
+    """Apply :func:`~._convert_numpy` to all elements of (nested) data."""
+    data = _convert_numpy(data)
+    if isinstance(data, Mapping):
+        return {key: _convert_nested_numpy(value) for key, value in data.items()}
+    elif isinstance(data, Sequence) and not isinstance(data, (str, bytes)):
+        return [_convert_nested_numpy(value) for value in data]
+    return data
+
+
 class ZarrCollection(SyncedCollection):
     r"""A :class:`~.SyncedCollection` that synchronizes with a Zarr group.
 
@@ -44,6 +56,7 @@ class ZarrCollection(SyncedCollection):
     """
 
     _backend = __name__  # type: ignore
+    _validators = (require_string_key,)
 
     def __init__(self, group=None, name=None, codec=None, *args, **kwargs):
         if not ZARR:
@@ -51,10 +64,27 @@ class ZarrCollection(SyncedCollection):
                 "The Zarr package must be installed to use the ZarrCollection."
             )
 
-        super().__init__(**kwargs)
+        # The codec must be defined prior to calling the superclass constructors
+        # because it determines which data is valid.
         self._group = group
         self._name = name
         self._object_codec = numcodecs.JSON() if codec is None else codec
+        super().__init__(**kwargs)
+
+    def _validate(self, data):
+        super()._validate(data)
+        # Other codecs may support data that cannot be represented in JSON.
+        root = self if self._root is None else self._root
+        if isinstance(root._object_codec, numcodecs.JSON):
+            try:
+                json_format_validator(data)
+            except TypeError as error:
+                # NumPy data is converted (which includes issuing a warning)
+                # before realizing that the result cannot be encoded.
+                try:
+                    _convert_nested_numpy(data)
+                finally:
+                    raise error
 
     def _load_from_resource(self):
         """Load the data from the Zarr group.
@@ -162,8 +192,6 @@ class ZarrDict(ZarrCollection, SyncedDict):
 
     """
 
-    _validators = (require_string_key,)
-
     def __init__(self, group=None, name=None, data=None, parent=None, *args, **kwargs):
         super().__init__(
             group=group, name=name, data=data, parent=parent, *args, **kwargs
-- 
2.43.0


From af3e2426708bbf0be1c39ba6570a53a454e21e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:25 +0000
Subject: [PATCH 21/27] fix: forget collections that left the buffered mode

A collection stayed registered with the buffer of its class after its own
buffered context had been left. Leaving a backend-wide context later on then
wrote and dropped the data that another collection, still buffered, had put
into the buffer for the same file.
---
 synced_collections/buffers/memory_buffered_collection.py    | 6 +++++-
 .../buffers/serialized_file_buffered_collection.py          | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/synced_collections/buffers/memory_buffered_collection.py b/synced_collections/buffers/memory_buffered_collection.py
index f52deee..b7fd4f6 100644
--- a/synced_collections/buffers/memory_buffered_collection.py
+++ b/synced_collections/buffers/memory_buffered_collection.py
@@ -98,7 +98,11 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
 
         """
         with self._buffer_lock:
-            if self._is_buffered and not force:
+            if not self._is_buffered:
+                # This instance must not be involved in flushing data that other
+                # instances put into the buffer later on.
+                type(self)._buffered_collections.pop(id(self), None)
+            elif not force:
                 return
 
             try:
diff --git a/synced_collections/buffers/serialized_file_buffered_collection.py b/synced_collections/buffers/serialized_file_buffered_collection.py
index a7b06e5..cc85c32 100644
--- a/synced_collections/buffers/serialized_file_buffered_collection.py
+++ b/synced_collections/buffers/serialized_file_buffered_collection.py
@@ -100,6 +100,10 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
         # Different files in the buffer can be safely flushed simultaneously,
         # but a given file can only be flushed on one thread at once.
         with self._buffer_lock:
+            if not self._is_buffered:
+                # This instance must not be involved in flushing data that other
+                # instances put into the buffer later on.
+                type(self)._buffered_collections.pop(id(self), None)
             if not self._is_buffered or force:
                 try:
                     cached_data = type(self)._buffer[self._filename]
-- 
2.43.0


From b85964a77c7af4d44a99216b53c5f0b8a9f04a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:25 +0000
Subject: [PATCH 22/27] fix: create the file when buffered modifications cancel
 out

If several collections on a missing file modified the buffered data and the
result was equal to the initial data, nothing was written. Since loading a
missing file keeps the data in memory, the collections then showed different
outdated data.
---
 .../buffers/serialized_file_buffered_collection.py            | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/synced_collections/buffers/serialized_file_buffered_collection.py b/synced_collections/buffers/serialized_file_buffered_collection.py
index cc85c32..8abc853 100644
--- a/synced_collections/buffers/serialized_file_buffered_collection.py
+++ b/synced_collections/buffers/serialized_file_buffered_collection.py
@@ -218,6 +218,10 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
                 buffer_size_change = len(blob) - len(cached_data["contents"])
                 type(self)._CURRENT_BUFFER_SIZE += buffer_size_change
                 cached_data["contents"] = blob
+                if cached_data["metadata"] is None:
+                    # The file does not exist yet, so it has to be written even
+                    # if the modifications of the data cancel each other out.
+                    cached_data["hash"] = None
             else:
                 # The only methods that could safely call sync without a load are
                 # destructive operations like `reset` or `clear` that completely
-- 
2.43.0


From d672236d422abd00f9c30ff5a68c7c5a86f59a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:38 +0000
Subject: [PATCH 23/27] fix: validate the object inside a zero-dimensional
 array

A NumPy array without dimensions can hold any object.  The validators accepted
such an array without looking at its item, so mappings with keys that are not
strings, and keys with dots in attribute dictionaries, could get in.
---
 synced_collections/backends/collection_json.py | 2 ++
 synced_collections/validators.py               | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/synced_collections/backends/collection_json.py b/synced_collections/backends/collection_json.py
index 8c4db92..2b98f4a 100644
--- a/synced_collections/backends/collection_json.py
+++ b/synced_collections/backends/collection_json.py
@@ -106,6 +106,8 @@ def json_attr_dict_validator(data):
             raise TypeError("NumPy extended precision types are not JSON serializable.")
         elif _is_complex(data):
             raise TypeError("Complex numbers are not JSON serializable.")
+        # Arrays without dimensions can contain arbitrary objects.
+        json_attr_dict_validator(data.item())
     else:
         raise TypeError(
             f"Object of type {type(data).__name__} is not JSON serializable."
diff --git a/synced_collections/validators.py b/synced_collections/validators.py
index 6f33b02..d7e6d52 100644
--- a/synced_collections/validators.py
+++ b/synced_collections/validators.py
@@ -141,6 +141,8 @@ def json_format_validator(data):
             raise TypeError("NumPy extended precision types are not JSON serializable.")
         elif _is_complex(data):
             raise TypeError("Complex numbers are not JSON serializable.")
+        # Arrays without dimensions can contain arbitrary objects.
+        json_format_validator(data.item())
     else:
         raise TypeError(
             f"Object of type {type(data).__name__} is not JSON serializable"
-- 
2.43.0


From 11860780be07cd29c62db7d6878f5d45b2631f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:47 +0000
Subject: [PATCH 24/27] fix: reject data that contains itself with a ValueError

Validating a list that contains itself, or a sequence whose items are sequences
of the same type forever (such as UserString), ended in a RecursionError.
---
 .../backends/collection_zarr.py               |  2 +-
 .../data_types/synced_collection.py           | 20 +++++++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/synced_collections/backends/collection_zarr.py b/synced_collections/backends/collection_zarr.py
index bfaa40a..b390642 100644
--- a/synced_collections/backends/collection_zarr.py
+++ b/synced_collections/backends/collection_zarr.py
@@ -77,7 +77,7 @@ class ZarrCollection(SyncedCollection):
         root = self if self._root is None else self._root
         if isinstance(root._object_codec, numcodecs.JSON):
             try:
-                json_format_validator(data)
+                self._run_validator(json_format_validator, data)
             except TypeError as error:
                 # NumPy data is converted (which includes issuing a warning)
                 # before realizing that the result cannot be encoded.
diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index e7c6bbc..ab1d8e1 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -33,12 +33,19 @@ def _unsync(data):
     doing so while already holding a lock, the arguments of all operations must
     be converted by this function beforehand.
     """
+    try:
+        return _unsync_nested(data)
+    except RecursionError as error:
+        raise ValueError("The data is nested too deeply.") from error
+
+
+def _unsync_nested(data):
     if _sc_resolver.get_type(data) == "SYNCEDCOLLECTION":
         return data()
     elif isinstance(data, dict):
-        return {key: _unsync(value) for key, value in data.items()}
+        return {key: _unsync_nested(value) for key, value in data.items()}
     elif isinstance(data, (list, tuple)):
-        return [_unsync(value) for value in data]
+        return [_unsync_nested(value) for value in data]
     return data
 
 
@@ -506,7 +513,16 @@ class SyncedCollection(Collection):
 
         """
         for validator in self._all_validators:
+            self._run_validator(validator, data)
+
+    @staticmethod
+    def _run_validator(validator, data):
+        try:
             validator(data)
+        except RecursionError as error:
+            # The data contains itself, e.g. the items of a UserString are
+            # UserStrings, too.
+            raise ValueError("The data is nested too deeply.") from error
 
     # The following methods share a common implementation for
     # all data structures and regardless of backend.
-- 
2.43.0


From bb4c639dd9ca1df91f890d5072ea077c96ec4c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:37:10 +0000
Subject: [PATCH 25/27] fix: buffer nested collections together with their root

The buffered context of a nested collection was a context of its own that had
no effect: modifications were written to the file immediately.
---
 synced_collections/buffers/buffered_collection.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/synced_collections/buffers/buffered_collection.py b/synced_collections/buffers/buffered_collection.py
index b519848..68a5237 100644
--- a/synced_collections/buffers/buffered_collection.py
+++ b/synced_collections/buffers/buffered_collection.py
@@ -82,9 +82,14 @@ class BufferedCollection(SyncedCollection):
 
     """
 
-    def __init__(self, *args, **kwargs):
-        super().__init__(*args, **kwargs)
-        self.buffered = _CounterFuncContext(self._flush)
+    def __init__(self, parent=None, *args, **kwargs):
+        # Nested collections are buffered together with their root, whose context
+        # must exist before the nested collections are created.
+        if parent is not None:
+            self.buffered = parent.buffered
+        else:
+            self.buffered = _CounterFuncContext(self._flush)
+        super().__init__(parent=parent, *args, **kwargs)
 
     @classmethod
     def __init_subclass__(cls):
-- 
2.43.0


From fb0ca167dae43141a258592670156b0f9cc662b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:37:10 +0000
Subject: [PATCH 26/27] fix: allow iterating over keys() while other threads
 write

keys() returned a view of the internal data, so iterating over it failed when
another thread (or a reload) added or removed keys.
---
 synced_collections/data_types/synced_dict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index 353f1ce..086fb07 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -212,8 +212,9 @@ class SyncedDict(SyncedCollection, MutableMapping):
             )
 
     def keys(self):  # noqa: D102
-        with self._load_and_save(save=False):
-            return self._data.keys()
+        # Like values and items, this is not a view of the data in memory: other
+        # threads may change that while the keys are being iterated over.
+        return dict.fromkeys(self).keys()
 
     def values(self):  # noqa: D102
         return self().values()
-- 
2.43.0


From e74ce37dd4e74ef86c9e500de89a9aca5a46f3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:52:34 +0000
Subject: [PATCH 27/27] fix: flush buffered data before a collection is bound
 to another file

---
 .../buffers/file_buffered_collection.py           | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index 3a250c7..41ee4d4 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -184,6 +184,21 @@ class FileBufferedCollection(BufferedCollection):
         """Acquire the buffer lock."""
         return type(self)._BUFFER_LOCK
 
+    @property
+    def filename(self):
+        """str: Get or set the name of the associated file on disk."""
+        return super().filename
+
+    @filename.setter
+    def filename(self, value):
+        with self._buffer_lock:
+            if self._is_buffered and value != self._filename:
+                # Data that is buffered for the old file must be flushed now since
+                # it cannot be associated with this collection anymore.
+                self._flush(force=True)
+                type(self)._buffer.pop(self._filename, None)
+            super(FileBufferedCollection, type(self)).filename.__set__(self, value)
+
     def _get_file_metadata(self):
         """Return metadata of file.
 
-- 
2.43.0

