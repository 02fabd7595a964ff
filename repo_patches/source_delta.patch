From d182f8d823a37935e70fa52da84befc57dcf6b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 01/68] fix: delete_block(missing_ok=True) must tolerate a
 missing block

---
 dustgoggles/codex/memutilz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/memutilz.py b/dustgoggles/codex/memutilz.py
index ada597d..a417b92 100644
--- a/dustgoggles/codex/memutilz.py
+++ b/dustgoggles/codex/memutilz.py
@@ -49,7 +49,7 @@ def delete_block(address: str, missing_ok=False):
         block = SharedMemory(address)
         block.unlink()
         block.close()
-    except FileExistsError:
+    except FileNotFoundError:
         if missing_ok is False:
             raise
 
-- 
2.43.0


From d5b956942ed59830a49b255f942cf374f8b2816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 02/68] fix: other tracked resources fail after deactivating
 shared memory tracking

---
 dustgoggles/codex/memutilz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/codex/memutilz.py b/dustgoggles/codex/memutilz.py
index a417b92..bf3da97 100644
--- a/dustgoggles/codex/memutilz.py
+++ b/dustgoggles/codex/memutilz.py
@@ -84,14 +84,14 @@ def deactivate_shared_memory_resource_tracker():
     def fix_register(name, rtype):
         if rtype == "shared_memory":
             return
-        return resource_tracker._resource_tracker.register(self, name, rtype)
+        return resource_tracker._resource_tracker.register(name, rtype)
     resource_tracker.register = fix_register
 
     # noinspection PyUnresolvedReferences
     def fix_unregister(name, rtype):
         if rtype == "shared_memory":
             return
-        return resource_tracker._resource_tracker.unregister(self, name, rtype)
+        return resource_tracker._resource_tracker.unregister(name, rtype)
     resource_tracker.unregister = fix_unregister
 
     if "shared_memory" in resource_tracker._CLEANUP_FUNCS:
-- 
2.43.0


From 810766c3cb1261ddc6453081fbdfa68c21abebed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 03/68] fix: open_block can fail when racing another process
 that creates the block

---
 dustgoggles/codex/memutilz.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/memutilz.py b/dustgoggles/codex/memutilz.py
index bf3da97..d5e8020 100644
--- a/dustgoggles/codex/memutilz.py
+++ b/dustgoggles/codex/memutilz.py
@@ -1,5 +1,21 @@
 from multiprocessing.shared_memory import SharedMemory
 import sys
+import time
+
+
+def _attach_block(address):
+    """
+    open an existing shared memory block. if another process has created the
+    block but not yet sized it, briefly wait for it to do so.
+    """
+    for _ in range(10000):
+        try:
+            return SharedMemory(address)
+        except ValueError as error:
+            if "cannot mmap an empty file" not in str(error):
+                raise
+            time.sleep(0.0001)
+    return SharedMemory(address)
 
 
 def open_block(address, size, create=True, overwrite=False):
@@ -12,7 +28,7 @@ def open_block(address, size, create=True, overwrite=False):
         return SharedMemory(address, size=size, create=create)
     except FileExistsError:
         if overwrite is False:
-            return SharedMemory(address)
+            return _attach_block(address)
         old_block = SharedMemory(address)
         old_block.unlink()
         old_block.close()
-- 
2.43.0


From d2879bd36260820b9f25736d04e681987d4bd9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 04/68] fix: SlidingLock does not ensure mutual exclusion

---
 dustgoggles/codex/implements.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index fa139ce..f104b8d 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -158,6 +158,7 @@ class SlidingLock:
     def __init__(self, name, debug=False):
         self.name = name
         self.lock = None
+        self.hold = None
         self.count = open_block(f"{self.name}_count", 5)
         self.number = 0
         self.floor = None
@@ -205,6 +206,15 @@ class SlidingLock:
                 # # # # #
                 self.wait()
                 return False
+        # slots only order the waiters: two of them can both find no lock in a
+        # lower slot. exclusively creating this block decides who gets in.
+        try:
+            self.hold = SharedMemory(
+                f"{self.name}_hold", size=1, create=True
+            )
+        except FileExistsError:
+            self.wait()
+            return False
         if getattr(self, "debug") is True:
             log(f"{here()},{self.number},taking precedence")
         return True
@@ -237,7 +247,7 @@ class SlidingLock:
             self.count.buf[:] = self.number.to_bytes(5, "little")
             if getattr(self, "debug") is True:
                 log(f"{here()},{self.number},set floor to {self.number}")
-        for thing in ("lock", "marker"):
+        for thing in ("lock", "marker", "hold"):
             block = getattr(self, thing)
             if block is None:
                 continue
-- 
2.43.0


From 4b53904a518c8f02a065c81688c739b623ca50b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 05/68] fix: Notepad lookups of absent keys must raise
 KeyError, stored None is a value

---
 dustgoggles/codex/implements.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index f104b8d..d041767 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -757,10 +757,10 @@ class Notepad(AbstractNotepad):
         )
 
     def __getitem__(self, key, fetch=True):
-        result = self.remember(self.address(key), fetch)
-        if result is None:
-            raise KeyError
-        return result
+        try:
+            return self.remember(self.address(key), fetch)
+        except FileNotFoundError:
+            raise KeyError(f"{key} not apparently assigned")
 
     def get(self, key, default=None, fetch=True):
         try:
-- 
2.43.0


From c9495b8831e90295dc36502aad1147efcaec9de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 06/68] fix: a Notepad lists keys whose value could not be
 stored

---
 dustgoggles/codex/implements.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index d041767..f763693 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -773,7 +773,15 @@ class Notepad(AbstractNotepad):
             raise KeyError("'index' is a reserved key prefix")
         try:
             self.index.add(key, meta, exists_ok=exists_ok)
-            self.memorize(value, self.address(key), exists_ok)
+            try:
+                self.memorize(value, self.address(key), exists_ok)
+            except FileExistsError:
+                raise
+            except Exception:
+                # e.g. unpicklable value: don't list a key that has no value
+                if not exists_block(self.address(key)):
+                    self.index.remove(key)
+                raise
             if self.debug is True:
                 log(f"{here()},,set key={key} to {value}")
         except FileExistsError:
-- 
2.43.0


From e828d34d29ca229c12fff048a44f06a03d4ea4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 07/68] fix: storing an array over a smaller one, or an empty
 or 0-d one, or refusing to overwrite

---
 dustgoggles/codex/codecs.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index a508788..9573c78 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -133,11 +133,18 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
         fill it with the contents of `array`. return a dict containing
         metadata necessary to fetch and reconstruct the array.
         """
-        block = open_block(address, array.size * array.itemsize, exists_ok)
+        if (exists_ok is False) and exists_block(address):
+            raise FileExistsError
+        # shared memory blocks cannot be empty
+        size = max(array.size * array.itemsize, 1)
+        block = open_block(address, size)
+        if block.size < size:
+            # the array stored here before was smaller
+            block = open_block(address, size, overwrite=True)
         shared_array = np.ndarray(
             array.shape, dtype=array.dtype, buffer=block.buf
         )
-        shared_array[:] = array[:]
+        shared_array[...] = array
         metadata = {
             "name": block.name,
             "dtype": array.dtype.str,
-- 
2.43.0


From d601b4241ef7a4ef9b3c7942d3f26b6a141269d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 08/68] fix: MetaTagIndex deletion deadlocks on its own lock

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index f763693..6891208 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -593,7 +593,7 @@ class MetaTagIndex(TagIndex):
 
     def __delitem__(self, target):
         with self.lock_class(self.name, self.debug):
-            found_at = super().__delitem__(target)
+            found_at = self._delitem(target)
             if (
                 (found_at == self.length - 1)
                 or not exists_block(self.val_address(self.length - 1))
-- 
2.43.0


From 0b1b8d3602c527715bbfc9892b7bab2ea63534f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 09/68] fix: GridPaper.clear treats the list of keys as a dict

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 6891208..1b61727 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -939,7 +939,7 @@ class GridPaper(AbstractNotepad):
         atexit.unregister(self.close)
 
     def clear(self):
-        for key in self.update_index().keys():
+        for key in self.update_index():
             del self[key]
 
     def __str__(self):
-- 
2.43.0


From 4b08d7dc6cde61849c09b33b9ebfbbdbd3a78e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:33 +0000
Subject: [PATCH 10/68] fix: Sticky cannot be stuck again with an object of
 different size

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 1b61727..8873058 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -1005,7 +1005,7 @@ class Sticky:
     def stick(self, obj):
         encoded = self.encode(obj)
         size = len(encoded)
-        block = open_block(self.address, size)
+        block = open_block(self.address, size, True, True)
         block.buf[:] = encoded
         self._cached_value = obj
 
-- 
2.43.0


From b3a80e52bc1577f1ac32a9d53bfe00c6f738e2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:30 +0000
Subject: [PATCH 11/68] fix: MetaTagIndex lookups can return another key's
 metadata during deletions

---
 dustgoggles/codex/implements.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 8873058..466f93b 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -588,8 +588,13 @@ class MetaTagIndex(TagIndex):
         found_at = self.check(key)
         if found_at is None:
             raise KeyError(f"{key} not found in index.")
-        valblock = SharedMemory(self.val_address(found_at))
-        return valblock.buf.tobytes()
+        with self.lock_class(self.name, self.debug):
+            # deletions of other keys may have moved it
+            found_at = self.check(key)
+            if found_at is None:
+                raise KeyError(f"{key} not found in index.")
+            valblock = SharedMemory(self.val_address(found_at))
+            return valblock.buf.tobytes()
 
     def __delitem__(self, target):
         with self.lock_class(self.name, self.debug):
-- 
2.43.0


From aaf1d125326e9987308561cec149e309b247e51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:31 +0000
Subject: [PATCH 12/68] fix: listing an index while other processes change it
 can fail or list wrong keys

---
 dustgoggles/codex/implements.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 466f93b..7a6cc6b 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -400,8 +400,13 @@ class TagIndex(ShareableIndex):
 
     def update(self):
         self.cache = []
-        for ix, key in self._enumerate_keys():
-            self.cache.append(key)
+        self.update_length()
+        if self.length == 0:
+            return self.cache
+        # other processes may be moving keys around
+        with self.lock_class(self.name, self.debug):
+            for ix, key in self._enumerate_keys():
+                self.cache.append(key)
         return self.cache
 
     def check(self, target) -> Optional[int]:
@@ -559,14 +564,21 @@ class MetaTagIndex(TagIndex):
         ]
         load = juxt(loaders)
         self.update_length()
-        for ix in range(self.length):
-            key, val = load(ix)
-            output = [ix]
-            if get_keys is True:
-                output.append(key)
-            if get_values is True:
-                output.append(val)
-            yield tuple(output)
+        if self.length == 0:
+            return []
+        outputs = []
+        # other processes may be moving keys around
+        with self.lock_class(self.name, self.debug):
+            self.update_length()
+            for ix in range(self.length):
+                key, val = load(ix)
+                output = [ix]
+                if get_keys is True:
+                    output.append(key)
+                if get_values is True:
+                    output.append(val)
+                outputs.append(tuple(output))
+        return outputs
 
     def keys(self):
         return [key for _, key in self._enumerate(True)]
-- 
2.43.0


From 9c374bddeca57e70965c8028589ac0f231b04870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 13/68] fix: closing an index leaks the blocks of the keys
 still in it

---
 dustgoggles/codex/implements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 7a6cc6b..0f5ddd1 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -499,6 +499,8 @@ class TagIndex(ShareableIndex):
             return self._delitem(target)
 
     def close(self):
+        for key in self.update():
+            self.remove(key)
         self.memory.unlink()
         self.memory.close()
         if exists_block(f"{self.name}_count"):
-- 
2.43.0


From d5dd34fa58bb9c9281c5a238346a4914a3a2f567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 14/68] fix: MetaTagIndex keeps keys whose metadata could not
 be stored

---
 dustgoggles/codex/implements.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 0f5ddd1..c3c6d3c 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -593,9 +593,16 @@ class MetaTagIndex(TagIndex):
 
     def add(self, key, value=None, exists_ok=True):
         with self.lock_class(self.name, self.debug):
+            is_new = self.check(key) is None
             writehead = super()._add(key, exists_ok)
             if value is not None:
-                self.memorize(value, self.val_address(writehead))
+                try:
+                    self.memorize(value, self.val_address(writehead))
+                except Exception:
+                    # e.g. value is not serializable
+                    if is_new is True:
+                        self._delitem(key)
+                    raise
             return writehead
 
     def __getitem__(self, key):
-- 
2.43.0


From 7cc07e67aa6cb0e5561861123da7b7ab9cd479eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 15/68] fix: get_from fails on missing keys that are not
 strings

---
 dustgoggles/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 60497df..ceff34f 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -154,7 +154,7 @@ def get_from(collection, keys, default=None):
     for key in keys:
         try:
             level = getitemattr(level, key)
-        except AttributeError:
+        except (AttributeError, TypeError):
             return default
     return level
 
-- 
2.43.0


From 880bd0503c8dd95f7693f23ab52236602e60bc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 16/68] fix: dig_for searches nested mappings depth-first

---
 dustgoggles/structures.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index ceff34f..d5e8466 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -229,18 +229,16 @@ def dig_for(mapping, predicate, mtypes):
     """
     return the first item, using a breadth-first search, matching ref
     """
-    level_items, nests = _evaluate_diglevel(mapping, predicate, mtypes)
-    if level_items:
-        return level_items
-    if not nests:
-        return None
-    dug, iternests = None, iter(nests)
-    while dug is None:
-        try:
-            dug = dig_for(next(iternests), predicate, mtypes)
-        except StopIteration:
-            return None
-    return dug
+    level = [mapping]
+    while level:
+        next_level = []
+        for nest in level:
+            level_items, nests = _evaluate_diglevel(nest, predicate, mtypes)
+            if level_items:
+                return level_items
+            next_level += nests
+        level = next_level
+    return None
 
 
 def dig_wrapper(mapping, ref, match, base_pred, element_ix, mtypes):
-- 
2.43.0


From eac502fc868be1df6f08230e28ed8cccd6a6ec1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 17/68] fix: rmerge forgets the given mapping types below the
 top level

---
 dustgoggles/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index d5e8466..a3c88b8 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -304,7 +304,7 @@ def rmerge(map1, map2, mtypes=(dict, OrderedDict)):
         if kv[0] in only_in_one:
             output[kv[0]] = kv[1]
         elif all(map(lambda m: isinstance(m, mtypes), (map1[kv[0]], map2[kv[0]]))):
-            output[kv[0]] = rmerge(map1[kv[0]], map2[kv[0]])
+            output[kv[0]] = rmerge(map1[kv[0]], map2[kv[0]], mtypes)
         else:
             output[kv[0]] = map2[kv[0]]
     return output
-- 
2.43.0


From 14233acfdfb7bf396bc0a75fbdef235678643553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 18/68] fix: one failing record discards the results of its
 whole chunk

---
 dustgoggles/structures.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index a3c88b8..d394fed 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -356,7 +356,7 @@ class MaybeResult:
 
 def _chunkwrap(func, argrecs):
     return {
-        rec['key']: func(*rec['args'], **rec['kwargs'])
+        rec['key']: MaybeResult(func, rec['args'], rec['kwargs'])
         for rec in argrecs
     }
 
@@ -409,7 +409,11 @@ class MaybePool:
         for k, v in self.results.items():
             try:
                 if self.chunked is True:
-                    output |= v.get()
+                    results = v.get()
+                    if raise_exc:
+                        for result in results.values():
+                            result.get()
+                    output |= {key: r.value for key, r in results.items()}
                 else:
                     output[k] = v.get()
             except KeyboardInterrupt:
-- 
2.43.0


From 604ab2704673cb8310d54122a3f50ab942a804d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 19/68] fix: a MaybePool that once mapped chunks misreads later
 maps

---
 dustgoggles/structures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index d394fed..167e1f8 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -375,6 +375,7 @@ class MaybePool:
             rec['args'] = rec.get('args', ())
             rec['kwargs'] = rec.get('kwargs', {})
         if (as_chunks is False) or (self.pool is None):
+            self.chunked = False
             self.results = {
                 rec['key']: self.apply(func, rec['args'], rec['kwargs'])
                 for rec in argrecs
-- 
2.43.0


From 789d3d31f640c8663af3506b3fdc832c551868e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 20/68] fix: Dynamic.from_function loses the function's source
 and globals

---
 dustgoggles/dynamic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/dynamic.py b/dustgoggles/dynamic.py
index 9904e55..e08d39e 100644
--- a/dustgoggles/dynamic.py
+++ b/dustgoggles/dynamic.py
@@ -175,17 +175,18 @@ class Dynamic:
         #  fancy getattr overrides
         dynamic = super().__new__(cls)
         try:
-            dynamic.source = getsource(func)
+            source = getsource(func)
         except TypeError:  # it's some kind of weirdo callable
             # noinspection PyUnresolvedReferences
             func = func.__call__
-            dynamic.source = getsource(func)
+            source = getsource(func)
         dynamic.code = func.__code__
         dynamic.func = func
         dynamic.__signature__ = signature(dynamic.func)
         dynamic.__name__ = dynamic.func.__name__
-        dynamic.globals_ = func.__globals__
         dynamic.__init__(*init_args, **init_kwargs)
+        dynamic.source = source
+        dynamic.globals_ = func.__globals__
         return dynamic
 
     __signature__ = Signature()
-- 
2.43.0


From 26a082bbf129302ce9798be3205b44dfb9c93c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 21/68] fix: unloading a Dynamic that was never loaded raises
 AttributeError

---
 dustgoggles/dynamic.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dustgoggles/dynamic.py b/dustgoggles/dynamic.py
index e08d39e..887d5f2 100644
--- a/dustgoggles/dynamic.py
+++ b/dustgoggles/dynamic.py
@@ -134,7 +134,6 @@ class Dynamic:
         self.__name__ = self.func.__name__
 
     def unload(self):
-        del self.code, self.func, self.errors
         self.call_fail, self.compile_fail = False, False
         self.code, self.func, self.errors = None, None, []
         self.__name__ = self.__class__.__name__
-- 
2.43.0


From c122f57a706d6c03043a29b1406cd031dc45316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 22/68] fix: some label text that is not a literal makes
 scrapers raise

---
 dustgoggles/scrape.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/scrape.py b/dustgoggles/scrape.py
index 20f4684..eee8721 100644
--- a/dustgoggles/scrape.py
+++ b/dustgoggles/scrape.py
@@ -24,7 +24,9 @@ def make_scraper(label_text: str) -> Callable:
             return None
         try:
             return literal_eval(result.group(1))
-        except (ValueError, SyntaxError):
+        except (
+            ValueError, SyntaxError, TypeError, MemoryError, RecursionError
+        ):
             return result.group(1)
 
     return scrape
-- 
2.43.0


From 9addee2a46380e8156da86c6a73dc841c0ab9c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 23/68] fix: dumping unserializable metadata corrupts the
 tracker log

---
 dustgoggles/tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/tracker.py b/dustgoggles/tracker.py
index 4c4074b..df8b4e4 100644
--- a/dustgoggles/tracker.py
+++ b/dustgoggles/tracker.py
@@ -82,6 +82,8 @@ class Tracker(TrivialTracker):
         self.log["write_timestamp"] = dt.datetime.now().isoformat()
         key_order = sorted(self.log.keys(), key=lambda n: "history" in n)
         self.log = {k: self.log[k] for k in key_order}
+        # serialize first, so that failing to do so cannot corrupt the log file
+        log = json.dumps(self.log, indent=2).encode('utf-8')
         mode = "rb+" if self.outpath.exists() else "wb"
         with self.outpath.open(mode) as stream:
             if mode == "rb+":
@@ -89,7 +91,7 @@ class Tracker(TrivialTracker):
                 stream.write(b",\n")
             else:
                 stream.write(b"[")
-            stream.write(json.dumps(self.log, indent=2).encode('utf-8'))
+            stream.write(log)
             stream.write(b"]")
 
     _paused = False
-- 
2.43.0


From fe0d51e8afe487586a3994a48d98984c9e8c3d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 24/68] fix: Compositions bypass the loading and error handling
 of Dynamic steps

---
 dustgoggles/composition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/composition.py b/dustgoggles/composition.py
index 1bea027..56fee98 100644
--- a/dustgoggles/composition.py
+++ b/dustgoggles/composition.py
@@ -5,7 +5,7 @@ from typing import Optional, Union, Mapping, Any, Callable, Sequence, Hashable,
 
 from cytoolz import identity, keyfilter, first
 
-from dustgoggles.dynamic import exc_report
+from dustgoggles.dynamic import Dynamic, exc_report
 from dustgoggles.func import naturals
 from dustgoggles.structures import enumerate_as_mapping, reindex_mapping
 from dustgoggles.tracker import TrivialTracker, Tracker
@@ -221,7 +221,7 @@ class Composition:
         else:
             args = keyfilter(lambda k: isinstance(k, int), insert)
             kwargs = keyfilter(lambda k: isinstance(k, str), insert)
-        if "func" in dir(step):
+        if ("func" in dir(step)) and not isinstance(step, Dynamic):
             return self._call_partial_step(state, step, args, kwargs)
         if len(args) == 0:
             return step(state, **kwargs)
-- 
2.43.0


From 669424801e71f15c94b8092693db74212b2736b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 25/68] fix: tracking a Composition duplicates or misattributes
 records of replaced steps

---
 dustgoggles/composition.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dustgoggles/composition.py b/dustgoggles/composition.py
index 56fee98..221a15a 100644
--- a/dustgoggles/composition.py
+++ b/dustgoggles/composition.py
@@ -77,13 +77,15 @@ class Composition:
     def _add_track_send(self, step_name: Hashable):
         if self.tracker is None:
             return
-        self.add_send(
-            step_name,
-            pipe=_track_factory(self.tracker, step_name, self.steps[step_name])
-        )
+        for pipe, _, _ in self.sends.get(step_name, ()):
+            # replaced steps already have one; it tracks the current step
+            if getattr(pipe, "tracked", None) is self:
+                return
+        self.add_send(step_name, pipe=_track_factory(self, step_name))
 
     def reindex(self):
         self.steps = reindex_mapping(self.steps)
+        self._add_track_sends()
 
     @property
     def index(self):
@@ -288,9 +290,10 @@ class Composition:
         return self.execute(*args, **kwargs)
 
 
-def _track_factory(tracker, step, func):
+def _track_factory(composition, step):
 
     def track(_):
-        return tracker.track(func, step=step)
+        return composition.tracker.track(composition.steps[step], step=step)
 
+    track.tracked = composition
     return track
-- 
2.43.0


From ca28fd837cda29fba2f5f4ecfac3d69ae7f17d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 26/68] fix: check_and_drop_duplicate_columns compares columns
 to themselves

---
 dustgoggles/pivot.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 382d9cd..407c6d7 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -49,10 +49,15 @@ def check_and_drop_duplicate_columns(dataframe: pd.DataFrame):
     extra_columns = dataframe.columns[dataframe.columns.duplicated()]
     if len(extra_columns) == 0:
         return dataframe
-    for column in extra_columns:
-        test_equality = dataframe.loc[:, column] == dataframe.loc[:, column]
-        if not test_equality.all(axis=None):
-            raise ValueError
+    for column in extra_columns.unique():
+        duplicates = dataframe.loc[:, column]
+        reference = duplicates.iloc[:, 0]
+        for ix in range(1, duplicates.shape[1]):
+            duplicate = duplicates.iloc[:, ix]
+            test_equality = (reference == duplicate).fillna(False)
+            both_missing = reference.isna() & duplicate.isna()
+            if not (test_equality | both_missing).all():
+                raise ValueError
     return dataframe.loc[:, ~dataframe.columns.duplicated()]
 
 
-- 
2.43.0


From 849afbc1f1420cf5a1d4762e73318183404f6091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 27/68] fix: extract_constants gives wrong constants for
 missing values, mixed types, or rows

---
 dustgoggles/pivot.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 407c6d7..1999374 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -86,10 +86,10 @@ def extract_constants(
         constant_indices = pd.Series(False, df.index)
     try:
         method = "iterrows" if how == "columns" else "items"
-        for ix, series in getattr(df, method)():
+        for i, (_, series) in enumerate(getattr(df, method)()):
             series = series if dropna is False else series.dropna()
             if (len(series) == 0) or (series == series.iloc[0]).all():
-                constant_indices.loc[ix] = True
+                constant_indices.iloc[i] = True
     except TypeError:
         # TODO: still necessary?
         if how == "columns":
@@ -108,7 +108,12 @@ def extract_constants(
         constants = df.loc[constant_indices]
         variables = df.loc[~constant_indices]
     if to_dict:
-        constants = constants.iloc[0].to_dict()
+        method = "iterrows" if how == "columns" else "items"
+        constants = {
+            # i.e., the first value that is not missing, if there is one
+            ix: (series.dropna().to_list() + series.to_list())[0]
+            for ix, series in getattr(constants, method)()
+        }
     if drop_constants:
         return constants, variables
     return constants, df
-- 
2.43.0


From f27a539532cf645a700dce72e783d9bc40ba5410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 28/68] fix: downcast overflows on floats just beyond the range
 of an integer type

---
 dustgoggles/pivot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 1999374..5c7092c 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -159,6 +159,9 @@ def check_in_dtype_bounds(
     amin: Union[int, float], amax: Union[int, float], dt: np.dtype
 ):
     info = np.iinfo(dt) if dt.kind in 'iu' else np.finfo(dt)
+    if dt.kind in 'iu':
+        # unlike numpy's, Python's int / float comparisons are always exact
+        amin, amax = [n.item() if hasattr(n, 'item') else n for n in (amin, amax)]
     try:
         return bool(amin >= info.min and amax <= info.max)
     except TypeError:  # just too big!
-- 
2.43.0


From 95a2cec77e0a353e1ef4a4967f121821ccfe3b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 29/68] fix: downcast of zeros and non-finite values returns a
 bare array

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 5c7092c..1c7a28b 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -222,7 +222,7 @@ def downcast(
     if arr_nzero.size == 0 and not has_nonfinite:
         return _maybeseries(arr, np.uint8, library, name, 0, 0)
     elif arr_nzero.size == 0 and use_nillable_int is False:
-        return arr.astype(np.float16)
+        return _maybeseries(arr, np.float16, library, name, 0, 0)
     elif arr_nzero.size == 0:
         return _maybeseries(arr, pd.UInt8Dtype(), library, name, 0, 0)
     amin, amax = arr_finite.min(), arr_finite.max()
-- 
2.43.0


From 0d093c974bbf3c29a72c3b9e85bebbc3ee13b493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 30/68] fix: downcast cannot produce nullable integers

---
 dustgoggles/pivot.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 1c7a28b..78efdec 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -169,6 +169,10 @@ def check_in_dtype_bounds(
 
 
 def _maybeseries(arr, dtype, library, name, aerr, rerr):
+    if isinstance(dtype, pd.api.extensions.ExtensionDtype):
+        missing = ~np.isfinite(arr)
+        filled = np.where(missing, 0, arr).astype(dtype.numpy_dtype)
+        arr = pd.arrays.IntegerArray(filled, missing)
     arr = arr.copy() if arr.dtype == dtype else arr.astype(dtype)
     if library == 'pandas':
         arr = pd.Series(arr, name=name)
@@ -251,9 +255,8 @@ def downcast(
             continue
         if kind in ('uint', 'int') and has_nonfinite:
             # we've already checked to make sure we're returning this as pandas
-            dtype = getattr(
-                pd, f"{kind[0].upper()}{kind[1:].capitalize}{number}Dtype"
-            )()
+            prefix = 'UInt' if kind == 'uint' else 'Int'
+            dtype = getattr(pd, f"{prefix}{number}Dtype")()
         return _maybeseries(arr, dtype, library, name, aerr, rerr)
     raise TypeError("Unusual error in recasting this array.")
 
-- 
2.43.0


From 0767578f622e5ca3a8e9567351f1f3f59fbbac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 31/68] fix: downcast fails on empty integer arrays

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 78efdec..e8e2b6d 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -184,7 +184,7 @@ def _downcast_int_array(
     library: Literal["numpy", "pandas"],
     name: Optional[str] = None
 ):
-    amin, amax = arr.min(), arr.max()
+    amin, amax = (arr.min(), arr.max()) if arr.size > 0 else (0, 0)
     sign = 'u' if amin >= 0 else ''
     for depth in (8, 16, 32, 64):
         dt = np.dtype(f'{sign}int{depth}')
-- 
2.43.0


From e2d3390891adda9b0073d7fa7ba4407a977ef4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:17 +0000
Subject: [PATCH 32/68] fix: downcast can return integer types wider than its
 input

---
 dustgoggles/pivot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index e8e2b6d..1bc712d 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -242,6 +242,8 @@ def downcast(
             continue
         elif kind == 'float' and number == 8:
             continue
+        elif number > arr.dtype.itemsize * 8:
+            continue
         dtype = np.dtype(f"{kind}{number}")
         if check_in_dtype_bounds(amin, amax, dtype) is False:
             continue
-- 
2.43.0


From 99a5e46e623b34e46d068c9813698f7c9cc9a885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 33/68] fix: downcast_df discards the index and misaligns rows

---
 dustgoggles/pivot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 1bc712d..bad9e10 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -277,10 +277,12 @@ def downcast_df(
             cast_series.append(col if copy_all is False else col.copy())
             continue
         cast_series.append(
-            downcast(col, atol, rtol, 'pandas', use_nillable_int)['recast']
+            downcast(
+                col, atol, rtol, 'pandas', use_nillable_int
+            )['recast'].set_axis(df.index)
         )
     if reassemble is True:
-        return pd.concat(cast_series, axis=1)
+        return pd.concat(cast_series, axis=1).set_axis(df.columns, axis=1)
     return cast_series
     # cast_series, cast_records = [], []
     # for name, col in num.items():
-- 
2.43.0


From 7c13fe3d322f09e12e799c89ea999a8a703a18b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 34/68] fix: read_between ignores columns, and sort_chunked is
 never quiet

---
 dustgoggles/mosaic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 8fc6301..18260fa 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -115,6 +115,8 @@ def read_between(
         more_than = pac.filter(
             less_than, pac.greater_equal(less_than[field], bounds[0])
         )
+        if columns is not None:
+            more_than = more_than.select(columns)
         bound_groups.append(more_than)
     return pa.concat_tables(bound_groups)
 
@@ -156,7 +158,11 @@ def sort_chunked(
     try:
         for window in windows:
             window_table = read_between(
-                sort_reader, sort_column, window, relevant_records, verbose
+                sort_reader,
+                sort_column,
+                window,
+                relevant_records,
+                verbose=verbose
             )
             if window_table is None:
                 continue
-- 
2.43.0


From 62726bb0e4740ccb9de5902feb8e18129cb41318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 35/68] fix: sort_chunked loses the rows with the largest
 values if these are very large

---
 dustgoggles/mosaic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 18260fa..5928ca4 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -154,7 +154,9 @@ def sort_chunked(
     max_value = max([rec["max"] for rec in relevant_records])
     min_value = min([rec["min"] for rec in relevant_records])
     windows = list(windowed(np.linspace(min_value, max_value, n_chunks), 2))
-    windows[-1] = (windows[-1][0], windows[-1][1] + 1)
+    # upper bounds are exclusive. note that adding 1 has no effect on very
+    # large floats.
+    windows[-1] = (windows[-1][0], np.nextafter(windows[-1][1], np.inf))
     try:
         for window in windows:
             window_table = read_between(
-- 
2.43.0


From 9133a658c6fc6ff680165f814df2c44ea179c6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 36/68] fix: sort_chunked only sorts descending within chunks

---
 dustgoggles/mosaic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 5928ca4..a336939 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -157,6 +157,8 @@ def sort_chunked(
     # upper bounds are exclusive. note that adding 1 has no effect on very
     # large floats.
     windows[-1] = (windows[-1][0], np.nextafter(windows[-1][1], np.inf))
+    if direction == "descending":
+        windows.reverse()
     try:
         for window in windows:
             window_table = read_between(
-- 
2.43.0


From 5d0d4c444d9efc0f1232000773a48c1b9b1be804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 37/68] fix: extended metadata of files with several row groups
 has duplicate labels

---
 dustgoggles/mosaic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index a336939..a9a67c9 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -46,6 +46,7 @@ def _flatten_meta_df(meta_df, extended):
         col_stats = col_slice[
             ["num_values", "total_compressed_size", "total_uncompressed_size"]
         ].sum()
+        constants = keyfilter(lambda k: k not in col_stats.index, constants)
         col_series.append(pd.concat([pd.Series(constants), col_stats]))
     return pd.concat(col_series, axis=1).T
 
-- 
2.43.0


From 3eab8702f216bf96071804e314e32d8cf358b80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 38/68] fix: metadata of parquet files without statistics
 cannot be read

---
 dustgoggles/mosaic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index a9a67c9..8688ae4 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -27,7 +27,8 @@ def parquet_metadata_records(parquet_fn):
     ):
         record = meta.row_group(group_ix).column(col_ix).to_dict()
         if "statistics" in record.keys():
-            record |= record.pop("statistics")
+            # None for files written without statistics
+            record |= record.pop("statistics") or {}
         records.append(record | {"row_group": group_ix, "col_ix": col_ix})
     return records
 
-- 
2.43.0


From 77a05114ce9197684ddbc2e2bfc7ffe021e54337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:21 +0000
Subject: [PATCH 39/68] fix: the Python-literal codec does not preserve strings

---
 dustgoggles/codex/codecs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index 9573c78..4437f25 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -40,7 +40,7 @@ def ast_codec_factory():
     Python literals than using JSON serialization, but is much slower.
     """
     def encode(value: Any) -> bytes:
-        return str(value).encode()
+        return repr(value).encode()
 
     def decode(blob: bytes) -> Any:
         return ast.literal_eval(blob.decode())
-- 
2.43.0


From 9f9d9075b599133fc2bb2fda6857d3df90af5a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 40/68] fix: failing to add a key to an index (e.g. the empty
 key) corrupts the index

---
 dustgoggles/codex/implements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index c3c6d3c..d4cae36 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -434,8 +434,6 @@ class TagIndex(ShareableIndex):
                 return found_at
             raise FileExistsError
         self.update_length()
-        new_length_bytes = (self.length + 1).to_bytes(8, "little")
-        self.memory.buf[:] = new_length_bytes
         keybytes = str(key).encode()
         keyblock = open_block(
             self.key_address(self.length),
@@ -447,6 +445,8 @@ class TagIndex(ShareableIndex):
         position_bytes = self.length.to_bytes(8, "little")
         nameblock = open_block(self.hash_address(key), create=True, size=8)
         nameblock.buf[:] = position_bytes
+        new_length_bytes = (self.length + 1).to_bytes(8, "little")
+        self.memory.buf[:] = new_length_bytes
         if getattr(self, "debug") is True:
             log(f"{here()},,set {self.length} to {key}")
         return self.length
-- 
2.43.0


From 3cb3a24e55fb4080e9490e4f0e93ce6131980191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 41/68] fix: looking up or deleting names with the reserved
 prefix exposes or destroys the index

---
 dustgoggles/codex/implements.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index d4cae36..913e3ca 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -783,6 +783,8 @@ class Notepad(AbstractNotepad):
         )
 
     def __getitem__(self, key, fetch=True):
+        if isinstance(key, str) and key.startswith("index"):
+            raise KeyError("'index' is a reserved key prefix")
         try:
             return self.remember(self.address(key), fetch)
         except FileNotFoundError:
@@ -820,8 +822,8 @@ class Notepad(AbstractNotepad):
         return self.__setitem__(key, value, meta, exists_ok)
 
     def __delitem__(self, key):
-        if key in (["index", "index_lock"]):
-            raise KeyError("'index' and 'index_lock' are reserved key names")
+        if isinstance(key, str) and key.startswith("index"):
+            raise KeyError("'index' is a reserved key prefix")
         try:
             delete_block(self.address(key))
             self.index.remove(key)
@@ -944,8 +946,8 @@ class GridPaper(AbstractNotepad):
         self[key].tofile(fn)
 
     def __delitem__(self, key):
-        if key in (["index", "index_lock"]):
-            raise KeyError("'index' and 'index_lock' are reserved key names")
+        if isinstance(key, str) and key.startswith("index"):
+            raise KeyError("'index' is a reserved key prefix")
         try:
             delete_block(self.address(key))
             self.index.remove(key)
-- 
2.43.0


From 2dcd9d188620fa6187b96443f9cfb74046814f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 42/68] fix: allow Dynamic calls to pass an argument named self
 by keyword

---
 dustgoggles/dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/dynamic.py b/dustgoggles/dynamic.py
index 887d5f2..4157ef3 100644
--- a/dustgoggles/dynamic.py
+++ b/dustgoggles/dynamic.py
@@ -146,7 +146,7 @@ class Dynamic:
             return self.load(reload)
         raise UnreadyError("No loaded function.")
 
-    def __call__(self, *args, _optional=None, **kwargs):
+    def __call__(self, /, *args, _optional=None, **kwargs):
         self._maybe_load_on_call()
         if _optional is None:
             _optional = self.optional
-- 
2.43.0


From 7232979f712271634320c3826d04b6466dc37289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 43/68] fix: unnest dropped an empty name at the start of a
 path

---
 dustgoggles/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 167e1f8..f7c1617 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -47,7 +47,7 @@ def _unnest(nested, mtypes, escape, levels):
     if not isinstance(nested, mtypes):
         return nested
     prefix = f"{escape}_{escape}".join(map(str, levels))
-    if len(prefix) > 0:
+    if len(levels) > 0:
         prefix = f"{escape}{prefix}{escape}_"
     long_records = []
     for level, maybe_mapping in nested.items():
-- 
2.43.0


From a915f8810d8df65460aeabf9d631f2edefd4a7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 44/68] fix: disjoint consumed iterators before looking for
 their parts

---
 dustgoggles/func.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/func.py b/dustgoggles/func.py
index 7aed0f7..f076a2b 100644
--- a/dustgoggles/func.py
+++ b/dustgoggles/func.py
@@ -72,6 +72,8 @@ def intersection(*iterables: Iterable) -> set:
 
 
 def disjoint(*sets: Iterable) -> list[list]:
+    # some of them may be one-shot iterators
+    sets = [tuple(this_set) for this_set in sets]
     shared = intersection(*sets)
     return [
         [file for file in this_set if file not in shared] for this_set in sets
-- 
2.43.0


From d1b8a7405cda17a679eb0e37957500f4c62b6e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 45/68] fix: downcast compares errors to tolerances at full
 precision, not the array's

---
 dustgoggles/pivot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index bad9e10..889fab5 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -251,9 +251,9 @@ def downcast(
             warnings.simplefilter('error')
             recast = arr_nzero.astype(dtype)
         offsets = np.abs(arr_nzero - recast)
-        if (aerr := np.nanmax(np.abs(offsets))) > atol:
+        if (aerr := float(np.nanmax(np.abs(offsets)))) > atol:
             continue
-        if (rerr := np.nanmax(np.abs(offsets / arr_nzero))) > rtol:
+        if (rerr := float(np.nanmax(np.abs(offsets / arr_nzero)))) > rtol:
             continue
         if kind in ('uint', 'int') and has_nonfinite:
             # we've already checked to make sure we're returning this as pandas
-- 
2.43.0


From c2779ac552077eae82a3c56fe45d6beab1a2b696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:11 +0000
Subject: [PATCH 46/68] fix: typed_columns selects among equal-named columns by
 type, not by name

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 889fab5..4d17b74 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -147,7 +147,7 @@ def typed_columns(df, typenames):
         return pd.DataFrame(index=df.index)
     names = df.dtypes.apply(attrgetter("name")).str.lower()
     type_pattern = f"u?({'|'.join(typenames)})".lower()
-    return df[df.dtypes.loc[names.str.match(type_pattern)].index]
+    return df.loc[:, names.str.match(type_pattern).to_numpy(bool)]
 
 
 def numeric_columns(df):
-- 
2.43.0


From 62a5fa3b8524cc6a6c08e7fba39afe42b5355860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:13 +0000
Subject: [PATCH 47/68] fix: extract_constants accepts frames without rows

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 4d17b74..e8473c7 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -111,7 +111,7 @@ def extract_constants(
         method = "iterrows" if how == "columns" else "items"
         constants = {
             # i.e., the first value that is not missing, if there is one
-            ix: (series.dropna().to_list() + series.to_list())[0]
+            ix: next(iter(series.dropna().to_list() + series.to_list()), None)
             for ix, series in getattr(constants, method)()
         }
     if drop_constants:
-- 
2.43.0


From 68972b626b025026a8e0afc268679684fc8618e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 48/68] fix: equal-named columns of different dtypes are
 compared exactly

---
 dustgoggles/pivot.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index e8473c7..9323678 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -54,9 +54,15 @@ def check_and_drop_duplicate_columns(dataframe: pd.DataFrame):
         reference = duplicates.iloc[:, 0]
         for ix in range(1, duplicates.shape[1]):
             duplicate = duplicates.iloc[:, ix]
-            test_equality = (reference == duplicate).fillna(False)
-            both_missing = reference.isna() & duplicate.isna()
-            if not (test_equality | both_missing).all():
+            present = reference.notna()
+            if not (present == duplicate.notna()).all():
+                raise ValueError
+            # comparisons of objects are exact, whatever the dtypes are
+            test_equality = (
+                reference[present].astype(object)
+                == duplicate[present].astype(object)
+            )
+            if not test_equality.all():
                 raise ValueError
     return dataframe.loc[:, ~dataframe.columns.duplicated()]
 
-- 
2.43.0


From 0e20540324aa124fe642f9401060f2775a6fcfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:01 +0000
Subject: [PATCH 49/68] fix: squeeze accepts series of strings, categories, and
 nullable types

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 9323678..ada2707 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -367,7 +367,7 @@ def squeeze(series: pd.Series, aggfunc: Optional[str] = None) -> pd.Series:
     is not.
     """
     if aggfunc is None:
-        if series.dtype.char == "?":
+        if series.dtype.name in ("bool", "boolean"):
             aggfunc = "any"
         else:
             return series.loc[~series.index.duplicated()]
-- 
2.43.0


From bf39f27fcc22c5bc15f4db08f27b1bc9efd987ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:02 +0000
Subject: [PATCH 50/68] fix: squeeze aggregates whatever the series, its index,
 and its levels are named

---
 dustgoggles/pivot.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index ada2707..8385db0 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -371,14 +371,5 @@ def squeeze(series: pd.Series, aggfunc: Optional[str] = None) -> pd.Series:
             aggfunc = "any"
         else:
             return series.loc[~series.index.duplicated()]
-    df = pd.DataFrame(series).reset_index()
-    ixname = "index" if series.index.name is None else series.index.name
-    sname = 0 if series.name is None else series.name
-    squeezed = df.pivot_table(
-        values=series.name,
-        index=ixname,
-        aggfunc=aggfunc,
-    )[sname]
-    squeezed.index.name = series.index.name
-    squeezed.name = series.name
-    return squeezed
+    levels = list(range(series.index.nlevels))
+    return series.groupby(level=levels, observed=True).agg(aggfunc).dropna()
-- 
2.43.0


From d645d926acb8866ee3549fcc4659e42cebca772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:03 +0000
Subject: [PATCH 51/68] fix: junction and unique_to_records ignore categories
 that do not occur

---
 dustgoggles/pivot.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 8385db0..7b49eb0 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -315,9 +315,15 @@ def downcast_df(
     # return df
 
 
+def _unique_tuples(df, columns):
+    counts = df[list(columns)].value_counts()
+    # unobserved categories have a count of 0
+    return counts.index[counts > 0].to_list()
+
+
 def junction(df1, df2, columns, set_method="difference"):
-    keys1 = df1[list(columns)].value_counts().index.to_list()
-    keys2 = df2[list(columns)].value_counts().index.to_list()
+    keys1 = _unique_tuples(df1, columns)
+    keys2 = _unique_tuples(df2, columns)
     return getattr(set(keys1), set_method)(set(keys2))
 
 
@@ -349,7 +355,7 @@ def unpack_column(df: pd.DataFrame, colname):
 
 
 def unique_to_records(df, cols):
-    unique_tuples = df[cols].value_counts().index.to_list()
+    unique_tuples = _unique_tuples(df, cols)
     records = [
         {col: value for col, value in zip(cols, values)}
         for values in unique_tuples
-- 
2.43.0


From 155875cd722780e8fc8a8c625c9eea0af697647d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:05 +0000
Subject: [PATCH 52/68] fix: dupe_df_block keeps each column's type, and so its
 values

---
 dustgoggles/pivot.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 7b49eb0..c2a00c4 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -33,10 +33,8 @@ def dupe_df_block(dataframe: pd.DataFrame, repeats: int):
     """
     create a new dataframe by duplicating "dataframe" "repeats" times
     """
-    return pd.DataFrame(
-        np.repeat(dataframe.values, repeats, axis=0),
-        columns=dataframe.columns,
-    )
+    positions = np.repeat(np.arange(len(dataframe)), repeats)
+    return dataframe.iloc[positions].reset_index(drop=True)
 
 
 # TODO, maybe: allow this to work with columns that have collections
-- 
2.43.0


From 15adee944997b37007f10d2a63ba4ca60e5f0eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:35 +0000
Subject: [PATCH 53/68] fix: smash accepts columns called 'variable' or 'value'
 and named column indices

---
 dustgoggles/pivot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index c2a00c4..301e1f7 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -329,12 +329,12 @@ def smash(df, by, values=None):
     by = listify(by)
     if values is not None:
         df = df.loc[df[by].isin(values).all(axis=1)]
-    df = df.melt(by)
+    df = df.melt(by, var_name="__variable__", value_name="__value__")
     names = reduce(
         lambda x, y: x + "_" + y,
-        [v for _, v in df[by + ["variable"]].astype(str).items()],
+        [v for _, v in df[by + ["__variable__"]].astype(str).items()],
     )
-    return pd.Series(df["value"].to_numpy(), index=names)
+    return pd.Series(df["__value__"].to_numpy(), index=names)
 
 
 def unpack(series: pd.Series):
-- 
2.43.0


From 8e44efef6ee6435bdd85c66e6c6339f82611a462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 54/68] fix: unpack_column puts elements on their own rows when
 labels repeat

---
 dustgoggles/pivot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 301e1f7..15b5483 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -347,9 +347,11 @@ def unpack(series: pd.Series):
 
 def unpack_column(df: pd.DataFrame, colname):
     """unpack a nested listlike column by name"""
-    unpacked = unpack(df[colname])
-    df.loc[unpacked.index, unpacked.columns] = unpacked
-    return df.drop(columns=colname)
+    rows = pd.RangeIndex(len(df))
+    unpacked = unpack(df[colname].set_axis(rows)).reindex(rows)
+    df = df.drop(columns=colname)
+    df[unpacked.columns] = unpacked.set_axis(df.index)
+    return df
 
 
 def unique_to_records(df, cols):
-- 
2.43.0


From f3f4c253c0483062502bd91703ae3a76c77eb456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:04 +0000
Subject: [PATCH 55/68] fix: sort_chunked loses rows with missing values, or
 fails if a row group has only these

---
 dustgoggles/mosaic.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 8688ae4..0981a2d 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -147,14 +147,16 @@ def sort_chunked(
     meta_records = parquet_metadata_records(input_file)
     relevant_records = [
         rec for rec in meta_records if rec["path_in_schema"] == sort_column
+        # i.e., there are values in the row group that are not missing
+        and rec["num_values"] > 0 and rec["max"] is not None
     ]
     if schema is None:
         schema = sort_reader.read_row_group(0).schema
     sort_writer = parquet.ParquetWriter(
         output_file, version=version, schema=schema, **open_kwargs
     )
-    max_value = max([rec["max"] for rec in relevant_records])
-    min_value = min([rec["min"] for rec in relevant_records])
+    max_value = max([rec["max"] for rec in relevant_records], default=0)
+    min_value = min([rec["min"] for rec in relevant_records], default=0)
     windows = list(windowed(np.linspace(min_value, max_value, n_chunks), 2))
     # upper bounds are exclusive. note that adding 1 has no effect on very
     # large floats.
@@ -181,5 +183,15 @@ def sort_chunked(
                 window_table = inline_processor(window_table)
             sort_writer.write_table(window_table, **write_kwargs)
             del window_table
+        # rows with missing values come last in either direction
+        for group_ix in range(sort_reader.num_row_groups):
+            group = sort_reader.read_row_group(group_ix)
+            missing = pac.is_null(group[sort_column], nan_is_null=True)
+            group = group.filter(missing)
+            if len(group) == 0:
+                continue
+            if inline_processor is not None:
+                group = inline_processor(group)
+            sort_writer.write_table(group, **write_kwargs)
     finally:
         sort_writer.close()
-- 
2.43.0


From 6a3265a47a84522b9504a463a618445e1074752e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 56/68] fix: sort_chunked fails on files without row groups

---
 dustgoggles/mosaic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 0981a2d..dc94557 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -151,7 +151,7 @@ def sort_chunked(
         and rec["num_values"] > 0 and rec["max"] is not None
     ]
     if schema is None:
-        schema = sort_reader.read_row_group(0).schema
+        schema = sort_reader.schema_arrow
     sort_writer = parquet.ParquetWriter(
         output_file, version=version, schema=schema, **open_kwargs
     )
-- 
2.43.0


From 5ec96100bda9bc88064093da2f90e055696c7e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 57/68] fix: read_between fails on row groups without minimum
 and maximum

---
 dustgoggles/mosaic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index dc94557..1457447 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -103,7 +103,9 @@ def read_between(
     """
     bound_records = []
     for rec in meta_records:
-        if not ((rec["min"] > bounds[1]) or (rec["max"] < bounds[0])):
+        if rec.get("min") is None:
+            bound_records.append(rec)
+        elif not ((rec["min"] > bounds[1]) or (rec["max"] < bounds[0])):
             bound_records.append(rec)
     if verbose is True:
         print(len(bound_records), len(meta_records))
-- 
2.43.0


From 60c856adf779293687111a91ae268533616dd736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:25 +0000
Subject: [PATCH 58/68] fix: scrape_subframe fails on numbers with leading
 zeros

---
 dustgoggles/scrape.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/scrape.py b/dustgoggles/scrape.py
index eee8721..e707865 100644
--- a/dustgoggles/scrape.py
+++ b/dustgoggles/scrape.py
@@ -54,8 +54,9 @@ def scrape_subframe(label_text: str) -> tuple:
     total lines, total line samples
     if image is not subframed, should be (1, 1, 1200, 1648)
     """
-    return literal_eval(
-        ",".join(
+    return tuple(
+        map(
+            int,
             re.findall(r"\d+", re.search(SUBFRAME_GROUP, label_text).group())
         )
     )
-- 
2.43.0


From eabd604e18f79081b136b4cffb2c8bf4a2238ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 59/68] fix: deleting a GridPaper key destroyed the array of
 another key

blocks of arrays fetched without copying were compared with keys rather than
with addresses, so that deleting a key which is also the address of another
key's array unlinked that array (and unmapped the memory of its views). the
block of the deleted key has already been unlinked at that point.
---
 dustgoggles/codex/implements.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 913e3ca..451cfa6 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -951,10 +951,6 @@ class GridPaper(AbstractNotepad):
         try:
             delete_block(self.address(key))
             self.index.remove(key)
-            for block in self._open_blocks:
-                if block.name == key:
-                    block.close()
-                    block.unlink()
         except FileNotFoundError:
             raise KeyError(f"{key} not apparently assigned")
 
-- 
2.43.0


From dfaace4647919a4e1449ce51d5f3157c1a4c98c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:45 +0000
Subject: [PATCH 60/68] fix: arrays fetched without copying crashed once their
 GridPaper was gone

nothing kept the mapping of the shared memory block alive but the GridPaper
the array was fetched from; using the array after that was a segfault.
---
 dustgoggles/codex/codecs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index 4437f25..8511300 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -1,6 +1,7 @@
 import ast
 import json
 import pickle
+import weakref
 
 from multiprocessing.shared_memory import SharedMemory
 from typing import Any, Callable, Optional
@@ -167,6 +168,8 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
         )
         if copy is True:
             return array.copy(), None
+        # keep the block's memory mapped for as long as the array is in use
+        weakref.finalize(array, block.close).atexit = False
         return array, block
 
     return memorize_array, remember_array
-- 
2.43.0


From b45231e36fcc81b846fd90786e3a79f8acfcb23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 61/68] fix: typed_columns rejects a Series of an unsigned or
 extension type

---
 dustgoggles/pivot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 15b5483..969e868 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -145,12 +145,12 @@ def typed_columns(df, typenames):
     """return columns of df of types that match patterns given in typenames."""
     if isinstance(typenames, str):
         typenames = (typenames,)
-    if isinstance(df.dtypes, np.dtype):
-        if re.match("|".join(typenames).lower(), df.dtypes.name.lower()):
+    type_pattern = f"u?({'|'.join(typenames)})".lower()
+    if isinstance(df, pd.Series):
+        if re.match(type_pattern, df.dtypes.name.lower()):
             return df
         return pd.DataFrame(index=df.index)
     names = df.dtypes.apply(attrgetter("name")).str.lower()
-    type_pattern = f"u?({'|'.join(typenames)})".lower()
     return df.loc[:, names.str.match(type_pattern).to_numpy(bool)]
 
 
-- 
2.43.0


From bc339f100bebf001c1152a95a5940a75d107f4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:54 +0000
Subject: [PATCH 62/68] fix: a pulled sticky no longer removes its address's
 block at exit

---
 dustgoggles/codex/implements.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 451cfa6..7ae6c95 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -985,6 +985,7 @@ class Sticky:
         self.address = str(address)
         self.encode, self.decode = pickle_codec_factory()
         self._cached_value = value
+        self.cleanup_on_exit = cleanup_on_exit
         if cleanup_on_exit is True:
             atexit.register(self.close)
 
@@ -1022,6 +1023,8 @@ class Sticky:
         block = SharedMemory(self.address)
         block.unlink()
         block.close()
+        # the block is gone; if the address is reused, it isn't ours to remove
+        atexit.unregister(self.close)
 
     def pull(self):
         return self.close()
@@ -1032,6 +1035,10 @@ class Sticky:
         block = open_block(self.address, size, True, True)
         block.buf[:] = encoded
         self._cached_value = obj
+        if self.cleanup_on_exit is True:
+            # closing ends any earlier registration. never register twice.
+            atexit.unregister(self.close)
+            atexit.register(self.close)
 
     def __str__(self):
         if self._cached_value is not None:
-- 
2.43.0


From 945e9a4cad90249fad0da6cb408439a2652a1047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:01 +0000
Subject: [PATCH 63/68] fix: an interrupted waiter leaves the shared lock
 usable

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 7ae6c95..2a230f5 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -173,7 +173,7 @@ class SlidingLock:
         try:
             self._renumber()
             self.acquire()
-        except Exception as ex:
+        except BaseException as ex:
             if getattr(self, "debug") is True:
                 log(f"{here()},{self.number},crashing out: {ex}")
             self.release()
-- 
2.43.0


From 35a18a7b91f8e540009328ed0a2236d9f645dc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:38 +0000
Subject: [PATCH 64/68] fix: steps that merely hold a function are called, not
 bypassed

---
 dustgoggles/composition.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/composition.py b/dustgoggles/composition.py
index 221a15a..8852293 100644
--- a/dustgoggles/composition.py
+++ b/dustgoggles/composition.py
@@ -223,7 +223,12 @@ class Composition:
         else:
             args = keyfilter(lambda k: isinstance(k, int), insert)
             kwargs = keyfilter(lambda k: isinstance(k, str), insert)
-        if ("func" in dir(step)) and not isinstance(step, Dynamic):
+        # i.e., partials and the like. the "func" of other callables may not be
+        # all there is to calling them.
+        if (
+            {"func", "args", "keywords"}.issubset(dir(step))
+            and not isinstance(step, Dynamic)
+        ):
             return self._call_partial_step(state, step, args, kwargs)
         if len(args) == 0:
             return step(state, **kwargs)
-- 
2.43.0


From 3d77d5fbd88350586e313412395973bede745099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:11 +0000
Subject: [PATCH 65/68] fix: unique tuples of columns named like their index or
 by integers

---
 dustgoggles/pivot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 969e868..8968afb 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -314,7 +314,10 @@ def downcast_df(
 
 
 def _unique_tuples(df, columns):
-    counts = df[list(columns)].value_counts()
+    # pandas takes names of columns for those or positions of index levels
+    block = df[list(columns)].reset_index(drop=True)
+    block.columns = [f"column {i}" for i in range(block.shape[1])]
+    counts = block.value_counts()
     # unobserved categories have a count of 0
     return counts.index[counts > 0].to_list()
 
-- 
2.43.0


From 8ddcd7257048e43d4aec5fc211a01d4ac25a5f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:29 +0000
Subject: [PATCH 66/68] fix: a refused key that cannot be part of a block's
 name stays listed in its Notepad

---
 dustgoggles/codex/implements.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 2a230f5..f5a5a64 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -807,7 +807,12 @@ class Notepad(AbstractNotepad):
                 raise
             except Exception:
                 # e.g. unpicklable value: don't list a key that has no value
-                if not exists_block(self.address(key)):
+                try:
+                    written = exists_block(self.address(key))
+                except (OSError, ValueError):
+                    # key cannot be part of a block's name
+                    written = False
+                if written is False:
                     self.index.remove(key)
                 raise
             if self.debug is True:
-- 
2.43.0


From 2fb089f69a78f40d9bbaa69383258f9e709e4d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:22 +0000
Subject: [PATCH 67/68] fix: rmerge of mappings with many levels in common does
 not finish

---
 dustgoggles/structures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index f7c1617..a86d2be 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -301,6 +301,9 @@ def rmerge(map1, map2, mtypes=(dict, OrderedDict)):
     output = {}
     only_in_one = set(map1.keys()).symmetric_difference(map2.keys())
     for kv in chain(map1.items(), map2.items()):
+        if kv[0] in output:
+            # merging again would take time exponential in depth
+            continue
         if kv[0] in only_in_one:
             output[kv[0]] = kv[1]
         elif all(map(lambda m: isinstance(m, mtypes), (map1[kv[0]], map2[kv[0]]))):
-- 
2.43.0


From 61ca5b48661bb9566cda579fe082c58694465a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:11 +0000
Subject: [PATCH 68/68] fix: GridPaper can hand back the block of an array,
 unfetched

---
 dustgoggles/codex/implements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index f5a5a64..204efb5 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -900,6 +900,8 @@ class GridPaper(AbstractNotepad):
 
     def __getitem__(self, key, fetch=True, copy=True):
         try:
+            if fetch is False:
+                return self.remember(self.index[key], fetch)
             result, block = self.remember(self.index[key], fetch, copy)
             if copy is False:
                 self._open_blocks.append(block)
-- 
2.43.0

