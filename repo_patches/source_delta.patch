From c17baf6b6f9a7589b68039d489bfd2a408531ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:01 +0000
Subject: [PATCH 01/61] fix: replace proxies stored under string keys when
 decoding with keys=True

With keys=True the first phase of restoring a dict did not record the proxies
it stored, so a value that referred to an object still under construction
remained a placeholder in the decoded dict.
---
 jsonpickle/unpickler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 76420ac..5444759 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -918,8 +918,9 @@ class Unpickler:
                 else:
                     str_k = k
                 self._namestack.append(str_k)
-                data[k] = self._restore(v)
-
+                data[k] = result = self._restore(v)
+                if isinstance(result, _Proxy):
+                    self._proxies.append((data, k, result, _obj_setvalue))
                 self._namestack.pop()
 
             # Phase 2: object keys only.
-- 
2.43.0


From b3a14b6d75e58acdfe06671c7214bd4179ca90bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:06 +0000
Subject: [PATCH 02/61] fix: restore empty keyword arguments of
 __getnewargs_ex__

The pickler assigns a reference ID to the keyword dict even when it is empty.
The unpickler skipped an empty dict, so every later reference in the document
resolved to the wrong object.
---
 jsonpickle/unpickler.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 5444759..c9bb225 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -823,14 +823,13 @@ class Unpickler:
         factory = self._loadfactory(obj)
 
         if has_tag(obj, tags.NEWARGSEX):
-            args, kwargs = obj[tags.NEWARGSEX]
+            # restore both, even when empty, because they were both assigned IDs
+            args, kwargs = map(self._restore, obj[tags.NEWARGSEX])
         else:
             args = getargs(obj, classes=self._classes)
             kwargs = {}
-        if args:
-            args = self._restore(args)
-        if kwargs:
-            kwargs = self._restore(kwargs)
+            if args:
+                args = self._restore(args)
 
         is_oldstyle = not (isinstance(cls, type) or getattr(cls, "__meta__", None))
         try:
-- 
2.43.0


From 5c1a8495e5c49e6543a4f7aa4a9a563ed8fa88e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:10 +0000
Subject: [PATCH 03/61] fix: replace proxies held as items of dict subclasses

Items of a dict subclass that refer to an object still under construction were
swapped with setattr() instead of item assignment.  The placeholder remained in
the dict and a stray attribute appeared on the instance.
---
 jsonpickle/unpickler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index c9bb225..97f17e5 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -687,7 +687,6 @@ class Unpickler:
         restore_dict_items: bool = True,
     ) -> Any:
         restore_key = self._restore_key_fn()
-        method = _obj_setattr
         deferred = {}
 
         for k, v in util.items(obj):
@@ -747,6 +746,10 @@ class Unpickler:
             # This instance has an instance variable named `k` that is
             # currently a proxy and must be replaced
             if isinstance(value, _Proxy):
+                if util._is_dictionary_subclass(instance) and k != "__dict__":
+                    method = _obj_setvalue
+                else:
+                    method = _obj_setattr
                 self._proxies.append((instance, k, value, method))
 
             # step out
-- 
2.43.0


From 2b6d9dfd0a7d5dd5b73f1cb56564439cb13c9612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:38 +0000
Subject: [PATCH 04/61] fix: create reduced objects before restoring their
 state and items

The state, list items and dict items of a reduce value can refer back to the
object.  They were restored before the object existed, so references from
inside tuples and sets kept a placeholder forever.  Call the callable first,
then restore the remaining elements.
---
 jsonpickle/unpickler.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 97f17e5..b35fa37 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -522,15 +522,15 @@ class Unpickler:
         proxy = _Proxy()
         self._mkref(proxy)
         try:
-            reduce_val = list(map(self._restore, obj[tags.REDUCE]))
+            reduce_val = list(obj[tags.REDUCE])
+            if len(reduce_val) < 6:
+                reduce_val.extend([None] * (6 - len(reduce_val)))
+            f, args = map(self._restore, reduce_val[:2])
         except TypeError:
             result = []
             proxy.reset(result)
             self._swapref(proxy, result)
             return result
-        if len(reduce_val) < 6:
-            reduce_val.extend([None] * (6 - len(reduce_val)))
-        f, args, state, listitems, dictitems, state_setter = reduce_val
 
         if f == tags.NEWOBJ or getattr(f, "__name__", "") == "__newobj__":
             # mandated special case
@@ -551,6 +551,13 @@ class Unpickler:
                 # __init__ since the state dict will set all attributes immediately afterwards
                 stage1 = f.__new__(f, *args)
 
+        # The remaining elements can refer to the object itself, so make it
+        # available before restoring them.
+        proxy.reset(stage1)
+        self._swapref(proxy, stage1)
+
+        state, listitems, dictitems, state_setter = map(self._restore, reduce_val[2:])
+
         if state and state_setter is None:
             try:
                 stage1.__setstate__(state)
@@ -591,8 +598,6 @@ class Unpickler:
             for k, v in dictitems:
                 stage1.__setitem__(k, v)
 
-        proxy.reset(stage1)
-        self._swapref(proxy, stage1)
         return stage1
 
     def _restore_id(self, obj: dict[str, Any]) -> Any:
-- 
2.43.0


From d41d600d426918db25ca9934a6675c35b4687b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:29 +0000
Subject: [PATCH 05/61] fix: treat py/b64 and py/b85 as reserved tags

Dict keys equal to these tags were not escaped with keys=True, so such a dict
decoded to bytes instead of a dict.
---
 jsonpickle/tags.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/tags.py b/jsonpickle/tags.py
index cfede5b..36278e5 100644
--- a/jsonpickle/tags.py
+++ b/jsonpickle/tags.py
@@ -36,6 +36,8 @@ TYPE: str = "py/type"
 RESERVED: set[str] = {
     BYTES,
     BYTEARRAY,
+    B64,
+    B85,
     FUNCTION,
     ID,
     INITARGS,
-- 
2.43.0


From c167b56e9e4aeeaf159fe8dbd5af43f27a48448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:33 +0000
Subject: [PATCH 06/61] fix: keep cached objects alive while their id() is used
 as a key

Without references the pickler caches results by id().  Temporary bytes and
bytearrays were not kept alive, so another object could reuse the id and be
encoded with the cached result of the first one.
---
 jsonpickle/pickler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 771db2b..57d4bbe 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -346,6 +346,9 @@ class Pickler:
                 result = self._flattened[id(obj)]
             except KeyError:
                 result = self._flattened[id(obj)] = self._flatten_impl(obj)
+                # Keep the object alive so that its id() is not reused by another
+                # object while the cache entry exists.
+                self._seen.append(obj)
         return result
 
     def flatten(self, obj: Any, reset: bool = True) -> Any:
-- 
2.43.0


From 153e65acc0f4e7054d3d8e2662fd604b8631b6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:38 +0000
Subject: [PATCH 07/61] fix: break cycles of lists and dicts with
 unpicklable=False

A list or dict that contains itself was followed until the recursion limit.
Encode the inner occurrence as null like circular references to instances.
---
 jsonpickle/pickler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 57d4bbe..0af854b 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -934,6 +934,9 @@ class Pickler:
 
     def _get_flattener(self, obj: Any) -> Callable[[Any], Any] | None:
         if type(obj) in (list, dict):
+            if not self.unpicklable and id(obj) in self._objs:
+                # A circular reference becomes None, as it does for instances.
+                return None
             if self._mkref(obj):
                 return (
                     self._list_recurse if type(obj) is list else self._flatten_dict_obj
-- 
2.43.0


From b8fbb82cfc08d558b37e20a4a3556d955143221e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:04 +0000
Subject: [PATCH 08/61] fix: resolve references to iterators to the iterator
 itself

A second reference to an encoded iterator decoded to the list of its items.
---
 jsonpickle/unpickler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index b35fa37..0d0844a 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -498,9 +498,13 @@ class Unpickler:
 
     def _restore_iterator(self, obj: dict[str, Any]) -> Iterator[Any]:
         try:
-            return iter(self._restore_list(obj[tags.ITERATOR]))
+            items = self._restore_list(obj[tags.ITERATOR])
         except TypeError:
             return iter([])
+        iterator = iter(items)
+        # References to the iterator must not resolve to its list of items.
+        self._swapref(items, iterator)
+        return iterator
 
     def _swapref(self, proxy: _Proxy, instance: Any) -> None:
         proxy_id = id(proxy)
-- 
2.43.0


From cde7564c6c0af9bb77b0f1129c1f472f0829ecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:08 +0000
Subject: [PATCH 09/61] fix: support compiled regular expressions over bytes

The pattern was stored as is, which is not JSON serializable for bytes.
---
 jsonpickle/handlers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/handlers.py b/jsonpickle/handlers.py
index 3148365..f7cad2c 100644
--- a/jsonpickle/handlers.py
+++ b/jsonpickle/handlers.py
@@ -241,12 +241,13 @@ class RegexHandler(BaseHandler):
     """Flatten _sre.SRE_Pattern (compiled regex) objects"""
 
     def flatten(self, obj: re.Pattern[str], data: dict[str, Any]) -> HandlerReturn:
-        data["pattern"] = obj.pattern
+        data["pattern"] = self.context.flatten(obj.pattern, reset=False)
         data["flags"] = obj.flags
         return data
 
     def restore(self, data: dict[str, Any]) -> re.Pattern[str]:
-        return re.compile(data["pattern"], data.get("flags", 0))
+        pattern = self.context.restore(data["pattern"], reset=False)
+        return re.compile(pattern, data.get("flags", 0))
 
 
 RegexHandler.handles(type(re.compile("")))
-- 
2.43.0


From 1558545a0ff0b70ca76afbce1e1c14a61ecf9d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:45 +0000
Subject: [PATCH 10/61] fix: flatten default factories before the items of
 their dict

The unpickler restores a default factory before the items, but the pickler
assigned the IDs of a factory that is not a type after them.  References to
objects inside and after such a dict resolved to the wrong objects.
---
 jsonpickle/pickler.py | 47 ++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 0af854b..ea599b1 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -874,6 +874,31 @@ class Pickler:
         if data is None:
             data = obj.__class__()
 
+        # the collections.defaultdict protocol
+        # The factory is flattened before the items because the unpickler restores
+        # it first; this keeps the reference IDs in sync.
+        has_factory = hasattr(obj, "default_factory") and callable(obj.default_factory)
+        if has_factory:
+            factory = obj.default_factory
+            value: Any
+            if util._is_type(factory):
+                # Reference the class/type
+                # in this case it's dict[str, str]
+                value = _mktyperef(factory)
+            else:
+                # The factory is not a type and could reference e.g. functions
+                # or even the object instance itself, which creates a cycle.
+                if self._mkref(factory):
+                    # We've never seen this object before so pickle it in-place.
+                    # Create an instance from the factory and assume that the
+                    # resulting instance is a suitable exemplar.
+                    value = self._flatten_obj_instance(handlers.CloneFactory(factory()))
+                else:
+                    # We've seen this object before.
+                    # Break the cycle by emitting a reference.
+                    # in this case it's dict[str, int]
+                    value = self._getref(factory)
+
         # If we allow non-string keys then we have to do a two-phase
         # encoding to ensure that the reference IDs are deterministic.
         if self.keys:
@@ -892,33 +917,13 @@ class Pickler:
             for k, v in util.items(obj, exclude=exclude):
                 flatten(k, v, data)
 
-        # the collections.defaultdict protocol
-        if hasattr(obj, "default_factory") and callable(obj.default_factory):
-            factory = obj.default_factory
+        if has_factory:
             # i know that this string could be moved above the hasattr to reduce
             # string duplication but mypy 1.18.2 complains and i don't want to use
             # even more type: ignores
             store_key = "default_factory"
             if store_key in data:
                 store_key = tags.DEFAULT_FACTORY
-            value: Any
-            if util._is_type(factory):
-                # Reference the class/type
-                # in this case it's dict[str, str]
-                value = _mktyperef(factory)
-            else:
-                # The factory is not a type and could reference e.g. functions
-                # or even the object instance itself, which creates a cycle.
-                if self._mkref(factory):
-                    # We've never seen this object before so pickle it in-place.
-                    # Create an instance from the factory and assume that the
-                    # resulting instance is a suitable exemplar.
-                    value = self._flatten_obj_instance(handlers.CloneFactory(factory()))
-                else:
-                    # We've seen this object before.
-                    # Break the cycle by emitting a reference.
-                    # in this case it's dict[str, int]
-                    value = self._getref(factory)
             data[store_key] = value
 
         # Sub-classes of dict
-- 
2.43.0


From 7ba8aa436713dbd30157769c13058d86d79c9813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:08 +0000
Subject: [PATCH 11/61] fix: do not use up reference IDs for objects without a
 JSON entry

Objects that are replaced by fail_safe(), or whose handler returns None or a
string, were still counted when assigning IDs.  The unpickler does not count
them, so later references in the document resolved to the wrong objects.
---
 jsonpickle/pickler.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index ea599b1..86b1466 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -333,6 +333,14 @@ class Pickler:
         pretend_new = not self.unpicklable or not self.make_refs
         return pretend_new or is_new
 
+    def _forget_refs(self, count: int) -> None:
+        """
+        Forget the IDs assigned since there were `count` of them. The JSON data
+        has no entry for these objects so the unpickler won't assign the IDs.
+        """
+        while len(self._objs) > count:
+            self._objs.popitem()
+
     def _getref(self, obj: Any) -> dict[str, int]:
         """Return a "py/id" entry for the specified object"""
         return {tags.ID: self._objs.get(id(obj))}  # type: ignore[dict-item]
@@ -419,6 +427,7 @@ class Pickler:
 
     def _flatten_obj(self, obj: Any) -> Any:
         self._seen.append(obj)
+        num_refs = len(self._objs)
 
         max_reached = self._max_reached()
 
@@ -435,7 +444,11 @@ class Pickler:
                 self._pickle_warning(obj)
                 return None
 
-            return flatten_func(obj)
+            result = flatten_func(obj)
+            if not isinstance(result, (dict, list, tuple)):
+                # e.g. a custom handler that returns a string or None
+                self._forget_refs(num_refs)
+            return result
 
         except (KeyboardInterrupt, SystemExit):
             raise
@@ -443,6 +456,7 @@ class Pickler:
             if self.fail_safe is None:
                 raise
             else:
+                self._forget_refs(num_refs)
                 return self.fail_safe(e)
 
     def _list_recurse(self, obj: Iterable[Any]) -> list[Any]:
-- 
2.43.0


From aced9b08dd9b4f398db63c2e1a5773d8ccf8e1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:33 +0000
Subject: [PATCH 12/61] fix: keep dict subclass items stored under the key
 default_factory

The unpickler took such an item for the dict's default factory and dropped it.
Record that there is no factory, so that the item is restored as an item.
---
 jsonpickle/pickler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 86b1466..b70ebf1 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -939,6 +939,9 @@ class Pickler:
             if store_key in data:
                 store_key = tags.DEFAULT_FACTORY
             data[store_key] = value
+        elif "default_factory" in data and util._is_dictionary_subclass(obj):
+            # This is an item and not a factory
+            data[tags.DEFAULT_FACTORY] = None
 
         # Sub-classes of dict
         if hasattr(obj, "__dict__") and self.unpicklable and obj != obj.__dict__:
-- 
2.43.0


From 4fcc2364f82733569b5614896282ccec62dd34a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:37 +0000
Subject: [PATCH 13/61] fix: do not remove default factories from the data
 given to restore()

Restoring the same flattened data a second time lost the default factory.
---
 jsonpickle/unpickler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 0d0844a..036431a 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -832,6 +832,9 @@ class Unpickler:
 
         # An object can install itself as its own factory, so load the factory
         # after the instance is available for referencing.
+        if tags.DEFAULT_FACTORY in obj or "default_factory" in obj:
+            # _loadfactory() removes the factory, so don't modify the original data
+            obj = obj.copy()
         factory = self._loadfactory(obj)
 
         if has_tag(obj, tags.NEWARGSEX):
-- 
2.43.0


From e6eaaf1f454d4d4696cd971c8189b2caad5bc5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:51 +0000
Subject: [PATCH 14/61] fix: flatten escaped string keys together with the
 non-string keys

The unpickler restores every escaped key in its second phase, but string keys
that collide with a tag were flattened in the first phase.  References to the
values next to such a key resolved to the wrong objects.
---
 jsonpickle/pickler.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index b70ebf1..ebf9acb 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -834,10 +834,23 @@ class Pickler:
             make_refs=self.make_refs,
         )
 
+    def _needs_escape(self, k: Any) -> bool:
+        """Does this string key collide with the json:// prefix or a reserved tag?"""
+        return (
+            isinstance(k, str)
+            and (k.startswith(tags.JSON_KEY) or k in tags.RESERVED)
+            and self.keys
+        )
+
     def _flatten_non_string_key_value_pair(
         self, k: Any, v: Any, data: dict[str, Any]
     ) -> dict[str, Any]:
         """Flatten only non-string key/value pairs"""
+        if self._needs_escape(k):
+            # Escape data keys colliding with the json:// prefix or a reserved
+            # wire tag; must run before _is_picklable, which drops RESERVED keys.
+            data[self._escape_key(k)] = self._flatten(v)
+            return data
         if not util._is_picklable(k, v):
             return data
         if self.keys and not isinstance(k, str):
@@ -849,14 +862,8 @@ class Pickler:
         self, k: str, v: Any, data: dict[str, Any]
     ) -> dict[str, Any]:
         """Flatten string key/value pairs only."""
-        if (
-            isinstance(k, str)
-            and (k.startswith(tags.JSON_KEY) or k in tags.RESERVED)
-            and self.keys
-        ):
-            # Escape data keys colliding with the json:// prefix or a reserved
-            # wire tag; must run before _is_picklable, which drops RESERVED keys.
-            data[self._escape_key(k)] = self._flatten(v)
+        if self._needs_escape(k):
+            # Escaped keys are restored in the second phase
             return data
         if not util._is_picklable(k, v):
             return data
-- 
2.43.0


From 17cb51ee7236e376d3daed58e12788e4e77148c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:26 +0000
Subject: [PATCH 15/61] fix: do not flatten class attributes of objects with
 unset slots

When none of the slots was set the pickler fell back to everything in dir(),
including class attributes, which cannot be assigned when decoding.  Use the
fallback only when the names of the slots are not known.
---
 jsonpickle/pickler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index ebf9acb..449b9ba 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -592,7 +592,9 @@ class Pickler:
         if self.include_properties:
             data = self._flatten_properties(obj, data, allslots)
 
-        if not self._flatten_obj_attrs(obj, chain(*allslots), data, exclude):
+        names = list(chain(*allslots))
+        if not self._flatten_obj_attrs(obj, names, data, exclude) and not names:
+            # The slots are not known by name
             attrs = [
                 x for x in dir(obj) if not x.startswith("__") and not x.endswith("__")
             ]
-- 
2.43.0


From 1523958e700c0c630fe183a1271b1ca1d3f898c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:21 +0000
Subject: [PATCH 16/61] fix: encode private slots of base classes

Private slots were looked up under the name of the object's own class, so the
ones declared by a base class, or by a class with a leading underscore in its
name, were silently left out.
---
 jsonpickle/pickler.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 449b9ba..6018afd 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -206,6 +206,27 @@ def _wrap_string_slot(string: str | Sequence[str]) -> Sequence[str]:
     return string
 
 
+def _slot_names(obj: Any) -> list[list[str]]:
+    """Return the names of the slots declared by each class of an object's MRO
+
+    Private names are mangled, except those of the object's own class which are
+    mangled when they are used.
+    """
+    allslots = []
+    for cls in obj.__class__.mro():
+        owner = cls.__name__.lstrip("_")
+        own = cls is obj.__class__ and owner == cls.__name__
+        allslots.append(
+            [
+                f"_{owner}{name}"
+                if name.startswith("__") and not name.endswith("__") and not own
+                else name
+                for name in _wrap_string_slot(cls.__dict__.get("__slots__", ()))
+            ]
+        )
+    return allslots
+
+
 class Pickler:
     def __init__(
         self,
@@ -583,10 +604,7 @@ class Pickler:
         exclude: Iterable[str] = (),
     ) -> dict[str, Any]:
         """Return a json-friendly dict for new-style objects with __slots__."""
-        allslots = [
-            _wrap_string_slot(getattr(cls, "__slots__", ()))
-            for cls in obj.__class__.mro()
-        ]
+        allslots = _slot_names(obj)
 
         # add properties to the attribute list
         if self.include_properties:
-- 
2.43.0


From d113f7701fed6b63c6318159e20e2c3888a32392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:26 +0000
Subject: [PATCH 17/61] fix: encode slots of objects that also have an instance
 dict

A class without __slots__ that inherits from one with __slots__ has both.  Only
the instance dict was encoded and the values of the slots were lost.
---
 jsonpickle/pickler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 6018afd..fb1f95a 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -213,7 +213,7 @@ def _slot_names(obj: Any) -> list[list[str]]:
     mangled when they are used.
     """
     allslots = []
-    for cls in obj.__class__.mro():
+    for cls in obj.__class__.__mro__:
         owner = cls.__name__.lstrip("_")
         own = cls is obj.__class__ and owner == cls.__name__
         allslots.append(
@@ -791,7 +791,10 @@ class Pickler:
 
             # hack for zope persistent objects; this unghostifies the object
             getattr(obj, "_", None)
-            return self._flatten_dict_obj(obj.__dict__, data, exclude=exclude)
+            self._flatten_dict_obj(obj.__dict__, data, exclude=exclude)
+            # slots declared by the class or its base classes
+            self._flatten_obj_attrs(obj, chain(*_slot_names(obj)), data, exclude)
+            return data
 
         if has_slots:
             return self._flatten_newstyle_with_slots(obj, data, exclude=exclude)
-- 
2.43.0


From 0f140d705ae16b13f28c30cb4485b501997a7460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:57 +0000
Subject: [PATCH 18/61] fix: keep attributes of dict subclasses that equal
 their items

The attributes were left out when the items of the dict happened to be equal to
its instance dict.  Only a dict that is its own instance dict is special.
---
 jsonpickle/pickler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index fb1f95a..1610b10 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -974,7 +974,12 @@ class Pickler:
             data[tags.DEFAULT_FACTORY] = None
 
         # Sub-classes of dict
-        if hasattr(obj, "__dict__") and self.unpicklable and obj != obj.__dict__:
+        if (
+            hasattr(obj, "__dict__")
+            and self.unpicklable
+            and obj is not obj.__dict__
+            and (obj or obj.__dict__)
+        ):
             if self._mkref(obj.__dict__):
                 dict_data = {}
                 self._flatten_dict_obj(obj.__dict__, dict_data, exclude=exclude)
-- 
2.43.0


From 4da95262042e5e0ab82b59a5b5ae7157a1aa6fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:36 +0000
Subject: [PATCH 19/61] fix: give reduced objects an instance dict apart from
 their state

---
 jsonpickle/unpickler.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 036431a..cc46072 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -568,12 +568,15 @@ class Unpickler:
             except AttributeError:
                 # it's fine - we'll try the prescribed default methods
                 try:
-                    # we can't do a straight update here because we
-                    # need object identity of the state dict to be
-                    # preserved so that _swap_proxies works out
-                    for k, v in stage1.__dict__.items():
-                        state.setdefault(k, v)
-                    stage1.__dict__ = state
+                    # the state can be referenced from elsewhere, so the
+                    # instance needs a dict of its own
+                    stage1.__dict__.update(state)
+                    for k, v in state.items():
+                        if isinstance(v, _Proxy):
+                            # have _swap_proxies replace it in both dicts
+                            self._proxies.append(
+                                (stage1.__dict__, k, v, _obj_setvalue)
+                            )
                 except AttributeError:
                     # next prescribed default
                     try:
-- 
2.43.0


From b55fe4b2fa4ebeec6d65b253158e14e99f3b43e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:51 +0000
Subject: [PATCH 20/61] fix: apply states of reduced objects that consist of a
 dict and slots

---
 jsonpickle/unpickler.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index cc46072..71d2203 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -567,6 +567,10 @@ class Unpickler:
                 stage1.__setstate__(state)
             except AttributeError:
                 # it's fine - we'll try the prescribed default methods
+                slots_state = None
+                if isinstance(state, tuple) and len(state) == 2:
+                    state, slots_state = state
+                state = state or {}
                 try:
                     # the state can be referenced from elsewhere, so the
                     # instance needs a dict of its own
@@ -579,16 +583,11 @@ class Unpickler:
                             )
                 except AttributeError:
                     # next prescribed default
-                    try:
-                        for k, v in state.items():
-                            setattr(stage1, k, v)
-                    except Exception:  # ruff: ignore[BLE001]
-                        dict_state, slots_state = state
-                        if dict_state:
-                            stage1.__dict__.update(dict_state)
-                        if slots_state:
-                            for k, v in slots_state.items():
-                                setattr(stage1, k, v)
+                    for k, v in state.items():
+                        setattr(stage1, k, v)
+                if slots_state:
+                    for k, v in slots_state.items():
+                        setattr(stage1, k, v)
         elif state:
             # pickle protocol 5's state_setter takes priority over __setstate__
             state_setter(stage1, state)
-- 
2.43.0


From 30b60415dc0efb2bd65179c1f9cbfff90011291f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:50 +0000
Subject: [PATCH 21/61] fix: apply empty states of reduced objects

---
 jsonpickle/unpickler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 71d2203..91c5891 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -562,7 +562,7 @@ class Unpickler:
 
         state, listitems, dictitems, state_setter = map(self._restore, reduce_val[2:])
 
-        if state and state_setter is None:
+        if state is not None and state_setter is None:
             try:
                 stage1.__setstate__(state)
             except AttributeError:
@@ -588,7 +588,7 @@ class Unpickler:
                 if slots_state:
                     for k, v in slots_state.items():
                         setattr(stage1, k, v)
-        elif state:
+        elif state is not None:
             # pickle protocol 5's state_setter takes priority over __setstate__
             state_setter(stage1, state)
 
-- 
2.43.0


From eaeae332e6f1b8e41911ac2186204f64f36dece4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:41 +0000
Subject: [PATCH 22/61] fix: don't reuse results from another depth with
 max_depth

---
 jsonpickle/pickler.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 1610b10..34081f3 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -371,13 +371,19 @@ class Pickler:
         if self.unpicklable and self.make_refs:
             result = self._flatten_impl(obj)
         else:
+            # With a depth limit the result depends on where the object is.
+            depth = None if self._max_depth is None else self._depth
+            is_new = id(obj) not in self._objs
             try:
-                result = self._flattened[id(obj)]
+                result = self._flattened[id(obj), depth]
             except KeyError:
-                result = self._flattened[id(obj)] = self._flatten_impl(obj)
+                result = self._flattened[id(obj), depth] = self._flatten_impl(obj)
                 # Keep the object alive so that its id() is not reused by another
                 # object while the cache entry exists.
                 self._seen.append(obj)
+                if depth is not None and is_new:
+                    # Finding it again at another depth is not a cycle.
+                    self._objs.pop(id(obj), None)
         return result
 
     def flatten(self, obj: Any, reset: bool = True) -> Any:
-- 
2.43.0


From cf9a383c5b15040b4c9b703cce09c3f64cb8d705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:35 +0000
Subject: [PATCH 23/61] fix: don't treat slots as properties with
 include_properties

---
 jsonpickle/pickler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 34081f3..7b6c030 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -585,7 +585,12 @@ class Pickler:
 
         # i don't like lambdas
         def valid_property(x: tuple[str, Any]) -> bool:
-            return not x[0].startswith("__") and x[0] not in allslots_set
+            return (
+                not x[0].startswith("__")
+                and x[0] not in allslots_set
+                # slots are attributes and might not have been assigned yet
+                and not inspect.ismemberdescriptor(x[1])
+            )
 
         properties = [
             x[0] for x in inspect.getmembers(obj.__class__) if valid_property(x)
-- 
2.43.0


From 2f00d0fdf8c1e6538a9fe73f954ec0fe3d6a6e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:39 +0000
Subject: [PATCH 24/61] fix: don't assign reference IDs to property values

---
 jsonpickle/pickler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 7b6c030..bc0aaf5 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -596,6 +596,7 @@ class Pickler:
             x[0] for x in inspect.getmembers(obj.__class__) if valid_property(x)
         ]
 
+        num_refs = len(self._objs)
         properties_dict = {}
         for p_name in properties:
             p_val = getattr(obj, p_name)
@@ -604,6 +605,8 @@ class Pickler:
             else:
                 properties_dict[p_name] = self._flatten(p_val)
 
+        # The unpickler ignores the properties and assigns no IDs to them
+        self._forget_refs(num_refs)
         data[tags.PROPERTY] = properties_dict
 
         return data
-- 
2.43.0


From 577af4419776dadd4c56836de507e6826cadd256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:25 +0000
Subject: [PATCH 25/61] fix: restore the data of objects with missing classes

---
 jsonpickle/unpickler.py | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 91c5891..53a7b95 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -902,10 +902,42 @@ class Unpickler:
 
         if cls is None:
             self._process_missing(class_name)
-            return self._mkref(obj)
+            return self._restore_missing(obj)
 
         return self._restore_object_instance(obj, cls, class_name)
 
+    def _restore_missing(self, obj: dict[str, Any]) -> dict[str, Any]:
+        """Restore an object whose class is missing to a dict of its data.
+
+        Everything inside has to be restored in the order it was flattened because
+        it was assigned IDs that later references depend on.
+        """
+        data: dict[str, Any] = {}
+        self._mkref(data)
+        restore_key = self._restore_key_fn()
+        for k, v in util.items(obj):
+            self._namestack.append(str(k))
+            k = restore_key(k)
+            value: Any
+            if k == tags.PROPERTY:
+                # properties are not restored and have no IDs
+                value = v
+            elif k in (tags.SEQ, tags.NEWARGSEX) and isinstance(v, list):
+                # the items have IDs but the list itself does not
+                value = [self._restore(x) for x in v]
+                self._proxies.extend(
+                    (value, idx, x, _obj_setvalue)
+                    for idx, x in enumerate(value)
+                    if isinstance(x, _Proxy)
+                )
+            else:
+                value = self._restore(v)
+            data[k] = value
+            if isinstance(value, _Proxy):
+                self._proxies.append((data, k, value, _obj_setvalue))
+            self._namestack.pop()
+        return data
+
     def _restore_function(self, obj: dict[str, Any]) -> Any:
         return util.loadclass(obj[tags.FUNCTION], classes=self._classes)
 
-- 
2.43.0


From 8f1458eb50d307f3bf492db2c9ed8b121e017a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:56 +0000
Subject: [PATCH 26/61] fix: ignore boolean and negative reference IDs

---
 jsonpickle/unpickler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 53a7b95..7550946 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -607,8 +607,11 @@ class Unpickler:
         return stage1
 
     def _restore_id(self, obj: dict[str, Any]) -> Any:
+        idx = obj[tags.ID]
+        if isinstance(idx, bool) or (isinstance(idx, int) and idx < 0):
+            # never assigned, but valid as a list index
+            return None
         try:
-            idx = obj[tags.ID]
             return self._objs[idx]
         except IndexError:
             return _IDProxy(self._objs, idx)
-- 
2.43.0


From d0680f100fd361b8bcc3662d9f07ace6cc014bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:00 +0000
Subject: [PATCH 27/61] fix: don't return a placeholder for an unknown
 reference

---
 jsonpickle/unpickler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 7550946..e87b29d 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -404,6 +404,8 @@ class Unpickler:
         value = self._restore(obj)
         if reset:
             self._swap_proxies()
+            if isinstance(value, _Proxy):
+                value = value.get()
         return value
 
     def register_classes(self, classes: ClassesType) -> None:
-- 
2.43.0


From 0ac6402f9674a749f6d04087b4713502b498ebc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:03 +0000
Subject: [PATCH 28/61] fix: load a backend that is already loaded only once

Loading a backend twice put its name twice into the list of backends, so
that it was still tried, and failed with a KeyError, after it was removed.
---
 jsonpickle/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/backend.py b/jsonpickle/backend.py
index b150a02..bd6f33d 100644
--- a/jsonpickle/backend.py
+++ b/jsonpickle/backend.py
@@ -193,7 +193,8 @@ class JSONBackend:
         self._decoder_options.setdefault(name, ([], {}))
 
         # Add this backend to the list of candidate backends
-        self._backend_names.append(name)
+        if name not in self._backend_names:
+            self._backend_names.append(name)
 
         # Indicate that we successfully loaded a JSON backend
         self._verified = True
-- 
2.43.0


From 824101f0b3ff53d4d5dfd6dd6239c79dc488bdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:46 +0000
Subject: [PATCH 29/61] fix: do not call __repr__ of callable instances while
 encoding

Checking for Cython functions called repr() on every callable, including
instances with a __call__ method. An exception from their __repr__ made
encoding fail, for instance a RecursionError for a self-referential
default dict.
---
 jsonpickle/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/util.py b/jsonpickle/util.py
index e0414d2..15dc3d2 100644
--- a/jsonpickle/util.py
+++ b/jsonpickle/util.py
@@ -336,6 +336,8 @@ def _is_cython_function(obj: Any) -> bool:
     """Returns true if the object is a reference to a Cython function"""
     return (
         callable(obj)
+        # only functions and classes, instances can have an arbitrary __repr__()
+        and hasattr(obj, "__qualname__")
         and hasattr(obj, "__repr__")
         and repr(obj).startswith("<cyfunction ")
     )
-- 
2.43.0


From 73af0837344ed97bcaed7689da61f64dd26c8715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:28 +0000
Subject: [PATCH 30/61] fix: let PandasProcessor store long text without
 compression

---
 jsonpickle/ext/pandas.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 73e695c..5d97127 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -85,11 +85,11 @@ class PandasProcessor:
         self, buf: str, data: dict[str, Any], meta: dict[str, Any] | None = None
     ) -> dict[str, Any]:
         if self.size_threshold is not None and len(buf) > self.size_threshold:
+            payload = buf.encode()
             if self.compression:
-                buf = self.compression.compress(buf.encode())
+                payload = self.compression.compress(payload)
                 data["comp"] = True
-            # we have a mypy error here, not sure what the fix is so i'm silencing it temporarily
-            data["values"] = b64encode(buf)  # type: ignore[arg-type]
+            data["values"] = b64encode(payload)
             data["txt"] = False
         else:
             data["values"] = buf
@@ -103,9 +103,10 @@ class PandasProcessor:
             # It's just text...
             buf = data["values"]
         else:
-            buf = b64decode(data["values"])
+            payload = b64decode(data["values"])
             if data.get("comp", False):
-                buf = self.compression.decompress(buf).decode()
+                payload = self.compression.decompress(payload)
+            buf = payload.decode()
         meta = data.get("meta", {})
         return (buf, meta)
 
-- 
2.43.0


From 94eea34ae4b65e078440c4156dfa3d60926e22bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:59 +0000
Subject: [PATCH 31/61] fix: keep the items of object columns as they are

---
 jsonpickle/ext/pandas.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 5d97127..bc306e7 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -274,10 +274,13 @@ class PandasDfHandler(BaseHandler):
                 col_values = [decode(item) for item in col_data]
                 df_data[col] = col_values
             else:
-                df_data[col] = col_data
                 # used later to get correct dtypes
                 dtype_str = REVERSE_TYPE_MAP.get(type_code, "object")
                 dtypes[col] = dtype_str
+                if dtype_str == "object":
+                    # keep pandas from converting the items to a common type
+                    col_data = pd.Series(col_data, dtype=object)
+                df_data[col] = col_data
 
         # turn dict into df
         df = pd.DataFrame(df_data)
-- 
2.43.0


From 0f31c8e9e3b4efa766d3fdb22e5e33f1b5bb6a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:57 +0000
Subject: [PATCH 32/61] fix: restore the names of pandas indexes

---
 jsonpickle/ext/pandas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index bc306e7..f8501f0 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -381,7 +381,7 @@ class PandasIndexHandler(BaseHandler):
         buf, meta = self.pp.restore_pandas(data)
         dtype = meta.get("dtype", None)
         name_bundle = {
-            "name": (tuple if v is not None else lambda x: x)(v)  # ruff: ignore[B035]
+            "name": tuple(v) if isinstance(v, list) else v  # ruff: ignore[B035]
             for k, v in meta.items()
             if k in {"name", "names"}
         }
-- 
2.43.0


From 4776bd03e607f85978869c0950ca61df59cfe532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:51 +0000
Subject: [PATCH 33/61] fix: keep the fold of times and datetimes

---
 jsonpickle/handlers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/handlers.py b/jsonpickle/handlers.py
index f7cad2c..6e5eb0d 100644
--- a/jsonpickle/handlers.py
+++ b/jsonpickle/handlers.py
@@ -215,7 +215,8 @@ class DatetimeHandler(BaseHandler):
             else:
                 result = str(obj)
             return result
-        cls, args = obj.__reduce__()  # type: ignore[str-unpack]
+        # protocols below 4 do not store the fold
+        cls, args = obj.__reduce_ex__(4)  # type: ignore[str-unpack]
         flatten = pickler.flatten
         payload = util.b64encode(args[0])  # type: ignore[arg-type]
         args = [payload] + [flatten(i, reset=False) for i in args[1:]]
-- 
2.43.0


From a0d7e19d6a61717cb5d3bf8b6b67e60cef3e3508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:43 +0000
Subject: [PATCH 34/61] fix: encode properties whose values are sets or contain
 objects

---
 jsonpickle/pickler.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index bc0aaf5..6edf020 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -599,14 +599,10 @@ class Pickler:
         num_refs = len(self._objs)
         properties_dict = {}
         for p_name in properties:
-            p_val = getattr(obj, p_name)
-            if util._is_not_class(p_val):
-                properties_dict[p_name] = p_val
-            else:
-                properties_dict[p_name] = self._flatten(p_val)
+            properties_dict[p_name] = self._flatten(getattr(obj, p_name))
+            # The unpickler ignores the properties and assigns no IDs to them
+            self._forget_refs(num_refs)
 
-        # The unpickler ignores the properties and assigns no IDs to them
-        self._forget_refs(num_refs)
         data[tags.PROPERTY] = properties_dict
 
         return data
-- 
2.43.0


From 2ce14ebd1319c08d494d80d0d5d10008c764c8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:12 +0000
Subject: [PATCH 35/61] fix: respect _jsonpickle_exclude for list and set
 subclasses

---
 jsonpickle/pickler.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 6edf020..0e0de91 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -787,7 +787,7 @@ class Pickler:
             return data
 
         if util._is_sequence_subclass(obj):
-            return self._flatten_sequence_obj(obj, data)
+            return self._flatten_sequence_obj(obj, data, exclude=exclude)
 
         if util._is_iterator(obj):
             # force list in python 3
@@ -797,7 +797,7 @@ class Pickler:
         if has_dict:
             # Support objects that subclasses list and set
             if util._is_sequence_subclass(obj):
-                return self._flatten_sequence_obj(obj, data)
+                return self._flatten_sequence_obj(obj, data, exclude=exclude)
 
             # hack for zope persistent objects; this unghostifies the object
             getattr(obj, "_", None)
@@ -1035,11 +1035,14 @@ class Pickler:
         return None
 
     def _flatten_sequence_obj(
-        self, obj: Iterable[Any], data: dict[str, Any]
+        self,
+        obj: Iterable[Any],
+        data: dict[str, Any],
+        exclude: Iterable[Any] = (),
     ) -> dict[str, Any] | list[Any]:
         """Return a json-friendly dict for a sequence subclass."""
         if hasattr(obj, "__dict__"):
-            self._flatten_dict_obj(obj.__dict__, data)
+            self._flatten_dict_obj(obj.__dict__, data, exclude=exclude)
         value = [self._flatten(v) for v in obj]
         if self.unpicklable:
             data[tags.SEQ] = value
-- 
2.43.0


From 008a1948c332284f09fcd8de54176a64a4b96376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:17 +0000
Subject: [PATCH 36/61] fix: keep the items of dict subclasses that exclude an
 attribute of that name

---
 jsonpickle/pickler.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 0e0de91..9b1930f 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -953,22 +953,26 @@ class Pickler:
                     # in this case it's dict[str, int]
                     value = self._getref(factory)
 
+        # Only attributes can be excluded, not the items of a dict
+        is_dict_subclass = util._is_dictionary_subclass(obj)
+        items = list(util.items(obj, exclude=() if is_dict_subclass else exclude))
+
         # If we allow non-string keys then we have to do a two-phase
         # encoding to ensure that the reference IDs are deterministic.
         if self.keys:
             # Phase 1: serialize regular objects, ignore fancy keys.
             flatten = self._flatten_string_key_value_pair
-            for k, v in util.items(obj, exclude=exclude):
+            for k, v in items:
                 flatten(k, v, data)
 
             # Phase 2: serialize non-string keys.
             flatten = self._flatten_non_string_key_value_pair
-            for k, v in util.items(obj, exclude=exclude):
+            for k, v in items:
                 flatten(k, v, data)
         else:
             # If we have string keys only then we only need a single pass.
             flatten = self._flatten_key_value_pair
-            for k, v in util.items(obj, exclude=exclude):
+            for k, v in items:
                 flatten(k, v, data)
 
         if has_factory:
@@ -979,7 +983,7 @@ class Pickler:
             if store_key in data:
                 store_key = tags.DEFAULT_FACTORY
             data[store_key] = value
-        elif "default_factory" in data and util._is_dictionary_subclass(obj):
+        elif "default_factory" in data and is_dict_subclass:
             # This is an item and not a factory
             data[tags.DEFAULT_FACTORY] = None
 
-- 
2.43.0


From ef18a87fe260b07e63fe49f51128e5d053d0f00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:16 +0000
Subject: [PATCH 37/61] fix: Keep the slots of list and set subclasses

---
 jsonpickle/pickler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 9b1930f..51da7a7 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -1047,6 +1047,7 @@ class Pickler:
         """Return a json-friendly dict for a sequence subclass."""
         if hasattr(obj, "__dict__"):
             self._flatten_dict_obj(obj.__dict__, data, exclude=exclude)
+        self._flatten_obj_attrs(obj, chain(*_slot_names(obj)), data, exclude)
         value = [self._flatten(v) for v in obj]
         if self.unpicklable:
             data[tags.SEQ] = value
-- 
2.43.0


From 4d838aa3175fb468befc20e52eb62ce00549807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:10 +0000
Subject: [PATCH 38/61] fix: do not take the instance dict of a dict subclass
 for a cycle

---
 jsonpickle/pickler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 51da7a7..4e8c2c9 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -994,10 +994,14 @@ class Pickler:
             and obj is not obj.__dict__
             and (obj or obj.__dict__)
         ):
+            is_new = id(obj.__dict__) not in self._objs
             if self._mkref(obj.__dict__):
                 dict_data = {}
                 self._flatten_dict_obj(obj.__dict__, dict_data, exclude=exclude)
                 data["__dict__"] = dict_data
+                if is_new and not self.make_refs:
+                    # Finding it again elsewhere is not a cycle.
+                    self._objs.pop(id(obj.__dict__), None)
             else:
                 data["__dict__"] = self._getref(obj.__dict__)
 
-- 
2.43.0


From a17f1248dca43c52b1fe8899722f5d8ac56dea95 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Mon, 16 Nov 2026 06:01:49 +0000
Subject: [PATCH 39/61] fix: keep the shape of zero-dimensional numpy arrays

---
 jsonpickle/ext/numpy.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 7c895cb..edce70c 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -114,10 +114,14 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
         self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
         self.flatten_flags(obj, data)
-        data["values"] = self.context.flatten(obj.tolist(), reset=False)
-        if 0 in obj.shape:
+        values = obj.tolist()
+        if obj.ndim == 0:
+            # a bare value could not be told from binary data
+            values = [values]
+        data["values"] = self.context.flatten(values, reset=False)
+        if 0 in obj.shape or obj.ndim == 0:
             # add shape information explicitly as it cannot be
-            # inferred from an empty list
+            # inferred from the list
             data["shape"] = obj.shape
         return data
 
-- 
2.43.0


From be512436969792931ac9b4a5fd4a3b46e24c8110 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Mon, 16 Nov 2026 06:01:49 +0000
Subject: [PATCH 40/61] fix: keep the memory order of numpy arrays stored as
 binary data

---
 jsonpickle/ext/numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index edce70c..73c6cc0 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -244,7 +244,7 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
                     dtype=dtype,
                     shape=data.get("shape"),  # type: ignore[arg-type]
                     order=data.get("order", "C"),
-                ).copy()  # make a copy, to force the result to own the data
+                ).copy(order="K")  # make a copy, to force the result to own the data
                 self.restore_byteorder(data, arr)
             self.restore_flags(data, arr)
 
-- 
2.43.0


From a5344c8f22d16a638b69c290d428a090cc6826b0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Mon, 16 Nov 2026 06:01:49 +0000
Subject: [PATCH 41/61] fix: don't set the dtype of an existing numpy array

---
 jsonpickle/ext/numpy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 73c6cc0..904d336 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -168,10 +168,11 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
         if byteorder != "|":
             data["byteorder"] = get_byteorder(obj)
 
-    def restore_byteorder(self, data: dict[str, Any], arr: npt.NDArray[Any]) -> None:
-        byteorder = data.get("byteorder", None)
-        if byteorder:
-            arr.dtype = arr.dtype.newbyteorder(byteorder)  # type: ignore[misc]
+    def restore_byteorder(
+        self, data: dict[str, Any], dtype: np.dtype[Any]
+    ) -> np.dtype[Any]:
+        # setting the dtype of an existing array is deprecated since numpy 2.5
+        return dtype.newbyteorder(data.get("byteorder") or "|")
 
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
         """encode numpy to json"""
@@ -241,11 +242,10 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
             else:
                 arr = np.ndarray(
                     buffer=buf,
-                    dtype=dtype,
+                    dtype=self.restore_byteorder(data, dtype),
                     shape=data.get("shape"),  # type: ignore[arg-type]
                     order=data.get("order", "C"),
                 ).copy(order="K")  # make a copy, to force the result to own the data
-                self.restore_byteorder(data, arr)
             self.restore_flags(data, arr)
 
         return arr
-- 
2.43.0


From e6bd8004324ae63712e8c45756ca8774dd7d1696 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Mon, 16 Nov 2026 06:01:49 +0000
Subject: [PATCH 42/61] fix: keep the byte order of numpy arrays stored as text
 and of views

---
 jsonpickle/ext/numpy.py | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 904d336..cd907d2 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -111,8 +111,20 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
         if not data.get("writeable", True):
             arr.flags.writeable = False
 
+    def flatten_byteorder(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> None:
+        byteorder = get_byteorder(obj)
+        if byteorder != "|":
+            data["byteorder"] = byteorder
+
+    def restore_byteorder(
+        self, data: dict[str, Any], dtype: np.dtype[Any]
+    ) -> np.dtype[Any]:
+        # setting the dtype of an existing array is deprecated since numpy 2.5
+        return dtype.newbyteorder(data.get("byteorder") or "|")
+
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
         self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+        self.flatten_byteorder(obj, data)
         self.flatten_flags(obj, data)
         values = obj.tolist()
         if obj.ndim == 0:
@@ -128,7 +140,9 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
     def restore(self, data: dict[str, Any]) -> npt.NDArray[Any]:
         values = self.context.restore(data["values"], reset=False)
         arr = np.array(
-            values, dtype=self.restore_dtype(data), order=data.get("order", "C")
+            values,
+            dtype=self.restore_byteorder(data, self.restore_dtype(data)),
+            order=data.get("order", "C"),
         )
         shape = data.get("shape", None)
         if shape is not None:
@@ -163,17 +177,6 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
         self.size_threshold = size_threshold
         self.compression = compression
 
-    def flatten_byteorder(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> None:
-        byteorder = obj.dtype.byteorder
-        if byteorder != "|":
-            data["byteorder"] = get_byteorder(obj)
-
-    def restore_byteorder(
-        self, data: dict[str, Any], dtype: np.dtype[Any]
-    ) -> np.dtype[Any]:
-        # setting the dtype of an existing array is deprecated since numpy 2.5
-        return dtype.newbyteorder(data.get("byteorder") or "|")
-
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
         """encode numpy to json"""
         if self.size_threshold is None or self.size_threshold >= obj.size:
@@ -340,13 +343,9 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
 
             data["shape"] = obj.shape
             self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+            self.flatten_byteorder(obj, data)
             self.flatten_flags(obj, data)
 
-            if get_byteorder(obj) != "|":
-                byteorder = "S" if get_byteorder(obj) != get_byteorder(base) else None
-                if byteorder:
-                    data["byteorder"] = byteorder
-
             if self.size_threshold is None or self.size_threshold >= obj.size:
                 # not used in restore since base is present, but
                 # include values for human-readability
@@ -384,11 +383,9 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
 
                 data["shape"] = obj.shape
                 self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+                self.flatten_byteorder(obj, data)
                 self.flatten_flags(obj, data)
 
-                if get_byteorder(obj) != "|":
-                    data["byteorder"] = get_byteorder(obj)
-
                 if self.size_threshold is None or self.size_threshold >= obj.size:
                     # not used in restore since base is present, but
                     # include values for human-readability
@@ -443,7 +440,7 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
 
             arr = np.ndarray(
                 buffer=buffer,
-                dtype=self.restore_dtype(data).newbyteorder(data.get("byteorder", "|")),
+                dtype=self.restore_byteorder(data, self.restore_dtype(data)),
                 shape=data.get("shape"),  # type: ignore[arg-type]
                 offset=data.get("offset", 0),
                 strides=data.get("strides", None),
-- 
2.43.0


From c5e8a375a4375100c50f2d4ef6e9bb1f5ef41507 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Mon, 16 Nov 2026 06:01:49 +0000
Subject: [PATCH 43/61] fix: keep the byte orders of the fields of structured
 numpy arrays

---
 jsonpickle/ext/numpy.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index cd907d2..af520bf 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -32,6 +32,16 @@ def get_byteorder(arr: _HasDType) -> str:
     return native_byteorder if byteorder == "=" else byteorder
 
 
+def get_native_dtype(arr: _HasDType) -> np.dtype[Any]:
+    """the dtype in native order, for which the byte order is stored separately
+
+    The fields of structured dtypes each have an order of their own, which is
+    part of the text of the dtype.
+    """
+    dtype = arr.dtype
+    return dtype if dtype.fields else dtype.newbyteorder("N")
+
+
 class NumpyBaseHandler(BaseHandler):
     def flatten_dtype(self, dtype: npt.DTypeLike, data: dict[str, Any]) -> None:
         if hasattr(dtype, "tostring"):
@@ -61,7 +71,7 @@ class NumpyDTypeHandler(NumpyBaseHandler):
 
 class NumpyGenericHandler(NumpyBaseHandler):
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
-        self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+        self.flatten_dtype(get_native_dtype(obj), data)
         value = obj.tolist()
         if isinstance(value, np.generic):
             # extended-precision scalars have no Python counterpart, so
@@ -123,7 +133,7 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
         return dtype.newbyteorder(data.get("byteorder") or "|")
 
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
-        self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+        self.flatten_dtype(get_native_dtype(obj), data)
         self.flatten_byteorder(obj, data)
         self.flatten_flags(obj, data)
         values = obj.tolist()
@@ -210,7 +220,7 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
                 buf = self.compression.compress(buf)
             data["values"] = b64encode(buf)
             data["shape"] = obj.shape
-            self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+            self.flatten_dtype(get_native_dtype(obj), data)
             self.flatten_byteorder(obj, data)
             self.flatten_flags(obj, data)
 
@@ -342,7 +352,7 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
                 data["strides"] = obj.strides
 
             data["shape"] = obj.shape
-            self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+            self.flatten_dtype(get_native_dtype(obj), data)
             self.flatten_byteorder(obj, data)
             self.flatten_flags(obj, data)
 
@@ -382,7 +392,7 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
                     data["strides"] = obj.strides
 
                 data["shape"] = obj.shape
-                self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+                self.flatten_dtype(get_native_dtype(obj), data)
                 self.flatten_byteorder(obj, data)
                 self.flatten_flags(obj, data)
 
-- 
2.43.0


From 71397b8afc995e913536893a06203ff98a9c63ba Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Mon, 16 Nov 2026 06:01:49 +0000
Subject: [PATCH 44/61] fix: restore views of numpy datetime arrays

---
 jsonpickle/ext/numpy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index af520bf..5318d26 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -436,7 +436,11 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
             base = self.context.restore(base, reset=False)
             buffer: Any
             if isinstance(base, np.ndarray):
-                buffer = base.data
+                try:
+                    buffer = base.data
+                except ValueError:
+                    # datetime64 and timedelta64 have no buffer format
+                    buffer = base.view(f"V{base.itemsize}").data
             elif isinstance(base, (bytes, bytearray, memoryview)):
                 buffer = base
             else:
-- 
2.43.0


From 06d385dce07d4324572490d8097a1ffa138f7aff Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Mon, 16 Nov 2026 06:02:36 +0000
Subject: [PATCH 45/61] fix: restore numpy object arrays that contain sequences

---
 jsonpickle/ext/numpy.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 5318d26..312cd61 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -141,7 +141,7 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
             # a bare value could not be told from binary data
             values = [values]
         data["values"] = self.context.flatten(values, reset=False)
-        if 0 in obj.shape or obj.ndim == 0:
+        if 0 in obj.shape or obj.ndim == 0 or obj.dtype == object:
             # add shape information explicitly as it cannot be
             # inferred from the list
             data["shape"] = obj.shape
@@ -149,12 +149,19 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
 
     def restore(self, data: dict[str, Any]) -> npt.NDArray[Any]:
         values = self.context.restore(data["values"], reset=False)
-        arr = np.array(
-            values,
-            dtype=self.restore_byteorder(data, self.restore_dtype(data)),
-            order=data.get("order", "C"),
-        )
+        dtype = self.restore_byteorder(data, self.restore_dtype(data))
+        order = data.get("order", "C")
         shape = data.get("shape", None)
+        if dtype == object and shape:
+            # the items can be sequences, which numpy would take for dimensions
+            arr = np.empty(shape, dtype=dtype, order=order)
+            for index in np.ndindex(*shape):
+                item = values
+                for i in index:
+                    item = item[i]
+                arr[index] = item
+        else:
+            arr = np.array(values, dtype=dtype, order=order)
         if shape is not None:
             arr = arr.reshape(shape)
 
-- 
2.43.0


From 667a500606c0c1eff6c9ce36332e57a5f678bd59 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Mon, 16 Nov 2026 06:02:36 +0000
Subject: [PATCH 46/61] fix: encode large numpy arrays of arbitrary objects

---
 jsonpickle/ext/numpy.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 312cd61..0aae613 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -196,8 +196,18 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
 
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
         """encode numpy to json"""
-        if self.size_threshold is None or self.size_threshold >= obj.size:
-            # encode as text
+        if (
+            self.size_threshold is None
+            or self.size_threshold >= obj.size
+            or (
+                obj.dtype == object
+                and not all(
+                    type(item) in (str, int, float, bool, type(None))
+                    for item in obj.flat
+                )
+            )
+        ):
+            # encode as text, also objects that json cannot represent
             data = super().flatten(obj, data)
         else:
             # encode as binary
-- 
2.43.0


From 69ac4666960648a32a2705bb6aa163c082db9962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:11 +0000
Subject: [PATCH 47/61] fix: replace the placeholders in list subclasses

---
 jsonpickle/unpickler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index e87b29d..f0a9081 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -819,7 +819,11 @@ class Unpickler:
         if has_tag(obj, tags.SEQ):
             if hasattr(instance, "append"):
                 for v in obj[tags.SEQ]:
-                    instance.append(self._restore(v))
+                    value = self._restore(v)
+                    instance.append(value)
+                    if isinstance(value, _Proxy):
+                        idx = len(instance) - 1
+                        self._proxies.append((instance, idx, value, _obj_setvalue))
             elif hasattr(instance, "add"):
                 for v in obj[tags.SEQ]:
                     instance.add(self._restore(v))
-- 
2.43.0


From 22e470112feee7fc9442a61e0088c36abbe88b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:31:26 +0000
Subject: [PATCH 48/61] fix: replace the placeholders in sets

---
 jsonpickle/unpickler.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index f0a9081..6e0e7b4 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -200,6 +200,12 @@ def _obj_setvalue(obj: Any, idx: Any, proxy: _Proxy) -> None:
     obj[idx] = proxy.get()
 
 
+def _obj_replaceitem(obj: Any, _: Any, proxy: _Proxy) -> None:
+    """Replace a proxy in a set"""
+    obj.remove(proxy)
+    obj.add(proxy.get())
+
+
 def has_tag(obj: Any, tag: str) -> bool:
     """Helper class that tests to see if the obj is a dictionary
     and contains a particular key/tag.
@@ -826,7 +832,10 @@ class Unpickler:
                         self._proxies.append((instance, idx, value, _obj_setvalue))
             elif hasattr(instance, "add"):
                 for v in obj[tags.SEQ]:
-                    instance.add(self._restore(v))
+                    value = self._restore(v)
+                    instance.add(value)
+                    if isinstance(value, _Proxy):
+                        self._proxies.append((instance, None, value, _obj_replaceitem))
 
         if has_tag(obj, tags.STATE):
             instance = self._restore_state(obj, instance)
@@ -952,9 +961,15 @@ class Unpickler:
 
     def _restore_set(self, obj: dict[str, Any]) -> set[Any]:
         try:
-            return {self._restore(v) for v in obj[tags.SET]}
+            items = {self._restore(v) for v in obj[tags.SET]}
         except TypeError:
             return set()
+        self._proxies.extend(
+            (items, None, value, _obj_replaceitem)
+            for value in items
+            if isinstance(value, _Proxy)
+        )
+        return items
 
     def _restore_dict(self, obj: dict[str, Any]) -> dict[str, Any]:
         data = {}
-- 
2.43.0


From add09cd517c82c65107245d21c6a1b9ec79b7bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:32:04 +0000
Subject: [PATCH 49/61] fix: replace the placeholders in the items of reduced
 objects

---
 jsonpickle/unpickler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 6e0e7b4..fa51406 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -607,10 +607,16 @@ class Unpickler:
             except AttributeError:
                 for x in listitems:
                     stage1.append(x)
+            for idx, v in enumerate(listitems, -len(listitems)):
+                if isinstance(v, _Proxy):
+                    idx += len(stage1)
+                    self._proxies.append((stage1, idx, v, _obj_setvalue))
 
         if dictitems:
             for k, v in dictitems:
                 stage1.__setitem__(k, v)
+                if isinstance(v, _Proxy):
+                    self._proxies.append((stage1, k, v, _obj_setvalue))
 
         return stage1
 
-- 
2.43.0


From 0effeea15ca0639050798b82dcb1ef217814989d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:32:32 +0000
Subject: [PATCH 50/61] fix: replace the placeholders in the slots of reduced
 objects

---
 jsonpickle/unpickler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index fa51406..7f7b34e 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -593,9 +593,13 @@ class Unpickler:
                     # next prescribed default
                     for k, v in state.items():
                         setattr(stage1, k, v)
+                        if isinstance(v, _Proxy):
+                            self._proxies.append((stage1, k, v, _obj_setattr))
                 if slots_state:
                     for k, v in slots_state.items():
                         setattr(stage1, k, v)
+                        if isinstance(v, _Proxy):
+                            self._proxies.append((stage1, k, v, _obj_setattr))
         elif state is not None:
             # pickle protocol 5's state_setter takes priority over __setstate__
             state_setter(stage1, state)
-- 
2.43.0


From d57b3e0ac835f0498d80115bfcb2c8e8dc359f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:39:08 +0000
Subject: [PATCH 51/61] fix: don't swallow errors raised while flattening slots

---
 jsonpickle/pickler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 4e8c2c9..7c97035 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -563,10 +563,10 @@ class Pickler:
                     value = getattr(obj, k)
                 else:
                     value = getattr(obj, f"_{obj.__class__.__name__}{k}")
-                flatten(k, value, data)
             except AttributeError:
                 # The attribute may have been deleted
                 continue
+            flatten(k, value, data)
             ok = True
         return ok
 
-- 
2.43.0


From 7410d81b8e525974a33a410e0f3df4ae083bd89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:39:34 +0000
Subject: [PATCH 52/61] fix: don't swallow errors raised while restoring the
 items of tuples, sets and iterators

---
 jsonpickle/unpickler.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 7f7b34e..ebf798c 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -206,6 +206,11 @@ def _obj_replaceitem(obj: Any, _: Any, proxy: _Proxy) -> None:
     obj.add(proxy.get())
 
 
+def _is_iterable(obj: Any) -> bool:
+    """Can the payload of a tag be iterated?"""
+    return isinstance(obj, (list, tuple, set, dict, str))
+
+
 def has_tag(obj: Any, tag: str) -> bool:
     """Helper class that tests to see if the obj is a dictionary
     and contains a particular key/tag.
@@ -505,10 +510,8 @@ class Unpickler:
         return parent
 
     def _restore_iterator(self, obj: dict[str, Any]) -> Iterator[Any]:
-        try:
-            items = self._restore_list(obj[tags.ITERATOR])
-        except TypeError:
-            return iter([])
+        payload = obj[tags.ITERATOR]
+        items = self._restore_list(payload if _is_iterable(payload) else [])
         iterator = iter(items)
         # References to the iterator must not resolve to its list of items.
         self._swapref(items, iterator)
@@ -970,8 +973,10 @@ class Unpickler:
         return util.loadclass(obj[tags.FUNCTION], classes=self._classes)
 
     def _restore_set(self, obj: dict[str, Any]) -> set[Any]:
+        payload = obj[tags.SET]
+        values = [self._restore(v) for v in payload] if _is_iterable(payload) else []
         try:
-            items = {self._restore(v) for v in obj[tags.SET]}
+            items = set(values)
         except TypeError:
             return set()
         self._proxies.extend(
@@ -1033,10 +1038,10 @@ class Unpickler:
         return data
 
     def _restore_tuple(self, obj: dict[str, Any]) -> tuple[Any, ...]:
-        try:
-            return tuple(self._restore(v) for v in obj[tags.TUPLE])
-        except TypeError:
+        payload = obj[tags.TUPLE]
+        if not _is_iterable(payload):
             return ()
+        return tuple(self._restore(v) for v in payload)
 
     def _restore_tags(
         self, obj: Any, _passthrough: Callable[[Any], Any] = _passthrough
-- 
2.43.0


From 3549ef1dbce40ea42e0cd381832196f4017cb07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:39:39 +0000
Subject: [PATCH 53/61] fix: don't swallow errors raised while restoring the
 arguments of reduced objects

---
 jsonpickle/unpickler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index ebf798c..11004ff 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -538,14 +538,14 @@ class Unpickler:
         self._mkref(proxy)
         try:
             reduce_val = list(obj[tags.REDUCE])
-            if len(reduce_val) < 6:
-                reduce_val.extend([None] * (6 - len(reduce_val)))
-            f, args = map(self._restore, reduce_val[:2])
         except TypeError:
             result = []
             proxy.reset(result)
             self._swapref(proxy, result)
             return result
+        if len(reduce_val) < 6:
+            reduce_val.extend([None] * (6 - len(reduce_val)))
+        f, args = map(self._restore, reduce_val[:2])
 
         if f == tags.NEWOBJ or getattr(f, "__name__", "") == "__newobj__":
             # mandated special case
-- 
2.43.0


From ea1fd6fbd34551c22c53f61571598145047a34d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:39:44 +0000
Subject: [PATCH 54/61] fix: don't swallow AttributeErrors raised by
 __setstate__

---
 jsonpickle/unpickler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 11004ff..6e5e38f 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -574,9 +574,9 @@ class Unpickler:
         state, listitems, dictitems, state_setter = map(self._restore, reduce_val[2:])
 
         if state is not None and state_setter is None:
-            try:
+            if hasattr(stage1, "__setstate__"):
                 stage1.__setstate__(state)
-            except AttributeError:
+            else:
                 # it's fine - we'll try the prescribed default methods
                 slots_state = None
                 if isinstance(state, tuple) and len(state) == 2:
-- 
2.43.0


From 8cec8b289d500594d53b277d0995998b286ced47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:39:49 +0000
Subject: [PATCH 55/61] fix: don't swallow AttributeErrors raised by extend

---
 jsonpickle/unpickler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 6e5e38f..97a3cb3 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -609,9 +609,9 @@ class Unpickler:
 
         if listitems:
             # should be lists if not None
-            try:
+            if hasattr(stage1, "extend"):
                 stage1.extend(listitems)
-            except AttributeError:
+            else:
                 for x in listitems:
                     stage1.append(x)
             for idx, v in enumerate(listitems, -len(listitems)):
-- 
2.43.0


From 15521df7411b60c83482a562292f498ec690a8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:09:45 +0000
Subject: [PATCH 56/61] fix: leave the encoded object unchanged with
 handle_readonly

Attributes were tested for being read-only by setting them, and the value
set could be one of a nested object with an attribute of the same name.
---
 jsonpickle/util.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jsonpickle/util.py b/jsonpickle/util.py
index 15dc3d2..3e20638 100644
--- a/jsonpickle/util.py
+++ b/jsonpickle/util.py
@@ -344,9 +344,16 @@ def _is_cython_function(obj: Any) -> bool:
 
 
 def _is_readonly(obj: Any, attr: str, value: Any) -> bool:
+    own = in_dict(obj, attr)
+    old = getattr(obj, attr, None)
     # CPython 3.11+ has 0-cost try/except, please use up-to-date versions!
     try:
         setattr(obj, attr, value)
+        # leave the object as it was
+        if not own and in_dict(obj, attr):
+            delattr(obj, attr)
+        else:
+            setattr(obj, attr, old)
         return False
     except AttributeError:
         # this is okay, it means the attribute couldn't be set
-- 
2.43.0


From ffcece387cd56b17b0f4aec565cfd26856456667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:04 +0000
Subject: [PATCH 57/61] fix: follow all parts of the name that a reduce value
 gives

__reduce__() can return the name of a global.  Only the first attribute
after the module was looked up in names such as "module.Class.attribute".
---
 jsonpickle/pickler.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 7c97035..c40de62 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -696,18 +696,16 @@ class Pickler:
             reduce_val = self._reduce(obj, has_reduce, has_reduce_ex)
 
             if reduce_val and isinstance(reduce_val, str):
-                try:
-                    varpath = iter(reduce_val.split("."))
-                    # curmod will be transformed by the
-                    # loop into the value to pickle
-                    curmod = sys.modules[next(varpath)]
-                    for modname in varpath:
+                varpath = reduce_val.split(".")
+                # curmod will be transformed by the
+                # loop into the value to pickle
+                curmod = sys.modules.get(varpath[0])
+                if curmod is not None and len(varpath) > 1:
+                    for modname in varpath[1:]:
                         curmod = getattr(curmod, modname)
-                        # replace obj with value retrieved
-                        return self._flatten(curmod)
-                except KeyError:
-                    # well, we can't do anything with that, so we ignore it
-                    pass
+                    # replace obj with value retrieved
+                    return self._flatten(curmod)
+                # otherwise we can't do anything with that, so we ignore it
 
             elif reduce_val:
                 # at this point, reduce_val should be some kind of iterable
-- 
2.43.0


From 9f77d4f3241b14001fee7780a8b7571ccb65112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:11 +0000
Subject: [PATCH 58/61] fix: keep references intact when __reduce__ returns a
 name

The object was counted as a reference although the decoder never sees it,
so that later references resolved to other objects.  An object that is the
named global itself became a reference to itself.
---
 jsonpickle/pickler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index c40de62..b5ada97 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -703,8 +703,10 @@ class Pickler:
                 if curmod is not None and len(varpath) > 1:
                     for modname in varpath[1:]:
                         curmod = getattr(curmod, modname)
-                    # replace obj with value retrieved
-                    return self._flatten(curmod)
+                    if curmod is not obj:
+                        # replace obj with value retrieved, also in the references
+                        self._objs.pop(id(obj), None)
+                        return self._flatten(curmod)
                 # otherwise we can't do anything with that, so we ignore it
 
             elif reduce_val:
-- 
2.43.0


From d35d456447bbd17f2ac016bb1dc7895580085879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:15:56 +0000
Subject: [PATCH 59/61] fix: set private slots by their mangled names when
 references are resolved late

A private slot that refers to an object which is still being restored, for
example by a custom handler, was assigned by its unmangled name afterwards.
This raised AttributeError.
---
 jsonpickle/unpickler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 97a3cb3..1fff3f7 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -776,7 +776,8 @@ class Unpickler:
                             continue
                         raise
                 else:
-                    setattr(instance, f"_{instance.__class__.__name__}{k}", value)
+                    k = f"_{instance.__class__.__name__}{k}"
+                    setattr(instance, k, value)
 
             # This instance has an instance variable named `k` that is
             # currently a proxy and must be replaced
-- 
2.43.0


From 28e4285d71c289e99dbf31da761931adfb72591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:16:03 +0000
Subject: [PATCH 60/61] fix: resolve late references held by frozen dataclasses

A frozen dataclass that refers to an object which is still being restored, for
example by a custom handler, raised FrozenInstanceError.
---
 jsonpickle/unpickler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 1fff3f7..95f61f9 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -192,7 +192,11 @@ class _IDProxy(_Proxy):
 
 def _obj_setattr(obj: Any, attr: str, proxy: _Proxy) -> None:
     """Use setattr to update a proxy entry"""
-    setattr(obj, attr, proxy.get())
+    value = proxy.get()
+    try:
+        setattr(obj, attr, value)
+    except dataclasses.FrozenInstanceError:
+        object.__setattr__(obj, attr, value)
 
 
 def _obj_setvalue(obj: Any, idx: Any, proxy: _Proxy) -> None:
-- 
2.43.0


From d3b7b22c44e12b7356f4842f4d3f0acdf0913c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:16:10 +0000
Subject: [PATCH 61/61] fix: keep attributes whose names start with two
 underscores

Instance attributes such as __name__ were restored under a mangled name that
belongs to private slots, and slots such as __x__ were not encoded at all.
Only the private slots of the class are mangled now.
---
 jsonpickle/pickler.py   | 4 +++-
 jsonpickle/unpickler.py | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index b5ada97..7f440c7 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -222,6 +222,7 @@ def _slot_names(obj: Any) -> list[list[str]]:
                 if name.startswith("__") and not name.endswith("__") and not own
                 else name
                 for name in _wrap_string_slot(cls.__dict__.get("__slots__", ()))
+                if name not in ("__dict__", "__weakref__")
             ]
         )
     return allslots
@@ -559,7 +560,8 @@ class Pickler:
             if k in exclude:
                 continue
             try:
-                if not k.startswith("__"):
+                # names that also end with underscores are not mangled
+                if not k.startswith("__") or k.endswith("__"):
                     value = getattr(obj, k)
                 else:
                     value = getattr(obj, f"_{obj.__class__.__name__}{k}")
diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 95f61f9..ab46ebd 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -756,7 +756,9 @@ class Unpickler:
                     self._namestack.pop()
                     continue
             else:
-                if not k.startswith("__"):
+                # private slots are stored by the names they were declared with
+                private = f"_{instance.__class__.__name__}{k}"
+                if not (k.startswith("__") and hasattr(instance.__class__, private)):
                     try:
                         setattr(instance, k, value)
                     except KeyError:
@@ -780,7 +782,7 @@ class Unpickler:
                             continue
                         raise
                 else:
-                    k = f"_{instance.__class__.__name__}{k}"
+                    k = private
                     setattr(instance, k, value)
 
             # This instance has an instance variable named `k` that is
-- 
2.43.0

