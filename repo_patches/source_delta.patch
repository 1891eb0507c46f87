From aae96e65ecab364e1afd12d2b1b783b1f04f8a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 01/55] fix: describe ranges whose endpoints are tuples

---
 vistautils/range.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vistautils/range.py b/vistautils/range.py
index 18a0db0..e2f875a 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -258,13 +258,13 @@ class _BelowValue(_Cut[T]):
         return False
 
     def describe_as_lower_bound(self) -> str:
-        return "[%s" % self._endpoint
+        return "[%s" % (self._endpoint,)
 
     def describe_as_upper_bound(self) -> str:
-        return "%s)" % self._endpoint
+        return "%s)" % (self._endpoint,)
 
     def __repr__(self) -> str:
-        return "\\\\%s/" % self._endpoint
+        return "\\\\%s/" % (self._endpoint,)
 
 
 @attrs(frozen=True, slots=True, repr=False, hash=False, eq=False)
@@ -295,13 +295,13 @@ class _AboveValue(_Cut[T]):
         return False
 
     def describe_as_lower_bound(self) -> str:
-        return "(%s" % self._endpoint
+        return "(%s" % (self._endpoint,)
 
     def describe_as_upper_bound(self) -> str:
-        return "%s]" % self._endpoint
+        return "%s]" % (self._endpoint,)
 
     def __repr__(self) -> str:
-        return "/%s\\\\" % self._endpoint
+        return "/%s\\\\" % (self._endpoint,)
 
 
 # must initialize after declaring Range
-- 
2.43.0


From 07ba59765dc46744d971f7136b6c747d55c4d7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 02/55] fix: keep the unbounded cuts unique when ranges are
 copied or unpickled

---
 vistautils/range.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vistautils/range.py b/vistautils/range.py
index e2f875a..9aa71e5 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -191,6 +191,10 @@ class _BelowAll(_Cut[T]):
         # some arbitrary number
         return 233904909
 
+    def __reduce__(self):
+        # comparisons rely on there being only one instance
+        return "_BELOW_ALL"
+
 
 @attrs(frozen=True, slots=True, hash=False, eq=False)
 class _AboveAll(_Cut[T]):
@@ -224,6 +228,10 @@ class _AboveAll(_Cut[T]):
         # some arbitrary number
         return 9989388
 
+    def __reduce__(self):
+        # comparisons rely on there being only one instance
+        return "_ABOVE_ALL"
+
 
 # noinspection PyRedeclaration
 _BELOW_ALL = _BelowAll()
-- 
2.43.0


From eb0f4da6f3b50bb57f39232db82c286fefa3fecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 03/55] fix: make equal range sets hash equally

---
 vistautils/range.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/range.py b/vistautils/range.py
index 9aa71e5..1e73e72 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -785,7 +785,8 @@ class RangeSet(
             return False
 
     def __hash__(self) -> int:
-        return hash(self.as_ranges())
+        # the view returned by as_ranges() itself hashes by identity
+        return hash(tuple(self.as_ranges()))
 
     @abstractmethod
     def is_empty(self) -> bool:
-- 
2.43.0


From 2fdf5237268e743c3663a61bb376dbba76cb364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 04/55] fix: unpickle empty range sets pickled with protocols 0
 and 1

---
 vistautils/range.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vistautils/range.py b/vistautils/range.py
index 1e73e72..fdb8048 100644
--- a/vistautils/range.py
+++ b/vistautils/range.py
@@ -806,6 +806,11 @@ class RangeSet(
     def __repr__(self):
         return self.__class__.__name__ + "(" + str(self.as_ranges()) + ")"
 
+    def __reduce_ex__(self, protocol):
+        # protocols below 2 do not call __setstate__ for a falsy state,
+        # which would leave an empty range set uninitialized
+        return super().__reduce_ex__(max(protocol, 2))
+
     def __getstate__(self) -> Tuple[Range[T], ...]:
         if self.is_empty():
             return ()
-- 
2.43.0


From 618809278edee542de819fb4cd775b8db2536232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 05/55] fix: allow Span.minimal_enclosing_span to be given an
 iterator

---
 vistautils/span.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vistautils/span.py b/vistautils/span.py
index 7d80016..51863f7 100644
--- a/vistautils/span.py
+++ b/vistautils/span.py
@@ -129,6 +129,8 @@ class Span(Sized):
 
         This will raise a `ValueError` if `spans` is empty.
         """
+        # copy first because we need to iterate twice
+        spans = tuple(spans)
         return Span(min(span.start for span in spans), max(span.end for span in spans))
 
     @staticmethod
-- 
2.43.0


From 7699e607541739f864f7a77ccf785fdc81ed9893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 06/55] fix: refuse different items with the same span in a
 disjoint span index instead of dropping one

---
 vistautils/span.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vistautils/span.py b/vistautils/span.py
index 51863f7..aa8ca09 100644
--- a/vistautils/span.py
+++ b/vistautils/span.py
@@ -1,4 +1,4 @@
-from typing import Iterable, Optional, Sized, Tuple, TypeVar, Union
+from typing import Dict, Iterable, Optional, Sized, Tuple, TypeVar, Union
 
 from attr import attrib, attrs, validators
 
@@ -215,7 +215,13 @@ def _build_range_to_item_index(
 ) -> ImmutableRangeMap[int, T]:
     if inp is None:
         return immutablerangemap()
-    return immutablerangemap((span.as_range(), item) for span, item in inp)
+    range_to_item: Dict[Range[int], T] = {}
+    for span, item in inp:
+        if range_to_item.setdefault(span.as_range(), item) != item:
+            raise ValueError(
+                f"Some range keys are connected or overlapping: different items have {span}"
+            )
+    return immutablerangemap(range_to_item.items())
 
 
 @attrs(frozen=True, slots=True)
-- 
2.43.0


From 49fd46a779125c211e00d0ed1f97b00f19365a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 07/55] fix: do not mistake equal items at both ends of a span
 for one item containing it

---
 vistautils/span.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/vistautils/span.py b/vistautils/span.py
index aa8ca09..b75d544 100644
--- a/vistautils/span.py
+++ b/vistautils/span.py
@@ -247,13 +247,8 @@ class _DisjointHasSpanIndex(HasSpanIndex[T]):
         return self._range_to_item_index.get_enclosed_by(span.as_range())
 
     def get_containing(self, span: Span) -> Optional[T]:
-        rng = span.as_range()
-        if (
-            self._range_to_item_index[rng.lower_endpoint]
-            == self._range_to_item_index[rng.upper_endpoint]
-        ):
-            return self._range_to_item_index[rng.lower_endpoint]
-        return None
+        rng = self._range_to_item_index.range_set.range_enclosing_range(span.as_range())
+        return self._range_to_item_index.rng_to_val[rng] if rng else None
 
 
 @attrs(frozen=True, slots=True)
-- 
2.43.0


From 67fa988a3f2523e1ea67270aa870857613506dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 08/55] fix: nest annotations with identical spans properly

---
 vistautils/annotated_text_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vistautils/annotated_text_utils.py b/vistautils/annotated_text_utils.py
index e54cbdd..0d7ae26 100644
--- a/vistautils/annotated_text_utils.py
+++ b/vistautils/annotated_text_utils.py
@@ -179,7 +179,9 @@ class HTMLStyleAnnotationFormatter:
         )
         end_tags = (
             HTMLStyleAnnotationFormatter.Tag(to_end_tag(ann), False, ann.span.end)
-            for ann in sorted(annotations, key=end_tag_key)
+            # reversed so that annotations with identical spans are closed in the opposite of the
+            # order in which they were opened
+            for ann in sorted(reversed(list(annotations)), key=end_tag_key)
         )
 
         # interleave the start and end tag lists
-- 
2.43.0


From aea4667cedd268b81c07ddf3edbce5e15c936779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 09/55] fix: allow annotating the empty text

---
 vistautils/annotated_text_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vistautils/annotated_text_utils.py b/vistautils/annotated_text_utils.py
index 0d7ae26..b85c44a 100644
--- a/vistautils/annotated_text_utils.py
+++ b/vistautils/annotated_text_utils.py
@@ -91,6 +91,9 @@ class HTMLStyleAnnotationFormatter:
         paragraph from a document.
         """
         if not text_offsets:
+            if not text:
+                # there are no empty spans, so nothing can be annotated
+                return ""
             text_offsets = Span.from_inclusive_to_exclusive(0, len(text))
         check_arg(
             len(text_offsets) == len(text),
-- 
2.43.0


From 45678de316f90e3a8d75acc3f1c6ca512a126b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 10/55] fix: do not list a key in a zip key-value store when
 putting its value failed

---
 vistautils/key_value.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 86a6f3a..6816189 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -483,10 +483,11 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
                 "Zip-backed key-value sinks do not support duplicate puts on the "
                 "same key"
             )
-        self._keys.add(key)
         filename = self._filename_function(key)
         check_arg(isinstance(value, str) or isinstance(value, bytes))
         self._zip_file.writestr(filename, value)  # type: ignore
+        # only remember the key once its value has been written
+        self._keys.add(key)
 
     @abstractmethod
     def _to_bytes(self, val: V) -> bytes:
-- 
2.43.0


From 425a05f9cd5b8ac46c8e296e2640c2dbe97f7f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 11/55] fix: forget earlier keys when a zip key-value sink is
 entered again

---
 vistautils/key_value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 6816189..cc47a9f 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -495,6 +495,8 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
 
     def __enter__(self) -> "KeyValueSink[str, V]":
         self._zip_file = ZipFile(str(self._path), "w" if self._overwrite else "a")
+        # forget the keys of any earlier session with this sink
+        self._keys = set()
         if self._keys_in_function:
             # update rather than assignment because return might not be mutable
             existing_keys = self._keys_in_function(self._zip_file)
-- 
2.43.0


From 46d59a01b9fd76e3f945bf34d62c79a06ba415ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 12/55] fix: do not skip tar members whose key is the empty
 string

---
 vistautils/key_value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index cc47a9f..ce0e766 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -743,7 +743,7 @@ class TarGzipBytesLinearKeyValueSource(KeyValueLinearSource[str, bytes]):
             for member in self.inp:  # type: ignore
                 if member.isfile() and self.name_filter(member.name):
                     key = self.key_function(member.name)
-                    if key and key_filter(key):
+                    if key is not None and key_filter(key):
                         data = self.inp.extractfile(member)  # type: ignore
                         if data:
                             with data:
-- 
2.43.0


From 8fecc5a806e65aec41371219a659d60cf1cf8c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 13/55] fix: make binary key-value sources without a type
 binary

---
 vistautils/key_value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index ce0e766..98ac121 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -1013,7 +1013,7 @@ def byte_key_value_source_from_params(
         input_namespace,
         KeyValueSource,
         special_factories=_BYTE_KEY_VALUE_SOURCE_SPECIAL_VALUES,
-        default_factory=_doc_id_source_from_params,
+        default_factory=_doc_id_binary_source_from_params,
         context=effective_context,
         factory_namespace_param_name="type",
     )
-- 
2.43.0


From a5eafdff068cdefa09db20455e9cc6f5697a5811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 14/55] fix: make 'file-map' key-value sources read their file
 map instead of being empty

---
 vistautils/key_value.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 98ac121..92b39be 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -838,12 +838,12 @@ class _InterpretedKeyValueSource(Generic[K, V], KeyValueSource[K, V]):
 
 _CHAR_KEY_VALUE_SOURCE_SPECIAL_VALUES = {
     "zip": "_ZipCharFileKeyValuesSource",
-    "file-map": "_PathMappingCharKeyValueSource",
+    "file-map": "_doc_id_source_from_params",
 }
 
 _BYTE_KEY_VALUE_SOURCE_SPECIAL_VALUES = {
     "zip": "_ZipBytesFileKeyValuesSource",
-    "file-map": "_PathMappingBytesKeyValueSource",
+    "file-map": "_doc_id_binary_source_from_params",
 }
 
 
-- 
2.43.0


From 6046db9a0b0706f713e156d7600c9d7fccf5c0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 15/55] fix: read the documented docIdToFileMap parameter of
 key-value sources

---
 vistautils/key_value.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 92b39be..a5f156e 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -847,12 +847,17 @@ _BYTE_KEY_VALUE_SOURCE_SPECIAL_VALUES = {
 }
 
 
+def _doc_id_map_from_params(params: Parameters) -> Path:
+    params.assert_exactly_one_present(("path", "docIdToFileMap"))
+    return params.existing_file("path" if "path" in params else "docIdToFileMap")
+
+
 def _doc_id_source_from_params(params: Parameters) -> KeyValueSource[str, str]:
-    return KeyValueSource.from_doc_id_to_file_map(params.existing_file("path"))
+    return KeyValueSource.from_doc_id_to_file_map(_doc_id_map_from_params(params))
 
 
 def _doc_id_binary_source_from_params(params: Parameters) -> KeyValueSource[str, bytes]:
-    return KeyValueSource.binary_from_doc_id_to_file_map(params.existing_file("path"))
+    return KeyValueSource.binary_from_doc_id_to_file_map(_doc_id_map_from_params(params))
 
 
 def char_key_value_linear_source_from_params(
-- 
2.43.0


From 5d9594b215631224366e51264b2c89596e5ebfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 16/55] fix: support the documented 'directory' type of
 key-value sinks

---
 vistautils/key_value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index a5f156e..0b27254 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -1027,11 +1027,13 @@ def byte_key_value_source_from_params(
 _CHAR_KEY_VALUE_SINK_SPECIAL_VALUES = {
     "zip": "_ZipCharFileKeyValueSink",
     "file-map": "_DirectoryCharKeyValueSink",
+    "directory": "_DirectoryCharKeyValueSink",
 }
 
 _BYTE_KEY_VALUE_SINK_SPECIAL_VALUES = {
     "zip": "_ZipBytesFileKeyValueSink",
     "file-map": "_DirectoryBytesKeyValueSink",
+    "directory": "_DirectoryBytesKeyValueSink",
 }
 
 
-- 
2.43.0


From ae5e9062fb4f95639f4c4a90a03abcaa50d89995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 17/55] fix: use the special factory a string parameter asks
 for, not the default factory

---
 vistautils/parameters.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index e8ba62f..23014a0 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1043,9 +1043,19 @@ class Parameters:
                 if requested_param_string_value in special_values:
                     return validate(special_values[requested_param_string_value])
                 elif requested_param_string_value in special_factories:
+                    special_factory = special_factories[requested_param_string_value]
+                    if isinstance(special_factory, str):
+                        special_factory = eval_in_context_of_modules(
+                            special_factory,
+                            context if context else dict(globals()),
+                            context_modules=self._context_modules_from_prefix(
+                                special_factory
+                            ),
+                            expected_type=object,
+                        )
                     return validate(
                         apply_factory(
-                            default_factory,
+                            special_factory,
                             Parameters.empty(
                                 namespace_prefix=_extend_prefix(
                                     self.namespace_prefix, name
-- 
2.43.0


From c896ece2fe9a5b09f92349da0223042e4e4cd8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 18/55] fix: pass factories the namespace prefix they are
 called for

---
 vistautils/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 23014a0..038b688 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1378,7 +1378,7 @@ def _extend_prefix(
 ) -> Tuple[str, ...]:
     ret = list(namespace_prefix)
     ret.append(new_element)
-    return tuple(new_element)
+    return tuple(ret)
 
 
 @attrs(auto_attribs=True)
-- 
2.43.0


From 01120cc85a3c02c16b051f88178adb91a77c5e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 19/55] fix: evaluate parameters with dots which are not
 qualified names

---
 vistautils/parameters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 038b688..9dd4040 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -7,6 +7,7 @@ import re
 import shutil
 from datetime import date
 from enum import Enum, EnumMeta
+from itertools import takewhile
 from pathlib import Path
 from typing import (
     Any,
@@ -832,7 +833,10 @@ class Parameters:
         For example, for *foo.bar.baz.meep_function*, these are
         *foo*, *foo.bar*, and *foo.bar.baz*.
         """
-        parts = maybe_fully_qualified_name.split(".")[:-1]
+        # anything which is not a name ends the fully qualified name (*1.5* has none)
+        parts = list(
+            takewhile(str.isidentifier, maybe_fully_qualified_name.split(".")[:-1])
+        )
         return [".".join(parts[0 : i + 1]) for i in range(len(parts))]
 
     # type ignored because ImmutableDict.empty() has type Dict[Any, Any]
-- 
2.43.0


From 8ca67e873c0d0bbaff556cfc8fa69e9ca32348c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 20/55] fix: fall back on the default when a namespace names
 neither a value nor a factory

---
 vistautils/parameters.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 9dd4040..95f4830 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1003,6 +1003,15 @@ class Parameters:
                 # The general case is that the user has a namespace providing all the information
                 # for evaluation.
                 namespace = self.namespace(name)
+                if (
+                    value_namespace_param_name not in namespace
+                    and factory_namespace_param_name not in namespace
+                ):
+                    # The namespace only holds parameters for the default, if there is one.
+                    if default_value is not None:
+                        return validate(default_value)
+                    elif default_factory is not None:
+                        return validate(apply_factory(default_factory, namespace))
                 namespace.assert_exactly_one_present(
                     [value_namespace_param_name, factory_namespace_param_name]
                 )
-- 
2.43.0


From b4c3e7d1d873d4a013856dbfb79e243f4777e6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 21/55] fix: name the zip made from foo.tar.gz foo.zip, not
 foo..zip

---
 vistautils/scripts/tar_gz_to_zip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/scripts/tar_gz_to_zip.py b/vistautils/scripts/tar_gz_to_zip.py
index 447b3b0..6bcf2e9 100644
--- a/vistautils/scripts/tar_gz_to_zip.py
+++ b/vistautils/scripts/tar_gz_to_zip.py
@@ -85,7 +85,7 @@ def main():
 
 
 def _output_name(filename: str) -> str:
-    valid_extensions = [".tar", ".tgz", "tar.gz"]
+    valid_extensions = [".tar", ".tgz", ".tar.gz"]
     for valid_extension in valid_extensions:
         if filename.endswith(valid_extension):
             filename = filename[: len(filename) - len(valid_extension)]
-- 
2.43.0


From f4a4a1447a32e8199239eb3728285eb4d1bc4556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 22/55] fix: let tar_gz_to_zip --dont-stream convert archives
 with directories, old timestamps or ./ names

---
 vistautils/scripts/tar_gz_to_zip.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/vistautils/scripts/tar_gz_to_zip.py b/vistautils/scripts/tar_gz_to_zip.py
index 6bcf2e9..79c2549 100644
--- a/vistautils/scripts/tar_gz_to_zip.py
+++ b/vistautils/scripts/tar_gz_to_zip.py
@@ -1,6 +1,7 @@
 import argparse
 import os
 import tarfile
+from tempfile import TemporaryDirectory
 from zipfile import ZipFile
 
 USAGE = """
@@ -64,11 +65,16 @@ def main():
     with ZipFile(output_zip_name, "x") as out:
         with tarfile.open(tar_file) as inp:
             if dont_stream:
-                inp.extractall()
-                for member in inp:
-                    if member.isfile():
-                        out.write(member.name)
-                    os.remove(member.name)
+                # unpack to a directory of our own, so that we neither overwrite
+                # nor remove anything in the working directory
+                with TemporaryDirectory() as unpack_directory:
+                    inp.extractall(unpack_directory)
+                    for member in inp:
+                        if member.isfile():
+                            with open(
+                                os.path.join(unpack_directory, member.name), "rb"
+                            ) as data:
+                                out.writestr(member.name, data.read())
             else:
                 for member in inp:
                     if member.isfile():
-- 
2.43.0


From ae4fbc7f2c574df84affef949db15f948ff67d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 23/55] fix: honour tar_gz_to_zip --omit-large-files together
 with --dont-stream

---
 vistautils/scripts/tar_gz_to_zip.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/vistautils/scripts/tar_gz_to_zip.py b/vistautils/scripts/tar_gz_to_zip.py
index 79c2549..4b8ae9b 100644
--- a/vistautils/scripts/tar_gz_to_zip.py
+++ b/vistautils/scripts/tar_gz_to_zip.py
@@ -51,6 +51,16 @@ def main():
     omit_large_files = args.omit_large_files
     large_file_cutoff = args.large_file_cutoff * 1e9
 
+    def should_omit(member: tarfile.TarInfo) -> bool:
+        if omit_large_files and member.size > large_file_cutoff:
+            print(
+                f"WARNING: Omitting {member.name} as "
+                f"its size {member.size / 1e9:.2f} GB "
+                f"exceeds {args.large_file_cutoff:.2f} GB"
+            )
+            return True
+        return False
+
     print(f"Copying tarball {tar_file} to {output_zip_name}")
     print(
         "WARNING: This will throw away all metadata. It also might not work "
@@ -70,7 +80,7 @@ def main():
                 with TemporaryDirectory() as unpack_directory:
                     inp.extractall(unpack_directory)
                     for member in inp:
-                        if member.isfile():
+                        if member.isfile() and not should_omit(member):
                             with open(
                                 os.path.join(unpack_directory, member.name), "rb"
                             ) as data:
@@ -78,13 +88,7 @@ def main():
             else:
                 for member in inp:
                     if member.isfile():
-                        if omit_large_files and member.size > large_file_cutoff:
-                            print(
-                                f"WARNING: Omitting {member.name} as "
-                                f"its size {member.size / 1e9:.2f} GB "
-                                f"exceeds {args.large_file_cutoff:.2f} GB"
-                            )
-                        else:
+                        if not should_omit(member):
                             print(f"Copying {member.name}")
                             with inp.extractfile(member) as data:
                                 out.writestr(member.name, data.read())
-- 
2.43.0


From dc67f23777b1d96e1e1a473ab2ab6fd19b56ead3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 24/55] fix: honour the documented
 explicit_split.must_be_exhaustive parameter

---
 vistautils/scripts/split_key_value_store.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vistautils/scripts/split_key_value_store.py b/vistautils/scripts/split_key_value_store.py
index ad860df..7a9b56f 100644
--- a/vistautils/scripts/split_key_value_store.py
+++ b/vistautils/scripts/split_key_value_store.py
@@ -114,7 +114,9 @@ def _explicit_split(source: KeyValueSource[str, bytes], params: Parameters):
                         )
                     raise RuntimeError(error_message)
 
-    if params.boolean("must_be_exhaustive", default=True):
+    if explicit_split_namespace.boolean(
+        "must_be_exhaustive", default=params.boolean("must_be_exhaustive", default=True)
+    ):
         keys_not_copied = immutableset(source.keys()) - set(keys_copied)
         if keys_not_copied:
             raise RuntimeError(
-- 
2.43.0


From 9143cead94bddcff26ce989ab84d0576f1db1abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 25/55] fix: check that an explicit split of a file-map store
 is exhaustive

---
 vistautils/scripts/split_key_value_store.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/vistautils/scripts/split_key_value_store.py b/vistautils/scripts/split_key_value_store.py
index 7a9b56f..64aa706 100644
--- a/vistautils/scripts/split_key_value_store.py
+++ b/vistautils/scripts/split_key_value_store.py
@@ -33,8 +33,6 @@ unless the parameter *explicit_split.must_be_exhaustive* is set to *False*.
 import random
 from contextlib import ExitStack
 
-from immutablecollections import immutableset
-
 from vistautils.io_utils import CharSink, file_lines_to_set
 from vistautils.key_value import (
     KeyValueSink,
@@ -117,7 +115,7 @@ def _explicit_split(source: KeyValueSource[str, bytes], params: Parameters):
     if explicit_split_namespace.boolean(
         "must_be_exhaustive", default=params.boolean("must_be_exhaustive", default=True)
     ):
-        keys_not_copied = immutableset(source.keys()) - set(keys_copied)
+        keys_not_copied = frozenset(source.keys()) - set(keys_copied)  # type: ignore
         if keys_not_copied:
             raise RuntimeError(
                 f"Expected the split to be a partition, but "
-- 
2.43.0


From dfe7ee5e5d24ebce043dd455f364d6641f45d2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 26/55] fix: find members of tar.gz files whose content is not
 in an ASCII-compatible encoding

---
 vistautils/io_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index 63a8b06..6c1f854 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -222,7 +222,8 @@ class _FileWithinTgzCharSource(CharSource):
     _encoding: str = attrib(validator=validators.instance_of(str))
 
     def open(self) -> TextIO:
-        tgz_file = tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding)
+        # our encoding is that of the content, not of the names in the archive
+        tgz_file = tarfile.open(self._tgz_path, "r:gz", encoding="utf-8")
         # extractfile here returns  binary file object. We are lazy here and load it all into
         # memory to make dealing with the encoding issues simple
         tgz_data = tgz_file.extractfile(self._path_within_tgz)
@@ -244,7 +245,7 @@ class _FileWithinTgzCharSource(CharSource):
         return ret
 
     def is_empty(self) -> bool:
-        tgz_file = tarfile.open(self._tgz_path, "r:gz", encoding=self._encoding)
+        tgz_file = tarfile.open(self._tgz_path, "r:gz", encoding="utf-8")
         return tgz_file.getmember(self._path_within_tgz).size == 0
 
 
-- 
2.43.0


From 226a64019185d3becfbdea2df69b71b3dfa62836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 27/55] fix: recognise empty text in compressed files when its
 encoding writes a byte order mark

---
 vistautils/io_utils.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/vistautils/io_utils.py b/vistautils/io_utils.py
index 6c1f854..da7b1bf 100644
--- a/vistautils/io_utils.py
+++ b/vistautils/io_utils.py
@@ -209,11 +209,6 @@ class _GZipFileSource(CharSource):
     def open(self) -> TextIO:
         return gzip.open(self._path, "rt", encoding=self._encoding)  # type: ignore
 
-    def is_empty(self) -> bool:
-        with gzip.open(self._path) as inp:
-            data = inp.read(1)
-        return len(data) == 0
-
 
 @attrs(slots=True, frozen=True)
 class _FileWithinTgzCharSource(CharSource):
@@ -244,10 +239,6 @@ class _FileWithinTgzCharSource(CharSource):
         ret.close = types.MethodType(new_close, ret)  # type: ignore
         return ret
 
-    def is_empty(self) -> bool:
-        tgz_file = tarfile.open(self._tgz_path, "r:gz", encoding="utf-8")
-        return tgz_file.getmember(self._path_within_tgz).size == 0
-
 
 class CharSink(metaclass=ABCMeta):
     """
-- 
2.43.0


From d8ba5d250ad2d30966d163bbb42ec7e1b1e88752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 28/55] fix: keep the namespace prefixes of unified and nested
 parameters right

---
 vistautils/parameters.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 95f4830..b8e88d5 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -240,7 +240,15 @@ class Parameters:
             if key not in self:
                 ret[key] = new_val
 
-        return Parameters.from_mapping(ret, namespace_prefix=namespace_prefix)
+        # The namespaces may come from elsewhere in other parameters, so they are rebuilt
+        # to give them and everything in them the prefix of their new place.
+        return Parameters.from_mapping(
+            {
+                key: val.as_nested_dicts() if isinstance(val, Parameters) else val
+                for (key, val) in ret.items()
+            },
+            namespace_prefix=namespace_prefix or self.namespace_prefix,
+        )
 
     def creatable_directory(self, param: str) -> Path:
         """
-- 
2.43.0


From 568e4f9863529d03d1d73d639fd1a8c4f9ca1291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 29/55] fix: list namespaces which hold lists

---
 vistautils/parameters.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index b8e88d5..9c8cb7a 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -53,7 +53,7 @@ _U = TypeVar("_U")  # pylint:disable=invalid-name
 _EnumType = TypeVar("_EnumType", bound=Enum)
 
 
-@attrs(frozen=True, slots=True)
+@attrs(frozen=True, slots=True, hash=False)
 class Parameters:
     """
     Configuration parameters for a program.
@@ -1367,6 +1367,18 @@ class Parameters:
                 )
         return current
 
+    def __hash__(self) -> int:
+        # values may be unhashable (e.g. lists), but names and namespaces never are
+        return hash(
+            (
+                self.namespace_prefix,
+                frozenset(
+                    (key, value if isinstance(value, Parameters) else None)
+                    for (key, value) in self._data.items()
+                ),
+            )
+        )
+
     def __str__(self) -> str:
         str_sink = CharSink.to_string()
         YAMLParametersWriter().write(self, str_sink)
-- 
2.43.0


From ded4bcc3437d15ba85b60c9f736e5fcdaaecff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 30/55] fix: accept objects as special values and special
 factories of namespaces

---
 vistautils/parameters.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 9c8cb7a..dff3252 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1024,6 +1024,12 @@ class Parameters:
                     [value_namespace_param_name, factory_namespace_param_name]
                 )
                 if value_namespace_param_name in namespace:
+                    # Special values may be given as objects or as expressions
+                    special_value = special_values.get(
+                        namespace.string(value_namespace_param_name)
+                    )
+                    if special_value is not None and not isinstance(special_value, str):
+                        return validate(special_value)
                     # The user specifies the value to be evaluated directly
                     return validate(
                         self.evaluate(
@@ -1035,6 +1041,14 @@ class Parameters:
                         )
                     )
                 elif factory_namespace_param_name in namespace:
+                    # Special factories may be given as objects or as expressions
+                    special_factory = special_factories.get(
+                        namespace.string(factory_namespace_param_name)
+                    )
+                    if special_factory is not None and not isinstance(
+                        special_factory, str
+                    ):
+                        return validate(apply_factory(special_factory, namespace))
                     # The user specifies an expression to be evaluated which yields
                     # a factory which can create an object which this namespace.
                     return validate(
-- 
2.43.0


From 567278d5db5ca060447c11c2def98c1d54dcd8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 31/55] fix: load parameters when an environmental variable has
 a dot in its name

---
 vistautils/parameters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index dff3252..26ea8c9 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1570,7 +1570,8 @@ class YAMLParametersLoader:
             if self.interpolate_environmental_variables:
                 for k, v in os.environ.items():
                     # environmental variables are overridden by explicit parameters
-                    if k not in interpolation_context:
+                    # and there is no way to refer to those with dots in their names
+                    if k not in interpolation_context and "." not in k:
                         interpolation_context[k] = v
 
             return previously_loaded.unify(
-- 
2.43.0


From c1024fb0c303ac97400380472b88d5e7c32c618d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 32/55] fix: interpolate parameters whose values are falsy

---
 vistautils/parameters.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 26ea8c9..065b33a 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1647,19 +1647,22 @@ class YAMLParametersLoader:
             not context.namespace_prefix, "Cannot interpolate with non-top-level context"
         )
 
+        # marks missing parameters, since parameters which are present may be falsy
+        absent = object()
+
         # These will be used when we represent parameters as dicts-of-dicts below.
         def get_from_nested_dict(
             nested_dict: Dict[str, Any], param_name: str
-        ) -> Optional[Any]:
+        ) -> Any:
             parts = param_name.split(".")
             cur_dict = nested_dict
             for part in parts[:-1]:
                 if part in cur_dict:
                     cur_dict = cur_dict[part]
                 else:
-                    return None
+                    return absent
             param_name = parts[-1]
-            return cur_dict.get(param_name, None)
+            return cur_dict.get(param_name, absent)
 
         def set_in_nested_dict(
             nested_dict: Dict[str, Any], fully_qualified_param_name: str, value: Any
@@ -1696,7 +1699,10 @@ class YAMLParametersLoader:
                         val
                     ):
                         nodes.append(key)
-                        if get_from_nested_dict(mutable_parameters, interp_match):
+                        if (
+                            get_from_nested_dict(mutable_parameters, interp_match)
+                            is not absent
+                        ):
                             # We don't want to include nodes from the context in the interpolation
                             # ordering since the context is present
                             # only to be referred to by for interpolation into other parameters,
@@ -1715,7 +1721,7 @@ class YAMLParametersLoader:
 
         def get_backing_off_to_context(param_name: str) -> Any:
             from_these_params = get_from_nested_dict(mutable_parameters, param_name)
-            if from_these_params:
+            if from_these_params is not absent:
                 return from_these_params
 
             # if the parameter is not present in the parameters we are interpolating directly,
@@ -1734,7 +1740,7 @@ class YAMLParametersLoader:
                 mutable_parameters, param_to_interpolate
             )
 
-            if not uninterpolated_param_value:
+            if uninterpolated_param_value is absent:
                 raise RuntimeError(f"This should be impossible: {param_to_interpolate}")
 
             # Next, we need to actually interpolate the values.
-- 
2.43.0


From 95a9bf54870f4fbec386514b61803a7d90997eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 33/55] fix: write parameters whose values are null or dates

---
 vistautils/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 065b33a..c78e4ce 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1829,7 +1829,7 @@ class YAMLParametersWriter:
             return str(param_node)
         elif isinstance(param_node, Mapping):
             return {k: self._preprocess_dicts(v) for (k, v) in param_node.items()}
-        elif isinstance(param_node, (str, int, float)):
+        elif param_node is None or isinstance(param_node, (str, int, float, date)):
             return param_node
         # we need to check this explicitly because otherwise
         # they would trigger the check for sequences below
-- 
2.43.0


From ccb207a7a50aeb90c1587e0ff9325431647b3036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 34/55] fix: refuse an existing directory as a creatable file

---
 vistautils/parameters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index c78e4ce..b5616e8 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -349,6 +349,11 @@ class Parameters:
         Throws a `ParameterError` if `param` is not a known parameter.
         """
         ret = Path.resolve(Path(self.string(param)))
+        if ret.is_dir():
+            raise ParameterError(
+                f"For parameter {param}, expected a file which can be written to "
+                f"but got existing directory {ret}"
+            )
         ret.parent.mkdir(parents=True, exist_ok=True)
         return ret
 
-- 
2.43.0


From 9d2116126b61bb0123004560e7ef9239691fe672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 35/55] fix: use falsy defaults of optional parameters

---
 vistautils/parameters.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index b5616e8..1691caf 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -471,7 +471,7 @@ class Parameters:
                 f"For parameter {param_name}, {enum_name} could not be found in "
                 f"{list(enum_class.__members__)}"
             )
-        elif default:
+        elif default is not None:
             return default
         else:
             # Always raises error since param_name returned None on `optional_string()`
@@ -625,7 +625,7 @@ class Parameters:
 
         if name in self:
             return self.positive_integer(name)
-        if default:
+        if default is not None:
             if isinstance(default, int) and default > 0:
                 return default  # type: ignore
             else:
@@ -684,7 +684,7 @@ class Parameters:
 
         if name in self:
             return self.floating_point(name, valid_range)
-        if default:
+        if default is not None:
             if (
                 valid_range is not None
                 and isinstance(default, float)
@@ -805,7 +805,7 @@ class Parameters:
         if default is not None:  # pragma: no cover
             self._warn_about_default()
 
-        if not default:
+        if default is None:
             return self.get_optional(name, List)
         elif isinstance(default, List):
             return self.get_optional(name, List, default=default)
-- 
2.43.0


From 7628e31f55c15ba7f3ba161c7828bd2423215821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 36/55] fix: let programs give their parameters to
 parameters_only_entry_point

---
 vistautils/parameters_only_entrypoint.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vistautils/parameters_only_entrypoint.py b/vistautils/parameters_only_entrypoint.py
index 231932d..a6d53bd 100644
--- a/vistautils/parameters_only_entrypoint.py
+++ b/vistautils/parameters_only_entrypoint.py
@@ -59,13 +59,16 @@ def _real_parameters_only_entry_point(
         program_name = os.path.basename(main.__file__)
 
     arg_parser = ArgumentParser(prog=program_name, description=usage_message)
-    if not parameters:
+    if parameters is None:
         arg_parser.add_argument("param_file", type=Path)
     arg_parser.add_argument("-p", action="append", nargs=2, required=False)
 
     parsed_args = arg_parser.parse_args(args)
 
-    params = YAMLParametersLoader().load(parsed_args.param_file)
+    if parameters is None:
+        params = YAMLParametersLoader().load(parsed_args.param_file)
+    else:
+        params = parameters
     if parsed_args.p:
         params = params.unify(params.from_key_value_pairs(parsed_args.p))
     configure_logging_from(params)
-- 
2.43.0


From 0f70488f6818118a09a5383672977cea09a63407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 37/55] fix: compare the second element by identity in only

---
 vistautils/iter_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/iter_utils.py b/vistautils/iter_utils.py
index 85bb573..74bb7c9 100644
--- a/vistautils/iter_utils.py
+++ b/vistautils/iter_utils.py
@@ -77,7 +77,7 @@ def only(it: Union[Iterator[_T], Iterable[_T]]) -> _T:
         raise ValueError("Expected only a single element in an iterable, but got none")
 
     second_element = next(iterator, _SENTINEL)
-    if second_element != _SENTINEL:
+    if second_element is not _SENTINEL:
         raise ValueError("Expected only a single element in iterable, but got at least 2")
     return ret
 
-- 
2.43.0


From 3c7c848c39da61af46060d9cc5d0be69e04bd8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 38/55] fix: refuse memory amounts followed by other text

---
 vistautils/memory_amount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/memory_amount.py b/vistautils/memory_amount.py
index b0dbdac..4d7fb5b 100644
--- a/vistautils/memory_amount.py
+++ b/vistautils/memory_amount.py
@@ -64,7 +64,7 @@ class MemoryAmount:
 
     @staticmethod
     def parse(memory_string: str) -> "MemoryAmount":
-        parts = MemoryAmount._PARSE_PATTERN.match(memory_string)
+        parts = MemoryAmount._PARSE_PATTERN.fullmatch(memory_string)
         if parts:
             return MemoryAmount(
                 amount=int(parts.group(1)), unit=MemoryUnit.parse(parts.group(2))
-- 
2.43.0


From 317c1ce9273d7b1fe76d34159f7ecef6867b5e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 39/55] fix: check the type of falsy items in
 check_opt_isinstance

---
 vistautils/preconditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/preconditions.py b/vistautils/preconditions.py
index 249fd54..e849729 100644
--- a/vistautils/preconditions.py
+++ b/vistautils/preconditions.py
@@ -71,7 +71,7 @@ def check_opt_isinstance(item: T, classinfo: _ClassInfo) -> T:
 
     Raises a TypeError otherwise
     """
-    if item and not isinstance(item, classinfo):
+    if item is not None and not isinstance(item, classinfo):
         raise TypeError(
             "Expected instance of type {!r} but got type {!r} for {!r}".format(
                 classinfo, type(item), item
-- 
2.43.0


From e56f6af209a373c48214b1b1d57ed4d9ddd5f423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 40/55] fix: reset checkpoints in a directory given as a
 symbolic link

---
 vistautils/checkpoints.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vistautils/checkpoints.py b/vistautils/checkpoints.py
index 9c9b979..d8930f2 100644
--- a/vistautils/checkpoints.py
+++ b/vistautils/checkpoints.py
@@ -59,5 +59,7 @@ class _CheckPointDirectory(Checkpoints):
         return Path(self.directory, item).is_file()
 
     def reset_all(self) -> None:
-        shutil.rmtree(str(self.directory))
-        self.directory.mkdir(parents=True, exist_ok=True)
+        # the directory itself may be a symbolic link, which rmtree refuses to follow
+        directory = self.directory.resolve()
+        shutil.rmtree(str(directory))
+        directory.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 98d0eb261d1f846dd32d2a3670d6bf0ee3077265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:19 +0000
Subject: [PATCH 41/55] fix: let downsampling run on Pythons whose
 random.shuffle takes no generator

---
 vistautils/scripts/downsample_key_value_store.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/vistautils/scripts/downsample_key_value_store.py b/vistautils/scripts/downsample_key_value_store.py
index b90a38d..c34a8f6 100644
--- a/vistautils/scripts/downsample_key_value_store.py
+++ b/vistautils/scripts/downsample_key_value_store.py
@@ -34,10 +34,7 @@ def main(params: Parameters):
     with byte_key_value_source_from_params(params) as input_source:
         keys = list(input_source.keys())
         num_to_sample = min(params.positive_integer(_NUM_TO_SAMPLE_PARAM), len(keys))
-        random.shuffle(
-            keys,
-            random=random.Random(params.integer(_RANDOM_SEED_PARAM, default=0)).random,
-        )
+        random.Random(params.integer(_RANDOM_SEED_PARAM, default=0)).shuffle(keys)
         keys_to_keep = keys[:num_to_sample]
         output_zip_path = params.creatable_file("output_zip_path")
         logging.info("Downsampling %s files to %s", num_to_sample, output_zip_path)
-- 
2.43.0


From 78a2a64f076cc48d20cb62b06e5761832e720688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:19 +0000
Subject: [PATCH 42/55] fix: sample the same keys whatever order the store
 lists them in

---
 vistautils/scripts/downsample_key_value_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/scripts/downsample_key_value_store.py b/vistautils/scripts/downsample_key_value_store.py
index c34a8f6..1f6bae1 100644
--- a/vistautils/scripts/downsample_key_value_store.py
+++ b/vistautils/scripts/downsample_key_value_store.py
@@ -32,7 +32,7 @@ _RANDOM_SEED_PARAM = "random_seed"
 
 def main(params: Parameters):
     with byte_key_value_source_from_params(params) as input_source:
-        keys = list(input_source.keys())
+        keys = sorted(input_source.keys())  # stores list their keys in any order
         num_to_sample = min(params.positive_integer(_NUM_TO_SAMPLE_PARAM), len(keys))
         random.Random(params.integer(_RANDOM_SEED_PARAM, default=0)).shuffle(keys)
         keys_to_keep = keys[:num_to_sample]
-- 
2.43.0


From f024f277817d66f051ffa7248b1a33f513e840b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 43/55] fix: unpack only regular files, under safe names, in
 tar_gz_to_zip --dont-stream

---
 vistautils/scripts/tar_gz_to_zip.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/vistautils/scripts/tar_gz_to_zip.py b/vistautils/scripts/tar_gz_to_zip.py
index 4b8ae9b..e8a62c5 100644
--- a/vistautils/scripts/tar_gz_to_zip.py
+++ b/vistautils/scripts/tar_gz_to_zip.py
@@ -1,5 +1,6 @@
 import argparse
 import os
+import shutil
 import tarfile
 from tempfile import TemporaryDirectory
 from zipfile import ZipFile
@@ -78,13 +79,21 @@ def main():
                 # unpack to a directory of our own, so that we neither overwrite
                 # nor remove anything in the working directory
                 with TemporaryDirectory() as unpack_directory:
-                    inp.extractall(unpack_directory)
+                    unpacked_files = []
                     for member in inp:
                         if member.isfile() and not should_omit(member):
-                            with open(
-                                os.path.join(unpack_directory, member.name), "rb"
-                            ) as data:
-                                out.writestr(member.name, data.read())
+                            # not under its own name, which could lead out of the directory
+                            # or clash with the name of another member
+                            unpacked_path = os.path.join(
+                                unpack_directory, str(len(unpacked_files))
+                            )
+                            with inp.extractfile(member) as data:
+                                with open(unpacked_path, "wb") as unpacked_file:
+                                    shutil.copyfileobj(data, unpacked_file)
+                            unpacked_files.append((member.name, unpacked_path))
+                    for (name, unpacked_path) in unpacked_files:
+                        with open(unpacked_path, "rb") as data:
+                            out.writestr(name, data.read())
             else:
                 for member in inp:
                     if member.isfile():
-- 
2.43.0


From 1bc4a48fd47acdfe6dbf5c70ce5f1b546769ed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:05 +0000
Subject: [PATCH 44/55] fix: let the non_empty validator refuse empty values

---
 vistautils/attrutils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vistautils/attrutils.py b/vistautils/attrutils.py
index 9722bbf..62c1286 100644
--- a/vistautils/attrutils.py
+++ b/vistautils/attrutils.py
@@ -140,4 +140,7 @@ def _empty_immutable_if_none(
 # Unused arguments are to match the attrs validator signature
 # noinspection PyUnusedLocal
 def non_empty(_self: Any, _attr: Any, val: Sized) -> bool:
-    return len(val) > 0
+    # attrs ignores what a validator returns, so it has to raise to refuse a value
+    if len(val) == 0:
+        raise ValueError("Expected a non-empty value but got {!r}".format(val))
+    return True
-- 
2.43.0


From abaee9e37460fb2d824e3ef4786d791528747f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 45/55] fix: let creatable_empty_directory succeed when another
 job creates the directory meanwhile

---
 vistautils/parameters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 1691caf..368b649 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -307,7 +307,8 @@ class Parameters:
                         "but got non-empty path {!s}".format(param, ret)
                     )
             return ret
-        elif ret.exists():
+        # (another process may have created the directory since we looked above)
+        elif ret.exists() and not ret.is_dir():
             raise ParameterError(
                 "Expected an empty directory for parameters {!s},"
                 "but got non-directory {!s}".format(param, ret)
-- 
2.43.0


From 3d6c075fa8b905a03d01c1f4d1508442ab182c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:56 +0000
Subject: [PATCH 46/55] fix: let Checkpoints.reset_all be repeated after it was
 cut short

---
 vistautils/checkpoints.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vistautils/checkpoints.py b/vistautils/checkpoints.py
index d8930f2..76e98ba 100644
--- a/vistautils/checkpoints.py
+++ b/vistautils/checkpoints.py
@@ -61,5 +61,7 @@ class _CheckPointDirectory(Checkpoints):
     def reset_all(self) -> None:
         # the directory itself may be a symbolic link, which rmtree refuses to follow
         directory = self.directory.resolve()
-        shutil.rmtree(str(directory))
+        # an earlier reset may have been cut short after the directory was removed
+        if directory.exists():
+            shutil.rmtree(str(directory))
         directory.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 8cff06c84fada452215e8d29ab88389396b74321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:55 +0000
Subject: [PATCH 47/55] fix: directory_to_key_value_store fails on directories
 it cannot list instead of leaving their files out

---
 .../scripts/directory_to_key_value_store.py      | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/vistautils/scripts/directory_to_key_value_store.py b/vistautils/scripts/directory_to_key_value_store.py
index 3b748fe..03a5729 100644
--- a/vistautils/scripts/directory_to_key_value_store.py
+++ b/vistautils/scripts/directory_to_key_value_store.py
@@ -22,6 +22,7 @@ if any sub-directories of the input directory are encountered, an error will be
 This behavior is subject to change in the future and should not be relied upon.
 """
 import logging
+import os
 from pathlib import Path
 from typing import Callable
 
@@ -35,10 +36,17 @@ def main(params: Parameters) -> None:
     key_function = key_function_from_params(params)
 
     with byte_key_value_sink_from_params(params, eval_context=locals()) as sink:
-        for item_path in input_directory.rglob("*"):
-            if item_path.is_file():
-                logging.info("Copying %s to output sink", item_path)
-                sink.put(key=key_function(item_path), value=item_path.read_bytes())
+        # unlike globbing, this does not pass over directories which cannot be listed
+        for directory, _, file_names in os.walk(str(input_directory), onerror=_raise):
+            for file_name in file_names:
+                item_path = Path(directory, file_name)
+                if item_path.is_file():
+                    logging.info("Copying %s to output sink", item_path)
+                    sink.put(key=key_function(item_path), value=item_path.read_bytes())
+
+
+def _raise(error: OSError) -> None:
+    raise error
 
 
 def key_function_from_params(params: Parameters) -> Callable[[Path], str]:
-- 
2.43.0


From e1ec4d4e72eb825a09d120f02c866a60c2b40c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:35 +0000
Subject: [PATCH 48/55] fix: Parameters.from_key_value_pairs no longer changes
 mappings given as values

---
 vistautils/parameters.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 368b649..18ad3bb 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -146,7 +146,12 @@ class Parameters:
                         if key_part not in to_set_dict:
                             to_set_dict[key_part] = {}
                         to_set_dict = to_set_dict[key_part]
-                to_set_dict[bottom_level_param_name] = v
+                # later pairs may add to a namespace, so the mapping given is copied
+                to_set_dict[bottom_level_param_name] = (
+                    Parameters.from_mapping(v).as_nested_dicts()
+                    if isinstance(v, Mapping)
+                    else v
+                )
             else:
                 raise RuntimeError("Parameter names cannot be the empty string")
         return Parameters.from_mapping(ret)
-- 
2.43.0


From 323b93367af5579c2a415bd3d234d586c4265acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:49 +0000
Subject: [PATCH 49/55] fix: Parameters.floating_point refuses NaN when the
 valid range has an upper bound

---
 vistautils/parameters.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 18ad3bb..233b19b 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1,6 +1,7 @@
 # pylint: skip-file
 import inspect
 import logging
+import math
 import os
 import pickle
 import re
@@ -653,7 +654,11 @@ class Parameters:
         This method isn't called `float` to avoid a clash with the Python type.
         """
         ret = self.get(name, float, default=default)
-        if valid_range is not None and ret not in valid_range:
+        if valid_range is not None and (
+            ret not in valid_range
+            # NaN is beyond no upper bound, but it is not below one either
+            or (math.isnan(ret) and valid_range.has_upper_bound())
+        ):
             raise ParameterError(
                 "For parameter {!s}, expected a float in the range {!s} but got {!s}".format(
                     name, valid_range, ret
-- 
2.43.0


From 1e13b6ec2c4c5b01525e33ec1302aaf43e7227ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:37 +0000
Subject: [PATCH 50/55] fix: evaluate could not use special values with names
 like qualified names

The packages to import were worked out from the parameter as given, so a
special value called e.g. my.value failed with ModuleNotFoundError for a
package my, although the expression it stands for does not need one.
---
 vistautils/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index 233b19b..a97e518 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -918,7 +918,7 @@ class Parameters:
                 to_evaluate = self.string(name)
                 # See special case in docstring.
                 context_modules = Parameters._context_modules_from_prefix(
-                    self.string(name)
+                    handle_special_values(to_evaluate)
                 )
             elif default is not None:
                 return default
-- 
2.43.0


From be9433b915943f1578c6f72ef696876f4b9b7ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:17 +0000
Subject: [PATCH 51/55] fix: write parameter values of derived types (e.g.
 string enumerations) so that they can be loaded again

---
 vistautils/parameters.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index a97e518..c05e49b 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -6,7 +6,7 @@ import os
 import pickle
 import re
 import shutil
-from datetime import date
+from datetime import date, datetime
 from enum import Enum, EnumMeta
 from itertools import takewhile
 from pathlib import Path
@@ -1844,9 +1844,24 @@ class YAMLParametersWriter:
         if isinstance(param_node, Path):
             return str(param_node)
         elif isinstance(param_node, Mapping):
-            return {k: self._preprocess_dicts(v) for (k, v) in param_node.items()}
-        elif param_node is None or isinstance(param_node, (str, int, float, date)):
+            return {
+                self._preprocess_dicts(k): self._preprocess_dicts(v)
+                for (k, v) in param_node.items()
+            }
+        elif param_node is None or isinstance(param_node, bool):
             return param_node
+        # instances of subclasses of these types (e.g. string enumerations)
+        # would be written as YAML objects, which cannot be loaded again
+        elif isinstance(param_node, str):
+            return str.__str__(param_node)
+        elif isinstance(param_node, int):
+            return int(param_node)
+        elif isinstance(param_node, float):
+            return float(param_node)
+        elif isinstance(param_node, datetime):
+            return datetime.combine(param_node.date(), param_node.timetz())
+        elif isinstance(param_node, date):
+            return date(param_node.year, param_node.month, param_node.day)
         # we need to check this explicitly because otherwise
         # they would trigger the check for sequences below
         elif isinstance(param_node, (bytes, bytearray)):
-- 
2.43.0


From d9703b50b13daca0f4977e6929ef9be12068c331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:43 +0000
Subject: [PATCH 52/55] fix: close the archive of a zip key-value store when
 reading or writing its key list fails

---
 vistautils/key_value.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/vistautils/key_value.py b/vistautils/key_value.py
index 0b27254..5de8bfb 100644
--- a/vistautils/key_value.py
+++ b/vistautils/key_value.py
@@ -498,17 +498,26 @@ class _ZipKeyValueSink(Generic[V], KeyValueSink[str, V]):
         # forget the keys of any earlier session with this sink
         self._keys = set()
         if self._keys_in_function:
-            # update rather than assignment because return might not be mutable
-            existing_keys = self._keys_in_function(self._zip_file)
+            try:
+                # update rather than assignment because return might not be mutable
+                existing_keys = self._keys_in_function(self._zip_file)
+            except BaseException:
+                # __exit__ is not called when we raise, so we need to close the file ourselves
+                self._zip_file.close()
+                raise
             if existing_keys:
                 self._keys.update(existing_keys)
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> None:
         # if we are in a context manager, self._zip_file is not None
-        if self._keys_out_function:
-            self._keys_out_function(self._zip_file, self._keys)  # type: ignore
-        self._zip_file.close()  # type: ignore
+        try:
+            if self._keys_out_function:
+                self._keys_out_function(self._zip_file, self._keys)  # type: ignore
+        finally:
+            # otherwise the file would be completed at some later time, when it might already
+            # have been replaced by another session's
+            self._zip_file.close()  # type: ignore
 
 
 class _ZipCharFileKeyValueSink(_ZipKeyValueSink[str]):
@@ -631,7 +640,13 @@ class _ZipFileKeyValueSource(Generic[V], KeyValueSource[str, V], metaclass=ABCMe
     def __enter__(self) -> "KeyValueSource[str, V]":
         self._zip_file = ZipFile(str(self.path), "r")
         if self._keys_function:
-            self._keys = self._keys_function(self._zip_file)
+            try:
+                self._keys = self._keys_function(self._zip_file)
+            except BaseException:
+                # __exit__ is not called when we raise, so we need to close the file ourselves
+                self._zip_file.close()
+                self._zip_file = None
+                raise
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> None:
-- 
2.43.0


From 2783a73c25a2607493c1f1f1f5d0242368867887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:22 +0000
Subject: [PATCH 53/55] fix: splitting with a random seed leaves Python's own
 random numbers alone

---
 vistautils/scripts/split_key_value_store.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vistautils/scripts/split_key_value_store.py b/vistautils/scripts/split_key_value_store.py
index 64aa706..3788f2d 100644
--- a/vistautils/scripts/split_key_value_store.py
+++ b/vistautils/scripts/split_key_value_store.py
@@ -76,8 +76,7 @@ def _split_into_even_slices(input_source: KeyValueSource[str, bytes], params: Pa
             list(input_source.keys())  # type: ignore
         )  # guarantee deterministic iteration order
         if random_seed:
-            random.seed(random_seed)
-            random.shuffle(input_keys)
+            random.Random(random_seed).shuffle(input_keys)
         for (i, k) in enumerate(input_keys):
             output_sinks[i % slices].put(k, input_source[k])
 
-- 
2.43.0


From 18096e5b38e53d7970a412a93782ba2c3aa5d81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:22 +0000
Subject: [PATCH 54/55] fix: messages are logged by loggers of their own and so
 do not set up the program's logging

---
 vistautils/parameters.py                           | 4 ++--
 vistautils/scripts/directory_to_key_value_store.py | 4 +++-
 vistautils/scripts/downsample_key_value_store.py   | 4 +++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/vistautils/parameters.py b/vistautils/parameters.py
index c05e49b..d922d68 100644
--- a/vistautils/parameters.py
+++ b/vistautils/parameters.py
@@ -1268,7 +1268,7 @@ class Parameters:
             else Path(path_string.strip())
             for path_string in path_strings
         )
-        logging.info(
+        _logger.info(
             "Got list of %s %ss from %s",
             len(ret),
             log_name if log_name else "file",
@@ -1430,7 +1430,7 @@ class Parameters:
         return self._data
 
     def _warn_about_default(self) -> None:
-        logging.warning(
+        _logger.warning(
             "Using default with optional_X methods is deprecated; "
             "prefer using the non-optional method with a default=... argument"
         )
diff --git a/vistautils/scripts/directory_to_key_value_store.py b/vistautils/scripts/directory_to_key_value_store.py
index 03a5729..77b4f89 100644
--- a/vistautils/scripts/directory_to_key_value_store.py
+++ b/vistautils/scripts/directory_to_key_value_store.py
@@ -30,6 +30,8 @@ from vistautils.key_value import byte_key_value_sink_from_params
 from vistautils.parameters import Parameters
 from vistautils.parameters_only_entrypoint import parameters_only_entry_point
 
+_logger = logging.getLogger(__name__)  # pylint:disable=invalid-name
+
 
 def main(params: Parameters) -> None:
     input_directory = params.existing_directory("input_directory")
@@ -41,7 +43,7 @@ def main(params: Parameters) -> None:
             for file_name in file_names:
                 item_path = Path(directory, file_name)
                 if item_path.is_file():
-                    logging.info("Copying %s to output sink", item_path)
+                    _logger.info("Copying %s to output sink", item_path)
                     sink.put(key=key_function(item_path), value=item_path.read_bytes())
 
 
diff --git a/vistautils/scripts/downsample_key_value_store.py b/vistautils/scripts/downsample_key_value_store.py
index 1f6bae1..af9faa1 100644
--- a/vistautils/scripts/downsample_key_value_store.py
+++ b/vistautils/scripts/downsample_key_value_store.py
@@ -26,6 +26,8 @@ from vistautils.key_value import KeyValueSink, byte_key_value_source_from_params
 from vistautils.parameters import Parameters
 from vistautils.parameters_only_entrypoint import parameters_only_entry_point
 
+_logger = logging.getLogger(__name__)  # pylint:disable=invalid-name
+
 _NUM_TO_SAMPLE_PARAM = "num_to_sample"
 _RANDOM_SEED_PARAM = "random_seed"
 
@@ -37,7 +39,7 @@ def main(params: Parameters):
         random.Random(params.integer(_RANDOM_SEED_PARAM, default=0)).shuffle(keys)
         keys_to_keep = keys[:num_to_sample]
         output_zip_path = params.creatable_file("output_zip_path")
-        logging.info("Downsampling %s files to %s", num_to_sample, output_zip_path)
+        _logger.info("Downsampling %s files to %s", num_to_sample, output_zip_path)
         with KeyValueSink.zip_bytes_sink(output_zip_path) as out:
             for key in keys_to_keep:
                 out.put(key, input_source[key])
-- 
2.43.0


From 857a0999104dfede2971cd4a09cf8e7bd95a1a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:22 +0000
Subject: [PATCH 55/55] fix: a logging configuration file does not silence the
 loggers which exist already

---
 vistautils/logging_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vistautils/logging_utils.py b/vistautils/logging_utils.py
index 3807604..862de98 100644
--- a/vistautils/logging_utils.py
+++ b/vistautils/logging_utils.py
@@ -33,7 +33,11 @@ def configure_logging_from(params: Parameters, *, log_params=False) -> None:
     ERROR, WARNING, INFO, and DEBUG.
     """
     if "logging.config_file" in params:
-        logging.config.fileConfig(str(params.existing_file("logging.config_file")))
+        logging.config.fileConfig(
+            str(params.existing_file("logging.config_file")),
+            # otherwise loggers created before now, as at the top of a module, would be silenced
+            disable_existing_loggers=False,
+        )
     else:
         _config_logging_from_params(params)
 
-- 
2.43.0

