From c3e465959714b54c12340e261bf92c6c4f63ad4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 01/42] fix: find partitions of paths with format specs, such
 as {date.m:02}

The wildcard placeholder had no __format__, so discovering the partitions of any
storage whose path has a format spec - including the default date components -
raised a TypeError.
---
 src/arti/storage/_internal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arti/storage/_internal.py b/src/arti/storage/_internal.py
index 04d2f43..3fbcc86 100644
--- a/src/arti/storage/_internal.py
+++ b/src/arti/storage/_internal.py
@@ -80,6 +80,10 @@ class WildcardPlaceholder(Placeholder):
         # TODO: Should we validate the key against the key_type/attribute type?
         return key
 
+    def __format__(self, spec: str) -> str:
+        # The wildcard matches a value rendered with any format spec, eg: "{date.m:02}".
+        return str(self)
+
     def __str__(self) -> str:
         self._err_if_no_attribute()
         return "*"
-- 
2.43.0


From a852371b5741b1aa409062ea798e6b6bef887adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 02/42] fix: parse each partition field with its own type

The comprehension used the leftover loop variable, so every field of a multi-field
key was parsed with the type of the last one in the path.
---
 src/arti/storage/_internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arti/storage/_internal.py b/src/arti/storage/_internal.py
index 3fbcc86..3f84c56 100644
--- a/src/arti/storage/_internal.py
+++ b/src/arti/storage/_internal.py
@@ -151,7 +151,7 @@ def extract_placeholders(
 
     partition_key = PartitionKey(
         {
-            field_name: key_types[key].from_components(**components)
+            field_name: key_types[field_name].from_components(**components)
             for field_name, components in field_components.items()
         }
     )
-- 
2.43.0


From d4c6e21843bb1148ad85afa6ffa2bf2994837638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 03/42] fix: merging a mapping with a frozendict on the right
 lets the right operand win

__ror__ was __or__, so for a shared key the left operand won - the opposite of dict | dict.
---
 src/arti/internal/mappings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arti/internal/mappings.py b/src/arti/internal/mappings.py
index d9e979e..3ad913c 100644
--- a/src/arti/internal/mappings.py
+++ b/src/arti/internal/mappings.py
@@ -33,7 +33,8 @@ class frozendict[K, V](Mapping[K, V]):
     def __or__(self, other: Mapping[K, V]) -> frozendict[K, V]:
         return type(self)({**self, **other})
 
-    __ror__ = __or__
+    def __ror__(self, other: Mapping[K, V]) -> frozendict[K, V]:
+        return type(self)({**other, **self})
 
     def __repr__(self) -> str:
         return repr(self._data)
-- 
2.43.0


From 4a37efdcbe5fd1fd13cecc71e32b947b0fb39e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 04/42] fix: serialize Enum items in a deterministic order

Set iteration order depends on insertion order and, for strings, on the process' hash
seed, so the fingerprint of equal Enums differed (also between runs).
---
 src/arti/types/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/arti/types/__init__.py b/src/arti/types/__init__.py
index 8b1512e..cb79cd0 100644
--- a/src/arti/types/__init__.py
+++ b/src/arti/types/__init__.py
@@ -7,7 +7,7 @@ from collections.abc import Iterable, Mapping
 from operator import attrgetter
 from typing import Annotated, Any, ClassVar, Literal
 
-from pydantic import PrivateAttr, ValidationInfo, field_validator
+from pydantic import PrivateAttr, ValidationInfo, field_serializer, field_validator
 
 from arti.fingerprints import SkipFingerprint
 from arti.internal.mappings import FrozenMapping, frozendict
@@ -122,6 +122,12 @@ class Enum(_NamedMixin, Type):
             raise ValueError(f"incompatible {arti_type} ({py_type}) item(s): {mismatched_items}")
         return items
 
+    # Sets iterate in an arbitrary order (which may even vary by process), but the serialized model
+    # (and thus fingerprint) must be deterministic.
+    @field_serializer("items", when_used="json")
+    def _serialize_items(self, items: frozenset[Any]) -> list[Any]:
+        return sorted(items, key=repr)
+
     @property
     def _default_friendly_key(self) -> str:
         return f"{self.type.friendly_key}{self._arti_type_key_}"
-- 
2.43.0


From dbdb559b74c7d828408d9f68b982596930b5fbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 05/42] fix: do not keep cached properties when copying a model
 with updates

model_copy carried the cached fingerprint of the original over to the updated copy, eg:
when an Artifact whose fingerprint was read is added to a Graph.
---
 src/arti/internal/models.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/arti/internal/models.py b/src/arti/internal/models.py
index 26993ad..e8f037b 100644
--- a/src/arti/internal/models.py
+++ b/src/arti/internal/models.py
@@ -143,6 +143,19 @@ class Model(BaseModel, metaclass=ModelMeta):
         # Sort the serialized data to reduce variability - but still allow excluding fields.
         return {field: data[field] for field in self._arti_fingerprint_fields_ if field in data}
 
+    def model_copy(self, *, update: dict[str, Any] | None = None, deep: bool = False) -> Self:
+        copied = super().model_copy(update=update, deep=deep)
+        if update:
+            # Pydantic copies the whole `__dict__`, including any cached properties (eg:
+            # `fingerprint`) that were computed from the original field values.
+            for name in [
+                name
+                for name in copied.__dict__
+                if isinstance(getattr(type(self), name, None), cached_property)
+            ]:
+                del copied.__dict__[name]
+        return copied
+
     def model_dump(self, **kwargs) -> dict[str, Any]:
         _set_dump_kwargs_defaults(kwargs)
         return super().model_dump(**kwargs)
-- 
2.43.0


From ed0fbcf51919e9fec2971c12caaba66c08a1caef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 06/42] fix: leave an artifact's producer out of its
 fingerprint

The SkipFingerprint marker of Artifact.producer_output is only known once the
forward reference to ProducerOutput is resolved, after the fingerprint fields
were already collected.
---
 src/arti/internal/models.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/arti/internal/models.py b/src/arti/internal/models.py
index e8f037b..f77d204 100644
--- a/src/arti/internal/models.py
+++ b/src/arti/internal/models.py
@@ -90,6 +90,29 @@ class Model(BaseModel, metaclass=ModelMeta):
         super().__pydantic_init_subclass__(**kwargs)
         # Default _abstract_ to False if not set explicitly on the class.
         cls._abstract_ = cls.__dict__.get("_abstract_", False)
+        cls._set_fingerprint_fields()
+
+    @classmethod
+    def model_rebuild(
+        cls,
+        *,
+        force: bool = False,
+        raise_errors: bool = True,
+        _parent_namespace_depth: int = 2,
+        _types_namespace: dict[str, Any] | None = None,
+    ) -> bool | None:
+        rebuilt = super().model_rebuild(
+            force=force,
+            raise_errors=raise_errors,
+            _parent_namespace_depth=_parent_namespace_depth + 1,  # Skip this frame.
+            _types_namespace=_types_namespace,
+        )
+        # The metadata of hints with forward references (eg: SkipFingerprint) isn't known until now.
+        cls._set_fingerprint_fields()
+        return rebuilt
+
+    @classmethod
+    def _set_fingerprint_fields(cls) -> None:
         # Determine all of the Fingerprint fields.
         if not cls.model_config.get("frozen"):  # coverage: ignore
             raise ValueError(f"{cls._arti_type_key_} must be frozen to generate a fingerprint.")
-- 
2.43.0


From 476fdbe4dfae6bc272e26c2965549c4d7c57cc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 07/42] fix: match special characters in a storage path
 literally when discovering partitions

---
 src/arti/storage/_internal.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/arti/storage/_internal.py b/src/arti/storage/_internal.py
index 3f84c56..71c989a 100644
--- a/src/arti/storage/_internal.py
+++ b/src/arti/storage/_internal.py
@@ -4,6 +4,7 @@ import string
 from collections import defaultdict
 from collections.abc import Callable, Iterable, Mapping
 from functools import partial
+from glob import escape
 from typing import Any
 
 import parse
@@ -115,11 +116,21 @@ def strip_partition_indexes(spec: str) -> str:
     return string.Formatter().vformat(spec, (), FormatDict(StripIndexPlaceholder))
 
 
+class WildcardFormatter(string.Formatter):
+    """Escape the literal text, so any special characters in it only match themselves."""
+
+    def parse(
+        self, format_string: str
+    ) -> Iterable[tuple[str, str | None, str | None, str | None]]:
+        for literal_text, field_name, format_spec, conversion in super().parse(format_string):
+            yield escape(literal_text), field_name, format_spec, conversion
+
+
 def spec_to_wildcard(spec: str, key_types: Mapping[str, type[PartitionField]]) -> str:
-    return string.Formatter().vformat(
-        spec.replace("{input_fingerprint}", "*"),
+    return WildcardFormatter().vformat(
+        spec,
         (),
-        FormatDict(WildcardPlaceholder.with_key_types(key_types)),
+        FormatDict(WildcardPlaceholder.with_key_types(key_types), input_fingerprint="*"),
     )
 
 
-- 
2.43.0


From bc04ccaa650242e71f5a52e8077ce1e05bfe6975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 08/42] fix: skip files whose path is not the one of the
 partition it parses to

---
 src/arti/storage/google/cloud/storage.py | 16 ++++++++++------
 src/arti/storage/local.py                | 10 +++++++---
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/arti/storage/google/cloud/storage.py b/src/arti/storage/google/cloud/storage.py
index 525fbaf..d69d253 100644
--- a/src/arti/storage/google/cloud/storage.py
+++ b/src/arti/storage/google/cloud/storage.py
@@ -54,11 +54,15 @@ class GCSFile(_GCSMixin, Storage[GCSFilePartition]):
         path_metadata = parse_spec(
             paths, spec=spec, key_types=self.key_types, input_fingerprints=input_fingerprints
         )
-        return tuple(
-            self.generate_partition(
+        partitions = {
+            path: self.generate_partition(
                 input_fingerprint=input_fingerprint, partition_key=partition_key
-            ).snapshot()
-            for (bucket, path), (input_fingerprint, partition_key) in {
-                tuple(path.split("/", 1)): metadata for path, metadata in path_metadata.items()
-            }.items()
+            )
+            for path, (input_fingerprint, partition_key) in path_metadata.items()
+        }
+        # Skip any paths that can be parsed, but aren't where we store the partition (eg: "05" vs "5").
+        return tuple(
+            partition.snapshot()
+            for path, partition in partitions.items()
+            if partition.qualified_path == path
         )
diff --git a/src/arti/storage/local.py b/src/arti/storage/local.py
index 900d982..3a673d2 100644
--- a/src/arti/storage/local.py
+++ b/src/arti/storage/local.py
@@ -50,11 +50,15 @@ class LocalFile(Storage[LocalFilePartition]):
         path_metadata = parse_spec(
             paths, spec=self.path, key_types=self.key_types, input_fingerprints=input_fingerprints
         )
-        return tuple(
-            self.generate_partition(
+        partitions = {
+            path: self.generate_partition(
                 input_fingerprint=input_fingerprint, partition_key=partition_key
-            ).snapshot()
+            )
             for path, (input_fingerprint, partition_key) in path_metadata.items()
+        }
+        # Skip any paths that can be parsed, but aren't where we store the partition (eg: "05" vs "5").
+        return tuple(
+            partition.snapshot() for path, partition in partitions.items() if partition.path == path
         )
 
     @classmethod
-- 
2.43.0


From ab7a44f2fc1e954376971dd41ecd9f73c8b143af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:45 +0000
Subject: [PATCH 09/42] fix: never format the value of a literal as a template

---
 src/arti/storage/__init__.py | 7 ++++---
 src/arti/storage/literal.py  | 8 ++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/arti/storage/__init__.py b/src/arti/storage/__init__.py
index ad0bace..32518cb 100644
--- a/src/arti/storage/__init__.py
+++ b/src/arti/storage/__init__.py
@@ -205,11 +205,12 @@ class Storage[SP: StoragePartition](Model):
             if not self.includes_input_fingerprint_template:
                 raise ValueError(f"{self} does not specify a {{input_fingerprint}} template")
             format_kwargs["input_fingerprint"] = str(input_fingerprint)
+        format_fields = self._format_fields
         field_values = {
             name: (
-                strip_partition_indexes(original).format(**format_kwargs)
-                if lenient_issubclass(type(original := getattr(self, name)), str)
-                else original
+                strip_partition_indexes(format_fields[name]).format(**format_kwargs)
+                if name in format_fields
+                else getattr(self, name)
             )
             for name in self.model_fields
             if name in self.storage_partition_type.model_fields
diff --git a/src/arti/storage/literal.py b/src/arti/storage/literal.py
index c949ad0..354ec9d 100644
--- a/src/arti/storage/literal.py
+++ b/src/arti/storage/literal.py
@@ -8,6 +8,7 @@ from arti import (
     StoragePartition,
     StoragePartitionSnapshots,
 )
+from arti.internal.mappings import frozendict
 
 _not_written_err = FileNotFoundError("Literal has not been written yet")
 
@@ -28,6 +29,13 @@ class StringLiteral(Storage[StringLiteralPartition]):
     id: str = "{graph_name}/{path_tags}/{names}/{partition_key_spec}/{input_fingerprint}/{name}{extension}"
     value: str | None = None
 
+    @property
+    def _format_fields(self) -> frozendict[str, str]:
+        # The value is literal data - not a template - and must be left as is.
+        return frozendict(
+            {name: field for name, field in super()._format_fields.items() if name != "value"}
+        )
+
     def discover_partitions(
         self, input_fingerprints: InputFingerprints = InputFingerprints()
     ) -> StoragePartitionSnapshots:
-- 
2.43.0


From caa4f80c4f35ddfef1089cfe3d87d6eb1d3f6401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:48 +0000
Subject: [PATCH 10/42] fix: include which producer output generates each
 artifact in a graph's fingerprint

An artifact's fingerprint omits its producer, so graphs that only differ in how
artifacts and producers are connected had the same snapshot id.
---
 src/arti/graphs/__init__.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index be6d6e7..fbb5347 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -140,6 +140,18 @@ class Graph(Model):
             {artifact: key for key, artifact in self.artifacts.walk()}
         )
 
+    @cached_property
+    def fingerprint(self) -> Fingerprint:
+        # The Artifacts' fingerprints intentionally omit their Producers, so we must add which
+        # Producer (and output) generates each of them.
+        return super().fingerprint.combine(
+            *(
+                Fingerprint.from_string(f"{key}:{output.position}:{output.producer.fingerprint}")
+                for key, artifact in self.artifacts.walk()
+                if (output := artifact.producer_output) is not None
+            )
+        )
+
     @property
     def artifact_to_key(self) -> frozendict[Artifact, str]:
         return self._artifact_to_key
-- 
2.43.0


From 9365f104a4e0d77bd58ff92d7aedcef3ec10368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:53 +0000
Subject: [PATCH 11/42] fix: recompute a graph's dependencies after re-opening
 it

---
 src/arti/graphs/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index fbb5347..a0c7040 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -139,6 +139,9 @@ class Graph(Model):
         self._artifact_to_key = frozendict(
             {artifact: key for key, artifact in self.artifacts.walk()}
         )
+        # The definition may have changed, so drop anything computed from a prior one.
+        for name in ("dependencies", "fingerprint", "producer_outputs", "producers"):
+            self.__dict__.pop(name, None)
 
     @cached_property
     def fingerprint(self) -> Fingerprint:
-- 
2.43.0


From 4e7b9b172be70c44cd567e48a75fdfa0a3625af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:43 +0000
Subject: [PATCH 12/42] fix: keep equal or swapped inputs apart in a producer's
 input fingerprint

---
 src/arti/producers/__init__.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/arti/producers/__init__.py b/src/arti/producers/__init__.py
index 9ce0bb7..7fa688b 100644
--- a/src/arti/producers/__init__.py
+++ b/src/arti/producers/__init__.py
@@ -2,7 +2,8 @@ from __future__ import annotations
 
 __path__ = __import__("pkgutil").extend_path(__path__, __name__)
 
-from collections.abc import Callable, Iterator
+from collections.abc import Callable, Iterator, Sequence
+from functools import reduce
 from inspect import Parameter, Signature, getattr_static
 from typing import (
     TYPE_CHECKING,
@@ -332,16 +333,24 @@ class Producer(Model):
             raise ValueError(
                 f"Mismatched dependency inputs; expected {expected_names}, got {input_names}"
             )
+
+        # `Fingerprint.combine` ignores order and cancels out pairs of equal values, which would make
+        # different contents (eg: two inputs with equal data, or swapped between inputs) ambiguous.
+        def merge(fingerprints: Sequence[Fingerprint]) -> Fingerprint:
+            first, *rest = fingerprints or (Fingerprint.identity(),)
+            return reduce(lambda x, y: Fingerprint.from_string(f"{x},{y}"), rest, first)
+
         # We only care if the *code* or *input partition contents* changed, not if the input file
         # paths changed (but have the same content as a prior run).
         return Fingerprint.from_string(self._arti_type_key_).combine(
             self.version.fingerprint,
-            *(
-                # TODO: Include the artifact name here? Do we care if you rename an arg (without
-                # changing the version)?
-                snapshot.content_fingerprint
-                for name, partition_snapshots in dependency_partitions.items()
-                for snapshot in partition_snapshots
+            # TODO: Include the artifact name here? Do we care if you rename an arg (without
+            # changing the version)?
+            merge(
+                [
+                    merge(sorted(snapshot.content_fingerprint for snapshot in partition_snapshots))
+                    for _, partition_snapshots in sorted(dependency_partitions.items())
+                ]
             ),
         )
 
-- 
2.43.0


From d680e08e8ec7a8c8b8ae5cef28e9b775c4989166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:01 +0000
Subject: [PATCH 13/42] fix: count a raw partition shared by several artifacts
 in the snapshot id

---
 src/arti/graphs/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index a0c7040..b9dbf35 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -343,6 +343,9 @@ class GraphSnapshot(Model):
         # Artifact (partitions) won't be fully resolved yet.
         snapshot_id = graph.fingerprint
         known_artifact_partitions = dict[str, StoragePartitionSnapshots]()
+        # Only combine the fingerprint of each partition once, as a partition shared by two Artifacts
+        # (ie: with the same storage) would otherwise cancel itself out.
+        partition_fingerprints = set[Fingerprint]()
         for node, _ in graph.dependencies.items():
             snapshot_id = snapshot_id.combine(node.fingerprint)
             if isinstance(node, Artifact):
@@ -360,9 +363,10 @@ class GraphSnapshot(Model):
                     if not known_artifact_partitions[key]:
                         content_str = "partitions" if is_partitioned(node.type) else "data"
                         raise ValueError(f"No {content_str} found for `{key}`: {node}")
-                    snapshot_id = snapshot_id.combine(
-                        *[partition.fingerprint for partition in known_artifact_partitions[key]]
+                    partition_fingerprints.update(
+                        partition.fingerprint for partition in known_artifact_partitions[key]
                     )
+        snapshot_id = snapshot_id.combine(*partition_fingerprints)
         snapshot = cls(graph=graph, id=snapshot_id)
         # Write the discovered partitions (if not already known) and link to this new snapshot.
         with (connection or snapshot.backend).connect() as conn:
-- 
2.43.0


From bd4176c745817eb9a34aa71f21f320394d37273b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:14 +0000
Subject: [PATCH 14/42] fix: do not link prior outputs when a producer maps no
 partitions

---
 src/arti/executors/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/arti/executors/__init__.py b/src/arti/executors/__init__.py
index dc0e537..e8dd8cc 100644
--- a/src/arti/executors/__init__.py
+++ b/src/arti/executors/__init__.py
@@ -12,6 +12,7 @@ from arti.graphs import GraphSnapshot
 from arti.internal.models import Model
 from arti.partitions import InputFingerprints, PartitionKey
 from arti.producers import InputPartitions, Producer
+from arti.storage import StoragePartitionSnapshots
 
 
 class Executor(Model):
@@ -45,7 +46,12 @@ class Executor(Model):
         # input_fingerprints we've computed *are* for this snapshot - and then link them to the
         # snapshot.
         output_partition_snapshots = {
-            output: connection.read_artifact_partitions(output, partition_input_fingerprints)
+            # Without any input fingerprints, `read_artifact_partitions` doesn't filter the partitions.
+            output: (
+                connection.read_artifact_partitions(output, partition_input_fingerprints)
+                if partition_input_fingerprints
+                else StoragePartitionSnapshots()
+            )
             for output in snapshot.graph.producer_outputs[producer]
         }
         for artifact, partition_snapshots in output_partition_snapshots.items():
-- 
2.43.0


From a98a6b7ab46ae27ce3861d8746080f0a907f0b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 15/42] fix: rebuild partitions that are missing any of the
 producer's outputs

---
 src/arti/executors/__init__.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/arti/executors/__init__.py b/src/arti/executors/__init__.py
index e8dd8cc..a80162e 100644
--- a/src/arti/executors/__init__.py
+++ b/src/arti/executors/__init__.py
@@ -4,7 +4,6 @@ __path__ = __import__("pkgutil").extend_path(__path__, __name__)
 
 import abc
 import logging
-from itertools import chain
 
 from arti.backends import BackendConnection
 from arti.fingerprints import Fingerprint
@@ -54,16 +53,26 @@ class Executor(Model):
             )
             for output in snapshot.graph.producer_outputs[producer]
         }
+        # A partition is only built once it exists for *all* outputs - otherwise (eg: a prior build was
+        # interrupted), it must be rebuilt and any existing outputs will be replaced.
+        existing_keys = set.intersection(
+            *(
+                {partition_snapshot.partition_key for partition_snapshot in partition_snapshots}
+                for partition_snapshots in output_partition_snapshots.values()
+            )
+        )
         for artifact, partition_snapshots in output_partition_snapshots.items():
             connection.write_snapshot_partitions(
-                snapshot, snapshot.graph.artifact_to_key[artifact], artifact, partition_snapshots
+                snapshot,
+                snapshot.graph.artifact_to_key[artifact],
+                artifact,
+                tuple(
+                    partition_snapshot
+                    for partition_snapshot in partition_snapshots
+                    if partition_snapshot.partition_key in existing_keys
+                ),
             )
-        # TODO: Guarantee all outputs have the same set of identified partitions. Currently, this
-        # pretends a partition is built for all outputs if _any_ are built for that partition.
-        return {
-            snapshot.partition_key
-            for snapshot in chain.from_iterable(output_partition_snapshots.values())
-        }
+        return existing_keys
 
     def build_producer_partition(
         self,
-- 
2.43.0


From 50bd42d4eb0c32fe3db010024e34cad97847eeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:51 +0000
Subject: [PATCH 16/42] fix: write each output of a producer to the artifacts
 at its position

---
 src/arti/executors/__init__.py | 11 +++++++----
 src/arti/graphs/__init__.py    |  9 +++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/arti/executors/__init__.py b/src/arti/executors/__init__.py
index a80162e..32da62e 100644
--- a/src/arti/executors/__init__.py
+++ b/src/arti/executors/__init__.py
@@ -9,6 +9,7 @@ from arti.backends import BackendConnection
 from arti.fingerprints import Fingerprint
 from arti.graphs import GraphSnapshot
 from arti.internal.models import Model
+from arti.internal.type_hints import assert_not_none
 from arti.partitions import InputFingerprints, PartitionKey
 from arti.producers import InputPartitions, Producer
 from arti.storage import StoragePartitionSnapshots
@@ -110,11 +111,13 @@ class Executor(Model):
         validation_passed, validation_message = producer.validate_outputs(*outputs)
         if not validation_passed:
             raise ValueError(validation_message)
-        for i, output in enumerate(outputs):
+        # The Graph may contain only some of the outputs (or an output more than once).
+        for artifact in snapshot.graph.producer_outputs[producer]:
+            position = assert_not_none(artifact.producer_output).position
             snapshot.write(
-                output,
-                artifact=snapshot.graph.producer_outputs[producer][i],
+                outputs[position],
+                artifact=artifact,
                 input_fingerprint=input_fingerprint,
                 partition_key=partition_key,
-                view=producer._outputs_[i],
+                view=producer._outputs_[position],
             )
diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index b9dbf35..6cd2c67 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -6,6 +6,7 @@ from collections import defaultdict
 from collections.abc import Callable
 from functools import cached_property, wraps
 from graphlib import TopologicalSorter
+from operator import itemgetter
 from types import TracebackType
 from typing import TYPE_CHECKING, Annotated, Any, Literal, TypeVar
 
@@ -203,15 +204,15 @@ class Graph(Model):
     @cached_property
     @requires_sealed
     def producer_outputs(self) -> frozendict[Producer, tuple[Artifact, ...]]:
-        d = defaultdict[Producer, dict[int, Artifact]](dict)
+        d = defaultdict[Producer, list[tuple[int, Artifact]]](list)
         for _, artifact in self.artifacts.walk():
             if artifact.producer_output is None:
                 continue
             output = artifact.producer_output
-            d[output.producer][output.position] = artifact
+            d[output.producer].append((output.position, artifact))
         return frozendict(
-            (producer, tuple(artifacts_by_position[i] for i in sorted(artifacts_by_position)))
-            for producer, artifacts_by_position in d.items()
+            (producer, tuple(artifact for _, artifact in sorted(outputs, key=itemgetter(0))))
+            for producer, outputs in d.items()
         )
 
     # TODO: io.read/write probably need a bit of sanity checking (probably somewhere else), eg: type
-- 
2.43.0


From 6a2d8be7572d122ca3401918e76d94f23ab0151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:39 +0000
Subject: [PATCH 17/42] fix: do not leave incomplete files behind when a write
 fails or is interrupted

---
 src/arti/internal/utils.py             | 17 +++++++++++++++++
 src/arti/io/json_gcsfile_python.py     |  4 +++-
 src/arti/io/json_localfile_python.py   |  4 ++--
 src/arti/io/pickle_gcsfile_python.py   |  4 +++-
 src/arti/io/pickle_localfile_python.py |  4 ++--
 5 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/arti/internal/utils.py b/src/arti/internal/utils.py
index f366f79..315f2f4 100644
--- a/src/arti/internal/utils.py
+++ b/src/arti/internal/utils.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import importlib
 import inspect
+import os
 import pkgutil
 import threading
 from collections.abc import Callable, Generator, Iterable
@@ -245,6 +246,22 @@ def register[K, V](
     return value
 
 
+def write_file(path: Path, data: bytes) -> None:
+    """Write a file, ensuring a new one only exists once complete (even if interrupted).
+
+    An existing file is overwritten in place.
+    """
+    if path.exists():
+        with path.open("wb") as file:
+            file.write(data)
+        return
+    # Hidden, so it isn't matched by any wildcards.
+    tmp_path = path.with_name(f".{path.name}.{os.getpid()}.tmp")
+    with tmp_path.open("wb") as file:
+        file.write(data)
+    tmp_path.replace(path)
+
+
 class NoCopyMixin:
     """Mixin to bypass (deep)copying.
 
diff --git a/src/arti/io/json_gcsfile_python.py b/src/arti/io/json_gcsfile_python.py
index 5d8ff72..09a8d64 100644
--- a/src/arti/io/json_gcsfile_python.py
+++ b/src/arti/io/json_gcsfile_python.py
@@ -45,5 +45,7 @@ def _read_json_gcsfile_python(
 def _write_json_gcsfile_python(
     data: Any, type_: Type, format: JSON, storage_partition: GCSFilePartition, view: PythonBuiltin
 ) -> None:
+    # Serialize first, as leaving the `with` on an error would still store the incomplete data.
+    serialized = json.dumps(data)
     with GCSFileSystem().open(storage_partition.qualified_path, "w") as file:
-        json.dump(data, file)
+        file.write(serialized)
diff --git a/src/arti/io/json_localfile_python.py b/src/arti/io/json_localfile_python.py
index 403e064..c98acea 100644
--- a/src/arti/io/json_localfile_python.py
+++ b/src/arti/io/json_localfile_python.py
@@ -7,6 +7,7 @@ from pathlib import Path
 from typing import Any
 
 from arti.formats.json import JSON
+from arti.internal.utils import write_file
 from arti.io import register_reader, register_writer
 from arti.storage.local import LocalFilePartition
 from arti.types import Type, is_partitioned
@@ -44,5 +45,4 @@ def _write_json_localfile_python(
 ) -> None:
     path = Path(storage_partition.path)
     path.parent.mkdir(exist_ok=True, parents=True)
-    with path.open("w") as file:
-        json.dump(data, file)
+    write_file(path, json.dumps(data).encode())
diff --git a/src/arti/io/pickle_gcsfile_python.py b/src/arti/io/pickle_gcsfile_python.py
index 5c24bed..efc5490 100644
--- a/src/arti/io/pickle_gcsfile_python.py
+++ b/src/arti/io/pickle_gcsfile_python.py
@@ -45,5 +45,7 @@ def _read_pickle_gcsfile_python(
 def _write_pickle_gcsfile_python(
     data: Any, type_: Type, format: Pickle, storage_partition: GCSFilePartition, view: PythonBuiltin
 ) -> None:
+    # Serialize first, as leaving the `with` on an error would still store the incomplete data.
+    serialized = pickle.dumps(data)
     with GCSFileSystem().open(storage_partition.qualified_path, "wb") as file:
-        pickle.dump(data, file)
+        file.write(serialized)
diff --git a/src/arti/io/pickle_localfile_python.py b/src/arti/io/pickle_localfile_python.py
index 3c7bd18..9bfe033 100644
--- a/src/arti/io/pickle_localfile_python.py
+++ b/src/arti/io/pickle_localfile_python.py
@@ -7,6 +7,7 @@ from pathlib import Path
 from typing import Any
 
 from arti.formats.pickle import Pickle
+from arti.internal.utils import write_file
 from arti.io import register_reader, register_writer
 from arti.storage.local import LocalFilePartition
 from arti.types import Type, is_partitioned
@@ -46,5 +47,4 @@ def _write_pickle_localfile_python(
 ) -> None:
     path = Path(storage_partition.path)
     path.parent.mkdir(exist_ok=True, parents=True)
-    with path.open("wb") as file:
-        pickle.dump(data, file)
+    write_file(path, pickle.dumps(data))
-- 
2.43.0


From b4c1f5333660bf4eeae3b01563afc3974463b58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 18/42] fix: look up stored partitions the memory backend has
 not seen yet

The cache was only filled the first time a storage was used, with that build's input
fingerprints, so outputs stored for other inputs were built again.
---
 src/arti/backends/memory.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/arti/backends/memory.py b/src/arti/backends/memory.py
index 63f38bb..5d808f5 100644
--- a/src/arti/backends/memory.py
+++ b/src/arti/backends/memory.py
@@ -67,11 +67,17 @@ class MemoryConnection(BackendConnection):
         self, artifact: Artifact, input_fingerprints: InputFingerprints = InputFingerprints()
     ) -> StoragePartitionSnapshots:
         # The MemoryBackend is (obviously) not persistent, so there may be external data we don't
-        # know about. If we haven't seen this storage before, we'll attempt to "warm" the cache.
-        if artifact.storage not in self.container.storage_partitions:
-            self.write_artifact_partitions(
-                artifact, artifact.storage.discover_partitions(input_fingerprints)
-            )
+        # know about. If we haven't seen this storage (or any of the requested partitions) before,
+        # we'll attempt to "warm" the cache.
+        known = {
+            (snapshot.partition_key, snapshot.input_fingerprint)
+            for snapshot in self.container.storage_partitions.get(artifact.storage, ())
+        }
+        unknown = InputFingerprints(
+            {key: fp for key, fp in input_fingerprints.items() if (key, fp) not in known}
+        )
+        if unknown or artifact.storage not in self.container.storage_partitions:
+            self.write_artifact_partitions(artifact, artifact.storage.discover_partitions(unknown))
         partition_snapshots = self.container.storage_partitions[artifact.storage]
         if input_fingerprints:
             partition_snapshots = {
-- 
2.43.0


From f19b4dc43cefed2cedf6ad13a6abf190807f0467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:58 +0000
Subject: [PATCH 19/42] fix: do not truncate complete output files that are
 written again

Interrupting the rebuild of a producer with one of its outputs missing left the others
incomplete, which later builds took for finished.
---
 src/arti/internal/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/arti/internal/utils.py b/src/arti/internal/utils.py
index 315f2f4..46153e0 100644
--- a/src/arti/internal/utils.py
+++ b/src/arti/internal/utils.py
@@ -249,11 +249,12 @@ def register[K, V](
 def write_file(path: Path, data: bytes) -> None:
     """Write a file, ensuring a new one only exists once complete (even if interrupted).
 
-    An existing file is overwritten in place.
+    An existing file is overwritten in place, unless it has the same contents already.
     """
     if path.exists():
-        with path.open("wb") as file:
-            file.write(data)
+        if path.read_bytes() != data:
+            with path.open("wb") as file:
+                file.write(data)
         return
     # Hidden, so it isn't matched by any wildcards.
     tmp_path = path.with_name(f".{path.name}.{os.getpid()}.tmp")
-- 
2.43.0


From 5771a61c52ba6d03872cd7a3148b1578d943afae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 20/42] fix: do not fail testing a box for a name below a
 stored value

---
 src/arti/internal/mappings.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arti/internal/mappings.py b/src/arti/internal/mappings.py
index 3ad913c..dfe8019 100644
--- a/src/arti/internal/mappings.py
+++ b/src/arti/internal/mappings.py
@@ -153,7 +153,7 @@ class TypedBox[V](Mapping[str, TypedNode[V]]):
     ) -> tuple[TypedBox[V], str]:
         *head, tail = key.split(".")
         for part in head:
-            if short_circuit_missing and part not in self:
+            if short_circuit_missing and (not isinstance(self, TypedBox) or part not in self):
                 return self, part
             self = cast(TypedBox[V], self[part])  # NOTE: reassigning self
         if tail.startswith("_"):
@@ -166,7 +166,8 @@ class TypedBox[V](Mapping[str, TypedNode[V]]):
         self, key = self._get_leaf_and_key(
             key, short_circuit_missing=True
         )  # NOTE: reassigning self
-        return key in self._data
+        # If the key is nested below a value, we'll get that value back - which holds no keys.
+        return isinstance(self, TypedBox) and key in self._data
 
     def __getitem__(self, key: str) -> TypedNode[V]:
         self, key = self._get_leaf_and_key(key)  # NOTE: reassigning self
-- 
2.43.0


From 72d9bd62e7ea791eabd0f580854f33f29f7f26a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 21/42] fix: map NoneType (eg: TypedDict and pydantic fields
 hinted as None) to Null

---
 src/arti/types/python.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arti/types/python.py b/src/arti/types/python.py
index 38eff21..c6d8795 100644
--- a/src/arti/types/python.py
+++ b/src/arti/types/python.py
@@ -40,14 +40,15 @@ for _precision in (8, 16, 32, 64):
 
 @python_type_system.register_adapter
 class PyNone(_ScalarClassTypeAdapter):
-    # Python represents None types in type hints with the `None` value (not `NoneType`).
+    # Python represents None types in type hints with the `None` value (not `NoneType`). However,
+    # `typing.get_type_hints` (eg: for TypedDict) and pydantic fields normalize it to `NoneType`.
 
     artigraph = arti.types.Null
     system = None
 
     @classmethod
     def matches_system(cls, type_: Any, *, hints: dict[str, Any]) -> bool:
-        return type_ is None
+        return type_ is None or type_ is NoneType
 
 
 @python_type_system.register_adapter
-- 
2.43.0


From f4f75bbf5d13f50b8bf3e23e32a44e96f4974ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 22/42] fix: keep the nullability of nested Structs converted
 to pydantic models

---
 src/arti/types/pydantic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arti/types/pydantic.py b/src/arti/types/pydantic.py
index 3a49231..67a045e 100644
--- a/src/arti/types/pydantic.py
+++ b/src/arti/types/pydantic.py
@@ -38,6 +38,11 @@ class BaseModelAdapter(TypeAdapter):
             },
         )
 
+    @classmethod
+    def matches_artigraph(cls, type_: Type, *, hints: dict[str, Any]) -> bool:
+        # Defer nullable Structs to the (extended) python adapter to become an Optional.
+        return super().matches_artigraph(type_, hints=hints) and not type_.nullable
+
     @classmethod
     def matches_system(cls, type_: Any, *, hints: dict[str, Any]) -> bool:
         return lenient_issubclass(type_, cls.system)
-- 
2.43.0


From ad26b1df9d924141642ea210e3b9634e8e73dbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 23/42] fix: convert Null fields to pydantic models

---
 src/arti/types/pydantic.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/arti/types/pydantic.py b/src/arti/types/pydantic.py
index 67a045e..dc91121 100644
--- a/src/arti/types/pydantic.py
+++ b/src/arti/types/pydantic.py
@@ -5,7 +5,7 @@ from typing import Any
 from pydantic import BaseModel, create_model
 from pydantic.fields import FieldInfo
 
-from arti.internal.type_hints import lenient_issubclass
+from arti.internal.type_hints import NoneType, lenient_issubclass
 from arti.types import Struct, Type, TypeAdapter, TypeSystem, _NamedMixin
 from arti.types.python import python_type_system
 
@@ -53,4 +53,11 @@ class BaseModelAdapter(TypeAdapter):
     ) -> type[BaseModel]:
         assert isinstance(type_, Struct)
         annotations = {k: type_system.to_system(v, hints=hints) for k, v in type_.fields.items()}
-        return create_model(type_.name, **{name: (hint, ...) for name, hint in annotations.items()})
+        return create_model(
+            type_.name,
+            # NOTE: create_model considers a None hint to be missing.
+            **{
+                name: (NoneType if hint is None else hint, ...)
+                for name, hint in annotations.items()
+            },
+        )
-- 
2.43.0


From db08a9f76e4ef5aa526b1d7194c0137e2ba24368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 24/42] fix: keep the description of Lists converted to and
 from BigQuery

---
 src/arti/types/bigquery.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arti/types/bigquery.py b/src/arti/types/bigquery.py
index e15b0ee..d020a32 100644
--- a/src/arti/types/bigquery.py
+++ b/src/arti/types/bigquery.py
@@ -170,6 +170,7 @@ class ListFieldTypeAdapter(TypeAdapter):
         # elements) for subsequent conversion by other TypeAdapters.
         element_type = deepcopy(type_)
         element_type._properties["mode"] = BIGQUERY_MODE.REQUIRED
+        element_type._properties.pop("description", None)  # Describes the array, not the elements
         return types.List(
             description=type_.description,
             element=type_system.to_artigraph(element_type, hints=hints),
@@ -202,6 +203,8 @@ class ListFieldTypeAdapter(TypeAdapter):
         field = type_system.to_system(type_.element, hints=hints)
         assert field.mode == BIGQUERY_MODE.REQUIRED
         field._properties["mode"] = BIGQUERY_MODE.REPEATED
+        if type_.description is not None:
+            field._properties["description"] = type_.description
         return field
 
 
-- 
2.43.0


From 6eeaf340489ab25ba592d07164abfc7e66f28c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 25/42] fix: convert Binary columns to and from pandas

---
 src/arti/types/numpy.py  | 4 ++++
 src/arti/types/pandas.py | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/arti/types/numpy.py b/src/arti/types/numpy.py
index bf48f6b..ef0798e 100644
--- a/src/arti/types/numpy.py
+++ b/src/arti/types/numpy.py
@@ -36,6 +36,10 @@ class _NumpyScalarTypeAdapter(_ScalarClassTypeAdapter):
         # NOTE: this works for both direct type and np.dtype comparison, eg:
         # - np.bool_ == np.bool_
         # - np.dtype("bool") == np.bool_
+        #
+        # However, dtypes with a size (eg: np.dtype("S1")) only equal others of the same size.
+        if isinstance(type_, np.dtype) and type_.type == cls.system:
+            return True
         return cast(bool, type_ == cls.system)
 
 
diff --git a/src/arti/types/pandas.py b/src/arti/types/pandas.py
index 13ea103..61b4ed9 100644
--- a/src/arti/types/pandas.py
+++ b/src/arti/types/pandas.py
@@ -5,7 +5,7 @@ from typing import Any, cast
 import numpy as np
 import pandas as pd
 
-from arti.types import List, String, Struct, Type, TypeAdapter, TypeSystem
+from arti.types import Binary, List, String, Struct, Type, TypeAdapter, TypeSystem
 from arti.types.numpy import numpy_type_system
 
 # TODO: How should (multi)indexes be handled; perhaps as a "hint"?
@@ -35,6 +35,8 @@ class SeriesAdapter(TypeAdapter):
             example_value = type_.iloc[0]
             if isinstance(example_value, str):
                 return List(element=String())
+            if isinstance(example_value, bytes):
+                return List(element=Binary())
             # TODO: Handle dicts, lists, etc.
             raise NotImplementedError(
                 f"Non-string {dtype} is not supported yet, got values of: {example_value}"
-- 
2.43.0


From fc1e086a1c1c32f38c91d539d30fd3cdb15b11cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 26/42] fix: raise NotImplementedError for nested columns in
 pandas

---
 src/arti/types/pandas.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arti/types/pandas.py b/src/arti/types/pandas.py
index 61b4ed9..b52cc34 100644
--- a/src/arti/types/pandas.py
+++ b/src/arti/types/pandas.py
@@ -50,6 +50,8 @@ class SeriesAdapter(TypeAdapter):
     @classmethod
     def to_system(cls, type_: Type, *, hints: dict[str, Any], type_system: TypeSystem) -> Any:
         assert isinstance(type_, cls.artigraph)
+        if isinstance(type_.element, List):
+            raise NotImplementedError(f"Columns of {type_.element} are not supported yet")
         dtype = type_system.to_system(type_.element, hints=hints)
         return pd.Series([dtype()], dtype=dtype)
 
@@ -98,6 +100,9 @@ class DataFrameAdapter(TypeAdapter):
     def to_system(cls, type_: Type, *, hints: dict[str, Any], type_system: TypeSystem) -> Any:
         assert isinstance(type_, cls.artigraph)
         assert isinstance(type_.element, Struct)
+        for subtype in type_.element.fields.values():
+            if isinstance(subtype, Struct):
+                raise NotImplementedError(f"Columns of {subtype} are not supported yet")
         # NOTE: We automatically wrap the sub-types as List(...) to match the SeriesAdapter.
         return pd.DataFrame(
             {
-- 
2.43.0


From 7c846086f7f7a169e460d51877b3ce7f3a895b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:12 +0000
Subject: [PATCH 27/42] fix: don't inherit generated maps

A Producer without its own `map` gets one generated, which subclasses then inherited as if the
user had written it: inputs they added were not passed on (so every build failed), and partitioned
outputs were accepted without a `map`.
---
 src/arti/producers/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arti/producers/__init__.py b/src/arti/producers/__init__.py
index 7fa688b..6138d81 100644
--- a/src/arti/producers/__init__.py
+++ b/src/arti/producers/__init__.py
@@ -272,7 +272,8 @@ class Producer(Model):
     @classmethod
     def _validate_map_sig(cls) -> tuple[Signature, MapInputs]:
         """Validate partitioned Artifacts and the .map method"""
-        if not hasattr(cls, "map"):
+        # NOTE: An inherited *generated* `map` only fits the parent's `build`, so replace it as well.
+        if not hasattr(cls, "map") or hasattr(cls.map, "_generated_"):
             # TODO: Add runtime checking of `map` output (ie: output aligns w/ output
             # artifacts and such).
             if any(is_partitioned(view.type) for view in cls._outputs_):
@@ -291,6 +292,7 @@ class Producer(Model):
                 ],
                 return_annotation=PartitionDependencies,
             )
+            map._generated_ = True  # type: ignore[attr-defined]
             cls.map = cast(MapSig, staticmethod(map))
         if not isinstance(getattr_static(cls, "map"), classmethod | staticmethod):
             raise ValueError("must be a @classmethod or @staticmethod")
-- 
2.43.0


From 41811d54b0f12c9820d03b253f3cada37b0e04b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 28/42] fix: compare unions within Annotated, TypeVars, and
 containers

`lenient_issubclass` missed unions below an Annotated or TypeVar, never matched a union argument of
a container unless it was the identical object (so `list[int | None]` wasn't below itself and
couldn't be used in a Producer, and Literals only matched if cached), and raised on `...`.
---
 src/arti/internal/type_hints.py | 42 +++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/arti/internal/type_hints.py b/src/arti/internal/type_hints.py
index 7026f5f..b51e8d1 100644
--- a/src/arti/internal/type_hints.py
+++ b/src/arti/internal/type_hints.py
@@ -34,22 +34,25 @@ def assert_all_instances(values: Iterable[Any], *, type: type[_T]) -> Iterable[_
     return values
 
 
+def _check_issubclass_arg(klass_arg: Any, check_type_arg: Any) -> bool:
+    klass_arg, check_type_arg = _unwrap_hint(klass_arg), _unwrap_hint(check_type_arg)
+    # check things like "..." and Literals OR subclass
+    if klass_arg == check_type_arg or check_type_arg is Any:
+        return True
+    if check_type_arg is ... or get_origin(check_type_arg) is Literal:
+        return False
+    if is_union_hint(klass_arg):
+        return all(_check_issubclass_arg(arg, check_type_arg) for arg in get_args(klass_arg))
+    if is_union_hint(check_type_arg):
+        return any(_check_issubclass_arg(klass_arg, arg) for arg in get_args(check_type_arg))
+    return lenient_issubclass(klass_arg, check_type_arg)
+
+
 # TODO: Determine if we can replace this logic with `beartype` or related packages.
 def _check_issubclass(klass: Any, check_type: type) -> bool:
-    # If a hint is Annotated, we want to unwrap the underlying type and discard the rest of the
-    # metadata.
-    klass = discard_Annotated(klass)
+    klass, check_type = _unwrap_hint(klass), _unwrap_hint(check_type)
     klass_origin, klass_args = get_origin(klass), get_args(klass)
-    if isinstance(klass, TypeVar):
-        klass = cast(type, Any) if klass.__bound__ is None else klass.__bound__
-        klass_origin, klass_args = get_origin(klass), get_args(klass)
     check_type_origin, check_type_args = get_origin(check_type), get_args(check_type)
-    if check_type_origin is Annotated:
-        check_type = check_type_args[0]
-        check_type_origin, check_type_args = get_origin(check_type), get_args(check_type)
-    if isinstance(check_type, TypeVar):
-        check_type = cast(type, Any) if check_type.__bound__ is None else check_type.__bound__
-        check_type_origin, check_type_args = get_origin(check_type), get_args(check_type)
     if klass is Any:
         return check_type is Any
     if check_type is Any:
@@ -75,8 +78,7 @@ def _check_issubclass(klass: Any, check_type: type) -> bool:
         if check_type_args and not (
             len(klass_args) == len(check_type_args)
             and all(
-                # check subclass OR things like "..."
-                lenient_issubclass(klass_arg, check_type_arg) or klass_arg is check_type_arg
+                _check_issubclass_arg(klass_arg, check_type_arg)
                 for (klass_arg, check_type_arg) in zip(klass_args, check_type_args, strict=False)
             )
         ):
@@ -86,6 +88,16 @@ def _check_issubclass(klass: Any, check_type: type) -> bool:
     raise NotImplementedError("The origin conditions don't cover all cases!")
 
 
+def _unwrap_hint(hint: Any) -> Any:
+    """Discard any Annotated metadata and replace TypeVars with their bound."""
+    while is_annotated_hint(hint) or isinstance(hint, TypeVar):
+        if isinstance(hint, TypeVar):
+            hint = Any if hint.__bound__ is None else hint.__bound__
+        else:
+            hint = discard_Annotated(hint)
+    return hint
+
+
 def discard_Annotated(type_: Any) -> Any:
     return get_args(type_)[0] if is_annotated_hint(type_) else type_
 
@@ -170,7 +182,7 @@ def lenient_issubclass[T: type | tuple[type, ...]](klass: Any, class_or_tuple: T
         return False
     if isinstance(class_or_tuple, tuple):
         return any(lenient_issubclass(klass, subtype) for subtype in class_or_tuple)
-    check_type = class_or_tuple
+    check_type = _unwrap_hint(class_or_tuple)
     # NOTE: py 3.10 supports issubclass with Unions (eg: `issubclass(str, str | int)`)
     if is_union_hint(check_type):
         return any(lenient_issubclass(klass, subtype) for subtype in get_args(check_type))
-- 
2.43.0


From de60acf1a625393a051f11fa3f24af7bdbe43116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:44 +0000
Subject: [PATCH 29/42] fix: check subtypes of TypedDicts

Hints such as `list[MyTypedDict]` raised a TypeError when used in a Producer, though their Types are
supported.
---
 src/arti/internal/type_hints.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/arti/internal/type_hints.py b/src/arti/internal/type_hints.py
index b51e8d1..e6eeb78 100644
--- a/src/arti/internal/type_hints.py
+++ b/src/arti/internal/type_hints.py
@@ -59,6 +59,15 @@ def _check_issubclass(klass: Any, check_type: type) -> bool:
         return True
     if check_type is None:
         return klass is NoneType
+    # TypedDicts don't support issubclass (as the second argument), so check the fields.
+    if is_typeddict(check_type):
+        if not is_typeddict(klass):
+            return False
+        klass_fields, check_fields = get_type_hints(klass), get_type_hints(check_type)
+        return all(
+            name in klass_fields and _check_issubclass_arg(klass_fields[name], hint)
+            for name, hint in check_fields.items()
+        )
     # eg: issubclass(tuple, tuple)
     if klass_origin is None and check_type_origin is None:
         return issubclass(klass, check_type)
-- 
2.43.0


From 676b61383183009970a3df65206d60c4644e33ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 30/42] fix: check classes against Literals

`lenient_issubclass(str, Literal[...])` raised a TypeError (as did Enums of Enums), rather than
returning False.
---
 src/arti/internal/type_hints.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arti/internal/type_hints.py b/src/arti/internal/type_hints.py
index e6eeb78..4098abb 100644
--- a/src/arti/internal/type_hints.py
+++ b/src/arti/internal/type_hints.py
@@ -39,7 +39,7 @@ def _check_issubclass_arg(klass_arg: Any, check_type_arg: Any) -> bool:
     # check things like "..." and Literals OR subclass
     if klass_arg == check_type_arg or check_type_arg is Any:
         return True
-    if check_type_arg is ... or get_origin(check_type_arg) is Literal:
+    if check_type_arg is ...:
         return False
     if is_union_hint(klass_arg):
         return all(_check_issubclass_arg(arg, check_type_arg) for arg in get_args(klass_arg))
@@ -59,6 +59,9 @@ def _check_issubclass(klass: Any, check_type: type) -> bool:
         return True
     if check_type is None:
         return klass is NoneType
+    # Literals don't support issubclass, but no class is limited to specific values.
+    if check_type_origin is Literal:
+        return False
     # TypedDicts don't support issubclass (as the second argument), so check the fields.
     if is_typeddict(check_type):
         if not is_typeddict(klass):
-- 
2.43.0


From f61704266e073386c93aeda9d6cf327eab62f816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:50 +0000
Subject: [PATCH 31/42] fix: reject dispatch handlers with reordered parameters

Arguments are dispatched by position, so such handlers were registered for (and passed) the wrong
arguments.
---
 src/arti/internal/dispatch.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arti/internal/dispatch.py b/src/arti/internal/dispatch.py
index e424969..f14902b 100644
--- a/src/arti/internal/dispatch.py
+++ b/src/arti/internal/dispatch.py
@@ -80,6 +80,12 @@ class _multipledispatch(_multimethod.multidispatch[RETURN]):
                     raise TypeError(
                         f"Expected the `{func.__name__}.{name}` parameter to be a subclass of {spec_param.annotation}, got {sig_param.annotation}"
                     )
+            # Positional arguments are dispatched (and passed on) in order, regardless of name.
+            positional = [n for n, p in spec.parameters.items() if p.kind != p.KEYWORD_ONLY]
+            if [name for name in sig.parameters if name in positional] != positional:
+                raise TypeError(
+                    f"Expected `{func.__name__}` to have the {positional} parameters in order, got {list(sig.parameters)}"
+                )
             if not lenient_issubclass(sig.return_annotation, spec.return_annotation):
                 raise TypeError(
                     f"Expected the `{func.__name__}` return to match {spec.return_annotation}, got {sig.return_annotation}"
-- 
2.43.0


From e93374710f11543098d91fa71d431a77eea68152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 32/42] fix: drop repeated empty placeholders with their
 separators

---
 src/arti/storage/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/arti/storage/__init__.py b/src/arti/storage/__init__.py
index 32518cb..bce8abc 100644
--- a/src/arti/storage/__init__.py
+++ b/src/arti/storage/__init__.py
@@ -227,10 +227,9 @@ class Storage[SP: StoragePartition](Model):
             if not value:
                 # Strip placeholder *and* any trailing self.segment_sep.
                 trim = "{" + placeholder + "}"
-                if f"{trim}{self.segment_sep}" in spec:
-                    trim = f"{trim}{self.segment_sep}"
+                spec = spec.replace(f"{trim}{self.segment_sep}", "").replace(trim, "")
                 # Also strip any trailing separators, eg: if the placeholder was at the end.
-                spec = spec.replace(trim, "").rstrip(self.segment_sep)
+                spec = spec.rstrip(self.segment_sep)
                 if not spec:
                     raise ValueError(f"{self}.{name} was empty after removing unused templates")
         return partial_format(spec, **placeholder_values)
-- 
2.43.0


From aef9cbed19fb7c98797cf2df1d7a0efe08d7d574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:37 +0000
Subject: [PATCH 33/42] fix: don't repeat an Artifact class's default
 annotations and statistics

---
 src/arti/artifacts/__init__.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/arti/artifacts/__init__.py b/src/arti/artifacts/__init__.py
index 815b353..cb3604a 100644
--- a/src/arti/artifacts/__init__.py
+++ b/src/arti/artifacts/__init__.py
@@ -6,7 +6,7 @@ import json
 from itertools import chain
 from typing import TYPE_CHECKING, Annotated, Any
 
-from pydantic import Field, ValidationInfo, field_validator
+from pydantic import Field, ValidationInfo, field_validator, model_validator
 
 from arti.annotations import Annotation
 from arti.fingerprints import SkipFingerprint
@@ -71,11 +71,17 @@ class Artifact(Model):
             storage = storage._visit_format(format_)
         return storage
 
-    @field_validator("annotations", "statistics", mode="before")
+    # NOTE: This can't be a field validator, as those would also run on (and double) the defaults.
+    @model_validator(mode="before")
     @classmethod
-    def _merge_class_defaults(cls, value: tuple[Any, ...], info: ValidationInfo) -> tuple[Any, ...]:
-        assert info.field_name is not None
-        return tuple(chain(get_field_default(cls, info.field_name, fallback=()), value))
+    def _merge_class_defaults(cls, data: Any) -> Any:
+        if not isinstance(data, dict):
+            return data
+        return data | {
+            name: tuple(chain(get_field_default(cls, name, fallback=()), data[name]))
+            for name in ("annotations", "statistics")
+            if name in data
+        }
 
     @classmethod
     def cast(cls, value: Any) -> Artifact:
-- 
2.43.0


From dbbfbf9d1db957399c9cbe86e287475179bb5c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:41 +0000
Subject: [PATCH 34/42] fix: raise NotImplementedError for the type of an empty
 container

---
 src/arti/internal/type_hints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arti/internal/type_hints.py b/src/arti/internal/type_hints.py
index 4098abb..0f88cb6 100644
--- a/src/arti/internal/type_hints.py
+++ b/src/arti/internal/type_hints.py
@@ -169,14 +169,14 @@ def get_annotation_from_value(value: Any) -> Any:
         return None
     if isinstance(value, bool | bytes | date | datetime | float | int | str):
         return type(value)
-    if isinstance(value, tuple | list | set | frozenset):
+    if isinstance(value, tuple | list | set | frozenset) and value:
         first, *tail = tuple(value)
         first_type = type(first)
         if all(isinstance(v, first_type) for v in tail):
             if isinstance(value, tuple):
                 return tuple[first_type, ...]  # type: ignore[valid-type]
             return type(value)[first_type]  # type: ignore[index]
-    if isinstance(value, dict):
+    if isinstance(value, dict) and value:
         items = value.items()
         first_key_type, first_value_type = (type(v) for v in next(iter(items)))
         if all(
-- 
2.43.0


From b69a4ed70db91c481585692d4b17a1647e71a7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:38 +0000
Subject: [PATCH 35/42] fix: accept a pickled Graph as sealed

---
 src/arti/graphs/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index 6cd2c67..c21efa0 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -47,7 +47,8 @@ _Return = TypeVar("_Return")
 def requires_sealed(fn: Callable[..., _Return]) -> Callable[..., _Return]:
     @wraps(fn)
     def check_if_sealed(self: Graph, *args: Any, **kwargs: Any) -> _Return:
-        if self._status is not CLOSED:
+        # NOTE: A pickled (or deserialized) status is equal, but not necessarily identical.
+        if self._status != CLOSED:
             raise ValueError(f"{fn.__name__} cannot be used while the Graph is still being defined")
         return fn(self, *args, **kwargs)
 
-- 
2.43.0


From 6a47a4338c369283f62697a57d59f964722d0aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:38 +0000
Subject: [PATCH 36/42] fix: rehash a frozendict when it is unpickled

---
 src/arti/internal/mappings.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arti/internal/mappings.py b/src/arti/internal/mappings.py
index dfe8019..afaf12a 100644
--- a/src/arti/internal/mappings.py
+++ b/src/arti/internal/mappings.py
@@ -33,6 +33,10 @@ class frozendict[K, V](Mapping[K, V]):
     def __or__(self, other: Mapping[K, V]) -> frozendict[K, V]:
         return type(self)({**self, **other})
 
+    def __reduce__(self) -> Any:
+        # The hash (eg: of strings) may vary by process, so it must be recomputed upon unpickling.
+        return type(self), (self._data,)
+
     def __ror__(self, other: Mapping[K, V]) -> frozendict[K, V]:
         return type(self)({**other, **self})
 
-- 
2.43.0


From d654a460a7d8ee7391179c2cf1908c708a51d900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:18 +0000
Subject: [PATCH 37/42] fix: support pickling and comparing Graphs and
 snapshots of a used MemoryBackend

---
 src/arti/backends/memory.py | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/arti/backends/memory.py b/src/arti/backends/memory.py
index 5d808f5..7abbe94 100644
--- a/src/arti/backends/memory.py
+++ b/src/arti/backends/memory.py
@@ -24,8 +24,8 @@ from arti.internal.utils import NoCopyMixin
 _Graphs = dict[str, dict[Fingerprint, Graph]]
 _GraphSnapshots = dict[str, dict[Fingerprint, GraphSnapshot]]
 _GraphSnapshotPartitions = dict[
-    GraphSnapshot, dict[str, set[StoragePartitionSnapshot]]
-]  # ...[snapshot][artifact_key]
+    Fingerprint, dict[str, set[StoragePartitionSnapshot]]
+]  # ...[snapshot.fingerprint][artifact_key]
 _SnapshotTags = dict[str, dict[str, GraphSnapshot]]  # ...[name][tag]
 _StoragePartitions = dict[Storage, set[StoragePartitionSnapshot]]
 
@@ -49,6 +49,9 @@ class _NoCopyContainer(NoCopyMixin):
         # `container.snapshot_partitions` tracks all the partitions for a *specific* GraphSnapshot.
         # `container.storage_partitions` tracks all partitions, across all snapshots. This
         # separation is important to allow for Literals to be used even after a snapshot change.
+        #
+        # NOTE: The keys must not refer back to this container (as the GraphSnapshots do), otherwise
+        # they'd be hashed before they are complete upon unpickling.
         self.snapshot_partitions: _GraphSnapshotPartitions = defaultdict(
             partial(defaultdict, set[StoragePartitionSnapshot])
         )
@@ -56,7 +59,27 @@ class _NoCopyContainer(NoCopyMixin):
         self.storage_partitions: _StoragePartitions = defaultdict(set[StoragePartitionSnapshot])
 
     def __eq__(self, other: object, /) -> bool:
-        return isinstance(other, _NoCopyContainer) and vars(self) == vars(other)
+        return isinstance(other, _NoCopyContainer) and self._contents == other._contents
+
+    @property
+    def _contents(self) -> tuple[object, ...]:
+        # The Graphs and GraphSnapshots refer back to this container, so they can't be compared (nor
+        # hashed) as part of it - but are identified by their fingerprints.
+        return (
+            {(name, fingerprint) for name, graphs in self.graphs.items() for fingerprint in graphs},
+            {
+                (name, fingerprint)
+                for name, snapshots in self.snapshots.items()
+                for fingerprint in snapshots
+            },
+            {
+                (name, tag): snapshot.fingerprint
+                for name, tags in self.snapshot_tags.items()
+                for tag, snapshot in tags.items()
+            },
+            self.snapshot_partitions,
+            self.storage_partitions,
+        )
 
 
 class MemoryConnection(BackendConnection):
@@ -124,7 +147,7 @@ class MemoryConnection(BackendConnection):
     def read_snapshot_partitions(
         self, snapshot: GraphSnapshot, artifact_key: str, artifact: Artifact
     ) -> StoragePartitionSnapshots:
-        return tuple(self.container.snapshot_partitions[snapshot][artifact_key])
+        return tuple(self.container.snapshot_partitions[snapshot.fingerprint][artifact_key])
 
     def write_snapshot_partitions(
         self,
@@ -133,7 +156,7 @@ class MemoryConnection(BackendConnection):
         artifact: Artifact,
         partitions: StoragePartitionSnapshots,
     ) -> None:
-        self.container.snapshot_partitions[snapshot][artifact_key].update(partitions)
+        self.container.snapshot_partitions[snapshot.fingerprint][artifact_key].update(partitions)
 
 
 class MemoryBackend(Backend[MemoryConnection]):
-- 
2.43.0


From e4b1b39096a13d57f2ba0e0226f55d56522246bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:57 +0000
Subject: [PATCH 38/42] fix: snapshot through the connection given to
 Graph.read

---
 src/arti/graphs/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index c21efa0..fa67bdb 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -251,7 +251,7 @@ class Graph(Model):
                 # only want to return the current values.
                 storage_partition_snapshots = artifact.storage.discover_partitions()
             else:
-                snapshot = snapshot or self.snapshot()
+                snapshot = snapshot or self.snapshot(connection=connection)
                 with (connection or self.backend).connect() as conn:
                     storage_partition_snapshots = conn.read_snapshot_partitions(
                         snapshot, key, artifact
-- 
2.43.0


From baf3a037587a9607b6e27dede950a9b7675fcc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:24 +0000
Subject: [PATCH 39/42] fix: replace the recorded contents of a produced
 partition that is built again

---
 src/arti/backends/memory.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/arti/backends/memory.py b/src/arti/backends/memory.py
index 7abbe94..beffa46 100644
--- a/src/arti/backends/memory.py
+++ b/src/arti/backends/memory.py
@@ -82,6 +82,23 @@ class _NoCopyContainer(NoCopyMixin):
         )
 
 
+def _update(known: set[StoragePartitionSnapshot], partitions: StoragePartitionSnapshots) -> None:
+    # A produced partition may be written again with other contents (eg: when re-running an interrupted
+    # build), which replaces the prior ones.
+    written = {
+        (partition.partition_key, partition.input_fingerprint)
+        for partition in partitions
+        if partition.input_fingerprint is not None
+    }
+    if written:
+        known -= {
+            partition
+            for partition in known
+            if (partition.partition_key, partition.input_fingerprint) in written
+        }
+    known.update(partitions)
+
+
 class MemoryConnection(BackendConnection):
     def __init__(self, container: _NoCopyContainer) -> None:
         self.container = container
@@ -113,7 +130,7 @@ class MemoryConnection(BackendConnection):
     def write_artifact_partitions(
         self, artifact: Artifact, partitions: StoragePartitionSnapshots
     ) -> None:
-        self.container.storage_partitions[artifact.storage].update(partitions)
+        _update(self.container.storage_partitions[artifact.storage], partitions)
 
     def read_graph(self, name: str, fingerprint: Fingerprint) -> Graph:
         return self.container.graphs[name][fingerprint]
@@ -156,7 +173,7 @@ class MemoryConnection(BackendConnection):
         artifact: Artifact,
         partitions: StoragePartitionSnapshots,
     ) -> None:
-        self.container.snapshot_partitions[snapshot.fingerprint][artifact_key].update(partitions)
+        _update(self.container.snapshot_partitions[snapshot.fingerprint][artifact_key], partitions)
 
 
 class MemoryBackend(Backend[MemoryConnection]):
-- 
2.43.0


From 361283d0b81e5c5991371f1bd3aabb9e7c508ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:50 +0000
Subject: [PATCH 40/42] fix: tuples of any length are not subclasses of those
 with a fixed length

---
 src/arti/internal/type_hints.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/arti/internal/type_hints.py b/src/arti/internal/type_hints.py
index 0f88cb6..dfc4159 100644
--- a/src/arti/internal/type_hints.py
+++ b/src/arti/internal/type_hints.py
@@ -37,10 +37,13 @@ def assert_all_instances(values: Iterable[Any], *, type: type[_T]) -> Iterable[_
 def _check_issubclass_arg(klass_arg: Any, check_type_arg: Any) -> bool:
     klass_arg, check_type_arg = _unwrap_hint(klass_arg), _unwrap_hint(check_type_arg)
     # check things like "..." and Literals OR subclass
-    if klass_arg == check_type_arg or check_type_arg is Any:
+    if klass_arg == check_type_arg:
         return True
-    if check_type_arg is ...:
+    # NOTE: "..." isn't a type - tuples of any length don't fit one of a fixed length (even of Any).
+    if klass_arg is ... or check_type_arg is ...:
         return False
+    if check_type_arg is Any:
+        return True
     if is_union_hint(klass_arg):
         return all(_check_issubclass_arg(arg, check_type_arg) for arg in get_args(klass_arg))
     if is_union_hint(check_type_arg):
-- 
2.43.0


From 4660aaabd396c41f1feaca0f7f68f4b9e4f4151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:18 +0000
Subject: [PATCH 41/42] fix: a producer decorator used for several functions
 doesn't give them all one name

The name of the first function was kept for all others, so that the classes shared one type key.
---
 src/arti/producers/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/arti/producers/__init__.py b/src/arti/producers/__init__.py
index 6138d81..9c8a1bf 100644
--- a/src/arti/producers/__init__.py
+++ b/src/arti/producers/__init__.py
@@ -435,11 +435,10 @@ def producer(
     version: Version | None = None,
 ) -> Callable[[BuildSig], type[Producer]]:
     def decorate(build: BuildSig) -> type[Producer]:
-        nonlocal name
-        name = build.__name__ if name is None else name
+        producer_name = build.__name__ if name is None else name
         __annotations__: dict[str, Any] = {}
         for param in signature(build).parameters.values():
-            with wrap_exc(ValueError, prefix=f"{name} {param.name} param"):
+            with wrap_exc(ValueError, prefix=f"{producer_name} {param.name} param"):
                 view = View.from_annotation(param.annotation, mode="READ")
                 __annotations__[param.name] = view.artifact_class
         # If overriding, set an explicit "annotations" hint until [1] is released.
@@ -450,7 +449,7 @@ def producer(
         if version:
             __annotations__["version"] = Version
         return type(
-            name,
+            producer_name,
             (Producer,),
             {
                 k: v
-- 
2.43.0


From c30a2a53c70569b9ebac09be8fc7c443c7a5eb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:24 +0000
Subject: [PATCH 42/42] fix: the producer decorator accepts an empty tuple of
 annotations

---
 src/arti/producers/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arti/producers/__init__.py b/src/arti/producers/__init__.py
index 9c8a1bf..1937d09 100644
--- a/src/arti/producers/__init__.py
+++ b/src/arti/producers/__init__.py
@@ -444,7 +444,7 @@ def producer(
         # If overriding, set an explicit "annotations" hint until [1] is released.
         #
         # 1: https://github.com/samuelcolvin/pydantic/pull/3018
-        if annotations:
+        if annotations is not None:
             __annotations__["annotations"] = tuple[Annotation, ...]
         if version:
             __annotations__["version"] = Version
-- 
2.43.0

