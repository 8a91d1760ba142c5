From 80e226223e65930d2bfb782d4ae46220b54cabfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 01/12] fix: reject a trailing newline in extension names,
 patterned keys, emails and the version

'$' with re.match also matches before a final newline; use fullmatch.
---
 asyncapi3/models/asyncapi.py    | 2 +-
 asyncapi3/models/base_models.py | 2 +-
 asyncapi3/models/helpers.py     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/asyncapi3/models/asyncapi.py b/asyncapi3/models/asyncapi.py
index eb0ab07..cf21614 100644
--- a/asyncapi3/models/asyncapi.py
+++ b/asyncapi3/models/asyncapi.py
@@ -258,7 +258,7 @@ class AsyncAPI3(ExtendableBaseModel):
         """Validate AsyncAPI version format (semantic versioning) and compatibility."""
         # Pattern for semantic versioning: major.minor.patch[-suffix]
         pattern = r"^\d+\.\d+\.\d+(-[\w\.\-]+)?$"
-        if not re.match(pattern, version):
+        if not re.fullmatch(pattern, version):
             raise ValueError(
                 "asyncapi must be in semantic versioning format: "
                 "major.minor.patch[-suffix]"
diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index 25b3b60..557fa6f 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -45,7 +45,7 @@ class ExtendableBaseModel(BaseModel):
 
         extension_pattern = re.compile(r"^x-[\w\d\.\x2d_]+$")
         for key in self.model_extra:
-            if not extension_pattern.match(key):
+            if not extension_pattern.fullmatch(key):
                 raise ValueError(
                     f"Field '{key}' does not match specification extension pattern. "
                     f"Extensions must start with 'x-' and contain only word "
diff --git a/asyncapi3/models/helpers.py b/asyncapi3/models/helpers.py
index cca26d9..704c6f0 100644
--- a/asyncapi3/models/helpers.py
+++ b/asyncapi3/models/helpers.py
@@ -31,7 +31,7 @@ def validate_patterned_key(key: str | Any, object_name: str = "object") -> None:
     """
     pattern = re.compile(r"^[A-Za-z0-9_\-]+$")
     try:
-        if not pattern.match(key):
+        if not pattern.fullmatch(key):
             raise ValueError(
                 f"Field '{key}' does not match patterned object key pattern. "
                 "Keys must contain letters, digits, hyphens, and underscores."
@@ -54,7 +54,7 @@ class EmailStr(str):
         """Validate email format and return EmailStr instance."""
         # Email regex pattern that rejects consecutive dots
         pattern = r"^(?!.*\.\.)[a-zA-Z0-9._%+-]+@[a-zA-Z0-9.-]+\.[a-zA-Z]{2,}$"
-        if not re.match(pattern, value):
+        if not re.fullmatch(pattern, value):
             raise ValueError("Invalid email format")
         return value
 
-- 
2.43.0


From ae0f2a2a184d51e4c3314905ca92e692db4544e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 02/12] fix: accept only ASCII digits in the asyncapi version

---
 asyncapi3/models/asyncapi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncapi3/models/asyncapi.py b/asyncapi3/models/asyncapi.py
index cf21614..d8e6608 100644
--- a/asyncapi3/models/asyncapi.py
+++ b/asyncapi3/models/asyncapi.py
@@ -257,7 +257,7 @@ class AsyncAPI3(ExtendableBaseModel):
     def validate_asyncapi_version(cls, version: str) -> str:
         """Validate AsyncAPI version format (semantic versioning) and compatibility."""
         # Pattern for semantic versioning: major.minor.patch[-suffix]
-        pattern = r"^\d+\.\d+\.\d+(-[\w\.\-]+)?$"
+        pattern = r"^[0-9]+\.[0-9]+\.[0-9]+(-[\w\.\-]+)?$"
         if not re.fullmatch(pattern, version):
             raise ValueError(
                 "asyncapi must be in semantic versioning format: "
-- 
2.43.0


From 1521de6bb084eca8f47f1c442808b8dbeaae32c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 03/12] fix: strip only the leading components prefix of tag
 and externalDocs references

---
 asyncapi3/validators/external_docs_ref_validator.py | 2 +-
 asyncapi3/validators/tags_ref_validator.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/asyncapi3/validators/external_docs_ref_validator.py b/asyncapi3/validators/external_docs_ref_validator.py
index f186821..60e190b 100644
--- a/asyncapi3/validators/external_docs_ref_validator.py
+++ b/asyncapi3/validators/external_docs_ref_validator.py
@@ -524,7 +524,7 @@ class ExternalDocsRefValidator(ProcessorProtocol):
                 "but points elsewhere."
             )
 
-        doc_key = ref_value.replace("#/components/externalDocs/", "")
+        doc_key = ref_value.removeprefix("#/components/externalDocs/")
         if (
             not spec.components
             or not spec.components.external_docs
diff --git a/asyncapi3/validators/tags_ref_validator.py b/asyncapi3/validators/tags_ref_validator.py
index 9ee30b9..61032c5 100644
--- a/asyncapi3/validators/tags_ref_validator.py
+++ b/asyncapi3/validators/tags_ref_validator.py
@@ -281,7 +281,7 @@ class TagsRefValidator(ProcessorProtocol):
                 "#/components/tags/ but points elsewhere."
             )
 
-        tag_key = ref_value.replace("#/components/tags/", "")
+        tag_key = ref_value.removeprefix("#/components/tags/")
         if (
             not spec.components
             or not spec.components.tags
-- 
2.43.0


From b2d18c3f2dc9da4d1c14322e10fe63e001beabb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 04/12] fix: never take a mapping key for a field name when
 typing a reference location

A message, channel, server, ... keyed e.g. 'reply', 'tags' or 'root' was matched
against the field-name patterns of REFERENCE_TYPE_MAPPINGS, so valid references
were rejected and wrongly typed ones accepted.
---
 asyncapi3/validators/unified_references_validator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncapi3/validators/unified_references_validator.py b/asyncapi3/validators/unified_references_validator.py
index 747c514..20afd88 100644
--- a/asyncapi3/validators/unified_references_validator.py
+++ b/asyncapi3/validators/unified_references_validator.py
@@ -327,7 +327,9 @@ class UnifiedReferencesValidator(ProcessorProtocol):
             self.validate_references_recursive(
                 spec=spec,
                 obj=value,
-                current_path=f"{current_path}.{escaped_key}",
+                # Quoted, so that a key can never be taken for a field name
+                # (e.g. a message called "reply" or "root").
+                current_path=f'{current_path}."{escaped_key}"',
                 validated_refs=validated_refs,
                 visited_objects=visited_objects,
             )
-- 
2.43.0


From d00850029ac4b66a6e6008d8796c53068304db13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 05/12] fix: validate the key and value assigned into a
 patterned object

---
 asyncapi3/models/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index 557fa6f..d831f73 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -94,7 +94,7 @@ class PatternedRootModel(RootModel[dict[str, T]], Generic[T]):
         return self.root[item]
 
     def __setitem__(self, key: str, value: T) -> None:
-        self.root[key] = value
+        self.root[key] = type(self)({key: value}).root[key]
 
     def __delitem__(self, key: str) -> None:
         del self.root[key]
-- 
2.43.0


From c52643d16b9a603a8fcfb7f967f138a748ba7dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 06/12] fix: leave an instance unchanged when an assignment is
 rejected

---
 asyncapi3/models/base_models.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index d831f73..0d487f1 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -5,7 +5,7 @@ __all__ = ["ExtendableBaseModel", "NonExtendableBaseModel", "PatternedRootModel"
 import re
 
 from collections.abc import Iterator
-from typing import Generic, TypeVar
+from typing import Any, Generic, TypeVar
 
 from pydantic import BaseModel, ConfigDict, RootModel, model_validator
 
@@ -14,7 +14,29 @@ from asyncapi3.models.helpers import validate_patterned_key
 T = TypeVar("T")
 
 
-class ExtendableBaseModel(BaseModel):
+class _AtomicAssignmentMixin(BaseModel):
+    """
+    Keep an instance unchanged when an assignment is rejected.
+
+    With `validate_assignment` pydantic stores the new value before it runs the
+    "after" model validators, so a value they reject would stay in the instance.
+    """
+
+    def __setattr__(self, name: str, value: Any) -> None:
+        fields = dict(self.__dict__)
+        extra = None if self.model_extra is None else dict(self.model_extra)
+        fields_set = set(self.model_fields_set)
+        try:
+            super().__setattr__(name, value)
+        except Exception:
+            object.__setattr__(self, "__dict__", fields)
+            if extra is not None:
+                object.__setattr__(self, "__pydantic_extra__", extra)
+            object.__setattr__(self, "__pydantic_fields_set__", fields_set)
+            raise
+
+
+class ExtendableBaseModel(_AtomicAssignmentMixin):
     """
     Base model that allows specification extensions.
 
@@ -54,7 +76,7 @@ class ExtendableBaseModel(BaseModel):
         return self
 
 
-class NonExtendableBaseModel(BaseModel):
+class NonExtendableBaseModel(_AtomicAssignmentMixin):
     """
     Base model that does not allow specification extensions or extra fields.
 
@@ -71,7 +93,7 @@ class NonExtendableBaseModel(BaseModel):
     )
 
 
-class PatternedRootModel(RootModel[dict[str, T]], Generic[T]):
+class PatternedRootModel(_AtomicAssignmentMixin, RootModel[dict[str, T]], Generic[T]):
     """
     Base class for AsyncAPI patterned objects that validate key patterns.
 
-- 
2.43.0


From 642ad7672bbac9bc313a2f6481bc540c4623895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 07/12] fix: validate tag references in inline operation and
 message traits

docs/extra_validators/references.md lists these fields as verified by
TagsRefValidator; they were skipped.
---
 asyncapi3/validators/tags_ref_validator.py | 42 ++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/asyncapi3/validators/tags_ref_validator.py b/asyncapi3/validators/tags_ref_validator.py
index 61032c5..e3721b9 100644
--- a/asyncapi3/validators/tags_ref_validator.py
+++ b/asyncapi3/validators/tags_ref_validator.py
@@ -58,6 +58,7 @@ class TagsRefValidator(ProcessorProtocol):
         self.validate_components_message_traits_tags_refs(spec)
         self.validate_components_channels_messages_tags_refs(spec)
         self.validate_components_tags_refs(spec)
+        self.validate_traits_tags_refs(spec)
 
         return spec
 
@@ -205,6 +206,47 @@ class TagsRefValidator(ProcessorProtocol):
             if isinstance(tag, Reference):
                 self.validate_tag_ref(spec, tag, f"components tag '{tag_name}'")
 
+    def validate_traits_tags_refs(self, spec: AsyncAPI3) -> None:
+        """Validate tag references in inline traits of operations and messages."""
+        for prefix, owner in (("", spec), ("components ", spec.components)):
+            if not owner:
+                continue
+            if owner.operations:
+                self._validate_traits_tags_in_collection(
+                    spec, owner.operations.root, f"{prefix}operation"
+                )
+            if not owner.channels:
+                continue
+            for channel_name, channel in owner.channels.root.items():
+                if isinstance(channel, Reference) or not channel.messages:
+                    continue
+                self._validate_traits_tags_in_collection(
+                    spec,
+                    channel.messages.root,
+                    f"{prefix}channel '{channel_name}' message",
+                )
+        if spec.components and spec.components.messages:
+            self._validate_traits_tags_in_collection(
+                spec, spec.components.messages.root, "components message"
+            )
+
+    def _validate_traits_tags_in_collection(
+        self,
+        spec: AsyncAPI3,
+        objects: dict[str, Any],
+        context: str,
+    ) -> None:
+        """Validate tags of the inline traits in a collection of objects."""
+        for object_name, obj in objects.items():
+            if isinstance(obj, Reference) or not obj.traits:
+                continue
+            for trait_idx, trait in enumerate(obj.traits):
+                if isinstance(trait, Reference) or not trait.tags:
+                    continue
+                self._validate_tags_list(
+                    spec, trait.tags, f"{context} '{object_name}' trait {trait_idx}"
+                )
+
     def validate_tag_ref(
         self,
         spec: AsyncAPI3,
-- 
2.43.0


From ec79f9ad9c0bf41cc50cde072a1c189be939e15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 08/12] fix: validate externalDocs references nested in
 components channels and traits

docs/extra_validators/references.md lists these fields as verified by
ExternalDocsRefValidator; they were skipped.
---
 .../validators/external_docs_ref_validator.py | 47 +++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/asyncapi3/validators/external_docs_ref_validator.py b/asyncapi3/validators/external_docs_ref_validator.py
index 60e190b..27e24c5 100644
--- a/asyncapi3/validators/external_docs_ref_validator.py
+++ b/asyncapi3/validators/external_docs_ref_validator.py
@@ -70,6 +70,10 @@ class ExternalDocsRefValidator(ProcessorProtocol):
         # Validate schemas (separate as they have special handling)
         self.validate_components_schemas_external_docs_refs(spec)
 
+        # Validate objects nested in components
+        self.validate_components_channels_messages_external_docs_refs(spec)
+        self.validate_components_traits_external_docs_refs(spec)
+
         return spec
 
     def validate_info_external_docs_ref(self, spec: AsyncAPI3) -> None:
@@ -432,6 +436,49 @@ class ExternalDocsRefValidator(ProcessorProtocol):
             if hasattr(schema, "external_docs"):
                 self._validate_ref_field(spec, schema, f"schema '{name}'")
 
+    def validate_components_channels_messages_external_docs_refs(
+        self, spec: AsyncAPI3
+    ) -> None:
+        """Validate externalDocs in messages within components channels."""
+        if not spec.components or not spec.components.channels:
+            return
+        for channel_name, channel in spec.components.channels.root.items():
+            if isinstance(channel, Reference) or not channel.messages:
+                continue
+            messages = channel.messages.root
+            context = f"components channel '{channel_name}'"
+            self._validate_external_docs_collection(messages, spec, "message", context)
+            self._validate_traits_external_docs_refs(messages, spec, context)
+
+    def validate_components_traits_external_docs_refs(self, spec: AsyncAPI3) -> None:
+        """Validate externalDocs in inline traits of components objects."""
+        if not spec.components:
+            return
+        for collection in (spec.components.operations, spec.components.messages):
+            if collection:
+                self._validate_traits_external_docs_refs(
+                    collection.root, spec, "components"
+                )
+
+    def _validate_traits_external_docs_refs(
+        self,
+        collection: dict[str, Any],
+        spec: AsyncAPI3,
+        context: str,
+    ) -> None:
+        """Validate externalDocs of the inline traits in a collection of objects."""
+        for name, item in collection.items():
+            if isinstance(item, Reference) or not item.traits:
+                continue
+            for trait_idx, trait in enumerate(item.traits):
+                if isinstance(trait, Reference):
+                    continue
+                trait_context = f"trait {trait_idx} of '{name}' in {context}"
+                self._validate_ref_field(spec, trait, trait_context)
+                self._validate_tags_external_docs_refs(
+                    spec, trait.tags or [], trait_context
+                )
+
     def _validate_ref_field(
         self,
         spec: AsyncAPI3,
-- 
2.43.0


From 9c6504c1b1dc005e3f7526c0468f455b10da152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 09/12] fix: references into a schema that has a member called
 root

_has_root_mapping took every object with a dict attribute "root" for a patterned map, so
none of the declared members of a Schema with an undeclared member "root" could be
referenced.
---
 asyncapi3/validators/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asyncapi3/validators/utils.py b/asyncapi3/validators/utils.py
index ead7b3d..0986fae 100644
--- a/asyncapi3/validators/utils.py
+++ b/asyncapi3/validators/utils.py
@@ -8,7 +8,7 @@ import logging
 
 from typing import TYPE_CHECKING, Any, NamedTuple
 
-from pydantic import BaseModel
+from pydantic import BaseModel, RootModel
 
 from asyncapi3.models.base import Reference
 
@@ -158,6 +158,9 @@ def _resolve_path_part(
 
 def _has_root_mapping(obj: Any) -> bool:
     """Return True when object has a root dict for navigation."""
+    if isinstance(obj, BaseModel) and not isinstance(obj, RootModel):
+        # "root" is an undeclared member here (e.g. of a schema), not the mapping
+        return False
     return hasattr(obj, "root") and isinstance(obj.root, dict)
 
 
-- 
2.43.0


From da9bf2932befb40c29eb2bdbcc10c73981920204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 10/12] fix: a reference to a null map entry does not resolve

_resolve_from_model rejects a null segment; _resolve_from_dict returned None as the resolved
object.
---
 asyncapi3/validators/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asyncapi3/validators/utils.py b/asyncapi3/validators/utils.py
index 0986fae..6cc269f 100644
--- a/asyncapi3/validators/utils.py
+++ b/asyncapi3/validators/utils.py
@@ -210,4 +210,6 @@ def _resolve_from_dict(
     if part not in current_obj:
         raise ValueError(f"Reference key '{part}' not found in {full_path}")
     next_obj = current_obj[part]
+    if next_obj is None:
+        raise ValueError(f"Reference path '{full_path}' is None")
     return next_obj, type(next_obj)
-- 
2.43.0


From 5787e20ff1c26de71af868a8878e5e66bea14a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:24 +0000
Subject: [PATCH 11/12] fix: resolve reference chains longer than the recursion
 limit

resolve_reference recursed once per link, so a chain of about a thousand references raised
RecursionError instead of resolving.
---
 asyncapi3/validators/utils.py | 55 +++++++++++++++++------------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/asyncapi3/validators/utils.py b/asyncapi3/validators/utils.py
index 6cc269f..2cc823c 100644
--- a/asyncapi3/validators/utils.py
+++ b/asyncapi3/validators/utils.py
@@ -46,35 +46,32 @@ def resolve_reference(
     Raises:
         ValueError: If reference format is unsupported, circular, or resolution fails
     """
-    visited_refs = _initialize_visited_refs(ref=ref, visited_refs=visited_refs)
-
-    if _is_external_reference(ref=ref):
-        logger.warning("External reference '%s' cannot be validated locally", ref)
-        return None
-
-    path_parts = _parse_reference_path(ref=ref)
-
-    try:
-        resolved_object, resolved_type, full_path = _resolve_path_parts(
-            spec=spec,
-            path_parts=path_parts,
-        )
-    except AttributeError as exc:
-        raise ValueError(f"Failed to resolve reference '{ref}': {exc}") from exc
-
-    if isinstance(resolved_object, Reference):
-        next_ref = resolved_object.ref
-        return resolve_reference(
-            ref=next_ref,
-            spec=spec,
-            visited_refs=visited_refs,
-        )
-
-    return ReferenceResolutionResult(
-        resolved_object=resolved_object,
-        resolved_type=resolved_type,
-        path=full_path,
-    )
+    # A loop, not recursion: a chain may be longer than the recursion limit
+    while True:
+        visited_refs = _initialize_visited_refs(ref=ref, visited_refs=visited_refs)
+
+        if _is_external_reference(ref=ref):
+            logger.warning("External reference '%s' cannot be validated locally", ref)
+            return None
+
+        path_parts = _parse_reference_path(ref=ref)
+
+        try:
+            resolved_object, resolved_type, full_path = _resolve_path_parts(
+                spec=spec,
+                path_parts=path_parts,
+            )
+        except AttributeError as exc:
+            raise ValueError(f"Failed to resolve reference '{ref}': {exc}") from exc
+
+        if not isinstance(resolved_object, Reference):
+            return ReferenceResolutionResult(
+                resolved_object=resolved_object,
+                resolved_type=resolved_type,
+                path=full_path,
+            )
+
+        ref = resolved_object.ref
 
 
 def _initialize_visited_refs(
-- 
2.43.0


From 700a3a54f65a43d0d6d6bd3d0c22396653ec15d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:43 +0000
Subject: [PATCH 12/12] fix: expect the right kinds for references inside
 inline traits

---
 asyncapi3/validators/unified_references_validator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asyncapi3/validators/unified_references_validator.py b/asyncapi3/validators/unified_references_validator.py
index 20afd88..568b05b 100644
--- a/asyncapi3/validators/unified_references_validator.py
+++ b/asyncapi3/validators/unified_references_validator.py
@@ -53,8 +53,11 @@ REFERENCE_TYPE_MAPPINGS = {
     "**.channels.*.bindings": ChannelBindingsObject,
     "**.correlation_id": CorrelationID,
     "**.correlation_ids.*": CorrelationID,
+    "**.messages.*.traits.correlation_id": CorrelationID,
     "**.external_docs": ExternalDocumentation,
     "**.external_docs.*": ExternalDocumentation,
+    "**.messages.*.traits.external_docs": ExternalDocumentation,
+    "**.operations.*.traits.external_docs": ExternalDocumentation,
     "**.messages": Message,
     "**.messages.*": Message,
     "**.reply.messages": Message,
@@ -115,6 +118,7 @@ REFERENCE_TYPE_MAPPINGS = {
     "**.security": SecurityScheme,
     "**.security.*": SecurityScheme,
     "**.security_schemes.*": SecurityScheme,
+    "**.operations.*.traits.security": SecurityScheme,
     "**.servers": Server,
     "**.servers.*": Server,
     "**.server_bindings.*": ServerBindingsObject,
@@ -123,6 +127,8 @@ REFERENCE_TYPE_MAPPINGS = {
     "**.servers.*.variables.*": ServerVariable,
     "**.tags": Tag,
     "**.tags.*": Tag,
+    "**.messages.*.traits.tags": Tag,
+    "**.operations.*.traits.tags": Tag,
 }
 
 
-- 
2.43.0

