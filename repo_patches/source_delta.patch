From babe9ea2344796544d24ba76b7b48ec407d20060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:23 +0000
Subject: [PATCH 01/19] fix: reject patterned object keys that end with a
 newline

---
 asyncapi3/models/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncapi3/models/helpers.py b/asyncapi3/models/helpers.py
index cca26d9..438c236 100644
--- a/asyncapi3/models/helpers.py
+++ b/asyncapi3/models/helpers.py
@@ -31,7 +31,7 @@ def validate_patterned_key(key: str | Any, object_name: str = "object") -> None:
     """
     pattern = re.compile(r"^[A-Za-z0-9_\-]+$")
     try:
-        if not pattern.match(key):
+        if not pattern.fullmatch(key):
             raise ValueError(
                 f"Field '{key}' does not match patterned object key pattern. "
                 "Keys must contain letters, digits, hyphens, and underscores."
-- 
2.43.0


From ec763d500b53bab1753d090561821cb61de3ccf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:29 +0000
Subject: [PATCH 02/19] fix: reject specification extension names that end with
 a newline

---
 asyncapi3/models/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index 25b3b60..557fa6f 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -45,7 +45,7 @@ class ExtendableBaseModel(BaseModel):
 
         extension_pattern = re.compile(r"^x-[\w\d\.\x2d_]+$")
         for key in self.model_extra:
-            if not extension_pattern.match(key):
+            if not extension_pattern.fullmatch(key):
                 raise ValueError(
                     f"Field '{key}' does not match specification extension pattern. "
                     f"Extensions must start with 'x-' and contain only word "
-- 
2.43.0


From 55ae34a9cf0e330b31b08c75de08195175c712b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 03/19] fix: reject e-mail addresses that end with a newline

---
 asyncapi3/models/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncapi3/models/helpers.py b/asyncapi3/models/helpers.py
index 438c236..704c6f0 100644
--- a/asyncapi3/models/helpers.py
+++ b/asyncapi3/models/helpers.py
@@ -54,7 +54,7 @@ class EmailStr(str):
         """Validate email format and return EmailStr instance."""
         # Email regex pattern that rejects consecutive dots
         pattern = r"^(?!.*\.\.)[a-zA-Z0-9._%+-]+@[a-zA-Z0-9.-]+\.[a-zA-Z]{2,}$"
-        if not re.match(pattern, value):
+        if not re.fullmatch(pattern, value):
             raise ValueError("Invalid email format")
         return value
 
-- 
2.43.0


From 4b94be777ffa8181a018576aaeb2f03d68ed0914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 04/19] fix: reject asyncapi versions with a trailing newline
 or non-ASCII digits

---
 asyncapi3/models/asyncapi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncapi3/models/asyncapi.py b/asyncapi3/models/asyncapi.py
index eb0ab07..c7abd78 100644
--- a/asyncapi3/models/asyncapi.py
+++ b/asyncapi3/models/asyncapi.py
@@ -258,7 +258,7 @@ class AsyncAPI3(ExtendableBaseModel):
         """Validate AsyncAPI version format (semantic versioning) and compatibility."""
         # Pattern for semantic versioning: major.minor.patch[-suffix]
         pattern = r"^\d+\.\d+\.\d+(-[\w\.\-]+)?$"
-        if not re.match(pattern, version):
+        if not re.fullmatch(pattern, version, re.ASCII):
             raise ValueError(
                 "asyncapi must be in semantic versioning format: "
                 "major.minor.patch[-suffix]"
-- 
2.43.0


From 35bef72e4aa5810d5ba6ae7e92e5599761e3e4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 05/19] fix: validate keys and values set through the mapping
 interface of patterned objects

---
 asyncapi3/models/base_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index 557fa6f..19de43e 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -94,7 +94,8 @@ class PatternedRootModel(RootModel[dict[str, T]], Generic[T]):
         return self.root[item]
 
     def __setitem__(self, key: str, value: T) -> None:
-        self.root[key] = value
+        validated = self.__class__.model_validate({key: value})
+        self.root[key] = validated.root[key]
 
     def __delitem__(self, key: str) -> None:
         del self.root[key]
-- 
2.43.0


From 8c90d72e39ef26e23fa67bd2dd8fcc8ffa686c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 06/19] fix: leave a model unchanged when a model validator
 rejects an assignment

---
 asyncapi3/models/base_models.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index 19de43e..fe0a720 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -5,7 +5,7 @@ __all__ = ["ExtendableBaseModel", "NonExtendableBaseModel", "PatternedRootModel"
 import re
 
 from collections.abc import Iterator
-from typing import Generic, TypeVar
+from typing import Any, Generic, TypeVar
 
 from pydantic import BaseModel, ConfigDict, RootModel, model_validator
 
@@ -14,7 +14,29 @@ from asyncapi3.models.helpers import validate_patterned_key
 T = TypeVar("T")
 
 
-class ExtendableBaseModel(BaseModel):
+class _AtomicAssignmentMixin:
+    """
+    Mixin that leaves a model unchanged when an assignment is rejected.
+
+    Pydantic stores the assigned value before "after" model validators run, so a value
+    rejected by one of them would otherwise stay in the instance.
+    """
+
+    def __setattr__(self, name: str, value: Any) -> None:
+        fields = dict(self.__dict__)
+        extra = self.__pydantic_extra__
+        extra = None if extra is None else dict(extra)
+        fields_set = set(self.__pydantic_fields_set__)
+        try:
+            super().__setattr__(name, value)
+        except Exception:
+            object.__setattr__(self, "__dict__", fields)
+            object.__setattr__(self, "__pydantic_extra__", extra)
+            object.__setattr__(self, "__pydantic_fields_set__", fields_set)
+            raise
+
+
+class ExtendableBaseModel(_AtomicAssignmentMixin, BaseModel):
     """
     Base model that allows specification extensions.
 
@@ -54,7 +76,7 @@ class ExtendableBaseModel(BaseModel):
         return self
 
 
-class NonExtendableBaseModel(BaseModel):
+class NonExtendableBaseModel(_AtomicAssignmentMixin, BaseModel):
     """
     Base model that does not allow specification extensions or extra fields.
 
@@ -71,7 +93,7 @@ class NonExtendableBaseModel(BaseModel):
     )
 
 
-class PatternedRootModel(RootModel[dict[str, T]], Generic[T]):
+class PatternedRootModel(_AtomicAssignmentMixin, RootModel[dict[str, T]], Generic[T]):
     """
     Base class for AsyncAPI patterned objects that validate key patterns.
 
-- 
2.43.0


From 5d117585732d4212689f4d46c39539e139c677e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 07/19] fix: let extra converters assign fields without
 re-running themselves forever

---
 asyncapi3/models/asyncapi.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/asyncapi3/models/asyncapi.py b/asyncapi3/models/asyncapi.py
index c7abd78..07f4441 100644
--- a/asyncapi3/models/asyncapi.py
+++ b/asyncapi3/models/asyncapi.py
@@ -10,6 +10,7 @@ from pydantic import (
     AnyUrl,
     Field,
     HttpUrl,
+    PrivateAttr,
     field_validator,
     model_validator,
 )
@@ -153,6 +154,8 @@ class AsyncAPI3(ExtendableBaseModel):
         ),
     )
 
+    _processors_running: bool = PrivateAttr(default=False)
+
     @classmethod
     def as_builder(
         cls,
@@ -277,8 +280,16 @@ class AsyncAPI3(ExtendableBaseModel):
     @model_validator(mode="after")
     def run_extra_processors(self) -> "AsyncAPI3":
         """Run all extra processors after model validation."""
-        self._run_extra_converters()
-        self._run_extra_validators()
+        # A processor that assigns a field triggers validation, and so this method,
+        # again: the run in progress already covers that assignment.
+        if self._processors_running:
+            return self
+        self._processors_running = True
+        try:
+            self._run_extra_converters()
+            self._run_extra_validators()
+        finally:
+            self._processors_running = False
         return self
 
     def _run_extra_converters(self) -> None:
-- 
2.43.0


From ce3746378bd7f2db7a6f5504f19f4d7f2f6af71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 08/19] fix: resolve long reference chains without exhausting
 the stack

---
 asyncapi3/validators/utils.py | 54 ++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 29 deletions(-)

diff --git a/asyncapi3/validators/utils.py b/asyncapi3/validators/utils.py
index ead7b3d..e5d2d91 100644
--- a/asyncapi3/validators/utils.py
+++ b/asyncapi3/validators/utils.py
@@ -46,35 +46,31 @@ def resolve_reference(
     Raises:
         ValueError: If reference format is unsupported, circular, or resolution fails
     """
-    visited_refs = _initialize_visited_refs(ref=ref, visited_refs=visited_refs)
-
-    if _is_external_reference(ref=ref):
-        logger.warning("External reference '%s' cannot be validated locally", ref)
-        return None
-
-    path_parts = _parse_reference_path(ref=ref)
-
-    try:
-        resolved_object, resolved_type, full_path = _resolve_path_parts(
-            spec=spec,
-            path_parts=path_parts,
-        )
-    except AttributeError as exc:
-        raise ValueError(f"Failed to resolve reference '{ref}': {exc}") from exc
-
-    if isinstance(resolved_object, Reference):
-        next_ref = resolved_object.ref
-        return resolve_reference(
-            ref=next_ref,
-            spec=spec,
-            visited_refs=visited_refs,
-        )
-
-    return ReferenceResolutionResult(
-        resolved_object=resolved_object,
-        resolved_type=resolved_type,
-        path=full_path,
-    )
+    while True:
+        visited_refs = _initialize_visited_refs(ref=ref, visited_refs=visited_refs)
+
+        if _is_external_reference(ref=ref):
+            logger.warning("External reference '%s' cannot be validated locally", ref)
+            return None
+
+        path_parts = _parse_reference_path(ref=ref)
+
+        try:
+            resolved_object, resolved_type, full_path = _resolve_path_parts(
+                spec=spec,
+                path_parts=path_parts,
+            )
+        except AttributeError as exc:
+            raise ValueError(f"Failed to resolve reference '{ref}': {exc}") from exc
+
+        if not isinstance(resolved_object, Reference):
+            return ReferenceResolutionResult(
+                resolved_object=resolved_object,
+                resolved_type=resolved_type,
+                path=full_path,
+            )
+
+        ref = resolved_object.ref
 
 
 def _initialize_visited_refs(
-- 
2.43.0


From 9ccaafc7d806b479b9166109fd1663abb09b288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 09/19] fix: limit the Solace client name to 160 bytes instead
 of 160 characters

---
 asyncapi3/models/bindings/solace.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/asyncapi3/models/bindings/solace.py b/asyncapi3/models/bindings/solace.py
index 194653f..4831368 100644
--- a/asyncapi3/models/bindings/solace.py
+++ b/asyncapi3/models/bindings/solace.py
@@ -51,6 +51,14 @@ class SolaceServerBindings(NonExtendableBaseModel):
         ),
     )
 
+    @field_validator("client_name")
+    @classmethod
+    def validate_client_name(cls, client_name: str | None) -> str | None:
+        """Validate that the UTF-8 encoded client name is at most 160 bytes long."""
+        if client_name is not None and len(client_name.encode("utf-8")) > 160:
+            raise ValueError("clientName must be at most 160 bytes long in UTF-8")
+        return client_name
+
 
 class SolaceChannelBindings(NonExtendableBaseModel):
     """
-- 
2.43.0


From 49dc76d49d978940733584f3de5629cb22dafb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 10/19] fix: keep map keys apart from field names when typing
 references

---
 asyncapi3/validators/unified_references_validator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncapi3/validators/unified_references_validator.py b/asyncapi3/validators/unified_references_validator.py
index 747c514..116f807 100644
--- a/asyncapi3/validators/unified_references_validator.py
+++ b/asyncapi3/validators/unified_references_validator.py
@@ -324,10 +324,12 @@ class UnifiedReferencesValidator(ProcessorProtocol):
         """Validate references inside a mapping."""
         for key, value in mapping.items():
             escaped_key = self._escape_path_segment(str(key))
+            # Keys are quoted so that a user-chosen name ("tags", "root") can not be
+            # mistaken for the model field of the same name.
             self.validate_references_recursive(
                 spec=spec,
                 obj=value,
-                current_path=f"{current_path}.{escaped_key}",
+                current_path=f"{current_path}.'{escaped_key}'",
                 validated_refs=validated_refs,
                 visited_objects=visited_objects,
             )
-- 
2.43.0


From b9a489c15c7e636b4f47af48a3bab0d418e25bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 11/19] fix: strip only the leading components path from tag
 and external docs references

---
 asyncapi3/validators/external_docs_ref_validator.py | 2 +-
 asyncapi3/validators/tags_ref_validator.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/asyncapi3/validators/external_docs_ref_validator.py b/asyncapi3/validators/external_docs_ref_validator.py
index f186821..60e190b 100644
--- a/asyncapi3/validators/external_docs_ref_validator.py
+++ b/asyncapi3/validators/external_docs_ref_validator.py
@@ -524,7 +524,7 @@ class ExternalDocsRefValidator(ProcessorProtocol):
                 "but points elsewhere."
             )
 
-        doc_key = ref_value.replace("#/components/externalDocs/", "")
+        doc_key = ref_value.removeprefix("#/components/externalDocs/")
         if (
             not spec.components
             or not spec.components.external_docs
diff --git a/asyncapi3/validators/tags_ref_validator.py b/asyncapi3/validators/tags_ref_validator.py
index 9ee30b9..61032c5 100644
--- a/asyncapi3/validators/tags_ref_validator.py
+++ b/asyncapi3/validators/tags_ref_validator.py
@@ -281,7 +281,7 @@ class TagsRefValidator(ProcessorProtocol):
                 "#/components/tags/ but points elsewhere."
             )
 
-        tag_key = ref_value.replace("#/components/tags/", "")
+        tag_key = ref_value.removeprefix("#/components/tags/")
         if (
             not spec.components
             or not spec.components.tags
-- 
2.43.0


From ad38a4805ca68efda320e56742005e5982c21ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 12/19] fix: validate the tag references of operation and
 message traits

---
 asyncapi3/validators/tags_ref_validator.py | 75 ++++++++++++++++++++++
 1 file changed, 75 insertions(+)

diff --git a/asyncapi3/validators/tags_ref_validator.py b/asyncapi3/validators/tags_ref_validator.py
index 61032c5..06b0025 100644
--- a/asyncapi3/validators/tags_ref_validator.py
+++ b/asyncapi3/validators/tags_ref_validator.py
@@ -58,6 +58,11 @@ class TagsRefValidator(ProcessorProtocol):
         self.validate_components_message_traits_tags_refs(spec)
         self.validate_components_channels_messages_tags_refs(spec)
         self.validate_components_tags_refs(spec)
+        self.validate_channels_messages_traits_tags_refs(spec)
+        self.validate_operations_traits_tags_refs(spec)
+        self.validate_components_channels_messages_traits_tags_refs(spec)
+        self.validate_components_operations_traits_tags_refs(spec)
+        self.validate_components_messages_traits_tags_refs(spec)
 
         return spec
 
@@ -87,6 +92,24 @@ class TagsRefValidator(ProcessorProtocol):
                 spec, obj.tags, context_template.format(name=object_name)
             )
 
+    def _validate_traits_tags_in_collection(
+        self,
+        spec: AsyncAPI3,
+        objects: dict[str, Any],
+        context_template: str,
+    ) -> None:
+        """Validate tags in the traits of a collection of objects."""
+        for object_name, obj in objects.items():
+            if isinstance(obj, Reference) or not obj.traits:
+                continue
+            context = context_template.format(name=object_name)
+            for trait_idx, trait in enumerate(obj.traits):
+                if isinstance(trait, Reference) or not trait.tags:
+                    continue
+                self._validate_tags_list(
+                    spec, trait.tags, f"trait {trait_idx} of {context}"
+                )
+
     def validate_info_tags_refs(self, spec: AsyncAPI3) -> None:
         """Validate tag references in info object."""
         if not spec.info or not spec.info.tags:
@@ -205,6 +228,58 @@ class TagsRefValidator(ProcessorProtocol):
             if isinstance(tag, Reference):
                 self.validate_tag_ref(spec, tag, f"components tag '{tag_name}'")
 
+    def validate_channels_messages_traits_tags_refs(self, spec: AsyncAPI3) -> None:
+        """Validate tag references in message traits of root channels."""
+        if not spec.channels:
+            return
+        for channel_name, channel in spec.channels.root.items():
+            if isinstance(channel, Reference) or not channel.messages:
+                continue
+            self._validate_traits_tags_in_collection(
+                spec,
+                channel.messages.root,
+                f"message '{{name}}' in channel '{channel_name}'",
+            )
+
+    def validate_operations_traits_tags_refs(self, spec: AsyncAPI3) -> None:
+        """Validate tag references in traits of root operations."""
+        if not spec.operations:
+            return
+        self._validate_traits_tags_in_collection(
+            spec, spec.operations.root, "operation '{name}'"
+        )
+
+    def validate_components_channels_messages_traits_tags_refs(
+        self, spec: AsyncAPI3
+    ) -> None:
+        """Validate tag references in message traits of components channels."""
+        if not spec.components or not spec.components.channels:
+            return
+        for channel_name, channel in spec.components.channels.root.items():
+            if isinstance(channel, Reference) or not channel.messages:
+                continue
+            self._validate_traits_tags_in_collection(
+                spec,
+                channel.messages.root,
+                f"message '{{name}}' in components channel '{channel_name}'",
+            )
+
+    def validate_components_operations_traits_tags_refs(self, spec: AsyncAPI3) -> None:
+        """Validate tag references in traits of components operations."""
+        if not spec.components or not spec.components.operations:
+            return
+        self._validate_traits_tags_in_collection(
+            spec, spec.components.operations.root, "components operation '{name}'"
+        )
+
+    def validate_components_messages_traits_tags_refs(self, spec: AsyncAPI3) -> None:
+        """Validate tag references in traits of components messages."""
+        if not spec.components or not spec.components.messages:
+            return
+        self._validate_traits_tags_in_collection(
+            spec, spec.components.messages.root, "components message '{name}'"
+        )
+
     def validate_tag_ref(
         self,
         spec: AsyncAPI3,
-- 
2.43.0


From 34cdd74453cae6fc85280d2135bfabe7517125db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 13/19] fix: validate the documented external docs references
 nested in components

---
 .../validators/external_docs_ref_validator.py | 61 +++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/asyncapi3/validators/external_docs_ref_validator.py b/asyncapi3/validators/external_docs_ref_validator.py
index 60e190b..27441bc 100644
--- a/asyncapi3/validators/external_docs_ref_validator.py
+++ b/asyncapi3/validators/external_docs_ref_validator.py
@@ -66,6 +66,9 @@ class ExternalDocsRefValidator(ProcessorProtocol):
         self.validate_components_operation_traits_external_docs_refs(spec)
         self.validate_components_servers_external_docs_refs(spec)
         self.validate_components_tags_external_docs_refs(spec)
+        self.validate_components_channels_messages_external_docs_refs(spec)
+        self.validate_components_messages_traits_external_docs_refs(spec)
+        self.validate_components_operations_traits_external_docs_refs(spec)
 
         # Validate schemas (separate as they have special handling)
         self.validate_components_schemas_external_docs_refs(spec)
@@ -422,6 +425,48 @@ class ExternalDocsRefValidator(ProcessorProtocol):
                     continue
                 self._validate_ref_field(spec, tag, f"tag '{name}'")
 
+    def validate_components_channels_messages_external_docs_refs(
+        self, spec: AsyncAPI3
+    ) -> None:
+        """Validate externalDocs in messages within components channels."""
+        if not spec.components or not spec.components.channels:
+            return
+        for channel_name, channel in spec.components.channels.root.items():
+            if isinstance(channel, Reference) or not channel.messages:
+                continue
+            for msg_name, msg in channel.messages.root.items():
+                if isinstance(msg, Reference):
+                    continue
+                context = f"message '{msg_name}' in components channel '{channel_name}'"
+                self._validate_ref_field(spec, msg, context)
+                self._validate_traits_external_docs_refs(spec, msg.traits, context)
+
+    def validate_components_messages_traits_external_docs_refs(
+        self, spec: AsyncAPI3
+    ) -> None:
+        """Validate externalDocs in traits of components messages."""
+        if not spec.components or not spec.components.messages:
+            return
+        for msg_name, msg in spec.components.messages.root.items():
+            if isinstance(msg, Reference):
+                continue
+            self._validate_traits_external_docs_refs(
+                spec, msg.traits, f"components message '{msg_name}'"
+            )
+
+    def validate_components_operations_traits_external_docs_refs(
+        self, spec: AsyncAPI3
+    ) -> None:
+        """Validate externalDocs in traits of components operations."""
+        if not spec.components or not spec.components.operations:
+            return
+        for op_name, operation in spec.components.operations.root.items():
+            if isinstance(operation, Reference):
+                continue
+            self._validate_traits_external_docs_refs(
+                spec, operation.traits, f"components operation '{op_name}'"
+            )
+
     def validate_components_schemas_external_docs_refs(self, spec: AsyncAPI3) -> None:
         """Validate externalDocs in schemas."""
         if not spec.components or not spec.components.schemas:
@@ -562,3 +607,19 @@ class ExternalDocsRefValidator(ProcessorProtocol):
             if isinstance(tag, Reference):
                 continue
             self._validate_ref_field(spec, tag, f"tag {tag_idx} in {context}")
+
+    def _validate_traits_external_docs_refs(
+        self,
+        spec: AsyncAPI3,
+        traits: list[Any] | None,
+        context: str,
+    ) -> None:
+        """Validate externalDocs references in a list of traits and in their tags."""
+        for trait_idx, trait in enumerate(traits or []):
+            if isinstance(trait, Reference):
+                continue
+            trait_context = f"trait {trait_idx} in {context}"
+            self._validate_ref_field(spec, trait, trait_context)
+            self._validate_tags_external_docs_refs(
+                spec, trait.tags or [], f"tags in {trait_context}"
+            )
-- 
2.43.0


From b618c6c8a8d17c25fdcee6bd1a8fd2fcf143f56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 14/19] fix: resolve references into objects that have an extra
 field named root

---
 asyncapi3/validators/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asyncapi3/validators/utils.py b/asyncapi3/validators/utils.py
index e5d2d91..c65fccc 100644
--- a/asyncapi3/validators/utils.py
+++ b/asyncapi3/validators/utils.py
@@ -154,6 +154,8 @@ def _resolve_path_part(
 
 def _has_root_mapping(obj: Any) -> bool:
     """Return True when object has a root dict for navigation."""
+    if isinstance(obj, BaseModel) and "root" in (obj.model_extra or {}):
+        return False  # an extra field of an open object, not its mapping
     return hasattr(obj, "root") and isinstance(obj.root, dict)
 
 
-- 
2.43.0


From b4b18d31d9f0bf0889b6372ab67186aa33f540fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 15/19] fix: expect the right types for references in the
 fields of inline traits

---
 asyncapi3/validators/unified_references_validator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asyncapi3/validators/unified_references_validator.py b/asyncapi3/validators/unified_references_validator.py
index 116f807..aa4b41e 100644
--- a/asyncapi3/validators/unified_references_validator.py
+++ b/asyncapi3/validators/unified_references_validator.py
@@ -112,6 +112,10 @@ REFERENCE_TYPE_MAPPINGS = {
     "**.bindings.*.session_expiry_interval": Schema,
     "**.bindings.*.time_to_live": Schema,
     "**.operations.*.traits.*.security.*": SecurityScheme,
+    "**.traits.correlation_id": CorrelationID,
+    "**.traits.external_docs": ExternalDocumentation,
+    "**.traits.security": SecurityScheme,
+    "**.traits.tags": Tag,
     "**.security": SecurityScheme,
     "**.security.*": SecurityScheme,
     "**.security_schemes.*": SecurityScheme,
-- 
2.43.0


From bb8424c0b102dc49e50e7ab4c62310194c88d20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:27 +0000
Subject: [PATCH 16/19] fix: copies a processor takes of a document run their
 own extra processors

---
 asyncapi3/models/asyncapi.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/asyncapi3/models/asyncapi.py b/asyncapi3/models/asyncapi.py
index 07f4441..7a3fab6 100644
--- a/asyncapi3/models/asyncapi.py
+++ b/asyncapi3/models/asyncapi.py
@@ -4,13 +4,13 @@ __all__ = ["AsyncAPI3"]
 
 import re
 
+from contextvars import ContextVar
 from typing import Any
 
 from pydantic import (
     AnyUrl,
     Field,
     HttpUrl,
-    PrivateAttr,
     field_validator,
     model_validator,
 )
@@ -57,6 +57,12 @@ from asyncapi3.models.server import Servers
 from asyncapi3.protocols import ProcessorProtocol
 from asyncapi3.validators import UnifiedReferencesValidator
 
+# The documents, by id, whose extra processors are running in this context. Kept outside
+# of the documents so that copies made by a processor do not inherit it.
+_PROCESSING: ContextVar[frozenset[int]] = ContextVar(
+    "asyncapi3_processing", default=frozenset()
+)
+
 
 class AsyncAPI3(ExtendableBaseModel):
     """
@@ -154,8 +160,6 @@ class AsyncAPI3(ExtendableBaseModel):
         ),
     )
 
-    _processors_running: bool = PrivateAttr(default=False)
-
     @classmethod
     def as_builder(
         cls,
@@ -282,14 +286,15 @@ class AsyncAPI3(ExtendableBaseModel):
         """Run all extra processors after model validation."""
         # A processor that assigns a field triggers validation, and so this method,
         # again: the run in progress already covers that assignment.
-        if self._processors_running:
+        processing = _PROCESSING.get()
+        if id(self) in processing:
             return self
-        self._processors_running = True
+        token = _PROCESSING.set(processing | {id(self)})
         try:
             self._run_extra_converters()
             self._run_extra_validators()
         finally:
-            self._processors_running = False
+            _PROCESSING.reset(token)
         return self
 
     def _run_extra_converters(self) -> None:
-- 
2.43.0


From ce5cf7516871c8b0d704ad892eb6add070171d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:27 +0000
Subject: [PATCH 17/19] fix: undo an assignment whose validation is interrupted

---
 asyncapi3/models/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index fe0a720..37d55c0 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -29,7 +29,7 @@ class _AtomicAssignmentMixin:
         fields_set = set(self.__pydantic_fields_set__)
         try:
             super().__setattr__(name, value)
-        except Exception:
+        except BaseException:
             object.__setattr__(self, "__dict__", fields)
             object.__setattr__(self, "__pydantic_extra__", extra)
             object.__setattr__(self, "__pydantic_fields_set__", fields_set)
-- 
2.43.0


From 7cdd44194b4b42a8c5bbf45d8afd85db3a69660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:04 +0000
Subject: [PATCH 18/19] fix: look for address expressions in linear time

---
 asyncapi3/models/channel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncapi3/models/channel.py b/asyncapi3/models/channel.py
index d9258db..d5fed26 100644
--- a/asyncapi3/models/channel.py
+++ b/asyncapi3/models/channel.py
@@ -189,7 +189,9 @@ class Channel(ExtendableBaseModel):
 
         # Check if address contains channel address expressions (curly braces)
         expression_pattern = re.compile(r"\{[^}]+\}")
-        if not expression_pattern.search(self.address):
+        # Nothing after the last brace matters: looking there takes quadratic time.
+        end = self.address.rfind("}") + 1
+        if not expression_pattern.search(self.address, 0, end):
             raise ValueError(
                 "parameters must not be provided when address does not contain "
                 "Channel Address Expressions"
-- 
2.43.0


From dcee6f799faab1986f1171202917dec47fd136ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:55 +0000
Subject: [PATCH 19/19] fix: log through module loggers so that warnings never
 configure the root logger

---
 asyncapi3/validators/external_docs_ref_validator.py | 4 +++-
 asyncapi3/validators/tags_ref_validator.py          | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/asyncapi3/validators/external_docs_ref_validator.py b/asyncapi3/validators/external_docs_ref_validator.py
index 27441bc..3e41bfe 100644
--- a/asyncapi3/validators/external_docs_ref_validator.py
+++ b/asyncapi3/validators/external_docs_ref_validator.py
@@ -14,6 +14,8 @@ from asyncapi3.protocols import ProcessorProtocol
 if TYPE_CHECKING:
     from asyncapi3.models.asyncapi import AsyncAPI3
 
+logger = logging.getLogger(__name__)
+
 
 class ExternalDocsRefValidator(ProcessorProtocol):
     """
@@ -533,7 +535,7 @@ class ExternalDocsRefValidator(ProcessorProtocol):
             ref: The external reference to validate
             context: Context string for error messages
         """
-        logging.warning(
+        logger.warning(
             "%s external documentation reference '%s' "
             "is external. Cannot validate external references.",
             context.capitalize(),
diff --git a/asyncapi3/validators/tags_ref_validator.py b/asyncapi3/validators/tags_ref_validator.py
index 06b0025..4449a4d 100644
--- a/asyncapi3/validators/tags_ref_validator.py
+++ b/asyncapi3/validators/tags_ref_validator.py
@@ -14,6 +14,8 @@ from asyncapi3.protocols import ProcessorProtocol
 if TYPE_CHECKING:
     from asyncapi3.models.asyncapi import AsyncAPI3
 
+logger = logging.getLogger(__name__)
+
 
 class TagsRefValidator(ProcessorProtocol):
     """
@@ -323,7 +325,7 @@ class TagsRefValidator(ProcessorProtocol):
             tag_ref: The external tag reference to validate
             context: Context string for error messages
         """
-        logging.warning(
+        logger.warning(
             f"{context.capitalize()} tag reference '{tag_ref.ref}' is external. "
             "Cannot validate external references."
         )
-- 
2.43.0

