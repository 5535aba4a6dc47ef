From f8327cac1fcb507a0b549f0d845a2414180cdf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 01/38] fix: validate defaults along the value instead of
 expanding the whole type graph

Default validation used to expand every type reachable from a field's type
before looking at the default. Chains of records that refer to each other more
than once made that expansion exponentially large, recursion was cut off after
one level, and a single unresolvable reference anywhere disabled validation.
---
 src/model/schema.rs | 270 +++++++++++++++++++-------------------------
 1 file changed, 114 insertions(+), 156 deletions(-)

diff --git a/src/model/schema.rs b/src/model/schema.rs
index 9963f9e..41e873c 100644
--- a/src/model/schema.rs
+++ b/src/model/schema.rs
@@ -1,7 +1,9 @@
 use serde_json::Value;
 use std::borrow::Cow;
+use std::cell::RefCell;
 use std::collections::HashMap;
 use std::fmt;
+use std::rc::Rc;
 use std::str::FromStr;
 
 use crate::error::SpanWithSource;
@@ -694,6 +696,56 @@ fn is_json_integer(n: &serde_json::Number) -> bool {
     n.is_i64() || n.is_u64()
 }
 
+/// Looks up the types that `Reference` schemas refer to while default values are
+/// validated, remembering what it has already found out.
+///
+/// Validation descends along the default value and resolves a reference only
+/// where the value reaches it, so the work is bounded by the value rather than
+/// by the (possibly recursive or exponentially large) expansion of the schema.
+struct DefaultResolver<'a> {
+    lookup: &'a dyn Fn(&str) -> Option<AvroSchema>,
+    /// Referenced types looked up so far, by full name.
+    resolved: RefCell<HashMap<String, Option<Rc<AvroSchema>>>>,
+    /// Verdicts so far per value node and full name. Unions of record types can
+    /// lead to the same pair along many paths.
+    verdicts: RefCell<HashMap<(*const Value, String), bool>>,
+}
+
+impl<'a> DefaultResolver<'a> {
+    fn new(lookup: &'a dyn Fn(&str) -> Option<AvroSchema>) -> Self {
+        DefaultResolver {
+            lookup,
+            resolved: RefCell::default(),
+            verdicts: RefCell::default(),
+        }
+    }
+
+    fn resolve(&self, full_name: &str) -> Option<Rc<AvroSchema>> {
+        if let Some(known) = self.resolved.borrow().get(full_name) {
+            return known.clone();
+        }
+        let schema = (self.lookup)(full_name).map(Rc::new);
+        self.resolved
+            .borrow_mut()
+            .insert(full_name.to_string(), schema.clone());
+        schema
+    }
+
+    /// Validate a default value against the type with the given full name.
+    fn is_valid_reference_default(&self, value: &Value, full_name: String) -> bool {
+        let key = (std::ptr::from_ref(value), full_name);
+        if let Some(&verdict) = self.verdicts.borrow().get(&key) {
+            return verdict;
+        }
+        let verdict = match self.resolve(&key.1) {
+            Some(schema) => is_valid_default_with(value, &schema, self),
+            None => true,
+        };
+        self.verdicts.borrow_mut().insert(key, verdict);
+        verdict
+    }
+}
+
 /// Validate that a JSON default value is compatible with the given Avro schema
 /// type, per the Avro specification's default value rules.
 ///
@@ -702,7 +754,18 @@ fn is_json_integer(n: &serde_json::Number) -> bool {
 /// For `Reference` types (forward references not yet resolved), validation is
 /// skipped and `true` is returned, because the referenced type is not available
 /// for inspection at parse time.
+#[cfg(test)]
 pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
+    is_valid_default_with(value, schema, &DefaultResolver::new(&|_| None))
+}
+
+/// Like [`is_valid_default`], but validates against the referenced types where
+/// `resolver` can resolve them.
+fn is_valid_default_with(
+    value: &Value,
+    schema: &AvroSchema,
+    resolver: &DefaultResolver<'_>,
+) -> bool {
     match schema {
         // =====================================================================
         // Primitives: each has exactly one valid JSON type.
@@ -747,7 +810,7 @@ pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
             for field in fields {
                 if let Some(field_val) = obj.get(&field.name) {
                     // Default object provides a value for this field -- validate it.
-                    if !is_valid_default(field_val, &field.schema) {
+                    if !is_valid_default_with(field_val, &field.schema, resolver) {
                         return false;
                     }
                 } else if field.default.is_none() {
@@ -771,7 +834,8 @@ pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
                 Some(a) => a,
                 None => return false,
             };
-            arr.iter().all(|elem| is_valid_default(elem, items))
+            arr.iter()
+                .all(|elem| is_valid_default_with(elem, items, resolver))
         }
         AvroSchema::Map { values, .. } => {
             // The default must be a JSON object where every value is valid
@@ -780,7 +844,8 @@ pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
                 Some(o) => o,
                 None => return false,
             };
-            obj.values().all(|val| is_valid_default(val, values))
+            obj.values()
+                .all(|val| is_valid_default_with(val, values, resolver))
         }
 
         // Java's `Schema.isValidDefault` checks whether the default matches
@@ -791,37 +856,67 @@ pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
             if types.is_empty() {
                 false
             } else {
-                types.iter().any(|branch| is_valid_default(value, branch))
+                types
+                    .iter()
+                    .any(|branch| is_valid_default_with(value, branch, resolver))
             }
         }
 
         // =====================================================================
         // Annotated primitives: validate against the underlying primitive type.
         // =====================================================================
-        AvroSchema::AnnotatedPrimitive { kind, .. } => is_valid_default(value, &kind.to_schema()),
+        AvroSchema::AnnotatedPrimitive { kind, .. } => {
+            is_valid_default_with(value, &kind.to_schema(), resolver)
+        }
 
         // =====================================================================
         // Logical types: validate against the underlying physical type.
         // =====================================================================
-        AvroSchema::Logical { logical_type, .. } => {
-            is_valid_default(value, &logical_type.expected_base_type().to_schema())
-        }
+        AvroSchema::Logical { logical_type, .. } => is_valid_default_with(
+            value,
+            &logical_type.expected_base_type().to_schema(),
+            resolver,
+        ),
 
         // =====================================================================
-        // Forward references: skip validation because the referenced type is
-        // not yet resolved at parse time.
+        // References: validate against the referenced type. Validation is skipped
+        // for forward references, because the referenced type is not yet known.
         // =====================================================================
-        AvroSchema::Reference { .. } => true,
+        AvroSchema::Reference {
+            name, namespace, ..
+        } => resolver.is_valid_reference_default(
+            value,
+            make_full_name(name, namespace.as_deref()).into_owned(),
+        ),
     }
 }
 
 /// Returns a human-readable description of why a default value is invalid,
 /// or `None` if the value is valid for the schema.
 pub fn validate_default(value: &Value, schema: &AvroSchema) -> Option<String> {
-    if is_valid_default(value, schema) {
+    validate_default_with(value, schema, &DefaultResolver::new(&|_| None))
+}
+
+/// Like [`validate_default`], but validates against the referenced types where
+/// `resolver` can resolve them.
+fn validate_default_with(
+    value: &Value,
+    schema: &AvroSchema,
+    resolver: &DefaultResolver<'_>,
+) -> Option<String> {
+    if is_valid_default_with(value, schema, resolver) {
         return None;
     }
 
+    // Describe the referenced type rather than the reference.
+    if let AvroSchema::Reference {
+        name, namespace, ..
+    } = schema
+        && let Some(resolved) = resolver.resolve(&make_full_name(name, namespace.as_deref()))
+    {
+        return validate_default_with(value, &resolved, resolver);
+    }
+
     // Produce a more specific message for integer values that are the right JSON
     // type but fall outside the schema's numeric range.
     if let Value::Number(n) = value
@@ -843,7 +938,7 @@ pub fn validate_default(value: &Value, schema: &AvroSchema) -> Option<String> {
                 ));
             }
             // Annotated primitives and logical types delegate to their underlying
-            // type via is_valid_default, so range errors for them are caught above.
+            // type via is_valid_default_with, so range errors for them are caught above.
             // We fall through to the generic message for other schemas.
             _ => {}
         }
@@ -869,7 +964,7 @@ pub fn validate_default(value: &Value, schema: &AvroSchema) -> Option<String> {
         // Check for fields with invalid default values.
         for field in fields {
             if let Some(field_val) = obj.get(&field.name)
-                && let Some(reason) = validate_default(field_val, &field.schema)
+                && let Some(reason) = validate_default_with(field_val, &field.schema, resolver)
             {
                 return Some(format!(
                     "invalid value for field `{}`: {reason}",
@@ -907,158 +1002,21 @@ where
         _ => return Vec::new(),
     };
 
+    let resolver = DefaultResolver::new(&resolver);
     let mut errors = Vec::new();
     for field in fields {
-        let default_val = match &field.default {
-            Some(val) => val,
-            None => continue,
-        };
-
-        // Only intervene for Reference types (and unions containing them).
-        // Non-Reference types are already validated at parse time by
-        // `walk_variable` in reader.rs.
-        let resolved_schema = resolve_for_validation(&field.schema, &resolver);
-        if let Some(ref resolved) = resolved_schema
-            && let Some(reason) = validate_default(default_val, resolved)
+        // Defaults of fields without `Reference` types have already been validated
+        // at parse time by `walk_variable` in reader.rs.
+        if let Some(default_val) = &field.default
+            && let Some(reason) = validate_default_with(default_val, &field.schema, &resolver)
         {
             errors.push((field.name.clone(), reason));
         }
-        // If resolve_for_validation returns None, the reference could not be
-        // resolved (true forward reference), so we skip validation.
     }
 
     errors
 }
 
-/// Attempt to resolve `Reference` types in a schema for default validation.
-///
-/// Returns `Some(resolved_schema)` if all references in the schema can be
-/// resolved, or `None` if any reference is unresolvable (forward reference).
-/// For non-Reference types, returns the schema unchanged.
-///
-/// This function performs deep resolution: it recursively resolves References
-/// inside record fields, array items, map values, and union branches. This is
-/// necessary for validating nested record defaults where inner types may also
-/// be References.
-fn resolve_for_validation<F>(schema: &AvroSchema, resolver: &F) -> Option<AvroSchema>
-where
-    F: Fn(&str) -> Option<AvroSchema>,
-{
-    use std::collections::HashSet;
-    let mut visited = HashSet::new();
-    resolve_for_validation_inner(schema, resolver, &mut visited)
-}
-
-/// Inner recursive function with cycle detection via a `visited` set.
-fn resolve_for_validation_inner<F>(
-    schema: &AvroSchema,
-    resolver: &F,
-    visited: &mut std::collections::HashSet<String>,
-) -> Option<AvroSchema>
-where
-    F: Fn(&str) -> Option<AvroSchema>,
-{
-    match schema {
-        AvroSchema::Reference {
-            name, namespace, ..
-        } => {
-            let full_name = make_full_name(name, namespace.as_deref()).into_owned();
-            // Cycle detection: if we've already seen this type, return a
-            // placeholder that will pass basic JSON type validation.
-            // Cyclic types can still have valid defaults (e.g., a tree node
-            // where child references are nullable), so we don't fail here.
-            if visited.contains(&full_name) {
-                // Return the Reference as-is; is_valid_default treats Reference
-                // as "skip validation", which is appropriate for cyclic refs.
-                return Some(schema.clone());
-            }
-            // Resolve the reference first, then recursively resolve any nested
-            // References inside the resolved type.
-            resolver(&full_name)
-                .and_then(|resolved| resolve_for_validation_inner(&resolved, resolver, visited))
-        }
-        AvroSchema::Union {
-            types,
-            is_nullable_type,
-        } => {
-            // Resolve any Reference branches within the union. If any branch
-            // is an unresolvable forward reference, skip validation for the
-            // entire union.
-            let mut resolved_types = Vec::with_capacity(types.len());
-            for branch in types {
-                match resolve_for_validation_inner(branch, resolver, visited) {
-                    Some(resolved) => resolved_types.push(resolved),
-                    None => return None,
-                }
-            }
-            Some(AvroSchema::Union {
-                types: resolved_types,
-                is_nullable_type: *is_nullable_type,
-            })
-        }
-        AvroSchema::Record {
-            name,
-            namespace,
-            doc,
-            fields,
-            is_error,
-            aliases,
-            properties,
-        } => {
-            // Mark this record as being visited to detect cycles.
-            let full_name = make_full_name(name, namespace.as_deref()).into_owned();
-            visited.insert(full_name.clone());
-
-            // Recursively resolve References inside record fields so that
-            // nested record default validation can see the full types.
-            let mut resolved_fields = Vec::with_capacity(fields.len());
-            for field in fields {
-                let resolved_schema =
-                    resolve_for_validation_inner(&field.schema, resolver, visited)?;
-                resolved_fields.push(Field {
-                    name: field.name.clone(),
-                    schema: resolved_schema,
-                    doc: field.doc.clone(),
-                    default: field.default.clone(),
-                    order: field.order.clone(),
-                    aliases: field.aliases.clone(),
-                    properties: field.properties.clone(),
-                });
-            }
-
-            // Unmark after processing this record's fields.
-            visited.remove(&full_name);
-
-            Some(AvroSchema::Record {
-                name: name.clone(),
-                namespace: namespace.clone(),
-                doc: doc.clone(),
-                fields: resolved_fields,
-                is_error: *is_error,
-                aliases: aliases.clone(),
-                properties: properties.clone(),
-            })
-        }
-        AvroSchema::Array { items, properties } => {
-            let resolved_items = resolve_for_validation_inner(items, resolver, visited)?;
-            Some(AvroSchema::Array {
-                items: Box::new(resolved_items),
-                properties: properties.clone(),
-            })
-        }
-        AvroSchema::Map { values, properties } => {
-            let resolved_values = resolve_for_validation_inner(values, resolver, visited)?;
-            Some(AvroSchema::Map {
-                values: Box::new(resolved_values),
-                properties: properties.clone(),
-            })
-        }
-        // For primitives, enums, fixed, logical types, and annotated primitives,
-        // the schema is already concrete and does not need resolution.
-        other => Some(other.clone()),
-    }
-}
-
 #[cfg(test)]
 impl Field {
     /// Create a field with no aliases, properties, doc, default, or order.
-- 
2.43.0


From 5a680240549a832b88067cd2e489983d879cc09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 02/38] fix: keep the null namespace of imported types

Types without a namespace were serialized without a namespace key inside a
namespaced protocol or record, which moves them into the enclosing namespace,
and were looked up under the protocol's namespace.
---
 src/model/json.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/model/json.rs b/src/model/json.rs
index f715cf3..8f73dee 100644
--- a/src/model/json.rs
+++ b/src/model/json.rs
@@ -54,8 +54,9 @@ pub type SchemaLookup = HashMap<String, AvroSchema>;
 pub fn protocol_to_json(protocol: &Protocol) -> Value {
     // Build a lookup table from all named types in the protocol's type list.
     // This includes nested types inside records/fields that were registered
-    // in the schema registry.
-    let lookup = build_lookup(&protocol.types, protocol.namespace.as_deref());
+    // in the schema registry. Types without a namespace are in the null namespace
+    // (they were imported from JSON), not in the protocol's.
+    let lookup = build_lookup(&protocol.types, None);
 
     let mut known_names = HashSet::new();
     let mut obj = Map::new();
@@ -210,14 +211,12 @@ fn named_type_preamble(
     let mut obj = Map::new();
     obj.insert("type".to_string(), Value::String(type_str.to_string()));
     obj.insert("name".to_string(), Value::String(name.to_string()));
-    // Emit the namespace key when it differs from the enclosing context.
-    // Special case: when there's no enclosing namespace (standalone .avsc),
-    // treat an empty-string namespace the same as None — Java normalizes
-    // empty namespace to null, so `writeName()` omits it.
-    if namespace != enclosing_namespace
-        && let Some(ns) = namespace
-        && !(ns.is_empty() && enclosing_namespace.is_none())
-    {
+    // Emit the namespace key when it differs from the enclosing context. An
+    // empty namespace is the same as none (Java normalizes it to null), and a
+    // type without a namespace inside a namespaced context needs an explicit
+    // empty one: `writeName()` emits `"namespace": ""` there.
+    let ns = namespace.unwrap_or_default();
+    if ns != enclosing_namespace.unwrap_or_default() {
         obj.insert("namespace".to_string(), Value::String(ns.to_string()));
     }
     if let Some(doc) = doc {
@@ -304,7 +303,7 @@ pub fn schema_to_json(
             };
             let fields_json: Vec<Value> = fields
                 .iter()
-                .map(|f| field_to_json(f, known_names, ns.or(enclosing_namespace), lookup))
+                .map(|f| field_to_json(f, known_names, ns, lookup))
                 .collect();
             obj.insert("fields".to_string(), Value::Array(fields_json));
             finish_named_type(&mut obj, properties, aliases, ns);
@@ -578,7 +577,7 @@ fn schema_ref_name(
     namespace: Option<&str>,
     enclosing_namespace: Option<&str>,
 ) -> String {
-    if namespace == enclosing_namespace {
+    if namespace.unwrap_or_default() == enclosing_namespace.unwrap_or_default() {
         if is_schema_type_name(name) {
             // Name collides with a built-in type -- must use the full name
             // to avoid ambiguity in the JSON output.
-- 
2.43.0


From 7b284c25ba27526f68696ac61a302ca47ce85c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 03/38] fix: apply logical types of imported JSON only to their
 own base type

An imported {"type": "double", "logicalType": "date"} was turned into an int,
and precision and scale attributes next to other logical types, or an unusable
scale of a decimal, were dropped.
---
 src/import.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index ee5f676..97a1aec 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -686,7 +686,15 @@ fn parse_annotated_primitive(
         let scale_u64 = obj.get("scale").and_then(|s| s.as_u64());
         let scale = scale_u64.and_then(|v| u32::try_from(v).ok());
 
-        if let Some(lt) = parse_logical_type(logical, precision, scale) {
+        // A logical type only takes effect on its own base type (`date` requires
+        // `int`), and `decimal` only if its scale is usable. Otherwise it is
+        // left as a plain property, as in the IDL reader.
+        if let Some(lt) = parse_logical_type(logical, precision, scale)
+            && lt.expected_base_type() == str_to_primitive_type(prim)
+            && !(matches!(lt, LogicalType::Decimal { .. })
+                && scale.is_none()
+                && obj.contains_key("scale"))
+        {
             // For decimal, validate that precision >= 1 (the shared helper
             // returns None when precision is absent, but we also need to
             // reject explicit zero).
@@ -696,15 +704,19 @@ fn parse_annotated_primitive(
                 miette::bail!("decimal precision must be >= 1");
             }
 
-            let properties =
-                collect_extra_properties(obj, &["type", "logicalType", "precision", "scale"]);
+            // `precision` and `scale` are ordinary properties on other types.
+            let consumed: &[&str] = match lt {
+                LogicalType::Decimal { .. } => &["type", "logicalType", "precision", "scale"],
+                _ => &["type", "logicalType"],
+            };
             return Ok(AvroSchema::Logical {
                 logical_type: lt,
-                properties,
+                properties: collect_extra_properties(obj, consumed),
             });
         }
 
-        // Unknown logical type -- preserve as properties on AnnotatedPrimitive.
+        // Unknown or inapplicable logical type -- preserve as properties on
+        // AnnotatedPrimitive.
         let properties = collect_extra_properties(obj, &["type"]);
         return Ok(AvroSchema::AnnotatedPrimitive {
             kind: str_to_primitive_type(prim),
-- 
2.43.0


From fa4b0ab545d9d66e437cd3cf25b89c6a65f37aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 04/38] fix: keep an unusable scale annotation instead of
 replacing it with 0

---
 src/reader.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index c9f6196..38df367 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4375,6 +4375,14 @@ fn try_promote_logical_type(schema: AvroSchema) -> AvroSchema {
                 return AvroSchema::AnnotatedPrimitive { kind, properties };
             };
 
+            // A decimal with an unusable scale is invalid and left as-is.
+            if matches!(logical_type, LogicalType::Decimal { .. })
+                && scale.is_none()
+                && properties.contains_key("scale")
+            {
+                return AvroSchema::AnnotatedPrimitive { kind, properties };
+            }
+
             // Validate that the base primitive type is compatible with this
             // logical type. For example, `date` requires `int`; applying it to
             // `long` is invalid and should be left as-is.
-- 
2.43.0


From 2a7b62ff7ff33a5eaa7807dce0dba35d6145b923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 05/38] fix: let an imported protocol's own messages win over
 those it imports

---
 src/compiler.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 3148bf3..07e2a17 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -821,11 +821,6 @@ fn resolve_single_import(
                     .push(miette::Report::new(w).wrap_err(import_file_name.to_string()));
             }
 
-            // If the imported IDL is a protocol, merge its messages.
-            if let IdlFile::Protocol(imported_protocol) = &imported_idl {
-                ctx.messages.extend(imported_protocol.messages.clone());
-            }
-
             // Recursively process declaration items from the imported file.
             // IDL imports use their own source text for span tracking, so
             // `ctx.json_import_spans` is passed through to capture any nested
@@ -833,6 +828,12 @@ fn resolve_single_import(
             process_decl_items(&nested_decl_items, ctx, &import_dir).with_context(|| {
                 format!("resolve nested imports from `{}`", resolved_path.display())
             })?;
+
+            // If the imported IDL is a protocol, merge its messages. They come
+            // after the messages of its own imports, over which they win.
+            if let IdlFile::Protocol(imported_protocol) = imported_idl {
+                ctx.messages.extend(imported_protocol.messages);
+            }
         }
     }
 
-- 
2.43.0


From 7764b3b5f73d0b14746cb91151ce508c678401c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 06/38] fix: report undefined references in a deterministic
 order

Messages were visited in hash order and duplicates removed before sorting, so
which occurrence of an undefined name was reported varied from run to run.
---
 src/compiler.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 07e2a17..a59f2d6 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -1023,7 +1023,9 @@ fn validate_all_references(
             // `validate_references()` alone does not see them. We must validate
             // them explicitly here. Without this, undefined types in messages
             // silently pass through (Java rejects them with "Undefined schema").
-            for msg in protocol.messages.values() {
+            let mut messages: Vec<_> = protocol.messages.iter().collect();
+            messages.sort_by_key(|(name, _)| *name);
+            for (_, msg) in messages {
                 unresolved.extend(registry.validate_schema(&msg.response));
                 for field in &msg.request {
                     unresolved.extend(registry.validate_schema(&field.schema));
@@ -1037,21 +1039,19 @@ fn validate_all_references(
         }
     }
 
-    // Deduplicate by name while preserving source order (first occurrence
-    // wins). We use a `HashSet` to track which names we've already seen,
-    // retaining the entry whose span appears earliest in the file.
+    // Sort by source position so the first error in the file is reported first.
+    // References without a span (from JSON imports) sort to the end.
+    unresolved.sort_by_key(|(_, span)| {
+        span.as_ref()
+            .map_or((true, "", 0), |s| (false, s.name, s.offset))
+    });
+
+    // Deduplicate by name, retaining the occurrence that sorted first.
     {
         let mut seen = HashSet::new();
         unresolved.retain(|(name, _)| seen.insert(name.clone()));
     }
 
-    // Sort by source span offset so the first error in the file is reported
-    // first. References without a span (from JSON imports) sort to the end.
-    unresolved.sort_by_key(|(_, span)| {
-        span.as_ref()
-            .map_or(("", usize::MAX), |s| (s.name, s.offset))
-    });
-
     if unresolved.is_empty() {
         return Ok(());
     }
-- 
2.43.0


From 2a59171aa42954dd0423517eb85cc3c69bf1a3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 07/38] fix: list dropped union annotations in a deterministic
 order

---
 src/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 38df367..ad0bace 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -3262,7 +3262,8 @@ fn walk_full_type<'input>(
     // drops them without feedback. Nullable unions (`type?` syntax) are fine
     // because annotations are applied to the non-null branch instead.
     if !props.properties.is_empty() && is_non_nullable_union(&schema) {
-        let keys: Vec<&str> = props.properties.keys().map(|k| k.as_str()).collect();
+        let mut keys: Vec<&str> = props.properties.keys().map(|k| k.as_str()).collect();
+        keys.sort_unstable();
         src.warnings
             .borrow_mut()
             .push(Warning::annotations_dropped_on_union(&keys, src, ctx));
-- 
2.43.0


From 91d4ca4a2d4203572053adf0fd33ca639541b98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 08/38] fix: register named types defined inline in messages of
 an imported protocol

---
 src/import.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index 97a1aec..e3f19eb 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -283,11 +283,14 @@ fn flatten_schema_inner(schema: AvroSchema, collected: &mut Vec<AvroSchema>) ->
 ///
 /// Duplicate registrations are silently ignored (the first definition wins),
 /// matching Java's behavior for imports.
-fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) {
-    let (types, _top_level) = flatten_schema(schema);
+///
+/// Returns the schema with references in place of the extracted types.
+fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) -> AvroSchema {
+    let (types, top_level) = flatten_schema(schema);
     for t in types {
         let _ = registry.register(t);
     }
+    top_level
 }
 
 // ==============================================================================
@@ -331,12 +334,19 @@ pub fn import_protocol(
     // Extract messages.
     if let Some(msgs) = json.get("messages").and_then(|m| m.as_object()) {
         for (name, msg_json) in msgs {
-            let message = json_to_message(msg_json, default_namespace).map_err(|e| {
+            let mut message = json_to_message(msg_json, default_namespace).map_err(|e| {
                 miette::miette!(
                     "parse message `{name}` in protocol `{}`: {e}",
                     path.display()
                 )
             })?;
+            // Named types may also be defined inline in a message's signature.
+            let request = message.request.iter_mut().map(|param| &mut param.schema);
+            let errors = message.errors.iter_mut().flatten();
+            for schema in request.chain([&mut message.response]).chain(errors) {
+                let inline = std::mem::replace(schema, AvroSchema::Null);
+                *schema = flatten_and_register(inline, registry);
+            }
             messages.insert(name.clone(), message);
         }
     }
-- 
2.43.0


From 08eaaae66c9c957ed36be0a0c32d43b6e690964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 09/38] fix: reject field, parameter and symbol names the Avro
 specification forbids

The grammar's identifiers permit dashes and dots. Type names were checked, but
fields, parameters and enum symbols with such names produced invalid schemas.
---
 src/reader.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index ad0bace..578338e 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -2988,6 +2988,27 @@ fn walk_field_declaration<'input>(
     Ok(fields)
 }
 
+/// Reject field, parameter and symbol names that the grammar's identifiers permit
+/// but the Avro specification forbids (those with dashes or dots), as Java's
+/// `Schema.validateName` does.
+fn check_avro_name<'input>(
+    name: &str,
+    src: &SourceInfo,
+    ctx: &impl antlr4rust::parser_rule_context::ParserRuleContext<'input>,
+) -> Result<()> {
+    if is_valid_avro_name(name) {
+        return Ok(());
+    }
+    Err(make_diagnostic(
+        src,
+        ctx,
+        format!(
+            "invalid Avro name: `{name}` (names must start with a letter or underscore, \
+             followed by letters, digits, or underscores)"
+        ),
+    ))
+}
+
 /// Walk a single variable declaration and create a `Field`.
 ///
 /// `enclosing_name` is the name of the enclosing record (if any), included in
@@ -3009,6 +3030,7 @@ fn walk_variable<'input>(
         .identifier()
         .ok_or_else(|| make_diagnostic(src, ctx, "missing variable name"))?;
     let field_name = identifier_text(&name_ctx);
+    check_avro_name(&field_name, src, &*name_ctx)?;
 
     // Walk the variable-level schema properties (e.g. @order, @aliases on a
     // specific variable rather than on the field type).
@@ -3110,6 +3132,7 @@ fn walk_enum<'input>(
     for sym_ctx in ctx.enumSymbol_all() {
         if let Some(sym_name_ctx) = sym_ctx.identifier() {
             let sym_name = identifier_text(&sym_name_ctx);
+            check_avro_name(&sym_name, src, &*sym_name_ctx)?;
             if !seen_symbols.insert(sym_name.clone()) {
                 return Err(make_diagnostic(
                     src,
-- 
2.43.0


From 9fec1496e40d4d075003aaf0f3aeb8009716561f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 10/38] fix: reject imported JSON schemas with invalid names
 instead of dropping them

---
 src/import.rs  | 9 ++++++++-
 src/resolve.rs | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index e3f19eb..0944a9e 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -30,7 +30,7 @@ use crate::model::protocol::Message;
 use crate::model::schema::{
     AvroSchema, FieldOrder, LogicalType, PrimitiveType, parse_logical_type, split_full_name,
 };
-use crate::resolve::SchemaRegistry;
+use crate::resolve::{SchemaRegistry, validate_schema_name};
 use miette::Result;
 
 /// Parse JSON with C-style comment stripping (`//` and `/* */`).
@@ -502,6 +502,7 @@ fn parse_record(
         .map(|s| s.to_string())
         .or(inferred_ns)
         .or_else(|| default_namespace.map(|s| s.to_string()));
+    validate_schema_name(&name, namespace.as_deref()).map_err(|e| miette::miette!("{e}"))?;
     let doc = obj
         .get("doc")
         .and_then(|d| d.as_str())
@@ -558,11 +559,15 @@ fn parse_enum(
         .map(|s| s.to_string())
         .or(inferred_ns)
         .or_else(|| default_namespace.map(|s| s.to_string()));
+    validate_schema_name(&name, namespace.as_deref()).map_err(|e| miette::miette!("{e}"))?;
     let doc = obj
         .get("doc")
         .and_then(|d| d.as_str())
         .map(|s| s.to_string());
     let symbols = extract_string_array(obj.get("symbols"));
+    for symbol in &symbols {
+        validate_schema_name(symbol, None).map_err(|e| miette::miette!("{e}"))?;
+    }
     let default = obj
         .get("default")
         .and_then(|d| d.as_str())
@@ -608,6 +613,7 @@ fn parse_fixed(
         .map(|s| s.to_string())
         .or(inferred_ns)
         .or_else(|| default_namespace.map(|s| s.to_string()));
+    validate_schema_name(&name, namespace.as_deref()).map_err(|e| miette::miette!("{e}"))?;
     let doc = obj
         .get("doc")
         .and_then(|d| d.as_str())
@@ -780,6 +786,7 @@ fn json_to_field(
         .and_then(|n| n.as_str())
         .ok_or_else(|| miette::miette!("field missing 'name'"))?
         .to_string();
+    validate_schema_name(&name, None).map_err(|e| miette::miette!("{e}"))?;
     let type_json = obj
         .get("type")
         .ok_or_else(|| miette::miette!("field missing 'type'"))?;
diff --git a/src/resolve.rs b/src/resolve.rs
index 8b55d43..a98bba6 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -54,7 +54,7 @@ pub(crate) fn is_valid_avro_name(name: &str) -> bool {
 /// For namespaces, each dot-separated segment must independently satisfy the
 /// name pattern. Returns `Ok(())` if valid, or an error message describing
 /// which part is invalid.
-fn validate_schema_name(name: &str, namespace: Option<&str>) -> Result<(), String> {
+pub(crate) fn validate_schema_name(name: &str, namespace: Option<&str>) -> Result<(), String> {
     if !is_valid_avro_name(name) {
         return Err(format!(
             "invalid Avro name: `{name}` \
-- 
2.43.0


From 0946e8f38ccadd681b86c7dd9dbe78a31b46699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 11/38] fix: reject duplicates and other invalid definitions in
 imported JSON

Duplicate fields, symbols, parameters and union branches, nested unions,
unknown enum defaults and two-way one-way messages were accepted from .avsc and
.avpr files and copied into the output.
---
 src/import.rs | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/import.rs b/src/import.rs
index 0944a9e..f7ad7b5 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -404,8 +404,16 @@ fn json_to_schema(json: &Value, default_namespace: Option<&str>) -> Result<AvroS
                 .iter()
                 .map(|t| json_to_schema(t, default_namespace))
                 .collect();
+            let types = schemas?;
+            if types.iter().any(|t| matches!(t, AvroSchema::Union { .. })) {
+                miette::bail!("unions may not immediately contain other unions");
+            }
+            let keys: Vec<String> = types.iter().map(AvroSchema::union_type_key).collect();
+            if let Some(key) = first_duplicate(keys.iter().map(|k| k.as_str())) {
+                miette::bail!("duplicate in union: {key}");
+            }
             Ok(AvroSchema::Union {
-                types: schemas?,
+                types,
                 is_nullable_type: false,
             })
         }
@@ -526,6 +534,10 @@ fn parse_record(
         vec![]
     };
 
+    if let Some(field) = first_duplicate(fields.iter().map(|f| f.name.as_str())) {
+        miette::bail!("duplicate field `{field}` in record `{name}`");
+    }
+
     let aliases = extract_string_array(obj.get("aliases"));
 
     let properties = collect_extra_properties(
@@ -568,10 +580,18 @@ fn parse_enum(
     for symbol in &symbols {
         validate_schema_name(symbol, None).map_err(|e| miette::miette!("{e}"))?;
     }
+    if let Some(symbol) = first_duplicate(symbols.iter().map(|s| s.as_str())) {
+        miette::bail!("duplicate symbol `{symbol}` in enum `{name}`");
+    }
     let default = obj
         .get("default")
         .and_then(|d| d.as_str())
         .map(|s| s.to_string());
+    if let Some(default) = &default
+        && !symbols.contains(default)
+    {
+        miette::bail!("default `{default}` of enum `{name}` is not one of its symbols");
+    }
     let aliases = extract_string_array(obj.get("aliases"));
 
     let properties = collect_extra_properties(
@@ -873,6 +893,16 @@ fn json_to_message(json: &Value, default_namespace: Option<&str>) -> Result<Mess
         None
     };
 
+    if let Some(param) = first_duplicate(request.iter().map(|p| p.name.as_str())) {
+        miette::bail!("duplicate parameter `{param}`");
+    }
+    if one_way
+        && (response != AvroSchema::Null
+            || errors.as_ref().is_some_and(|errors| !errors.is_empty()))
+    {
+        miette::bail!("one-way message must return null and declare no errors");
+    }
+
     let properties =
         collect_extra_properties(obj, &["doc", "request", "response", "errors", "one-way"]);
 
@@ -902,6 +932,12 @@ fn extract_string_array(value: Option<&Value>) -> Vec<String> {
     }
 }
 
+/// Returns the first name that occurred before, if any.
+fn first_duplicate<'a>(names: impl Iterator<Item = &'a str>) -> Option<&'a str> {
+    let mut seen = HashSet::new();
+    names.into_iter().find(|name| !seen.insert(*name))
+}
+
 /// Collect all keys from a JSON object that are NOT in the `known_keys` set,
 /// preserving insertion order. This captures custom properties/annotations.
 fn collect_extra_properties(
-- 
2.43.0


From 835d7be112a19dda689dbfc26e5bc4e2c025f256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 12/38] fix: reject imported records without fields and enums
 without symbols

---
 src/import.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/import.rs b/src/import.rs
index f7ad7b5..e16c17e 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -531,7 +531,7 @@ fn parse_record(
             })
             .collect::<Result<Vec<_>>>()?
     } else {
-        vec![]
+        miette::bail!("record `{name}` missing 'fields' array");
     };
 
     if let Some(field) = first_duplicate(fields.iter().map(|f| f.name.as_str())) {
@@ -576,6 +576,10 @@ fn parse_enum(
         .get("doc")
         .and_then(|d| d.as_str())
         .map(|s| s.to_string());
+    if !matches!(obj.get("symbols"), Some(Value::Array(symbols)) if symbols.iter().all(Value::is_string))
+    {
+        miette::bail!("enum `{name}` missing 'symbols' array of strings");
+    }
     let symbols = extract_string_array(obj.get("symbols"));
     for symbol in &symbols {
         validate_schema_name(symbol, None).map_err(|e| miette::miette!("{e}"))?;
-- 
2.43.0


From 569681aa299febbacd28aaf0e6877ccb14f28ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 13/38] fix: report a failed flush of standard output

---
 src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 8d36c85..5589ef4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -304,9 +304,11 @@ fn write_output(output: Option<&str>, content: &str) -> miette::Result<()> {
     match file_path {
         None => {
             // Write to stdout without trailing newline, matching Java behavior.
-            // Handle BrokenPipe gracefully.
+            // Handle BrokenPipe gracefully. Flush explicitly, because errors of
+            // the implicit flush at exit go unnoticed.
             use std::io::Write;
-            if let Err(e) = write!(io::stdout(), "{content}") {
+            let mut stdout = io::stdout();
+            if let Err(e) = write!(stdout, "{content}").and_then(|()| stdout.flush()) {
                 if e.kind() == io::ErrorKind::BrokenPipe {
                     return Ok(());
                 }
-- 
2.43.0


From fdceee9e1f290c83eb621b35ae4f917ccfa7a66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:01 +0000
Subject: [PATCH 14/38] fix: keep the span of the no-schema error on a
 character boundary

---
 src/compiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index a59f2d6..ff11a07 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -328,7 +328,7 @@ impl Idl {
             // via `drain_warnings()`.
             self.inner.accumulated_warnings = warnings;
 
-            let span_len = source.len().min(1);
+            let span_len = source.chars().next().map_or(0, char::len_utf8);
             return Err(ParseDiagnostic {
                 span: SpanWithSource::new(0, span_len, source_name, source),
                 message: "IDL file contains neither a protocol nor a schema declaration"
-- 
2.43.0


From af38600e2797f8d6fb6b27b3a59993fc4b36d05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:05 +0000
Subject: [PATCH 15/38] fix: forget the warnings of an earlier compilation even
 if the input cannot be read

---
 src/compiler.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler.rs b/src/compiler.rs
index ff11a07..fddfa15 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -92,6 +92,7 @@ impl IdlCompiler {
     /// `Idl2Schemata::extract(path)`. It reads the file, determines the parent
     /// directory and canonical path, then delegates to [`compile`](Self::compile).
     fn compile_file(&mut self, path: &Path) -> miette::Result<CompileOutput> {
+        self.accumulated_warnings.clear();
         let source = fs::read_to_string(path)
             .map_err(|e| miette::miette!("{e}"))
             .with_context(|| format!("read {}", path.display()))?;
@@ -117,6 +118,7 @@ impl IdlCompiler {
         source: &'static str,
         name: &'static str,
     ) -> miette::Result<CompileOutput> {
+        self.accumulated_warnings.clear();
         let cwd = std::env::current_dir()
             .map_err(|e| miette::miette!("{e}"))
             .context("determine current directory")?;
-- 
2.43.0


From 077b6344491d3ca713962bbe54c146881b91d00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:09 +0000
Subject: [PATCH 16/38] fix: keep the warnings of earlier files when extracting
 a directory fails

---
 src/compiler.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index fddfa15..51c4da0 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -511,7 +511,16 @@ impl Idl2Schemata {
         }
 
         for avdl_path in &avdl_paths {
-            let compiled = self.inner.compile_file(avdl_path)?;
+            let compiled = match self.inner.compile_file(avdl_path) {
+                Ok(compiled) => compiled,
+                Err(e) => {
+                    // Stash the warnings of the earlier files as well, so they are
+                    // available via `drain_warnings()`.
+                    all_warnings.append(&mut self.inner.accumulated_warnings);
+                    self.inner.accumulated_warnings = all_warnings;
+                    return Err(e);
+                }
+            };
             let output = Self::extract_impl(compiled);
             all_schemas.extend(output.schemas);
             all_warnings.extend(output.warnings);
-- 
2.43.0


From 85580616fe7953e7d0da772641e3b2439c693e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:13 +0000
Subject: [PATCH 17/38] fix: do not skip unreadable directories or read
 directories as files in directory extraction

---
 src/compiler.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 51c4da0..a4f1bd7 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -499,13 +499,12 @@ impl Idl2Schemata {
         let mut all_warnings = Vec::new();
 
         let mut avdl_paths: Vec<PathBuf> = Vec::new();
-        for entry in walkdir::WalkDir::new(dir)
-            .sort_by_file_name()
-            .into_iter()
-            .filter_map(|e| e.ok())
-        {
+        for entry in walkdir::WalkDir::new(dir).sort_by_file_name() {
+            let entry = entry
+                .map_err(|e| miette::miette!("{e}"))
+                .with_context(|| format!("read directory {}", dir.display()))?;
             let path = entry.path();
-            if path.extension().and_then(|e| e.to_str()) == Some("avdl") {
+            if path.extension().and_then(|e| e.to_str()) == Some("avdl") && !path.is_dir() {
                 avdl_paths.push(path.to_path_buf());
             }
         }
-- 
2.43.0


From ccfb82cf97a86e464a84a1eea8164f471d093db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 18/38] fix: accept the smallest long written in hexadecimal or
 octal

---
 src/reader.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 578338e..be01321 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4016,19 +4016,16 @@ fn parse_integer_literal(text: &str) -> Result<Value> {
         i64::from_str_radix(hex, 16)
             .map_err(|e| miette::miette!("invalid hex integer literal '{text}': {e}"))?
     } else if number.starts_with('-') && (number.starts_with("-0x") || number.starts_with("-0X")) {
-        let hex = &number[3..];
-        let abs = i64::from_str_radix(hex, 16)
-            .map_err(|e| miette::miette!("invalid hex integer literal '{text}': {e}"))?;
-        -abs
+        // Keep the sign: `i64::MIN` has no positive counterpart.
+        i64::from_str_radix(&format!("-{}", &number[3..]), 16)
+            .map_err(|e| miette::miette!("invalid hex integer literal '{text}': {e}"))?
     } else if number.starts_with('0') && number.len() > 1 && !number.contains('.') {
         // Octal.
         i64::from_str_radix(&number, 8)
             .map_err(|e| miette::miette!("invalid octal integer literal '{text}': {e}"))?
     } else if number.starts_with("-0") && number.len() > 2 && !number.contains('.') {
-        let oct = &number[1..];
-        let abs = i64::from_str_radix(oct, 8)
-            .map_err(|e| miette::miette!("invalid octal integer literal '{text}': {e}"))?;
-        -abs
+        i64::from_str_radix(&number, 8)
+            .map_err(|e| miette::miette!("invalid octal integer literal '{text}': {e}"))?
     } else {
         number
             .parse::<i64>()
-- 
2.43.0


From 8072bde7a1da9c2e73538b66a972f0ba88294112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 19/38] fix: round hexadecimal floating-point literals
 correctly

---
 src/reader.rs | 93 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 59 insertions(+), 34 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index be01321..66f8946 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4137,44 +4137,69 @@ fn parse_hex_float_mantissa_and_exponent(hex_body: &str, original: &str) -> Resu
         miette::miette!("invalid hex float literal '{original}': missing 'p'/'P' exponent")
     })?;
 
-    // Parse the binary exponent (decimal integer, possibly signed).
-    let exponent: i32 = exp_str
-        .parse()
-        .map_err(|e| miette::miette!("invalid hex float exponent in '{original}': {e}"))?;
-
-    // Parse the hex mantissa, which may contain a '.' decimal point.
-    let mantissa = if let Some((int_part, frac_part)) = mantissa_str.split_once('.') {
-        // Integer part: each hex digit contributes its value in the
-        // corresponding hex place.
-        let int_val = if int_part.is_empty() {
-            0.0
-        } else {
-            u64::from_str_radix(int_part, 16)
-                .map_err(|e| miette::miette!("invalid hex float mantissa in '{original}': {e}"))?
-                as f64
-        };
+    // Parse the binary exponent (decimal integer, possibly signed). An exponent
+    // too large to represent means infinity or zero anyway.
+    let mut exponent: i64 = match exp_str.parse::<i64>() {
+        Ok(exponent) => exponent,
+        Err(e) => match e.kind() {
+            std::num::IntErrorKind::PosOverflow => i64::MAX / 2,
+            std::num::IntErrorKind::NegOverflow => i64::MIN / 2,
+            _ => {
+                return Err(miette::miette!(
+                    "invalid hex float exponent in '{original}': {e}"
+                ));
+            }
+        },
+    };
 
-        // Fractional part: each hex digit after the point represents
-        // 1/16, 1/256, etc. of its value.
-        let mut frac_val = 0.0_f64;
-        let mut place = 1.0_f64 / 16.0;
-        for ch in frac_part.chars() {
-            let digit = ch.to_digit(16).ok_or_else(|| {
-                miette::miette!("invalid hex digit '{ch}' in float literal '{original}'")
-            })? as f64;
-            frac_val += digit * place;
-            place /= 16.0;
+    // Collect the leading significant digits of the mantissa, which may contain
+    // a '.', as an integer. Digits that no longer fit only matter for rounding,
+    // so they are folded into the lowest bit.
+    let (int_part, frac_part) = mantissa_str.split_once('.').unwrap_or((mantissa_str, ""));
+    let mut mantissa = 0_u64;
+    for ch in int_part.chars().chain(frac_part.chars()) {
+        let digit = ch.to_digit(16).ok_or_else(|| {
+            miette::miette!("invalid hex digit '{ch}' in float literal '{original}'")
+        })?;
+        if mantissa >> 60 == 0 {
+            mantissa = mantissa << 4 | u64::from(digit);
+        } else {
+            mantissa |= u64::from(digit != 0);
+            exponent = exponent.saturating_add(4);
         }
+    }
+    exponent = exponent.saturating_sub(4 * frac_part.len() as i64);
 
-        int_val + frac_val
-    } else {
-        // No decimal point — the mantissa is a plain hex integer.
-        u64::from_str_radix(mantissa_str, 16)
-            .map_err(|e| miette::miette!("invalid hex float mantissa in '{original}': {e}"))?
-            as f64
-    };
+    Ok(scale_by_power_of_two(mantissa, exponent))
+}
 
-    Ok(mantissa * 2.0_f64.powi(exponent))
+/// The double nearest to `mantissa * 2^exponent` (ties to even), as Java's
+/// `Double.parseDouble` rounds.
+fn scale_by_power_of_two(mantissa: u64, exponent: i64) -> f64 {
+    if mantissa == 0 {
+        return 0.0;
+    }
+    let bits = i64::from(u64::BITS - mantissa.leading_zeros());
+    // Exponent of the most significant bit.
+    let top = exponent.saturating_add(bits - 1);
+    if top > 1023 {
+        return f64::INFINITY;
+    }
+    if top < -1075 {
+        return 0.0;
+    }
+    // Subnormal numbers have fewer than 53 bits of precision.
+    let precision = 53 - (-1022 - top).max(0);
+    let excess = (bits - precision).max(0);
+    let kept = (u128::from(mantissa) >> excess) as u64;
+    let rest = u128::from(mantissa) - (u128::from(kept) << excess);
+    let half = (1_u128 << excess) >> 1;
+    let round_up = excess > 0 && (rest > half || (rest == half && kept & 1 == 1));
+    let significand = kept + u64::from(round_up);
+
+    // Scale in two steps because the power of two itself may be out of range.
+    let shift = (exponent + excess) as i32;
+    significand as f64 * 2.0_f64.powi(shift / 2) * 2.0_f64.powi(shift - shift / 2)
 }
 
 /// Parse an integer literal text into a u32 (for fixed size, decimal precision/scale).
-- 
2.43.0


From 109544186371a5377a5c1e42bb03d7a994d3a336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 20/38] fix: reject annotations that overwrite an attribute of
 a logical type

---
 src/reader.rs | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 66f8946..2faa745 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -3292,6 +3292,16 @@ fn walk_full_type<'input>(
             .push(Warning::annotations_dropped_on_union(&keys, src, ctx));
     }
 
+    // Annotations may not change what the type expression itself says. Java
+    // throws "Can't overwrite property" when they try to.
+    if let Some(key) = overwritten_attribute(&schema, &props.properties) {
+        return Err(make_diagnostic(
+            src,
+            ctx,
+            format!("Can't overwrite property: {key}"),
+        ));
+    }
+
     // Apply custom properties to the schema. For nullable unions we apply
     // properties to the non-null branch (matching the Java behavior).
     let schema = if !props.properties.is_empty() {
@@ -4291,6 +4301,35 @@ fn is_type_reference(schema: &AvroSchema) -> bool {
     }
 }
 
+/// Returns the name of an annotation that would give an attribute of a logical
+/// type (such as the precision of `decimal(5, 2)`) another value.
+fn overwritten_attribute(
+    schema: &AvroSchema,
+    properties: &HashMap<String, Value>,
+) -> Option<&'static str> {
+    let logical_type = match schema {
+        AvroSchema::Logical { logical_type, .. } => logical_type,
+        AvroSchema::Union {
+            types,
+            is_nullable_type: true,
+        } => {
+            return types
+                .iter()
+                .find_map(|branch| overwritten_attribute(branch, properties));
+        }
+        _ => return None,
+    };
+    let mut attributes = vec![("logicalType", Value::from(logical_type.name()))];
+    if let LogicalType::Decimal { precision, scale } = logical_type {
+        attributes.push(("precision", Value::from(*precision)));
+        attributes.push(("scale", Value::from(*scale)));
+    }
+    attributes
+        .into_iter()
+        .find(|(key, value)| properties.get(*key).is_some_and(|new| new != value))
+        .map(|(key, _)| key)
+}
+
 /// Returns true when the schema is a union that `apply_properties` cannot
 /// attach annotations to. Nullable two-member unions (`type?` syntax) are
 /// excluded because `apply_properties` correctly forwards annotations to
-- 
2.43.0


From 764817c8ceadc5c21e525199c55fcb93688aeb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 21/38] fix: locate lexer errors after non-ASCII text

---
 src/reader.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 2faa745..a07372d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1820,7 +1820,12 @@ fn line_col_to_byte_offset(source: &str, line: isize, column: isize) -> usize {
     let mut offset = 0;
     for (i, src_line) in source.split('\n').enumerate() {
         if i == target_line {
-            return offset + (column as usize).min(src_line.len());
+            // ANTLR counts columns in characters.
+            return offset
+                + src_line
+                    .char_indices()
+                    .nth(column as usize)
+                    .map_or(src_line.len(), |(i, _)| i);
         }
         offset += src_line.len() + 1; // +1 for the newline character
     }
@@ -1873,7 +1878,10 @@ impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for CollectingErrorListener {
                 // the byte offset from (line, column) using the source text.
                 if let Some(src) = self.source {
                     let offset = line_col_to_byte_offset(src, line, column);
-                    (offset, 1)
+                    (
+                        offset,
+                        src[offset..].chars().next().map_or(0, char::len_utf8),
+                    )
                 } else {
                     (0, 0)
                 }
-- 
2.43.0


From 17e170b488b86ce15eba8c5192172ce6357cd333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 22/38] fix: attribute undefined names of imported JSON to the
 file that uses them

---
 src/compiler.rs | 178 +++++++++++++++++++++++++++---------------------
 1 file changed, 101 insertions(+), 77 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index a4f1bd7..ec2e40b 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -155,13 +155,9 @@ impl IdlCompiler {
         // Validate that all type references resolved. Unresolved references
         // indicate missing imports, undefined types, or cross-namespace
         // references that need fully-qualified names.
-        if let Err(e) = validate_all_references(
-            &idl_file,
-            &registry,
-            source,
-            source_name,
-            &ctx.json_import_spans,
-        ) {
+        if let Err(e) =
+            validate_all_references(&idl_file, &registry, source, source_name, &ctx.json_imports)
+        {
             self.accumulated_warnings = std::mem::take(&mut ctx.warnings);
             return Err(e);
         }
@@ -580,11 +576,20 @@ struct CompileContext {
     import_ctx: ImportContext,
     messages: HashMap<String, Message>,
     warnings: Vec<miette::Report>,
-    /// Maps JSON-imported file display names to their import statement spans
-    /// in the IDL source. Used to enrich error messages for unresolved
-    /// references from `.avsc`/`.avpr` imports, which lack source spans of
-    /// their own.
-    json_import_spans: Vec<(String, Option<SpanWithSource>)>,
+    /// The JSON files imported so far. Used to enrich error messages for
+    /// unresolved references from `.avsc`/`.avpr` imports, which lack source
+    /// spans of their own.
+    json_imports: Vec<JsonImport>,
+}
+
+/// A `.avsc` or `.avpr` file that has been imported.
+struct JsonImport {
+    /// Display name of the file.
+    path: String,
+    /// The import statement in the IDL source.
+    span: Option<SpanWithSource>,
+    /// Full names the file refers to that were undefined when it was imported.
+    undefined: HashSet<String>,
 }
 
 impl CompileContext {
@@ -594,9 +599,38 @@ impl CompileContext {
             import_ctx: ImportContext::new(import_dirs.to_vec()),
             messages: HashMap::new(),
             warnings: Vec::new(),
-            json_import_spans: Vec::new(),
+            json_imports: Vec::new(),
         }
     }
+
+    /// Remember an imported JSON file together with the undefined names in the
+    /// types it registered (those from index `first_new` on) and its messages.
+    fn track_json_import(
+        &mut self,
+        import: &crate::reader::ImportEntry,
+        path: &Path,
+        first_new: usize,
+        messages: &HashMap<String, Message>,
+    ) {
+        let new_schemas = self.registry.schemas().skip(first_new);
+        let undefined = new_schemas
+            .chain(messages.values().flat_map(message_schemas))
+            .flat_map(|schema| self.registry.validate_schema(schema))
+            .map(|(name, _)| name)
+            .collect();
+        self.json_imports.push(JsonImport {
+            path: path.display().to_string(),
+            span: import.span,
+            undefined,
+        });
+    }
+}
+
+/// The schemas in a message's signature: response, parameters and errors.
+fn message_schemas(message: &Message) -> impl Iterator<Item = &crate::model::schema::AvroSchema> {
+    std::iter::once(&message.response)
+        .chain(message.request.iter().map(|field| &field.schema))
+        .chain(message.errors.iter().flatten())
 }
 
 /// Parse IDL source and recursively resolve all imports.
@@ -791,23 +825,23 @@ fn resolve_single_import(
 
     match import.kind {
         ImportKind::Protocol => {
+            let first_new = ctx.registry.schemas().count();
             let imported_messages = import_protocol(&resolved_path, &mut ctx.registry)
                 .map_err(|e| wrap_import_error(e, import.span, &resolved_path, "protocol"))?;
-            ctx.messages.extend(imported_messages);
 
             // Track the import so unresolved references from this .avpr can
             // be attributed to the import statement in error diagnostics.
-            ctx.json_import_spans
-                .push((resolved_path.display().to_string(), import.span));
+            ctx.track_json_import(import, &resolved_path, first_new, &imported_messages);
+            ctx.messages.extend(imported_messages);
         }
         ImportKind::Schema => {
+            let first_new = ctx.registry.schemas().count();
             import_schema(&resolved_path, &mut ctx.registry)
                 .map_err(|e| wrap_import_error(e, import.span, &resolved_path, "schema"))?;
 
             // Track the import so unresolved references from this .avsc can
             // be attributed to the import statement in error diagnostics.
-            ctx.json_import_spans
-                .push((resolved_path.display().to_string(), import.span));
+            ctx.track_json_import(import, &resolved_path, first_new, &HashMap::new());
         }
         ImportKind::Idl => {
             let imported_source = fs::read_to_string(&resolved_path)
@@ -833,7 +867,7 @@ fn resolve_single_import(
 
             // Recursively process declaration items from the imported file.
             // IDL imports use their own source text for span tracking, so
-            // `ctx.json_import_spans` is passed through to capture any nested
+            // `ctx.json_imports` is passed through to capture any nested
             // JSON imports within the imported IDL file.
             process_decl_items(&nested_decl_items, ctx, &import_dir).with_context(|| {
                 format!("resolve nested imports from `{}`", resolved_path.display())
@@ -1011,7 +1045,7 @@ fn validate_all_references(
     registry: &SchemaRegistry,
     source: &'static str,
     source_name: &'static str,
-    json_import_spans: &[(String, Option<SpanWithSource>)],
+    json_imports: &[JsonImport],
 ) -> miette::Result<()> {
     let mut unresolved = registry.validate_references();
 
@@ -1036,14 +1070,8 @@ fn validate_all_references(
             let mut messages: Vec<_> = protocol.messages.iter().collect();
             messages.sort_by_key(|(name, _)| *name);
             for (_, msg) in messages {
-                unresolved.extend(registry.validate_schema(&msg.response));
-                for field in &msg.request {
-                    unresolved.extend(registry.validate_schema(&field.schema));
-                }
-                if let Some(errors) = &msg.errors {
-                    for err_schema in errors {
-                        unresolved.extend(registry.validate_schema(err_schema));
-                    }
+                for schema in message_schemas(msg) {
+                    unresolved.extend(registry.validate_schema(schema));
                 }
             }
         }
@@ -1071,49 +1099,41 @@ fn validate_all_references(
     let (with_span, without_span): (Vec<_>, Vec<_>) =
         unresolved.into_iter().partition(|(_, s)| s.is_some());
 
-    // Build a help message listing the JSON-imported files that may contain
-    // the undefined type, for use in spanless reference diagnostics.
-    let import_file_names: Vec<&str> = json_import_spans
-        .iter()
-        .map(|(path, _)| path.as_str())
-        .collect();
-
     if with_span.is_empty() {
         // All unresolved references come from JSON imports (no IDL source
-        // spans). Use the first available import statement span to point
-        // the user at the import line, with a help message naming the
-        // imported file(s).
-        let first_import_span = json_import_spans.iter().find_map(|(_, s)| *s);
-
-        let names: Vec<&str> = without_span.iter().map(|(name, _)| name.as_str()).collect();
-        let message = format!("Undefined name: {}", names.join(", "));
-
-        let help = if import_file_names.is_empty() {
-            None
-        } else {
-            Some(format!(
-                "the undefined type(s) may be referenced in imported file(s): {}",
-                import_file_names.join(", ")
-            ))
-        };
-
-        if let Some(span) = first_import_span {
-            return Err(ParseDiagnostic {
-                span,
-                message,
-                label: Some("this import contains undefined type references".to_string()),
-                help,
-                related: Vec::new(),
+        // spans). Point the user at the import statement of the first file that
+        // refers to undefined types; the other ones become related diagnostics.
+        let mut diagnostics = Vec::new();
+        let mut rest: Vec<&str> = without_span.iter().map(|(name, _)| name.as_str()).collect();
+        for import in json_imports {
+            let (names, others): (Vec<_>, Vec<_>) = rest
+                .into_iter()
+                .partition(|&name| import.undefined.contains(name));
+            rest = others;
+            if let Some(span) = import.span
+                && !names.is_empty()
+            {
+                diagnostics.push(ParseDiagnostic {
+                    span,
+                    message: format!("Undefined name: {}", names.join(", ")),
+                    label: Some("this import contains undefined type references".to_string()),
+                    help: Some(format!(
+                        "the undefined type(s) may be referenced in imported file(s): {}",
+                        import.path
+                    )),
+                    related: Vec::new(),
+                });
             }
-            .into());
+        }
+        if !diagnostics.is_empty() {
+            let mut first = diagnostics.remove(0);
+            first.related = diagnostics;
+            return Err(first.into());
         }
 
         // No import span available either (e.g., import from string input
-        // without span tracking). Fall back to plain message with help.
-        if let Some(help) = help {
-            miette::bail!("{message}\n  help: {help}");
-        }
-        miette::bail!("{message}");
+        // without span tracking). Fall back to plain message.
+        miette::bail!("Undefined name: {}", rest.join(", "));
     }
 
     // The first spanned reference becomes the primary diagnostic; the rest
@@ -1143,24 +1163,28 @@ fn validate_all_references(
     // available. Include "did you mean?" suggestions where applicable.
     let fallback_span = SpanWithSource::new(0, 0, source_name, source);
     for (name, _) in &without_span {
-        let (span, label) = if let Some((path, Some(import_span))) = json_import_spans.first() {
-            (
+        let import = json_imports
+            .iter()
+            .find(|import| import.undefined.contains(name));
+        let (span, label) = match import {
+            Some(JsonImport {
+                path,
+                span: Some(import_span),
+                ..
+            }) => (
                 *import_span,
                 Some(format!(
                     "type `{name}` referenced in imported file `{path}`"
                 )),
-            )
-        } else {
-            (fallback_span, None)
+            ),
+            _ => (fallback_span, None),
         };
 
-        let help = if import_file_names.is_empty() {
-            suggest_similar_name(name, registry)
-        } else {
-            Some(format!(
-                "the undefined type may be referenced in imported file(s): {}",
-                import_file_names.join(", ")
-            ))
+        let help = match import {
+            Some(JsonImport { path, .. }) => Some(format!(
+                "the undefined type may be referenced in imported file(s): {path}"
+            )),
+            None => suggest_similar_name(name, registry),
         };
 
         related.push(ParseDiagnostic {
-- 
2.43.0


From b7fbb1317f1350ee973233dbd1a3ce2f2e6ecfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 23/38] fix: reject input nested too deeply instead of
 overflowing the stack

---
 src/reader.rs | 48 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index a07372d..6e557e0 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -30,7 +30,7 @@ use antlr4rust::common_token_stream::CommonTokenStream;
 use antlr4rust::error_listener::ErrorListener;
 use antlr4rust::parser::Parser;
 use antlr4rust::recognizer::Recognizer;
-use antlr4rust::token::Token;
+use antlr4rust::token::{TOKEN_EOF, Token};
 use antlr4rust::token_factory::TokenFactory;
 use antlr4rust::token_stream::TokenStream;
 use antlr4rust::tree::{ParseTree, Tree};
@@ -1810,6 +1810,49 @@ fn extract_line_prefix(msg: &str) -> &str {
     ""
 }
 
+/// How deeply brackets may nest. The parser and everything that walks its result
+/// recurse once or more per level, so deeper input would overflow the stack.
+const MAX_NESTING_DEPTH: usize = 64;
+
+/// Fail if brackets nest more deeply than [`MAX_NESTING_DEPTH`]. Leaves the token
+/// stream where it was.
+fn reject_deep_nesting<'input, S>(
+    token_stream: &mut S,
+    source_name: &'static str,
+    source: &'static str,
+) -> Result<()>
+where
+    S: TokenStream<'input>,
+{
+    let start = token_stream.index();
+    let mut depth = 0_usize;
+    loop {
+        match token_stream.la(1) {
+            TOKEN_EOF => break,
+            Idl_LParen | Idl_LBrace | Idl_LBracket | Idl_LT => depth += 1,
+            Idl_RParen | Idl_RBrace | Idl_RBracket | Idl_GT => depth = depth.saturating_sub(1),
+            _ => {}
+        }
+        if depth > MAX_NESTING_DEPTH {
+            let offset = token_stream.lt(1).map_or(0, |token| {
+                let token: &<S::TF as TokenFactory<'input>>::Inner = token.borrow();
+                token.get_start() as usize
+            });
+            return Err(ParseDiagnostic {
+                span: SpanWithSource::new(offset, 1, source_name, source),
+                message: format!("nested more than {MAX_NESTING_DEPTH} levels deep"),
+                label: None,
+                help: None,
+                related: Vec::new(),
+            }
+            .into());
+        }
+        token_stream.consume();
+    }
+    token_stream.seek(start);
+    Ok(())
+}
+
 /// Convert 1-based `line` and 0-based `column` (as reported by ANTLR) to a
 /// byte offset into `source`. Returns 0 if the coordinates are out of range.
 fn line_col_to_byte_offset(source: &str, line: isize, column: isize) -> usize {
@@ -2046,7 +2089,8 @@ pub fn parse_idl_named(
         source: Some(input),
     }));
 
-    let token_stream = CommonTokenStream::new(lexer);
+    let mut token_stream = CommonTokenStream::new(lexer);
+    reject_deep_nesting(&mut token_stream, source_name, input)?;
     let mut parser = IdlParser::new(token_stream);
 
     // Build a parse tree so we can walk it recursively. The `build_parse_trees`
-- 
2.43.0


From ba4ac4716b8dbab0341058e0d21dfc02ff3087ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:18 +0000
Subject: [PATCH 24/38] fix: report undefined names in all messages and schema
 declarations of imported files

---
 src/compiler.rs | 45 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index ec2e40b..f7b169f 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -30,7 +30,7 @@ use crate::error::{ParseDiagnostic, SpanWithSource};
 use crate::import::{ImportContext, import_protocol, import_schema};
 use crate::model::json::{build_lookup, protocol_to_json, schema_to_json};
 use crate::model::protocol::Message;
-use crate::model::schema::validate_record_field_defaults;
+use crate::model::schema::{AvroSchema, validate_record_field_defaults};
 use crate::reader::{DeclItem, IdlFile, ImportKind, parse_idl_named};
 use crate::resolve::SchemaRegistry;
 
@@ -155,9 +155,14 @@ impl IdlCompiler {
         // Validate that all type references resolved. Unresolved references
         // indicate missing imports, undefined types, or cross-namespace
         // references that need fully-qualified names.
-        if let Err(e) =
-            validate_all_references(&idl_file, &registry, source, source_name, &ctx.json_imports)
-        {
+        if let Err(e) = validate_all_references(
+            &idl_file,
+            &registry,
+            source,
+            source_name,
+            &ctx.json_imports,
+            &ctx.unregistered,
+        ) {
             self.accumulated_warnings = std::mem::take(&mut ctx.warnings);
             return Err(e);
         }
@@ -580,6 +585,10 @@ struct CompileContext {
     /// unresolved references from `.avsc`/`.avpr` imports, which lack source
     /// spans of their own.
     json_imports: Vec<JsonImport>,
+    /// Schemas of imported files that are not registered: schema declarations
+    /// and the signatures of messages. They may not end up in the output, but
+    /// the names they refer to must be defined all the same.
+    unregistered: Vec<AvroSchema>,
 }
 
 /// A `.avsc` or `.avpr` file that has been imported.
@@ -600,9 +609,20 @@ impl CompileContext {
             messages: HashMap::new(),
             warnings: Vec::new(),
             json_imports: Vec::new(),
+            unregistered: Vec::new(),
         }
     }
 
+    /// Merge the messages of an imported protocol.
+    fn add_messages(&mut self, messages: HashMap<String, Message>) {
+        let mut sorted: Vec<_> = messages.iter().collect();
+        sorted.sort_by_key(|(name, _)| *name);
+        for (_, message) in sorted {
+            self.unregistered.extend(message_schemas(message).cloned());
+        }
+        self.messages.extend(messages);
+    }
+
     /// Remember an imported JSON file together with the undefined names in the
     /// types it registered (those from index `first_new` on) and its messages.
     fn track_json_import(
@@ -627,7 +647,7 @@ impl CompileContext {
 }
 
 /// The schemas in a message's signature: response, parameters and errors.
-fn message_schemas(message: &Message) -> impl Iterator<Item = &crate::model::schema::AvroSchema> {
+fn message_schemas(message: &Message) -> impl Iterator<Item = &AvroSchema> {
     std::iter::once(&message.response)
         .chain(message.request.iter().map(|field| &field.schema))
         .chain(message.errors.iter().flatten())
@@ -832,7 +852,7 @@ fn resolve_single_import(
             // Track the import so unresolved references from this .avpr can
             // be attributed to the import statement in error diagnostics.
             ctx.track_json_import(import, &resolved_path, first_new, &imported_messages);
-            ctx.messages.extend(imported_messages);
+            ctx.add_messages(imported_messages);
         }
         ImportKind::Schema => {
             let first_new = ctx.registry.schemas().count();
@@ -875,8 +895,13 @@ fn resolve_single_import(
 
             // If the imported IDL is a protocol, merge its messages. They come
             // after the messages of its own imports, over which they win.
-            if let IdlFile::Protocol(imported_protocol) = imported_idl {
-                ctx.messages.extend(imported_protocol.messages);
+            match imported_idl {
+                IdlFile::Protocol(imported_protocol) => {
+                    ctx.add_messages(imported_protocol.messages);
+                }
+                IdlFile::Schema(schema) => ctx.unregistered.push(schema),
+                // The named schemas themselves are registered.
+                IdlFile::NamedSchemas(_) => {}
             }
         }
     }
@@ -1046,8 +1071,12 @@ fn validate_all_references(
     source: &'static str,
     source_name: &'static str,
     json_imports: &[JsonImport],
+    unregistered: &[AvroSchema],
 ) -> miette::Result<()> {
     let mut unresolved = registry.validate_references();
+    for schema in unregistered {
+        unresolved.extend(registry.validate_schema(schema));
+    }
 
     // `Schema` and `NamedSchemas` store their top-level schemas outside
     // the registry, so `validate_references` alone misses unresolved references
-- 
2.43.0


From 7566afe86701d8e107bd620458f59996e0d4b18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 25/38] fix: reject two messages of one name instead of
 dropping the first

---
 src/reader.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 6e557e0..31e6d67 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -2816,6 +2816,13 @@ fn walk_protocol<'input>(
         } else if let Ok(msg_ctx) = child.downcast_rc::<MessageDeclarationContextAll<'input>>() {
             let (msg_name, message) =
                 walk_message(&msg_ctx, token_stream, src, namespace.as_deref())?;
+            if let (Some(name_ctx), true) = (&msg_ctx.name, messages.contains_key(&msg_name)) {
+                return Err(make_diagnostic(
+                    src,
+                    &**name_ctx,
+                    format!("duplicate message: {msg_name}"),
+                ));
+            }
             messages.insert(msg_name, message);
         }
     }
-- 
2.43.0


From 78c1d591a6b877022613b79cddb1bc9d13c89f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 26/38] fix: reject imported protocols that are not Avro
 protocols instead of importing nothing

---
 src/import.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/import.rs b/src/import.rs
index e16c17e..6e0f438 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -312,6 +312,19 @@ pub fn import_protocol(
     let json: Value = parse_json_with_comments(&content)
         .map_err(|e| miette::miette!("invalid JSON in {}: {e}", path.display()))?;
 
+    // Anything else (e.g., a schema imported as a protocol) would silently
+    // contribute nothing.
+    let well_formed = json.get("protocol").is_some_and(Value::is_string)
+        && json.get("types").is_none_or(Value::is_array)
+        && json.get("messages").is_none_or(Value::is_object);
+    if !well_formed {
+        return Err(miette::miette!(
+            "`{}` is not an Avro protocol: expected a JSON object with a string `protocol`, \
+             and an array `types` and an object `messages` if present",
+            path.display()
+        ));
+    }
+
     let default_namespace = json.get("namespace").and_then(|n| n.as_str());
     let mut messages = HashMap::new();
 
-- 
2.43.0


From 4578d4832d2c3264a5fc4e04b19a2d60fd47c520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:25 +0000
Subject: [PATCH 27/38] fix: keep the span of errors at the end of the file
 inside the source

---
 src/error.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index fdbe248..dac6a32 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -25,7 +25,8 @@ impl SpanWithSource {
     ) -> Self {
         SpanWithSource {
             offset,
-            length,
+            // The end-of-file token has no text, but is given a length of one.
+            length: length.min(content.len().saturating_sub(offset)),
             name: file_name,
             content,
         }
-- 
2.43.0


From e72711d46d043f57526ff37f3a382d519b8ecb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 28/38] fix: reject undefined names at the top level of
 imported schemas

---
 src/compiler.rs | 23 +++++++++++++++++------
 src/import.rs   |  7 +++----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index f7b169f..2504649 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -585,8 +585,8 @@ struct CompileContext {
     /// unresolved references from `.avsc`/`.avpr` imports, which lack source
     /// spans of their own.
     json_imports: Vec<JsonImport>,
-    /// Schemas of imported files that are not registered: schema declarations
-    /// and the signatures of messages. They may not end up in the output, but
+    /// Schemas of imported files that are not registered: schema declarations,
+    /// top-level schemas of `.avsc` files and the signatures of messages. They may not end up in the output, but
     /// the names they refer to must be defined all the same.
     unregistered: Vec<AvroSchema>,
 }
@@ -624,17 +624,20 @@ impl CompileContext {
     }
 
     /// Remember an imported JSON file together with the undefined names in the
-    /// types it registered (those from index `first_new` on) and its messages.
+    /// types it registered (those from index `first_new` on), its messages and
+    /// its top-level schema.
     fn track_json_import(
         &mut self,
         import: &crate::reader::ImportEntry,
         path: &Path,
         first_new: usize,
         messages: &HashMap<String, Message>,
+        top_level: Option<&AvroSchema>,
     ) {
         let new_schemas = self.registry.schemas().skip(first_new);
         let undefined = new_schemas
             .chain(messages.values().flat_map(message_schemas))
+            .chain(top_level)
             .flat_map(|schema| self.registry.validate_schema(schema))
             .map(|(name, _)| name)
             .collect();
@@ -851,17 +854,25 @@ fn resolve_single_import(
 
             // Track the import so unresolved references from this .avpr can
             // be attributed to the import statement in error diagnostics.
-            ctx.track_json_import(import, &resolved_path, first_new, &imported_messages);
+            ctx.track_json_import(import, &resolved_path, first_new, &imported_messages, None);
             ctx.add_messages(imported_messages);
         }
         ImportKind::Schema => {
             let first_new = ctx.registry.schemas().count();
-            import_schema(&resolved_path, &mut ctx.registry)
+            let top_level = import_schema(&resolved_path, &mut ctx.registry)
                 .map_err(|e| wrap_import_error(e, import.span, &resolved_path, "schema"))?;
 
             // Track the import so unresolved references from this .avsc can
             // be attributed to the import statement in error diagnostics.
-            ctx.track_json_import(import, &resolved_path, first_new, &HashMap::new());
+            let no_messages = HashMap::new();
+            ctx.track_json_import(
+                import,
+                &resolved_path,
+                first_new,
+                &no_messages,
+                Some(&top_level),
+            );
+            ctx.unregistered.push(top_level);
         }
         ImportKind::Idl => {
             let imported_source = fs::read_to_string(&resolved_path)
diff --git a/src/import.rs b/src/import.rs
index 6e0f438..471599e 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -378,7 +378,8 @@ pub fn import_protocol(
 /// named types (record, enum, fixed) found in the schema tree -- including those
 /// nested inside record fields, union branches, array items, or map values --
 /// are registered so that subsequent IDL code can reference them by name.
-pub fn import_schema(path: &Path, registry: &mut SchemaRegistry) -> Result<()> {
+/// Returns the top-level schema with references in place of those types.
+pub fn import_schema(path: &Path, registry: &mut SchemaRegistry) -> Result<AvroSchema> {
     let content = std::fs::read_to_string(path)
         .map_err(|e| miette::miette!("read schema file `{}`: {e}", path.display()))?;
     let json: Value = parse_json_with_comments(&content)
@@ -386,9 +387,7 @@ pub fn import_schema(path: &Path, registry: &mut SchemaRegistry) -> Result<()> {
 
     let schema = json_to_schema(&json, None)
         .map_err(|e| miette::miette!("parse schema from `{}`: {e}", path.display()))?;
-    flatten_and_register(schema, registry);
-
-    Ok(())
+    Ok(flatten_and_register(schema, registry))
 }
 
 // ==============================================================================
-- 
2.43.0


From bd918799540858d1496bd089bef59bfce8eb02ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:53 +0000
Subject: [PATCH 29/38] fix: do not blame the size of an earlier fixed type for
 a stray parenthesis

---
 src/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 31e6d67..e69c926 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1460,6 +1460,10 @@ fn detect_fixed_non_integer(error: &SyntaxError, source: &str) -> Option<SyntaxE
 
     // Extract the non-integer content between the parens.
     let after_paren = &source[paren_pos + 1..error.offset];
+    if after_paren.contains(')') {
+        // The size is complete; the unexpected `)` is a later one.
+        return None;
+    }
     let bad_size = after_paren.trim();
 
     let line_prefix = extract_line_prefix(&error.message);
-- 
2.43.0


From a3878d406b006408f3dedae12b8a74a11bb5ef6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:58 +0000
Subject: [PATCH 30/38] fix: measure edit distance in characters so non-ASCII
 names get suggestions

---
 src/suggest.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/suggest.rs b/src/suggest.rs
index 5c3ac83..f834aea 100644
--- a/src/suggest.rs
+++ b/src/suggest.rs
@@ -11,8 +11,8 @@
 /// (O(min(m, n)) space). This is sufficient for identifiers and type names,
 /// which are short.
 pub(crate) fn levenshtein(a: &str, b: &str) -> usize {
-    let a_len = a.len();
-    let b_len = b.len();
+    let a_len = a.chars().count();
+    let b_len = b.chars().count();
     if a_len == 0 {
         return b_len;
     }
-- 
2.43.0


From 706f9702e2be6907b131e4e55fa140efd79141c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:38 +0000
Subject: [PATCH 31/38] fix: drop the warnings of an earlier failure when a
 directory is extracted

---
 src/compiler.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler.rs b/src/compiler.rs
index 2504649..082e1e9 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -496,6 +496,7 @@ impl Idl2Schemata {
     /// each. Each file is processed independently with its own registry.
     /// Results are concatenated.
     fn extract_directory(&mut self, dir: &Path) -> miette::Result<SchemataOutput> {
+        self.inner.accumulated_warnings.clear();
         let mut all_schemas = Vec::new();
         let mut all_warnings = Vec::new();
 
-- 
2.43.0


From 78acbf97a5e7d8ee337d1d74f4963ce62dd8d178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:43 +0000
Subject: [PATCH 32/38] fix: find the brace, comma or keyword a syntax error is
 about by the tokens around it

Braces in comments were counted, a comma before any brace after the word enum was an enum's,
dotted and non-ASCII names hid the keyword before them, and a type similar to a keyword was
taken for a misspelled one.
---
 src/reader.rs | 307 ++++++++++++++++----------------------------------
 1 file changed, 99 insertions(+), 208 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index e69c926..183462f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1301,20 +1301,22 @@ fn detect_empty_type_parameter(error: &SyntaxError, source: &str) -> Option<Synt
 /// field type and then sees `{` instead of `;`, producing the confusing error
 /// "unexpected `{` expected `;` or `,`".
 ///
-/// We detect this by checking if the offending token is `{`, the error
-/// mentions "expected" `';'` or `','`, and a declaration keyword
-/// (`record`/`enum`/`error`/`fixed`) precedes the `{`. When these conditions
+/// We detect this by checking if the offending token is `{` (`(` for `fixed`),
+/// the error mentions "expected" `';'` or `','`, and a declaration keyword
+/// (`record`/`enum`/`error`/`fixed`) precedes it. When these conditions
 /// hold, we walk the brace stack from the start of the file to find the
 /// innermost unclosed `{` and point the error there.
 fn detect_missing_close_brace_before_declaration(
     error: &SyntaxError,
     source: &str,
 ) -> Option<SyntaxError> {
-    // The error token should be `{`.
+    // The error token should be `{`, or `(` after `fixed`.
     let error_text = source.get(error.offset..error.offset + error.length)?;
-    if error_text.trim() != "{" {
-        return None;
-    }
+    let is_decl_keyword: fn(&str) -> bool = match error_text.trim() {
+        "{" => |word| matches!(word, "record" | "enum" | "error"),
+        "(" => |word| word == "fixed",
+        _ => return None,
+    };
 
     // The error message should mention expecting `;` or `,` -- that's the
     // telltale sign that ANTLR parsed the declaration keyword as a type name.
@@ -1324,83 +1326,18 @@ fn detect_missing_close_brace_before_declaration(
         return None;
     }
 
-    // Look backwards from the `{` to find a declaration keyword.
-    let before = source[..error.offset].trim_end();
-
-    // Skip the name (e.g., `Bar` in `record Bar {`).
-    let name_end = before.len();
-    let name_start = before
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_' && b != b'`')
-        .map(|p| p + 1)
-        .unwrap_or(0);
-
-    if name_start >= name_end {
+    // Look backwards from there to find a declaration keyword. It is before the
+    // name (e.g., `Bar` in `record Bar {`), or takes its place if there is none.
+    let (before_name, name_text) = split_last_word(&source[..error.offset]);
+    let (_, word_before_name) = split_last_word(before_name);
+    if !is_decl_keyword(name_text) && !is_decl_keyword(word_before_name) {
         return None;
     }
 
-    let name_text = &before[name_start..name_end];
-
-    // Check if the "name" is actually a declaration keyword (for cases
-    // like `enum {` without a name, though those are rare here).
-    let is_decl_keyword = matches!(name_text, "record" | "enum" | "error" | "fixed");
-
-    // If it's not a keyword, check if the word before the name is.
-    let keyword_before_name = if !is_decl_keyword {
-        let before_name = before[..name_start].trim_end();
-        let kw_end = before_name.len();
-        let kw_start = before_name
-            .bytes()
-            .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_')
-            .map(|p| p + 1)
-            .unwrap_or(0);
-        if kw_start < kw_end {
-            matches!(
-                &before_name[kw_start..kw_end],
-                "record" | "enum" | "error" | "fixed"
-            )
-        } else {
-            false
-        }
-    } else {
-        false
-    };
-
-    if !is_decl_keyword && !keyword_before_name {
-        return None;
-    }
-
-    // Count braces in the source up to (but not including) the error offset,
-    // to find the innermost unclosed `{`. We ignore braces inside strings.
-    let mut brace_stack: Vec<usize> = Vec::new();
-    let mut in_string = false;
-    let mut prev_backslash = false;
-    for (i, b) in source[..error.offset].bytes().enumerate() {
-        if in_string {
-            if b == b'"' && !prev_backslash {
-                in_string = false;
-            }
-            prev_backslash = b == b'\\' && !prev_backslash;
-            continue;
-        }
-        match b {
-            b'"' => in_string = true,
-            b'{' => brace_stack.push(i),
-            b'}' => {
-                brace_stack.pop();
-            }
-            _ => {}
-        }
-    }
-
-    // If there's no unclosed brace, this pattern doesn't apply.
-    if brace_stack.is_empty() {
-        return None;
-    }
-
-    // The last unclosed `{` is the most likely culprit (the record that
-    // was never closed).
-    let unmatched_pos = *brace_stack.last().expect("non-empty stack");
+    // The last `{` still open before the error is the most likely culprit (the
+    // record that was never closed). If there's no unclosed brace, this pattern
+    // doesn't apply.
+    let unmatched_pos = innermost_open_brace(&source[..error.offset])?;
     let before_unmatched = source[..unmatched_pos].trim_end();
     let construct = identify_construct(before_unmatched);
 
@@ -1560,36 +1497,16 @@ fn detect_trailing_comma_in_enum(error: &SyntaxError, source: &str) -> Option<Sy
         return None;
     }
 
-    // Verify we're inside an enum by searching backwards for `enum`.
-    // We look for `enum <Name> {` before the comma.
     let before_comma = &before[..before.len() - 1];
-    // Check if any `enum` keyword appears earlier in the source, with a `{`
-    // between it and the current position.
-    let has_enum = source[..error.offset]
-        .rmatch_indices("enum")
-        .any(|(pos, _)| {
-            // Make sure `enum` is followed by a name and `{`.
-            let after_enum = &source[pos + 4..error.offset];
-            after_enum.contains('{')
-        });
 
-    if !has_enum {
+    // Verify that the brace being closed is the one of an enum.
+    let open_brace = innermost_open_brace(before_comma)?;
+    if identify_construct(&source[..open_brace]) != Some("enum") {
         return None;
     }
 
     // Find the last enum symbol before the trailing comma.
-    let before_comma_trimmed = before_comma.trim_end();
-    let sym_end = before_comma_trimmed.len();
-    let sym_start = before_comma_trimmed
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_')
-        .map(|p| p + 1)
-        .unwrap_or(0);
-    let last_symbol = if sym_start < sym_end {
-        &before_comma_trimmed[sym_start..sym_end]
-    } else {
-        ""
-    };
+    let (_, last_symbol) = split_last_word(before_comma);
 
     // Point the error at the trailing comma.
     let comma_offset = before.len() - 1;
@@ -1619,46 +1536,31 @@ fn detect_trailing_comma_in_enum(error: &SyntaxError, source: &str) -> Option<Sy
 /// produce cascading errors. The first error typically points at the `{`
 /// or the token after the misspelled keyword.
 fn detect_misspelled_keyword(error: &SyntaxError, source: &str) -> Option<SyntaxError> {
-    let before = &source[..error.offset];
-
     // Walk backwards from the error, skipping whitespace and then the
     // identifier before the error (which ANTLR consumed as a name like `Foo`
     // in `recrod Foo {`).
-    let trimmed = before.trim_end();
-
-    // Skip the identifier that ANTLR consumed as the name.
-    let name_end = trimmed.len();
-    let name_start = trimmed
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_' && b != b'`')
-        .map(|p| p + 1)
-        .unwrap_or(0);
-
-    if name_start >= name_end {
+    let (before_name, name) = split_last_word(&source[..error.offset]);
+    if name.is_empty() {
         return None;
     }
 
-    let before_name = trimmed[..name_start].trim_end();
-
     // Now extract the potential misspelled keyword.
-    let kw_end = before_name.len();
-    let kw_start = before_name
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_')
-        .map(|p| p + 1)
-        .unwrap_or(0);
-
-    if kw_start >= kw_end {
-        return None;
-    }
-
-    let candidate = &before_name[kw_start..kw_end];
-
-    // Check if the candidate looks like a misspelled keyword.
-    if let Some(suggestion) = suggest_keyword(candidate) {
+    let (before_candidate, candidate) = split_last_word(before_name);
+
+    // Check if the candidate looks like a misspelled keyword, and one that can
+    // stand before a name and the token that was not expected there.
+    let unexpected = source[error.offset..].chars().next()?;
+    if !candidate.contains('`')
+        && let Some(suggestion) = suggest_keyword(candidate)
+        && matches!(
+            (suggestion, unexpected),
+            ("protocol" | "record" | "error" | "enum", '{') | ("fixed", '(') | ("import", '"')
+        )
+        && !before_candidate.trim_end().ends_with(['(', ',', '<'])
+    {
         let line_prefix = extract_line_prefix(&error.message);
         return Some(SyntaxError {
-            offset: kw_start,
+            offset: before_candidate.len(),
             length: candidate.len(),
             message: format!(
                 "{line_prefix}unrecognized `{candidate}` -- did you mean `{suggestion}`?"
@@ -1681,35 +1583,8 @@ fn detect_unclosed_brace(error: &SyntaxError, source: &str) -> Option<SyntaxErro
         return None;
     }
 
-    // Count braces in the source, tracking positions of unmatched `{`.
-    // We ignore braces inside string literals (between unescaped `"`).
-    let mut brace_stack: Vec<usize> = Vec::new();
-    let mut in_string = false;
-    let mut prev_backslash = false;
-    for (i, b) in source.bytes().enumerate() {
-        if in_string {
-            if b == b'"' && !prev_backslash {
-                in_string = false;
-            }
-            prev_backslash = b == b'\\' && !prev_backslash;
-            continue;
-        }
-        match b {
-            b'"' => in_string = true,
-            b'{' => brace_stack.push(i),
-            b'}' => {
-                brace_stack.pop();
-            }
-            _ => {}
-        }
-    }
-
-    if brace_stack.is_empty() {
-        return None;
-    }
-
     // The last unmatched `{` is the most likely culprit.
-    let unmatched_pos = *brace_stack.last().expect("non-empty stack");
+    let unmatched_pos = innermost_open_brace(source)?;
 
     // Try to identify what construct the unmatched brace belongs to by
     // looking at the source text before it.
@@ -1737,55 +1612,71 @@ fn detect_unclosed_brace(error: &SyntaxError, source: &str) -> Option<SyntaxErro
     })
 }
 
-/// Identifies the construct type (record, protocol, enum, etc.) by examining
-/// the source text immediately before an opening `{`.
-fn identify_construct(before_brace: &str) -> Option<&'static str> {
-    // Walk backwards, skipping the name identifier and any annotations,
-    // to find the keyword.
-    let trimmed = before_brace.trim_end();
-
-    // Skip the name (e.g., `User` in `record User {`).
-    let name_end = trimmed.len();
-    let name_start = trimmed
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_' && b != b'`')
-        .map(|p| p + 1)
-        .unwrap_or(0);
-
-    if name_start >= name_end {
-        return None;
-    }
-
-    let name_text = &trimmed[name_start..name_end];
-
-    // Check if the "name" is actually a keyword (e.g., `union {` has no name).
-    match name_text {
-        "protocol" => return Some("protocol"),
-        "record" => return Some("record"),
-        "error" => return Some("error record"),
-        "enum" => return Some("enum"),
-        "union" => return Some("union"),
-        _ => {}
+/// Returns the offset of the last `{` in `source` that no `}` closes. Braces
+/// inside string literals and comments do not count. String literals end at the
+/// end of their line at the latest, as in the lexer.
+fn innermost_open_brace(source: &str) -> Option<usize> {
+    let bytes = source.as_bytes();
+    let mut brace_stack: Vec<usize> = Vec::new();
+    let mut i = 0;
+    while i < bytes.len() {
+        match bytes[i] {
+            b'"' => {
+                i += 1;
+                while i < bytes.len() && bytes[i] != b'"' && bytes[i] != b'\n' {
+                    i += if bytes[i] == b'\\' { 2 } else { 1 };
+                }
+            }
+            b'/' if bytes[i..].starts_with(b"//") => {
+                while i < bytes.len() && bytes[i] != b'\n' {
+                    i += 1;
+                }
+            }
+            b'/' if bytes[i..].starts_with(b"/*") => {
+                i = match source[i + 2..].find("*/") {
+                    Some(end) => i + 2 + end + 1,
+                    None => bytes.len(),
+                };
+            }
+            b'{' => brace_stack.push(i),
+            b'}' => {
+                brace_stack.pop();
+            }
+            _ => {}
+        }
+        i += 1;
     }
+    brace_stack.pop()
+}
 
-    // Otherwise, look at the keyword before the name.
-    let before_name = trimmed[..name_start].trim_end();
-    let kw_end = before_name.len();
-    let kw_start = before_name
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_')
-        .map(|p| p + 1)
-        .unwrap_or(0);
+/// Splits the identifier or keyword at the end of `text` off from what is before
+/// it. The identifier is empty if `text` ends with something else.
+fn split_last_word(text: &str) -> (&str, &str) {
+    let text = text.trim_end();
+    let before = text.trim_end_matches(|c: char| c.is_alphanumeric() || "_`.-".contains(c));
+    (before, &text[before.len()..])
+}
 
-    if kw_start >= kw_end {
+/// Identifies the construct type (record, protocol, enum, etc.) by examining
+/// the source text immediately before an opening `{`.
+fn identify_construct(before_brace: &str) -> Option<&'static str> {
+    // The word before the brace is the name (`record User {`), so the keyword
+    // is the one before that, unless there is no name (`union {`).
+    let (before_name, name) = split_last_word(before_brace);
+    if name.is_empty() {
         return None;
     }
-
-    match &before_name[kw_start..kw_end] {
-        "protocol" => Some("protocol"),
-        "record" => Some("record"),
-        "error" => Some("error record"),
-        "enum" => Some("enum"),
+    let (_, word_before_name) = split_last_word(before_name);
+    match (word_before_name, name) {
+        ("protocol", _) => Some("protocol"),
+        ("record", _) => Some("record"),
+        ("error", _) => Some("error record"),
+        ("enum", _) => Some("enum"),
+        (_, "protocol") => Some("protocol"),
+        (_, "record") => Some("record"),
+        (_, "error") => Some("error record"),
+        (_, "enum") => Some("enum"),
+        (_, "union") => Some("union"),
         _ => None,
     }
 }
-- 
2.43.0


From 17dce8629ace6a2b2b0f6c013fb8e5dcb81fe014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:48 +0000
Subject: [PATCH 33/38] fix: name the annotation or keyword the source has, not
 the text ANTLR ran together

Annotations with a dotted name or with @ in a value were reported as missing their value, and
keywords were suggested for words made of two tokens.
---
 src/reader.rs | 108 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 77 insertions(+), 31 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 183462f..50af9fa 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -26,6 +26,7 @@ use std::rc::Rc;
 
 use std::borrow::Borrow;
 
+use antlr4rust::char_stream::InputData;
 use antlr4rust::common_token_stream::CommonTokenStream;
 use antlr4rust::error_listener::ErrorListener;
 use antlr4rust::parser::Parser;
@@ -325,7 +326,12 @@ fn enrich_antlr_error(msg: &str) -> Option<EnrichedError> {
         // keyword. The parser greedily consumed the keyword and subsequent
         // tokens as parts of the annotation name. Produce a more helpful
         // error explaining that the `@` is out of place.
-        if let Some(kw) = annotation_name_starts_with_keyword(anno_name) {
+        //
+        // If the end of the name is known, it has to be the keyword itself.
+        let ends_there = input.contains(&format!("@{anno_name} "));
+        if let Some(kw) = annotation_name_starts_with_keyword(anno_name)
+            && (!ends_there || kw == anno_name)
+        {
             return Some(EnrichedError {
                 message: format!(
                     "unexpected `@` before `{kw}` -- \
@@ -353,7 +359,8 @@ fn enrich_antlr_error(msg: &str) -> Option<EnrichedError> {
     // keyword with the following string literal into a single token
     // like `import"foo.avdl"`, which is confusing.
     if let Some(input) = extract_no_viable_input(msg)
-        && input.starts_with("import\"")
+        && let Some(after_import) = input.strip_prefix("import")
+        && after_import.trim_start().starts_with('"')
     {
         return Some(EnrichedError {
             message: "import statement missing kind specifier -- \
@@ -373,7 +380,12 @@ fn enrich_antlr_error(msg: &str) -> Option<EnrichedError> {
     if let Some(input) = extract_no_viable_input(msg) {
         // Extract the last whitespace-delimited word, or the last token
         // after any `)` or `"` delimiter that closes an annotation value.
-        let last_word = extract_trailing_identifier(input);
+        // Anything else before the word is part of an annotation's value, where
+        // there are no keywords.
+        let last_word = extract_trailing_identifier(input).filter(|word| {
+            let before = input[..input.len() - word.len()].trim_end();
+            before.is_empty() || before.ends_with(')')
+        });
         if let Some(last_word) = last_word
             && let Some(suggestion) = suggest_keyword(last_word)
         {
@@ -881,10 +893,27 @@ fn append_quoting_hint(help: Option<String>, offending: &str) -> String {
 fn extract_no_viable_input(msg: &str) -> Option<&str> {
     let prefix = "no viable alternative at input '";
     let start = msg.find(prefix)? + prefix.len();
-    let end = msg[start..].find('\'')?;
+    let end = msg[start..].rfind('\'')?;
     Some(&msg[start..start + end])
 }
 
+/// Puts a space before `token` in the input quoted by a "no viable alternative"
+/// message, if the input ends with it. The end of the file counts as a token, but
+/// is not part of the input. Returns other messages unchanged.
+fn separate_last_token(msg: &str, token: &str) -> String {
+    let Some(input) = extract_no_viable_input(msg) else {
+        return msg.to_string();
+    };
+    let before = input.strip_suffix(if token == "<EOF>" { "" } else { token });
+    match before {
+        Some(before) if !before.is_empty() => {
+            let last = &input[before.len()..];
+            msg.replacen(&format!("'{input}'"), &format!("'{before} {last}'"), 1)
+        }
+        _ => msg.to_string(),
+    }
+}
+
 /// Avro IDL keywords that commonly follow a bare annotation in source. When
 /// ANTLR merges the annotation name with the next token, these keywords help
 /// us split the merged text to recover the actual annotation name. For
@@ -964,36 +993,48 @@ fn suggest_keyword(ident: &str) -> Option<&'static str> {
 /// `@beta` + `record` becomes `@betarecord`), we try to split the text
 /// at known keyword boundaries to recover the actual annotation name.
 fn extract_annotation_name(input: &str) -> Option<&str> {
-    // Walk backwards through all `@word` occurrences to find the last
-    // one not followed by `(`.
-    let mut search_from = input.len();
-    loop {
-        let at_pos = input[..search_from].rfind('@')?;
-        let after_at = &input[at_pos + 1..];
-
-        // Collect the full identifier text after `@`.
-        let ident_len = after_at
-            .chars()
-            .take_while(|c| c.is_ascii_alphanumeric() || *c == '_' || *c == '-')
-            .count();
-
-        if ident_len > 0 {
-            let full_ident = &after_at[..ident_len];
-            let after_ident = &after_at[ident_len..];
-
-            if !after_ident.starts_with('(') {
-                // This `@name` is missing its `(value)`. Try to split
-                // off a trailing keyword to recover the real name.
-                let name = split_trailing_keyword(full_ident);
-                return Some(name);
-            }
+    // Walk through all `@word` occurrences outside of string literals and doc
+    // comments to find the last one not followed by `(`.
+    let mut missing_value = None;
+    let mut rest = input;
+    while let Some(pos) = rest.find(['@', '"', '/']) {
+        if rest[pos..].starts_with("/*") {
+            rest = rest[pos..].split_once("*/").map_or("", |(_, after)| after);
+            continue;
+        }
+        let is_string = rest[pos..].starts_with('"');
+        let is_at = rest[pos..].starts_with('@');
+        rest = &rest[pos + 1..];
+        if is_string {
+            let mut escaped = false;
+            let end = rest.find(|c| {
+                let closes = c == '"' && !escaped;
+                escaped = c == '\\' && !escaped;
+                closes
+            });
+            rest = end.map_or("", |end| &rest[end + 1..]);
+        }
+        if !is_at {
+            continue;
         }
 
-        if at_pos == 0 {
-            return None;
+        // Collect the full identifier text after `@`.
+        let after_ident =
+            rest.trim_start_matches(|c: char| c.is_alphanumeric() || "_`.-".contains(c));
+        let full_ident = &rest[..rest.len() - after_ident.len()];
+        if !full_ident.is_empty() && !after_ident.starts_with('(') {
+            // This `@name` is missing its `(value)`. Unless the end of the name is
+            // known, try to split off a trailing keyword to recover the real name.
+            missing_value = Some(if after_ident.starts_with(' ') {
+                full_ident
+            } else {
+                split_trailing_keyword(full_ident)
+            });
         }
-        search_from = at_pos;
+        rest = after_ident;
     }
+
+    missing_value
 }
 
 /// Given a merged identifier like `betarecord`, tries to split off a
@@ -1827,7 +1868,12 @@ impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for CollectingErrorListener {
 
         // Try to enrich the raw ANTLR message with a more user-friendly
         // explanation. Fall back to the original if no pattern matches.
-        let enriched = enrich_antlr_error(msg);
+        // ANTLR runs the tokens it could not match together (`@betarecord`), so
+        // first mark where the offending one begins.
+        let enriched = match offending_symbol.map(|token| token.get_text().to_display()) {
+            Some(token) => enrich_antlr_error(&separate_last_token(msg, &token)),
+            None => enrich_antlr_error(msg),
+        };
 
         let (display_msg, label, help) = match enriched {
             Some(e) => (e.message, e.label, e.help),
-- 
2.43.0


From 3c2adae878db2b44ac8987e50378a986da6653c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:10 +0000
Subject: [PATCH 34/38] fix: look for whole keywords, not their letters, in
 names before a syntax error

---
 src/reader.rs | 48 ++++++++++++------------------------------------
 1 file changed, 12 insertions(+), 36 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 50af9fa..1c45888 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1263,13 +1263,13 @@ fn detect_empty_union(error: &SyntaxError, source: &str) -> Option<SyntaxError>
     if !trimmed.ends_with('{') {
         return None;
     }
-    let before_brace = trimmed[..trimmed.len() - 1].trim_end();
-    if !before_brace.ends_with("union") {
+    let (before_union, word) = split_last_word(&trimmed[..trimmed.len() - 1]);
+    if word != "union" {
         return None;
     }
 
     // Find the offset of the `union` keyword to point the error there.
-    let union_offset = before_brace.len() - "union".len();
+    let union_offset = before_union.len();
     // Span covers `union {}`.
     let span_len = (error.offset + error.length) - union_offset;
 
@@ -1305,17 +1305,13 @@ fn detect_empty_type_parameter(error: &SyntaxError, source: &str) -> Option<Synt
     }
 
     // Look for `map` or `array` keyword before the `<`.
-    let before_angle = before[..before.len() - 1].trim_end();
-    let keyword = if before_angle.ends_with("map") {
-        "map"
-    } else if before_angle.ends_with("array") {
-        "array"
-    } else {
+    let (before_keyword, keyword) = split_last_word(&before[..before.len() - 1]);
+    if !matches!(keyword, "map" | "array") {
         return None;
-    };
+    }
 
     // Find the offset of the keyword to point the error there.
-    let keyword_offset = before_angle.len() - keyword.len();
+    let keyword_offset = before_keyword.len();
 
     // Span covers `map<>` or `array<>`.
     let span_len = (error.offset + error.length) - keyword_offset;
@@ -1416,23 +1412,16 @@ fn detect_fixed_non_integer(error: &SyntaxError, source: &str) -> Option<SyntaxE
     // Look for the pattern `fixed <Name>(` before the `)`. We search backwards
     // for `(`, then check if `fixed <Name>` precedes it.
     let paren_pos = before.rfind('(')?;
-    let before_paren = before[..paren_pos].trim_end();
 
     // Extract the name (identifier before the parenthesis).
-    let name_end = before_paren.len();
-    let name_start = before_paren
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_')
-        .map(|p| p + 1)
-        .unwrap_or(0);
-    if name_start >= name_end {
+    let (before_name, name) = split_last_word(&before[..paren_pos]);
+    if name.is_empty() {
         return None;
     }
-    let name = &before_paren[name_start..name_end];
 
     // Check that `fixed` precedes the name.
-    let before_name = before_paren[..name_start].trim_end();
-    if !before_name.ends_with("fixed") {
+    let (_, word_before_name) = split_last_word(before_name);
+    if word_before_name != "fixed" {
         return None;
     }
 
@@ -1476,21 +1465,8 @@ fn detect_missing_name(error: &SyntaxError, source: &str) -> Option<SyntaxError>
         return None;
     }
 
-    let before = source[..error.offset].trim_end();
-
     // Extract the word immediately before `{`.
-    let kw_end = before.len();
-    let kw_start = before
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_')
-        .map(|p| p + 1)
-        .unwrap_or(0);
-
-    if kw_start >= kw_end {
-        return None;
-    }
-
-    let keyword = &before[kw_start..kw_end];
+    let (_, keyword) = split_last_word(&source[..error.offset]);
 
     // Only trigger for declaration keywords that require a name.
     let construct = match keyword {
-- 
2.43.0


From 71fba3be37dec71f8e444bcd72a7220cd9fac83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:21 +0000
Subject: [PATCH 35/38] fix: hint at annotation syntax only where an annotation
 is

---
 src/reader.rs | 54 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 1c45888..178e9d0 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -306,6 +306,9 @@ struct EnrichedError {
     help: Option<String>,
 }
 
+/// What to say if the value of an annotation is missing.
+const ANNOTATION_SYNTAX_HINT: &str = " (annotations require `@name(value)` syntax)";
+
 /// Rewrites known ANTLR error patterns into more user-friendly messages.
 /// Returns `None` if the error doesn't match any known pattern, in which
 /// case the original message is used as-is.
@@ -409,7 +412,7 @@ fn enrich_antlr_error(msg: &str) -> Option<EnrichedError> {
     // https://github.com/antlr4rust/antlr4/pull/38
     if msg.contains("expecting '('") && msg.contains("mismatched input") {
         return Some(EnrichedError {
-            message: format!("{msg} (annotations require `@name(value)` syntax)"),
+            message: format!("{msg}{ANNOTATION_SYNTAX_HINT}"),
             label: None,
             help: None,
         });
@@ -1666,6 +1669,12 @@ fn innermost_open_brace(source: &str) -> Option<usize> {
     brace_stack.pop()
 }
 
+/// Returns whether `text` ends with `@` and the name of an annotation.
+fn ends_with_annotation_name(text: &str) -> bool {
+    let (before_name, name) = split_last_word(text);
+    !name.is_empty() && before_name.trim_end().ends_with('@')
+}
+
 /// Splits the identifier or keyword at the end of `text` off from what is before
 /// it. The identifier is empty if `text` ends with something else.
 fn split_last_word(text: &str) -> (&str, &str) {
@@ -1791,15 +1800,13 @@ fn line_col_to_byte_offset(source: &str, line: isize, column: isize) -> usize {
 /// instead of printing them to stderr. This lets us detect parse errors after
 /// `parser.idlFile()` returns and fail with a proper error.
 ///
-/// The optional `source` field holds the original input text, enabling the
-/// listener to compute byte offsets from ANTLR's (line, column) when no
-/// offending token is available (lexer errors).
+/// The `source` field holds the original input text, enabling the listener to
+/// compute byte offsets from ANTLR's (line, column) when no offending token is
+/// available (lexer errors), and to look at what is before an error.
 struct CollectingErrorListener {
     errors: Rc<RefCell<Vec<SyntaxError>>>,
-    /// Original source text for line/column-to-byte-offset conversion.
-    /// `None` for parser errors where the offending token always provides
-    /// byte offsets directly.
-    source: Option<&'static str>,
+    /// Original source text.
+    source: &'static str,
 }
 
 impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for CollectingErrorListener {
@@ -1831,15 +1838,12 @@ impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for CollectingErrorListener {
             .unwrap_or_else(|| {
                 // Lexer errors have no offending token. Fall back to computing
                 // the byte offset from (line, column) using the source text.
-                if let Some(src) = self.source {
-                    let offset = line_col_to_byte_offset(src, line, column);
-                    (
-                        offset,
-                        src[offset..].chars().next().map_or(0, char::len_utf8),
-                    )
-                } else {
-                    (0, 0)
-                }
+                let src = self.source;
+                let offset = line_col_to_byte_offset(src, line, column);
+                (
+                    offset,
+                    src[offset..].chars().next().map_or(0, char::len_utf8),
+                )
             });
 
         // Try to enrich the raw ANTLR message with a more user-friendly
@@ -1851,6 +1855,16 @@ impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for CollectingErrorListener {
             None => enrich_antlr_error(msg),
         };
 
+        // Annotations are not all that needs a `(`. The parameters of messages do,
+        // too.
+        let enriched = enriched.filter(|e| {
+            !e.message.ends_with(ANNOTATION_SYNTAX_HINT)
+                || self
+                    .source
+                    .get(..offset)
+                    .is_some_and(ends_with_annotation_name)
+        });
+
         let (display_msg, label, help) = match enriched {
             Some(e) => (e.message, e.label, e.help),
             // No enrichment pattern matched; sanitize the raw ANTLR message
@@ -2003,7 +2017,7 @@ pub fn parse_idl_named(
     lexer.remove_error_listeners();
     lexer.add_error_listener(Box::new(CollectingErrorListener {
         errors: Rc::clone(&lexer_errors),
-        source: Some(input),
+        source: input,
     }));
 
     let mut token_stream = CommonTokenStream::new(lexer);
@@ -2021,11 +2035,9 @@ pub fn parse_idl_named(
     // produce a usable parse tree, but we'll fail after parsing completes.
     let syntax_errors: Rc<RefCell<Vec<SyntaxError>>> = Rc::new(RefCell::new(Vec::new()));
     parser.remove_error_listeners();
-    // Parser errors always have an offending token with byte offsets, so no
-    // source text is needed for line/column fallback.
     parser.add_error_listener(Box::new(CollectingErrorListener {
         errors: Rc::clone(&syntax_errors),
-        source: None,
+        source: input,
     }));
 
     let tree = parser
-- 
2.43.0


From 9d852baa6bbb018c15664c00f0012c890d354c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:08 +0000
Subject: [PATCH 36/38] fix: do not suggest types without a namespace inside
 one

---
 src/compiler.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compiler.rs b/src/compiler.rs
index 082e1e9..030d721 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -1029,6 +1029,12 @@ fn suggest_similar_name(unresolved: &str, registry: &SchemaRegistry) -> Option<S
     // and the simple (unqualified) name to handle cases where the user
     // omitted the namespace or misspelled just the type part.
     for registered_full in registry.names() {
+        // A type without a namespace cannot be referred to from inside one, so
+        // suggesting it would only lead to the same error again.
+        if unresolved.contains('.') && !registered_full.contains('.') {
+            continue;
+        }
+
         // Compare unresolved full name against registered full name.
         let dist_full = levenshtein(unresolved, registered_full);
         let threshold_full = max_edit_distance(unresolved.len().min(registered_full.len()));
-- 
2.43.0


From fbcfb76e1c52103c2e8f69023b58f88458a0652e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:56 +0000
Subject: [PATCH 37/38] fix: reject imported messages whose request, errors or
 one-way are malformed

---
 src/import.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/import.rs b/src/import.rs
index 471599e..2ad47af 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -865,6 +865,16 @@ fn json_to_message(json: &Value, default_namespace: Option<&str>) -> Result<Mess
         .as_object()
         .ok_or_else(|| miette::miette!("message must be an object"))?;
 
+    // Reading these as absent would silently change the message's signature.
+    for key in ["request", "errors"] {
+        if obj.get(key).is_some_and(|value| !value.is_array()) {
+            miette::bail!("message `{key}` must be an array");
+        }
+    }
+    if obj.get("one-way").is_some_and(|value| !value.is_boolean()) {
+        miette::bail!("message `one-way` must be a boolean");
+    }
+
     let doc = obj
         .get("doc")
         .and_then(|d| d.as_str())
-- 
2.43.0


From 85df401cb0b79563d7c08328e26caea9b09205b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:21 +0000
Subject: [PATCH 38/38] fix: reject malformed aliases and orders in imported
 JSON

---
 src/import.rs | 45 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index 2ad47af..b51e792 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -550,7 +550,7 @@ fn parse_record(
         miette::bail!("duplicate field `{field}` in record `{name}`");
     }
 
-    let aliases = extract_string_array(obj.get("aliases"));
+    let aliases = extract_aliases(obj)?;
 
     let properties = collect_extra_properties(
         obj,
@@ -608,7 +608,7 @@ fn parse_enum(
     {
         miette::bail!("default `{default}` of enum `{name}` is not one of its symbols");
     }
-    let aliases = extract_string_array(obj.get("aliases"));
+    let aliases = extract_aliases(obj)?;
 
     let properties = collect_extra_properties(
         obj,
@@ -660,7 +660,7 @@ fn parse_fixed(
         .ok_or_else(|| miette::miette!("fixed missing 'size'"))?;
     let size = u32::try_from(size_u64)
         .map_err(|_| miette::miette!("fixed size {size_u64} exceeds maximum ({})", u32::MAX))?;
-    let aliases = extract_string_array(obj.get("aliases"));
+    let aliases = extract_aliases(obj)?;
 
     let properties = collect_extra_properties(
         obj,
@@ -834,17 +834,21 @@ fn json_to_field(
         .map(|s| s.to_string());
     let default = obj.get("default").cloned();
 
-    let order = obj
-        .get("order")
-        .and_then(|o| o.as_str())
-        .and_then(|o| match o {
-            "ascending" => Some(FieldOrder::Ascending),
-            "descending" => Some(FieldOrder::Descending),
-            "ignore" => Some(FieldOrder::Ignore),
-            _ => None,
-        });
+    // As in Java, the case of the letters does not matter; anything else would
+    // be lost silently.
+    let order = match obj.get("order") {
+        None | Some(Value::Null) => None,
+        Some(order) => match order.as_str().map(str::to_ascii_lowercase).as_deref() {
+            Some("ascending") => Some(FieldOrder::Ascending),
+            Some("descending") => Some(FieldOrder::Descending),
+            Some("ignore") => Some(FieldOrder::Ignore),
+            _ => miette::bail!(
+                "`order` of field `{name}` must be \"ascending\", \"descending\" or \"ignore\""
+            ),
+        },
+    };
 
-    let aliases = extract_string_array(obj.get("aliases"));
+    let aliases = extract_aliases(obj)?;
 
     let properties =
         collect_extra_properties(obj, &["name", "type", "doc", "default", "order", "aliases"]);
@@ -958,6 +962,21 @@ fn extract_string_array(value: Option<&Value>) -> Vec<String> {
     }
 }
 
+/// Extract the aliases of a type or field. Aliases of the wrong shape are an
+/// error: leaving them out would silently change the schema.
+fn extract_aliases(obj: &serde_json::Map<String, Value>) -> Result<Vec<String>> {
+    let aliases = obj.get("aliases");
+    let well_formed = match aliases {
+        None | Some(Value::Null) => true,
+        Some(Value::Array(aliases)) => aliases.iter().all(Value::is_string),
+        Some(_) => false,
+    };
+    if !well_formed {
+        miette::bail!("`aliases` must be an array of strings");
+    }
+    Ok(extract_string_array(aliases))
+}
+
 /// Returns the first name that occurred before, if any.
 fn first_duplicate<'a>(names: impl Iterator<Item = &'a str>) -> Option<&'a str> {
     let mut seen = HashSet::new();
-- 
2.43.0

