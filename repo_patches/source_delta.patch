From 7fb7adcd54a7e42a2c267a89e9b144846af2c4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:23 +0000
Subject: [PATCH 01/41] fix: accept hexadecimal and octal literals equal to
 i64::MIN

---
 src/reader.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index c9f6196..2f46a48 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -3993,18 +3993,17 @@ fn parse_integer_literal(text: &str) -> Result<Value> {
             .map_err(|e| miette::miette!("invalid hex integer literal '{text}': {e}"))?
     } else if number.starts_with('-') && (number.starts_with("-0x") || number.starts_with("-0X")) {
         let hex = &number[3..];
-        let abs = i64::from_str_radix(hex, 16)
-            .map_err(|e| miette::miette!("invalid hex integer literal '{text}': {e}"))?;
-        -abs
+        // Parse with the sign, since `i64::MIN` has no positive counterpart.
+        i64::from_str_radix(&format!("-{hex}"), 16)
+            .map_err(|e| miette::miette!("invalid hex integer literal '{text}': {e}"))?
     } else if number.starts_with('0') && number.len() > 1 && !number.contains('.') {
         // Octal.
         i64::from_str_radix(&number, 8)
             .map_err(|e| miette::miette!("invalid octal integer literal '{text}': {e}"))?
     } else if number.starts_with("-0") && number.len() > 2 && !number.contains('.') {
-        let oct = &number[1..];
-        let abs = i64::from_str_radix(oct, 8)
-            .map_err(|e| miette::miette!("invalid octal integer literal '{text}': {e}"))?;
-        -abs
+        // `from_str_radix` takes the sign and ignores the leading zero.
+        i64::from_str_radix(&number, 8)
+            .map_err(|e| miette::miette!("invalid octal integer literal '{text}': {e}"))?
     } else {
         number
             .parse::<i64>()
-- 
2.43.0


From 15551904220d6085369788139c8a7511114f1777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:12 +0000
Subject: [PATCH 02/41] fix: validate parameter defaults of named types

---
 src/compiler.rs | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 3148bf3..9cb924b 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -30,7 +30,7 @@ use crate::error::{ParseDiagnostic, SpanWithSource};
 use crate::import::{ImportContext, import_protocol, import_schema};
 use crate::model::json::{build_lookup, protocol_to_json, schema_to_json};
 use crate::model::protocol::Message;
-use crate::model::schema::validate_record_field_defaults;
+use crate::model::schema::{AvroSchema, validate_record_field_defaults};
 use crate::reader::{DeclItem, IdlFile, ImportKind, parse_idl_named};
 use crate::resolve::SchemaRegistry;
 
@@ -647,6 +647,7 @@ fn parse_and_resolve(
     // messages before the protocol's own messages.
     let idl_file = match idl_file {
         IdlFile::Protocol(mut protocol) => {
+            validate_parameter_defaults(&protocol.messages, &ctx.registry)?;
             protocol.types = ctx.registry.schemas().cloned().collect();
             let own_messages = std::mem::take(&mut protocol.messages);
             protocol.messages = std::mem::take(&mut ctx.messages);
@@ -745,6 +746,38 @@ fn process_decl_items(
     Ok(())
 }
 
+/// Validate the defaults of message parameters whose types are references,
+/// which could not be checked at parse time. The counterpart for messages of
+/// the record field validation in `process_decl_items`.
+fn validate_parameter_defaults(
+    messages: &HashMap<String, Message>,
+    registry: &SchemaRegistry,
+) -> miette::Result<()> {
+    // Sort by name so that the reported error does not depend on hash order.
+    let mut messages: Vec<_> = messages.iter().collect();
+    messages.sort_by_key(|(name, _)| *name);
+    for (name, message) in messages {
+        let request = AvroSchema::Record {
+            name: name.clone(),
+            namespace: None,
+            doc: None,
+            fields: message.request.clone(),
+            is_error: false,
+            aliases: Vec::new(),
+            properties: HashMap::new(),
+        };
+        let errors = validate_record_field_defaults(&request, |full_name| {
+            registry.lookup(full_name).cloned()
+        });
+        if let Some((param, reason)) = errors.into_iter().next() {
+            return Err(miette::miette!(
+                "Invalid default for field `{param}` in `{name}`: {reason}"
+            ));
+        }
+    }
+    Ok(())
+}
+
 /// Resolve a single import entry, registering schemas and merging messages
 /// into the current protocol.
 fn resolve_single_import(
@@ -833,6 +866,9 @@ fn resolve_single_import(
             process_decl_items(&nested_decl_items, ctx, &import_dir).with_context(|| {
                 format!("resolve nested imports from `{}`", resolved_path.display())
             })?;
+            if let IdlFile::Protocol(imported_protocol) = &imported_idl {
+                validate_parameter_defaults(&imported_protocol.messages, &ctx.registry)?;
+            }
         }
     }
 
-- 
2.43.0


From a8fd4fa854a62969a07f30350a370e534882fb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 03/41] fix: reject field names and enum symbols that are not
 Avro names

---
 src/reader.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 2f46a48..a3bd05c 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1923,6 +1923,28 @@ fn is_invalid_type_name(name: &str) -> bool {
     PRIMITIVE_TYPE_NAMES.contains(&name) || INVALID_LOGICAL_TYPE_NAMES.contains(&name)
 }
 
+/// Reject field names and enum symbols that are not Avro names. The grammar's
+/// identifiers also admit dashes and dots, but like Java's `validateName` we
+/// cannot put those into a schema. (Type names are checked on registration.)
+fn check_plain_name<'input>(
+    src: &SourceInfo,
+    ctx: &impl antlr4rust::parser_rule_context::ParserRuleContext<'input>,
+    name: &str,
+) -> Result<()> {
+    if is_valid_avro_name(name) {
+        return Ok(());
+    }
+    Err(make_diagnostic(
+        src,
+        ctx,
+        format!(
+            "invalid Avro name: `{name}` \
+             (names must start with a letter or underscore, \
+             followed by letters, digits, or underscores)"
+        ),
+    ))
+}
+
 // ==========================================================================
 // Public API
 // ==========================================================================
@@ -3009,6 +3031,7 @@ fn walk_variable<'input>(
         .identifier()
         .ok_or_else(|| make_diagnostic(src, ctx, "missing variable name"))?;
     let field_name = identifier_text(&name_ctx);
+    check_plain_name(src, &*name_ctx, &field_name)?;
 
     // Walk the variable-level schema properties (e.g. @order, @aliases on a
     // specific variable rather than on the field type).
@@ -3110,6 +3133,7 @@ fn walk_enum<'input>(
     for sym_ctx in ctx.enumSymbol_all() {
         if let Some(sym_name_ctx) = sym_ctx.identifier() {
             let sym_name = identifier_text(&sym_name_ctx);
+            check_plain_name(src, &*sym_ctx, &sym_name)?;
             if !seen_symbols.insert(sym_name.clone()) {
                 return Err(make_diagnostic(
                     src,
-- 
2.43.0


From 725e39a189c8422d1fc91819d46ebff5977e62ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:09 +0000
Subject: [PATCH 04/41] fix: reject annotations that overwrite a built-in
 logical type's attributes

---
 src/reader.rs | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index a3bd05c..61064c6 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -3292,6 +3292,16 @@ fn walk_full_type<'input>(
             .push(Warning::annotations_dropped_on_union(&keys, src, ctx));
     }
 
+    // The attributes that make up a built-in logical type cannot be replaced
+    // by annotations. Java throws "Can't overwrite property" here.
+    if let Some(key) = overwritten_logical_attribute(&schema, &props.properties) {
+        return Err(make_diagnostic(
+            src,
+            ctx,
+            format!("Can't overwrite property: {key}"),
+        ));
+    }
+
     // Apply custom properties to the schema. For nullable unions we apply
     // properties to the non-null branch (matching the Java behavior).
     let schema = if !props.properties.is_empty() {
@@ -4342,6 +4352,37 @@ fn apply_properties(schema: AvroSchema, properties: HashMap<String, Value>) -> A
     }
 }
 
+/// Returns the first attribute of a built-in logical type (`date`,
+/// `decimal(p, s)`, ...) that one of the given annotations would change.
+/// Repeating an attribute with the value it already has is harmless.
+fn overwritten_logical_attribute(
+    schema: &AvroSchema,
+    properties: &HashMap<String, Value>,
+) -> Option<&'static str> {
+    let logical_type = match schema {
+        AvroSchema::Logical { logical_type, .. } => logical_type,
+        AvroSchema::Union {
+            types,
+            is_nullable_type: true,
+        } => types.iter().find_map(|t| match t {
+            AvroSchema::Logical { logical_type, .. } => Some(logical_type),
+            _ => None,
+        })?,
+        _ => return None,
+    };
+
+    let mut attributes = vec![("logicalType", Value::from(logical_type.name()))];
+    if let LogicalType::Decimal { precision, scale } = logical_type {
+        attributes.push(("precision", Value::from(*precision)));
+        attributes.push(("scale", Value::from(*scale)));
+    }
+
+    attributes
+        .into_iter()
+        .find(|(key, value)| properties.get(*key).is_some_and(|v| v != value))
+        .map(|(key, _)| key)
+}
+
 /// Apply properties directly to a single schema node.
 ///
 /// Merges the given properties into the schema using
-- 
2.43.0


From 6753354820b59a16890326000a6a2a8bf76316e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 05/41] fix: place lexer diagnostics by character column

---
 src/reader.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 61064c6..30dbfa1 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1820,7 +1820,12 @@ fn line_col_to_byte_offset(source: &str, line: isize, column: isize) -> usize {
     let mut offset = 0;
     for (i, src_line) in source.split('\n').enumerate() {
         if i == target_line {
-            return offset + (column as usize).min(src_line.len());
+            // ANTLR counts columns in characters, not bytes.
+            let in_line = src_line
+                .char_indices()
+                .nth(column as usize)
+                .map_or(src_line.len(), |(byte, _)| byte);
+            return offset + in_line;
         }
         offset += src_line.len() + 1; // +1 for the newline character
     }
@@ -1873,7 +1878,8 @@ impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for CollectingErrorListener {
                 // the byte offset from (line, column) using the source text.
                 if let Some(src) = self.source {
                     let offset = line_col_to_byte_offset(src, line, column);
-                    (offset, 1)
+                    let length = src[offset..].chars().next().map_or(1, char::len_utf8);
+                    (offset, length)
                 } else {
                     (0, 0)
                 }
-- 
2.43.0


From 47c3bf9ce3a374f0a2e79851501dbea3632ef225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 06/41] fix: keep the null namespace of imported types inside
 namespaced files

---
 src/compiler.rs |  1 +
 src/resolve.rs  | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/compiler.rs b/src/compiler.rs
index 9cb924b..e17bc59 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -641,6 +641,7 @@ fn parse_and_resolve(
     // encountered, register local types when encountered. Any import-derived
     // warnings are appended to `ctx.warnings` by `process_decl_items`.
     process_decl_items(&decl_items, ctx, input_dir)?;
+    ctx.registry.spell_out_null_namespaces();
 
     // For protocol files, rebuild the types list from the registry (which now
     // includes imported types in declaration order) and prepend imported
diff --git a/src/resolve.rs b/src/resolve.rs
index 8b55d43..893dc64 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -160,6 +160,20 @@ impl SchemaRegistry {
         self.schemas.contains_key(full_name)
     }
 
+    /// Spell out the null namespace of types that have none, so that they do
+    /// not inherit the namespace of whatever ends up enclosing them. Such types
+    /// come from imports: a namespaced file qualifies everything it declares.
+    pub fn spell_out_null_namespaces(&mut self) {
+        for schema in self.schemas.values_mut() {
+            if let AvroSchema::Record { namespace, .. }
+            | AvroSchema::Enum { namespace, .. }
+            | AvroSchema::Fixed { namespace, .. } = schema
+            {
+                namespace.get_or_insert_default();
+            }
+        }
+    }
+
     /// Return all registered schemas in registration order, consuming the
     /// registry.
     #[cfg(test)]
-- 
2.43.0


From 241a9be91929ce13b45b3e49072802c076df9e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 07/41] fix: keep logical type attributes that are not valid
 for their base type

---
 src/import.rs | 72 ++++++++++++++++-----------------------------------
 src/reader.rs |  8 +++++-
 2 files changed, 29 insertions(+), 51 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index ee5f676..8f87a3a 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -27,9 +27,8 @@ use std::path::{Path, PathBuf};
 use serde_json::Value;
 
 use crate::model::protocol::Message;
-use crate::model::schema::{
-    AvroSchema, FieldOrder, LogicalType, PrimitiveType, parse_logical_type, split_full_name,
-};
+use crate::model::schema::{AvroSchema, FieldOrder, LogicalType, PrimitiveType, split_full_name};
+use crate::reader::try_promote_logical_type;
 use crate::resolve::SchemaRegistry;
 use miette::Result;
 
@@ -668,61 +667,34 @@ fn parse_map(
 /// Parse a JSON object whose `type` is a primitive (e.g., `{"type": "long",
 /// "logicalType": "timestamp-millis"}`).
 ///
-/// If a `logicalType` annotation is present and recognized, we produce an
-/// `AvroSchema::Logical`. Otherwise, we return the bare primitive.
-///
-/// Uses the shared `parse_logical_type` helper for name-to-variant mapping,
-/// ensuring consistent logical type recognition with the IDL reader.
+/// If a `logicalType` annotation is present and valid for the primitive, we
+/// produce an `AvroSchema::Logical`, by the same rules as the IDL reader.
+/// Otherwise, the primitive keeps all its properties.
 fn parse_annotated_primitive(
     obj: &serde_json::Map<String, Value>,
     prim: &str,
     _default_namespace: Option<&str>,
 ) -> Result<AvroSchema> {
-    if let Some(logical) = obj.get("logicalType").and_then(|l| l.as_str()) {
-        // Extract precision and scale for `decimal`. For non-decimal types
-        // these are ignored by `parse_logical_type`.
-        let precision_u64 = obj.get("precision").and_then(|p| p.as_u64());
-        let precision = precision_u64.and_then(|v| u32::try_from(v).ok());
-        let scale_u64 = obj.get("scale").and_then(|s| s.as_u64());
-        let scale = scale_u64.and_then(|v| u32::try_from(v).ok());
-
-        if let Some(lt) = parse_logical_type(logical, precision, scale) {
-            // For decimal, validate that precision >= 1 (the shared helper
-            // returns None when precision is absent, but we also need to
-            // reject explicit zero).
-            if let LogicalType::Decimal { precision, .. } = &lt
-                && *precision < 1
-            {
-                miette::bail!("decimal precision must be >= 1");
-            }
-
-            let properties =
-                collect_extra_properties(obj, &["type", "logicalType", "precision", "scale"]);
-            return Ok(AvroSchema::Logical {
-                logical_type: lt,
-                properties,
-            });
-        }
-
-        // Unknown logical type -- preserve as properties on AnnotatedPrimitive.
-        let properties = collect_extra_properties(obj, &["type"]);
-        return Ok(AvroSchema::AnnotatedPrimitive {
-            kind: str_to_primitive_type(prim),
-            properties,
-        });
-    }
-
-    // Primitive with no logical type. If there are extra properties beyond
-    // "type", wrap in AnnotatedPrimitive to preserve them.
+    // Without extra properties beyond "type" this is the bare primitive.
     let properties = collect_extra_properties(obj, &["type"]);
     if properties.is_empty() {
-        primitive_from_str(prim)
-    } else {
-        Ok(AvroSchema::AnnotatedPrimitive {
-            kind: str_to_primitive_type(prim),
-            properties,
-        })
+        return primitive_from_str(prim);
     }
+
+    // A logical type that is unknown, or not valid for this primitive, stays
+    // an ordinary property of the primitive.
+    let schema = try_promote_logical_type(AvroSchema::AnnotatedPrimitive {
+        kind: str_to_primitive_type(prim),
+        properties,
+    });
+    if let AvroSchema::Logical {
+        logical_type: LogicalType::Decimal { precision: 0, .. },
+        ..
+    } = &schema
+    {
+        miette::bail!("decimal precision must be >= 1");
+    }
+    Ok(schema)
 }
 
 /// Map a primitive type name string to its `AvroSchema` variant.
diff --git a/src/reader.rs b/src/reader.rs
index 30dbfa1..6df0893 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4416,7 +4416,7 @@ fn apply_properties_to_schema(
 /// Invalid combinations are also left as-is, matching Java's
 /// `fromSchemaIgnoreInvalid` behavior which silently ignores invalid logical
 /// types.
-fn try_promote_logical_type(schema: AvroSchema) -> AvroSchema {
+pub(crate) fn try_promote_logical_type(schema: AvroSchema) -> AvroSchema {
     match schema {
         AvroSchema::AnnotatedPrimitive {
             kind,
@@ -4438,6 +4438,7 @@ fn try_promote_logical_type(schema: AvroSchema) -> AvroSchema {
                 .get("scale")
                 .and_then(json_value_as_u32)
                 .filter(|&v| v <= i32::MAX as u32);
+            let invalid_scale = scale.is_none() && properties.contains_key("scale");
 
             let Some(logical_type) = parse_logical_type(&logical_name, precision, scale) else {
                 // Unrecognized logical type name (or decimal missing precision):
@@ -4451,6 +4452,11 @@ fn try_promote_logical_type(schema: AvroSchema) -> AvroSchema {
             if logical_type.expected_base_type() != kind {
                 return AvroSchema::AnnotatedPrimitive { kind, properties };
             }
+            // A decimal whose scale is not a valid number is left as-is too;
+            // promoting it would replace the scale by the default of zero.
+            if matches!(logical_type, LogicalType::Decimal { .. }) && invalid_scale {
+                return AvroSchema::AnnotatedPrimitive { kind, properties };
+            }
 
             // Remove the consumed keys from properties so they are not
             // duplicated in the serialized output.
-- 
2.43.0


From b96b8e380783e8da0c27ff20e74b6e21a6ecc537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 08/41] fix: reject imported types with invalid names instead
 of dropping them

---
 src/import.rs  | 22 ++++++++++++++++++----
 src/resolve.rs | 37 +++++++++++++++++++++++++++++--------
 2 files changed, 47 insertions(+), 12 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index 8f87a3a..f4c4627 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -282,11 +282,23 @@ fn flatten_schema_inner(schema: AvroSchema, collected: &mut Vec<AvroSchema>) ->
 ///
 /// Duplicate registrations are silently ignored (the first definition wins),
 /// matching Java's behavior for imports.
-fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) {
+///
+/// A type the registry refuses for any other reason is an error: dropping it
+/// would silently lose the declaration.
+fn register_flattened(schema: AvroSchema, registry: &mut SchemaRegistry) -> Result<()> {
     let (types, _top_level) = flatten_schema(schema);
     for t in types {
-        let _ = registry.register(t);
+        if t.full_name().is_some_and(|n| registry.lookup(&n).is_some()) {
+            continue;
+        }
+        registry.register(t).map_err(|e| miette::miette!("{e}"))?;
     }
+    Ok(())
+}
+
+#[cfg(test)]
+fn flatten_and_register(schema: AvroSchema, registry: &mut SchemaRegistry) {
+    register_flattened(schema, registry).expect("register flattened schema");
 }
 
 // ==============================================================================
@@ -323,7 +335,8 @@ pub fn import_protocol(
                     path.display()
                 )
             })?;
-            flatten_and_register(schema, registry);
+            register_flattened(schema, registry)
+                .map_err(|e| miette::miette!("in protocol `{}`: {e}", path.display()))?;
         }
     }
 
@@ -362,7 +375,8 @@ pub fn import_schema(path: &Path, registry: &mut SchemaRegistry) -> Result<()> {
 
     let schema = json_to_schema(&json, None)
         .map_err(|e| miette::miette!("parse schema from `{}`: {e}", path.display()))?;
-    flatten_and_register(schema, registry);
+    register_flattened(schema, registry)
+        .map_err(|e| miette::miette!("in schema `{}`: {e}", path.display()))?;
 
     Ok(())
 }
diff --git a/src/resolve.rs b/src/resolve.rs
index 893dc64..b92ecfc 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -78,6 +78,26 @@ fn validate_schema_name(name: &str, namespace: Option<&str>) -> Result<(), Strin
     Ok(())
 }
 
+/// Validate that the field names of a record and the symbols of an enum are
+/// valid Avro names. Types from imported JSON reach the registry unchecked.
+fn validate_member_names(schema: &AvroSchema) -> Result<(), String> {
+    let invalid = match schema {
+        AvroSchema::Record { fields, .. } => fields
+            .iter()
+            .map(|f| &f.name)
+            .find(|name| !is_valid_avro_name(name)),
+        AvroSchema::Enum { symbols, .. } => symbols.iter().find(|name| !is_valid_avro_name(name)),
+        _ => None,
+    };
+    match invalid {
+        Some(name) => Err(format!(
+            "invalid Avro name: `{name}` in `{}`",
+            schema.full_name().unwrap_or_default()
+        )),
+        None => Ok(()),
+    }
+}
+
 /// Registry of named Avro types, tracking definition order for output.
 ///
 /// Named types (record, enum, fixed) are registered as they're parsed.
@@ -128,6 +148,7 @@ impl SchemaRegistry {
             _ => unreachable!("full_name() returned Some for a non-named type"),
         };
         validate_schema_name(name, namespace.as_deref())?;
+        validate_member_names(&schema)?;
 
         if self.schemas.contains_key(&full_name) {
             return Err(format!("duplicate schema name: {full_name}"));
@@ -152,14 +173,6 @@ impl SchemaRegistry {
         self.schemas.keys().map(|k| k.as_str())
     }
 
-    // -- Test-only helpers below this line --
-
-    /// Check whether a name is registered.
-    #[cfg(test)]
-    pub fn contains(&self, full_name: &str) -> bool {
-        self.schemas.contains_key(full_name)
-    }
-
     /// Spell out the null namespace of types that have none, so that they do
     /// not inherit the namespace of whatever ends up enclosing them. Such types
     /// come from imports: a namespaced file qualifies everything it declares.
@@ -174,6 +187,14 @@ impl SchemaRegistry {
         }
     }
 
+    // -- Test-only helpers below this line --
+
+    /// Check whether a name is registered.
+    #[cfg(test)]
+    pub fn contains(&self, full_name: &str) -> bool {
+        self.schemas.contains_key(full_name)
+    }
+
     /// Return all registered schemas in registration order, consuming the
     /// registry.
     #[cfg(test)]
-- 
2.43.0


From c4de47c62eadc3d8494b3638010c1b1aef542dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 09/41] fix: report undefined names and dropped annotations in
 an order that does not vary between runs

---
 src/compiler.rs | 21 +++++++++++++--------
 src/reader.rs   |  3 ++-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index e17bc59..3fca6e1 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -1059,7 +1059,10 @@ fn validate_all_references(
             // `validate_references()` alone does not see them. We must validate
             // them explicitly here. Without this, undefined types in messages
             // silently pass through (Java rejects them with "Undefined schema").
-            for msg in protocol.messages.values() {
+            // Visit the messages by name: the map's own order varies between runs.
+            let mut messages: Vec<_> = protocol.messages.iter().collect();
+            messages.sort_by_key(|(name, _)| *name);
+            for (_, msg) in messages {
                 unresolved.extend(registry.validate_schema(&msg.response));
                 for field in &msg.request {
                     unresolved.extend(registry.validate_schema(&field.schema));
@@ -1073,6 +1076,15 @@ fn validate_all_references(
         }
     }
 
+    // Sort by source span offset so the first error in the file is reported
+    // first. References without a span (from JSON imports) sort to the end.
+    unresolved.sort_by_key(|(_, span)| {
+        (
+            span.is_none(),
+            span.as_ref().map_or(("", 0), |s| (s.name, s.offset)),
+        )
+    });
+
     // Deduplicate by name while preserving source order (first occurrence
     // wins). We use a `HashSet` to track which names we've already seen,
     // retaining the entry whose span appears earliest in the file.
@@ -1081,13 +1093,6 @@ fn validate_all_references(
         unresolved.retain(|(name, _)| seen.insert(name.clone()));
     }
 
-    // Sort by source span offset so the first error in the file is reported
-    // first. References without a span (from JSON imports) sort to the end.
-    unresolved.sort_by_key(|(_, span)| {
-        span.as_ref()
-            .map_or(("", usize::MAX), |s| (s.name, s.offset))
-    });
-
     if unresolved.is_empty() {
         return Ok(());
     }
diff --git a/src/reader.rs b/src/reader.rs
index 6df0893..796cbc4 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -3292,7 +3292,8 @@ fn walk_full_type<'input>(
     // drops them without feedback. Nullable unions (`type?` syntax) are fine
     // because annotations are applied to the non-null branch instead.
     if !props.properties.is_empty() && is_non_nullable_union(&schema) {
-        let keys: Vec<&str> = props.properties.keys().map(|k| k.as_str()).collect();
+        let mut keys: Vec<&str> = props.properties.keys().map(|k| k.as_str()).collect();
+        keys.sort_unstable();
         src.warnings
             .borrow_mut()
             .push(Warning::annotations_dropped_on_union(&keys, src, ctx));
-- 
2.43.0


From cb6612d2658e8e651c5e21d81ebce23b826aed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 10/41] fix: keep exactly the warnings of the last call when a
 file cannot be read or a directory fails

---
 src/compiler.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 3fca6e1..174810d 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -92,6 +92,9 @@ impl IdlCompiler {
     /// `Idl2Schemata::extract(path)`. It reads the file, determines the parent
     /// directory and canonical path, then delegates to [`compile`](Self::compile).
     fn compile_file(&mut self, path: &Path) -> miette::Result<CompileOutput> {
+        // Reading may fail before `compile` gets to clear these.
+        self.accumulated_warnings.clear();
+
         let source = fs::read_to_string(path)
             .map_err(|e| miette::miette!("{e}"))
             .with_context(|| format!("read {}", path.display()))?;
@@ -508,8 +511,17 @@ impl Idl2Schemata {
             }
         }
 
+        self.inner.accumulated_warnings.clear();
         for avdl_path in &avdl_paths {
-            let compiled = self.inner.compile_file(avdl_path)?;
+            let compiled = match self.inner.compile_file(avdl_path) {
+                Ok(compiled) => compiled,
+                Err(e) => {
+                    // Keep the warnings of the files before the failing one.
+                    all_warnings.append(&mut self.inner.accumulated_warnings);
+                    self.inner.accumulated_warnings = all_warnings;
+                    return Err(e);
+                }
+            };
             let output = Self::extract_impl(compiled);
             all_schemas.extend(output.schemas);
             all_warnings.extend(output.warnings);
-- 
2.43.0


From a656832bf66ed723ff0d73125b1ad8d6c8d4612f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 11/41] fix: convert hexadecimal floating-point literals
 exactly

---
 src/reader.rs | 83 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 54 insertions(+), 29 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 796cbc4..69d8030 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4161,39 +4161,64 @@ fn parse_hex_float_mantissa_and_exponent(hex_body: &str, original: &str) -> Resu
         .parse()
         .map_err(|e| miette::miette!("invalid hex float exponent in '{original}': {e}"))?;
 
-    // Parse the hex mantissa, which may contain a '.' decimal point.
-    let mantissa = if let Some((int_part, frac_part)) = mantissa_str.split_once('.') {
-        // Integer part: each hex digit contributes its value in the
-        // corresponding hex place.
-        let int_val = if int_part.is_empty() {
-            0.0
+    // Collect the leading significant bits of the mantissa, and the weight of
+    // the lowest of them. Digits beyond the 61 to 64 bits that fit only matter
+    // for rounding, so they are folded into the lowest bit.
+    let (int_part, frac_part) = mantissa_str.split_once('.').unwrap_or((mantissa_str, ""));
+    let mut mantissa: u64 = 0;
+    let mut weight = i64::from(exponent);
+    let int_digits = int_part.chars().map(|ch| (ch, 4, 0));
+    let frac_digits = frac_part.chars().map(|ch| (ch, 0, -4));
+    for (ch, weight_if_dropped, weight_if_kept) in int_digits.chain(frac_digits) {
+        let digit = ch.to_digit(16).ok_or_else(|| {
+            miette::miette!("invalid hex digit '{ch}' in float literal '{original}'")
+        })?;
+        if mantissa >> 60 == 0 {
+            mantissa = mantissa << 4 | u64::from(digit);
+            weight += weight_if_kept;
         } else {
-            u64::from_str_radix(int_part, 16)
-                .map_err(|e| miette::miette!("invalid hex float mantissa in '{original}': {e}"))?
-                as f64
-        };
-
-        // Fractional part: each hex digit after the point represents
-        // 1/16, 1/256, etc. of its value.
-        let mut frac_val = 0.0_f64;
-        let mut place = 1.0_f64 / 16.0;
-        for ch in frac_part.chars() {
-            let digit = ch.to_digit(16).ok_or_else(|| {
-                miette::miette!("invalid hex digit '{ch}' in float literal '{original}'")
-            })? as f64;
-            frac_val += digit * place;
-            place /= 16.0;
+            mantissa |= u64::from(digit != 0);
+            weight += weight_if_dropped;
         }
+    }
 
-        int_val + frac_val
-    } else {
-        // No decimal point — the mantissa is a plain hex integer.
-        u64::from_str_radix(mantissa_str, 16)
-            .map_err(|e| miette::miette!("invalid hex float mantissa in '{original}': {e}"))?
-            as f64
-    };
+    Ok(scale_by_power_of_two(mantissa, weight))
+}
+
+/// Compute `mantissa * 2^weight`, rounded once to the nearest `f64` (ties to
+/// even). `powi` cannot be used for this: it overflows or underflows for
+/// exponents whose product with the mantissa is well within range.
+fn scale_by_power_of_two(mantissa: u64, weight: i64) -> f64 {
+    // Exact for every exponent that `f64` can represent.
+    fn power_of_two(exponent: i64) -> f64 {
+        f64::from_bits(if exponent < -1022 {
+            1 << (exponent + 1074)
+        } else {
+            ((exponent + 1023) as u64) << 52
+        })
+    }
 
-    Ok(mantissa * 2.0_f64.powi(exponent))
+    if mantissa == 0 {
+        return 0.0;
+    }
+    let top = i64::from(mantissa.ilog2()) + weight;
+    if top > 1023 {
+        return f64::INFINITY;
+    }
+    // The lowest bit the result can represent, and how many bits lie below it.
+    let lowest = (top - 52).max(-1074);
+    let excess = lowest - weight;
+    if excess <= 0 {
+        return mantissa as f64 * power_of_two(weight);
+    }
+    if excess > 64 {
+        return 0.0;
+    }
+    let wide = u128::from(mantissa);
+    let (kept, rest) = (wide >> excess, wide & ((1 << excess) - 1));
+    let half = 1_u128 << (excess - 1);
+    let round_up = rest > half || (rest == half && kept & 1 == 1);
+    (kept + u128::from(round_up)) as f64 * power_of_two(lowest)
 }
 
 /// Parse an integer literal text into a u32 (for fixed size, decimal precision/scale).
-- 
2.43.0


From d3514ada1b78ca50c7b673a685c0063684149b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:20 +0000
Subject: [PATCH 12/41] fix: reject imported one-way messages with a response
 or errors

---
 src/import.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/import.rs b/src/import.rs
index f4c4627..5594b77 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -830,6 +830,14 @@ fn json_to_message(json: &Value, default_namespace: Option<&str>) -> Result<Mess
         None
     };
 
+    // The same rule that `walk_message` in the reader enforces for IDL messages.
+    if one_way && response != AvroSchema::Null {
+        return Err(miette::miette!("one-way message must have a null response"));
+    }
+    if one_way && errors.as_ref().is_some_and(|errs| !errs.is_empty()) {
+        return Err(miette::miette!("one-way message must not declare errors"));
+    }
+
     let properties =
         collect_extra_properties(obj, &["doc", "request", "response", "errors", "one-way"]);
 
-- 
2.43.0


From cb46e5826f3a16d37c7b1f47d1c8982a6826517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 13/41] fix: measure the distance of a suggested name in
 characters, not bytes

---
 src/compiler.rs | 11 ++++++++---
 src/suggest.rs  |  9 +++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 174810d..d59af36 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -952,6 +952,11 @@ fn keyword_misuse_hint(simple: &str) -> Option<String> {
     }
 }
 
+/// The number of characters in the shorter of two names.
+fn shorter_len(a: &str, b: &str) -> usize {
+    a.chars().count().min(b.chars().count())
+}
+
 /// Build a "did you mean?" help string for an unresolved type name.
 ///
 /// Checks the unresolved name against:
@@ -986,7 +991,7 @@ fn suggest_similar_name(unresolved: &str, registry: &SchemaRegistry) -> Option<S
     // Check against Avro primitive type names.
     for &prim in PRIMITIVE_TYPE_NAMES {
         let dist = levenshtein(simple, prim);
-        let threshold = max_edit_distance(simple.len().min(prim.len()));
+        let threshold = max_edit_distance(shorter_len(simple, prim));
         if dist <= threshold && best.as_ref().is_none_or(|(_, d, _)| dist < *d) {
             best = Some((prim.to_string(), dist, true));
         }
@@ -998,7 +1003,7 @@ fn suggest_similar_name(unresolved: &str, registry: &SchemaRegistry) -> Option<S
     for registered_full in registry.names() {
         // Compare unresolved full name against registered full name.
         let dist_full = levenshtein(unresolved, registered_full);
-        let threshold_full = max_edit_distance(unresolved.len().min(registered_full.len()));
+        let threshold_full = max_edit_distance(shorter_len(unresolved, registered_full));
         if dist_full <= threshold_full && best.as_ref().is_none_or(|(_, d, _)| dist_full < *d) {
             best = Some((registered_full.to_string(), dist_full, false));
         }
@@ -1010,7 +1015,7 @@ fn suggest_similar_name(unresolved: &str, registry: &SchemaRegistry) -> Option<S
             .next()
             .expect("rsplit always yields at least one element");
         let dist_simple = levenshtein(simple, registered_simple);
-        let threshold_simple = max_edit_distance(simple.len().min(registered_simple.len()));
+        let threshold_simple = max_edit_distance(shorter_len(simple, registered_simple));
         if dist_simple <= threshold_simple {
             // Suggest the full registered name so the user gets the right
             // fully-qualified form.
diff --git a/src/suggest.rs b/src/suggest.rs
index 5c3ac83..9542b97 100644
--- a/src/suggest.rs
+++ b/src/suggest.rs
@@ -11,8 +11,9 @@
 /// (O(min(m, n)) space). This is sufficient for identifiers and type names,
 /// which are short.
 pub(crate) fn levenshtein(a: &str, b: &str) -> usize {
-    let a_len = a.len();
-    let b_len = b.len();
+    // Distances count characters, as the loops below do, not bytes.
+    let a_len = a.chars().count();
+    let b_len = b.chars().count();
     if a_len == 0 {
         return b_len;
     }
@@ -40,8 +41,8 @@ pub(crate) fn levenshtein(a: &str, b: &str) -> usize {
 
 /// Maximum edit distance for a suggestion to be considered "close enough."
 ///
-/// For short names (length <= 4), we require distance <= 1 to avoid noisy
-/// suggestions. For longer names, we allow distance <= 2.
+/// For short names (at most 4 characters), we require distance <= 1 to avoid
+/// noisy suggestions. For longer names, we allow distance <= 2.
 pub(crate) fn max_edit_distance(name_len: usize) -> usize {
     if name_len <= 4 { 1 } else { 2 }
 }
-- 
2.43.0


From ad866d3c338a4f2895fc764dfcd05c702e737daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 14/41] fix: report when the output cannot be written to
 standard output

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 8d36c85..c38baad 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -305,8 +305,11 @@ fn write_output(output: Option<&str>, content: &str) -> miette::Result<()> {
         None => {
             // Write to stdout without trailing newline, matching Java behavior.
             // Handle BrokenPipe gracefully.
+            // Standard output is buffered by line, so a failure to write the
+            // last line only shows when it is flushed.
             use std::io::Write;
-            if let Err(e) = write!(io::stdout(), "{content}") {
+            let mut stdout = io::stdout();
+            if let Err(e) = write!(stdout, "{content}").and_then(|()| stdout.flush()) {
                 if e.kind() == io::ErrorKind::BrokenPipe {
                     return Ok(());
                 }
-- 
2.43.0


From 718d12480a380ac0e5102d4a2388c079935596c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:59 +0000
Subject: [PATCH 15/41] fix: attribute an undefined name to the JSON import
 that refers to it

---
 src/compiler.rs | 133 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 95 insertions(+), 38 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index d59af36..2821ffd 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -156,13 +156,9 @@ impl IdlCompiler {
         // Validate that all type references resolved. Unresolved references
         // indicate missing imports, undefined types, or cross-namespace
         // references that need fully-qualified names.
-        if let Err(e) = validate_all_references(
-            &idl_file,
-            &registry,
-            source,
-            source_name,
-            &ctx.json_import_spans,
-        ) {
+        if let Err(e) =
+            validate_all_references(&idl_file, &registry, source, source_name, &ctx.json_imports)
+        {
             self.accumulated_warnings = std::mem::take(&mut ctx.warnings);
             return Err(e);
         }
@@ -582,11 +578,54 @@ struct CompileContext {
     import_ctx: ImportContext,
     messages: HashMap<String, Message>,
     warnings: Vec<miette::Report>,
-    /// Maps JSON-imported file display names to their import statement spans
-    /// in the IDL source. Used to enrich error messages for unresolved
-    /// references from `.avsc`/`.avpr` imports, which lack source spans of
+    /// The `.avsc`/`.avpr` files imported so far. Used to enrich error messages
+    /// for unresolved references from these files, which lack source spans of
     /// their own.
-    json_import_spans: Vec<(String, Option<SpanWithSource>)>,
+    json_imports: Vec<JsonImport>,
+}
+
+/// An imported `.avsc` or `.avpr` file.
+struct JsonImport {
+    /// The display name of the file.
+    path: String,
+    /// The import statement in the IDL source.
+    span: Option<SpanWithSource>,
+    /// The full names of the types that the file refers to.
+    references: HashSet<String>,
+}
+
+impl JsonImport {
+    /// Describe an import that has just added the types of `registry` from
+    /// `first_type` on, and `messages`.
+    fn new(
+        path: &Path,
+        span: Option<SpanWithSource>,
+        registry: &SchemaRegistry,
+        first_type: usize,
+        messages: &HashMap<String, Message>,
+    ) -> Self {
+        // Every reference is unresolved in an empty registry.
+        let empty = SchemaRegistry::new();
+        let references = registry
+            .schemas()
+            .skip(first_type)
+            .chain(messages.values().flat_map(message_schemas))
+            .flat_map(|schema| empty.validate_schema(schema))
+            .map(|(name, _)| name)
+            .collect();
+        JsonImport {
+            path: path.display().to_string(),
+            span,
+            references,
+        }
+    }
+}
+
+/// The schemas of a message: its response, its parameters and its errors.
+fn message_schemas(message: &Message) -> impl Iterator<Item = &AvroSchema> {
+    std::iter::once(&message.response)
+        .chain(message.request.iter().map(|field| &field.schema))
+        .chain(message.errors.iter().flatten())
 }
 
 impl CompileContext {
@@ -596,7 +635,7 @@ impl CompileContext {
             import_ctx: ImportContext::new(import_dirs.to_vec()),
             messages: HashMap::new(),
             warnings: Vec::new(),
-            json_import_spans: Vec::new(),
+            json_imports: Vec::new(),
         }
     }
 }
@@ -827,23 +866,35 @@ fn resolve_single_import(
 
     match import.kind {
         ImportKind::Protocol => {
+            let first_type = ctx.registry.schemas().count();
             let imported_messages = import_protocol(&resolved_path, &mut ctx.registry)
                 .map_err(|e| wrap_import_error(e, import.span, &resolved_path, "protocol"))?;
-            ctx.messages.extend(imported_messages);
 
             // Track the import so unresolved references from this .avpr can
             // be attributed to the import statement in error diagnostics.
-            ctx.json_import_spans
-                .push((resolved_path.display().to_string(), import.span));
+            ctx.json_imports.push(JsonImport::new(
+                &resolved_path,
+                import.span,
+                &ctx.registry,
+                first_type,
+                &imported_messages,
+            ));
+            ctx.messages.extend(imported_messages);
         }
         ImportKind::Schema => {
+            let first_type = ctx.registry.schemas().count();
             import_schema(&resolved_path, &mut ctx.registry)
                 .map_err(|e| wrap_import_error(e, import.span, &resolved_path, "schema"))?;
 
             // Track the import so unresolved references from this .avsc can
             // be attributed to the import statement in error diagnostics.
-            ctx.json_import_spans
-                .push((resolved_path.display().to_string(), import.span));
+            ctx.json_imports.push(JsonImport::new(
+                &resolved_path,
+                import.span,
+                &ctx.registry,
+                first_type,
+                &HashMap::new(),
+            ));
         }
         ImportKind::Idl => {
             let imported_source = fs::read_to_string(&resolved_path)
@@ -874,7 +925,7 @@ fn resolve_single_import(
 
             // Recursively process declaration items from the imported file.
             // IDL imports use their own source text for span tracking, so
-            // `ctx.json_import_spans` is passed through to capture any nested
+            // `ctx.json_imports` is passed through to capture any nested
             // JSON imports within the imported IDL file.
             process_decl_items(&nested_decl_items, ctx, &import_dir).with_context(|| {
                 format!("resolve nested imports from `{}`", resolved_path.display())
@@ -1054,7 +1105,7 @@ fn validate_all_references(
     registry: &SchemaRegistry,
     source: &'static str,
     source_name: &'static str,
-    json_import_spans: &[(String, Option<SpanWithSource>)],
+    json_imports: &[JsonImport],
 ) -> miette::Result<()> {
     let mut unresolved = registry.validate_references();
 
@@ -1080,14 +1131,8 @@ fn validate_all_references(
             let mut messages: Vec<_> = protocol.messages.iter().collect();
             messages.sort_by_key(|(name, _)| *name);
             for (_, msg) in messages {
-                unresolved.extend(registry.validate_schema(&msg.response));
-                for field in &msg.request {
-                    unresolved.extend(registry.validate_schema(&field.schema));
-                }
-                if let Some(errors) = &msg.errors {
-                    for err_schema in errors {
-                        unresolved.extend(registry.validate_schema(err_schema));
-                    }
+                for schema in message_schemas(msg) {
+                    unresolved.extend(registry.validate_schema(schema));
                 }
             }
         }
@@ -1121,17 +1166,26 @@ fn validate_all_references(
 
     // Build a help message listing the JSON-imported files that may contain
     // the undefined type, for use in spanless reference diagnostics.
-    let import_file_names: Vec<&str> = json_import_spans
+    let import_file_names: Vec<&str> = json_imports
         .iter()
-        .map(|(path, _)| path.as_str())
+        .map(|import| import.path.as_str())
         .collect();
 
+    // The first JSON import that refers to a name.
+    let import_of = |name: &str| {
+        json_imports
+            .iter()
+            .find(|import| import.references.contains(name))
+    };
+
     if with_span.is_empty() {
         // All unresolved references come from JSON imports (no IDL source
-        // spans). Use the first available import statement span to point
-        // the user at the import line, with a help message naming the
-        // imported file(s).
-        let first_import_span = json_import_spans.iter().find_map(|(_, s)| *s);
+        // spans). Use the span of the first import statement that brought in
+        // one of them to point the user at the import line, with a help
+        // message naming the imported file(s).
+        let first_import_span = without_span
+            .iter()
+            .find_map(|(name, _)| import_of(name)?.span);
 
         let names: Vec<&str> = without_span.iter().map(|(name, _)| name.as_str()).collect();
         let message = format!("Undefined name: {}", names.join(", "));
@@ -1191,15 +1245,18 @@ fn validate_all_references(
     // available. Include "did you mean?" suggestions where applicable.
     let fallback_span = SpanWithSource::new(0, 0, source_name, source);
     for (name, _) in &without_span {
-        let (span, label) = if let Some((path, Some(import_span))) = json_import_spans.first() {
-            (
+        let (span, label) = match import_of(name) {
+            Some(JsonImport {
+                path,
+                span: Some(import_span),
+                ..
+            }) => (
                 *import_span,
                 Some(format!(
                     "type `{name}` referenced in imported file `{path}`"
                 )),
-            )
-        } else {
-            (fallback_span, None)
+            ),
+            _ => (fallback_span, None),
         };
 
         let help = if import_file_names.is_empty() {
-- 
2.43.0


From 7cf79001c57ed5389ddcb7c7918d1cc08b053195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:07 +0000
Subject: [PATCH 16/41] fix: point at the invalid default of a parameter of a
 named type

---
 src/compiler.rs | 112 +++++++++++++++++++++++++++++-------------------
 src/reader.rs   |  29 ++++++++++---
 2 files changed, 90 insertions(+), 51 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 2821ffd..aa73567 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -699,7 +699,7 @@ fn parse_and_resolve(
     // messages before the protocol's own messages.
     let idl_file = match idl_file {
         IdlFile::Protocol(mut protocol) => {
-            validate_parameter_defaults(&protocol.messages, &ctx.registry)?;
+            validate_parameter_defaults(&protocol.messages, &decl_items, &ctx.registry)?;
             protocol.types = ctx.registry.schemas().cloned().collect();
             let own_messages = std::mem::take(&mut protocol.messages);
             protocol.messages = std::mem::take(&mut ctx.messages);
@@ -753,58 +753,79 @@ fn process_decl_items(
                     continue;
                 }
                 let type_name = schema.full_name().unwrap_or(Cow::Borrowed("<unknown>"));
-                let mut error_iter = errors.into_iter();
-                let (first_field, first_reason) = error_iter.next().expect("errors is non-empty");
-
-                // Build related diagnostics from subsequent errors.
-                let related: Vec<ParseDiagnostic> = error_iter
-                    .filter_map(|(field_name, reason)| {
-                        let msg = format!(
-                            "Invalid default for field `{field_name}` in `{type_name}`: {reason}"
-                        );
-                        let effective_span = field_spans.get(&field_name).copied().or(*span);
-                        effective_span.map(|span| ParseDiagnostic {
-                            span,
-                            message: msg,
-                            label: None,
-                            help: None,
-                            related: Vec::new(),
-                        })
-                    })
-                    .collect();
-
-                let first_msg = format!(
-                    "Invalid default for field `{first_field}` in `{type_name}`: {first_reason}"
-                );
-                // Prefer the per-field span (from the variable declaration)
-                // over the type-level span (from the record keyword), so the
-                // diagnostic highlights the offending field, not the record.
-                let effective_span = field_spans.get(&first_field).copied().or(*span);
-                if let Some(span) = effective_span {
-                    return Err(ParseDiagnostic {
-                        span,
-                        message: first_msg,
-                        label: None,
-                        help: None,
-                        related,
-                    }
-                    .into());
-                }
-                return Err(miette::miette!("{first_msg}"));
+                return Err(invalid_defaults(&type_name, errors, field_spans, *span));
             }
+            // The defaults of parameters are validated once all the types of
+            // the protocol are known.
+            DeclItem::Message(..) => {}
         }
     }
 
     Ok(())
 }
 
+/// Report the invalid defaults of the fields or parameters of `owner`, given as
+/// pairs of a name and a reason, of which there is at least one.
+fn invalid_defaults(
+    owner: &str,
+    errors: Vec<(String, String)>,
+    field_spans: &HashMap<String, SpanWithSource>,
+    owner_span: Option<SpanWithSource>,
+) -> miette::Report {
+    let mut error_iter = errors.into_iter();
+    let (first_field, first_reason) = error_iter.next().expect("errors is non-empty");
+
+    // Build related diagnostics from subsequent errors.
+    let related: Vec<ParseDiagnostic> = error_iter
+        .filter_map(|(field_name, reason)| {
+            let msg = format!("Invalid default for field `{field_name}` in `{owner}`: {reason}");
+            let effective_span = field_spans.get(&field_name).copied().or(owner_span);
+            effective_span.map(|span| ParseDiagnostic {
+                span,
+                message: msg,
+                label: None,
+                help: None,
+                related: Vec::new(),
+            })
+        })
+        .collect();
+
+    let first_msg =
+        format!("Invalid default for field `{first_field}` in `{owner}`: {first_reason}");
+    // Prefer the per-field span (from the variable declaration) over the
+    // type-level span (from the record keyword), so the diagnostic highlights
+    // the offending field, not the record.
+    let effective_span = field_spans.get(&first_field).copied().or(owner_span);
+    if let Some(span) = effective_span {
+        return ParseDiagnostic {
+            span,
+            message: first_msg,
+            label: None,
+            help: None,
+            related,
+        }
+        .into();
+    }
+    miette::miette!("{first_msg}")
+}
+
 /// Validate the defaults of message parameters whose types are references,
 /// which could not be checked at parse time. The counterpart for messages of
 /// the record field validation in `process_decl_items`.
 fn validate_parameter_defaults(
     messages: &HashMap<String, Message>,
+    decl_items: &[DeclItem],
     registry: &SchemaRegistry,
 ) -> miette::Result<()> {
+    let spans: HashMap<&str, &HashMap<String, SpanWithSource>> = decl_items
+        .iter()
+        .filter_map(|item| match item {
+            DeclItem::Message(name, param_spans) => Some((name.as_str(), param_spans)),
+            _ => None,
+        })
+        .collect();
+    let no_spans = HashMap::new();
+
     // Sort by name so that the reported error does not depend on hash order.
     let mut messages: Vec<_> = messages.iter().collect();
     messages.sort_by_key(|(name, _)| *name);
@@ -821,10 +842,9 @@ fn validate_parameter_defaults(
         let errors = validate_record_field_defaults(&request, |full_name| {
             registry.lookup(full_name).cloned()
         });
-        if let Some((param, reason)) = errors.into_iter().next() {
-            return Err(miette::miette!(
-                "Invalid default for field `{param}` in `{name}`: {reason}"
-            ));
+        if !errors.is_empty() {
+            let param_spans = spans.get(name.as_str()).copied().unwrap_or(&no_spans);
+            return Err(invalid_defaults(name, errors, param_spans, None));
         }
     }
     Ok(())
@@ -931,7 +951,11 @@ fn resolve_single_import(
                 format!("resolve nested imports from `{}`", resolved_path.display())
             })?;
             if let IdlFile::Protocol(imported_protocol) = &imported_idl {
-                validate_parameter_defaults(&imported_protocol.messages, &ctx.registry)?;
+                validate_parameter_defaults(
+                    &imported_protocol.messages,
+                    &nested_decl_items,
+                    &ctx.registry,
+                )?;
             }
         }
     }
diff --git a/src/reader.rs b/src/reader.rs
index 69d8030..e5e5417 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -2012,6 +2012,10 @@ pub enum DeclItem {
         Option<SpanWithSource>,
         HashMap<String, SpanWithSource>,
     ),
+    /// A message, by name, with the source locations of its parameters' default
+    /// values as for the fields of a record. The message itself is part of the
+    /// [`Protocol`].
+    Message(String, HashMap<String, SpanWithSource>),
 }
 
 /// Test-only wrapper around [`parse_idl_named`] that normalizes CRLF line
@@ -2790,8 +2794,9 @@ fn walk_protocol<'input>(
                 walk_named_schema_no_register(&ns_ctx, token_stream, src, namespace)?;
             decl_items.push(DeclItem::Type(Box::new(schema), span, field_spans));
         } else if let Ok(msg_ctx) = child.downcast_rc::<MessageDeclarationContextAll<'input>>() {
-            let (msg_name, message) =
+            let (msg_name, message, param_spans) =
                 walk_message(&msg_ctx, token_stream, src, namespace.as_deref())?;
+            decl_items.push(DeclItem::Message(msg_name.clone(), param_spans));
             messages.insert(msg_name, message);
         }
     }
@@ -2944,11 +2949,7 @@ fn walk_record<'input>(
             // compiler when validating Reference-typed defaults after type
             // registration. Prefer the jsonValue span (the `= <value>` part)
             // so diagnostics highlight the offending value, not the field name.
-            let default_span = var_ctx
-                .jsonValue()
-                .and_then(|jv| span_from_context(&*jv))
-                .or_else(|| span_from_context(&**var_ctx));
-            if let Some((offset, length)) = default_span {
+            if let Some((offset, length)) = default_span(var_ctx) {
                 field_spans.insert(field.name.clone(), src.span(offset, length));
             }
         }
@@ -3016,6 +3017,15 @@ fn walk_field_declaration<'input>(
     Ok(fields)
 }
 
+/// The source range of a variable's default value, or of the whole variable if
+/// it has none.
+fn default_span(var_ctx: &VariableDeclarationContextAll<'_>) -> Option<(usize, usize)> {
+    var_ctx
+        .jsonValue()
+        .and_then(|jv| span_from_context(&*jv))
+        .or_else(|| span_from_context(var_ctx))
+}
+
 /// Walk a single variable declaration and create a `Field`.
 ///
 /// `enclosing_name` is the name of the enclosing record (if any), included in
@@ -3596,7 +3606,7 @@ fn walk_message<'input>(
     token_stream: &TS<'input>,
     src: &SourceInfo,
     namespace: Option<&str>,
-) -> Result<(String, Message)> {
+) -> Result<(String, Message, HashMap<String, SpanWithSource>)> {
     let doc = extract_doc_from_context(ctx, token_stream, src);
     let props =
         walk_schema_properties(&ctx.schemaProperty_all(), token_stream, src, MESSAGE_PROPS)?;
@@ -3628,6 +3638,7 @@ fn walk_message<'input>(
 
     // Walk formal parameters.
     let mut request_fields = Vec::new();
+    let mut param_spans: HashMap<String, SpanWithSource> = HashMap::new();
     let mut seen_param_names: HashSet<String> = HashSet::new();
     for param_ctx in ctx.formalParameter_all() {
         let param_doc = extract_doc_from_context(&*param_ctx, token_stream, src);
@@ -3659,6 +3670,9 @@ fn walk_message<'input>(
                 ),
             ));
         }
+        if let Some((offset, length)) = default_span(&var_ctx) {
+            param_spans.insert(field.name.clone(), src.span(offset, length));
+        }
         request_fields.push(field);
     }
 
@@ -3720,6 +3734,7 @@ fn walk_message<'input>(
             errors,
             one_way,
         },
+        param_spans,
     ))
 }
 
-- 
2.43.0


From 54f0a244d74cb46668591b2eb7bcd2c768572936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:19 +0000
Subject: [PATCH 17/41] fix: ignore comments when explaining a syntax error

---
 src/reader.rs | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index e5e5417..1304780 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1097,6 +1097,10 @@ fn refine_errors_with_source(errors: &[SyntaxError], source: &str) -> Option<Vec
         return None;
     }
 
+    // The patterns below look at the characters around an error. Comments mean
+    // nothing there, whatever words or braces they contain.
+    let source = &blank_comments(source);
+
     let first = &errors[0];
 
     // ---- Pattern: empty union (`union {}`) ----
@@ -1205,6 +1209,46 @@ fn refine_errors_with_source(errors: &[SyntaxError], source: &str) -> Option<Vec
     None
 }
 
+/// Replaces every comment in `source`, doc comments included, by spaces. All
+/// other text keeps its offset.
+fn blank_comments(source: &str) -> String {
+    let mut blanked = String::with_capacity(source.len());
+    let mut rest = source;
+    while let Some(c) = rest.chars().next() {
+        let (len, is_comment) = if rest.starts_with("//") {
+            (rest.find(['\r', '\n']).unwrap_or(rest.len()), true)
+        } else if let Some(comment) = rest.strip_prefix("/*") {
+            (comment.find("*/").map_or(rest.len(), |i| i + 4), true)
+        } else if c == '"' {
+            (string_literal_len(rest), false)
+        } else {
+            (c.len_utf8(), false)
+        };
+        let (text, after) = rest.split_at(len);
+        if is_comment {
+            blanked.extend(text.bytes().map(|b| if b == b'\n' { '\n' } else { ' ' }));
+        } else {
+            blanked.push_str(text);
+        }
+        rest = after;
+    }
+    blanked
+}
+
+/// The length of the string literal that `text` starts with, up to the end of
+/// its line if it is not terminated.
+fn string_literal_len(text: &str) -> usize {
+    let mut escaped = false;
+    for (i, b) in text.bytes().enumerate().skip(1) {
+        match b {
+            b'\n' | b'\r' => return i,
+            b'"' if !escaped => return i + 1,
+            _ => escaped = b == b'\\' && !escaped,
+        }
+    }
+    text.len()
+}
+
 /// Detects `union {}` by checking whether `union` followed by `{` appears
 /// just before the error offset, and the error message mentions `}`.
 fn detect_empty_union(error: &SyntaxError, source: &str) -> Option<SyntaxError> {
-- 
2.43.0


From 5e431056ffdd7f3d0c6d2a091bdf52ded98bf7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:36 +0000
Subject: [PATCH 18/41] fix: blame a trailing comma on an enum only if it
 stands in one

---
 src/reader.rs | 88 ++++++++++++++++++++-------------------------------
 1 file changed, 34 insertions(+), 54 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 1304780..4ff9a26 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1416,26 +1416,7 @@ fn detect_missing_close_brace_before_declaration(
 
     // Count braces in the source up to (but not including) the error offset,
     // to find the innermost unclosed `{`. We ignore braces inside strings.
-    let mut brace_stack: Vec<usize> = Vec::new();
-    let mut in_string = false;
-    let mut prev_backslash = false;
-    for (i, b) in source[..error.offset].bytes().enumerate() {
-        if in_string {
-            if b == b'"' && !prev_backslash {
-                in_string = false;
-            }
-            prev_backslash = b == b'\\' && !prev_backslash;
-            continue;
-        }
-        match b {
-            b'"' => in_string = true,
-            b'{' => brace_stack.push(i),
-            b'}' => {
-                brace_stack.pop();
-            }
-            _ => {}
-        }
-    }
+    let brace_stack = open_braces(&source[..error.offset]);
 
     // If there's no unclosed brace, this pattern doesn't apply.
     if brace_stack.is_empty() {
@@ -1600,23 +1581,15 @@ fn detect_trailing_comma_in_enum(error: &SyntaxError, source: &str) -> Option<Sy
         return None;
     }
 
-    // Verify we're inside an enum by searching backwards for `enum`.
-    // We look for `enum <Name> {` before the comma.
-    let before_comma = &before[..before.len() - 1];
-    // Check if any `enum` keyword appears earlier in the source, with a `{`
-    // between it and the current position.
-    let has_enum = source[..error.offset]
-        .rmatch_indices("enum")
-        .any(|(pos, _)| {
-            // Make sure `enum` is followed by a name and `{`.
-            let after_enum = &source[pos + 4..error.offset];
-            after_enum.contains('{')
-        });
-
-    if !has_enum {
+    // Verify that the innermost open brace is that of an enum. Unions and
+    // default values have commas of their own.
+    let open_brace = *open_braces(before).last()?;
+    if identify_construct(&source[..open_brace]) != Some("enum") {
         return None;
     }
 
+    let before_comma = &before[..before.len() - 1];
+
     // Find the last enum symbol before the trailing comma.
     let before_comma_trimmed = before_comma.trim_end();
     let sym_end = before_comma_trimmed.len();
@@ -1723,26 +1696,7 @@ fn detect_unclosed_brace(error: &SyntaxError, source: &str) -> Option<SyntaxErro
 
     // Count braces in the source, tracking positions of unmatched `{`.
     // We ignore braces inside string literals (between unescaped `"`).
-    let mut brace_stack: Vec<usize> = Vec::new();
-    let mut in_string = false;
-    let mut prev_backslash = false;
-    for (i, b) in source.bytes().enumerate() {
-        if in_string {
-            if b == b'"' && !prev_backslash {
-                in_string = false;
-            }
-            prev_backslash = b == b'\\' && !prev_backslash;
-            continue;
-        }
-        match b {
-            b'"' => in_string = true,
-            b'{' => brace_stack.push(i),
-            b'}' => {
-                brace_stack.pop();
-            }
-            _ => {}
-        }
-    }
+    let brace_stack = open_braces(source);
 
     if brace_stack.is_empty() {
         return None;
@@ -1777,6 +1731,32 @@ fn detect_unclosed_brace(error: &SyntaxError, source: &str) -> Option<SyntaxErro
     })
 }
 
+/// The offsets of the `{` in `source` that are not closed, outermost first.
+/// Braces inside string literals (between unescaped `"`) do not count.
+fn open_braces(source: &str) -> Vec<usize> {
+    let mut brace_stack: Vec<usize> = Vec::new();
+    let mut in_string = false;
+    let mut prev_backslash = false;
+    for (i, b) in source.bytes().enumerate() {
+        if in_string {
+            if b == b'"' && !prev_backslash {
+                in_string = false;
+            }
+            prev_backslash = b == b'\\' && !prev_backslash;
+            continue;
+        }
+        match b {
+            b'"' => in_string = true,
+            b'{' => brace_stack.push(i),
+            b'}' => {
+                brace_stack.pop();
+            }
+            _ => {}
+        }
+    }
+    brace_stack
+}
+
 /// Identifies the construct type (record, protocol, enum, etc.) by examining
 /// the source text immediately before an opening `{`.
 fn identify_construct(before_brace: &str) -> Option<&'static str> {
-- 
2.43.0


From 4f3445520a604ed988005772e8c38dc644901642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:04 +0000
Subject: [PATCH 19/41] fix: recognise names with non-ASCII letters when
 explaining a syntax error

---
 src/reader.rs | 67 +++++++++++++++++----------------------------------
 1 file changed, 22 insertions(+), 45 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 4ff9a26..1a68266 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1373,11 +1373,7 @@ fn detect_missing_close_brace_before_declaration(
 
     // Skip the name (e.g., `Bar` in `record Bar {`).
     let name_end = before.len();
-    let name_start = before
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_' && b != b'`')
-        .map(|p| p + 1)
-        .unwrap_or(0);
+    let name_start = name_start(before);
 
     if name_start >= name_end {
         return None;
@@ -1393,11 +1389,7 @@ fn detect_missing_close_brace_before_declaration(
     let keyword_before_name = if !is_decl_keyword {
         let before_name = before[..name_start].trim_end();
         let kw_end = before_name.len();
-        let kw_start = before_name
-            .bytes()
-            .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_')
-            .map(|p| p + 1)
-            .unwrap_or(0);
+        let kw_start = word_start(before_name);
         if kw_start < kw_end {
             matches!(
                 &before_name[kw_start..kw_end],
@@ -1467,11 +1459,7 @@ fn detect_fixed_non_integer(error: &SyntaxError, source: &str) -> Option<SyntaxE
 
     // Extract the name (identifier before the parenthesis).
     let name_end = before_paren.len();
-    let name_start = before_paren
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_')
-        .map(|p| p + 1)
-        .unwrap_or(0);
+    let name_start = word_start(before_paren);
     if name_start >= name_end {
         return None;
     }
@@ -1523,11 +1511,7 @@ fn detect_missing_name(error: &SyntaxError, source: &str) -> Option<SyntaxError>
 
     // Extract the word immediately before `{`.
     let kw_end = before.len();
-    let kw_start = before
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_')
-        .map(|p| p + 1)
-        .unwrap_or(0);
+    let kw_start = word_start(before);
 
     if kw_start >= kw_end {
         return None;
@@ -1593,11 +1577,7 @@ fn detect_trailing_comma_in_enum(error: &SyntaxError, source: &str) -> Option<Sy
     // Find the last enum symbol before the trailing comma.
     let before_comma_trimmed = before_comma.trim_end();
     let sym_end = before_comma_trimmed.len();
-    let sym_start = before_comma_trimmed
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_')
-        .map(|p| p + 1)
-        .unwrap_or(0);
+    let sym_start = word_start(before_comma_trimmed);
     let last_symbol = if sym_start < sym_end {
         &before_comma_trimmed[sym_start..sym_end]
     } else {
@@ -1641,11 +1621,7 @@ fn detect_misspelled_keyword(error: &SyntaxError, source: &str) -> Option<Syntax
 
     // Skip the identifier that ANTLR consumed as the name.
     let name_end = trimmed.len();
-    let name_start = trimmed
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_' && b != b'`')
-        .map(|p| p + 1)
-        .unwrap_or(0);
+    let name_start = name_start(trimmed);
 
     if name_start >= name_end {
         return None;
@@ -1655,11 +1631,7 @@ fn detect_misspelled_keyword(error: &SyntaxError, source: &str) -> Option<Syntax
 
     // Now extract the potential misspelled keyword.
     let kw_end = before_name.len();
-    let kw_start = before_name
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_')
-        .map(|p| p + 1)
-        .unwrap_or(0);
+    let kw_start = word_start(before_name);
 
     if kw_start >= kw_end {
         return None;
@@ -1731,6 +1703,19 @@ fn detect_unclosed_brace(error: &SyntaxError, source: &str) -> Option<SyntaxErro
     })
 }
 
+/// The offset of the word that `text` ends with, or its length if it does not
+/// end with one.
+fn word_start(text: &str) -> usize {
+    text.trim_end_matches(|c: char| c.is_alphanumeric() || c == '_')
+        .len()
+}
+
+/// Like [`word_start`], for a name that may be quoted with backticks.
+fn name_start(text: &str) -> usize {
+    text.trim_end_matches(|c: char| c.is_alphanumeric() || c == '_' || c == '`')
+        .len()
+}
+
 /// The offsets of the `{` in `source` that are not closed, outermost first.
 /// Braces inside string literals (between unescaped `"`) do not count.
 fn open_braces(source: &str) -> Vec<usize> {
@@ -1766,11 +1751,7 @@ fn identify_construct(before_brace: &str) -> Option<&'static str> {
 
     // Skip the name (e.g., `User` in `record User {`).
     let name_end = trimmed.len();
-    let name_start = trimmed
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_' && b != b'`')
-        .map(|p| p + 1)
-        .unwrap_or(0);
+    let name_start = name_start(trimmed);
 
     if name_start >= name_end {
         return None;
@@ -1791,11 +1772,7 @@ fn identify_construct(before_brace: &str) -> Option<&'static str> {
     // Otherwise, look at the keyword before the name.
     let before_name = trimmed[..name_start].trim_end();
     let kw_end = before_name.len();
-    let kw_start = before_name
-        .bytes()
-        .rposition(|b| !b.is_ascii_alphanumeric() && b != b'_')
-        .map(|p| p + 1)
-        .unwrap_or(0);
+    let kw_start = word_start(before_name);
 
     if kw_start >= kw_end {
         return None;
-- 
2.43.0


From 9afb091f582398d58e9a43f16b07c2936e1dcaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:34 +0000
Subject: [PATCH 20/41] fix: name the annotation whose value is missing as it
 stands in the source

---
 src/reader.rs | 110 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 82 insertions(+), 28 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 1a68266..0dc22bc 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -262,6 +262,7 @@ impl miette::Diagnostic for Warning {
 
 /// A collected ANTLR syntax error with byte offset information for source
 /// highlighting via miette.
+#[derive(Clone)]
 struct SyntaxError {
     /// Byte offset of the offending token's start in the source text.
     offset: usize,
@@ -325,24 +326,9 @@ fn enrich_antlr_error(msg: &str) -> Option<EnrichedError> {
         // keyword. The parser greedily consumed the keyword and subsequent
         // tokens as parts of the annotation name. Produce a more helpful
         // error explaining that the `@` is out of place.
-        if let Some(kw) = annotation_name_starts_with_keyword(anno_name) {
-            return Some(EnrichedError {
-                message: format!(
-                    "unexpected `@` before `{kw}` -- \
-                     did you mean to add an annotation? \
-                     annotations use `@name(\"value\")` syntax"
-                ),
-                label: Some(format!("unexpected `@` before `{kw}`")),
-                help: None,
-            });
-        }
-        return Some(EnrichedError {
-            message: format!(
-                "annotation `@{anno_name}` is missing its value -- \
-                     use `@{anno_name}(\"value\")` syntax"
-            ),
-            label: None,
-            help: None,
+        return Some(match annotation_name_starts_with_keyword(anno_name) {
+            Some(kw) => stray_at_sign_error(kw),
+            None => annotation_without_value_error(anno_name),
         });
     }
 
@@ -417,6 +403,31 @@ fn enrich_antlr_error(msg: &str) -> Option<EnrichedError> {
     None
 }
 
+/// The error for a bare `@` before the declaration keyword `kw`.
+fn stray_at_sign_error(kw: &str) -> EnrichedError {
+    EnrichedError {
+        message: format!(
+            "unexpected `@` before `{kw}` -- \
+             did you mean to add an annotation? \
+             annotations use `@name(\"value\")` syntax"
+        ),
+        label: Some(format!("unexpected `@` before `{kw}`")),
+        help: None,
+    }
+}
+
+/// The error for an annotation `@name` that no `(` follows.
+fn annotation_without_value_error(name: &str) -> EnrichedError {
+    EnrichedError {
+        message: format!(
+            "annotation `@{name}` is missing its value -- \
+             use `@{name}(\"value\")` syntax"
+        ),
+        label: None,
+        help: None,
+    }
+}
+
 // ==========================================================================
 // Unterminated String Literal Detection
 // ==========================================================================
@@ -1103,6 +1114,26 @@ fn refine_errors_with_source(errors: &[SyntaxError], source: &str) -> Option<Vec
 
     let first = &errors[0];
 
+    // ---- Pattern: annotation without a value (`@version protocol ...`) ----
+    //
+    // ANTLR's message runs the annotation's name and the token after it
+    // together, so where the name ends can only be guessed from it. The source
+    // tells.
+    if let Some(refined) = detect_annotation_without_value(first, source) {
+        let corrected: Vec<SyntaxError> = std::iter::once(refined)
+            .chain(errors[1..].iter().cloned())
+            .collect();
+        return Some(refine_error_patterns(&corrected, source).unwrap_or(corrected));
+    }
+
+    refine_error_patterns(errors, source)
+}
+
+/// The patterns of [`refine_errors_with_source`] that replace an error, given
+/// the source without its comments.
+fn refine_error_patterns(errors: &[SyntaxError], source: &str) -> Option<Vec<SyntaxError>> {
+    let first = &errors[0];
+
     // ---- Pattern: empty union (`union {}`) ----
     //
     // When ANTLR sees `union {` followed immediately by `}`, it produces a
@@ -1186,16 +1217,7 @@ fn refine_errors_with_source(errors: &[SyntaxError], source: &str) -> Option<Vec
     if let Some(refined) = detect_unclosed_brace(last, source) {
         // Keep all errors except the last one (which was the EOF error),
         // and replace it with the refined version.
-        let mut result: Vec<SyntaxError> = errors[..errors.len() - 1]
-            .iter()
-            .map(|e| SyntaxError {
-                offset: e.offset,
-                length: e.length,
-                message: e.message.clone(),
-                label: e.label.clone(),
-                help: e.help.clone(),
-            })
-            .collect();
+        let mut result = errors[..errors.len() - 1].to_vec();
         result.push(refined);
         // When the unclosed brace is the only error, just return it.
         // Otherwise, put it first since it's the root cause.
@@ -1209,6 +1231,38 @@ fn refine_errors_with_source(errors: &[SyntaxError], source: &str) -> Option<Vec
     None
 }
 
+/// Corrects the name in the message about an annotation without a value: it is
+/// the name that stands before the error in the source.
+fn detect_annotation_without_value(error: &SyntaxError, source: &str) -> Option<SyntaxError> {
+    let (line_prefix, description) = error
+        .message
+        .split_at(extract_line_prefix(&error.message).len());
+    if !description.starts_with("annotation `@") && !description.starts_with("unexpected `@`") {
+        return None;
+    }
+
+    let before = source[..error.offset].trim_end();
+    let before_name =
+        before.trim_end_matches(|c: char| c.is_alphanumeric() || matches!(c, '_' | '-' | '.'));
+    let name = &before[before_name.len()..];
+    if name.is_empty() || !before_name.trim_end().ends_with('@') {
+        return None;
+    }
+
+    let enriched = if DECLARATION_KEYWORDS.contains(&name) {
+        stray_at_sign_error(name)
+    } else {
+        annotation_without_value_error(name)
+    };
+    Some(SyntaxError {
+        offset: error.offset,
+        length: error.length,
+        message: format!("{line_prefix}{}", enriched.message),
+        label: enriched.label,
+        help: enriched.help,
+    })
+}
+
 /// Replaces every comment in `source`, doc comments included, by spaces. All
 /// other text keeps its offset.
 fn blank_comments(source: &str) -> String {
-- 
2.43.0


From 1ca2937f3b409183a10787efd528a14910c8745d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 21/41] fix: call a word a misspelt keyword only if it can be
 one

---
 src/reader.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 0dc22bc..b465b41 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1693,8 +1693,13 @@ fn detect_misspelled_keyword(error: &SyntaxError, source: &str) -> Option<Syntax
 
     let candidate = &before_name[kw_start..kw_end];
 
-    // Check if the candidate looks like a misspelled keyword.
-    if let Some(suggestion) = suggest_keyword(candidate) {
+    // Check if the candidate looks like a misspelled keyword. A misspelled type
+    // is no syntax error but a reference, and neither is one that is declared.
+    if let Some(suggestion) = suggest_keyword(candidate)
+        && suggestion != "void"
+        && !is_invalid_type_name(suggestion)
+        && !declares_type(source, candidate)
+    {
         let line_prefix = extract_line_prefix(&error.message);
         return Some(SyntaxError {
             offset: kw_start,
@@ -1710,6 +1715,17 @@ fn detect_misspelled_keyword(error: &SyntaxError, source: &str) -> Option<Syntax
     None
 }
 
+/// Whether `source` declares a type named `name`.
+fn declares_type(source: &str, name: &str) -> bool {
+    let words: Vec<&str> = source
+        .split(|c: char| !c.is_alphanumeric() && c != '_')
+        .filter(|word| !word.is_empty())
+        .collect();
+    words
+        .windows(2)
+        .any(|pair| matches!(pair[0], "record" | "error" | "enum" | "fixed") && pair[1] == name)
+}
+
 /// Detects unclosed braces by checking whether the last error is "unexpected
 /// end of file" and the source has more `{` than `}`. When detected, points
 /// the error at the last unmatched `{` so the user knows which construct
-- 
2.43.0


From 82e31dc63db2a1eb61153fc06d45f9021da7b5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:15 +0000
Subject: [PATCH 22/41] fix: take only the keyword fixed for a fixed type
 without a size

---
 src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index b465b41..4ec7e1e 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1521,7 +1521,7 @@ fn detect_fixed_non_integer(error: &SyntaxError, source: &str) -> Option<SyntaxE
 
     // Check that `fixed` precedes the name.
     let before_name = before_paren[..name_start].trim_end();
-    if !before_name.ends_with("fixed") {
+    if &before_name[word_start(before_name)..] != "fixed" {
         return None;
     }
 
-- 
2.43.0


From ce81d73c9204b7010a4ce4742667c5c0366a1616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:42 +0000
Subject: [PATCH 23/41] fix: do not call a closed record unclosed

---
 src/reader.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 4ec7e1e..86226bc 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1464,8 +1464,10 @@ fn detect_missing_close_brace_before_declaration(
     // to find the innermost unclosed `{`. We ignore braces inside strings.
     let brace_stack = open_braces(&source[..error.offset]);
 
-    // If there's no unclosed brace, this pattern doesn't apply.
-    if brace_stack.is_empty() {
+    // If there's no unclosed brace, this pattern doesn't apply. Neither does it
+    // if the rest of the file closes them all: a declaration inside a record
+    // does not leave that record open.
+    if brace_stack.is_empty() || open_braces(source).is_empty() {
         return None;
     }
 
-- 
2.43.0


From 870e29d0a5bcf24ac228601d5568a7d6bed81fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:21 +0000
Subject: [PATCH 24/41] fix: find only declarations when asking whether a type
 is declared

---
 src/reader.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 86226bc..dcdd35e 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1719,13 +1719,18 @@ fn detect_misspelled_keyword(error: &SyntaxError, source: &str) -> Option<Syntax
 
 /// Whether `source` declares a type named `name`.
 fn declares_type(source: &str, name: &str) -> bool {
-    let words: Vec<&str> = source
-        .split(|c: char| !c.is_alphanumeric() && c != '_')
-        .filter(|word| !word.is_empty())
+    let texts: Vec<&str> = source
+        .split(|c: char| c.is_whitespace() || c == '`')
+        .filter(|text| !text.is_empty())
         .collect();
-    words
-        .windows(2)
-        .any(|pair| matches!(pair[0], "record" | "error" | "enum" | "fixed") && pair[1] == name)
+    texts.windows(2).any(|pair| {
+        matches!(
+            &pair[0][word_start(pair[0])..],
+            "record" | "error" | "enum" | "fixed"
+        ) && pair[1]
+            .strip_prefix(name)
+            .is_some_and(|rest| !rest.starts_with(|c: char| c.is_alphanumeric() || c == '_'))
+    })
 }
 
 /// Detects unclosed braces by checking whether the last error is "unexpected
-- 
2.43.0


From 412660a55540b08f0d3e481cea90612ca563cee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:27 +0000
Subject: [PATCH 25/41] fix: do not ask for a size of a fixed type that has one

---
 src/reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index dcdd35e..c64a3bf 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1511,6 +1511,9 @@ fn detect_fixed_non_integer(error: &SyntaxError, source: &str) -> Option<SyntaxE
     // Look for the pattern `fixed <Name>(` before the `)`. We search backwards
     // for `(`, then check if `fixed <Name>` precedes it.
     let paren_pos = before.rfind('(')?;
+    if before[paren_pos..].contains(')') {
+        return None;
+    }
     let before_paren = before[..paren_pos].trim_end();
 
     // Extract the name (identifier before the parenthesis).
-- 
2.43.0


From 2d83bc5e83261b56724e9a375422c49e8bd18ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:30 +0000
Subject: [PATCH 26/41] fix: ask for an annotation's value only where there is
 an annotation

---
 src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index c64a3bf..b42751f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -988,7 +988,7 @@ fn extract_annotation_name(input: &str) -> Option<&str> {
             .take_while(|c| c.is_ascii_alphanumeric() || *c == '_' || *c == '-')
             .count();
 
-        if ident_len > 0 {
+        if after_at.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') {
             let full_ident = &after_at[..ident_len];
             let after_ident = &after_at[ident_len..];
 
-- 
2.43.0


From 582764d79f1b2d56feb76ded5766ed432aa4a841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:50 +0000
Subject: [PATCH 27/41] fix: keep the whole first character in the span of a
 file without declarations of a protocol or schema

---
 src/compiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index aa73567..8877ef8 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -327,7 +327,7 @@ impl Idl {
             // via `drain_warnings()`.
             self.inner.accumulated_warnings = warnings;
 
-            let span_len = source.len().min(1);
+            let span_len = source.chars().next().map_or(0, char::len_utf8);
             return Err(ParseDiagnostic {
                 span: SpanWithSource::new(0, span_len, source_name, source),
                 message: "IDL file contains neither a protocol nor a schema declaration"
-- 
2.43.0


From a6beb44124526f61aeb06280970bdbcb0178afbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 28/41] fix: validate defaults of recursive types, in time
 linear in the default

---
 src/model/schema.rs | 195 ++++++++++----------------------------------
 1 file changed, 45 insertions(+), 150 deletions(-)

diff --git a/src/model/schema.rs b/src/model/schema.rs
index 9963f9e..1b8ba41 100644
--- a/src/model/schema.rs
+++ b/src/model/schema.rs
@@ -703,6 +703,18 @@ fn is_json_integer(n: &serde_json::Number) -> bool {
 /// skipped and `true` is returned, because the referenced type is not available
 /// for inspection at parse time.
 pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
+    is_valid_resolved_default(value, schema, &|_| None)
+}
+
+/// Like [`is_valid_default`], but for a `Reference` type, the value is validated
+/// against the type that `resolver` gives for its full name, if there is one.
+///
+/// References are followed only as far as the value goes, so recursive types
+/// need no special treatment.
+fn is_valid_resolved_default<F>(value: &Value, schema: &AvroSchema, resolver: &F) -> bool
+where
+    F: Fn(&str) -> Option<AvroSchema>,
+{
     match schema {
         // =====================================================================
         // Primitives: each has exactly one valid JSON type.
@@ -747,7 +759,7 @@ pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
             for field in fields {
                 if let Some(field_val) = obj.get(&field.name) {
                     // Default object provides a value for this field -- validate it.
-                    if !is_valid_default(field_val, &field.schema) {
+                    if !is_valid_resolved_default(field_val, &field.schema, resolver) {
                         return false;
                     }
                 } else if field.default.is_none() {
@@ -771,7 +783,8 @@ pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
                 Some(a) => a,
                 None => return false,
             };
-            arr.iter().all(|elem| is_valid_default(elem, items))
+            arr.iter()
+                .all(|elem| is_valid_resolved_default(elem, items, resolver))
         }
         AvroSchema::Map { values, .. } => {
             // The default must be a JSON object where every value is valid
@@ -780,7 +793,8 @@ pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
                 Some(o) => o,
                 None => return false,
             };
-            obj.values().all(|val| is_valid_default(val, values))
+            obj.values()
+                .all(|val| is_valid_resolved_default(val, values, resolver))
         }
 
         // Java's `Schema.isValidDefault` checks whether the default matches
@@ -791,7 +805,9 @@ pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
             if types.is_empty() {
                 false
             } else {
-                types.iter().any(|branch| is_valid_default(value, branch))
+                types
+                    .iter()
+                    .any(|branch| is_valid_resolved_default(value, branch, resolver))
             }
         }
 
@@ -808,19 +824,36 @@ pub fn is_valid_default(value: &Value, schema: &AvroSchema) -> bool {
         }
 
         // =====================================================================
-        // Forward references: skip validation because the referenced type is
-        // not yet resolved at parse time.
+        // References: skip validation if the referenced type is not available.
         // =====================================================================
-        AvroSchema::Reference { .. } => true,
+        AvroSchema::Reference {
+            name, namespace, ..
+        } => resolver(&make_full_name(name, namespace.as_deref()))
+            .is_none_or(|resolved| is_valid_resolved_default(value, &resolved, resolver)),
     }
 }
 
 /// Returns a human-readable description of why a default value is invalid,
 /// or `None` if the value is valid for the schema.
 pub fn validate_default(value: &Value, schema: &AvroSchema) -> Option<String> {
-    if is_valid_default(value, schema) {
+    validate_resolved_default(value, schema, &|_| None)
+}
+
+/// Like [`validate_default`], with `Reference` types resolved by `resolver`.
+fn validate_resolved_default<F>(value: &Value, schema: &AvroSchema, resolver: &F) -> Option<String>
+where
+    F: Fn(&str) -> Option<AvroSchema>,
+{
+    if is_valid_resolved_default(value, schema, resolver) {
         return None;
     }
+    if let AvroSchema::Reference {
+        name, namespace, ..
+    } = schema
+        && let Some(resolved) = resolver(&make_full_name(name, namespace.as_deref()))
+    {
+        return validate_resolved_default(value, &resolved, resolver);
+    }
 
     // Produce a more specific message for integer values that are the right JSON
     // type but fall outside the schema's numeric range.
@@ -869,7 +902,7 @@ pub fn validate_default(value: &Value, schema: &AvroSchema) -> Option<String> {
         // Check for fields with invalid default values.
         for field in fields {
             if let Some(field_val) = obj.get(&field.name)
-                && let Some(reason) = validate_default(field_val, &field.schema)
+                && let Some(reason) = validate_resolved_default(field_val, &field.schema, resolver)
             {
                 return Some(format!(
                     "invalid value for field `{}`: {reason}",
@@ -892,9 +925,8 @@ pub fn validate_default(value: &Value, schema: &AvroSchema) -> Option<String> {
 /// At parse time, `validate_default` skips validation for `Reference` types
 /// because the referenced schema is not yet available. This function runs
 /// after type registration, when a resolver can look up previously-registered
-/// types. If the reference resolves, the default is validated against the
-/// resolved schema. If resolution fails (true forward reference), validation
-/// is skipped, matching the existing behavior.
+/// types. Where a reference resolves, the default is validated against the
+/// resolved schema. Where resolution fails, validation is skipped.
 ///
 /// Returns a list of `(field_name, reason)` pairs for any invalid defaults
 /// found.
@@ -914,151 +946,14 @@ where
             None => continue,
         };
 
-        // Only intervene for Reference types (and unions containing them).
-        // Non-Reference types are already validated at parse time by
-        // `walk_variable` in reader.rs.
-        let resolved_schema = resolve_for_validation(&field.schema, &resolver);
-        if let Some(ref resolved) = resolved_schema
-            && let Some(reason) = validate_default(default_val, resolved)
-        {
+        if let Some(reason) = validate_resolved_default(default_val, &field.schema, &resolver) {
             errors.push((field.name.clone(), reason));
         }
-        // If resolve_for_validation returns None, the reference could not be
-        // resolved (true forward reference), so we skip validation.
     }
 
     errors
 }
 
-/// Attempt to resolve `Reference` types in a schema for default validation.
-///
-/// Returns `Some(resolved_schema)` if all references in the schema can be
-/// resolved, or `None` if any reference is unresolvable (forward reference).
-/// For non-Reference types, returns the schema unchanged.
-///
-/// This function performs deep resolution: it recursively resolves References
-/// inside record fields, array items, map values, and union branches. This is
-/// necessary for validating nested record defaults where inner types may also
-/// be References.
-fn resolve_for_validation<F>(schema: &AvroSchema, resolver: &F) -> Option<AvroSchema>
-where
-    F: Fn(&str) -> Option<AvroSchema>,
-{
-    use std::collections::HashSet;
-    let mut visited = HashSet::new();
-    resolve_for_validation_inner(schema, resolver, &mut visited)
-}
-
-/// Inner recursive function with cycle detection via a `visited` set.
-fn resolve_for_validation_inner<F>(
-    schema: &AvroSchema,
-    resolver: &F,
-    visited: &mut std::collections::HashSet<String>,
-) -> Option<AvroSchema>
-where
-    F: Fn(&str) -> Option<AvroSchema>,
-{
-    match schema {
-        AvroSchema::Reference {
-            name, namespace, ..
-        } => {
-            let full_name = make_full_name(name, namespace.as_deref()).into_owned();
-            // Cycle detection: if we've already seen this type, return a
-            // placeholder that will pass basic JSON type validation.
-            // Cyclic types can still have valid defaults (e.g., a tree node
-            // where child references are nullable), so we don't fail here.
-            if visited.contains(&full_name) {
-                // Return the Reference as-is; is_valid_default treats Reference
-                // as "skip validation", which is appropriate for cyclic refs.
-                return Some(schema.clone());
-            }
-            // Resolve the reference first, then recursively resolve any nested
-            // References inside the resolved type.
-            resolver(&full_name)
-                .and_then(|resolved| resolve_for_validation_inner(&resolved, resolver, visited))
-        }
-        AvroSchema::Union {
-            types,
-            is_nullable_type,
-        } => {
-            // Resolve any Reference branches within the union. If any branch
-            // is an unresolvable forward reference, skip validation for the
-            // entire union.
-            let mut resolved_types = Vec::with_capacity(types.len());
-            for branch in types {
-                match resolve_for_validation_inner(branch, resolver, visited) {
-                    Some(resolved) => resolved_types.push(resolved),
-                    None => return None,
-                }
-            }
-            Some(AvroSchema::Union {
-                types: resolved_types,
-                is_nullable_type: *is_nullable_type,
-            })
-        }
-        AvroSchema::Record {
-            name,
-            namespace,
-            doc,
-            fields,
-            is_error,
-            aliases,
-            properties,
-        } => {
-            // Mark this record as being visited to detect cycles.
-            let full_name = make_full_name(name, namespace.as_deref()).into_owned();
-            visited.insert(full_name.clone());
-
-            // Recursively resolve References inside record fields so that
-            // nested record default validation can see the full types.
-            let mut resolved_fields = Vec::with_capacity(fields.len());
-            for field in fields {
-                let resolved_schema =
-                    resolve_for_validation_inner(&field.schema, resolver, visited)?;
-                resolved_fields.push(Field {
-                    name: field.name.clone(),
-                    schema: resolved_schema,
-                    doc: field.doc.clone(),
-                    default: field.default.clone(),
-                    order: field.order.clone(),
-                    aliases: field.aliases.clone(),
-                    properties: field.properties.clone(),
-                });
-            }
-
-            // Unmark after processing this record's fields.
-            visited.remove(&full_name);
-
-            Some(AvroSchema::Record {
-                name: name.clone(),
-                namespace: namespace.clone(),
-                doc: doc.clone(),
-                fields: resolved_fields,
-                is_error: *is_error,
-                aliases: aliases.clone(),
-                properties: properties.clone(),
-            })
-        }
-        AvroSchema::Array { items, properties } => {
-            let resolved_items = resolve_for_validation_inner(items, resolver, visited)?;
-            Some(AvroSchema::Array {
-                items: Box::new(resolved_items),
-                properties: properties.clone(),
-            })
-        }
-        AvroSchema::Map { values, properties } => {
-            let resolved_values = resolve_for_validation_inner(values, resolver, visited)?;
-            Some(AvroSchema::Map {
-                values: Box::new(resolved_values),
-                properties: properties.clone(),
-            })
-        }
-        // For primitives, enums, fixed, logical types, and annotated primitives,
-        // the schema is already concrete and does not need resolution.
-        other => Some(other.clone()),
-    }
-}
-
 #[cfg(test)]
 impl Field {
     /// Create a field with no aliases, properties, doc, default, or order.
-- 
2.43.0


From 45c8f08f0c5f9968bd1c3a1787dbdd38f5f133ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:14 +0000
Subject: [PATCH 29/41] fix: validate defaults of types that are declared later

---
 src/compiler.rs | 64 +++++++++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 8877ef8..05aa814 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -582,6 +582,8 @@ struct CompileContext {
     /// for unresolved references from these files, which lack source spans of
     /// their own.
     json_imports: Vec<JsonImport>,
+    /// The declarations processed so far, of all IDL files.
+    decl_items: Vec<DeclItem>,
 }
 
 /// An imported `.avsc` or `.avpr` file.
@@ -636,6 +638,7 @@ impl CompileContext {
             messages: HashMap::new(),
             warnings: Vec::new(),
             json_imports: Vec::new(),
+            decl_items: Vec::new(),
         }
     }
 }
@@ -691,7 +694,9 @@ fn parse_and_resolve(
     // Process declaration items in source order: resolve imports when
     // encountered, register local types when encountered. Any import-derived
     // warnings are appended to `ctx.warnings` by `process_decl_items`.
-    process_decl_items(&decl_items, ctx, input_dir)?;
+    process_decl_items(decl_items, ctx, input_dir)?;
+    let decl_items = std::mem::take(&mut ctx.decl_items);
+    validate_field_defaults(&decl_items, &ctx.registry)?;
     ctx.registry.spell_out_null_namespaces();
 
     // For protocol files, rebuild the types list from the registry (which now
@@ -699,11 +704,11 @@ fn parse_and_resolve(
     // messages before the protocol's own messages.
     let idl_file = match idl_file {
         IdlFile::Protocol(mut protocol) => {
-            validate_parameter_defaults(&protocol.messages, &decl_items, &ctx.registry)?;
             protocol.types = ctx.registry.schemas().cloned().collect();
             let own_messages = std::mem::take(&mut protocol.messages);
             protocol.messages = std::mem::take(&mut ctx.messages);
             protocol.messages.extend(own_messages);
+            validate_parameter_defaults(&protocol.messages, &decl_items, &ctx.registry)?;
             IdlFile::Protocol(protocol)
         }
         other => other,
@@ -718,16 +723,16 @@ fn parse_and_resolve(
 
 /// Process declaration items (imports and local types) in source order.
 fn process_decl_items(
-    decl_items: &[DeclItem],
+    decl_items: Vec<DeclItem>,
     ctx: &mut CompileContext,
     current_dir: &Path,
 ) -> miette::Result<()> {
-    for item in decl_items {
+    for item in &decl_items {
         match item {
             DeclItem::Import(import) => {
                 resolve_single_import(import, ctx, current_dir)?;
             }
-            DeclItem::Type(schema, span, field_spans) => {
+            DeclItem::Type(schema, span, _) => {
                 if let Err(msg) = ctx.registry.register(schema.as_ref().clone()) {
                     if let Some(span) = span.as_ref() {
                         return Err(ParseDiagnostic {
@@ -741,26 +746,36 @@ fn process_decl_items(
                     }
                     return Err(miette::miette!("{msg}"));
                 }
+            }
+            DeclItem::Message(..) => {}
+        }
+    }
+    // The defaults of fields and parameters are validated once all types are
+    // known.
+    ctx.decl_items.extend(decl_items);
 
-                // Validate field defaults for Reference-typed fields now that
-                // the registry contains all previously-registered types.
-                // All validation errors are reported at once so users can fix
-                // multiple bad defaults in one edit cycle.
-                let errors = validate_record_field_defaults(schema, |full_name| {
-                    ctx.registry.lookup(full_name).cloned()
-                });
-                if errors.is_empty() {
-                    continue;
-                }
+    Ok(())
+}
+
+/// Validate the defaults of record fields whose types are or contain
+/// references, which could not be checked at parse time. All the invalid
+/// defaults of a record are reported at once so users can fix multiple bad
+/// defaults in one edit cycle.
+fn validate_field_defaults(
+    decl_items: &[DeclItem],
+    registry: &SchemaRegistry,
+) -> miette::Result<()> {
+    for item in decl_items {
+        if let DeclItem::Type(schema, span, field_spans) = item {
+            let errors = validate_record_field_defaults(schema, |full_name| {
+                registry.lookup(full_name).cloned()
+            });
+            if !errors.is_empty() {
                 let type_name = schema.full_name().unwrap_or(Cow::Borrowed("<unknown>"));
                 return Err(invalid_defaults(&type_name, errors, field_spans, *span));
             }
-            // The defaults of parameters are validated once all the types of
-            // the protocol are known.
-            DeclItem::Message(..) => {}
         }
     }
-
     Ok(())
 }
 
@@ -811,7 +826,7 @@ fn invalid_defaults(
 
 /// Validate the defaults of message parameters whose types are references,
 /// which could not be checked at parse time. The counterpart for messages of
-/// the record field validation in `process_decl_items`.
+/// `validate_field_defaults`.
 fn validate_parameter_defaults(
     messages: &HashMap<String, Message>,
     decl_items: &[DeclItem],
@@ -947,16 +962,9 @@ fn resolve_single_import(
             // IDL imports use their own source text for span tracking, so
             // `ctx.json_imports` is passed through to capture any nested
             // JSON imports within the imported IDL file.
-            process_decl_items(&nested_decl_items, ctx, &import_dir).with_context(|| {
+            process_decl_items(nested_decl_items, ctx, &import_dir).with_context(|| {
                 format!("resolve nested imports from `{}`", resolved_path.display())
             })?;
-            if let IdlFile::Protocol(imported_protocol) = &imported_idl {
-                validate_parameter_defaults(
-                    &imported_protocol.messages,
-                    &nested_decl_items,
-                    &ctx.registry,
-                )?;
-            }
         }
     }
 
-- 
2.43.0


From 1f8193a15b3961afd5c11e8cf1520a6a3066fee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:04 +0000
Subject: [PATCH 30/41] fix: reject illegal unions in imported JSON

---
 src/import.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index 5594b77..255fd10 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -403,12 +403,24 @@ fn json_to_schema(json: &Value, default_namespace: Option<&str>) -> Result<AvroS
 
         // Array = union type.
         Value::Array(types) => {
-            let schemas: Result<Vec<_>> = types
+            let types = types
                 .iter()
                 .map(|t| json_to_schema(t, default_namespace))
-                .collect();
+                .collect::<Result<Vec<_>>>()?;
+            // The same rules that `walk_union_type` in the reader enforces for
+            // IDL unions.
+            if types.iter().any(|t| matches!(t, AvroSchema::Union { .. })) {
+                miette::bail!("unions may not immediately contain other unions");
+            }
+            let mut seen_keys = HashSet::new();
+            for key in types.iter().map(AvroSchema::union_type_key) {
+                if seen_keys.contains(&key) {
+                    miette::bail!("duplicate in union: {key}");
+                }
+                seen_keys.insert(key);
+            }
             Ok(AvroSchema::Union {
-                types: schemas?,
+                types,
                 is_nullable_type: false,
             })
         }
-- 
2.43.0


From 68010252c832cbc024bdc4407428712cbff73d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:24 +0000
Subject: [PATCH 31/41] fix: reject duplicate members and unknown enum defaults
 in imported JSON

---
 src/resolve.rs | 59 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index b92ecfc..19163aa 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -14,6 +14,8 @@
 // correct Avro protocol JSON representation for subsequent occurrences of a
 // named type.
 
+use std::collections::HashSet;
+
 use indexmap::IndexMap;
 
 use crate::error::SpanWithSource;
@@ -79,25 +81,48 @@ fn validate_schema_name(name: &str, namespace: Option<&str>) -> Result<(), Strin
 }
 
 /// Validate that the field names of a record and the symbols of an enum are
-/// valid Avro names. Types from imported JSON reach the registry unchecked.
-fn validate_member_names(schema: &AvroSchema) -> Result<(), String> {
-    let invalid = match schema {
-        AvroSchema::Record { fields, .. } => fields
-            .iter()
-            .map(|f| &f.name)
-            .find(|name| !is_valid_avro_name(name)),
-        AvroSchema::Enum { symbols, .. } => symbols.iter().find(|name| !is_valid_avro_name(name)),
-        _ => None,
-    };
-    match invalid {
-        Some(name) => Err(format!(
-            "invalid Avro name: `{name}` in `{}`",
-            schema.full_name().unwrap_or_default()
-        )),
-        None => Ok(()),
+/// distinct, valid Avro names, and that the default of an enum is one of its
+/// symbols. Types from imported JSON reach the registry unchecked.
+fn validate_members(schema: &AvroSchema) -> Result<(), String> {
+    let owner = schema.full_name().unwrap_or_default();
+    match schema {
+        AvroSchema::Record { fields, .. } => {
+            validate_member_names(&owner, "field", fields.iter().map(|f| &f.name))
+        }
+        AvroSchema::Enum {
+            symbols, default, ..
+        } => {
+            validate_member_names(&owner, "symbol", symbols)?;
+            match default {
+                Some(default) if !symbols.contains(default) => Err(format!(
+                    "default `{default}` of enum `{owner}` is not one of its symbols"
+                )),
+                _ => Ok(()),
+            }
+        }
+        _ => Ok(()),
     }
 }
 
+/// Validate that the names of the members of `owner` are distinct, valid Avro
+/// names.
+pub(crate) fn validate_member_names<'a>(
+    owner: &str,
+    kind: &str,
+    names: impl IntoIterator<Item = &'a String>,
+) -> Result<(), String> {
+    let mut seen = HashSet::new();
+    for name in names {
+        if !is_valid_avro_name(name) {
+            return Err(format!("invalid Avro name: `{name}` in `{owner}`"));
+        }
+        if !seen.insert(name) {
+            return Err(format!("duplicate {kind} `{name}` in `{owner}`"));
+        }
+    }
+    Ok(())
+}
+
 /// Registry of named Avro types, tracking definition order for output.
 ///
 /// Named types (record, enum, fixed) are registered as they're parsed.
@@ -148,7 +173,7 @@ impl SchemaRegistry {
             _ => unreachable!("full_name() returned Some for a non-named type"),
         };
         validate_schema_name(name, namespace.as_deref())?;
-        validate_member_names(&schema)?;
+        validate_members(&schema)?;
 
         if self.schemas.contains_key(&full_name) {
             return Err(format!("duplicate schema name: {full_name}"));
-- 
2.43.0


From f3371d13dcefd26c3a084605389ce345c2210410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:50 +0000
Subject: [PATCH 32/41] fix: reject imported records without fields, enums
 without symbols and malformed aliases

---
 src/import.rs | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index 255fd10..d36feb4 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -537,10 +537,10 @@ fn parse_record(
             })
             .collect::<Result<Vec<_>>>()?
     } else {
-        vec![]
+        miette::bail!("record `{name}` has no 'fields'");
     };
 
-    let aliases = extract_string_array(obj.get("aliases"));
+    let aliases = extract_aliases(obj)?;
 
     let properties = collect_extra_properties(
         obj,
@@ -577,12 +577,13 @@ fn parse_enum(
         .get("doc")
         .and_then(|d| d.as_str())
         .map(|s| s.to_string());
-    let symbols = extract_string_array(obj.get("symbols"));
+    let symbols = extract_string_array(obj.get("symbols"))
+        .ok_or_else(|| miette::miette!("enum `{name}` has no 'symbols'"))?;
     let default = obj
         .get("default")
         .and_then(|d| d.as_str())
         .map(|s| s.to_string());
-    let aliases = extract_string_array(obj.get("aliases"));
+    let aliases = extract_aliases(obj)?;
 
     let properties = collect_extra_properties(
         obj,
@@ -633,7 +634,7 @@ fn parse_fixed(
         .ok_or_else(|| miette::miette!("fixed missing 'size'"))?;
     let size = u32::try_from(size_u64)
         .map_err(|_| miette::miette!("fixed size {size_u64} exceeds maximum ({})", u32::MAX))?;
-    let aliases = extract_string_array(obj.get("aliases"));
+    let aliases = extract_aliases(obj)?;
 
     let properties = collect_extra_properties(
         obj,
@@ -777,7 +778,7 @@ fn json_to_field(
             _ => None,
         });
 
-    let aliases = extract_string_array(obj.get("aliases"));
+    let aliases = extract_aliases(obj)?;
 
     let properties =
         collect_extra_properties(obj, &["name", "type", "doc", "default", "order", "aliases"]);
@@ -867,15 +868,22 @@ fn json_to_message(json: &Value, default_namespace: Option<&str>) -> Result<Mess
 // Helpers
 // ==============================================================================
 
-/// Extract a JSON array of strings into a `Vec<String>`, returning an empty
-/// vec if the value is absent or not an array of strings.
-fn extract_string_array(value: Option<&Value>) -> Vec<String> {
-    match value {
-        Some(Value::Array(arr)) => arr
-            .iter()
-            .filter_map(|v| v.as_str().map(|s| s.to_string()))
-            .collect(),
-        _ => vec![],
+/// Extract a JSON array of strings into a `Vec<String>`, returning `None` if
+/// the value is absent or not an array of strings.
+fn extract_string_array(value: Option<&Value>) -> Option<Vec<String>> {
+    value?
+        .as_array()?
+        .iter()
+        .map(|v| v.as_str().map(|s| s.to_string()))
+        .collect()
+}
+
+/// Extract the aliases of a named type or field, if it has any.
+fn extract_aliases(obj: &serde_json::Map<String, Value>) -> Result<Vec<String>> {
+    match obj.get("aliases") {
+        Some(aliases) => extract_string_array(Some(aliases))
+            .ok_or_else(|| miette::miette!("'aliases' must be an array of strings")),
+        None => Ok(vec![]),
     }
 }
 
-- 
2.43.0


From 23d69b233df793ba7e583c75d9bbf504cc10449d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:57 +0000
Subject: [PATCH 33/41] fix: read the order of imported fields in any case, and
 reject an unknown one

---
 src/import.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index d36feb4..6998a8b 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -768,15 +768,20 @@ fn json_to_field(
         .map(|s| s.to_string());
     let default = obj.get("default").cloned();
 
-    let order = obj
-        .get("order")
-        .and_then(|o| o.as_str())
-        .and_then(|o| match o {
-            "ascending" => Some(FieldOrder::Ascending),
-            "descending" => Some(FieldOrder::Descending),
-            "ignore" => Some(FieldOrder::Ignore),
-            _ => None,
-        });
+    // Like Java, and like `@order`, this ignores case.
+    let order = match obj.get("order") {
+        Some(order) => match order.as_str().map(str::to_uppercase).as_deref() {
+            Some("ASCENDING") => Some(FieldOrder::Ascending),
+            Some("DESCENDING") => Some(FieldOrder::Descending),
+            Some("IGNORE") => Some(FieldOrder::Ignore),
+            _ => {
+                miette::bail!(
+                    "order of field `{name}` must be ascending, descending, or ignore, got: {order}"
+                );
+            }
+        },
+        None => None,
+    };
 
     let aliases = extract_aliases(obj)?;
 
-- 
2.43.0


From 6c343b868e7cd291504d78334f89e24ef7fc22a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:04 +0000
Subject: [PATCH 34/41] fix: reject invalid and duplicate parameter names in
 imported protocols

---
 src/import.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/import.rs b/src/import.rs
index 6998a8b..a2c4654 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -29,7 +29,7 @@ use serde_json::Value;
 use crate::model::protocol::Message;
 use crate::model::schema::{AvroSchema, FieldOrder, LogicalType, PrimitiveType, split_full_name};
 use crate::reader::try_promote_logical_type;
-use crate::resolve::SchemaRegistry;
+use crate::resolve::{SchemaRegistry, validate_member_names};
 use miette::Result;
 
 /// Parse JSON with C-style comment stripping (`//` and `/* */`).
@@ -349,6 +349,8 @@ pub fn import_protocol(
                     path.display()
                 )
             })?;
+            validate_member_names(name, "parameter", message.request.iter().map(|p| &p.name))
+                .map_err(|e| miette::miette!("in protocol `{}`: {e}", path.display()))?;
             messages.insert(name.clone(), message);
         }
     }
-- 
2.43.0


From 3adca69fee45f90cca23e24e18ce99714a8ca1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 35/41] fix: reject imported types named after primitive types

---
 src/resolve.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 19163aa..8737923 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -19,7 +19,7 @@ use std::collections::HashSet;
 use indexmap::IndexMap;
 
 use crate::error::SpanWithSource;
-use crate::model::schema::{AvroSchema, make_full_name};
+use crate::model::schema::{AvroSchema, PRIMITIVE_TYPE_NAMES, make_full_name};
 
 // ==============================================================================
 // Avro Name Validation
@@ -173,6 +173,11 @@ impl SchemaRegistry {
             _ => unreachable!("full_name() returned Some for a non-named type"),
         };
         validate_schema_name(name, namespace.as_deref())?;
+        if PRIMITIVE_TYPE_NAMES.contains(&full_name.as_str()) {
+            return Err(format!(
+                "a schema may not be named after a primitive type: {full_name}"
+            ));
+        }
         validate_members(&schema)?;
 
         if self.schemas.contains_key(&full_name) {
-- 
2.43.0


From d3e29f4e04313aaa003b114c683b712e1b30cd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:59 +0000
Subject: [PATCH 36/41] fix: reject invalid defaults in imported JSON

---
 src/compiler.rs | 63 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 18 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 05aa814..eb698e2 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -594,6 +594,10 @@ struct JsonImport {
     span: Option<SpanWithSource>,
     /// The full names of the types that the file refers to.
     references: HashSet<String>,
+    /// The full names of the types that the file declares.
+    types: Vec<String>,
+    /// The names of the messages that the file declares.
+    messages: HashSet<String>,
 }
 
 impl JsonImport {
@@ -619,6 +623,12 @@ impl JsonImport {
             path: path.display().to_string(),
             span,
             references,
+            types: registry
+                .names()
+                .skip(first_type)
+                .map(str::to_string)
+                .collect(),
+            messages: messages.keys().cloned().collect(),
         }
     }
 }
@@ -696,7 +706,7 @@ fn parse_and_resolve(
     // warnings are appended to `ctx.warnings` by `process_decl_items`.
     process_decl_items(decl_items, ctx, input_dir)?;
     let decl_items = std::mem::take(&mut ctx.decl_items);
-    validate_field_defaults(&decl_items, &ctx.registry)?;
+    validate_field_defaults(&decl_items, &ctx.json_imports, &ctx.registry)?;
     ctx.registry.spell_out_null_namespaces();
 
     // For protocol files, rebuild the types list from the registry (which now
@@ -708,7 +718,12 @@ fn parse_and_resolve(
             let own_messages = std::mem::take(&mut protocol.messages);
             protocol.messages = std::mem::take(&mut ctx.messages);
             protocol.messages.extend(own_messages);
-            validate_parameter_defaults(&protocol.messages, &decl_items, &ctx.registry)?;
+            validate_parameter_defaults(
+                &protocol.messages,
+                &decl_items,
+                &ctx.json_imports,
+                &ctx.registry,
+            )?;
             IdlFile::Protocol(protocol)
         }
         other => other,
@@ -757,23 +772,30 @@ fn process_decl_items(
     Ok(())
 }
 
-/// Validate the defaults of record fields whose types are or contain
-/// references, which could not be checked at parse time. All the invalid
-/// defaults of a record are reported at once so users can fix multiple bad
-/// defaults in one edit cycle.
+/// Validate the defaults of record fields: those of IDL records whose types are
+/// or contain references, which could not be checked at parse time, and those
+/// of imported records. All the invalid defaults of a record are reported at
+/// once so users can fix multiple bad defaults in one edit cycle.
 fn validate_field_defaults(
     decl_items: &[DeclItem],
+    json_imports: &[JsonImport],
     registry: &SchemaRegistry,
 ) -> miette::Result<()> {
-    for item in decl_items {
-        if let DeclItem::Type(schema, span, field_spans) = item {
-            let errors = validate_record_field_defaults(schema, |full_name| {
-                registry.lookup(full_name).cloned()
-            });
-            if !errors.is_empty() {
-                let type_name = schema.full_name().unwrap_or(Cow::Borrowed("<unknown>"));
-                return Err(invalid_defaults(&type_name, errors, field_spans, *span));
-            }
+    let no_spans = HashMap::new();
+    let declared = decl_items.iter().filter_map(|item| match item {
+        DeclItem::Type(schema, span, field_spans) => Some((schema.as_ref(), *span, field_spans)),
+        _ => None,
+    });
+    let imported = json_imports.iter().flat_map(|import| {
+        let schemas = import.types.iter().filter_map(|name| registry.lookup(name));
+        schemas.map(|schema| (schema, import.span, &no_spans))
+    });
+    for (schema, span, field_spans) in declared.chain(imported) {
+        let errors =
+            validate_record_field_defaults(schema, |full_name| registry.lookup(full_name).cloned());
+        if !errors.is_empty() {
+            let type_name = schema.full_name().unwrap_or(Cow::Borrowed("<unknown>"));
+            return Err(invalid_defaults(&type_name, errors, field_spans, span));
         }
     }
     Ok(())
@@ -824,12 +846,13 @@ fn invalid_defaults(
     miette::miette!("{first_msg}")
 }
 
-/// Validate the defaults of message parameters whose types are references,
-/// which could not be checked at parse time. The counterpart for messages of
+/// Validate the defaults of message parameters that could not be checked at
+/// parse time. The counterpart for messages of
 /// `validate_field_defaults`.
 fn validate_parameter_defaults(
     messages: &HashMap<String, Message>,
     decl_items: &[DeclItem],
+    json_imports: &[JsonImport],
     registry: &SchemaRegistry,
 ) -> miette::Result<()> {
     let spans: HashMap<&str, &HashMap<String, SpanWithSource>> = decl_items
@@ -859,7 +882,11 @@ fn validate_parameter_defaults(
         });
         if !errors.is_empty() {
             let param_spans = spans.get(name.as_str()).copied().unwrap_or(&no_spans);
-            return Err(invalid_defaults(name, errors, param_spans, None));
+            let import = json_imports
+                .iter()
+                .find(|import| import.messages.contains(name));
+            let import_span = import.and_then(|import| import.span);
+            return Err(invalid_defaults(name, errors, param_spans, import_span));
         }
     }
     Ok(())
-- 
2.43.0


From 4c34f6c11115761d20e3414f64701e4f3e35e5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 37/41] fix: reject a message that throws the same error twice

---
 src/import.rs | 22 +++++++++++++++-------
 src/reader.rs | 36 +++++++++++++++++++++---------------
 2 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index a2c4654..e2b072e 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -414,13 +414,7 @@ fn json_to_schema(json: &Value, default_namespace: Option<&str>) -> Result<AvroS
             if types.iter().any(|t| matches!(t, AvroSchema::Union { .. })) {
                 miette::bail!("unions may not immediately contain other unions");
             }
-            let mut seen_keys = HashSet::new();
-            for key in types.iter().map(AvroSchema::union_type_key) {
-                if seen_keys.contains(&key) {
-                    miette::bail!("duplicate in union: {key}");
-                }
-                seen_keys.insert(key);
-            }
+            reject_duplicate_branches(&types)?;
             Ok(AvroSchema::Union {
                 types,
                 is_nullable_type: false,
@@ -854,6 +848,8 @@ fn json_to_message(json: &Value, default_namespace: Option<&str>) -> Result<Mess
     if one_way && response != AvroSchema::Null {
         return Err(miette::miette!("one-way message must have a null response"));
     }
+    // The errors of a message form a union.
+    reject_duplicate_branches(errors.as_deref().unwrap_or_default())?;
     if one_way && errors.as_ref().is_some_and(|errs| !errs.is_empty()) {
         return Err(miette::miette!("one-way message must not declare errors"));
     }
@@ -875,6 +871,18 @@ fn json_to_message(json: &Value, default_namespace: Option<&str>) -> Result<Mess
 // Helpers
 // ==============================================================================
 
+/// Check that no two branches of a union have the same type.
+fn reject_duplicate_branches(types: &[AvroSchema]) -> Result<()> {
+    let mut seen_keys = HashSet::new();
+    for key in types.iter().map(AvroSchema::union_type_key) {
+        if seen_keys.contains(&key) {
+            miette::bail!("duplicate in union: {key}");
+        }
+        seen_keys.insert(key);
+    }
+    Ok(())
+}
+
 /// Extract a JSON array of strings into a `Vec<String>`, returning `None` if
 /// the value is absent or not an array of strings.
 fn extract_string_array(value: Option<&Value>) -> Option<Vec<String>> {
diff --git a/src/reader.rs b/src/reader.rs
index b42751f..ea2d037 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -3774,25 +3774,31 @@ fn walk_message<'input>(
     // Check for throws clause. The `errors` field on the context ext struct
     // contains only the error type identifiers (not the message name).
     let errors = if !ctx.errors.is_empty() {
-        let mut error_schemas = Vec::new();
+        let mut error_schemas: Vec<AvroSchema> = Vec::new();
         for error_id_ctx in &ctx.errors {
             let error_name = identifier_text(error_id_ctx);
             let error_span = span_from_context(&**error_id_ctx).map(|(o, l)| src.span(o, l));
-            if let Some((ns, name)) = error_name.rsplit_once('.') {
-                error_schemas.push(AvroSchema::Reference {
-                    name: name.to_string(),
-                    namespace: Some(ns.to_string()),
-                    properties: HashMap::new(),
-                    span: error_span,
-                });
-            } else {
-                error_schemas.push(AvroSchema::Reference {
-                    name: error_name.to_string(),
-                    namespace: namespace.map(|s| s.to_string()),
-                    properties: HashMap::new(),
-                    span: error_span,
-                });
+            let (namespace, name) = match error_name.rsplit_once('.') {
+                Some((ns, name)) => (Some(ns), name),
+                None => (namespace, error_name.as_str()),
+            };
+            let error_schema = AvroSchema::Reference {
+                name: name.to_string(),
+                namespace: namespace.map(|s| s.to_string()),
+                properties: HashMap::new(),
+                span: error_span,
+            };
+            // The errors of a message form a union, whose branches must be
+            // distinct.
+            let key = error_schema.union_type_key();
+            if error_schemas.iter().any(|e| e.union_type_key() == key) {
+                return Err(make_diagnostic(
+                    src,
+                    &**error_id_ctx,
+                    format!("Duplicate in union: {key}"),
+                ));
             }
+            error_schemas.push(error_schema);
         }
         Some(error_schemas)
     } else if one_way {
-- 
2.43.0


From 2aa46ef497fabd02642a2f1007a9c06ca9b10bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:54 +0000
Subject: [PATCH 38/41] fix: register the named types that the messages of an
 imported protocol define

---
 src/import.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index e2b072e..42d7a95 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -285,14 +285,31 @@ fn flatten_schema_inner(schema: AvroSchema, collected: &mut Vec<AvroSchema>) ->
 ///
 /// A type the registry refuses for any other reason is an error: dropping it
 /// would silently lose the declaration.
-fn register_flattened(schema: AvroSchema, registry: &mut SchemaRegistry) -> Result<()> {
-    let (types, _top_level) = flatten_schema(schema);
+///
+/// Returns the schema with its named types replaced by references.
+fn register_flattened(schema: AvroSchema, registry: &mut SchemaRegistry) -> Result<AvroSchema> {
+    let (types, top_level) = flatten_schema(schema);
     for t in types {
         if t.full_name().is_some_and(|n| registry.lookup(&n).is_some()) {
             continue;
         }
         registry.register(t).map_err(|e| miette::miette!("{e}"))?;
     }
+    Ok(top_level)
+}
+
+/// Register the named types that a message defines inline, and make the
+/// message refer to them.
+fn register_message_types(message: &mut Message, registry: &mut SchemaRegistry) -> Result<()> {
+    let schemas = message
+        .request
+        .iter_mut()
+        .map(|param| &mut param.schema)
+        .chain([&mut message.response])
+        .chain(message.errors.iter_mut().flatten());
+    for schema in schemas {
+        *schema = register_flattened(schema.clone(), registry)?;
+    }
     Ok(())
 }
 
@@ -343,7 +360,7 @@ pub fn import_protocol(
     // Extract messages.
     if let Some(msgs) = json.get("messages").and_then(|m| m.as_object()) {
         for (name, msg_json) in msgs {
-            let message = json_to_message(msg_json, default_namespace).map_err(|e| {
+            let mut message = json_to_message(msg_json, default_namespace).map_err(|e| {
                 miette::miette!(
                     "parse message `{name}` in protocol `{}`: {e}",
                     path.display()
@@ -351,6 +368,8 @@ pub fn import_protocol(
             })?;
             validate_member_names(name, "parameter", message.request.iter().map(|p| &p.name))
                 .map_err(|e| miette::miette!("in protocol `{}`: {e}", path.display()))?;
+            register_message_types(&mut message, registry)
+                .map_err(|e| miette::miette!("in protocol `{}`: {e}", path.display()))?;
             messages.insert(name.clone(), message);
         }
     }
-- 
2.43.0


From a8a041be0c8e490c338e9ef201fb131bbc7f4004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:14 +0000
Subject: [PATCH 39/41] fix: keep an imported protocol's own messages over
 those it imports

---
 src/compiler.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index eb698e2..849dc71 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -980,11 +980,6 @@ fn resolve_single_import(
                     .push(miette::Report::new(w).wrap_err(import_file_name.to_string()));
             }
 
-            // If the imported IDL is a protocol, merge its messages.
-            if let IdlFile::Protocol(imported_protocol) = &imported_idl {
-                ctx.messages.extend(imported_protocol.messages.clone());
-            }
-
             // Recursively process declaration items from the imported file.
             // IDL imports use their own source text for span tracking, so
             // `ctx.json_imports` is passed through to capture any nested
@@ -992,6 +987,12 @@ fn resolve_single_import(
             process_decl_items(nested_decl_items, ctx, &import_dir).with_context(|| {
                 format!("resolve nested imports from `{}`", resolved_path.display())
             })?;
+
+            // If the imported IDL is a protocol, merge its messages. They
+            // override those it imports, as they do when it is compiled alone.
+            if let IdlFile::Protocol(imported_protocol) = &imported_idl {
+                ctx.messages.extend(imported_protocol.messages.clone());
+            }
         }
     }
 
-- 
2.43.0


From 34f9d8901354464057e604f51c2717a79c8be62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:44 +0000
Subject: [PATCH 40/41] fix: accept hexadecimal floats with exponents of any
 size

---
 src/reader.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index ea2d037..3d41d57 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -22,6 +22,7 @@
 
 use std::cell::RefCell;
 use std::collections::HashSet;
+use std::num::IntErrorKind;
 use std::rc::Rc;
 
 use std::borrow::Borrow;
@@ -4258,10 +4259,20 @@ fn parse_hex_float_mantissa_and_exponent(hex_body: &str, original: &str) -> Resu
         miette::miette!("invalid hex float literal '{original}': missing 'p'/'P' exponent")
     })?;
 
-    // Parse the binary exponent (decimal integer, possibly signed).
-    let exponent: i32 = exp_str
-        .parse()
-        .map_err(|e| miette::miette!("invalid hex float exponent in '{original}': {e}"))?;
+    // Parse the binary exponent (decimal integer, possibly signed). One beyond
+    // the range of an `i32` overflows or underflows just as the limit does.
+    let exponent: i32 = match exp_str.parse::<i32>() {
+        Ok(exponent) => exponent,
+        Err(e) => match e.kind() {
+            IntErrorKind::PosOverflow => i32::MAX,
+            IntErrorKind::NegOverflow => i32::MIN,
+            _ => {
+                return Err(miette::miette!(
+                    "invalid hex float exponent in '{original}': {e}"
+                ));
+            }
+        },
+    };
 
     // Collect the leading significant bits of the mantissa, and the weight of
     // the lowest of them. Digits beyond the 61 to 64 bits that fit only matter
-- 
2.43.0


From 7b3b85192340f371595a6cc3ab24b98cc689aaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:15 +0000
Subject: [PATCH 41/41] fix: reject imported protocols and messages that are
 not well-formed

---
 src/import.rs | 50 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/import.rs b/src/import.rs
index 42d7a95..5a6169b 100644
--- a/src/import.rs
+++ b/src/import.rs
@@ -337,6 +337,9 @@ pub fn import_protocol(
     let json: Value = parse_json_with_comments(&content)
         .map_err(|e| miette::miette!("invalid JSON in {}: {e}", path.display()))?;
 
+    if !json.get("protocol").is_some_and(Value::is_string) {
+        miette::bail!("protocol file `{}` has no 'protocol' name", path.display());
+    }
     let default_namespace = json.get("namespace").and_then(|n| n.as_str());
     let mut messages = HashMap::new();
 
@@ -344,7 +347,10 @@ pub fn import_protocol(
     // flattened so that nested named types (records, enums, fixed) within
     // record fields, union branches, etc. are promoted to separate top-level
     // entries in the registry and replaced with Reference nodes.
-    if let Some(types) = json.get("types").and_then(|t| t.as_array()) {
+    if let Some(types) = json.get("types") {
+        let types = types.as_array().ok_or_else(|| {
+            miette::miette!("'types' of protocol `{}` must be an array", path.display())
+        })?;
         for (i, type_json) in types.iter().enumerate() {
             let schema = json_to_schema(type_json, default_namespace).map_err(|e| {
                 miette::miette!(
@@ -358,7 +364,13 @@ pub fn import_protocol(
     }
 
     // Extract messages.
-    if let Some(msgs) = json.get("messages").and_then(|m| m.as_object()) {
+    if let Some(msgs) = json.get("messages") {
+        let msgs = msgs.as_object().ok_or_else(|| {
+            miette::miette!(
+                "'messages' of protocol `{}` must be an object",
+                path.display()
+            )
+        })?;
         for (name, msg_json) in msgs {
             let mut message = json_to_message(msg_json, default_namespace).map_err(|e| {
                 miette::miette!(
@@ -823,32 +835,36 @@ fn json_to_message(json: &Value, default_namespace: Option<&str>) -> Result<Mess
         .get("doc")
         .and_then(|d| d.as_str())
         .map(|s| s.to_string());
-    let one_way = obj
-        .get("one-way")
-        .and_then(|o| o.as_bool())
-        .unwrap_or(false);
+    let one_way = match obj.get("one-way") {
+        Some(one_way) => one_way
+            .as_bool()
+            .ok_or_else(|| miette::miette!("'one-way' of message must be a boolean"))?,
+        None => false,
+    };
 
-    let request = if let Some(Value::Array(params)) = obj.get("request") {
-        params
+    let request = match obj.get("request") {
+        Some(Value::Array(params)) => params
             .iter()
             .enumerate()
             .map(|(i, p)| {
                 json_to_field(p, default_namespace)
                     .map_err(|e| miette::miette!("parse request parameter at index {i}: {e}"))
             })
-            .collect::<Result<Vec<_>>>()?
-    } else {
-        vec![]
+            .collect::<Result<Vec<_>>>()?,
+        _ => return Err(miette::miette!("message must have a 'request' array")),
     };
 
-    let response = if let Some(resp) = obj.get("response") {
-        json_to_schema(resp, default_namespace)
-            .map_err(|e| miette::miette!("parse response type for message: {e}"))?
-    } else {
-        AvroSchema::Null
+    let response = match obj.get("response") {
+        Some(resp) => json_to_schema(resp, default_namespace)
+            .map_err(|e| miette::miette!("parse response type for message: {e}"))?,
+        None if one_way => AvroSchema::Null,
+        None => return Err(miette::miette!("message must have a 'response' type")),
     };
 
-    let errors = if let Some(Value::Array(errs)) = obj.get("errors") {
+    let errors = if let Some(errs) = obj.get("errors") {
+        let errs = errs
+            .as_array()
+            .ok_or_else(|| miette::miette!("'errors' of message must be an array"))?;
         Some(
             errs.iter()
                 .enumerate()
-- 
2.43.0

