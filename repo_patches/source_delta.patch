From 6612ec5b00e17ffeebf5a6adaf854c6d223c5f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:59 +0000
Subject: [PATCH 01/16] fix: accept property names that normalize to an empty
 string

---
 src/ast.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index f350af5..2f08f0d 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -353,12 +353,11 @@ impl Tag {
         }
     }
 
-    /// If a name starts with a number, prefix it with an underscore.
+    /// If a name starts with a number or is empty, prefix it with an underscore.
     fn normalize_numeric_prefix(name: String) -> String {
-        if name.chars().next().unwrap().is_numeric() {
-            format!("_{}", name)
-        } else {
-            name
+        match name.chars().next() {
+            Some(first) if !first.is_numeric() => name,
+            _ => format!("_{}", name),
         }
     }
 
-- 
2.43.0


From ba40c6ca429f8093b766f5c28ba9f5ee241881a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 02/16] fix: resolve colliding property names in a
 deterministic order

---
 src/ast.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 2f08f0d..bed1eec 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -387,7 +387,9 @@ impl Tag {
     pub fn normalize_properties(&mut self, normalize_case: bool) {
         if let Type::Object(ref mut object) = self.data_type {
             let fields = &mut object.fields;
-            let keys: Vec<String> = fields.keys().cloned().collect();
+            let mut keys: Vec<String> = fields.keys().cloned().collect();
+            // Names may collide once normalized, the order decides which is kept
+            keys.sort();
 
             for key in keys {
                 // Replace property names with the normalized property name
-- 
2.43.0


From e6804909062e952cd170256156a7d79c802d258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 03/16] fix: merge patternProperties in a deterministic order

---
 src/jsonschema.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jsonschema.rs b/src/jsonschema.rs
index 5977f46..270a04d 100644
--- a/src/jsonschema.rs
+++ b/src/jsonschema.rs
@@ -1,7 +1,7 @@
 /// A JSON Schema serde module derived from the v4 spec.
 /// Refer to http://json-schema.org/draft-04/schema for spec details.
 use serde_json::{json, Value};
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 use super::ast;
 use super::Context;
@@ -43,7 +43,7 @@ struct Object {
     #[serde(skip_serializing_if = "Option::is_none")]
     additional_properties: Option<AdditionalProperties>,
     #[serde(skip_serializing_if = "Option::is_none")]
-    pattern_properties: Option<HashMap<String, Box<Tag>>>,
+    pattern_properties: Option<BTreeMap<String, Box<Tag>>>,
     #[serde(skip_serializing_if = "Option::is_none")]
     required: Option<HashSet<String>>,
 }
-- 
2.43.0


From 702f3a75527cfb540a9871fcaa83a4c9f60484b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 04/16] fix: only require merged fields that every variant
 requires

---
 src/ast.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index bed1eec..9fd311e 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -190,7 +190,6 @@ impl Union {
                                     (Some(x), Some(y)) => {
                                         Some(x.intersection(y).map(ToString::to_string).collect())
                                     }
-                                    (Some(x), None) | (None, Some(x)) => Some(x.clone()),
                                     _ => None,
                                 };
                             Type::Object(Object::new(result, required))
-- 
2.43.0


From abc1a97346f8a8edbd35b0fb6956d3d92ea9d4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:35 +0000
Subject: [PATCH 05/16] fix: keep the nullability of types that pass through a
 union

---
 src/ast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 9fd311e..a3140b7 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -105,7 +105,7 @@ impl Union {
             return Tag {
                 name: None,
                 namespace: None,
-                nullable: is_null,
+                nullable: is_null || self.items[0].nullable,
                 is_root: false,
                 data_type: self.items[0].data_type.clone(),
                 description: None,
@@ -564,7 +564,7 @@ impl Tag {
             Type::Union(union) => {
                 let tag = union.collapse();
                 self.data_type = tag.data_type;
-                self.nullable = tag.nullable;
+                self.nullable |= tag.nullable;
             }
             _ => (),
         }
-- 
2.43.0


From deda433314c0d506e4f03eba677d302a18996fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 06/16] fix: collapse unions nested within a collapsed union

---
 src/ast.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ast.rs b/src/ast.rs
index a3140b7..a4ab8e5 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -565,6 +565,8 @@ impl Tag {
                 let tag = union.collapse();
                 self.data_type = tag.data_type;
                 self.nullable |= tag.nullable;
+                // Variants are merged shallowly, so the result may hold unions
+                self.collapse();
             }
             _ => (),
         }
-- 
2.43.0


From fd0543888445e6a17927ceeff59cf60ca2d927ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:10 +0000
Subject: [PATCH 07/16] fix: keep repeated columns at the root of a collapsed
 union

---
 src/bigquery.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigquery.rs b/src/bigquery.rs
index d844498..f94a573 100644
--- a/src/bigquery.rs
+++ b/src/bigquery.rs
@@ -227,11 +227,11 @@ impl TranslateFrom<ast::Tag> for Schema {
     type Error = &'static str;
 
     fn translate_from(tag: ast::Tag, context: &Context) -> Result<Self, Self::Error> {
-        let mut bq_tag = Tag::translate_from(tag.clone(), context).unwrap();
+        let mut bq_tag = Tag::translate_from(tag, context).unwrap();
         match *bq_tag.data_type {
             // Maps and arrays are both treated as a Record type with different
             // modes. These should not be extracted if they are the root-type.
-            Type::Record(_) if tag.is_array() || tag.is_map() => {
+            Type::Record(_) if matches!(bq_tag.mode, Mode::Repeated) => {
                 assert!(bq_tag.name.is_none());
                 bq_tag.name = Some(DEFAULT_COLUMN.into());
                 Ok(Schema::Root(vec![bq_tag]))
-- 
2.43.0


From 02a4e822f2bdd0b60e91bf70f735f42ea27c7c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 08/16] fix: anchor every alternative of the json object path

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 591a434..2b35eae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -71,7 +71,7 @@ impl Context {
             .as_ref()
             .map(|object_regex| {
                 // Ensure we match from the beginning of the string
-                let re = format!(r"\A{}", object_regex);
+                let re = format!(r"\A(?:{})", object_regex);
                 let json_object_path_re = Regex::new(&re).unwrap();
                 json_object_path_re.is_match(fqn)
             })
-- 
2.43.0


From 05bf6440895a72ee0223c0507334de774408ba47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:15 +0000
Subject: [PATCH 09/16] fix: default nullable nested arrays to null

---
 src/avro.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/avro.rs b/src/avro.rs
index 388bfa9..5d7d86e 100644
--- a/src/avro.rs
+++ b/src/avro.rs
@@ -244,6 +244,11 @@ impl TranslateFrom<ast::Tag> for Type {
                                     fields: vec![Field {
                                         name: "list".into(),
                                         data_type,
+                                        default: if array.items.nullable {
+                                            Some(json!(null))
+                                        } else {
+                                            None
+                                        },
                                         ..Default::default()
                                     }],
                                 }))),
-- 
2.43.0


From 84924cd7ba7c5224c682b11fe4300ee11a7bf3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 10/16] fix: treat an empty tuple like an empty object

---
 src/avro.rs     | 1 +
 src/bigquery.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/avro.rs b/src/avro.rs
index 5d7d86e..1630cdf 100644
--- a/src/avro.rs
+++ b/src/avro.rs
@@ -192,6 +192,7 @@ impl TranslateFrom<ast::Tag> for Type {
                     Type::Complex(Complex::Record(record))
                 }
             }
+            ast::Type::Tuple(tuple) if tuple.items.is_empty() => handle_error("empty tuple")?,
             ast::Type::Tuple(tuple) => {
                 let fields = tuple
                     .items
diff --git a/src/bigquery.rs b/src/bigquery.rs
index f94a573..073bd96 100644
--- a/src/bigquery.rs
+++ b/src/bigquery.rs
@@ -119,6 +119,7 @@ impl TranslateFrom<ast::Tag> for Tag {
                     Type::Record(Record { fields })
                 }
             }
+            ast::Type::Tuple(tuple) if tuple.items.is_empty() => handle_error("empty tuple")?,
             ast::Type::Tuple(tuple) => {
                 let fields: Result<Vec<_>, _> = tuple
                     .items
-- 
2.43.0


From f422c368273671c879f27f9acd75697a23953a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 11/16] fix: ignore patternProperties without any pattern

---
 src/jsonschema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsonschema.rs b/src/jsonschema.rs
index 270a04d..0692397 100644
--- a/src/jsonschema.rs
+++ b/src/jsonschema.rs
@@ -260,7 +260,7 @@ impl Tag {
                             description,
                             title,
                         ),
-                        (_, Some(tag)) => {
+                        (_, Some(tag)) if !tag.is_empty() => {
                             let items: Result<Vec<_>, _> =
                                 tag.values().map(|v| v.type_into_ast(context)).collect();
                             let union = ast::Tag::new(
-- 
2.43.0


From 212feebd2e1532f936031d4acadf22108ddc4aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:59 +0000
Subject: [PATCH 12/16] fix: replace the namespace left behind by a collapsed
 union

Types below a union at the root of a schema kept the __union__ namespace
once the union was gone, so their fully qualified name did not match the
json object path they live at.
---
 src/ast.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index a4ab8e5..609ce32 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -438,9 +438,12 @@ impl Tag {
     /// Sets a tag with references to the name and the namespace.
     fn set_name(&mut self, name: &str, namespace: &str) {
         self.name = Some(name.to_string());
-        if !namespace.is_empty() {
-            self.namespace = Some(namespace.to_string());
-        }
+        // Always replace the namespace, it may be stale after a collapse
+        self.namespace = if namespace.is_empty() {
+            None
+        } else {
+            Some(namespace.to_string())
+        };
     }
 
     /// A helper function for calculating the names and namespaces within the
-- 
2.43.0


From f1c28820b91bdba16713403dc6637181fb4f5e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 13/16] fix: collapse a union within a single item union

A oneOf with a single alternative that is itself a union lost the
nullability of the inner union, and the outer union then took the
left-over union for an incompatible type.
---
 src/ast.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 609ce32..6f3e1f6 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -102,12 +102,15 @@ impl Union {
         if self.items.is_empty() {
             panic!("empty union is not allowed")
         } else if self.items.len() == 1 {
+            // the only item may be a union too
+            let mut item = self.items[0].clone();
+            item.collapse();
             return Tag {
                 name: None,
                 namespace: None,
-                nullable: is_null || self.items[0].nullable,
+                nullable: is_null || item.nullable,
                 is_root: false,
-                data_type: self.items[0].data_type.clone(),
+                data_type: item.data_type,
                 description: None,
                 title: None,
             };
-- 
2.43.0


From 11da30e0e7d5b6c72b7a6884ff9e666c8738456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:24 +0000
Subject: [PATCH 14/16] fix: keep the list level of a list of maps in BigQuery

Maps are repeated key-value pairs, so a list of maps was flattened into
a single list of pairs. Use the workaround for nested lists.
---
 src/bigquery.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bigquery.rs b/src/bigquery.rs
index 073bd96..6b2c639 100644
--- a/src/bigquery.rs
+++ b/src/bigquery.rs
@@ -144,13 +144,13 @@ impl TranslateFrom<ast::Tag> for Tag {
                 })
             }
             ast::Type::Array(array) => {
-                // workaround for nested lists
-                let child_is_array = matches!(&array.items.data_type, ast::Type::Array(_));
+                // workaround for nested lists, maps are lists of key-value pairs
+                let child_is_repeated = array.items.is_array() || array.items.is_map();
                 let sub_tag = match Tag::translate_from(*array.items.clone(), context) {
                     Ok(tag) => tag,
                     Err(_) => return Err(fmt_reason("untyped array")),
                 };
-                if child_is_array {
+                if child_is_repeated {
                     Type::Record(Record {
                         fields: hashmap! {"list".into() => Box::new(sub_tag)},
                     })
-- 
2.43.0


From 16646c2921ae54e46884134319f43a1200940aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:08 +0000
Subject: [PATCH 15/16] fix: drop a tuple of which every item is dropped

---
 src/avro.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/avro.rs b/src/avro.rs
index 1630cdf..7c225af 100644
--- a/src/avro.rs
+++ b/src/avro.rs
@@ -192,9 +192,8 @@ impl TranslateFrom<ast::Tag> for Type {
                     Type::Complex(Complex::Record(record))
                 }
             }
-            ast::Type::Tuple(tuple) if tuple.items.is_empty() => handle_error("empty tuple")?,
             ast::Type::Tuple(tuple) => {
-                let fields = tuple
+                let fields: Vec<Field> = tuple
                     .items
                     .iter()
                     .enumerate()
@@ -214,18 +213,23 @@ impl TranslateFrom<ast::Tag> for Type {
                         ..Default::default()
                     })
                     .collect();
-                let record = Record {
-                    common: CommonAttributes {
-                        name: tag.name.clone().unwrap_or_else(|| "__UNNAMED__".into()),
-                        namespace: tag.namespace.clone(),
-                        ..Default::default()
-                    },
-                    fields,
-                };
-                if record.common.name == "__UNNAMED__" {
-                    warn!("{} - Unnamed field", tag.fully_qualified_name());
+
+                if fields.is_empty() {
+                    handle_error("empty tuple")?
+                } else {
+                    let record = Record {
+                        common: CommonAttributes {
+                            name: tag.name.clone().unwrap_or_else(|| "__UNNAMED__".into()),
+                            namespace: tag.namespace.clone(),
+                            ..Default::default()
+                        },
+                        fields,
+                    };
+                    if record.common.name == "__UNNAMED__" {
+                        warn!("{} - Unnamed field", tag.fully_qualified_name());
+                    }
+                    Type::Complex(Complex::Record(record))
                 }
-                Type::Complex(Complex::Record(record))
             }
             ast::Type::Array(array) => {
                 let child_is_array = matches!(&array.items.data_type, ast::Type::Array(_));
-- 
2.43.0


From 2167831bf489b897bd129d5643b7a8aa80dc0b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:59 +0000
Subject: [PATCH 16/16] fix: keep the title and description of the only variant
 of a union

A nullable map or list is merged from its single variant, and so is a field
that only one of two merged objects has. The text of the schema was dropped, so
the column came out without its description.
---
 src/ast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 6f3e1f6..706b8b4 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -111,8 +111,8 @@ impl Union {
                 nullable: is_null || item.nullable,
                 is_root: false,
                 data_type: item.data_type,
-                description: None,
-                title: None,
+                description: item.description,
+                title: item.title,
             };
         }
 
-- 
2.43.0

