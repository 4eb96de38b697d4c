From a103a7f87f69725d1774e5670e4c8eded41691ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:35 +0000
Subject: [PATCH 01/32] fix: write numbers inside arrays and objects in
 canonical form, with one encoder for nested lists

---
 crates/toon/src/encode/encoders.rs |  32 ++-
 crates/toon/src/ser/stream.rs      | 311 +----------------------------
 2 files changed, 29 insertions(+), 314 deletions(-)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index c24d44c..936e937 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -29,7 +29,7 @@ pub fn encode_value(
     match value {
         Value::Null => w.line(indent, primitives::format_null()),
         Value::Bool(b) => w.line(indent, primitives::format_bool(*b)),
-        Value::Number(n) => w.line(indent, &n.to_string()),
+        Value::Number(n) => w.line(indent, &format_number(n)),
         Value::String(s) => {
             let fs = primitives::format_string(s, opts.delimiter);
             w.line(indent, &fs)
@@ -137,7 +137,7 @@ fn encode_object_field_with_context(
     match value {
         Value::Null => w.line_kv(indent, &key_fmt, primitives::format_null()),
         Value::Bool(b) => w.line_kv(indent, &key_fmt, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_kv(indent, &key_fmt, &n.to_string()),
+        Value::Number(n) => w.line_kv(indent, &key_fmt, &format_number(n)),
         Value::String(s) => w.line_kv(
             indent,
             &key_fmt,
@@ -327,7 +327,7 @@ fn encode_folded_value(
     match value {
         Value::Null => w.line_kv(indent, folded_key, primitives::format_null()),
         Value::Bool(b) => w.line_kv(indent, folded_key, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_kv(indent, folded_key, &n.to_string()),
+        Value::Number(n) => w.line_kv(indent, folded_key, &format_number(n)),
         Value::String(s) => w.line_kv(
             indent,
             folded_key,
@@ -357,7 +357,7 @@ fn encode_folded_value(
 }
 
 /// Encode a keyed array (array as an object field): `key[N]{fields}: ...` or `key[N]: ...`
-fn encode_keyed_array(
+pub(crate) fn encode_keyed_array(
     key: &str,
     items: &[Value],
     w: &mut LineWriter,
@@ -509,11 +509,16 @@ fn encode_array(items: &[Value], w: &mut LineWriter, opts: &Options, indent: usi
 }
 
 /// Encode a list item (- prefix)
-fn encode_list_item(item: &Value, w: &mut LineWriter, opts: &Options, indent: usize) -> Result<()> {
+pub(crate) fn encode_list_item(
+    item: &Value,
+    w: &mut LineWriter,
+    opts: &Options,
+    indent: usize,
+) -> Result<()> {
     match item {
         Value::Null => w.line_list_item(indent, primitives::format_null()),
         Value::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_list_item(indent, &n.to_string()),
+        Value::Number(n) => w.line_list_item(indent, &format_number(n)),
         Value::String(s) => w.line_list_item(indent, &primitives::format_string(s, opts.delimiter)),
         Value::Array(inner) => {
             // Array of arrays: - [M]: v1,v2 or - [M]: with nested
@@ -637,7 +642,10 @@ fn encode_list_item_object(
             indent,
             &format!("- {}: {}", first_key_fmt, primitives::format_bool(*b)),
         ),
-        Value::Number(n) => w.line(indent, &format!("- {}: {}", first_key_fmt, n)),
+        Value::Number(n) => w.line(
+            indent,
+            &format!("- {}: {}", first_key_fmt, format_number(n)),
+        ),
         Value::String(s) => {
             let v = primitives::format_string(s, opts.delimiter);
             w.line(indent, &format!("- {}: {}", first_key_fmt, v));
@@ -702,12 +710,20 @@ fn encode_list_item_object(
     Ok(())
 }
 
+/// Format a number in canonical TOON form (floats without exponent or trailing zeros)
+pub(crate) fn format_number(n: &serde_json::Number) -> String {
+    match n.as_f64() {
+        Some(f) if n.is_f64() => primitives::format_f64(f),
+        _ => n.to_string(),
+    }
+}
+
 /// Format a primitive value for inline/tabular output
 fn format_primitive_value(v: &Value, delim: crate::options::Delimiter) -> String {
     match v {
         Value::Null => primitives::format_null().to_string(),
         Value::Bool(b) => primitives::format_bool(*b).to_string(),
-        Value::Number(n) => n.to_string(),
+        Value::Number(n) => format_number(n),
         Value::String(s) => primitives::format_string(s, delim),
         _ => "null".to_string(),
     }
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index a173101..89ebeac 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -702,7 +702,7 @@ fn format_primitive_value_json(v: &Value, delim: crate::options::Delimiter) -> S
     match v {
         Value::Null => primitives::format_null().to_string(),
         Value::Bool(b) => primitives::format_bool(*b).to_string(),
-        Value::Number(n) => n.to_string(),
+        Value::Number(n) => crate::encode::encoders::format_number(n),
         Value::String(s) => primitives::format_string(s, delim),
         _ => "null".to_string(),
     }
@@ -715,240 +715,8 @@ fn encode_list_item_json(
     opts: &Options,
     indent: usize,
 ) -> Result<(), SerError> {
-    match item {
-        Value::Null => w.line_list_item(indent, primitives::format_null()),
-        Value::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_list_item(indent, &n.to_string()),
-        Value::String(s) => w.line_list_item(indent, &primitives::format_string(s, opts.delimiter)),
-        Value::Array(items) => {
-            let len = items.len();
-            let delim = opts.delimiter;
-            let dch = primitives::delimiter_char(delim);
-            if items.is_empty() {
-                w.line_list_item(
-                    indent,
-                    &format!("{}:", primitives::format_bracket_segment(0, delim)),
-                );
-            } else if is_primitive_array_json(items) {
-                let values: Vec<String> = items
-                    .iter()
-                    .map(|v| format_primitive_value_json(v, delim))
-                    .collect();
-                let inline = join_with_delim(&values, dch);
-                w.line_list_item(
-                    indent,
-                    &format!(
-                        "{}: {}",
-                        primitives::format_bracket_segment(len, delim),
-                        inline
-                    ),
-                );
-            } else {
-                w.line_list_item(
-                    indent,
-                    &primitives::format_expanded_array_header(len, delim),
-                );
-                for inner in items {
-                    encode_list_item_json(inner, w, opts, indent + opts.indent)?;
-                }
-            }
-        }
-        Value::Object(obj) => {
-            if obj.is_empty() {
-                w.line(indent, "-");
-                return Ok(());
-            }
-            let mut iter = obj.iter();
-            let (first_key, first_value) = iter.next().unwrap();
-            let first_key_fmt = primitives::format_key(first_key);
-
-            // Special case: first field is a tabular array (§10)
-            if let Value::Array(items) = first_value {
-                if let Some(keys) = crate::encode::encoders::is_tabular_array(items) {
-                    let delim = opts.delimiter;
-                    let dch = primitives::delimiter_char(delim);
-                    let field_cells: Vec<String> =
-                        keys.iter().map(|k| primitives::format_key(k)).collect();
-                    let header = format!(
-                        "{}{}",
-                        first_key_fmt,
-                        primitives::format_tabular_header(items.len(), &field_cells, delim)
-                    );
-                    w.line_list_item(indent, &header);
-
-                    // Rows at indent + 4
-                    for item in items {
-                        let inner_obj = item.as_object().unwrap();
-                        let cells: Vec<String> = keys
-                            .iter()
-                            .map(|k| {
-                                let v = inner_obj.get(k).unwrap();
-                                format_primitive_value_json(v, delim)
-                            })
-                            .collect();
-                        let row = join_with_delim(&cells, dch);
-                        w.line(indent + 4, &row);
-                    }
-
-                    // Remaining fields at depth + 1 (indent + opts.indent)
-                    for (k, v) in iter {
-                        let key_fmt = primitives::format_key(k);
-                        match v {
-                            Value::Null => {
-                                w.line_kv(indent + opts.indent, &key_fmt, primitives::format_null())
-                            }
-                            Value::Bool(b) => w.line_kv(
-                                indent + opts.indent,
-                                &key_fmt,
-                                primitives::format_bool(*b),
-                            ),
-                            Value::Number(n) => {
-                                w.line_kv(indent + opts.indent, &key_fmt, &n.to_string())
-                            }
-                            Value::String(s) => w.line_kv(
-                                indent + opts.indent,
-                                &key_fmt,
-                                &primitives::format_string(s, opts.delimiter),
-                            ),
-                            Value::Array(arr) => {
-                                encode_keyed_array_json(
-                                    &key_fmt,
-                                    arr,
-                                    w,
-                                    opts,
-                                    indent + opts.indent,
-                                )?;
-                            }
-                            Value::Object(_) => {
-                                w.line_key_only(indent + opts.indent, &key_fmt);
-                                crate::encode::encoders::encode_value(v, w, opts, indent + 4)
-                                    .map_err(|e| SerError::custom(e.to_string()))?;
-                            }
-                        }
-                    }
-                    return Ok(());
-                }
-            }
-
-            // Standard case: first field on hyphen line
-            match first_value {
-                Value::Null => w.line(
-                    indent,
-                    &format!("- {}: {}", first_key_fmt, primitives::format_null()),
-                ),
-                Value::Bool(b) => w.line(
-                    indent,
-                    &format!("- {}: {}", first_key_fmt, primitives::format_bool(*b)),
-                ),
-                Value::Number(n) => w.line(indent, &format!("- {}: {}", first_key_fmt, n)),
-                Value::String(s) => {
-                    let v = primitives::format_string(s, opts.delimiter);
-                    w.line(indent, &format!("- {}: {}", first_key_fmt, v));
-                }
-                Value::Array(items) => {
-                    // Non-tabular array as first field
-                    let len = items.len();
-                    let delim = opts.delimiter;
-                    if items.is_empty() {
-                        w.line(
-                            indent,
-                            &format!(
-                                "- {}{}:",
-                                first_key_fmt,
-                                primitives::format_bracket_segment(0, delim)
-                            ),
-                        );
-                    } else if is_primitive_array_json(items) {
-                        let dch = primitives::delimiter_char(delim);
-                        let values: Vec<String> = items
-                            .iter()
-                            .map(|v| format_primitive_value_json(v, delim))
-                            .collect();
-                        let inline = join_with_delim(&values, dch);
-                        w.line(
-                            indent,
-                            &format!(
-                                "- {}{}: {}",
-                                first_key_fmt,
-                                primitives::format_bracket_segment(len, delim),
-                                inline
-                            ),
-                        );
-                    } else {
-                        w.line(
-                            indent,
-                            &format!(
-                                "- {}{}",
-                                first_key_fmt,
-                                primitives::format_expanded_array_header(len, delim)
-                            ),
-                        );
-                        for inner in items {
-                            encode_list_item_json(inner, w, opts, indent + 4)?;
-                        }
-                    }
-                }
-                Value::Object(inner_obj) => {
-                    w.line(indent, &format!("- {}:", first_key_fmt));
-                    if !inner_obj.is_empty() {
-                        for (k, v) in inner_obj {
-                            let key_fmt = primitives::format_key(k);
-                            match v {
-                                Value::Null => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_null())
-                                }
-                                Value::Bool(b) => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_bool(*b))
-                                }
-                                Value::Number(n) => w.line_kv(indent + 4, &key_fmt, &n.to_string()),
-                                Value::String(s) => w.line_kv(
-                                    indent + 4,
-                                    &key_fmt,
-                                    &primitives::format_string(s, opts.delimiter),
-                                ),
-                                Value::Array(arr) => {
-                                    encode_keyed_array_json(&key_fmt, arr, w, opts, indent + 4)?;
-                                }
-                                Value::Object(_) => {
-                                    w.line_key_only(indent + 4, &key_fmt);
-                                    crate::encode::encoders::encode_value(v, w, opts, indent + 6)
-                                        .map_err(|e| SerError::custom(e.to_string()))?;
-                                }
-                            }
-                        }
-                    }
-                }
-            }
-
-            // Remaining fields at depth + 1 (indent + opts.indent)
-            for (k, v) in iter {
-                let key_fmt = primitives::format_key(k);
-                match v {
-                    Value::Null => {
-                        w.line_kv(indent + opts.indent, &key_fmt, primitives::format_null())
-                    }
-                    Value::Bool(b) => {
-                        w.line_kv(indent + opts.indent, &key_fmt, primitives::format_bool(*b))
-                    }
-                    Value::Number(n) => w.line_kv(indent + opts.indent, &key_fmt, &n.to_string()),
-                    Value::String(s) => w.line_kv(
-                        indent + opts.indent,
-                        &key_fmt,
-                        &primitives::format_string(s, opts.delimiter),
-                    ),
-                    Value::Array(arr) => {
-                        encode_keyed_array_json(&key_fmt, arr, w, opts, indent + opts.indent)?;
-                    }
-                    Value::Object(_) => {
-                        w.line_key_only(indent + opts.indent, &key_fmt);
-                        crate::encode::encoders::encode_value(v, w, opts, indent + 4)
-                            .map_err(|e| SerError::custom(e.to_string()))?;
-                    }
-                }
-            }
-        }
-    }
-    Ok(())
+    crate::encode::encoders::encode_list_item(item, w, opts, indent)
+        .map_err(|e| SerError::custom(e.to_string()))
 }
 
 /// Encode a keyed array with spec-compliant format: key[N]: v1,v2 or key[N]{fields}:
@@ -960,77 +728,8 @@ fn encode_keyed_array_json(
     opts: &Options,
     indent: usize,
 ) -> Result<(), SerError> {
-    let len = items.len();
-    let delim = opts.delimiter;
-    let dch = primitives::delimiter_char(delim);
-
-    if items.is_empty() {
-        // Empty array: key[0]:
-        w.line(
-            indent,
-            &format!("{}{}:", key, primitives::format_bracket_segment(0, delim)),
-        );
-        return Ok(());
-    }
-
-    // Check for tabular array
-    if let Some(keys) = crate::encode::encoders::is_tabular_array(items) {
-        let field_cells: Vec<String> = keys.iter().map(|k| primitives::format_key(k)).collect();
-        let header = format!(
-            "{}{}",
-            key,
-            primitives::format_tabular_header(len, &field_cells, delim)
-        );
-        w.line(indent, &header);
-
-        // Rows at indent+2
-        for item in items {
-            let obj = item.as_object().unwrap();
-            let cells: Vec<String> = keys
-                .iter()
-                .map(|k| {
-                    let v = obj.get(k).unwrap();
-                    format_primitive_value_json(v, delim)
-                })
-                .collect();
-            let row = join_with_delim(&cells, dch);
-            w.line(indent + opts.indent, &row);
-        }
-        return Ok(());
-    }
-
-    // Check for inline primitive array
-    if is_primitive_array_json(items) {
-        let values: Vec<String> = items
-            .iter()
-            .map(|v| format_primitive_value_json(v, delim))
-            .collect();
-        let inline = join_with_delim(&values, dch);
-        w.line(
-            indent,
-            &format!(
-                "{}{}: {}",
-                key,
-                primitives::format_bracket_segment(len, delim),
-                inline
-            ),
-        );
-        return Ok(());
-    }
-
-    // Mixed/complex array: key[N]: with list items
-    w.line(
-        indent,
-        &format!(
-            "{}{}",
-            key,
-            primitives::format_expanded_array_header(len, delim)
-        ),
-    );
-    for item in items {
-        encode_list_item_json(item, w, opts, indent + opts.indent)?;
-    }
-    Ok(())
+    crate::encode::encoders::encode_keyed_array(key, items, w, opts, indent)
+        .map_err(|e| SerError::custom(e.to_string()))
 }
 
 #[cfg(not(feature = "json"))]
-- 
2.43.0


From 49b0891e77c23dfaa0f80a63395ef49b757d78f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 02/32] fix: arrays of empty objects take list form instead of
 a table without columns

---
 crates/toon/src/encode/encoders.rs | 4 ++++
 crates/toon/src/ser/stream.rs      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index 936e937..1ad5853 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -752,6 +752,10 @@ pub fn is_tabular_array(arr: &[Value]) -> Option<Vec<String>> {
                 return None;
             }
         } else {
+            // An empty object has no columns, so its array needs list form
+            if kset.is_empty() {
+                return None;
+            }
             // Use the key order from the first object
             keys = Some(kset);
         }
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 89ebeac..305263a 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1097,6 +1097,10 @@ fn is_tabular_array_alloc(arr: &[IValue]) -> Option<Vec<String>> {
                 return None;
             }
         } else {
+            // An empty object has no columns, so its array needs list form
+            if kset.is_empty() {
+                return None;
+            }
             keys = Some(kset);
         }
         for (_, vv) in obj.iter() {
-- 
2.43.0


From e12812b7fd6dd231a8b09d152c531b9ca515e2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 03/32] fix: honour the indent option below list items when
 encoding

---
 crates/toon/src/encode/encoders.rs |  8 ++---
 crates/toon/src/ser/stream.rs      | 47 ++++++++++++++++++++----------
 2 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index 1ad5853..9df4fbc 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -610,7 +610,7 @@ fn encode_list_item_object(
             );
             w.line_list_item(indent, &header);
 
-            // Rows at depth+2 (indent + 4 relative to list item indent)
+            // Rows at depth+2
             for item in items {
                 let inner_obj = item.as_object().unwrap();
                 let cells: Vec<String> = keys
@@ -621,7 +621,7 @@ fn encode_list_item_object(
                     })
                     .collect();
                 let row = join_with_delim(&cells, dch);
-                w.line(indent + 4, &row);
+                w.line(indent + 2 * opts.indent, &row);
             }
 
             // Other fields at depth+1 (indent + opts.indent)
@@ -689,7 +689,7 @@ fn encode_list_item_object(
                     ),
                 );
                 for inner_item in items {
-                    encode_list_item(inner_item, w, opts, indent + 4)?;
+                    encode_list_item(inner_item, w, opts, indent + 2 * opts.indent)?;
                 }
             }
         }
@@ -697,7 +697,7 @@ fn encode_list_item_object(
             w.line(indent, &format!("- {}:", first_key_fmt));
             if !inner_obj.is_empty() {
                 for (k, v) in inner_obj {
-                    encode_object_field(k, v, w, opts, indent + 4)?;
+                    encode_object_field(k, v, w, opts, indent + 2 * opts.indent)?;
                 }
             }
         }
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 305263a..dd9c653 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -818,7 +818,7 @@ fn encode_list_item_alloc(
                     );
                     w.line_list_item(indent, &header);
 
-                    // Rows at indent + 4
+                    // Rows at depth+2
                     for item in items {
                         let obj = match item {
                             IValue::Object(p) => p,
@@ -832,7 +832,7 @@ fn encode_list_item_alloc(
                             })
                             .collect();
                         let row = join_with_delim(&cells, dch);
-                        w.line(indent + 4, &row);
+                        w.line(indent + 2 * opts.indent, &row);
                     }
 
                     // Remaining fields at depth + 1 (indent + opts.indent)
@@ -866,7 +866,7 @@ fn encode_list_item_alloc(
                             }
                             IValue::Object(_) => {
                                 w.line_key_only(indent + opts.indent, &key_fmt);
-                                encode_internal_value_alloc(v, w, opts, indent + 4)?;
+                                encode_internal_value_alloc(v, w, opts, indent + 2 * opts.indent)?;
                             }
                         }
                     }
@@ -928,7 +928,7 @@ fn encode_list_item_alloc(
                             ),
                         );
                         for inner in items {
-                            encode_list_item_alloc(inner, w, opts, indent + 4)?;
+                            encode_list_item_alloc(inner, w, opts, indent + 2 * opts.indent)?;
                         }
                     }
                 }
@@ -938,26 +938,41 @@ fn encode_list_item_alloc(
                         for (k, v) in inner_obj {
                             let key_fmt = primitives::format_key(k);
                             match v {
-                                IValue::Null => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_null())
-                                }
-                                IValue::Bool(b) => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_bool(*b))
-                                }
+                                IValue::Null => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_null(),
+                                ),
+                                IValue::Bool(b) => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_bool(*b),
+                                ),
                                 IValue::Number(n) => {
-                                    w.line_kv(indent + 4, &key_fmt, &n.to_string())
+                                    w.line_kv(indent + 2 * opts.indent, &key_fmt, &n.to_string())
                                 }
                                 IValue::String(s) => w.line_kv(
-                                    indent + 4,
+                                    indent + 2 * opts.indent,
                                     &key_fmt,
                                     &primitives::format_string(s, opts.delimiter),
                                 ),
                                 IValue::Array(arr) => {
-                                    encode_keyed_array_alloc(&key_fmt, arr, w, opts, indent + 4)?;
+                                    encode_keyed_array_alloc(
+                                        &key_fmt,
+                                        arr,
+                                        w,
+                                        opts,
+                                        indent + 2 * opts.indent,
+                                    )?;
                                 }
                                 IValue::Object(_) => {
-                                    w.line_key_only(indent + 4, &key_fmt);
-                                    encode_internal_value_alloc(v, w, opts, indent + 6)?;
+                                    w.line_key_only(indent + 2 * opts.indent, &key_fmt);
+                                    encode_internal_value_alloc(
+                                        v,
+                                        w,
+                                        opts,
+                                        indent + 3 * opts.indent,
+                                    )?;
                                 }
                             }
                         }
@@ -986,7 +1001,7 @@ fn encode_list_item_alloc(
                     }
                     IValue::Object(_) => {
                         w.line_key_only(indent + opts.indent, &key_fmt);
-                        encode_internal_value_alloc(v, w, opts, indent + 4)?;
+                        encode_internal_value_alloc(v, w, opts, indent + 2 * opts.indent)?;
                     }
                 }
             }
-- 
2.43.0


From 35c061b26783973f887f12a7a109db85365244e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 04/32] fix: folding never produces a key that a sibling
 already has, at the root and in list items

---
 crates/toon/src/encode/encoders.rs | 36 +++++++++++++++++-------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index 9df4fbc..086198f 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -42,8 +42,9 @@ pub fn encode_value(
                 // Empty object: just key: with nothing following
                 // (when nested, the parent emits "key:" and this produces no additional lines)
             } else {
+                let sibling_keys: Vec<String> = obj.keys().cloned().collect();
                 for (k, v) in obj {
-                    encode_object_field_internal(k, v, w, opts, indent)?;
+                    encode_object_field_with_siblings(k, v, w, opts, indent, &sibling_keys)?;
                 }
             }
         }
@@ -51,17 +52,6 @@ pub fn encode_value(
     Ok(())
 }
 
-/// Encode an object field (key-value pair) - internal version without sibling context
-fn encode_object_field_internal(
-    key: &str,
-    value: &Value,
-    w: &mut LineWriter,
-    opts: &Options,
-    indent: usize,
-) -> Result<()> {
-    encode_object_field_with_context(key, value, w, opts, indent, None)
-}
-
 /// Encode an object field (key-value pair) - public API for streaming serializer
 pub fn encode_object_field(
     key: &str,
@@ -592,6 +582,7 @@ fn encode_list_item_object(
         return Ok(());
     }
 
+    let sibling_keys: Vec<String> = obj.keys().cloned().collect();
     let mut iter = obj.iter();
     let (first_key, first_value) = iter.next().unwrap();
     let first_key_fmt = primitives::format_key(first_key);
@@ -626,7 +617,14 @@ fn encode_list_item_object(
 
             // Other fields at depth+1 (indent + opts.indent)
             for (k, v) in iter {
-                encode_object_field(k, v, w, opts, indent + opts.indent)?;
+                encode_object_field_with_siblings(
+                    k,
+                    v,
+                    w,
+                    opts,
+                    indent + opts.indent,
+                    &sibling_keys,
+                )?;
             }
             return Ok(());
         }
@@ -696,8 +694,16 @@ fn encode_list_item_object(
         Value::Object(inner_obj) => {
             w.line(indent, &format!("- {}:", first_key_fmt));
             if !inner_obj.is_empty() {
+                let inner_keys: Vec<String> = inner_obj.keys().cloned().collect();
                 for (k, v) in inner_obj {
-                    encode_object_field(k, v, w, opts, indent + 2 * opts.indent)?;
+                    encode_object_field_with_siblings(
+                        k,
+                        v,
+                        w,
+                        opts,
+                        indent + 2 * opts.indent,
+                        &inner_keys,
+                    )?;
                 }
             }
         }
@@ -705,7 +711,7 @@ fn encode_list_item_object(
 
     // Remaining fields at depth+1 (indent + opts.indent)
     for (k, v) in iter {
-        encode_object_field(k, v, w, opts, indent + opts.indent)?;
+        encode_object_field_with_siblings(k, v, w, opts, indent + opts.indent, &sibling_keys)?;
     }
     Ok(())
 }
-- 
2.43.0


From 7544bc3502a76379232e0df120c2e121f4422ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 05/32] fix: a table header with a multi-byte delimiter or an
 overlong length no longer panics

---
 crates/toon/src/de/direct.rs     | 7 ++++---
 crates/toon/src/decode/parser.rs | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/toon/src/de/direct.rs b/crates/toon/src/de/direct.rs
index d594645..6352ade 100644
--- a/crates/toon/src/de/direct.rs
+++ b/crates/toon/src/de/direct.rs
@@ -733,8 +733,9 @@ fn parse_header(s: &str) -> Option<(char, &str)> {
     if it.next()? != '@' {
         return None;
     }
-    let dch = it.next()?;
-    Some((dch, s[2..].trim_start()))
+    // Delimiters are single bytes: anything else is not a header
+    let dch = it.next().filter(char::is_ascii)?;
+    Some((dch, it.as_str().trim_start()))
 }
 
 fn unescape_json_string(s: &str) -> Option<String> {
@@ -891,7 +892,7 @@ fn parse_inline_array_header(s: &str) -> Option<(usize, char, &str)> {
     let mut i = 1usize;
     let mut n: usize = 0;
     while i < bytes.len() && bytes[i].is_ascii_digit() {
-        n = n * 10 + (bytes[i] - b'0') as usize;
+        n = n.checked_mul(10)?.checked_add((bytes[i] - b'0') as usize)?;
         i += 1;
     }
     if i >= bytes.len() {
diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index abd9ee3..f800691 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1171,8 +1171,9 @@ fn parse_header(s: &str) -> Option<(char, &str)> {
     if at != '@' {
         return None;
     }
-    let dch = it.next()?;
-    let rest = &s[2..];
+    // Delimiters are single bytes: anything else is not a header
+    let dch = it.next().filter(char::is_ascii)?;
+    let rest = it.as_str();
     Some((dch, trim_ascii_start(rest)))
 }
 
-- 
2.43.0


From e50c7f3e88b310671a2727bab6b7be13a716833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 06/32] fix: a root string that starts with @ is not a table
 without rows

---
 crates/toon/src/decode/parser.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index f800691..5a37138 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -607,8 +607,16 @@ impl<'a> Parser<'a> {
             None => None,
         };
 
-        // Check if this is a tabular array header
-        if let Some(s) = s_opt {
+        // Check if this is a tabular array header: one with rows below, since a plain
+        // string may start with '@' too
+        let has_rows = self.lines[self.idx..]
+            .iter()
+            .skip(1)
+            .find(|l| !matches!(l.kind, LineKind::Blank))
+            .is_some_and(|l| {
+                l.indent == indent && matches!(l.kind, LineKind::ListItem { value: Some(_) })
+            });
+        if let Some(s) = s_opt.filter(|_| has_rows) {
             if let Some((dch, header_str)) = parse_header(s) {
                 // This is a tabular header, parse it as a root-level tabular array
                 if self.strict && !(dch == ',' || dch == '\t' || dch == '|') {
-- 
2.43.0


From 3c28e2ae9583c83ff63ec3886624331a0eb52463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 07/32] fix: decode documents with the indent width the options
 give

---
 crates/toon/src/de/mod.rs        |  6 +++-
 crates/toon/src/decode/parser.rs | 59 +++++++++++++++++++++++++-------
 2 files changed, 52 insertions(+), 13 deletions(-)

diff --git a/crates/toon/src/de/mod.rs b/crates/toon/src/de/mod.rs
index 587d738..70c4b27 100644
--- a/crates/toon/src/de/mod.rs
+++ b/crates/toon/src/de/mod.rs
@@ -174,7 +174,11 @@ fn from_str_via_internal_value<T: DeserializeOwned>(s: &str, options: &Options)
             });
         }
     }
-    let mut v = crate::decode::parser::parse_to_internal_value_from_lines(lines, options.strict)?;
+    let mut v = crate::decode::parser::parse_to_internal_value_with_indent(
+        lines,
+        options.strict,
+        options.indent,
+    )?;
 
     // Apply path expansion if enabled
     if options.expand_paths == crate::options::ExpandPaths::Safe {
diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 5a37138..e76aa4e 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -14,15 +14,20 @@ pub struct Parser<'a> {
     lines: Vec<ParsedLine<'a>>,
     idx: usize,
     strict: bool,
+    indent_size: usize,
     error: Option<crate::error::Error>,
 }
 
+/// Indent width assumed where no options are given
+const DEFAULT_INDENT: usize = 2;
+
 impl<'a> Parser<'a> {
     pub fn from_input(input: &'a str) -> Self {
         Self {
             lines: scan(input),
             idx: 0,
             strict: false,
+            indent_size: DEFAULT_INDENT,
             error: None,
         }
     }
@@ -32,6 +37,7 @@ impl<'a> Parser<'a> {
             lines: scan(input),
             idx: 0,
             strict,
+            indent_size: DEFAULT_INDENT,
             error: None,
         }
     }
@@ -41,10 +47,21 @@ impl<'a> Parser<'a> {
             lines,
             idx: 0,
             strict,
+            indent_size: DEFAULT_INDENT,
             error: None,
         }
     }
 
+    /// Sets the indent width of one level; 0 stands for the default
+    pub fn with_indent_size(mut self, indent_size: usize) -> Self {
+        self.indent_size = if indent_size == 0 {
+            DEFAULT_INDENT
+        } else {
+            indent_size
+        };
+        self
+    }
+
     pub fn is_empty(&self) -> bool {
         self.lines.is_empty()
     }
@@ -240,7 +257,7 @@ impl<'a> Parser<'a> {
                         // If header has a key, this is a keyed array as first field of list-item object
                         if let Some(ref key) = header.key {
                             let key_parsed = self.parse_key_token(key);
-                            let child_indent = indent + 2;
+                            let child_indent = indent + self.indent_size;
                             let mut map: Vec<(String, Value)> = Vec::new();
                             let v = self.parse_keyed_array_value(&header);
                             map.push((key_parsed, v));
@@ -254,7 +271,10 @@ impl<'a> Parser<'a> {
                         // No key - this is an inline array like "- [N]{fields}:"
                         if let Some(ref fields) = header.fields {
                             let header_line_no = self.idx; // Already consumed the header
-                            let row_indent = self.peek().map(|l| l.indent).unwrap_or(indent + 2);
+                            let row_indent = self
+                                .peek()
+                                .map(|l| l.indent)
+                                .unwrap_or(indent + self.indent_size);
                             let fields_refs: Vec<&str> =
                                 fields.iter().map(|s| s.as_str()).collect();
                             arr.push(self.parse_tabular_rows(
@@ -284,7 +304,10 @@ impl<'a> Parser<'a> {
                             continue;
                         }
                         // Expanded array header: parse nested list items at child indent
-                        let child_indent = self.peek().map(|l| l.indent).unwrap_or(indent + 2);
+                        let child_indent = self
+                            .peek()
+                            .map(|l| l.indent)
+                            .unwrap_or(indent + self.indent_size);
                         arr.push(self.parse_array(child_indent));
                         continue;
                     }
@@ -292,7 +315,7 @@ impl<'a> Parser<'a> {
                 // 2) Support object-as-list-item with first field on the hyphen line: "- key: value"
                 if let Some((kraw, vraw)) = split_kv_quote_aware(vs) {
                     let key = self.parse_key_token(kraw);
-                    let child_indent = indent + 2;
+                    let child_indent = indent + self.indent_size;
                     let mut map: Vec<(String, Value)> = Vec::new();
                     if vraw.is_empty() {
                         // Value on following indented lines
@@ -312,7 +335,7 @@ impl<'a> Parser<'a> {
                 arr.push(self.parse_scalar_token(vs));
             } else {
                 // Bare "-" list item - check if there are children
-                let child_indent = indent + 2;
+                let child_indent = indent + self.indent_size;
                 let child_val = self.parse_node(child_indent);
                 // If parse_node returns Null (no children), this is an empty object
                 if matches!(child_val, Value::Null) {
@@ -404,7 +427,10 @@ impl<'a> Parser<'a> {
                     self.next();
                     let k = self.parse_key_token(kref);
                     // Detect actual child indent from next line (supports non-multiple indentation in non-strict mode)
-                    let child_indent = self.peek().map(|l| l.indent).unwrap_or(indent + 2);
+                    let child_indent = self
+                        .peek()
+                        .map(|l| l.indent)
+                        .unwrap_or(indent + self.indent_size);
                     let mut handled = false;
                     if let Some(nl) = self.peek() {
                         if nl.indent == child_indent && nl.indent > indent {
@@ -805,7 +831,7 @@ impl<'a> Parser<'a> {
                                         header.length,
                                         header.delimiter,
                                         &fields_refs,
-                                        indent + 2,
+                                        indent + self.indent_size,
                                         header_line_no,
                                     );
                                 }
@@ -935,13 +961,13 @@ impl<'a> Parser<'a> {
         self.next(); // Consume header line
 
         if let Some(ref fields) = header.fields {
-            // Tabular array - rows at indent 2
+            // Tabular array - rows one level in
             let fields_refs: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
             return self.parse_tabular_rows(
                 header.length,
                 header.delimiter,
                 &fields_refs,
-                2,
+                self.indent_size,
                 line_no,
             );
         }
@@ -970,8 +996,8 @@ impl<'a> Parser<'a> {
             }
         }
 
-        // Expanded array with list items at indent 2
-        self.parse_array_with_length_check(2, header.length, line_no)
+        // Expanded array with list items one level in
+        self.parse_array_with_length_check(self.indent_size, header.length, line_no)
     }
 
     /// Parse the value for a keyed array header
@@ -1750,7 +1776,16 @@ pub fn parse_to_internal_value_from_lines<'a>(
     lines: Vec<ParsedLine<'a>>,
     strict: bool,
 ) -> Result<Value, crate::error::Error> {
-    let mut p = Parser::from_lines(lines, strict);
+    parse_to_internal_value_with_indent(lines, strict, DEFAULT_INDENT)
+}
+
+/// Like `parse_to_internal_value_from_lines`, for documents indented by `indent_size` per level
+pub fn parse_to_internal_value_with_indent<'a>(
+    lines: Vec<ParsedLine<'a>>,
+    strict: bool,
+    indent_size: usize,
+) -> Result<Value, crate::error::Error> {
+    let mut p = Parser::from_lines(lines, strict).with_indent_size(indent_size);
     let v = p.parse_document();
     if let Some(err) = p.error {
         Err(err)
-- 
2.43.0


From d37facc2e9bdb5ca9720e200bf6443a241971bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 08/32] fix: a key without children is an empty object whatever
 follows it

---
 crates/toon/src/decode/parser.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index e76aa4e..3195d26 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -86,6 +86,17 @@ impl<'a> Parser<'a> {
         self.lines.get(i)
     }
 
+    /// Indent of the block below a line at `indent`: that of the next line with content if
+    /// it is deeper, else one level in, where nothing follows
+    fn child_indent(&self, indent: usize) -> usize {
+        self.lines[self.idx.min(self.lines.len())..]
+            .iter()
+            .find(|l| !matches!(l.kind, LineKind::Blank))
+            .map(|l| l.indent)
+            .filter(|&i| i > indent)
+            .unwrap_or(indent + self.indent_size)
+    }
+
     fn parse_scalar_token(&mut self, s: &str) -> Value {
         self.parse_scalar_token_at_line(s, self.idx)
     }
@@ -427,10 +438,7 @@ impl<'a> Parser<'a> {
                     self.next();
                     let k = self.parse_key_token(kref);
                     // Detect actual child indent from next line (supports non-multiple indentation in non-strict mode)
-                    let child_indent = self
-                        .peek()
-                        .map(|l| l.indent)
-                        .unwrap_or(indent + self.indent_size);
+                    let child_indent = self.child_indent(indent);
                     let mut handled = false;
                     if let Some(nl) = self.peek() {
                         if nl.indent == child_indent && nl.indent > indent {
-- 
2.43.0


From 3b715976a80c24c9845a07bbc87c8165647e3435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:41 +0000
Subject: [PATCH 09/32] fix: a key without children on the hyphen line is an
 empty object and keeps its siblings

---
 crates/toon/src/decode/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 3195d26..77b376b 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -329,8 +329,12 @@ impl<'a> Parser<'a> {
                     let child_indent = indent + self.indent_size;
                     let mut map: Vec<(String, Value)> = Vec::new();
                     if vraw.is_empty() {
-                        // Value on following indented lines
-                        let v = self.parse_node(child_indent);
+                        // Value on following lines, indented deeper than the sibling fields;
+                        // without any it is an empty object, as for other keys
+                        let v = match self.parse_node(child_indent + 1) {
+                            Value::Null => Value::Object(Vec::new()),
+                            v => v,
+                        };
                         map.push((key, v));
                     } else {
                         map.push((key, self.parse_scalar_token(vraw)));
-- 
2.43.0


From 3b0bba9193d2023377ac40871b95d9e6af025af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:59 +0000
Subject: [PATCH 10/32] fix: the rows and items of an array are those indented
 below its header, and nested arrays have their length checked

---
 crates/toon/src/decode/parser.rs | 60 ++++++--------------------------
 1 file changed, 10 insertions(+), 50 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 77b376b..7313158 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -270,7 +270,7 @@ impl<'a> Parser<'a> {
                             let key_parsed = self.parse_key_token(key);
                             let child_indent = indent + self.indent_size;
                             let mut map: Vec<(String, Value)> = Vec::new();
-                            let v = self.parse_keyed_array_value(&header);
+                            let v = self.parse_keyed_array_value(&header, child_indent);
                             map.push((key_parsed, v));
                             // Parse any additional fields at child indent
                             if let Value::Object(mut rest) = self.parse_object(child_indent) {
@@ -279,47 +279,8 @@ impl<'a> Parser<'a> {
                             arr.push(Value::Object(map));
                             continue;
                         }
-                        // No key - this is an inline array like "- [N]{fields}:"
-                        if let Some(ref fields) = header.fields {
-                            let header_line_no = self.idx; // Already consumed the header
-                            let row_indent = self
-                                .peek()
-                                .map(|l| l.indent)
-                                .unwrap_or(indent + self.indent_size);
-                            let fields_refs: Vec<&str> =
-                                fields.iter().map(|s| s.as_str()).collect();
-                            arr.push(self.parse_tabular_rows(
-                                header.length,
-                                header.delimiter,
-                                &fields_refs,
-                                row_indent,
-                                header_line_no,
-                            ));
-                            continue;
-                        }
-                        if let Some(ref inline) = header.inline_values {
-                            if !inline.is_empty() {
-                                let values = split_delim_aware(inline, header.delimiter);
-                                arr.push(Value::Array(
-                                    values
-                                        .into_iter()
-                                        .map(|v| self.parse_scalar_token(v))
-                                        .collect(),
-                                ));
-                                continue;
-                            }
-                        }
-                        // Empty array: [0]: produces []
-                        if header.length == 0 {
-                            arr.push(Value::Array(Vec::new()));
-                            continue;
-                        }
-                        // Expanded array header: parse nested list items at child indent
-                        let child_indent = self
-                            .peek()
-                            .map(|l| l.indent)
-                            .unwrap_or(indent + self.indent_size);
-                        arr.push(self.parse_array(child_indent));
+                        // No key - the item is itself an array, inline or expanded below
+                        arr.push(self.parse_keyed_array_value(&header, indent));
                         continue;
                     }
                 }
@@ -380,7 +341,7 @@ impl<'a> Parser<'a> {
                                         .as_ref()
                                         .map(|k| self.parse_key_token(k))
                                         .unwrap_or_default();
-                                    let v = self.parse_keyed_array_value(&header);
+                                    let v = self.parse_keyed_array_value(&header, indent);
                                     map.push((k, v));
                                     continue;
                                 }
@@ -416,7 +377,7 @@ impl<'a> Parser<'a> {
                             .as_ref()
                             .map(|k| self.parse_key_token(k))
                             .unwrap_or_default();
-                        let v = self.parse_keyed_array_value(&header);
+                        let v = self.parse_keyed_array_value(&header, indent);
                         map.push((k, v));
                         continue;
                     }
@@ -435,7 +396,7 @@ impl<'a> Parser<'a> {
                             .as_ref()
                             .map(|k| self.parse_key_token(k))
                             .unwrap_or_default();
-                        let v = self.parse_keyed_array_value(&header);
+                        let v = self.parse_keyed_array_value(&header, indent);
                         map.push((k, v));
                         continue;
                     }
@@ -1012,8 +973,8 @@ impl<'a> Parser<'a> {
         self.parse_array_with_length_check(self.indent_size, header.length, line_no)
     }
 
-    /// Parse the value for a keyed array header
-    fn parse_keyed_array_value(&mut self, header: &ArrayHeader) -> Value {
+    /// Parse the value for an array header whose rows or items are indented deeper than `indent`
+    fn parse_keyed_array_value(&mut self, header: &ArrayHeader, indent: usize) -> Value {
         let header_line_no = self.idx; // Header was already consumed
 
         // In strict mode, check for delimiter mismatch between bracket and brace
@@ -1026,8 +987,7 @@ impl<'a> Parser<'a> {
 
         // If there are fields, it's a tabular array
         if let Some(ref fields) = header.fields {
-            // Get current indent to determine row indent
-            let row_indent = self.peek().map(|l| l.indent).unwrap_or(2);
+            let row_indent = self.child_indent(indent);
             let fields_refs: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
             return self.parse_tabular_rows(
                 header.length,
@@ -1063,7 +1023,7 @@ impl<'a> Parser<'a> {
         }
 
         // Otherwise, parse list items at child indent
-        let child_indent = self.peek().map(|l| l.indent).unwrap_or(2);
+        let child_indent = self.child_indent(indent);
         self.parse_array_with_length_check(child_indent, header.length, header_line_no)
     }
 
-- 
2.43.0


From a89495004013540835528db233f6ee7d3bf7d84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 11/32] fix: root array headers follow the same rules as keyed
 ones

---
 crates/toon/src/decode/parser.rs | 79 ++------------------------------
 1 file changed, 3 insertions(+), 76 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 7313158..2ffaaf5 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -795,31 +795,8 @@ impl<'a> Parser<'a> {
                         if let Some(header) = parse_array_header(&with_colon) {
                             // This is a root-level array at this indent
                             if header.key.is_none() {
-                                let header_line_no = self.idx + 1;
                                 self.next();
-                                if let Some(ref fields) = header.fields {
-                                    let fields_refs: Vec<&str> =
-                                        fields.iter().map(|s| s.as_str()).collect();
-                                    return self.parse_tabular_rows(
-                                        header.length,
-                                        header.delimiter,
-                                        &fields_refs,
-                                        indent + self.indent_size,
-                                        header_line_no,
-                                    );
-                                }
-                                if let Some(ref inline) = header.inline_values {
-                                    if !inline.is_empty() {
-                                        let values = split_delim_aware(inline, header.delimiter);
-                                        return Value::Array(
-                                            values
-                                                .into_iter()
-                                                .map(|v| self.parse_scalar_token(v))
-                                                .collect(),
-                                        );
-                                    }
-                                }
-                                return self.parse_array(indent);
+                                return self.parse_keyed_array_value(&header, indent);
                             }
                         }
                     }
@@ -830,18 +807,7 @@ impl<'a> Parser<'a> {
                     if let Some(header) = parse_array_header(&combined) {
                         if header.key.is_none() {
                             self.next();
-                            if let Some(ref inline) = header.inline_values {
-                                if !inline.is_empty() {
-                                    let values = split_delim_aware(inline, header.delimiter);
-                                    return Value::Array(
-                                        values
-                                            .into_iter()
-                                            .map(|v| self.parse_scalar_token(v))
-                                            .collect(),
-                                    );
-                                }
-                            }
-                            return Value::Array(Vec::new());
+                            return self.parse_keyed_array_value(&header, indent);
                         }
                     }
                 }
@@ -930,47 +896,8 @@ impl<'a> Parser<'a> {
     }
 
     fn parse_root_array_with_header(&mut self, header: ArrayHeader) -> Value {
-        let line_no = self.idx + 1;
         self.next(); // Consume header line
-
-        if let Some(ref fields) = header.fields {
-            // Tabular array - rows one level in
-            let fields_refs: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
-            return self.parse_tabular_rows(
-                header.length,
-                header.delimiter,
-                &fields_refs,
-                self.indent_size,
-                line_no,
-            );
-        }
-
-        if let Some(ref inline) = header.inline_values {
-            if !inline.is_empty() {
-                // Inline primitive array
-                let values = split_delim_aware(inline, header.delimiter);
-                // Validate array length
-                if values.len() != header.length {
-                    self.error = Some(crate::error::Error::Syntax {
-                        line: line_no,
-                        message: format!(
-                            "array length mismatch: header declares {} elements but found {}",
-                            header.length,
-                            values.len()
-                        ),
-                    });
-                }
-                return Value::Array(
-                    values
-                        .into_iter()
-                        .map(|v| self.parse_scalar_token(v))
-                        .collect(),
-                );
-            }
-        }
-
-        // Expanded array with list items one level in
-        self.parse_array_with_length_check(self.indent_size, header.length, line_no)
+        self.parse_keyed_array_value(&header, 0)
     }
 
     /// Parse the value for an array header whose rows or items are indented deeper than `indent`
-- 
2.43.0


From bf00b094b67360062fafbcd4056b530bb3dbd9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 12/32] fix: rows of a one-column table may contain the other
 delimiters

---
 crates/toon/src/decode/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 2ffaaf5..10d27d0 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1026,7 +1026,11 @@ impl<'a> Parser<'a> {
             self.next();
 
             // In strict mode, check if row uses a different delimiter than declared
-            if self.strict && self.error.is_none() && check_delimiter_mismatch(row_text, delimiter)
+            // (a single cell contains no delimiter, and may contain any other)
+            if self.strict
+                && self.error.is_none()
+                && expected_cells > 1
+                && check_delimiter_mismatch(row_text, delimiter)
             {
                 self.error = Some(crate::error::Error::Syntax {
                     line: row_line_no,
-- 
2.43.0


From 7d8378380b8cb3e8529f3f6a082314d7df070e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 13/32] fix: integer-valued floats beyond 64 bits keep their
 value, and numbers beyond f64 their text

---
 crates/toon/src/decode/parser.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 10d27d0..b0cf91d 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -148,12 +148,17 @@ impl<'a> Parser<'a> {
         match classify_numeric_hint(s) {
             Some(NumHint::Float) => {
                 if let Ok(f) = s.parse::<f64>() {
-                    // Normalize integer-valued floats to integers
+                    // A number out of range stays as written
+                    if !f.is_finite() {
+                        return Value::String(s.to_string());
+                    }
+                    // Normalize integer-valued floats to integers where these can hold them
                     // Use f % 1.0 instead of f.fract() for no_std compatibility
-                    if f.is_finite() && f % 1.0 == 0.0 {
-                        if f >= 0.0 {
+                    if f % 1.0 == 0.0 {
+                        // The bounds are powers of two, exact as f64: 2^64 and -2^63
+                        if (0.0..18_446_744_073_709_551_616.0).contains(&f) {
                             return Value::Number(Number::U64(f as u64));
-                        } else {
+                        } else if (-9_223_372_036_854_775_808.0..0.0).contains(&f) {
                             return Value::Number(Number::I64(f as i64));
                         }
                     }
@@ -164,7 +169,7 @@ impl<'a> Parser<'a> {
                 if let Ok(i) = s.parse::<i64>() {
                     return Value::Number(Number::I64(i));
                 }
-                if let Ok(f) = s.parse::<f64>() {
+                if let Some(f) = s.parse::<f64>().ok().filter(|f| f.is_finite()) {
                     return Value::Number(Number::F64(f));
                 }
             }
@@ -172,7 +177,7 @@ impl<'a> Parser<'a> {
                 if let Ok(u) = s.parse::<u64>() {
                     return Value::Number(Number::U64(u));
                 }
-                if let Ok(f) = s.parse::<f64>() {
+                if let Some(f) = s.parse::<f64>().ok().filter(|f| f.is_finite()) {
                     return Value::Number(Number::F64(f));
                 }
             }
-- 
2.43.0


From 59c9ca83e36b3970b34d40543ff27bec8074735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 14/32] fix: strict decoding rejects lines that no value takes

---
 crates/toon/src/decode/parser.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index b0cf91d..108c4d5 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -829,6 +829,21 @@ impl<'a> Parser<'a> {
     }
 
     pub fn parse_document(&mut self) -> Value {
+        let result = self.parse_root();
+        // In strict mode every line belongs to the root value
+        if self.strict && self.error.is_none() {
+            self.skip_blanks();
+            if self.peek().is_some() {
+                self.error = Some(crate::error::Error::Syntax {
+                    line: self.idx + 1,
+                    message: "unexpected line: not part of the document's value".to_string(),
+                });
+            }
+        }
+        result
+    }
+
+    fn parse_root(&mut self) -> Value {
         self.skip_blanks();
         if self.peek().is_none() {
             // Empty document represents an empty object (root documents are implicitly objects)
-- 
2.43.0


From c072b4a6df35e49c8329bab509203b545065b276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 15/32] fix: text after a closing quote is an error, not part
 of the string

---
 crates/toon/src/decode/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 108c4d5..30aba30 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1775,6 +1775,10 @@ fn try_unescape_json_string(s: &str) -> Result<String, StringParseError> {
     let mut out = String::with_capacity(inner.len());
     let mut chars = inner.chars();
     while let Some(ch) = chars.next() {
+        if ch == '"' {
+            // The string ends here, yet the token goes on
+            return Err(StringParseError::Unterminated);
+        }
         if ch == '\\' {
             match chars.next() {
                 None => return Err(StringParseError::InvalidEscape),
-- 
2.43.0


From 5d1978af06f19b830967368a301ce73c14385970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:46 +0000
Subject: [PATCH 16/32] fix: strict decoding rejects blank lines anywhere
 inside an array's items

---
 crates/toon/src/decode/parser.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 30aba30..3285fe8 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -225,6 +225,8 @@ impl<'a> Parser<'a> {
     fn parse_array(&mut self, indent: usize) -> Value {
         let mut arr = Vec::new();
         let mut inside_array = false;
+        self.skip_blanks();
+        let first_line = self.idx;
         loop {
             // In strict mode, error on blank lines inside arrays (only if next non-blank is still part of this array)
             if self.strict && inside_array {
@@ -326,9 +328,27 @@ impl<'a> Parser<'a> {
                 }
             }
         }
+        self.check_blank_lines(first_line);
         Value::Array(arr)
     }
 
+    /// In strict mode, reject blank lines between the line at `first_line` and the last line
+    /// with content that was parsed since
+    fn check_blank_lines(&mut self, first_line: usize) {
+        if !self.strict || self.error.is_some() {
+            return;
+        }
+        let parsed = self.lines.get(first_line..self.idx).unwrap_or_default();
+        let is_blank = |l: &ParsedLine| matches!(l.kind, LineKind::Blank);
+        let end = parsed.iter().rposition(|l| !is_blank(l)).unwrap_or(0);
+        if let Some(pos) = parsed[..end].iter().position(is_blank) {
+            self.error = Some(crate::error::Error::Syntax {
+                line: first_line + pos + 1,
+                message: "blank line inside array".to_string(),
+            });
+        }
+    }
+
     fn parse_object(&mut self, indent: usize) -> Value {
         let mut map: Vec<(String, Value)> = Vec::new();
         loop {
-- 
2.43.0


From 83127cf82004c4e626b7469d9dce6408a91aaafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:52 +0000
Subject: [PATCH 17/32] fix: strict decoding rejects values on a tabular
 header's line

---
 crates/toon/src/decode/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 3285fe8..c232f10 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -588,6 +588,7 @@ impl<'a> Parser<'a> {
                         }
                     }
                     if !handled {
+                        self.skip_blanks();
                         // Check for bare scalar after key: - this is an error
                         // (scalars in object context must have a key)
                         if let Some(nl) = self.peek() {
@@ -954,6 +955,15 @@ impl<'a> Parser<'a> {
 
         // If there are fields, it's a tabular array
         if let Some(ref fields) = header.fields {
+            if self.strict
+                && self.error.is_none()
+                && header.inline_values.as_ref().is_some_and(|v| !v.is_empty())
+            {
+                self.error = Some(crate::error::Error::Syntax {
+                    line: header_line_no,
+                    message: "values on the line of a tabular header".to_string(),
+                });
+            }
             let row_indent = self.child_indent(indent);
             let fields_refs: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
             return self.parse_tabular_rows(
-- 
2.43.0


From 5e0284624ef5a8d02b3db7f904c43e0ef13b4b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 18/32] fix: the marker of quoted dotted keys neither leaks
 into the result nor eats a key's own character

---
 crates/toon/src/de/mod.rs             |  6 +--
 crates/toon/src/decode/parser.rs      | 62 +++++++++++++++++++++------
 crates/toon/src/decode/path_expand.rs |  2 +-
 3 files changed, 51 insertions(+), 19 deletions(-)

diff --git a/crates/toon/src/de/mod.rs b/crates/toon/src/de/mod.rs
index 70c4b27..8b8a07c 100644
--- a/crates/toon/src/de/mod.rs
+++ b/crates/toon/src/de/mod.rs
@@ -174,11 +174,7 @@ fn from_str_via_internal_value<T: DeserializeOwned>(s: &str, options: &Options)
             });
         }
     }
-    let mut v = crate::decode::parser::parse_to_internal_value_with_indent(
-        lines,
-        options.strict,
-        options.indent,
-    )?;
+    let mut v = crate::decode::parser::parse_to_internal_value_with_options(lines, options)?;
 
     // Apply path expansion if enabled
     if options.expand_paths == crate::options::ExpandPaths::Safe {
diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index c232f10..e0aa7dc 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -7,6 +7,7 @@ use alloc::{
     vec::Vec,
 };
 
+use crate::decode::path_expand::QUOTED_DOT_MARKER;
 use crate::number::has_forbidden_leading_zeros;
 use crate::value::{Number, Value};
 
@@ -15,6 +16,7 @@ pub struct Parser<'a> {
     idx: usize,
     strict: bool,
     indent_size: usize,
+    mark_literal_keys: bool,
     error: Option<crate::error::Error>,
 }
 
@@ -28,6 +30,7 @@ impl<'a> Parser<'a> {
             idx: 0,
             strict: false,
             indent_size: DEFAULT_INDENT,
+            mark_literal_keys: false,
             error: None,
         }
     }
@@ -38,6 +41,7 @@ impl<'a> Parser<'a> {
             idx: 0,
             strict,
             indent_size: DEFAULT_INDENT,
+            mark_literal_keys: false,
             error: None,
         }
     }
@@ -48,6 +52,7 @@ impl<'a> Parser<'a> {
             idx: 0,
             strict,
             indent_size: DEFAULT_INDENT,
+            mark_literal_keys: false,
             error: None,
         }
     }
@@ -62,6 +67,13 @@ impl<'a> Parser<'a> {
         self
     }
 
+    /// Marks the keys that path expansion has to leave as they are, for `expand_paths` to
+    /// unmark; without expansion keys are never marked
+    pub fn with_literal_keys_marked(mut self, mark: bool) -> Self {
+        self.mark_literal_keys = mark;
+        self
+    }
+
     pub fn is_empty(&self) -> bool {
         self.lines.is_empty()
     }
@@ -195,14 +207,10 @@ impl<'a> Parser<'a> {
             match try_unescape_json_string(k) {
                 Ok(st) => {
                     // If this quoted key contains a dot, mark it to prevent path expansion
-                    // by prefixing with a zero-width space (U+200B)
                     if st.contains('.') {
-                        let mut marked = String::with_capacity(st.len() + 3);
-                        marked.push('\u{200B}');
-                        marked.push_str(&st);
-                        return marked;
+                        return self.mark_literal_key(st);
                     }
-                    return st;
+                    return self.mark_own_marker(st);
                 }
                 Err(e) if self.error.is_none() => {
                     self.error = Some(crate::error::Error::Syntax {
@@ -219,7 +227,27 @@ impl<'a> Parser<'a> {
                 Err(_) => return String::new(),
             }
         }
-        k.to_string()
+        self.mark_own_marker(k.to_string())
+    }
+
+    /// Prefix a literal key with a zero-width space (U+200B)
+    fn mark_literal_key(&self, key: String) -> String {
+        if !self.mark_literal_keys {
+            return key;
+        }
+        let mut marked = String::with_capacity(key.len() + QUOTED_DOT_MARKER.len_utf8());
+        marked.push(QUOTED_DOT_MARKER);
+        marked.push_str(&key);
+        marked
+    }
+
+    /// A key that itself starts with the marker is marked too, so that unmarking keeps it
+    fn mark_own_marker(&self, key: String) -> String {
+        if key.starts_with(QUOTED_DOT_MARKER) {
+            self.mark_literal_key(key)
+        } else {
+            key
+        }
     }
 
     fn parse_array(&mut self, indent: usize) -> Value {
@@ -1729,16 +1757,24 @@ pub fn parse_to_internal_value_from_lines<'a>(
     lines: Vec<ParsedLine<'a>>,
     strict: bool,
 ) -> Result<Value, crate::error::Error> {
-    parse_to_internal_value_with_indent(lines, strict, DEFAULT_INDENT)
+    finish(Parser::from_lines(lines, strict))
 }
 
-/// Like `parse_to_internal_value_from_lines`, for documents indented by `indent_size` per level
-pub fn parse_to_internal_value_with_indent<'a>(
+/// Like `parse_to_internal_value_from_lines`, by the decoding options: with path expansion on,
+/// the keys that `expand_paths` must not expand are marked
+pub fn parse_to_internal_value_with_options<'a>(
     lines: Vec<ParsedLine<'a>>,
-    strict: bool,
-    indent_size: usize,
+    options: &crate::options::Options,
 ) -> Result<Value, crate::error::Error> {
-    let mut p = Parser::from_lines(lines, strict).with_indent_size(indent_size);
+    let expand = options.expand_paths == crate::options::ExpandPaths::Safe;
+    finish(
+        Parser::from_lines(lines, options.strict)
+            .with_indent_size(options.indent)
+            .with_literal_keys_marked(expand),
+    )
+}
+
+fn finish(mut p: Parser<'_>) -> Result<Value, crate::error::Error> {
     let v = p.parse_document();
     if let Some(err) = p.error {
         Err(err)
diff --git a/crates/toon/src/decode/path_expand.rs b/crates/toon/src/decode/path_expand.rs
index 8e59d94..89a56fe 100644
--- a/crates/toon/src/decode/path_expand.rs
+++ b/crates/toon/src/decode/path_expand.rs
@@ -42,7 +42,7 @@ fn is_valid_identifier(s: &str) -> bool {
 
 /// Marker character used to indicate a key came from a quoted string with dots.
 /// This is a zero-width space (U+200B) which is stripped before output.
-const QUOTED_DOT_MARKER: char = '\u{200B}';
+pub(crate) const QUOTED_DOT_MARKER: char = '\u{200B}';
 
 /// Check if a key should be expanded (unquoted and all segments are valid identifiers).
 fn should_expand_key(key: &str) -> bool {
-- 
2.43.0


From 48475953ef5bf502cba7954a18cdd0042f6e226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:21 +0000
Subject: [PATCH 19/32] fix: decode options, newtypes, enums and non-string map
 keys, and refuse arrays longer than their target

---
 crates/toon/src/de/mod.rs | 207 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 200 insertions(+), 7 deletions(-)

diff --git a/crates/toon/src/de/mod.rs b/crates/toon/src/de/mod.rs
index 8b8a07c..9f41a04 100644
--- a/crates/toon/src/de/mod.rs
+++ b/crates/toon/src/de/mod.rs
@@ -85,7 +85,16 @@ impl<'de> de::Deserializer<'de> for Deserializer {
                         seed.deserialize(de).map(Some)
                     }
                 }
-                visitor.visit_seq(SA { elems: arr, idx: 0 })
+                let mut seq = SA { elems: arr, idx: 0 };
+                let value = visitor.visit_seq(&mut seq)?;
+                // A target that is full before the array ends does not fit it
+                if seq.idx < seq.elems.len() {
+                    return Err(de::Error::invalid_length(
+                        seq.elems.len(),
+                        &"fewer elements in array",
+                    ));
+                }
+                Ok(value)
             }
             Value::Object(obj) => {
                 struct MA {
@@ -105,10 +114,12 @@ impl<'de> de::Deserializer<'de> for Deserializer {
                         if self.idx >= self.entries.len() {
                             return Ok(None);
                         }
-                        let (ref key, ref val) = self.entries[self.idx];
-                        let de_key = key.clone().into_deserializer();
-                        self.next_val = Some(val.clone());
-                        seed.deserialize(de_key).map(Some)
+                        let (key, val) = core::mem::replace(
+                            &mut self.entries[self.idx],
+                            (String::new(), Value::Null),
+                        );
+                        self.next_val = Some(val);
+                        seed.deserialize(KeyDeserializer { key }).map(Some)
                     }
                     fn next_value_seed<VV>(
                         &mut self,
@@ -132,10 +143,192 @@ impl<'de> de::Deserializer<'de> for Deserializer {
         }
     }
 
+    fn deserialize_option<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        match self.value {
+            Value::Null => visitor.visit_none(),
+            _ => visitor.visit_some(self),
+        }
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    /// Enums are externally tagged: a string for a unit variant, else an object whose only key
+    /// is the variant
+    fn deserialize_enum<V>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        match self.value {
+            Value::String(s) => visitor.visit_enum(s.into_deserializer()),
+            Value::Object(mut entries) if entries.len() == 1 => {
+                let (variant, value) = entries.remove(0);
+                visitor.visit_enum(EnumDeserializer { variant, value })
+            }
+            _ => Err(de::Error::custom(
+                "expected a variant name or an object with a variant name as its only key",
+            )),
+        }
+    }
+
     serde::forward_to_deserialize_any! {
         bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf
-        option unit unit_struct newtype_struct seq tuple tuple_struct map struct
-        enum identifier ignored_any
+        unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
+    }
+}
+
+struct EnumDeserializer {
+    variant: String,
+    value: Value,
+}
+
+impl<'de> de::EnumAccess<'de> for EnumDeserializer {
+    type Error = DeError;
+    type Variant = Deserializer;
+
+    fn variant_seed<V>(
+        self,
+        seed: V,
+    ) -> core::result::Result<(V::Value, Self::Variant), Self::Error>
+    where
+        V: de::DeserializeSeed<'de>,
+    {
+        let variant = seed.deserialize(KeyDeserializer { key: self.variant })?;
+        Ok((variant, Deserializer { value: self.value }))
+    }
+}
+
+impl<'de> de::VariantAccess<'de> for Deserializer {
+    type Error = DeError;
+
+    fn unit_variant(self) -> core::result::Result<(), Self::Error> {
+        de::Deserialize::deserialize(self)
+    }
+
+    fn newtype_variant_seed<T>(self, seed: T) -> core::result::Result<T::Value, Self::Error>
+    where
+        T: de::DeserializeSeed<'de>,
+    {
+        seed.deserialize(self)
+    }
+
+    fn tuple_variant<V>(
+        self,
+        _len: usize,
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        de::Deserializer::deserialize_any(self, visitor)
+    }
+
+    fn struct_variant<V>(
+        self,
+        _fields: &'static [&'static str],
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        de::Deserializer::deserialize_any(self, visitor)
+    }
+}
+
+/// Object keys are text: a key of another type is read from that text
+struct KeyDeserializer {
+    key: String,
+}
+
+macro_rules! deserialize_parsed_key {
+    ($($method:ident => $visit:ident),* $(,)?) => {$(
+        fn $method<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+        where
+            V: de::Visitor<'de>,
+        {
+            match self.key.parse() {
+                Ok(v) => visitor.$visit(v),
+                Err(_) => visitor.visit_string(self.key),
+            }
+        }
+    )*};
+}
+
+impl<'de> de::Deserializer<'de> for KeyDeserializer {
+    type Error = DeError;
+
+    fn deserialize_any<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_string(self.key)
+    }
+
+    deserialize_parsed_key! {
+        deserialize_bool => visit_bool,
+        deserialize_i8 => visit_i8,
+        deserialize_i16 => visit_i16,
+        deserialize_i32 => visit_i32,
+        deserialize_i64 => visit_i64,
+        deserialize_u8 => visit_u8,
+        deserialize_u16 => visit_u16,
+        deserialize_u32 => visit_u32,
+        deserialize_u64 => visit_u64,
+        deserialize_f32 => visit_f32,
+        deserialize_f64 => visit_f64,
+    }
+
+    fn deserialize_option<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        name: &'static str,
+        variants: &'static [&'static str],
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        self.key
+            .into_deserializer()
+            .deserialize_enum(name, variants, visitor)
+    }
+
+    serde::forward_to_deserialize_any! {
+        char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct
+        identifier ignored_any
     }
 }
 
-- 
2.43.0


From bba3b287b8020c282603e20dcaf0b5a159681862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 20/32] fix: non-finite floats in fields are null, as
 everywhere else

---
 crates/toon/src/ser/stream.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index dd9c653..c00e364 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1257,12 +1257,8 @@ impl<'a, 'de> Serializer for &'a mut ScalarSerializer<'de> {
     fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
         if v.is_finite() {
             self.out = Some(primitives::format_f64(v));
-        } else if v.is_nan() {
-            self.out = Some(primitives::escape_and_quote("NaN"));
-        } else if v.is_sign_positive() {
-            self.out = Some(primitives::escape_and_quote("Infinity"));
         } else {
-            self.out = Some(primitives::escape_and_quote("-Infinity"));
+            self.out = Some(primitives::format_null().to_string());
         }
         Ok(())
     }
-- 
2.43.0


From 5022f5ea4f8df0e3acc55d7fde482cd200a9c53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:24 +0000
Subject: [PATCH 21/32] fix: key folding no longer drops the fields of structs

---
 crates/toon/src/ser/stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index c00e364..47117ac 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -662,7 +662,7 @@ impl<'a, 'de> SerializeStruct for MapSer<'a, 'de> {
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        SerializeMap::end(self)
     }
 }
 
-- 
2.43.0


From d49a79e51de4a903aaba4c86f8c34f6d8f92002f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:52 +0000
Subject: [PATCH 22/32] fix: errors of a value's own serialization and compound
 map keys are errors, not nulls

---
 crates/toon/src/ser/mod.rs                 |  2 +-
 crates/toon/src/ser/stream.rs              | 32 ++++++++++++++--------
 crates/toon/src/ser/value_builder.rs       | 11 +++++---
 crates/toon/src/ser/value_builder_alloc.rs | 13 ++-------
 4 files changed, 31 insertions(+), 27 deletions(-)

diff --git a/crates/toon/src/ser/mod.rs b/crates/toon/src/ser/mod.rs
index a8f1be0..62af8e6 100644
--- a/crates/toon/src/ser/mod.rs
+++ b/crates/toon/src/ser/mod.rs
@@ -18,7 +18,7 @@ mod value_builder_alloc;
 // Non-streaming encoding via serde_json::Value is only available with "json"
 #[cfg(all(feature = "serde", feature = "json"))]
 pub fn to_string<T: Serialize>(value: &T, options: &Options) -> Result<String> {
-    let v = value_builder::to_value(value, options);
+    let v = value_builder::to_value(value, options)?;
     crate::encode::encode_value_to_string(&v, options)
 }
 
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 47117ac..dafe295 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -285,7 +285,8 @@ impl<'a, 'de> SerializeSeq for SeqSer<'a, 'de> {
     type Error = SerError;
 
     fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        let val = crate::ser::value_builder::to_value(value, self.parent.opts);
+        let val = crate::ser::value_builder::to_value(value, self.parent.opts)
+            .map_err(|e| SerError::custom(e.to_string()))?;
         self.items.push(val);
         Ok(())
     }
@@ -411,7 +412,8 @@ impl<'a, 'de> SerializeSeq for SeqSerAlloc<'a, 'de> {
     type Error = SerError;
 
     fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        let v = crate::ser::value_builder_alloc::to_value(value, self.parent.opts);
+        let v = crate::ser::value_builder_alloc::to_value(value, self.parent.opts)
+            .map_err(|e| SerError::custom(e.to_string()))?;
         self.items.push(v);
         Ok(())
     }
@@ -550,7 +552,8 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
         // When key folding is enabled, buffer entries for collision detection
         #[cfg(feature = "json")]
         if self.parent.opts.key_folding == crate::options::KeyFolding::Safe {
-            let val = crate::ser::value_builder::to_value(value, self.parent.opts);
+            let val = crate::ser::value_builder::to_value(value, self.parent.opts)
+                .map_err(|e| SerError::custom(e.to_string()))?;
             if self.buffered.is_none() {
                 self.buffered = Some(Vec::new());
             }
@@ -571,7 +574,8 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
         // Try to serialize to Value to detect arrays
         #[cfg(feature = "json")]
         {
-            let val = crate::ser::value_builder::to_value(value, self.parent.opts);
+            let val = crate::ser::value_builder::to_value(value, self.parent.opts)
+                .map_err(|e| SerError::custom(e.to_string()))?;
             if let Value::Array(items) = val {
                 // Use spec-compliant keyed array encoding
                 encode_keyed_array_json(
@@ -599,7 +603,8 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
 
         #[cfg(not(feature = "json"))]
         {
-            let val = crate::ser::value_builder_alloc::to_value(value, self.parent.opts);
+            let val = crate::ser::value_builder_alloc::to_value(value, self.parent.opts)
+                .map_err(|e| SerError::custom(e.to_string()))?;
             if let IValue::Array(items) = val {
                 // Use spec-compliant keyed array encoding
                 encode_keyed_array_alloc(
@@ -1415,11 +1420,14 @@ impl Serializer for &mut KeySerializer {
         Ok(())
     }
     fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(primitives::format_f64(v as f64));
-        Ok(())
+        self.serialize_f64(v as f64)
     }
     fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(primitives::format_f64(v));
+        self.out = Some(if v.is_finite() {
+            primitives::format_f64(v)
+        } else {
+            primitives::format_null().into()
+        });
         Ok(())
     }
     fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
@@ -1437,8 +1445,8 @@ impl Serializer for &mut KeySerializer {
         self.out = Some("null".into());
         Ok(())
     }
-    fn serialize_some<T: ?Sized + Serialize>(self, _value: &T) -> Result<Self::Ok, Self::Error> {
-        Err(SerError::custom("invalid key"))
+    fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
+        value.serialize(self)
     }
     fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
         self.out = Some("null".into());
@@ -1458,9 +1466,9 @@ impl Serializer for &mut KeySerializer {
     fn serialize_newtype_struct<T: ?Sized + Serialize>(
         self,
         _name: &'static str,
-        _value: &T,
+        value: &T,
     ) -> Result<Self::Ok, Self::Error> {
-        Err(SerError::custom("invalid key"))
+        value.serialize(self)
     }
     fn serialize_newtype_variant<T: ?Sized + Serialize>(
         self,
diff --git a/crates/toon/src/ser/value_builder.rs b/crates/toon/src/ser/value_builder.rs
index 32e4475..87afe3c 100644
--- a/crates/toon/src/ser/value_builder.rs
+++ b/crates/toon/src/ser/value_builder.rs
@@ -30,9 +30,12 @@ use serde_json::{Map, Number, Value};
 
 use crate::options::Options;
 
-pub fn to_value<T: Serialize + ?Sized>(value: &T, _options: &Options) -> Value {
+pub fn to_value<T: Serialize + ?Sized>(
+    value: &T,
+    _options: &Options,
+) -> Result<Value, serde_json::Error> {
     let mut ser = ValueSerializer;
-    value.serialize(&mut ser).unwrap_or(Value::Null)
+    value.serialize(&mut ser)
 }
 
 struct ValueSerializer;
@@ -264,7 +267,7 @@ impl SerializeMap for MapSerializer {
         let v = key.serialize(&mut ser)?;
         let s = match v {
             Value::String(s) => s,
-            Value::Number(n) => n.to_string(),
+            Value::Number(n) => crate::encode::encoders::format_number(&n),
             Value::Bool(b) => {
                 if b {
                     "true".into()
@@ -273,7 +276,7 @@ impl SerializeMap for MapSerializer {
                 }
             }
             Value::Null => "null".into(),
-            other => other.to_string(),
+            _ => return Err(Error::custom("invalid key")),
         };
         self.next_key = Some(s);
         Ok(())
diff --git a/crates/toon/src/ser/value_builder_alloc.rs b/crates/toon/src/ser/value_builder_alloc.rs
index 443942a..f8a7f55 100644
--- a/crates/toon/src/ser/value_builder_alloc.rs
+++ b/crates/toon/src/ser/value_builder_alloc.rs
@@ -1,6 +1,5 @@
 #[cfg(not(feature = "std"))]
 use alloc::{
-    format,
     string::{String, ToString},
     vec::Vec,
 };
@@ -11,9 +10,9 @@ use serde::ser::*;
 use crate::options::Options;
 use crate::value::{Number, Value};
 
-pub fn to_value<T: Serialize + ?Sized>(value: &T, _options: &Options) -> Value {
+pub fn to_value<T: Serialize + ?Sized>(value: &T, _options: &Options) -> Result<Value, BuildError> {
     let mut ser = ValueSerializer;
-    value.serialize(&mut ser).unwrap_or(Value::Null)
+    value.serialize(&mut ser)
 }
 
 struct ValueSerializer;
@@ -264,13 +263,7 @@ impl SerializeMap for MapSerializer {
                 }
             }
             Value::Null => "null".into(),
-            other => format!(
-                "{}",
-                match other {
-                    Value::String(s) => s,
-                    _ => String::new(),
-                }
-            ),
+            _ => return Err(BuildError),
         };
         self.next_key = Some(s);
         Ok(())
-- 
2.43.0


From 3131a59ea9240379b481b132e954cbe5c368e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 23/32] fix: enum variants with data encode as an object keyed
 by the variant, like every other object

---
 crates/toon/src/ser/stream.rs              | 136 ++++++++++-----------
 crates/toon/src/ser/value_builder.rs       |  43 +++++--
 crates/toon/src/ser/value_builder_alloc.rs |  43 +++++--
 3 files changed, 132 insertions(+), 90 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index dafe295..b9c1ca2 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -6,6 +6,10 @@ use serde_json::Value;
 
 use crate::encode::{primitives, writer::LineWriter};
 use crate::options::Options;
+#[cfg(feature = "json")]
+use crate::ser::value_builder as builder;
+#[cfg(not(feature = "json"))]
+use crate::ser::value_builder_alloc as builder;
 #[cfg(not(feature = "json"))]
 use crate::value::Value as IValue;
 
@@ -59,12 +63,15 @@ struct StreamingSerializer<'a> {
 }
 
 impl<'a> StreamingSerializer<'a> {
-    fn with_indent<'b>(&'b mut self, indent: usize) -> StreamingSerializer<'b> {
-        StreamingSerializer {
-            w: self.w,
-            opts: self.opts,
-            indent,
-        }
+    #[cfg(feature = "json")]
+    fn encode_built_value(&mut self, v: &Value) -> Result<(), SerError> {
+        crate::encode::encoders::encode_value(v, self.w, self.opts, self.indent)
+            .map_err(|e| SerError::custom(e.to_string()))
+    }
+
+    #[cfg(not(feature = "json"))]
+    fn encode_built_value(&mut self, v: &IValue) -> Result<(), SerError> {
+        encode_internal_value_alloc(v, self.w, self.opts, self.indent)
     }
 }
 
@@ -87,14 +94,11 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
     #[cfg(not(feature = "json"))]
     type SerializeTupleStruct = SeqSerAlloc<'a, 'de>;
 
-    #[cfg(feature = "json")]
-    type SerializeTupleVariant = SeqSer<'a, 'de>;
-    #[cfg(not(feature = "json"))]
-    type SerializeTupleVariant = SeqSerAlloc<'a, 'de>;
+    type SerializeTupleVariant = VariantSer<'a, 'de, builder::TupleVariantSerializer>;
 
     type SerializeMap = MapSer<'a, 'de>;
     type SerializeStruct = MapSer<'a, 'de>;
-    type SerializeStructVariant = MapSer<'a, 'de>;
+    type SerializeStructVariant = VariantSer<'a, 'de, builder::StructVariantSerializer>;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error> {
         self.w.line(self.indent, primitives::format_bool(v));
@@ -194,12 +198,9 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
         variant: &'static str,
         value: &T,
     ) -> Result<Self::Ok, Self::Error> {
-        self.w.line_key_only(
-            self.indent,
-            &primitives::format_string(variant, self.opts.delimiter),
-        );
-        let mut child = self.with_indent(self.indent + self.opts.indent);
-        value.serialize(&mut child)
+        let mut map = self.serialize_map(Some(1))?;
+        SerializeMap::serialize_entry(&mut map, variant, value)?;
+        SerializeMap::end(map)
     }
     fn serialize_seq(self, _len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
         #[cfg(feature = "json")]
@@ -232,9 +233,12 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
         _name: &'static str,
         _variant_index: u32,
         variant: &'static str,
-        len: usize,
+        _len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        self.serialize_tuple_struct(variant, len)
+        Ok(VariantSer {
+            parent: self,
+            inner: builder::TupleVariantSerializer::new(variant),
+        })
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         Ok(MapSer {
@@ -259,20 +263,54 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
-        self.w.line_key_only(
-            self.indent,
-            &primitives::format_string(variant, self.opts.delimiter),
-        );
-        Ok(MapSer {
+        Ok(VariantSer {
             parent: self,
-            next_key: None,
-            entry_count: 0,
-            #[cfg(feature = "json")]
-            buffered: None,
+            inner: builder::StructVariantSerializer::new(variant),
         })
     }
 }
 
+/// Builds the value of a tuple or struct variant, an object with the variant as its only key,
+/// and encodes it once complete
+struct VariantSer<'a, 'de, S> {
+    parent: &'a mut StreamingSerializer<'de>,
+    inner: S,
+}
+
+impl<'a, 'de> SerializeTupleVariant for VariantSer<'a, 'de, builder::TupleVariantSerializer> {
+    type Ok = ();
+    type Error = SerError;
+
+    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
+        SerializeTupleVariant::serialize_field(&mut self.inner, value)
+            .map_err(|e| SerError::custom(e.to_string()))
+    }
+    fn end(self) -> Result<Self::Ok, Self::Error> {
+        let v =
+            SerializeTupleVariant::end(self.inner).map_err(|e| SerError::custom(e.to_string()))?;
+        self.parent.encode_built_value(&v)
+    }
+}
+
+impl<'a, 'de> SerializeStructVariant for VariantSer<'a, 'de, builder::StructVariantSerializer> {
+    type Ok = ();
+    type Error = SerError;
+
+    fn serialize_field<T: ?Sized + Serialize>(
+        &mut self,
+        key: &'static str,
+        value: &T,
+    ) -> Result<(), Self::Error> {
+        SerializeStructVariant::serialize_field(&mut self.inner, key, value)
+            .map_err(|e| SerError::custom(e.to_string()))
+    }
+    fn end(self) -> Result<Self::Ok, Self::Error> {
+        let v =
+            SerializeStructVariant::end(self.inner).map_err(|e| SerError::custom(e.to_string()))?;
+        self.parent.encode_built_value(&v)
+    }
+}
+
 #[cfg(feature = "json")]
 struct SeqSer<'a, 'de> {
     parent: &'a mut StreamingSerializer<'de>,
@@ -387,19 +425,6 @@ impl<'a, 'de> SerializeTupleStruct for SeqSer<'a, 'de> {
     }
 }
 
-#[cfg(feature = "json")]
-impl<'a, 'de> SerializeTupleVariant for SeqSer<'a, 'de> {
-    type Ok = ();
-    type Error = SerError;
-
-    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        SerializeSeq::serialize_element(self, value)
-    }
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        SerializeSeq::end(self)
-    }
-}
-
 #[cfg(not(feature = "json"))]
 struct SeqSerAlloc<'a, 'de> {
     parent: &'a mut StreamingSerializer<'de>,
@@ -515,18 +540,6 @@ impl<'a, 'de> SerializeTupleStruct for SeqSerAlloc<'a, 'de> {
     }
 }
 
-#[cfg(not(feature = "json"))]
-impl<'a, 'de> SerializeTupleVariant for SeqSerAlloc<'a, 'de> {
-    type Ok = ();
-    type Error = SerError;
-    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        SerializeSeq::serialize_element(self, value)
-    }
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
-    }
-}
-
 struct MapSer<'a, 'de> {
     parent: &'a mut StreamingSerializer<'de>,
     next_key: Option<String>,
@@ -671,23 +684,6 @@ impl<'a, 'de> SerializeStruct for MapSer<'a, 'de> {
     }
 }
 
-impl<'a, 'de> SerializeStructVariant for MapSer<'a, 'de> {
-    type Ok = ();
-    type Error = SerError;
-
-    fn serialize_field<T: ?Sized + Serialize>(
-        &mut self,
-        key: &'static str,
-        value: &T,
-    ) -> Result<(), Self::Error> {
-        SerializeStruct::serialize_field(self, key, value)
-    }
-
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        SerializeStruct::end(self)
-    }
-}
-
 fn join_with_delim(cells: &[String], dch: char) -> String {
     cells.join(&dch.to_string())
 }
diff --git a/crates/toon/src/ser/value_builder.rs b/crates/toon/src/ser/value_builder.rs
index 87afe3c..ef565a5 100644
--- a/crates/toon/src/ser/value_builder.rs
+++ b/crates/toon/src/ser/value_builder.rs
@@ -3,6 +3,15 @@ pub struct StructVariantSerializer {
     name: String,
 }
 
+impl StructVariantSerializer {
+    pub fn new(variant: &str) -> Self {
+        Self {
+            map: Map::new(),
+            name: variant.to_string(),
+        }
+    }
+}
+
 impl SerializeStructVariant for StructVariantSerializer {
     type Ok = Value;
     type Error = serde_json::Error;
@@ -46,7 +55,7 @@ impl Serializer for &mut ValueSerializer {
     type SerializeSeq = SeqSerializer;
     type SerializeTuple = SeqSerializer;
     type SerializeTupleStruct = SeqSerializer;
-    type SerializeTupleVariant = SeqSerializer;
+    type SerializeTupleVariant = TupleVariantSerializer;
     type SerializeMap = MapSerializer;
     type SerializeStruct = MapSerializer;
     type SerializeStructVariant = StructVariantSerializer;
@@ -163,10 +172,10 @@ impl Serializer for &mut ValueSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Ok(SeqSerializer { elems: Vec::new() })
+        Ok(TupleVariantSerializer::new(variant))
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         Ok(MapSerializer {
@@ -191,10 +200,7 @@ impl Serializer for &mut ValueSerializer {
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
-        Ok(StructVariantSerializer {
-            map: Map::new(),
-            name: variant.to_string(),
-        })
+        Ok(StructVariantSerializer::new(variant))
     }
 }
 
@@ -241,15 +247,32 @@ impl SerializeTupleStruct for SeqSerializer {
     }
 }
 
-impl SerializeTupleVariant for SeqSerializer {
+pub struct TupleVariantSerializer {
+    elems: Vec<Value>,
+    name: String,
+}
+
+impl TupleVariantSerializer {
+    pub fn new(variant: &str) -> Self {
+        Self {
+            elems: Vec::new(),
+            name: variant.to_string(),
+        }
+    }
+}
+
+impl SerializeTupleVariant for TupleVariantSerializer {
     type Ok = Value;
     type Error = serde_json::Error;
 
     fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        SerializeSeq::serialize_element(self, value)
+        self.elems.push(value.serialize(&mut ValueSerializer)?);
+        Ok(())
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(Value::Array(self.elems))
+        let mut map = Map::new();
+        map.insert(self.name, Value::Array(self.elems));
+        Ok(Value::Object(map))
     }
 }
 
diff --git a/crates/toon/src/ser/value_builder_alloc.rs b/crates/toon/src/ser/value_builder_alloc.rs
index f8a7f55..0f300d8 100644
--- a/crates/toon/src/ser/value_builder_alloc.rs
+++ b/crates/toon/src/ser/value_builder_alloc.rs
@@ -37,7 +37,7 @@ impl Serializer for &mut ValueSerializer {
     type SerializeSeq = SeqSerializer;
     type SerializeTuple = SeqSerializer;
     type SerializeTupleStruct = SeqSerializer;
-    type SerializeTupleVariant = SeqSerializer;
+    type SerializeTupleVariant = TupleVariantSerializer;
     type SerializeMap = MapSerializer;
     type SerializeStruct = MapSerializer;
     type SerializeStructVariant = StructVariantSerializer;
@@ -150,10 +150,10 @@ impl Serializer for &mut ValueSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Ok(SeqSerializer { elems: Vec::new() })
+        Ok(TupleVariantSerializer::new(variant))
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         Ok(MapSerializer {
@@ -178,10 +178,7 @@ impl Serializer for &mut ValueSerializer {
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
-        Ok(StructVariantSerializer {
-            map: Vec::new(),
-            name: variant.to_string(),
-        })
+        Ok(StructVariantSerializer::new(variant))
     }
 }
 
@@ -228,15 +225,32 @@ impl SerializeTupleStruct for SeqSerializer {
     }
 }
 
-impl SerializeTupleVariant for SeqSerializer {
+pub struct TupleVariantSerializer {
+    elems: Vec<Value>,
+    name: String,
+}
+
+impl TupleVariantSerializer {
+    pub fn new(variant: &str) -> Self {
+        Self {
+            elems: Vec::new(),
+            name: variant.to_string(),
+        }
+    }
+}
+
+impl SerializeTupleVariant for TupleVariantSerializer {
     type Ok = Value;
     type Error = BuildError;
 
     fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        SerializeSeq::serialize_element(self, value)
+        self.elems.push(value.serialize(&mut ValueSerializer)?);
+        Ok(())
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(Value::Array(self.elems))
+        let mut map = Vec::new();
+        map.push((self.name, Value::Array(self.elems)));
+        Ok(Value::Object(map))
     }
 }
 
@@ -305,6 +319,15 @@ pub struct StructVariantSerializer {
     name: String,
 }
 
+impl StructVariantSerializer {
+    pub fn new(variant: &str) -> Self {
+        Self {
+            map: Vec::new(),
+            name: variant.to_string(),
+        }
+    }
+}
+
 impl SerializeStructVariant for StructVariantSerializer {
     type Ok = Value;
     type Error = BuildError;
-- 
2.43.0


From ce5eaf6248e75bbdd2da68d541355c0d242734ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:01 +0000
Subject: [PATCH 24/32] fix: the alloc build encodes tuples and tuple structs
 instead of nothing

---
 crates/toon/src/ser/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index b9c1ca2..fb94ffd 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -524,7 +524,7 @@ impl<'a, 'de> SerializeTuple for SeqSerAlloc<'a, 'de> {
         SerializeSeq::serialize_element(self, value)
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        SerializeSeq::end(self)
     }
 }
 
@@ -536,7 +536,7 @@ impl<'a, 'de> SerializeTupleStruct for SeqSerAlloc<'a, 'de> {
         SerializeSeq::serialize_element(self, value)
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        SerializeSeq::end(self)
     }
 }
 
-- 
2.43.0


From 403eb1eee0e9d2f0cc5c0d4ac8f804fda26aa763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 25/32] fix: the alloc build keeps the column order of the
 first row

---
 crates/toon/src/ser/stream.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index fb94ffd..b9a9682 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1100,6 +1100,8 @@ fn is_tabular_array_alloc(arr: &[IValue]) -> Option<Vec<String>> {
     if arr.is_empty() {
         return None;
     }
+    // The columns take the order of the first object; which keys there are is compared sorted
+    let mut columns: Vec<String> = Vec::new();
     let mut keys: Option<Vec<String>> = None;
     for v in arr {
         let obj = match v {
@@ -1107,6 +1109,9 @@ fn is_tabular_array_alloc(arr: &[IValue]) -> Option<Vec<String>> {
             _ => return None,
         };
         let mut kset: Vec<String> = obj.iter().map(|(k, _)| k.clone()).collect();
+        if keys.is_none() {
+            columns = kset.clone();
+        }
         kset.sort();
         if let Some(ref ks) = keys {
             if *ks != kset {
@@ -1125,7 +1130,7 @@ fn is_tabular_array_alloc(arr: &[IValue]) -> Option<Vec<String>> {
             }
         }
     }
-    keys
+    Some(columns)
 }
 
 #[cfg(not(feature = "json"))]
-- 
2.43.0


From 16f88a68927c4fc228a2483f62bc0b1515d063f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 26/32] fix: the alloc build writes headers and key quoting in
 nested objects too

---
 crates/toon/src/ser/stream.rs | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index b9a9682..5054a9f 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1154,27 +1154,14 @@ fn encode_internal_value_alloc(
             w.line(indent, &primitives::format_string(s, opts.delimiter));
         }
         IValue::Array(items) => {
-            for item in items {
-                if item.is_primitive() {
-                    match item {
-                        IValue::Null => w.line_list_item(indent, primitives::format_null()),
-                        IValue::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
-                        IValue::Number(n) => w.line_list_item(indent, &n.to_string()),
-                        IValue::String(s) => {
-                            w.line_list_item(indent, &primitives::format_string(s, opts.delimiter))
-                        }
-                        _ => {}
-                    }
-                } else {
-                    w.line(indent, "-");
-                    encode_internal_value_alloc(item, w, opts, indent + opts.indent)?;
-                }
-            }
+            encode_keyed_array_alloc("", items, w, opts, indent)?;
         }
         IValue::Object(pairs) => {
             for (k, val) in pairs {
-                let key = primitives::format_string(k, opts.delimiter);
-                if val.is_primitive() {
+                let key = primitives::format_key(k);
+                if let IValue::Array(items) = val {
+                    encode_keyed_array_alloc(&key, items, w, opts, indent)?;
+                } else if val.is_primitive() {
                     match val {
                         IValue::Null => w.line_kv(indent, &key, primitives::format_null()),
                         IValue::Bool(b) => w.line_kv(indent, &key, primitives::format_bool(*b)),
-- 
2.43.0


From e411fc360f546ffe8d97048ac57d6deb62fc8d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 27/32] fix: a bare value below a key on the hyphen line is an
 error, as below any other key

---
 crates/toon/src/decode/parser.rs | 40 +++++++++++++++++---------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index e0aa7dc..85a85a5 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -327,6 +327,8 @@ impl<'a> Parser<'a> {
                     if vraw.is_empty() {
                         // Value on following lines, indented deeper than the sibling fields;
                         // without any it is an empty object, as for other keys
+                        self.skip_blanks();
+                        self.check_bare_scalar(child_indent + 1);
                         let v = match self.parse_node(child_indent + 1) {
                             Value::Null => Value::Object(Vec::new()),
                             v => v,
@@ -377,6 +379,24 @@ impl<'a> Parser<'a> {
         }
     }
 
+    /// A bare scalar below "key:", at `min_indent` or deeper, is an error: scalars in object
+    /// context must have a key
+    fn check_bare_scalar(&mut self, min_indent: usize) {
+        if let Some(nl) = self.peek() {
+            if nl.indent >= min_indent {
+                if let LineKind::Scalar(s) = &nl.kind {
+                    // Only error if it's a plain scalar, not a header line
+                    if !s.starts_with('@') && !s.starts_with('[') && self.error.is_none() {
+                        self.error = Some(crate::error::Error::Syntax {
+                            line: self.idx + 1,
+                            message: "missing colon in key-value context".to_string(),
+                        });
+                    }
+                }
+            }
+        }
+    }
+
     fn parse_object(&mut self, indent: usize) -> Value {
         let mut map: Vec<(String, Value)> = Vec::new();
         loop {
@@ -617,25 +637,7 @@ impl<'a> Parser<'a> {
                     }
                     if !handled {
                         self.skip_blanks();
-                        // Check for bare scalar after key: - this is an error
-                        // (scalars in object context must have a key)
-                        if let Some(nl) = self.peek() {
-                            if nl.indent > indent {
-                                if let LineKind::Scalar(s) = &nl.kind {
-                                    // Only error if it's a plain scalar, not a header line
-                                    if !s.starts_with('@')
-                                        && !s.starts_with('[')
-                                        && self.error.is_none()
-                                    {
-                                        self.error = Some(crate::error::Error::Syntax {
-                                            line: self.idx + 1,
-                                            message: "missing colon in key-value context"
-                                                .to_string(),
-                                        });
-                                    }
-                                }
-                            }
-                        }
+                        self.check_bare_scalar(indent + 1);
                         let v = self.parse_node(child_indent);
                         // If key: has no children, produce empty object instead of null
                         if matches!(v, Value::Null) {
-- 
2.43.0


From d91e9f2e44471e30a739d3a99b2e5154dd622ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:53 +0000
Subject: [PATCH 28/32] fix: a huge indent option does not overflow while
 decoding

---
 crates/toon/src/decode/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 85a85a5..31ffb2a 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -62,7 +62,8 @@ impl<'a> Parser<'a> {
         self.indent_size = if indent_size == 0 {
             DEFAULT_INDENT
         } else {
-            indent_size
+            // No line is this long; a few such levels can be added up without overflow
+            indent_size.min(usize::MAX / 64)
         };
         self
     }
-- 
2.43.0


From 524828bd814648a92ec8d0a21f368874fa0c6de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 29/32] fix: the alloc build writes present options and
 newtypes in fields on the key's line

---
 crates/toon/src/ser/stream.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 5054a9f..4e5fa7f 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1273,8 +1273,8 @@ impl<'a, 'de> Serializer for &'a mut ScalarSerializer<'de> {
         self.out = Some(primitives::format_null().to_string());
         Ok(())
     }
-    fn serialize_some<T: ?Sized + Serialize>(self, _value: &T) -> Result<Self::Ok, Self::Error> {
-        Err(SerError::custom("non-scalar"))
+    fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
+        value.serialize(self)
     }
     fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
         self.out = Some(primitives::format_null().to_string());
@@ -1294,9 +1294,9 @@ impl<'a, 'de> Serializer for &'a mut ScalarSerializer<'de> {
     fn serialize_newtype_struct<T: ?Sized + Serialize>(
         self,
         _name: &'static str,
-        _value: &T,
+        value: &T,
     ) -> Result<Self::Ok, Self::Error> {
-        Err(SerError::custom("non-scalar"))
+        value.serialize(self)
     }
     fn serialize_newtype_variant<T: ?Sized + Serialize>(
         self,
-- 
2.43.0


From 9bde730bc151533a289ef9742b58ab5dffa5b3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 30/32] fix: reject pipe-separated columns in a header that
 declares tabs

---
 crates/toon/src/decode/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 31ffb2a..043b150 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1329,8 +1329,8 @@ fn check_delimiter_mismatch(s: &str, declared: char) -> bool {
             (tab_count > 0 || pipe_count > 0) && comma_count == 0
         }
         '\t' => {
-            // If comma appears and tab doesn't, it's a mismatch
-            comma_count > 0 && tab_count == 0
+            // If comma or pipe appears and tab doesn't, it's a mismatch
+            (comma_count > 0 || pipe_count > 0) && tab_count == 0
         }
         '|' => {
             // If comma or tab appears and pipe doesn't, it's a mismatch
-- 
2.43.0


From 2da4042164a409415eb5d258e0635919e10bd2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 31/32] fix: the direct deserializer lost options, enums,
 nested tables and the checks of counts and indentation

---
 crates/toon/src/de/direct.rs     | 1221 +++++++++---------------------
 crates/toon/src/decode/parser.rs |   26 +-
 2 files changed, 385 insertions(+), 862 deletions(-)

diff --git a/crates/toon/src/de/direct.rs b/crates/toon/src/de/direct.rs
index 6352ade..716a6cd 100644
--- a/crates/toon/src/de/direct.rs
+++ b/crates/toon/src/de/direct.rs
@@ -1,329 +1,390 @@
+//! Deserializer over the scanner's lines, without an internal value of the whole document.
+//!
+//! It reads the regular forms: objects, lists and tables indented one level at a time, without
+//! blank lines. Any other document, and any that is in error, is left to the general decoder.
+
 #[cfg(not(feature = "std"))]
 use alloc::{
-    format,
+    boxed::Box,
     string::{String, ToString},
     vec::Vec,
 };
 
 #[cfg(feature = "std")]
 use std::{
-    format,
+    boxed::Box,
     string::{String, ToString},
     vec::Vec,
 };
 
-use serde::de::{self, DeserializeOwned, IntoDeserializer, MapAccess, SeqAccess};
+use serde::de::{self, DeserializeOwned, MapAccess, SeqAccess};
 
+pub use super::DeError;
+use super::{Deserializer, KeyDeserializer};
+use crate::decode::parser::{
+    ArrayHeader, is_array_header_line, parse_array_header, parse_key, parse_token,
+    split_delim_aware, split_kv_quote_aware,
+};
 use crate::decode::scanner::{LineKind, ParsedLine, scan};
-use crate::{Result, error::Error as ToONError, options::Options};
+use crate::value::Value;
+use crate::{
+    Result,
+    options::{ExpandPaths, Options},
+};
 
-#[derive(Debug)]
-pub struct DeError {
-    msg: String,
-}
-impl core::fmt::Display for DeError {
-    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-        f.write_str(&self.msg)
-    }
-}
-impl de::Error for DeError {
-    fn custom<T: core::fmt::Display>(t: T) -> Self {
-        DeError { msg: t.to_string() }
+pub fn from_str<T: DeserializeOwned>(s: &str, options: &Options) -> Result<T> {
+    match try_from_str(s, options) {
+        Some(v) => Ok(v),
+        None => super::from_str_via_internal_value(s, options),
     }
 }
-impl core::error::Error for DeError {}
 
-pub fn from_str<T: DeserializeOwned>(s: &str, options: &Options) -> Result<T> {
+fn try_from_str<T: DeserializeOwned>(s: &str, options: &Options) -> Option<T> {
+    if options.expand_paths != ExpandPaths::Off || options.indent == 0 {
+        return None;
+    }
     let lines = scan(s);
-    if options.strict {
-        // Collect raw lines for tab detection
-        let raw_lines: Vec<&str> = s.lines().collect();
-        if let Err(e) = crate::decode::validation::validate_indentation_with_size(
-            &lines,
-            &raw_lines,
-            options.indent,
-        ) {
-            return Err(ToONError::Syntax {
-                line: e.line,
-                message: e.message,
-            });
-        }
+    if lines.iter().any(|l| matches!(l.kind, LineKind::Blank)) {
+        return None;
     }
+    let raw_lines: Vec<&str> = s.lines().collect();
+    crate::decode::validation::validate_indentation_with_size(&lines, &raw_lines, options.indent)
+        .ok()?;
     let mut de = DirectDeserializer {
         lines,
         idx: 0,
-        strict: options.strict,
+        // No line is this long; a few such levels can be added up without overflow
+        step: options.indent.min(usize::MAX / 64),
     };
-    T::deserialize(&mut de).map_err(|e: DeError| ToONError::Message(e.msg))
+    let root = de.root()?;
+    let value = T::deserialize(Node {
+        de: &mut de,
+        kind: root,
+    })
+    .ok()?;
+    // Every line belongs to the value
+    (de.idx == de.lines.len()).then_some(value)
 }
 
 struct DirectDeserializer<'a> {
     lines: Vec<ParsedLine<'a>>,
     idx: usize,
-    strict: bool,
+    step: usize,
+}
+
+/// What a value is, known before its lines are read
+enum Kind {
+    /// A value written on one line
+    Value(Value),
+    /// Fields at `indent`, after a field that was on a hyphen line
+    Object {
+        indent: usize,
+        first: Option<Box<(String, Kind)>>,
+    },
+    /// `len` items at `indent`
+    List { indent: usize, len: usize },
+    /// Rows at `indent`, or list items of rows
+    Table {
+        indent: usize,
+        header: ArrayHeader,
+        hyphens: bool,
+    },
+}
+
+fn unsupported() -> DeError {
+    de::Error::custom("left to the general decoder")
 }
 
 impl<'a> DirectDeserializer<'a> {
-    fn skip_blanks(&mut self) {
-        while let Some(pl) = self.lines.get(self.idx) {
-            if matches!(pl.kind, LineKind::Blank) {
-                self.idx += 1;
-            } else {
-                break;
-            }
-        }
-    }
     fn peek(&self) -> Option<&ParsedLine<'a>> {
         self.lines.get(self.idx)
     }
-    fn next(&mut self) -> Option<&ParsedLine<'a>> {
-        let i = self.idx;
-        self.idx += 1;
-        self.lines.get(i)
-    }
 
-    fn parse_key(&self, k: &str) -> String {
-        if let Some(s) = unescape_json_string(k) {
-            return s;
+    fn root(&self) -> Option<Kind> {
+        let line = self.peek()?;
+        let key = match &line.kind {
+            LineKind::KeyValue { key, .. } | LineKind::KeyOnly { key } => *key,
+            _ => return None,
+        };
+        if line.indent != 0 || key.starts_with(['[', '{']) {
+            return None;
+        }
+        Some(Kind::Object {
+            indent: 0,
+            first: None,
+        })
+    }
+
+    /// The object below a line whose fields are at `indent`
+    fn object_below(&self, indent: usize) -> core::result::Result<Kind, DeError> {
+        if let Some(line) = self.peek().filter(|l| l.indent >= indent) {
+            let key = match &line.kind {
+                LineKind::KeyValue { key, .. } | LineKind::KeyOnly { key } => *key,
+                _ => return Err(unsupported()),
+            };
+            if line.indent != indent || key.starts_with(['[', '{']) {
+                return Err(unsupported());
+            }
+        }
+        Ok(Kind::Object {
+            indent,
+            first: None,
+        })
+    }
+
+    /// The array a header declares, its rows or items at `indent`
+    fn array_below(
+        &self,
+        header: ArrayHeader,
+        indent: usize,
+    ) -> core::result::Result<Kind, DeError> {
+        let inline = header.inline_values.as_deref().unwrap_or("");
+        if header.fields.is_some() {
+            if header.fields_delimiter_mismatch || !inline.is_empty() {
+                return Err(unsupported());
+            }
+            return Ok(Kind::Table {
+                indent,
+                header,
+                hyphens: false,
+            });
         }
-        let base = if let Some(idx) = k.find('[') {
-            &k[..idx]
+        if inline.is_empty() {
+            return Ok(Kind::List {
+                indent,
+                len: header.length,
+            });
+        }
+        let values = split_delim_aware(inline, header.delimiter)
+            .into_iter()
+            .map(parse_token)
+            .collect::<Option<Vec<Value>>>()
+            .filter(|v| v.len() == header.length);
+        values
+            .map(|v| Kind::Value(Value::Array(v)))
+            .ok_or_else(unsupported)
+    }
+
+    /// The next field of an object whose fields are at `indent`
+    fn field(&mut self, indent: usize) -> core::result::Result<Option<(String, Kind)>, DeError> {
+        let Some(line) = self.peek().filter(|l| l.indent == indent) else {
+            return Ok(None);
+        };
+        let (key, value) = match &line.kind {
+            LineKind::KeyValue { key, value } => (*key, Some(*value)),
+            LineKind::KeyOnly { key } => (*key, None),
+            _ => return Ok(None),
+        };
+        self.idx += 1;
+        let below = indent + self.step;
+        let header = if key.contains('[') || value.is_some_and(|v| v.contains('[')) {
+            let mut text = key.to_string();
+            text.push(':');
+            if let Some(v) = value {
+                text.push(' ');
+                text.push_str(v);
+            }
+            parse_array_header(&text)
         } else {
-            k
+            None
         };
-        base.to_string()
+        if let Some(header) = header {
+            let key = header.key.as_deref().and_then(parse_key);
+            let key = key.ok_or_else(unsupported)?;
+            return Ok(Some((key, self.array_below(header, below)?)));
+        }
+        let key = parse_key(key).ok_or_else(unsupported)?;
+        let kind = match value {
+            Some(v) => Kind::Value(parse_token(v).ok_or_else(unsupported)?),
+            None => self.object_below(below)?,
+        };
+        Ok(Some((key, kind)))
     }
 
-    fn classify_primitive(s: &str) -> Primitive {
-        if let Some(st) = unescape_json_string(s) {
-            return Primitive::Str(st);
-        }
-        match s {
-            "true" => return Primitive::Bool(true),
-            "false" => return Primitive::Bool(false),
-            "null" => return Primitive::Null,
-            _ => {}
-        }
-        let bs = s.as_bytes();
-        if !bs.is_empty() {
-            if bs[0] == b'-' {
-                if bs.len() > 1 && bs[1..].iter().all(|c| c.is_ascii_digit()) {
-                    if let Ok(i) = s.parse::<i64>() {
-                        return Primitive::I64(i);
+    /// The next item of a list whose items are at `indent`
+    fn item(&mut self, indent: usize) -> core::result::Result<Option<Kind>, DeError> {
+        let Some(line) = self.peek().filter(|l| l.indent == indent) else {
+            return Ok(None);
+        };
+        let LineKind::ListItem { value } = line.kind else {
+            return Ok(None);
+        };
+        self.idx += 1;
+        let siblings = indent + self.step;
+        let Some(text) = value else {
+            return self.object_below(siblings).map(Some);
+        };
+        let object = |key: &str, kind| {
+            let first = Box::new((parse_key(key).ok_or_else(unsupported)?, kind));
+            Ok(Some(Kind::Object {
+                indent: siblings,
+                first: Some(first),
+            }))
+        };
+        if is_array_header_line(text) || text.starts_with('[') {
+            if let Some(mut header) = parse_array_header(text) {
+                let Some(key) = header.key.take() else {
+                    return self.array_below(header, siblings).map(Some);
+                };
+                let kind = self.array_below(header, siblings + self.step)?;
+                // An older form has the rows as list items, level with the fields
+                let rows = self.peek().filter(|l| l.indent == siblings);
+                let hyphens = rows.is_some_and(|l| matches!(l.kind, LineKind::ListItem { .. }));
+                return match kind {
+                    Kind::Table { header, .. } if hyphens => {
+                        let kind = Kind::Table {
+                            indent: siblings,
+                            header,
+                            hyphens,
+                        };
+                        object(&key, kind)
                     }
-                }
-            } else if bs.iter().all(|c| c.is_ascii_digit()) {
-                if let Ok(u) = s.parse::<u64>() {
-                    return Primitive::U64(u);
-                }
+                    kind => object(&key, kind),
+                };
             }
         }
-        if let Ok(f) = s.parse::<f64>() {
-            return Primitive::F64(f);
+        if let Some((key, value)) = split_kv_quote_aware(text) {
+            let kind = if value.is_empty() {
+                self.object_below(siblings + self.step)?
+            } else {
+                Kind::Value(parse_token(value).ok_or_else(unsupported)?)
+            };
+            return object(key, kind);
+        }
+        Ok(Some(Kind::Value(
+            parse_token(text).ok_or_else(unsupported)?,
+        )))
+    }
+
+    /// The next row of a table
+    fn row(
+        &mut self,
+        indent: usize,
+        keys: &[String],
+        delimiter: char,
+        hyphens: bool,
+    ) -> core::result::Result<Option<Kind>, DeError> {
+        let Some(line) = self.peek().filter(|l| l.indent == indent) else {
+            return Ok(None);
+        };
+        let text = match line.kind {
+            LineKind::Scalar(s) if !hyphens => s,
+            LineKind::ListItem { value: Some(s) } if hyphens => s,
+            _ => return Ok(None),
+        };
+        self.idx += 1;
+        let cells = split_delim_aware(text, delimiter);
+        if cells.len() != keys.len() {
+            return Err(unsupported());
         }
-        Primitive::Str(s.to_string())
+        let row = keys
+            .iter()
+            .zip(cells)
+            .map(|(k, c)| Some((k.clone(), parse_token(c)?)))
+            .collect::<Option<Vec<_>>>();
+        Ok(Some(Kind::Value(Value::Object(
+            row.ok_or_else(unsupported)?,
+        ))))
     }
 }
 
-impl<'de, 'a> de::Deserializer<'de> for &mut DirectDeserializer<'a> {
+/// A value about to be read
+struct Node<'a, 'b> {
+    de: &'b mut DirectDeserializer<'a>,
+    kind: Kind,
+}
+
+impl<'de, 'a, 'b> de::Deserializer<'de> for Node<'a, 'b> {
     type Error = DeError;
 
     fn deserialize_any<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        self.skip_blanks();
-        let Some(pl) = self.peek() else {
-            return visitor.visit_unit();
-        };
-        let indent = pl.indent;
-        match &pl.kind {
-            LineKind::ListItem { .. } => {
-                // Root is an array
-                let mut sa = SeqDe { de: self, indent };
-                visitor.visit_seq(&mut sa)
-            }
-            LineKind::KeyValue { .. } | LineKind::KeyOnly { .. } => {
-                let mut ma = MapDe {
-                    de: self,
+        let de = self.de;
+        match self.kind {
+            Kind::Value(v) => Deserializer::from_value(v).deserialize_any(visitor),
+            Kind::Object { indent, first } => visitor.visit_map(MapDe {
+                de,
+                indent,
+                first,
+                pending: None,
+            }),
+            Kind::List { indent, len } => {
+                let mut seq = SeqDe { de, indent, len };
+                let value = visitor.visit_seq(&mut seq)?;
+                seq.end()?;
+                Ok(value)
+            }
+            Kind::Table {
+                indent,
+                header,
+                hyphens,
+            } => {
+                let fields = header.fields.unwrap_or_default();
+                let keys = fields.iter().map(|f| parse_key(f));
+                let mut rows = TableDe {
+                    de,
                     indent,
-                    pending: None,
+                    keys: keys.collect::<Option<_>>().ok_or_else(unsupported)?,
+                    delimiter: header.delimiter,
+                    hyphens,
+                    len: header.length,
                 };
-                visitor.visit_map(&mut ma)
-            }
-            LineKind::Scalar(s) => {
-                let tok = DirectDeserializer::classify_primitive(s);
-                PrimDe(tok).deserialize_any(visitor)
+                let value = visitor.visit_seq(&mut rows)?;
+                rows.end()?;
+                Ok(value)
             }
-            LineKind::Blank => visitor.visit_unit(),
         }
     }
 
-    serde::forward_to_deserialize_any! {
-        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf
-        option unit unit_struct newtype_struct seq tuple tuple_struct map struct
-        enum identifier ignored_any
-    }
-}
-
-enum Primitive {
-    Null,
-    Bool(bool),
-    I64(i64),
-    U64(u64),
-    F64(f64),
-    Str(String),
-}
-struct PrimDe(Primitive);
-impl<'de> de::Deserializer<'de> for PrimDe {
-    type Error = DeError;
-    fn deserialize_any<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    fn deserialize_option<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        match self.0 {
-            Primitive::Null => visitor.visit_unit(),
-            Primitive::Bool(b) => visitor.visit_bool(b),
-            Primitive::I64(i) => visitor.visit_i64(i),
-            Primitive::U64(u) => visitor.visit_u64(u),
-            Primitive::F64(f) => visitor.visit_f64(f),
-            Primitive::Str(s) => visitor.visit_string(s),
+        match self.kind {
+            Kind::Value(v) => Deserializer::from_value(v).deserialize_option(visitor),
+            _ => visitor.visit_some(self),
         }
     }
-    serde::forward_to_deserialize_any! {
-        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf
-        option unit unit_struct newtype_struct seq tuple tuple_struct map struct
-        enum identifier ignored_any
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
     }
-}
 
-struct SeqDe<'a, 'b> {
-    de: &'b mut DirectDeserializer<'a>,
-    indent: usize,
-}
-impl<'de, 'a, 'b> SeqAccess<'de> for SeqDe<'a, 'b> {
-    type Error = DeError;
-    fn next_element_seed<T>(
-        &mut self,
-        seed: T,
-    ) -> core::result::Result<Option<T::Value>, Self::Error>
+    fn deserialize_enum<V>(
+        self,
+        name: &'static str,
+        variants: &'static [&'static str],
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
     where
-        T: de::DeserializeSeed<'de>,
+        V: de::Visitor<'de>,
     {
-        self.de.skip_blanks();
-        // Snapshot to avoid borrowing across next()
-        let val_opt: Option<&str> = if let Some(pl) = self.de.peek() {
-            if pl.indent != self.indent {
-                return Ok(None);
-            }
-            match &pl.kind {
-                LineKind::ListItem { value } => *value,
-                _ => return Ok(None),
-            }
-        } else {
-            return Ok(None);
-        };
-        self.de.next();
-        if let Some(vs) = val_opt {
-            // 1) Inline primitive array item: "[N<delim?>]: v1<delim>..."
-            if vs.starts_with('[') {
-                if let Some((_n, dch, values_str)) = parse_inline_array_header(vs) {
-                    let toks = split_delim_aware(values_str, dch);
-                    let mut ia = InlineArraySeq {
-                        tokens: toks,
-                        idx: 0,
-                    };
-                    return seed
-                        .deserialize(de::value::SeqAccessDeserializer::new(&mut ia))
-                        .map(Some);
-                }
-            }
-            // 2) Object on hyphen line: variants
-            if let Some(colon) = find_unquoted_colon(vs) {
-                let (kraw, rest) = vs.split_at(colon);
-                let after = rest[1..].trim_start();
-                let siblings_indent = self.indent + 2;
-                // 2a) Tabular header on hyphen line: key[N]{fields}:
-                if after.is_empty() {
-                    if let Some((key, dch, header)) = try_parse_keyed_tabular_header(self.de, kraw)
-                    {
-                        let mut obj = HyphenObjectDe {
-                            de: self.de,
-                            first_key: Some(key),
-                            first_val: Some(HyphenFirstValue::TabularHeader { dch, header }),
-                            siblings_indent,
-                        };
-                        return seed
-                            .deserialize(de::value::MapAccessDeserializer::new(&mut obj))
-                            .map(Some);
-                    }
-                }
-                // 2b) Regular key: value or nested object
-                let key = self.de.parse_key(kraw);
-                // First field value can be scalar, inline array header, or nested object
-                let first_val = if after.is_empty() {
-                    HyphenFirstValue::NestedObject {
-                        child_indent: siblings_indent + 2,
-                    }
-                } else if after.starts_with('[') {
-                    if let Some((_n, dch, values_str)) = parse_inline_array_header(after) {
-                        HyphenFirstValue::InlineArray { dch, values_str }
-                    } else {
-                        HyphenFirstValue::Scalar(after)
-                    }
-                } else {
-                    HyphenFirstValue::Scalar(after)
-                };
-                let mut obj = HyphenObjectDe {
-                    de: self.de,
-                    first_key: Some(key),
-                    first_val: Some(first_val),
-                    siblings_indent,
-                };
-                return seed
-                    .deserialize(de::value::MapAccessDeserializer::new(&mut obj))
-                    .map(Some);
-            }
-            // 3) Fallback primitive value
-            let tok = DirectDeserializer::classify_primitive(vs);
-            let de = PrimDe(tok);
-            seed.deserialize(de).map(Some)
-        } else {
-            // "-" as empty object
-            let mut ma = MapDe {
-                de: self.de,
-                indent: self.indent + 2,
-                pending: None,
-            };
-            seed.deserialize(de::value::MapAccessDeserializer::new(&mut ma))
-                .map(Some)
+        match self.kind {
+            Kind::Value(v) => Deserializer::from_value(v).deserialize_enum(name, variants, visitor),
+            _ => Err(unsupported()),
         }
     }
+
+    serde::forward_to_deserialize_any! {
+        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf
+        unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
+    }
 }
 
 struct MapDe<'a, 'b> {
     de: &'b mut DirectDeserializer<'a>,
     indent: usize,
-    pending: Option<(String, ValueKind<'a>)>,
-}
-
-enum ValueKind<'a> {
-    Scalar(&'a str),
-    InlinePrimitiveArray {
-        dch: char,
-        values_str: &'a str,
-    },
-    NestedObject {
-        child_indent: usize,
-    },
-    Array {
-        child_indent: usize,
-    },
-    Tabular {
-        dch: char,
-        header: Vec<String>,
-        child_indent: usize,
-    },
+    first: Option<Box<(String, Kind)>>,
+    pending: Option<Kind>,
 }
 
 impl<'de, 'a, 'b> MapAccess<'de> for MapDe<'a, 'b> {
@@ -333,167 +394,48 @@ impl<'de, 'a, 'b> MapAccess<'de> for MapDe<'a, 'b> {
     where
         K: de::DeserializeSeed<'de>,
     {
-        self.de.skip_blanks();
-        // Snapshot key/value before advancing
-        let snapshot = if let Some(pl) = self.de.peek() {
-            if pl.indent != self.indent {
-                return Ok(None);
-            }
-            match &pl.kind {
-                LineKind::KeyValue { key, value } => (Some(*key), Some(*value)),
-                LineKind::KeyOnly { key } => (Some(*key), None),
-                _ => return Ok(None),
-            }
-        } else {
+        let field = match self.first.take() {
+            Some(first) => Some(*first),
+            None => self.de.field(self.indent)?,
+        };
+        let Some((key, kind)) = field else {
             return Ok(None);
         };
-        match snapshot {
-            (Some(kref), Some(vref)) => {
-                self.de.next();
-                let k = self.de.parse_key(kref);
-                // Inline primitive arrays as object field:
-                // Either value starts with header, or key contains [N<delim?>]
-                if vref.starts_with('[') {
-                    if let Some((_n, dch, values_str)) = parse_inline_array_header(vref) {
-                        self.pending = Some((
-                            k.clone(),
-                            ValueKind::InlinePrimitiveArray { dch, values_str },
-                        ));
-                        return seed.deserialize(k.into_deserializer()).map(Some);
-                    }
-                } else if kref.contains('[') {
-                    let dch = bracket_delim_from_key(kref).unwrap_or(',');
-                    self.pending = Some((
-                        k.clone(),
-                        ValueKind::InlinePrimitiveArray {
-                            dch,
-                            values_str: vref,
-                        },
-                    ));
-                    return seed.deserialize(k.into_deserializer()).map(Some);
-                }
-                self.pending = Some((k.clone(), ValueKind::Scalar(vref)));
-                seed.deserialize(k.into_deserializer()).map(Some)
-            }
-            (Some(kref), None) => {
-                self.de.next();
-                let k = self.de.parse_key(kref);
-                let child_indent = self.indent + 2;
-                self.de.skip_blanks();
-                // Distinguish keyed header vs nested object
-                let vkind = if kref.contains('[') {
-                    // Try keyed tabular header "key[N]{fields}:"
-                    if let Some((_key_again, dch, header)) =
-                        try_parse_keyed_tabular_header(self.de, kref)
-                    {
-                        ValueKind::Tabular {
-                            dch,
-                            header,
-                            child_indent,
-                        }
-                    } else {
-                        // key[N]: list array items under child indent
-                        ValueKind::Array { child_indent }
-                    }
-                } else {
-                    // Not header: decide between array, tabular header, or nested object
-                    match self.de.peek() {
-                        Some(next_line) if next_line.indent == child_indent => {
-                            match &next_line.kind {
-                                LineKind::ListItem { .. } => ValueKind::Array { child_indent },
-                                LineKind::Scalar(s) => {
-                                    if let Some((dch, hdr)) = parse_header(s) {
-                                        self.de.next();
-                                        let fields = split_delim_aware(hdr, dch)
-                                            .into_iter()
-                                            .map(|f| self.de.parse_key(f))
-                                            .collect::<Vec<_>>();
-                                        ValueKind::Tabular {
-                                            dch,
-                                            header: fields,
-                                            child_indent,
-                                        }
-                                    } else {
-                                        ValueKind::NestedObject { child_indent }
-                                    }
-                                }
-                                _ => ValueKind::NestedObject { child_indent },
-                            }
-                        }
-                        _ => ValueKind::NestedObject { child_indent },
-                    }
-                };
-                self.pending = Some((k.clone(), vkind));
-                seed.deserialize(k.into_deserializer()).map(Some)
-            }
-            _ => Ok(None),
-        }
+        self.pending = Some(kind);
+        seed.deserialize(KeyDeserializer { key }).map(Some)
     }
 
     fn next_value_seed<V>(&mut self, seed: V) -> core::result::Result<V::Value, Self::Error>
     where
         V: de::DeserializeSeed<'de>,
     {
-        let (_k, vk) = self.pending.take().ok_or_else(|| DeError {
-            msg: "value requested without key".into(),
-        })?;
-        match vk {
-            ValueKind::Scalar(s) => {
-                seed.deserialize(PrimDe(DirectDeserializer::classify_primitive(s)))
-            }
-            ValueKind::InlinePrimitiveArray { dch, values_str } => {
-                let toks = split_delim_aware(values_str, dch);
-                let mut ia = InlineArraySeq {
-                    tokens: toks,
-                    idx: 0,
-                };
-                seed.deserialize(de::value::SeqAccessDeserializer::new(&mut ia))
-            }
-            ValueKind::NestedObject { child_indent } => {
-                let mut ma = MapDe {
-                    de: self.de,
-                    indent: child_indent,
-                    pending: None,
-                };
-                seed.deserialize(de::value::MapAccessDeserializer::new(&mut ma))
-            }
-            ValueKind::Array { child_indent } => {
-                let mut sa = SeqDe {
-                    de: self.de,
-                    indent: child_indent,
-                };
-                seed.deserialize(de::value::SeqAccessDeserializer::new(&mut sa))
-            }
-            ValueKind::Tabular {
-                dch,
-                header,
-                child_indent,
-            } => {
-                let mut ta = TabularSeqDe {
-                    de: self.de,
-                    indent: child_indent,
-                    dch,
-                    header,
-                };
-                seed.deserialize(de::value::SeqAccessDeserializer::new(&mut ta))
-            }
-        }
+        let kind = self.pending.take().ok_or_else(unsupported)?;
+        seed.deserialize(Node {
+            de: &mut *self.de,
+            kind,
+        })
     }
 }
 
-struct TabularSeqDe<'a, 'b> {
+struct SeqDe<'a, 'b> {
     de: &'b mut DirectDeserializer<'a>,
     indent: usize,
-    dch: char,
-    header: Vec<String>,
+    /// Items the header declares that were not read yet
+    len: usize,
 }
 
-struct InlineArraySeq<'a> {
-    tokens: Vec<&'a str>,
-    idx: usize,
+impl SeqDe<'_, '_> {
+    fn end(&mut self) -> core::result::Result<(), DeError> {
+        match self.de.item(self.indent)? {
+            None if self.len == 0 => Ok(()),
+            _ => Err(unsupported()),
+        }
+    }
 }
-impl<'de, 'a> SeqAccess<'de> for InlineArraySeq<'a> {
+
+impl<'de, 'a, 'b> SeqAccess<'de> for SeqDe<'a, 'b> {
     type Error = DeError;
+
     fn next_element_seed<T>(
         &mut self,
         seed: T,
@@ -501,161 +443,42 @@ impl<'de, 'a> SeqAccess<'de> for InlineArraySeq<'a> {
     where
         T: de::DeserializeSeed<'de>,
     {
-        if self.idx >= self.tokens.len() {
+        let Some(kind) = self.de.item(self.indent)? else {
             return Ok(None);
-        }
-        let s = self.tokens[self.idx];
-        self.idx += 1;
-        let de = PrimDe(DirectDeserializer::classify_primitive(s));
-        seed.deserialize(de).map(Some)
+        };
+        self.len = self.len.checked_sub(1).ok_or_else(unsupported)?;
+        let de = &mut *self.de;
+        seed.deserialize(Node { de, kind }).map(Some)
     }
 }
 
-struct HyphenObjectDe<'a, 'b> {
+struct TableDe<'a, 'b> {
     de: &'b mut DirectDeserializer<'a>,
-    first_key: Option<String>,
-    first_val: Option<HyphenFirstValue<'a>>,
-    siblings_indent: usize,
-}
-
-enum HyphenFirstValue<'a> {
-    Scalar(&'a str),
-    InlineArray { dch: char, values_str: &'a str },
-    NestedObject { child_indent: usize },
-    Array { child_indent: usize },
-    TabularHeader { dch: char, header: Vec<String> },
+    indent: usize,
+    keys: Vec<String>,
+    delimiter: char,
+    hyphens: bool,
+    /// Rows the header declares that were not read yet
+    len: usize,
 }
 
-impl<'de, 'a, 'b> MapAccess<'de> for HyphenObjectDe<'a, 'b> {
-    type Error = DeError;
-    fn next_key_seed<K>(&mut self, seed: K) -> core::result::Result<Option<K::Value>, Self::Error>
-    where
-        K: de::DeserializeSeed<'de>,
-    {
-        if let Some(k) = self.first_key.take() {
-            return seed.deserialize(k.into_deserializer()).map(Some);
-        }
-        // After the first field, parse siblings at siblings_indent
-        self.de.skip_blanks();
-        let snapshot = if let Some(pl) = self.de.peek() {
-            if pl.indent != self.siblings_indent {
-                return Ok(None);
-            }
-            match &pl.kind {
-                LineKind::KeyValue { key, value } => (Some(*key), Some(*value)),
-                LineKind::KeyOnly { key } => (Some(*key), None),
-                _ => return Ok(None),
-            }
-        } else {
-            return Ok(None);
-        };
-        self.de.next();
-        let kref = snapshot.0.unwrap();
-        let k = self.de.parse_key(kref);
-        let pending = if let Some(vref) = snapshot.1 {
-            if vref.starts_with('[') {
-                if let Some((_n, dch, values_str)) = parse_inline_array_header(vref) {
-                    HyphenFirstValue::InlineArray { dch, values_str }
-                } else {
-                    HyphenFirstValue::Scalar(vref)
-                }
-            } else if kref.contains('[') {
-                let dch = bracket_delim_from_key(kref).unwrap_or(',');
-                HyphenFirstValue::InlineArray {
-                    dch,
-                    values_str: vref,
-                }
-            } else {
-                HyphenFirstValue::Scalar(vref)
-            }
-        } else {
-            let child_indent = self.siblings_indent + 2;
-            if kref.contains('[') {
-                if let Some((_key_again, dch, header)) =
-                    try_parse_keyed_tabular_header(self.de, kref)
-                {
-                    HyphenFirstValue::TabularHeader { dch, header }
-                } else {
-                    HyphenFirstValue::Array { child_indent }
-                }
-            } else {
-                let mut header_fields = None;
-                if let Some(nl) = self.de.peek() {
-                    if nl.indent == child_indent {
-                        if let LineKind::Scalar(s) = &nl.kind {
-                            if let Some((dch, hdr)) = parse_header(s) {
-                                self.de.next();
-                                let fields = split_delim_aware(hdr, dch)
-                                    .into_iter()
-                                    .map(|f| self.de.parse_key(f))
-                                    .collect();
-                                header_fields = Some((dch, fields));
-                            }
-                        }
-                    }
-                }
-                if let Some((dch, header)) = header_fields {
-                    HyphenFirstValue::TabularHeader { dch, header }
-                } else {
-                    HyphenFirstValue::NestedObject { child_indent }
-                }
-            }
-        };
-        self.first_val = Some(pending);
-        seed.deserialize(k.into_deserializer()).map(Some)
+impl TableDe<'_, '_> {
+    fn row(&mut self) -> core::result::Result<Option<Kind>, DeError> {
+        self.de
+            .row(self.indent, &self.keys, self.delimiter, self.hyphens)
     }
-    fn next_value_seed<V>(&mut self, seed: V) -> core::result::Result<V::Value, Self::Error>
-    where
-        V: de::DeserializeSeed<'de>,
-    {
-        if let Some(fv) = self.first_val.take() {
-            match fv {
-                HyphenFirstValue::Scalar(s) => {
-                    seed.deserialize(PrimDe(DirectDeserializer::classify_primitive(s)))
-                }
-                HyphenFirstValue::InlineArray { dch, values_str } => {
-                    let toks = split_delim_aware(values_str, dch);
-                    let mut ia = InlineArraySeq {
-                        tokens: toks,
-                        idx: 0,
-                    };
-                    seed.deserialize(de::value::SeqAccessDeserializer::new(&mut ia))
-                }
-                HyphenFirstValue::NestedObject { child_indent } => {
-                    let mut ma = MapDe {
-                        de: self.de,
-                        indent: child_indent,
-                        pending: None,
-                    };
-                    seed.deserialize(de::value::MapAccessDeserializer::new(&mut ma))
-                }
-                HyphenFirstValue::Array { child_indent } => {
-                    let mut sa = SeqDe {
-                        de: self.de,
-                        indent: child_indent,
-                    };
-                    seed.deserialize(de::value::SeqAccessDeserializer::new(&mut sa))
-                }
-                HyphenFirstValue::TabularHeader { dch, header } => {
-                    let mut ta = TabularSeqDe {
-                        de: self.de,
-                        indent: self.siblings_indent,
-                        dch,
-                        header,
-                    };
-                    seed.deserialize(de::value::SeqAccessDeserializer::new(&mut ta))
-                }
-            }
-        } else {
-            // Should not happen if next_key_seed is correct
-            Err(DeError {
-                msg: "value requested without pending field".into(),
-            })
+
+    fn end(&mut self) -> core::result::Result<(), DeError> {
+        match self.row()? {
+            None if self.len == 0 => Ok(()),
+            _ => Err(unsupported()),
         }
     }
 }
-impl<'de, 'a, 'b> SeqAccess<'de> for TabularSeqDe<'a, 'b> {
+
+impl<'de, 'a, 'b> SeqAccess<'de> for TableDe<'a, 'b> {
     type Error = DeError;
+
     fn next_element_seed<T>(
         &mut self,
         seed: T,
@@ -663,327 +486,11 @@ impl<'de, 'a, 'b> SeqAccess<'de> for TabularSeqDe<'a, 'b> {
     where
         T: de::DeserializeSeed<'de>,
     {
-        self.de.skip_blanks();
-        // Snapshot row string before advancing
-        let rs_opt: Option<&str> = if let Some(pl) = self.de.peek() {
-            if pl.indent != self.indent {
-                return Ok(None);
-            }
-            match &pl.kind {
-                LineKind::ListItem { value: Some(rs) } => Some(*rs),
-                _ => return Ok(None),
-            }
-        } else {
+        let Some(kind) = self.row()? else {
             return Ok(None);
         };
-        let row_line = self.de.idx + 1;
-        self.de.next();
-        let rs = rs_opt.unwrap();
-        let cells = split_delim_aware(rs, self.dch);
-        if self.de.strict && cells.len() != self.header.len() {
-            return Err(DeError {
-                msg: format!(
-                    "row cell count {} does not match header {} at line {}",
-                    cells.len(),
-                    self.header.len(),
-                    row_line
-                ),
-            });
-        }
-        let mut rma = RowMapDe {
-            header: &self.header,
-            cells,
-            idx: 0,
-        };
-        seed.deserialize(de::value::MapAccessDeserializer::new(&mut rma))
-            .map(Some)
-    }
-}
-
-struct RowMapDe<'h> {
-    header: &'h [String],
-    cells: Vec<&'h str>,
-    idx: usize,
-}
-impl<'de, 'h> MapAccess<'de> for RowMapDe<'h> {
-    type Error = DeError;
-    fn next_key_seed<K>(&mut self, seed: K) -> core::result::Result<Option<K::Value>, Self::Error>
-    where
-        K: de::DeserializeSeed<'de>,
-    {
-        if self.idx >= self.header.len() {
-            return Ok(None);
-        }
-        let key = &self.header[self.idx];
-        seed.deserialize(key.clone().into_deserializer()).map(Some)
-    }
-    fn next_value_seed<V>(&mut self, seed: V) -> core::result::Result<V::Value, Self::Error>
-    where
-        V: de::DeserializeSeed<'de>,
-    {
-        let i = self.idx;
-        self.idx += 1;
-        let s = self.cells.get(i).copied().unwrap_or("null");
-        seed.deserialize(PrimDe(DirectDeserializer::classify_primitive(s)))
-    }
-}
-
-fn parse_header(s: &str) -> Option<(char, &str)> {
-    let mut it = s.chars();
-    if it.next()? != '@' {
-        return None;
-    }
-    // Delimiters are single bytes: anything else is not a header
-    let dch = it.next().filter(char::is_ascii)?;
-    Some((dch, it.as_str().trim_start()))
-}
-
-fn unescape_json_string(s: &str) -> Option<String> {
-    if !s.starts_with('"') || !s.ends_with('"') || s.len() < 2 {
-        return None;
-    }
-    let inner = &s[1..s.len() - 1];
-    let mut out = String::with_capacity(inner.len());
-    let mut chars = inner.chars();
-    while let Some(ch) = chars.next() {
-        if ch == '\\' {
-            match chars.next()? {
-                '"' => out.push('"'),
-                '\\' => out.push('\\'),
-                '/' => out.push('/'),
-                'b' => out.push('\u{0008}'),
-                'f' => out.push('\u{000C}'),
-                'n' => out.push('\n'),
-                'r' => out.push('\r'),
-                't' => out.push('\t'),
-                'u' => {
-                    let mut code = 0u32;
-                    for _ in 0..4 {
-                        let d = chars.next()?;
-                        code = (code << 4) | hex_val(d)?;
-                    }
-                    if let Some(c) = core::char::from_u32(code) {
-                        out.push(c);
-                    } else {
-                        return None;
-                    }
-                }
-                _ => return None,
-            }
-        } else {
-            out.push(ch);
-        }
-    }
-    Some(out)
-}
-
-fn hex_val(c: char) -> Option<u32> {
-    match c {
-        '0'..='9' => Some((c as u32) - ('0' as u32)),
-        'a'..='f' => Some(10 + (c as u32) - ('a' as u32)),
-        'A'..='F' => Some(10 + (c as u32) - ('A' as u32)),
-        _ => None,
-    }
-}
-
-fn split_delim_aware<'a>(s: &'a str, dch: char) -> Vec<&'a str> {
-    #[cfg(feature = "perf_memchr")]
-    {
-        // Reuse parser's optimized splitter if available via cfg; else local slow path
-    }
-    let bytes = s.as_bytes();
-    let mut out: Vec<&'a str> = Vec::new();
-    let mut in_str = false;
-    let mut escape = false;
-    let mut start = 0usize;
-    let delim = dch as u8;
-    for (i, &b) in bytes.iter().enumerate() {
-        if in_str {
-            if escape {
-                escape = false;
-                continue;
-            }
-            match b {
-                b'\\' => {
-                    escape = true;
-                }
-                b'"' => {
-                    in_str = false;
-                }
-                _ => {}
-            }
-            continue;
-        } else {
-            if b == b'"' {
-                in_str = true;
-                continue;
-            }
-            if b == delim {
-                let tok = trim_ascii(&s[start..i]);
-                if !tok.is_empty() {
-                    out.push(tok);
-                }
-                start = i + 1;
-            }
-        }
-    }
-    if start < bytes.len() {
-        let tok = trim_ascii(&s[start..]);
-        if !tok.is_empty() {
-            out.push(tok);
-        }
-    }
-    out
-}
-
-fn trim_ascii(s: &str) -> &str {
-    let bytes = s.as_bytes();
-    let mut start = 0usize;
-    let mut end = bytes.len();
-    while start < end && matches!(bytes[start], b' ' | b'\t') {
-        start += 1;
-    }
-    while end > start && matches!(bytes[end - 1], b' ' | b'\t') {
-        end -= 1;
-    }
-    &s[start..end]
-}
-
-fn find_unquoted_colon(s: &str) -> Option<usize> {
-    let b = s.as_bytes();
-    let mut in_str = false;
-    let mut escape = false;
-    for (i, &ch) in b.iter().enumerate() {
-        if in_str {
-            if escape {
-                escape = false;
-                continue;
-            }
-            match ch {
-                b'\\' => {
-                    escape = true;
-                }
-                b'"' => {
-                    in_str = false;
-                }
-                _ => {}
-            }
-        } else {
-            match ch {
-                b'"' => {
-                    in_str = true;
-                }
-                b':' => {
-                    return Some(i);
-                }
-                _ => {}
-            }
-        }
-    }
-    None
-}
-
-fn parse_inline_array_header(s: &str) -> Option<(usize, char, &str)> {
-    // Expect: "[N<delim?>]:" followed by values
-    let bytes = s.as_bytes();
-    if bytes.first().copied()? != b'[' {
-        return None;
-    }
-    let mut i = 1usize;
-    let mut n: usize = 0;
-    while i < bytes.len() && bytes[i].is_ascii_digit() {
-        n = n.checked_mul(10)?.checked_add((bytes[i] - b'0') as usize)?;
-        i += 1;
-    }
-    if i >= bytes.len() {
-        return None;
-    }
-    let mut dch = ',';
-    match bytes[i] {
-        b'\t' => {
-            dch = '\t';
-            i += 1;
-        }
-        b'|' => {
-            dch = '|';
-            i += 1;
-        }
-        _ => {}
-    }
-    if i >= bytes.len() || bytes[i] != b']' {
-        return None;
-    }
-    i += 1;
-    if i >= bytes.len() || bytes[i] != b':' {
-        return None;
-    }
-    let rest = s[i + 1..].trim_start();
-    Some((n, dch, rest))
-}
-
-fn try_parse_keyed_tabular_header<'a>(
-    de: &DirectDeserializer<'a>,
-    kraw: &str,
-) -> Option<(String, char, Vec<String>)> {
-    let bytes = kraw.as_bytes();
-    let br = bytes.iter().position(|&b| b == b'[')?; // require '['
-    let key_str = &kraw[..br];
-    let mut i = br + 1;
-    let mut dch = ',';
-    // Skip length digits
-    while i < bytes.len() && bytes[i].is_ascii_digit() {
-        i += 1;
-    }
-    if i < bytes.len() {
-        match bytes[i] {
-            b'\t' => {
-                dch = '\t';
-                i += 1;
-            }
-            b'|' => {
-                dch = '|';
-                i += 1;
-            }
-            _ => {}
-        }
-    }
-    if i >= bytes.len() || bytes[i] != b']' {
-        return None;
-    }
-    i += 1;
-    // Require fields segment for tabular; otherwise not a tabular header
-    if !(i < bytes.len() && bytes[i] == b'{') {
-        return None;
-    }
-    // find matching '}'
-    let close = kraw[i..].find('}')? + i;
-    let inner = &kraw[i + 1..close];
-    let mut header: Vec<String> = Vec::new();
-    for tok in split_delim_aware(inner, dch) {
-        header.push(de.parse_key(tok));
-    }
-    i = close + 1;
-    // trailing content must be empty
-    if i != bytes.len() {
-        return None;
-    }
-    let key = de.parse_key(key_str);
-    Some((key, dch, header))
-}
-
-fn bracket_delim_from_key(k: &str) -> Option<char> {
-    let bytes = k.as_bytes();
-    let bpos = bytes.iter().position(|&b| b == b'[')?;
-    let mut i = bpos + 1;
-    while i < bytes.len() && bytes[i].is_ascii_digit() {
-        i += 1;
-    }
-    if i < bytes.len() {
-        match bytes[i] {
-            b'\t' => return Some('\t'),
-            b'|' => return Some('|'),
-            _ => {}
-        }
+        self.len = self.len.checked_sub(1).ok_or_else(unsupported)?;
+        let de = &mut *self.de;
+        seed.deserialize(Node { de, kind }).map(Some)
     }
-    Some(',')
 }
diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 043b150..752267b 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1182,6 +1182,22 @@ impl<'a> Parser<'a> {
     }
 }
 
+/// The primitive one token stands for; None if it is not valid
+#[cfg(feature = "de_direct")]
+pub(crate) fn parse_token(s: &str) -> Option<Value> {
+    let mut parser = Parser::from_lines(Vec::new(), false);
+    let value = parser.parse_scalar_token(s);
+    parser.error.is_none().then_some(value)
+}
+
+/// The key one token stands for; None if it is not valid
+#[cfg(feature = "de_direct")]
+pub(crate) fn parse_key(s: &str) -> Option<String> {
+    let mut parser = Parser::from_lines(Vec::new(), false);
+    let key = parser.parse_key_token(s);
+    parser.error.is_none().then_some(key)
+}
+
 /// Legacy header parser for old @<delim> format (for backwards compatibility during transition)
 fn parse_header(s: &str) -> Option<(char, &str)> {
     let mut it = s.chars();
@@ -1208,7 +1224,7 @@ pub struct ArrayHeader {
 
 /// Parse a spec-compliant array header: key[N<delim?>]{fields}:[ values]
 /// Returns None if not a valid array header
-fn parse_array_header(s: &str) -> Option<ArrayHeader> {
+pub(crate) fn parse_array_header(s: &str) -> Option<ArrayHeader> {
     // Find the bracket that represents the array length, skipping any brackets inside quotes
     let bracket_start = find_unquoted_bracket(s)?;
     let bracket_end = find_matching_bracket(s, bracket_start)?;
@@ -1463,7 +1479,7 @@ fn find_matching_brace(s: &str, start: usize) -> Option<usize> {
 }
 
 /// Check if a line looks like an array header (has [N] pattern, not inside quotes)
-fn is_array_header_line(s: &str) -> bool {
+pub(crate) fn is_array_header_line(s: &str) -> bool {
     // Find the first '[' that's not inside quotes
     let Some(bracket_start) = find_unquoted_bracket(s) else {
         return false;
@@ -1493,7 +1509,7 @@ fn is_array_header_line(s: &str) -> bool {
 }
 
 #[cfg(feature = "perf_memchr")]
-fn split_delim_aware<'a>(s: &'a str, dch: char) -> Vec<&'a str> {
+pub(crate) fn split_delim_aware<'a>(s: &'a str, dch: char) -> Vec<&'a str> {
     let bytes = s.as_bytes();
     let delim = dch as u8;
     #[cfg(feature = "perf_smallvec")]
@@ -1566,7 +1582,7 @@ fn split_delim_aware<'a>(s: &'a str, dch: char) -> Vec<&'a str> {
 }
 
 #[cfg(not(feature = "perf_memchr"))]
-fn split_delim_aware<'a>(s: &'a str, dch: char) -> Vec<&'a str> {
+pub(crate) fn split_delim_aware<'a>(s: &'a str, dch: char) -> Vec<&'a str> {
     let bytes = s.as_bytes();
     #[cfg(feature = "perf_smallvec")]
     let mut out: smallvec::SmallVec<[&'a str; 8]> = smallvec::SmallVec::new();
@@ -1649,7 +1665,7 @@ fn trim_ascii_start(s: &str) -> &str {
 }
 
 // Split a "key: value" pair in a single line, respecting quotes around the key and value
-fn split_kv_quote_aware(s: &str) -> Option<(&str, &str)> {
+pub(crate) fn split_kv_quote_aware(s: &str) -> Option<(&str, &str)> {
     let bytes = s.as_bytes();
     let mut i = 0usize;
     let mut in_str = false;
-- 
2.43.0


From ee87b664bd831c07875a24d39879a1da3bc1245e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:52 +0000
Subject: [PATCH 32/32] fix: serialize each map and struct value once when
 streaming

Values of map entries and struct fields were first serialized as scalars,
and once more when that failed. A value that can be serialized only once,
such as one that drains an iterator, was written empty, and an error of the
first attempt was ignored.
---
 crates/toon/src/ser/stream.rs | 189 ++--------------------------------
 1 file changed, 11 insertions(+), 178 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 4e5fa7f..0631348 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -577,14 +577,7 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
 
         let key_fmt = primitives::format_key(&key);
 
-        // Try scalar first
-        if let Ok(sv) = try_scalar_to_string(value, self.parent.opts) {
-            self.parent.w.line_kv(self.parent.indent, &key_fmt, &sv);
-            self.entry_count += 1;
-            return Ok(());
-        }
-
-        // Try to serialize to Value to detect arrays
+        // Serialize to Value once: a value may not give the same a second time
         #[cfg(feature = "json")]
         {
             let val = crate::ser::value_builder::to_value(value, self.parent.opts)
@@ -601,7 +594,7 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
                 self.entry_count += 1;
                 return Ok(());
             }
-            // For objects, use encode_object_field which handles key folding
+            // For scalars and objects, use encode_object_field which handles key folding
             crate::encode::encoders::encode_object_field(
                 &key,
                 &val,
@@ -630,6 +623,15 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
                 self.entry_count += 1;
                 return Ok(());
             }
+            if val.is_primitive() {
+                self.parent.w.line_kv(
+                    self.parent.indent,
+                    &key_fmt,
+                    &format_primitive_value_alloc(&val, self.parent.opts.delimiter),
+                );
+                self.entry_count += 1;
+                return Ok(());
+            }
             // For objects, use the standard key: then nested fields
             self.parent.w.line_key_only(self.parent.indent, &key_fmt);
             encode_internal_value_alloc(
@@ -1181,175 +1183,6 @@ fn encode_internal_value_alloc(
     Ok(())
 }
 
-fn try_scalar_to_string<T: ?Sized + Serialize>(
-    value: &T,
-    opts: &Options,
-) -> Result<String, SerError> {
-    let mut s = ScalarSerializer { out: None, opts };
-    match value.serialize(&mut s) {
-        Ok(()) => s.out.ok_or_else(|| SerError::custom("no scalar")),
-        Err(e) => Err(e),
-    }
-}
-
-struct ScalarSerializer<'a> {
-    out: Option<String>,
-    opts: &'a Options,
-}
-
-impl<'a, 'de> Serializer for &'a mut ScalarSerializer<'de> {
-    type Ok = ();
-    type Error = SerError;
-    type SerializeSeq = Impossible<(), SerError>;
-    type SerializeTuple = Impossible<(), SerError>;
-    type SerializeTupleStruct = Impossible<(), SerError>;
-    type SerializeTupleVariant = Impossible<(), SerError>;
-    type SerializeMap = Impossible<(), SerError>;
-    type SerializeStruct = Impossible<(), SerError>;
-    type SerializeStructVariant = Impossible<(), SerError>;
-
-    fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(primitives::format_bool(v).to_string());
-        Ok(())
-    }
-    fn serialize_i8(self, v: i8) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(v.to_string());
-        Ok(())
-    }
-    fn serialize_i16(self, v: i16) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(v.to_string());
-        Ok(())
-    }
-    fn serialize_i32(self, v: i32) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(v.to_string());
-        Ok(())
-    }
-    fn serialize_i64(self, v: i64) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(v.to_string());
-        Ok(())
-    }
-    fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(v.to_string());
-        Ok(())
-    }
-    fn serialize_u16(self, v: u16) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(v.to_string());
-        Ok(())
-    }
-    fn serialize_u32(self, v: u32) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(v.to_string());
-        Ok(())
-    }
-    fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(v.to_string());
-        Ok(())
-    }
-    fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-        self.serialize_f64(v as f64)
-    }
-    fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
-        if v.is_finite() {
-            self.out = Some(primitives::format_f64(v));
-        } else {
-            self.out = Some(primitives::format_null().to_string());
-        }
-        Ok(())
-    }
-    fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(primitives::format_string(
-            &v.to_string(),
-            self.opts.delimiter,
-        ));
-        Ok(())
-    }
-    fn serialize_str(self, v: &str) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(primitives::format_string(v, self.opts.delimiter));
-        Ok(())
-    }
-    fn serialize_bytes(self, _v: &[u8]) -> Result<Self::Ok, Self::Error> {
-        Err(SerError::custom("non-scalar"))
-    }
-    fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(primitives::format_null().to_string());
-        Ok(())
-    }
-    fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
-    }
-    fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(primitives::format_null().to_string());
-        Ok(())
-    }
-    fn serialize_unit_struct(self, _name: &'static str) -> Result<Self::Ok, Self::Error> {
-        self.serialize_unit()
-    }
-    fn serialize_unit_variant(
-        self,
-        _name: &'static str,
-        _variant_index: u32,
-        variant: &'static str,
-    ) -> Result<Self::Ok, Self::Error> {
-        self.serialize_str(variant)
-    }
-    fn serialize_newtype_struct<T: ?Sized + Serialize>(
-        self,
-        _name: &'static str,
-        value: &T,
-    ) -> Result<Self::Ok, Self::Error> {
-        value.serialize(self)
-    }
-    fn serialize_newtype_variant<T: ?Sized + Serialize>(
-        self,
-        _name: &'static str,
-        _variant_index: u32,
-        _variant: &'static str,
-        _value: &T,
-    ) -> Result<Self::Ok, Self::Error> {
-        Err(SerError::custom("non-scalar"))
-    }
-    fn serialize_seq(self, _len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
-        Err(SerError::custom("non-scalar"))
-    }
-    fn serialize_tuple(self, _len: usize) -> Result<Self::SerializeTuple, Self::Error> {
-        Err(SerError::custom("non-scalar"))
-    }
-    fn serialize_tuple_struct(
-        self,
-        _name: &'static str,
-        _len: usize,
-    ) -> Result<Self::SerializeTupleStruct, Self::Error> {
-        Err(SerError::custom("non-scalar"))
-    }
-    fn serialize_tuple_variant(
-        self,
-        _name: &'static str,
-        _variant_index: u32,
-        _variant: &'static str,
-        _len: usize,
-    ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Err(SerError::custom("non-scalar"))
-    }
-    fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
-        Err(SerError::custom("non-scalar"))
-    }
-    fn serialize_struct(
-        self,
-        _name: &'static str,
-        _len: usize,
-    ) -> Result<Self::SerializeStruct, Self::Error> {
-        Err(SerError::custom("non-scalar"))
-    }
-    fn serialize_struct_variant(
-        self,
-        _name: &'static str,
-        _variant_index: u32,
-        _variant: &'static str,
-        _len: usize,
-    ) -> Result<Self::SerializeStructVariant, Self::Error> {
-        Err(SerError::custom("non-scalar"))
-    }
-}
-
 fn key_to_string<T: ?Sized + Serialize>(key: &T, _opts: &Options) -> Result<String, SerError> {
     let mut s = KeySerializer { out: None };
     key.serialize(&mut s)?;
-- 
2.43.0

