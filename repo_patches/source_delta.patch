From 4fd3dab1d4ef954d8bc3625d5e78d516b9190702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 1/8] fix: check the maximum depth for unary signs and dotted
 accesses

Chains of unary operators or of dotted array indexes recursed without
limit and overflowed the stack.
---
 src/parse/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 2b223a7..7efcf57 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -537,6 +537,11 @@ fn parse_value(
     cur_brace: Option<char>,
     is_first: bool,
 ) -> ParseResult<Value> {
+    // Check depth.
+    if depth > MAX_DEPTH {
+        return parse_err(stream.file(), MaxDepth(line, col));
+    }
+
     // Peek to determine what kind of value we'll be parsing.
     let res = match stream.peek().unwrap() {
         '"' => parse_str(&mut stream)?,
@@ -778,6 +783,11 @@ fn parse_variable(
     depth: usize,
     cur_brace: Option<char>,
 ) -> ParseResult<Value> {
+    // Check depth.
+    if depth > MAX_DEPTH {
+        return parse_err(stream.file(), MaxDepth(line, col));
+    }
+
     let mut var = String::new();
     let mut is_global = false;
     let mut dot = false;
-- 
2.43.0


From 4f1ce52a3c1aabb6eb05591321400cc7101900d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 2/8] fix: count the nesting of included files towards the
 maximum depth

Every included file started again at depth 1, so a chain of includes
could recurse without limit and overflow the stack.
---
 src/parse/parser.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 7efcf57..d5d9d1a 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -40,25 +40,33 @@ lazy_static! {
 /// Parses given file as an `Obj`.
 pub fn parse_obj_file(path: &str) -> ParseResult<Obj> {
     let stream = CharStream::from_file(path)?;
-    parse_obj_stream(stream, &mut (Default::default(), Default::default()))
+    parse_obj_stream(stream, &mut (Default::default(), Default::default()), 1)
 }
 
 // Parses given file as an `Obj`, keeping track of already encountered includes.
-fn parse_obj_file_includes(path: &str, included: &mut IncludedMap) -> ParseResult<Obj> {
+fn parse_obj_file_includes(
+    path: &str,
+    included: &mut IncludedMap,
+    depth: usize,
+) -> ParseResult<Obj> {
     let stream = CharStream::from_file(path)?;
-    parse_obj_stream(stream, included)
+    parse_obj_stream(stream, included, depth)
 }
 
 /// Parses given &str as an `Obj`.
 pub fn parse_obj_str(contents: &str) -> ParseResult<Obj> {
     let contents = String::from(contents);
     let stream = CharStream::from_string(contents)?;
-    parse_obj_stream(stream, &mut (Default::default(), Default::default()))
+    parse_obj_stream(stream, &mut (Default::default(), Default::default()), 1)
 }
 
 // Parses an Obj given a character stream.
 #[inline]
-fn parse_obj_stream(mut stream: CharStream, mut included: &mut IncludedMap) -> ParseResult<Obj> {
+fn parse_obj_stream(
+    mut stream: CharStream,
+    mut included: &mut IncludedMap,
+    depth: usize,
+) -> ParseResult<Obj> {
     let mut obj_pairs: Pairs = Default::default();
 
     // Go to the first non-whitespace character, or return if there is none.
@@ -76,7 +84,7 @@ fn parse_obj_stream(mut stream: CharStream, mut included: &mut IncludedMap) -> P
         &mut globals,
         &mut included,
         &mut parent,
-        1,
+        depth,
         None,
     )? {}
 
@@ -229,7 +237,7 @@ fn parse_field_value_pair(
 }
 
 // Parses an Arr given a file.
-fn parse_arr_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Arr> {
+fn parse_arr_file(path: &str, mut included: &mut IncludedMap, depth: usize) -> ParseResult<Arr> {
     let mut stream = CharStream::from_file(path)?;
 
     let obj_pairs: Pairs = Default::default();
@@ -254,7 +262,7 @@ fn parse_arr_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Arr
             &mut included,
             value_line,
             value_col,
-            1,
+            depth,
             None,
             true,
         )?;
@@ -372,7 +380,7 @@ fn parse_arr(
 }
 
 // Parses a Tup given a file.
-fn parse_tup_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Tup> {
+fn parse_tup_file(path: &str, mut included: &mut IncludedMap, depth: usize) -> ParseResult<Tup> {
     let mut stream = CharStream::from_file(path)?;
 
     let mut vec: Vec<Value> = Default::default();
@@ -394,7 +402,7 @@ fn parse_tup_file(path: &str, mut included: &mut IncludedMap) -> ParseResult<Tup
             &mut included,
             value_line,
             value_col,
-            1,
+            depth,
             None,
             true,
         )?;
@@ -1147,10 +1155,10 @@ fn parse_include(
         value.clone()
     } else {
         let value: Value = match include_type {
-            IncludeType::Obj => parse_obj_file_includes(path_str, included)?.into(),
+            IncludeType::Obj => parse_obj_file_includes(path_str, included, depth)?.into(),
             IncludeType::Str => parse_str_file(path_str)?.into(),
-            IncludeType::Arr => parse_arr_file(path_str, included)?.into(),
-            IncludeType::Tup => parse_tup_file(path_str, included)?.into(),
+            IncludeType::Arr => parse_arr_file(path_str, included, depth)?.into(),
+            IncludeType::Tup => parse_tup_file(path_str, included, depth)?.into(),
         };
         // Use full path as included key.
         included.0.insert(full_path_str.into(), value.clone());
-- 
2.43.0


From 76fe45e523ecc2e8efb58a297b93272069af6e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 3/8] fix: keep included files apart by the type they are
 included as

A file included as a second type yielded the value of the first.
---
 src/parse/parser.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index d5d9d1a..9d6a830 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -27,7 +27,16 @@ use std::{
 
 type Pairs = Vec<Pair>;
 type GlobalMap = HashMap<String, Value>;
-type IncludedMap = (HashMap<String, Value>, HashSet<String>);
+type IncludedMap = (HashMap<(IncludeType, String), Value>, HashSet<String>);
+
+// The kind of value an include file is read as.
+#[derive(Clone, Copy, Eq, Hash, PartialEq)]
+enum IncludeType {
+    Obj,
+    Str,
+    Arr,
+    Tup,
+}
 
 lazy_static! {
     // Objs that signify that an include keyword was encountered.
@@ -1013,13 +1022,6 @@ fn parse_include(
     mut included: &mut IncludedMap,
     depth: usize,
 ) -> ParseResult<Value> {
-    enum IncludeType {
-        Obj,
-        Str,
-        Arr,
-        Tup,
-    }
-
     // Check depth.
     if depth > MAX_DEPTH {
         return parse_err(stream.file(), MaxDepth(stream.line(), stream.col()));
@@ -1150,8 +1152,9 @@ fn parse_include(
     }
 
     // Get either the tracked value or parse it if it's our first time seeing the include.
-    let value = if included.0.contains_key(full_path_str) {
-        let value = &included.0[full_path_str];
+    // The same file can be included as different types.
+    let key = (include_type, String::from(full_path_str));
+    let value = if let Some(value) = included.0.get(&key) {
         value.clone()
     } else {
         let value: Value = match include_type {
@@ -1160,8 +1163,8 @@ fn parse_include(
             IncludeType::Arr => parse_arr_file(path_str, included, depth)?.into(),
             IncludeType::Tup => parse_tup_file(path_str, included, depth)?.into(),
         };
-        // Use full path as included key.
-        included.0.insert(full_path_str.into(), value.clone());
+        // Use type and full path as included key.
+        included.0.insert(key, value.clone());
         value
     };
 
-- 
2.43.0


From c1ec597c15aa63851d65a065d24fa9cf84322c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 4/8] fix: do not panic when the including file has no
 canonical path

Loading a document with an include from e.g. a pipe panicked.
---
 src/parse/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 9d6a830..6533d0e 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -1141,7 +1141,10 @@ fn parse_include(
 
     // Prevent cyclic includes by temporarily storing the current file path.
     let storing = if let Some(file) = stream.file() {
-        let full_file = String::from(Path::new(&file).canonicalize().unwrap().to_str().unwrap());
+        let full_file = match Path::new(&file).canonicalize() {
+            Ok(path) => path.to_string_lossy().into_owned(),
+            Err(_) => return parse_err(stream.file(), InvalidIncludePath(include_file, line, col)),
+        };
         included.1.insert(full_file.clone());
         Some(full_file)
     } else {
-- 
2.43.0


From 8c339fa9e9c5d1d61fefecb7674aded9785beb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 5/8] fix: reject empty field names and names starting with '^'

The documentation requires a first character that is alphabetic or '_';
objects with such names could not be read back after writing.
---
 src/obj.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/obj.rs b/src/obj.rs
index f689bb4..195f493 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -262,6 +262,11 @@ impl Obj {
     /// The first character must be alphabetic or '_'. Subsequent characters are allowed to be
     /// alphabetic, digits, or '_'.
     pub fn is_valid_field(field: &str) -> bool {
+        // '^' is only valid in a document, where it stands for the parent.
+        if field.is_empty() || field.starts_with('^') {
+            return false;
+        }
+
         let mut first = true;
 
         for ch in field.chars() {
-- 
2.43.0


From fc80c3f396d3bac552ffffcd5fa3372a0bc2da39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 6/8] fix: reject global names starting with '^'

They were accepted although they can never be referenced.
---
 src/parse/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 6533d0e..dd5f668 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -528,7 +528,7 @@ fn parse_field(
             parse_err(stream.file(), InvalidFieldName(field.clone(), line, col))
         }
         "^" => Ok((field.clone(), FieldType::Parent)),
-        bad if bad.starts_with('^') => {
+        bad if bad.starts_with('^') || bad.starts_with("@^") => {
             parse_err(stream.file(), InvalidFieldName(field.clone(), line, col))
         }
         _ => Ok((
-- 
2.43.0


From 7cf16e9c6c0c7ad68bf268646e8baa9558131bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 7/8] fix: let dot notation reach inherited fields

An object inherits the fields of its parents, but naming an inherited
field with dot notation failed with "Variable not found".
---
 src/parse/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index dd5f668..6556b55 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -951,9 +951,17 @@ fn parse_variable(
                     return parse_err(stream.file(), InvalidValueChar('@', line, col));
                 }
 
+                // Inherited fields are accessible too; own fields come first.
+                let mut pairs = obj.pairs_ref().clone();
+                let mut parent = obj.get_parent();
+                while let Some(par) = parent {
+                    pairs.extend_from_slice(par.pairs_ref());
+                    parent = par.get_parent();
+                }
+
                 parse_variable(
                     &mut stream,
-                    obj.pairs_ref(),
+                    &pairs,
                     globals,
                     included,
                     line,
-- 
2.43.0


From 8a017737c67dc00af8b3ad85deb965a25a2a3a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 8/8] fix: reject a global that its own value defines again

---
 src/parse/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse/parser.rs b/src/parse/parser.rs
index 6556b55..5e8a55a 100644
--- a/src/parse/parser.rs
+++ b/src/parse/parser.rs
@@ -221,6 +221,13 @@ fn parse_field_value_pair(
     // Add value either to the globals map or to the current Obj.
     match field_type {
         FieldType::Global => {
+            // The value itself could have defined a global of the same name.
+            if globals.contains_key(&field_name) {
+                return parse_err(
+                    stream.file(),
+                    DuplicateGlobal(field_name, field_line, field_col),
+                );
+            }
             let _ = globals.insert(field_name, value);
         }
         FieldType::Parent => {
-- 
2.43.0

