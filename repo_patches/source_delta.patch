From 12f09ec2a02915787fd178c9e9d8d8baea80121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:37 +0000
Subject: [PATCH 01/24] fix: don't destroy the output file when encrypting into
 it fails halfway

encrypt_sw_file_to_file truncated the output (by default the input file
itself) before writing it, so that a crash, a full disk or any other
write error left neither the old nor the new content behind.
---
 src/lib.rs | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8b07dc6..ed19e47 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4,7 +4,9 @@ pub mod color;
 pub mod api;
 pub(crate) mod util;
 
+use std::fs::OpenOptions;
 use std::io;
+use std::io::Write;
 /// We use [`ritelinked::LinkedHashMap`] to preserve insertion order while having a key-value pair
 /// storage mechanism
 pub use ritelinked::LinkedHashMap;
@@ -44,12 +46,50 @@ pub fn encrypt_sw_file_to_file(file: &Path, out: Option<&Path>) -> Result<(), Cr
     let input_plaintext = std::fs::read(file).map_err(CryptoError::IOError)?;
     let output_ciphertext = encrypt_sw(&input_plaintext);
 
-    std::fs::write(output_file, output_ciphertext)
+    replace_file(output_file, &output_ciphertext)
         .map_err(CryptoError::IOError)?;
 
     Ok(())
 }
 
+/// Replaces the content of a file (or creates it) in one go: the data is first written to a
+/// temporary file next to it, which is then renamed over it. An error or a crash halfway through
+/// leaves the previous content as it was.
+fn replace_file(path: &Path, data: &[u8]) -> io::Result<()> {
+    let mut target = path.to_path_buf();
+    let mut permissions = None;
+
+    match OpenOptions::new().write(true).open(path) {
+        Ok(mut existing) => {
+            let metadata = existing.metadata()?;
+
+            // pipes, devices and such can't be replaced
+            if !metadata.is_file() { return existing.write_all(data); }
+
+            // replace the file behind a symbolic link instead of the link
+            target = path.canonicalize()?;
+            permissions = Some(metadata.permissions());
+        }
+
+        Err(err) if err.kind() == io::ErrorKind::NotFound => {}
+        Err(err) => return Err(err)
+    }
+
+    let mut temp_path = target.clone().into_os_string();
+    temp_path.push(format!(".{:016x}.tmp", rand::random::<u64>()));
+
+    let mut temp_file = OpenOptions::new().write(true).create_new(true).open(&temp_path)?;
+
+    let result = temp_file.write_all(data)
+        .and_then(|_| permissions.map_or(Ok(()), |perm| temp_file.set_permissions(perm)))
+        .and_then(|_| temp_file.sync_all())
+        .and_then(|_| std::fs::rename(&temp_path, &target));
+
+    if result.is_err() { let _ = std::fs::remove_file(&temp_path); }
+
+    result
+}
+
 pub fn encrypt_sw_file(file: &Path) -> Result<Vec<u8>, CryptoError> {
     let input_plaintext = std::fs::read(file).map_err(CryptoError::IOError)?;
 
-- 
2.43.0


From 9ed34d48b71f0887129ec222b912df730a95e404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:39 +0000
Subject: [PATCH 02/24] fix: write dates with leading zeros, reject malformed
 dates instead of panicking

The creation date was written as e.g. 202213456 for 2022-01-03 04:05:06,
which can't be read back; cut off or out of range dates panicked.
---
 src/parser/serde_util.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/parser/serde_util.rs b/src/parser/serde_util.rs
index d129182..1fe1c9f 100644
--- a/src/parser/serde_util.rs
+++ b/src/parser/serde_util.rs
@@ -2,29 +2,37 @@
 pub(crate) mod date_to_timestamp {
     use chrono::{Datelike, NaiveDate, NaiveDateTime, Timelike};
     use serde::{de, Deserialize, Serializer};
-    use serde::de::Error;
+    use serde::de::Error as _;
+    use serde::ser::Error as _;
 
     pub fn deserialize<'de, D>(deserializer: D) -> Result<u64, D::Error> where D: de::Deserializer<'de> {
         let v = String::deserialize(deserializer)?;
 
-        let year = v[0..4].parse::<i32>().map_err(D::Error::custom)?;
-        let month = v[4..6].parse::<u32>().map_err(D::Error::custom)?;
-        let day = v[6..8].parse::<u32>().map_err(D::Error::custom)?;
-        let hour = v[8..10].parse::<u32>().map_err(D::Error::custom)?;
-        let minute = v[10..12].parse::<u32>().map_err(D::Error::custom)?;
-        let second = v[12..14].parse::<u32>().map_err(D::Error::custom)?;
+        // `get` instead of indexing, the date might be cut off
+        let part = |range: std::ops::Range<usize>| v.get(range)
+            .ok_or_else(|| D::Error::custom(format!("invalid date `{}`", v)));
+
+        let year = part(0..4)?.parse::<i32>().map_err(D::Error::custom)?;
+        let month = part(4..6)?.parse::<u32>().map_err(D::Error::custom)?;
+        let day = part(6..8)?.parse::<u32>().map_err(D::Error::custom)?;
+        let hour = part(8..10)?.parse::<u32>().map_err(D::Error::custom)?;
+        let minute = part(10..12)?.parse::<u32>().map_err(D::Error::custom)?;
+        let second = part(12..14)?.parse::<u32>().map_err(D::Error::custom)?;
 
         Ok(
-            NaiveDate::from_ymd(year, month, day)
-                .and_hms(hour, minute, second)
+            NaiveDate::from_ymd_opt(year, month, day)
+                .and_then(|date| date.and_hms_opt(hour, minute, second))
+                .ok_or_else(|| D::Error::custom(format!("invalid date `{}`", v)))?
                 .timestamp() as u64
         )
     }
 
     pub fn serialize<S>(timestamp: &u64, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer {
-        let date = NaiveDateTime::from_timestamp(*timestamp as i64, 0);
+        let date = NaiveDateTime::from_timestamp_opt(*timestamp as i64, 0)
+            .filter(|date| (0..=9999).contains(&date.year()))
+            .ok_or_else(|| S::Error::custom(format!("timestamp {} is out of range", timestamp)))?;
         let date_str = format!(
-            "{}{}{}{}{}{}",
+            "{:04}{:02}{:02}{:02}{:02}{:02}",
             date.year(),
             date.month(),
             date.day(),
-- 
2.43.0


From 670bf7957f99143ef99b95282bd36fcf91ddd2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:58 +0000
Subject: [PATCH 03/24] fix: don't panic on malformed pool headers in logic

A header like @java_var or one with a multi-byte character in front of
java_list was sliced out of range or inside a character.
---
 src/parser/logic.rs | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index 6eb01ac..bbf9769 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -36,11 +36,14 @@ impl Parsable for Logic {
                 break;
             }
 
-            if line.ends_with("java_var") {
-                // variable pool
-                // read the screen name
-                let screen_name = (&line[1..line.len() - 9]).to_string(); // 8 (length of "java_var") + 1 (the dot)
+            // gets the screen name if this is the header of the given kind of pool
+            let pool_of = |suffix: &str| line
+                .strip_prefix("@")
+                .and_then(|header| header.strip_suffix(suffix))
+                .map(|screen_name| screen_name.to_string());
 
+            if let Some(screen_name) = pool_of(".java_var") {
+                // variable pool
                 // parse variables
                 let variable_pool = variable::VariablePool::parse_iter(&mut lines)
                     .map_err(|err| LogicParseError::VariablePoolParseError {
@@ -54,11 +57,8 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .variables = Some(variable_pool);
 
-            } else if line.ends_with("java_list") {
+            } else if let Some(screen_name) = pool_of(".java_list") {
                 // list variable pool
-                // get the screen name
-                let screen_name = (&line[1..line.len() - 10]).to_string(); // 9 -> length of "java_list" + 1 (the dot)
-
                 // then parse it
                 let list_variable_pool = list_variable::ListVariablePool::parse_iter(&mut lines)
                     .map_err(|err| LogicParseError::ListVariablePoolParseError {
@@ -73,11 +73,8 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .list_variables = Some(list_variable_pool);
 
-            } else if line.ends_with("java_components") {
+            } else if let Some(screen_name) = pool_of(".java_components") {
                 // component pool
-                // get screen name
-                let screen_name = (&line[1..line.len() - 16]).to_string(); // 15 (length of "java_components") + 1 (the dot)
-
                 // then parse it
                 let component_pool = component::ComponentPool::parse_iter(&mut lines)
                     .map_err(|err| LogicParseError::ComponentPoolParseError {
@@ -92,11 +89,8 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .components = Some(component_pool);
 
-            } else if line.ends_with("java_events") {
+            } else if let Some(screen_name) = pool_of(".java_events") {
                 // event pool
-                // get the screen name from the header
-                let screen_name = (&line[1..line.len() - 12]).to_string(); // 11 (length of "java_events") + 1 (the dot)
-
                 // then parse it
                 let event_pool = event::EventPool::parse_iter(&mut lines)
                     .map_err(|err| LogicParseError::EventPoolParseError {
@@ -111,10 +105,8 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .events = Some(event_pool);
 
-            } else if line.ends_with("java_func") {
+            } else if let Some(screen_name) = pool_of(".java_func") {
                 // moreblocks pool
-                let screen_name = (&line[1..line.len() - 10]).to_string(); // 9 (length of "java_func") + 1 (the dot)
-
                 // then parse it
                 let more_block_pool = more_block::MoreBlockPool::parse_iter(&mut lines)
                     .map_err(|err| LogicParseError::MoreBlockPoolParseError {
-- 
2.43.0


From 5d16868d3c44b20c65e1daa136d6edf3bcc6a3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:00 +0000
Subject: [PATCH 04/24] fix: don't stop reading logic at a second blank line

Screens without any block container are reconstructed as extra blank
lines, after which the code of every following screen was ignored.
---
 src/parser/logic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index bbf9769..51f117c 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -31,6 +31,9 @@ impl Parsable for Logic {
             if line.is_none() { break; }
             let line = line.unwrap();
 
+            // containers can be separated with more than one blank line
+            if line.is_empty() { continue; }
+
             if !line.starts_with("@") {
                 // todo: warning: skipping line {} because it doesn't resemble a header
                 break;
-- 
2.43.0


From c24315d6ef36af8d99c20c81f40750f90b293f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:02 +0000
Subject: [PATCH 05/24] fix: keep the layouts of a view file apart

Reconstructed layouts followed each other without the blank line that
ends a layout, so that a project with more than one layout couldn't be
read back; blank lines between fabs or after an empty layout made the
parser drop everything after it.
---
 src/parser/view.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/view.rs b/src/parser/view.rs
index 57ee884..6e500c0 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -25,6 +25,7 @@ impl Parsable for View {
         let mut fabs = LinkedHashMap::<String, AndroidView>::new();
 
         while let Some(line) = lines.next() {
+            if line.is_empty() { continue; }
             if !line.starts_with("@") { break; }
 
             let (screen_name, container_type) =
@@ -75,7 +76,9 @@ impl Parsable for View {
                 Ok(reconstructed_layout) => {
                     result.push_str(format!("@{}.xml\n", name).as_str());
                     result.push_str(reconstructed_layout.as_str());
-                    result.push('\n');
+
+                    // a blank line ends the layout
+                    result.push_str("\n\n");
                 }
 
                 Err(err) => {
@@ -88,9 +91,6 @@ impl Parsable for View {
             }
         }
 
-        // separate between the fabs and layouts
-        result.push('\n');
-
         for (name, view) in &self.fabs {
             match view.reconstruct() {
                 Ok(reconstructed_view) => {
-- 
2.43.0


From f03964fbad189d2a5600235f7d818eea672c8119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:02 +0000
Subject: [PATCH 06/24] fix: read custom views of a file without activities

A project without activities is reconstructed with a blank line in the
activity section, at which the parser stopped.
---
 src/parser/file.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser/file.rs b/src/parser/file.rs
index 182c267..ad3530f 100644
--- a/src/parser/file.rs
+++ b/src/parser/file.rs
@@ -37,10 +37,8 @@ impl Parsable for File {
             } else if line == "@customview" {
                 cur_section = FileSection::CustomView;
 
-            } else if cur_section != FileSection::None {
+            } else if cur_section != FileSection::None && !line.is_empty() {
                 // parse the file item if the line isn't empty
-                if line.is_empty() { break; }
-
                 let file_item = FileItem::parse(line)
                     .map_err(|err| FileParseError::FileItemParseError {
                         source: err,
-- 
2.43.0


From c5ab4368438891f6e0fc97ada731d9865c56ab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:34 +0000
Subject: [PATCH 07/24] fix: reference argument blocks by their own id

An argument block that has argument blocks of its own was referenced by
the id of the innermost one, the block itself was lost on reload.
---
 src/api/block.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 3f7089a..0d3c6f3 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -249,8 +249,8 @@ impl Blocks {
                         match value {
                             ArgValue::Value(val) => val,
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
@@ -262,8 +262,8 @@ impl Blocks {
                         match value {
                             ArgValue::Value(val) => val.to_string(),
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
@@ -283,12 +283,12 @@ impl Blocks {
                                     BlockType::Argument(ArgumentBlockReturnType::Boolean)
                                 );
 
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", id)
                             },
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
@@ -300,8 +300,8 @@ impl Blocks {
                         match value {
                             ArgValue::Value(val) => val.to_string(),
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
-- 
2.43.0


From 74b6fdbefc17426b22ca8e82ebccc575d0c77efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:36 +0000
Subject: [PATCH 08/24] fix: point sub stacks to their first block

They pointed to the last one, every other block of a sub stack was lost
on reload.
---
 src/api/block.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 0d3c6f3..96596aa 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -181,6 +181,10 @@ impl Blocks {
             let sub_stack1_id = block.sub_stack1
                 .map(|ss1| {
                     let mut ss1_blocks = ss1.to_block_container(*id_counter + 1);
+                    let ss1_first_id = ss1_blocks.0
+                        .first()
+                        .map(|b| b.id.parse::<i32>().unwrap())
+                        .unwrap_or_else(|| -1);
                     let ss1_last_id = ss1_blocks.0
                         .last()
                         .map(|b| b.id.parse::<i32>().unwrap())
@@ -189,12 +193,16 @@ impl Blocks {
                     sub_stack_blocks.append(&mut ss1_blocks.0);
 
                     if ss1_last_id != -1 { *id_counter = ss1_last_id as u32; }
-                    ss1_last_id
+                    ss1_first_id
                 }).unwrap_or_else(|| -1);
 
             let sub_stack2_id = block.sub_stack2
                 .map(|ss2| {
                     let mut ss2_blocks = ss2.to_block_container(*id_counter + 1);
+                    let ss2_first_id = ss2_blocks.0
+                        .first()
+                        .map(|b| b.id.parse::<i32>().unwrap())
+                        .unwrap_or_else(|| -1);
                     let ss2_last_id = ss2_blocks.0
                         .last()
                         .map(|b| b.id.parse::<i32>().unwrap())
@@ -203,7 +211,7 @@ impl Blocks {
                     sub_stack_blocks.append(&mut ss2_blocks.0);
 
                     if ss2_last_id != -1 { *id_counter = ss2_last_id as u32; }
-                    ss2_last_id
+                    ss2_first_id
                 }).unwrap_or_else(|| -1);
 
             /////////
-- 
2.43.0


From f9291f63f7b55a994aff60ff8e678c5c906b93df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:38 +0000
Subject: [PATCH 09/24] fix: write the type name of list blocks

It was written as an empty string, which is rejected when the project is
read again.
---
 src/api/block.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/api/block.rs b/src/api/block.rs
index 96596aa..e878081 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -513,6 +513,10 @@ impl BlockType {
                 Some(type_name.to_string()),
             BlockType::Argument(ArgumentBlockReturnType::Component { type_name }) =>
                 Some(type_name.to_string()),
+            BlockType::Argument(ArgumentBlockReturnType::List { inner_type: ListItem::String }) =>
+                Some("List String".to_string()),
+            BlockType::Argument(ArgumentBlockReturnType::List { inner_type: ListItem::Number }) =>
+                Some("List Number".to_string()),
             _ => None
         }
     }
-- 
2.43.0


From d97c4a2375d01cbdf70b10e1ed5fc8f10dc4cc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:40 +0000
Subject: [PATCH 10/24] fix: read block arguments of menu parameters

They were kept as the text `@<id>`, dropping the referenced block and
pointing to an unrelated one after the ids are regenerated.
---
 src/api/block.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index e878081..5c9188a 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -726,9 +726,16 @@ impl BlockContent {
                     name: name.unwrap(),
                     value: {
                         if args.is_empty() { Err(BlockContentParseError::RanOutOfArgs)? }
-                        ArgValue::Value(
-                            args.remove(0)
-                        )
+                        let value = args.remove(0);
+
+                        if value.starts_with("@") {
+                            ArgValue::BlockPlaceholder {
+                                block_id: (&value[1..]).parse()
+                                    .map_err(|_| BlockContentParseError::InvalidBlockId {
+                                        value
+                                    })?
+                            }
+                        } else { ArgValue::Value(value) }
                     }
                 },
                 _ => Err(BlockContentParseError::UnknownSpecParam {
-- 
2.43.0


From f110a70eccf7c60daa59cbe262fd5185c927707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 11/24] fix: read number and boolean parameters without a value

They are written as an empty string, which couldn't be read back.
---
 src/api/block.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/api/block.rs b/src/api/block.rs
index 5c9188a..3ed277d 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -689,6 +689,8 @@ impl BlockContent {
                                         value
                                     })?
                             }
+                        } else if value.is_empty() {
+                            ArgValue::Empty
                         } else {
                             let value = value.parse()
                                 .map_err(|_| BlockContentParseError::InvalidBooleanArgument {
@@ -712,6 +714,8 @@ impl BlockContent {
                                         value
                                     })?
                             }
+                        } else if value.is_empty() {
+                            ArgValue::Empty
                         } else {
                             let value = value.parse()
                                 .map_err(|_| BlockContentParseError::InvalidNumberArgument {
@@ -788,6 +792,8 @@ impl BlockContent {
                                                 value
                                             })?
                                     }
+                                } else if value.is_empty() {
+                                    ArgValue::Empty
                                 } else {
                                     let value = value.parse()
                                         .map_err(|_| BlockContentParseError::InvalidNumberArgument {
@@ -813,6 +819,8 @@ impl BlockContent {
                                                 value
                                             })?
                                     }
+                                } else if value.is_empty() {
+                                    ArgValue::Empty
                                 } else {
                                     let value = value.parse()
                                         .map_err(|_| BlockContentParseError::InvalidBooleanArgument {
-- 
2.43.0


From e875453be76a5eb445476755deb5a65daaa47b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:45 +0000
Subject: [PATCH 12/24] fix: don't panic on specs with a lone %, an unnamed %m
 or multi-byte characters

The first is the spec of the modulo block and is now kept as text.
---
 src/api/block.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 3ed277d..fd4dbea 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -614,7 +614,8 @@ impl BlockContent {
     pub fn parse_wo_params(spec: &str) -> Result<Self, BlockContentParseError> {
         let mut items = Vec::new();
         for s in spec.split(" ") {
-            if !s.starts_with("%") {
+            // a lone % isn't a parameter (used by the modulo block: "%d % %d")
+            if !s.starts_with("%") || s == "%" {
                 items.push(SpecItem::Text(s.to_string()));
                 continue
             }
@@ -624,13 +625,19 @@ impl BlockContent {
             let has_name = s.chars().nth(2)
                 .map(|c| c == '.' && s.len() > 3)
                 .unwrap_or(false);
-            let name = has_name.then(|| (&s[3..]).to_string());
+            let name = has_name.then(|| s.chars().skip(3).collect::<String>());
 
             let arg = match &s.chars().nth(1).unwrap() {
                 's' => Argument::String { name, value: ArgValue::Empty },
                 'b' => Argument::Boolean { name, value: ArgValue::Empty },
                 'd' => Argument::Number { name, value: ArgValue::Empty },
-                'm' => Argument::Menu { name: name.unwrap(), value: ArgValue::Empty },
+                'm' => Argument::Menu {
+                    name: name.ok_or_else(|| BlockContentParseError::UnknownSpecParam {
+                        name: "m".to_string(),
+                        full: s.to_string()
+                    })?,
+                    value: ArgValue::Empty
+                },
                 _ => Err(BlockContentParseError::UnknownSpecParam {
                     name: s.chars().nth(1).unwrap().to_string(),
                     full: s.to_string()
@@ -647,7 +654,8 @@ impl BlockContent {
     pub fn parse(spec: String, mut args: Vec<String>) -> Result<Self, BlockContentParseError> {
         let mut items = Vec::new();
         for s in spec.split(" ") {
-            if !s.starts_with("%") {
+            // a lone % isn't a parameter (used by the modulo block: "%d % %d")
+            if !s.starts_with("%") || s == "%" {
                 items.push(SpecItem::Text(s.to_string()));
                 continue
             }
@@ -657,7 +665,7 @@ impl BlockContent {
             let has_name = s.chars().nth(2)
                 .map(|c| c == '.' && s.len() > 3)
                 .unwrap_or(false);
-            let name = has_name.then(|| (&s[3..]).to_string());
+            let name = has_name.then(|| s.chars().skip(3).collect::<String>());
 
             let arg = match &s.chars().nth(1).unwrap() {
                 's' => Argument::String {
@@ -727,7 +735,10 @@ impl BlockContent {
                     }
                 },
                 'm' => Argument::Menu {
-                    name: name.unwrap(),
+                    name: name.ok_or_else(|| BlockContentParseError::UnknownSpecParam {
+                        name: "m".to_string(),
+                        full: s.to_string()
+                    })?,
                     value: {
                         if args.is_empty() { Err(BlockContentParseError::RanOutOfArgs)? }
                         let value = args.remove(0);
-- 
2.43.0


From 6a095410df70b8cacf5dc466a4e1592402d942a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:07 +0000
Subject: [PATCH 13/24] fix: write the type of views back

Type ids from the vertical scroll view on were off by one from the ones
that are read, and the type id itself was never written to the
reconstructed view (only used as the parent type of its children).
Reconstructing a scroll view also overwrote its orientation attribute
with the direction that is told by its type.
---
 src/api/view.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/api/view.rs b/src/api/view.rs
index 1b26de5..48cc875 100644
--- a/src/api/view.rs
+++ b/src/api/view.rs
@@ -324,7 +324,8 @@ impl ViewType {
     pub fn get_type_id(&self) -> u8 {
         match self {
             ViewType::LinearLayout { .. }   => 0,
-            ViewType::ScrollView { .. }     => 2,
+            ViewType::ScrollView { orientation: Orientation::Horizontal, .. } => 2,
+            ViewType::ScrollView { .. }     => 12,
             ViewType::Button { .. }         => 3,
             ViewType::TextView { .. }       => 4,
             ViewType::EditText { .. }       => 5,
@@ -334,12 +335,12 @@ impl ViewType {
             ViewType::ListView { .. }       => 9,
             ViewType::Spinner { .. }        => 10,
             ViewType::CheckBox { .. }       => 11,
-            ViewType::Switch { .. }         => 12,
-            ViewType::SeekBar { .. }        => 13,
-            ViewType::CalendarView { .. }   => 14,
-            ViewType::Fab { .. }            => 15,
-            ViewType::AdView { .. }         => 16,
-            ViewType::MapView               => 17,
+            ViewType::Switch { .. }         => 13,
+            ViewType::SeekBar { .. }        => 14,
+            ViewType::CalendarView { .. }   => 15,
+            ViewType::Fab { .. }            => 16,
+            ViewType::AdView { .. }         => 17,
+            ViewType::MapView               => 18,
         }
     }
 
@@ -351,8 +352,8 @@ impl ViewType {
                 view.layout.gravity = gravity;
             }
 
-            ViewType::ScrollView { orientation, gravity } => {
-                view.layout.orientation = orientation;
+            // the orientation of a scroll view is told by its type id, see get_type_id
+            ViewType::ScrollView { gravity, .. } => {
                 view.layout.gravity = gravity;
             }
 
@@ -545,6 +546,7 @@ pub fn flatten_views(views: Vec<View>, parent_id: Option<String>, parent_type: O
             // use the one in the raw view
             result_view.r#type
         };
+        result_view.r#type = view_type_id;
 
         // and then just map the variables
         result_view.layout.height = view.height;
-- 
2.43.0


From 19f8d41e8b3bf90e03dc1610932bd9e7ff01ae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:10 +0000
Subject: [PATCH 14/24] fix: name the logic of a screen without logic after its
 activity

It was named after the layout, anything added to such a screen couldn't
be found again after saving it.
---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 20d8268..2f1c6a8 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -353,7 +353,7 @@ impl TryFrom<ParsedSketchwareProject> for SketchwareProject {
                 // if it can't find any logic then create an empty ScreenLogic
                 let logic = val.logic.screens
                     .remove(view_name_to_logic(name.as_str()).as_str())
-                    .unwrap_or_else(||ScreenLogic::new_empty(file_entry.filename.clone()));
+                    .unwrap_or_else(||ScreenLogic::new_empty(view_name_to_logic(name.as_str())));
 
                 // get our fab (if we have one)
                 let fab = val.view.fabs
-- 
2.43.0


From f73c7ec931718eeeeb300af66bd3b178ed4bc748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:12 +0000
Subject: [PATCH 15/24] fix: keep the resource files of a project on
 reconstruction

The condition was inverted: resource files were dropped when they were
given and made up (empty) when they weren't.
---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 2f1c6a8..e11f4f0 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -763,7 +763,7 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
                 fabs
             },
             logic: parser::logic::Logic { screens: logic_screens },
-            resource_files: val.automatic_res_file_ids.then(|| ResourceFiles {
+            resource_files: (!val.automatic_res_file_ids).then(|| ResourceFiles {
                 custom_icon: val.custom_icon,
                 images: image_resource_files,
                 sounds: sound_resource_files,
-- 
2.43.0


From 53b0f1a717293b14393ea2401e8796ccd1f1985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:14 +0000
Subject: [PATCH 16/24] fix: check every kind of resource for a taken id

Putting a resource with the id of an existing sound or font replaced it.
---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index e11f4f0..b6cd7ae 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -205,7 +205,7 @@ impl Resources {
         }
 
         // check if there is already a resource file with this id
-        if self.images.contains_key(&id) {
+        if self.get_resource(&id).is_some() {
             return Err(ResourceAdditionError::IdTaken { id });
         }
 
-- 
2.43.0


From b476999041391e2497053893908aa4d558f2902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:17 +0000
Subject: [PATCH 17/24] fix: keep the custom icon of projects loaded without
 resource files

Like every other resource, it gets assigned to a random id; it used to
be dropped from the project on reconstruction.
---
 src/api/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index b6cd7ae..868aa41 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -403,7 +403,11 @@ impl TryFrom<ParsedSketchwareProject> for SketchwareProject {
             // to own Option<>
             custom_icon: if let Some(rf) = &val.resource_files {
                 rf.custom_icon.clone()
-            } else { None },
+            } else {
+                val.project.custom_icon.then(|| ResourceFileWrapper::make_random_id(
+                    "icon.png".to_string(), ResourceType::CustomIcon
+                ))
+            },
             metadata: Metadata {
                 local_id: val.project.id,
                 name: val.project.app_name,
-- 
2.43.0


From e849b126fd1ce46c9482d1346ff7c5b01f62d799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:37 +0000
Subject: [PATCH 18/24] fix: write the target of activity events

The target of an activity event is its own name, it was written as an
empty string.
---
 src/api/screen.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/api/screen.rs b/src/api/screen.rs
index f40a854..4d3cfcc 100644
--- a/src/api/screen.rs
+++ b/src/api/screen.rs
@@ -166,7 +166,10 @@ impl EventType {
                 event.target_type = component_type;
             }
 
-            EventType::ActivityEvent => event.event_type = 3
+            EventType::ActivityEvent => {
+                event.event_type = 3;
+                event.target_id = event.event_name.to_owned();
+            }
         }
     }
 }
-- 
2.43.0


From fb7b1f97a5e904043b91800d5815d58ae14c5645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:40 +0000
Subject: [PATCH 19/24] fix: write the target type of view events

It was reset to 0 (linear layout) for every view event.
---
 src/api/mod.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 868aa41..ecc00f3 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -7,7 +7,7 @@ use std::collections::HashMap;
 use std::path::PathBuf;
 use crate::LinkedHashMap;
 use crate::api::library::{AdMob, Firebase, GoogleMap};
-use crate::api::screen::{Event, MoreBlock, Screen, ScreenConstructionError};
+use crate::api::screen::{Event, EventType, MoreBlock, Screen, ScreenConstructionError};
 use crate::api::view::{flatten_views, parse_raw_layout, ParseLayoutError, View};
 use crate::color::Color;
 use crate::parser;
@@ -564,6 +564,7 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
             components: LinkedHashMap<String, ComponentKind>,
             more_blocks: LinkedHashMap<String, MoreBlock>,
             events: Vec<Event>,
+            view_types: HashMap<String, u8>,
         ) -> ScreenLogic {
             let mut block_containers = LinkedHashMap::new();
 
@@ -573,7 +574,13 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
                     .into_iter()
                     .filter_map(|event| {
                         let block_container_id = event.get_block_container_id();
-                        let (event, blocks) = event.into_parser_event();
+                        let is_view_event = matches!(event.event_type, EventType::ViewEvent { .. });
+                        let (mut event, blocks) = event.into_parser_event();
+
+                        // the target type of a view event is the type of the view
+                        if let (true, Some(view_type)) = (is_view_event, view_types.get(&event.target_id)) {
+                            event.target_type = *view_type;
+                        }
 
                         let block_container = blocks.into();
                         block_containers.insert(block_container_id, block_container);
@@ -622,6 +629,11 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
             let mut fabs = LinkedHashMap::new();
 
             for screen in val.screens {
+                let layout = view::flatten_views(screen.layout, None, None);
+                let mut view_types = layout.iter()
+                    .map(|view| (view.id.to_owned(), view.r#type))
+                    .collect::<HashMap<_, _>>();
+
                 if let Some(fab) = screen.fab {
                     let mut fab_view = flatten_views(vec![fab], None, None)
                         .remove(0);
@@ -630,6 +642,7 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
                     fab_view.parent = None;
                     fab_view.parent_type = -1;
 
+                    view_types.insert(fab_view.id.to_owned(), fab_view.r#type);
                     fabs.insert(screen.layout_name.to_owned(), fab_view);
                 }
 
@@ -640,11 +653,12 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
                     screen.components,
                     screen.more_blocks,
                     screen.events,
+                    view_types,
                 ));
 
                 layouts.insert(
                     screen.layout_name,
-                    Layout(view::flatten_views(screen.layout, None, None))
+                    Layout(layout)
                 );
             }
 
-- 
2.43.0


From 5d93cddaf9a2528d8547bcd3931113c5979ea065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:42 +0000
Subject: [PATCH 20/24] fix: keep drawers as drawers

They were written as regular custom views.
---
 src/api/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index ecc00f3..f9105b9 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -543,7 +543,12 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
                     .iter()
                     .map(|custom_view| FileItem {
                         filename: custom_view.res_name.to_owned(),
-                        file_type: FileType::CustomView,
+                        // drawers are listed as custom views named after their activity
+                        file_type: if custom_view.res_name.starts_with("_drawer_") {
+                            FileType::Drawer
+                        } else {
+                            FileType::CustomView
+                        },
                         keyboard_setting: KeyboardSetting::Unspecified,
                         options: ActivityOptions {
                             toolbar_enabled: false,
-- 
2.43.0


From 75163079fe66bb8eb85d56ddd4003025a51ec190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:48 +0000
Subject: [PATCH 21/24] fix: refuse resources whose path has no usable file
 name instead of panicking when they are saved

---
 src/api/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index f9105b9..dab47e8 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -182,6 +182,11 @@ impl Resources {
             if !path.exists() {
                 return Err(ResourceAdditionError::FileDoesntExist { path });
             }
+
+            // its file name is what the resource is saved under
+            if path.file_name().and_then(|name| name.to_str()).is_none() {
+                return Err(ResourceAdditionError::InvalidPath { path });
+            }
         }
 
         // big warning: don't get confused with resource id and file wrapper id
@@ -231,6 +236,9 @@ pub enum ResourceAdditionError {
 
     #[error("file `{path:?}` does not exist")]
     FileDoesntExist { path: PathBuf },
+
+    #[error("path `{path:?}` has no file name that a resource could be saved under")]
+    InvalidPath { path: PathBuf },
 }
 
 /// A sketchware project
-- 
2.43.0


From 7742f833307ce523e09e7fd340a5f192d55fdca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:25 +0000
Subject: [PATCH 22/24] fix: encrypt into files whose name is nearly as long as
 a name can be

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ed19e47..0078056 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -75,8 +75,8 @@ fn replace_file(path: &Path, data: &[u8]) -> io::Result<()> {
         Err(err) => return Err(err)
     }
 
-    let mut temp_path = target.clone().into_os_string();
-    temp_path.push(format!(".{:016x}.tmp", rand::random::<u64>()));
+    // a name of its own, the target's might already be as long as a name can be
+    let temp_path = target.with_file_name(format!(".{:016x}.tmp", rand::random::<u64>()));
 
     let mut temp_file = OpenOptions::new().write(true).create_new(true).open(&temp_path)?;
 
-- 
2.43.0


From f250a6ee5b265a0cda9b47e3f708c7386f15119e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:25 +0000
Subject: [PATCH 23/24] fix: keep the code of a screen that lists its onCreate
 event

---
 src/api/screen.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/api/screen.rs b/src/api/screen.rs
index 4d3cfcc..1d7cadd 100644
--- a/src/api/screen.rs
+++ b/src/api/screen.rs
@@ -201,12 +201,18 @@ impl Screen {
             // make an event pool if there is none
             if logic_entry.events.is_none() { logic_entry.events = Some(EventPool::default()) }
             if let Some(events) = &mut logic_entry.events {
-                events.0.insert(0, ParserEvent {
-                    event_name: "onCreate".to_string(),
-                    event_type: 3,
-                    target_id: "onCreate".to_string(),
-                    target_type: 0
-                })
+                let declared = events.0.iter()
+                    .any(|event| event.event_type == 3 && event.event_name == "onCreate");
+
+                // a second one would end up without the code, and replace it on reconstruction
+                if !declared {
+                    events.0.insert(0, ParserEvent {
+                        event_name: "onCreate".to_string(),
+                        event_type: 3,
+                        target_id: "onCreate".to_string(),
+                        target_type: 0
+                    })
+                }
             }
         }
 
-- 
2.43.0


From 16f06715dab6f67f04d6e019e88a8b733000d922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:25 +0000
Subject: [PATCH 24/24] fix: keep view and component events called onCreate

---
 src/api/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index dab47e8..2c2cd25 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -588,6 +588,7 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
                     .filter_map(|event| {
                         let block_container_id = event.get_block_container_id();
                         let is_view_event = matches!(event.event_type, EventType::ViewEvent { .. });
+                        let is_activity_event = matches!(event.event_type, EventType::ActivityEvent);
                         let (mut event, blocks) = event.into_parser_event();
 
                         // the target type of a view event is the type of the view
@@ -600,7 +601,7 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
 
                         // drop this event if its onCreate, but preserve the block container
                         // see `api::screen::Screen::from_parsed` comments for more explanation
-                        if event.event_name == "onCreate" { return None; }
+                        if is_activity_event && event.event_name == "onCreate" { return None; }
 
                         Some(event)
                     })
-- 
2.43.0

