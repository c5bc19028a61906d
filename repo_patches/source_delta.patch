From 1432d9c0312dc2282656c7e29f16b4fe87cfcd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:37 +0000
Subject: [PATCH 01/27] fix: keep file data filed under the topmost key list

put_data looked at the first four of its five key lists only when deciding
whether any chunk had been made and whether a list is the last one, so that
data whose keys had been moved to the fifth list was dropped.
---
 src/file.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index ee6337c..2b5bea8 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -86,7 +86,7 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
 
     current_chunk.extend_from_slice(&chunk_buffer);
 
-    if (0..4).all(|x| key_bufs[x].is_empty()) {
+    if key_bufs.iter().all(|x| x.is_empty()) {
         // No chunks were made.
         return Ok(ds.put_obj(&Object::new(&current_chunk, &[], ObjType::FileBlob))?);
     }
@@ -99,7 +99,7 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
     for offset in 0..4 {
         let key = ds.put_obj(&Object::new(&[], &key_bufs[offset], ObjType::FileBlobTree))?;
 
-        if key_bufs[offset].len() == 1 && (1 + offset..4).all(|x| key_bufs[x].is_empty()) {
+        if key_bufs[offset].len() == 1 && key_bufs[1 + offset..].iter().all(|x| x.is_empty()) {
             // We know this is safe because key_bufs[offset] has exactly 1 element
             #[allow(clippy::option_unwrap_used)]
             return Ok(key_bufs[offset].pop().unwrap());
-- 
2.43.0


From 66321e9bbc6bc630d18c3ef072bc0c8cda53c265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:32 +0000
Subject: [PATCH 02/27] fix: report an absent full key instead of crashing

Keyish::Key canonicalised by fetching the object (panicking when it does
not exist) and then treating the object's data as the key.
---
 src/ds/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ds/mod.rs b/src/ds/mod.rs
index d35c0e4..cc3bd16 100644
--- a/src/ds/mod.rs
+++ b/src/ds/mod.rs
@@ -31,6 +31,12 @@ pub enum CanonicalizeError {
 
     #[error("error when getting reflog: {_0}")]
     GetReflogError(#[from] GetReflogError),
+
+    #[error("error when looking up object: {_0}")]
+    RawExistsError(#[from] RawExistsError),
+
+    #[error("error when listing objects: {_0}")]
+    RawBetweenError(#[from] RawBetweenError),
 }
 
 #[derive(Debug)]
@@ -256,13 +262,14 @@ pub trait DataStore: Transactional {
             Keyish::Key(s, key) => {
                 err_str = s;
 
-                let k = self.raw_get(&key).unwrap();
-                results.push(k.to_vec());
+                if self.raw_exists(&key)? {
+                    results.push(key);
+                }
             }
             Keyish::Range(s, start, end) => {
                 err_str = s;
 
-                results = self.raw_between(&start, end.as_deref()).unwrap();
+                results = self.raw_between(&start, end.as_deref())?;
             }
             Keyish::Reflog {
                 orig,
-- 
2.43.0


From ee59a3acdbe233b16511ff38806a09b9d6a59998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:40 +0000
Subject: [PATCH 03/27] fix: make a directory's key independent of the listing
 order

---
 src/dir.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index d9d65fd..69eece5 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -89,17 +89,15 @@ pub fn put_fs_item<DS: DataStore>(
         let mut result = Vec::new();
         let mut result_names = Vec::new();
 
-        let entries = std::fs::read_dir(path)?;
+        let mut entries = std::fs::read_dir(path)?.collect::<Result<Vec<_>, _>>()?;
 
-        for entry in entries {
-            match entry {
-                Ok(direntry) => {
-                    if filter(&direntry) {
-                        result.push(put_fs_item(ds, &direntry.path(), filter)?);
-                        result_names.push(direntry.file_name().into());
-                    }
-                }
-                Err(e) => return Err(e.into()),
+        // The order of a directory listing is arbitrary, the key must not depend on it.
+        entries.sort_by_key(DirEntry::file_name);
+
+        for direntry in entries {
+            if filter(&direntry) {
+                result.push(put_fs_item(ds, &direntry.path(), filter)?);
+                result_names.push(direntry.file_name().into());
             }
         }
 
-- 
2.43.0


From 308d10374f88c8ec5cd3dabe8bc68669c563c2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:41 +0000
Subject: [PATCH 04/27] fix: create empty directories when fetching

---
 src/dir.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dir.rs b/src/dir.rs
index 69eece5..37cf919 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -238,6 +238,8 @@ pub fn get_fs_item<DS: DataStore>(
 
     match fsobj.itemtype {
         FSItemType::Dir => {
+            std::fs::create_dir_all(path)?;
+
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
                 get_fs_item(ds, child, &path.join(&name))?;
             }
-- 
2.43.0


From 854cae9f4ad060f6932ad47342a59bcae906d73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:42 +0000
Subject: [PATCH 05/27] fix: refuse stored names that lead outside the fetched
 directory

---
 src/dir.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/dir.rs b/src/dir.rs
index 37cf919..3faa147 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -10,7 +10,7 @@ use crate::{
 use std::collections::{HashMap, HashSet};
 use std::convert::TryInto;
 use std::fs::DirEntry;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use thiserror::Error;
 
 #[derive(Debug, serde::Serialize, serde::Deserialize)]
@@ -214,6 +214,9 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
 
 #[derive(Debug, Error)]
 pub enum GetFsItemError {
+    #[error("invalid name in stored directory: {_0:?}")]
+    InvalidName(PathBuf),
+
     #[error("io error: {_0}")]
     IOError(#[from] std::io::Error),
 
@@ -227,6 +230,17 @@ pub enum GetFsItemError {
     DecodeError(#[from] serde_cbor::error::Error),
 }
 
+/// Whether a name is a single path component, that is, names an entry of the directory it is
+/// joined to and nothing outside of it.
+fn is_plain_name(name: &Path) -> bool {
+    let mut components = name.components();
+
+    match (components.next(), components.next()) {
+        (Some(Component::Normal(c)), None) => c == name.as_os_str(),
+        _ => false,
+    }
+}
+
 pub fn get_fs_item<DS: DataStore>(
     ds: &DS,
     key: TypedKey<FSItem>,
@@ -241,6 +255,10 @@ pub fn get_fs_item<DS: DataStore>(
             std::fs::create_dir_all(path)?;
 
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
+                if !is_plain_name(name) {
+                    return Err(GetFsItemError::InvalidName(name.clone()));
+                }
+
                 get_fs_item(ds, child, &path.join(&name))?;
             }
         }
-- 
2.43.0


From c469bf336327a1c8061fe635910c1ee24b857e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:56 +0000
Subject: [PATCH 06/27] fix: comparing crashed when an entry was deleted

---
 src/diff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diff.rs b/src/diff.rs
index fc487b2..a3eba78 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -120,7 +120,7 @@ pub fn compare<'a>(
         .map(|x| DeletedDiffResult {
             path: x.clone(),
             original_key: Some(to_map[x].0),
-            is_dir: from_map.as_ref().either(|y| y[x], |y| y[x].1),
+            is_dir: to_map[x].1,
         })
         .collect();
 
-- 
2.43.0


From 264e6a9c85f9be0ba0bcba1e9119f8e5b3e74c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:57 +0000
Subject: [PATCH 07/27] fix: find added files from any working directory

Files that are only in the compared directory were hashed relative to the
working directory of the process, which crashed unless that is the
directory being compared.
---
 src/diff.rs | 51 ++++++++++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index a3eba78..fd4c68e 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -88,32 +88,33 @@ pub fn compare<'a>(
 
     let to_keys: HashSet<PathBuf> = to_map.keys().cloned().collect();
 
-    let mut in_from_only: Vec<AddedDiffResult> = from_keys
-        .difference(&to_keys)
-        .map(|x| AddedDiffResult {
+    let mut in_from_only = Vec::new();
+
+    for x in from_keys.difference(&to_keys) {
+        let (new_key, is_dir) = match &from_map {
+            // directories don't have a hash
+            either::Left(fs_items) if fs_items[x] => (None, true),
+            either::Left(_) => {
+                let h = dir::hash_fs_item(
+                    ds,
+                    &from_path
+                        .as_ref()
+                        .expect("should have been populated")
+                        .join(x),
+                    *cache.expect("you must pass a cache if you're hashing the fs"),
+                )?;
+
+                (Some(h.into()), false)
+            }
+            either::Right(db_items) => (Some(db_items[x].0), db_items[x].1),
+        };
+
+        in_from_only.push(AddedDiffResult {
             path: x.clone(),
-            new_key: from_map.as_ref().either(
-                |y| {
-                    if !y[x] {
-                        // this is a file
-                        match dir::hash_fs_item(
-                            ds,
-                            x,
-                            *cache.expect("you must pass a cache if you're hashing the fs"),
-                        ) {
-                            Ok(h) => Some(h.into()),
-                            Err(e) => panic!(e),
-                        }
-                    } else {
-                        // directories don't have a hash
-                        None
-                    }
-                },
-                |y| Some(y[x].0),
-            ),
-            is_dir: from_map.as_ref().either(|y| y[x], |y| y[x].1),
-        })
-        .collect();
+            is_dir,
+            new_key,
+        });
+    }
 
     let mut in_to_only: Vec<DeletedDiffResult> = to_keys
         .difference(&from_keys)
-- 
2.43.0


From 12ab5ed1f0397f658bbec6d6a272fa7a9d1c0259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:58 +0000
Subject: [PATCH 08/27] fix: don't report directories as modified files

Comparing two stored trees reported every directory with a change in it as
a modified file, which crashed the statistics and the patch, and so did
an entry that changed between file and directory.
---
 src/diff.rs | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index fd4c68e..1dc4e13 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -81,19 +81,23 @@ pub fn compare<'a>(
         None => HashMap::new(),
     };
 
-    let from_keys: HashSet<PathBuf> = from_map.clone().either(
-        |x| x.keys().cloned().collect(),
-        |x| x.keys().cloned().collect(),
+    // A path that is a file on one side and a directory on the other is two different entries.
+    let from_keys: HashSet<(PathBuf, bool)> = from_map.clone().either(
+        |x| x.into_iter().collect(),
+        |x| x.into_iter().map(|(path, (_, is_dir))| (path, is_dir)).collect(),
     );
 
-    let to_keys: HashSet<PathBuf> = to_map.keys().cloned().collect();
+    let to_keys: HashSet<(PathBuf, bool)> = to_map
+        .iter()
+        .map(|(path, (_, is_dir))| (path.clone(), *is_dir))
+        .collect();
 
     let mut in_from_only = Vec::new();
 
-    for x in from_keys.difference(&to_keys) {
-        let (new_key, is_dir) = match &from_map {
+    for (x, is_dir) in from_keys.difference(&to_keys) {
+        let new_key = match &from_map {
             // directories don't have a hash
-            either::Left(fs_items) if fs_items[x] => (None, true),
+            either::Left(_) if *is_dir => None,
             either::Left(_) => {
                 let h = dir::hash_fs_item(
                     ds,
@@ -104,24 +108,24 @@ pub fn compare<'a>(
                     *cache.expect("you must pass a cache if you're hashing the fs"),
                 )?;
 
-                (Some(h.into()), false)
+                Some(h.into())
             }
-            either::Right(db_items) => (Some(db_items[x].0), db_items[x].1),
+            either::Right(db_items) => Some(db_items[x].0),
         };
 
         in_from_only.push(AddedDiffResult {
             path: x.clone(),
-            is_dir,
+            is_dir: *is_dir,
             new_key,
         });
     }
 
     let mut in_to_only: Vec<DeletedDiffResult> = to_keys
         .difference(&from_keys)
-        .map(|x| DeletedDiffResult {
+        .map(|(x, is_dir)| DeletedDiffResult {
             path: x.clone(),
             original_key: Some(to_map[x].0),
-            is_dir: to_map[x].1,
+            is_dir: *is_dir,
         })
         .collect();
 
@@ -129,14 +133,15 @@ pub fn compare<'a>(
 
     let mut modified = Vec::new();
 
-    for path in in_both {
+    for (path, is_dir) in in_both {
+        // directories are not modified, what is in them is
+        if *is_dir {
+            continue;
+        }
+
         let f;
         match &from_map {
-            either::Left(fs_items) => {
-                if fs_items[path] {
-                    continue;
-                }
-
+            either::Left(_) => {
                 f = dir::hash_fs_item(
                     ds,
                     &from_path
-- 
2.43.0


From 43b930b3f7876ff7e042849e9eaff82727524d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:12 +0000
Subject: [PATCH 09/27] fix: count changed lines that differ in a carriage
 return

Statistics compared lines without their carriage returns, and bytes that
are not UTF-8 after replacing them, so some changes were shown as +0 -0.
---
 src/diff.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index 1dc4e13..92f89e1 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -270,6 +270,15 @@ pub struct FileStatResult {
     removed: usize,
 }
 
+/// Splits data into its lines, without losing carriage returns or bytes that are not UTF-8.
+fn split_lines(data: &[u8]) -> Vec<&[u8]> {
+    if data.is_empty() {
+        Vec::new()
+    } else {
+        data.split(|x| *x == b'\n').collect()
+    }
+}
+
 pub fn line_stat(ds: &impl DataStore, r: DiffResult) -> LineStatResult {
     ldbg!(&r);
 
@@ -302,10 +311,10 @@ pub fn line_stat(ds: &impl DataStore, r: DiffResult) -> LineStatResult {
         let mut after = Vec::new();
         file::read_data(ds, modified.new_key.into(), &mut after).unwrap();
 
-        let before_str = String::from_utf8_lossy(&before);
-        let after_str = String::from_utf8_lossy(&after);
+        let before_lines = split_lines(&before);
+        let after_lines = split_lines(&after);
 
-        let lines = diff::lines(&before_str, &after_str);
+        let lines = diff::slice(&before_lines, &after_lines);
 
         let mut removed: usize = 0;
         let mut added: usize = 0;
-- 
2.43.0


From 16d1f130a78fea3b6103f741170eb4cc8f8ac6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:10 +0000
Subject: [PATCH 10/27] fix: give the right line ranges in the hunks of a patch

---
 src/diff.rs | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index 92f89e1..32216ae 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -369,6 +369,15 @@ pub fn format_patch(p: &patch::Patch<'_>) -> String {
 const BEFORE_CONTEXT_LINES: usize = 3;
 const AFTER_CONTEXT_LINES: usize = 5;
 
+/// The range of a hunk whose first line would be `start`. A range without any lines is given by
+/// the line before it.
+fn hunk_range(start: u64, count: usize) -> patch::Range {
+    patch::Range {
+        start: if count == 0 { start - 1 } else { start },
+        count: count as u64,
+    }
+}
+
 #[derive(Debug, Error)]
 pub enum DiffPatchError {
     #[error("tried to make patch with non-UTF8 files")]
@@ -412,10 +421,7 @@ pub fn create_diff_patch_result(
 
                     hunks.push(patch::Hunk {
                         old_range: patch::Range { start: 0, count: 0 },
-                        new_range: patch::Range {
-                            start: 0,
-                            count: lines.len() as u64,
-                        },
+                        new_range: hunk_range(1, lines.len()),
                         lines,
                     });
                 }
@@ -465,10 +471,7 @@ pub fn create_diff_patch_result(
 
                     hunks.push(patch::Hunk {
                         new_range: patch::Range { start: 0, count: 0 },
-                        old_range: patch::Range {
-                            start: 0,
-                            count: lines.len() as u64,
-                        },
+                        old_range: hunk_range(1, lines.len()),
                         lines,
                     });
                 }
@@ -588,17 +591,22 @@ fn patch_from_file_string(before_str: String, after_str: String, path: PathBuf)
         assert!(!collected.is_empty());
 
         let (start_before, start_after, _) = collected.first().unwrap();
-        let (end_before, end_after, _) = collected.last().unwrap();
 
-        let before_range = patch::Range {
-            start: *start_before,
-            count: *end_before - *start_before,
-        };
+        let before_range = hunk_range(
+            *start_before,
+            collected
+                .iter()
+                .filter(|x| !matches!(x.2, difference::Difference::Add(_)))
+                .count(),
+        );
 
-        let after_range = patch::Range {
-            start: *start_after,
-            count: *end_after - *start_after,
-        };
+        let after_range = hunk_range(
+            *start_after,
+            collected
+                .iter()
+                .filter(|x| !matches!(x.2, difference::Difference::Rem(_)))
+                .count(),
+        );
 
         let mut lines = Vec::new();
 
-- 
2.43.0


From 0cded8277aad5e13d2e3d16d259fb91cb0a7feb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:59 +0000
Subject: [PATCH 11/27] fix: tell in a patch whether the last line ends with a
 newline

Modified files were split at newlines, so that the patch had an extra
empty line at the end of a text, and added and deleted files lost the
information altogether, as well as carriage returns.
---
 src/diff.rs | 102 ++++++++++++++++++++++------------------------------
 1 file changed, 42 insertions(+), 60 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index 32216ae..af5a4c3 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -369,6 +369,17 @@ pub fn format_patch(p: &patch::Patch<'_>) -> String {
 const BEFORE_CONTEXT_LINES: usize = 3;
 const AFTER_CONTEXT_LINES: usize = 5;
 
+/// The lines of a text as they appear in a patch, where a last line that is not ended by a newline
+/// is marked.
+fn patch_lines(s: &str) -> Vec<String> {
+    s.split_inclusive('\n')
+        .map(|line| match line.strip_suffix('\n') {
+            Some(l) => l.to_string(),
+            None => format!("{}\n\\ No newline at end of file", line),
+        })
+        .collect()
+}
+
 /// The range of a hunk whose first line would be `start`. A range without any lines is given by
 /// the line before it.
 fn hunk_range(start: u64, count: usize) -> patch::Range {
@@ -411,13 +422,12 @@ pub fn create_diff_patch_result(
 
             let data = std::str::from_utf8(&data);
 
+            let text;
+
             match data {
                 Ok(s) => {
-                    let mut lines = Vec::new();
-
-                    for line in s.lines() {
-                        lines.push(patch::Line::Add(line));
-                    }
+                    text = patch_lines(s);
+                    let lines: Vec<_> = text.iter().map(|x| patch::Line::Add(x)).collect();
 
                     hunks.push(patch::Hunk {
                         old_range: patch::Range { start: 0, count: 0 },
@@ -461,13 +471,12 @@ pub fn create_diff_patch_result(
 
             let data = std::str::from_utf8(&data);
 
+            let text;
+
             match data {
                 Ok(s) => {
-                    let mut lines = Vec::new();
-
-                    for line in s.lines() {
-                        lines.push(patch::Line::Remove(line));
-                    }
+                    text = patch_lines(s);
+                    let lines: Vec<_> = text.iter().map(|x| patch::Line::Remove(x)).collect();
 
                     hunks.push(patch::Hunk {
                         new_range: patch::Range { start: 0, count: 0 },
@@ -516,52 +525,35 @@ pub fn create_diff_patch_result(
 }
 
 fn patch_from_file_string(before_str: String, after_str: String, path: PathBuf) -> String {
-    let lines = difference::Changeset::new(&before_str, &after_str, "\n");
+    let before_lines = patch_lines(&before_str);
+    let after_lines = patch_lines(&after_str);
 
     let mut before_lineno = 1;
     let mut after_lineno = 1;
 
-    let lines_ln: Vec<_> = lines
-        .diffs
+    let lines_ln: Vec<_> = diff::slice(&before_lines, &after_lines)
         .into_iter()
         .map(|x| {
-            let mut result = Vec::new();
-            match x {
-                difference::Difference::Add(s) => {
-                    for line in s.split('\n') {
-                        result.push((
-                            before_lineno,
-                            after_lineno,
-                            difference::Difference::Add(line.to_string()),
-                        ));
-                        after_lineno += 1;
-                    }
+            let (start_before, start_after) = (before_lineno, after_lineno);
+
+            let line = match x {
+                diff::Result::Left(s) => {
+                    before_lineno += 1;
+                    patch::Line::Remove(s)
                 }
-                difference::Difference::Same(s) => {
-                    for line in s.split('\n') {
-                        result.push((
-                            before_lineno,
-                            after_lineno,
-                            difference::Difference::Same(line.to_string()),
-                        ));
-                        before_lineno += 1;
-                        after_lineno += 1;
-                    }
+                diff::Result::Both(s, _) => {
+                    before_lineno += 1;
+                    after_lineno += 1;
+                    patch::Line::Context(s)
                 }
-                difference::Difference::Rem(s) => {
-                    for line in s.split('\n') {
-                        result.push((
-                            before_lineno,
-                            after_lineno,
-                            difference::Difference::Rem(line.to_string()),
-                        ));
-                        before_lineno += 1;
-                    }
+                diff::Result::Right(s) => {
+                    after_lineno += 1;
+                    patch::Line::Add(s)
                 }
-            }
-            result
+            };
+
+            (start_before, start_after, line)
         })
-        .flatten()
         .collect();
 
     let mut windows_vec = Vec::new();
@@ -576,7 +568,7 @@ fn patch_from_file_string(before_str: String, after_str: String, path: PathBuf)
 
     let groups = windows_vec.into_iter().group_by(|x| {
         x.1.iter()
-            .any(|y| !matches!(y.2, difference::Difference::Same(_)))
+            .any(|y| !matches!(y.2, patch::Line::Context(_)))
     });
 
     let mut hunks = Vec::new();
@@ -596,7 +588,7 @@ fn patch_from_file_string(before_str: String, after_str: String, path: PathBuf)
             *start_before,
             collected
                 .iter()
-                .filter(|x| !matches!(x.2, difference::Difference::Add(_)))
+                .filter(|x| !matches!(x.2, patch::Line::Add(_)))
                 .count(),
         );
 
@@ -604,21 +596,11 @@ fn patch_from_file_string(before_str: String, after_str: String, path: PathBuf)
             *start_after,
             collected
                 .iter()
-                .filter(|x| !matches!(x.2, difference::Difference::Rem(_)))
+                .filter(|x| !matches!(x.2, patch::Line::Remove(_)))
                 .count(),
         );
 
-        let mut lines = Vec::new();
-
-        for item in collected.iter().map(|x| &x.2) {
-            let patch_item = match item {
-                difference::Difference::Same(x) => patch::Line::Context(&x),
-                difference::Difference::Add(x) => patch::Line::Add(&x),
-                difference::Difference::Rem(x) => patch::Line::Remove(&x),
-            };
-
-            lines.push(patch_item);
-        }
+        let lines = collected.iter().map(|x| x.2.clone()).collect();
 
         let hunk = patch::Hunk {
             old_range: before_range,
-- 
2.43.0


From d5d909ec4dcad70dec98cefac0d9b5e61fbe9e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:21 +0000
Subject: [PATCH 12/27] fix: notice a file that was changed twice in a second

The cache remembered modification times in whole seconds, so a change
that kept the size was not seen.
---
 src/dir.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dir.rs b/src/dir.rs
index 3faa147..0ec5d60 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -172,7 +172,12 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
 
         let ext_metadata = f.metadata()?;
         let cache_key = CacheKey {
-            mtime: ext_metadata.mtime(),
+            // Two writes often happen within the same second, so nanoseconds are needed to tell them
+            // apart.
+            mtime: ext_metadata
+                .mtime()
+                .wrapping_mul(1_000_000_000)
+                .wrapping_add(ext_metadata.mtime_nsec()),
             inode: ext_metadata.ino(),
             size: ext_metadata.size(),
         };
-- 
2.43.0


From dff7bd5c4a6357e2f2eb9c404ce1e7ea01aaeefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:22 +0000
Subject: [PATCH 13/27] fix: store a file that only another repository has seen

A key from the cache was used although the object is not in this
repository, which crashed the statistics.
---
 src/dir.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dir.rs b/src/dir.rs
index 0ec5d60..7445951 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -148,6 +148,9 @@ pub enum HashFsItemError {
     #[error("put data error: {_0}")]
     PutDataError(#[from] file::PutDataError),
 
+    #[error("error when looking up object: {_0}")]
+    RawExistsError(#[from] ds::RawExistsError),
+
     #[error("cache error: {_0}")]
     CacheError(#[from] cache::GetCacheError),
 
@@ -183,7 +186,11 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
         };
 
         if let Some(h) = cache.get(cache_key)? {
-            return Ok(h);
+            // The cache is shared between repositories, and callers expect the object to be in
+            // this one.
+            if ds.raw_exists(&h.as_db_key())? {
+                return Ok(h);
+            }
         }
 
         let reader = std::io::BufReader::new(f);
-- 
2.43.0


From 84c964ece81fb7394e94ebd9211c5a6adaea0209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:47 +0000
Subject: [PATCH 14/27] fix: report a transaction that could not be committed

The results of starting, committing and rolling back the transaction of the
database were ignored, so a command whose changes were lost succeeded. And a
cache that could not be saved made a command fail after its changes had been.
---
 src/main.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1547ca6..a79526e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -767,7 +767,9 @@ fn main() -> CMDResult {
         common: opt.common,
     };
 
-    state.ds_state.as_mut().map(|x| x.ds.begin_trans());
+    if let Some(x) = state.ds_state.as_mut() {
+        x.ds.begin_trans()?;
+    }
     state.cache.begin_trans()?;
 
     let result = match opt.cmd {
@@ -790,11 +792,21 @@ fn main() -> CMDResult {
 
         println!("fatal: {}", e);
 
-        state.ds_state.as_mut().map(|x| x.ds.rollback());
+        if let Some(x) = state.ds_state.as_mut() {
+            x.ds.rollback()?;
+        }
         state.cache.rollback()?;
     } else {
-        state.ds_state.as_mut().map(|x| x.ds.commit());
-        state.cache.commit()?;
+        // Nothing has been saved before this succeeds.
+        if let Some(x) = state.ds_state.as_mut() {
+            x.ds.commit()?;
+        }
+
+        // And everything that matters has been afterwards, without the cache the next command just
+        // has more to do.
+        if let Err(e) = state.cache.commit() {
+            log::warn!("Error {:?} saving the cache", e);
+        }
     }
 
     Ok(())
-- 
2.43.0


From 6df48f1b7c8c0b2aec6bbce75da4c7d6e3fb7227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:20 +0000
Subject: [PATCH 15/27] fix: refuse a checkout outside the permitted directory
 before changing anything

Files were truncated before the location was checked, and the check could be
led outside by `..` or links.
---
 src/dir.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 7445951..8d66eb2 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -293,6 +293,9 @@ pub fn get_fs_item<DS: DataStore>(
 
 #[derive(Debug, Error)]
 pub enum CheckoutFsItemError {
+    #[error("checking out to {_0:?} is not permitted")]
+    NotPermitted(PathBuf),
+
     #[error("io error: {_0}")]
     IOError(#[from] std::io::Error),
 
@@ -309,12 +312,29 @@ pub enum CheckoutFsItemError {
     UnimplementedFileTypeFound,
 }
 
+/// Whether this is below the only directory that checkout may change yet, wherever the path leads
+/// through links or `..`.
+fn checkout_permitted(path: &Path) -> Result<bool, std::io::Error> {
+    let real = match (std::fs::canonicalize(path), path.parent(), path.file_name()) {
+        (Err(e), Some(parent), Some(name)) if e.kind() == std::io::ErrorKind::NotFound => {
+            std::fs::canonicalize(parent)?.join(name)
+        }
+        (result, _, _) => result?,
+    };
+
+    Ok(real.starts_with("/home/jess/src/snapcd/repo"))
+}
+
 pub fn checkout_fs_item<DS: DataStore>(
     ds: &DS,
     key: TypedKey<FSItem>,
     path: &Path,
     filter: &dyn Fn(&DirEntry) -> bool,
 ) -> Result<(), CheckoutFsItemError> {
+    if !checkout_permitted(path)? {
+        return Err(CheckoutFsItemError::NotPermitted(path.to_path_buf()));
+    }
+
     let obj = ds.get_obj(key.into())?;
 
     let fsobj: FSItem = obj.try_into()?;
@@ -336,7 +356,6 @@ pub fn checkout_fs_item<DS: DataStore>(
             let extra: Vec<_> = fs_items.difference(&db_items).collect();
 
             for item in extra.iter() {
-                assert!(path.starts_with("/home/jess/src/snapcd/repo"));
                 let p = path.join(item);
                 let ft = std::fs::metadata(&p)?.file_type();
 
@@ -358,8 +377,6 @@ pub fn checkout_fs_item<DS: DataStore>(
         FSItemType::File => {
             let mut f = std::fs::File::create(path)?;
 
-            assert!(path.starts_with("/home/jess/src/snapcd/repo"));
-
             file::read_data(ds, fsobj.children[0].into(), &mut f)?;
         }
     }
-- 
2.43.0


From 19c3d8ca6b194811dcbce83ce1dfa8d2b155033b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:24 +0000
Subject: [PATCH 16/27] fix: leave excluded paths alone in a checkout

Excluded files in a directory that is removed were removed with it, and
excluded files that the committed tree has as well were overwritten.
---
 src/dir.rs | 54 +++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 8d66eb2..7456a8c 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -325,6 +325,34 @@ fn checkout_permitted(path: &Path) -> Result<bool, std::io::Error> {
     Ok(real.starts_with("/home/jess/src/snapcd/repo"))
 }
 
+/// Removes a file or a directory, except for what is excluded and the directories that it is in.
+/// Returns whether nothing is left.
+fn remove_fs_item(
+    path: &Path,
+    filter: &dyn Fn(&DirEntry) -> bool,
+) -> Result<bool, CheckoutFsItemError> {
+    // Links are removed, not what they lead to.
+    if std::fs::symlink_metadata(path)?.is_dir() {
+        let mut removed = true;
+
+        for item in std::fs::read_dir(path)? {
+            let item = item?;
+
+            removed &= filter(&item) && remove_fs_item(&item.path(), filter)?;
+        }
+
+        if removed {
+            std::fs::remove_dir(path)?;
+        }
+
+        return Ok(removed);
+    }
+
+    std::fs::remove_file(path)?;
+
+    Ok(true)
+}
+
 pub fn checkout_fs_item<DS: DataStore>(
     ds: &DS,
     key: TypedKey<FSItem>,
@@ -343,32 +371,24 @@ pub fn checkout_fs_item<DS: DataStore>(
         FSItemType::Dir => {
             let db_items: HashSet<PathBuf> = fsobj.children_names.iter().cloned().collect();
 
-            let mut fs_items = HashSet::new();
+            let mut excluded: HashSet<PathBuf> = HashSet::new();
 
             for item in std::fs::read_dir(&path)? {
                 let ok_item = item?;
+                let name = ok_item.file_name().into();
 
-                if filter(&ok_item) {
-                    fs_items.insert(ok_item.file_name().into());
+                if !filter(&ok_item) {
+                    excluded.insert(name);
+                } else if !db_items.contains(&name) {
+                    remove_fs_item(&ok_item.path(), filter)?;
                 }
             }
 
-            let extra: Vec<_> = fs_items.difference(&db_items).collect();
-
-            for item in extra.iter() {
-                let p = path.join(item);
-                let ft = std::fs::metadata(&p)?.file_type();
-
-                if ft.is_dir() {
-                    std::fs::remove_dir_all(p)?;
-                } else if ft.is_file() {
-                    std::fs::remove_file(p)?;
-                } else if ft.is_symlink() {
-                    return Err(CheckoutFsItemError::UnimplementedFileTypeFound);
+            for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
+                if excluded.contains(name) {
+                    continue;
                 }
-            }
 
-            for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
                 std::fs::create_dir_all(&path)?;
 
                 checkout_fs_item(ds, child, &path.join(&name), filter)?;
-- 
2.43.0


From 30398a41aa4b852ff6e0f40f360aa7d560cf819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:23 +0000
Subject: [PATCH 17/27] fix: check out new directories and changes between file
 and directory

---
 src/dir.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 7456a8c..2b61336 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -325,6 +325,22 @@ fn checkout_permitted(path: &Path) -> Result<bool, std::io::Error> {
     Ok(real.starts_with("/home/jess/src/snapcd/repo"))
 }
 
+/// Whether there is something excluded anywhere in a directory.
+fn holds_excluded(
+    path: &Path,
+    filter: &dyn Fn(&DirEntry) -> bool,
+) -> Result<bool, CheckoutFsItemError> {
+    for item in std::fs::read_dir(path)? {
+        let item = item?;
+
+        if !filter(&item) || item.file_type()?.is_dir() && holds_excluded(&item.path(), filter)? {
+            return Ok(true);
+        }
+    }
+
+    Ok(false)
+}
+
 /// Removes a file or a directory, except for what is excluded and the directories that it is in.
 /// Returns whether nothing is left.
 fn remove_fs_item(
@@ -371,6 +387,12 @@ pub fn checkout_fs_item<DS: DataStore>(
         FSItemType::Dir => {
             let db_items: HashSet<PathBuf> = fsobj.children_names.iter().cloned().collect();
 
+            if path.is_file() {
+                std::fs::remove_file(path)?;
+            }
+
+            std::fs::create_dir_all(path)?;
+
             let mut excluded: HashSet<PathBuf> = HashSet::new();
 
             for item in std::fs::read_dir(&path)? {
@@ -389,12 +411,14 @@ pub fn checkout_fs_item<DS: DataStore>(
                     continue;
                 }
 
-                std::fs::create_dir_all(&path)?;
-
                 checkout_fs_item(ds, child, &path.join(&name), filter)?;
             }
         }
         FSItemType::File => {
+            if path.is_dir() && !holds_excluded(path, filter)? {
+                std::fs::remove_dir_all(path)?;
+            }
+
             let mut f = std::fs::File::create(path)?;
 
             file::read_data(ds, fsobj.children[0].into(), &mut f)?;
-- 
2.43.0


From f301124d34a4c4f11ddb7f36073fa0040d070e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:22 +0000
Subject: [PATCH 18/27] fix: refuse stored names that lead elsewhere in a
 checkout

---
 src/dir.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dir.rs b/src/dir.rs
index 2b61336..35c0f64 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -293,6 +293,9 @@ pub fn get_fs_item<DS: DataStore>(
 
 #[derive(Debug, Error)]
 pub enum CheckoutFsItemError {
+    #[error("invalid name in stored directory: {_0:?}")]
+    InvalidName(PathBuf),
+
     #[error("checking out to {_0:?} is not permitted")]
     NotPermitted(PathBuf),
 
@@ -387,6 +390,10 @@ pub fn checkout_fs_item<DS: DataStore>(
         FSItemType::Dir => {
             let db_items: HashSet<PathBuf> = fsobj.children_names.iter().cloned().collect();
 
+            if let Some(name) = db_items.iter().find(|x| !is_plain_name(x)) {
+                return Err(CheckoutFsItemError::InvalidName(name.clone()));
+            }
+
             if path.is_file() {
                 std::fs::remove_file(path)?;
             }
-- 
2.43.0


From 0dee2ad4faac75acda926f2beab7f1d17ce4e9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:04 +0000
Subject: [PATCH 19/27] fix: exit with a nonzero status after a failure

---
 src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index a79526e..1ef5f73 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -796,6 +796,9 @@ fn main() -> CMDResult {
             x.ds.rollback()?;
         }
         state.cache.rollback()?;
+
+        drop(state);
+        std::process::exit(1);
     } else {
         // Nothing has been saved before this succeeds.
         if let Some(x) = state.ds_state.as_mut() {
-- 
2.43.0


From 81175fab398c0eaf45d1ecaeac60c73ffd12f527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:33 +0000
Subject: [PATCH 20/27] fix: do not show changes of binary files as patches of
 something else

Bytes that are not UTF-8 were replaced before comparing, so a change could be shown as none at all.
As for added and deleted files, there is no patch for them.
---
 src/diff.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index af5a4c3..4e6435e 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -512,11 +512,10 @@ pub fn create_diff_patch_result(
         let mut after = Vec::new();
         file::read_data(ds, modified.new_key.into(), &mut after).unwrap();
 
-        let before_str = String::from_utf8_lossy(&before);
-        let after_str = String::from_utf8_lossy(&after);
+        let before_str = String::from_utf8(before).map_err(|_| DiffPatchError::Binary)?;
+        let after_str = String::from_utf8(after).map_err(|_| DiffPatchError::Binary)?;
 
-        let patch_str =
-            patch_from_file_string(before_str.to_string(), after_str.to_string(), modified.path);
+        let patch_str = patch_from_file_string(before_str, after_str, modified.path);
 
         result.push_str(&patch_str);
     }
-- 
2.43.0


From 53cb89ff8eaccd6cf45b35119236c6dfbb8c4db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:33 +0000
Subject: [PATCH 21/27] fix: keep the current branch when initialising an
 existing repository

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 1ef5f73..a130720 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -464,7 +464,10 @@ fn init(state: &mut State, _args: InitArgs) -> CMDResult {
     std::fs::create_dir_all(&state.common.db_path)?;
     let ds = SqliteDS::new(&state.common.db_path.join("snapcd.db"))?;
 
-    ds.put_head("master")?;
+    // There may be a repository already, its current branch stays what it is.
+    if ds.get_head()?.is_none() {
+        ds.put_head("master")?;
+    }
 
     Ok(())
 }
-- 
2.43.0


From d7c9e9ee79721817424ac629c4057e25179b1c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:37 +0000
Subject: [PATCH 22/27] fix: fail when the last of the output cannot be written

---
 src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index a130720..82cbf4c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -790,6 +790,11 @@ fn main() -> CMDResult {
         Command::Ref(args) => ref_cmd(&mut state, args),
     };
 
+    // The end of the output may still be buffered, and nobody checks whether it can be written later.
+    if result.is_ok() {
+        std::io::Write::flush(&mut std::io::stdout())?;
+    }
+
     if let Err(e) = result {
         log::debug!("error debug: {:?}", e);
 
-- 
2.43.0


From f706c47dab66b6c6cbb921574eaade4edcc8da8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:38 +0000
Subject: [PATCH 23/27] fix: replace links in a checkout instead of writing to
 what they lead to

---
 src/dir.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/dir.rs b/src/dir.rs
index 35c0f64..b907e92 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -418,7 +418,19 @@ pub fn checkout_fs_item<DS: DataStore>(
                     continue;
                 }
 
-                checkout_fs_item(ds, child, &path.join(&name), filter)?;
+                let child_path = path.join(&name);
+
+                // Links are replaced, not what they lead to.
+                match std::fs::symlink_metadata(&child_path) {
+                    Ok(meta) if meta.file_type().is_symlink() => {
+                        std::fs::remove_file(&child_path)?;
+                    }
+                    Ok(_) => {}
+                    Err(e) if e.kind() == std::io::ErrorKind::NotFound => {}
+                    Err(e) => return Err(e.into()),
+                }
+
+                checkout_fs_item(ds, child, &child_path, filter)?;
             }
         }
         FSItemType::File => {
-- 
2.43.0


From ae2cdfd32e584b67b58cfaa7fba7b20dfdfe1d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:38 +0000
Subject: [PATCH 24/27] fix: do not panic on links that lead nowhere

---
 src/filter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/filter.rs b/src/filter.rs
index 01b3ca2..b16bd3d 100644
--- a/src/filter.rs
+++ b/src/filter.rs
@@ -16,7 +16,11 @@ pub fn make_filter_fn<T: AsRef<str>>(
     Box::new(move |direntry: &DirEntry| -> bool {
         let path = direntry.path();
 
-        let canon_path = std::fs::canonicalize(&path).unwrap();
+        let canon_path = match std::fs::canonicalize(&path) {
+            // A link that leads nowhere does not lead to the database.
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => path.clone(),
+            result => result.unwrap(),
+        };
         let canon_db_path = std::fs::canonicalize(&db_path).unwrap();
 
         if canon_path.starts_with(canon_db_path) {
-- 
2.43.0


From 23b73cd41e46e7453fefff47553dc85664c72c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:23 +0000
Subject: [PATCH 25/27] fix: refuse to let a reference lead to something other
 than a commit

---
 src/main.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 82cbf4c..e8b1f0a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -6,7 +6,7 @@
 
 use snapcd::{
     cache::SqliteCache, commit, diff, dir, display, ds::sqlite::SqliteDS, ds::GetReflogError,
-    ds::Transactional, filter, key, DataStore, Keyish, Reflog,
+    ds::Transactional, filter, key, object::ObjType, DataStore, Keyish, Reflog,
 };
 
 use colored::*;
@@ -240,6 +240,23 @@ struct DatabaseNotFoundError;
 )]
 struct NoHeadError;
 
+#[derive(Debug, Error)]
+#[error("{0} is not a {1}")]
+struct WrongObjectError(key::Key, &'static str);
+
+/// Finds a commit, other objects are refused.
+fn find_commit(
+    ds: &impl DataStore,
+    key: Keyish,
+) -> Result<key::TypedKey<commit::Commit>, anyhow::Error> {
+    let key = ds.canonicalize(key)?;
+
+    match ds.get_obj(key)?.objtype() {
+        ObjType::Commit => Ok(key.into()),
+        _ => Err(WrongObjectError(key, "commit").into()),
+    }
+}
+
 fn insert(state: &mut State, args: InsertArgs) -> CMDResult {
     let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;
 
@@ -300,7 +317,7 @@ fn ref_log(state: &mut State, args: RefLogArgs) -> CMDResult {
 fn ref_update(state: &mut State, args: RefUpdateArgs) -> CMDResult {
     let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;
 
-    let key = ds_state.ds.canonicalize(args.key)?;
+    let key = find_commit(&ds_state.ds, args.key)?;
 
     let refname = match args.refname {
         Some(s) => s,
@@ -308,7 +325,7 @@ fn ref_update(state: &mut State, args: RefUpdateArgs) -> CMDResult {
     };
 
     let log = Reflog {
-        key: key.into(),
+        key,
         refname,
         remote: None,
     };
@@ -419,10 +436,10 @@ fn debug_reflog_get(state: &mut State, args: ReflogGetArgs) -> CMDResult {
 fn debug_reflog_push(state: &mut State, args: ReflogPushArgs) -> CMDResult {
     let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;
 
-    let key = ds_state.ds.canonicalize(args.key)?;
+    let key = find_commit(&ds_state.ds, args.key)?;
 
     let log = Reflog {
-        key: key.into(),
+        key,
         refname: args.refname,
         remote: args.remote,
     };
-- 
2.43.0


From 7cd8548bba72fb295664aad25b4684e472d14ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:24 +0000
Subject: [PATCH 26/27] fix: refuse to make commits of objects that are no
 directories or commits

---
 src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e8b1f0a..27df8c4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -400,10 +400,15 @@ fn debug_commit_tree(state: &mut State, args: CommitTreeArgs) -> CMDResult {
 
     let tree = ds_state.ds.canonicalize(args.tree)?;
 
+    match ds_state.ds.get_obj(tree)?.objtype() {
+        ObjType::FSItemDir | ObjType::FSItemFile => {}
+        _ => return Err(WrongObjectError(tree, "file or directory").into()),
+    }
+
     let mut parents = Vec::with_capacity(args.parents.len());
 
     for parent in args.parents {
-        let key = ds_state.ds.canonicalize(parent)?;
+        let key = find_commit(&ds_state.ds, parent)?;
         parents.push(key);
     }
 
@@ -412,7 +417,7 @@ fn debug_commit_tree(state: &mut State, args: CommitTreeArgs) -> CMDResult {
     let commit = commit::commit_tree(
         &mut ds_state.ds,
         tree.into(),
-        parents.iter().map(|&x| x.into()).collect(),
+        parents,
         attrs,
     )?;
 
-- 
2.43.0


From 429aaba2e67c25c63c9193758d54b0ddf5b0a775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:39 +0000
Subject: [PATCH 27/27] fix: keep a power loss from leaving a cache that no
 command can use

---
 src/cache.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index bd9fb50..5360a19 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -90,8 +90,9 @@ impl SqliteCache {
 
         conn.pragma_update(None, &"journal_mode", &"WAL")?;
 
-        // It's a cache. Speed is more important than safety.
-        conn.pragma_update(None, &"synchronous", &"OFF")?;
+        // It's a cache. Speed is more important than safety: what was added last may be lost, but
+        // with OFF a power loss could leave a database that no command can use.
+        conn.pragma_update(None, &"synchronous", &"NORMAL")?;
 
         conn.execute_batch(
             "
-- 
2.43.0

