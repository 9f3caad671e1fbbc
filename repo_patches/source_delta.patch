From 0959234720c1cee8a094a4aeef8eb3d385a3457b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:18 +0000
Subject: [PATCH 1/8] fix: do not panic when a loaded signature chain or
 manifest is requested while a reference to it is held

---
 src/lib.rs | 49 +++++++++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2a3eafc..3e24d1c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -344,26 +344,24 @@ impl<B: Backend> ResourceCache for Backup<B> {
     }
 
     fn _signature_chain(&self, chain_id: usize) -> io::Result<Ref<Option<Chain>>> {
-        {
-            // check if there is a cached value
-            let mut sig = self.signatures[chain_id].borrow_mut();
-            if sig.is_none() {
-                // compute signatures now
-                if let Some(sigchain) = self.collections.signature_chains().nth(chain_id) {
-                    let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;
-                    *sig = Some(new_sig);
-                } else {
-                    return Err(not_found(
-                        "The given backup snapshot does not have a \
-                                         corresponding signature",
-                    ));
-                }
+        let cell = &self.signatures[chain_id];
+        // borrow mutably only when there is no cached value, since callers can still hold
+        // references to it
+        if cell.borrow().is_none() {
+            // compute signatures now
+            if let Some(sigchain) = self.collections.signature_chains().nth(chain_id) {
+                let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;
+                *cell.borrow_mut() = Some(new_sig);
+            } else {
+                return Err(not_found(
+                    "The given backup snapshot does not have a \
+                                     corresponding signature",
+                ));
             }
         }
 
-        // need to close previous scope to borrow again
         // return the cached value
-        Ok(self.signatures[chain_id].borrow())
+        Ok(cell.borrow())
     }
 
     fn _manifest(
@@ -371,19 +369,18 @@ impl<B: Backend> ResourceCache for Backup<B> {
         id: usize,
         path: &str,
     ) -> Result<Ref<Option<Manifest>>, manifest::ParseError> {
-        {
-            // check if there is a cached value
-            let mut sig = self.manifests[id].borrow_mut();
-            if sig.is_none() {
-                // compute manifest now
-                let mut file = io::BufReader::new(self.backend.open_file(Path::new(path))?);
-                *sig = Some(Manifest::parse(&mut file)?);
-            }
+        let cell = &self.manifests[id];
+        // borrow mutably only when there is no cached value, since callers can still hold
+        // references to it
+        if cell.borrow().is_none() {
+            // compute manifest now
+            let mut file = io::BufReader::new(self.backend.open_file(Path::new(path))?);
+            let manifest = Manifest::parse(&mut file)?;
+            *cell.borrow_mut() = Some(manifest);
         }
 
-        // need to close previous scope to borrow again
         // return the cached value
-        Ok(self.manifests[id].borrow())
+        Ok(cell.borrow())
     }
 }
 
-- 
2.43.0


From 0fab233c7c7fa1e22a2bcd85ed258878e7c026eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:29 +0000
Subject: [PATCH 2/8] fix: match each backup chain with the signature chain of
 the same full backup

The two lists were paired by position, so a missing signature file made entries()
panic, and a missing full backup made it list the files of another chain.
---
 src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3e24d1c..ac93a47 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -154,7 +154,7 @@ impl<B: Backend> Backup<B> {
         let files = backend.file_names()?;
         let collections = Collections::from_filenames(files);
         let signatures = collections
-            .signature_chains()
+            .backup_chains()
             .map(|_| RefCell::new(None))
             .collect();
         let manifests = (0..collections.num_snapshots())
@@ -349,7 +349,18 @@ impl<B: Backend> ResourceCache for Backup<B> {
         // references to it
         if cell.borrow().is_none() {
             // compute signatures now
-            if let Some(sigchain) = self.collections.signature_chains().nth(chain_id) {
+            // the lists of backup and signature chains are not parallel when some file is missing,
+            // so match them by the time of their full backup
+            let start_time = self
+                .collections
+                .backup_chains()
+                .nth(chain_id)
+                .map(|chain| chain.start_time());
+            let sigchain = self
+                .collections
+                .signature_chains()
+                .find(|chain| Some(chain.start_time()) == start_time);
+            if let Some(sigchain) = sigchain {
                 let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;
                 *cell.borrow_mut() = Some(new_sig);
             } else {
-- 
2.43.0


From b88fe72da0093e907363e0040226ae816fa86153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:30 +0000
Subject: [PATCH 3/8] fix: do not size the list of volumes by the number in a
 file name

A file name with a big volume number overflowed or exhausted the memory, and the
number of volumes counted the unused slots (volumes are numbered starting from one).
---
 src/collections/mod.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/collections/mod.rs b/src/collections/mod.rs
index 2e8ad86..c38f178 100644
--- a/src/collections/mod.rs
+++ b/src/collections/mod.rs
@@ -5,6 +5,7 @@
 
 mod file_naming;
 
+use std::collections::BTreeMap;
 use std::fmt::{Display, Error, Formatter};
 use std::path::Path;
 use std::slice;
@@ -56,7 +57,7 @@ pub struct BackupSet {
     encrypted: bool,
     partial: bool,
     manifest_path: String,
-    volumes_paths: Vec<Option<String>>,
+    volumes_paths: BTreeMap<usize, String>,
 }
 
 /// Information about a signature file.
@@ -143,8 +144,8 @@ impl BackupSet {
     /// Returns the path of the given volume.
     pub fn volume_path(&self, volume_num: usize) -> Option<&str> {
         self.volumes_paths
-            .get(volume_num)
-            .and_then(|v| v.as_ref().map(AsRef::as_ref))
+            .get(&volume_num)
+            .map(AsRef::as_ref)
     }
 
     /// Returns the number of volumes in the set.
@@ -238,7 +239,7 @@ impl BackupSet {
             compressed: fname.info.compressed,
             encrypted: fname.info.encrypted,
             manifest_path: String::new(),
-            volumes_paths: Vec::new(),
+            volumes_paths: BTreeMap::new(),
         };
         result.add_filename(fname);
         result
@@ -259,14 +260,7 @@ impl BackupSet {
             // update info
             match pr.tp {
                 fnm::Type::Full { volume_number, .. } | fnm::Type::Inc { volume_number, .. } => {
-                    // resize volumes if necessary
-                    if volume_number >= self.volumes_paths.len() {
-                        self.volumes_paths.reserve(volume_number + 1);
-                        for _ in self.volumes_paths.len()..volume_number + 1 {
-                            self.volumes_paths.push(None);
-                        }
-                    }
-                    self.volumes_paths[volume_number] = Some(fname.to_owned());
+                    self.volumes_paths.insert(volume_number, fname.to_owned());
                 }
                 fnm::Type::FullManifest { .. } | fnm::Type::IncManifest { .. } => {
                     self.manifest_path = fname.to_owned();
-- 
2.43.0


From f688acd5ebdd1eb4a485c70bf16d2119ded6a2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 4/8] fix: count the snapshots of a signature chain with a
 usize

A chain with more than 255 signatures panicked or wrapped the counter. Besides, nth
overflowed with big arguments and did not consume the iterator when past the end, and
size_hint did not agree with len.
---
 src/signatures.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 152c5ce..ee96ed6 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -24,7 +24,7 @@ use crate::timefmt::TimeDisplay;
 /// The information is reused among different snapshots if possible.
 #[derive(Debug)]
 pub struct Chain {
-    num_snapshots: u8,
+    num_snapshots: usize,
     files: Vec<PathSnapshots>,
     ug_map: UserGroupMap,
 }
@@ -33,20 +33,20 @@ pub struct Chain {
 #[derive(Debug)]
 pub struct Snapshots<'a> {
     chain: &'a Chain,
-    snapshot_id: u8,
+    snapshot_id: usize,
 }
 
 /// A signature for a backup snapshot.
 #[derive(Debug)]
 pub struct Snapshot<'a> {
     chain: &'a Chain,
-    index: u8,
+    index: usize,
 }
 
 /// Files and directories inside a backup snapshot.
 #[derive(Clone)]
 pub struct SnapshotEntries<'a> {
-    index: u8,
+    index: usize,
     iter: slice::Iter<'a, PathSnapshots>,
     chain: &'a Chain,
 }
@@ -105,7 +105,7 @@ struct PathSnapshot {
     // info are None if the snapshot has deleted this path
     info: Option<PathInfo>,
     // the index of the snapshot in the chain
-    index: u8,
+    index: usize,
 }
 
 #[derive(Debug)]
@@ -187,7 +187,7 @@ impl Chain {
     fn add_sigtar_to_snapshots<R: Read>(
         &mut self,
         mut tar: tar::Archive<R>,
-        snapshot_id: u8,
+        snapshot_id: usize,
     ) -> io::Result<()> {
         let mut new_files: Vec<PathSnapshots> = Vec::new();
         {
@@ -297,28 +297,28 @@ impl<'a> Iterator for Snapshots<'a> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Snapshot<'a>> {
-        use std::u8;
-
-        // check for u8 overflow to be fool-proof
-        if n + self.snapshot_id as usize >= u8::MAX as usize {
-            return None;
-        }
-        let id = self.snapshot_id + n as u8;
-        if id < self.chain.num_snapshots {
+        if n < self.len() {
+            let id = self.snapshot_id + n;
             self.snapshot_id = id + 1;
             Some(Snapshot {
                 chain: self.chain,
                 index: id,
             })
         } else {
+            // all the remaining elements are consumed
+            self.snapshot_id = self.chain.num_snapshots;
             None
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<'a> ExactSizeIterator for Snapshots<'a> {
     fn len(&self) -> usize {
-        (self.chain.num_snapshots - self.snapshot_id) as usize
+        self.chain.num_snapshots - self.snapshot_id
     }
 }
 
-- 
2.43.0


From fec9425a42348afc233a6107112bd90769ffb339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 5/8] fix: do not overflow on signatures with an invalid size

A signature entry with a declared size smaller than its header, or with a huge one,
panicked instead of giving no size hint.
---
 src/signatures.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index ee96ed6..72360b6 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -624,9 +624,9 @@ fn compute_size_hint_signature<R: Read>(file: &mut tar::Entry<R>) -> Option<(usi
         let sign_block_len_bytes = 4 + ss_len;
         // the remaining part of the file are blocks
         let file_size = file.header().size().ok()? as usize;
-        let num_blocks = (file_size - 8) / sign_block_len_bytes;
+        let num_blocks = file_size.checked_sub(8)? / sign_block_len_bytes;
 
-        let max_file_len = file_block_len_bytes * num_blocks;
+        let max_file_len = file_block_len_bytes.checked_mul(num_blocks)?;
         if max_file_len > file_block_len_bytes {
             Some((max_file_len - file_block_len_bytes + 1, max_file_len))
         } else {
-- 
2.43.0


From 1ca592a05f6013211e370829c8aefd8c6fa57002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 6/8] fix: merge the signatures with the same path order they
 are sorted with

The files are sorted by path components, but they were merged by comparing raw bytes:
an incremental snapshot changing "a.txt" beside a directory "a" listed it twice.
---
 src/signatures.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/signatures.rs b/src/signatures.rs
index 72360b6..64ffb06 100644
--- a/src/signatures.rs
+++ b/src/signatures.rs
@@ -225,6 +225,7 @@ impl Chain {
                     }
                     _ => None,
                 };
+                let path = RawPath::from_bytes(path.to_owned());
                 let new_snapshot = PathSnapshot {
                     info: info,
                     index: snapshot_id,
@@ -236,11 +237,11 @@ impl Chain {
                     loop {
                         let mut found = false;
                         if let Some(path_snapshots) = old_snapshots.peek() {
-                            let old_path = path_snapshots.path.as_bytes();
-                            if old_path == path {
+                            let old_path = &path_snapshots.path;
+                            if *old_path == path {
                                 // this path is already present in old snapshots: update them
                                 found = true;
-                            } else if old_path > path {
+                            } else if *old_path > path {
                                 // we've already reached the first item next to the current path
                                 // so, the path is not present in old snapshots
                                 break;
@@ -263,7 +264,7 @@ impl Chain {
                 } else {
                     // the path is not present in the old snapshots: add to new list
                     new_files.push(PathSnapshots {
-                        path: RawPath::from_bytes(path.to_owned()),
+                        path: path,
                         snapshots: vec![new_snapshot],
                     });
                 }
-- 
2.43.0


From db9a8c7e2bcee8cf93d379bea839845cea6cf7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 7/8] fix: find the volumes of a path with the path order of
 duplicity

Volumes are sorted by path components, so comparing raw bytes in the binary search missed
paths such as "a/b" in a volume which ends with "a.txt".
---
 src/manifest.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/manifest.rs b/src/manifest.rs
index 48276eb..09dfa8c 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -103,10 +103,12 @@ impl Manifest {
     /// * duplicity supports non-UTF8 paths;
     /// * under Windows `Path` is not allowed to contain non-UTF8 sequences.
     pub fn first_volume_of_path(&self, path: &[u8]) -> Option<usize> {
+        // volumes are sorted by path components, not by bytes
+        let path = RawPath::from_bytes(path.to_owned());
         self.volumes
-            .binary_search_by(|v| match path.cmp(v.start_path_bytes()) {
+            .binary_search_by(|v| match path.cmp(&v.start_path.path) {
                 Ordering::Less => Ordering::Greater,
-                Ordering::Greater => match path.cmp(v.end_path_bytes()) {
+                Ordering::Greater => match path.cmp(&v.end_path.path) {
                     Ordering::Less | Ordering::Equal => Ordering::Equal,
                     Ordering::Greater => Ordering::Less,
                 },
@@ -126,10 +128,12 @@ impl Manifest {
     /// * duplicity supports non-UTF8 paths;
     /// * under Windows `Path` is not allowed to contain non-UTF8 sequences.
     pub fn last_volume_of_path(&self, path: &[u8]) -> Option<usize> {
+        // volumes are sorted by path components, not by bytes
+        let path = RawPath::from_bytes(path.to_owned());
         self.volumes
-            .binary_search_by(|v| match path.cmp(v.end_path_bytes()) {
+            .binary_search_by(|v| match path.cmp(&v.end_path.path) {
                 Ordering::Greater => Ordering::Less,
-                Ordering::Less => match path.cmp(v.start_path_bytes()) {
+                Ordering::Less => match path.cmp(&v.start_path.path) {
                     Ordering::Greater | Ordering::Equal => Ordering::Equal,
                     Ordering::Less => Ordering::Greater,
                 },
-- 
2.43.0


From a16faef8f70fc8dc9778b48a1d0ff5f08d0ad557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:32 +0000
Subject: [PATCH 8/8] fix: do not panic when displaying a time out of the range
 of the system

The modification times are read from the signatures and can be any 64-bit number.
---
 src/timefmt.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/timefmt.rs b/src/timefmt.rs
index 0074ad2..6362fa0 100644
--- a/src/timefmt.rs
+++ b/src/timefmt.rs
@@ -53,11 +53,22 @@ impl TimeDisplay for Timespec {
     type D = PrettyDisplay;
 
     fn into_local_display(self) -> Self::D {
-        PrettyDisplay(time::at(self))
+        PrettyDisplay(time::at(displayable(self)))
     }
 
     fn into_utc_display(self) -> Self::D {
-        PrettyDisplay(time::at_utc(self))
+        PrettyDisplay(time::at_utc(displayable(self)))
+    }
+}
+
+/// Restricts a time to the years from 1 to 9999, since the time functions of the system panic for
+/// the ones that can't be represented.
+fn displayable(time: Timespec) -> Timespec {
+    const MIN_SEC: i64 = -62_135_596_800; // 0001-01-01T00:00:00Z
+    const MAX_SEC: i64 = 253_402_300_799; // 9999-12-31T23:59:59Z
+    Timespec {
+        sec: time.sec.max(MIN_SEC).min(MAX_SEC),
+        nsec: time.nsec,
     }
 }
 
-- 
2.43.0

