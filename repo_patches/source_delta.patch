From 416d659f27d16fc520714ba015b7758fd1c0fdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:01 +0000
Subject: [PATCH 01/19] fix: do not clean up deprecated RRDP files that are in
 use again

When a source returned to an earlier session its files were published again
while still listed as deprecated, and removed once the cleanup time passed.
---
 src/rrdp.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index c57166e..a18bbcc 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -369,6 +369,10 @@ impl RrdpState {
         self.deltas.sort_by_key(|d| d.serial());
         self.deltas.reverse();
 
+        // A file that is in use (again), e.g. because the source came back to
+        // an earlier session, must not be cleaned up.
+        self.undeprecate_current_files();
+
         // Clean up any RRDP files and empty parent directories if they had been
         // deprecated for more than the configured 'cleanup_after' time.
         self.clean(config)?;
@@ -576,6 +580,18 @@ impl RrdpState {
         }
     }
 
+    /// Forget about the deprecation of files that are part of the current set.
+    fn undeprecate_current_files(&mut self) {
+        let mut current: Vec<PathBuf> = self
+            .deltas
+            .iter()
+            .map(|delta| self.mappings.path(delta.rel_path()))
+            .collect();
+        current.extend(self.snapshot_path());
+
+        self.deprecated_files.retain(|d| !current.contains(&d.path));
+    }
+
     /// Remove all deltas put them on the deprecated file list.
     fn deltas_deprecate_all(&mut self) {
         for delta in &self.deltas {
-- 
2.43.0


From 2c068ca3b5237387c7dbd470b470c81f96dddea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:21 +0000
Subject: [PATCH 02/19] fix: clean up RRDP files only after the notification
 file is replaced

With a cleanup time that had passed (or 0) files were removed while the
published notification file still referenced them. An interrupted run left
it dangling.
---
 src/process.rs | 12 ++++++++++--
 src/rrdp.rs    | 14 +++++++-------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 2790ad8..e9c6e3c 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -105,8 +105,6 @@ pub fn process(config: &Config) -> Result<()> {
     // - updates the RrdpState with new content,
     // - deprecate old files
     // - move new snapshot and deltas to the target RRDP dir
-    // - clean up old files, deprecated for the configured time
-    // - move new notification file to the target RRDP dir
     rrdp_state.apply_staged_changed(staged, config)?;
 
     // ===================================================================
@@ -146,6 +144,16 @@ pub fn process(config: &Config) -> Result<()> {
     // ===================================================================
     rrdp_state.persist(&config.rrdp_state_path())?;
 
+    // ===================================================================
+    // Clean up old files, deprecated for the configured time
+    // ===================================================================
+    //
+    // This is done last because the old notification file may still refer
+    // to these files until it is replaced, also in case this run or an
+    // earlier run was interrupted before that.
+    rrdp_state.clean(config)?;
+    rrdp_state.persist(&config.rrdp_state_path())?;
+
     Ok(())
 }
 
diff --git a/src/rrdp.rs b/src/rrdp.rs
index a18bbcc..87ceb1f 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -328,8 +328,6 @@ impl RrdpState {
     /// - updates the RrdpState with new content
     /// - deprecate old files
     /// - move new snapshot and deltas to the target RRDP dir
-    /// - clean up old files, deprecated for the configured time
-    /// - move new notification file to the target RRDP dir
     pub fn apply_staged_changed(
         &mut self,
         mut staged: StagedChanges,
@@ -373,14 +371,16 @@ impl RrdpState {
         // an earlier session, must not be cleaned up.
         self.undeprecate_current_files();
 
-        // Clean up any RRDP files and empty parent directories if they had been
-        // deprecated for more than the configured 'cleanup_after' time.
-        self.clean(config)?;
-
         Ok(())
     }
 
-    /// Cleans deprecated files and their parent directories if they are empty
+    /// Cleans deprecated files and their parent directories if they are empty.
+    ///
+    /// Any RRDP files and empty parent directories are removed if they had been
+    /// deprecated for more than the configured 'cleanup_after' time.
+    ///
+    /// This must not be called before the notification file was updated, because
+    /// the files may still be referenced by the notification file until then.
     pub fn clean(&mut self, config: &Config) -> Result<()> {
         let clean_before = Time::seconds_ago(config.cleanup_after);
 
-- 
2.43.0


From b8fa5677a714fc941fe0639f23be33be9429aa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:21 +0000
Subject: [PATCH 03/19] fix: never clean up the current rsync directory

A revision that became current again, because of a repeated run or because
the source came back to it, was deprecated and removed after the cleanup time.
---
 src/rsync.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index c34748e..d472167 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -183,11 +183,15 @@ impl RsyncDirState {
     }
 
     /// Updates the current revision for this state, moves a possible
-    /// existing current state to old.
+    /// existing current state to old. The new current revision is no longer
+    /// considered old in case the source came back to an earlier revision.
     fn update_current(&mut self, current: RsyncRevision) {
-        let existing = std::mem::replace(&mut self.current, Some(current));
+        self.old.retain(|old| old.revision != current);
+        let existing = self.current.replace(current);
         if let Some(existing) = existing {
-            self.old.push(existing.deprecate());
+            if self.current.as_ref() != Some(&existing) {
+                self.old.push(existing.deprecate());
+            }
         }
     }
 
-- 
2.43.0


From e0f70f6978196ba119eb7cc3bb92684101616f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:00 +0000
Subject: [PATCH 04/19] fix: save state files by renaming a temporary file

An interrupted save left a partial state file, which made all later runs fail.
---
 src/file_ops.rs | 17 +++++++++++++++++
 src/rrdp.rs     |  2 +-
 src/rsync.rs    |  3 ++-
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 3ea154c..8300d24 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -8,6 +8,8 @@ use anyhow::{anyhow, Context, Result};
 use bytes::Bytes;
 use log::trace;
 
+use crate::config;
+
 pub fn write_buf(file_path: &Path, buf: &[u8]) -> Result<()> {
     create_file(file_path)?
         .write_all(buf)
@@ -16,6 +18,21 @@ pub fn write_buf(file_path: &Path, buf: &[u8]) -> Result<()> {
     Ok(())
 }
 
+/// Writes the file by means of a temporary file, which is then renamed, so
+/// that there is either the old or the complete new file at any time.
+pub fn write_buf_atomic(file_path: &Path, buf: &[u8]) -> Result<()> {
+    let tmp_path = path_with_extension(file_path, config::TMP_FILE_EXT);
+    write_buf(&tmp_path, buf)?;
+
+    std::fs::rename(&tmp_path, file_path).with_context(|| {
+        format!(
+            "Could not rename {} to {}",
+            tmp_path.display(),
+            file_path.display()
+        )
+    })
+}
+
 /// Create an empty file for a path
 pub fn create_file(file_path: &Path) -> Result<std::fs::File> {
     create_path_for_file(file_path)?;
diff --git a/src/rrdp.rs b/src/rrdp.rs
index 87ceb1f..b7f46c7 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -410,7 +410,7 @@ impl RrdpState {
         debug!("Saving RRDP state to disk");
         let json = serde_json::to_string_pretty(&self)?;
 
-        file_ops::write_buf(path, json.as_bytes())
+        file_ops::write_buf_atomic(path, json.as_bytes())
             .with_context(|| format!("Could not save state to {}.", path.display()))
     }
 
diff --git a/src/rsync.rs b/src/rsync.rs
index d472167..130d6f2 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -179,7 +179,8 @@ impl RsyncDirState {
     fn persist(&self, config: &Config) -> Result<()> {
         let state_path = config.rsync_state_path();
         let json = serde_json::to_string_pretty(&self)?;
-        file_ops::write_buf(&state_path, json.as_bytes()).with_context(|| "Could not save state.")
+        file_ops::write_buf_atomic(&state_path, json.as_bytes())
+            .with_context(|| "Could not save state.")
     }
 
     /// Updates the current revision for this state, moves a possible
-- 
2.43.0


From 1028d181f1fa778e25c2f83b067e305a6501fee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:24 +0000
Subject: [PATCH 05/19] fix: do not accept a not modified response if there is
 no data

For a snapshot or delta the file was considered to be saved, and left over
staged content that failed the hash check before was published. For the
notification file a first run ended successfully without publishing anything.
---
 src/fetch.rs | 7 +++++--
 src/rrdp.rs  | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fetch.rs b/src/fetch.rs
index 70e35c4..e0e250e 100644
--- a/src/fetch.rs
+++ b/src/fetch.rs
@@ -318,11 +318,14 @@ impl Fetcher {
             }
         }
         let source = self.resolve_source(uri)?;
-        source
+        let response = source
             .fetch(Some(hash), None, Some(target))
             .map_err(|e| anyhow!("Could not read snapshot: {}", e))?;
 
-        Ok(())
+        match response {
+            FetchResponse::Saved => Ok(()),
+            _ => Err(anyhow!("Got no data for: {}", uri)),
+        }
     }
 
     pub fn resolve_source(&self, uri: &uri::Https) -> Result<FetchSource> {
diff --git a/src/rrdp.rs b/src/rrdp.rs
index b7f46c7..baee84c 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -98,6 +98,9 @@ impl RrdpState {
         let fetcher = config.fetcher();
 
         match self.notification_source.fetch(&fetcher)? {
+            None if self.snapshot.is_none() => Err(anyhow!(
+                "Notification file was not modified according to the source, but there is no data for it"
+            )),
             None => {
                 debug!("Notification file at source to sync was not changed, no updated needed.");
                 Ok(None)
-- 
2.43.0


From 9240c005b8b29730f0f4f964f23ddf9a8e255b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:24 +0000
Subject: [PATCH 06/19] fix: refuse source URIs that lead outside of the
 configured directories

Dot segments and absolute paths in snapshot and delta URIs, and dot segments
for the host and module of rsync URIs, were used in paths on disk as is.
---
 src/rrdp.rs  | 19 +++++++++++++++----
 src/rsync.rs |  9 ++++++++-
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index baee84c..585c907 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -1,6 +1,6 @@
 use std::{
     fs,
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
 };
 
 use anyhow::{anyhow, Context, Result};
@@ -677,11 +677,22 @@ impl SourceMappings {
 
     /// Derives the relative path of the given URI versus the base URI.
     /// Returns an error in case the URI is not relative to the base URI.
+    /// Also returns an error if the relative path is absolute or has dot segments,
+    /// because it would then not be under the base directory.
     pub fn relative(&self, uri: &Https) -> Result<String> {
-        uri.as_str()
+        let relative = uri
+            .as_str()
             .strip_prefix(self.base_uri.as_str())
-            .ok_or_else(|| anyhow!("Uri {} not relative to base uri: {}", uri, self.base_uri))
-            .map(|s| s.to_string())
+            .ok_or_else(|| anyhow!("Uri {} not relative to base uri: {}", uri, self.base_uri))?;
+
+        if !Path::new(relative)
+            .components()
+            .all(|component| matches!(component, Component::Normal(_)))
+        {
+            return Err(anyhow!("Uri {} has no usable relative path", uri));
+        }
+
+        Ok(relative.to_string())
     }
 
     /// Resolve the given relative path under the base URI.
diff --git a/src/rsync.rs b/src/rsync.rs
index 130d6f2..db7f2af 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -4,7 +4,7 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use anyhow::{Context, Result};
+use anyhow::{anyhow, Context, Result};
 
 use filetime::{set_file_mtime, FileTime};
 use log::{error, info, warn};
@@ -307,7 +307,14 @@ impl ProcessSnapshot for RsyncFromSnapshotWriter {
         uri: rpki::uri::Rsync,
         data: &mut rpki::rrdp::ObjectReader,
     ) -> Result<()> {
+        // Note that the path of an rsync URI cannot have any dot segments, but
+        // its authority and module name can.
         let path = if self.include_host_and_module {
+            for name in [uri.authority(), uri.module_name()] {
+                if name == "." || name == ".." {
+                    return Err(anyhow!("Cannot use host or module name of uri: {}", uri));
+                }
+            }
             self.out_path.join(format!(
                 "{}/{}/{}",
                 uri.authority(),
-- 
2.43.0


From 0dfbe736ba85985facd14cf37e072c9f43aee8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 07/19] fix: refuse a snapshot or delta in place of the
 notification file

If the source used the notification URI for its snapshot or a delta then that
was published as the notification file.
---
 src/rrdp.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index 585c907..97e0e58 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -488,6 +488,21 @@ impl RrdpState {
         ))
     }
 
+    /// Derives the relative path for a snapshot or delta file. Returns an error
+    /// if there is none, or if it would take the place of the notification file.
+    fn relative_path(&self, uri: &Https) -> Result<String> {
+        let rel_path = self.mappings.relative(uri)?;
+
+        let tmp_name = self.notification_source.tmp_name();
+        for name in [self.notification_source.name(), &tmp_name] {
+            if Path::new(&rel_path).starts_with(name) {
+                return Err(anyhow!("Uri {} is used for the notification file", uri));
+            }
+        }
+
+        Ok(rel_path)
+    }
+
     /// Update the snapshot, downloads it and checks the hash,
     /// and deprecates the old snapshot if it exists.
     fn snapshot_stage(
@@ -497,12 +512,10 @@ impl RrdpState {
         config: &Config,
     ) -> Result<SnapshotState> {
         let snapshot_info = notification.snapshot();
-        let relative_name = self.mappings.relative(snapshot_info.uri())?;
-        let target = config.staging_path(&relative_name);
+        let rel_path = self.relative_path(snapshot_info.uri())?;
+        let target = config.staging_path(&rel_path);
         fetcher.retrieve_file(snapshot_info.uri(), snapshot_info.hash(), &target)?;
 
-        let rel_path = self.mappings.relative(snapshot_info.uri())?;
-
         Ok(SnapshotState::create(
             notification.session_id(),
             notification.serial(),
@@ -551,13 +564,11 @@ impl RrdpState {
                 let uri = delta.uri();
                 let hash = delta.hash();
 
-                let relative_path = self.mappings.relative(uri)?;
-                let target = config.staging_path(&relative_path);
+                let rel_path = self.relative_path(uri)?;
+                let target = config.staging_path(&rel_path);
 
                 fetcher.retrieve_file(uri, hash, &target)?;
 
-                let rel_path = self.mappings.relative(uri)?;
-
                 new_deltas.push(DeltaState::create(serial, hash, rel_path));
             }
         }
-- 
2.43.0


From e58a7ad2a447807f96358f3200abd2f9c3ad65fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 08/19] fix: accept 0 for the maximum number of deltas

The run panicked if the source had any deltas.
---
 src/rrdp.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index 97e0e58..11800a3 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -106,6 +106,15 @@ impl RrdpState {
                 Ok(None)
             }
             Some((mut notification_file, notification_etag)) => {
+                if limit == Some(0) {
+                    notification_file = NotificationFile::new(
+                        notification_file.session_id(),
+                        notification_file.serial(),
+                        notification_file.snapshot().clone(),
+                        vec![],
+                    );
+                }
+
                 if !notification_file.sort_and_verify_deltas(limit) {
                     return Err(anyhow!("Notification file contained gaps in deltas"));
                 }
-- 
2.43.0


From a1baccada1409e980435d73c70b3db7305f223ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 09/19] fix: do not start with new state if the state file
 cannot be accessed

An existing state file for which the check failed was treated as absent, and
replaced by a new state without the deprecated files and revisions.
---
 src/process.rs | 11 ++++++++---
 src/rsync.rs   |  8 +++++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index e9c6e3c..35fc240 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1,6 +1,6 @@
 use std::{process::Command, str::from_utf8};
 
-use anyhow::{anyhow, Result};
+use anyhow::{anyhow, Context, Result};
 use log::{debug, error, info};
 
 use crate::{config::Config, rrdp::RrdpState, rsync};
@@ -14,8 +14,13 @@ pub fn process(config: &Config) -> Result<()> {
     //  - recover if prior state exists; or
     //  - create a new state based on config
     // ===================================================================
-    let mut rrdp_state = if config.rrdp_state_path().exists() {
-        RrdpState::recover(&config.rrdp_state_path())?
+    let rrdp_state_path = config.rrdp_state_path();
+    let rrdp_state_exists = rrdp_state_path
+        .try_exists()
+        .with_context(|| format!("Cannot access state file: {}", rrdp_state_path.display()))?;
+
+    let mut rrdp_state = if rrdp_state_exists {
+        RrdpState::recover(&rrdp_state_path)?
     } else {
         RrdpState::create(config)?
     };
diff --git a/src/rsync.rs b/src/rsync.rs
index db7f2af..838794f 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -157,7 +157,13 @@ impl RsyncDirState {
     /// a new blank state.
     fn recover(config: &Config) -> Result<Self> {
         let state_path = config.rsync_state_path();
-        if state_path.exists() {
+        let exists = state_path.try_exists().with_context(|| {
+            format!(
+                "Cannot access rsync state file at: {}",
+                state_path.display()
+            )
+        })?;
+        if exists {
             let json_bytes = file_ops::read_file(&state_path).with_context(|| {
                 format!("Cannot read rsync state file at: {}", state_path.display())
             })?;
-- 
2.43.0


From 87bd7bd5d153e7b8f4e970eace018417e3d170b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 10/19] fix: do not rewrite files in an existing rsync revision
 directory

When an update is repeated, because an earlier run was interrupted, its rsync
revision can be current already. Clients saw partial files in that case.
---
 src/rsync.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index 838794f..8e525d9 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -338,13 +338,21 @@ impl ProcessSnapshot for RsyncFromSnapshotWriter {
         let mut bytes: Vec<u8> = vec![];
         data.read_to_end(&mut bytes)?;
 
-        file_ops::write_buf(&path, &bytes).with_context(|| {
-            format!(
-                "Could not copy element for uri: {}, to path: {}",
-                uri,
-                path.to_string_lossy()
-            )
-        })?;
+        // Do not write the file again if it is there already. In that case this
+        // may well be the current directory.
+        let unchanged = file_ops::read_file(&path)
+            .map(|existing| existing == bytes)
+            .unwrap_or(false);
+
+        if !unchanged {
+            file_ops::write_buf(&path, &bytes).with_context(|| {
+                format!(
+                    "Could not copy element for uri: {}, to path: {}",
+                    uri,
+                    path.to_string_lossy()
+                )
+            })?;
+        }
 
         fix_since(&path, &bytes);
 
-- 
2.43.0


From bb2c76c0720b193ad44a298ce56b6b26e4b7cc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 11/19] fix: do not overwrite a published RRDP file in place
 when it is copied

If the staging and RRDP directories are on different file systems then a file
that is published already, as part of an earlier interrupted run, was truncated
before it was written again.
---
 src/file_ops.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 8300d24..3b18a85 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -72,11 +72,24 @@ pub fn move_file(source_base_dir: &Path, target_base_dir: &Path, relative: &str)
     }
 
     if std::fs::rename(&original_file, &target_file).is_err() {
-        // Move failed. Try to copy and delete instead.
-        std::fs::copy(&original_file, &target_file).with_context(|| {
+        // Move failed. Try to copy and delete instead. Copy to a temporary file
+        // first, the target may be in use already and must not be truncated.
+        let mut tmp_file = target_file.clone().into_os_string();
+        tmp_file.push(".tmp");
+        let tmp_file = PathBuf::from(tmp_file);
+
+        std::fs::copy(&original_file, &tmp_file).with_context(|| {
             format!(
                 "Cannot copy file from {} to {}",
                 original_file.to_string_lossy(),
+                tmp_file.to_string_lossy()
+            )
+        })?;
+
+        std::fs::rename(&tmp_file, &target_file).with_context(|| {
+            format!(
+                "Could not rename {} to {}",
+                tmp_file.to_string_lossy(),
                 target_file.to_string_lossy()
             )
         })?;
-- 
2.43.0


From 212db6e50a48ce4cb7e6ddf359dbc0936a9758fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:41 +0000
Subject: [PATCH 12/19] fix: use the current configuration with existing state

Changes to the RRDP directory or notification URI were ignored, or had effect
in part, once there was saved state.
---
 src/process.rs |  1 +
 src/rrdp.rs    | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/src/process.rs b/src/process.rs
index 35fc240..50de70b 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -24,6 +24,7 @@ pub fn process(config: &Config) -> Result<()> {
     } else {
         RrdpState::create(config)?
     };
+    rrdp_state.reconfigure(config)?;
 
     // ===================================================================
     // Update the RRDP state, if there are any changes in the source.
diff --git a/src/rrdp.rs b/src/rrdp.rs
index 11800a3..1ad2392 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -87,6 +87,39 @@ impl RrdpState {
         Ok(recovered)
     }
 
+    /// Adapts recovered state to the current configuration.
+    ///
+    /// If the notification URI or RRDP directory were changed, then the known
+    /// content is not what needs to be published there and all content will be
+    /// retrieved again.
+    pub fn reconfigure(&mut self, config: &Config) -> Result<()> {
+        let mappings = SourceMappings::build(config)?;
+
+        if self.notification_source.uri == config.notification_uri && self.mappings == mappings {
+            return Ok(());
+        }
+
+        info!("The notification URI or RRDP directory changed, will start from scratch.");
+
+        if self.mappings.rrdp_dir == mappings.rrdp_dir {
+            // We still manage this directory, so clean up later.
+            if let Some(old_path) = self.snapshot_path() {
+                self.deprecated_files.push(DeprecatedFile::new(old_path));
+            }
+            self.deltas_deprecate_all();
+        } else {
+            // We do not touch a directory that is no longer configured.
+            self.deprecated_files = vec![];
+            self.deltas = vec![];
+        }
+
+        self.snapshot = None;
+        self.notification_source = NotificationSource::build(config.notification_uri.clone())?;
+        self.mappings = mappings;
+
+        Ok(())
+    }
+
     /// Get updates and saved them into the staging directory.
     ///
     /// Returns:
-- 
2.43.0


From 9f4209c60f42707c842ba90d139ef29ced33c8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:41 +0000
Subject: [PATCH 13/19] fix: let the run fail if a snapshot or delta cannot be
 parsed

As documented, content that is not understood must not be accepted. Deltas were
never parsed, and the snapshot only with rsync enabled, after RRDP files were
published.
---
 src/rrdp.rs | 82 +++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 79 insertions(+), 3 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index 1ad2392..f99247c 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -1,5 +1,5 @@
 use std::{
-    fs,
+    fs, io,
     path::{Component, Path, PathBuf},
 };
 
@@ -9,8 +9,11 @@ use serde::{Deserialize, Serialize};
 use uuid::Uuid;
 
 use rpki::{
-    rrdp::{self, DeltaInfo, Hash, NotificationFile, SnapshotInfo},
-    uri::Https,
+    rrdp::{
+        self, DeltaInfo, Hash, NotificationFile, ObjectReader, ProcessDelta, ProcessSnapshot,
+        SnapshotInfo,
+    },
+    uri::{Https, Rsync},
 };
 
 use crate::{
@@ -558,6 +561,10 @@ impl RrdpState {
         let target = config.staging_path(&rel_path);
         fetcher.retrieve_file(snapshot_info.uri(), snapshot_info.hash(), &target)?;
 
+        let mut checker = StagedFileChecker::new(notification.session_id(), notification.serial());
+        ProcessSnapshot::process(&mut checker, open_staged(&target)?)
+            .with_context(|| format!("Cannot parse snapshot: {}", snapshot_info.uri()))?;
+
         Ok(SnapshotState::create(
             notification.session_id(),
             notification.serial(),
@@ -611,6 +618,10 @@ impl RrdpState {
 
                 fetcher.retrieve_file(uri, hash, &target)?;
 
+                let mut checker = StagedFileChecker::new(notification.session_id(), serial);
+                ProcessDelta::process(&mut checker, open_staged(&target)?)
+                    .with_context(|| format!("Cannot parse delta: {uri}"))?;
+
                 new_deltas.push(DeltaState::create(serial, hash, rel_path));
             }
         }
@@ -865,6 +876,71 @@ pub struct StagedFile {
     destination: PathBuf,
 }
 
+/// Checks that a staged snapshot or delta file can be parsed and has the
+/// expected session and serial.
+struct StagedFileChecker {
+    session_id: Uuid,
+    serial: u64,
+}
+
+impl StagedFileChecker {
+    fn new(session_id: Uuid, serial: u64) -> Self {
+        StagedFileChecker { session_id, serial }
+    }
+
+    fn check_meta(&self, session_id: Uuid, serial: u64) -> Result<()> {
+        if session_id != self.session_id || serial != self.serial {
+            Err(anyhow!(
+                "unexpected session '{}' or serial '{}'",
+                session_id,
+                serial
+            ))
+        } else {
+            Ok(())
+        }
+    }
+
+    fn check_object(data: &mut ObjectReader) -> Result<()> {
+        io::copy(data, &mut io::sink())?;
+        Ok(())
+    }
+}
+
+impl ProcessSnapshot for StagedFileChecker {
+    type Err = anyhow::Error;
+
+    fn meta(&mut self, session_id: Uuid, serial: u64) -> Result<()> {
+        self.check_meta(session_id, serial)
+    }
+
+    fn publish(&mut self, _uri: Rsync, data: &mut ObjectReader) -> Result<()> {
+        Self::check_object(data)
+    }
+}
+
+impl ProcessDelta for StagedFileChecker {
+    type Err = anyhow::Error;
+
+    fn meta(&mut self, session_id: Uuid, serial: u64) -> Result<()> {
+        self.check_meta(session_id, serial)
+    }
+
+    fn publish(&mut self, _uri: Rsync, _hash: Option<Hash>, data: &mut ObjectReader) -> Result<()> {
+        Self::check_object(data)
+    }
+
+    fn withdraw(&mut self, _uri: Rsync, _hash: Hash) -> Result<()> {
+        Ok(())
+    }
+}
+
+/// Opens a staged file for reading.
+fn open_staged(path: &Path) -> Result<io::BufReader<fs::File>> {
+    let file = fs::File::open(path)
+        .with_context(|| format!("Cannot open staged file: {}", path.display()))?;
+    Ok(io::BufReader::new(file))
+}
+
 /// Represents a file which is no longer relevant. It can be deleted after a configurable
 /// time since its deprecation has passed.
 #[derive(Clone, Debug, Deserialize, Eq, PartialEq, Serialize)]
-- 
2.43.0


From 6389e1dec679fe5d2f352944079ff54ddd28aa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:10 +0000
Subject: [PATCH 14/19] fix: do not keep deltas that the source does not list

---
 src/rrdp.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index f99247c..394c48d 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -215,6 +215,10 @@ impl RrdpState {
                     .map(|d| d.serial())
                     .unwrap_or_else(|| notification_file.serial());
 
+                // Deltas with a serial higher than this are deprecated as well. There
+                // are none unless the source stopped listing deltas for its last serials.
+                let last_listed = notification_file.deltas().last().map(|d| d.serial());
+
                 let snapshot = self.snapshot_stage(&notification_file, &fetcher, config)?;
                 let deltas =
                     self.deltas_stage(&notification_file, session_reset, &fetcher, config)?;
@@ -224,6 +228,7 @@ impl RrdpState {
                     snapshot,
                     deltas,
                     cutoff,
+                    last_listed,
                     session_reset,
                 }))
             }
@@ -408,6 +413,7 @@ impl RrdpState {
             self.deltas_deprecate_all()
         } else {
             self.deltas_deprecate_before(staged.cutoff);
+            self.deltas_deprecate_after(staged.last_listed);
         }
 
         // add new deltas, re-order delta in descending serial order.
@@ -647,6 +653,18 @@ impl RrdpState {
         }
     }
 
+    /// Remove deltas after the given serial, or all of them if there is none, and
+    /// put them on the deprecated file list.
+    fn deltas_deprecate_after(&mut self, last: Option<u64>) {
+        let (keep, unlisted) = std::mem::take(&mut self.deltas)
+            .into_iter()
+            .partition(|delta| Some(delta.serial) <= last);
+
+        self.deltas = unlisted;
+        self.deltas_deprecate_all();
+        self.deltas = keep;
+    }
+
     /// Forget about the deprecation of files that are part of the current set.
     fn undeprecate_current_files(&mut self) {
         let mut current: Vec<PathBuf> = self
@@ -866,6 +884,7 @@ pub struct StagedChanges {
     snapshot: SnapshotState,
     deltas: Vec<DeltaState>,
     cutoff: u64,         // deprecate existing deltas with a lower serial
+    last_listed: Option<u64>, // deprecate existing deltas with a higher serial
     session_reset: bool, // implies that all current deltas are deprecated
 }
 
-- 
2.43.0


From 8b592ed008379609c7f68005f8457206caafb259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:39 +0000
Subject: [PATCH 15/19] fix: always validate the staged content

Data kept for the source repository was used as is if it was updated less
than an hour ago, so that validation looked at an earlier version instead
of the one about to be published.
---
 src/validation/validator.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 27ceafe..1b14fa2 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -66,8 +66,9 @@ impl Validator {
     }
 
     /// Ensure that the staged data is updated even if we are
-    /// running in offline mode.
+    /// running in offline mode, or updated it recently.
     pub fn initialise_staging_data(&mut self, notify_uri: &uri::Https) -> Result<()> {
+        self.repositories.expire(notify_uri);
         self.repositories
             .get_latest(notify_uri, false, Time::now())?;
         Ok(())
@@ -521,6 +522,15 @@ impl fmt::Display for UriString {
 }
 
 impl VisitedRepositories {
+    /// Ensures that the next call to `get_latest` will check for an update
+    /// for the given notify_uri, no matter when this was last done.
+    fn expire(&mut self, notify_uri: &uri::Https) {
+        if let Some(repo_data) = self.data.get_mut(&notify_uri.into()) {
+            repo_data.fetched = false;
+            repo_data.last_fetch = Time::utc(1970, 1, 1, 0, 0, 0);
+        }
+    }
+
     /// Gets the latest data for the given notify_uri.
     ///
     /// Will update local data if needed, or return existing data if
-- 
2.43.0


From 60ce347e36b37ee7d4303cc0e3191d14e75afca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:53 +0000
Subject: [PATCH 16/19] fix: use deltas only if they lead to the current serial

When the listed deltas did not end at the serial of the notification file,
the data kept for validation was considered up to date although it was not.
---
 src/validation/validator.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 1b14fa2..0384249 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -706,6 +706,13 @@ impl VisitedRepositories {
                 continue;
             } else {
                 let delta = Self::read_delta_file(fetcher, delta_info.uri(), delta_info.hash())?;
+                if delta.session_id() != data.session_id || delta.serial() != delta_info.serial() {
+                    return Err(anyhow!(
+                        "delta at {} is for another session or serial",
+                        delta_info.uri()
+                    ));
+                }
+
                 for element in delta.into_elements() {
                     match element {
                         DeltaElement::Publish(publish) => {
@@ -752,6 +759,16 @@ impl VisitedRepositories {
             }
         }
 
+        // The deltas must lead to the current serial: the notification file
+        // may have a lower serial than our data, or lack the last deltas.
+        if data.serial != notification.serial() {
+            return Err(anyhow!(
+                "deltas lead to {} instead of {}",
+                data.serial,
+                notification.serial()
+            ));
+        }
+
         data.etag = etag;
         data.last_fetch = when;
         data.fetched = true;
-- 
2.43.0


From 98412509d9fe521e96f7704bb52786d0d0f41c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:15 +0000
Subject: [PATCH 17/19] fix: report revoked router certificates

Unlike other objects, BGPSec router certificates were not looked up in the
CRL of the issuing CA.
---
 src/validation/validator.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 0384249..c3f57be 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -387,18 +387,25 @@ impl Validator {
                                     }
                                 } else {
                                     // This should be a BGPSec router (EE) certificate
-                                    match child_cert.validate_router_at(resource_cert, strict, when)
-                                    {
-                                        Ok(_) => {
-                                            ca_cert.add_router_cert(ValidatedRouterCert::new(uri))
-                                        }
-                                        Err(e) => {
-                                            ca_cert.add_issue(
-                                                ValidationIssue::with_uri_and_msg(
-                                                    uri,
-                                                    format!("EE certificate found, but it is an invalid router certificate: {e}")
-                                                )
-                                            );
+                                    if crl.contains(child_cert.serial_number()) {
+                                        ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                                            uri,
+                                            "certificate was revoked",
+                                        ));
+                                    } else {
+                                        match child_cert.validate_router_at(resource_cert, strict, when)
+                                        {
+                                            Ok(_) => {
+                                                ca_cert.add_router_cert(ValidatedRouterCert::new(uri))
+                                            }
+                                            Err(e) => {
+                                                ca_cert.add_issue(
+                                                    ValidationIssue::with_uri_and_msg(
+                                                        uri,
+                                                        format!("EE certificate found, but it is an invalid router certificate: {e}")
+                                                    )
+                                                );
+                                            }
                                         }
                                     }
                                 }
-- 
2.43.0


From 88a827d55135298dade33186b9033a10cacc0b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:36 +0000
Subject: [PATCH 18/19] fix: do not follow certificates round in circles

A CA certificate issued to its issuer's own key, or to that of a CA further
up, made validation recurse without end, until the stack overflowed.
---
 src/validation/validator.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index c3f57be..2ba1ca7 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -6,6 +6,7 @@ use bytes::Bytes;
 use chrono::Duration;
 use log::{debug, info, trace, warn};
 use rpki::{
+    crypto::KeyIdentifier,
     repository::{
         aspa::Aspa, error::VerificationError, x509::Time, Cert, Crl, Manifest, ResourceCert, Roa,
     },
@@ -100,13 +101,14 @@ impl Validator {
         let info = ValidatedCaCertInfo::try_from(&ta_cert)
             .map_err(|e| anyhow!(format!("Invalid TA certificate: {e}")))?;
 
-        Ok(self.validate_tree_at(&ta_cert, &info, offline, when))
+        Ok(self.validate_tree_at(&ta_cert, &info, &[], offline, when))
     }
 
     fn validate_tree_at(
         &mut self,
         resource_cert: &ResourceCert,
         ca_cert_info: &ValidatedCaCertInfo,
+        parents: &[KeyIdentifier],
         offline: bool,
         when: Time,
     ) -> ValidationReport {
@@ -127,6 +129,11 @@ impl Validator {
 
         let mut child_certificates = vec![];
 
+        // The keys of this CA and those it is certified by. A certificate
+        // for any of those would have us go round in circles.
+        let mut chain = parents.to_vec();
+        chain.push(resource_cert.subject_key_identifier());
+
         {
             let mft_uri = &ca_cert_info.sia_mft;
             let sia_ca = &ca_cert_info.sia_ca;
@@ -348,6 +355,11 @@ impl Validator {
                                             uri,
                                             "certificate was revoked",
                                         ));
+                                    } else if chain.contains(&child_cert.subject_key_identifier()) {
+                                        ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                                            uri,
+                                            "certificate is for a CA it was issued under",
+                                        ));
                                     } else {
                                         match child_cert.validate_ca_at(resource_cert, strict, when)
                                         {
@@ -463,7 +475,7 @@ impl Validator {
 
         // recurse child certificates
         for (cert, info) in child_certificates {
-            report.add_other(self.validate_tree_at(&cert, &info, offline, when));
+            report.add_other(self.validate_tree_at(&cert, &info, &chain, offline, when));
         }
 
         report
-- 
2.43.0


From 0ea5832f5a7ca3ec3441a169fbc66c2a23bbd1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:26 +0000
Subject: [PATCH 19/19] fix: judge what the staged snapshot has, not what
 deltas lead to

---
 src/validation/validator.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 2ba1ca7..172469a 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -69,7 +69,7 @@ impl Validator {
     /// Ensure that the staged data is updated even if we are
     /// running in offline mode, or updated it recently.
     pub fn initialise_staging_data(&mut self, notify_uri: &uri::Https) -> Result<()> {
-        self.repositories.expire(notify_uri);
+        self.repositories.forget(notify_uri);
         self.repositories
             .get_latest(notify_uri, false, Time::now())?;
         Ok(())
@@ -541,13 +541,11 @@ impl fmt::Display for UriString {
 }
 
 impl VisitedRepositories {
-    /// Ensures that the next call to `get_latest` will check for an update
-    /// for the given notify_uri, no matter when this was last done.
-    fn expire(&mut self, notify_uri: &uri::Https) {
-        if let Some(repo_data) = self.data.get_mut(&notify_uri.into()) {
-            repo_data.fetched = false;
-            repo_data.last_fetch = Time::utc(1970, 1, 1, 0, 0, 0);
-        }
+    /// Ensures that the next call to `get_latest` will use the snapshot for
+    /// the given notify_uri, no matter when its data was last updated, and
+    /// no matter what the deltas would make of that data.
+    fn forget(&mut self, notify_uri: &uri::Https) {
+        self.data.remove(&notify_uri.into());
     }
 
     /// Gets the latest data for the given notify_uri.
-- 
2.43.0

